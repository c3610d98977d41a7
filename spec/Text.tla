-------------------------------- MODULE Text -------------------------------
(* Shell lines as text: which of the kinds of input a line is, and the       *)
(* numbers in it.                                                            *)
EXTENDS Integers, Sequences, FiniteSets
At(s, i) == SubSeq(s, i, i)
Prefix(p, s) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
From(s, i) == SubSeq(s, i, Len(s))
After(p, s) == From(s, Len(p) + 1)
EndsWith(s, p) == Len(s) >= Len(p) /\ From(s, Len(s) - Len(p) + 1) = p
Spaces == {" ", "\t", "\r", "\n"}
RECURSIVE Trim(_)
Trim(s) == IF s # "" /\ At(s, Len(s)) \in Spaces THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE TrimLeft(_)
TrimLeft(s) == IF s # "" /\ At(s, 1) \in Spaces THEN TrimLeft(From(s, 2)) ELSE s
DigitValue == [d \in {"0","1","2","3","4","5","6","7","8","9"} |->
  CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3 [] d = "4" -> 4 [] d = "5" -> 5 [] d = "6" -> 6 [] d = "7" -> 7 [] d = "8" -> 8 [] d = "9" -> 9]
IsDigit(c) == c \in DOMAIN DigitValue
AllDigits(s) == s # "" /\ \A i \in 1..Len(s) : IsDigit(At(s, i))
\* the natural number at the beginning of s
RECURSIVE NatFrom(_, _)
NatFrom(s, acc) == IF s # "" /\ IsDigit(At(s, 1)) THEN NatFrom(From(s, 2), acc * 10 + DigitValue[At(s, 1)]) ELSE acc
Nat10(s) == NatFrom(s, 0)
\* the integer, with sign, at the beginning of s after blanks
IntOf(s) == LET t == TrimLeft(s) IN IF Prefix("-", t) THEN -Nat10(From(t, 2)) ELSE Nat10(t)
\* the decimal number at the beginning of s, in units of 1e-8
RECURSIVE Fraction(_, _)
Fraction(s, unit) == IF s # "" /\ IsDigit(At(s, 1)) /\ unit > 0 THEN DigitValue[At(s, 1)] * unit + Fraction(From(s, 2), unit \div 10) ELSE 0
RECURSIVE SkipDigits(_)
SkipDigits(s) == IF s # "" /\ IsDigit(At(s, 1)) THEN SkipDigits(From(s, 2)) ELSE s
Decimal0(t) == LET r == SkipDigits(t) IN Nat10(t) * 100000000 + (IF Prefix(".", r) THEN Fraction(From(r, 2), 10000000) ELSE 0)
Decimal(s) == LET t == TrimLeft(s) IN IF Prefix("-", t) THEN -Decimal0(From(t, 2)) ELSE Decimal0(t)
\* blank-separated words
RECURSIVE WordEnd(_, _)
WordEnd(s, i) == IF i > Len(s) \/ At(s, i) \in Spaces THEN i - 1 ELSE WordEnd(s, i + 1)
RECURSIVE Words(_)
Words(s) == LET t == TrimLeft(s) IN IF t = "" THEN <<>> ELSE LET e == WordEnd(t, 1) IN <<SubSeq(t, 1, e)>> \o Words(From(t, e + 1))
\* s without its first n words
RECURSIVE Drop(_, _)
Drop(s, n) == LET t == TrimLeft(s) IN IF n = 0 THEN t ELSE Drop(From(t, WordEnd(t, 1) + 1), n - 1)

\* ---- kinds of lines
Whole == {"*reset", "*volume=0", "*volume=100", "*stats", "*inverted_atom_index", "*opconfig", "*concepts", "*cycling_belief_events", "*cycling_goal_events",
          "quit", "*motorbabbling=false", "*motorbabbling=true"}
Starts == {"*restrictedconceptcreation=true", "*restrictedconceptcreation=false", "*volume=", "*anticipationconfidence=", "*decisionthreshold=", "*similaritydistance=",
           "*babblingops=", "*currenttime=", "*stampid=", "*stampimport=[", "*motorbabbling=", "*questionpriming=", "*setvalue ", "*space ", "*setopname ", "*setoparg ",
           "*query ", "*setopstdin ", "*concurrent"}
\* the command a line is ("" if none): a whole line, or what it starts with
Command(s) == IF s \in Whole THEN s ELSE IF \E p \in Starts : Prefix(p, s) THEN CHOOSE p \in Starts : Prefix(p, s) ELSE ""
Punctuation == {".", "!", "?"}
RECURSIVE LastOf(_, _)
LastOf(s, i) == IF i = 0 THEN "" ELSE IF At(s, i) \in Punctuation /\ (i = Len(s) \/ At(s, i+1) = " ") THEN At(s, i) ELSE LastOf(s, i - 1)
\* the punctuation of a sentence (truth values hold points, but none before a blank or at the end)
Mark(s) == LastOf(s, Len(s))
Question(s) == Mark(s) = "?"
Kind(line) ==
  LET s == Trim(line) IN
  IF s = "" THEN "empty"
  ELSE IF Prefix("//", s) THEN "comment"
  ELSE IF Command(s) # "" THEN "command"
  ELSE IF AllDigits(s) THEN "number"
  ELSE IF Question(s) THEN "question"
  ELSE "sentence"
=============================================================================
