------------------------------- MODULE Grammar -----------------------------
(* Narsese text (C07): from characters to tokens, from tokens to a term, and *)
(* the parts of a sentence.                                                  *)
(*   term      ::= atom | variable | '{' term [term] '}' | '[' term [term] ']'                     *)
(*               | open copula term [term] close  |  open term copula term close                   *)
(*   sentence  ::= ['dt=' number ' '] term ('.' | '!' | '?') [' :|:' | ' :\:' | ' :/:']            *)
(*                 [' {' number ' ' number '}' | ' %' number ['; number] '%']                      *)
(* Blanks and commas separate.                                               *)
EXTENDS Narsese
LOCAL X == INSTANCE Text
Copula == ("-->" :> Inh) @@ ("=/>" :> TImp) @@ ("<=>" :> Equ) @@ ("||" :> Disj) @@ ("&/" :> Seq2) @@ ("|->" :> Prop) @@ ("==>" :> Imp) @@ ("&&" :> Conj) @@ ("<->" :> Sim)
          @@ ("/1" :> "/") @@ ("/2" :> "%") @@ ("\\1" :> "\\") @@ ("\\2" :> "#") @@ ("--" :> Neg) @@ ("!" :> Neg) @@ ("*" :> Prod) @@ ("&" :> "&") @@ ("|" :> "|") @@ ("-" :> "-") @@ ("~" :> "~")
          @@ ("+" :> Seq2) @@ ("=" :> Sim)
Opening == {"(", "<", "{", "["}
Closing == {")", ">", "}", "]"}
Begun == {"--", "=/", "==", "<-", "<=", "|-"}     \* what a ">" can end
Flush(w, acc) == IF w = "" THEN acc ELSE Append(acc, w)
RECURSIVE Tokens(_, _, _, _)
Tokens(s, i, w, acc) ==
  IF i > Len(s) THEN Flush(w, acc)
  ELSE LET c == SubSeq(s, i, i) IN
    IF c \in {" ", ","} THEN Tokens(s, i + 1, "", Flush(w, acc))
    ELSE IF \/ c \in {"(", ")", "{", "}", "[", "]"}
            \/ c = "<" /\ (i = Len(s) \/ SubSeq(s, i + 1, i + 1) \notin {"-", "="})
            \/ c = ">" /\ w \notin Begun
         THEN Tokens(s, i + 1, "", Append(Flush(w, acc), c))
    ELSE Tokens(s, i + 1, w \o c, acc)
RECURSIVE Read(_, _)
\* the term whose text begins with token i, and the token after it
Read(ts, i) ==
  LET x == ts[i]
      After(k, c) ==    \* one or two parts from token k to the end of the compound
        LET a == Read(ts, k) IN
        IF ts[a.n] \in Closing THEN [t |-> <<c, a.t, <<End>>>>, n |-> a.n + 1]
        ELSE LET b == Read(ts, a.n) IN [t |-> <<c, a.t, b.t>>, n |-> b.n + 1]
  IN IF x = "{" THEN After(i + 1, ExtSet)
     ELSE IF x = "[" THEN After(i + 1, IntSet)
     ELSE IF x \in {"(", "<"}
     THEN IF ts[i + 1] \in DOMAIN Copula THEN After(i + 2, Copula[ts[i + 1]])
          ELSE LET a == Read(ts, i + 1)  b == Read(ts, a.n + 1) IN [t |-> <<Copula[ts[a.n]], a.t, b.t>>, n |-> b.n + 1]
     ELSE [t |-> <<x>>, n |-> i + 1]
\* ---- variables are numbered in the order in which they occur, level by level
IsVarName(a) == Len(a) > 1 /\ SubSeq(a, 1, 1) \in {"$", "#", "?"}
RECURSIVE ByLevel(_)
ByLevel(ts) == IF ts = <<>> THEN <<>> ELSE LET t == Head(ts) IN
               <<t[1]>> \o ByLevel(Tail(ts) \o (IF Len(t) = 1 THEN <<>> ELSE IF Len(t) = 2 THEN <<t[2]>> ELSE <<t[2], t[3]>>))
RECURSIVE Unique(_, _)
Unique(s, acc) == IF s = <<>> THEN acc ELSE Unique(Tail(s), IF \E i \in 1..Len(acc) : acc[i] = Head(s) THEN acc ELSE Append(acc, Head(s)))
Numbering(t) ==
  LET vs == Unique(SelectSeq(ByLevel(<<t>>), IsVarName), <<>>)
      Rank(i) == Cardinality({ j \in 1..i : SubSeq(vs[j], 1, 1) = SubSeq(vs[i], 1, 1) })
  IN [v \in { vs[i] : i \in 1..Len(vs) } |-> LET i == CHOOSE k \in 1..Len(vs) : vs[k] = v IN SubSeq(v, 1, 1) \o ToString(Rank(i))]
RECURSIVE Rename(_, _)
Rename(t, m) == IF Len(t) = 1 THEN (IF t[1] \in DOMAIN m THEN <<m[t[1]]>> ELSE t)
                ELSE IF Len(t) = 2 THEN <<t[1], Rename(t[2], m)>> ELSE <<t[1], Rename(t[2], m), Rename(t[3], m)>>
Normal(t) == Rename(t, Numbering(t))
Raw(s) == Read(Tokens(s, 1, "", <<>>), 1).t
Term(s) == Normal(Raw(s))
\* it fits into a term's 63 places, at most 9 variables of each sort
RECURSIVE Places(_, _)
Places(t, i) == IF Len(t) = 1 THEN {i} ELSE IF Len(t) = 2 THEN {i} \cup Places(t[2], 2 * i) ELSE {i} \cup Places(t[2], 2 * i) \cup Places(t[3], 2 * i + 1)
Fitting0(t) == \A i \in Places(t, 1) : i <= 64
\* ---- sentences
RECURSIVE LastAt(_, _, _)
LastAt(s, c, i) == IF i = 0 THEN 0 ELSE IF SubSeq(s, i, i) = c THEN i ELSE LastAt(s, c, i - 1)
\* a number in thousandths (long decimals are cut)
Thousandths(s) == LET t == X!TrimLeft(s)  neg == X!Prefix("-", t)  u == IF neg THEN X!From(t, 2) ELSE t  r == X!SkipDigits(u)
                      n == X!Nat10(u) * 1000 + (IF X!Prefix(".", r) THEN X!Fraction(X!From(r, 2), 100) ELSE 0)
                  IN IF neg THEN -n ELSE n
Sentence(line) ==
  LET timed == X!Prefix("dt=", line)
      first == { i \in 1..Len(line) : SubSeq(line, i, i) = " " }
      dt == IF timed THEN Thousandths(X!From(line, 4)) ELSE 0
      s == IF timed THEN X!TrimLeft(X!From(line, CHOOSE i \in first : \A j \in first : i <= j)) ELSE line
      old == X!EndsWith(s, "%")  new == X!EndsWith(s, "}")
      at == IF old THEN LastAt(s, "%", Len(s) - 1) ELSE IF new THEN LastAt(s, "{", Len(s)) ELSE Len(s) + 2
      val == IF old \/ new THEN SubSeq(s, at + 1, Len(s) - 1) ELSE ""
      semi == LastAt(val, ";", Len(val))
      f == IF val = "" THEN 100000000 ELSE X!Decimal(val)
      c == IF val = "" THEN 90000000
           ELSE IF new THEN X!Decimal(X!Drop(val, 1))
           ELSE IF semi > 0 THEN X!Decimal(X!From(val, semi + 1)) ELSE 90000000
      body == SubSeq(s, 1, at - 2)
      tense == CASE X!EndsWith(body, ":|:") -> 1 [] X!EndsWith(body, ":\\:") -> 2 [] X!EndsWith(body, ":/:") -> 3 [] OTHER -> 0
      text == IF tense = 0 THEN body ELSE SubSeq(body, 1, Len(body) - 4)
  IN [text |-> SubSeq(text, 1, Len(text) - 1), mark |-> SubSeq(text, Len(text), Len(text)), tense |-> tense, f |-> f, c |-> c, dt |-> dt]
=============================================================================
