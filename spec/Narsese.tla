------------------------------- MODULE Narsese -----------------------------
(* How terms are written (C07, C15, C21).                                    *)
EXTENDS Terms, TLC
Symbol == (Inh :> "-->") @@ (TImp :> "=/>") @@ (Equ :> "<=>") @@ (Disj :> "||") @@ (Seq2 :> "&/") @@ (Prop :> "|->") @@ (Imp :> "==>")
          @@ (Conj :> "&&") @@ (Sim :> "<->") @@ ("/" :> "/1") @@ ("%" :> "/2") @@ ("\\" :> "\\1") @@ ("#" :> "\\2")
Written(a) == IF a \in DOMAIN Symbol THEN Symbol[a] ELSE a
Statements == {TImp, Inh, Sim, Imp, Equ, Prop}
RECURSIVE Show(_)
Show(t) ==
  IF Leaf(t) THEN (IF t \in {<<End>>, NoTerm} THEN "" ELSE Written(t[1]))
  ELSE
  LET c == t[1]
      two == Len(t) = 3 /\ t[3][1] # End
      left == Show(t[2])
      right == IF Len(t) = 3 THEN Show(t[3]) ELSE ""
      items == left \o (IF two THEN " " ELSE "") \o right
      mark == CASE c = Seq2 -> "+" [] c = Sim -> "=" [] OTHER -> Written(c)
  IN CASE c = ExtSet -> "{" \o items \o "}"
       [] c = IntSet -> "[" \o items \o "]"
       [] c = Neg \/ (c \in {Prod, Seq2, Sim} /\ ~two) -> "(" \o mark \o " " \o items \o ")"
       [] c \in Statements -> "<" \o left \o (IF two THEN " " ELSE "") \o Written(c) \o " " \o right \o ">"
       [] OTHER -> "(" \o left \o (IF two THEN " " ELSE "") \o Written(c) \o " " \o right \o ")"
=============================================================================
