------------------------------ MODULE JsonGen ------------------------------
(* Builds JSON texts lexeme by lexeme next to the automaton of JsonBytes.   *)
(* Emits every complete object, every prefix of one that breaks off, and    *)
(* every prefix continued by a lexeme that may not come next.               *)
EXTENDS JsonBytes, Json, TLC
CONSTANTS MaxLex, MaxDepth, Emit
VARIABLES text, at, n, wrong

Str(s) == <<34>> \o s \o <<34>>
A == <<97>>
B == <<92, 117, 48, 48, 54, 49>>            \* another spelling of "a"
Esc == <<92, 34, 44, 123, 92, 92>>          \* text that looks like structure
\* { } [ ] , : "a" "\u0061" "fields" "<escapes>" 0 -1.5e+3 true null
Lexemes == <<<<123>>, <<125>>, <<91>>, <<93>>, <<44>>, <<58>>, Str(A), Str(B), Str(FieldsName), Str(Esc),
             <<48>>, <<45, 49, 46, 53, 101, 43, 51>>, <<116, 114, 117, 101>>, <<32, 110, 117, 108, 108>>>>
Structural == 1..6

Run(s, bs) == FoldLeft(Byte, s, bs)
(* Number, keyword and string lexemes must not fuse with their neighbour. *)
Fuses(i) == at.st \in {"zero", "int", "frac", "exp"} /\ i \in 11..14

Init == text = <<123>> /\ at = Run(Begin, <<123>>) /\ n = 1 /\ wrong = 0
Add(i) == LET s == Run(at, Lexemes[i])
          IN /\ n < MaxLex /\ wrong = 0 /\ ~Complete(at) /\ ~Fuses(i)
             /\ s.st # "bad" => Len(s.stk) <= MaxDepth
             /\ text' = text \o Lexemes[i] /\ n' = n + 1
             /\ IF s.st = "bad" THEN wrong' = i /\ at' = at
                ELSE wrong' = 0 /\ at' = s
Next == \E i \in DOMAIN Lexemes : Add(i)
Spec == Init /\ [][Next]_<<text, at, n, wrong>>

(* Sanity of the automaton: it agrees with itself on the whole text, and a  *)
(* text is complete exactly when all brackets are closed.                   *)
Agrees == /\ wrong = 0 => Text(text) = at
          /\ wrong # 0 => Text(text).st = "bad"
          /\ Complete(at) => IsObject(at) /\ Counted(at) \in Seq(Seq(Int))

Closers == [i \in 1..Len(at.stk) |-> IF at.stk[Len(at.stk) + 1 - i] = 123 THEN 125 ELSE 93]
(* Known leniency that concerns no field: a comma before a closing bracket. *)
Trailing == wrong \in {2, 4} /\ at.st \in {"key", "val"} /\ Len(text) > 1 /\ text[Len(text) - 1] = 44
Ambiguous == LET ks == SelectSeq(at.toks, LAMBDA t : t.t = "k" /\ t.c = FieldsName) IN \E i \in DOMAIN ks : ks[i].d > 1
EmitText == Emit =>
  IF wrong # 0 THEN (~Trailing => PrintT("CASE " \o ToJson([kind |-> "bad", text |-> text \o <<32>> \o Closers])))
  ELSE IF Complete(at) THEN (~Ambiguous => PrintT("CASE " \o ToJson([kind |-> "ok", text |-> text])))
  ELSE PrintT("CASE " \o ToJson([kind |-> "cut", text |-> text]))
=============================================================================
