------------------------------ MODULE Escape ------------------------------
(* Design of the JSON string encoding: every text built from the bytes of   *)
(* an alphabet is encoded and read back by the automaton of JsonBytes.      *)
EXTENDS JsonBytes, Json, TLC
CONSTANTS Alphabet, MaxLen, Skip, Emit
VARIABLES text
vars == <<text>>

Hex == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 65, 66, 67, 68, 69, 70>>
UEsc(b) == <<92, 117, 48, 48, Hex[(b \div 16) + 1], Hex[(b % 16) + 1]>>
EncByte(b) == IF b \in Skip THEN <<b>>
              ELSE CASE b = Quote -> <<92, Quote>> [] b = Back -> <<92, Back>>
                     [] b = 10 -> <<92, 110>> [] b = 13 -> <<92, 114>> [] b = 9 -> <<92, 116>>
                     [] b = 8 -> <<92, 98>> [] b = 12 -> <<92, 102>>
                     [] b < 32 -> UEsc(b) [] OTHER -> <<b>>
RECURSIVE EncFrom(_, _)
EncFrom(bs, i) ==
  IF i > Len(bs) THEN <<>>
  ELSE LET n == SeqLen(bs, i)
       IN IF n = 0 THEN (IF 255 \in Skip THEN <<bs[i]>> ELSE <<239, 191, 189>>) \o EncFrom(bs, i + 1)
          ELSE IF n = 1 THEN EncByte(bs[i]) \o EncFrom(bs, i + 1)
          ELSE SubSeq(bs, i, i + n - 1) \o EncFrom(bs, i + n)
Enc(bs) == <<Quote>> \o EncFrom(bs, 1) \o <<Quote>>

Init == text = <<>>
Next == Len(text) < MaxLen /\ \E b \in Alphabet : text' = Append(text, b)
Spec == Init /\ [][Next]_vars

ReadsBack == LET s == Text(Enc(text))
             IN Complete(s) /\ Len(s.toks) = 1 /\ s.toks[1].t = "s" /\ RoundTrip(text, s.toks[1].c)
                /\ (Valid(text) => s.toks[1].c = Decode(text))
                /\ ~\E i \in DOMAIN Enc(text) : Enc(text)[i] \in {10, 13}
EmitText == Emit => PrintT("CASE " \o ToJson(text))
=============================================================================
