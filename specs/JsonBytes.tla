----------------------------- MODULE JsonBytes -----------------------------
(* JSON texts as sequences of bytes.  A pushdown automaton (RFC 8259 with   *)
(* UTF-8 checked) whose state is the record below; Text(bs) runs it over a  *)
(* text.  toks collects what the text contains, in order:                   *)
(*   [t |-> "k" name | "s" string | "o" object | "a" array | "v" other,     *)
(*    d |-> depth, c |-> code points of a name or string].                  *)
EXTENDS Integers, Sequences, SequencesExt

Space == {32, 9, 10, 13}
Digit == 48..57
Quote == 34
Back  == 92
HexVal(b) == IF b \in 48..57 THEN b - 48 ELSE IF b \in 65..70 THEN b - 55 ELSE IF b \in 97..102 THEN b - 87 ELSE -1
IsHigh(c) == c \in 55296..56319
IsLow(c)  == c \in 56320..57343

(* ---- UTF-8 ---- *)
Cont(b) == b \in 128..191
LeadLen(b) == IF b < 128 THEN 1 ELSE IF b \in 194..223 THEN 2 ELSE IF b \in 224..239 THEN 3
              ELSE IF b \in 240..244 THEN 4 ELSE 0
SecondOK(b, c) == CASE b = 224 -> c \in 160..191
                    [] b = 237 -> c \in 128..159
                    [] b = 240 -> c \in 144..191
                    [] b = 244 -> c \in 128..143
                    [] OTHER   -> Cont(c)
LeadBits(b) == CASE LeadLen(b) = 2 -> b - 192 [] LeadLen(b) = 3 -> b - 224 [] LeadLen(b) = 4 -> b - 240 [] OTHER -> b

(* The length of the valid sequence that starts at index i, or 0. *)
SeqLen(bs, i) ==
  LET n == LeadLen(bs[i])
  IN IF n = 0 \/ i + n - 1 > Len(bs) THEN 0
     ELSE IF n = 1 THEN 1
     ELSE IF SecondOK(bs[i], bs[i+1]) /\ (n < 3 \/ Cont(bs[i+2])) /\ (n < 4 \/ Cont(bs[i+3])) THEN n ELSE 0
CodeAt(bs, i, n) ==
  CASE n = 1 -> bs[i]
    [] n = 2 -> LeadBits(bs[i]) * 64 + (bs[i+1] - 128)
    [] n = 3 -> (LeadBits(bs[i]) * 64 + (bs[i+1] - 128)) * 64 + (bs[i+2] - 128)
    [] n = 4 -> ((LeadBits(bs[i]) * 64 + (bs[i+1] - 128)) * 64 + (bs[i+2] - 128)) * 64 + (bs[i+3] - 128)

(* Decoded text: a code point for each valid sequence, -1 for each byte     *)
(* that is part of none.                                                    *)
RECURSIVE DecodeFrom(_, _)
DecodeFrom(bs, i) ==
  IF i > Len(bs) THEN <<>>
  ELSE LET n == SeqLen(bs, i)
       IN IF n = 0 THEN <<-1>> \o DecodeFrom(bs, i + 1)
          ELSE <<CodeAt(bs, i, n)>> \o DecodeFrom(bs, i + n)
Decode(bs) == IF \A i \in DOMAIN bs : bs[i] < 128 THEN bs ELSE DecodeFrom(bs, 1)
Valid(bs) == \A i \in DOMAIN Decode(bs) : Decode(bs)[i] # -1

(* out is the text bs with each run of n invalid bytes replaced by one to n *)
(* replacement characters.                                                  *)
RoundTrip(bs, out) ==
  LET in == Decode(bs)
      step(S, x) == UNION {
        IF x = -1
        THEN (IF s[1] < Len(out) /\ out[s[1]+1] = 65533 THEN {<<s[1]+1, TRUE>>} ELSE {})
             \cup (IF s[2] THEN {s} ELSE {})
        ELSE IF s[1] < Len(out) /\ out[s[1]+1] = x THEN {<<s[1]+1, FALSE>>} ELSE {} : s \in S}
  IN IF in = out THEN TRUE ELSE \E b \in BOOLEAN : <<Len(out), b>> \in FoldLeft(step, {<<0, FALSE>>}, in)

(* ---- the automaton ---- *)
Begin == [st |-> "val", stk |-> <<>>, key |-> FALSE, cur |-> <<>>, acc |-> 0, need |-> 0, lead |-> 0, toks |-> <<>>]

Bad(s) == [s EXCEPT !.st = "bad"]
Go(s, st) == [s EXCEPT !.st = st]
Tok(s, t, c) == Append(s.toks, [t |-> t, d |-> Len(s.stk), c |-> c])
AddCode(s, c) == LET n == Len(s.cur)
                 IN IF IsLow(c) /\ n > 0 /\ IsHigh(s.cur[n])
                    THEN [s EXCEPT !.st = "str", !.cur[n] = 65536 + (s.cur[n] - 55296) * 1024 + (c - 56320)]
                    ELSE [s EXCEPT !.st = "str", !.cur = Append(s.cur, c)]
Close(s, b) == IF s.stk # <<>> /\ s.stk[Len(s.stk)] = b THEN [s EXCEPT !.st = "next", !.stk = Front(s.stk)] ELSE Bad(s)

Keyword == [t |-> <<114, 117, 101>>, f |-> <<97, 108, 115, 101>>, n |-> <<117, 108, 108>>]
Word(s, w) == [s EXCEPT !.st = "word", !.cur = w, !.toks = Tok(s, "v", <<>>)]

Value(s, b) ==
  CASE b = 123 -> [s EXCEPT !.st = "keyend", !.toks = Tok(s, "o", <<>>), !.stk = Append(s.stk, 123)]
    [] b = 91  -> [s EXCEPT !.st = "valend", !.toks = Tok(s, "a", <<>>), !.stk = Append(s.stk, 91)]
    [] b = Quote -> [s EXCEPT !.st = "str", !.key = FALSE, !.cur = <<>>]
    [] b = 116 -> Word(s, Keyword.t)
    [] b = 102 -> Word(s, Keyword.f)
    [] b = 110 -> Word(s, Keyword.n)
    [] b = 45  -> [s EXCEPT !.st = "minus", !.toks = Tok(s, "v", <<>>)]
    [] b = 48  -> [s EXCEPT !.st = "zero", !.toks = Tok(s, "v", <<>>)]
    [] b \in 49..57 -> [s EXCEPT !.st = "int", !.toks = Tok(s, "v", <<>>)]
    [] OTHER   -> Bad(s)
Key(s) == [s EXCEPT !.st = "str", !.key = TRUE, !.cur = <<>>]

Next0(s, b) ==
  CASE s.stk = <<>> -> Bad(s)
    [] b = 44 -> Go(s, IF s.stk[Len(s.stk)] = 123 THEN "key" ELSE "val")
    [] b = 125 -> Close(s, 123)
    [] b = 93 -> Close(s, 91)
    [] OTHER -> Bad(s)
(* After a number: anything that may follow a value. *)
After(s, b) == IF b \in Space THEN Go(s, "next") ELSE Next0(Go(s, "next"), b)

StrByte(s, b) ==
  CASE b = Quote -> IF s.key THEN [s EXCEPT !.st = "colon", !.toks = Tok(s, "k", s.cur)]
                             ELSE [s EXCEPT !.st = "next", !.toks = Tok(s, "s", s.cur)]
    [] b = Back -> Go(s, "esc")
    [] b < 32 -> Bad(s)
    [] b < 128 -> [s EXCEPT !.cur = Append(s.cur, b)]
    [] LeadLen(b) = 0 -> Bad(s)
    [] OTHER -> [s EXCEPT !.st = "utf", !.acc = LeadBits(b), !.need = LeadLen(b) - 1, !.lead = b]

Byte(s, b) ==
  CASE s.st = "bad" -> s
    [] s.st = "str" -> StrByte(s, b)
    [] s.st = "utf" -> IF ~(IF s.lead > 0 THEN SecondOK(s.lead, b) ELSE Cont(b)) THEN Bad(s)
                       ELSE IF s.need = 1 THEN AddCode(s, s.acc * 64 + (b - 128))
                       ELSE [s EXCEPT !.acc = @ * 64 + (b - 128), !.need = @ - 1, !.lead = 0]
    [] s.st = "esc" -> CASE b = Quote -> AddCode(s, Quote) [] b = Back -> AddCode(s, Back) [] b = 47 -> AddCode(s, 47)
                         [] b = 98 -> AddCode(s, 8) [] b = 102 -> AddCode(s, 12) [] b = 110 -> AddCode(s, 10)
                         [] b = 114 -> AddCode(s, 13) [] b = 116 -> AddCode(s, 9)
                         [] b = 117 -> [s EXCEPT !.st = "hex", !.acc = 0, !.need = 4]
                         [] OTHER -> Bad(s)
    [] s.st = "hex" -> IF HexVal(b) < 0 THEN Bad(s)
                       ELSE IF s.need = 1 THEN AddCode(s, s.acc * 16 + HexVal(b))
                       ELSE [s EXCEPT !.acc = @ * 16 + HexVal(b), !.need = @ - 1]
    [] s.st = "word" -> IF b # s.cur[1] THEN Bad(s)
                        ELSE IF Len(s.cur) = 1 THEN Go(s, "next") ELSE [s EXCEPT !.cur = Tail(s.cur)]
    [] s.st = "minus" -> IF b = 48 THEN Go(s, "zero") ELSE IF b \in 49..57 THEN Go(s, "int") ELSE Bad(s)
    [] s.st = "zero" -> IF b = 46 THEN Go(s, "dot") ELSE IF b \in {69, 101} THEN Go(s, "e") ELSE After(s, b)
    [] s.st = "int" -> IF b \in Digit THEN s ELSE IF b = 46 THEN Go(s, "dot")
                       ELSE IF b \in {69, 101} THEN Go(s, "e") ELSE After(s, b)
    [] s.st = "dot" -> IF b \in Digit THEN Go(s, "frac") ELSE Bad(s)
    [] s.st = "frac" -> IF b \in Digit THEN s ELSE IF b \in {69, 101} THEN Go(s, "e") ELSE After(s, b)
    [] s.st = "e" -> IF b \in {43, 45} THEN Go(s, "esign") ELSE IF b \in Digit THEN Go(s, "exp") ELSE Bad(s)
    [] s.st = "esign" -> IF b \in Digit THEN Go(s, "exp") ELSE Bad(s)
    [] s.st = "exp" -> IF b \in Digit THEN s ELSE After(s, b)
    [] b \in Space -> s
    [] s.st = "val" -> Value(s, b)
    [] s.st = "valend" -> IF b = 93 THEN Close(s, 91) ELSE Value(s, b)
    [] s.st = "keyend" -> IF b = Quote THEN Key(s) ELSE IF b = 125 THEN Close(s, 123) ELSE Bad(s)
    [] s.st = "key" -> IF b = Quote THEN Key(s) ELSE Bad(s)
    [] s.st = "colon" -> IF b = 58 THEN Go(s, "val") ELSE Bad(s)
    [] s.st = "next" -> Next0(s, b)

Text(bs) == FoldLeft(Byte, Begin, bs)
Complete(s) == s.stk = <<>> /\ s.st \in {"next", "zero", "int", "frac", "exp"}
IsObject(s) == Complete(s) /\ s.toks # <<>> /\ s.toks[1].t = "o"

(* ---- what the field counter has to find ---- *)
FieldsName == <<102, 105, 101, 108, 100, 115>>
(* The names counted: those of the top level, a member "fields" that holds  *)
(* an object replaced by the members of that object.                        *)
CountStep(a, t) ==
  IF t.t = "k" /\ t.d = 1 THEN [a EXCEPT !.names = Append(@, t.c), !.last = t.c, !.in = FALSE]
  ELSE IF t.t = "o" /\ t.d = 1 /\ a.last = FieldsName THEN [a EXCEPT !.names = Front(@), !.in = TRUE]
  ELSE IF t.t = "k" /\ t.d = 2 /\ a.in THEN [a EXCEPT !.names = Append(@, t.c)]
  ELSE a
Counted(s) == FoldLeft(CountStep, [names |-> <<>>, last |-> <<>>, in |-> FALSE], s.toks).names
=============================================================================
