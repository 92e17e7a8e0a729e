------------------------------ MODULE Report -------------------------------
(* What a report shows of the input: numbers, order, records by name.       *)
EXTENDS Warnings
B == INSTANCE Bench WITH FirstWins <- FALSE
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE p
R == Trace[p]
Map(s, F(_)) == [i \in DOMAIN s |-> F(s[i])]
Same(s, t) == Len(s) = Len(t) /\ \A x \in RangeOf(s) : Len(SelectSeq(s, LAMBDA y : y = x)) = Len(SelectSeq(t, LAMBDA y : y = x))
Exactly(s, S) == Len(s) = Cardinality(S) /\ RangeOf(s) = S
Order == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
RECURSIVE Place(_, _)
Place(c, i) == IF i > Len(Order) \/ SubSeq(Order, i, i) = c THEN i ELSE Place(c, i + 1)
RECURSIVE Less(_, _)
Less(a, b) == IF b = "" THEN FALSE ELSE IF a = "" THEN TRUE
              ELSE LET x == SubSeq(a, 1, 1) y == SubSeq(b, 1, 1)
                   IN IF x = y THEN Less(From(a, 2), From(b, 2)) ELSE Place(x, 1) < Place(y, 1)
Sorted(s) == \A i \in 1 .. Len(s) - 1 : ~Less(s[i + 1], s[i])

(* ---- numbers ---- *)
Ch(s, i) == SubSeq(s, i, i)
RECURSIVE Grouped(_, _)
Grouped(s, g) == IF Len(s) <= 3 THEN s ELSE Grouped(SubSeq(s, 1, Len(s) - 3), g) \o g \o SubSeq(s, Len(s) - 2, Len(s))
RECURSIVE Point(_, _)
Point(s, i) == IF i > Len(s) THEN i ELSE IF Ch(s, i) = "." THEN i ELSE Point(s, i + 1)
RECURSIVE Unlead(_)
Unlead(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN Unlead(From(s, 2)) ELSE s
Digits == "0123456789"
RECURSIVE Inc(_)
Inc(s) == IF s = "" THEN "1" ELSE IF Ch(s, Len(s)) = "9" THEN Inc(SubSeq(s, 1, Len(s) - 1)) \o "0"
          ELSE SubSeq(s, 1, Len(s) - 1) \o (LET i == CHOOSE i \in 1 .. 9 : Ch(Digits, i) = Ch(s, Len(s)) IN Ch(Digits, i + 1))
Whole(s, f) == Grouped(Unlead(s), f.group)
RECURSIVE Zeros(_)
Zeros(n) == IF n = 0 THEN "" ELSE "0" \o Zeros(n - 1)
Pad(s, n) == IF Len(s) >= n THEN s ELSE Zeros(n - Len(s)) \o s
(* The number with n decimals; a number in the middle is rounded up here.    *)
Rounded(s, n, f, up) ==
  LET d == Point(s, 1)
      t == From(s, d + 1) \o Zeros(n + 1)
      m == Unlead(IF up THEN Inc(SubSeq(s, 1, d - 1) \o SubSeq(t, 1, n)) ELSE SubSeq(s, 1, d - 1) \o SubSeq(t, 1, n))
      w == Pad(m, n + 1)
  IN Grouped(SubSeq(w, 1, Len(w) - n), f.group) \o f.point \o SubSeq(w, Len(w) - n + 1, Len(w))
Next2(s, n) == LET d == Point(s, 1) t == From(s, d + 1) \o Zeros(n + 1) IN Ch(t, n + 1)
Fix(s, n, f) == Rounded(s, n, f, Next2(s, n) \in {"5", "6", "7", "8", "9"})
Cents(s, f) == Fix(s, 2, f)
Opt(s) == IF s = "" THEN "0" ELSE s
Label == {"Runs", "Ns/Op", "Allocs/Op", "Bytes/Op", "MB/Sec"}
Cell(v, label, f) == CASE label = "Runs" -> Whole(v.runs, f) [] label = "Ns/Op" -> Cents(v.ns, f) [] label = "Allocs/Op" -> Whole(Opt(v.allocs), f)
                       [] label = "Bytes/Op" -> Whole(Opt(v.bytes), f) [] OTHER -> Cents(Opt(v.mb), f)
FirstBad(s, F(_)) == LET b == SelectInSeq(s, LAMBDA v : F(v) # "") IN IF b = 0 THEN "" ELSE F(s[b])
Severity(n) == CASE n = 4 -> "Required" [] n = 3 -> "Implied" [] n = 2 -> "Suggested" [] OTHER -> "Administrative"
Rank(n) == CHOOSE i \in 1 .. 4 : Severity(i) = n
Plain(s, x) == s[CHOOSE i \in DOMAIN s : s[i].tag = x].name


=============================================================================
