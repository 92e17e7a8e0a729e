---------------------------- MODULE ValuesTrace ----------------------------
(* Validates how the real handlers rendered single values.  r.o.tree is the *)
(* attribute part of the record: entries [k, j, f, l] with the leaf token j *)
(* ("{" object with members f, "[" array with elements l).                  *)
EXTENDS Integers, Sequences, TLC
VARIABLE p, w, kind, left, path, done
V == INSTANCE Values WITH MaxWrap <- 0, Kinds <- {}, Once <- FALSE, Emit <- FALSE
LOCAL INSTANCE Json
Trace == ndJsonDeserialize("trace.ndjson")

RECURSIVE Same(_, _)
Same(tok, e) ==
  CASE tok[1] = "?" -> Len(e.j) >= 2 /\ SubSeq(e.j, 1, 2) = "s:"
    [] tok[1] = "[" -> e.j = "[" /\ Len(e.l) = Len(tok[2]) /\ \A i \in DOMAIN e.l : Same(tok[2][i], e.l[i])
    [] tok[1] = "{" -> e.j = "{" /\ Len(e.f) = Len(tok[2])
                       /\ \A i \in DOMAIN e.f : e.f[i].k = tok[2][i][1] /\ Same(tok[2][i][2], e.f[i])
    [] OTHER -> e.j = tok[1]

RECURSIVE At(_, _)
(* The tree has exactly one field along the path; it is the value.          *)
At(tree, pth) == IF Len(tree) # 1 \/ tree[1].k # pth[1] THEN <<>>
                 ELSE IF Len(pth) = 1 THEN <<tree[1]>>
                 ELSE IF tree[1].j = "{" THEN At(tree[1].f, Tail(pth)) ELSE <<>>

Wrong(r) ==
  IF r.o.panic # "" THEN r.o.panic
  ELSE IF r.o.err # "" THEN "error " \o r.o.err
  ELSE IF ~r.o.ok THEN "not one valid record"
  ELSE IF r.o.rest # "" THEN "another field harmed: " \o r.o.rest
  ELSE LET e == At(r.o.tree, V!Path(r.w, "k"))
       IN IF e = <<>> THEN "value not at its place"
          ELSE IF Same(V!Token(r.v), e[1]) THEN ""
          ELSE r.v.t \o " rendered as " \o ToString(e[1].j) \o " instead of " \o ToString(V!Token(r.v))

TraceInit == p = 1 /\ w = 0 /\ kind = 0 /\ left = 0 /\ path = 0 /\ done = 0 /\ TLCSet(1, 0)
TraceNext == /\ p <= Len(Trace)
             /\ LET m == Wrong(Trace[p])
                IN IF m = "" THEN TRUE ELSE PrintT("MM|" \o ToString(p) \o "|" \o m)
             /\ p' = p + 1 /\ TLCSet(1, p) /\ UNCHANGED <<w, kind, left, path, done>>
TraceSpec == TraceInit /\ [][TraceNext]_<<p, w, kind, left, path, done>>
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet(1), Len(Trace)>>)
=============================================================================
