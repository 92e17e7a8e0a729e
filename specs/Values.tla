------------------------------ MODULE Values ------------------------------
(* How a single attribute value is rendered: values of every kind, wrapped  *)
(* in LogValuers and groups in every order.  A value v is                   *)
(*   [t |-> kind, s |-> text, n |-> numbers, a |-> parts].                  *)
EXTENDS Integers, Sequences, SequencesExt, Json, TLC

(* ---- times ---- *)
Pad(n, w) == LET s == ToString(n)
                 z == [i \in 1..w |-> "0"]
             IN FoldLeft(LAMBDA x, y : x \o y, "", SubSeq(z, 1, IF Len(s) < w THEN w - Len(s) ELSE 0)) \o s
RECURSIVE Trim(_, _)
Trim(n, w) == IF n % 10 = 0 THEN Trim(n \div 10, w - 1) ELSE Pad(n, w)
Zone(m) == IF m = 0 THEN "Z"
           ELSE LET x == IF m < 0 THEN -m ELSE m
                IN (IF m < 0 THEN "-" ELSE "+") \o Pad(x \div 60, 2) \o ":" \o Pad(x % 60, 2)
(* n = year, month, day, hour, minute, second, nanoseconds, zone in minutes *)
RFC3339(n) == Pad(n[1], 4) \o "-" \o Pad(n[2], 2) \o "-" \o Pad(n[3], 2) \o "T" \o Pad(n[4], 2) \o ":" \o Pad(n[5], 2)
              \o ":" \o Pad(n[6], 2) \o (IF n[7] = 0 THEN "" ELSE "." \o Trim(n[7], 9)) \o Zone(n[8])

(* ---- the JSON encoding of other values, as tokens of the driver ---- *)
Number == {"int", "uint", "dur", "named", "small", "usmall", "uintptr", "ptrint", "enum"}
Text_  == {"str", "err", "stringer", "text", "json", "ip", "mac", "net", "url", "namedstr", "level", "bytes", "both", "werr"}
Null   == {"nil", "nilptr", "nilslice", "nilmap"}
Broken == {"nan", "chan", "func", "complex", "nanlist", "boolkey", "badjson", "badtext", "selfvaluer", "panicvaluer", "badstruct", "longchain"}

RECURSIVE ArrayToken(_), ObjectToken(_), Inner(_)
Inner(v) == CASE v.t = "list" -> <<"[", ArrayToken(v)>>
              [] v.t = "dict" -> <<"{", ObjectToken(v)>>
              [] v.t = "bool" -> <<"b:" \o v.s>>
              [] v.t \in Null -> <<"z">>
              [] v.t \in Number -> <<"n:" \o v.s>>
              [] OTHER -> <<"s:" \o v.s>>
ArrayToken(v) == [i \in DOMAIN v.a |-> Inner(v.a[i])]
ObjectToken(v) == [i \in DOMAIN v.a |-> <<v.a[i].k, Inner(v.a[i])>>]

(* What the value has to look like: a token tree, or "?" for any string.    *)
Token(v) == CASE v.t = "time"   -> <<"s:" \o RFC3339(v.n)>>
              [] v.t = "float"  -> <<"f:" \o v.s>>
              [] v.t \in Broken -> <<"?">>
              [] OTHER          -> Inner(v)

(* ---- wrappers, outermost first: a LogValuer (by value, by pointer), a    *)
(* named group, an unnamed group.                                           *)
Wraps == {"lv", "plv", "grp", "inl"}
(* The path at which the value ends up below its key.                       *)
RECURSIVE Path(_, _)
Path(w, key) ==
  IF w = <<>> THEN <<key>>
  ELSE CASE w[1] \in {"lv", "plv"} -> Path(Tail(w), key)
         [] w[1] = "grp" -> <<key>> \o Path(Tail(w), "x")
         [] w[1] = "inl" -> Path(Tail(w), key)

(* ---- model: LogValuers are resolved step by step while rendering ---- *)
CONSTANTS MaxWrap, Kinds, Once, Emit
VARIABLES w, kind, left, path, done
vars == <<w, kind, left, path, done>>
Init == /\ kind \in Kinds /\ w \in UNION {[1..n -> Wraps] : n \in 0..MaxWrap}
        /\ left = w /\ path = <<"k">> /\ done = FALSE
(* A renderer meets the outermost wrapper that is left.                     *)
Resolve == left # <<>> /\ left[1] \in {"lv", "plv"}
           /\ (IF Once /\ Len(left) > 1 THEN left[2] \notin {"lv", "plv"} ELSE TRUE)
           /\ left' = Tail(left) /\ UNCHANGED <<w, kind, path, done>>
Open == left # <<>> /\ left[1] = "grp" /\ left' = Tail(left) /\ path' = Append(path, "x") /\ UNCHANGED <<w, kind, done>>
Inline == left # <<>> /\ left[1] = "inl" /\ left' = Tail(left) /\ UNCHANGED <<w, kind, path, done>>
Leaf == left = <<>> /\ ~done /\ done' = TRUE /\ UNCHANGED <<w, kind, left, path>>
Next == Resolve \/ Open \/ Inline \/ Leaf
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Placed == done => path = Path(w, "k")
Rendered == <>done
EmitCase == (Emit /\ done) => PrintT("CASE " \o ToJson([w |-> w, kind |-> kind]))
=============================================================================
