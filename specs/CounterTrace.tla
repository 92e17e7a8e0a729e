--------------------------- MODULE CounterTrace ---------------------------
(* Validates what the real field counter says about texts.                  *)
EXTENDS JsonBytes, FiniteSets, Json, TLC
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE p

Range1(s) == {s[i] : i \in DOMAIN s}
Times(names, x) == Cardinality({i \in DOMAIN names : names[i] = x})

Wrong(r) ==
  LET s == Text(r.text)
      o == r.o
  IN IF o.panic # "" THEN o.panic
     ELSE IF r.kind = "any" THEN ""
     ELSE IF r.kind # "ok"
     THEN IF IsObject(s) THEN "GENERATOR: this text is valid" ELSE IF o.err = "" THEN "no error" ELSE ""
     ELSE IF ~IsObject(s) THEN "GENERATOR: this text is not valid"
     ELSE LET names == Counted(s)
          IN IF o.err # "" THEN "error " \o o.err
             ELSE IF Range1(o.fields) # Range1(names) THEN "fields " \o ToString(o.fields) \o " instead of " \o ToString(Range1(names))
             ELSE IF Len(o.fields) # Cardinality(Range1(names)) THEN "field listed twice"
             ELSE IF o.n # Cardinality(Range1(names)) THEN "number of fields " \o ToString(o.n)
             ELSE IF {<<d.k, d.n>> : d \in Range1(o.dups)} # {<<x, Times(names, x)>> : x \in {y \in Range1(names) : Times(names, y) > 1}}
             THEN "duplicates " \o ToString(o.dups) ELSE ""

TraceInit == p = 1 /\ TLCSet(1, 0)
TraceNext == /\ p <= Len(Trace)
             /\ LET m == Wrong(Trace[p])
                IN IF m = "" THEN TRUE ELSE PrintT("MM|" \o ToString(p) \o "|" \o m)
             /\ p' = p + 1 /\ TLCSet(1, p)
TraceSpec == TraceInit /\ [][TraceNext]_p
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet(1), Len(Trace)>>)
=============================================================================
