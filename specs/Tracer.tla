------------------------------ MODULE Tracer ------------------------------
(* The trace handler: a tree of derived handlers; every call prints a line  *)
(* indented by the derivations on the path of the handler it is made on.    *)
EXTENDS Integers, Sequences, SequencesExt, Json, TLC

(* ---- what a call prints ---- *)
Spaces(d) == FoldLeft(LAMBDA s, i : s \o "  ", "", [i \in 1..d |-> i])
Join(ss, sep) == FoldLeft(LAMBDA s, x : IF s = "" THEN x ELSE s \o sep \o x, "", ss)
AttrText(a) == a.k \o "=" \o a.v
Record(r) == r.level \o " \"" \o r.msg \o "\""
             \o (IF r.as = <<>> THEN "" ELSE " {" \o Join([i \in DOMAIN r.as |-> AttrText(r.as[i])], ", ") \o "}")
Argument(e) == CASE e.op = "Enabled"   -> e.level
                 [] e.op = "Handle"    -> Record(e)
                 [] e.op = "WithGroup" -> e.n
                 [] e.op = "WithAttrs" -> "[" \o Join([i \in DOMAIN e.as |-> AttrText(e.as[i])], " ") \o "]"
Line(indent, d, e) == indent \o Spaces(d) \o e.op \o "(" \o Argument(e) \o ")"

(* ---- model ---- *)
CONSTANTS Depth, Global, Emit
VARIABLES parent, depth, hist, out
vars == <<parent, depth, hist, out>>
Ops == {"Enabled", "Handle", "WithAttrs", "WithGroup"}
Init == parent = <<0>> /\ depth = <<0>> /\ hist = <<>> /\ out = <<>>
Call(h, op) ==
  /\ Len(hist) < Depth
  /\ hist' = Append(hist, [op |-> op, h |-> h])
  /\ out' = Append(out, <<h, op, depth[h]>>)
  /\ IF op \in {"WithAttrs", "WithGroup"}
     THEN /\ parent' = Append(parent, h)
          /\ depth' = Append(depth, IF Global THEN Len(depth) ELSE depth[h] + 1)
     ELSE UNCHANGED <<parent, depth>>
Next == \E h \in DOMAIN parent, op \in Ops : Call(h, op)
Spec == Init /\ [][Next]_vars
RECURSIVE Ancestors(_)
Ancestors(h) == IF parent[h] = 0 THEN 0 ELSE 1 + Ancestors(parent[h])
OneLineEach == Len(out) = Len(hist) /\ \A i \in DOMAIN out : out[i][1] = hist[i].h /\ out[i][2] = hist[i].op
               /\ out[i][3] = Ancestors(out[i][1])
EmitHist == (Emit /\ Len(hist) = Depth) => PrintT("CASE " \o ToJson(hist))
=============================================================================
