-------------------------------- MODULE Gin --------------------------------
(* The gin writer: how one Write becomes one log record.  Recognition is    *)
(* given character by character; the model builds lines piece by piece and  *)
(* says what they mean, and both must agree.                                *)
EXTENDS Integers, Sequences, SequencesExt, Json, TLC

Ch(s, i) == SubSeq(s, i, i)
Blank == {" ", "\t", "\n", "\r", "\f"}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
From(s, i) == SubSeq(s, i, Len(s))
RECURSIVE Skip(_, _, _)
Skip(s, i, set) == IF i <= Len(s) /\ Ch(s, i) \in set THEN Skip(s, i + 1, set) ELSE i
StartsAt(s, i, lit) == i + Len(lit) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(lit) - 1) = lit
RECURSIVE Find(_, _, _)
(* First index from i on of a character of set, 0 if there is none. *)
Find(s, i, set) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) \in set THEN i ELSE Find(s, i + 1, set)
RECURSIVE TrimRight(_, _)
TrimRight(s, set) == IF s # "" /\ Ch(s, Len(s)) \in set THEN TrimRight(SubSeq(s, 1, Len(s) - 1), set) ELSE s
Trim(s, set) == LET t == TrimRight(s, set) IN From(t, Skip(t, 1, set))

(* ---- prefixes ---- *)
LevelOf == [DEBUG |-> -4, INFO |-> 0, WARNING |-> 4, ERROR |-> 8]
(* What the text starts with: "gin", "debug", a level, "bad" or "none". *)
Prefix(s) ==
  LET i == Skip(s, 1, Blank)
      after(lit) == From(s, Skip(s, i + Len(lit), Blank))
      lv == {l \in DOMAIN LevelOf : StartsAt(s, i, "[" \o l \o "]")}
      close == Find(s, i, {"]", "\n"})
  IN IF i > Len(s) \/ Ch(s, i) # "[" THEN [p |-> "none", rest |-> s]
     ELSE IF StartsAt(s, i, "[GIN]") THEN [p |-> "gin", rest |-> after("[GIN]")]
     ELSE IF StartsAt(s, i, "[GIN-debug]") THEN [p |-> "DEBUG", rest |-> after("[GIN-debug]")]
     ELSE IF lv # {} THEN LET l == CHOOSE l \in lv : TRUE IN [p |-> l, rest |-> after("[" \o l \o "]")]
     ELSE IF close # 0 /\ Ch(s, close) = "]" THEN [p |-> "bad", rest |-> s]
     ELSE [p |-> "none", rest |-> s]

(* "" means the level of the options, "bad" a level that does not exist. *)
RECURSIVE Strip(_, _)
Strip(s, level) ==
  LET x == Prefix(s)
  IN CASE x.p = "none" -> [text |-> s, level |-> level]
       [] x.p = "bad"  -> [text |-> s, level |-> "bad"]
       [] x.p = "gin"  -> Strip(x.rest, level)
       [] OTHER        -> Strip(x.rest, x.p)

(* ---- timestamp column: 2024/01/26 - 13:21:32 | ---- *)
Number(s, i) == IF i > 0 /\ i <= Len(s) /\ Ch(s, i) \in Digits THEN Skip(s, i, Digits) ELSE 0
Lit(s, i, c) == IF i > 0 /\ i <= Len(s) /\ Ch(s, i) = c THEN i + 1 ELSE 0
Ws(s, i) == IF i > 0 THEN Skip(s, i, Blank) ELSE 0
Triple(s, i, c) == Number(s, Lit(s, Number(s, Lit(s, Number(s, i), c)), c))
Untimed(s) == LET a == Triple(s, Skip(s, 1, Blank), "/")
                  b == Triple(s, Ws(s, Lit(s, Ws(s, a), "-")), ":")
                  e == Ws(s, Lit(s, Ws(s, b), "|"))
              IN IF e > 0 /\ e <= Len(s) THEN From(s, e) ELSE s

(* ---- traffic: code | elapsed | client | METHOD "url" ---- *)
RECURSIVE Split(_)
Split(s) == LET i == Find(s, 1, {"|"})
            IN IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Split(From(s, i + 1))
RECURSIVE Unzero(_)
Unzero(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN Unzero(From(s, 2)) ELSE s
AllDigits(s) == s # "" /\ Skip(s, 1, Digits) > Len(s)
Quoted(s) == Len(s) >= 2 /\ Ch(s, 1) = "\"" /\ Ch(s, Len(s)) = "\""
Request(s) == LET t == Trim(s, Blank)
                  m == Find(t, 1, Blank)
                  u == Trim(From(t, m + 1), Blank)
              IN IF t = "" \/ m = 0 THEN <<>>
                 ELSE IF Quoted(u) /\ Find(u, 1, {"\n"}) = 0 THEN <<SubSeq(t, 1, m - 1), SubSeq(u, 2, Len(u) - 1)>>
                 ELSE IF Find(u, 1, Blank) = 0 THEN <<SubSeq(t, 1, m - 1), u>>
                 ELSE <<>>
(* The five fields, or nothing if the text is no traffic. *)
Traffic(s) ==
  LET c == Split(s)
  IN IF Len(c) # 4 THEN <<>>
     ELSE LET code == Trim(c[1], Blank)
              req  == Request(c[4])
          IN IF ~AllDigits(code) \/ Len(Unzero(code)) > 18 \/ req = <<>> THEN <<>>
             ELSE <<Unzero(code), Trim(c[2], {" "}), Trim(c[3], {" "}), req[1], req[2]>>

(* ---- the record a Write makes ---- *)
(* cfg = [level |-> number, parse, embed |-> flags, tlevel |-> number,      *)
(*        msg, group |-> texts];  refused writes give level -999.           *)
Or(a, b) == IF a = "" THEN b ELSE a
Write(cfg, s) ==
  LET x == Strip(TrimRight(s, {"\n"}), "")
      text == Untimed(x.text)
      t == IF cfg.parse THEN Traffic(text) ELSE <<>>
  IN IF x.level = "bad" THEN [level |-> -999, msg |-> "", group |-> "", f |-> <<>>]
     ELSE IF t # <<>> THEN [level |-> cfg.tlevel, msg |-> Or(cfg.msg, "Gin Traffic"),
                            group |-> IF cfg.embed THEN "" ELSE Or(cfg.group, "gin"), f |-> t]
     ELSE [level |-> IF x.level = "" THEN cfg.level ELSE LevelOf[x.level], msg |-> text, group |-> "", f |-> <<>>]

(* ---- model: lines made of known pieces ---- *)
CONSTANTS MaxPrefix, FirstWins, Emit
VARIABLES cfg, pre, stamp, body, end, phase
vars == <<cfg, pre, stamp, body, end, phase>>
Pieces == {"[GIN] ", "[GIN-debug] ", "[DEBUG]", " [INFO] ", "[WARNING] ", "[ERROR] ", "[BAD] "}
Means == [p \in Pieces |-> CASE p = "[GIN] " -> "" [] p = "[GIN-debug] " -> "DEBUG" [] p = "[DEBUG]" -> "DEBUG" [] p = " [INFO] " -> "INFO"
                               [] p = "[WARNING] " -> "WARNING" [] p = "[ERROR] " -> "ERROR" [] p = "[BAD] " -> "bad"]
Bodies == {[s |-> "some text", f |-> <<>>], [s |-> "text [INFO] | x", f |-> <<>>],
           [s |-> "200 |    1.5ms |    ::1 | GET      \"/a?b=c\"", f |-> <<"200", "1.5ms", "::1", "GET", "/a?b=c">>],
           [s |-> "404 | 1h2m | | POST \"/a b\"", f |-> <<"404", "1h2m", "", "POST", "/a b">>],
           [s |-> "200 | 1ms | ::1 | GET", f |-> <<>>], [s |-> "2x0 | 1ms | ::1 | GET \"/\"", f |-> <<>>],
           [s |-> "200 | 1ms | GET \"/\"", f |-> <<>>]}
Cfgs == {[level |-> l, parse |-> p, embed |-> e, tlevel |-> t, msg |-> "", group |-> "g"] :
           l \in {-4, 3, 8}, p \in BOOLEAN, e \in BOOLEAN, t \in {0, 5}}
Init == cfg \in Cfgs /\ pre = <<>> /\ stamp = "" /\ body = [s |-> "", f |-> <<>>] /\ end = "" /\ phase = "prefix"
AddPrefix == phase = "prefix" /\ Len(pre) < MaxPrefix /\ \E x \in Pieces : pre' = Append(pre, x) /\ UNCHANGED <<cfg, stamp, body, end, phase>>
AddBody == phase = "prefix" /\ phase' = "done" /\ stamp' \in {"", "2024/01/26 - 13:21:32 | "} /\ body' \in Bodies /\ end' \in {"", "\n", "\n\n"}
           /\ UNCHANGED <<cfg, pre>>
Next == AddPrefix \/ AddBody
Spec == Init /\ [][Next]_vars
Line == FoldLeft(LAMBDA a, x : a \o x, "", pre) \o stamp \o body.s \o end
Levels == SelectSeq([i \in DOMAIN pre |-> Means[pre[i]]], LAMBDA m : m # "")
Meant ==
  IF \E i \in DOMAIN pre : Means[pre[i]] = "bad" THEN [level |-> -999, msg |-> "", group |-> "", f |-> <<>>]
  ELSE IF cfg.parse /\ body.f # <<>> THEN [level |-> cfg.tlevel, msg |-> "Gin Traffic", group |-> IF cfg.embed THEN "" ELSE cfg.group, f |-> body.f]
  ELSE [level |-> IF Levels = <<>> THEN cfg.level ELSE LevelOf[IF FirstWins THEN Levels[1] ELSE Levels[Len(Levels)]],
        msg |-> body.s, group |-> "", f |-> <<>>]
Agree == phase = "done" => Write(cfg, Line) = Meant
EmitCase == (Emit /\ phase = "done") => PrintT("CASE " \o ToJson([cfg |-> cfg, line |-> Line]))
=============================================================================
