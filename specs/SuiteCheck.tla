----------------------------- MODULE SuiteCheck -----------------------------
(* The verification suite as a judge: handlers that deviate in known ways    *)
(* (defects), settings that turn failures into warnings (excuses), and what  *)
(* every test of the suite has to say.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxDefects, MaxExcuses, Emit
VARIABLES defects, excused, logger, off, todo, said
vars == <<defects, excused, logger, off, todo, said>>

(* ---- the tests, by what they look at ---- *)
Levels == {"CanceledContext", "KeyCase", "Keys", "SourceKey", "ZeroPC", "ZeroTime"}
Messages == Levels \ {"KeyCase"}
Whole == {"ComplexCases", "ReplaceAttrFnMulti", "ReplaceAttrGroup"}  \* compare the whole record
Counted == {"Attributes", "AttributesEmpty", "AttributesWith", "AttributesWithEmpty", "AttributesWithNotEmpty", "Group", "GroupEmpty",
            "WithGroupEmpty", "GroupInline", "WithGroupInline", "GroupWith", "GroupWithMulti", "GroupWithMultiSubEmpty", "Keys", "ResolveGroup",
            "ResolveGroupWith", "ResolveWith", "ResolveValuer", "ZeroPC", "ZeroTime", "AttributeEmptyName", "AttributeNil", "AttributeWithEmpty",
            "AttributeWithEmptyName", "AttributeWithNil", "CanceledContext", "SourceKey", "LogAttributes", "TimestampFormat", "StringEscape",
            "ReplaceAttr", "ReplaceAttrBasic", "ReplaceAttrFnRemoveEmptyKey", "ReplaceAttrFnRemoveTime", "AttributeDuplicate", "AttributeWithDuplicate"}
Enabling == {"DefaultLevel", "Disabled", "LevelConfigured", "LevelDifferent", "LevelVar"}
Tests == Levels \cup Whole \cup Counted \cup Enabling \cup
         {"AnyMap", "AttributesNotEmpty", "DerivedInvariantWith", "DerivedInvariantWithGroup", "GroupDuration", "GroupWithTop", "ReplaceAttrFnChangeKey",
          "ReplaceAttrFnLevelCase", "SlogTest"}
EmptyNames == {"AttributeEmptyName", "AttributeWithEmptyName", "AttributesNotEmpty", "AttributesWithNotEmpty"}
Resolving == {"ResolveGroup", "ResolveGroupWith", "ResolveValuer", "ResolveWith"}
Nested == {"ComplexCases", "GroupWithMulti", "ReplaceAttrFnMulti", "ReplaceAttrGroup", "SlogTest"}  \* several WithGroup calls
Integers2 == {"AttributeEmptyName", "AttributeWithEmptyName", "Attributes", "AttributesWith", "AttributesWithEmpty", "AttributesWithNotEmpty",
              "ComplexCases", "Group", "GroupInline", "GroupWithMulti", "GroupWithMultiSubEmpty", "LogAttributes", "WithGroupInline"}
Floats == {"AttributeEmptyName", "AttributeNil", "AttributeWithEmpty", "AttributeWithEmptyName", "AttributeWithNil", "Attributes", "AttributesEmpty",
           "AttributesNotEmpty", "AttributesWith", "AttributesWithEmpty", "AttributesWithNotEmpty", "ComplexCases", "Group", "GroupInline", "GroupWith",
           "GroupWithMulti", "LogAttributes", "ReplaceAttrFnMulti", "ReplaceAttrGroup", "ResolveGroup", "ResolveGroupWith", "WithGroupInline"}

(* ---- the defects: the tests they concern and the excuse there is for them ---- *)
T(tests, under) == [at |-> tests, under |-> under]
Catalog == [
  EmptyAttributes |-> T({"AttributeWithEmpty", "AttributesEmpty", "AttributesWithEmpty", "ReplaceAttr", "ReplaceAttrBasic", "ReplaceAttrFnMulti",
                         "ReplaceAttrFnRemoveEmptyKey", "ReplaceAttrFnRemoveTime", "ReplaceAttrGroup", "SlogTest"}, "EmptyAttributes"),
  WithGroupEmpty |-> T({"WithGroupEmpty", "GroupWithMultiSubEmpty", "SlogTest"}, "WithGroupEmpty"),
  GroupInline |-> T({"GroupInline", "SlogTest"}, "GroupInline"),
  InlineLost |-> T({"GroupInline", "SlogTest"}, ""),
  LevelVar |-> T({"LevelVar"}, "LevelVar"),
  Resolver |-> T(Resolving \cup {"ComplexCases", "SlogTest"}, "Resolver"),
  ZeroPC |-> T({"ZeroPC"}, "ZeroPC"),
  ZeroPCCaller |-> T({"ZeroPC"}, "ZeroPC"),
  ZeroTime |-> T({"ZeroTime", "SlogTest"}, "ZeroTime"),
  CanceledContext |-> T({"CanceledContext"}, "CanceledContext"),
  DefaultDebug |-> T({"DefaultLevel"}, "DefaultLevel"),
  DefaultWarn |-> T({"DefaultLevel"}, "DefaultLevel"),
  DefaultSource |-> T({"DefaultLevel"}, "DefaultLevel"),
  GroupAttrMsgTop |-> T({"ComplexCases"}, "GroupAttrInfoTop"),
  LevelMath |-> T(Enabling \ {"Disabled"}, "LevelMath"),
  NotDisabled |-> T(Enabling, ""),
  MessageKey |-> T(Messages \cup {"ReplaceAttrBasic", "ReplaceAttrFnMulti", "ReplaceAttrGroup", "SlogTest"}, "MessageKey"),
  NoReplAttr |-> T({"ReplaceAttr", "ReplaceAttrBasic", "ReplaceAttrFnLevelCase", "ReplaceAttrFnMulti", "ReplaceAttrFnRemoveTime", "ReplaceAttrGroup"}, "NoReplAttr"),
  NoReplAttrBasic |-> T({"ReplaceAttrBasic", "ReplaceAttrFnLevelCase", "ReplaceAttrFnMulti", "ReplaceAttrFnRemoveTime"}, "NoReplAttrBasic"),
  ReplAttrGroup |-> T({"ReplaceAttrFnMulti", "ReplaceAttrGroup"}, "ReplAttrGroup"),
  SourceCaller |-> T({"SourceKey", "ReplaceAttrBasic"}, "SourceCaller"),
  SourceNone |-> T({"SourceKey", "ReplaceAttrBasic"}, "SourceKey"),
  SourceNil |-> T({"SourceKey"}, "SourceKey"),
  SourceText |-> T({"SourceKey"}, "SourceKey"),
  SourceShort |-> T({"SourceKey"}, "SourceKey"),
  SourceTyped |-> T({"SourceKey"}, "SourceKey"),
  WithGroup |-> T(Nested, "WithGroup"),
  Duplicates |-> T({"AttributeDuplicate", "AttributeWithDuplicate"}, "Duplicates"),
  DurationMillis |-> T({"LogAttributes", "ComplexCases"}, "DurationMillis"),
  DurationSeconds |-> T({"LogAttributes", "ComplexCases"}, "DurationSeconds"),
  DurationString |-> T({"LogAttributes", "GroupDuration", "ComplexCases"}, "DurationString"),
  GroupDuration |-> T({"LogAttributes", "GroupDuration", "ComplexCases"}, "GroupDuration"),
  GroupWithTop |-> T({"GroupWithTop", "GroupWithMultiSubEmpty"} \cup Nested, "GroupWithTop"),
  LevelCase |-> T(Levels \cup Whole \cup {"ReplaceAttrFnLevelCase"}, "LevelCase"),
  LevelWrong |-> T({"KeyCase"}, ""),
  LevelNumber |-> T(Levels \cup Whole \cup {"ReplaceAttrFnLevelCase"}, ""),
  NoEmptyName |-> T(EmptyNames \cup {"ReplaceAttrFnRemoveEmptyKey"}, "NoEmptyName"),
  NoNilValue |-> T({"AttributeNil", "AttributeWithNil"}, "NoNilValue"),
  StringAny |-> T({"AnyMap"}, "StringAny"),
  TimeMillis |-> T({"LogAttributes"}, "TimeMillis"),
  TimeSeconds |-> T({"LogAttributes"}, "TimeSeconds"),
  DerivedWith |-> T({"DerivedInvariantWith", "ComplexCases", "SlogTest"}, ""),
  DerivedGroup |-> T({"DerivedInvariantWithGroup", "ComplexCases", "SlogTest"}, ""),
  WithLost |-> T({"AttributeWithDuplicate", "AttributeWithEmptyName", "AttributeWithNil", "AttributesWith", "AttributesWithEmpty", "AttributesWithNotEmpty",
                  "GroupDuration", "GroupWithMultiSubEmpty", "GroupWithTop", "ResolveGroupWith", "ResolveWith"} \cup Nested, ""),
  GroupLost |-> T({"GroupDuration", "GroupWith", "GroupWithMultiSubEmpty", "GroupWithTop"} \cup Nested, ""),
  GroupFlat |-> T({"ComplexCases", "Group", "ResolveGroup", "ResolveGroupWith", "SlogTest"}, ""),
  TimestampFormat |-> T({"TimestampFormat"}, ""),
  NoTime |-> T((Counted \ {"ZeroTime", "ReplaceAttrBasic"}) \cup {"SlogTest"}, ""),
  NoLevel |-> T(Counted \cup Levels \cup Whole \cup {"ReplaceAttrFnLevelCase", "SlogTest"}, ""),
  NoMessage |-> T(Counted \cup Whole \cup {"SlogTest"}, ""),
  IntText |-> T(Integers2, ""),
  FloatShort |-> T(Floats, ""),
  BoolNumber |-> T({"ComplexCases", "LogAttributes"}, ""),
  Unescaped |-> T({"StringEscape"}, "")]
Defects == DOMAIN Catalog

(* ---- the excuses: the tests that watch for them, and those they change otherwise ---- *)
Home == [
  EmptyAttributes |-> {"AttributeWithEmpty", "AttributesEmpty", "AttributesWithEmpty"}, GroupEmpty |-> {"GroupEmpty", "GroupWithMultiSubEmpty"},
  WithGroupEmpty |-> {"WithGroupEmpty"}, GroupInline |-> {"GroupInline", "WithGroupInline"}, LevelVar |-> {"LevelVar"}, Resolver |-> Resolving,
  SlogTest |-> {"SlogTest"}, ZeroPC |-> {"ZeroPC"}, ZeroTime |-> {"ZeroTime"}, CanceledContext |-> {"CanceledContext"}, DefaultLevel |-> {"DefaultLevel"},
  GroupAttrInfoTop |-> {}, LevelMath |-> Enabling \ {"Disabled"}, MessageKey |-> Messages,
  NoReplAttr |-> {"ReplaceAttr", "ReplaceAttrBasic", "ReplaceAttrFnLevelCase", "ReplaceAttrFnMulti", "ReplaceAttrFnRemoveTime"},
  NoReplAttrBasic |-> {"ReplaceAttrBasic", "ReplaceAttrFnLevelCase", "ReplaceAttrFnMulti", "ReplaceAttrFnRemoveTime"},
  ReplAttrGroup |-> {"ReplaceAttrGroup"}, SourceCaller |-> {"SourceKey"}, SourceKey |-> {"SourceKey"}, WithGroup |-> {"GroupWithMulti", "GroupWithMultiSubEmpty"},
  Duplicates |-> {"AttributeDuplicate", "AttributeWithDuplicate"}, DurationMillis |-> {"LogAttributes"}, DurationSeconds |-> {"LogAttributes"},
  DurationString |-> {"LogAttributes", "GroupDuration"}, GroupDuration |-> {"GroupDuration"}, GroupWithTop |-> {"GroupWithTop"}, LevelCase |-> Levels,
  LevelWrong |-> {}, NoEmptyName |-> EmptyNames, NoNilValue |-> {"AttributeNil", "AttributeWithNil"}, StringAny |-> {"AnyMap"}, TimeMillis |-> {"LogAttributes"},
  TimeSeconds |-> {"LogAttributes"}, Mismatch |-> {}, SkipDedup |-> {}]
Excuses == DOMAIN Home
Also(w) == CASE w \in {"DurationMillis", "DurationSeconds", "DurationString", "GroupDuration", "GroupAttrInfoTop", "GroupWithTop", "Resolver", "Mismatch"} -> {"ComplexCases"}
             [] w = "EmptyAttributes" -> {"ReplaceAttr", "ReplaceAttrFnRemoveEmptyKey", "ReplaceAttrFnRemoveTime", "ReplaceAttrGroup"}
             [] w = "LevelCase" -> {"ReplaceAttrFnLevelCase", "ReplaceAttrGroup", "ComplexCases"}
             [] w = "MessageKey" -> {"ReplaceAttrBasic", "ReplaceAttrGroup"}
             [] w \in {"NoReplAttr", "NoReplAttrBasic"} -> {"ReplaceAttrGroup", "ReplaceAttrFnRemoveEmptyKey", "ReplaceAttrFnChangeKey"}
             [] w = "SkipDedup" -> {"AttributeDuplicate", "AttributeWithDuplicate", "ComplexCases"}
             [] OTHER -> {}
(* Settings that are never reported as unused. *)
Quiet == {"Duplicates", "Mismatch", "SkipDedup", "GroupAttrInfoTop", "LevelWrong"}
(* A test with one of these still fails for other reasons. *)
Narrow == {"LevelCase", "MessageKey", "EmptyAttributes", "GroupInline", "ZeroPC", "ZeroTime", "CanceledContext", "LevelMath", "LevelVar", "NoNilValue", "Duplicates"}
Slog(l) == IF l THEN {"SlogTest"} ELSE {}  \* not run without a handler

(* ---- defects that hide each other ---- *)
(* A missing field and a superfluous one leave the number of fields as it was, a group that's lost can't be empty, without a source there's none   *)
(* for a zero PC either, and a value that's lost isn't missed where nil may be left out.                                                          *)
More == {"EmptyAttributes", "WithGroupEmpty", "ZeroTime", "NoReplAttr", "NoReplAttrBasic"}
Hide(D, E, t) == \/ D \cap {"NoTime", "NoLevel", "NoMessage"} # {} /\ \E d \in D \cap More : t \in Catalog[d].at
                 \/ {"LevelNumber", "NoLevel"} \subseteq D /\ t \in Catalog["NoLevel"].at \ Levels
                 \/ "GroupFlat" \in D /\ D \cap {"InlineLost", "GroupInline"} # {} /\ t = "GroupInline"
                 \/ "WithLost" \in D /\ D \cap {"EmptyAttributes", "DerivedWith"} # {} /\ t \in {"AttributeWithEmpty", "AttributesWithEmpty", "DerivedInvariantWith"}
                 \/ {"GroupLost", "WithGroupEmpty"} \subseteq D /\ t \in Catalog["WithGroupEmpty"].at
                 \/ "SourceNone" \in D /\ t = "ZeroPC"
                 \/ "WithLost" \in D /\ "NoNilValue" \in D \cup E /\ t = "AttributeWithNil"
                 \/ "MessageKey" \in D /\ {"NoReplAttr", "NoReplAttrBasic"} \cap (D \cup E) # {} /\ t = "ReplaceAttrFnChangeKey"
                 \/ "LevelWrong" \in D /\ t = "KeyCase" /\ "LevelCase" \in E

(* ---- what a test has to say ---- *)
Concerned(D, l, t) == {d \in D : t \in Catalog[d].at \ Slog(l)}
Watching(E, t) == {w \in E : t \in Home[w] \cup Also(w)}
Covered(E, t, d) == Catalog[d].under \in E \/ (t = "SlogTest" /\ "SlogTest" \in E)
(* pass, fail or open *)
Verdict(D, E, l, t) ==
  LET c == Concerned(D, l, t) watch == Watching(E, t)
      home == {w \in E : t \in Home[w]}
      covered == {d \in c : Covered(E, t, d)}
  IN IF Hide(D, E, t) THEN "open"
     ELSE IF c = {} THEN (IF watch \subseteq home /\ Cardinality(watch) <= 1 THEN "pass" ELSE "open")
     ELSE IF covered = {} THEN (IF watch = {} \/ (watch \subseteq Narrow /\ watch \subseteq home /\ Cardinality(D) = 1 /\ Cardinality(watch) = 1) THEN "fail" ELSE "open")
     ELSE IF covered = c /\ Cardinality(D) = 1 /\ Cardinality(watch) = 1 /\ watch = home THEN "pass"
     ELSE "open"
(* Warnings that have to be given, and those that may. *)
Due(D, E, l, t) == {w \in E : /\ t \in Home[w] /\ Cardinality(D) = 1 /\ Watching(E, t) = {w}
                               /\ \E d \in Concerned(D, l, t) : Catalog[d].under = w \/ (t = "SlogTest" /\ w = t)}
                   \cup (IF D = {"LevelWrong"} /\ "LevelCase" \in E /\ t = "KeyCase" THEN {"LevelWrong"} ELSE {})
Allowed(D, E, l, t) ==
  {w \in E : t \in Home[w] /\ Concerned(D, l, t) # {} /\ ~(D = {"LevelWrong"} /\ t = "KeyCase")}
  \cup (IF t = "ComplexCases" /\ Verdict(D, E \ {"Mismatch"}, l, t) # "pass" THEN {"Mismatch"} ELSE {})
  \cup (IF "SkipDedup" \in E /\ t \in Also("SkipDedup") THEN {"SkipDedup", "SkippingTest"} ELSE {})
  \cup (IF "LevelWrong" \in D /\ "LevelCase" \in E /\ t = "KeyCase" THEN {"LevelWrong"} ELSE {})
  \cup (IF "SourceCaller" \in D /\ "SourceKey" \in E /\ t = "SourceKey" THEN {"SourceCaller"} ELSE {})
  \cup (IF "MessageKey" \in D /\ t = "ReplaceAttrFnChangeKey" THEN E \cap {"NoReplAttr", "NoReplAttrBasic"} ELSE {})
  \cup (IF "Duplicates" \in E /\ D # {} THEN {"Duplicates"} ELSE {})
(* Both only as long as the warning isn't given at all. *)
UnusedDue(D, E, l, t) == {w \in E \ Quiet : t \in Home[w] \ Slog(l) /\ Concerned(D, l, t) = {} /\ Watching(E, t) = {w}}
UnusedAllowed(D, E, l, t) == {w \in E : t \in Home[w] /\ ~\E d \in Concerned(D, l, t) : Catalog[d].under = w /\ Cardinality(D) = 1}

(* ---- a run of the suite ---- *)
Combine(S, k) == {s \in SUBSET S : Cardinality(s) <= k}
Pairs(S, k) == IF k = 0 THEN {{}} ELSE IF k = 1 THEN {{}} \cup {{x} : x \in S} ELSE {{x, y} : x, y \in S}
Init == /\ defects \in Pairs(Defects, MaxDefects) /\ excused \in Pairs(Excuses, MaxExcuses)
        /\ (Cardinality(defects) > 1 /\ Cardinality(excused) > 0 => \E d \in defects, w \in excused : Catalog[d].under = w)
        /\ logger \in BOOLEAN /\ off \in BOOLEAN /\ (off => excused # {}) /\ (logger => off \/ Cardinality(defects) < 2)
        /\ todo = Tests /\ said = {}
E0 == IF off THEN {} ELSE excused
(* The tests don't depend on each other. *)
Run(ts) == /\ todo' = todo \ ts
           /\ said' = said \cup {[t |-> t, v |-> Verdict(defects, E0, logger, t), w |-> Due(defects, E0, logger, t)] : t \in ts}
           /\ UNCHANGED <<defects, excused, logger, off>>
Next == todo # {} /\ Run(todo)
Spec == Init /\ [][Next]_vars

(* ---- what that guarantees ---- *)
TablesOK == /\ \A d \in Defects : Catalog[d].at # {} /\ Catalog[d].at \subseteq Tests /\ (Catalog[d].under # "" => Catalog[d].under \in Excuses)
            /\ \A w \in Excuses : Home[w] \subseteq Tests /\ Home[w] \cap Also(w) = {}
Judged(v) == {r.t : r \in {r0 \in said : r0.v = v}}
Acquits == todo = {} /\ defects = {} /\ E0 = {} => Judged("pass") = Tests
Convicts == todo = {} /\ defects # {} /\ E0 = {} /\ ~logger => Judged("fail") # {}
(* Without a handler only what shows in slogtest alone may escape. *)
Blames == todo = {} => \A r \in said : r.v = "fail" => Concerned(defects, logger, r.t) # {}
Reports == todo = {} /\ ~logger /\ Cardinality(defects) = 1 /\ Cardinality(E0) = 1 =>
           LET d == CHOOSE d \in defects : TRUE w == CHOOSE w \in E0 : TRUE
           IN Catalog[d].under = w /\ w \notin Quiet => /\ \E r \in said : w \in r.w
                                                         /\ \A r2 \in said : w \in r2.w => r2.v = "pass"
EmitCase == Emit /\ todo = Tests => PrintT("CASE " \o ToJson([defects |-> defects, excused |-> excused, logger |-> logger, off |-> off]))
=============================================================================
