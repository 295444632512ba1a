-------------------------------- MODULE Attr --------------------------------
(* The attribute services: what reading and writing attributes of nodes returns and changes, for typed values, index
   ranges, access levels and role permissions. A behaviour is a sequence of Read and Write requests of two users on
   random nodes, with the result of every operation. Profiles: value (A04, A05), perm (A06). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

VARIABLES conf, nodes, hist
vars == <<conf, nodes, hist>>
Profile == IOEnv.ATTR_PROFILE
Steps == 24
MaxLen == 5            \* configured limits of array, string and byte string length
MaxOps == 8            \* configured limit of operations per request

\* state-level on purpose: TLC evaluates a definition that depends on no variable once and keeps the value
One(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE {}
OneIn(n) == Len(hist) >= 0 /\ RandomElement(1..n) = 1
Types == {"Boolean", "SByte", "Byte", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Float", "Double", "String", "DateTime",
          "Guid", "ByteString", "XmlElement", "NodeId", "ExpandedNodeId", "StatusCode", "QualifiedName", "LocalizedText", "Range"}
(* data types of nodes and the type of value they take *)
Alias == [Duration |-> "Double", UtcTime |-> "DateTime", ServerState |-> "Int32", LocaleId |-> "String", Structure |-> "Range"]
NodeTypes == Types \cup DOMAIN Alias \cup {"Any"}
Takes(n) == IF n.type \in DOMAIN Alias THEN Alias[n.type] ELSE n.type
SeqTypes == {"String", "ByteString"}      \* scalars with elements
Dom(t) == IF t = "Boolean" THEN 0..1 ELSE 0..5
(* encoded length of the characters of a string *)
CharLen(c) == IF c = 4 THEN 2 ELSE IF c = 5 THEN 3 ELSE 1
ByteLen(v) == IF v.t = "String" THEN FoldLeft(LAMBDA a, c : a + CharLen(c), 0, v.d) ELSE Len(v.d)

RandSeq(t, n) == [i \in 1..n |-> One(Dom(t))]
(* elements of an array of String or ByteString are sequences themselves, coded as one number *)
RECURSIVE Code(_)
Code(s) == IF s = <<>> THEN 0 ELSE Head(s) + 1 + 7 * Code(Tail(s))
RECURSIVE Chars(_)
Chars(k) == IF k = 0 THEN <<>> ELSE <<(k % 7) - 1>> \o Chars(k \div 7)
RandElem(t) == IF t \in SeqTypes THEN Code(RandSeq(t, One(0..3))) ELSE One(Dom(t))
RandArr(t, n) == [i \in 1..n |-> RandElem(t)]
Nil == [t |-> "Nil", a |-> FALSE, d |-> <<>>]
RandVal(t, arr) == [t |-> t, a |-> arr, d |-> IF arr THEN RandArr(t, One(0..(IF OneIn(12) THEN 6 ELSE 5)))
                                              ELSE IF t \in SeqTypes THEN RandSeq(t, One(0..(IF OneIn(8) THEN 6 ELSE 4))) ELSE RandSeq(t, 1)]
Ranks == {-3, -2, -1, 0, 1}
ScalarOK(r) == r \in {-3, -2, -1}
ArrayOK(r) == r \in {-3, -2, 0, 1}

Perms == {"Browse", "Read", "Write", "ReadRoles", "WriteHist", "ReadHist", "Call"}
Roles == {"rA", "rB", "rC"}
Users == {"u1", "u2"}
RandPerms == CHOOSE f \in {[r \in Roles |-> IF Profile = "value" THEN Perms ELSE {p \in Perms : OneIn(2)}]} : f = f
RandNode == LET t == IF OneIn(3) THEN One(DOMAIN Alias \cup {"Any"}) ELSE One(Types)
                r == One(Ranks)
                vt == IF t = "Any" THEN One(Types) ELSE IF t \in DOMAIN Alias THEN Alias[t] ELSE t
            IN [type |-> t, rank |-> r, acc |-> IF Profile = "value" /\ ~OneIn(8) THEN {"R", "W"} ELSE {x \in {"R", "W", "HR"} : OneIn(2)},
                own |-> Profile = "perm" /\ OneIn(2), perms |-> RandPerms, hist |-> One(BOOLEAN), min |-> One({0, 100, 250}), st |-> "Good",
                val |-> IF OneIn(10) THEN Nil ELSE RandVal(vt, IF r = -1 THEN FALSE ELSE IF r \in {0, 1} THEN TRUE ELSE One(BOOLEAN))]

---- (* index ranges *)
Ranges == {[s |-> "", k |-> "none", lo |-> 0, hi |-> 0]}
          \cup {[s |-> ToString(i), k |-> "ok", lo |-> i, hi |-> i] : i \in 0..6}
          \cup {[s |-> ToString(p[1]) \o ":" \o ToString(p[2]), k |-> "ok", lo |-> p[1], hi |-> p[2]] : p \in {q \in (0..6) \X (0..7) : q[1] < q[2]}}
          \cup {[s |-> x, k |-> "bad", lo |-> 0, hi |-> 0] : x \in {"1:1", "2:1", "-1", "1:-1", "a", "1:", ":1", ":", "0:1:2", " ", "0 :1", "1.5", "0x1", "99999999999", "0:99999999999", "-2:-1"}}
          \cup {[s |-> x, k |-> "multi", lo |-> 0, hi |-> 0] : x \in {"0,0,0", "0:1,0:1,0", "1,2,3"}}
          \cup {[s |-> ToString(i) \o "," \o (IF p[1] = p[2] THEN ToString(p[1]) ELSE ToString(p[1]) \o ":" \o ToString(p[2])),
                 k |-> "two", lo |-> i, hi |-> i, lo2 |-> p[1], hi2 |-> p[2]] : i \in 0..3, p \in {q \in (0..2) \X (0..4) : q[1] <= q[2]}}
          \cup {[s |-> "0:1,0:1", k |-> "two", lo |-> 0, hi |-> 1, lo2 |-> 0, hi2 |-> 1], [s |-> "1:3,0", k |-> "two", lo |-> 1, hi |-> 3, lo2 |-> 0, hi2 |-> 0]}
RandRange == IF OneIn(2) THEN One({r \in Ranges : r.k = "none"}) ELSE IF OneIn(5) THEN One({r \in Ranges : r.k \in {"bad", "multi"}}) ELSE IF OneIn(8) THEN One({r \in Ranges : r.k = "two"}) ELSE One({r \in Ranges : r.k = "ok"})

Hi(v, r) == IF r.hi >= Len(v.d) THEN Len(v.d) ELSE r.hi + 1
Hi2(e, r) == IF r.hi2 >= Len(Chars(e)) THEN Len(Chars(e)) ELSE r.hi2 + 1
Elems(v) == v.a \/ v.t \in SeqTypes        \* has elements that a range selects
(* the status of applying range r to value v, and the (1-based) bounds *)
RStat(v, r) == IF ~Elems(v) THEN "BadIndexRangeNoData"
               ELSE IF r.k = "multi" \/ (r.k = "two" /\ ~(v.a /\ v.t \in SeqTypes)) THEN "BadIndexRangeNoData"
               ELSE IF Len(v.d) = 0 THEN (IF r.k = "bad" THEN "Bad*" ELSE "BadIndexRangeNoData")
               ELSE IF r.k = "bad" THEN "BadIndexRangeInvalid"
               ELSE IF r.lo >= Len(v.d) THEN "BadIndexRangeNoData"
               ELSE IF r.k = "two" /\ \E i \in (r.lo + 1)..Hi(v, r) : r.lo2 >= Len(Chars(v.d[i])) THEN "BadIndexRangeNoData" ELSE "Good"
Lo(v, r) == r.lo + 1
(* the elements that the range selects; a second dimension selects within the elements *)
Slice(v, r) == LET s == SubSeq(v.d, Lo(v, r), Hi(v, r)) IN
               IF r.k = "two" THEN [i \in DOMAIN s |-> Code(SubSeq(Chars(s[i]), r.lo2 + 1, Hi2(s[i], r)))] ELSE s
(* whether the elements d fit what the range selects, and the value with them put in place *)
Fits(v, r, d) == /\ Len(d) = Hi(v, r) - Lo(v, r) + 1
                 /\ r.k = "two" => \A i \in DOMAIN d : Len(Chars(d[i])) = Len(Chars(Slice(v, r)[i]))
PutIn(e, r, c) == LET s == Chars(e) x == Chars(c) IN Code([i \in DOMAIN s |-> IF i > r.lo2 /\ i <= Hi2(e, r) THEN x[i - r.lo2] ELSE s[i]])
Put(v, r, d) == [j \in 1..Len(v.d) |-> IF j >= Lo(v, r) /\ j <= Hi(v, r)
                                        THEN (LET x == d[j - Lo(v, r) + 1] IN IF r.k = "two" THEN PutIn(v.d[j], r, x) ELSE x) ELSE v.d[j]]

---- (* permissions *)
Eff(u, n) == LET p == IF n.own THEN n.perms ELSE conf.perms IN UNION {p[r] : r \in conf.roles[u]}
UserAcc(u, n) == {x \in n.acc : (x = "R" => "Read" \in Eff(u, n)) /\ (x = "W" => "Write" \in Eff(u, n)) /\ (x = "HR" => "ReadHist" \in Eff(u, n))}

---- (* reading *)
Common == {"NodeId", "NodeClass", "BrowseName", "DisplayName", "Description", "UserRolePermissions"}
VarAttrs == Common \cup {"Value", "DataType", "ValueRank", "ArrayDimensions", "AccessLevel", "UserAccessLevel", "MinimumSamplingInterval", "Historizing"}
ClassAttrs == [Variable |-> VarAttrs,
               Object |-> Common \cup {"EventNotifier"}, Method |-> Common \cup {"Executable", "UserExecutable"},
               ObjectType |-> Common \cup {"IsAbstract"}, ReferenceType |-> Common \cup {"IsAbstract", "Symmetric", "InverseName"},
               DataType |-> Common \cup {"IsAbstract"}, VariableType |-> Common \cup {"IsAbstract", "DataType", "ValueRank", "ArrayDimensions"}]
AllAttrs == UNION {ClassAttrs[c] : c \in DOMAIN ClassAttrs} \cup {"RolePermissions", "ContainsNoLoops", "WriteMask", "Attr0", "Attr99"}
(* targets: our variables 1..Len(nodes); "none": a node that does not exist; standard nodes by class *)
Std == {"Object", "Method", "ObjectType", "ReferenceType", "DataType", "VariableType"}
Bad(c) == [st |-> c, val |-> Nil, x |-> ""]
Good(x) == [st |-> "Good", val |-> Nil, x |-> x]
AttrOf(u, i, n, a) ==
  CASE a = "ValueRank" -> ToString(n.rank)
    [] a = "AccessLevel" -> ToString(n.acc) [] a = "UserAccessLevel" -> ToString(UserAcc(u, n))
    [] a = "Historizing" -> ToString(n.hist) [] a = "MinimumSamplingInterval" -> ToString(n.min)
    [] a = "DataType" -> n.type [] a = "NodeClass" -> "Variable" [] a \in {"NodeId", "BrowseName", "DisplayName"} -> "v" \o ToString(i)
    [] a \in {"RolePermissions", "UserRolePermissions"} ->
         LET p == n.perms rs == IF a = "RolePermissions" THEN (IF n.own THEN Roles ELSE {}) ELSE conf.roles[u]
             q == IF n.own THEN n.perms ELSE conf.perms IN ToString({<<r, q[r]>> : r \in rs})
    [] OTHER -> ""
Read(u, o) ==
  IF o.enc # "" THEN Bad("BadDataEncodingInvalid")
  ELSE IF o.r.k # "none" /\ o.attr # "Value" THEN Bad("BadIndexRangeNoData")
  ELSE IF o.n = "none" THEN Bad("BadNodeIDUnknown")
  ELSE IF o.n \in Std
  THEN (IF "Browse" \notin UNION {conf.perms[r] : r \in conf.roles[u]} THEN Bad("BadNodeIDUnknown")
        ELSE IF o.attr = "RolePermissions" THEN (IF "ReadRoles" \in UNION {conf.perms[r] : r \in conf.roles[u]} THEN Good("") ELSE Bad("BadAttributeIDInvalid"))
        ELSE IF o.attr \notin ClassAttrs[o.n] THEN Bad("BadAttributeIDInvalid") ELSE Good(""))
  ELSE LET i == o.i n == nodes[i] IN
       IF "Browse" \notin Eff(u, n) THEN Bad("BadNodeIDUnknown")
       ELSE IF o.attr = "Value" THEN
            (IF "R" \notin n.acc THEN Bad("BadNotReadable") ELSE IF "R" \notin UserAcc(u, n) THEN Bad("BadUserAccessDenied")
             ELSE IF o.r.k = "none" THEN [st |-> n.st, val |-> n.val, x |-> "v"]
             ELSE LET s == RStat(n.val, o.r) IN IF s # "Good" THEN Bad(s)
                  ELSE [st |-> n.st, val |-> [n.val EXCEPT !.d = Slice(n.val, o.r)], x |-> "v"])
       ELSE IF o.attr = "RolePermissions" THEN (IF "ReadRoles" \in Eff(u, n) THEN Good(AttrOf(u, i, n, o.attr)) ELSE Bad("BadAttributeIDInvalid"))
       ELSE IF o.attr \in VarAttrs THEN Good(AttrOf(u, i, n, o.attr)) ELSE Bad("BadAttributeIDInvalid")

---- (* writing *)
Conv(n, v) == IF Takes(n) = "Byte" /\ n.rank = 1 /\ v.t = "ByteString" /\ ~v.a THEN [v EXCEPT !.t = "Byte", !.a = TRUE]
              ELSE IF Takes(n) = "ByteString" /\ n.rank = -1 /\ v.t = "Byte" /\ v.a THEN [v EXCEPT !.t = "ByteString", !.a = FALSE] ELSE v
TypeStat(n, v) == IF v.t = "Nil" THEN "Good"
                  ELSE IF (v.a \/ v.t \in SeqTypes) /\ (IF v.a THEN Len(v.d) ELSE ByteLen(v)) > MaxLen THEN "BadOutOfRange"
                  ELSE IF Takes(n) # "Any" /\ v.t # Takes(n) THEN "BadTypeMismatch"
                  ELSE IF v.a THEN (IF ArrayOK(n.rank) THEN "Good" ELSE "BadTypeMismatch") ELSE (IF ScalarOK(n.rank) THEN "Good" ELSE "BadTypeMismatch")
WStat(u, o) ==
  IF o.n = "none" THEN "BadNodeIDUnknown"
  ELSE IF o.n \in Std THEN (IF "Browse" \in UNION {conf.perms[r] : r \in conf.roles[u]} THEN "BadAttributeIDInvalid" ELSE "BadNodeIDUnknown")
  ELSE LET n == nodes[o.i] IN
       IF "Browse" \notin Eff(u, n) THEN "BadNodeIDUnknown"
       ELSE IF o.attr = "Historizing" THEN (IF "WriteHist" \notin Eff(u, n) THEN "BadUserAccessDenied" ELSE IF o.val.t = "Boolean" /\ ~o.val.a THEN "Good" ELSE "BadTypeMismatch")
       ELSE IF o.attr # "Value" THEN "BadAttributeIDInvalid"
       ELSE IF "W" \notin n.acc THEN "BadNotWritable" ELSE IF "W" \notin UserAcc(u, n) THEN "BadUserAccessDenied"
       ELSE LET v == Conv(n, o.val) ts == TypeStat(n, v) IN
            IF ts # "Good" THEN ts ELSE IF o.r.k = "none" THEN "Good"
            ELSE LET s == RStat(n.val, o.r) IN
                 IF s # "Good" THEN (IF o.r.k = "two" THEN "Bad*" ELSE s)
                 ELSE IF v.t # n.val.t \/ v.a # n.val.a THEN "Bad*"           \* elements of another type
                 ELSE IF ~Fits(n.val, o.r, v.d) THEN "BadIndexRangeNoData" ELSE "Good"
Written(n, o) == IF o.attr = "Historizing" THEN [n EXCEPT !.hist = (o.val.d[1] = 1)]
                 ELSE LET v == Conv(n, o.val) IN
                      IF o.r.k = "none" THEN [n EXCEPT !.val = v, !.st = o.st]
                      ELSE [n EXCEPT !.st = o.st, !.val.d = Put(n.val, o.r, o.val.d)]

---- (* behaviours *)
Target == IF OneIn(25) THEN [n |-> "none", i |-> 0] ELSE IF OneIn(IF Profile = "perm" THEN 4 ELSE 20) THEN [n |-> One(Std), i |-> 0] ELSE [n |-> "v", i |-> One(1..Len(nodes))]
RandRead == LET t == Target IN t @@ [attr |-> IF Profile = "value" /\ ~OneIn(4) THEN "Value" ELSE One(AllAttrs), r |-> IF Profile = "perm" THEN [s |-> "", k |-> "none", lo |-> 0, hi |-> 0] ELSE RandRange,
                                     enc |-> IF OneIn(30) THEN "Default Binary" ELSE ""]
RandEls(v, n) == IF v.a THEN RandArr(v.t, n) ELSE RandSeq(v.t, n)
(* a value to write: mostly one that fits, and that fits the range *)
WriteVal(n, r) ==
  IF OneIn(15) THEN Nil
  ELSE IF OneIn(8) THEN RandVal(One(Types), One(BOOLEAN))
  ELSE IF OneIn(12) /\ Takes(n) \in {"Byte", "ByteString"} THEN RandVal(IF Takes(n) = "Byte" THEN "ByteString" ELSE "Byte", One(BOOLEAN))
  ELSE IF r.k = "two" /\ Elems(n.val) /\ RStat(n.val, r) = "Good" /\ ~OneIn(4)
       THEN [n.val EXCEPT !.d = [i \in DOMAIN Slice(n.val, r) |-> Code(RandSeq(n.val.t, Len(Chars(Slice(n.val, r)[i]))))]]
  ELSE IF r.k = "ok" /\ Elems(n.val) /\ RStat(n.val, r) = "Good" /\ ~OneIn(6)
       THEN [n.val EXCEPT !.d = RandEls(n.val, IF OneIn(8) THEN r.hi - r.lo + 1 ELSE Hi(n.val, r) - Lo(n.val, r) + 1)]
  ELSE RandVal(IF n.type = "Any" THEN One(Types) ELSE Takes(n), IF n.rank = -1 THEN OneIn(10) ELSE IF n.rank \in {0, 1} THEN ~OneIn(10) ELSE One(BOOLEAN))
RandWrite(t) == LET r == RandRange IN
                t @@ [attr |-> IF OneIn(IF Profile = "perm" THEN 3 ELSE 12) THEN One({"Historizing", "Historizing", "DisplayName", "AccessLevel"}) ELSE "Value", r |-> r, st |-> IF OneIn(6) THEN One({"UncertainInitialValue", "BadSensorFailure"}) ELSE "Good",
                      val |-> IF t.i = 0 THEN RandVal(One(Types), FALSE) ELSE IF OneIn(20) THEN RandVal("Boolean", FALSE) ELSE WriteVal(nodes[t.i], r)]
RECURSIVE Distinct(_, _)
Distinct(s, k) == IF k = 0 THEN s ELSE LET t == Target IN Distinct(IF t.i # 0 /\ \E j \in 1..Len(s) : s[j].i = t.i THEN s ELSE Append(s, RandWrite(IF t.n \in Std THEN t ELSE t)), k - 1)

SvcRead(o) == IF o.age < 0 THEN "BadMaxAgeInvalid" ELSE IF o.ts > 3 THEN "BadTimestampsToReturnInvalid"
              ELSE IF o.ops = <<>> THEN "BadNothingToDo" ELSE IF Len(o.ops) > MaxOps THEN "BadTooManyOperations" ELSE "Good"
DoRead == LET u == One(Users) k == IF OneIn(15) THEN One({0, MaxOps, MaxOps + 1}) ELSE One(1..4)
              o == [op |-> "read", u |-> u, age |-> IF OneIn(25) THEN -1 ELSE One({0, 100}), ts |-> IF OneIn(20) THEN 4 ELSE One(0..3), ops |-> [i \in 1..k |-> RandRead]]
          IN \E x \in {o} : /\ hist' = Append(hist, x @@ [want |-> SvcRead(x), res |-> IF SvcRead(x) = "Good" THEN [i \in 1..Len(x.ops) |-> Read(x.u, x.ops[i])] ELSE <<>>])
                            /\ UNCHANGED <<nodes, conf>>
SvcWrite(ops) == IF ops = <<>> THEN "BadNothingToDo" ELSE IF Len(ops) > MaxOps THEN "BadTooManyOperations" ELSE "Good"
DoWrite == \E u \in {One(Users)} : \E ops \in {IF OneIn(25) THEN <<>> ELSE IF OneIn(25) THEN [i \in 1..(MaxOps + 1) |-> RandWrite([n |-> "v", i |-> 1])] ELSE Distinct(<<>>, One(1..4))} :
             LET ws == SvcWrite(ops) st == [i \in 1..Len(ops) |-> WStat(u, ops[i])] IN
             /\ hist' = Append(hist, [op |-> "write", u |-> u, ops |-> ops, want |-> ws, res |-> IF ws = "Good" THEN [i \in 1..Len(ops) |-> [st |-> st[i]]] ELSE <<>>])
             /\ nodes' = [i \in 1..Len(nodes) |-> LET w == {j \in 1..Len(ops) : ops[j].i = i /\ ws = "Good" /\ st[j] = "Good"} IN
                            IF w = {} THEN nodes[i] ELSE Written(nodes[i], ops[CHOOSE j \in w : TRUE])]
             /\ UNCHANGED conf
(* every element of an array written by its own operation of one request: none may be lost *)
Arrays == {i \in 1..Len(nodes) : nodes[i].val.a /\ Len(nodes[i].val.d) > 1 /\ nodes[i].rank # -1}
DoMany == \E u \in {One(Users)} : \E i \in {One(Arrays)} : \E vs \in {RandSeq(nodes[i].val.t, Len(nodes[i].val.d))} :
            LET ops == [j \in 1..Len(vs) |-> [n |-> "v", i |-> i, attr |-> "Value", r |-> [s |-> ToString(j - 1), k |-> "ok", lo |-> j - 1, hi |-> j - 1], st |-> nodes[i].st,
                                              val |-> [nodes[i].val EXCEPT !.d = <<vs[j]>>]]]
                st == [j \in 1..Len(ops) |-> WStat(u, ops[j])] IN
            /\ hist' = Append(hist, [op |-> "write", u |-> u, ops |-> ops, want |-> "Good", res |-> [j \in 1..Len(ops) |-> [st |-> st[j]]]])
            /\ nodes' = IF st[1] = "Good" THEN [nodes EXCEPT ![i].val.d = vs] ELSE nodes
            /\ UNCHANGED conf
(* at the end everything is read back *)
Final == /\ hist' = Append(hist, [op |-> "final", u |-> "", ops |-> [i \in 1..Len(nodes) |-> [n |-> "v", i |-> i]], want |-> "Good", res |-> [i \in 1..Len(nodes) |-> [st |-> nodes[i].st, val |-> nodes[i].val, hist |-> nodes[i].hist]]])
         /\ UNCHANGED <<nodes, conf>>
Init == conf = <<>> /\ nodes = <<>> /\ hist = <<>>
Setup == \E cf \in {[perms |-> RandPerms, roles |-> [u \in Users |-> IF Profile = "value" THEN {"rA"} ELSE {r \in Roles : OneIn(2)}]]} : \E ns \in {[i \in 1..6 |-> RandNode]} :
          conf' = cf /\ nodes' = ns /\ hist' = <<[op |-> "init", nodes |-> ns, u |-> "", want |-> "Good", res |-> <<>>]>>
Next == /\ Len(hist) < Steps
        /\ IF hist = <<>> THEN Setup ELSE IF Len(hist) = Steps - 1 THEN Final
           ELSE LET r == One(1..10) IN IF r <= 4 THEN DoRead ELSE IF r = 10 /\ Arrays # {} THEN DoMany ELSE DoWrite
(* what is stored always respects type, rank and limits; a refused or unpermitted operation changes nothing *)
TypeOK == \A i \in 1..Len(nodes) : LET n == nodes[i] IN n.val.t = "Nil" \/ ((Takes(n) = "Any" \/ n.val.t = Takes(n)) /\ (IF n.val.a THEN ArrayOK(n.rank) ELSE ScalarOK(n.rank)))
Frame == [][\A i \in 1..Len(nodes) : nodes'[i] # nodes[i] =>
             LET h == hist'[Len(hist')] IN h.op = "write" /\ \E j \in 1..Len(h.ops) : h.ops[j].i = i /\ h.res[j].st = "Good" /\ "Browse" \in Eff(h.u, nodes[i])
               /\ (h.ops[j].attr = "Value" => "Write" \in Eff(h.u, nodes[i]) /\ "W" \in nodes[i].acc)]_vars
Emit == Len(hist) < Steps \/ PrintT("CASE " \o ToJson([conf |-> conf, steps |-> hist]))
=============================================================================
