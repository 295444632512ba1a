------------------------------- MODULE Nodeset -------------------------------
(* Loading models (UANodeSet documents): the nodes that a server has afterwards.  V01. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

MC == "MC" \in DOMAIN IOEnv
Loads == IF MC THEN 2 ELSE 3
VARIABLES table,   \* the namespaces of the server, in order
          nodes,   \* the nodes loaded
          hist, fin
vars == <<table, nodes, hist, fin>>
\* state-level on purpose: TLC evaluates a definition that depends on no variable once and keeps the value
One(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE {}
OneIn(n) == Len(hist) >= 0 /\ RandomElement(1..n) = 1

Start == <<"ua", "app", "env">>
Uris == {"x", "y", "z", "env", "ua"}
Kinds == {"i", "s", "g", "b"}
Classes == {"ObjectType", "VariableType", "DataType", "ReferenceType", "Object", "Variable", "Method", "View"}
Std(n) == [uri |-> "ua", k |-> "i", id |-> n]
(* a null reference: nothing is written in the document *)
Absent == [uri |-> "", k |-> "", id |-> 0]
StdTargets == {Std(85), Std(58), Std(63), Std(24), Std(31), Std(86)}
StdRefs == {Std(35), Std(47), Std(46), Std(45), Std(40), Std(37)}
OneWay == {Std(40), Std(37)}                       \* type definition and modelling rule: their targets need not know

Base == 100000                                     \* numbers that the standard does not use
---- (* values: the type of the element in the document decides *)
Scalars == {"Boolean", "SByte", "Byte", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Float", "Double", "String", "DateTime", "Guid", "ByteString",
            "XmlElement", "LocalizedText", "QualifiedName", "NodeId", "ExpandedNodeId"}
Structs == {"Range", "EUInformation", "Argument", "EnumValueType"}
TypeId(t) == CASE t = "Boolean" -> 1 [] t = "SByte" -> 2 [] t = "Byte" -> 3 [] t = "Int16" -> 4 [] t = "UInt16" -> 5 [] t = "Int32" -> 6 [] t = "UInt32" -> 7 [] t = "Int64" -> 8
               [] t = "UInt64" -> 9 [] t = "Float" -> 10 [] t = "Double" -> 11 [] t = "String" -> 12 [] t = "DateTime" -> 13 [] t = "Guid" -> 14 [] t = "ByteString" -> 15
               [] t = "XmlElement" -> 16 [] t = "NodeId" -> 17 [] t = "ExpandedNodeId" -> 18 [] t = "QualifiedName" -> 20 [] t = "LocalizedText" -> 21
               [] t = "Range" -> 884 [] t = "EUInformation" -> 887 [] t = "Argument" -> 296 [] t = "EnumValueType" -> 7594
(* standard types whose values are of another type *)
Others(t) == CASE t = "Double" -> {290} [] t = "DateTime" -> {294} [] t = "String" -> {295, 291} [] t \in {"Int16", "Int32", "Int64", "SByte"} -> {27, 26} [] t \in {"UInt16", "UInt32", "UInt64", "Byte"} -> {28, 26}
               [] t = "Float" -> {26} [] t = "ByteString" -> {30} [] OTHER -> {}
Lits(t) == CASE t = "Boolean" -> {"true", "false"} [] t = "SByte" -> {"-128", "0", "127"} [] t = "Byte" -> {"0", "7", "255"} [] t = "Int16" -> {"-32768", "12", "32767"} [] t = "UInt16" -> {"0", "65535"}
             [] t = "Int32" -> {"-2147483648", "0", "3", "2147483647"} [] t = "UInt32" -> {"0", "4294967295"} [] t = "Int64" -> {"-9223372036854775808", "5", "9223372036854775807"}
             [] t = "UInt64" -> {"0", "18446744073709551615"} [] t = "Float" -> {"0", "1.5", "-0.25", "+Inf"} [] t = "Double" -> {"0", "-2.5", "1e+300", "-Inf"}
             [] t \in {"String", "LocalizedText", "QualifiedName"} -> {"plain", "amp", "spaces", "unicode", "colon"} [] t = "DateTime" -> {"2020-01-02T03:04:05Z", "1999-12-31T23:59:59.5Z"}
             [] t = "Guid" -> {"5ce9dbce-5d79-434c-9ac3-1cfba9a6e92c", "00000000-0000-0000-0000-000000000001"} [] t = "ByteString" -> {"00", "616263", "fffe00", ""}
             [] t = "XmlElement" -> {"<a>1</a>", "<b c=\"d\">x</b>"} [] OTHER -> {""}

---- (* choices *)
Text == One({"plain", "amp", "spaces", "unicode", "colon"})
Key(ks) == One(ks)
RandScalar(t, ks) == [t |-> t, v |-> One(Lits(t)), locale |-> IF t = "LocalizedText" THEN One({"", "en", "de-DE"}) ELSE "",
                      key |-> IF t \in {"NodeId", "ExpandedNodeId"} THEN Key(ks \cup StdTargets) ELSE Absent, uri |-> IF t = "QualifiedName" THEN One({x.uri : x \in ks}) ELSE ""]
RandStruct(t, ks) == [t |-> t, v |-> Text, locale |-> One({"", "en"}), key |-> IF t = "Argument" THEN Key(ks \cup {Std(6), Std(12)}) ELSE Absent, uri |-> One({"", "http://unit"})]
RandValue(ks, dts) ==
  LET t == One(Scalars \cup (IF OneIn(3) THEN Structs ELSE {})) IN
  LET arr == IF t \in {"Argument", "EnumValueType"} THEN TRUE ELSE IF t \in Structs THEN FALSE ELSE OneIn(3) IN
  LET n == IF arr THEN One(0..3) ELSE 1 IN
  [t |-> t, arr |-> arr, odd |-> t \in Structs /\ OneIn(6), variant |-> arr /\ t \notin (Structs \cup {"NodeId", "ExpandedNodeId", "XmlElement"}) /\ OneIn(5),
   items |-> [i \in 1..n |-> IF t \in Structs THEN RandStruct(t, ks) ELSE RandScalar(t, ks)],
   dt |-> IF t \in Structs THEN Std(TypeId(t)) ELSE IF OneIn(4) /\ dts # {} THEN One(dts) ELSE IF OneIn(3) THEN Std(One(Others(t) \cup {24})) ELSE IF OneIn(8) THEN Absent ELSE Std(TypeId(t))]
NoValue(dts) == [t |-> "", arr |-> FALSE, odd |-> FALSE, variant |-> FALSE, items |-> <<>>, dt |-> One({Absent, Std(11), Std(12), Std(24), Std(884)} \cup dts)]
Opt(S) == IF OneIn(3) THEN "" ELSE One(S)
RandRank(v) == IF v.t = "" THEN One({"", "-1", "1", "2", "3", "-2", "0"}) ELSE IF v.arr THEN "1" ELSE One({"", "-1"})
(* types have one supertype, of the standard *)
Sane(r) == IF r.type = Std(45) THEN [r EXCEPT !.fwd = FALSE, !.target = Std(24)] ELSE r
RandNode(key, cls, ks, rts, dts) ==
  LET v == IF cls \in {"Variable", "VariableType"} THEN (IF OneIn(4) THEN NoValue(dts) ELSE RandValue(ks, dts)) ELSE NoValue({}) IN
  \* the type of the values in an array of variants is not the type of a number
  LET v2 == IF v.variant THEN [v EXCEPT !.dt = Std(24)] ELSE v IN
  LET rank == RandRank(v2) IN
  [key |-> key, cls |-> cls, browse |-> [uri |-> One({key.uri, "ua"}), v |-> Text], display |-> [v |-> Text, locale |-> One({"", "", "en"})], descr |-> [v |-> One({"", "plain", "amp"}), locale |-> One({"", "de"})],
   abstract |-> Opt({"true", "false"}), symmetric |-> Opt({"true", "false"}), inverse |-> One({"", "plain", "amp"}), notifier |-> Opt({"0", "1", "4", "5"}), noloops |-> Opt({"true", "false"}),
   value |-> v2, rank |-> rank, dims |-> IF rank \in {"1", "2", "3"} /\ OneIn(2) THEN [i \in 1..(IF rank = "1" THEN 1 ELSE IF rank = "2" THEN 2 ELSE 3) |-> One({0, 2, 7})] ELSE <<>>,
   access |-> Opt({"1", "3", "5", "7"}), sampling |-> Opt({"0", "100", "-1", "2.5"}), historizing |-> Opt({"true", "false"}), executable |-> Opt({"true", "false"}), lex |-> One(0..255),
   refs |-> LET n == One(0..3) IN {Sane([type |-> One(StdRefs \cup (IF OneIn(3) THEN rts ELSE {})), fwd |-> OneIn(2), target |-> One(((IF OneIn(3) THEN StdTargets ELSE ks) \ {key}) \cup {Std(85)})]) : i \in 1..n}]
Inv(r, k) == [type |-> r.type, fwd |-> ~r.fwd, target |-> k]
(* some references are declared by both *)
Both(ns) == [i \in 1..Len(ns) |-> [ns[i] EXCEPT !.refs = @ \cup {x \in UNION {{Inv(r, ns[j].key) : r \in {q \in ns[j].refs : q.target = ns[i].key /\ q.type \notin OneWay}} : j \in 1..Len(ns)} : OneIn(2)}]]
Pick(u) == IF OneIn(2) THEN SetToSeq(u) ELSE Reverse(SetToSeq(u))

---- (* the rule *)
NewTable(t, us) == t \o SelectSeq(us, LAMBDA u : u \notin Range(t))
(* every reference is known at both its ends *)
RefsOf(ns, k) == UNION {{r \in n.refs : n.key = k} : n \in Range(ns)} \cup UNION {{Inv(r, n.key) : r \in {q \in n.refs : q.target = k}} : n \in Range(ns)}
Dflt(s, d) == IF s = "" THEN d ELSE s
Node(n) == [key |-> n.key, cls |-> n.cls, browse |-> n.browse, display |-> n.display, descr |-> n.descr, abstract |-> Dflt(n.abstract, "false"), symmetric |-> Dflt(n.symmetric, "false"), inverse |-> n.inverse,
            notifier |-> Dflt(n.notifier, "0"), noloops |-> Dflt(n.noloops, "false"), dt |-> IF n.value.dt = Absent THEN Std(24) ELSE n.value.dt, rank |-> Dflt(n.rank, "-1"), dims |-> n.dims,
            access |-> Dflt(n.access, "1"), sampling |-> Dflt(n.sampling, "0"), historizing |-> Dflt(n.historizing, "false"), executable |-> Dflt(n.executable, "true"),
            value |-> n.value]
Want(t, ns) == [table |-> t, nodes |-> [i \in 1..Len(ns) |-> Node(ns[i])], refs |-> [i \in 1..Len(ns) |-> RefsOf(ns, ns[i].key)],
                std |-> LET ks == SetToSeq(StdTargets) IN [i \in 1..Len(ks) |-> [key |-> ks[i], refs |-> RefsOf(ns, ks[i])]]]

---- (* actions *)
Init == table = Start /\ nodes = <<>> /\ hist = <<>> /\ fin = FALSE
Keys == {nodes[i].key : i \in 1..Len(nodes)}
KeysOf(ns, c) == {ns[i].key : i \in {j \in 1..Len(ns) : ns[j].cls = c}}
Load == /\ ~MC
        /\ \E us \in {Pick(One({S \in SUBSET Uris : S # {}}))}, n \in {One(1..5)} :
           \E ks \in {[i \in 1..n |-> [uri |-> One(Range(us) \cup {"ua"}), k |-> One(Kinds), id |-> Base + Len(nodes) + i]]}, cs \in {[i \in 1..n |-> One(Classes \cup {"Variable"})]} :
           \* what a document names, it must have a namespace for
           LET here == {k \in Keys : k.uri \in Range(us) \cup {"ua"}} IN
           LET skel == [i \in 1..n |-> [key |-> ks[i], cls |-> cs[i]]] IN
           LET rts == KeysOf(skel, "ReferenceType") \cup (KeysOf(nodes, "ReferenceType") \cap here) IN
           LET dts == KeysOf(skel, "DataType") \cup (KeysOf(nodes, "DataType") \cap here) IN
           \E new0 \in {[i \in 1..n |-> RandNode(ks[i], cs[i], Range(ks) \cup here, rts, dts)]} :
           \E new \in {Both(new0)} :
             /\ table' = NewTable(table, us) /\ nodes' = nodes \o new
             /\ hist' = Append(hist, [op |-> "load", uris |-> us, alias |-> One(0..1), style |-> One(0..7), new |-> new, want |-> Want(NewTable(table, us), nodes \o new)])
        /\ UNCHANGED fin
(* a document cut short changes nothing *)
Bad == /\ ~MC /\ OneIn(4)
       /\ hist' = Append(hist, [op |-> "bad", uris |-> <<One(Uris \ {"ua"})>>, cut |-> One(1..99), want |-> Want(table, nodes)])
       /\ UNCHANGED <<table, nodes, fin>>
(* for exhaustive exploration: two nodes per document with one reference each *)
MCLoad == /\ MC
          /\ \E us \in {<<"x">>, <<"y", "x">>, <<"env", "y">>}, f \in BOOLEAN, t \in {Std(85), [uri |-> "x", k |-> "i", id |-> 1], [uri |-> "y", k |-> "s", id |-> Len(nodes) + 2]} :
             LET mk(u, k, i, rs) == [key |-> [uri |-> u, k |-> k, id |-> i], cls |-> "Object", refs |-> rs] IN
             LET new == <<mk(us[1], "i", Len(nodes) + 1, {[type |-> Std(35), fwd |-> f, target |-> t]}), mk("y", "s", Len(nodes) + 2, {})>> IN
             /\ table' = NewTable(table, us) /\ nodes' = nodes \o new /\ hist' = Append(hist, 0)
          /\ UNCHANGED fin
Next == \/ Len(hist) < Loads /\ (Load \/ Bad \/ MCLoad)
        \/ Len(hist) = Loads /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<table, nodes, hist>>
Emit == (fin /\ ~MC) => PrintT("CASE " \o ToJson([steps |-> hist]))

---- (* what the rule promises *)
(* a namespace has one place, for ever *)
Table == /\ \A i, j \in 1..Len(table) : table[i] = table[j] => i = j
         /\ SubSeq(table, 1, 3) = Start
(* references have two ends *)
TwoEnds == \A n \in Range(nodes) : \A r \in RefsOf(nodes, n.key) : r.target \in {m.key : m \in Range(nodes)} => Inv(r, n.key) \in RefsOf(nodes, r.target)
=============================================================================
