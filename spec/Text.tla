-------------------------------- MODULE Text --------------------------------
(* Ids and names as texts, and ids relative to a table of namespaces.  P01. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

MC == "MC_STEPS" \in DOMAIN IOEnv
Steps == 60
VARIABLES hist, fin
vars == <<hist, fin>>
One(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE {}
OneIn(n) == Len(hist) >= 0 /\ RandomElement(1..n) = 1

---- (* texts are put together of pieces; "~u" stands for a letter beyond ASCII *)
Pieces == {"a", "Demo", ";", "=", ":", "%", "%3B", "ns=2;", "i=5", "/", " ", "0", "7:", "svr=1;", "~u"}
Cat(ps) == FoldLeft(LAMBDA a, b : a \o b, "", ps)
(* in the text of a namespace uri ";" and "%" are escaped *)
Esc == [p \in Pieces |-> IF p = ";" THEN "%3B" ELSE IF p = "%" THEN "%25" ELSE IF p = "%3B" THEN "%253B" ELSE IF p = "ns=2;" THEN "ns=2%3B" ELSE IF p = "svr=1;" THEN "svr=1%3B" ELSE p]
EscLow == [p \in Pieces |-> IF p = ";" THEN "%3b" ELSE IF p = "ns=2;" THEN "ns=2%3b" ELSE Esc[p]]
Escaped(ps, e) == Cat([i \in DOMAIN ps |-> e[ps[i]]])
Guids == {[lo |-> "5ce9dbce-5d79-434c-9ac3-1cfba9a6e92c", up |-> "5CE9DBCE-5D79-434C-9AC3-1CFBA9A6E92C"], [lo |-> "00000000-0000-0000-0000-000000000000", up |-> "00000000-0000-0000-0000-000000000000"]}
Opaques == {[hex |-> "", b64 |-> ""], [hex |-> "616263", b64 |-> "YWJj"], [hex |-> "ff", b64 |-> "/w=="], [hex |-> "fbff", b64 |-> "+/8="], [hex |-> "3b3d00", b64 |-> "Oz0A"]}

---- (* the rule: ids *)
(* an id is [k, ns, v]: v is the text of a number, pieces, a guid or bytes *)
Body(id) == IF id.k = "i" THEN "i=" \o id.v ELSE IF id.k = "s" THEN "s=" \o Cat(id.v) ELSE IF id.k = "g" THEN "g=" \o id.v.lo ELSE "b=" \o id.v.b64
IdText(id) == (IF id.ns = 0 THEN "" ELSE "ns=" \o ToString(id.ns) \o ";") \o Body(id)
(* other texts of the same id *)
IdAlso(id) == {"ns=" \o ToString(id.ns) \o ";" \o Body(id)} \cup (IF id.k = "g" THEN {(IF id.ns = 0 THEN "" ELSE "ns=" \o ToString(id.ns) \o ";") \o "g=" \o id.v.up} ELSE {})
NoIds == {"", "i=", "i=-1", "i=+1", "i=4294967296", "i=5;", "i=5 ", "ns=65536;i=1", "ns=-1;s=a", "ns=x;i=1", "ns=1", "ns=1;", "ns=;i=5", "x=1", "85", "s", "g=5ce9dbce", "g=5ce9dbce-5d79-434c-9ac3-1cfba9a6e92", "b=@", "b=YWJ", "ns=1;ns=2;i=5", "Demo"}
(* an expanded id is [svr, uri, id] *)
XText(x) == (IF x.svr = 0 THEN "" ELSE "svr=" \o ToString(x.svr) \o ";") \o (IF x.uri = <<>> THEN "" ELSE "nsu=" \o Escaped(x.uri, Esc) \o ";") \o IdText(x.id)
XAlso(x) == {"svr=" \o ToString(x.svr) \o ";" \o (IF x.uri = <<>> THEN "" ELSE "nsu=" \o Escaped(x.uri, EscLow) \o ";") \o IdText(x.id)}
NoXs == NoIds \cup {"svr=1", "svr=x;i=5", "svr=4294967296;i=5", "nsu=urn:a", "nsu=urn:a;", "svr=1;nsu=urn:a", "svr=1;nsu=urn:a;x=5", "nsu=urn:a;svr=1;i=5"}
(* relative to a table of namespaces, which begins with that of OPC UA *)
ToLocal(x, table) == IF x.uri = <<>> THEN <<x.id>> ELSE LET at == {i \in DOMAIN table : table[i] = x.uri} IN IF at = {} THEN <<>> ELSE <<[x.id EXCEPT !.ns = (CHOOSE i \in at : TRUE) - 1]>>
ToExpanded(id, table) == IF id.ns > 0 /\ id.ns < Len(table) THEN [svr |-> 0, uri |-> table[id.ns + 1], id |-> [id EXCEPT !.ns = 0]] ELSE [svr |-> 0, uri |-> <<>>, id |-> id]

---- (* the rule: names *)
QText(q) == ToString(q.ns) \o ":" \o Cat(q.name)
(* texts that are a name without a namespace *)
Plain == {"Demo", "", ":x", "a:b", "70000:x", "65536:", "-1:x", "x:7:y", " 1:x", "Demo;Static", "4294967296:x"}
NoSlash == Pieces \ {"/"}

---- (* the rule: status codes, in 16 high bits and 16 low bits *)
Severity(h) == IF h < 16384 THEN "good" ELSE IF h < 32768 THEN "uncertain" ELSE IF h < 49152 THEN "bad" ELSE "none"
Bit(n, b) == (n \div b) % 2 = 1
Flags(h, l) == [sev |-> Severity(h), structure |-> Bit(l, 32768), semantics |-> Bit(l, 16384), overflow |-> Bit(l, 1024) /\ ~Bit(l, 2048) /\ Bit(l, 128)]

---- (* actions *)
Add(r) == hist' = Append(hist, r) /\ UNCHANGED fin
PieceSeq(S, n) == SubSeq(<<One(S), One(S), One(S)>>, 1, One(0..n))
RandId == LET k == One({"i", "s", "s", "g", "b"}) ns == One({0, 0, 1, 2, 3, 9, 65535})
          IN [k |-> k, ns |-> ns, v |-> IF k = "i" THEN One({"1", "85", "4294967295"} \cup (IF ns = 0 THEN {} ELSE {"0"})) ELSE IF k = "s" THEN PieceSeq(Pieces, 3) ELSE IF k = "g" THEN One(Guids) ELSE One(Opaques)]
URIs == {<<"a">>, <<"Demo">>, <<"a", ";", "a">>, <<"%">>, <<"%3B">>, <<";">>, <<"~u">>, <<"ns=2;">>, <<"Demo", "%", "0">>, <<"/", "7:">>}
RandX == [svr |-> One({0, 0, 1, 4000000}), uri |-> IF OneIn(4) THEN <<>> ELSE IF OneIn(2) THEN One(URIs) ELSE <<One(Pieces), One(Pieces)>>, id |-> RandId]
Fit(x) == IF x.uri = <<>> THEN x ELSE [x EXCEPT !.id = IF x.id.k = "i" /\ x.id.v = "0" THEN [k |-> "i", ns |-> 0, v |-> "7"] ELSE [x.id EXCEPT !.ns = 0]]
Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
Tables == {s \in UNION {[1..n -> URIs] : n \in 0..3} : Distinct(s)}
RandTable == <<<<"Demo", "/", "0">>>> \o One(Tables)
Show(id) == [k |-> id.k, ns |-> id.ns, v |-> IF id.k = "i" THEN id.v ELSE IF id.k = "s" THEN Cat(id.v) ELSE IF id.k = "g" THEN id.v.lo ELSE id.v.hex]
ShowX(x) == [svr |-> x.svr, uri |-> Cat(x.uri), id |-> Show(x.id)]
AnId == \E id \in {RandId} : Add([op |-> "id", id |-> Show(id), text |-> IdText(id), also |-> IdAlso(id)])
NoId == Add([op |-> "noid", text |-> One(NoIds)])
AnX == \E r \in {RandX} : \E x \in {Fit(r)} : Add([op |-> "x", x |-> ShowX(x), text |-> XText(x), also |-> XAlso(x)])
NoX == Add([op |-> "nox", text |-> One(NoXs)])
Known(x, t) == [x EXCEPT !.uri = One(Range(t)), !.id = Fit([x EXCEPT !.uri = <<"a">>]).id]
Local == \E t \in {RandTable}, r \in {RandX} : \E x \in {Fit(r)} : \E y \in {IF OneIn(2) THEN x ELSE Known(x, t)} : \E z \in {[y EXCEPT !.svr = 0]} :
  Add([op |-> "local", x |-> ShowX(z), table |-> [i \in DOMAIN t |-> Cat(t[i])], want |-> [i \in DOMAIN ToLocal(z, t) |-> Show(ToLocal(z, t)[i])]])
Expanded == \E t \in {RandTable}, id \in {RandId} : Add([op |-> "expanded", id |-> Show(id), table |-> [i \in DOMAIN t |-> Cat(t[i])], want |-> ShowX(ToExpanded(id, t))])
RandQ(S) == [ns |-> One({0, 1, 2, 9, 65535}), name |-> PieceSeq(S, 3)]
Name == \E q \in {RandQ(Pieces)} : Add([op |-> "name", ns |-> q.ns, name |-> Cat(q.name), text |-> QText(q)])
PlainName == Add([op |-> "plain", text |-> One(Plain)])
Path == \E n \in {One(0..4)} : \E p \in {SubSeq(<<RandQ(NoSlash), RandQ(NoSlash), RandQ(NoSlash), RandQ(NoSlash)>>, 1, n)} :
  LET text == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o "/" \o b, "", [i \in DOMAIN p |-> QText(p[i])])
  IN Add([op |-> "path", path |-> [i \in DOMAIN p |-> [ns |-> p[i].ns, name |-> Cat(p[i].name)]], text |-> text])
Status == \E h \in {One({0, 1, 16383, 16384, 16385, 32767, 32768, 32769, 49151, 32778, 179})}, l \in {One({0, 128, 1024, 1152, 3200, 2176, 16384, 32768, 49152, 65535, 1023, 33920})} :
  Add([op |-> "status", hi |-> h, lo |-> l, want |-> Flags(h, l)])
Init == hist = <<>> /\ fin = FALSE
Next == \/ ~MC /\ Len(hist) < Steps /\ (AnId \/ NoId \/ AnX \/ NoX \/ Local \/ Expanded \/ Name \/ PlainName \/ Path \/ Status)
        \/ Len(hist) = Steps /\ ~fin /\ fin' = TRUE /\ UNCHANGED hist
Emit == fin => PrintT("CASE " \o ToJson([steps |-> hist]))

---- (* what the rule promises: different ids have different texts, also different from texts that are none; conversions are inverse *)
Seqs(n) == UNION {[1..k -> Pieces] : k \in 0..n}
Vals(k, n) == IF k = "i" THEN {"1", "85"} ELSE IF k = "s" THEN Seqs(n) ELSE IF k = "g" THEN Guids ELSE Opaques
Same(id) == [Show(id) EXCEPT !.k = id.k]
Ids(n) == UNION {{[k |-> k, ns |-> ns, v |-> v] : ns \in {0, 1, 2}, v \in Vals(k, n)} : k \in {"i", "s", "g", "b"}}
Bare(n) == {id \in Ids(n) : id.ns = 0}
Xs == [svr : {0, 1}, uri : Seqs(2), id : Bare(1)]
OneToOne(S, T(_), V(_)) == Cardinality({T(x) : x \in S}) = Cardinality({V(x) : x \in S})
Injective == MC => /\ OneToOne(Ids(2), IdText, Show) /\ OneToOne(Xs, XText, ShowX)
                   /\ OneToOne([ns : {0, 1, 7}, name : Seqs(2)], QText, LAMBDA q : <<q.ns, Cat(q.name)>>)
                   /\ {IdText(id) : id \in Ids(2)} \cap NoIds = {}
                   /\ {XText(x) : x \in Xs} \cap NoXs = {}
Table == <<<<"Demo">>, <<"a">>, <<";">>>>
Back == MC => \A id \in {id \in Ids(1) : id.ns < Len(Table)} : ToLocal(ToExpanded(id, Table), Table) = <<id>>
=============================================================================
