------------------------------- MODULE Codec -------------------------------
(* The binary encoding of OPC UA Part 6. Values are trees, numbers are sequences of 16-bit words (low word first), strings
   are sequences of bytes. Enc gives the bytes of a value. Norm reads the bytes of a value of some type and gives where it
   ends and the bytes that a decoder followed by an encoder has to write (the normal form), or that the bytes must be
   refused, or that the standard leaves the outcome open.
   Profiles: enc (B01: values and their bytes), dec (B02: altered bytes and their outcome).
   Choices are made by a deterministic generator, so that every expression has one value: a seed is a pair of numbers. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CodecSchema

VARIABLES seed, hist
Profile == IOEnv.CODEC_PROFILE

H(s, i) == << (s[1] * 25173 + s[2] + i * 4099 + 13849) % 46337, (s[2] * 31259 + s[1] + i * 977 + 6791) % 46327 >>
R(s, n) == (s[1] * 13 + s[2] * 29) % n
Of(s, q) == q[1 + R(s, Len(q))]

---- (* values *)
Word(s) == LET k == R(s, 16) IN IF k < 11 THEN <<0, 0, 1, 255, 256, 127, 128, 32767, 32768, 65535, 65534>>[k + 1] ELSE (R(H(s, 1), 256) * 256 + R(H(s, 2), 256))
AByte(s) == Word(s) % 256
Bytes(s, n) == [i \in 1..n |-> AByte(H(s, i))]
Chars(s, n) == [i \in 1..n |-> LET c == R(H(s, i), 20) IN IF c = 0 THEN 0 ELSE IF c = 1 THEN 255 ELSE 32 + R(H(s, 1000 + i), 95)]
Lens == <<0, 0, 1, 2, 3, 5, 8, 13, 30>>
StrLen(s) == IF R(s, 60) = 0 THEN 300 ELSE Of(H(s, 7), Lens)
Width == [Boolean |-> 1, SByte |-> 1, Byte |-> 1, Int16 |-> 2, UInt16 |-> 2, Int32 |-> 4, UInt32 |-> 4, Int64 |-> 8, UInt64 |-> 8, Float |-> 4, Double |-> 8, StatusCode |-> 4]
Numeric == DOMAIN Width
TypeId == [Boolean |-> 1, SByte |-> 2, Byte |-> 3, Int16 |-> 4, UInt16 |-> 5, Int32 |-> 6, UInt32 |-> 7, Int64 |-> 8, UInt64 |-> 9, Float |-> 10, Double |-> 11, String |-> 12, DateTime |-> 13, Guid |-> 14,
           ByteString |-> 15, XmlElement |-> 16, NodeId |-> 17, ExpandedNodeId |-> 18, StatusCode |-> 19, QualifiedName |-> 20, LocalizedText |-> 21, ExtensionObject |-> 22, DataValue |-> 23, Variant |-> 24]
TypeName == <<"Boolean", "SByte", "Byte", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Float", "Double", "String", "DateTime", "Guid", "ByteString", "XmlElement", "NodeId", "ExpandedNodeId", "StatusCode",
              "QualifiedName", "LocalizedText", "ExtensionObject", "DataValue", "Variant">>
Simple == SubSeq(TypeName, 1, 21)
Words(s, w) == [i \in 1..(w \div 2) |-> Word(H(s, i))]
(* ticks below the end of the year 9999 *)
Ticks(s) == Words(s, 6) \o <<LET k == R(s, 9) IN IF k = 0 THEN 0 ELSE IF k = 1 THEN 9415 ELSE 6800 + R(H(s, 3), 400)>>

RECURSIVE Gen(_, _, _), GenStruct(_, _, _)
(* requests to a server name nodes it has, and have plausible parameters *)
Plausible == Profile = "disp"
KnownNodes == <<84, 85, 86, 2253, 2253, 2253, 2254, 2255, 2256, 2258, 2259, 2261, 2267, 2268, 2274, 2275, 2294, 2295, 2994, 11492, 12873, 58, 62, 63, 69, 31, 33, 34, 35, 40, 45, 46, 47, 2041, 2052, 61, 1, 12, 17, 24, 862, 868, 856, 2290, 2289, 3707, 3708>>
GenNodeId(s) == IF Plausible /\ R(H(s, 8), 4) # 0 THEN [k |-> "num", ns |-> 0, id |-> <<Of(H(s, 9), KnownNodes), 0>>] ELSE LET k == R(s, 9)  ns == Of(H(s, 1), <<0, 0, 1, 2, 255, 256, 65535>>) IN
  CASE k = 0 -> [k |-> "null"]
  [] k \in 1..4 -> [k |-> "num", ns |-> ns, id |-> LET w == <<Word(H(s, 2)), Of(H(s, 3), <<0, 0, 0, 1, 65535>>)>> IN IF w = <<0, 0>> /\ ns = 0 THEN <<1, 0>> ELSE w]
  [] k \in {5, 6} -> [k |-> "str", ns |-> ns, id |-> Chars(H(s, 2), 1 + StrLen(H(s, 3)))]
  [] k = 7 -> [k |-> "guid", ns |-> ns, id |-> Gen("Guid", H(s, 2), 0)]
  [] OTHER -> [k |-> "opaque", ns |-> ns, id |-> Bytes(H(s, 2), 1 + StrLen(H(s, 3)))]
GenDiag(s, d) == LET has(i) == R(H(s, i), 2) = 0 IN
  [sym |-> IF has(1) THEN <<Words(H(s, 11), 4)>> ELSE <<>>, nsu |-> IF has(2) THEN <<Words(H(s, 12), 4)>> ELSE <<>>, loc |-> IF has(3) THEN <<Words(H(s, 13), 4)>> ELSE <<>>,
   txt |-> IF has(4) THEN <<Words(H(s, 14), 4)>> ELSE <<>>, info |-> IF has(5) THEN <<Chars(H(s, 15), StrLen(H(s, 16)))>> ELSE <<>>, st |-> IF has(6) THEN <<Words(H(s, 17), 4)>> ELSE <<>>,
   inner |-> IF has(7) /\ d > 0 THEN <<Gen("DiagnosticInfo", H(s, 18), d - 1)>> ELSE <<>>]
GenDataValue(s, d) == LET has(i) == R(H(s, i), 2) = 0 IN
  [v |-> IF has(1) THEN <<Gen("Variant", H(s, 11), d - 1)>> ELSE <<>>, st |-> IF has(2) THEN Words(H(s, 12), 4) ELSE <<0, 0>>, src |-> IF has(3) THEN <<Ticks(H(s, 13))>> ELSE <<>>, srcp |-> IF has(4) THEN Word(H(s, 14)) ELSE 0,
   srv |-> IF has(5) THEN <<Ticks(H(s, 15))>> ELSE <<>>, srvp |-> IF has(6) THEN Word(H(s, 16)) ELSE 0]
(* the value of a variant is not a null node id: that is the null variant *)
GenIn(t, s, d) == IF t = "NodeId" THEN LET x == GenNodeId(s) IN IF x.k = "null" THEN [k |-> "num", ns |-> 3, id |-> <<7, 0>>] ELSE x
                  ELSE IF t = "ExtensionObject" THEN GenStruct(Of(H(s, 1), Flat), H(s, 2), d) ELSE Gen(t, s, d)
GenVariant(s, d) == LET k == R(s, 16)  t == Of(H(s, 1), IF d <= 0 THEN Simple ELSE TypeName \o Simple) IN
  IF k = 0 THEN [k |-> "null"]
  ELSE IF k <= 7 \/ d <= 0 THEN LET u == IF t \in {"DataValue", "Variant"} THEN "ExtensionObject" ELSE t IN [k |-> "scalar", t |-> u, v |-> GenIn(u, H(s, 2), d - 1)]
  ELSE IF k = 8 THEN [k |-> "nil", t |-> t]
  ELSE IF k <= 12 THEN [k |-> "array", t |-> t, v |-> [i \in 1..Of(H(s, 3), <<0, 1, 2, 3, 5>>) |-> Gen(t, H(s, 10 + i), d - 1)]]
  ELSE LET dims == Of(H(s, 4), <<<<1, 1>>, <<2, 3>>, <<3, 1>>, <<1, 4>>, <<2, 2, 2>>, <<1, 2, 3>>, <<3, 2, 1>>>>)
           n == IF Len(dims) = 2 THEN dims[1] * dims[2] ELSE dims[1] * dims[2] * dims[3]
       IN [k |-> "multi", t |-> t, dims |-> dims, v |-> [i \in 1..n |-> Gen(t, H(s, 10 + i), d - 1)]]
Small(s, n) == <<R(s, n), 0>>
(* <<value>>, or <<>> for no hint *)
Hint(n, f, s, d) ==
  CASE f = "AttributeId" -> <<<<Of(s, <<12, 13, 13, 1 + R(H(s, 1), 30), 0, 1, 2, 3, 4, 5, 77>>), 0>>>>
  [] f \in {"SubscriptionId", "MonitoredItemId", "TriggeringItemId", "ServerHandle"} -> <<Small(s, 4)>>
  [] f = "IndexRange" -> <<Of(s, <<<<>>, <<>>, <<>>, <<48>>, <<48, 58, 49>>, <<50, 58, 49>>, <<48, 44, 49>>, <<120>>, <<45, 49>>, <<48, 58>>, <<57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57>>>>)>>
  [] f \in {"TimestampsToReturn", "MonitoringMode", "BrowseDirection", "RequestType", "SecurityMode", "Trigger", "DeadbandType"} -> <<Small(s, 5)>>
  [] f = "FilterOperator" -> <<Small(s, 19)>>
  [] f = "Index" -> <<Small(s, 4)>>
  [] f = "DataEncoding" -> <<Of(s, <<[ns |-> 0, name |-> <<>>], [ns |-> 0, name |-> <<>>], [ns |-> 0, name |-> <<68, 101, 102, 97, 117, 108, 116, 32, 66, 105, 110, 97, 114, 121>>], [ns |-> 5, name |-> <<88>>]>>)>>
  [] f = "Filter" /\ d > 0 /\ n \in {"MonitoringParameters"} -> <<IF R(s, 4) = 0 THEN [t |-> ""] ELSE GenStruct(Of(H(s, 1), <<"EventFilter", "EventFilter", "DataChangeFilter", "AggregateFilter", "Argument">>), H(s, 2), d + 1)>>
  [] f = "HistoryReadDetails" -> <<GenStruct(Of(H(s, 1), <<"ReadRawModifiedDetails", "ReadEventDetails", "ReadProcessedDetails", "ReadAtTimeDetails", "Argument">>), H(s, 2), d)>>
  [] f = "UserIdentityToken" -> <<IF R(s, 4) = 0 THEN [t |-> ""] ELSE GenStruct(Of(H(s, 1), <<"AnonymousIdentityToken", "UserNameIdentityToken", "X509IdentityToken", "IssuedIdentityToken", "Argument">>), H(s, 2), d)>>
  [] f \in {"RequestedMaxReferencesPerNode", "QueueSize", "RequestedLifetimeCount", "RequestedMaxKeepAliveCount", "MaxNotificationsPerPublish"} -> <<IF R(s, 3) = 0 THEN <<65535, 65535>> ELSE Small(s, 50)>>
  [] OTHER -> <<>>
GenStruct(n, s, d) == [t |-> n, v |-> [i \in 1..Len(Schema[n]) |-> LET f == Schema[n][i]  h == IF Plausible THEN (IF f[1] = "FilterOperands" THEN <<[j \in 1..R(H(s, 60), 4) |-> GenStruct(Of(H(s, 61 + j), <<"ElementOperand", "LiteralOperand", "SimpleAttributeOperand", "SimpleAttributeOperand", "AttributeOperand">>), H(s, 66 + j), d - 1)]>> ELSE Hint(n, f[1], H(s, i), d)) ELSE <<>> IN
  IF h # <<>> THEN h[1] ELSE IF f[3] THEN [j \in 1..(IF d <= 0 THEN R(H(s, 50 + i), 2) ELSE Of(H(s, 50 + i), <<0, 1, 2, 3>>)) |-> Gen(f[2], H(H(s, i), j), d - 1)] ELSE Gen(f[2], H(s, i), d - 1)]]
Gen(t, s, d) ==
  CASE t = "Boolean" -> <<R(s, 2)>>
  [] t \in {"SByte", "Byte"} -> <<AByte(s)>>
  [] t \in Numeric -> Words(s, Width[t])
  [] t = "DateTime" -> Ticks(s)
  [] t \in {"String", "XmlElement"} -> Chars(s, StrLen(H(s, 9)))
  [] t = "ByteString" -> Bytes(s, StrLen(H(s, 9)))
  [] t = "Guid" -> [d1 |-> Words(H(s, 1), 4), d2 |-> Word(H(s, 2)), d3 |-> Word(H(s, 3)), d4 |-> Bytes(H(s, 4), 8)]
  [] t = "NodeId" -> GenNodeId(s)
  [] t = "ExpandedNodeId" -> LET nsu == IF R(H(s, 1), 3) = 0 THEN Chars(H(s, 2), 1 + StrLen(H(s, 3))) ELSE <<>>  id == GenNodeId(H(s, 5)) IN
       [id |-> IF nsu = <<>> \/ id.k = "null" THEN id ELSE LET x == [id EXCEPT !.ns = 0] IN IF x.k = "num" /\ x.id = <<0, 0>> THEN [x EXCEPT !.id = <<9, 0>>] ELSE x,
        nsu |-> nsu, svr |-> IF R(H(s, 4), 3) = 0 THEN <<Word(H(s, 6)), Word(H(s, 7))>> ELSE <<0, 0>>]
  [] t = "QualifiedName" -> [ns |-> Word(H(s, 1)), name |-> Chars(s, StrLen(H(s, 2)))]
  [] t = "LocalizedText" -> [loc |-> Chars(s, StrLen(H(s, 1))), txt |-> Chars(H(s, 2), StrLen(H(s, 3)))]
  [] t = "ExtensionObject" -> IF R(s, 8) = 0 THEN [t |-> ""] ELSE GenStruct(Of(H(s, 1), IF d <= 1 THEN Flat ELSE Names), H(s, 2), d - 1)
  [] t = "DataValue" -> GenDataValue(s, d)
  [] t = "Variant" -> GenVariant(s, d)
  [] t = "DiagnosticInfo" -> GenDiag(s, d)
  [] OTHER -> GenStruct(t, s, d).v

---- (* the bytes of a value *)
B2(w) == <<w % 256, w \div 256>>
RECURSIVE Flatten(_)
Flatten(q) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN q[1] ELSE LET h == Len(q) \div 2 IN Flatten(SubSeq(q, 1, h)) \o Flatten(SubSeq(q, h + 1, Len(q)))
WB(q) == Flatten([i \in 1..Len(q) |-> B2(q[i])])
I4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
Null == <<255, 255, 255, 255>>
LP(q) == IF q = <<>> THEN Null ELSE I4(Len(q)) \o q
Num(x) == IF x.id[2] = 0 /\ x.id[1] < 256 /\ x.ns = 0 THEN [f |-> 0, b |-> <<x.id[1]>>] ELSE IF x.id[2] = 0 /\ x.ns < 256 THEN [f |-> 1, b |-> <<x.ns>> \o B2(x.id[1])] ELSE [f |-> 2, b |-> B2(x.ns) \o WB(x.id)]
GuidB(g) == WB(g.d1) \o B2(g.d2) \o B2(g.d3) \o g.d4
NodeB(x) == CASE x.k = "null" -> [f |-> 0, b |-> <<0>>] [] x.k = "num" -> Num(x) [] x.k = "str" -> [f |-> 3, b |-> B2(x.ns) \o LP(x.id)] [] x.k = "guid" -> [f |-> 4, b |-> B2(x.ns) \o GuidB(x.id)] [] OTHER -> [f |-> 5, b |-> B2(x.ns) \o LP(x.id)]
IdB(n) == NodeB([k |-> "num", ns |-> 0, id |-> <<n, 0>>])
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
If(c, x) == IF c THEN x ELSE 0
Cond(c, x) == IF c THEN x ELSE <<>>
RECURSIVE Enc(_, _)
Arr(t, q) == I4(Len(q)) \o Flatten([i \in 1..Len(q) |-> Enc(t, q[i])])
EncFields(n, v) == Flatten([i \in 1..Len(Schema[n]) |-> LET f == Schema[n][i] IN IF f[3] THEN Arr(f[2], v[i]) ELSE Enc(f[2], v[i])])
Ext(n, body) == LET x == IdB(EncodingId[n]) IN <<x.f>> \o x.b \o <<1>> \o I4(Len(body)) \o body
Enc(t, v) ==
  CASE t \in {"Boolean", "SByte", "Byte"} -> v
  [] (t \in Numeric \/ t = "DateTime") -> WB(v)
  [] t \in {"String", "XmlElement", "ByteString"} -> LP(v)
  [] t = "Guid" -> GuidB(v)
  [] t = "NodeId" -> LET x == NodeB(v) IN <<x.f>> \o x.b
  [] t = "ExpandedNodeId" -> LET x == NodeB(v.id) IN <<x.f + If(v.nsu # <<>>, 128) + If(v.svr # <<0, 0>>, 64)>> \o x.b \o Cond(v.nsu # <<>>, LP(v.nsu)) \o Cond(v.svr # <<0, 0>>, WB(v.svr))
  [] t = "QualifiedName" -> B2(v.ns) \o LP(v.name)
  [] t = "LocalizedText" -> <<If(v.loc # <<>>, 1) + If(v.txt # <<>>, 2)>> \o Cond(v.loc # <<>>, LP(v.loc)) \o Cond(v.txt # <<>>, LP(v.txt))
  [] t = "ExtensionObject" -> IF v.t = "" THEN <<0, 0, 0>> ELSE Ext(v.t, EncFields(v.t, v.v))
  [] t = "DataValue" -> LET val == v.v # <<>> /\ v.v[1].k # "null" IN
       <<If(val, 1) + If(v.st # <<0, 0>>, 2) + If(v.src # <<>>, 4) + If(v.srv # <<>>, 8) + If(v.srcp # 0, 16) + If(v.srvp # 0, 32)>>
       \o Cond(val, IF val THEN Enc("Variant", v.v[1]) ELSE <<>>) \o Cond(v.st # <<0, 0>>, WB(v.st)) \o Cond(v.src # <<>>, Flatten([i \in 1..Len(v.src) |-> WB(v.src[i])])) \o Cond(v.srcp # 0, B2(v.srcp))
       \o Cond(v.srv # <<>>, Flatten([i \in 1..Len(v.srv) |-> WB(v.srv[i])])) \o Cond(v.srvp # 0, B2(v.srvp))
  [] t = "Variant" -> (CASE v.k = "null" -> <<0>> [] v.k = "scalar" -> <<TypeId[v.t]>> \o Enc(v.t, v.v) [] v.k = "nil" -> <<TypeId[v.t] + 128>> \o Null [] v.k = "array" -> <<TypeId[v.t] + 128>> \o Arr(v.t, v.v)
       [] OTHER -> <<TypeId[v.t] + 192>> \o Arr(v.t, v.v) \o I4(Len(v.dims)) \o Flatten([i \in 1..Len(v.dims) |-> I4(v.dims[i])]))
  [] t = "DiagnosticInfo" -> LET o(q, f(_)) == Flatten([i \in 1..Len(q) |-> f(q[i])])  in(x) == Enc("DiagnosticInfo", x) IN
       <<Len(v.sym) + 2 * Len(v.nsu) + 8 * Len(v.loc) + 4 * Len(v.txt) + 16 * Len(v.info) + 32 * Len(v.st) + 64 * Len(v.inner)>>
       \o o(v.sym, WB) \o o(v.nsu, WB) \o o(v.loc, WB) \o o(v.txt, WB) \o o(v.info, LP) \o o(v.st, WB) \o o(v.inner, in)
  [] OTHER -> EncFields(t, v)

---- (* reading: <<position after the value, normal form>>, position 0: to be refused, -1: open *)
Bad == <<0, <<>>>>
Open == <<-1, <<>>>>
(* two things one after the other; f reads the second from a position *)
Then(x, f(_)) == IF x[1] <= 0 THEN x ELSE LET y == f(x[1]) IN <<y[1], x[2] \o y[2]>>
Map(x, f(_)) == IF x[1] <= 0 THEN x ELSE <<x[1], f(x[2])>>
Len4(b, p) == IF b[p + 3] >= 128 THEN -1 ELSE b[p] + 256 * b[p + 1] + 65536 * b[p + 2] + 16777216 * b[p + 3]
Raw(n, b, p, e) == IF p + n - 1 > e THEN Bad ELSE <<p + n, SubSeq(b, p, p + n - 1)>>
Id(x) == x
RECURSIVE NormDiag(_, _, _, _), Norm(_, _, _, _), NormSeq(_, _, _, _, _), NormFields(_, _, _, _, _), NormDV(_, _, _, _)
Str(b, p, e) == IF p + 3 > e THEN Bad ELSE LET n == Len4(b, p) IN IF n <= 0 THEN <<p + 4, Null>> ELSE IF n > e - p - 3 THEN Bad ELSE <<p + 4 + n, SubSeq(b, p, p + 3 + n)>>
NormSeq(t, n, b, p, e) == IF n = 0 THEN <<p, <<>>>> ELSE IF n = 1 THEN Norm(t, b, p, e) ELSE Then(NormSeq(t, n \div 2, b, p, e), LAMBDA q : NormSeq(t, n - n \div 2, b, q, e))
(* an array with its length; neg: what is written for no array *)
NormArr(t, b, p, e, neg) == IF p + 3 > e THEN Bad ELSE LET n == Len4(b, p) IN IF n < 0 THEN <<p + 4, neg>> ELSE IF n > e - p - 3 THEN (IF n <= 5000 /\ t \in DOMAIN Schema THEN Open ELSE Bad) ELSE
  Map(NormSeq(t, n, b, p + 4, e), LAMBDA x : I4(n) \o x)
(* <<flags, bytes of the identifier, null?>> *)
NodeParts(f, b, p, e, nsu) ==
  LET ns0(q) == IF nsu THEN <<0, 0>> ELSE q
      num(ns, id, q) == <<q, IF ns = 0 /\ id = <<0, 0>> THEN <<0, <<0>>>> ELSE LET x == Num([ns |-> IF nsu THEN 0 ELSE ns, id |-> id]) IN <<x.f, x.b>>>>
  IN CASE f = 0 -> IF p > e THEN Bad ELSE num(0, <<b[p], 0>>, p + 1)
     [] f = 1 -> IF p + 2 > e THEN Bad ELSE num(b[p], <<b[p + 1] + 256 * b[p + 2], 0>>, p + 3)
     [] f = 2 -> IF p + 5 > e THEN Bad ELSE num(b[p] + 256 * b[p + 1], <<b[p + 2] + 256 * b[p + 3], b[p + 4] + 256 * b[p + 5]>>, p + 6)
     [] f \in {3, 5} -> IF p + 1 > e THEN Bad ELSE LET x == Str(b, p + 2, e) IN IF x[1] <= 0 THEN x ELSE <<x[1], IF x[2] = Null /\ b[p] = 0 /\ b[p + 1] = 0 THEN <<0, <<0>>>> ELSE <<f, ns0(<<b[p], b[p + 1]>>) \o x[2]>>>>
     [] f = 4 -> IF p + 17 > e THEN Bad ELSE <<p + 18, IF SubSeq(b, p, p + 17) = [i \in 1..18 |-> 0] THEN <<0, <<0>>>> ELSE <<4, ns0(<<b[p], b[p + 1]>>) \o SubSeq(b, p + 2, p + 17)>>>>
     [] OTHER -> Bad
Less(x, y, i) == x[i] < y[i] /\ \A j \in (i + 1)..4 : x[j] = y[j]
Lex(x, y) == \E i \in 1..4 : Less(x, y, i)
MaxTicks == <<43392, 53543, 23134, 9416>>  \* 9999-12-31T23:59:59
Time(q) == LET w == [i \in 1..4 |-> q[2 * i - 1] + 256 * q[2 * i]] IN IF w[4] >= 32768 THEN [i \in 1..8 |-> 0] ELSE IF Lex(w, MaxTicks) THEN q ELSE <<255, 255, 255, 255, 255, 255, 255, 127>>
(* an optional part, present if bit k of the mask m; keep(x): whether it is worth writing *)
Bit(m, k) == (m \div k) % 2 = 1
Opt(acc, m, k, f(_), keep(_), out) == \* acc: <<position, mask, bytes>>
  IF acc[1] <= 0 \/ ~Bit(m, k) THEN acc ELSE LET x == f(acc[1]) IN IF x[1] <= 0 THEN <<x[1], 0, <<>>>> ELSE IF keep(x[2]) THEN <<x[1], acc[2] + k, acc[3] \o x[2]>> ELSE <<x[1], acc[2], acc[3]>>
Masked(a) == IF a[1] <= 0 THEN <<a[1], <<>>>> ELSE <<a[1], <<a[2]>> \o a[3]>>
Yes(x) == TRUE
NotNull(x) == x # Null
NotZero(x) == \E i \in 1..Len(x) : x[i] # 0
NormDiag(b, p, e, d) == IF p > e THEN Bad ELSE LET m == b[p] IN IF m >= 128 THEN Open ELSE
  LET i4(q) == Raw(4, b, q, e)  st(q) == Str(b, q, e)  in(q) == NormDiag(b, q, e, d)
      a1 == Opt(<<p + 1, 0, <<>>>>, m, 1, i4, Yes, 0)  a2 == Opt(a1, m, 2, i4, Yes, 0)  a3 == Opt(a2, m, 8, i4, Yes, 0)  a4 == Opt(a3, m, 4, i4, Yes, 0)
      a5 == Opt(a4, m, 16, st, Yes, 0)  a6 == Opt(a5, m, 32, i4, Yes, 0)  a7 == Opt(a6, m, 64, in, Yes, 0) IN Masked(a7)
NormDV(b, p, e, d) == IF p > e THEN Bad ELSE LET m == b[p] IN IF m >= 64 THEN Open ELSE
  LET val(q) == Norm("Variant", b, q, e)  st(q) == Raw(4, b, q, e)  tm(q) == Norm("DateTime", b, q, e)  pi(q) == Raw(2, b, q, e)
      a1 == Opt(<<p + 1, 0, <<>>>>, m, 1, val, LAMBDA x : x # <<0>>, 0)  a2 == Opt(a1, m, 2, st, NotZero, 0)  a3 == Opt(a2, m, 4, tm, Yes, 0)  a4 == Opt(a3, m, 16, pi, NotZero, 0)
      a5 == Opt(a4, m, 8, tm, Yes, 0)  a6 == Opt(a5, m, 32, pi, NotZero, 0) IN Masked(a6)
NormVariant(b, p, e) == IF p > e THEN Bad ELSE
  LET m == b[p]  id == m % 64 IN
  IF m = 0 THEN <<p + 1, <<0>>>>
  ELSE IF id > 24 \/ id = 0 THEN Open
  ELSE IF m < 64 THEN (IF id >= 23 \/ (id = 17 /\ p < e /\ b[p + 1] # 0 /\ Norm("NodeId", b, p + 1, e)[2] = <<0, 0>>) THEN Open ELSE Map(Norm(TypeName[id], b, p + 1, e), LAMBDA x : IF (id = 17 /\ x = <<0, 0>>) \/ (id = 22 /\ x = <<0, 0, 0>>) THEN <<0>> ELSE <<m>> \o x))
  ELSE IF m < 128 THEN Open
  ELSE IF m < 192 THEN Map(NormArr(TypeName[id], b, p + 1, e, Null), LAMBDA x : <<m>> \o x)
  ELSE LET x == NormArr(TypeName[id], b, p + 1, e, Null) IN IF x[1] <= 0 THEN x ELSE
       LET y == NormArr("Int32", b, x[1], e, Null) IN IF y[1] <= 0 THEN y ELSE
       LET n == IF x[2] = Null THEN 0 ELSE Len4(x[2], 1)  k == IF y[2] = Null THEN 0 ELSE Len4(y[2], 1)  dim(i) == Len4(y[2], 1 + 4 * i) IN
       IF \E i \in 1..k : dim(i) < 0 THEN (IF k \in {2, 3} THEN Bad ELSE Open)
       ELSE IF k \notin {2, 3} \/ \E i \in 1..k : dim(i) = 0 THEN Open
       ELSE IF \E i \in 1..k : dim(i) > n THEN Bad
       ELSE IF n # (IF k = 2 THEN dim(1) * dim(2) ELSE dim(1) * dim(2) * dim(3)) THEN Bad
       ELSE <<y[1], <<m>> \o x[2] \o y[2]>>
(* the encoding ids of namespace 0 are below 65536 *)
ByEnc == [i \in {EncodingId[n] : n \in DOMAIN EncodingId} |-> CHOOSE n \in DOMAIN EncodingId : EncodingId[n] = i]
NormExt(b, p, e) == IF p > e THEN Bad ELSE LET x == NodeParts(b[p], b, p + 1, e, FALSE) IN
  IF x[1] <= 0 THEN x ELSE IF x[1] > e THEN Bad ELSE
  LET how == b[x[1]]  q == x[1] + 1
      num == x[2][1] = 0 \/ (x[2][1] = 1 /\ x[2][2][1] = 0)
      id == IF x[2][1] = 0 THEN x[2][2][1] ELSE IF num THEN x[2][2][2] + 256 * x[2][2][3] ELSE 0
      known == num /\ id \in DOMAIN ByEnc
      none(y) == <<0, 0, 0>>
  IN CASE how = 0 -> <<q, <<0, 0, 0>>>>
     [] how = 1 -> IF ~known THEN Map(Str(b, q, e), none)
                   ELSE IF q + 3 > e THEN Bad
                   ELSE LET n == Len4(b, q) IN IF n < 0 THEN Open ELSE IF n > e - q - 3 THEN Bad
                   ELSE LET y == NormFields(Schema[ByEnc[id]], 1, b, q + 4, q + 3 + n) IN IF y[1] <= 0 THEN y ELSE <<q + 4 + n, Ext(ByEnc[id], y[2])>>
     [] how = 2 -> Map(Str(b, q, e), none)
     [] OTHER -> Bad
NormFields(fs, i, b, p, e) == IF i > Len(fs) THEN <<p, <<>>>> ELSE
  LET f == fs[i] IN Then(IF f[3] THEN NormArr(f[2], b, p, e, IF f[2] = "Byte" THEN Null ELSE I4(0)) ELSE Norm(f[2], b, p, e), LAMBDA q : NormFields(fs, i + 1, b, q, e))
Norm(t, b, p, e) ==
  CASE t = "Boolean" -> Map(Raw(1, b, p, e), LAMBDA x : IF x[1] = 0 THEN x ELSE <<1>>)
  [] t \in Numeric -> Raw(Width[t], b, p, e)
  [] t = "DateTime" -> Map(Raw(8, b, p, e), Time)
  [] t \in {"String", "XmlElement", "ByteString"} -> Str(b, p, e)
  [] t = "Guid" -> Raw(16, b, p, e)
  [] t = "NodeId" -> IF p > e THEN Bad ELSE Map(NodeParts(b[p], b, p + 1, e, FALSE), LAMBDA x : <<x[1]>> \o x[2])
  [] t = "ExpandedNodeId" -> IF p > e THEN Bad ELSE IF (b[p] \div 16) % 4 # 0 THEN Open ELSE
       LET has == b[p] >= 128  f == b[p] % 16
           pre == NodeParts(f, b, p + 1, e, FALSE) IN IF pre[1] <= 0 THEN pre ELSE IF f # 0 /\ pre[2] = <<0, <<0>>>> THEN Open ELSE
       LET nsu == IF has THEN Str(b, pre[1], e) ELSE <<pre[1], Null>> IN IF nsu[1] <= 0 THEN nsu ELSE
       LET x == NodeParts(f, b, p + 1, e, nsu[2] # Null)
           svr == IF Bit(b[p], 64) THEN Raw(4, b, nsu[1], e) ELSE <<nsu[1], <<0, 0, 0, 0>>>> IN IF svr[1] <= 0 THEN svr ELSE
       <<svr[1], <<x[2][1] + If(nsu[2] # Null, 128) + If(NotZero(svr[2]), 64)>> \o x[2][2] \o Cond(nsu[2] # Null, nsu[2]) \o Cond(NotZero(svr[2]), svr[2])>>
  [] t = "QualifiedName" -> Then(Raw(2, b, p, e), LAMBDA q : Str(b, q, e))
  [] t = "LocalizedText" -> IF p > e THEN Bad ELSE IF b[p] >= 4 THEN Open ELSE LET st(q) == Str(b, q, e)  a1 == Opt(<<p + 1, 0, <<>>>>, b[p], 1, st, NotNull, 0)  a2 == Opt(a1, b[p], 2, st, NotNull, 0) IN Masked(a2)
  [] t = "ExtensionObject" -> NormExt(b, p, e)
  [] t = "DataValue" -> NormDV(b, p, e, 0)
  [] t = "Variant" -> NormVariant(b, p, e)
  [] t = "DiagnosticInfo" -> NormDiag(b, p, e, 0)
  [] OTHER -> NormFields(Schema[t], 1, b, p, e)

---- (* altered bytes *)
Put(b, p, q) == [i \in 1..Len(b) |-> IF i >= p /\ i < p + Len(q) THEN q[i - p + 1] ELSE b[i]]
Mutate(b, s) == LET n == Len(b)  p == 1 + R(H(s, 1), n)  k == R(H(s, 2), 10) IN
  CASE k = 0 -> SubSeq(b, 1, p - 1)
  [] k = 1 -> SubSeq(b, 1, p - 1) \o SubSeq(b, p + 1, n)
  [] k = 2 -> SubSeq(b, 1, p) \o SubSeq(b, p, n)
  [] k \in {3, 4} -> Put(b, p, <<AByte(H(s, 3))>>)
  [] k = 5 -> Put(b, p, <<(b[p] + Of(H(s, 3), <<1, 2, 4, 8, 16, 32, 64, 128>>)) % 256>>)
  [] k \in {6, 7} -> Put(b, p, Of(H(s, 3), <<<<255, 255, 255, 127>>, <<255, 255, 255, 0>>, <<254, 255, 255, 255>>, <<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<0, 0, 0, 128>>, <<0, 0, 0, 64>>, <<0, 16, 0, 0>>>>))
  [] k = 8 -> LET q == 1 + R(H(s, 4), n) IN IF p < q THEN SubSeq(b, 1, p - 1) \o SubSeq(b, q, n) ELSE SubSeq(b, 1, q) \o SubSeq(b, p, n)
  [] OTHER -> b \o Bytes(H(s, 3), 3)
RECURSIVE Muts(_, _, _)
Muts(b, s, k) == IF k = 0 \/ b = <<>> THEN b ELSE Muts(Mutate(b, s), H(s, 77), k - 1)
Outcome(t, b) == LET x == Norm(t, b, 1, Len(b)) IN [b |-> b, p |-> IF x[1] > 0 THEN x[1] - 1 ELSE x[1] - 1, n |-> x[2], r |-> IF x[1] > 0 THEN "ok" ELSE IF x[1] = 0 THEN "refuse" ELSE "open"]

Tops == <<"Variant", "DataValue", "DiagnosticInfo", "ExtensionObject", "NodeId", "ExpandedNodeId", "LocalizedText", "QualifiedName">>
Type(s) == IF R(s, 2) = 0 THEN Of(H(s, 1), Tops \o SubSeq(Tops, 1, 4) \o Simple) ELSE Of(H(s, 2), Names)
(* what is written is read as itself *)
Same(t, v) == LET b == Enc(t, v) IN Norm(t, b, 1, Len(b)) = <<Len(b) + 1, b>>

(* values may be nested in each other to a depth of 100; what is much deeper is refused *)
Deep == {[t |-> t, deep |-> n, r |-> IF n <= 100 THEN "ok" ELSE IF n < 1000 THEN "open" ELSE "refuse"] : t \in {"Variant", "DiagnosticInfo", "DataValue"}, n \in {1, 2, 50, 99, 100, 200, 1000, 100000, 3000000}}
        \cup {[t |-> "ExtensionObject", deep |-> n, r |-> IF n <= 50 THEN "ok" ELSE IF n < 1000 THEN "open" ELSE "refuse"] : n \in {1, 2, 25, 50, 100, 1000, 100000}}

(* times before 1601 are the smallest, times from the end of 9999 the largest; an array of unequal rows has no encoding *)
Edge == {[edge |-> x, e |-> [i \in 1..8 |-> 0]] : x \in {"zero", "y1600", "y-100000"}} \cup {[edge |-> x, e |-> <<255, 255, 255, 255, 255, 255, 255, 127>>] : x \in {"y9999end", "y10000", "y30000", "y31000", "y70000", "y300000"}}
        \cup {[edge |-> x, e |-> <<>>] : x \in {"jagged2", "jagged2nil", "jagged3", "jagged3inner"}}

N == IF Profile = "enc" THEN 12 ELSE 6
Init == seed = <<>> /\ hist = <<>>
Next == /\ Len(hist) < N
        /\ \E a \in {RandomElement(0..46336)} : \E b \in {RandomElement(0..46326)} :
           LET s == <<a, b>>  t == Type(s)  v == Gen(t, H(s, 5), 3)  e == Enc(t, v) IN
           /\ seed' = s
           /\ hist' = Append(hist, IF Profile = "enc" THEN [t |-> t, v |-> v, e |-> e] ELSE [t |-> t, m |-> IF e = <<>> THEN <<>> ELSE [i \in 1..12 |-> Outcome(t, Muts(e, H(s, 100 + i), 1 + R(H(s, 200 + i), 3)))]])
ASSUME Profile = "meta" => PrintT("META " \o ToJson([ids |-> EncodingId, schema |-> Schema, deep |-> Deep, edge |-> Edge]))
Sound == seed # <<>> => LET t == Type(seed) IN Same(t, Gen(t, H(seed, 5), 3))
Emit == Len(hist) = N => PrintT("CASE " \o ToJson([items |-> hist]))
=============================================================================
