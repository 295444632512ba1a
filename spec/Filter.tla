------------------------------- MODULE Filter -------------------------------
(* Data change filters (S07): which samples of a sequence are reported.
   A number is [b, o]: a base (a far-apart point of its type's range: smallest, zero, largest) and an offset in half units
   (half units only for floating point); two numbers of different bases are further apart than any deadband used.
   A sample is [x, sc, ts]: a sequence of numbers (one for a scalar), a status, a source timestamp.
   Each behaviour is one case: a type, samples, a list of filters, and for every filter what must be reported. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES case, done

Floats == {"Float", "Double"}
Signed == {"SByte", "Int16", "Int32", "Int64"}
Unsigned == {"Byte", "UInt16", "UInt32", "UInt64"}
Others == {"String", "Boolean", "DateTime"}
Types == Floats \cup Signed \cup Unsigned \cup Others

Bases(t) == IF t \in Unsigned THEN {"zero", "max"} ELSE IF t \in Others THEN {"zero"} ELSE {"min", "zero", "max"}
Offsets(t, b) ==
  LET all == IF t \in Floats THEN -9..9 ELSE IF t = "Boolean" THEN {0, 2} ELSE {-8, -6, -4, -2, 0, 2, 4, 6, 8} IN
  IF t \in Others THEN all \cap (0..9)
  ELSE IF t \in Floats /\ b # "zero" THEN {0}                        \* neighbours of a huge float are far apart
  ELSE IF b = "min" \/ (t \in Unsigned /\ b = "zero") THEN all \cap (0..9)
  ELSE IF b = "max" THEN all \cap (-9..0) ELSE all

Abs(x) == IF x < 0 THEN -x ELSE x
(* |a - b| > d, d in half units *)
Beyond(a, b, d) == a.b # b.b \/ Abs(a.o - b.o) > d

ValueChanged(x, y, f) ==
  \/ Len(x) # Len(y)
  \/ \E k \in 1..Len(x) : IF f.db = 0 THEN x[k] # y[k] ELSE Beyond(x[k], y[k], f.db)

Changed(cur, last, f) ==
  \/ cur.sc # last.sc
  \/ f.trig # "Status" /\ ValueChanged(cur.x, last.x, f)
  \/ f.trig = "StatusValueTimestamp" /\ cur.ts # last.ts

RECURSIVE Reported(_, _, _, _, _)
Reported(samples, k, last, f, acc) ==
  IF k > Len(samples) THEN acc
  ELSE IF k = 1 \/ Changed(samples[k], last, f) THEN Reported(samples, k + 1, samples[k], f, Append(acc, k))
  ELSE Reported(samples, k + 1, last, f, acc)

FilterOK(t, f) == f.db = 0 \/ t \notin Others
Filters == {[trig |-> g, db |-> d] : g \in {"Status", "StatusValue", "StatusValueTimestamp"}, d \in {0, 1, 2, 3, 4, 8, 20}}
FilterSeq == LET RECURSIVE F(_, _)
                 F(S, acc) == IF S = {} THEN acc ELSE LET x == CHOOSE x \in S : TRUE IN F(S \ {x}, Append(acc, x))
             IN F(Filters, <<>>)

-----------------------------------------------------------------------------
R(n) == RandomElement(1..n)
RECURSIVE Num(_, _)
Num(t, z) == LET b == IF R(4) = 1 THEN RandomElement(Bases(t)) ELSE "zero"
             IN CHOOSE x \in {[b |-> bb, o |-> RandomElement(Offsets(t, bb))] : bb \in {b}} : TRUE
RECURSIVE Nums(_, _, _)
Nums(t, k, acc) == IF k = 0 THEN acc ELSE Nums(t, k - 1, Append(acc, Num(t, k)))

(* the next sample resembles the last one: often only one thing changes *)
Mutate(t, arr, s) ==
  CASE R(7) = 1 -> [s EXCEPT !.sc = RandomElement({"Good", "Uncertain", "BadOutOfService"})]
    [] R(6) = 1 -> [s EXCEPT !.ts = @ + 1]
    [] R(6) = 1 /\ arr -> [s EXCEPT !.x = Nums(t, R(4) - 1, <<>>)]
    [] R(9) = 1 -> s
    [] OTHER -> IF s.x = <<>> THEN s ELSE CHOOSE r \in {[s EXCEPT !.x[k] = Num(t, k)] : k \in {R(Len(s.x))}} : TRUE
RECURSIVE Samples(_, _, _, _)
Samples(t, arr, k, acc) ==
  IF k = 0 THEN acc
  ELSE IF acc = <<>> THEN Samples(t, arr, k - 1, <<[x |-> Nums(t, IF arr THEN 3 ELSE 1, <<>>), sc |-> "Good", ts |-> 0]>>)
  ELSE Samples(t, arr, k - 1, Append(acc, Mutate(t, arr, acc[Len(acc)])))

MkCase(t, arr, ss) ==
  [type |-> t, array |-> arr, samples |-> ss,
   filters |-> [m \in 1..Len(FilterSeq) |->
      [trig |-> FilterSeq[m].trig, db |-> FilterSeq[m].db,
       ok |-> FilterOK(t, FilterSeq[m]),
       want |-> IF FilterOK(t, FilterSeq[m]) THEN Reported(ss, 1, ss[1], FilterSeq[m], <<>>) ELSE <<>>]]]

Init == done = FALSE /\ case = <<>>
Next == /\ ~done /\ done' = TRUE
        /\ \E t \in {RandomElement(Types)} : \E arr \in {R(2) = 1} : \E ss \in {Samples(t, arr, 14, <<>>)} : case' = MkCase(t, arr, ss)
Emit == done => PrintT("CASE " \o ToJson(case))

-----------------------------------------------------------------------------
(* Sanity of the specification itself, checked on every generated case. *)
Sane == done => \A m \in DOMAIN case.filters : LET f == case.filters[m] IN f.ok =>
          /\ f.want # <<>> /\ f.want[1] = 1
          /\ \A k \in 1..(Len(f.want) - 1) :   \* nothing reported differs from the last reported one, and nothing in between does
                /\ Changed(case.samples[f.want[k+1]], case.samples[f.want[k]], f)
                /\ \A j \in (f.want[k]+1)..(f.want[k+1]-1) : ~Changed(case.samples[j], case.samples[f.want[k]], f)
=============================================================================
