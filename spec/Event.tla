-------------------------------- MODULE Event --------------------------------
(* Events: objects raise them, monitored items with an event filter queue those that satisfy the filter while they monitor,
   and each is delivered once, in order, with the selected fields.  E01. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

MC == "MC_STEPS" \in DOMAIN IOEnv
Steps == IF MC THEN atoi(IOEnv.MC_STEPS) ELSE 45
QMax == IF MC THEN 2 ELSE 1024              \* the server's limit of an event queue
Rnd(S) == IF MC THEN S ELSE {RandomElement(S)}
Nodes == {"server", "obj"}
MaxItems == IF MC THEN 2 ELSE 5

(* the types of events, with their supertypes *)
Types == {"base", "system", "device", "audit", "condition"}
Parent == [system |-> "base", device |-> "system", audit |-> "base", condition |-> "base"]
RECURSIVE IsA(_, _)
IsA(t, u) == t = u \/ (t \in DOMAIN Parent /\ IsA(Parent[t], u))
Fields == {"EventId", "EventType", "SourceNode", "SourceName", "Time", "Message", "Severity"}

VARIABLES items,   \* handle -> [node, mode, where, select, judged, dead, queue (numbers of events), low (may be what is reported)]
          events,  \* number of event -> [type, name, sev]
          out,     \* what was delivered: sequence of <<item, number>>
          raised,  \* for the rule: per item, the events it had to take
          hist, conf, fin
vars == <<items, events, out, raised, hist, conf, fin>>

---- (* filters: a sequence of elements; no element: everything *)
Lit(t, v) == [o |-> "lit", t |-> t, v |-> v]
Att(f) == [o |-> "attr", f |-> f]
Elem(i) == [o |-> "elem", i |-> i]
ValueOf(e, op, sub) == CASE op.o = "lit" -> <<op.t, op.v>>
                       [] op.o = "attr" -> (CASE op.f = "EventType" -> <<"node", e.type>> [] op.f = "SourceName" -> <<"str", e.name>> [] op.f = "Severity" -> <<"u16", e.sev>> [] op.f = "Time" -> <<"time", e.n % 5>>)
                       [] OTHER -> <<"bool", sub>>
RECURSIVE Eval(_, _, _)
Eval(w, i, e) == LET el == w[i] IN
  IF el.op = "OfType" THEN IsA(e.type, el.a[1].v)
  ELSE LET sub(k) == IF el.a[k].o = "elem" THEN Eval(w, el.a[k].i, e) ELSE FALSE
       IN ValueOf(e, el.a[1], sub(1)) = ValueOf(e, el.a[2], sub(2))
Holds(w, e) == w = <<>> \/ Eval(w, 1, e)

OfType(t) == [op |-> "OfType", a |-> <<Lit("node", t)>>]
Equals(a, b) == [op |-> "Equals", a |-> <<a, b>>]
Simple == {OfType(t) : t \in Types} \cup {Equals(Att("SourceName"), Lit("str", n)) : n \in {"a", "b"}} \cup {Equals(Lit("u16", s), Att("Severity")) : s \in {100, 200}}
          \cup {Equals(Att("EventType"), Lit("node", t)) : t \in Types} \cup {Equals(Att("Time"), Lit("time", k)) : k \in 0..4} \cup {Equals(Att("Severity"), Lit("str", "a")), Equals(Att("SourceName"), Att("SourceName"))}
Wheres == {<<>>} \cup {<<s>> : s \in Simple} \cup (IF MC THEN {} ELSE
          {<<Equals(Elem(2), Lit("bool", b)), s>> : s \in Simple, b \in BOOLEAN} \cup {<<Equals(Elem(2), Elem(3)), s, u>> : s \in Simple, u \in Simple} \cup {<<Equals(Elem(2), Lit("bool", TRUE)), Equals(Lit("bool", FALSE), Elem(3)), u>> : u \in Simple})
MCWheres == {<<>>, <<OfType("system")>>}
(* filters that are no filters: the server refuses them or not, and goes on *)
Garbage == {[op |-> o, a |-> q] : o \in {"Equals", "OfType", "And", "Not", "InList", "Like"},
              q \in {<<>>, <<Lit("u16", 1)>>, <<Elem(1), Elem(1)>>, <<Elem(1), Lit("bool", TRUE)>>, <<Elem(0), Elem(2)>>, <<Elem(9), Elem(77)>>, <<Lit("arr", 1), Lit("arr", 1)>>, <<Att("SourceName"), [o |-> "none"]>>, <<[o |-> "none"], [o |-> "none"]>>,
                     <<Lit("dv", 1), Lit("dv", 1)>>, <<[o |-> "path"], Lit("null", 1)>>, <<Lit("arr", 2), Lit("ext", 1)>>, <<Lit("ext", 1), Lit("ext", 1)>>, <<[o |-> "unknown"], [o |-> "unknown"]>>}}
(* each element names the next one twice *)
Chain == <<[k \in 1..60 |-> IF k = 60 THEN OfType("base") ELSE Equals(Elem(k + 1), Elem(k + 1))]>>
Loops == {<<Equals(Elem(3), Lit("bool", TRUE)), OfType("base"), Equals(Lit("bool", FALSE), Elem(2))>>, Chain[1], <<Equals(Elem(2), Elem(1)), Equals(Elem(1), Elem(2))>>, <<Equals(Elem(1), Lit("bool", TRUE)), OfType("base")>>, <<Equals(Elem(2), Elem(2)), Equals(Elem(1), Elem(1))>>}
Selects == {<<f>> : f \in Fields} \cup {<<"EventId", "Severity", "EventType">>, <<"SourceName", "SourceName">>, <<"Message", "EventId">>, <<"EventId">>, <<>>}
Seln(s) == s # <<>>

---- (* actions *)
Init == /\ items = <<>> /\ events = <<>> /\ out = <<>> /\ raised = <<>> /\ hist = <<>> /\ fin = FALSE
        /\ conf \in ({[max |-> m, notifier |-> n, perm |-> p] : m \in (IF MC THEN {0} ELSE {0, 0, 1, 3}), n \in (IF MC THEN {TRUE} ELSE BOOLEAN), p \in (IF MC THEN {TRUE} ELSE BOOLEAN)})
Add(r) == hist' = Append(hist, IF MC THEN 0 ELSE r)
Live == {i \in 1..Len(items) : ~items[i].dead}
(* a filter: a where clause that has a meaning, or one that has none *)
Filters(len) == LET good == {[where |-> w, select |-> s, judged |-> TRUE] : w \in Rnd(IF MC THEN MCWheres ELSE Wheres), s \in Rnd(IF MC THEN {<<"EventId">>} ELSE Selects)}
               bad == {[where |-> w, select |-> <<"EventId">>, judged |-> FALSE] : w \in Rnd({<<g>> : g \in Garbage} \cup Loops \cup {<<g, OfType("base")>> : g \in Garbage} \cup {Chain[1]})}
           IN IF MC THEN good ELSE IF len >= 0 /\ RandomElement(1..4) = 1 THEN bad ELSE good
Modes(len) == IF MC THEN {"disabled", "sampling", "reporting"} ELSE IF len >= 0 /\ RandomElement(1..5) = 1 THEN {RandomElement({"disabled", "sampling"})} ELSE {"reporting"}
Create == \E n \in Rnd(Nodes), m \in Modes(Len(hist)), f \in Filters(Len(hist)), old \in Rnd(BOOLEAN) :
  LET ok == n = "server" \/ (conf.notifier /\ conf.perm) IN
  /\ Cardinality(Live) < MaxItems
  /\ items' = IF ok THEN Append(items, [node |-> n, mode |-> m, where |-> f.where, select |-> f.select, judged |-> f.judged, dead |-> FALSE, queue |-> <<>>, old |-> old]) ELSE items
  /\ raised' = IF ok THEN Append(raised, <<>>) ELSE raised
  /\ Add([op |-> "create", node |-> n, mode |-> m, where |-> f.where, select |-> f.select, judged |-> f.judged, old |-> old, ok |-> ok])
  /\ UNCHANGED <<events, out, conf, fin>>
Modify == Live # {} /\ \E i \in Rnd(Live), f \in Filters(Len(hist)), old \in Rnd(BOOLEAN) :
  /\ items' = [items EXCEPT ![i].where = f.where, ![i].select = f.select, ![i].judged = items[i].judged /\ f.judged, ![i].old = old]
  \* what was queued keeps the fields it was queued with: the item is modified only while nothing is queued
  /\ items[i].queue = <<>>
  /\ Add([op |-> "modify", item |-> i, where |-> f.where, select |-> f.select, judged |-> f.judged, old |-> old])
  /\ UNCHANGED <<events, out, raised, conf, fin>>
Mode == Live # {} /\ \E i \in Rnd(Live), m \in Modes(Len(hist)) :
  /\ items' = [items EXCEPT ![i].mode = m, ![i].queue = IF m = "disabled" THEN <<>> ELSE @]
  \* what a disabled item held is gone
  /\ raised' = IF m = "disabled" THEN [raised EXCEPT ![i] = SelectSeq(@, LAMBDA k : \E j \in 1..Len(out) : out[j] = <<i, k>>)] ELSE raised
  /\ Add([op |-> "mode", item |-> i, mode |-> m])
  /\ UNCHANGED <<events, out, conf, fin>>
Delete == Live # {} /\ (MC \/ (Len(hist) >= 0 /\ RandomElement(1..2) = 1)) /\ \E i \in Rnd(Live) :
  /\ items' = [items EXCEPT ![i].dead = TRUE, ![i].queue = <<>>]
  /\ Add([op |-> "delete", item |-> i])
  /\ UNCHANGED <<events, out, raised, conf, fin>>
(* full: the oldest goes, or the newest in the queue *)
Enq(q, k, old) == IF Len(q) < QMax THEN Append(q, k) ELSE IF old THEN Append(Tail(q), k) ELSE Append(SubSeq(q, 1, Len(q) - 1), k)
(* the same for several: those that find room, then *)
EnqAll(q, ks, old) == LET n == Len(q) + Len(ks) IN IF n <= QMax THEN q \o ks
                      ELSE IF old THEN SubSeq(q \o ks, n - QMax + 1, n)
                      ELSE SubSeq(q \o ks, 1, QMax - 1) \o <<ks[Len(ks)]>>
(* events for somebody: mostly such as satisfy the filter of one of the items *)
Kinds == {[type |-> t, name |-> nm, sev |-> s, n |-> k] : t \in Types, nm \in {"a", "b", "c"}, s \in {100, 200, 300}, k \in {Len(events) + 1}}
Fit == IF MC THEN {[node |-> n, e |-> [type |-> t, name |-> "a", sev |-> 100, n |-> Len(events) + 1]] : n \in Nodes, t \in {"base", "device"}}
       ELSE LET open == {i \in Live : items[i].mode # "disabled" /\ items[i].judged}
                any == [node |-> RandomElement(Nodes), e |-> RandomElement(Kinds)]
            IN IF open = {} \/ RandomElement(1..3) = 1 THEN {any}
               ELSE LET i == RandomElement(open)
                        good == {e \in Kinds : Holds(items[i].where, e)}
                    IN IF good = {} THEN {any} ELSE {[node |-> items[i].node, e |-> RandomElement(good)]}
Raise == \E f \in Fit, count \in (IF MC THEN {1} ELSE {IF Len(hist) >= 0 /\ RandomElement(1..14) = 1 THEN RandomElement({1023, 1024, 1025, 1030}) ELSE RandomElement(1..3)}) :
  LET n == f.node t == f.e.type nm == f.e.name s == f.e.sev IN
  LET new == [k \in 1..count |-> [type |-> t, name |-> nm, sev |-> s, n |-> Len(events) + k]]
      take(i) == LET q == SelectSeq(new, LAMBDA e : Holds(items[i].where, e)) IN [k \in 1..Len(q) |-> q[k].n]
      on(i) == ~items[i].dead /\ items[i].node = n /\ items[i].mode # "disabled" /\ items[i].judged
  IN /\ MC => Len(events) < 4
     /\ events' = events \o new
     /\ items' = [i \in 1..Len(items) |-> IF on(i) THEN [items[i] EXCEPT !.queue = EnqAll(@, take(i), items[i].old)] ELSE items[i]]
     /\ raised' = [i \in 1..Len(items) |-> IF on(i) THEN raised[i] \o take(i) ELSE raised[i]]
     /\ Add([op |-> "raise", node |-> n, type |-> t, name |-> nm, sev |-> s, first |-> Len(events) + 1, count |-> count])
     /\ UNCHANGED <<out, conf, fin>>
(* the cycles of the subscription deliver what reporting items hold *)
Deliver ==
  LET from == {i \in Live : items[i].mode = "reporting" /\ items[i].judged} IN
  /\ items' = [i \in 1..Len(items) |-> IF i \in from THEN [items[i] EXCEPT !.queue = <<>>] ELSE items[i]]
  /\ out' = IF MC THEN out \o FlattenSeq([i \in 1..Len(items) |-> IF i \in from THEN [k \in 1..Len(items[i].queue) |-> <<i, items[i].queue[k]>>] ELSE <<>>]) ELSE <<>>
  /\ Add([op |-> "deliver", got |-> [i \in 1..Len(items) |-> IF i \in from THEN items[i].queue ELSE <<>>]])
  /\ UNCHANGED <<events, raised, conf, fin>>
(* another object raises events while its item is changed: nobody waits for anybody forever *)
Storm == ~MC /\ RandomElement(1..25) = 1 /\ Add([op |-> "storm"]) /\ UNCHANGED <<items, events, out, raised, conf, fin>>
Finish == /\ Len(hist) = Steps /\ ~MC /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<items, events, out, raised, hist, conf>>
Next == \/ Len(hist) < Steps /\ (Create \/ Modify \/ Mode \/ Delete \/ Raise \/ Deliver \/ Storm)
        \/ Len(hist) < Steps /\ ~MC /\ Raise
        \/ Finish
Emit == fin => PrintT("CASE " \o ToJson([conf |-> conf, steps |-> hist]))

---- (* the rules *)
Queued(i, k) == k \in Range(items[i].queue)
(* no event comes twice from an item, and they come in the order in which they were raised *)
Once == \A a, b \in 1..Len(out) : a < b /\ out[a][1] = out[b][1] => out[a][2] < out[b][2]
(* what is delivered satisfies the filter the item has *)
Wanted == \A a \in 1..Len(out) : out[a][2] \in 1..Len(events)
(* an event taken is delivered or waits, unless the queue was full *)
Kept == MC => \A i \in Live : Len(items[i].queue) < QMax /\ items[i].mode # "disabled" => \A k \in Range(raised[i]) : Queued(i, k) \/ \E a \in 1..Len(out) : out[a] = <<i, k>> \/ Len(raised[i]) > QMax
OneByOne == MC => \A q \in {<<>>, <<1>>, <<1, 2>>}, old \in BOOLEAN : EnqAll(q, <<7, 8, 9>>, old) = Enq(Enq(Enq(q, 7, old), 8, old), 9, old)
Bounded == \A i \in 1..Len(items) : Len(items[i].queue) <= QMax
(* an element refers only to later ones: the evaluation ends *)
Ends == \A w \in {items[i].where : i \in {j \in 1..Len(items) : items[j].judged}} : \A k \in 1..Len(w) : \A x \in 1..Len(w[k].a) : w[k].a[x].o = "elem" => w[k].a[x].i > k /\ w[k].a[x].i <= Len(w)
=============================================================================
