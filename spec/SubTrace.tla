------------------------------ MODULE SubTrace ------------------------------
(* Checks recorded behaviours of the real server against Sub. Each trace is a sequence of events
   [e |-> "s", t, o]: a stimulus o applied at time t, and [e |-> "o", t, o]: a message o seen at time t.
   A trace is accepted if some behaviour of Sub produces it; every accepted trace prints DONE. *)
EXTENDS Sub, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)   \* one record [id, ev] per line

VARIABLES i, l, st, outq
vars == <<i, l, st, outq>>

Ev == Traces[i].ev
Init == /\ i \in 1..Len(Traces)
        /\ l = 1
        /\ st = Init0
        /\ outq = <<>>

Matches(x, e) == e.e = "o" /\ e.t = st.now /\ x = e.o

Consume == /\ outq # <<>> /\ l <= Len(Ev)
           /\ Matches(Head(outq), Ev[l])
           /\ outq' = Tail(outq) /\ l' = l + 1 /\ UNCHANGED <<i, st>>

Timer == /\ outq = <<>> /\ l <= Len(Ev)
         /\ NextTick(st) < Ev[l].t \/ (NextTick(st) = Ev[l].t /\ Ev[l].e = "o")
         /\ \E r \in TickAny(st) : st' = r.st /\ outq' = r.out
         /\ UNCHANGED <<i, l>>

Stimulus == /\ outq = <<>> /\ l <= Len(Ev)
            /\ Ev[l].e = "s" /\ NextTick(st) >= Ev[l].t
            /\ \E r \in Apply(st, [Ev[l].o EXCEPT !.t = Ev[l].t]) : st' = r.st /\ outq' = r.out
            /\ l' = l + 1 /\ UNCHANGED i

Next == Consume \/ Timer \/ Stimulus
Spec == Init /\ [][Next]_vars

Finished == l > Len(Ev) /\ outq = <<>>
Stuck == \/ outq # <<>> /\ (l > Len(Ev) \/ ~Matches(Head(outq), Ev[l]))
         \/ outq = <<>> /\ l <= Len(Ev) /\ Ev[l].e = "o" /\ NextTick(st) > Ev[l].t
Report == /\ Finished => PrintT("DONE " \o ToString(i))
          /\ Stuck => PrintT("STUCK " \o ToJson([i |-> i, l |-> l, now |-> st.now,
                              want |-> IF outq = <<>> THEN <<>> ELSE <<Head(outq)>>]))
=============================================================================
