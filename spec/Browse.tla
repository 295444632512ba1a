------------------------------- MODULE Browse -------------------------------
(* The address space as a graph: nodes and references under additions and deletions, browsing it in pages, translating
   browse paths. A behaviour is a sequence of changes by the application and of requests of two users with different
   roles; every step carries the result the specification demands. Profiles: browse (A01), path (A02), graph (A03). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

VARIABLES conf, nodes, refs, chains, hist
vars == <<conf, nodes, refs, chains, hist>>
Profile == IOEnv.BROWSE_PROFILE
Bound == IF "MC_STEPS" \in DOMAIN IOEnv THEN atoi(IOEnv.MC_STEPS) ELSE 0
MC == Bound > 0
Steps == 30
N == IF MC THEN atoi(IOEnv.MC_N) ELSE 9
MaxCP == 3       \* continuation points of a session
MaxOps == 5      \* operations of a request

\* state-level on purpose: TLC evaluates a definition that depends on no variable once and keeps the value
One(S) == IF Len(hist) >= 0 THEN RandomElement(S) ELSE {}
OneIn(n) == Len(hist) >= 0 /\ RandomElement(1..n) = 1
Ids == 1..N
(* reference types, with their supertypes; rt1, rt2 belong to the application *)
Up == [References |-> {}, Hierarchical |-> {"References"}, NonHierarchical |-> {"References"},
       HasChild |-> {"Hierarchical", "References"}, Organizes |-> {"Hierarchical", "References"},
       Aggregates |-> {"HasChild", "Hierarchical", "References"}, HasSubtype |-> {"HasChild", "Hierarchical", "References"},
       HasProperty |-> {"Aggregates", "HasChild", "Hierarchical", "References"}, HasComponent |-> {"Aggregates", "HasChild", "Hierarchical", "References"},
       HasOrdered |-> {"HasComponent", "Aggregates", "HasChild", "Hierarchical", "References"},
       rt1 |-> {"HasComponent", "Aggregates", "HasChild", "Hierarchical", "References"},
       rt2 |-> {"rt1", "HasComponent", "Aggregates", "HasChild", "Hierarchical", "References"},
       ModellingRule |-> {"NonHierarchical", "References"}, GeneratesEvent |-> {"NonHierarchical", "References"}, TypeDef |-> {"NonHierarchical", "References"}]
Types == DOMAIN Up
Used == IF MC THEN {"HasComponent", "ModellingRule"} ELSE {"Organizes", "HasProperty", "HasComponent", "HasOrdered", "rt1", "rt2", "ModellingRule", "GeneratesEvent"}
OneWay == {"ModellingRule", "TypeDef"}                           \* the server keeps no inverse of these
ChildTypes == {"HasComponent", "HasProperty", "HasSubtype", "HasOrdered"}
Matches(rt, want, sub) == want = "any" \/ rt = want \/ (sub /\ want \in Up[rt])

(* standard nodes that are targets of type definitions: negative *)
StdNames == (-1 :> "BaseObjectType" @@ -2 :> "FolderType" @@ -3 :> "BaseDataVariableType")
Classes == {"Object", "Variable", "Method", "ObjectType"}
Class(n) == IF n < 0 THEN (IF n = -3 THEN "VariableType" ELSE "ObjectType") ELSE nodes[n].class
Name(n) == IF n < 0 THEN "zero:" \o StdNames[n] ELSE nodes[n].ns \o ":" \o nodes[n].name
Display(n) == IF n < 0 THEN StdNames[n] ELSE "d" \o nodes[n].name
Present == {n \in Ids : nodes[n].class # ""}
Absent == Ids \ Present
Exists(n) == n < 0 \/ n \in Present
TypeOf(n) == IF n < 0 \/ nodes[n].class \notin {"Object", "Variable"} THEN 0 ELSE nodes[n].type

Perms == {"Browse", "Read"}
Roles == {"rA", "rB", "rC"}
Users == {"u1", "u2"}
RandPerms == CHOOSE f \in {[r \in Roles |-> {p \in Perms : ~OneIn(3)}]} : f = f
CanBrowse(u, n) == LET p == IF n > 0 /\ nodes[n].own THEN nodes[n].perms ELSE conf.perms IN \E r \in conf.roles[u] : "Browse" \in p[r]

---- (* references seen by a user *)
Seen(u, n, d, want, sub) == {r \in refs[n] : (d = 2 \/ r.inv = (d = 1)) /\ Matches(r.rt, want, sub) /\ Exists(r.to) /\ CanBrowse(u, r.to)}

---- (* changes *)
Flip(id, r) == [rt |-> r.rt, inv |-> ~r.inv, to |-> id]
RandRef(ids) == [rt |-> One(Used), inv |-> OneIn(3), to |-> IF OneIn(12) THEN 0 ELSE One(ids)]
NewNode(id) == LET cl == One(Classes) IN
   [class |-> cl, name |-> IF Profile = "path" /\ ~OneIn(3) THEN "x" ELSE One({"x", "y", "z"}), ns |-> IF Profile = "path" /\ ~OneIn(4) THEN "own" ELSE One({"own", "zero"}), own |-> OneIn(3), perms |-> RandPerms,
    type |-> CASE cl = "Object" -> One({-1, -2}) [] cl = "Variable" -> -3 [] OTHER -> 0]
TypeRef(nd) == IF nd.type = 0 THEN {} ELSE {[rt |-> "TypeDef", inv |-> FALSE, to |-> nd.type]}
(* nodes new (id -> node) with their own references own (id -> set) *)
AddTo(new, own) ==
  LET all == (DOMAIN new) \cup Present
  IN [n \in Ids |-> (IF n \in DOMAIN new THEN own[n] \cup TypeRef(new[n]) ELSE refs[n])
                    \cup (IF n \in all THEN UNION {{Flip(m, r) : r \in {x \in own[m] : x.to = n /\ x.rt \notin OneWay}} : m \in DOMAIN new} ELSE {})]
RECURSIVE Closure(_)
Closure(S) == LET T == S \cup {r.to : r \in UNION {{x \in refs[n] : ~x.inv /\ x.rt \in ChildTypes /\ x.to \in Present} : n \in S}} IN IF T = S THEN S ELSE Closure(T)
Children(n) == Closure({r.to : r \in {x \in refs[n] : ~x.inv /\ x.rt \in ChildTypes /\ x.to \in Present}})
Without(D) == [n \in Ids |-> IF n \in D THEN {} ELSE {r \in refs[n] : r.to \notin D \/ r.rt \in OneWay}]
NoNode == [class |-> "", name |-> "", ns |-> "", own |-> FALSE, perms |-> [r \in Roles |-> {}], type |-> 0]

Step(r) == hist' = Append(hist, r)
Dump(nd, rf) == {[n |-> n, refs |-> rf[n]] : n \in {x \in Ids : nd[x].class # ""}}

Add == \E B \in IF MC THEN {{i} : i \in Absent} ELSE {LET k == One(1..(IF hist = <<>> THEN 6 ELSE 3)) IN {n \in Absent : Cardinality({m \in Absent : m <= n}) <= k}} :
       \E new \in {[n \in B |-> IF MC THEN [NoNode EXCEPT !.class = "Method"] ELSE NewNode(n)]} :
       \E own0 \in IF MC THEN {[n \in B |-> S] : S \in {s \in SUBSET [rt : Used, inv : BOOLEAN, to : Present \cup B \cup {0}] : Cardinality(s) <= 2}}
                  ELSE {[n \in B |-> {RandRef(Present \cup B) : k \in 1..One(0..4)}]} :
       \* some nodes refer to each other in the same way
       \E own \in {IF MC \/ ~OneIn(3) THEN own0 ELSE [n \in B |-> own0[n] \cup UNION {{[r EXCEPT !.to = m] : r \in {x \in own0[m] : x.to = n}} : m \in B}]} :
       LET nd == [n \in Ids |-> IF n \in B THEN new[n] ELSE nodes[n]]
           rf == AddTo(new, own)
       IN /\ nodes' = nd /\ refs' = rf
          /\ Step([op |-> "add", nodes |-> {[n |-> n, d |-> new[n], refs |-> own[n]] : n \in B}, want |-> "Good", dump |-> Dump(nd, rf)])
          /\ UNCHANGED <<conf, chains>>
Take(D, r) == LET nd == [n \in Ids |-> IF n \in D THEN NoNode ELSE nodes[n]] rf == Without(D)
                IN nodes' = nd /\ refs' = rf /\ UNCHANGED <<conf, chains>> /\ Step(r @@ [dump |-> Dump(nd, rf)])
Delete == \E k \in IF MC THEN {"id", "rec"} ELSE {One({"id", "rec", "rec", "nodes", "tree", "unknown", "std"})} :
  CASE k = "unknown" -> Take({}, [op |-> "delete", k |-> One({"id", "rec"}), ns |-> <<0>>, want |-> "BadNodeIDUnknown", n |-> 0])
    [] k = "std" -> Take({}, [op |-> "delete", k |-> One({"id", "rec"}), ns |-> <<One({-1, -2, -3, -10, -11, -12})>>, want |-> "BadNodeIDInvalid", n |-> 0])
    [] OTHER ->
      \E S \in IF MC THEN {{n} : n \in Present} ELSE {IF k \in {"nodes", "tree"} THEN {n \in Present : OneIn(4)} \cup {One(Present)} ELSE {One(Present)}} :
      LET D == S \cup (IF k \in {"rec", "tree"} THEN UNION {Children(n) : n \in S} ELSE {})
      IN Take(D, [op |-> "delete", k |-> k, ns |-> SetToSeq(S), want |-> "Good", n |-> IF k = "rec" THEN Cardinality(D) ELSE 0])

---- (* browsing *)
Free(u) == MaxCP - Cardinality({c \in 1..Len(chains) : chains[c].open /\ chains[c].u = u})
RandBrowse(u) == [node |-> IF OneIn(14) THEN 0 ELSE One(Present), dir |-> IF OneIn(14) THEN One({3, 4, 99, -1}) ELSE One({0, 0, 1, 2, 2}),
               rt |-> IF OneIn(14) THEN One({"unknown", "notatype"}) ELSE IF OneIn(2) THEN "any" ELSE One(Types), sub |-> One(BOOLEAN),
               cls |-> IF OneIn(2) THEN {} ELSE {c \in Classes \cup {"VariableType", "View"} : OneIn(2)},
               mask |-> IF OneIn(3) THEN {"rt", "fwd", "class", "name", "disp", "type"} ELSE {m \in {"rt", "fwd", "class", "name", "disp", "type"} : OneIn(2)}]
If(b, x) == IF b THEN x ELSE ""
Ref(r, mask) == [to |-> r.to, rt |-> If("rt" \in mask, r.rt), fwd |-> If("fwd" \in mask, ToString(~r.inv)), class |-> If("class" \in mask, Class(r.to)),
                 name |-> If("name" \in mask, Name(r.to)), disp |-> If("disp" \in mask, Display(r.to)), type |-> If("type" \in mask, ToString(TypeOf(r.to)))]
BrowseStatus(u, o) == CASE o.dir \notin 0..2 -> "BadBrowseDirectionInvalid"
                        [] o.node \notin Present \/ ~CanBrowse(u, o.node) -> "BadNodeIDUnknown"
                        [] o.rt \in {"unknown", "notatype"} -> "BadReferenceTypeIDInvalid" [] OTHER -> "Good"
Found(u, o) == {r \in Seen(u, o.node, o.dir, o.rt, o.sub) : o.cls = {} \/ Class(r.to) \in o.cls}
Needs(u, o, max) == BrowseStatus(u, o) = "Good" /\ max > 0 /\ Cardinality(Found(u, o)) > max
(* references are a multiset: two references may look the same under the result mask *)
AsSeq(S, mask) == LET q == SetToSeq(S) IN [i \in 1..Len(q) |-> Ref(q[i], mask)]
Empty == [st |-> "Good", chain |-> 0, count |-> 0, more |-> FALSE, all |-> <<>>]

Browse == \E u \in {One(Users)} : \E max \in {One({0, 0, 1, 1, 2, 3})} : \E k \in {IF OneIn(12) THEN One({0, MaxOps + 1}) ELSE One(1..MaxOps)} :
          \E ops \in {[i \in 1..k |-> RandBrowse(u)]} : \E view \in {IF OneIn(15) THEN One({"unknown", "notaview"}) ELSE "none"} :
  LET need == SelectSeq([i \in 1..k |-> i], LAMBDA i : Needs(u, ops[i], max))
      free == Free(u)
      head == [op |-> "browse", u |-> u, max |-> max, ops |-> ops, view |-> view]
  IN /\ (free > 0 => Len(need) <= free)                   \* otherwise which of them get one is open
     /\ IF view # "none" THEN Step(head @@ [want |-> "BadViewIDUnknown", res |-> <<>>]) /\ UNCHANGED chains
        ELSE IF k = 0 THEN Step(head @@ [want |-> "BadNothingToDo", res |-> <<>>]) /\ UNCHANGED chains
        ELSE IF k > MaxOps THEN Step(head @@ [want |-> "BadTooManyOperations", res |-> <<>>]) /\ UNCHANGED chains
        ELSE LET idx(i) == CHOOSE j \in 1..Len(need) : need[j] = i
                 R(i) == LET o == ops[i] f == Found(u, o) IN
                    IF BrowseStatus(u, o) # "Good" THEN [Empty EXCEPT !.st = BrowseStatus(u, o)]
                    ELSE IF ~Needs(u, o, max) THEN [st |-> "Good", chain |-> 0, count |-> Cardinality(f), more |-> FALSE, all |-> AsSeq(f, o.mask)]
                    ELSE IF free = 0 THEN [Empty EXCEPT !.st = "BadNoContinuationPoints"]
                    ELSE [st |-> "Good", chain |-> Len(chains) + idx(i), count |-> max, more |-> TRUE, all |-> AsSeq(f, o.mask)]
             IN /\ Step(head @@ [want |-> "Good", res |-> [i \in 1..k |-> R(i)]])
                /\ chains' = IF free = 0 THEN chains
                             ELSE chains \o [j \in 1..Len(need) |-> [u |-> u, total |-> Cardinality(Found(u, ops[need[j]])), sent |-> max, max |-> max, open |-> TRUE]]
     /\ UNCHANGED <<conf, nodes, refs>>

OpenOf(u) == {c \in 1..Len(chains) : chains[c].open /\ chains[c].u = u}
Stale(u) == {c \in 1..Len(chains) : chains[c].u = u /\ (chains[c].sent > chains[c].max \/ ~chains[c].open)}
Foreign(u) == {c \in 1..Len(chains) : chains[c].u # u /\ chains[c].open}
BrowseNext == \E u \in {One(Users)} : \E rel \in {OneIn(5)} : \E cur \in {LET q == {c \in OpenOf(u) : ~OneIn(3)} IN q} :
   \E extra \in {IF OneIn(3) THEN One({"empty", "short", "long", "junk", "old", "foreign"}) ELSE ""} : \E too \in {OneIn(15)} :
   LET q == SetToSeq(cur)
       e == CASE extra = "old" -> IF Stale(u) = {} THEN <<>> ELSE <<[k |-> "old", c |-> One(Stale(u))]>>
              [] extra = "foreign" -> IF OpenOf(u) # {} \/ Foreign(u) = {} THEN <<>> ELSE <<[k |-> "foreign", c |-> One(Foreign(u))]>>
              [] extra = "long" -> IF OpenOf(u) = {} THEN <<>> ELSE <<[k |-> "long", c |-> One(OpenOf(u))]>>
              [] extra = "" -> <<>> [] OTHER -> <<[k |-> extra, c |-> 0]>>
   IN \E ops \in {IF too THEN [i \in 1..(MaxOps + 1) |-> [k |-> "junk", c |-> 0]] ELSE e \o [i \in 1..Len(q) |-> [k |-> "cur", c |-> q[i]]]} :
      LET ok == Len(ops) > 0 /\ ~too
          R(i) == LET o == ops[i] IN
             CASE o.k = "empty" -> Empty
               [] o.k = "cur" -> IF rel THEN Empty ELSE
                    LET c == chains[o.c] left == c.total - c.sent IN [st |-> "Good", chain |-> o.c, count |-> IF left > c.max THEN c.max ELSE left, more |-> left > c.max, all |-> <<>>]
               [] OTHER -> [Empty EXCEPT !.st = "BadContinuationPointInvalid"]
      IN /\ Step([op |-> "next", u |-> u, rel |-> rel, cps |-> ops, want |-> IF too THEN "BadTooManyOperations" ELSE IF Len(ops) = 0 THEN "BadNothingToDo" ELSE "Good",
                  res |-> IF ok THEN [i \in 1..Len(ops) |-> R(i)] ELSE <<>>])
         /\ chains' = IF ~ok THEN chains ELSE
              [c \in 1..Len(chains) |-> IF c \notin cur THEN chains[c]
                 ELSE IF rel \/ chains[c].total - chains[c].sent <= chains[c].max THEN [chains[c] EXCEPT !.open = FALSE]
                 ELSE [chains[c] EXCEPT !.sent = @ + chains[c].max]]
         /\ UNCHANGED <<conf, nodes, refs>>
(* before the application changes the graph, the continuation points are released *)
ReleaseAll == \E u \in {x \in Users : OpenOf(x) # {}} :
    LET q == SetToSeq(OpenOf(u)) IN
    /\ Step([op |-> "next", u |-> u, rel |-> TRUE, cps |-> [i \in 1..Len(q) |-> [k |-> "cur", c |-> q[i]]], want |-> "Good", res |-> [i \in 1..Len(q) |-> Empty]])
    /\ chains' = [c \in 1..Len(chains) |-> IF chains[c].u = u THEN [chains[c] EXCEPT !.open = FALSE] ELSE chains[c]]
    /\ UNCHANGED <<conf, nodes, refs>>

---- (* browse paths *)
QName(n) == Name(n)
NamesUsed == {QName(n) : n \in Present}
RandElem == [rt |-> IF OneIn(15) THEN One({"unknown", "notatype"}) ELSE IF OneIn(2) THEN "any" ELSE One(Types), inv |-> OneIn(4), sub |-> ~OneIn(3), name |-> IF OneIn(15) THEN "own:nosuch" ELSE One(NamesUsed)]
Hop(u, S, e) == UNION {{r.to : r \in {x \in Seen(u, n, IF e.inv THEN 1 ELSE 0, "any", FALSE) : (e.rt = "any" \/ x.rt = e.rt \/ (e.sub /\ e.rt \in Up[x.rt])) /\ x.to > 0 /\ QName(x.to) = e.name}} : n \in S}
Follow(u, n, els) == FoldLeft(LAMBDA S, e : Hop(u, S, e), {n}, els)
(* three of four paths are walked along the graph *)
RECURSIVE Walk(_, _, _)
Walk(u, n, k) ==
  IF k = 0 THEN <<>>
  ELSE LET rs == {r \in refs[n] : r.to \in Present} IN
       IF rs = {} THEN <<>>
       ELSE LET r == One(rs) IN <<[rt |-> IF OneIn(2) THEN "any" ELSE One({r.rt} \cup Up[r.rt]), inv |-> r.inv, sub |-> ~OneIn(6), name |-> QName(r.to)]>> \o Walk(u, r.to, k - 1)
RandPath(u) == LET n == IF OneIn(14) THEN 0 ELSE One(Present) IN
   [node |-> n, els |-> IF OneIn(4) \/ n = 0 THEN [i \in 1..One(0..3) |-> RandElem]
                        ELSE LET w == Walk(u, n, One(1..4)) IN IF Len(w) > 1 /\ OneIn(15) THEN [w EXCEPT ![One(1..(Len(w) - 1))].name = "own:"] ELSE w]
PathResult(u, p) ==
  LET none(st) == [st |-> st, targets |-> {}] IN
  IF Len(p.els) = 0 THEN none("BadNothingToDo")
  ELSE IF \E i \in 1..Len(p.els) : p.els[i].name = "own:" THEN none("BadBrowseNameInvalid")
  ELSE IF p.node \notin Present \/ ~CanBrowse(u, p.node) THEN none("BadNodeIDUnknown")
  ELSE LET T == Follow(u, p.node, p.els) IN IF T = {} THEN none("BadNoMatch") ELSE [st |-> "Good", targets |-> T]
Translate == \E u \in {One(Users)} : \E k \in {IF OneIn(15) THEN One({0, MaxOps + 1}) ELSE One(2..MaxOps)} : \E ps \in {[i \in 1..k |-> RandPath(u)]} :
  /\ Step([op |-> "translate", u |-> u, paths |-> ps, want |-> IF k = 0 THEN "BadNothingToDo" ELSE IF k > MaxOps THEN "BadTooManyOperations" ELSE "Good",
           res |-> IF k \in 1..MaxOps THEN [i \in 1..k |-> PathResult(u, ps[i])] ELSE <<>>])
  /\ UNCHANGED <<conf, nodes, refs, chains>>

---- (* behaviours *)
Init == /\ conf = [perms |-> [r \in Roles |-> Perms], roles |-> [u \in Users |-> {"rA"}]]
        /\ nodes = [n \in Ids |-> NoNode] /\ refs = [n \in Ids |-> {}] /\ chains = <<>> /\ hist = <<>>
Setup == \E c \in {[perms |-> IF OneIn(3) THEN RandPerms ELSE [r \in Roles |-> Perms], roles |-> [u \in Users |-> {One(Roles)} \cup {r \in Roles : OneIn(3)}]]} :
    conf' = c /\ Step([op |-> "setup", want |-> "Good"]) /\ UNCHANGED <<nodes, refs, chains>>
Open == \E c \in 1..Len(chains) : chains[c].open
Change == IF Open THEN ReleaseAll ELSE IF Absent # {} /\ (OneIn(2) \/ Cardinality(Present) < 3) THEN Add ELSE Delete
Act == IF MC THEN (Absent # {} /\ Add) \/ (Present # {} /\ Delete)
       ELSE IF hist = <<>> THEN Setup
       ELSE IF Cardinality(Present) < 4 THEN (IF Open THEN ReleaseAll ELSE Add)
       ELSE LET r == One(1..100) IN
            CASE Profile = "graph" -> IF r <= 70 THEN Change ELSE IF r <= 85 THEN Browse ELSE Translate
              [] Profile = "path" -> IF r <= 25 THEN Change ELSE Translate
              [] OTHER -> IF r <= 10 THEN Change ELSE IF Open /\ r <= 60 THEN BrowseNext ELSE IF r <= 64 THEN BrowseNext ELSE Browse
Next == Len(hist) < (IF MC THEN Bound ELSE Steps) /\ Act

---- (* the property, over the graph alone *)
Asked(n) == \E i \in 1..Len(hist) : hist[i].op = "add" /\ \E x \in hist[i].nodes : x.n = n
Symmetric == \A a, b \in Present : \A rt \in Types \ OneWay : \A i \in BOOLEAN : [rt |-> rt, inv |-> i, to |-> b] \in refs[a] => [rt |-> rt, inv |-> ~i, to |-> a] \in refs[b]
NoGhosts == \A a \in Present : \A r \in refs[a] : r.to \in Present \cup {0} \/ r.to < 0 \/ r.rt \in OneWay
(* nobody sees what he may not browse; nothing is delivered twice or lost *)
Hidden == \A i \in {Len(hist)} \cap 1..Len(hist) : hist[i].op = "browse" => \A j \in 1..Len(hist[i].res) : \A k \in 1..Len(hist[i].res[j].all) : CanBrowse(hist[i].u, hist[i].res[j].all[k].to)
Paging == \A c \in 1..Len(chains) : chains[c].open => chains[c].sent < chains[c].total
Sound == Symmetric /\ NoGhosts /\ Hidden /\ Paging
View == IF MC THEN <<nodes, refs>> ELSE vars
Emit == MC \/ Len(hist) < Steps \/ PrintT("CASE " \o ToJson([conf |-> conf, steps |-> hist]))
=============================================================================
