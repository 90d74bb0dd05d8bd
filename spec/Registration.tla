---------------------------- MODULE Registration ----------------------------
(* Building the menu: commands and flags are added one by one.  An addition  *)
(* whose titles collide with those of a sibling fails, and ends the history. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Longs, Shorts, AliasSets, Defaults, Groups, MaxOps, MaxDepth, Sample,
          Base  \* title tables of the root that are taken already: [clong, cshort, flong, fshort]

VARIABLES cmds, flags, order, failed, ops
vars == <<cmds, flags, order, failed, ops>>

Root == ""
Id(o, l) == IF o = Root THEN l ELSE o \o "." \o l
Owners == DOMAIN cmds \cup {Root}
RECURSIVE Depth(_)
Depth(c) == IF c = Root THEN 0 ELSE 1 + Depth(cmds[c].owner)

\* titles in use among the commands (flags) of owner o
CLong(o)  == UNION {{cmds[c].long} \cup cmds[c].aliases : c \in {c \in DOMAIN cmds : cmds[c].owner = o}} \cup (IF o = Root THEN Base.clong ELSE {})
CShort(o) == {cmds[c].short : c \in {c \in DOMAIN cmds : cmds[c].owner = o}} \cup (IF o = Root THEN Base.cshort ELSE {})
FLong(o)  == UNION {{flags[f].long} \cup flags[f].aliases : f \in {f \in DOMAIN flags : flags[f].owner = o}} \cup (IF o = Root THEN Base.flong ELSE {})
FShort(o) == {flags[f].short : f \in {f \in DOMAIN flags : flags[f].owner = o}} \cup (IF o = Root THEN Base.fshort ELSE {})

Collides(l, s, al, longs, shorts) == l \in longs \/ al \cap longs # {} \/ (s # "" /\ s \in shorts)

Init == /\ cmds = <<>> /\ flags = <<>> /\ order = <<>> /\ failed = FALSE /\ ops = <<>>

AddCmd(o, l, s, al) ==
  LET bad == Collides(l, s, al, CLong(o), CShort(o)) IN
  /\ failed' = bad
  /\ ops' = Append(ops, [op |-> "cmd", owner |-> o, long |-> l, short |-> s, aliases |-> al])
  /\ IF bad THEN UNCHANGED <<cmds, order>>
     ELSE /\ cmds' = (Id(o, l) :> [owner |-> o, long |-> l, short |-> s, aliases |-> al]) @@ cmds
          /\ order' = Append(order, <<"cmd", Id(o, l)>>)
  /\ UNCHANGED flags

AddFlag(o, l, s, al, d, g) ==
  LET bad == Collides(l, s, al, FLong(o), FShort(o)) IN
  /\ failed' = bad
  /\ ops' = Append(ops, [op |-> "flag", owner |-> o, long |-> l, short |-> s, aliases |-> al, t |-> d.t, v |-> d.v, group |-> g])
  /\ IF bad THEN UNCHANGED <<flags, order>>
     ELSE /\ flags' = (Id(o, l) :> [owner |-> o, long |-> l, short |-> s, aliases |-> al, t |-> d.t, v |-> d.v, group |-> g]) @@ flags
          /\ order' = Append(order, <<"flag", Id(o, l)>>)
  /\ UNCHANGED cmds

Pick(A) == IF Sample = 0 \/ Cardinality(A) <= 1 THEN A ELSE RandomSubset(1, A)

Add ==
  /\ ~failed /\ Len(ops) < MaxOps
  /\ \E o \in Pick({c \in Owners : Depth(c) < MaxDepth}), l \in Pick(Longs), s \in Pick(Shorts) :
       \E al \in Pick({a \in AliasSets : l \notin a}) :
          \/ AddCmd(o, l, s, al)
          \/ \E d \in Pick(Defaults), g \in Pick(Groups) : AddFlag(o, l, s, al, d, g)
Next == Add
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Titles == Longs \cup Shorts \cup UNION AliasSets
CByLong(o, t)  == {c \in DOMAIN cmds : cmds[c].owner = o /\ cmds[c].long = t}
CByOther(o, t) == {c \in DOMAIN cmds : cmds[c].owner = o /\ (cmds[c].short = t \/ t \in cmds[c].aliases)}
FByLong(o, t)  == {f \in DOMAIN flags : flags[f].owner = o /\ flags[f].long = t}

GroupNames(o) == {flags[f].group : f \in {f \in DOMAIN flags : flags[f].owner = o /\ flags[f].group # "" /\ flags[f].t = "bool"}}
Members(o, g) == {f \in DOMAIN flags : flags[f].owner = o /\ flags[f].group = g /\ flags[f].t = "bool"}
OrderOf(f) == CHOOSE i \in DOMAIN order : order[i] = <<"flag", f>>
Default(o, g) == LET on == {f \in Members(o, g) : flags[f].v = "true"} IN
                 IF on # {} THEN {flags[f].long : f \in on}
                 ELSE {flags[CHOOSE f \in Members(o, g) : \A h \in Members(o, g) : OrderOf(f) <= OrderOf(h)].long}

\* Titles identify siblings.
UniqueInv ==
  /\ \A c, d \in DOMAIN cmds : c # d /\ cmds[c].owner = cmds[d].owner =>
       /\ ({cmds[c].long} \cup cmds[c].aliases) \cap ({cmds[d].long} \cup cmds[d].aliases) = {}
       /\ cmds[c].short = "" \/ cmds[c].short # cmds[d].short
  /\ \A c, d \in DOMAIN flags : c # d /\ flags[c].owner = flags[d].owner =>
       /\ ({flags[c].long} \cup flags[c].aliases) \cap ({flags[d].long} \cup flags[d].aliases) = {}
       /\ flags[c].short = "" \/ flags[c].short # flags[d].short
OwnerInv == \A x \in DOMAIN cmds : cmds[x].owner = Root \/ cmds[x].owner \in DOMAIN cmds
OnceInv  == Len(order) = Cardinality(DOMAIN cmds) + Cardinality(DOMAIN flags)
Invariants == UniqueInv /\ OwnerInv /\ OnceInv

Outcome ==
  [ops |-> ops, failed |-> failed, order |-> order,
   cmds |-> [c \in DOMAIN cmds |-> cmds[c].owner],
   flags |-> [f \in DOMAIN flags |-> [owner |-> flags[f].owner, t |-> flags[f].t, v |-> flags[f].v]],
   find |-> [o \in Owners |-> [t \in {t \in Titles : t # "" /\ CByLong(o, t) # {}} |-> CByLong(o, t)]],
   findx |-> [o \in Owners |-> [t \in {t \in Titles : t # "" /\ CByLong(o, t) \cup CByOther(o, t) # {}}
                                 |-> IF CByLong(o, t) # {} THEN CByLong(o, t) ELSE CByOther(o, t)]],
   findf |-> [o \in Owners |-> [t \in {t \in Titles : t # "" /\ FByLong(o, t) # {}} |-> FByLong(o, t)]],
   leaf |-> {o \in Owners : ~\E c \in DOMAIN cmds : cmds[c].owner = o},
   groups |-> [o \in {o \in Owners : GroupNames(o) # {}} |-> [g \in GroupNames(o) |-> Default(o, g)]]]
Emit == (ops # <<>> /\ (failed \/ Len(ops) = MaxOps)) => PrintT("@CASE " \o ToJson(Outcome))
=============================================================================
