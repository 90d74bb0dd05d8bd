-------------------------------- MODULE Files --------------------------------
(* Files, and mappings of files. A mapping shows the bytes of its file; what *)
(* is written through a shared one is written to the file, what is written   *)
(* through a private one is its own. A mapping made for a size has a file of *)
(* its own, which nobody else uses and which goes with it; a mapping of an   *)
(* existing file leaves that file alone, and takes the descriptor it was     *)
(* given over.                                                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Randomization

CONSTANTS Names, Contents, Sizes, Slots, Bytes, MaxOps, Sample

VARIABLES disk,    \* contents, by number
          names,   \* the files that exist: name -> number
          maps,    \* slot -> mapping
          made,    \* how many mappings with a file of their own were made
          ops
vars == <<disk, names, maps, made, ops>>

NoMap == [open |-> FALSE, kind |-> "none"]
Used == {k \in Slots : maps[k].kind # "none"}
Open == {k \in Slots : maps[k].open}
Mapped(i) == {k \in Open : maps[k].file = i}
Pick(S) == IF Sample = 0 \/ S = {} THEN S ELSE RandomSubset(1, S)
Zeros(n) == [i \in 1..n |-> 0]
OwnName(n) == "own" \o ToString(n)

\* What a mapping shows.
Shown(m) == IF m.shared THEN disk[m.file] ELSE m.mine

\* What there is to see after every step.
Files(d, n) == [x \in DOMAIN n |-> d[n[x]]]
Maps(d, m) == [k \in {k \in Slots : m[k].kind # "none"} |->
                 IF m[k].open THEN [open |-> TRUE, data |-> IF m[k].shared THEN d[m[k].file] ELSE m[k].mine]
                 ELSE [open |-> FALSE, data |-> <<>>]]
Log(o, ans) == /\ Len(ops) < MaxOps
               /\ ops' = Append(ops, [op |-> o, ans |-> ans, files |-> Files(disk', names'), maps |-> Maps(disk', maps')])

Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

\* a private mapping sees what its file had when it was made: the file isn't written while there is one
Settled(i) == \A k \in Mapped(i) : maps[k].shared

-----------------------------------------------------------------------------
Init == disk = <<>> /\ names = <<>> /\ maps = [k \in Slots |-> NoMap] /\ made = 0 /\ ops = <<>>

\* A new file, or an old one with new contents
Put(f, c, how) ==
  IF f \in DOMAIN names
  THEN Mapped(names[f]) = {} /\ disk' = [disk EXCEPT ![names[f]] = c] /\ names' = names
  ELSE disk' = Append(disk, c) /\ names' = names @@ (f :> (Len(disk) + 1))
Create == \E f \in Pick(Names), c \in Pick(Contents) : Put(f, c, "create") /\ UNCHANGED <<maps, made>> /\ Log(<<"create", f, c>>, TRUE)
Sparse == \E f \in Pick(Names), n \in Pick(Sizes) : Put(f, Zeros(n), "sparse") /\ UNCHANGED <<maps, made>> /\ Log(<<"sparse", f, n>>, TRUE)
Ensure == \E f \in Pick(Names) :
  /\ IF f \in DOMAIN names THEN UNCHANGED <<disk, names>> ELSE disk' = Append(disk, <<>>) /\ names' = names @@ (f :> (Len(disk) + 1))
  /\ UNCHANGED <<maps, made>> /\ Log(<<"ensure", f>>, f \notin DOMAIN names)
Delete == \E f \in Pick(Names) :
  names' = Without(names, f) /\ UNCHANGED <<disk, maps, made>> /\ Log(<<"delete", f>>, f \in DOMAIN names)

\* A mapping with a file of its own
Own == \E k \in Pick(Slots \ Used), n \in Pick(Sizes), w \in Pick(BOOLEAN), s \in Pick(BOOLEAN) :
  /\ disk' = Append(disk, Zeros(n)) /\ names' = names @@ (OwnName(made + 1) :> (Len(disk) + 1)) /\ made' = made + 1
  /\ maps' = [maps EXCEPT ![k] = [kind |-> "own", name |-> OwnName(made + 1), w |-> w, shared |-> s, open |-> n > 0, file |-> Len(disk) + 1, mine |-> Zeros(n)]]
  /\ Log(<<"own", k, n, w, s>>, TRUE)
\* A mapping of a file (kind "um": by a descriptor, "lib": by its name)
OfFile == \E k \in Pick(Slots \ Used), f \in Pick(Names), w \in Pick(BOOLEAN), s \in Pick(BOOLEAN), kind \in Pick({"um", "lib"}) :
  /\ LET i == IF f \in DOMAIN names THEN names[f] ELSE 0
         ok == i # 0 /\ Len(disk[i]) > 0
     IN maps' = [maps EXCEPT ![k] = [kind |-> kind, name |-> f, w |-> w, shared |-> s, open |-> ok, file |-> i, mine |-> IF ok THEN disk[i] ELSE <<>>]]
  /\ UNCHANGED <<disk, names, made>> /\ Log(<<kind, k, f, w, s>>, TRUE)

\* (mappings that can be written but aren't shared have bytes of their own)
Write == \E k \in Pick({k \in Open : maps[k].w}) : \E p \in Pick(1..Len(Shown(maps[k]))), b \in Pick(Bytes) :
  /\ IF maps[k].shared THEN Settled(maps[k].file) /\ disk' = [disk EXCEPT ![maps[k].file][p] = b] /\ maps' = maps
     ELSE maps' = [maps EXCEPT ![k].mine[p] = b] /\ disk' = disk
  /\ UNCHANGED <<names, made>> /\ Log(<<"write", k, p - 1, b>>, TRUE)

\* the file of an "own" mapping goes with it
Gone(k) == IF maps[k].kind = "own" /\ maps[k].name \in DOMAIN names THEN Without(names, maps[k].name) ELSE names
Destroy == \E k \in Pick(Used) :
  /\ names' = Gone(k) /\ maps' = [maps EXCEPT ![k] = NoMap] /\ UNCHANGED <<disk, made>> /\ Log(<<"destroy", k>>, TRUE)
\* A copy shows the same bytes, and is as independent as any two mappings of a file are.
Copy == \E k \in Pick(Used), j \in Pick(Slots \ Used) :
  /\ maps' = [maps EXCEPT ![j] = maps[k]] /\ UNCHANGED <<disk, names, made>> /\ Log(<<"copy", k, j>>, TRUE)
Same(k, j) == maps[k].kind = maps[j].kind /\ (maps[k].kind # "lib" => maps[k].w = maps[j].w /\ maps[k].shared = maps[j].shared)
Assign == \E k \in Pick(Used) : \E j \in Pick({j \in Used : Same(k, j)}) :
  /\ names' = IF maps[j].kind = "own" /\ maps[j].name # maps[k].name THEN Gone(j) ELSE names
  /\ maps' = [maps EXCEPT ![j] = maps[k]] /\ UNCHANGED <<disk, made>> /\ Log(<<"assign", k, j>>, TRUE)
Move == \E k \in Pick({k \in Used : maps[k].kind = "lib"}), j \in Pick(Slots \ Used) :
  /\ maps' = [maps EXCEPT ![j] = maps[k], ![k] = [@ EXCEPT !.open = FALSE]] /\ UNCHANGED <<disk, names, made>> /\ Log(<<"move", k, j>>, TRUE)
MoveAssign == \E k \in Pick({k \in Used : maps[k].kind = "lib"}) : \E j \in Pick({j \in Used : maps[j].kind = "lib" /\ j # k}) :
  /\ maps' = [maps EXCEPT ![j] = maps[k], ![k] = [@ EXCEPT !.open = FALSE]] /\ UNCHANGED <<disk, names, made>> /\ Log(<<"moveassign", k, j>>, TRUE)
\* (only "lib": the others end with their scope)
Close == \E k \in Pick({k \in Used : maps[k].kind = "lib"}) :
  /\ maps' = [maps EXCEPT ![k].open = FALSE] /\ UNCHANGED <<disk, names, made>> /\ Log(<<"close", k>>, TRUE)

\* Others make mappings of their own meanwhile, write to them and let them go. Nothing of it is seen here, nor among them.
Others == \E who \in Pick({"threads", "processes"}) : UNCHANGED <<disk, names, maps, made>> /\ Log(<<"others", who>>, TRUE)

Next == Create \/ Sparse \/ Ensure \/ Delete \/ Own \/ OfFile \/ Write \/ Destroy \/ Copy \/ Assign \/ Move \/ MoveAssign \/ Close \/ Others

-----------------------------------------------------------------------------
\* No file has two names, and the files of the mappings are there as long as nobody took them away.
Invariants ==
  /\ \A x, y \in DOMAIN names : names[x] = names[y] => x = y
  /\ \A k \in Used : maps[k].kind = "own" => Cardinality({j \in Used : maps[j].kind = "own" /\ maps[j].name = maps[k].name}) = 1
                       \/ \E i \in DOMAIN ops : ops[i].op[1] \in {"copy", "assign"}
  /\ \A k \in Used : (maps[k].kind = "own" /\ \A i \in DOMAIN ops : ops[i].op[1] \notin {"copy", "assign"}) => maps[k].name \in DOMAIN names
  /\ \A k \in Open : Len(Shown(maps[k])) = Len(disk[maps[k].file])
=============================================================================
