---------------------------- MODULE GridMapSim ----------------------------
(* Random behaviours of GridMap, printed as operation scripts for the code. *)
EXTENDS GridMap, Json
CONSTANT Depth
VARIABLE hist
R(S) == RandomElement(S)
SInit == Init /\ hist = <<>>
Log(op) == hist' = Append(hist, op)
Kinds == {"reset", "write", "write2", "clear", "clrpos", "clrpart", "clrpart2", "copy", "copy2", "shift", "shift2", "assign"}
SNext ==
  IF \E i \in Ids : i \notin DOMAIN m
  THEN \E i \in {R(Ids \ DOMAIN m)}, sz \in {R(Sizes)}, v \in {R(Vals)} :
       /\ m' = [j \in DOMAIN m \cup {i} |-> IF j = i THEN [size |-> sz, cells |-> [p \in Cells(sz) |-> v]] ELSE m[j]]
       /\ hist' = hist \o <<<<"reset", i>> \o sz, <<"clear", i, v>>>>
  ELSE \E k \in {R(Kinds)}, i \in {R(DOMAIN m)}, j \in {R(DOMAIN m)}, v \in {R(Vals)} :
       \E lo \in {R(Cells(m[j].size))}, hi \in {R(Cells(m[j].size))}, p \in {R(Cells(m[i].size))}, sz \in {R(Sizes)} :
       CASE k = "reset" -> Reset(i, sz) /\ Log(<<"reset", i>> \o sz)
         [] k \in {"write", "write2"} -> Write(i, p, v) /\ Log(<<"write", i>> \o p \o <<v>>)
         [] k = "clear" -> Clear(i, v) /\ Log(<<"clear", i, v>>)
         [] k = "clrpos" /\ ENABLED ClearPositive(i, v) -> ClearPositive(i, v) /\ Log(<<"clrpos", i, v>>)
         [] k \in {"clrpart", "clrpart2"} -> ClearPart(j, v, lo, hi) /\ Log(<<"clrpart", j, v>> \o lo \o hi)
         [] k \in {"copy", "copy2"} /\ ENABLED CopyPart(i, j, lo, hi) -> CopyPart(i, j, lo, hi) /\ Log(<<"copy", i, j>> \o lo \o hi)
         [] k \in {"shift", "shift2"} /\ i # j /\ ENABLED CopyShift(i, p, j, lo, hi) -> CopyShift(i, p, j, lo, hi) /\ Log(<<"shift", i>> \o p \o <<j>> \o lo \o hi)
         [] k = "assign" /\ i # j -> Assign(i, j) /\ Log(<<"assign", i, j>>)
         [] OTHER -> Write(i, p, v) /\ Log(<<"write", i>> \o p \o <<v>>)
SSpec == SInit /\ [][SNext]_<<m, hist>>
Emit == Len(hist) < Depth \/ PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
