--------------------------- MODULE GridMapTrace ---------------------------
(* Validates recorded operations of the real grid storage against GridMap. *)
EXTENDS GridMap, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, nc
T == Trace[l]
Same == UNCHANGED <<m, nc>>
P3(s) == <<s[1], s[2], s[3]>>
\* cells in the order of the dump: x outermost, z innermost
DumpOK(i, d) ==
  LET sz == m[i].size IN
  /\ Len(d) = sz[1] * sz[2] * sz[3]
  /\ \A p \in Cells(sz) : Agrees(m[i].cells[p], d[(p[1] * sz[2] + p[2]) * sz[3] + p[3] + 1])
Step ==
  CASE T.op = "begin" -> m' = [i \in {} |-> 0] /\ nc' = T.nc
    [] T.op = "reset" -> Reset(T.i, P3(T.size)) /\ T.rsize = T.size /\ UNCHANGED nc
    [] T.op = "write" -> Write(T.i, P3(T.p), T.v) /\ UNCHANGED nc
    [] T.op = "clear" -> Clear(T.i, T.v) /\ UNCHANGED nc
    [] T.op = "clrpos" -> ClearPositive(T.i, T.v) /\ UNCHANGED nc
    [] T.op = "clrpart" -> ClearPart(T.i, T.v, P3(T.lo), P3(T.hi)) /\ UNCHANGED nc
    [] T.op = "copy" -> CopyPart(T.i, T.j, P3(T.lo), P3(T.hi)) /\ UNCHANGED nc
    [] T.op = "shift" -> CopyShift(T.i, P3(T.d), T.j, P3(T.lo), P3(T.hi)) /\ UNCHANGED nc
    [] T.op = "assign" -> Assign(T.i, T.j) /\ UNCHANGED nc /\ T.rsize = [k \in 1..3 |-> m[T.j].size[k]]
    [] T.op = "read" -> Agrees(m[T.i].cells[P3(T.p)], T.v) /\ Same
    [] T.op = "valid" -> (T.b = Valid(T.i, P3(T.p), T.tol, nc)) /\ Same
    [] T.op = "dump" -> DumpOK(T.i, T.d) /\ Same
    [] OTHER -> FALSE
TraceInit == m = [i \in {} |-> 0] /\ l = 1 /\ nc = 2
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TraceSpec == TraceInit /\ [][TraceNext]_<<m, l, nc>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1 IN
  PrintT("MATCHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
=============================================================================
