--------------------------- MODULE SelectMapTrace ---------------------------
EXTENDS SelectMap, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
T == Trace[l]
Step ==
  CASE T.op = "begin" -> s' = [maps |-> <<>>, floor |-> 0, map |-> None, tf |-> None, n |-> 0]
    [] T.op = "maps" -> Maps(T.maps)
    [] T.op = "floor" -> Floor(T.floor)
    \* the map is exactly the received one except for the height of its origin, which the transform carries
    [] T.op = "map" -> T.ok /\ Publish /\ T.id = s'.map.id
    [] T.op = "tf" -> /\ T.ok /\ (s.map # None => T.z = s.map.z \/ T.z = Want.z)
                      /\ s' = [s EXCEPT !.tf = [id |-> 0, z |-> T.z]]
    [] T.op = "idle" -> ((Valid(s.maps, s.floor) \/ s.map # None) => (s.map = Want /\ s.tf.z = Want.z)) /\ UNCHANGED s
    [] T.op = "end" -> T.how = "returned" /\ UNCHANGED s
    [] OTHER -> FALSE
TraceInit == l = 1 /\ Init
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (Step)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, vars>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1 IN
  PrintT("MATCHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
=============================================================================
