------------------------- MODULE RememberedMapTrace -------------------------
EXTENDS RememberedMap, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
P2(s) == <<s[1], s[2]>>
At(d, p) == d[p[2] * size[1] + p[1] + 1]
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b) == Abs(a - b) <= 4
Step ==
  CASE T.op = "begin" -> Forget(<<1, 1>>)
    [] T.op = "reset" -> Reset(P2(T.size))
    [] T.op = "clear" -> Clear
    [] T.op = "remember" -> Remember(P2(T.c), [p \in DOMAIN bel |-> At(T.obs, p)], T.hit, T.miss, T.rmin, T.rmax)
    [] T.op = "write" -> WriteOut
    [] T.op = "costs" -> (\A p \in DOMAIN out : At(T.d, p) = out[p]) /\ UNCHANGED vars
    \* traversal: every cell once, belief (1/1000 units) as specified
    [] T.op = "each" -> /\ Len(T.x) = Cardinality(DOMAIN bel)
                        /\ {<<T.x[k], T.y[k]>> : k \in 1..Len(T.x)} = DOMAIN bel
                        /\ \A k \in 1..Len(T.x) : T.z[k] = 0 /\ Near(T.b[k], 1000 * bel[<<T.x[k], T.y[k]>>])
                        /\ UNCHANGED vars
    \* single filter arithmetic: sequence of evidence from a given level
    [] T.op = "filter" -> /\ Near(T.res, 1000 * Clamp(T.from + T.ev)) /\ T.ret = T.res
                          /\ T.pct = Pct(Clamp(T.from + T.ev)) /\ UNCHANGED vars
    [] T.op = "noop" -> T.cost = 0 /\ T.visited = 0 /\ UNCHANGED vars
    [] OTHER -> FALSE
TraceInit == Init /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1 IN
  PrintT("MATCHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
=============================================================================
