--------------------------- MODULE TrajStoreTrace ---------------------------
EXTENDS TrajStore, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* node: which node runs; il: interval in half units; fl: filter step x4; goal: file parameter; want: outputs that must come next
VARIABLES l, node, il, fl, goal, want, old
tv == <<l, node, il, fl, goal, want, old>>
T == Trace[l]
Abs(x) == IF x < 0 THEN 0 - x ELSE x
\* first order smoothing started at the first value (x1000); w: 4 times the time constant in samples; the same low-pass filter as Filters.tla with K = w / 2
RECURSIVE Smooth(_, _, _, _, _)
Smooth(p, c, w, i, y) == IF i > Len(p) THEN <<>> ELSE
  LET u == p[i][c]  v == p[IF i = 1 THEN 1 ELSE i - 1][c]  z == IF i = 1 THEN u ELSE ((((w * w) - 4) * y) + (((6 * w) + 4) * u) - (((2 * w) - 4) * v)) \div ((w + 2) * (w + 2)) IN <<z>> \o Smooth(p, c, w, i + 1, z)
Served(p) == IF fl = 0 THEN p ELSE LET X == Smooth(p, 1, fl, 1, 0)  Y == Smooth(p, 2, fl, 1, 0) IN [i \in DOMAIN p |-> <<X[i], Y[i], p[i][3], p[i][4]>>]
Tol == IF fl = 0 THEN 0 ELSE 60
Like(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Abs(a[i][1] - b[i][1]) <= Tol /\ Abs(a[i][2] - b[i][2]) <= Tol /\ a[i][3] = b[i][3] /\ a[i][4] = b[i][4]
Un == UNCHANGED <<node, il, fl, goal>>
Keep == UNCHANGED <<files, rec, cur, srv, seen, saved>>
Dist(a, b) == LET dx == (a[1] - b[1]) \div 1000  dy == (a[2] - b[2]) \div 1000 IN 4 * ((dx * dx) + (dy * dy)) > il * il
DueT == cur # <<>> /\ (IF rec = <<>> THEN TRUE ELSE Dist(rec[Len(rec)], cur))
Step ==
  CASE T.op = "begin" -> /\ want = <<>> /\ node' = T.node /\ il' = (2 * T.interval) + 1 /\ fl' = T.filter /\ goal' = T.file /\ rec' = <<>> /\ cur' = <<>> /\ srv' = Srv0(IF T.file = "" THEN "default" ELSE T.file)
                         /\ saved' = FALSE /\ seen' = <<>> /\ want' = <<>> /\ old' = <<>> /\ UNCHANGED files
    [] T.op = "pose" -> cur' = T.p /\ UNCHANGED <<files, rec, srv, seen, saved, want, old>> /\ Un
    [] T.op = "nopose" -> cur' = <<>> /\ UNCHANGED <<files, rec, srv, seen, saved, want, old>> /\ Un
    [] T.op = "clear" -> T.ok /\ rec' = <<>> /\ UNCHANGED <<files, cur, srv, seen, saved, want, old>> /\ Un
    [] T.op = "settled" -> (node = "rec" => ~DueT) /\ want = <<>> /\ Keep /\ UNCHANGED <<want, old>> /\ Un
    \* recorder: only due poses are added
    [] T.op = "out" /\ node = "rec" -> T.ok /\ DueT /\ rec' = Record(rec, cur) /\ T.poses = rec' /\ UNCHANGED <<files, cur, srv, seen, saved, want, old>> /\ Un
    \* saver: the first path is written, later ones are not
    [] T.op = "saw" -> /\ IF saved \/ goal = "x" THEN UNCHANGED <<files, saved>>
                          ELSE saved' = TRUE /\ files' = [q \in DOMAIN files \cup {goal} |-> IF q = goal THEN T.poses ELSE files[q]]
                       /\ UNCHANGED <<rec, cur, srv, seen, want, old>> /\ Un
    \* server
    [] T.op = "load" -> /\ want = <<>> /\ old' = srv
                        /\ LET s == Load(srv, files, T.file, T.id) IN
                           /\ srv' = [s EXCEPT !.path = Served(@), !.marks = Served(@)]
                           /\ want' = IF s.file = "" THEN <<"marks0", "fail">> ELSE <<"out", "marks", "ok">>
                        /\ UNCHANGED <<files, rec, cur, seen, saved>> /\ Un
    [] T.op = "fb" -> /\ want = <<>> /\ old' = srv
                      /\ LET r == Edit(srv, T.m, T.event, T.menu, T.p) IN
                         /\ srv' = r[1]
                         /\ want' = IF T.m >= Len(srv.marks) THEN <<"unseen">> ELSE IF T.event = MENU THEN <<"out", "marks", "seen">> ELSE IF r[2] THEN <<"out", "seen">> ELSE <<"seen">>
                      /\ UNCHANGED <<files, rec, cur, seen, saved>> /\ Un
    \* the path as published becomes the exact one (smoothing is compared with a tolerance)
    [] T.op = "out" /\ node = "srv" -> T.ok /\ want # <<>> /\ Head(want) = "out" /\ Like(T.poses, srv.path) /\ srv' = [srv EXCEPT !.path = T.poses] /\ want' = Tail(want)
                                       /\ UNCHANGED <<files, rec, cur, seen, saved, old>> /\ Un
    [] T.op = "marks" -> T.ok /\ want # <<>> /\ Head(want) \in {"marks", "marks0"} /\ T.poses = srv.path /\ srv' = [srv EXCEPT !.marks = T.poses] /\ want' = Tail(want)
                         /\ UNCHANGED <<files, rec, cur, seen, saved, old>> /\ Un
    [] T.op = "loaded" -> T.done /\ want # <<>> /\ (want[Len(want)] \in {"ok", "fail"}) /\ Len(want) = 1 /\ T.ok = (want[1] = "ok") /\ want' = <<>> /\ Keep /\ UNCHANGED old /\ Un
    [] T.op = "fbdone" -> Len(want) = 1 /\ T.seen = (want[1] = "seen") /\ want' = <<>> /\ Keep /\ UNCHANGED old /\ Un
    [] T.op = "status" -> T.file = srv.file /\ T.id = srv.id /\ Keep /\ UNCHANGED <<want, old>> /\ Un
    \* the saver ends by itself exactly when it has saved
    [] T.op = "end" -> want = <<>> /\ T.how = "returned" /\ Keep /\ UNCHANGED <<want, old>> /\ Un
    [] T.op = "files" -> (IF T.none THEN DOMAIN files = {} ELSE DOMAIN T.files = DOMAIN files /\ \A n \in DOMAIN files : T.files[n] = files[n]) /\ Keep /\ UNCHANGED <<want, old>> /\ Un
    [] OTHER -> FALSE
TraceInit == l = 1 /\ node = "" /\ il = 0 /\ fl = 0 /\ goal = "" /\ want = <<>> /\ old = <<>> /\ files = <<>> /\ rec = <<>> /\ cur = <<>> /\ srv = Srv0("") /\ seen = <<>> /\ saved = FALSE /\ pub = <<>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step /\ UNCHANGED pub
TraceSpec == TraceInit /\ [][TraceNext]_<<tv, mvars>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1 IN
  PrintT("MATCHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
=============================================================================
