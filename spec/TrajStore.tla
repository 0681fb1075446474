------------------------------ MODULE TrajStore ------------------------------
(* Recording, saving, loading and editing of paths: trajectory_recorder, trajectory_saver, trajectory_server.                 *)
(* A pose is <<x, y, z, heading>>. files: name -> path; rec: path being recorded; cur: robot pose or <<>>; srv: served path.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Sq(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
\* ---- recorder; il: interval in half units
Far(a, b, il) == 4 * Sq(a, b) > il * il
Due(rec, cur, il) == cur # <<>> /\ (rec = <<>> \/ Far(rec[Len(rec)], cur, il))
Record(rec, cur) == Append(rec, cur)
\* ---- server: state [path, marks, file, id]
Srv0(file) == [path |-> <<>>, marks |-> <<>>, file |-> file, id |-> 0]
Load(s, files, name, id) ==
  IF name \in DOMAIN files THEN [path |-> files[name], marks |-> files[name], file |-> name, id |-> id]
  ELSE [path |-> <<>>, marks |-> <<>>, file |-> "", id |-> id]
Remove(p, i) == SubSeq(p, 1, i - 1) \o SubSeq(p, i + 1, Len(p))
Insert(p, i) == SubSeq(p, 1, i) \o SubSeq(p, i, Len(p))
DRAG == 1
MENU == 2
RELEASE == 5
DELETE == 1
ADD == 2
\* feedback of marker number m (from 0): new state and whether the path is published
Edit(s, m, event, menu, p) ==
  IF m >= Len(s.marks) THEN <<s, FALSE>>
  ELSE CASE event = DRAG -> <<[s EXCEPT !.path[m + 1] = p], FALSE>>
         [] event = RELEASE -> <<s, TRUE>>
         [] event = MENU -> LET q == IF menu = DELETE THEN Remove(s.path, m + 1) ELSE IF menu = ADD THEN Insert(s.path, m + 1) ELSE s.path IN <<[s EXCEPT !.path = q, !.marks = q], TRUE>>
         [] OTHER -> <<s, FALSE>>
------------------------------------------------------------------------------
\* Exhaustive exploration of the three nodes with a robot on a line
CONSTANTS MPlaces, MNames, MMax
VARIABLES files, rec, cur, srv, seen, saved, pub
mvars == <<files, rec, cur, srv, seen, saved, pub>>
P(x) == <<x, 0, 0, 0>>
MInit == files = <<>> /\ rec = <<>> /\ cur = <<>> /\ srv = Srv0("a") /\ seen = <<>> /\ saved = FALSE /\ pub = <<>>
Move == \E x \in MPlaces \cup {-1} : cur' = (IF x < 0 THEN <<>> ELSE P(x)) /\ UNCHANGED <<files, rec, srv, seen, saved, pub>>
Look == Len(rec) < MMax /\ (IF Due(rec, cur, 3) THEN rec' = Record(rec, cur) ELSE UNCHANGED rec) /\ seen' = (IF cur = <<>> THEN seen ELSE cur) /\ UNCHANGED <<files, cur, srv, saved, pub>>
ClearA == rec' = <<>> /\ seen' = <<>> /\ UNCHANGED <<files, cur, srv, saved, pub>>
SaveA == rec # <<>> /\ \E n \in MNames \ {"b"} : files' = [q \in DOMAIN files \cup {n} |-> IF q = n THEN rec ELSE files[q]] /\ saved' = TRUE /\ UNCHANGED <<rec, cur, srv, seen, pub>>
LoadA == \E n \in MNames : srv' = Load(srv, files, n, 1) /\ pub' = (IF n \in DOMAIN files THEN files[n] ELSE pub) /\ UNCHANGED <<files, rec, cur, seen, saved>>
EditA == \E m \in 0..MMax, e \in {<<DRAG, 0>>, <<RELEASE, 0>>, <<MENU, DELETE>>, <<MENU, ADD>>} : Len(srv.path) < MMax + 1 /\
           LET r == Edit(srv, m, e[1], e[2], P(9)) IN srv' = r[1] /\ pub' = (IF r[2] THEN r[1].path ELSE pub) /\ UNCHANGED <<files, rec, cur, seen, saved>>
MNext == Move \/ Look \/ ClearA \/ SaveA \/ LoadA \/ EditA
MSpec == MInit /\ [][MNext]_mvars
\* recorded poses are farther apart than the interval, and the robot was never seen farther than it from the last one
Spaced == \A i \in 1..(Len(rec) - 1) : Far(rec[i], rec[i + 1], 3)
Follows == rec # <<>> /\ seen # <<>> => ~Far(rec[Len(rec)], seen, 3)
\* markers and path always have the same poses in number, so that feedback never addresses a pose that does not exist
Matching == Len(srv.marks) = Len(srv.path)
NoFileNoPath == srv.file = "" => srv.path = <<>>
\* an edit changes at most one pose; everything else stays in order
OnePose == [][files' = files /\ rec' = rec /\ cur' = cur /\ srv'.file = srv.file /\ srv'.id = srv.id =>
               \/ srv'.path = srv.path
               \/ (srv.file # "" /\ srv.file \in DOMAIN files /\ srv'.path = files[srv.file])
               \/ \E i \in 1..(Len(srv.path)) : srv'.path = Remove(srv.path, i) \/ srv'.path = Insert(srv.path, i) \/ srv'.path = [srv.path EXCEPT ![i] = P(9)]]_mvars
=============================================================================
