------------------------------- MODULE Patrol -------------------------------
\* A patrol: the poses of the newest path are given as goals one at a time. outcome: of the goal sent last
\* ("none": nothing sent for this path, "open", "done": succeeded or aborted, "other": cancelled or rejected).
EXTENDS Naturals, Sequences
CONSTANTS Paths, MaxPaths
VARIABLES p
vars == <<p>>
Init == p = [path |-> <<>>, pos |-> 0, outcome |-> "none", npaths |-> 0, stale |-> FALSE, sent |-> <<>>, open |-> 0, latest |-> FALSE]
\* goals of the previous path that are still running have to be cancelled
NewPath(x) == p' = [path |-> x, pos |-> 0, outcome |-> "none", npaths |-> p.npaths + 1, stale |-> p.open # 0, sent |-> <<>>, open |-> p.open, latest |-> FALSE]
Cancel == p.npaths > 0 /\ p' = [p EXCEPT !.stale = FALSE, !.open = 0]
MaySend == p.pos < Len(p.path) /\ ~p.stale /\ (p.pos = 0 \/ p.outcome = "done")
Send == MaySend /\ p' = [p EXCEPT !.pos = @ + 1, !.outcome = "open", !.sent = Append(@, p.path[p.pos + 1]), !.open = 1, !.latest = TRUE]
\* the outcome of the goal sent last, possibly of an older path
Outcome(o) == p.open # 0 /\ p' = [p EXCEPT !.outcome = IF p.latest THEN o ELSE @, !.open = IF o = "open" THEN @ ELSE 0]
Next == (\E x \in Paths : p.npaths < MaxPaths /\ NewPath(x)) \/ Cancel \/ Send \/ \E o \in {"done", "other"} : Outcome(o)
Spec == Init /\ [][Next]_vars
InOrder == p.sent = SubSeq(p.path, 1, p.pos)
OnlyAfterOutcome == [][Len(p'.sent) > Len(p.sent) => (p.pos = 0 \/ p.outcome = "done")]_vars
OneAtATime == p.stale => p.pos = 0
StaleNeverSends == [][(p.stale /\ p'.stale) => p'.pos = p.pos \/ p'.pos = 0]_vars
=============================================================================
