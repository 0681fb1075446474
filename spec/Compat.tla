------------------------------- MODULE Compat -------------------------------
(* The global compatibility level and the names every node offers at it.                                                     *)
(* Entry: [node, kind, ons, old, nns, new]; ns "" is the namespace of the node, "~" its private one, "/" absolute.            *)
(* param: private parameter which renames the old name, "" if none.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
E(node, kind, ons, old, nns, new, param) == [node |-> node, kind |-> kind, ons |-> ons, old |-> old, nns |-> nns, new |-> new, param |-> param]
N(node, kind, old, new) == E(node, kind, "~", old, "", new, "")
Table == {
  N("costmap_3d", "pub", "costmap", "costmap"), N("costmap_3d", "pub", "costmap_update", "costmap_update"),
  N("laserscan_to_map", "pub", "map", "map_local"), N("pointcloud2_to_map", "pub", "map", "map_local"), N("largemap_to_map", "pub", "map", "map_local"),
  N("planner_3d", "sub", "costmap", "costmap"), N("planner_3d", "sub", "costmap_update", "costmap_update"),
  N("planner_3d", "sub", "goal", "move_base_simple/goal"), N("planner_3d", "srv", "forget", "forget_planning_cost"), N("planner_3d", "pub", "path", "path"),
  N("patrol", "sub", "path", "patrol_nodes"),
  N("planner_2dof_serial_joints", "pub", "trajectory_out", "joint_trajectory"), N("planner_2dof_serial_joints", "sub", "trajectory_in", "trajectory_in"),
  N("planner_2dof_serial_joints", "sub", "joint", "joint_states"),
  N("joystick_interrupt", "sub", "cmd_vel_input", "cmd_vel_input"), N("joystick_interrupt", "pub", "cmd_vel", "cmd_vel"),
  N("joystick_mux", "sub", "input0", "mux_input0"), N("joystick_mux", "sub", "input1", "mux_input1"), N("joystick_mux", "pub", "output", "mux_output"),
  N("pointcloud_to_maps", "sub", "map_cloud", "mapcloud"),
  N("pose_transform", "sub", "pose_in", "pose_in"), N("pose_transform", "pub", "pose_out", "pose_out"),
  E("select_map", "sub", "/", "maps", "", "maps", ""), N("select_map", "sub", "floor", "floor"), E("select_map", "pub", "/", "map", "", "map", ""),
  N("safety_limiter", "pub", "cmd_vel_out", "cmd_vel"), N("safety_limiter", "sub", "cmd_vel_in", "cmd_vel_in"), N("safety_limiter", "sub", "disable", "disable_safety"),
  N("safety_limiter", "sub", "watchdog_reset", "watchdog_reset"), N("safety_limiter", "sub", "cloud", "cloud"),
  E("track_odometry", "sub", "", "imu", "", "imu/data", ""), N("track_odometry", "sub", "reset_z", "reset_odometry_z"),
  E("trajectory_recorder", "pub", "~", "recpath", "", "path", "path"), E("trajectory_saver", "sub", "~", "recpath", "", "path", "path"),
  E("trajectory_server", "pub", "~", "path", "", "path", "path"), N("trajectory_server", "srv", "ChangePath", "change_path"),
  E("trajectory_tracker", "sub", "~", "path", "", "path", "path"), N("trajectory_tracker", "sub", "speed", "speed"), E("trajectory_tracker", "pub", "~", "cmd_vel", "", "cmd_vel", "cmd_vel")
}
Nodes == {e.node : e \in Table}
\* nodes which read the level but renamed nothing, and all names of a node
Legacy == 0
Current == 1
Default == Legacy
Accepted(level) == level \in {Legacy, Current}
\* absolute name of a name in the namespace of a node run in ns ("" or "/x")
Full(ns, node, where, name) == CASE where = "" -> ns \o "/" \o name [] where = "~" -> ns \o "/" \o node \o "/" \o name [] OTHER -> "/" \o name
OldName(e, ns, given) == Full(ns, e.node, e.ons, IF e.param # "" /\ e.param \in DOMAIN given THEN given[e.param] ELSE e.old)
NewName(e, ns) == Full(ns, e.node, e.nns, e.new)
Offered(e, ns, level, given) == IF level = Legacy THEN OldName(e, ns, given) ELSE NewName(e, ns)
Hidden(e, ns, level, given) == IF level = Legacy THEN NewName(e, ns) ELSE OldName(e, ns, given)
-----------------------------------------------------------------------------
\* Nodes start and stop while the operator changes the global level; a node reads it once.
CONSTANT MLevels
VARIABLES level, run
vars == <<level, run>>
None == -99
Eff(l) == IF l = None THEN Default ELSE l
MInit == level = None /\ run = <<>>
Set == \E l \in MLevels \cup {None} : level' = l /\ UNCHANGED run
MNodes == {"costmap_3d", "planner_3d", "trajectory_tracker", "safety_limiter", "trajectory_recorder", "trajectory_saver"}
Start == \E n \in MNodes \ DOMAIN run : UNCHANGED level /\ run' = IF Accepted(Eff(level)) THEN [x \in DOMAIN run \cup {n} |-> IF x = n THEN Eff(level) ELSE run[x]] ELSE run
Stop == \E n \in DOMAIN run : UNCHANGED level /\ run' = [x \in DOMAIN run \ {n} |-> run[x]]
MSpec == MInit /\ [][Set \/ Start \/ Stop]_vars
NoN == <<>>
Ents(n) == {e \in Table : e.node = n}
Running == \A n \in DOMAIN run : Accepted(run[n])
\* exactly one of the two names, unless they are the same
OneName == \A n \in DOMAIN run : \A e \in Ents(n) : Offered(e, "", run[n], NoN) # Hidden(e, "", run[n], NoN)
\* a name is hidden by an entry only if no other entry of the node of the same kind offers it
Distinct == \A n \in DOMAIN run : \A e, f \in Ents(n) : e.kind = f.kind => Offered(e, "", run[n], NoN) # Hidden(f, "", run[n], NoN) /\ (e # f => Offered(e, "", run[n], NoN) # Offered(f, "", run[n], NoN))
\* nodes run at the current level are wired by the default names
Connected(a, an, b, bn) == a \in DOMAIN run /\ b \in DOMAIN run /\ run[a] = Current /\ run[b] = Current =>
   \E e \in Ents(a), f \in Ents(b) : e.kind = "pub" /\ f.kind = "sub" /\ e.new = an /\ f.new = bn /\ Offered(e, "", run[a], NoN) = Offered(f, "", run[b], NoN)
Wired == Connected("costmap_3d", "costmap", "planner_3d", "costmap") /\ Connected("costmap_3d", "costmap_update", "planner_3d", "costmap_update")
         /\ Connected("planner_3d", "path", "trajectory_tracker", "path") /\ Connected("trajectory_recorder", "path", "trajectory_saver", "path")
\* the level never changes the name of a running node; and nothing starts at a refused level
Stable == [][\A n \in DOMAIN run \cap DOMAIN run' : run'[n] = run[n]]_vars
Refuses == [][Cardinality(DOMAIN run') > Cardinality(DOMAIN run) => Accepted(Eff(level))]_vars
=============================================================================
