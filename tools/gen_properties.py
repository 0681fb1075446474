#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run after editing)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe or [],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                    "hook_needed": None}})

PC = "planner_cspace/"
prop("C01", "Grid search is sound, complete and cost-optimal",
     "For any finite grid, transition-cost function and set of start cells, the grid path search reports success exactly when the goal is reachable from a start, and a returned path begins at a start, ends at the goal and takes only permitted transitions. When cells are expanded one at a time with an admissible, consistent estimate and equal start costs, the total cost of the returned path is the minimum possible. The answer does not depend on searches made earlier with the same object.",
     ["inputs", "histories", "configurations"],
     "all grids (cyclic and non-cyclic axes), cost tables, start sets, expansion batch sizes and thread counts, and sequences of searches on one object",
     "test_grid_astar checks a handful of fixed maps once each; optimality, negative answers and re-use over all small graphs are not sampled",
     [PC + "include/planner_cspace/grid_astar.h", PC + "include/planner_cspace/grid_astar_model.h", PC + "include/planner_cspace/reservable_priority_queue.h"],
     [("best-first expansion with parent links and closed marking", "grid_astar.h: searchImpl/findPath")],
     ["return value and path of the search call"])
prop("C02", "Grid maps store every cell independently",
     "For every map size, a value written to an in-range cell is read back from that cell until that cell is overwritten or covered by a clear or copy, and no write, region clear or region copy changes any cell outside its stated range. Bounds validation accepts exactly the cells inside the map (shrunk by the tolerance on the non-cyclic axes). Copy-assignment yields an equal, independent map and resizing leaves a usable map of exactly the requested size.",
     ["inputs", "histories"],
     "all sizes (also not multiples of the storage block), dimensions used by the planners, and sequences of write, clear, region clear, region copy, resize and assign",
     "the unit tests use a few sizes and one operation at a time; aliasing between cells depends on size and history",
     [PC + "include/planner_cspace/blockmem_gridmap.h"],
     [("block addressing", "blockmem_gridmap.h: block_addr"), ("capacity re-use", "blockmem_gridmap.h: reset")],
     ["element read/write API"])
prop("C03", "Cyclic vector arithmetic is exact modular arithmetic",
     "Reducing a cyclic coordinate by a resolution R yields the unique congruent value in [floor(R/2)-R, floor(R/2)) in the signed form and in [0, R) in the unsigned form, and leaves the non-cyclic coordinates untouched. Addition, subtraction and multiplication are element-wise, equality is element-wise and equal vectors hash equally, conversion from real to grid coordinates rounds to nearest, and the out-of-range test is true exactly when some non-cyclic coordinate is negative or not below its limit. Length uses only the non-cyclic coordinates, and 2D products, point-to-line distances and rotation follow plane geometry.",
     ["inputs"],
     "all coordinate values and resolutions (odd, even, 1), all dimension/cyclic-split instantiations used in the planners",
     "the tests sample a few values; sign and parity boundaries of every axis and resolution are not covered",
     [PC + "include/planner_cspace/cyclic_vec.h"],
     [("cycle, cycleUnsigned, isExceeded, operators", "cyclic_vec.h")], ["public methods of the vector class"])
prop("C04", "Remembered obstacle map is a bounded per-cell evidence filter",
     "Every remembered cell keeps an occupancy belief between the minimum and maximum odds. An observation changes only in-range cells within the sensing range whose observed value is known: an observed obstacle at or beyond the minimum range multiplies the odds by the hit factor, a nearer obstacle leaves them alone, and any other known value multiplies them by the miss factor, independently of other cells. Writing the remembered map out makes every cell of the output the rounded percentage of its belief; nothing else but forgetting changes the output. Clearing forgets everything to the minimum belief.",
     ["inputs", "histories"],
     "all sequences of clear, observe (any robot position, range, costs) and write-out operations on any map size",
     "the tests run one fixed observe/merge scenario; bounds, dirty-region bookkeeping and order over arbitrary histories are not checked",
     [PC + "src/costmap_bbf.cpp", PC + "include/planner_cspace/planner_3d/costmap_bbf.h", PC + "include/planner_cspace/bbf.h"],
     [("binary Bayes update with clamped odds", "bbf.h"), ("dirty rectangle", "costmap_bbf.cpp")], ["merged cost grid, foreach traversal"])
prop("C05", "Joint-space planner never passes through forbidden joint states",
     "For any two-joint cost grid, a transition between joint states is permitted exactly when the target is inside the grid and no state sampled along the shortest way round each joint axis (samples at most one cell apart on each axis, from the departure state up to the last sample before the target) is lethal; its cost is the weighted joint-space length of that way plus the cost weight times the summed cost of the samples over 100. The cost-to-go estimate is the weighted length of the unwrapped difference and never exceeds the cost of a transition that does not wrap. A plan is a chain of permitted transitions from the current to the requested state, found whenever one exists; a current or requested state in collision yields no plan and the arm is told to stay where it is.",
     ["inputs", "configurations"],
     "all cost grids, resolutions, weights, search ranges and pairs of joint states",
     "no test exercises the joint model's cost over the space of grids; the node test checks a single arm configuration",
     [PC + "src/grid_astar_model_2dof_joints.cpp", PC + "include/planner_cspace/planner_2dof_serial_joints/grid_astar_model.h", PC + "src/planner_2dof_serial_joints.cpp"],
     [("swept-line cost", "grid_astar_model_2dof_joints.cpp: cost")], ["transition cost and search path"])
prop("C06", "Cached motions describe the true swept footprint of each motion",
     "For every start heading and every straight or curved motion the planner may take, the set of cells recorded as swept is exactly the set of cells visited by the interpolated motion, excluding the destination, and the recorded length is the path length of that motion in cells. A motion that ends inside the map and starts no nearer to the map edge than the recorded maximum reach sweeps no cell outside the map. Relative motions and turning radii used for classification are the exact rotation of the displacement into the start heading.",
     ["inputs", "configurations"],
     "all headings, displacements within the search range and map resolutions",
     "unit tests check a few displacements at one resolution",
     [PC + "src/motion_cache.cpp", PC + "src/rotation_cache.cpp", PC + "include/planner_cspace/planner_3d/motion_cache.h", PC + "include/planner_cspace/planner_3d/rotation_cache.h"],
     [("per-heading motion pages", "motion_cache.cpp: reset"), ("rotation table", "rotation_cache.cpp: reset")], ["cache lookups"])
prop("C07", "3D planner motions never cross lethal cells",
     "A transition in position-and-heading space is permitted only if neither end nor any cell it sweeps is lethal or outside the map, where an in-place turn sweeps every heading the short way round; its cost is never below its straight-line share of the cost-to-go estimate (with a positive turning weight). Within the local planning range of a start every motion offered is one the robot can make (in-place turn, straight, or constant-radius curve no tighter than the minimum radius); farther away sideways shifts without turning are offered too. A path found by the planner and its interpolated form therefore contain only non-lethal cells and consecutive such motions.",
     ["inputs", "configurations"],
     "all costmaps, headings, pairs of states and cost coefficients",
     "the navigation tests drive a few fixed maps; infeasible or colliding transitions in other maps are not sampled",
     [PC + "src/grid_astar_model_3dof.cpp", PC + "src/motion_primitive_builder.cpp", PC + "include/planner_cspace/planner_3d/grid_astar_model.h"],
     [("cost() classification and swept-cell loop", "grid_astar_model_3dof.cpp")], ["transition cost, search result"])
prop("C08", "Incremental distance map equals a full recomputation",
     "After any sequence of costmap changes (each covered by the region given to the update, start and goal inside the map) and incremental updates of the distance-to-goal map, the distance of every cell that matters to the search from the current start (no farther than the start plus the search, local and long-cut ranges; every cell when the start is unreachable) is the same, up to half a cell, as that of a map computed from scratch for the same goal and costs. The goal has distance zero, distances never cross lethal cells, and unreachable cells are reported as unreachable.",
     ["inputs", "histories"],
     "all small cost grids, goals, starts and sequences of changed regions",
     "the tests replay a few hand-made changes; region and wavefront-order dependence need all short histories",
     [PC + "src/distance_map.cpp", PC + "include/planner_cspace/planner_3d/distance_map.h"],
     [("edge buffer re-seeding and region invalidation", "distance_map.cpp: update/fillCostmap")], ["distance lookups"])
prop("C09", "Each navigation goal gets exactly one outcome and owns the path",
     "Every accepted navigation goal ends in at most one outcome (succeeded, aborted or preempted) and gets it when the planner stops pursuing it; success is reported only after the robot is within the goal tolerances (or when the goal is cleared on request), and while the planner holds no goal every path it publishes is empty. A goal whose orientation is invalid clears the current goal, and cancelling a goal returns the planner to its idle status. Reported status, error code and the published path are mutually consistent.",
     ["histories", "schedules", "inputs"],
     "all interleavings of goals, cancels, map/costmap arrivals, robot poses and planning cycles",
     "integration tests follow a few scripted goals; they need ROS and cannot cover interleavings",
     [PC + "src/planner_3d.cpp"],
     [("goal/preempt/planning callbacks", "planner_3d.cpp: cbGoal, cbPreempt, spin, planPath")],
     ["path, status and action-result outputs"])
prop("C10", "Planner fails safe when its inputs are stale or missing",
     "While the costmap has not been updated within the configured watchdog time, the planner publishes only empty paths and reports the missing data; while the robot pose is unavailable it publishes no non-empty path; after a new map arrives the previously published path is withdrawn before a new one is planned. Planning resumes by itself once the inputs return.",
     ["histories", "fault_sequences"],
     "all arrival patterns of costmap, map and pose and all watchdog settings",
     "the costmap watchdog test runs one timeline",
     [PC + "src/planner_3d.cpp"],
     [("costmap watchdog and map reset", "planner_3d.cpp: planPath, cbMap")], ["path and status outputs"])
prop("C11", "Planner's working costmap is the base map plus the latest updates",
     "After any sequence of base maps and region updates, the planner's working costmap equals the latest base map combined with the latest update within that update's region (maximum or overwrite according to configuration); cells outside the latest update are restored to the base map. Updates exceeding the map in any direction are not applied and affect no cell.",
     ["histories", "inputs"],
     "all sequences of base maps and updates with arbitrary regions, both overlay modes",
     "tests send well-formed updates in one order",
     [PC + "src/planner_3d.cpp", PC + "include/planner_cspace/blockmem_gridmap.h"],
     [("costmap application and restoration", "planner_3d.cpp: applyCostmapUpdate, cbMap")], ["planned paths, hysteresis and debug outputs"])
prop("C12", "Configuration-space inflation is sound for every heading",
     "For every heading, a cell is lethal in the configuration-space costmap whenever the robot footprint (expanded by the configured margin) centred there at that heading covers an obstacle cell, and the cost decays linearly to the configured minimum over the spread distance and is never higher than the nearest obstacle justifies. Obstacles and free cells do not interact except by taking the maximum.",
     ["inputs", "configurations"],
     "all occupancy maps, footprints, headings, margins and resolutions",
     "the costmap tests compare a few hand-computed maps",
     ["costmap_cspace/include/costmap_cspace/costmap_3d_layer/footprint.h", "costmap_cspace/include/costmap_cspace/cspace3_cache.h", "costmap_cspace/include/costmap_cspace/polygon.h"],
     [("per-heading footprint template and max-combination", "footprint.h: generateCSTemplate, generateCostmap")], ["published costmap"])
prop("C13", "Costmap overlays update exactly and leave no residue",
     "After any sequence of base maps and overlay maps on the layers, the resulting costmap equals the one obtained by applying only the latest map of each layer, in layer order with its overlay mode, to the base map: obstacles that vanish from an overlay vanish from the costmap, and unknown overlay cells never erase lower layers.",
     ["histories", "inputs", "configurations"],
     "all sequences of base and overlay maps with arbitrary offsets, layer stacks and overlay modes",
     "tests apply one or two overlays in a fixed stack",
     ["costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h", "costmap_cspace/include/costmap_cspace/costmap_3d_layer/footprint.h", "costmap_cspace/include/costmap_cspace/costmap_3d.h", "costmap_cspace/include/costmap_cspace/costmap_3d_layer/stop_propagation.h", "costmap_cspace/include/costmap_cspace/costmap_3d_layer/unknown_handle.h"],
     [("layer chain with region tracking", "base.h: processMapOverlay, updateChainEntry")], ["costmap and update outputs"])
prop("C14", "The published costmap update stream reconstructs the costmap",
     "A consumer that starts from the last published full costmap, and on every published update takes the base map overwritten by that update, always holds the node's current costmap: every cell that differs from the base map lies inside the latest published region, regions never leave the map and their data match the costmap. Overlays received before the first base map are applied when it arrives.",
     ["histories", "inputs"],
     "all orders of base and overlay messages including early and out-of-map ones",
     "tests check single updates, not the stream",
     ["costmap_cspace/include/costmap_cspace/costmap_3d_layer/output.h", "costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h", "costmap_cspace/src/costmap_3d.cpp"],
     [("update region merge and bit-block transfer", "output.h, base.h: UpdatedRegion")], ["costmap and costmap_update topics"])
prop("C15", "Safety limiter stops the robot when it cannot see",
     "Unless the limiter is explicitly and recently disabled, a zero velocity is output for every command received before the first obstacle data, after the obstacle data are older than the timeout (noticed within one control period), or after the watchdog has expired without a reset, and the watchdog itself outputs zero when it expires. Motion is permitted again only after fresh data (and a watchdog reset) have arrived.",
     ["histories", "fault_sequences", "schedules"],
     "all interleavings of commands, clouds, watchdog resets, disable signals, timers and time",
     "the rostests follow a few timelines in real time",
     ["safety_limiter/src/safety_limiter.cpp"],
     [("cloud timeout, watchdog timer and disable window", "safety_limiter.cpp: cbTwist, cbPredictTimer, cbWatchdogTimer")], ["output velocity and status topics"])
prop("C16", "Safety limiter never speeds up and brakes before obstacles",
     "The output velocity is the commanded velocity scaled by one common factor between zero and one (apart from the absolute speed caps, and except while disabled), so direction and curvature are kept and magnitude never grows. If following the command for the prediction horizon would bring the footprint to an obstacle, the factor allows no more than stopping before it with the configured deceleration, and commands leading away from a contacting obstacle stay possible. After a limitation the factor is not relaxed before the hold time ends.",
     ["inputs", "histories", "configurations"],
     "all commands, obstacle placements, footprints, limits and timings",
     "tests sample a few speeds and one obstacle",
     ["safety_limiter/src/safety_limiter.cpp"],
     [("predictive simulation of the footprint", "safety_limiter.cpp: predict, limit, limitMaxVelocities")], ["output velocity and status topics"])
prop("C17", "Joystick override is exclusive while held and releases safely",
     "While the override button is held and joystick messages are fresh, the velocity output comes only from the joystick and the autonomous command is blocked; otherwise only the autonomous command passes, unchanged. Releasing the button hands back the last autonomous command at once, and a silent joystick loses the override after the timeout. Joystick messages lacking the configured buttons or axes never move the robot.",
     ["histories", "inputs", "schedules"],
     "all interleavings of joystick and velocity messages, timings and button/axis layouts",
     "the rostest covers one timeline per mode",
     ["joystick_interrupt/src/joystick_interrupt.cpp"],
     [("override state with timeout", "joystick_interrupt.cpp: cbJoy, cbTwist")], ["cmd_vel and interrupt_status topics"])
prop("C18", "Joystick multiplexer forwards exactly one source",
     "At every time exactly one of the two inputs is forwarded, unmodified and in order: the alternate input while the button is held in a fresh joystick message, and the default input initially, after release and after joystick silence longer than the timeout.",
     ["histories", "schedules"],
     "all interleavings of both inputs, joystick messages, timer ticks and times",
     "the rostest covers one timeline",
     ["joystick_interrupt/src/joystick_mux.cpp"],
     [("selector with timeout timer", "joystick_mux.cpp: cbJoy, cbTimer, cbTopic")], ["mux output topic"])
prop("C19", "Trajectory tracker commands stop whenever it should not drive",
     "The tracker outputs zero velocity when there is no path, the path is empty or invalid, the robot is farther from the path than the stop distance while following it, odometry has timed out, or the node shuts down, and reports the matching status. Reaching the goal within the tolerances ends in a zero command and the goal status, which is reported only within the tolerances and only for the current path.",
     ["histories", "inputs", "fault_sequences"],
     "all sequences of paths, poses, odometry and timer ticks, including losses",
     "rostests run a few simulated drives",
     ["trajectory_tracker/src/trajectory_tracker.cpp"],
     [("status machine in control()", "trajectory_tracker.cpp: control, cbTimer, cbOdometry, cbOdomTimeout")], ["cmd_vel and status topics"])
prop("C20", "Commanded speed and acceleration never exceed the limits",
     "Except for the full stops required elsewhere (no path, too far, odometry timeout, within the stop tolerance), every velocity command changes from the previous one by no more than the acceleration limit times the control period and, after any limit change, never exceeds the current speed limit by more than that same step rule allows; clipping never changes sign and never increases magnitude. Angle normalisation always yields an equivalent angle within half a turn.",
     ["inputs", "histories", "configurations"],
     "all sequences of requested velocities, limits and periods",
     "tests check a few single steps",
     ["trajectory_tracker/include/trajectory_tracker/basic_control.h", "trajectory_tracker/src/trajectory_tracker.cpp"],
     [("velocity/acceleration limiter", "basic_control.h: VelAccLimitter, clip, angleNormalized")], ["limiter outputs, cmd_vel"])
prop("C21", "Path following progresses monotonically through the path",
     "Local goals split a path exactly at its direction reversals and in-place turns; the nearest-point search returns the true nearest segment in the given range, and the remaining distance and estimated arrival times are consistent with the geometry. The reported progress along a path never moves backward past a reversal point already reached, until a new path is received.",
     ["inputs", "histories"],
     "all poly-line paths, query positions and drive histories",
     "tests check a few fixed paths",
     ["trajectory_tracker/include/trajectory_tracker/path2d.h", "trajectory_tracker/include/trajectory_tracker/eigen_line.h", "trajectory_tracker/src/trajectory_tracker.cpp"],
     [("findLocalGoal, findNearest, remainedDistance", "path2d.h"), ("path progress counter", "trajectory_tracker.cpp")], ["path utility results, status topic"])
prop("C22", "Odometry estimation integrates only synchronised valid data",
     "Odometry is published only after both wheel odometry and (when required) an IMU sample with a valid transform have been received, its pose is the integration of the body velocities rotated by the current attitude, and the height is reset or filtered exactly as configured. With slip estimation on, filter gains stay in range and the covariance never grows by a measurement.",
     ["histories", "inputs"],
     "all interleavings of odometry, IMU, reset and TF availability",
     "tests check a few motions",
     ["track_odometry/src/track_odometry.cpp", "track_odometry/include/track_odometry/kalman_filter1.h"],
     [("callbacks and integration", "track_odometry.cpp")], ["odom topic and transform"])
prop("C23", "Published floor map is always the selected floor's map",
     "For every sequence of map arrays and floor selections, the map last published and the height last broadcast are those of the selected floor in the latest map array; an out-of-range selection publishes nothing and keeps the previous output.",
     ["histories"],
     "all interleavings of map arrays and floor selections",
     "the rostest selects a few floors of one array",
     ["map_organizer/src/select_map.cpp"],
     [("floor change detection", "select_map.cpp: main loop")], ["map topic, transform"])
prop("C24", "Accumulated obstacle clouds never outlive their hold time",
     "After each added cloud, the accumulator holds, in arrival order, the new cloud and only clouds whose age relative to it does not exceed the hold time; every cloud that young is retained. Resetting or clearing empties it. Local obstacle maps built from it mark exactly the cells hit by retained points within the height range.",
     ["histories", "inputs"],
     "all sequences of cloud stamps and hold times",
     "no unit test covers irregular arrival",
     ["costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h", "costmap_cspace/src/pointcloud2_to_map.cpp", "costmap_cspace/src/laserscan_to_map.cpp"],
     [("expiry on push", "pointcloud_accumulator.h: push")], ["iteration over the accumulator, map topic"])
prop("C25", "Topic compatibility mode selects exactly one name everywhere",
     "At the legacy compatibility level every renamed topic and service is offered under its old name only, at the current level under its new name only, and any other level is refused; all nodes obey the same global setting.",
     ["configurations"],
     "all compatibility levels and renamed topics",
     "tests check a single advertise/subscribe pair",
     ["neonavigation_common/include/neonavigation_common/compatibility.h"],
     [("checkCompatMode, getSimplifiedNamespace, advertise, subscribe", "compatibility.h")], ["advertised names"])
prop("C26", "Recorded paths follow the robot and are stored and reloaded exactly",
     "The recorder's path starts at the first pose seen after start or clear and gains a pose exactly when the robot has moved farther than the recording interval from the last recorded one. A path saved to a file and loaded by the server is published with the same poses (smoothed only if configured), and loading a missing file reports failure and leaves no path. Deleting or adding a marker changes exactly that pose.",
     ["histories", "inputs"],
     "all pose sequences, clears, saved paths and edit sequences",
     "rostests record one straight drive",
     ["trajectory_tracker/src/trajectory_recorder.cpp", "trajectory_tracker/src/trajectory_server.cpp", "trajectory_tracker/src/trajectory_saver.cpp"],
     [("distance-gated recording", "trajectory_recorder.cpp: spin"), ("file (de)serialisation", "trajectory_server.cpp: change")], ["path topics, services"])
prop("C27", "Signal filters keep steady values and reset exactly",
     "A low-pass filter (bilinear first-order lag; time constant at least half a sample) started or reset at a value keeps it for constant input, its output always lies between the extremes of the inputs and reset values seen, and it converges monotonically to a constant input; in angle mode each input is first unwrapped to within half a turn of the output. The high-pass output depends only on changes of the input and decays geometrically. A scalar Kalman measurement moves the estimate towards the measurement by the gain s^2/(s^2+r^2) and multiplies the deviation s by one minus that gain, an uninformative measurement changes nothing, an exact one is adopted, and the first measurement initialises an unknown state; prediction adds its increments. The running average equals the arithmetic mean of all samples (zero before the first).",
     ["inputs", "histories"],
     "all input sequences, time constants and variances",
     "tests check step responses for one constant",
     ["trajectory_tracker/include/trajectory_tracker/filter.h", "trajectory_tracker/include/trajectory_tracker/average.h", "track_odometry/include/track_odometry/kalman_filter1.h"],
     [("filter recurrences", "filter.h, average.h, kalman_filter1.h")], ["filter outputs"])
prop("C28", "Replanning start is predicted on the previous path or refused",
     "The predicted planning start is a pose of the previous path ahead of the robot, lying on a planning-grid centre unless it is the path end, reached after the prediction time (or the next reversal point within its horizon), and the preserved path leads from the robot to it without entering a lethal cell. If the robot is farther from the previous path than the stop distance, or the preserved part collides, no prediction is made and nothing is preserved.",
     ["inputs", "histories"],
     "all previous paths, robot poses, costmaps and prediction settings",
     "unit tests use two fixed paths",
     [PC + "src/start_pose_predictor.cpp", PC + "include/planner_cspace/planner_3d/start_pose_predictor.h"],
     [("removeAlreadyPassed, getSwitchBack, getExpectedPose, buildResults", "start_pose_predictor.cpp")], ["predictor results"])
prop("C29", "Patrol visits the requested poses in order, once each",
     "For every sequence of received patrol paths and action outcomes, goals are sent in path order, each at most once, the next one only after the previous one succeeded or aborted; a new path cancels the goals of the old one and restarts from its first pose; after the last goal nothing is sent until a new path arrives.",
     ["histories", "schedules"],
     "all interleavings of path messages and goal outcomes",
     "no test covers aborts or path replacement",
     [PC + "src/patrol.cpp"],
     [("position counter and action state polling", "patrol.cpp: spin, sendNextGoal, cbPath")], ["sent goals and cancels"])
prop("C30", "Simulated local map is the exact window of the large map",
     "The local map published around the robot equals the corresponding window of the large map, with unknown outside the large map; round clipping, surrounding walls and occlusion change exactly the cells they describe, and the window origin stays aligned with the large map's cells.",
     ["inputs", "configurations"],
     "all large maps, robot positions, window widths and simulation options",
     "no unit test covers it",
     ["costmap_cspace/src/largemap_to_map.cpp"],
     [("window copy and occlusion table", "largemap_to_map.cpp: publishMap")], ["map topic"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
