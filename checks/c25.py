"""C25: every renamed topic and service under exactly one name, for every node."""
import concurrent.futures
import vlib
NOTE = ("The table of renamed topics and services and the level rule are a TLA+ model (exhaustive over starts, stops and level changes); 19 unmodified nodes run at every "
        "level, namespace and legacy-name parameter, and the names they use are checked against the model. obj_to_pointcloud needs PCL's reader and is not built here.")
NODES = {"costmap_3d": "costmap_cspace", "laserscan_to_map": "costmap_cspace", "pointcloud2_to_map": "costmap_cspace", "largemap_to_map": "costmap_cspace",
         "planner_3d": "planner_cspace", "patrol": "planner_cspace", "planner_2dof_serial_joints": "planner_cspace", "dummy_robot": "planner_cspace",
         "joystick_interrupt": "joystick_interrupt", "joystick_mux": "joystick_interrupt", "pointcloud_to_maps": "map_organizer", "pose_transform": "map_organizer",
         "select_map": "map_organizer", "safety_limiter": "safety_limiter", "track_odometry": "track_odometry", "trajectory_recorder": "trajectory_tracker",
         "trajectory_saver": "trajectory_tracker", "trajectory_server": "trajectory_tracker", "trajectory_tracker": "trajectory_tracker"}
CFG = {"planner_3d": "planner_cspace/cfg/Planner3D.cfg", "safety_limiter": "safety_limiter/cfg/SafetyLimiter.cfg", "trajectory_tracker": "trajectory_tracker/cfg/TrajectoryTracker.cfg"}
GIVEN = {"trajectory_recorder": ["path=a/b"], "trajectory_saver": ["path=rec"], "trajectory_server": ["path=mypath"], "trajectory_tracker": ["path=p", "cmd_vel=vel_out"]}
P3 = ("motion_cache.cpp", "rotation_cache.cpp", "motion_primitive_builder.cpp", "grid_astar_model_3dof.cpp", "distance_map.cpp", "costmap_bbf.cpp", "start_pose_predictor.cpp")
EXTRA = {"costmap_3d": ['param /costmap_3d/footprint [[0.2, -0.1], [0.2, 0.1], [-0.2, 0.1], [-0.2, -0.1]]'], "safety_limiter": ['param /safety_limiter/footprint [[0.2, -0.1], [0.2, 0.1], [-0.2, 0.1], [-0.2, -0.1]]']}


def build(c, n):
    src = "%s/src/%s.cpp" % (NODES[n], n)
    d = ['NODE_SRC2="%s/costmap_cspace/src/costmap_3d_layers.cpp"' % vlib.REPO] if n == "costmap_3d" else []
    extra = ["planner_cspace/src/" + f for f in P3] if n == "planner_3d" else []
    if n == "planner_2dof_serial_joints":
        extra = ["planner_cspace/src/grid_astar_model_2dof_joints.cpp"]
    return c.node(n, "names_driver.cpp", src, cfg=[CFG[n]] if n in CFG else [], defines=d, extra=extra, opt="-O0")


def script(n, level, ns, given):
    ls = ["begin %s %s%s" % (n, level, "".join(" " + g for g in given))]
    if ns:
        ls.append("ns " + ns)
    ls += [x.replace(" /" + n, " " + ns + "/" + n) for x in EXTRA.get(n, [])]
    ls += ["start", "wait 0.5", "say", "wait 0.5", "names", "wait 0.3", "names"]
    return ls


def run(c):
    c.mc("Compat", "SPECIFICATION MSpec\nINVARIANTS Running OneName Distinct Wired\nPROPERTIES Stable Refuses\n", {"MLevels": "{-1, 0, 1, 2}"}, min_states=100)
    with concurrent.futures.ThreadPoolExecutor(5) as ex:
        exes = dict(zip(NODES, ex.map(lambda n: build(c, n), NODES)))
    for n in NODES:
        ls = []
        for level in ["none", -1, 0, 1, 2] + c.pick([], [-2147483648, -2, 3, 100, 2147483647]):
            for ns in ["", "/robot"] + c.pick([], ["/a"]):
                for given in [[]] + ([GIVEN[n]] if n in GIVEN else []) + ([GIVEN[n][:1]] if len(GIVEN.get(n, [])) > 1 else []):
                    ls += script(n, level, ns, given)
        c.run_scripts(exes[n], [ls], "CompatTrace", {"MLevels": "{}"}, name=n)
