#!/usr/bin/env python3
"""Generates the C++ message headers of the deterministic ROS stand-in from the compact definitions below.
Usage: gen_msgs.py [outdir]   (default: include/ beside this file). The output is committed."""
import os, sys
M = {}
def msg(name, body=""):
    consts, fields = [], []
    for line in body.strip().splitlines():
        line = line.split("#")[0].strip()
        if not line:
            continue
        t, rest = line.split(None, 1)
        if "=" in rest:
            n, v = [x.strip() for x in rest.split("=", 1)]
            consts.append((t, n, v))
        else:
            fields.append((t, rest.strip()))
    M[name] = (consts, fields)
SRV = {}
def srv(name, req="", res=""):
    msg(name + "Request", req); msg(name + "Response", res)
    SRV[name] = 1
ACT = {}
def action(name, goal, result, feedback):
    pkg = name.split("/")[0]; base = name.split("/")[1]
    msg(name + "Goal", goal); msg(name + "Result", result); msg(name + "Feedback", feedback)
    msg(name + "ActionGoal", "std_msgs/Header header\nactionlib_msgs/GoalID goal_id\n%s/%sGoal goal" % (pkg, base))
    msg(name + "ActionResult", "std_msgs/Header header\nactionlib_msgs/GoalStatus status\n%s/%sResult result" % (pkg, base))
    msg(name + "ActionFeedback", "std_msgs/Header header\nactionlib_msgs/GoalStatus status\n%s/%sFeedback feedback" % (pkg, base))
    msg(name + "Action", "%s/%sActionGoal action_goal\n%s/%sActionResult action_result\n%s/%sActionFeedback action_feedback" % (pkg, base, pkg, base, pkg, base))

msg("std_msgs/Header", "uint32 seq\ntime stamp\nstring frame_id")
msg("std_msgs/Empty")
for t in ("Bool:bool", "Int32:int32", "Float32:float32", "Float64:float64", "String:string"):
    n, ty = t.split(":"); msg("std_msgs/" + n, ty + " data")
msg("std_msgs/ColorRGBA", "float32 r\nfloat32 g\nfloat32 b\nfloat32 a")
msg("actionlib_msgs/GoalID", "time stamp\nstring id")
msg("actionlib_msgs/GoalStatus", "uint8 PENDING=0\nuint8 ACTIVE=1\nuint8 PREEMPTED=2\nuint8 SUCCEEDED=3\nuint8 ABORTED=4\nuint8 REJECTED=5\nuint8 PREEMPTING=6\nuint8 RECALLING=7\nuint8 RECALLED=8\nuint8 LOST=9\nactionlib_msgs/GoalID goal_id\nuint8 status\nstring text")
msg("geometry_msgs/Point", "float64 x\nfloat64 y\nfloat64 z")
msg("geometry_msgs/Point32", "float32 x\nfloat32 y\nfloat32 z")
msg("geometry_msgs/Vector3", "float64 x\nfloat64 y\nfloat64 z")
msg("geometry_msgs/Quaternion", "float64 x\nfloat64 y\nfloat64 z\nfloat64 w")
msg("geometry_msgs/Pose", "geometry_msgs/Point position\ngeometry_msgs/Quaternion orientation")
msg("geometry_msgs/Twist", "geometry_msgs/Vector3 linear\ngeometry_msgs/Vector3 angular")
msg("geometry_msgs/Transform", "geometry_msgs/Vector3 translation\ngeometry_msgs/Quaternion rotation")
msg("geometry_msgs/Polygon", "geometry_msgs/Point32[] points")
for n, ty in (("Pose", "pose"), ("Twist", "twist"), ("Polygon", "polygon"), ("Point", "point"), ("Vector3", "vector"), ("Quaternion", "quaternion")):
    msg("geometry_msgs/%sStamped" % n, "std_msgs/Header header\ngeometry_msgs/%s %s" % (n, ty))
msg("geometry_msgs/TransformStamped", "std_msgs/Header header\nstring child_frame_id\ngeometry_msgs/Transform transform")
msg("geometry_msgs/PoseArray", "std_msgs/Header header\ngeometry_msgs/Pose[] poses")
msg("geometry_msgs/PoseWithCovariance", "geometry_msgs/Pose pose\nfloat64[36] covariance")
msg("geometry_msgs/TwistWithCovariance", "geometry_msgs/Twist twist\nfloat64[36] covariance")
msg("geometry_msgs/PoseWithCovarianceStamped", "std_msgs/Header header\ngeometry_msgs/PoseWithCovariance pose")
msg("nav_msgs/Odometry", "std_msgs/Header header\nstring child_frame_id\ngeometry_msgs/PoseWithCovariance pose\ngeometry_msgs/TwistWithCovariance twist")
msg("nav_msgs/Path", "std_msgs/Header header\ngeometry_msgs/PoseStamped[] poses")
msg("nav_msgs/MapMetaData", "time map_load_time\nfloat32 resolution\nuint32 width\nuint32 height\ngeometry_msgs/Pose origin")
msg("nav_msgs/OccupancyGrid", "std_msgs/Header header\nnav_msgs/MapMetaData info\nint8[] data")
srv("nav_msgs/GetPlan", "geometry_msgs/PoseStamped start\ngeometry_msgs/PoseStamped goal\nfloat32 tolerance", "nav_msgs/Path plan")
srv("nav_msgs/GetMap", "", "nav_msgs/OccupancyGrid map")
msg("sensor_msgs/PointField", "uint8 INT8=1\nuint8 UINT8=2\nuint8 INT16=3\nuint8 UINT16=4\nuint8 INT32=5\nuint8 UINT32=6\nuint8 FLOAT32=7\nuint8 FLOAT64=8\nstring name\nuint32 offset\nuint8 datatype\nuint32 count")
msg("sensor_msgs/PointCloud2", "std_msgs/Header header\nuint32 height\nuint32 width\nsensor_msgs/PointField[] fields\nbool is_bigendian\nuint32 point_step\nuint32 row_step\nuint8[] data\nbool is_dense")
msg("sensor_msgs/ChannelFloat32", "string name\nfloat32[] values")
msg("sensor_msgs/PointCloud", "std_msgs/Header header\ngeometry_msgs/Point32[] points\nsensor_msgs/ChannelFloat32[] channels")
msg("sensor_msgs/LaserScan", "std_msgs/Header header\nfloat32 angle_min\nfloat32 angle_max\nfloat32 angle_increment\nfloat32 time_increment\nfloat32 scan_time\nfloat32 range_min\nfloat32 range_max\nfloat32[] ranges\nfloat32[] intensities")
msg("sensor_msgs/JointState", "std_msgs/Header header\nstring[] name\nfloat64[] position\nfloat64[] velocity\nfloat64[] effort")
msg("sensor_msgs/Imu", "std_msgs/Header header\ngeometry_msgs/Quaternion orientation\nfloat64[9] orientation_covariance\ngeometry_msgs/Vector3 angular_velocity\nfloat64[9] angular_velocity_covariance\ngeometry_msgs/Vector3 linear_acceleration\nfloat64[9] linear_acceleration_covariance")
msg("sensor_msgs/Joy", "std_msgs/Header header\nfloat32[] axes\nint32[] buttons")
msg("trajectory_msgs/JointTrajectoryPoint", "float64[] positions\nfloat64[] velocities\nfloat64[] accelerations\nfloat64[] effort\nduration time_from_start")
msg("trajectory_msgs/JointTrajectory", "std_msgs/Header header\nstring[] joint_names\ntrajectory_msgs/JointTrajectoryPoint[] points")
srv("std_srvs/Empty")
msg("diagnostic_msgs/KeyValue", "string key\nstring value")
msg("diagnostic_msgs/DiagnosticStatus", "uint8 OK=0\nuint8 WARN=1\nuint8 ERROR=2\nuint8 STALE=3\nint8 level\nstring name\nstring message\nstring hardware_id\ndiagnostic_msgs/KeyValue[] values")
msg("diagnostic_msgs/DiagnosticArray", "std_msgs/Header header\ndiagnostic_msgs/DiagnosticStatus[] status")
msg("visualization_msgs/Marker", "uint8 ARROW=0\nuint8 CUBE=1\nuint8 SPHERE=2\nuint8 CYLINDER=3\nuint8 LINE_STRIP=4\nuint8 LINE_LIST=5\nuint8 CUBE_LIST=6\nuint8 SPHERE_LIST=7\nuint8 POINTS=8\nuint8 TEXT_VIEW_FACING=9\nuint8 ADD=0\nuint8 MODIFY=0\nuint8 DELETE=2\nstd_msgs/Header header\nstring ns\nint32 id\nint32 type\nint32 action\ngeometry_msgs/Pose pose\ngeometry_msgs/Vector3 scale\nstd_msgs/ColorRGBA color\nduration lifetime\nbool frame_locked\ngeometry_msgs/Point[] points\nstd_msgs/ColorRGBA[] colors\nstring text")
msg("visualization_msgs/MarkerArray", "visualization_msgs/Marker[] markers")
msg("visualization_msgs/MenuEntry", "uint8 FEEDBACK=0\nuint32 id\nuint32 parent_id\nstring title\nstring command\nuint8 command_type")
msg("visualization_msgs/InteractiveMarkerControl", "uint8 INHERIT=0\nuint8 FIXED=1\nuint8 VIEW_FACING=2\nuint8 NONE=0\nuint8 MENU=1\nuint8 BUTTON=2\nuint8 MOVE_AXIS=3\nuint8 MOVE_PLANE=4\nuint8 ROTATE_AXIS=5\nuint8 MOVE_ROTATE=6\nuint8 MOVE_3D=7\nuint8 ROTATE_3D=8\nuint8 MOVE_ROTATE_3D=9\nstring name\ngeometry_msgs/Quaternion orientation\nuint8 orientation_mode\nuint8 interaction_mode\nbool always_visible\nvisualization_msgs/Marker[] markers\nbool independent_marker_orientation\nstring description")
msg("visualization_msgs/InteractiveMarker", "std_msgs/Header header\ngeometry_msgs/Pose pose\nstring name\nstring description\nfloat32 scale\nvisualization_msgs/MenuEntry[] menu_entries\nvisualization_msgs/InteractiveMarkerControl[] controls")
msg("visualization_msgs/InteractiveMarkerPose", "std_msgs/Header header\ngeometry_msgs/Pose pose\nstring name")
msg("visualization_msgs/InteractiveMarkerUpdate", "uint8 KEEP_ALIVE=0\nuint8 UPDATE=1\nstring server_id\nuint64 seq_num\nuint8 type\nvisualization_msgs/InteractiveMarker[] markers\nvisualization_msgs/InteractiveMarkerPose[] poses\nstring[] erases")
msg("visualization_msgs/InteractiveMarkerFeedback", "uint8 KEEP_ALIVE=0\nuint8 POSE_UPDATE=1\nuint8 MENU_SELECT=2\nuint8 BUTTON_CLICK=3\nuint8 MOUSE_DOWN=4\nuint8 MOUSE_UP=5\nstd_msgs/Header header\nstring client_id\nstring marker_name\nstring control_name\nuint8 event_type\ngeometry_msgs/Pose pose\nuint32 menu_entry_id\ngeometry_msgs/Point mouse_point\nbool mouse_point_valid")
action("move_base_msgs/MoveBase", "geometry_msgs/PoseStamped target_pose", "", "geometry_msgs/PoseStamped base_position")
action("planner_cspace_msgs/MoveWithTolerance", "geometry_msgs/PoseStamped target_pose\nbool continuous_movement_mode\nfloat32 goal_tolerance_lin\nfloat32 goal_tolerance_ang\nfloat32 goal_tolerance_ang_finish", "", "geometry_msgs/PoseStamped base_position")
msg("planner_cspace_msgs/PlannerStatus", "uint8 DONE=0\nuint8 DOING=1\nuint8 FINISHING=2\nuint8 GOING_WELL=0\nuint8 IN_ROCK=1\nuint8 PATH_NOT_FOUND=2\nuint8 INTERNAL_ERROR=3\nuint8 DATA_MISSING=4\nstd_msgs/Header header\nuint8 status\nuint8 error")
msg("costmap_cspace_msgs/MapMetaData3D", "time map_load_time\nfloat32 linear_resolution\nfloat32 angular_resolution\nuint32 width\nuint32 height\nuint32 angle\ngeometry_msgs/Pose origin")
msg("costmap_cspace_msgs/CSpace3D", "std_msgs/Header header\ncostmap_cspace_msgs/MapMetaData3D info\nint8[] data")
msg("costmap_cspace_msgs/CSpace3DUpdate", "std_msgs/Header header\nuint32 x\nuint32 y\nuint32 yaw\nuint32 width\nuint32 height\nuint32 angle\nint8[] data")
msg("trajectory_tracker_msgs/PoseStampedWithVelocity", "std_msgs/Header header\ngeometry_msgs/Pose pose\ngeometry_msgs/Vector3 linear_velocity")
msg("trajectory_tracker_msgs/PathWithVelocity", "std_msgs/Header header\ntrajectory_tracker_msgs/PoseStampedWithVelocity[] poses")
msg("trajectory_tracker_msgs/TrajectoryTrackerStatus", "uint8 NO_PATH=0\nuint8 FOLLOWING=1\nuint8 GOAL=2\nuint8 FAR_FROM_PATH=3\nstd_msgs/Header header\nfloat32 distance_remains\nfloat32 angle_remains\nuint8 status\nstd_msgs/Header path_header")
msg("trajectory_tracker_msgs/TrajectoryServerStatus", "std_msgs/Header header\nstring filename\nint32 id")
srv("trajectory_tracker_msgs/ChangePath", "string filename\nint32 id", "bool success")
msg("map_organizer_msgs/OccupancyGridArray", "nav_msgs/OccupancyGrid[] maps")
msg("safety_limiter_msgs/SafetyLimiterStatus", "std_msgs/Header header\nfloat32 limit_ratio\nbool is_cloud_available\nbool has_watchdog_timed_out\ntime stuck_started_since")
msg("neonavigation_metrics_msgs/Metric", "string name\nfloat64 value\nstring unit\nstring[] tags")
msg("neonavigation_metrics_msgs/Metrics", "std_msgs/Header header\nneonavigation_metrics_msgs/Metric[] data")

CT = {"bool": "uint8_t", "int8": "int8_t", "uint8": "uint8_t", "int16": "int16_t", "uint16": "uint16_t", "int32": "int32_t", "uint32": "uint32_t",
      "int64": "int64_t", "uint64": "uint64_t", "float32": "float", "float64": "double", "string": "std::string", "time": "ros::Time", "duration": "ros::Duration"}
def ctype(t):
    arr = None
    if t.endswith("]"):
        t, a = t[:-1].split("["); arr = a
    c = CT.get(t) or t.replace("/", "::")
    if arr is None: return c
    if arr == "": return "std::vector<%s>" % c
    return "boost::array<%s, %s>" % (c, arr)
def main(out):
    for name, (consts, fields) in M.items():
        pkg, base = name.split("/")
        deps = sorted({t.split("[")[0] for t, _ in fields if "/" in t})
        os.makedirs(os.path.join(out, pkg), exist_ok=True)
        L = ["// generated by gen_msgs.py", "#pragma once", "#include <ros/msg_base.h>"]
        L += ["#include <%s.h>" % d for d in deps]
        L += ["namespace %s" % pkg, "{", "struct %s" % base, "{"]
        if consts:
            L.append("  enum { %s };" % ", ".join("%s = %s" % (n, v) for _, n, v in consts))
        init = [n for t, n in fields if not t.endswith("]") and "/" not in t and t not in ("string", "time", "duration")]
        for t, n in fields:
            L.append("  %s %s%s;" % (ctype(t), n, "{}" if (n in init or (t.endswith("]") and not t.endswith("[]"))) else ""))
        L.append("  typedef boost::shared_ptr<%s> Ptr;" % base)
        L.append("  typedef boost::shared_ptr<const %s> ConstPtr;" % base)
        if any(n == "header" for _, n in fields) : L.append("  enum { ROS_HAS_HEADER = 1 };")
        L.append("  template <class S> void visit(S& s) { %s }" % " ".join("s.f(\"%s\", %s);" % (n, n) for _, n in fields))
        L.append("  static const char* rosDataType() { return \"%s\"; }" % name)
        if base.endswith("Action") and base + "Goal" in [k.split("/")[1] for k in M if k.startswith(pkg + "/")]:
            b = base[:-6]
            L.append("  typedef %s Goal_; typedef %s Result_; typedef %s Feedback_;" % (b + "Goal", b + "Result", b + "Feedback"))
        L.append("};")
        L.append("typedef %s::Ptr %sPtr; typedef %s::ConstPtr %sConstPtr;" % (base, base, base, base))
        for const in (1,):
            L.append("inline bool operator==(const %s& a, const %s& b) { return %s; }" % (base, base, " && ".join("a.%s == b.%s" % (n, n) for _, n in fields) or "true"))
            L.append("inline bool operator!=(const %s& a, const %s& b) { return !(a == b); }" % (base, base))
        L += ["}  // namespace", ""]
        open(os.path.join(out, pkg, base + ".h"), "w").write("\n".join(L))
    for name in SRV:
        pkg, base = name.split("/")
        open(os.path.join(out, pkg, base + ".h"), "w").write("""// generated by gen_msgs.py
#pragma once
#include <%s/%sRequest.h>
#include <%s/%sResponse.h>
namespace %s
{
struct %s
{
  typedef %sRequest Request; typedef %sResponse Response;
  typedef %sRequest RequestType; typedef %sResponse ResponseType;
  Request request; Response response;
};
}  // namespace
""" % (pkg, base, pkg, base, pkg, base, base, base, base, base))
main(sys.argv[1] if len(sys.argv) > 1 else os.path.join(os.path.dirname(os.path.abspath(__file__)), "include"))
