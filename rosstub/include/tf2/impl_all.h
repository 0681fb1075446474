#pragma once
#include <tf2_geometry_msgs/tf2_geometry_msgs.h>
