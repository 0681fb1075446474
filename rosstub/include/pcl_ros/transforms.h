#pragma once
#include <pcl/all.h>
