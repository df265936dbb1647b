#pragma once
#include <geometry_msgs/PointStamped.h>
