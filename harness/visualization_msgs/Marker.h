#pragma once
#include <vector>
#include <geometry_msgs/PointStamped.h>
namespace visualization_msgs { struct Marker { std_msgs::Header header; int32_t id = 0; }; struct MarkerArray { std::vector<Marker> markers; }; }
