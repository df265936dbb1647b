// Stand-ins for the ROS 1 messages that ros_conversions and ros_helpers use:
// plain structures with the fields of the real ones.
#pragma once
#include <string>
#include <ros/time.h>
namespace std_msgs { struct Header { uint32_t seq = 0; ros::Time stamp; std::string frame_id; }; }
namespace geometry_msgs
{
struct Point { double x = 0, y = 0, z = 0; };
struct Vector3 { double x = 0, y = 0, z = 0; };
struct Quaternion { double x = 0, y = 0, z = 0, w = 0; };
struct Pose { Point position; Quaternion orientation; };
struct Transform { Vector3 translation; Quaternion rotation; };
struct PointStamped { std_msgs::Header header; Point point; };
struct PoseStamped { std_msgs::Header header; Pose pose; };
struct TransformStamped { std_msgs::Header header; std::string child_frame_id; Transform transform; };
}
