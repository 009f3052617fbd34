#pragma once
#include <geometry_msgs/Transform.h>
#include <trajectory_msgs/JointTrajectory.h>
namespace trajectory_msgs {
struct MultiDOFJointTrajectoryPoint {
  std::vector<geometry_msgs::Transform> transforms;
  std::vector<geometry_msgs::Twist> velocities, accelerations;
  ros::Duration time_from_start;
};
struct MultiDOFJointTrajectory {
  std_msgs::Header header;
  std::vector<std::string> joint_names;
  std::vector<MultiDOFJointTrajectoryPoint> points;
};
}
