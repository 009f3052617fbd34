#pragma once
#include <ros/ros.h>
#include <string>
#include <vector>
namespace std_msgs {
struct Header {
  uint32_t seq = 0;
  ros::Time stamp;
  std::string frame_id;
};
}
namespace trajectory_msgs {
struct JointTrajectoryPoint {
  std::vector<double> positions, velocities, accelerations, effort;
  ros::Duration time_from_start;
};
struct JointTrajectory {
  std_msgs::Header header;
  std::vector<std::string> joint_names;
  std::vector<JointTrajectoryPoint> points;
};
}
