#pragma once
#include <geometry_msgs/Transform.h>
#include <kindr/Core>
namespace kindr_ros {
inline void convertFromRosGeometryMsg(const geometry_msgs::Vector3& m, kindr::Position3D& p) { p = kindr::Position3D(m.x, m.y, m.z); }
inline void convertFromRosGeometryMsg(const geometry_msgs::Quaternion& m, kindr::RotationQuaternionD& q) { q = kindr::RotationQuaternionD(m.w, m.x, m.y, m.z); }
inline void convertFromRosGeometryMsg(const geometry_msgs::Transform& m, kindr::HomTransformQuatD& t) {
  convertFromRosGeometryMsg(m.translation, t.getPosition());
  convertFromRosGeometryMsg(m.rotation, t.getRotation());
}
}
