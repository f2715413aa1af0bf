#pragma once
#include <kindr/Core>
#include <geometry_msgs/Transform.h>
namespace kindr_ros {
inline void convertFromRosGeometryMsg(const geometry_msgs::Transform& m, kindr::HomTransformQuatD& t) {
  t.getPosition() = kindr::Position3D(m.translation.x, m.translation.y, m.translation.z);
  t.getRotation() = kindr::RotationQuaternionD(m.rotation.w, m.rotation.x, m.rotation.y, m.rotation.z);
}
}
