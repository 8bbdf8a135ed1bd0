PROPERTY="C21"
EDITS=[("lib/core/include/scipp/core/spatial_transforms.h","    return Quaternion(m_quat.inverse());","    const auto n = m_quat.norm();\n    return Quaternion(\n        Eigen::Quaterniond(m_quat.conjugate().coeffs() / n));")]
NEEDS="a rotation quaternion that is not normalised"
BREAKS="the inverse of an unnormalised rotation is off by its norm"
DEMO=r'''
#include "scipp/core/spatial_transforms.h"
#include <cmath>
int main() {
  scipp::core::Quaternion q(Eigen::Quaterniond(1.0, 2.0, -0.5, 0.25));
  const auto id = q * q.inverse();
  return !(std::abs(id.quat().w() - 1.0) < 1e-12 && std::abs(id.quat().x()) < 1e-12);
}
'''
