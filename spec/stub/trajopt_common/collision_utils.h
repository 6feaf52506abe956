// stand-in for the one declaration that the sources which need no collision library use (the real header needs tesseract)
#ifndef VERIF_STUB_COLLISION_UTILS_H
#define VERIF_STUB_COLLISION_UTILS_H
#include <Eigen/Core>
namespace trajopt_common
{
std::size_t getHash(const void* parent, const Eigen::Ref<const Eigen::VectorXd>& dof_vals);
}
#endif
