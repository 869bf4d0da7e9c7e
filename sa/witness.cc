// Instantiates the library's templates for analysis. Never compiled into a program; the functors have no bodies.
#include <array>
#include <vector>

#include "mini_opt/nonlinear.hpp"
#include "mini_opt/qp.hpp"
#include "mini_opt/residual.hpp"

namespace mo_witness {
struct Fixed {
  Eigen::Matrix<double, 2, 1> operator()(const Eigen::Matrix<double, 3, 1>&, Eigen::Matrix<double, 2, 3>*) const;
};
struct Dyn {
  Eigen::Matrix<double, 2, 1> operator()(const Eigen::VectorXd&, Eigen::Matrix<double, 2, Eigen::Dynamic>*) const;
};
struct Callback {
  bool operator()(const mini_opt::NLSIteration&) const;
};
mini_opt::Residual fixed_array(const std::array<int, 3>& index, Fixed f) {
  return mini_opt::MakeResidual<2, 3>(index, f);
}
mini_opt::Residual fixed_list(int a, int b, int c, Fixed f) {
  return mini_opt::MakeResidual<2, 3>({a, b, c}, f);
}
mini_opt::Residual dyn_vector(const std::vector<int>& index, Dyn f) {
  return mini_opt::MakeResidual<2, Eigen::Dynamic>(index, f);
}
mini_opt::Residual dyn_list(int a, int b, Dyn f) { return mini_opt::MakeResidual<2, Eigen::Dynamic>({a, b}, f); }
void make_solver(const mini_opt::QP* p) { mini_opt::QPInteriorPointSolver s(p); }
mini_opt::LinearInequalityConstraint var_le(int i, double v) { return mini_opt::Var(i) <= v; }
mini_opt::LinearInequalityConstraint var_ge(int i, double v) { return mini_opt::Var(i) >= v; }
void set_callback(mini_opt::ConstrainedNonlinearLeastSquares& s, Callback c) { s.SetUserExitCallback(c); }
}  // namespace mo_witness
