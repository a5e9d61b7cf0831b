#pragma once
#include "ocp_common.hpp"
#include "solvers/sqp_base.hpp"
#include "solvers/box_admm.hpp"
#include "solvers/qp_preconditioners.hpp"
#include "control/mpc_wrapper.hpp"
// the way users plug an SQP solver into MPC: Hessian update of the transcription
template <typename Problem, typename QP> class MpcSolver : public SQPBase<MpcSolver<Problem, QP>, Problem, QP> {
public:
    using B = SQPBase<MpcSolver<Problem, QP>, Problem, QP>;
    void hessian_update_impl(Eigen::Ref<typename B::nlp_hessian_t> H, const Eigen::Ref<const typename B::nlp_variable_t> &s, const Eigen::Ref<const typename B::nlp_variable_t> &y) noexcept { this->problem.hessian_update_impl(H, s, y); } };
template <typename O> using mpc_qp = boxADMM<O::VAR_SIZE, O::NUM_EQ + O::NUM_INEQ, double, O::MATRIXFMT, linear_solver_traits<O::MATRIXFMT>::template default_solver>;
