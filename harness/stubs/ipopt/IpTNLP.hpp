// Stand-in for the part of the Ipopt (>= 3.14) C++ interface that the adapter uses; the signatures and call protocol are those of the published API.
#pragma once
namespace Ipopt {
typedef double Number; typedef int Index;
enum SolverReturn { SUCCESS, MAXITER_EXCEEDED, CPUTIME_EXCEEDED, STOP_AT_TINY_STEP, STOP_AT_ACCEPTABLE_POINT, LOCAL_INFEASIBILITY, USER_REQUESTED_STOP, FEASIBLE_POINT_FOUND, DIVERGING_ITERATES, RESTORATION_FAILURE, ERROR_IN_STEP_COMPUTATION, INVALID_NUMBER_DETECTED, TOO_FEW_DEGREES_OF_FREEDOM, INVALID_OPTION, OUT_OF_MEMORY, INTERNAL_ERROR, UNASSIGNED };
enum ApplicationReturnStatus { Solve_Succeeded = 0, Solved_To_Acceptable_Level = 1, Infeasible_Problem_Detected = 2, Search_Direction_Becomes_Too_Small = 3, Diverging_Iterates = 4, User_Requested_Stop = 5, Feasible_Point_Found = 6, Maximum_Iterations_Exceeded = -1, Restoration_Failed = -2, Error_In_Step_Computation = -3, Maximum_CpuTime_Exceeded = -4, Not_Enough_Degrees_Of_Freedom = -10, Invalid_Problem_Definition = -11, Invalid_Option = -12, Invalid_Number_Detected = -13, Unrecoverable_Exception = -100, NonIpopt_Exception_Thrown = -101, Insufficient_Memory = -102, Internal_Error = -199 };
class IpoptData; class IpoptCalculatedQuantities;
class ReferencedObject { public: mutable int refs = 0; virtual ~ReferencedObject() {} };
template <class T> class SmartPtr { public: T *p = nullptr;
    void set(T *q) { if (q) ++q->refs; if (p && --p->refs == 0) delete p; p = q; }
    SmartPtr() {} SmartPtr(T *q) { set(q); } SmartPtr(const SmartPtr &o) { set(o.p); } template <class U> SmartPtr(const SmartPtr<U> &o) { set(o.p); } ~SmartPtr() { set(nullptr); }
    SmartPtr &operator=(const SmartPtr &o) { set(o.p); return *this; } SmartPtr &operator=(T *q) { set(q); return *this; } template <class U> SmartPtr &operator=(const SmartPtr<U> &o) { set(o.p); return *this; }
    T *operator->() const { return p; } T &operator*() const { return *p; } };
template <class T> T *GetRawPtr(const SmartPtr<T> &s) { return s.p; }
class TNLP : public ReferencedObject { public:
    enum IndexStyleEnum { C_STYLE = 0, FORTRAN_STYLE = 1 };
    virtual bool get_nlp_info(Index &n, Index &m, Index &nnz_jac_g, Index &nnz_h_lag, IndexStyleEnum &index_style) = 0;
    virtual bool get_bounds_info(Index n, Number *x_l, Number *x_u, Index m, Number *g_l, Number *g_u) = 0;
    virtual bool get_starting_point(Index n, bool init_x, Number *x, bool init_z, Number *z_L, Number *z_U, Index m, bool init_lambda, Number *lambda) = 0;
    virtual bool eval_f(Index n, const Number *x, bool new_x, Number &obj_value) = 0;
    virtual bool eval_grad_f(Index n, const Number *x, bool new_x, Number *grad_f) = 0;
    virtual bool eval_g(Index n, const Number *x, bool new_x, Index m, Number *g) = 0;
    virtual bool eval_jac_g(Index n, const Number *x, bool new_x, Index m, Index nele_jac, Index *iRow, Index *jCol, Number *values) = 0;
    virtual bool eval_h(Index n, const Number *x, bool new_x, Number obj_factor, Index m, const Number *lambda, bool new_lambda, Index nele_hess, Index *iRow, Index *jCol, Number *values) = 0;
    virtual void finalize_solution(SolverReturn status, Index n, const Number *x, const Number *z_L, const Number *z_U, Index m, const Number *g, const Number *lambda, Number obj_value, const IpoptData *ip_data, IpoptCalculatedQuantities *ip_cq) = 0;
};
}
