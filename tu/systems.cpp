// Instantiation witness for the system-level templates.  Never linked, never run.
#include "bertini2/system.hpp"
#include "bertini2/system/start_systems.hpp"
#include "bertini2/system/slice.hpp"
#include "bertini2/system/straight_line_program.hpp"
#include "bertini2/nag_datatypes/witness_set.hpp"

namespace vp {
using namespace bertini;
template <typename C> void sysuse(System const& s)
{
	Vec<C> x, f; C t; bertini::Mat<C> J;
	s.EvalInPlace(f); s.Eval<C>(); s.EvalInPlace(f, x); s.EvalInPlace(f, x, t); s.Eval(x); s.Eval(x, t);
	s.JacobianInPlace(J); s.Jacobian<C>(); s.JacobianInPlace(J, x); s.Jacobian(x); s.JacobianInPlace(J, x, t); s.Jacobian(x, t);
	s.TimeDerivativeInPlace(f, x, t); s.TimeDerivative(x, t); s.TimeDerivativeInPlace(f, x);
	s.TimeDerivativeInPlace(f); s.TimeDerivative<C>();
	s.SetVariables(x); s.SetPathVariable(t); s.SetAndReset(x, t); s.SetAndReset(x);
	s.DehomogenizePoint(x); s.RescalePointToFitPatch(x); s.RescalePointToFitPatchInPlace(x);
	s.SetImplicitParameters(x);
	s.CoefficientBound<C>();
}
template <typename C> void sliceuse(LinearSlice const& s, VariableGroup const& v)
{
	Vec<C> x, r; bertini::Mat<C> J;
	s.Eval(x);
	LinearSlice::RandomReal(v, 1); LinearSlice::RandomComplex(v, 1);
}
template <typename C> void startuse(start_system::StartSystem const& s)
{
	s.StartPoint<C>(0);
}
void all(System const& sys, LinearSlice const& sl, VariableGroup const& v, start_system::StartSystem const& st)
{
	sysuse<dbl>(sys); sysuse<mpfr_complex>(sys);
	sliceuse<mpfr_complex>(sl, v); sliceuse<dbl>(sl, v);
	startuse<dbl>(st); startuse<mpfr_complex>(st);
}
}
