// Instantiation witness: forces the class templates of the trackers, endgames and algorithms so that
// the analyser sees resolved bodies.  Never linked, never run.
#include "bertini2/system.hpp"
#include "bertini2/system/start_systems.hpp"
#include "bertini2/system/slice.hpp"
#include "bertini2/tracking.hpp"
#include "bertini2/trackers/observers.hpp"
#include "bertini2/endgames.hpp"
#include "bertini2/endgames/observers.hpp"
#include "bertini2/nag_algorithms/zero_dim_solve.hpp"
#include "bertini2/nag_algorithms/output.hpp"
#include "bertini2/nag_datatypes/witness_set.hpp"
#include "bertini2/blackbox/switches_zerodim.hpp"
#include "bertini2/blackbox/user_homotopy.hpp"

namespace vp {
using namespace bertini;
template <typename T, typename EG, typename S> void zd(System const& sys, std::ostream& out)
{
	using ZD = algorithm::ZeroDim<T, EG, System, S>;
	ZD z(sys);
	z.DefaultSetup();
	z.Solve();
	z.FinalSolutions(); z.FinalSolutionMetadata(); z.EndgameBoundaryData();
	algorithm::output::Classic<ZD>::All(out, z);
	algorithm::output::NonsingularSolutions::Extract(z);
	algorithm::output::AllSolutions::Extract(z);
}
template <typename C> void sysuse(System const& s)
{
	Vec<C> x, f; C t; bertini::Mat<C> J;
	s.EvalInPlace(f); s.Eval<C>(); s.EvalInPlace(f, x); s.EvalInPlace(f, x, t); s.Eval(x); s.Eval(x, t);
	s.JacobianInPlace(J); s.Jacobian<C>(); s.JacobianInPlace(J, x); s.Jacobian(x); s.JacobianInPlace(J, x, t); s.Jacobian(x, t);
	s.TimeDerivativeInPlace(f, x, t); s.TimeDerivative(x, t); s.TimeDerivativeInPlace(f, x);
	s.TimeDerivativeInPlace(f); s.TimeDerivative<C>();
	s.SetVariables(x); s.SetPathVariable(t); s.SetAndReset(x, t); s.SetAndReset(x);
	s.DehomogenizePoint(x); s.RescalePointToFitPatch(x); s.RescalePointToFitPatchInPlace(x);
	s.SetImplicitParameters(x);
	s.CoefficientBound<C>();
}
template <typename T> T& any();
template <typename T> void obs()
{
	any<MultiObserver<T, tracking::GoryDetailLogger, tracking::StepFailScreenPrinter>>().Observe(any<AnyEvent const>());
	tracking::FirstPrecisionRecorder<T> a; tracking::MinMaxPrecisionRecorder<T> b;
	tracking::PrecisionAccumulator<T> c; tracking::GoryDetailLogger<T> d;
}
template <typename C> void sliceuse(LinearSlice const& s, VariableGroup const& v)
{
	Vec<C> x, r; bertini::Mat<C> J;
	s.Eval(x); s.Jacobian(x);
	LinearSlice::RandomReal(v, 1); LinearSlice::RandomComplex(v, 1);
}
// overloads nothing else instantiates; an overload that does not exist (any more) is passed over
#define VP_TRY(name, expr) \
	template <typename C, typename X> auto name(X& x, int) -> decltype(expr, void()) { (void)(expr); } \
	template <typename C, typename X> void name(X&, long) {}
VP_TRY(correct8, x.Correct(any<Vec<C>>(), any<System const>(), any<Vec<C> const>(), any<C const>(), any<NumErrorT const>(), 1u, 2u, any<tracking::AdaptiveMultiplePrecisionConfig const>()))
VP_TRY(correct7, x.Correct(any<Vec<C>>(), any<System const>(), any<Vec<C> const>(), any<C const>(), any<NumErrorT const>(), 1u, 2u))
VP_TRY(refine3, x.Refine(any<Vec<C>>(), any<Vec<C> const>(), any<C const>()))
VP_TRY(refine5, x.Refine(any<Vec<C>>(), any<Vec<C> const>(), any<C const>(), any<NumErrorT const>(), 3u))
VP_TRY(track, x.TrackPath(any<Vec<C>>(), any<C const>(), any<C const>(), any<Vec<C> const>()))
void more()
{
	using namespace tracking;
	auto& n = any<correct::NewtonCorrector>();
	correct8<dbl>(n, 0); correct8<mpfr_complex>(n, 0); correct7<dbl>(n, 0); correct7<mpfr_complex>(n, 0);
	refine3<dbl>(any<DoublePrecisionTracker const>(), 0); refine3<mpfr_complex>(any<MultiplePrecisionTracker const>(), 0); refine3<mpfr_complex>(any<AMPTracker const>(), 0); refine3<dbl>(any<AMPTracker const>(), 0);
	refine5<dbl>(any<DoublePrecisionTracker const>(), 0); refine5<mpfr_complex>(any<MultiplePrecisionTracker const>(), 0); refine5<mpfr_complex>(any<AMPTracker const>(), 0); refine5<dbl>(any<AMPTracker const>(), 0);
	track<dbl>(any<DoublePrecisionTracker const>(), 0); track<mpfr_complex>(any<MultiplePrecisionTracker const>(), 0); track<mpfr_complex>(any<AMPTracker const>(), 0);
}
void all(System const& sys, std::ostream& out, Patch& p)
{
	using namespace tracking;
	using endgame::EndgameSelector;
	sysuse<dbl>(sys); sysuse<mpfr_complex>(sys);
	obs<AMPTracker>();
	zd<DoublePrecisionTracker, EndgameSelector<DoublePrecisionTracker>::Cauchy, start_system::TotalDegree>(sys, out);
	zd<DoublePrecisionTracker, EndgameSelector<DoublePrecisionTracker>::PSEG, start_system::TotalDegree>(sys, out);
	zd<MultiplePrecisionTracker, EndgameSelector<MultiplePrecisionTracker>::Cauchy, start_system::TotalDegree>(sys, out);
	zd<MultiplePrecisionTracker, EndgameSelector<MultiplePrecisionTracker>::PSEG, start_system::TotalDegree>(sys, out);
	zd<AMPTracker, EndgameSelector<AMPTracker>::Cauchy, start_system::TotalDegree>(sys, out);
	zd<AMPTracker, EndgameSelector<AMPTracker>::PSEG, start_system::TotalDegree>(sys, out);
	blackbox::ZeroDimRT rt;
	blackbox::MakeZeroDim(rt, sys);
	SampCont<mpfr_complex> pts;
	auto us = start_system::User(sys, pts);
	blackbox::MakeUserHom(rt, sys, us, sys);
}
}
