// Instantiation witness for the parsers and generators.  Never linked, never run.
#include "bertini2/io/parsing.hpp"
#include "bertini2/io/generators.hpp"
#include "bertini2/io/file_utilities.hpp"
#include "bertini2/blackbox/global_configs.hpp"

namespace bertini { namespace parsing { namespace classic {
namespace {
template<typename T> void Witness(std::string const& s) { FillConfigStruct<T>(s); }
template<typename T> bool WitnessParse(std::string const& s) { T t{}; return parse(s.begin(), s.end(), t); }
}
void WitnessAll(std::string const& s)
{
	Witness<tracking::PrecisionType>(s); Witness<tracking::Predictor>(s); Witness<tracking::SteppingConfig>(s);
	Witness<tracking::NewtonConfig>(s); Witness<tracking::FixedPrecisionConfig>(s); Witness<tracking::AdaptiveMultiplePrecisionConfig>(s);
	Witness<endgame::SecurityConfig>(s); Witness<endgame::EndgameConfig>(s); Witness<endgame::PowerSeriesConfig>(s);
	Witness<endgame::CauchyConfig>(s); Witness<endgame::TrackBackConfig>(s);
	Witness<algorithm::TolerancesConfig>(s); Witness<algorithm::ZeroDimConfig<dbl>>(s); Witness<algorithm::ZeroDimConfig<mpfr_complex>>(s);
	Witness<algorithm::MidPathConfig>(s); Witness<algorithm::AutoRetrackConfig>(s); Witness<algorithm::SharpeningConfig>(s);
	Witness<algorithm::RegenerationConfig>(s); Witness<algorithm::PostProcessingConfig>(s); Witness<algorithm::classic::AlgoChoice>(s);
	WitnessParse<double>(s); WitnessParse<dbl>(s); WitnessParse<mpfr_float>(s); WitnessParse<mpfr_complex>(s); WitnessParse<System>(s);
}
}}}
