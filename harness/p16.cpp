// Settings text yields exactly the settings written, and the documented defaults for the rest.
#include "pbt.hpp"
#include "bertini2/system/system.hpp"
#include "bertini2/io/parsing/classic_utilities.hpp"
#include "bertini2/io/parsing/settings_parsers.hpp"
#include <cmath>
#include <map>
using namespace pbt; using bertini::mpfr_float; using bertini::mpfr_complex; using bertini::mpq_rational; using Cd = std::complex<double>; namespace A = bertini::algorithm; namespace E = bertini::endgame; namespace T = bertini::tracking; namespace PC = bertini::parsing::classic;
static void quiet() { static std::ostringstream* sink = new std::ostringstream; std::cout.rdbuf(sink->rdbuf()); }
struct Got { double d = 0; std::string s; mpfr_float m; bool mp = false; }; // a value found in a structure
static Got num(double d) { Got r; r.d = d; return r; } static Got num(mpq_rational const& q) { return num(double(q)); } static Got num(std::string const& s) { Got r; r.s = s; return r; } static Got num(Cd c) { return num(c.imag() == 0 ? c.real() : NAN); } static Got num(mpfr_complex const& c) { Got r; r.mp = true; r.m = c.real(); r.d = c.imag() == 0 ? double(c.real()) : NAN; return r; }
enum Kind { Real, Ratio, Uns, Int, Bool, Name, Enum };
struct Item { std::string name; Kind kind; std::string dflt; std::vector<std::pair<std::string, int>> table; }; // dflt "": none documented
struct Struct { std::string name; std::vector<Item> items; std::function<std::vector<Got>(std::string const&)> fill; };
template<class S, class... G> std::function<std::vector<Got>(std::string const&)> filler(G... get) { return [=](std::string const& c) { S s = PC::FillConfigStruct<S>(c); return std::vector<Got>{num(get(s))...}; }; }
#define F(S, f) [](S const& s) { return s.f; }
static std::vector<Struct> const& structs() { static std::vector<Struct> v = [] { std::vector<Struct> v;
	v.push_back({"PrecisionType", {{"MPType", Enum, "1", {{"0", 0}, {"2", 1}}}}, filler<T::PrecisionType>([](T::PrecisionType p) { return double(int(p)); })});
	using PT = T::Predictor; auto I = [](PT p) { return int(p); };
	v.push_back({"Predictor", {{"ODEPredictor", Enum, std::to_string(I(PT::RKF45)), {{"-1", I(PT::Constant)}, {"0", I(PT::Euler)}, {"1", I(PT::Heun)}, {"2", I(PT::RK4)}, {"3", I(PT::HeunEuler)}, {"4", I(PT::RKNorsett34)}, {"5", I(PT::RKF45)}, {"6", I(PT::RKCashKarp45)}, {"7", I(PT::RKDormandPrince56)}, {"8", I(PT::RKVerner67)}}}}, filler<PT>([](PT p) { return double(int(p)); })});
	using S1 = T::SteppingConfig; v.push_back({"Stepping", {{"MaxStepSize", Ratio, "0.1"}, {"StepSuccessFactor", Ratio, "2"}, {"StepFailFactor", Ratio, "0.5"}, {"StepsForIncrease", Uns, "5"}, {"MaxNumberSteps", Uns, "100000"}, {"", Real, "0.1"}, {"", Uns, "1"}}, filler<S1>(F(S1, max_step_size), F(S1, step_size_success_factor), F(S1, step_size_fail_factor), F(S1, consecutive_successful_steps_before_stepsize_increase), F(S1, max_num_steps), F(S1, initial_step_size), F(S1, min_num_steps))});
	using S2 = T::NewtonConfig; v.push_back({"Newton", {{"MaxNewtonIts", Uns, "2"}, {"", Uns, "1"}}, filler<S2>(F(S2, max_num_newton_iterations), F(S2, min_num_newton_iterations))});
	using S3 = T::AdaptiveMultiplePrecisionConfig; v.push_back({"AMP", {{"CoefficientBound", Real, "1000"}, {"DegreeBound", Real, "5"}, {"Epsilon", Real, ""}, {"Phi", Real, ""}, {"Psi", Real, ""}, {"AMPSafetyDigits1", Int, "1"}, {"AMPSafetyDigits2", Int, "1"}, {"AMPMaxPrec", Uns, "300"}, {"MaxStepsPrecisionDecrease", Uns, "10"}, {"MaxNumPrecDecreases", Uns, "10"}}, filler<S3>(F(S3, coefficient_bound), F(S3, degree_bound), F(S3, epsilon), F(S3, Phi), F(S3, Psi), F(S3, safety_digits_1), F(S3, safety_digits_2), F(S3, maximum_precision), F(S3, consecutive_successful_steps_before_precision_decrease), F(S3, max_num_precision_decreases))});
	using S4 = E::SecurityConfig; v.push_back({"Security", {{"SecurityLevel", Int, "0"}, {"SecurityMaxNorm", Real, "1e4"}}, filler<S4>(F(S4, level), F(S4, max_norm))});
	using S5 = E::EndgameConfig; v.push_back({"Endgame", {{"SampleFactor", Ratio, "0.5"}, {"NumSamplePoints", Uns, "3"}, {"NbhdRadius", Real, "1e-100"}, {"", Real, "1e-11"}, {"", Uns, "15"}}, filler<S5>(F(S5, sample_factor), F(S5, num_sample_points), F(S5, min_track_time), F(S5, final_tolerance), F(S5, max_num_newton_iterations))});
	using S6 = E::PowerSeriesConfig; v.push_back({"PowerSeries", {{"MaxCycleNum", Uns, "6"}, {"", Uns, "5"}}, filler<S6>(F(S6, max_cycle_number), F(S6, cycle_number_amplification))});
	using S7 = E::CauchyConfig; v.push_back({"Cauchy", {{"CycleTimeCutoff", Real, "1e-8"}, {"RatioTimeCutoff", Real, "1e-14"}, {"", Real, "0.75"}, {"", Uns, "3"}, {"", Real, "0.5"}, {"", Uns, "250"}}, filler<S7>(F(S7, cycle_cutoff_time), F(S7, ratio_cutoff_time), F(S7, minimum_for_c_over_k_stabilization), F(S7, num_needed_for_stabilization), F(S7, maximum_cauchy_ratio), F(S7, fail_safe_maximum_cycle_number))});
	using S8 = E::TrackBackConfig; v.push_back({"TrackBack", {{"MinCycleTrackBack", Uns, "4"}, {"JunkRemovalTrackBack", Bool, "1"}, {"MaxLDTDepth", Uns, "3"}}, filler<S8>(F(S8, minimum_cycle), F(S8, junk_removal_test), F(S8, max_depth_LDT))});
	using S9 = A::TolerancesConfig; v.push_back({"Tolerances", {{"TrackTolBeforeEG", Real, "1e-5"}, {"TrackTolDuringEG", Real, "1e-6"}, {"FinalTol", Real, "1e-11"}, {"PathTruncationThreshold", Real, "1e5"}}, filler<S9>(F(S9, newton_before_endgame), F(S9, newton_during_endgame), F(S9, final_tolerance), F(S9, path_truncation_threshold))});
	using Z1 = A::ZeroDimConfig<Cd>; using Z2 = A::ZeroDimConfig<mpfr_complex>; std::vector<Item> z{{"InitialPrec", Uns, "16"}, {"MaxCrossedPathResolves", Uns, "2"}, {"StartTime", Real, "1"}, {"EndgameBdry", Real, "0.1"}, {"TargetTime", Real, "0"}, {"PathVarName", Name, "ZERO_DIM_PATH_VARIABLE"}};
	v.push_back({"ZeroDim<double>", z, filler<Z1>(F(Z1, initial_ambient_precision), F(Z1, max_num_crossed_path_resolve_attempts), F(Z1, start_time), F(Z1, endgame_boundary), F(Z1, target_time), F(Z1, path_variable_name))}); v.push_back({"ZeroDim<mpfr>", z, filler<Z2>(F(Z2, initial_ambient_precision), F(Z2, max_num_crossed_path_resolve_attempts), F(Z2, start_time), F(Z2, endgame_boundary), F(Z2, target_time), F(Z2, path_variable_name))});
	using SA = A::MidPathConfig; v.push_back({"MidPath", {{"MidpathTol", Real, "1e-5"}}, filler<SA>(F(SA, same_point_tolerance))});
	using SB = A::AutoRetrackConfig; v.push_back({"AutoRetrack", {{"RetrackTolFactor", Real, "0.5"}}, filler<SB>(F(SB, midpath_decrease_tolerance_factor))});
	using SC = A::SharpeningConfig; v.push_back({"Sharpening", {{"SharpenDigits", Uns, ""}, {"FunctionTolerance", Real, ""}, {"RatioTolerance", Real, "0.99"}}, filler<SC>(F(SC, sharpendigits), F(SC, function_residual_tolerance), F(SC, ratio_tolerance))});
	using SD = A::RegenerationConfig; v.push_back({"Regeneration", {{"RegenRemoveInf", Bool, "1"}, {"RegenHigherDimTest", Bool, "1"}, {"RegenStartLevel", Uns, "0"}, {"SliceTolBeforeEG", Real, ""}, {"SliceTolDuringEG", Real, ""}, {"SliceFinalTol", Real, ""}}, filler<SD>(F(SD, remove_infinite_endpoints), F(SD, higher_dimension_check), F(SD, start_level), F(SD, newton_before_endgame), F(SD, newton_during_endgame), F(SD, final_tolerance))});
	using SE = A::PostProcessingConfig; v.push_back({"PostProcessing", {{"ImagThreshold", Real, "1e-8"}, {"EndpointFiniteThreshold", Real, "1e-5"}, {"EndpointSameThreshold", Real, "1e-10"}}, filler<SE>(F(SE, real_threshold), F(SE, endpoint_finite_threshold), F(SE, same_point_tolerance))});
	using SF = A::classic::AlgoChoice; std::vector<std::pair<std::string, int>> t; for (int i = -4; i <= 6; ++i) t.push_back({std::to_string(i), i}); v.push_back({"AlgoChoice", {{"TrackType", Enum, "0", t}}, filler<SF>([](SF a) { return double(int(a)); })});
	return v; }(); return v; }
static std::string lower(std::string s) { for (auto& c : s) c = tolower(c); return s; }
static std::string recase(Gen& g, std::string s) { switch (g.below(4)) { case 1: return lower(s); case 2: for (auto& c : s) c = toupper(c); return s; case 3: for (auto& c : s) c = g.chance(50) ? toupper(c) : tolower(c); return s; } return s; }
static std::string ws(Gen& g) { static const char* w[] = {"", " ", "  ", "\n", "\t", " \n ", " % a comment; FinalTol: 3; END\n"}; return w[g.weighted({6, 6, 2, 2, 1, 1, 1})]; }
static std::string digits(Gen& g, int n) { std::string s; for (int i = 0; i < n; ++i) s += char('0' + g.below(10)); return s; }
static std::string real(Gen& g) { std::string s = g.chance(15) ? "-" : ""; int f = g.below(4), n = g.range(1, g.chance(80) ? 4 : 25); if (f == 0) s += digits(g, n); else if (f == 1) s += digits(g, g.range(0, 3)) + "." + digits(g, n); else if (f == 2) s += digits(g, n) + "."; else s += "1"; if (g.chance(60)) { s += g.chance(70) ? "e" : "E"; s += g.chance(70) ? "-" : g.chance(30) ? "+" : ""; s += std::to_string(g.below(g.chance(90) ? 20 : 100)); } return s; }
struct Value { std::string text; Got want; };
static double ratio(std::string const& t) { size_t k = t.find('/'); double a = std::strtod(t.c_str(), nullptr); return k == std::string::npos ? a : a / std::strtod(t.c_str() + k + 1, nullptr); }
static Value value(Gen& g, Item const& it) { Value v; switch (it.kind) {
	case Real: v.text = real(g); v.want = num(std::strtod(v.text.c_str(), nullptr)); break;
	case Ratio: v.text = g.chance(30) ? std::to_string(g.range(1, 50)) + "/" + std::to_string(g.range(1, 50)) : real(g); v.want = num(ratio(v.text)); break;
	case Uns: { unsigned u = g.chance(80) ? g.below(200) : unsigned(g.bits() & 0x7fffffff); v.text = std::to_string(u); v.want = num(double(u)); break; }
	case Int: { int u = g.small_int(50); v.text = std::to_string(u); v.want = num(double(u)); break; }
	case Bool: { int b = g.below(2); v.text = std::to_string(b); v.want = num(double(b)); break; }
	case Name: { std::string n(1, char('a' + g.below(26))); for (int k = g.below(6); k > 0; --k) n += "abcXYZ019_[]"[g.below(12)]; v.text = n; v.want = num(n); break; }
	case Enum: { auto& e = it.table[g.below(it.table.size())]; v.text = e.first; v.want = num(double(e.second)); break; } } return v; }
static bool agree(Item const& it, Value const& v, Got const& h) { if (it.kind == Name) return h.s == v.want.s; if (h.mp) { mpfr_float e(h.m); mpfr_set_str(e.backend().data(), v.text.c_str(), 10, MPFR_RNDN); return !std::isnan(h.d) && e == h.m && h.m.precision() >= bertini::DefaultPrecision(); } if (it.kind == Ratio) return std::fabs(h.d - v.want.d) <= 4e-16 * std::fabs(v.want.d); return h.d == v.want.d; }
static std::set<std::string> const& known() { static std::set<std::string> s = [] { std::set<std::string> s; for (auto& x : structs()) for (auto& i : x.items) if (!i.name.empty()) s.insert(lower(i.name)); return s; }(); return s; }
static std::string junk(Gen& g) { std::string n; std::vector<std::string> k(known().begin(), known().end()); do { switch (g.below(4)) { case 0: n = "hello"; break; case 1: n = std::string(1, char('a' + g.below(26))) + k[g.below(k.size())]; break; case 2: n = k[g.below(k.size())] + std::string(1, char("abxyz_07"[g.below(8)])); break; default: n.clear(); for (int i = g.range(1, 6); i > 0; --i) n += char('a' + g.below(26)); } } while (known().count(n) || n == "config" || n == "end" || n == "input"); static const char* vals[] = {"9", "1e-5", "some words", "x", "-3", "1/2", "[1,2]", "", "FinalTol"}; return recase(g, n) + ws(g) + ":" + ws(g) + vals[g.below(9)] + ws(g) + (g.chance(80) ? ";" : "\n"); }
static void settings(Gen& g) { quiet(); bertini::DefaultPrecision(g.chance(50) ? 30 : 16 + g.below(100)); auto& S = structs(); std::map<std::string, Value> vals; std::vector<std::string> lines; unsigned density = g.pick(*new std::vector<unsigned>{10, 3, 30, 70, 100}); std::map<std::string, Item const*> items; for (auto& s : S) for (auto& i : s.items) if (!i.name.empty()) items[i.name] = &i;
	for (auto& i : items) if (g.chance(density)) { Value v = value(g, *i.second); vals[i.first] = v; lines.push_back(recase(g, i.first) + ws(g) + ":" + ws(g) + v.text + ws(g) + ";"); } for (int n = g.below(6); n > 0; --n) lines.push_back(junk(g)); for (size_t i = lines.size(); i > 1; --i) std::swap(lines[i - 1], lines[g.below(i)]); std::string cfg; for (auto& l : lines) cfg += l + (g.chance(70) ? "\n" : ws(g).find('%') == std::string::npos ? " " : "\n"); g.note(cfg); if (vals.size() > 2) g.nontrivial(); if (!vals.size()) g.label("no settings");
	std::string file = std::string(g.chance(50) ? "CONFIG\n" : "Config ") + cfg + "\nEND;\nINPUT\nvariable_group x;\nfunction f;\nf = x^2 - 1;\nEND;\n"; std::string text; if (g.chance(70)) { auto sp = PC::ParseInputFile(file); PBT_CHECK(!sp.Readable() || true, ""); text = sp.Config(); } else { for (size_t i = 0; i < cfg.size(); ++i) { if (cfg[i] == '%') while (i < cfg.size() && cfg[i] != '\n') ++i; if (i < cfg.size()) text += cfg[i]; } }
	for (auto& s : S) { std::vector<Got> h; try { h = s.fill(text); } catch (std::exception const& e) { fail("settings are refused by " + s.name + ": " + e.what()); } PBT_CHECK(h.size() == s.items.size(), "harness"); for (size_t k = 0; k < h.size(); ++k) { auto& it = s.items[k]; auto f = vals.find(it.name); if (!it.name.empty() && f != vals.end()) { PBT_CHECK(agree(it, f->second, h[k]), s.name << ": " << it.name << ": " << f->second.text << "; gives " << (it.kind == Name ? h[k].s : std::to_string(h[k].d))); } else if (!it.dflt.empty()) { Value d; d.text = it.dflt; d.want = it.kind == Name ? num(it.dflt) : num(std::strtod(it.dflt.c_str(), nullptr)); bool ok = it.kind == Name ? h[k].s == it.dflt : std::fabs(h[k].d - d.want.d) <= 4e-16 * std::fabs(d.want.d); PBT_CHECK(ok, s.name << ": " << it.name << " is not mentioned, is " << (it.kind == Name ? h[k].s : std::to_string(h[k].d)) << ", documented default " << it.dflt); } } }
	auto tup = PC::ConfigParser<T::SteppingConfig, A::TolerancesConfig, E::EndgameConfig>::Parse(text); auto tol = PC::FillConfigStruct<A::TolerancesConfig>(text); auto eg = PC::ConfigParser<E::EndgameConfig>::Parse(text); auto lst = PC::ConfigParser<bertini::detail::TypeList<E::EndgameConfig, A::TolerancesConfig>>::Parse(text); PBT_CHECK(std::get<1>(tup).final_tolerance == tol.final_tolerance && std::get<1>(lst).final_tolerance == tol.final_tolerance && std::get<2>(tup).sample_factor == eg.sample_factor && std::get<0>(lst).num_sample_points == eg.num_sample_points && std::get<2>(tup).min_track_time == eg.min_track_time && std::get<1>(tup).path_truncation_threshold == tol.path_truncation_threshold, "reading several structures at once gives other values"); }
// a setting whose value cannot be read is refused, not ignored
static void damaged(Gen& g) { quiet(); bertini::DefaultPrecision(30); auto& S = structs(); auto& s = S[g.below(S.size())]; std::vector<Item const*> c; for (auto& i : s.items) if (!i.name.empty()) c.push_back(&i); auto& it = *c[g.below(c.size())]; if (it.kind == Name) discard("names"); static const char* bad[] = {"x", "one", "", ":", "--1", "1 1", "1e", "%", "1x"}; std::string b = bad[g.below(9)]; if (b == "1e" && it.kind == Real) b = "e1"; std::string t = g.chance(50) ? junk(g) : ""; t = it.name + " : " + b + ";\n" + t; for (auto& i : s.items) if (!i.name.empty() && i.name != it.name && g.chance(40)) t = i.name + ": " + value(g, i).text + ";\n" + t; g.note(t); g.nontrivial(); bool thrown = false; try { s.fill(t); } catch (std::exception const&) { thrown = true; } PBT_CHECK(thrown, s.name << " accepts a setting that has no readable value"); }
int main(int argc, char** argv) { Suite s; s.property = "P16";
	s.subs.push_back({"settings", "random subsets of all 60 settings of all structures in random order, case and spacing, with comments and unrelated settings (some containing known names), against a table; non-trivial: three or more settings", 1500, 20000, settings});
	s.subs.push_back({"damaged", "settings with unreadable values; non-trivial: all", 400, 4000, damaged});
	return run_main(s, argc, argv); }
