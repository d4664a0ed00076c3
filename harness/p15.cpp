// Input files produce the system they describe, judged by an independent reader of the language.
#include "sysgen.hpp"
#include "classic.hpp"
#include "bertini2/io/parsing/classic_utilities.hpp"
#include "bertini2/io/parsing/system_parsers.hpp"
#include <fstream>
#include <unistd.h>
using namespace pbt; using namespace b2; using ref::P; using ref::Op; using ref::C; using ref::R; using Cd = std::complex<double>; using classic::Reject;
static void quiet() { static std::ostringstream* sink = new std::ostringstream; std::cout.rdbuf(sink->rdbuf()); }

// ---- what an input section says ----
struct Model { struct Grp { int kind; std::vector<int> v; }; // 0 affine, 1 hom, 2 ungrouped
	std::vector<std::string> var; std::vector<Grp> groups; int path = -1; std::vector<int> implicit; std::vector<std::string> fn, cst, par, sub; std::map<std::string, P> sym, func; std::set<std::string> defined; std::set<std::string> unspecified; bool complete = true;
	std::vector<int> order() const { std::vector<int> r; for (auto& q : groups) for (int v : q.v) r.push_back(v); return r; } };
static Model read_system(std::string const& s) {
	Model m; { P I = ref::num(0, 1), pi = ref::mk(Op::Pi), e = ref::mk(Op::E); m.sym = {{"pi", pi}, {"Pi", pi}, {"e", e}, {"E", e}, {"i", I}, {"I", I}}; }
	classic::Reader r(s, m.sym); auto word = [&]() { r.skip(); size_t j = r.i; if (j >= s.size() || !classic::al(s[j])) throw Reject{"no name"}; while (j < s.size() && classic::nm(s[j])) ++j; std::string w = s.substr(r.i, j - r.i); return w; };
	auto fresh = [&]() { std::string w = word(); if (classic::keywords().count(w) || m.sym.count(w)) throw Reject{"name in use: " + w}; if (classic::elementary().count(w)) m.unspecified.insert("elementary name"); r.i += w.size(); return w; };
	auto newvar = [&]() { std::string w = fresh(); m.var.push_back(w); m.sym[w] = ref::var(int(m.var.size()) - 1); return int(m.var.size()) - 1; };
	auto newfn = [&]() { std::string w = fresh(); P f = ref::mk(Op::Func); m.sym[w] = f; m.func[w] = f; return w; };
	while (r.peek()) { std::string w = word();
		if (classic::keywords().count(w)) { r.i += w.size();
			if (w == "variable_group" || w == "hom_variable_group" || w == "variable" || w == "implicit_parameter") { std::vector<int> v; do v.push_back(newvar()); while (r.eat(',')); if (w == "variable") for (int x : v) m.groups.push_back({2, {x}}); else if (w == "implicit_parameter") m.implicit.insert(m.implicit.end(), v.begin(), v.end()); else m.groups.push_back({w == "variable_group" ? 0 : 1, v}); }
			else if (w == "pathvariable") { if (m.path >= 0) m.unspecified.insert("two path variables"); m.path = newvar(); }
			else if (w == "function" || w == "constant" || w == "parameter") { auto& l = w == "function" ? m.fn : w == "constant" ? m.cst : m.par; do l.push_back(newfn()); while (r.eat(',')); }
			else throw Reject{"keyword " + w};
			r.need(';'); continue; }
		bool known = m.sym.count(w); if (known && !m.func.count(w)) throw Reject{"definition of something else"}; if (!known) { newfn(); m.sub.push_back(w); } else r.i += w.size(); r.need('='); if (m.defined.count(w)) m.unspecified.insert("defined twice"); P e = r.expr(); r.need(';'); m.func[w]->ch = {e}; m.defined.insert(w); }
	if (r.huge) m.unspecified.insert("huge number");
	std::map<ref::Expr*, int> state; std::function<void(P const&)> walk = [&](P const& e) { int& st = state[e.get()]; if (st == 2) return; if (st == 1) { m.unspecified.insert("circular definition"); return; } st = 1; if (e->op == Op::Func && e->ch.empty()) m.unspecified.insert("undefined function"); if (e->op == Op::Pow && e->ch[1]->op == Op::Num && (e->ch[1]->re > 60 || e->ch[1]->re < -60)) m.unspecified.insert("large power"); for (auto& c : e->ch) walk(c); state[e.get()] = 2; };
	for (auto& f : m.func) walk(f.second); return m;
}
static void same_names(Gen& g, std::vector<std::string> const& want, bertini::VariableGroup const& got, std::string const& what) { PBT_CHECK(got.size() == want.size(), what << ": " << got.size() << " instead of " << want.size()); for (size_t i = 0; i < want.size(); ++i) PBT_CHECK(got[i]->name() == want[i], what << ": number " << i << " is called " << got[i]->name() << " instead of " << want[i]); }
static int agree(Gen& g, Model const& m, bertini::System& S, unsigned prec) {
	std::vector<std::string> ord; for (int v : m.order()) ord.push_back(m.var[v]); same_names(g, ord, S.Variables(), "variables");
	auto names = [&](int k) { std::vector<std::vector<std::string>> r; for (auto& q : m.groups) if (q.kind == k) { r.emplace_back(); for (int v : q.v) r.back().push_back(m.var[v]); } return r; }; auto aff = names(0), hom = names(1); auto ag = S.VariableGroups(); auto hg = S.HomVariableGroups(); PBT_CHECK(ag.size() == aff.size() && hg.size() == hom.size(), "numbers of groups"); for (size_t i = 0; i < aff.size(); ++i) same_names(g, aff[i], ag[i], "variable group " + std::to_string(i)); for (size_t i = 0; i < hom.size(); ++i) same_names(g, hom[i], hg[i], "homogeneous variable group " + std::to_string(i)); PBT_CHECK(S.NumUngroupedVariables() == names(2).size(), "number of ungrouped variables");
	PBT_CHECK(S.NumNaturalFunctions() == m.fn.size(), S.NumNaturalFunctions() << " functions instead of " << m.fn.size()); for (size_t i = 0; i < m.fn.size(); ++i) PBT_CHECK(S.Function(i)->name() == m.fn[i], "function " << i << " is called " << S.Function(i)->name() << " instead of " << m.fn[i]);
	PBT_CHECK(S.NumConstants() == m.cst.size() && S.NumParameters() == m.par.size() && S.NumImplicitParameters() == m.implicit.size(), "numbers of constants and parameters"); PBT_CHECK(S.HavePathVariable() == (m.path >= 0), "path variable"); if (m.path >= 0) PBT_CHECK(S.GetPathVariable()->name() == m.var[m.path], "path variable's name");
	if (!m.unspecified.empty() || m.fn.empty() || ord.empty()) return 0; int used = 0;
	for (int k = 0; k < 3; ++k) { bool mp = k == 1; auto p = ref::point(g, m.var.size()); auto q = ref::lift(p); std::vector<ref::Val> v; bool bad = false; for (auto& f : m.fn) { v.push_back(ref::eval(m.func.at(f), q)); bad |= v.back().bad; } if (bad) { g.label("point rejected"); continue; } std::vector<Cd> x, im; for (int i : m.order()) x.push_back(p[i]); for (int i : m.implicit) im.push_back(p[i]);
		auto run = [&](auto tag) { using T = decltype(tag); if (im.size()) S.SetImplicitParameters(vec<T>(im, prec)); bertini::Vec<T> f = m.path >= 0 ? S.Eval(vec<T>(x, prec), scal<T>(p[m.path], prec)) : S.Eval(vec<T>(x, prec)); PBT_CHECK(f.size() == int(m.fn.size()), "number of values"); R eps = eps_for<T>(prec); for (size_t i = 0; i < v.size(); ++i) PBT_CHECK(ref::close(up(f(i)), v[i].v, eps * R(20000) * (v[i].e + ref::mag(v[i].v)) + eps * eps * R(1e12)), "function " << m.fn[i] << " at " << ref::show(p) << " has value " << str(up(f(i))) << ", expected " << str(v[i].v) << " for " << ref::show(m.func.at(m.fn[i]))); }; if (mp) { S.precision(prec); run(mpfr_complex()); } else run(dbl()); ++used; }
	return used;
}
// ---- writing input sections ----
struct Text { std::string body; std::vector<std::string> names; };
static Text write_system(Gen& g, int spread, bool comments) {
	SysCfg c; c.maxv = 5; c.depth = 3; c.poly = g.chance(60); c.maxf = 4; SysSpec s = gen_spec(g, c); bool ok = true; for (auto& f : s.f) ok &= classic::representable(f); for (auto* l : {&s.consts, &s.params, &s.subf}) for (auto& f : *l) ok &= classic::representable(f); if (!ok) discard("not in the language");
	std::set<std::string> used; Text out; auto nm = [&]() { std::string n = classic::fresh(g, used); out.names.push_back(n); return n; }; classic::Writer w{g, {}}; w.spread = spread; for (int i = 0; i < s.total(); ++i) w.names.push_back(nm());
	int ni = g.chance(25) ? g.range(1, 2) : 0; for (int i = 0; i < ni; ++i) { w.names.push_back(nm()); P v = ref::var(s.total() + i); if (g.chance(80)) { P& f = s.f[g.below(s.f.size())]; f = g.chance(50) ? ref::sum({f, v}, {true, g.chance(50)}) : ref::mult({v, f}, {true, true}); } }
	std::vector<std::string> fn, cn, pn, sn; for (auto& f : s.f) { (void)f; fn.push_back(nm()); } for (auto& f : s.consts) { cn.push_back(nm()); w.func[f.get()] = cn.back(); } for (auto& f : s.params) { pn.push_back(nm()); w.func[f.get()] = pn.back(); } for (auto& f : s.subf) { sn.push_back(nm()); w.func[f.get()] = sn.back(); }
	std::vector<P> keep; if (s.f.size() > 1 && g.chance(30)) { bool back = g.chance(50); size_t a = g.below(s.f.size() - 1), b = a + 1 + g.below(s.f.size() - a - 1); size_t from = back ? b : a, to = back ? a : b; P ref_ = ref::mk(Op::Func, {s.f[to]}); keep.push_back(ref_); w.func[ref_.get()] = fn[to]; s.f[from] = g.chance(50) ? ref::sum({s.f[from], ref_}, {true, true}) : ref::mult({ref_, s.f[from]}, {true, true}); }
	struct St { std::string text; std::set<std::string> need, gives; int chain; }; std::vector<St> st; auto ws = [&](bool must) { std::string r = w.ws(); return r.empty() && must ? std::string(" ") : r; };
	auto list = [&](std::string const& kw, std::vector<std::string> const& n) { std::string t = kw + ws(true); for (size_t i = 0; i < n.size(); ++i) t += (i ? "," + ws(false) : "") + n[i] + ws(false); return t + ";"; };
	std::function<void(P const&, std::set<std::string>&)> uses = [&](P const& e, std::set<std::string>& u) { if (e->op == Op::Var) u.insert(w.names[e->n]); auto it = w.func.find(e.get()); if (it != w.func.end()) { u.insert(it->second); return; } for (auto& k : e->ch) uses(k, u); };
	auto def = [&](std::string const& n, P const& e, bool declared, int chain) { St d; d.text = n + ws(false) + "=" + w.write(e) + ";"; uses(e, d.need); if (declared) d.need.insert(n); else d.gives.insert(n); d.chain = chain; st.push_back(d); };
	auto decl = [&](std::string const& kw, std::vector<std::string> n, int chain) { while (!n.empty()) { size_t k = 1 + g.below(n.size()); std::vector<std::string> a(n.begin(), n.begin() + k); n.erase(n.begin(), n.begin() + k); St d; d.text = list(kw, a); d.gives.insert(a.begin(), a.end()); d.chain = chain; st.push_back(d); } };
	for (size_t k = 0; k < s.groups.size();) { auto& q = s.groups[k]; std::vector<std::string> n; for (int v : q.v) n.push_back(w.names[v]); size_t j = k + 1; if (q.kind == SysSpec::Ungrouped) while (j < s.groups.size() && s.groups[j].kind == SysSpec::Ungrouped && g.chance(50)) { n.push_back(w.names[s.groups[j].v[0]]); ++j; } St d; d.text = list(q.kind == SysSpec::Affine ? "variable_group" : q.kind == SysSpec::Hom ? "hom_variable_group" : "variable", n); d.gives.insert(n.begin(), n.end()); d.chain = 0; st.push_back(d); k = j; }
	if (s.path) { St d; d.text = list("pathvariable", {w.names[s.nv]}); d.gives = {w.names[s.nv]}; d.chain = -1; st.push_back(d); } if (ni) decl("implicit_parameter", std::vector<std::string>(w.names.begin() + s.total(), w.names.end()), 5);
	decl("function", fn, 1); decl("constant", cn, 2); decl("parameter", pn, 3); for (size_t i = 0; i < s.subf.size(); ++i) def(sn[i], s.subf[i]->ch[0], false, 4); for (size_t i = 0; i < s.consts.size(); ++i) def(cn[i], s.consts[i]->ch[0], true, -1); for (size_t i = 0; i < s.params.size(); ++i) def(pn[i], s.params[i]->ch[0], true, -1); for (size_t i = 0; i < s.f.size(); ++i) def(fn[i], s.f[i], true, -1);
	std::set<std::string> have; std::vector<bool> done(st.size()); for (size_t n = 0; n < st.size(); ++n) { std::vector<size_t> ready; std::set<int> blocked; for (size_t i = 0; i < st.size(); ++i) if (!done[i]) { bool can = st[i].chain < 0 || !blocked.count(st[i].chain); if (st[i].chain >= 0) blocked.insert(st[i].chain); for (auto& x : st[i].need) can &= have.count(x) > 0; if (can) ready.push_back(i); } if (ready.empty()) fail("harness: no statement is ready"); size_t i = ready[g.below(ready.size())]; done[i] = true; have.insert(st[i].gives.begin(), st[i].gives.end()); out.body += ws(false) + st[i].text + (g.chance(70) ? "\n" : ""); if (comments && g.chance(20)) out.body += " % END; some comment: INPUT, x = 3; CONFIG %%\n"; }
	if (comments) { std::string t; for (char ch : out.body) { bool in = ch == ' ' && g.chance(8); if (in && t.rfind('%') != std::string::npos && t.rfind('%') > (t.rfind('\n') == std::string::npos ? 0 : t.rfind('\n'))) in = false; if (in) t += " %inside; f = \n"; else t += ch; } out.body = t; }
	return out;
}
static std::string squeeze(std::string const& s) { std::string r; for (char c : s) if (!classic::sp(c)) r += c; return r; }
static std::string strip(std::string const& s) { std::string r; bool in = false; for (char c : s) { if (c == '%') in = true; if (c == '\n') in = false; if (!in) r += c; } return r; }
static std::string cased(Gen& g, std::string s) { for (char& c : s) if (g.chance(30)) c = char(std::tolower(c)); return s; }

static void sections(Gen& g) {
	quiet(); unsigned prec = some_prec(g); set_prec(prec); int sp[] = {0, 10, 40}; Text t = write_system(g, sp[g.below(3)], false); g.note(t.body); Model m = read_system(t.body); if (!m.unspecified.empty() && !m.unspecified.count("large power") && !m.unspecified.count("huge number")) fail("harness: generated text is unspecified: " + *m.unspecified.begin());
	bertini::System S; if (g.chance(50)) { try { S = bertini::System(t.body); } catch (std::exception& e) { PBT_CHECK(false, "rejected: " << e.what()); } } else { if (g.chance(50)) { auto z = bertini::node::Variable::Make("zz"); S.AddVariableGroup({z}); S.AddFunction(z * z); } bool ok = bertini::parsing::classic::parse(t.body.cbegin(), t.body.cend(), S); PBT_CHECK(ok, "rejected"); }
	if (agree(g, m, S, prec)) g.nontrivial(); }
static void mutated(Gen& g) {
	quiet(); set_prec(16); Text t = write_system(g, g.chance(30) ? 10 : 0, false); std::vector<std::string> w = t.names; for (auto k : {"variable", "function", "constant", "hom_variable_group ", ";", ",", "=", "pathvariable ", "random"}) w.push_back(k); t.body = classic::mutate(g, t.body, w, ";;==,,"); g.note(t.body); Model m; bool ok = true; std::string why; try { m = read_system(t.body); } catch (Reject& r) { ok = false; why = r.why; }
	bool lib = true; bertini::System S; try { S = bertini::System(t.body); } catch (std::runtime_error&) { lib = false; } if (m.unspecified.count("elementary name")) discard("elementary function's name"); PBT_CHECK(lib == ok, (lib ? "accepted" : "rejected") << " although " << (ok ? "it is well formed" : "it is not well formed: " + why)); g.label(ok ? "well formed" : "not well formed"); for (auto& u : m.unspecified) g.label(u); if (!ok || agree(g, m, S, 16)) g.nontrivial(); }
static void bytes(Gen& g) { quiet(); set_prec(16); int k = g.range(0, 80); std::string t; static const char* tok[] = {"variable_group ", "function ", "x", "y", "f", ",", ";", "=", "+", "^2", "(", ")", " ", "\n", "constant ", "END;", "INPUT", "CONFIG", "%", "pathvariable t;"}; for (int i = 0; i < k; ++i) if (g.chance(20)) t += char(g.below(256)); else t += tok[g.below(20)]; g.note(t); bool ascii = true; for (char c : t) ascii &= (unsigned char)c < 128 && c != 0; auto f = bertini::parsing::classic::ParseInputFile(t); (void)f; g.count(); if (ascii) { Model m; bool ok = true; try { m = read_system(t); } catch (Reject&) { ok = false; } bool lib = true; try { bertini::System S(t); } catch (std::runtime_error&) { lib = false; } PBT_CHECK(lib == ok, (lib ? "accepted" : "rejected") << " wrongly"); } else { try { bertini::System S(t); } catch (std::runtime_error&) {} } g.nontrivial(); }
static void files(Gen& g) {
	quiet(); unsigned prec = some_prec(g); set_prec(prec); Text t = write_system(g, 10, true); std::string plain = strip(t.body); Model m = read_system(plain);
	std::string conf; int k = g.range(0, 5); static const char* set[] = {"tracktype: 1;", "MPType : 0 ;", "FinalTol: 1e-9;", "InputTol: 3;", "SecurityLevel:1;", "odePredictor: 4;", "endgamenum: 2;", "blend: 1;", "Configure: 2;"}; for (int i = 0; i < k; ++i) { conf += set[g.below(9)]; if (g.chance(30)) conf += " % comment; END; INPUT"; conf += "\n"; }
	static const int kinds[] = {15, 14, 13, 12, 11, 10, 3, 2, 1, 0}; int kind = kinds[g.below(10)]; bool c = kind & 8, e1 = kind & 4, in = kind & 2, e2 = kind & 1; auto junk = [&]() { static const char* j[] = {"", "\n", "some words\n", "% END; INPUT CONFIG\n", " legend_ 1 2 3 \n"}; return std::string(j[g.below(5)]); }; std::string f; auto mark = [&](char const* w) { return cased(g, w) + (g.chance(50) ? "\n" : " "); };
	if (c) { if (g.chance(50)) f += junk(); f += mark("CONFIG") + conf; if (e1) f += mark("END;"); } if (in) { if (!c || e1) f += junk(); f += mark("INPUT"); } f += t.body + "\n"; if (e2) { f += mark("END;"); f += junk(); } g.note(f); g.label("markers " + std::to_string(kind));
	std::string config, input; if (g.chance(60)) { auto s = bertini::parsing::classic::ParseInputFile(f); PBT_CHECK(s.Readable(), "not readable"); config = s.Config(); input = s.Input(); } else { char dir[] = "/tmp/p15-XXXXXX"; if (!mkdtemp(dir)) discard("no scratch directory"); std::string path = std::string(dir) + "/input"; { std::ofstream o(path, std::ios::binary); o << f; } try { if (g.chance(50)) std::tie(config, input) = bertini::parsing::classic::SplitIntoConfigAndInput(bertini::Path(path)); else bertini::parsing::classic::SplitIntoConfigAndInput(config, input, bertini::Path(path)); } catch (...) { unlink(path.c_str()); rmdir(dir); throw; } unlink(path.c_str()); rmdir(dir); g.label("from disk"); }
	PBT_CHECK(squeeze(config) == squeeze(c ? strip(conf) : ""), "the configuration part is \"" << config << "\""); PBT_CHECK(squeeze(input) == squeeze(plain), "the input part is \"" << input << "\""); bertini::System S; try { S = bertini::System(input); } catch (std::exception& e) { PBT_CHECK(false, "rejected: " << e.what()); } if (agree(g, m, S, prec)) g.nontrivial(); }
static void unreadable(Gen& g) { quiet(); static const int kinds[] = {8, 7, 6, 5}; int kind = kinds[g.below(4)]; bool c = kind & 8, e1 = kind & 4, in = kind & 2, e2 = kind & 1; std::string f = g.chance(50) ? "abc " : "", b = "tracktype: 1;\n", d = "variable_group x;\nfunction f;\nf = x^2-1;\n"; if (c) f += cased(g, "CONFIG") + "\n"; f += b; if (e1) f += cased(g, "END;") + "\n"; if (in) f += cased(g, "INPUT") + "\n"; f += d; if (e2) f += cased(g, "END;") + "\n"; g.note(f); auto s = bertini::parsing::classic::ParseInputFile(f); PBT_CHECK(!s.Readable(), "a file with marker combination " << kind << " counts as readable"); g.nontrivial(); }
int main(int argc, char** argv) {
	Suite s; s.property = "P15"; s.assumptions = {"Names are declared before they are used; each function is defined once and definitions are not circular; at most one path variable; names of elementary functions and the words config, input and end are not declared as names.", "The markers CONFIG, INPUT and END; are whole words; text before CONFIG or INPUT and after the last END; holds no further markers except in comments."};
	s.subs = {
		{"sections", "random systems (groups of each kind, path variable, constants, parameters, implicit parameters, subfunctions, functions using functions) written as input sections with statements in any legal order, layout and names; structure and values; non-trivial: at least one compared point.", 9000, 90000, sections},
		{"mutated", "such sections after 1-3 random edits: accepted if and only if the independent reader accepts, then compared; non-trivial: rejected, or at least one compared point.", 9000, 90000, mutated},
		{"files", "whole files with each of the ten legal combinations of markers, in any letter case, with comments anywhere, from a string or from disk: both parts are split exactly and the system compared; non-trivial: at least one compared point.", 5000, 50000, files},
		{"unreadable", "combinations of markers which cannot be read are reported; all non-trivial.", 300, 2000, unreadable},
		{"bytes", "arbitrary mixtures of tokens and bytes are split and read or rejected without crashing; all non-trivial.", 3000, 30000, bytes},
	}; return run_main(s, argc, argv);
}
