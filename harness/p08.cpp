// Systems mean what their construction history says: model-based histories over several live systems.
#include "sysgen.hpp"
#include <set>
using namespace pbt; using namespace b2; using ref::Op; using ref::P;
using bertini::System; using bertini::EvalMethod; using bertini::DerivMethod; using bertini::Vec;

namespace {
struct Model {
	std::vector<P> f; std::vector<SysSpec::Grp> groups; std::vector<int> homvar; bool path = false, clone = false;
	bool patched = false; int patch_id = -1;
	std::vector<int> order() const { std::vector<int> r; for (size_t i = 0; i < groups.size(); ++i) { if (homvar[i] >= 0) r.push_back(homvar[i]); for (int v : groups[i].v) r.push_back(v); } return r; }
	bool same_vars(Model const& o) const { return !clone && !o.clone && order() == o.order() && groups.size() == o.groups.size() && homvar == o.homvar && std::equal(groups.begin(), groups.end(), o.groups.begin(), [](auto& a, auto& b) { return a.kind == b.kind && a.v == b.v; }); }
};
struct Live { std::unique_ptr<System> s; Model m; };
using PatchCoef = std::vector<std::vector<std::complex<double>>>;

struct World {
	Gen& g; int nref; int tv; std::vector<VarP> vars; std::vector<Live> live; unsigned prec; std::vector<PatchCoef> patches; std::vector<P> pool; std::vector<NodeP> poolnode; Builder& B; int checks = 0, ops = 0; bool used_multi = false;
	World(Gen& g_, Builder& b) : g(g_), B(b) {}

	template<class T> void check(Live& L, std::string const& when) {
		auto& sys = *L.s; auto& m = L.m; auto order = m.order();
		PBT_CHECK(sys.NumNaturalFunctions() == m.f.size(), when << "has " << sys.NumNaturalFunctions() << " functions, expected " << m.f.size());
		PBT_CHECK(sys.HavePathVariable() == m.path, when << "path variable presence is wrong"); PBT_CHECK(sys.IsPatched() == m.patched, when << "patched flag is " << sys.IsPatched());
		size_t np = 0; if (m.patched) for (auto& q : m.groups) np += q.kind != SysSpec::Ungrouped; PBT_CHECK(sys.NumPatches() == np && sys.NumTotalFunctions() == m.f.size() + np, when << "patch count");
		auto ord = sys.Variables(); PBT_CHECK(ord.size() == order.size() && sys.NumVariables() == order.size(), when << "has " << ord.size() << " variables, expected " << order.size());
		for (size_t i = 0; i < ord.size(); ++i) { if (m.clone) PBT_CHECK(ord[i]->name() == vars[order[i]]->name() && ord[i] != vars[order[i]], when << "variable " << i << " of the clone is " << ord[i]->name()); else PBT_CHECK(ord[i] == vars[order[i]], when << "variable " << i << " is " << ord[i]->name() << ", expected " << vars[order[i]]->name()); }
		size_t na = 0, nh = 0, nu = 0; for (auto& q : m.groups) { na += q.kind == SysSpec::Affine; nh += q.kind == SysSpec::Hom; nu += q.kind == SysSpec::Ungrouped; }
		PBT_CHECK(sys.NumVariableGroups() == na && sys.NumHomVariableGroups() == nh && sys.NumUngroupedVariables() == nu, when << "group counts");
		auto p = ref::point(g, nref); std::vector<ref::Val> v; for (auto& e : m.f) { v.push_back(ref::eval(e, ref::lift(p))); if (v.back().bad) return; }
		std::vector<std::complex<double>> o; for (int k : order) o.push_back(p[k]); auto x = vec<T>(o, prec); T t = scal<T>(p[tv], prec);
		auto tol = [&](ref::R const& b, ref::C const& c) { ref::R e = eps_for<T>(prec); return ref::R(e * ref::R(20000) * (b + ref::mag(c)) + e * e * ref::R(1e12)); };
		if (g.chance(70)) { Vec<T> r = m.path ? sys.Eval(x, t) : sys.Eval(x); for (size_t i = 0; i < v.size(); ++i) PBT_CHECK(ref::close(up(r(i)), v[i].v, tol(v[i].e, v[i].v)), when << "function " << i << " has value " << str(up(r(i))) << ", its history says " << str(v[i].v)); 
			if (m.patched && !patches[m.patch_id].empty()) { size_t at = 0; auto& pc = patches[m.patch_id]; for (size_t k = 0; k < np; ++k) { ref::C w(-1); ref::R mm(1); for (auto& c : pc[k]) { auto term = ref::toC(c) * ref::toC(o[at++]); w += term; mm += ref::mag(term); } PBT_CHECK(ref::close(up(r(v.size() + k)), w, eps_dbl() * 100 * mm), when << "patch equation " << k << " has value " << str(up(r(v.size() + k))) << ", expected " << str(w)); } } }
		if (g.chance(60)) { Mat<T> J = m.path ? sys.Jacobian(x, t) : sys.Jacobian(x); for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < order.size(); ++j) PBT_CHECK(ref::close(up(J(i, j)), v[i].d[order[j]], tol(v[i].de[order[j]], v[i].d[order[j]])), when << "d f" << i << "/d x" << order[j] << " is " << str(up(J(i, j))) << ", its history says " << str(v[i].d[order[j]]));
			if (m.patched) learn<T>(m, J, v.size(), when); }
		if (m.path && g.chance(40)) { Vec<T> r = sys.TimeDerivative(x, t); for (size_t i = 0; i < v.size(); ++i) PBT_CHECK(ref::close(up(r(i)), v[i].d[tv], tol(v[i].de[tv], v[i].d[tv])), when << "d f" << i << "/dt is " << str(up(r(i))) << ", its history says " << str(v[i].d[tv])); }
		++checks;
	}
	template<class T> void learn(Model& m, Mat<T> const& J, size_t nf, std::string const& when) {
		PatchCoef pc; size_t at = 0, k = 0; for (size_t i = 0; i < m.groups.size(); ++i) { size_t n = m.groups[i].v.size() + (m.homvar[i] >= 0); if (m.groups[i].kind == SysSpec::Ungrouped) { at += n; continue; } pc.emplace_back(); for (size_t c = 0; c < n; ++c) { auto z = up(J(nf + k, at++)); pc.back().push_back({z.real().template convert_to<double>(), z.imag().template convert_to<double>()}); } ++k; }
		auto& known = patches[m.patch_id]; if (known.empty()) { known = pc; return; }
		for (size_t i = 0; i < pc.size(); ++i) for (size_t j = 0; j < pc[i].size(); ++j) PBT_CHECK(std::abs(pc[i][j] - known[i][j]) < 1e-14 * std::abs(known[i][j]) + 1e-300, when << "the patch is not the one it was given"); }
	void check_one(int i, std::string const& when) { std::string w = when + "system " + std::to_string(i) + ": "; if (g.chance(60)) check<dbl>(live[i], w); else check<mpfr_complex>(live[i], w); }
	int any() { return int(g.below(live.size())); }
	// the point in history where patch coefficients are read off
	void new_patch(Live& L) { L.m.patched = true; L.m.patch_id = patches.size(); patches.emplace_back(); auto& m = L.m; auto order = m.order(); auto p = ref::point(g, nref); std::vector<std::complex<double>> o; for (int k : order) o.push_back(std::complex<double>(1)); auto x = vec<dbl>(o, prec); auto J = L.s->GetPatch().Jacobian(x); learn<dbl>(m, J, 0, "new patch: "); }
	P multiplier(NodeP& n) { P e; switch (g.below(3)) { case 0: e = ref::num(g.range(-3, 3)); break; case 1: e = ref::num(ref::Q(g.range(1, 5), 3), ref::Q(g.range(-2, 2))); break; default: { auto& gr = live[0].m.groups; auto& q = gr[g.below(gr.size())]; e = ref::sum({ref::var(q.v[g.below(q.v.size())]), ref::num(g.range(0, 2))}, {true, true}); } } n = B.build(e); return e; }
	std::string nm(int i) { return "s" + std::to_string(i); }
	Live& push(std::unique_ptr<System> s, Model m) { live.push_back({std::move(s), std::move(m)}); return live.back(); }

	void op() {
		++ops; int i = any(), j = any(); auto& A = live[i]; 
		switch (g.below(20)) {
			case 0: if (live.size() < 6) { g.note(nm(live.size()) + " = copy of " + nm(i)); auto m = A.m; push(std::make_unique<System>(*A.s), m); } break;
			case 1: if (i != j) { g.note(nm(i) + " = " + nm(j)); *A.s = *live[j].s; A.m = live[j].m; } else { g.note(nm(i) + " = itself"); System& r = *A.s; *A.s = r; } break;
			case 2: if (live.size() < 6) { g.note(nm(live.size()) + " = move(copy of " + nm(i) + ")"); System c(*A.s); auto m = A.m; push(std::make_unique<System>(std::move(c)), m); } break;
			case 3: { g.note(nm(i) + " = move(copy of " + nm(j) + ")"); System c(*live[j].s); auto m = live[j].m; *A.s = std::move(c); A.m = m; } break;
			case 4: if (i != j) { g.note("swap " + nm(i) + ", " + nm(j)); swap(*A.s, *live[j].s); std::swap(A.m, live[j].m); } break;
			case 5: { if (A.m.clone) break; size_t k = g.below(pool.size()); g.note(nm(i) + " add function " + ref::show(pool[k])); auto asf = std::dynamic_pointer_cast<bertini::node::Function>(poolnode[k]); if (asf && g.chance(70)) { if (g.chance(30)) A.s->AddFunctions({asf}); else A.s->AddFunction(asf); } else A.s->AddFunction(poolnode[k], "g" + std::to_string(ops)); A.m.f.push_back(pool[k]); } break;
			case 6: case 7: { // addition
				auto& B2 = live[j]; bool sv = A.m.same_vars(B2.m); if (!sv) { if (A.m.f.size() != B2.m.f.size()) { refuse([&] { *A.s += *B2.s; }, "adding systems with different numbers of functions"); } break; }
				if (A.m.path != B2.m.path && !A.m.path) break;
				if (A.m.f.size() != B2.m.f.size()) { refuse([&] { *A.s += *B2.s; }, "adding systems with different numbers of functions"); break; }
				if (A.m.patched && B2.m.patched && A.m.patch_id != B2.m.patch_id) { refuse([&] { *A.s += *B2.s; }, "adding systems with different patches"); break; }
				Model m = A.m; for (size_t k = 0; k < m.f.size(); ++k) m.f[k] = ref::sum({m.f[k], B2.m.f[k]}, {true, true}); if (!m.patched && B2.m.patched) { m.patched = true; m.patch_id = B2.m.patch_id; }
				if (g.chance(50) || live.size() >= 6) { g.note(nm(i) + " += " + nm(j)); *A.s += *B2.s; A.m = m; } else { g.note(nm(live.size()) + " = " + nm(i) + " + " + nm(j)); auto s = std::make_unique<System>(*A.s + *B2.s); push(std::move(s), m); } used_multi = true; } break;
			case 8: case 9: { // multiplication by an expression
				if (A.m.clone) break; NodeP n; P e = multiplier(n); Model m = A.m; for (auto& f : m.f) f = ref::mult({e, f}, {true, true});
				int how = g.below(3); if (live.size() >= 6) how = 0; g.note((how ? nm(live.size()) + " = " : "") + nm(i) + " * " + ref::show(e));
				if (how == 0) { *A.s *= n; A.m = m; } else { auto s = how == 1 ? std::make_unique<System>(*A.s * n) : std::make_unique<System>(n * *A.s); push(std::move(s), m); } used_multi = true; } break;
			case 10: { // concatenation
				if (live.size() >= 6) break; auto& B2 = live[j]; if (A.m.order() != B2.m.order() || A.m.clone != B2.m.clone) { refuse([&] { Concatenate(*A.s, *B2.s); }, "concatenating systems in different variables"); break; } if (A.m.clone && i != j) break; if (A.m.path != B2.m.path) break; if (!A.m.clone && !A.m.same_vars(B2.m)) break;
				if (A.m.patched && B2.m.patched && A.m.patch_id != B2.m.patch_id) { refuse([&] { Concatenate(*A.s, *B2.s); }, "concatenating systems with different patches"); break; }
				g.note(nm(live.size()) + " = concatenate " + nm(i) + ", " + nm(j)); Model m = A.m; m.f.insert(m.f.end(), B2.m.f.begin(), B2.m.f.end()); if (!m.patched && B2.m.patched) { m.patched = true; m.patch_id = B2.m.patch_id; } auto s = std::make_unique<System>(Concatenate(*A.s, *B2.s)); push(std::move(s), m); used_multi = true; } break;
			case 11: { // reordering
				bool dec = g.chance(50); std::vector<std::shared_ptr<bertini::node::Function>> before; for (size_t k = 0; k < A.m.f.size(); ++k) before.push_back(A.s->Function(k)); g.note(nm(i) + " reorder by degree " + (dec ? "decreasing" : "increasing")); if (dec) A.s->ReorderFunctionsByDegreeDecreasing(); else A.s->ReorderFunctionsByDegreeIncreasing();
				std::vector<bool> all(nref, false); for (int v : A.m.order()) all[v] = true; std::vector<P> nf; std::vector<bool> taken(before.size()); for (size_t k = 0; k < before.size(); ++k) { bool found = false; for (size_t l = 0; l < before.size() && !found; ++l) if (!taken[l] && A.s->Function(k) == before[l]) { taken[l] = found = true; nf.push_back(A.m.f[l]); } PBT_CHECK(found, "reordering lost a function"); }
				A.m.f = nf; for (size_t k = 0; k + 1 < nf.size(); ++k) { int a = ref::sdeg(nf[k], all), b = ref::sdeg(nf[k + 1], all); if (a < 0 || b < 0) continue; PBT_CHECK(dec ? a >= b : a <= b, "not sorted by degree: " << a << " before " << b); } } break;
			case 12: if (!A.m.path && !A.m.clone) { // time
				g.note(nm(i) + " add path variable"); A.s->AddPathVariable(vars[tv]); A.m.path = true; } break;
			case 13: if (live.size() < 6) { g.note(nm(live.size()) + " = clone of " + nm(i)); auto m = A.m; m.clone = true; auto s = std::make_unique<System>(Clone(*A.s)); push(std::move(s), m); } break;
			case 14: { prec = some_prec(g); g.note("precision " + std::to_string(prec)); set_prec(prec); vars[tv]->precision(prec); for (auto& L : live) L.s->precision(prec); } break;
			case 15: { bool slp = g.chance(50), jn = g.chance(50); g.note(nm(i) + (slp ? " SLP" : " tree") + (jn ? " Jacobian nodes" : " derivatives")); A.s->SetEvalMethod(slp ? EvalMethod::SLP : EvalMethod::FunctionTree); A.s->SetDerivMethod(jn ? DerivMethod::JacobianNode : DerivMethod::Derivatives); } break;
			case 16: { if (!A.s->IsHomogeneous()) break; bool un = false; for (auto& q : A.m.groups) un |= q.kind == SysSpec::Ungrouped; if (un) break; g.note(nm(i) + " auto patch"); A.s->AutoPatch(); new_patch(A); } break;
			case 17: { auto& B2 = live[j]; if (i == j || A.m.clone || !B2.m.patched || !A.m.same_vars(B2.m)) break; g.note(nm(i) + " copies patch of " + nm(j)); A.s->CopyPatches(*B2.s); A.m.patched = true; A.m.patch_id = B2.m.patch_id; } break;
			case 18: if (live.size() < 6 && !A.m.clone) { // a fresh system in the same variables
				g.note(nm(live.size()) + " = new system with the variables of " + nm(i)); auto s = std::make_unique<System>(); Model m = A.m; m.f.clear(); m.patched = false; m.patch_id = -1; 
				bool after = g.chance(40); auto struc = [&] { if (g.chance(25)) { s->AddVariableGroup({vars[A.m.order()[0]]}); (void)s->Variables(); } s->CopyVariableStructure(*A.s); }; if (!after) struc(); int n = g.range(1, 3); for (int k = 0; k < n; ++k) { size_t w = g.below(pool.size()); s->AddFunction(poolnode[w], "h" + std::to_string(k)); m.f.push_back(pool[w]); } if (after) struc(); s->precision(prec); push(std::move(s), m); } break;
			default: { if (A.m.clone) break; bool hz = false; for (int h : A.m.homvar) hz |= h >= 0; if (hz) break; // regroup from scratch
				g.note(nm(i) + " regroup"); A.s->ClearVariables(); auto ord = A.m.order(); for (size_t k = ord.size(); k > 1; --k) std::swap(ord[k - 1], ord[g.below(k)]); A.m.groups.clear(); A.m.homvar.clear(); A.m.patched = false; A.m.patch_id = -1; size_t at = 0; while (at < ord.size()) { int n = g.range(1, int(ord.size() - at)); SysSpec::Grp q{SysSpec::Kind(g.below(3)), {}}; if (q.kind == SysSpec::Ungrouped) n = 1; VarGroup vg; for (int k = 0; k < n; ++k) { q.v.push_back(ord[at]); vg.push_back(vars[ord[at++]]); } if (q.kind == SysSpec::Affine) A.s->AddVariableGroup(vg); else if (q.kind == SysSpec::Hom) A.s->AddHomVariableGroup(vg); else A.s->AddUngroupedVariable(vg[0]); A.m.groups.push_back(q); A.m.homvar.push_back(-1); if (g.chance(20)) (void)A.s->Variables(); }
				if (A.m.path) A.s->AddPathVariable(vars[tv]); } break;
		}
	}
	template<class F> void refuse(F f, std::string const& what) { g.label("refusal"); bool threw = false; try { f(); } catch (std::exception const&) { threw = true; } PBT_CHECK(threw, what << " was accepted"); }
};

void history(Gen& g) {
	SysCfg c; c.maxv = 4; c.depth = 2; c.maxf = 5; c.maxpow = 2; c.max_groups = 2; int style = g.below(3); if (style == 1) { c.affine = c.ungrouped = false; } if (style == 2) { c.ungrouped = false; } auto s = gen_spec(g, c);
	unsigned prec = g.chance(50) ? 30 : some_prec(g); set_prec(prec); Built b = build(g, s); World w(g, *b.b); w.prec = prec; w.tv = s.nv; g.note("s0: " + s.show());
	w.vars = b.vars; VarP t = s.path ? b.t : bertini::node::Variable::Make("t"); w.vars.push_back(t); w.nref = s.nv + 1;
	Model m; m.f = s.f; m.groups = s.groups; m.homvar.assign(s.groups.size(), -1); m.path = s.path;
	if (!s.path) { /* reference variable nv is time, unused so far */ }
	auto sys = std::make_unique<System>(b.sys);
	bool hom = style == 2 && g.chance(70);
	if (hom) { SysSpec s2 = s; bool addt = !s.path; if (addt) s2.path = true; auto h = homogenize(s2); bool big = false; for (auto& d : h.deg) for (int x : d) big |= x > 10; bool aff = false; for (auto& q : s.groups) aff |= q.kind == SysSpec::Affine; if (h.ok && !big && aff) { sys->Homogenize(); g.note("homogenized"); m.f = h.f; m.homvar = h.homvar; auto ord = sys->Variables(); PBT_CHECK(ord.size() == h.order.size(), "ordering"); for (int v : h.homvar) if (v >= 0) { if (int(w.vars.size()) <= v) w.vars.resize(v + 1); w.nref = std::max(w.nref, v + 1); } for (size_t k = 0; k < ord.size(); ++k) w.vars[h.order[k]] = ord[k]; g.label("homogenized"); } }
	for (size_t k = 0; k < m.f.size(); ++k) { w.pool.push_back(m.f[k]); w.poolnode.push_back(sys->Function(k)); }
	// multipliers may use time too
	w.push(std::move(sys), m); w.B.vars = w.vars;
	if (g.chance(50)) w.check_one(0, "at the beginning ");
	int n = g.range(2, 14); for (int k = 0; k < n; ++k) { w.op(); if (g.chance(45)) w.check_one(w.any(), "after step " + std::to_string(k) + " "); for (auto& L : w.live) { size_t sz = 0; for (auto& f : L.m.f) sz += f->size; if (sz > 3000 || L.m.f.size() > 12) { k = n; break; } } }
	for (size_t i = 0; i < w.live.size(); ++i) { std::string x = "at the end system " + std::to_string(i) + ": "; w.check<dbl>(w.live[i], x); if (g.chance(50)) w.check<mpfr_complex>(w.live[i], x); }
	g.label("live systems " + std::to_string(w.live.size())); if (w.live.size() >= 2 && w.checks >= 2) g.nontrivial();
}

// the homotopy (1-t) F + gamma t G as the solvers form it
void homotopy(Gen& g) {
	SysCfg c; c.maxv = 3; c.depth = 3; c.maxf = 4; c.path = 0; auto s = gen_spec(g, c); if (s.f.size() < 2) discard("one function"); unsigned prec = some_prec(g); set_prec(prec); size_t half = s.f.size() / 2; SysSpec a = s; a.f.assign(s.f.begin(), s.f.begin() + half); std::vector<P> gf(s.f.begin() + half, s.f.begin() + 2 * half);
	Built b = build(g, a); System G; G.CopyVariableStructure(b.sys); for (size_t i = 0; i < half; ++i) G.AddFunction(b.b->build(gf[i]), "g" + std::to_string(i)); g.note(s.show()); int tv = s.nv;
	auto t = bertini::node::Variable::Make("t"); auto gamma = ref::num(ref::Q(3, 7), ref::Q(2, 5)); auto gn = b.b->build(gamma); NodeP tn = t;
	auto use = [&](System& S, std::vector<P> const& f, std::string const& w) { auto p = ref::point(g, s.nv); std::vector<ref::Val> v; for (auto& e : f) { v.push_back(ref::eval(e, ref::lift(p))); if (v.back().bad) return; } std::vector<std::complex<double>> o; for (int k : s.order()) o.push_back(p[k]); auto r = S.Eval(vec<dbl>(o, prec)); for (size_t i = 0; i < half; ++i) PBT_CHECK(ref::close(up(r(i)), v[i].v, eps_dbl() * 20000 * (v[i].e + ref::mag(v[i].v))), w << "function " << i << " has value " << str(up(r(i))) << ", expected " << str(v[i].v)); };
	if (g.chance(50)) { use(b.sys, a.f, "target before: "); use(G, gf, "start before: "); }
	System H = g.chance(50) ? System((1 - tn) * b.sys + gn * tn * G) : System(b.sys * (1 - tn) + G * (gn * tn)); H.AddPathVariable(t);
	std::vector<P> hf; P T = ref::var(tv); for (size_t i = 0; i < half; ++i) hf.push_back(ref::sum({ref::mult({ref::sum({ref::num(1), T}, {true, false}), a.f[i]}, {true, true}), ref::mult({gamma, T, gf[i]}, {true, true, true})}, {true, true}));
	for (int rep = 0; rep < 2; ++rep) { auto p = ref::point(g, s.nv + 1); std::vector<ref::Val> v; bool bad = false; for (auto& e : hf) { v.push_back(ref::eval(e, ref::lift(p))); bad |= v.back().bad; } if (bad) continue; std::vector<std::complex<double>> o; auto order = s.order(); for (int k : order) o.push_back(p[k]); auto go = [&](auto tag) { using N = decltype(tag); auto x = vec<N>(o, prec); N tt = scal<N>(p[tv], prec); auto tol = [&](ref::R const& bb, ref::C const& cc) { ref::R e = eps_for<N>(prec); return ref::R(e * ref::R(20000) * (bb + ref::mag(cc)) + e * e * ref::R(1e12)); }; Vec<N> r = H.Eval(x, tt), d = H.TimeDerivative(x, tt); Mat<N> J = H.Jacobian(x, tt); for (size_t i = 0; i < half; ++i) { PBT_CHECK(ref::close(up(r(i)), v[i].v, tol(v[i].e, v[i].v)), "homotopy value " << i << " is " << str(up(r(i))) << " expected " << str(v[i].v)); PBT_CHECK(ref::close(up(d(i)), v[i].d[tv], tol(v[i].de[tv], v[i].d[tv])), "homotopy time derivative " << i << " is " << str(up(d(i))) << " expected " << str(v[i].d[tv])); for (size_t j = 0; j < order.size(); ++j) PBT_CHECK(ref::close(up(J(i, j)), v[i].d[order[j]], tol(v[i].de[order[j]], v[i].d[order[j]])), "homotopy Jacobian " << i << "," << j); } }; if (g.chance(50)) go(dbl()); else go(mpfr_complex()); }
	use(b.sys, a.f, "target after forming the homotopy: "); use(G, gf, "start after forming the homotopy: "); g.nontrivial();
}
}
int main(int argc, char** argv) {
	Suite s; s.property = "P08";
	s.subs = {
		{"history", "one generated system (all group kinds, possibly homogenized) and 2-14 operations over up to 6 live systems: copy, assign, move, swap, add functions, +, +=, *, *=, concatenate, reorder, path variable, clone, precision, methods, auto patch, copy patches, copy variable structure, regroup; structure, values, derivatives and patches of each against a model list of expressions; non-trivial = at least 2 systems and 2 comparisons.", 14000, 150000, history},
		{"homotopy", "(1-t)F + gamma t G formed with the system operators, and F and G unchanged afterwards; all non-trivial.", 5000, 50000, homotopy},
	};
	s.assumptions = {"copies of a system share expression nodes by design: homogenizing one system homogenizes shared functions, so homogenization happens before copies are made", "all live systems are moved to a new precision together, because they share variables"};
	return run_main(s, argc, argv);
}
