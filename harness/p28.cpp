// P28: witness sets and object pools: histories of operations against a model, for every way of holding the objects.
#include "sysgen.hpp"
#include "bertini2/nag_datatypes/witness_set.hpp"
#include "bertini2/pool/system.hpp"
#include <set>
using namespace b2; using namespace pbt; namespace nd = bertini::nag_datatype; using bertini::System; using bertini::LinearSlice; using bertini::Vec;
template<class N> N number(Gen& g, unsigned p) { return scal<N>({g.small_int(50) / 4., g.small_int(50) / 4.}, p); }
template<class V> bool eq(V const& a, V const& b) { if (a.size() != b.size()) return false; for (int i = 0; i < a.size(); ++i) if (!(a(i) == b(i))) return false; return true; }
// what a held object is made of, and what must be reported for it
template<template<class> class P> struct Way; // copies forget the source, references and shared pointers follow it
template<> struct Way<nd::policy::Copy> { static constexpr bool follows = false; template<class T> static T const& hold(std::shared_ptr<T> const& p) { return *p; } };
template<> struct Way<nd::policy::Reference> { static constexpr bool follows = true; template<class T> static std::reference_wrapper<T> hold(std::shared_ptr<T> const& p) { return std::ref(*p); } };
template<> struct Way<nd::policy::SharedPtr> { static constexpr bool follows = true; template<class T> static std::shared_ptr<T> hold(std::shared_ptr<T> const& p) { return p; } };
struct Sliced { std::shared_ptr<LinearSlice> s; unsigned dim; Vec<dbl> at, val; };
struct Sysd { std::shared_ptr<System> s; size_t nv, nf, patches; Vec<dbl> at, val; };
static std::vector<std::shared_ptr<bertini::node::Variable>> mkvars(int n) { std::vector<std::shared_ptr<bertini::node::Variable>> v; for (int i = 0; i < n; ++i) v.push_back(bertini::node::Variable::Make("x" + std::to_string(i))); return v; }
static Vec<dbl> somewhere(Gen& g, int n) { Vec<dbl> v(n); for (int i = 0; i < n; ++i) v(i) = dbl(g.range(-8, 8) / 4., g.range(-8, 8) / 4.); return v; }
static Sliced make_slice(Gen& g) { int n = g.range(1, 5), d = g.range(0, n); bertini::VariableGroup v; for (auto& x : mkvars(n)) v.push_back(x); Sliced r; r.dim = d; bool hom = g.chance(30); r.s = std::make_shared<LinearSlice>(g.chance(50) ? LinearSlice::RandomComplex(v, d, hom, false) : LinearSlice::RandomReal(v, d, hom, false)); r.at = somewhere(g, n); if (d) r.val = r.s->Eval<dbl>(r.at); return r; }
static Sysd make_sys(Gen& g) { int groups = g.range(1, 3); Sysd r; r.s = std::make_shared<System>(); r.nv = r.nf = r.patches = 0; std::vector<std::shared_ptr<bertini::node::Variable>> all; bool proj = g.chance(40); for (int k = 0; k < groups; ++k) { int n = g.range(proj ? 2 : 1, 3); bertini::VariableGroup v; for (int i = 0; i < n; ++i) { v.push_back(bertini::node::Variable::Make("y" + std::to_string(all.size()))); all.push_back(v.back()); } if (proj) r.s->AddHomVariableGroup(v); else r.s->AddVariableGroup(v); r.nv += n; }
	int nf = g.range(0, 5); for (int k = 0; k < nf; ++k) { std::shared_ptr<bertini::node::Node> f; auto& a = all[g.below(all.size())]; if (proj) f = a * std::int64_t(g.range(1, 7)) ; else f = std::shared_ptr<bertini::node::Node>(pow(a, g.range(1, 3))) + all[g.below(all.size())] - std::shared_ptr<bertini::node::Node>(bertini::node::Integer::Make(g.range(0, 9))); r.s->AddFunction(f); ++r.nf; } if (proj && nf && g.chance(60)) { r.s->AutoPatch(); r.patches = groups; }
	r.at = somewhere(g, r.nv); if (r.s->NumTotalFunctions()) r.val = r.s->Eval<dbl>(r.at); return r; }
template<class N, template<class> class P> void witness(Gen& g) {
	constexpr bool follows = Way<P>::follows; using W = nd::WitnessSet<N, System, P>; using PT = std::shared_ptr<Vec<N>>; unsigned p = g.range(0, 1) ? 40 : 20; set_prec(p); using Held = typename P<Vec<N>>::HeldT; using Cont = nd::PointCont<Held>;
	struct Pt { PT src; Vec<N> v; }; std::vector<Sliced> slices; std::vector<Sysd> systems; std::vector<Pt> pool; // everything ever made stays alive
	int made = g.range(1, 3); for (int i = 0; i < made; ++i) { slices.push_back(make_slice(g)); systems.push_back(make_sys(g)); }
	auto point = [&] { if (pool.size() && g.chance(20)) return g.below(pool.size()); Pt q; q.v = Vec<N>(g.range(0, 4)); for (int i = 0; i < q.v.size(); ++i) q.v(i) = number<N>(g, p); q.src = std::make_shared<Vec<N>>(q.v); pool.push_back(q); return pool.size() - 1; };
	std::ostringstream tr; std::vector<size_t> who; std::vector<Vec<N>> kept; int sl = g.below(made), sy = g.below(made); Cont c0; auto fill = [&](Cont& c) { who.clear(); kept.clear(); int n = g.range(0, 4); for (int i = 0; i < n; ++i) { size_t k = point(); c.push_back(Way<P>::hold(pool[k].src)); who.push_back(k); kept.push_back(*pool[k].src); } }; 
	std::unique_ptr<W> w; bool bare = false; if constexpr (!std::is_same<P<N>, nd::policy::Reference<N>>::value) bare = g.chance(30);
	if (bare) { if constexpr (!std::is_same<P<N>, nd::policy::Reference<N>>::value) { w.reset(new W); PBT_CHECK(w->Degree() == 0 && w->GetPoints().empty(), "a new witness set has points"); w->SetSlice(Way<P>::hold(slices[sl].s)); w->SetSystem(Way<P>::hold(systems[sy].s)); tr << "made empty; "; } }
	else { fill(c0); w.reset(new W(c0, Way<P>::hold(slices[sl].s), Way<P>::hold(systems[sy].s))); tr << "made with " << who.size() << " points; "; c0.clear(); }
	int ops = g.range(1, 14), kinds = 0; bool changed = false; auto value = [&](size_t i) -> Vec<N> const& { return follows ? *pool[who[i]].src : kept[i]; };
	auto check = [&](W const& x) {
		PBT_CHECK(x.Degree() == who.size(), "degree " << x.Degree() << " with " << who.size() << " points: " << tr.str()); PBT_CHECK(x.GetPoints().size() == who.size(), "points"); for (size_t i = 0; i < who.size(); ++i) { PBT_CHECK(eq(x.GetPoint(i), value(i)), "point " << i << " of " << who.size() << " is not the one given: " << tr.str()); PBT_CHECK(&x[i] == &x.GetPoint(i), "operator[] and GetPoint differ"); PBT_CHECK(&x[i] == &P<Vec<N>>::AtGet(x.GetPoints()[i]), "GetPoints and GetPoint differ"); if (follows) PBT_CHECK(&x[i] == pool[who[i]].src.get(), "a point is held by reference but is another object"); else PBT_CHECK(&x[i] != pool[who[i]].src.get(), "a copy is no copy"); }
		for (size_t past : {size_t(0), size_t(1), size_t(2), size_t(g.below(1000)), size_t(-1) - who.size()}) { bool threw = false; try { x.GetPoint(who.size() + past); } catch (std::runtime_error const&) { threw = true; } PBT_CHECK(threw, "point " << who.size() + past << " of " << who.size() << " was handed out"); }
		auto& s = slices[sl]; PBT_CHECK(x.Dimension() == s.dim && x.GetSlice().Dimension() == s.dim, "dimension " << x.Dimension() << " of a slice of dimension " << s.dim << ": " << tr.str()); PBT_CHECK(x.GetSlice().NumVariables() == s.at.size(), "variables of the slice"); if (s.dim) PBT_CHECK(eq(Vec<dbl>(x.GetSlice().template Eval<dbl>(s.at)), s.val), "the slice is another"); PBT_CHECK(follows == (&x.GetSlice() == s.s.get()), "holding of the slice");
		auto& y = systems[sy]; PBT_CHECK(follows == (&x.GetSystem() == y.s.get()), "holding of the system"); PBT_CHECK(x.GetSystem().NumVariables() == y.nv && x.GetSystem().NumTotalFunctions() == y.nf + y.patches, "the system is another: " << tr.str()); if (y.val.size()) PBT_CHECK(eq(Vec<dbl>(x.GetSystem().template Eval<dbl>(y.at)), y.val), "the system evaluates differently");
		bool want = long(y.nv) - long(y.nf + y.patches) == long(s.dim); PBT_CHECK(x.IsConsistent() == want, (want ? "not " : "") << "consistent: " << y.nv << " variables, " << y.nf << " functions, " << y.patches << " patches, " << s.dim << " linears"); if (want) g.label("consistent"); else g.label("inconsistent"); };
	check(*w); for (int k = 0; k < ops; ++k) { int what = g.weighted({5, 2, 2, 2, 2, 2}); switch (what) {
		case 0: { size_t q = point(); w->AddPoint(Way<P>::hold(pool[q].src)); who.push_back(q); kept.push_back(*pool[q].src); tr << "add " << q << "; "; break; }
		case 1: { Cont c; fill(c); w->SetPoints(c); tr << "set " << who.size() << "; "; c.clear(); break; }
		case 2: sl = g.below(made); w->SetSlice(Way<P>::hold(slices[sl].s)); tr << "slice " << sl << "; "; break;
		case 3: sy = g.below(made); w->SetSystem(Way<P>::hold(systems[sy].s)); tr << "system " << sy << "; "; break;
		case 4: if (pool.size()) { size_t q = g.below(pool.size()); auto& v = *pool[q].src; if (v.size()) v(g.below(v.size())) = number<N>(g, p); changed = true; tr << "change " << q << "; "; } break;
		default: { W copy(*w); check(copy); if (g.chance(50)) { W other(*w); *w = copy; copy = other; } else w.reset(new W(std::move(copy))); tr << "copy; "; } }
		kinds |= 1 << what; check(*w); }
	g.note(tr.str()); if (changed) g.label("sources changed while held"); if (who.size() >= 2 && __builtin_popcount(kinds) >= 3) g.nontrivial();
}
template<template<class> class P> void both(Gen& g) { if (g.chance(50)) witness<dbl, P>(g); else witness<mpfr_complex, P>(g); }
// the dimension bookkeeping of classical components: a generic system of r equations in n unknowns, cut by a slice
static void components(Gen& g) { int n = g.range(1, 5), r = g.range(0, n), d = g.range(0, n); auto v = mkvars(n); System s; bertini::VariableGroup grp; for (auto& x : v) grp.push_back(x); s.AddVariableGroup(grp); for (int i = 0; i < r; ++i) s.AddFunction(std::shared_ptr<bertini::node::Node>(pow(v[i], 2)) - std::shared_ptr<bertini::node::Node>(bertini::node::Integer::Make(i + 1))); bool hom = r > 0 && g.chance(40); if (hom) { s.Homogenize(); s.AutoPatch(); } auto slice = LinearSlice::RandomComplex(grp, d, false, false); nd::WitnessSet<dbl> w(nd::PointCont<Vec<dbl>>{}, slice, s);
	std::ostringstream o; o << r << " equations in " << n << (hom ? " unknowns, homogenized and patched" : " unknowns") << ", slice of dimension " << d; g.note(o.str()); PBT_CHECK(w.IsConsistent() == (n - r == d), "consistency"); PBT_CHECK(int(w.Dimension()) == d, "dimension"); if (d > 0) g.nontrivial(); if (n - r == d) g.label("consistent"); }
// pools
struct Thing { static int alive, made; int v; std::string s; Thing(int v = 0, std::string s = "") : v(v), s(s) { ++alive; ++made; } Thing(Thing const& o) : v(o.v), s(o.s) { ++alive; ++made; } Thing(Thing&& o) : v(o.v), s(std::move(o.s)) { o.v = -1; ++alive; ++made; } Thing& operator=(Thing const&) = default; ~Thing() { --alive; } };
int Thing::alive = 0, Thing::made = 0; struct ThingPool : bertini::detail::Pool<Thing> {};
static void pools(Gen& g) { // one pool per process: it is static; every case runs in a process of its own
	struct Entry { std::weak_ptr<Thing> w; int id; std::string s; int user = 0, pool = 0; }; std::vector<Entry> e; std::vector<std::pair<std::shared_ptr<Thing>, int>> user; std::ostringstream tr; int ops = g.range(1, 30), kinds = 0, next = 1, purged = 0;
	auto note = [&](std::shared_ptr<Thing> p, int id, std::string s) { PBT_CHECK(p && p->v == id && p->s == s, "the pool gives an object with " << (p ? p->v : 0) << "," << (p ? p->s : "") << " instead of " << id << "," << s); Entry x; x.w = p; x.id = id; x.s = s; x.user = 1; x.pool = 1; e.push_back(x); if (g.chance(60)) user.push_back({p, int(e.size()) - 1}); else e.back().user = 0; };
	auto check = [&] { int live = 0; for (auto& x : e) { bool want = x.user + x.pool > 0; PBT_CHECK(want == !x.w.expired(), "object " << x.id << (want ? " is gone" : " is still held") << ": " << tr.str()); if (want) { ++live; PBT_CHECK(x.w.use_count() == x.user + x.pool, "object " << x.id << " is held " << x.w.use_count() << " times instead of " << x.user + x.pool << ": " << tr.str()); auto p = x.w.lock(); PBT_CHECK(p->v == x.id && p->s == x.s, "object " << x.id << " changed to " << p->v << ": " << tr.str()); } } PBT_CHECK(Thing::alive == live, Thing::alive << " objects exist, " << live << " are held: " << tr.str()); };
	for (int k = 0; k < ops; ++k) { int what = g.weighted({3, 3, 3, 4, 3, 1}); switch (what) {
		case 0: { int id = next++; std::string s(g.range(0, 30), 'a'); Thing t(id, s); auto p = ThingPool::NonPtrAdd(t); PBT_CHECK(p.get() != &t && t.v == id && t.s == s, "the object added is no copy"); note(p, id, s); tr << "add " << id << "; "; break; }
		case 1: { int id = next++; std::string s(g.range(0, 30), 'b'); auto q = std::make_shared<Thing>(id, s); auto p = ThingPool::PtrAdd(q); PBT_CHECK(p == q, "another object came back"); q.reset(); note(p, id, s); tr << "ptr " << id << "; "; break; }
		case 2: { int id = next++; std::string s(g.range(0, 30), 'c'); int before = Thing::made; auto p = g.chance(20) ? (id = 0, s = "", --next, ThingPool::Make()) : ThingPool::Make(id, s); PBT_CHECK(Thing::made == before + 1, Thing::made - before << " objects were made instead of one"); note(p, id, s); tr << "make " << id << "; "; break; }
		case 3: if (user.size()) { size_t i = g.below(user.size()); tr << "drop " << e[user[i].second].id << "; "; --e[user[i].second].user; user.erase(user.begin() + i); } break;
		case 4: ThingPool::PurgeCache(); for (auto& x : e) if (x.pool == 1 && x.user == 0) { x.pool = 0; ++purged; } tr << "purge; "; break;
		default: if (user.size()) { size_t i = g.below(user.size()); if (g.chance(50)) { ThingPool::PtrAdd(user[i].first); ++e[user[i].second].pool; tr << "again " << e[user[i].second].id << "; "; } else { user.push_back(user[i]); ++e[user[i].second].user; } } }
		kinds |= 1 << what; check(); }
	g.note(tr.str()); if (purged && user.size()) { g.nontrivial(); g.label("purged some, kept some"); }
}
static void systems(Gen& g) { // systems and points in their pools
	if (g.chance(50)) { std::vector<std::pair<std::shared_ptr<System>, Sysd>> held; int n = g.range(1, 6); for (int i = 0; i < n; ++i) { Sysd s = make_sys(g); std::shared_ptr<System> p; switch (g.below(3)) { case 0: p = bertini::SystemPool::NonPtrAdd(*s.s); PBT_CHECK(p != s.s, "no copy"); break; case 1: p = bertini::SystemPool::PtrAdd(s.s); PBT_CHECK(p == s.s, "no sharing"); break; default: p = bertini::SystemPool::Make(*s.s); PBT_CHECK(p != s.s, "no copy"); } held.push_back({p, s}); if (g.chance(40)) bertini::SystemPool::PurgeCache(); if (held.size() > 1 && g.chance(30)) held.erase(held.begin() + g.below(held.size())); for (auto& [q, m] : held) { PBT_CHECK(q->NumVariables() == m.nv && q->NumTotalFunctions() == m.nf + m.patches, "a system of the pool changed"); if (m.val.size()) PBT_CHECK(eq(Vec<dbl>(q->Eval<dbl>(m.at)), m.val), "a system of the pool evaluates differently"); } } if (n > 2) g.nontrivial(); }
	else { using PP = bertini::PointPool<mpfr_complex>; unsigned p = 30; set_prec(p); std::vector<std::pair<std::shared_ptr<Vec<mpfr_complex>>, Vec<mpfr_complex>>> held; int n = g.range(1, 8); for (int i = 0; i < n; ++i) { Vec<mpfr_complex> v(g.range(1, 4)); for (int j = 0; j < v.size(); ++j) v(j) = number<mpfr_complex>(g, p); std::shared_ptr<Vec<mpfr_complex>> q; switch (g.below(3)) { case 0: q = PP::NonPtrAdd(v); break; case 1: q = PP::PtrAdd(std::make_shared<Vec<mpfr_complex>>(v)); break; default: q = PP::Make(v); } held.push_back({q, v}); if (g.chance(40)) PP::PurgeCache(); if (held.size() > 1 && g.chance(30)) held.erase(held.begin() + g.below(held.size())); for (auto& [q, m] : held) PBT_CHECK(eq(*q, m), "a point of the pool changed"); } if (n > 2) g.nontrivial(); }
}
int main(int argc, char** argv) {
	Suite s; s.property = "P28"; const char* rule = "histories of up to 14 operations on a witness set in either number type, against a model; sources are changed while held; non-trivial: at least 2 points at the end and 3 kinds of operation";
	s.subs = {{"copies", rule, 2500, 60000, both<nd::policy::Copy>}, {"references", rule, 2000, 50000, both<nd::policy::Reference>}, {"shared", rule, 2000, 50000, both<nd::policy::SharedPtr>},
		{"components", "r equations in n unknowns, natural or homogenized and patched, and a slice; non-trivial: slices of positive dimension", 1500, 30000, components},
		{"pools", "histories of up to 30 operations on an object pool, against a model of who holds what; non-trivial: something was purged while something else was held", 4000, 100000, pools},
		{"typed pools", "systems and points in their pools; non-trivial: at least 3 objects", 1200, 25000, systems}};
	return run_main(s, argc, argv);
}
