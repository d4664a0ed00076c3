#include "p29.hpp"
namespace b2 {
void run_shape(Gen& g) { // any options, built without solving; building twice gives two algorithms
	auto rt = gen_rt(g); int st = g.below(3); rt.start = st == 0 ? bb::type::Start::TotalDegree : st == 1 ? bb::type::Start::MHom : bb::type::Start::User; set_prec(gen_p(g, rt)); static const char* n[] = {"total degree", "multihomogeneous", "user"}; g.label(n[st]); g.note(n[st]); ZdCfg c; c.maxgroups = st == 1 ? 2 : 1; Zd z = gen_zd(g, c);
	if (st == 2) { bool threw = false; try { auto zd = bb::MakeZeroDim(rt, z.b.sys); } catch (std::exception const&) { threw = true; } PBT_CHECK(threw, "a user start system is made up"); auto target = bertini::Clone(z.b.sys); target.Homogenize(); target.AutoPatch(); bertini::SampCont<dbl> none; US u(target, none); auto zd = bb::MakeUserHom(rt, target, u, target); the<US, bertini::policy::RefToGiven>(g, rt, zd.get(), [&](auto& Z) { PBT_CHECK(&Z.TargetSystem() == &target && &Z.StartSystem() == &u && &Z.Homotopy() == &target, "the systems used are not those given"); }); g.nontrivial(); return; }
	Before bf(g, z.b.sys); auto a = bb::MakeZeroDim(rt, z.b.sys), b = bb::MakeZeroDim(rt, z.b.sys); PBT_CHECK(a && b && a != b, "two algorithms are one"); auto look = [&](auto& Z) { auto& T = Z.TargetSystem(); auto& S = Z.StartSystem(); auto& H = Z.Homotopy(); PBT_CHECK(T.IsHomogeneous() && T.IsPatched() && T.NumNaturalFunctions() == z.b.sys.NumNaturalFunctions(), "shape of the target"); PBT_CHECK(S.NumVariables() == T.NumVariables() && H.NumVariables() == T.NumVariables() && H.NumTotalFunctions() == T.NumTotalFunctions() && H.HavePathVariable(), "shape of the homotopy"); PBT_CHECK(&Z.GetTracker().GetSystem() == &H, "the tracker follows something else");
		long want = 1; if (st == 0) { for (auto& d : z.deg) { int t = 0; for (int x : d) t += x; want *= t; } } else want = z.paths; PBT_CHECK(long(S.NumStartPoints()) == want, S.NumStartPoints() << " start points, " << want << " expected"); };
	if (st == 0) { the<TD, bertini::policy::CloneGiven>(g, rt, a.get(), look); the<TD, bertini::policy::CloneGiven>(g, rt, b.get(), look); } else { the<MH, bertini::policy::CloneGiven>(g, rt, a.get(), look); the<MH, bertini::policy::CloneGiven>(g, rt, b.get(), look); } bf.check(g, z.b.sys); g.nontrivial(); }
void run_nonsense(Gen& g) { // what cannot be solved is refused whatever the options
	auto rt = gen_rt(g); rt.start = g.chance(50) ? bb::type::Start::TotalDegree : bb::type::Start::MHom; set_prec(16); ZdCfg c; Zd z = gen_zd(g, c); auto s = bertini::Clone(z.b.sys); { auto ok = bb::MakeZeroDim(rt, s); } int kind = g.below(4); static const char* n[] = {"path variable", "more variables than functions", "not polynomial", "the sphere"}; g.label(n[kind]); auto v = s.Variables()[0]; if (kind == 0) s.AddPathVariable(bertini::node::Variable::Make("t")); if (kind == 1) s.AddVariableGroup({bertini::node::Variable::Make("w")}); if (kind == 2) s.AddFunction(exp(v)); if (kind == 3) s = bertini::system::Precon::Sphere(); bool threw = false; try { auto zd = bb::MakeZeroDim(rt, s); } catch (std::exception const&) { threw = true; } PBT_CHECK(threw, n[kind] << ", but an algorithm is built"); g.nontrivial(); }
// the ready-made systems against their definitions
template<class N> void values(Gen& g, unsigned p) { set_prec(p); auto cmp = [&](bertini::System& s, std::vector<std::function<C(std::vector<C> const&)>> f, const char* name) { s.precision(p); int n = s.NumVariables(); std::vector<Cd> x(n); for (auto& c : x) c = Cd(g.small_int(20) / 8., g.small_int(20) / 8.); std::vector<C> X; for (auto& c : x) X.push_back(ref::toC(c)); Vec<N> v = s.Eval(vec<N>(x, p)); PBT_CHECK(v.size() == int(f.size()), name << " has " << v.size() << " functions"); PBT_CHECK(s.NumVariableGroups() == 1 && s.NumHomVariableGroups() == 0 && s.VariableGroups()[0].size() == x.size() && !s.HavePathVariable() && s.IsPolynomial(), "structure of " << name); for (size_t i = 0; i < f.size(); ++i) { C w = f[i](X); PBT_CHECK(ref::mag(C(up(v(i)) - w)) <= eps_of(std::is_same<N, dbl>::value ? 16 : p) * 1000 * (1 + ref::mag(w) + 100), name << ", function " << i << " is " << b2::str(up(v(i))) << ", should be " << b2::str(w)); } };
	auto c = [](double d) { return ref::toC(Cd(d)); }; auto a = bertini::system::Precon::GriewankOsborn(); cmp(a, {[=](std::vector<C> const& x) { return C(c(29. / 16) * x[0] * x[0] * x[0] - c(2) * x[0] * x[1]); }, [=](std::vector<C> const& x) { return C(x[1] - x[0] * x[0]); }}, "Griewank-Osborn"); auto b = bertini::system::Precon::CrossedPaths(); cmp(b, {[=](std::vector<C> const& x) { return C(x[0] * x[0] * x[0] + c(2)); }, [=](std::vector<C> const& x) { return C(x[1] * x[1] + c(.5)); }}, "crossed paths"); auto d = bertini::system::Precon::Sphere(); cmp(d, {[=](std::vector<C> const& x) { return C(x[0] * x[0] + x[1] * x[1] + x[2] * x[2] - c(1)); }}, "the sphere"); g.nontrivial(); }
void run_precon(Gen& g) { if (g.chance(50)) values<dbl>(g, 16); else values<mpfr_complex>(g, g.range(17, 80)); } }
