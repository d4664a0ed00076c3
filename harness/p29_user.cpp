#include "p29.hpp"
namespace b2 { void run_user(Gen& g) {
	auto rt = gen_rt(g); rt.start = g.chance(80) ? bb::type::Start::User : bb::type::Start::TotalDegree; unsigned p = gen_p(g, rt); set_prec(p); ZdCfg c; c.maxpaths = 4; Zd z = gen_zd(g, c); auto target = bertini::Clone(z.b.sys); bool hp = g.chance(60); if (hp) { target.Homogenize(); target.AutoPatch(); g.label("homogenized and patched"); }
	TD td(target); auto t = bertini::node::Variable::Make("t"); bertini::System hom = (1 - t) * target + bertini::node::Rational::Make(bertini::node::Rational::Rand()) * t * td; hom.AddPathVariable(t);
	// the start points are those of the total degree start system, some of them, in any order
	std::vector<unsigned long long> ind; for (unsigned long long i = 0; i < td.NumStartPoints(); ++i) ind.push_back(i); for (size_t i = ind.size(); i > 1; --i) std::swap(ind[i - 1], ind[g.below(i)]); bool some = ind.size() > 1 && g.chance(40); if (some) ind.resize(g.range(1, ind.size() - 1)); if (some) g.label("some of the paths"); z.paths = ind.size();
	bool in_dbl = p == 16 || g.chance(40); bertini::SampCont<dbl> sd; bertini::SampCont<mpfr_complex> sm; std::vector<std::vector<C>> given; for (auto i : ind) { if (in_dbl) { sd.push_back(td.StartPoint<dbl>(i)); } else { sm.push_back(td.StartPoint<mpfr_complex>(i)); } } if (in_dbl) g.label("start points in double precision");
	auto user = in_dbl ? US(td, sd) : US(td, sm); PBT_CHECK(user.NumStartPoints() == ind.size(), "number of start points"); Before bt_(g, target); auto zd = bb::MakeUserHom(rt, target, user, hom); PBT_CHECK(bool(zd), "nothing was built");
	the<US, bertini::policy::RefToGiven>(g, rt, zd.get(), [&](auto& Z) { using ZD = std::remove_reference_t<decltype(Z)>; using CT = typename ZD::BaseComplexType; PBT_CHECK(&Z.TargetSystem() == &target && &Z.StartSystem() == &user && &Z.Homotopy() == &hom, "the systems used are not those given"); PBT_CHECK(&Z.GetTracker().GetSystem() == &hom, "the tracker does not follow the homotopy given"); solve_all(g, Z, z, p, !some, "user homotopy: "); (void)sizeof(CT); });
	bt_.check(g, target); if (ind.size() >= 2) g.nontrivial(); } }
