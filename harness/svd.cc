// C21: SVD and GR_SVD of matrices of every shape and rank.
#include "numeric.h"
#include <TooN/SVD.h>
#include <TooN/GR_SVD.h>
using namespace H;
using namespace TooN;
// everything that follows from the factors. sc is the scale of the matrix
template<class P, class D> void derived(D& d, const Sys& s, Rng& g, P sc, bool dflt) {
	int conds[3] = {2000, g.range(2, 12), 0};
	for(int k = 0; k < (dflt ? 3 : 2); k++) {
		int c = conds[k]; if(c && c <= 4 * s.cd && !monomial(s.a)) continue;
		// a threshold that a ratio of the elements meets exactly is decided by rounding
		bool edge = false; long mx = 0; for(long x : s.a.d) mx = std::max(mx, std::labs(x)); for(long x : s.a.d) if(x && std::labs(x) * c == mx) edge = true; if(edge) continue;
		auto pv = c ? d.get_pinv(P(c)) : d.get_pinv(); { Ev e("pinv"); e.i("cond", c ? c : 1000000000).raw("x", lmat<P>(pv, sc)).emit(); }
		IMat r = rmat(g, s.a.r, 1, -5, 5), r2 = rmat(g, s.a.r, 2, -5, 5);
		{ Vector<Dynamic, P> v(s.a.r); auto vc = ascol(v); setm(vc, r); auto x = c ? d.backsub(v, P(c)) : d.backsub(v); auto xc = ascol(x); Ev e("back"); e.raw("b", r.json()).raw("b2", getm(vc).json()).raw("x", lmat<P>(xc, sc)).emit(); }
		{ Matrix<Dynamic, Dynamic, P, ColMajor> v(s.a.r, 2); setm(v, r2); auto x = c ? d.backsub(v, P(c)) : d.backsub(v); Ev e("back"); e.raw("b", r2.json()).raw("b2", getm(v).json()).raw("x", lmat<P>(x, sc)).emit(); }
	}
}
template<class P, class D> void ranks(D& d, const Sys& s, Rng& g, bool dflt) {
	for(int c : {2000, 50, g.range(2, 12)}) { if(c <= 4 * s.cd && !monomial(s.a)) continue; long mx = 0; bool edge = false; for(long x : s.a.d) mx = std::max(mx, std::labs(x)); for(long x : s.a.d) if(x && std::labs(x) * c == mx) edge = true; if(edge) continue;
		Ev e("rank"); e.i("cond", c).i("res", d.rank(P(c))).emit(); }
	if(dflt) { Ev e("rank"); e.i("cond", 1000000000).i("res", d.rank()).emit(); }
}
template<class P, class D> void whole(D& d, const Sys& s, Rng& g, P sc) {
	bool dflt = Prec<P>::limbs > 3 || sigmas(s.a).back() > 0.01;
	Ev e("svd"); e.raw("u", lmat<P>(d.get_U())).raw("d", lvec<P>(d.get_diagonal(), 1 / sc)).raw("vt", lmat<P>(d.get_VT())).emit();
	ranks<P>(d, s, g, dflt); derived<P>(d, s, g, sc, dflt);
	Vector<Dynamic, double> iv(std::min(s.a.r, s.a.c));
}
template<class P, class D> void inv_diag(D& d, const Sys& s, P sc) { auto iv = d.get_diagonal(); Vector<std::decay<decltype(iv)>::type::SizeParameter> w(iv.size()); d.get_inv_diag(w, P(2000)); if(2000 > 4 * s.cd) { Ev e("recip"); e.raw("inv", lvec<P>(w, sc)).emit(); } }
template<int M, int N, class P> void svd(Rng& g) {
	SVD<M, N, P> re;
	for(int k = 0; k < NMK; k++) { Sys s = rsys<P>(g, M, N); P sc = scale<P>(g);
		with_mat<M, N, P>(k, IMat(M, N), [&](auto& m) {
			fill(m, s.a, sc); 
			if(k % 3 == 0) { SVD<M, N, P> d(m); given("svd", mk_name(k), s, m, sc); whole<P>(d, s, g, sc); inv_diag<P>(d, s, sc); SVD<M, N, P> cp(d); d.compute(Matrix<M, N, P>(Zeros)); whole<P>(cp, s, g, sc); }
			else { re.compute(m); given("svd-compute", mk_name(k), s, m, sc); whole<P>(re, s, g, sc); } }); }
	Sys s = rsys<P>(g, M, N); Matrix<M, N, P> m; fill(m, s.a, P(1));
	{ SVD<Dynamic, N, P> d(m); given("svd?N", "static", s, m, P(1)); whole<P>(d, s, g, P(1)); }
	{ SVD<M, Dynamic, P> d(m); given("svdM?", "static", s, m, P(1)); whole<P>(d, s, g, P(1)); }
	{ SVD<Dynamic, Dynamic, P> d(M, N); d.compute(m); given("svd??", "static", s, m, P(1)); whole<P>(d, s, g, P(1)); d.compute(m.T().T()); whole<P>(d, s, g, P(1)); }
}
template<class P> void svdd(Rng& g) { for(int k : dmk) { int M = g.range(1, 6), N = g.range(1, 5); Sys s = rsys<P>(g, M, N), t = rsys<P>(g, M, N); P sc = scale<P>(g);
	with_dmat<P>(k, IMat(M, N), [&](auto& m) { fill(m, s.a, sc); SVD<Dynamic, Dynamic, P> d(m), q(M, N); given("svd", "dyn", s, m, sc); whole<P>(d, s, g, sc); inv_diag<P>(d, s, sc); fill(m, t.a, sc); d.compute(m); q.compute(m); given("svd-compute", "dyn", t, m, sc); whole<P>(d, t, g, sc); whole<P>(q, t, g, sc); }); } }
template<int N, class P> void sq(Rng& g) { Sys s = rsys<P>(g, N, N); Matrix<N, N, P> m; fill(m, s.a, P(1)); SQSVD<N, P> d(m), e; e.compute(m); given("sqsvd", "static", s, m, P(1)); whole<P>(d, s, g, P(1)); whole<P>(e, s, g, P(1)); SQSVD<Dynamic, P> q(N); q.compute(m); whole<P>(q, s, g, P(1)); }

template<class P, class D> void grwhole(D& d, const Sys& s, Rng& g, P sc, bool ordered) {
	bool dflt = Prec<P>::limbs > 3 || sigmas(s.a).back() > 0.01;
	{ Ev e("grsvd"); e.b("ordered", ordered).raw("u", lmat<P>(d.get_U())).raw("d", lvec<P>(d.get_diagonal(), 1 / sc)).raw("v", lmat<P>(d.get_V())).emit(); }
	derived<P>(d, s, g, sc, dflt);
	{ Ev e("ends"); e.raw("hi", limb(d.get_largest_singular_value() / sc, Prec<P>::limbs)).raw("lo", limb(d.get_smallest_singular_value() / sc, Prec<P>::limbs)).i("at", d.get_smallest_singular_value_index()).emit(); }
}
template<int M, int N, class P> void grsvd(Rng& g) {
	for(int k = 0; k < 4; k++) { Sys s = rsys<P>(g, M, N); P sc = scale<P>(g); Matrix<M, N, P> m; fill(m, s.a, sc); Matrix<N, M, P> mt = m.T(); Matrix<M + 1, N + 2, P> big = Zeros; big.template slice<1, 1, M, N>() = m;
		auto go = [&](auto& x, const char* how) { GR_SVD<M, N, P> d(x); given("grsvd", how, s, x, sc); grwhole<P>(d, s, g, sc, false);
			Vector<N, P> w; d.get_inv_diag(w, P(2000)); if(2000 > 4 * s.cd) { Ev e("recip"); e.raw("inv", lvec<P>(w, sc)).emit(); }
			GR_SVD<M, N, P, false, true> v(x); GR_SVD<M, N, P, true, false> u(x); Ev e("half"); e.raw("dv", lvec<P>(v.get_diagonal(), 1 / sc)).raw("v", lmat<P>(v.get_V())).raw("du", lvec<P>(u.get_diagonal(), 1 / sc)).raw("u", lmat<P>(u.get_U())).b("threw", attempt([&] { v.get_U(); }) && attempt([&] { u.get_V(); })).emit();
			d.reorder(); grwhole<P>(d, s, g, sc, true); if(g.coin()) { d.reorder(); grwhole<P>(d, s, g, sc, true); } };
		if(k == 0) { auto t = mt.T(); go(t, "T"); } else if(k == 1) { auto t = big.template slice<1, 1, M, N>(); go(t, "slice"); } else go(m, "static"); }
}
#if PART == 1
void p1(Rng& g) { svd<1, 1, double>(g); svd<3, 2, double>(g); svd<2, 4, double>(g); svd<3, 3, double>(g); }
#elif PART == 2
void p2(Rng& g) { svd<5, 3, double>(g); svd<3, 5, double>(g); svd<4, 4, double>(g); svd<4, 1, double>(g); svd<1, 3, double>(g); }
#elif PART == 3
void p3(Rng& g) { svd<3, 2, float>(g); svd<2, 3, float>(g); svd<3, 3, float>(g); for(int k = 0; k < 4; k++) svdd<float>(g); }
#elif PART == 4
void p4(Rng& g) { for(int k = 0; k < 8; k++) { svdd<double>(g); sq<2, double>(g); sq<4, double>(g); sq<3, float>(g); } }
#elif PART == 5
void p5(Rng& g) { grsvd<1, 1, double>(g); grsvd<2, 2, double>(g); grsvd<3, 3, double>(g); grsvd<4, 4, double>(g); grsvd<5, 5, double>(g); grsvd<3, 2, double>(g); grsvd<5, 3, double>(g); grsvd<4, 1, double>(g); }
#elif PART == 6
void p6(Rng& g) { grsvd<2, 3, double>(g); grsvd<3, 5, double>(g); grsvd<1, 4, double>(g); grsvd<4, 3, float>(g); grsvd<3, 3, float>(g); grsvd<4, 4, long double>(g); grsvd<4, 2, long double>(g); grsvd<6, 4, double>(g); }
#elif PART == 7
void p1(Rng&); void p2(Rng&); void p3(Rng&); void p4(Rng&); void p5(Rng&); void p6(Rng&);
int main(int c, char** v) {
	Args a(c, v); Rng g = a.rng(); void (*p[])(Rng&) = {p1, p2, p3, p4, p5, p6};
	for(long n = 0; n < a.n; n++) p[(n + a.shard) % 6](g);
	return 0;
}
#endif
