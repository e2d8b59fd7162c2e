// C12: Cholesky and Lapack_Cholesky: factors, rank, back substitution, inverse, Mahalanobis form, recomputation.
#include "numeric.h"
#include <TooN/Cholesky.h>
#include <TooN/Lapack_Cholesky.h>
using namespace H;
using namespace TooN;
// the symmetric matrix whose lower half is in m; BAD where the other half is not the garbage that was put there
template<class M> IMat lower(const M& m, const IMat& garbage) { IMat r = getm(m); for(int i = 0; i < r.r; i++) for(int j = i + 1; j < r.c; j++) r.at(i, j) = r.at(i, j) == garbage.at(i, j) ? r.at(j, i) : BAD; return r; }
template<class M> IMat spoil(M& m, const Sys& s, bool garbage, Rng& g) { IMat v = s.a; if(garbage) for(int i = 0; i < v.r; i++) for(int j = i + 1; j < v.c; j++) v.at(i, j) = g.one_in(3) ? 0 : g.range(-50, 50); setm(m, v); return v; }
template<class P, class M> void given(const char* f, const char* how, const Sys& s, const M& m, const IMat& garbage) {
	Ev e("mat"); e.str("f", f).str("how", how).str("p", Prec<P>::n()).i("cd", s.cd).raw("a", s.a.json()).raw("a2", lower(m, garbage).json()).emit(); }
template<class P, class D> void factors(Cholesky<1, double>*, D& d) { Ev e("ldl"); e.raw("L", lmat<P>(d.get_unscaled_L())).raw("D", lmat<P>(d.get_D())).emit(); Ev f("llt"); f.raw("L", lmat<P>(d.get_L())).emit(); }
template<class P, class D> void factors(Lapack_Cholesky<1, double>*, D& d) { Ev f("llt"); f.raw("L", lmat<P>(d.get_L())).emit(); }
template<class P, class D> void common(D& d, const Sys& s) {
	{ Ev e("rank"); e.i("res", d.rank()).emit(); }
	{ Ev e("inv"); e.raw("res", lmat<P>(d.get_inverse())).emit(); }
	{ Ev e("det"); e.raw("res", lnum<P>(d.determinant())).emit(); }
}
template<int N, class P, class D> void uses(D& d, const Sys& s, Rng& g, int kinds) {
	for(int k = 0; k < kinds; k++) { int kk = kinds == NVK ? k : g.range(0, NVK - 1); IMat x = rmat(g, N, 1, -5, 5);
		with_vec<N, P>(kk, IVec(N, 0), [&](auto& b) { auto c = ascol(b); setm(c, imul(s.a, x)); auto r = d.backsub(b); auto rc = ascol(r); logsolve<P>("v", vk_name(kk), s, x, rc, c); P mh = d.mahalanobis(b);
			Ev e("mahal"); e.v("v", getv(b)).v("x", x.d).raw("res", lnum<P>(mh)).emit(); }); }
	int k = g.range(0, NMK - 1); IMat x = rmat(g, N, 2, -5, 5); with_mat<N, 2, P>(k, IMat(N, 2), [&](auto& b) { setm(b, imul(s.a, x)); auto r = d.backsub(b); logsolve<P>("m", mk_name(k), s, x, r, b); });
}
template<class P, class D> void dynuses(D& d, const Sys& s, Rng& g) {
	int n = s.a.r; int k = dvk[g.range(0, NDVK - 1)]; IMat x = rmat(g, n, 1, -5, 5);
	with_dvec<P>(k, IVec(n, 0), [&](auto& b) { auto c = ascol(b); setm(c, imul(s.a, x)); auto r = d.backsub(b); auto rc = ascol(r); logsolve<P>("dv", "dyn", s, x, rc, c); P mh = d.mahalanobis(b); Ev e("mahal"); e.v("v", getv(b)).v("x", x.d).raw("res", lnum<P>(mh)).emit(); });
	x = rmat(g, n, g.range(1, 4), -5, 5); k = dmk[g.range(0, NDMK - 1)]; with_dmat<P>(k, IMat(n, x.c), [&](auto& b) { setm(b, imul(s.a, x)); auto r = d.backsub(b); logsolve<P>("dm", "dyn", s, x, r, b); });
}
template<class P> Sys pds(Rng& g, int n) { for(;;) { Sys s = posdef<P>(g, n); double d = 1; for(int i = 0; i < n; i++) d *= s.a.at(i, i); if(d * 4 * n * s.cd * 12 < 1e9) return s; } }
template<class P> Sys psd(Rng& g, int n) {      // singular: what a decomposed object may hold before it is used again
	Sys s = pds<P>(g, n); int i = g.range(0, n - 1); for(int k = 0; k < n; k++) s.a.at(i, k) = s.a.at(k, i) = 0; return s; }
template<template<int, class> class D, int N, class P> void fixed(Rng& g, const char* f) {
	Sys s = pds<P>(g, N); D<N, P> re; bool used = false;
	for(int k : {0, 1, 4, 5, 6, 8, 9}) with_mat<N, N, P>(k, IMat(N, N), [&](auto& m0) {
		bool garbage = g.coin(); IMat gb = spoil(m0, s, garbage, g); Matrix<N, N, P> m = m0;
		if(!used || g.coin()) { D<N, P> d(m); given<P>(f, mk_name(k), s, m, gb); factors<P>((D<1, double>*)0, d); common<P>(d, s); uses<N, P>(d, s, g, k == 0 ? NVK : 1); re = d; }
		if(g.one_in(3)) { Sys t = psd<P>(g, N); Matrix<N, N, P> q; setm(q, t.a); re.compute(q); }
		re.compute(m); given<P>(f, "compute", s, m, gb); used = true; factors<P>((D<1, double>*)0, re); common<P>(re, s); uses<N, P>(re, s, g, 1);
		s = pds<P>(g, N); });
	// objects constructed from, or given, matrices of every layout with static size
	s = pds<P>(g, N); { Matrix<N, N, P, ColMajor> c; IMat gb = spoil(c, s, true, g); D<N, P> d(c); given<P>(f, "col", s, c, gb); factors<P>((D<1, double>*)0, d); common<P>(d, s); }
	s = pds<P>(g, N); { Matrix<N, N, P> c; IMat gb = spoil(c, s, true, g), gt = itr(gb); Sys t = pds<P>(g, N); Matrix<N, N, P> q; setm(q, t.a); D<N, P> d(q); auto v = c.T().T(); d.compute(v); given<P>(f, "view", s, v, gb); factors<P>((D<1, double>*)0, d); common<P>(d, s); }
	s = pds<P>(g, N); { Matrix<N + 2, N + 1, P> big; guardm(big); auto v = big.template slice<1, 1, N, N>(); IMat gb = spoil(v, s, true, g); D<N, P> d(v); given<P>(f, "slice", s, v, gb); factors<P>((D<1, double>*)0, d); common<P>(d, s); uses<N, P>(d, s, g, 1); re.compute(v); given<P>(f, "slice-compute", s, v, gb); common<P>(re, s); D<N, P> cp(re); re.compute(Matrix<N, N, P>(TooN::Identity)); factors<P>((D<1, double>*)0, cp); common<P>(cp, s); }
	s.tiny = false;
}
template<template<int, class> class D, class P> void dyn(Rng& g, const char* f) {
	for(int k : dmk) { int n = g.range(1, 6); Sys s = pds<P>(g, n), t = pds<P>(g, n); D<Dynamic, P> re(n);
		with_dmat<P>(k, IMat(n, n), [&](auto& m) { IMat gb = spoil(m, s, g.coin(), g); D<Dynamic, P> d(m); given<P>(f, "dyn", s, m, gb); factors<P>((D<1, double>*)0, d); common<P>(d, s); dynuses<P>(d, s, g);
			re.compute(m); given<P>(f, "dyn-compute", s, m, gb); factors<P>((D<1, double>*)0, re); common<P>(re, s); dynuses<P>(re, s, g);
			gb = spoil(m, t, g.coin(), g); re.compute(m); given<P>(f, "dyn-again", t, m, gb); factors<P>((D<1, double>*)0, re); common<P>(re, t); dynuses<P>(re, t, g); }); }
}
#if PART == 1
void p1(Rng& g) { fixed<Cholesky, 1, double>(g, "chol"); fixed<Cholesky, 2, double>(g, "chol"); fixed<Cholesky, 3, double>(g, "chol"); fixed<Cholesky, 4, double>(g, "chol"); fixed<Cholesky, 5, double>(g, "chol"); }
#elif PART == 2
void p2(Rng& g) { fixed<Cholesky, 3, float>(g, "chol"); fixed<Cholesky, 4, float>(g, "chol"); fixed<Cholesky, 2, long double>(g, "chol"); fixed<Cholesky, 4, long double>(g, "chol"); }
#elif PART == 3
void p3(Rng& g) { dyn<Cholesky, double>(g, "chol"); dyn<Cholesky, float>(g, "chol"); dyn<Cholesky, long double>(g, "chol"); dyn<Lapack_Cholesky, double>(g, "lchol"); dyn<Lapack_Cholesky, float>(g, "lchol"); dyn<Cholesky, double>(g, "chol"); dyn<Lapack_Cholesky, double>(g, "lchol"); }
#elif PART == 4
void p4(Rng& g) { fixed<Lapack_Cholesky, 1, double>(g, "lchol"); fixed<Lapack_Cholesky, 2, double>(g, "lchol"); fixed<Lapack_Cholesky, 3, double>(g, "lchol"); fixed<Lapack_Cholesky, 4, double>(g, "lchol"); fixed<Lapack_Cholesky, 5, double>(g, "lchol"); }
#elif PART == 5
void p5(Rng& g) { fixed<Lapack_Cholesky, 3, float>(g, "lchol"); fixed<Lapack_Cholesky, 4, float>(g, "lchol"); }
#elif PART == 6
void p1(Rng&); void p2(Rng&); void p3(Rng&); void p4(Rng&); void p5(Rng&);
int main(int c, char** v) {
	Args a(c, v); Rng g = a.rng(); void (*p[])(Rng&) = {p1, p2, p3, p4, p5};
	for(long n = 0; n < a.n; n++) p[(n + a.shard) % 5](g);
	return 0;
}
#endif
