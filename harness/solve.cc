// C10: every solver and inverse, on systems with a known integer solution.
#include "numeric.h"
#include <TooN/gaussian_elimination.h>
#include <TooN/gauss_jordan.h>
#include <TooN/LU.h>
#include <TooN/Cholesky.h>
#include <TooN/Lapack_Cholesky.h>
#include <TooN/SVD.h>
#include <TooN/GR_SVD.h>
#include <TooN/SymEigen.h>
using namespace H;
using namespace TooN;
// half of the systems are times a power of two on both sides: the solution is the same
template<class P> Sys scaled(Rng& g, Sys s) { if(g.coin()) { int k = Prec<P>::limbs == 3 ? 12 : 200; s.gs = g.range(-k, k); } return s; }
static IMat rx(Rng& g, int n, int k) { return rmat(g, n, k, -9, 9); }

// a decomposition object d of the system: right-hand sides of every kind
template<int N, class P, class D> void vecs(const char* f, D& d, const Sys& s, Rng& g, int kinds) {
	for(int k = 0; k < kinds; k++) { IMat x = rx(g, s.a.r, 1);
		with_vec<N, P>(k, IVec(N, 0), [&](auto& b) { auto c = ascol(b); loadrhs<P>(c, s, x); auto r = d.backsub(b); auto rc = ascol(r); logsolve<P>(f, vk_name(k), s, x, rc, c); }); }
}
template<int N, int K, class P, class D> void mats(const char* f, D& d, const Sys& s, Rng& g) {
	for(int k = 0; k < NMK; k++) { IMat x = rx(g, s.a.r, K);
		with_mat<N, K, P>(k, IMat(N, K), [&](auto& b) { loadrhs<P>(b, s, x); auto r = d.backsub(b); logsolve<P>(f, mk_name(k), s, x, r, b); }); }
}
template<class P, class M> Matrix<Dynamic, Dynamic, P> unscaled(const M& m, int k) { Matrix<Dynamic, Dynamic, P> r(m.num_rows(), m.num_cols()); for(int i = 0; i < m.num_rows(); i++) for(int j = 0; j < m.num_cols(); j++) r(i, j) = s2<P>(m(i, j), k); return r; }
template<class P, class M> void loginv(const char* f, const Sys& s, const M& m) { if(s.tiny) return; Ev e("inv"); e.str("f", f).raw("res", lmat<P>(unscaled<P>(m, s.gs))).emit(); }
template<int N, class P, class D> void queries(const char* f, D& d, const Sys& s, Rng& g) { vecs<N, P>(f, d, s, g, NVK); mats<N, 1, P>(f, d, s, g); mats<N, 3, P>(f, d, s, g); }
template<class P, class D> void dynq(const char* f, D& d, const Sys& s, Rng& g) {
	int n = s.a.r;
	for(int k : dvk) { IMat x = rx(g, n, 1); with_dvec<P>(k, IVec(n, 0), [&](auto& b) { auto c = ascol(b); loadrhs<P>(c, s, x); auto r = d.backsub(b); auto rc = ascol(r); logsolve<P>(f, "dyn", s, x, rc, c); }); }
	for(int k : dmk) { IMat x = rx(g, n, g.range(1, 4)); with_dmat<P>(k, IMat(n, x.c), [&](auto& b) { loadrhs<P>(b, s, x); auto r = d.backsub(b); logsolve<P>(f, "dyn", s, x, r, b); }); }
}
// run f(matrix, name of its kind) for a matrix of every kind holding s
template<int N, class P, class F> void everyA(const Sys& s, F f) { for(int k = 0; k < NMK; k++) with_mat<N, N, P>(k, IMat(N, N), [&](auto& m) { load(m, s); f(m, mk_name(k)); }); }
template<class P, class F> void everyD(const Sys& s, F f) { for(int k : dmk) with_dmat<P>(k, IMat(s.a.r, s.a.r), [&](auto& m) { load(m, s); f(m, mk_name(k)); }); }

template<int N, class P> void ge(Rng& g) {
	Sys s = scaled<P>(g, square<P>(g, N)); IMat x = rx(g, N, 1), x3 = rx(g, N, 3);
	{ Matrix<N, N, P> A; load(A, s); Vector<N, P> b; auto c = ascol(b); loadrhs<P>(c, s, x); auto r = gaussian_elimination(A, b); auto rc = ascol(r); logmat<P>("ge", "static", s, A); logsolve<P>("ge", "v", s, x, rc, c); }
	{ Matrix<Dynamic, Dynamic, P> A(N, N); load(A, s); Vector<Dynamic, P> b(N); auto c = ascol(b); loadrhs<P>(c, s, x); auto r = gaussian_elimination(A, b); auto rc = ascol(r); logmat<P>("ge", "dynamic", s, A); logsolve<P>("ge", "v", s, x, rc, c); }
	{ Matrix<N, N, P> A; load(A, s); Matrix<N, 3, P> b; loadrhs<P>(b, s, x3); auto r = gaussian_elimination(A, b); logmat<P>("ge", "static", s, A); logsolve<P>("ge", "m", s, x3, r, b); }
	{ Matrix<N, N, P> A; load(A, s); Matrix<Dynamic, 3, P> b(N, 3); loadrhs<P>(b, s, x3); auto r = gaussian_elimination(A, b); logmat<P>("ge", "static", s, A); logsolve<P>("ge", "mDx", s, x3, r, b); }
	{ Matrix<Dynamic, N, P> A(N, N); load(A, s); Matrix<N, Dynamic, P> b(N, 3); loadrhs<P>(b, s, x3); auto r = gaussian_elimination(A, b); logmat<P>("ge", "mixed", s, A); logsolve<P>("ge", "mxD", s, x3, r, b); }
	{ Matrix<Dynamic, Dynamic, P> A(N, N); load(A, s); Matrix<Dynamic, Dynamic, P> b(N, 3); loadrhs<P>(b, s, x3); auto r = gaussian_elimination(A, b); logmat<P>("ge", "dynamic", s, A); logsolve<P>("ge", "mDD", s, x3, r, b); }
	{ Matrix<N, Dynamic, P> A(N, N); load(A, s); Matrix<N, 1, P> b; loadrhs<P>(b, s, x); auto r = gaussian_elimination(A, b); logmat<P>("ge", "mixed", s, A); logsolve<P>("ge", "m1", s, x, r, b); }
}
template<int N, int K, class P> void gj(Rng& g) {
	for(int k = 0; k < NMK; k++) {
		Sys s = scaled<P>(g, square<P>(g, N)); bool inv = g.one_in(3) && K == N; IMat x = inv ? IMat() : rx(g, N, K);
		with_mat<N, N + K, P>(k, IMat(N, N + K), [&](auto& m) {
			if(inv) { s.tiny = false; s.gs = 0; IMat f(N, N + K); for(int i = 0; i < N; i++) for(int j = 0; j < N; j++) { f.at(i, j) = s.a.at(i, j); f.at(i, N + j) = i == j; } setm(m, f);
				Matrix<N, N, P> A; load(A, s); logmat<P>("gj", mk_name(k), s, A); gauss_jordan(m); Matrix<N, N, P> r = m.template slice<0, N, N, N>(); loginv<P>("gj", s, r); return; }
			auto l = m.template slice<0, 0, N, N>(); auto r = m.template slice<0, N, N, K>(); load(l, s); loadrhs<P>(r, s, x);
			logmat<P>("gj", mk_name(k), s, l); IMat full(N, N + K), ri = unloadrhs<P>(r, s, x); for(int i = 0; i < N; i++) { for(int j = 0; j < N; j++) full.at(i, j) = s.a.at(i, j); for(int j = 0; j < K; j++) full.at(i, N + j) = ri.at(i, j); }
			gauss_jordan(m);
			Ev e("gj"); e.str("f", mk_name(k)).raw("full", full.json()).raw("x", x.json()).raw("res", lmat<P>(m)).emit(); });
	}
	Sys s = scaled<P>(g, square<P>(g, g.range(1, 6))); int n = s.a.r; IMat x = rx(g, n, g.range(1, 4));
	Matrix<Dynamic, Dynamic, P, ColMajor> m(n, n + x.c); auto l = m.slice(0, 0, n, n); auto r = m.slice(0, n, n, x.c); load(l, s); loadrhs<P>(r, s, x); logmat<P>("gj", "dyn", s, l);
	IMat b = unloadrhs<P>(r, s, x), full(n, n + x.c); for(int i = 0; i < n; i++) { for(int j = 0; j < n; j++) full.at(i, j) = s.a.at(i, j); for(int j = 0; j < x.c; j++) full.at(i, n + j) = b.at(i, j); }
	gauss_jordan(m); Ev e("gj"); e.str("f", "dyn").raw("full", full.json()).raw("x", x.json()).raw("res", lmat<P>(m)).emit();
}
template<int N, class P> void lu(Rng& g) {
	Sys s0 = square<P>(g, N); Matrix<N, N, P> A0; load(A0, s0); LU<N, P> reused(A0); LU<Dynamic, P> dreused(A0);
	int kk = g.range(0, NMK - 1), i = 0; Sys s = scaled<P>(g, square<P>(g, N));
	everyA<N, P>(s, [&](auto& m, const char* how) {
		{ LU<N, P> d(m); logmat<P>("lu", how, s, m); if(i == kk) queries<N, P>("lu", d, s, g); loginv<P>("lu", s, d.get_inverse()); vecs<N, P>("lu", d, s, g, 1); }
		{ reused.compute(m); logmat<P>("lu-compute", how, s, m); vecs<N, P>("lu", reused, s, g, 2); loginv<P>("lu", s, reused.get_inverse()); }
		{ dreused.compute(m); logmat<P>("lud-compute", how, s, m); if(i == kk) queries<N, P>("lud", dreused, s, g); vecs<N, P>("lud", dreused, s, g, 2); loginv<P>("lud", s, dreused.get_inverse()); }
		i++; });
	Sys t = scaled<P>(g, square<P>(g, g.range(1, 6))); everyD<P>(t, [&](auto& m, const char* how) { LU<Dynamic, P> d(m); logmat<P>("luD", how, t, m); dynq<P>("luD", d, t, g); loginv<P>("luD", t, d.get_inverse()); });
}
template<int N, class P> void chol(Rng& g) {
	Sys s = scaled<P>(g, posdef<P>(g, N)), s0 = posdef<P>(g, N); Matrix<N, N, P> A0; load(A0, s0); Cholesky<N, P> re(A0); Matrix<N, N, P> A; load(A, s);
	{ Cholesky<N, P> d(A); logmat<P>("chol", "new", s, A); queries<N, P>("chol", d, s, g); loginv<P>("chol", s, d.get_inverse()); }
	{ re.compute(A.T()); logmat<P>("chol-compute", "T", s, A); queries<N, P>("chol", re, s, g); loginv<P>("chol", s, re.get_inverse()); }
	Sys t = scaled<P>(g, posdef<P>(g, g.range(1, 6))); everyD<P>(t, [&](auto& m, const char* how) { Cholesky<Dynamic, P> d(m); logmat<P>("cholD", how, t, m); dynq<P>("cholD", d, t, g); loginv<P>("cholD", t, d.get_inverse()); });
}
template<int N, class P> void lchol(Rng& g) {
	Sys s = scaled<P>(g, posdef<P>(g, N)), s0 = posdef<P>(g, N); Matrix<N, N, P> A0; load(A0, s0); Lapack_Cholesky<N, P> re(A0); Matrix<N, N, P> A; load(A, s);
	{ Lapack_Cholesky<N, P> d(A); logmat<P>("lchol", "new", s, A); queries<N, P>("lchol", d, s, g); loginv<P>("lchol", s, d.get_inverse()); }
	{ re.compute(A.T()); logmat<P>("lchol-compute", "T", s, A); queries<N, P>("lchol", re, s, g); loginv<P>("lchol", s, re.get_inverse()); }
	Sys t = scaled<P>(g, posdef<P>(g, g.range(1, 6))); everyD<P>(t, [&](auto& m, const char* how) { Lapack_Cholesky<Dynamic, P> d(m); logmat<P>("lcholD", how, t, m); dynq<P>("lcholD", d, t, g); loginv<P>("lcholD", t, d.get_inverse()); });
}
template<int N, class P> void svd(Rng& g) {
	Sys s = scaled<P>(g, square<P>(g, N)); SVD<N, N, P> re; SQSVD<N, P> sq; int kk = g.range(0, NMK - 1), i = 0;
	everyA<N, P>(s, [&](auto& m, const char* how) {
		SVD<N, N, P> d(m); logmat<P>("svd", how, s, m); if(i == kk) queries<N, P>("svd", d, s, g); loginv<P>("svd", s, d.get_pinv()); vecs<N, P>("svd", d, s, g, 1);
		re.compute(m); logmat<P>("svd-compute", how, s, m); vecs<N, P>("svd", re, s, g, 1); loginv<P>("svd", s, re.get_pinv());
		if(i == kk) { sq.compute(m); logmat<P>("sqsvd", how, s, m); vecs<N, P>("sqsvd", sq, s, g, 3); loginv<P>("sqsvd", s, sq.get_pinv()); } i++; });
	Sys t = scaled<P>(g, square<P>(g, g.range(1, 6))); everyD<P>(t, [&](auto& m, const char* how) { SVD<Dynamic, Dynamic, P> d(m); logmat<P>("svdD", how, t, m); dynq<P>("svdD", d, t, g); loginv<P>("svdD", t, d.get_pinv()); });
}
template<int N, class P> void grsvd(Rng& g) {
	Sys s = scaled<P>(g, square<P>(g, N)); Matrix<N, N, P> A; load(A, s);
	{ GR_SVD<N, N, P> d(A); logmat<P>("grsvd", "new", s, A); queries<N, P>("grsvd", d, s, g); loginv<P>("grsvd", s, d.get_pinv()); d.reorder(); vecs<N, P>("grsvd-re", d, s, g, 3); loginv<P>("grsvd-re", s, d.get_pinv()); }
	{ Matrix<N, N, P, ColMajor> B = A; GR_SVD<N, N, P> d(B.T().T()); logmat<P>("grsvd", "col", s, B); vecs<N, P>("grsvd", d, s, g, 1); }
}
template<class P> Sys symm(Rng& g, int n) { for(;;) { Sys s = square<P>(g, n); if(g.coin()) s = posdef<P>(g, n); else { for(int i = 0; i < n; i++) for(int j = 0; j < i; j++) s.a.at(i, j) = s.a.at(j, i); s.tiny = false; int r; s.cd = pcond(s.a, &r); if(r < n || s.cd == 0 || s.cd > Prec<P>::maxcd) continue; } return s; } }
template<int N, class P> void eig(Rng& g) {
	Sys s = scaled<P>(g, symm<P>(g, N)); SymEigen<N, P> re; int kk = g.range(0, NMK - 1), i = 0;
	everyA<N, P>(s, [&](auto& m, const char* how) {
		SymEigen<N, P> d(m); logmat<P>("eig", how, s, m); if(i == kk) queries<N, P>("eig", d, s, g); loginv<P>("eig", s, d.get_pinv()); vecs<N, P>("eig", d, s, g, 1);
		re.compute(m); logmat<P>("eig-compute", how, s, m); vecs<N, P>("eig", re, s, g, 1); i++; });
	Sys t = scaled<P>(g, symm<P>(g, g.range(1, 6))); everyD<P>(t, [&](auto& m, const char* how) { SymEigen<Dynamic, P> d(m); logmat<P>("eigD", how, t, m); dynq<P>("eigD", d, t, g); loginv<P>("eigD", t, d.get_pinv()); });
}
#define ALLN(F, P) F<1, P>(g); F<2, P>(g); F<3, P>(g); F<4, P>(g); F<5, P>(g);
template<int N, class P> void gjs(Rng& g) { gj<N, 1, P>(g); gj<N, N, P>(g); gj<N, 2, P>(g); }
#if PART == 1
void p1(Rng& g) { ALLN(ge, float) ALLN(ge, double) ALLN(ge, long double) ALLN(ge, float) ALLN(ge, double) ALLN(ge, long double) }
#elif PART == 2
void p2(Rng& g) { ALLN(gjs, double) gjs<3, float>(g); gjs<4, long double>(g); gjs<2, long double>(g); }
#elif PART == 3
void p3(Rng& g) { lu<1, double>(g); lu<2, double>(g); lu<3, double>(g); lu<4, double>(g); lu<5, double>(g); }
#elif PART == 4
void p4(Rng& g) { lu<2, float>(g); lu<3, float>(g); lu<4, float>(g); grsvd<3, float>(g); grsvd<4, long double>(g); }
#elif PART == 5
void p5(Rng& g) { ALLN(chol, double) chol<3, float>(g); chol<4, long double>(g); }
#elif PART == 6
void p6(Rng& g) { ALLN(lchol, double) lchol<3, float>(g); }
#elif PART == 7
void p7(Rng& g) { ALLN(svd, double) svd<3, float>(g); }
#elif PART == 8
void p8(Rng& g) { ALLN(grsvd, double) }
#elif PART == 9
void p9(Rng& g) { eig<2, double>(g); eig<3, double>(g); eig<4, double>(g); eig<5, double>(g); eig<3, float>(g); eig<4, float>(g); }
#elif PART == 10
void p1(Rng&); void p2(Rng&); void p3(Rng&); void p4(Rng&); void p5(Rng&); void p6(Rng&); void p7(Rng&); void p8(Rng&); void p9(Rng&);
int main(int c, char** v) {
	Args a(c, v); Rng g = a.rng(); void (*p[])(Rng&) = {p1, p2, p3, p4, p5, p6, p7, p8, p9};
	for(long n = 0; n < a.n; n++) for(int k = 0; k < 9; k++) if(k % a.shards == a.shard % a.shards || a.shards == 1 || (k + n) % a.shards == a.shard) p[k](g);
	return 0;
}
#endif
