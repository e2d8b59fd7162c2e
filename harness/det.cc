// C11: every determinant, on integer matrices.
#include "numeric.h"
#include <TooN/determinant.h>
#include <TooN/LU.h>
#include <TooN/Cholesky.h>
#include <TooN/Lapack_Cholesky.h>
#include <TooN/SVD.h>
#include <TooN/SymEigen.h>
using namespace H;
using namespace TooN;
inline long long idet(std::vector<long long> a, int n) {            // Bareiss, exact
	long long sg = 1, prev = 1;
	for(int k = 0; k + 1 < n; k++) {
		int r = k; while(r < n && a[r * n + k] == 0) r++; if(r == n) return 0;
		if(r != k) { sg = -sg; for(int j = 0; j < n; j++) std::swap(a[r * n + j], a[k * n + j]); }
		for(int i = k + 1; i < n; i++) for(int j = k + 1; j < n; j++) a[i * n + j] = (a[i * n + j] * a[k * n + k] - a[i * n + k] * a[k * n + j]) / prev;
		prev = a[k * n + k];
	}
	return n == 0 ? 1 : sg * a[n * n - 1];
}
inline bool fits(const Sys& s) { long long d = llabs(idet(std::vector<long long>(s.a.d.begin(), s.a.d.end()), s.a.r)); return 4LL * s.a.r * std::max(s.cd, 1) * std::max(1LL, d) < 400000000 / 12; }
template<class P> Sys regular(Rng& g, int n) { for(;;) { Sys s = square<P>(g, n, n > 4 ? 3 : 9); if(Prec<P>::limbs == 6) s.tiny = false; if(fits(s)) return s; } }
template<class P> Sys pd(Rng& g, int n) { for(;;) { Sys s = posdef<P>(g, n); if(fits(s)) return s; } }
template<class P> Sys symreg(Rng& g, int n) { for(;;) { Sys s = regular<P>(g, n); for(int i = 0; i < n; i++) for(int j = 0; j < i; j++) s.a.at(i, j) = s.a.at(j, i); s.tiny = false; int r; s.cd = pcond(s.a, &r); if(r < n || s.cd == 0 || s.cd > Prec<P>::maxcd || !fits(s)) continue; return s; } }
template<class P> Sys sing(Rng& g, int n) { Sys s = singular(g, n, n > 4 ? 2 : 3); s.cd = 0; return s; }
// columns times powers of two (rows as well for a symmetric system): the determinant is the integer one times a known power
// columns (all alike for LU, which may look for its pivots in a row) times powers of two
template<class P> Sys& colscale(Sys& s, Rng& g, bool sym, bool all = false) { if(g.coin()) return s; s.tiny = false; int n = s.a.r, k = Prec<P>::limbs == 3 ? 6 : 60; s.sym = sym; s.cs = IVec(n, 0); bool zero = g.coin(); for(int j = 0; j < n; j++) s.cs[j] = g.range(-k, k); if(zero) { s.cs[n - 1] = 0; for(int j = 0; j + 1 < n; j++) s.cs[n - 1] -= s.cs[j]; if(n > 3 && Prec<P>::limbs == 3) s.cs = IVec(n, 0); } if(all) s.cs = IVec(n, Prec<P>::limbs == 3 ? s.cs[0] : s.cs[0] / 2); return s; }
template<class P> void val(const char* op, const char* f, P x, const Sys& s) { x = s2<P>(x, -s.total()); Ev e(op); e.str("f", f).raw("res", lnum<P>(x)).emit(); }
#ifdef TOON_DETERMINANT_LAPACK
#define NOLD 1
#else
#define NOLD 1
#endif
template<int N, class P> void dets(Rng& g) {
	for(int z = 0; z < 2; z++) {
		Sys s = z ? sing<P>(g, N) : regular<P>(g, N); colscale<P>(s, g, false);
		for(int k = 0; k < NMK; k++) with_mat<N, N, P>(k, IMat(N, N), [&](auto& m) { load(m, s); const auto& cm = m; P d = determinant(cm), e = determinant_gaussian_elimination(cm); logmat<P>("det", mk_name(k), s, m); val<P>("det", "determinant", d, s); val<P>("det", "ge", e, s);
			if(NOLD && k % 3 == 0 && s.cs.empty()) val<P>("det", "of-T", determinant(m.T()), s); });
	}
	if(NOLD) for(int z = 0; z < 2; z++) { Sys s = z ? sing<P>(g, g.range(1, N)) : regular<P>(g, g.range(1, N)); colscale<P>(s, g, false);
		for(int k : dmk) with_dmat<P>(k, IMat(s.a.r, s.a.r), [&](auto& m) { load(m, s); P d = determinant(m), e = determinant_gaussian_elimination(m); logmat<P>("det", "dyn", s, m); val<P>("det", "determinant", d, s); val<P>("det", "ge", e, s); }); }
}
template<int N, class P> void lud(Rng& g) {
	for(int z = 0; z < 2; z++) {
		Sys s = z ? sing<P>(g, N) : regular<P>(g, N), s0 = g.coin() ? sing<P>(g, N) : regular<P>(g, N); Matrix<N, N, P> A0; load(A0, s0); LU<N, P> re(A0); LU<Dynamic, P> rd(A0); colscale<P>(s, g, false, true);
		for(int k = 0; k < NMK; k++) with_mat<N, N, P>(k, IMat(N, N), [&](auto& m) { load(m, s); LU<N, P> d(m); re.compute(m); rd.compute(m); logmat<P>("lu", mk_name(k), s, m); val<P>("det", "new", d.determinant(), s); val<P>("det", "compute", re.determinant(), s); val<P>("det", "dyn-compute", rd.determinant(), s); val<P>("det", "again", re.determinant(), s); });
		Sys t = z ? sing<P>(g, g.range(1, 6)) : regular<P>(g, g.range(1, 6)); colscale<P>(t, g, false, true); for(int k : dmk) with_dmat<P>(k, IMat(t.a.r, t.a.r), [&](auto& m) { load(m, t); LU<Dynamic, P> d(m); logmat<P>("lud", "dyn", t, m); val<P>("det", "new", d.determinant(), t); });
	}
}
template<int N, class P> void chold(Rng& g) {
	Sys s = pd<P>(g, N), s0 = pd<P>(g, N); colscale<P>(s, g, true); Matrix<N, N, P> A0, A; load(A0, s0); load(A, s); Cholesky<N, P> d(A), re(A0); re.compute(A); Cholesky<Dynamic, P> q(N); q.compute(Matrix<Dynamic, Dynamic, P>(A)); Cholesky<Dynamic, P> q2(Matrix<Dynamic, Dynamic, P>(A.T().T()));
	logmat<P>("chol", "static", s, A); val<P>("det", "new", d.determinant(), s); val<P>("det", "compute", re.determinant(), s); val<P>("det", "dyn", q.determinant(), s); val<P>("det", "dyn-new", q2.determinant(), s);
	// a singular positive semi-definite matrix: a zero row and column, or two equal ones
	if(N > 1) { Sys t = pd<P>(g, N); int i = g.range(0, N - 1), j = (i + 1) % N; bool z = g.coin(); for(int k = 0; k < N; k++) t.a.at(i, k) = z ? 0 : t.a.at(j, k); for(int k = 0; k < N; k++) t.a.at(k, i) = z ? 0 : t.a.at(k, j);
		t.a.at(i, i) = z ? 0 : t.a.at(j, j); t.cd = 0; if(z || N <= 3) { load(A, t); Cholesky<N, P> e(A); d.compute(A); if(z) { logmat<P>("chol", "singular", t, A); val<P>("det", "new", e.determinant(), t); val<P>("det", "compute", d.determinant(), t); } } }
}
template<int N, class P> void lchold(Rng& g) {
	Sys s = pd<P>(g, N), s0 = pd<P>(g, N); colscale<P>(s, g, true); Matrix<N, N, P> A0, A; load(A0, s0); load(A, s); Lapack_Cholesky<N, P> d(A), re(A0); re.compute(A); Lapack_Cholesky<Dynamic, P> q(N); q.compute(Matrix<Dynamic, Dynamic, P>(A)); Lapack_Cholesky<Dynamic, P> q2(Matrix<Dynamic, Dynamic, P>(A.T().T()));
	logmat<P>("lchol", "static", s, A); val<P>("det", "new", d.determinant(), s); val<P>("det", "compute", re.determinant(), s); val<P>("det", "dyn", q.determinant(), s); val<P>("det", "dyn-new", q2.determinant(), s);
}
template<int N, class P> void svdd(Rng& g) {
	for(int z = 0; z < 2; z++) { Sys s = z ? sing<P>(g, N) : regular<P>(g, N); s.tiny = false; if(g.coin()) s.gs = g.range(-10, 10); Matrix<N, N, P> A; load(A, s); SVD<N, N, P> d(A), re; re.compute(A); SQSVD<N, P> q(A.T()); SVD<Dynamic, Dynamic, P> y{Matrix<Dynamic, Dynamic, P>(A)};
		logmat<P>("svd", "static", s, A); val<P>("absdet", "new", d.determinant(), s); val<P>("absdet", "compute", re.determinant(), s); val<P>("absdet", "sq", q.determinant(), s); val<P>("absdet", "dyn", y.determinant(), s); }
}
template<int N, class P> void eigd(Rng& g) {
	for(int z = 0; z < 2; z++) { Sys s = symreg<P>(g, N); if(z) { int i = g.range(0, N - 1); for(int k = 0; k < N; k++) s.a.at(i, k) = s.a.at(k, i) = 0; s.cd = 0; }
		if(z && N > 3 && Prec<P>::limbs == 3) continue;
		if(g.coin()) s.gs = g.range(-10, 10);
		Matrix<N, N, P> A; load(A, s); SymEigen<N, P> d(A), re(Matrix<N, N, P>(TooN::Identity)); re.compute(A); SymEigen<Dynamic, P> y{Matrix<Dynamic, Dynamic, P>(A)};
		logmat<P>("eig", "static", s, A); val<P>("det", "new", d.get_determinant(), s); val<P>("det", "compute", re.get_determinant(), s); val<P>("det", "dyn", y.get_determinant(), s); }
}
#define ALLN(F, P) F<1, P>(g); F<2, P>(g); F<3, P>(g); F<4, P>(g); F<5, P>(g);
#define EV(F, P) F<2, P>(g); F<3, P>(g); F<4, P>(g);
#if PART == 1
void p1(Rng& g) { ALLN(dets, double) dets<6, double>(g); EV(dets, float) }
#elif PART == 2
#ifdef TOON_DETERMINANT_LAPACK
void p2(Rng& g) { }
#else
void p2(Rng& g) { ALLN(dets, long double) dets<1, float>(g); }
#endif
#elif PART == 3
void p3(Rng& g) { ALLN(lud, double) EV(lud, float) lud<6, double>(g); }
#elif PART == 4
void p4(Rng& g) { for(int k = 0; k < 4; k++) { ALLN(chold, double) EV(chold, float) EV(chold, long double) } }
#elif PART == 5
void p5(Rng& g) { for(int k = 0; k < 4; k++) { ALLN(lchold, double) EV(lchold, float) ALLN(svdd, double) EV(svdd, float) } }
#elif PART == 6
void p6(Rng& g) { for(int k = 0; k < 4; k++) { eigd<2, double>(g); eigd<3, double>(g); eigd<4, double>(g); eigd<5, double>(g); EV(eigd, float) } }
#elif PART == 7
void p1(Rng&); void p2(Rng&); void p3(Rng&); void p4(Rng&); void p5(Rng&); void p6(Rng&);
int main(int c, char** v) {
	Args a(c, v); Rng g = a.rng(); void (*p[])(Rng&) = {p1, p2, p3, p4, p5, p6}; bool only = a.mode == "det";
	for(long n = 0; n < a.n; n++) if(only) p1(g); else for(int k = 0; k < 6; k++) if((k + n + a.shard) % 3 == 0) p[k](g);
	return 0;
}
#endif
