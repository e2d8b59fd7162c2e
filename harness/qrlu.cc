// C23: QR, QR_Lapack (with and without pivoting) and the factors of LU.
#include "numeric.h"
#include <TooN/QR.h>
#include <TooN/QR_Lapack.h>
#include <TooN/LU.h>
using namespace H;
using namespace TooN;
// matrices that are partly reduced already, or whose reduction degenerates on the way
inline IMat shaped(Rng& g, int m, int n) {
	IMat a(m, n); auto nz = [&](int k) { int v = g.range(1, k); return g.coin() ? v : -v; };
	switch(g.range(0, 9)) {
		case 0: for(int i = 0; i < m; i++) for(int j = i; j < n; j++) a.at(i, j) = g.range(-3, 3); return a;                       // upper trapezoidal
		case 1: for(int i = 0; i < m; i++) for(int j = 0; j <= i; j++) a.at(i, j) = g.range(-3, 3); return a;                      // lower triangular
		case 2: for(int i = 0; i < m; i++) a.at(i, i) = nz(9); return a;
		case 3: { a = rmat(g, m, n, -3, 3); int k = g.range(0, n - 1); for(int i = 0; i < m; i++) a.at(i, k) = 0; return a; }
		case 4: { a = rmat(g, m, n, -3, 3); for(int i = 1; i < m; i++) a.at(i, 0) = 0; return a; }                                  // first column reduced
		case 5: { a = rmat(g, m, n, -3, 3); a.at(0, 0) = -std::labs(a.at(0, 0)) - 1; return a; }
		case 6: { a = rmat(g, m, n, -3, 3); for(int j = 0; j < n; j++) a.at(0, j) = 0; return a; }
		case 7: { for(int i = 0; i < m; i++) for(int j = 0; j < n; j++) if(std::abs(i - j) <= 1) a.at(i, j) = g.range(-3, 3); return a; }
		default: return rect(g, m, n);
	}
}
template<class P> Sys qsys(Rng& g, int m, int n) { Sys s; s.a = shaped(g, m, n); s.cd = 1; return s; }
// sums of squares may overflow at the extremes of the exponent: only moderate scales
template<class P> P mscale(Rng& g) { switch(g.range(0, 3)) { case 0: return std::ldexp(P(1), 20); case 1: return std::ldexp(P(1), -20); default: return 1; } }
template<class P, class D> void qr(D& d, int n, P sc) { IVec id(n); for(int i = 0; i < n; i++) id[i] = i; Ev e("qr"); e.b("pivoted", false).raw("q", lmat<P>(d.get_Q())).raw("r", lmat<P>(d.get_R(), 1 / sc)).v("pv", id).emit(); }
template<class P, class D> void qrp(D& d, bool pivoted, P sc) { Ev e("qr"); e.b("pivoted", pivoted).raw("q", lmat<P>(d.get_Q())).raw("r", lmat<P>(d.get_R(), 1 / sc)).v("pv", getv(d.get_P())).emit(); }
template<int M, int N, class P> void qrs(Rng& g) {
	for(int k = 0; k < NMK; k++) { Sys s = qsys<P>(g, M, N); P sc = mscale<P>(g);
		with_mat<M, N, P>(k, IMat(M, N), [&](auto& m) { fill(m, s.a, sc); QR<M, N, P> d(m); given("qr", mk_name(k), s, m, sc); qr<P>(d, N, sc);
			if(k % 3 == 0) { QR<Dynamic, Dynamic, P> y(m); qr<P>(y, N, sc); QR<M, Dynamic, P> z(m); qr<P>(z, N, sc); QR<Dynamic, N, P> w(m); qr<P>(w, N, sc); QR<M, N, P> c(d); qr<P>(c, N, sc); } }); }
}
template<int M, int N, class P> void qrl(Rng& g) {
	for(int k = 0; k < NMK; k++) { Sys s = qsys<P>(g, M, N); P sc = mscale<P>(g);
		with_mat<M, N, P>(k, IMat(M, N), [&](auto& m) { fill(m, s.a, sc); QR_Lapack<M, N, P> d(m), e(m, true), f(m, false); given("qrl", mk_name(k), s, m, sc); qrp<P>(d, false, sc); qrp<P>(e, true, sc); qrp<P>(f, false, sc);
			if(k % 3 == 0) { QR_Lapack<Dynamic, Dynamic, P> y(m, true); qrp<P>(y, true, sc); QR_Lapack<M, Dynamic, P> z(m, true); qrp<P>(z, true, sc); QR_Lapack<Dynamic, N, P> w(m); qrp<P>(w, false, sc); } }); }
}
template<class P> void dyn(Rng& g) { for(int k : dmk) { int m = g.range(1, 5), n = g.range(m, 6); Sys s = qsys<P>(g, m, n); P sc = mscale<P>(g);
	with_dmat<P>(k, IMat(m, n), [&](auto& x) { fill(x, s.a, sc); QR<Dynamic, Dynamic, P> d(x); QR_Lapack<Dynamic, Dynamic, P> e(x), f(x, true); given("qr", "dyn", s, x, sc); qr<P>(d, n, sc); qrp<P>(e, false, sc); qrp<P>(f, true, sc); }); } }
template<class P, class D> void lus(D& d, P sc) { Ev e("lu"); e.raw("lu", lmat<P>(d.get_lu())).i("scaled", sc != 1).emit(); }
template<int N, class P> void lu(Rng& g) {
	Sys s0 = square<P>(g, N); Matrix<N, N, P> A0; s0.tiny = false; load(A0, s0); LU<N, P> re(A0); LU<Dynamic, P> rd(A0);
	for(int k = 0; k < NMK; k++) { Sys s; if(g.one_in(4)) s = singular(g, N, 3); else s = square<P>(g, N); s.tiny = false; s.cd = 1;
		with_mat<N, N, P>(k, IMat(N, N), [&](auto& m) { load(m, s); LU<N, P> d(m); re.compute(m); rd.compute(m); given("lu", mk_name(k), s, m, P(1)); lus<P>(d, P(1)); lus<P>(re, P(1)); lus<P>(rd, P(1));
			d.get_inverse(); Vector<N, P> v = Zeros; d.backsub(v); d.determinant(); lus<P>(d, P(1)); }); }
	Sys t = square<P>(g, g.range(1, 6)); t.tiny = false; for(int k : dmk) with_dmat<P>(k, IMat(t.a.r, t.a.r), [&](auto& m) { load(m, t); LU<Dynamic, P> d(m); given("lud", "dyn", t, m, P(1)); lus<P>(d, P(1)); });
}
#if PART == 1
void p1(Rng& g) { qrs<1, 1, double>(g); qrs<2, 2, double>(g); qrs<3, 3, double>(g); qrs<4, 4, double>(g); qrs<2, 3, double>(g); qrs<3, 5, double>(g); qrs<1, 3, double>(g); }
#elif PART == 2
void p2(Rng& g) { qrs<3, 3, float>(g); qrs<3, 4, float>(g); qrs<4, 4, long double>(g); qrs<2, 4, long double>(g); qrs<5, 5, double>(g); qrs<4, 6, double>(g); }
#elif PART == 3
void p3(Rng& g) { qrl<1, 1, double>(g); qrl<2, 2, double>(g); qrl<3, 3, double>(g); qrl<4, 4, double>(g); qrl<2, 3, double>(g); qrl<3, 5, double>(g); qrl<1, 3, double>(g); qrl<3, 4, float>(g); }
#elif PART == 4
void p4(Rng& g) { for(int k = 0; k < 6; k++) { dyn<double>(g); dyn<float>(g); } }
#elif PART == 5
void p5(Rng& g) { lu<1, double>(g); lu<2, double>(g); lu<3, double>(g); lu<4, double>(g); lu<5, double>(g); lu<2, float>(g); lu<3, float>(g); lu<4, float>(g); }
#elif PART == 6
void p1(Rng&); void p2(Rng&); void p3(Rng&); void p4(Rng&); void p5(Rng&);
int main(int c, char** v) {
	Args a(c, v); Rng g = a.rng(); void (*p[])(Rng&) = {p1, p2, p3, p4, p5};
	for(long n = 0; n < a.n; n++) p[(n + a.shard) % 5](g);
	return 0;
}
#endif
