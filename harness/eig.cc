// C22: SymEigen of symmetric matrices: every size, scale and multiplicity.
#include "numeric.h"
#include <TooN/SymEigen.h>
using namespace H;
using namespace TooN;
inline IMat symm(Rng& g, int n) {
	IMat a(n, n); auto nz = [&](int k) { int v = g.range(1, k); return g.coin() ? v : -v; };
	auto sym = [&](int lo, int hi) { for(int i = 0; i < n; i++) for(int j = 0; j <= i; j++) a.at(i, j) = a.at(j, i) = g.range(lo, hi); };
	switch(g.range(0, 15)) {
		case 0: case 1: sym(-3, 3); return a;
		case 2: if(g.coin()) return a; sym(-9, 9); return a;                          // the zero matrix
		case 3: for(int i = 0; i < n; i++) a.at(i, i) = g.range(-9, 9); return a;        // diagonal, in any order
		case 4: { int v = nz(9); for(int i = 0; i < n; i++) a.at(i, i) = v; return a; }
		case 5: { int v = nz(9), w = nz(9); int k = g.range(0, n - 1); for(int i = 0; i < n; i++) a.at(i, i) = i == k ? w : v; return a; }
		case 6: { int c = g.range(-4, 4), d = g.range(-4, 4); for(auto& x : a.d) x = c; for(int i = 0; i < n; i++) a.at(i, i) += d; return a; }   // n - 1 equal eigenvalues
		case 7: { IMat v = rmat(g, n, 1, -3, 3); a = imul(v, itr(v)); if(g.coin()) for(auto& x : a.d) x = -x; return a; }
		case 8: { IMat v = rmat(g, n, 1, -2, 2), w = rmat(g, n, 1, -2, 2); a = imul(v, itr(v)); IMat b = imul(w, itr(w)); int s = g.coin() ? 1 : -1; for(size_t i = 0; i < a.d.size(); i++) a.d[i] += s * b.d[i]; return a; }
		case 9: for(int i = 0; i < n; i++) { a.at(i, i) = g.range(-3, 3); if(i) a.at(i, i - 1) = a.at(i - 1, i) = g.range(-2, 2); } return a;
		case 10: for(int i = 0; i < n; i++) a.at(i, n - 1 - i) = 0; { int v = nz(5); for(int i = 0; i < n; i++) a.at(i, n - 1 - i) = v; } return a;
		case 11: sym(-2, 2); for(int i = 0; i < n; i++) a.at(i, i) = 0; return a;
		case 12: { sym(-3, 3); int k = g.range(0, n - 1); for(int i = 0; i < n; i++) a.at(i, k) = a.at(k, i) = 0; return a; }
		case 13: { IMat m = rmat(g, n, n, -2, 2); return imul(itr(m), m); }
		case 14: { if(n < 3) { sym(-3, 3); return a; } int v = nz(4); for(int i = 0; i < n; i++) a.at(i, i) = v; int i = g.range(0, n - 2), j = g.range(i + 1, n - 1); a.at(i, j) = a.at(j, i) = nz(3); return a; }   // a block
		default: { for(int i = 0; i < n; i++) a.at(i, i) = 20 * g.range(-1, 1); int i = g.range(0, n - 1), j = g.range(0, n - 1); a.at(i, j) += 1; if(i != j) a.at(j, i) += 1; return a; }
	}
}
template<class P> Sys ssys(Rng& g, int n) { for(;;) { Sys s; if(g.one_in(4)) s = posdef<P>(g, n); else s.a = symm(g, n); bool big = false; for(long x : s.a.d) big |= std::labs(x) > 60; s.cd = pcond(s.a); if(!big && s.cd && s.cd <= Prec<P>::maxcd) return s; } }
template<class P> P evenscale(Rng& g) { int k = Prec<P>::limbs == 3 ? 10 : 60; switch(g.range(0, 3)) { case 0: return std::ldexp(P(1), 2 * k); case 1: return std::ldexp(P(1), -2 * k); default: return 1; } }
inline int ldsign(const IMat& a) {      // 1: positive definite, -1: negative definite, 0: neither but not singular, 2: singular
	int r; pcond(a, &r); if(r < a.r) return 2;
	for(int sg : {1, -1}) { bool ok = true; std::vector<LD> m(a.d.begin(), a.d.end()); for(auto& x : m) x *= sg; int n = a.r; for(int k = 0; k < n && ok; k++) { if(m[k * n + k] < 1e-9L) ok = false; else for(int i = k + 1; i < n; i++) { LD f = m[i * n + k] / m[k * n + k]; for(int j = k; j < n; j++) m[i * n + j] -= f * m[k * n + j]; } } if(ok) return sg; }
	return 0;
}
template<class P, class D> void whole(const D& d, const Sys& s, Rng& g, P sc) {
	{ Ev e("eig"); e.raw("d", lvec<P>(d.get_evalues(), 1 / sc)).raw("v", lmat<P>(d.get_evectors())).emit(); }
	int sg = ldsign(s.a), n = s.a.r; bool dflt = Prec<P>::limbs > 3 || sg != 2;
	if(sg != 2) { Ev e("def"); e.b("pos", d.is_posdef()).b("neg", d.is_negdef()).emit(); }
	bool posd = n == 1 || sc == 1; for(int i = 0; i < n && !posd; i++) posd = n < 4;
	if(sc == 1 && (Prec<P>::limbs > 3 || n < 4)) { double h = 1; for(int i = 0; i < n; i++) { long r = 1; for(int j = 0; j < n; j++) r += std::labs(s.a.at(i, j)); h *= r; } if(h * 4 * n * 12 * std::max(s.cd, 1) < 4e8) { Ev e("det"); e.raw("res", lnum<P>(d.get_determinant())).emit(); } }
	int conds[3] = {2000, g.range(2, 12), 0}; long mx = 0; for(long x : s.a.d) mx = std::max(mx, std::labs(x));
	for(int k = 0; k < (dflt ? 3 : 2); k++) { int c = conds[k]; if(c && c <= 4 * s.cd && !monomial(s.a)) continue; bool edge = false; for(long x : s.a.d) if(x && std::labs(x) * c == mx) edge = true; if(edge) continue;
		auto pv = c ? d.get_pinv(c) : d.get_pinv(); { Ev e("pinv"); e.i("cond", c ? c : 1000000000).raw("x", lmat<P>(pv, sc)).emit(); }
		if(c == 2000) { Ev e("recip"); e.raw("inv", lvec<P>(d.get_inv_diag(c), sc)).emit(); }
		if(c == 0) { IMat r = rmat(g, n, 1, -5, 5), r2 = rmat(g, n, 2, -5, 5);
			{ Vector<Dynamic, P> v(n); auto vc = ascol(v); setm(vc, r); auto x = d.backsub(v); auto xc = ascol(x); Ev e("back"); e.raw("b", r.json()).raw("b2", getm(vc).json()).raw("x", lmat<P>(xc, sc)).emit(); }
			{ Matrix<Dynamic, Dynamic, P, ColMajor> v(n, 2); setm(v, r2); auto x = d.backsub(v); Ev e("back"); e.raw("b", r2.json()).raw("b2", getm(v).json()).raw("x", lmat<P>(x, sc)).emit(); } } }
	if(sg == 1) { P rs = std::sqrt(sc); { Ev e("sqrtm"); e.raw("s", lmat<P>(d.get_sqrtm(), 1 / rs)).emit(); } { Ev e("isqrtm"); e.raw("s", lmat<P>(g.coin() ? d.get_isqrtm() : d.get_isqrtm(1e6), rs)).emit(); } }
}
template<int N, class P> void eig(Rng& g) {
	SymEigen<N, P> re;
	for(int k = 0; k < NMK; k++) { Sys s = ssys<P>(g, N); P sc = evenscale<P>(g);
		with_mat<N, N, P>(k, IMat(N, N), [&](auto& m) { fill(m, s.a, sc);
			if(k % 3 == 0) { SymEigen<N, P> d(m); given("eig", mk_name(k), s, m, sc); whole<P>(d, s, g, sc); SymEigen<N, P> cp(d); d.compute(Matrix<N, N, P>(TooN::Identity)); whole<P>(cp, s, g, sc); }
			else { re.compute(m); given("eig-compute", mk_name(k), s, m, sc); whole<P>(re, s, g, sc); } }); }
}
template<class P> void eigd(Rng& g) { for(int k : dmk) { int n = g.range(1, 6); Sys s = ssys<P>(g, n), t = ssys<P>(g, n); P sc = evenscale<P>(g);
	with_dmat<P>(k, IMat(n, n), [&](auto& m) { fill(m, s.a, sc); SymEigen<Dynamic, P> d(m), q(n); given("eig", "dyn", s, m, sc); whole<P>(d, s, g, sc); fill(m, t.a, sc); d.compute(m); q.compute(m); given("eig-compute", "dyn", t, m, sc); whole<P>(d, t, g, sc); whole<P>(q, t, g, sc); }); } }
// the closed forms: every symmetric matrix with small elements
template<int N, class P> void all(long from, long step, int b) {
	int nt = N * (N + 1) / 2; long tot = 1; for(int i = 0; i < nt; i++) tot *= 2 * b + 1;
	for(long k = from; k < tot; k += step) { Sys s; s.a = IMat(N, N); long q = k; for(int i = 0; i < N; i++) for(int j = 0; j <= i; j++) { s.a.at(i, j) = s.a.at(j, i) = q % (2 * b + 1) - b; q /= 2 * b + 1; }
		s.cd = 1; Matrix<N, N, P> m; fill(m, s.a, P(1)); SymEigen<N, P> d(m); given("eig", "all", s, m, P(1)); Ev e("eig"); e.raw("d", lvec<P>(d.get_evalues())).raw("v", lmat<P>(d.get_evectors())).emit(); }
}
#if PART == 1
void p1(Rng& g) { for(int k = 0; k < 3; k++) { eig<2, double>(g); eig<3, double>(g); } }
#elif PART == 2
void p2(Rng& g) { eig<3, float>(g); eig<2, float>(g); eig<4, float>(g); eigd<float>(g); eigd<double>(g); eigd<double>(g); }
#elif PART == 3
void p3(Rng& g) { eig<4, double>(g); eig<5, double>(g); eig<1, double>(g); eig<6, double>(g); }
#elif PART == 4
void p1(Rng&); void p2(Rng&); void p3(Rng&);
int main(int c, char** v) {
	Args a(c, v); Rng g = a.rng(); void (*p[])(Rng&) = {p1, p2, p3};
	if(a.mode == "all") { if(a.n == 1) { all<2, double>(a.shard, a.shards, 6); all<3, double>(a.shard * 3 + a.seed % 3, a.shards * 3, 1); all<3, float>(a.shard * 3 + (a.seed + 1) % 3, a.shards * 3, 1); } else { all<2, double>(a.shard, a.shards, 9); all<2, float>(a.shard, a.shards, 6); all<3, double>(a.shard, a.shards, 2); all<3, float>(a.shard, a.shards, 1); } return 0; }
	for(long n = 0; n < a.n; n++) p[(n + a.shard) % 3](g);
	return 0;
}
#endif
