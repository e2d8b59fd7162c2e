// C09: diagonal matrices against the dense diagonal matrix.
#include "operands.h"
using namespace H;
using namespace TooN;
template<class D> IVec diagv(const D& d, int n) { IVec r; for(int i = 0; i < n; i++) r.push_back(ex(d[i])); return r; }
static IVec nz(Rng& g, int n) { static const std::vector<int> c = {1, -1, 2, -2, 3, 4, -5, 6, 10, -12}; IVec v(n); for(auto& x : v) x = g.pick(c); return v; }
template<class R> IMat densev(const R& d, int n, double sc = 1) { IMat m(n, n); for(int i = 0; i < n; i++) m.at(i, i) = sc == 1 ? ex(d[i]) : fx(d[i], sc); return m; }
// Operations on diagonal d (n elements); src is the vector that the specification's src names
template<int N, class P, class Dg, class S> void steps(Dg& d, S& src, Rng& g, int n, int cnt) {
	auto fin = [&](Ev& e) { e.v("s", getv(src)).v("d", diagv(d, n)).emit(); };
	const Dg& cd = d;
	for(int k = 0; k < cnt; k++) {
		IVec X = rvec(g, n, -9, 9); int i = n ? g.range(0, n - 1) : 0; long x = g.range(-9, 9);
		switch(g.range(0, 10)) {
			case 0: if(n) { d[i] = P(x); Ev e("setd"); e.i("i", i + 1).i("x", x); fin(e); } break;
			case 1: if(n) { src[i] = P(x); Ev e("sets"); e.i("i", i + 1).i("x", x); fin(e); } break;
			case 2: { Vector<Dynamic, P> t(n); setv(t, X); d.diagonal_slice() = t; Ev e("slice"); e.v("x", X); fin(e); } break;
			case 3: if(n) { d.diagonal_slice()[i] = P(x); Ev e("setd"); e.i("i", i + 1).i("x", x); fin(e); } break;
			case 4: { Ev e("neg"); auto r = -cd; e.raw("res", densev(r, n).json()); fin(e); } break;
			case 5: { Ev e("dense"); Matrix<Dynamic, Dynamic, P> m(n, n); if(n && g.coin()) for(int r = 0; r < n; r++) for(int c = 0; c < n; c++) m(r, c) = P(55); m = cd; e.raw("res", getm(m).json()); fin(e); } break;
			case 6: { Ev e("dense"); Matrix<Dynamic, Dynamic, P, ColMajor> m(n, n); m = cd; e.raw("res", getm(m).json()); fin(e); } break;
			case 7: { Ev e("dense"); Vector<Dynamic, P> v(n); v = cd.diagonal_slice(); e.raw("res", densev(v, n).json()); fin(e); } break;
			case 8: { DiagonalMatrix<Dynamic, P> u{Vector<Dynamic, P>(n)}; for(int j = 0; j < n; j++) u[j] = P(X[j]); Ev e("dd"); e.v("x", X); auto r = cd * u; e.raw("res", densev(r, n).json()); fin(e); } break;
			case 9: { Vector<Dynamic, P> u(n); setv(u, X); Ev e("dd"); e.v("x", X); auto r = u.as_diagonal() * cd; e.raw("res", densev(r, n).json()); fin(e); } break;
			case 10: if(std::is_floating_point<P>::value) { IVec z = nz(g, n); for(int j = 0; j < n; j++) d[j] = P(z[j]);
				{ Ev e("slice"); e.v("x", z); fin(e); } Ev e("inv"); auto r = cd.inverse(); e.raw("res", densev(r, n, 60).json()); fin(e); } break;
		}
	}
	if constexpr(N > 0) { Ev e("dense"); Matrix<N, N, P> m = cd; e.raw("res", getm(m).json()); fin(e); }
	if constexpr(N > 0) { IVec X = rvec(g, N, -9, 9); Vector<N, P> u; setv(u, X); DiagonalMatrix<N, P> w(u); Ev e("dd"); e.v("x", X); DiagonalMatrix<N, P> r = cd * w; e.raw("res", densev(r, n).json()); fin(e); }
}
// products with a vector operand / a matrix operand that has n rows (or columns)
template<class Dg, class S, class V> void prodv(Dg& d, S& src, V& v, int n) {
	const Dg& cd = d; IVec X = getv(v);
	{ Ev e("dv"); e.v("x", X); auto r = cd * v; e.v("res", getv(r)); e.v("s", getv(src)).v("d", diagv(d, n)).emit(); }
	{ Ev e("vd"); e.v("x", getv(v)); auto r = v * cd; e.v("res", getv(r)); e.v("s", getv(src)).v("d", diagv(d, n)).emit(); }
	{ Ev e("dd"); e.v("x", X); auto r = cd * v.as_diagonal(); e.raw("res", densev(r, n).json()).v("s", getv(src)).v("d", diagv(d, n)).emit(); }
	{ v = cd * v; Ev e("dv"); e.v("x", X).v("res", getv(v)).v("s", getv(src)).v("d", diagv(d, n)).emit(); }
}
template<class Dg, class S, class M> void prodl(Dg& d, S& src, M& m, int n) {
	const Dg& cd = d; IMat X = getm(m); Ev e("dm"); e.raw("m", X.json()); auto r = cd * m; e.raw("res", getm(r).json()).raw("m2", getm(m).json()).v("s", getv(src)).v("d", diagv(d, n)).emit();
	m = cd * m; Ev f("dm"); f.raw("m", X.json()).raw("m2", X.json()).raw("res", getm(m).json()).v("s", getv(src)).v("d", diagv(d, n)).emit();
}
template<class Dg, class S, class M> void prodr(Dg& d, S& src, M& m, int n) {
	const Dg& cd = d; IMat X = getm(m); Ev e("md"); e.raw("m", X.json()); auto r = m * cd; e.raw("res", getm(r).json()).raw("m2", getm(m).json()).v("s", getv(src)).v("d", diagv(d, n)).emit();
	m = m * cd; Ev f("md"); f.raw("m", X.json()).raw("m2", X.json()).raw("res", getm(m).json()).v("s", getv(src)).v("d", diagv(d, n)).emit();
}
template<int N, class P, class Dg, class S, int... K> void pvs(Dg& d, S& s, Rng& g, std::integer_sequence<int, K...>) { (VK<N, P, K>::go(rvec(g, N, -9, 9), [&](auto& v) { prodv(d, s, v, N); }), ...); }
template<int N, class P, class Dg, class S, int... K> void pms(Dg& d, S& s, Rng& g, std::integer_sequence<int, K...>) {
	(MK<N, 2, P, K>::go(rmat(g, N, 2, -9, 9), [&](auto& m) { prodl(d, s, m, N); }), ...);
	(MK<2, N, P, K>::go(rmat(g, 2, N, -9, 9), [&](auto& m) { prodr(d, s, m, N); }), ...);
	(MK<N, N, P, K>::go(rmat(g, N, N, -9, 9), [&](auto& m) { prodl(d, s, m, N); prodr(d, s, m, N); }), ...);
}
template<class S> void logsrc(S& s) { Ev e("src"); e.v("x", getv(s)).v("s", getv(s)).emit(); }
template<class S, class D> void own(const char* how, S& s, const D& d, const IVec& x, int n) { Ev e("own"); e.str("how", how).v("x", x).i("n", n).v("s", getv(s)).v("d", diagv(d, n)).emit(); }
template<class S, class D> void view(S& s, const D& d, int n) { Ev e("view"); e.v("s", getv(s)).v("d", diagv(d, n)).emit(); }
static void gend(bool ok) { Ev e("guards"); e.b("g", ok).emit(); }

// the diagonal is a view of every kind of vector
template<int N, class P, int K> void views(Rng& g) {
	constexpr bool st = K == 0 || K == 3 || K == 6 || K == 7;
	gend(VK<N, P, K>::go(rvec(g, N, -9, 9), [&](auto& v) { logsrc(v); auto d = v.as_diagonal(); view(v, d, N);
		steps<st ? N : 0, P>(d, v, g, N, 25); Vector<N, P> f; prodv(d, v, f = v * P(1), N); Matrix<N, 2, P> m; setm(m, rmat(g, N, 2, -9, 9)); prodl(d, v, m, N);
		// the vector's diagonal times the vector itself
		{ Ev e("dv"); e.v("x", getv(v)); auto r = d * v; e.v("res", getv(r)).v("s", getv(v)).v("d", diagv(d, N)).emit(); }
		const auto& cv = v; auto cdg = cv.as_diagonal(); { Ev e("dv"); e.v("x", getv(v)); auto r = v * cdg; e.v("res", getv(r)).v("s", getv(v)).v("d", diagv(cdg, N)).emit(); }
	}));
}
template<int N, class P> void owners(Rng& g) {
	Vector<N, P> v; setv(v, rvec(g, N, -9, 9)); logsrc(v);
	auto run = [&](auto& d) { steps<N, P>(d, v, g, N, 15); };
	{ DiagonalMatrix<N, P> d(v); own("fromv", v, d, getv(v), N); run(d); pvs<N, P>(d, v, g, std::make_integer_sequence<int, NVK>()); pms<N, P>(d, v, g, std::make_integer_sequence<int, NMK>());
	  IVec was = diagv(d, N); DiagonalMatrix<N, P> c(d); own("copy", v, c, was, N); run(c); c = d; own("asg", v, c, was, N); d[0] = P(7); own("asg", v, c, was, N);
	  P buf[N + 2]; for(auto& b : buf) b = P(GUARD); DiagonalMatrix<N, P, Reference> r(buf + 1); IVec x = rvec(g, N, -9, 9); for(int i = 0; i < N; i++) r[i] = P(x[i]); own("ref", v, r, x, N); run(r); bool in = true; for(int i = 0; i < N; i++) in = in && buf[i + 1] == r[i]; gend(in && buf[0] == P(GUARD) && buf[N + 1] == P(GUARD)); }
	{ DiagonalMatrix<Dynamic, P> d(v); own("fromvD", v, d, getv(v), N); steps<0, P>(d, v, g, N, 15); pvs<N, P>(d, v, g, std::make_integer_sequence<int, NVK>()); pms<N, P>(d, v, g, std::make_integer_sequence<int, NMK>()); DiagonalMatrix<Dynamic, P> c(d); own("copyD", v, c, diagv(d, N), N); steps<0, P>(c, v, g, N, 5); }
	{ DiagonalMatrix<N, P> d(Ones); own("ones", v, d, IVec(N, 1), N); run(d); DiagonalMatrix<N, P> z = Zeros; own("zeros", v, z, IVec(N, 0), N); DiagonalMatrix<N, P> t(Ones * 3); own("ones3", v, t, IVec(N, 3), N);
	  DiagonalMatrix<Dynamic, P> od(Ones(N)); own("onesD", v, od, IVec(N, 1), N); steps<0, P>(od, v, g, N, 5); DiagonalMatrix<Dynamic, P> zd = Zeros(N); own("zerosD", v, zd, IVec(N, 0), N); }
}
static void sizes(Rng& g) {
	int n = g.range(0, 5), r = g.range(0, 4); Vector<> v(n); setv(v, rvec(g, n, -9, 9)); logsrc(v);
	DiagonalMatrix<> d(v); own("fromvD", v, d, getv(v), n); steps<0, double>(d, v, g, n, 10);
	for(int i = 0; i < 4; i++) { with_dvec(dvk[i], rvec(g, n, -9, 9), [&](auto& x) { prodv(d, v, x, n); }); with_dmat(dmk[i], rmat(g, n, r, -9, 9), [&](auto& m) { prodl(d, v, m, n); }); with_dmat(dmk[i], rmat(g, r, n, -9, 9), [&](auto& m) { prodr(d, v, m, n); }); }
	auto w = v.as_diagonal(); view(v, w, n); steps<0, double>(w, v, g, n, 10);
}
#define VIEWS(N, P) views<N, P, 0>(g); views<N, P, 1>(g); views<N, P, 2>(g); views<N, P, 3>(g); views<N, P, 4>(g); views<N, P, 5>(g); views<N, P, 6>(g); views<N, P, 7>(g);
void part1(Rng& g); void part2(Rng& g); void part3(Rng& g); void part4(Rng& g);
#if PART == 1
void part1(Rng& g) { VIEWS(3, double) for(int i = 0; i < 25; i++) sizes(g); }
int main(int argc, char** argv) {
	Args A(argc, argv); Rng g = A.rng();
	for(long it = 0; it < A.n; it++) { typedef void (*P)(Rng&); P ps[] = {part1, part2, part3, part4}; for(int i = 0; i < 4; i++) if(i % A.shards == A.shard) ps[i](g); }
}
#elif PART == 2
void part2(Rng& g) { owners<3, double>(g); VIEWS(1, double) }
#elif PART == 3
void part3(Rng& g) { owners<1, double>(g); owners<4, float>(g); }
#elif PART == 4
void part4(Rng& g) { owners<2, int>(g); VIEWS(2, int) VIEWS(4, float) }
#endif
