// Transformation groups: histories of operations (mode ops), and exp, ln, generators, adjoints (mode lie).
#include "numeric.h"
#include <TooN/so2.h>
#include <TooN/se2.h>
#include <TooN/sim2.h>
#include <TooN/so3.h>
#include <TooN/se3.h>
#include <TooN/sim3.h>
#include <TooN/sl.h>
#include <memory>
using namespace H;

inline int LK = 4;
template<class V> std::string lv(const V& v) { std::string s = "["; for(int i = 0; i < v.size(); i++) s += (i ? "," : "") + limb(v[i], LK); return s + "]"; }
template<class M> std::string lm(const M& m) {
	std::string s = "{\"r\":" + std::to_string(m.num_rows()) + ",\"c\":" + std::to_string(m.num_cols()) + ",\"d\":[";
	for(int i = 0; i < m.num_rows(); i++) for(int j = 0; j < m.num_cols(); j++) s += (i + j ? "," : "") + limb(m(i, j), LK);
	return s + "]}"; }
template<class P> const char* pn() { return sizeof(P) == 4 ? "f" : "d"; }
inline std::string rec(const char* g, const char* p, const std::string& R, const std::string& t, const std::string& s) { return std::string("{\"g\":\"") + g + "\",\"p\":\"" + p + "\",\"R\":" + R + ",\"t\":" + t + ",\"s\":" + s + ",\"k\":0}"; }
template<class P> std::string xj(const SO2<P>& x) { return rec("SO2", pn<P>(), lm(x.get_matrix()), "[]", limb(1, LK)); }
template<class P> std::string xj(const SO3<P>& x) { return rec("SO3", pn<P>(), lm(x.get_matrix()), "[]", limb(1, LK)); }
template<int N, class P> std::string xj(const SL<N, P>& x) { return rec("SL", pn<P>(), lm(x.get_matrix()), "[]", limb(1, LK)); }
template<class P> std::string xj(const SE2<P>& x) { return rec("SE2", pn<P>(), lm(x.get_rotation().get_matrix()), lv(x.get_translation()), limb(1, LK)); }
template<class P> std::string xj(const SE3<P>& x) { return rec("SE3", pn<P>(), lm(x.get_rotation().get_matrix()), lv(x.get_translation()), limb(1, LK)); }
template<class P> std::string xj(const SIM2<P>& x) { return rec("SIM2", pn<P>(), lm(x.get_rotation().get_matrix()), lv(x.get_translation()), limb(x.get_scale(), LK)); }
template<class P> std::string xj(const SIM3<P>& x) { return rec("SIM3", pn<P>(), lm(x.get_rotation().get_matrix()), lv(x.get_translation()), limb(x.get_scale(), LK)); }

template<class G> struct Tr;
#define TRAITS(G, N, H_, D, CODE) template<class P_> struct Tr<G<P_>> { typedef P_ P; static const int n = N, h = H_, dof = D, code = CODE; static const char* name() { return #G; } template<class Q> using With = G<Q>; }
TRAITS(SO2, 2, 2, 1, 0); TRAITS(SE2, 2, 3, 3, 1); TRAITS(SIM2, 2, 3, 4, 2); TRAITS(SO3, 3, 3, 3, 3); TRAITS(SE3, 3, 4, 6, 4); TRAITS(SIM3, 3, 4, 7, 5);
template<int N, class P_> struct Tr<SL<N, P_>> { typedef P_ P; static const int n = N, h = N, dof = N * N - 1, code = 6; static const char* name() { return "SL"; } template<class Q> using With = SL<N, Q>; };

static const double PI = 3.14159265358979323846;
// an angle: ordinary, or one of those where formulas change
inline double angle(Rng& g) {
	double s = g.coin() ? 1 : -1;
	switch(g.range(0, 6)) {
		case 0: return s * std::pow(10., -g.unit() * 9);
		case 1: { static const double a[] = {0, 0, 1e-4, 1e-3, 1e-5, 1e-6, PI / 4, PI / 2, 3 * PI / 4, PI, 0.5, 1e-8}; double x = a[g.range(0, 11)]; switch(g.range(0, 4)) { case 0: return s * x * (1 + 1e-3 * (g.unit() - .5)); case 1: return s * x * (1 + 1e-9 * (g.unit() - .5)); default: return s * x; } }
		case 2: return s * (PI - std::pow(10., -1 - g.unit() * 11));
		default: return s * g.unit() * 3.1;
	}
}
inline double logscale(Rng& g) { double s = g.coin() ? 1 : -1; switch(g.range(0, 5)) { case 0: return 0; case 1: return s * std::pow(10., -g.unit() * 9); case 2: return s * .5 * (1 + (g.coin() ? 1e-9 : 1e-2) * (g.unit() - .5)); default: return s * g.unit() * 1.1; } }
inline double coordinate(Rng& g, double mx) { switch(g.range(0, 4)) { case 0: return 0; case 1: return g.range(-(int)mx, (int)mx); default: return mx * (2 * g.unit() - 1); } }
inline void axis(Rng& g, double w[3]) { static const int k[] = {1, 0, 0}; if(g.one_in(3)) { int a = g.range(0, 2); for(int i = 0; i < 3; i++) w[i] = k[(i + a) % 3] * (g.coin() ? 1 : -1);
		if(g.coin()) { for(int i = 0; i < 3; i++) if(w[i] == 0 && !g.one_in(3)) w[i] = (g.coin() ? 1 : -1) * std::pow(10., -1 - g.unit() * 10); double n = std::sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]); for(int i = 0; i < 3; i++) w[i] /= n; }      // nearly an axis
		return; }
	double n; do { n = 0; for(int i = 0; i < 3; i++) { w[i] = g.one_in(5) ? 0 : 2 * g.unit() - 1; n += w[i] * w[i]; } } while(n < .01); for(int i = 0; i < 3; i++) w[i] /= std::sqrt(n); }
// coordinates of an algebra element
template<class G> std::vector<typename Tr<G>::P> algebra(Rng& g, double tmax) {
	typedef typename Tr<G>::P P; const int c = Tr<G>::code, D = Tr<G>::dof; std::vector<double> v(D);
	if(c == 6) { double f = g.one_in(4) ? std::pow(10., -g.unit() * 8) : g.one_in(8) ? 0 : 1; for(auto& x : v) x = f * (g.one_in(4) ? 0 : (2 * g.unit() - 1) / Tr<G>::n); }
	else if(Tr<G>::n == 2) { int k = c == 0 ? 0 : 2; for(int i = 0; i < k; i++) v[i] = coordinate(g, tmax); v[k] = angle(g); if(c == 2) v[3] = logscale(g); }
	else { int k = c == 3 ? 0 : 3; for(int i = 0; i < k; i++) v[i] = coordinate(g, tmax); double w[3], a = angle(g); axis(g, w); for(int i = 0; i < 3; i++) v[k + i] = a * w[i]; if(c == 5) v[6] = logscale(g); }
	return std::vector<P>(v.begin(), v.end());
}
template<int D, class P> Vector<D, P> tov(const std::vector<P>& v) { Vector<D, P> r; for(int i = 0; i < D; i++) r[i] = v[i]; return r; }

// the operand kinds a vector of known or unknown size can have
template<int N, class P, class F> void vkind(Rng& g, const IVec& v, F f) { switch(g.range(0, 7)) {
	case 0: VK<N, P, 0>::go(v, f); break; case 1: VK<N, P, 1>::go(v, f); break; case 2: VK<N, P, 2>::go(v, f); break; case 3: VK<N, P, 3>::go(v, f); break;
	case 4: VK<N, P, 4>::go(v, f); break; case 5: VK<N, P, 5>::go(v, f); break; case 6: VK<N, P, 6>::go(v, f); break; default: VK<N, P, 7>::go(v, f); } }
template<int N, class P, class F> void skind(Rng& g, const IVec& v, F f) { switch(g.range(0, 3)) { case 0: VK<N, P, 0>::go(v, f); break; case 1: VK<N, P, 3>::go(v, f); break; case 2: VK<N, P, 6>::go(v, f); break; default: VK<N, P, 7>::go(v, f); } }
template<int R, int C, class P, class F> void mkind(Rng& g, const IMat& m, F f) { switch(g.range(0, 6)) {
	case 0: MK<R, C, P, 0>::go(m, f); break; case 1: MK<R, C, P, 1>::go(m, f); break; case 2: MK<R, C, P, 2>::go(m, f); break; case 3: MK<R, C, P, 6>::go(m, f); break;
	case 4: MK<R, C, P, 8>::go(m, f); break; case 5: MK<R, C, P, 7>::go(m, f); break; default: MK<R, C, P, 9>::go(m, f); } }

template<class P> SO3<P> cuberot(Rng& g) {      // exactly representable rotations
	SO3<P> r; static const int s[3] = {1, 0, 0}; (void)s; Matrix<3, 3, P> m;
	do { m = Zeros; std::vector<int> p = rperm(g, 3); for(int i = 0; i < 3; i++) m(i, p[i]) = g.coin() ? 1 : -1; } while((m[0] ^ m[1]) * m[2] < 0);
	return SO3<P>(m); }
template<class P> SO2<P> sqrot(Rng& g) { Matrix<2, 2, P> m; static const int c[] = {1, 0, -1, 0}; int k = g.range(0, 3); m(0, 0) = m(1, 1) = c[k]; m(1, 0) = c[(k + 3) % 4]; m(0, 1) = -m(1, 0); return SO2<P>(m); }

template<class G> G make(Rng& g, double tm) {
	typedef typename Tr<G>::P P; const int c = Tr<G>::code, n = Tr<G>::n, D = Tr<G>::dof;
	std::vector<P> a = algebra<G>(g, tm);
	auto trans = [&] { Vector<n, P> t; for(int i = 0; i < n; i++) t[i] = coordinate(g, tm); return t; };
	auto sc = [&] { static const double s[] = {1, 2, .5, 1.25, .75}; return P(g.coin() ? s[g.range(0, 4)] : .5 + 1.5 * g.unit()); };
	if constexpr(c == 6) {
		if(g.coin()) return G(tov<D>(a));
		for(;;) { IMat m = rmat(g, n, n, -2, 2); Matrix<n, n, P> x; for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) x(i, j) = m.at(i, j); P d = determinant(x); if(d < P(.5) || pcond(m) == 0 || pcond(m) > 12) continue; return G(x); }
	} else if constexpr(c == 0) { switch(g.range(0, 2)) { case 0: return sqrot<P>(g); case 1: return G(a[0]); default: return G::exp(a[0]); } }
	else if constexpr(c == 3) { switch(g.range(0, 2)) { case 0: return cuberot<P>(g); case 1: return G(tov<D>(a)); default: return G::exp(tov<D>(a)); } }
	else {
		if(g.one_in(3)) return g.coin() ? G(tov<D>(a)) : G::exp(tov<D>(a));
		auto R = [&] { if constexpr(n == 2) return make<SO2<P>>(g, 0); else return make<SO3<P>>(g, 0); }();
		if constexpr(c == 1) return G(R, trans()); else if constexpr(c == 4) { if(g.one_in(4)) return G(Identity, trans()); return G(R, trans()); } else return G(R, trans(), sc());
	}
}
template<class G> bool tame(const G& x) {
	typedef typename Tr<G>::P P; const int c = Tr<G>::code; LD lim = sizeof(P) == 4 ? 9 : 40;
	if constexpr(c == 6) { for(int i = 0; i < Tr<G>::n; i++) for(int j = 0; j < Tr<G>::n; j++) if(!(fabsl(x.get_matrix()(i, j)) < (sizeof(P) == 4 ? 4 : 12))) return false; return true; }
	else if constexpr(c == 0 || c == 3) return true;
	else { for(int i = 0; i < Tr<G>::n; i++) if(!(fabsl(x.get_translation()[i]) < lim)) return false; if constexpr(c == 2 || c == 5) return x.get_scale() < 4 && x.get_scale() > .25; else return true; }
}
template<class G> void evnew(const char* op, int i, const G& x) { Ev e(op); e.i("i", i).str("p", pn<typename Tr<G>::P>()).raw("x", xj(x)).emit(); }
template<class G> void peek(int i, const G& x) { Ev e("peek"); e.i("a", i).raw("x", xj(x)).emit(); }
template<class G> void evprod(int i, int a, int b, const G& x, const char* p = 0) { Ev e("prod"); e.i("i", i).i("a", a).i("b", b).str("p", p ? p : pn<typename Tr<G>::P>()).raw("x", xj(x)).emit(); }

template<class G, class Q> void act(int i, const G& x, Rng& g, int o) {     // operand numbers are of type Q
	const int h = Tr<G>::h, n = Tr<G>::n; const char* p = sizeof(Q) == 4 || sizeof(typename Tr<G>::P) == 4 ? "f" : "d";
	if(o == 0) { IMat X = rmat(g, h, 1, -6, 6); vkind<h, Q>(g, X.d, [&](auto& v) { auto r = x * v; Ev e("actl"); IMat X2(h, 1); X2.d = getv(v); e.i("a", i).str("p", p).raw("X", X.json()).raw("X2", X2.json()).raw("out", "{\"r\":" + std::to_string(r.size()) + ",\"c\":1,\"d\":" + lv(r) + "}").emit(); }); }
	else if(o == 1) { IMat X = rmat(g, 1, h, -6, 6); vkind<h, Q>(g, X.d, [&](auto& v) { auto r = v * x; Ev e("actr"); IMat X2(1, h); X2.d = getv(v); e.i("a", i).str("p", p).raw("X", X.json()).raw("X2", X2.json()).raw("out", "{\"r\":1,\"c\":" + std::to_string(r.size()) + ",\"d\":" + lv(r) + "}").emit(); }); }
	else if(o == 2) { IMat X = rmat(g, h, 2, -6, 6); mkind<h, 2, Q>(g, X, [&](auto& v) { auto r = x * v; Ev e("actl"); e.i("a", i).str("p", p).raw("X", X.json()).raw("X2", getm(v).json()).raw("out", lm(r)).emit(); }); }
	else if(o == 3) { IMat X = rmat(g, 2, h, -6, 6); mkind<2, h, Q>(g, X, [&](auto& v) { auto r = v * x; Ev e("actr"); e.i("a", i).str("p", p).raw("X", X.json()).raw("X2", getm(v).json()).raw("out", lm(r)).emit(); }); }
	else if constexpr(h > n) { IMat X = rmat(g, n, 1, -6, 6); skind<n, Q>(g, X.d, [&](auto& v) { auto r = x * v; Ev e("actp"); IMat X2(n, 1); X2.d = getv(v); e.i("a", i).str("p", p).raw("X", X.json()).raw("X2", X2.json()).raw("out", "{\"r\":" + std::to_string(r.size()) + ",\"c\":1,\"d\":" + lv(r) + "}").emit(); }); }
}
template<class G> void session(Rng& g, int steps) {
	typedef typename Tr<G>::P P; const int c = Tr<G>::code, K = 3; const double tm = sizeof(P) == 4 ? 4 : 7; typedef typename std::conditional<sizeof(P) == 4, double, float>::type Q;
	{ Ev e("forget"); e.emit(); }
	std::vector<G> x(K);
	evnew("newid", 0, x[0]); for(int i = 1; i < K; i++) { x[i] = make<G>(g, tm); evnew("new", i, x[i]); }
	for(int s = 0; s < steps; s++) {
		int i = g.range(0, K - 1), a = g.range(0, K - 1), b = g.range(0, K - 1); const G &ca = x[a], &cb = x[b];
		if(!tame(x[i])) { x[i] = make<G>(g, tm); evnew("new", i, x[i]); continue; }
		switch(g.range(0, 13)) {
			case 0: { if(!tame(ca) || !tame(cb)) break; G r = ca * cb; x[i] = r; evprod(i, a, b, x[i]); if(a != i) peek(a, x[a]); if(b != i) peek(b, x[b]); break; }
			case 1: { if(!tame(ca) || !tame(cb)) break; x[a] *= cb; evprod(a, a, b, x[a]); if(b != a) peek(b, x[b]); break; }
			case 2: { if(!tame(ca)) break; x[a] *= x[a]; evprod(a, a, a, x[a]); break; }
			case 3: { x[i] = ca.inverse(); { Ev e("inv"); e.i("i", i).i("a", a).str("p", pn<P>()).raw("x", xj(x[i])).emit(); } if(a != i) peek(a, x[a]); break; }
			case 4: { if(g.coin()) x[i] = ca; else { G y(ca); x[i] = y; } Ev e("copy"); e.i("i", i).i("a", a).raw("x", xj(x[i])).emit(); break; }
			case 5: { if(!tame(ca) || !tame(cb)) break; if constexpr(c == 4 || c == 5) { x[a].left_multiply_by(cb); evprod(a, b, a, x[a]); if(b != a) peek(b, x[b]); } break; }
			case 6: { if(!tame(ca)) break; if constexpr(c == 4 || c == 5) { x[a].left_multiply_by(x[a]); evprod(a, a, a, x[a]); } break; }
			case 7: { // with the other precision, or with a smaller group
				if(!tame(ca)) break;
				if constexpr(c == 4) { SO3<P> r = make<SO3<P>>(g, 0); evnew("new", 9, r); x[i] = r * ca; evprod(i, 9, a, x[i]); peek(9, r); }
				else if constexpr(c == 5) { SE3<P> r = make<SE3<P>>(g, 3); evnew("new", 9, r); x[i] = ca * r; evprod(i, a, 9, x[i]); peek(9, r); }
				else if constexpr(c == 0) { SE2<P> r = make<SE2<P>>(g, 3); (void)r; }
				break; }
			case 8: { if(!tame(ca)) break; if constexpr(sizeof(P) == 8 && c != 6) { typedef typename Tr<G>::template With<float> F; F r = make<F>(g, 3); evnew("new", 9, r); x[i] = ca * r; evprod(i, a, 9, x[i], "d"); peek(9, r); if(i != a) peek(a, x[a]); x[i] = make<G>(g, tm); evnew("new", i, x[i]); } break; }
			case 9: { if(!tame(ca)) break; if constexpr(sizeof(P) == 8 && (c == 0 || c == 1 || c == 3 || c == 4)) { typedef typename Tr<G>::template With<float> F; F r = make<F>(g, 3); evnew("new", 9, r); x[a] *= r; evprod(a, a, 9, x[a], "d"); peek(9, r); x[a] = make<G>(g, tm); evnew("new", a, x[a]); } break; }
			case 10: { if constexpr(c == 5) { x[i] = Identity; evnew("newid", i, x[i]); } else { x[i] = G(); evnew("newid", i, x[i]); } break; }
			default: { if(!tame(ca)) break; int o = g.range(0, 4); if(g.one_in(4)) act<G, Q>(a, ca, g, o); else act<G, P>(a, ca, g, o); peek(a, x[a]); break; }
		}
	}
	for(int i = 0; i < K; i++) peek(i, x[i]);
}

// ---------------------------------------------------------------- exp, ln, generators, adjoints
template<class G> auto expof(const std::vector<typename Tr<G>::P>& v, Rng& g, std::string& after) {
	typedef typename Tr<G>::P P; const int D = Tr<G>::dof;
	auto log = [&](const auto& x) { after = lv(x); };
	if constexpr(Tr<G>::code == 0) { P d = v[0]; G r = g.coin() ? G::exp(d) : G(d); after = "[" + limb(d, LK) + "]"; return r; }
	else switch(g.range(0, 5)) {
		case 0: { Vector<D, P> x = tov<D>(v); G r(x); log(x); return r; }
		case 1: { Vector<Dynamic, P> x(D); x = tov<D>(v); G r = G::exp(x); log(x); return r; }
		case 2: { Vector<D + 2, P> b = Zeros; auto x = b.template slice<1, D>(); x = tov<D>(v); G r = G::exp(x); log(x); return r; }
		case 3: { Matrix<D, 2, P> b = Zeros; b.T()[1] = tov<D>(v); G r = G::exp(b.T()[1]); log(b.T()[1]); return r; }
		case 4: { Vector<D, LD> x; for(int i = 0; i < D; i++) x[i] = v[i]; G r = sizeof(P) == 4 ? G::exp(Vector<D, double>(x)) : G::exp(tov<D>(v)); log(x); return r; }
		default: { Vector<D, P> x = tov<D>(v); G r = G::exp(x); log(x); return r; }
	}
}
template<class G> auto lnof(const G& x, Rng& g) { typedef typename Tr<G>::P P;
	if constexpr(Tr<G>::code == 0) { Vector<1, P> r; r[0] = x.ln(); return r; }
	else if constexpr(Tr<G>::code == 3 || Tr<G>::code == 6) return x.ln();
	else { if(g.coin()) return x.ln(); return G::ln(x); } }
template<class G> void lie(Rng& g, int count) {
	typedef typename Tr<G>::P P; const int c = Tr<G>::code, D = Tr<G>::dof, n = Tr<G>::n, h = Tr<G>::h; const char* p = pn<P>(); LK = sizeof(P) == 4 ? 4 : 5;
	{ std::string s = "["; for(int i = 0; i < D; i++) { s += (i ? "," : ""); if constexpr(c == 0) s += getm(G::generator()).json(); else s += getm(G::generator(i)).json(); } Ev e("gens"); e.str("g", Tr<G>::name()).i("n", n).raw("m", s + "]").emit(); }
	for(int q = 0; q < count; q++) {
		std::vector<P> v = algebra<G>(g, q % 2 ? 1 : 6); if(g.one_in(12) && c != 6) for(auto& x : v) x = 0;
		if(g.one_in(9) && (c < 6)) { int w0 = c == 0 || c == 3 ? 0 : n, nw = n == 2 ? 1 : 3; P f = P(1 + 2 * g.unit()); for(int i = 0; i < nw; i++) v[w0 + i] *= f; }        // beyond pi
		if constexpr(c >= 3 && c <= 5) if(q % 3 == 2) {      // by nearly pi about nearly a coordinate axis: some of the elements hold little but rounding errors
			int k = c == 3 ? 0 : 3, a = g.range(0, 2); double w[3], m = 0, t = PI - std::pow(10., -4 - g.unit() * 8); for(int i = 0; i < 3; i++) { w[i] = i == a ? 1 : g.one_in(4) ? 0 : std::pow(10., -6 - g.unit() * 4); if(g.coin()) w[i] = -w[i]; m += w[i] * w[i]; }
			for(int i = 0; i < 3; i++) v[k + i] = P(t * w[i] / std::sqrt(m)); }
		std::string after, before = "["; for(int i = 0; i < D; i++) before += (i ? "," : "") + limb(v[i], LK); before += "]";
		G x = expof<G>(v, g, after);
		{ Ev e("exp"); e.i("n", n).str("p", p).raw("v", before).raw("v2", after).raw("x", xj(x)).emit(); }
		auto u = lnof(x, g);
		{ Ev e("lnexp"); e.i("n", n).str("p", p).raw("v", before).raw("u", lv(u)).raw("x", xj(x)).emit(); }
		if(q % 2 == 0) { G y = make<G>(g, 3); y = g.coin() ? x * y : y.inverse() * x; if(!tame(y) || c == 6) continue; auto w = lnof(y, g); G z = [&] { if constexpr(c == 0) return G::exp(w[0]); else return G::exp(w); }();
			Ev e("ln"); e.i("n", n).str("p", p).raw("x", xj(y)).raw("u", lv(w)).raw("y", xj(z)).emit(); }
	}
	for(int q = 0; q < count; q++) {
		if constexpr(c == 3) { IVec pt = rvec(g, 3, -9, 9); int i = g.range(0, 2); skind<3, P>(g, pt, [&](auto& v) { auto r = G::generator_field(i, v); Ev e("field"); e.str("g", "SO3").i("i", i + 1).v("pt", getv(v)).v("out", getv(r)).emit(); }); }
		if constexpr(c == 4 || c == 5) { IVec pt = rvec(g, 4, -9, 9); int i = g.range(0, D - 1); skind<4, P>(g, pt, [&](auto& v) { auto r = G::generator_field(i, v); Ev e("field"); e.str("g", Tr<G>::name()).i("i", i + 1).v("pt", getv(v)).v("out", getv(r)).emit(); }); }
		if constexpr(c != 0 && c != 6) {
			G x = make<G>(g, sizeof(P) == 4 ? 2 : 4); IVec v = rvec(g, D, -3, 3); if(g.one_in(3)) { v.assign(D, 0); v[g.range(0, D - 1)] = 1; }
			auto ad = [&](auto& w) { auto a = x.adjoint(w); Ev e("adj"); e.str("p", p).raw("x", xj(x)).v("v", v).v("v2", getv(w)).raw("a", lv(a)).emit(); };
			if constexpr(c == 1 || c == 2) skind<D, P>(g, v, ad); else vkind<D, P>(g, v, ad);
			if constexpr(c == 4 || c == 5) { if(g.one_in(4)) vkind<D, double>(g, v, ad); if(g.one_in(4)) vkind<D, float>(g, v, ad); }
			if(q % 4 == 0) { G xi = x.inverse(); IMat M = rmat(g, D, D, -2, 2); if constexpr(c != 3) {
				auto am = [&](auto& m) { auto r = x.adjoint(m); Ev e("adjm"); e.str("p", p).raw("x", xj(x)).raw("xi", xj(xi)).raw("m", getm(m).json()).raw("out", lm(r)).emit(); };
				if constexpr(c == 1 || c == 2) { if(g.coin()) MK<D, D, P, 0>::go(M, am); else MK<D, D, P, 1>::go(M, am); } else mkind<D, D, P>(g, M, am); }
				if constexpr(c == 4 || c == 5) {
					vkind<D, P>(g, v, [&](auto& w) { auto a = x.trinvadjoint(w); Ev e("tri"); e.str("p", p).raw("x", xj(x)).raw("xi", xj(xi)).v("v", v).v("v2", getv(w)).raw("a", lv(a)).emit(); });
					mkind<D, D, P>(g, M, [&](auto& m) { auto r = x.trinvadjoint(m); Ev e("trim"); e.str("p", p).raw("x", xj(x)).raw("xi", xj(xi)).raw("m", getm(m).json()).raw("out", lm(r)).emit(); }); } }
		}
		if constexpr(c == 0 || c == 3) {
			for(;;) { IMat m = rmat(g, n, n, -4, 4); if(g.one_in(3)) { m = iid(n); m.at(g.range(0, n - 1), g.range(0, n - 1)) += g.range(-2, 2); } IMat t = m; LD d = 0;
				if(n == 2) d = m.at(0, 0) * m.at(1, 1) - m.at(0, 1) * m.at(1, 0); else for(int j = 0; j < 3; j++) d += m.at(0, j) * (m.at(1, (j + 1) % 3) * m.at(2, (j + 2) % 3) - m.at(1, (j + 2) % 3) * m.at(2, (j + 1) % 3));
				int cd = pcond(m); if(d < .5 || cd == 0 || cd > 30) continue;
				auto go = [&](auto& a) { G r; if constexpr(c == 0) { r = a; } else { if(g.coin()) r = a; else r = G(a); } Ev e("coerce"); e.str("p", p).raw("m", getm(a).json()).raw("R", lm(r.get_matrix())).emit(); };
				mkind<n, n, P>(g, m, go);
				{ Matrix<n, n, P> a; for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) a(i, j) = m.at(i, j); G r(a); Ev e("coerce"); e.str("p", p).raw("m", m.json()).raw("R", lm(r.get_matrix())).emit(); }
				{ Matrix<n, n, P> a; for(int i = 0; i < n; i++) { int k = g.range(-20, 20); for(int j = 0; j < n; j++) a(i, j) = std::ldexp(P(m.at(i, j)), k); } G r(a); Ev e("coerce"); e.str("p", p).raw("m", m.json()).raw("R", lm(r.get_matrix())).emit(); }
				break; } }
		if constexpr(c == 3) {
			IVec a = rvec(g, 3, -5, 5), b = rvec(g, 3, -5, 5); int big = sizeof(P) == 4 ? 20 : 100;
			switch(g.range(0, 6)) { case 0: for(int i = 0; i < 3; i++) b[i] = a[i] * 2; break; case 1: for(int i = 0; i < 3; i++) { a[i] *= big; b[i] = a[i] + g.range(-1, 1); } break; case 2: if(g.coin()) a.assign(3, 0); else b.assign(3, 0); break; case 3: for(int i = 0; i < 3; i++) b[i] = -a[i]; b[g.range(0, 2)] += 1; break; case 4: for(int i = 0; i < 3; i++) b[i] = a[(i + 1) % 3] - a[(i + 2) % 3]; break; default: break; }
			long dot = 0; for(int i = 0; i < 3; i++) dot += a[i] * b[i]; long cr = 0; for(int i = 0; i < 3; i++) cr += labs(a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3]);
			if(dot < 0 && cr == 0) continue;      // opposite directions: asserted against
			// only the directions count
			if(g.coin()) { int w = sizeof(P) == 4 ? 12 : 100, ka = g.range(-w, w), kb = g.coin() ? ka : g.range(-w, w); Vector<3, P> sa, sb; for(int i = 0; i < 3; i++) { sa[i] = std::ldexp(P(a[i]), ka); sb[i] = std::ldexp(P(b[i]), kb); }
				G r(sa, sb); Ev e("axes"); e.str("p", p).v("a", a).v("b", b).i("ka", ka).i("kb", kb).raw("R", lm(r.get_matrix())).emit(); }
			else skind<3, P>(g, a, [&](auto& va) { skind<3, P>(g, b, [&](auto& vb) { G r(va, vb); Ev e("axes"); e.str("p", p).v("a", getv(va)).v("b", getv(vb)).raw("R", lm(r.get_matrix())).emit(); }); });
		}
	}
	(void)h;
}
// ---------------------------------------------------------------- matrix exp, log, sqrt; SL(n)
template<int N, class P, class F> void anykind(Rng& g, const Matrix<N, N, P>& m, F f) {
	switch(g.range(0, 4)) {
		case 0: { Matrix<N, N, P> a = m; f(a); break; }
		case 1: { Matrix<N, N, P, ColMajor> a = m; f(a); break; }
		case 2: { Matrix<Dynamic, Dynamic, P> a = m; f(a); break; }
		case 3: { Matrix<N + 2, N + 1, P> b = Zeros; auto a = b.template slice<1, 1, N, N>(); a = m; f(a); break; }
		default: { Matrix<Dynamic, Dynamic, P, ColMajor> b(N + 1, N + 2); b = Zeros; auto a = b.slice(1, 0, N, N); a = m; f(a); break; }
	}
}
template<int N, class P> Matrix<N, N, P> rsquare(Rng& g, double size) {     // row sums about size at most
	Matrix<N, N, P> m = Zeros; int k = g.range(0, 7);
	for(int i = 0; i < N; i++) for(int j = 0; j < N; j++) { P x = P((2 * g.unit() - 1) * size / N); switch(k) {
		case 0: m(i, j) = i == j ? x * N : 0; break; case 1: m(i, j) = i < j ? x : 0; break; case 2: if(i < j) { m(i, j) = x; m(j, i) = -x; } break;
		case 3: if(i <= j) { m(i, j) = x; m(j, i) = x; } break; case 4: m(i, j) = g.range(-1, 1) * P(size / N); break; case 5: m(i, j) = g.one_in(3) ? x : 0; break; default: m(i, j) = x; } }
	return m; }
template<int N, class P> void matfun(Rng& g, int count) {
	const char* p = pn<P>(); LK = sizeof(P) == 4 ? 4 : 5;
	for(int q = 0; q < count; q++) {
		double size = g.one_in(4) ? std::pow(10., -9 * g.unit()) : sizeof(P) == 4 ? 2 * g.unit() : 4 * g.unit();
		anykind<N, P>(g, rsquare<N, P>(g, size), [&](auto& a) { Matrix<N, N, P> b = a; auto r = exp(a); Ev e("expm"); e.str("p", p).raw("A", lm(b)).raw("A2", lm(a)).raw("E", lm(r)).emit(); });
		size = g.one_in(4) ? std::pow(10., -7 * g.unit()) : (sizeof(P) == 4 ? 0.9 : 1.4) * g.unit();
		{ Matrix<N, N, P> b = rsquare<N, P>(g, size); Matrix<N, N, P> m = exp(b); P big = norm_inf(m), mx = 1; Matrix<N, N, P> mi = exp(-1 * b); P cd = big * norm_inf(mi);
			anykind<N, P>(g, m, [&](auto& a) { auto r = log(a); { Ev e("logm"); e.str("p", p).raw("A", lm(m)).raw("A2", lm(a)).raw("X", lm(r)).emit(); } Ev e("logexp"); e.str("p", p).i("cd", (long)ceil(cd)).raw("B", lm(b)).raw("X", lm(r)).emit(); });
			if(g.one_in(2)) { IMat t; int cond; do { t = N == 1 ? IMat(1, 1) : posdef<P>(g, N).a; if(N == 1) t.at(0, 0) = g.range(1, 5); cond = pcond(t); mx = 0; for(long x : t.d) mx = std::max(mx, P(labs(x))); } while(mx > (sizeof(P) == 4 ? 5 : 20) || cond == 0 || cond > (sizeof(P) == 4 ? 8 : 40)); for(int i = 0; i < N; i++) for(int j = 0; j < N; j++) m(i, j) = t.at(i, j); cd = cond; if(g.coin()) anykind<N, P>(g, m, [&](auto& a) { auto r = log(a); Ev e("logm"); e.str("p", p).raw("A", lm(m)).raw("A2", lm(a)).raw("X", lm(r)).emit(); }); }
			{ int k = g.range(-40, 40); Matrix<N, N, P> m2 = m; for(int i = 0; i < N; i++) for(int j = 0; j < N; j++) m2(i, j) = std::ldexp(m2(i, j), k); Matrix<N, N, P> l1 = log(m); anykind<N, P>(g, m2, [&](auto& a) { auto r = log(a); Ev e("log2k"); e.str("p", p).i("k", k).i("cd", (long)ceil(cd)).raw("X", lm(l1)).raw("Y", lm(r)).emit(); }); }
			anykind<N, P>(g, m, [&](auto& a) { auto r = TooN::sqrt(a); Ev e("sqrtm"); e.str("p", p).i("cd", (long)ceil(cd)).raw("A", lm(m)).raw("A2", lm(a)).raw("X", lm(r)).emit(); }); }
		if(N > 1) { // 2^k times a matrix of which the square is zero: exp is identity plus the matrix, however large it is
			std::vector<int> pm = rperm(g, N); int h = g.range(1, N - 1), k = g.one_in(3) ? 0 : g.range(60, sizeof(P) == 4 ? 100 : 300); IMat t(N, N);
			for(int i = 0; i < h; i++) for(int j = h; j < N; j++) t.at(pm[i], pm[j]) = g.range(-2, 2);
			t.at(pm[0], pm[N - 1]) = g.range(1, 2);
			Matrix<N, N, P> m; for(int i = 0; i < N; i++) for(int j = 0; j < N; j++) m(i, j) = std::ldexp(P(t.at(i, j)), k);
			anykind<N, P>(g, m, [&](auto& a) { Matrix<N, N, P> r = exp(a); for(int i = 0; i < N; i++) for(int j = 0; j < N; j++) r(i, j) = std::ldexp(r(i, j), -k); Ev e("expn"); e.str("p", p).i("k", k).raw("N", t.json()).raw("E", lm(r)).emit(); }); }
		if(q == 0) { Matrix<N, N, P> z = Zeros; anykind<N, P>(g, z, [&](auto& a) { auto r = exp(a); Ev e("exp0"); e.raw("E", getm(r).json()).emit(); }); }
	}
}
template<int N, class P> void scaled(Rng& g, int count) {
	const char* p = pn<P>(); LK = sizeof(P) == 4 ? 4 : 5;
	for(int q = 0; q < count; q++) { IMat t; int cd; LD d; do { t = rmat(g, N, N, -4, 4); cd = pcond(t); Matrix<N, N, double> x; for(int i = 0; i < N; i++) for(int j = 0; j < N; j++) x(i, j) = t.at(i, j); d = determinant(x); } while(cd == 0 || cd > 30 || d < .5);
		Matrix<N, N, P> m; for(int i = 0; i < N; i++) for(int j = 0; j < N; j++) m(i, j) = t.at(i, j);
		anykind<N, P>(g, m, [&](auto& a) { SL<N, P> r(a); Ev e("scaled"); e.str("p", p).raw("m", getm(a).json()).raw("R", lm(r.get_matrix())).emit(); }); }
}
#if PART == 1
void p1(Rng& g) { session<SO2<>>(g, 30); session<SE2<>>(g, 50); }
#elif PART == 2
void p2(Rng& g) { session<SIM2<>>(g, 50); session<SO3<>>(g, 30); }
#elif PART == 3
void p3(Rng& g) { session<SE3<>>(g, 60); }
#elif PART == 4
void p4(Rng& g) { session<SIM3<>>(g, 60); }
#elif PART == 5
void p5(Rng& g) { session<SO2<float>>(g, 20); session<SE2<float>>(g, 30); session<SIM2<float>>(g, 30); session<SO3<float>>(g, 20); }
#elif PART == 6
void p6(Rng& g) { session<SE3<float>>(g, 30); session<SIM3<float>>(g, 30); session<SL<3, float>>(g, 20); }
#elif PART == 7
void p7(Rng& g) { session<SL<2>>(g, 30); session<SL<3>>(g, 30); session<SL<4>>(g, 20); session<SL<5>>(g, 8); }
#elif PART == 8
void l1(Rng& g) { lie<SO2<>>(g, 8); lie<SE2<>>(g, 12); lie<SIM2<>>(g, 12); }
#elif PART == 9
void l2(Rng& g) { lie<SO3<>>(g, 16); lie<SE3<>>(g, 12); }
#elif PART == 10
void l3(Rng& g) { lie<SIM3<>>(g, 16); }
#elif PART == 11
void l4(Rng& g) { lie<SO2<float>>(g, 4); lie<SE2<float>>(g, 4); lie<SIM2<float>>(g, 4); lie<SO3<float>>(g, 6); lie<SE3<float>>(g, 6); lie<SIM3<float>>(g, 4); }
#elif PART == 12
void s1(Rng& g) { lie<SL<2>>(g, 8); lie<SL<3>>(g, 6); scaled<2, double>(g, 6); scaled<3, double>(g, 6); scaled<4, double>(g, 4); scaled<3, float>(g, 4); scaled<2, float>(g, 2); }
void s2(Rng& g) { lie<SL<4>>(g, 4); lie<SL<3, float>>(g, 4); lie<SL<2, float>>(g, 4); lie<SL<5>>(g, 1); }
#elif PART == 13
void m1(Rng& g) { matfun<1, double>(g, 3); matfun<2, double>(g, 8); matfun<3, double>(g, 8); matfun<4, double>(g, 5); matfun<2, float>(g, 5); matfun<3, float>(g, 5); }
#elif PART == 14
void p1(Rng&); void p2(Rng&); void p3(Rng&); void p4(Rng&); void p5(Rng&); void p6(Rng&); void p7(Rng&); void l1(Rng&); void l2(Rng&); void l3(Rng&); void l4(Rng&); void s1(Rng&); void s2(Rng&); void m1(Rng&);
int main(int c, char** v) {
	Args a(c, v); Rng g = a.rng();
	if(a.mode == "ops") { void (*p[])(Rng&) = {p3, p4, p1, p2, p7, p5, p6}; for(long n = 0; n < a.n; n++) p[(n + a.shard) % 7](g); }
	else if(a.mode == "lie") { void (*p[])(Rng&) = {l3, l2, l1, l4}; for(long n = 0; n < a.n; n++) p[(n + a.shard) % 4](g); }
	else { void (*p[])(Rng&) = {s1, m1, s2}; for(long n = 0; n < a.n; n++) { p[(n + a.shard) % 3](g); if(n % 3 == 2) p7(g); } }
	return 0;
}
#endif
