// Conformance harness for C19: norms, extremes, reductions and the other helpers, and named elements.
#include "numeric.h"
#include <TooN/TooN.h>
#if PART == 10
#include <TooN/named_elements.h>
TOON_MAKE_NAMED_ELEMENT_VECTOR(Pt3, x, y, z)
TOON_MAKE_NAMED_ELEMENT_VECTOR(One1, w)
TOON_MAKE_NAMED_ELEMENT_VECTOR(Six6, a, b, c, d, e, f)
#endif
using namespace TooN;
using namespace H;
namespace {
const long Q = 16;
template<class P> struct LM { static const int n = 5; };
template<> struct LM<float> { static const int n = 3; };
template<> struct LM<long double> { static const int n = 6; };
template<class P> std::string num(P v) { return limb((LD)v, LM<P>::n); }
template<class P, class V> std::string pt(const V& v, LD f = 1) { std::string s = "["; for(int i = 0; i < v.size(); i++) s += (i ? "," : "") + num<P>(P((LD)v[i] * f)); return s + "]"; }
template<class P, class M> std::string pm(const M& m) { std::string s = "{\"r\":" + std::to_string(m.num_rows()) + ",\"c\":" + std::to_string(m.num_cols()) + ",\"d\":["; for(int i = 0; i < m.num_rows(); i++) for(int j = 0; j < m.num_cols(); j++) s += (i + j ? "," : "") + num<P>(m(i, j)); return s + "]}"; }
template<class P> long un(P v, LD f = 1) { return ex((LD)v * f * Q); }
template<class V> IVec uv(const V& v, LD f = 1) { IVec r; for(int i = 0; i < v.size(); i++) r.push_back(un(v[i], f)); return r; }
template<class M> IMat umx(const M& m, LD f = 1) { IMat r(m.num_rows(), m.num_cols()); for(int i = 0; i < r.r; i++) for(int j = 0; j < r.c; j++) r.at(i, j) = un(m(i, j), f); return r; }
template<class V> IVec idx(const V& v) { IVec r; for(int i = 0; i < v.size(); i++) r.push_back(ex(v[i])); return r; }
template<class P> struct IsInt { static const bool v = false; };
template<> struct IsInt<int> { static const bool v = true; };
// scale by an exact power of two: the values of an operand in units of 2^sc / 16
template<class P> int scales(Rng& g) { if(IsInt<P>::v || g.coin()) return 0; return sizeof(P) == 4 ? g.range(-20, 20) : g.range(-200, 200); }
IVec values(Rng& g, int n) {
	IVec v(n);
	switch(g.range(0, 7)) {
		case 0: for(auto& x : v) x = 4 * g.range(-1, 1); break;
		case 1: for(auto& x : v) x = -4 * g.range(1, 32); break;
		case 2: for(auto& x : v) x = 4 * g.range(1, 32); break;
		case 3: { long k = 4 * g.range(-32, 32); for(auto& x : v) x = k; break; }
		case 4: for(auto& x : v) x = 0; if(n) v[g.range(0, n - 1)] = 4 * g.range(-32, 32); break;
		case 5: { long k = 4 * g.range(1, 32); for(auto& x : v) x = g.coin() ? k : -k; break; }
		default: for(auto& x : v) x = 4 * g.range(-32, 32);
	}
	return v;
}
template<class P> IVec vals(Rng& g, int n) { IVec v = values(g, n); if(IsInt<P>::v) for(auto& x : v) x *= 4; return v; }
template<class P> P of(long units, int sc) { return P(std::ldexp((LD)units / Q, sc)); }
template<class P> P special(int code) { typedef std::numeric_limits<P> L; switch(code) { case 1: return L::infinity(); case 2: return -L::infinity(); case 3: return L::quiet_NaN(); case 4: return L::max(); case 5: return L::denorm_min(); case 6: return -L::max(); case 7: return -P(0); default: return P(2.5); } }

template<class P, bool INT = IsInt<P>::v> struct Do {
	template<class V> static void norms(Rng& g, V& v, int sc) {
		LD f = ldexpl(1, -sc); const V& c = v;
		P nn = norm(c), n2 = norm_2(c);
		{ LD q = (LD)norm_sq(c) * f * f * Q * Q; Ev e("norms"); e.i("L", LM<P>::n).i("nsq", ex(q)).i("n1", un(norm_1(c), f)).i("ninf", un(norm_inf(c), f)).raw("nn", limb((LD)nn * f, LM<P>::n)).raw("n2", limb((LD)n2 * f, LM<P>::n)).v("x2", uv(v, f)).emit(); }
	}
	template<class V> static void unitof(Rng& g, V& v, int sc) {
		LD f = ldexpl(1, -sc); const V& c = v; bool z = true; for(int i = 0; i < v.size(); i++) z = z && v[i] == 0; if(z) return;
		auto u = unit(c); Ev("unit").i("L", LM<P>::n).raw("r", pt<P>(u)).raw("nn", limb((LD)norm(c) * f, LM<P>::n)).v("x2", uv(v, f)).emit();
	}
	template<class V> static bool normed(Rng& g, V& v, int sc) {
		LD f = ldexpl(1, -sc); bool z = true; for(int i = 0; i < v.size(); i++) z = z && v[i] == 0; if(z) return false;
		P nn = norm(v);
		switch(g.range(0, 1)) { case 0: normalize(v.as_slice()); break; default: normalize(v.slice(0, v.size())); }
		Ev("normalize").i("L", LM<P>::n).raw("r", pt<P>(v)).raw("nn", limb((LD)nn * f, LM<P>::n)).emit(); return true;
	}
	template<class V> static void proj(Rng& g, V& v, int sc) {
		LD f = ldexpl(1, -sc); const V& c = v; int n = v.size(); if(n < 2 || v[n - 1] == 0) return;
		Ev e("project"); auto p = project(c); e.i("L", LM<P>::n).raw("r", pt<P>(p)).v("x2", uv(v, f)).emit();
	}
	template<class V> static void nonfinite(Rng& g, V& v) {
		IVec codes; for(int i = 0; i < v.size(); i++) { int k = g.one_in(3) ? g.range(1, 7) : g.one_in(2) ? 4 + g.range(0, 3) : 0; v[i] = special<P>(k); codes.push_back(k < 4 ? k : 0); }
		const V& c = v; Ev("special").v("codes", codes).b("fin", isfinite(c)).b("nan", isnan(c)).emit();
	}
};
template<class P> struct Do<P, true> {
	template<class V> static void norms(Rng& g, V& v, int) { const V& c = v; Ev("inorms").i("nsq", ex(norm_sq(c)) * Q * Q).i("n1", un(norm_1(c))).i("ninf", un(norm_inf(c))).v("x2", uv(v)).emit(); }
	template<class V> static void unitof(Rng&, V&, int) {}
	template<class V> static bool normed(Rng&, V&, int) { return false; }
	template<class V> static void proj(Rng&, V&, int) {}
	template<class V> static void nonfinite(Rng&, V&) {}
};
template<class M> struct SqM;
template<int R, int C, class P, class B> struct SqM<Matrix<R, C, P, B>> : std::integral_constant<bool, R == C || R < 0 || C < 0> {};
template<class V> void fillold(V& v, typename std::decay<decltype(v[0])>::type p) { Fill(v, p); }
struct VecOps { Rng& g; int sc; template<class V> void operator()(V& v) {
	typedef typename std::decay<decltype(v[0])>::type P; LD f = ldexpl(1, -sc); int n = v.size();
	for(int i = 0; i < n; i++) v[i] = P(std::ldexp((LD)v[i] / (IsInt<P>::v ? 1 : Q), sc));          // operands come in units
	const V& c = v;
	Ev("vec").i("n", n).v("x", uv(v, f)).str("t", IsInt<P>::v ? "i" : Prec2<P>()).emit();
	for(int k = g.range(2, 5); k--;) switch(g.range(0, 7)) {
		case 0: Do<P>::norms(g, v, sc); break;
		case 1: Do<P>::unitof(g, v, sc); break;
		case 2: case 3: { auto mn = min_element(c), mx = max_element(c); Ev("vext").i("mn", un(min_value(c), f)).i("mx", un(max_value(c), f)).raw("mne", "{\"v\":" + std::to_string(un(mn.first, f)) + ",\"i\":" + std::to_string(mn.second) + "}").raw("mxe", "{\"v\":" + std::to_string(un(mx.first, f)) + ",\"i\":" + std::to_string(mx.second) + "}").v("x2", uv(v, f)).emit(); break; }
		case 4: Do<P>::proj(g, v, sc); break;
		case 5: if(sc == 0) { auto u = unproject(c); Ev("unproject").v("r", uv(u)).v("x2", uv(v, f)).emit(); } break;
		case 6: cross(v, std::integral_constant<bool, false>()); break;
		default: if(g.coin()) { P p = P(std::ldexp((LD)g.range(-8, 8), sc)); fillold(v, p); Ev("fillv").i("p", un(p, f)).v("x2", uv(v, f)).emit(); } else Do<P>::norms(g, v, sc);
	}
	if(g.coin()) { if(Do<P>::normed(g, v, sc)) return; }
	if(g.one_in(3)) Do<P>::nonfinite(g, v);
}
	template<class P> static const char* Prec2() { return sizeof(P) == 4 ? "f" : sizeof(P) == 8 ? "d" : "l"; }
	template<class V> void cross(V& v, std::false_type) { if(v.size() == 3) cross3(v, std::integral_constant<bool, V::SizeParameter == 3 || V::SizeParameter < 0>()); }
	template<class V> void cross3(V& v, std::true_type) { const V& c = v; LD f = ldexpl(1, -sc); auto m = cross_product_matrix(c); Ev("cross").raw("m", umx(m, f).json()).v("x2", uv(v, f)).emit(); }
	template<class V> void cross3(V&, std::false_type) {}
};
template<class P, bool INT = IsInt<P>::v> struct MDo {
	template<class M> static void norms(M& m, LD f) { const M& c = m; Ev("mnorms").i("L", LM<P>::n).raw("fro", limb((LD)norm_fro(c) * f, LM<P>::n)).i("n1", un(norm_1(c), f)).i("ninf", un(norm_inf(c), f)).raw("m2", umx(m, f).json()).emit(); }
	template<class M> static void proj(M& m, LD f) { const M& c = m; int r = m.num_rows(); for(int j = 0; j < m.num_cols(); j++) if(m(r - 1, j) == 0) return; if(r < 2) return; auto p = project(c); Ev("mproject").i("L", LM<P>::n).raw("r", pm<P>(p)).raw("m2", umx(m, f).json()).emit(); }
	template<class M> static void nonfinite(Rng& g, M& m) {
		IVec codes; for(int i = 0; i < m.num_rows(); i++) for(int j = 0; j < m.num_cols(); j++) { int k = g.one_in(4) ? g.range(1, 7) : 0; m(i, j) = special<P>(k); codes.push_back(k < 4 ? k : 0); }
		const M& c = m; Ev("mspecial").v("codes", codes).b("nan", isnan(c)).emit();
	}
	template<class M> static void sym(M& m, LD f) { Symmetrize(m); Ev("symmetrize").raw("m2", umx(m, f).json()).emit(); }
};
template<class P> struct MDo<P, true> {
	template<class M> static void norms(M& m, LD) { const M& c = m; Ev("imnorms").i("n1", un(norm_1(c))).i("ninf", un(norm_inf(c))).raw("m2", umx(m).json()).emit(); }
	template<class M> static void proj(M&, LD) {}
	template<class M> static void nonfinite(Rng&, M&) {}
	template<class M> static void sym(M& m, LD f) { MDo<P, false>::sym(m, f); }
};
struct MatOps { Rng& g; int sc; template<class M> void operator()(M& m) {
	typedef typename std::decay<decltype(m(0, 0))>::type P; LD f = ldexpl(1, -sc); int r = m.num_rows(), cc = m.num_cols();
	for(int i = 0; i < r; i++) for(int j = 0; j < cc; j++) m(i, j) = P(std::ldexp((LD)m(i, j) / (IsInt<P>::v ? 1 : Q), sc));
	const M& c = m;
	Ev("mat").raw("m", umx(m, f).json()).str("t", IsInt<P>::v ? "i" : VecOps::Prec2<P>()).emit();
	for(int k = g.range(2, 5); k--;) switch(g.range(0, 8)) {
		case 0: MDo<P>::norms(m, f); break;
		case 1: { auto mn = min_element(c), mx = max_element(c); auto js = [&](auto& q) { return "{\"v\":" + std::to_string(un(q.first, f)) + ",\"i\":" + std::to_string(q.second.first) + ",\"j\":" + std::to_string(q.second.second) + "}"; };
			Ev("mext").i("mn", un(min_value(c), f)).i("mx", un(max_value(c), f)).raw("mne", js(mn)).raw("mxe", js(mx)).raw("m2", umx(m, f).json()).emit(); break; }
		case 2: { auto mn = min_element_vertical(c), mx = max_element_vertical(c); Ev("lext").str("dir", "v").v("mn", uv(min_value_vertical(c), f)).v("mx", uv(max_value_vertical(c), f)).v("mnv", uv(mn.first, f)).v("mni", idx(mn.second)).v("mxv", uv(mx.first, f)).v("mxi", idx(mx.second)).raw("m2", umx(m, f).json()).emit(); break; }
		case 3: { auto mn = min_element_horizontal(c), mx = max_element_horizontal(c); Ev("lext").str("dir", "h").v("mn", uv(min_value_horizontal(c), f)).v("mx", uv(max_value_horizontal(c), f)).v("mnv", uv(mn.first, f)).v("mni", idx(mn.second)).v("mxv", uv(mx.first, f)).v("mxi", idx(mx.second)).raw("m2", umx(m, f).json()).emit(); break; }
		case 4: square(m, std::integral_constant<bool, SqM<M>::value>()); break;
		case 5: MDo<P>::proj(m, f); break;
		case 6: if(sc == 0) { auto u = unproject(c); Ev("munproject").raw("r", umx(u).json()).raw("m2", umx(m, f).json()).emit(); } break;
		default: if(g.one_in(4)) { P p = P(std::ldexp((LD)g.range(-8, 8), sc)); Fill(m, p); Ev("fillm").i("p", un(p, f)).raw("m2", umx(m, f).json()).emit(); } else square(m, std::integral_constant<bool, SqM<M>::value>());
	}
	if(g.one_in(3)) MDo<P>::nonfinite(g, m);
}
	template<class M> void square(M& m, std::true_type) {
		
		typedef typename std::decay<decltype(m(0, 0))>::type P; LD f = ldexpl(1, -sc); const M& c = m; if(m.num_rows() != m.num_cols()) return;
		if(g.coin()) Ev("trace").i("tr", un(trace(c), f)).raw("m2", umx(m, f).json()).emit();
		else { bool halves = false; for(int i = 0; i < m.num_rows(); i++) for(int j = 0; j < m.num_cols(); j++) halves = halves || (un(m(i, j), f) % (IsInt<P>::v ? 32 : 2)) != 0; if(!halves) MDo<P>::sym(m, f); }
	}
	template<class M> void square(M&, std::false_type) {}
};
template<int N, class P> void vec(Rng& g) {
	int k = g.range(0, NVK - 1), sc = scales<P>(g); IVec v = vals<P>(g, N); if(IsInt<P>::v) for(auto& x : v) x /= Q;
	bool ok = with_vec<N, P>(k, v, VecOps{g, sc}); Ev("guard").b("ok", ok).emit();
}
template<int R, int C, class P> void mat(Rng& g) {
	int k = g.range(0, NMK - 1), sc = scales<P>(g); IMat m(R, C); m.d = vals<P>(g, R * C); if(IsInt<P>::v) for(auto& x : m.d) x /= Q;
	bool ok = with_mat<R, C, P>(k, m, MatOps{g, sc}); Ev("guard").b("ok", ok).emit();
}
}
void run1(Rng&); void run2(Rng&); void run3(Rng&); void run4(Rng&); void run5(Rng&); void run6(Rng&); void run7(Rng&); void run8(Rng&); void run9(Rng&); void run10(Rng&);
#if PART == 1
void run1(Rng& g) { vec<1, double>(g); vec<2, double>(g); vec<3, double>(g); vec<6, double>(g); }
#elif PART == 2
void run2(Rng& g) { vec<3, float>(g); vec<4, float>(g); vec<3, long double>(g); vec<5, long double>(g); }
#elif PART == 3
void run3(Rng& g) { vec<3, int>(g); vec<5, int>(g); vec<9, double>(g); }
#elif PART == 4
void run4(Rng& g) { mat<2, 2, double>(g); mat<3, 4, double>(g); }
#elif PART == 5
void run5(Rng& g) { mat<4, 2, double>(g); mat<3, 3, double>(g); }
#elif PART == 6
void run6(Rng& g) { mat<1, 4, float>(g); mat<3, 3, float>(g); }
#elif PART == 7
void run7(Rng& g) { mat<3, 1, long double>(g); mat<4, 4, long double>(g); }
#elif PART == 8
void run8(Rng& g) { mat<2, 3, int>(g); mat<3, 3, int>(g); }
#elif PART == 9
// sizes known at run time only; larger operands; inverse of a 2x2 matrix; normalize of a whole vector
void run9(Rng& g) {
	{ int n = g.range(1, 24), sc = scales<double>(g); bool ok = with_dvec<double>(dvk[g.range(0, NDVK - 1)], vals<double>(g, n), VecOps{g, sc}); Ev("guard").b("ok", ok).emit(); }
	{ int r = g.range(1, 6), c = g.range(1, 6), sc = scales<double>(g); IMat m(r, c); m.d = vals<double>(g, r * c); bool ok = with_dmat<double>(dmk[g.range(0, NDMK - 1)], m, MatOps{g, sc}); Ev("guard").b("ok", ok).emit(); }
	{ IVec v = vals<double>(g, 4); if(v[0] * v[3] != v[1] * v[2]) { Matrix<2> m; IMat im(2, 2); im.d = v; setm(m, im); m *= 1. / Q; const Matrix<2>& c = m; Ev("mat").raw("m", umx(m).json()).emit(); Matrix<2> r = inv(c); Ev("inv").i("L", 5).raw("r", pm<double>(r)).raw("m2", umx(m).json()).emit(); if(g.coin()) { Matrix<2> r2 = inv(m.T()); Ev("mat").raw("m", umx(m.T()).json()).emit(); Ev("inv").i("L", 5).raw("r", pm<double>(r2)).raw("m2", umx(m.T()).json()).emit(); } } }
	{ IVec v = vals<double>(g, 3); if(v[0] || v[1] || v[2]) { Vector<3> s; setv(s, v); s /= Q; Vector<> d = s; Vector<Resizable> z(s); Ev("vec").i("n", 3).v("x", uv(s)).emit(); double nn = norm(s); int k = g.range(0, 2); if(k == 0) normalize(s); else if(k == 1) { normalize(d); s = d; } else { normalize(z); s = z; } Ev("normalize").i("L", 5).raw("r", pt<double>(s)).raw("nn", num<double>(nn)).emit(); } }
	{ // a row or a column of a matrix, or a part of a vector, is normalized, and nothing else changes
		IVec v = vals<double>(g, 3); if(v[0] || v[1] || v[2]) {
			Vector<3> s; setv(s, v); s /= Q; Ev("vec").i("n", 3).v("x", uv(s)).emit(); double nn = norm(s); bool ok;
			if(g.coin()) { Matrix<3> m; guardm(m); int r = g.range(0, 2); bool col = g.coin(); if(col) { m.T()[r] = s; normalize(m.T()[r]); s = m.T()[r]; ok = guards_ok(m, 0, r, 3, 1); } else { m[r] = s; normalize(m[r]); s = m[r]; ok = guards_ok(m, r, 0, 1, 3); } }
			else { Vector<6> w; vguard<Vector<6>, double>(w); w.slice<2, 3>() = s; normalize(w.slice<2, 3>()); s = w.slice<2, 3>(); ok = vguards_ok<Vector<6>, double>(w, 2, 3); }
			Ev("normalize").i("L", 5).raw("r", pt<double>(s)).raw("nn", num<double>(nn)).emit(); Ev("guard").b("ok", ok).emit();
		} }
}
#elif PART == 10
namespace {
template<class V, class F> struct Named {
	Rng& g; F names; typedef typename std::decay<decltype(std::declval<V&>()[0])>::type P;
	static IVec els(const V& v) { IVec r; for(int i = 0; i < v.size(); i++) r.push_back(ex(v[i])); return r; }
	IVec byname(V& v) { IVec r; for(P* p : names(v)) r.push_back(ex(*p)); return r; }
	void tell(Ev& e, V& v) { e.v("names", byname(v)).v("els", els(v)).emit(); }
	template<int N> void go() {
		V v; IVec x = rvec(g, N, -9, 9);
		for(int i = 0; i < N; i++) if(g.coin()) v[i] = P(x[i]); else *names(v)[i] = P(x[i]);
		{ Ev e("nnew"); e.v("x", x).i("n", v.size()); tell(e, v); }
		for(int k = 0; k < 8; k++) { bool big = false; for(long q : els(v)) big = big || q > 5000 || q < -5000; if(big) break; switch(g.range(0, 8)) {
			case 0: { int i = g.range(0, N - 1), w = g.range(-9, 9); *names(v)[i] = P(w); Ev e("nset"); e.i("k", i + 1).i("v", w); tell(e, v); break; }
			case 1: { int i = g.range(0, N - 1), w = g.range(-9, 9); v[i] = P(w); Ev e("nset"); e.i("k", i + 1).i("v", w); tell(e, v); break; }
			case 2: { IVec y = rvec(g, N, -9, 9); Vector<N, P> w; setv(w, y); v = w; Ev e("nassign"); e.v("x", y); tell(e, v); break; }
			case 3: { IVec y = rvec(g, N, -9, 9); Vector<N, P> w; setv(w, y); if(g.coin()) v += w; else v = v + w; Ev e("nadd"); e.v("x", y); tell(e, v); break; }
			case 4: { IMat y = rmat(g, N, N, -2, 2); Matrix<N, N, P> w; setm(w, y); v = w * v; Ev e("nmul"); e.raw("m", y.json()); tell(e, v); break; }
			case 5: { int s = g.range(-2, 2); if(g.coin()) v *= P(s); else v = P(s) * v; Ev e("nscale"); e.i("k", s); tell(e, v); break; }
			case 6: { int s = g.range(0, N - 1), n = g.range(1, N - s); IVec y = rvec(g, n, -9, 9); Vector<Dynamic, P> w(n); setv(w, y); v.slice(s, n) = w; Ev e("nslice"); e.i("s", s).v("x", y); tell(e, v); break; }
			case 7: { IVec y = rvec(g, N, -9, 9); Vector<N, P> w; setv(w, y); V u = w; V t(u); v = t; Ev e("nassign"); e.v("x", y); tell(e, v); break; }
			default: { V c(v); IVec cp = byname(c); c[0] = P(99); *names(c)[N - 1] = P(98); Ev e("nlook"); e.v("copy", cp).i("sq", ex(v * v)); tell(e, v); break; }
		} }
		Ev("nend").emit();
	}
};
template<class P> void named(Rng& g) {
	{ typedef Pt3<P> V; auto f = [](V& v) { return std::vector<P*>{&v.x, &v.y, &v.z}; }; Named<V, decltype(f)>{g, f}.template go<3>(); }
	{ typedef One1<P> V; auto f = [](V& v) { return std::vector<P*>{&v.w}; }; Named<V, decltype(f)>{g, f}.template go<1>(); }
	{ typedef Six6<P> V; auto f = [](V& v) { return std::vector<P*>{&v.a, &v.b, &v.c, &v.d, &v.e, &v.f}; }; Named<V, decltype(f)>{g, f}.template go<6>(); }
}
}
void run10(Rng& g) { switch(g.range(0, 2)) { case 0: named<double>(g); break; case 1: named<float>(g); break; default: named<int>(g); } }
#elif PART == 11
int main(int c, char** v) {
	Args a(c, v); Rng g = a.rng();
	void (*p[])(Rng&) = {run1, run2, run3, run4, run5, run6, run7, run8, run9, run10};
	for(long n = 0; n < a.n; n++) p[(n + a.shard) % 10](g);
	return 0;
}
#endif
