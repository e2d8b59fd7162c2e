// Integer test matrices for the decompositions, and logging of computed numbers as limbs (spec/Limb.tla).
#pragma once
#include "operands.h"
#include <limits>

namespace H {
typedef long double LD;
template<class P> struct Prec;
template<> struct Prec<float> { static const char* n() { return "f"; } static const int limbs = 3, tinyexp = 0, maxcd = 40; };
template<> struct Prec<double> { static const char* n() { return "d"; } static const int limbs = 4, tinyexp = 40, maxcd = 300; };
template<> struct Prec<long double> { static const char* n() { return "l"; } static const int limbs = 6, tinyexp = 48, maxcd = 300; };

inline std::string limb(LD v, int n) {
	std::string s = "[";
	if(!(v == v) || fabsl(v) > 4e8L) { s += "1000000000"; for(int i = 1; i < n; i++) s += ",0"; return s + "]"; }
	for(int i = 0; i < n; i++) { long d = (long)roundl(v); s += (i ? "," : "") + std::to_string(d); v = (v - d) * 10000; }
	return s + "]";
}
template<class P> std::string lnum(const P& v) { return limb(v, Prec<P>::limbs); }
// results of P computations; f scales by an exact power of two
template<class P, class V> std::string lvec(const V& v, LD f = 1) { std::string s = "["; for(int i = 0; i < v.size(); i++) s += (i ? "," : "") + limb((LD)v[i] * f, Prec<P>::limbs); return s + "]"; }
template<class P, class M> std::string lmat(const M& m, LD f = 1) {
	std::string s = "{\"r\":" + std::to_string(m.num_rows()) + ",\"c\":" + std::to_string(m.num_cols()) + ",\"d\":[";
	for(int i = 0; i < m.num_rows(); i++) for(int j = 0; j < m.num_cols(); j++) s += (i + j ? "," : "") + limb((LD)m(i, j) * f, Prec<P>::limbs);
	return s + "]}";
}
template<class P, class V> std::string lcol(const V& v, LD f = 1) { return "{\"r\":" + std::to_string(v.size()) + ",\"c\":1,\"d\":" + lvec<P>(v, f) + "}"; }

inline IMat imul(const IMat& a, const IMat& b) { IMat r(a.r, b.c); for(int i = 0; i < a.r; i++) for(int j = 0; j < b.c; j++) for(int k = 0; k < a.c; k++) r.at(i, j) += a.at(i, k) * b.at(k, j); return r; }
inline IMat itr(const IMat& a) { IMat r(a.c, a.r); for(int i = 0; i < a.r; i++) for(int j = 0; j < a.c; j++) r.at(j, i) = a.at(i, j); return r; }
inline IMat colm(const IVec& v) { IMat r((int)v.size(), 1); r.d = v; return r; }
inline IMat iid(int n) { IMat r(n, n); for(int i = 0; i < n; i++) r.at(i, i) = 1; return r; }

// singular values of a small integer matrix (one-sided Jacobi, long double)
inline std::vector<LD> sigmas(const IMat& A) {
	IMat t = A.r >= A.c ? A : itr(A);
	int m = t.r, n = t.c; std::vector<LD> a(t.d.begin(), t.d.end());
	for(int sweep = 0; sweep < 60; sweep++) {
		LD off = 0;
		for(int p = 0; p < n; p++) for(int q = p + 1; q < n; q++) {
			LD al = 0, be = 0, ga = 0;
			for(int i = 0; i < m; i++) { al += a[i * n + p] * a[i * n + p]; be += a[i * n + q] * a[i * n + q]; ga += a[i * n + p] * a[i * n + q]; }
			off = std::max(off, fabsl(ga)); if(fabsl(ga) < 1e-25L) continue;
			LD ze = (be - al) / (2 * ga), tt = (ze >= 0 ? 1 : -1) / (fabsl(ze) + sqrtl(1 + ze * ze)), c = 1 / sqrtl(1 + tt * tt), s = c * tt;
			for(int i = 0; i < m; i++) { LD x = a[i * n + p], y = a[i * n + q]; a[i * n + p] = c * x - s * y; a[i * n + q] = s * x + c * y; }
		}
		if(off < 1e-25L) break;
	}
	std::vector<LD> r; for(int j = 0; j < n; j++) { LD x = 0; for(int i = 0; i < m; i++) x += a[i * n + j] * a[i * n + j]; r.push_back(sqrtl(x)); }
	std::sort(r.rbegin(), r.rend()); return r;
}
// pseudo condition number, rounded up; 0 if unusable (a singular value between zero and what can be told from zero)
inline int pcond(const IMat& a, int* rank = 0) {
	std::vector<LD> s = sigmas(a); if(rank) *rank = 0; if(s.empty() || s[0] == 0) return 1;
	LD least = s[0]; for(LD x : s) { if(x > 1e-9L) { least = x; if(rank) ++*rank; } }
	if(least < 0.1L) return 0;
	return (int)ceill(s[0] / least);
}
// tiny: element (0,0) is a negligible power of two instead of zero; gs: the whole system is times 2^gs; cs: column j is times
// 2^cs[j] as well (and row j too if sym)
struct Sys { IMat a; int cd = 0; bool tiny = false; int gs = 0; IVec cs; bool sym = false; int ex2(int i, int j) const { return gs + (cs.empty() ? 0 : cs[j] + (sym ? cs[i] : 0)); } int total() const { int t = gs * a.r; for(int c : cs) t += sym ? 2 * c : c; return t; } };

inline std::vector<int> rperm(Rng& g, int n) { std::vector<int> p(n); for(int i = 0; i < n; i++) p[i] = i; for(int i = n - 1; i > 0; i--) std::swap(p[i], p[g.range(0, i)]); return p; }
inline IMat permrows(const IMat& a, const std::vector<int>& p) { IMat r(a.r, a.c); for(int i = 0; i < a.r; i++) for(int j = 0; j < a.c; j++) r.at(i, j) = a.at(p[i], j); return r; }
static const int NFAM = 13;
inline IMat family(Rng& g, int fam, int n, int mx = 9) {
	IMat m(n, n);
	auto nz = [&](int k) { int v = g.range(1, k); return g.coin() ? v : -v; };
	switch(fam) {
		case 0: return rmat(g, n, n, -mx, mx);
		case 1: for(int i = 0; i < n; i++) m.at(i, i) = nz(mx); return permrows(m, rperm(g, n));
		case 2: for(int i = 0; i < n; i++) { m.at(i, i) = nz(3); for(int j = i + 1; j < n; j++) m.at(i, j) = g.range(-3, 3); } return permrows(m, rperm(g, n));
		case 3: for(int i = 0; i < n; i++) { m.at(i, n - 1 - i) = nz(3); for(int j = n - i; j < n; j++) m.at(i, j) = g.range(-3, 3); } return m;
		case 4: for(auto& x : m.d) x = g.coin() ? 1 : -1; return m;
		case 5: m = rmat(g, n, n, -mx, mx); for(int i = 0; i < n; i++) m.at(i, i) = 0; return m;
		case 6: m = rmat(g, n, n, -3, 3); { int i = g.range(0, n - 1); for(int j = 0; j < n; j++) m.at(i, j) *= 8; } return m;
		case 7: for(int i = 0; i < n; i++) { m.at(i, i) = nz(2); for(int j = 0; j < i; j++) m.at(i, j) = g.range(-3, 3); } return m;
		case 8: return iid(n);
		case 9: for(int i = 0; i < n; i++) m.at(i, i) = nz(mx); return m;
		case 10: for(int i = 0; i < n; i++) for(int j = i + 1; j < n; j++) m.at(i, j) = m.at(j, i) = g.range(-mx, mx); return m;
		case 11: m = rmat(g, n, n, 0, 1); return m;
		default: m = rmat(g, n, n, -1, 1); for(int i = 0; i < n; i++) m.at(i, i) += n * (g.coin() ? 1 : -1); return m;
	}
}
template<class P> Sys square(Rng& g, int n, int mx = 9) {
	for(;;) {
		Sys s; s.a = family(g, g.range(0, NFAM - 1), n, mx); int rank; s.cd = pcond(s.a, &rank);
		if(s.cd == 0 || s.cd > Prec<P>::maxcd || rank < n) continue;
		if(Prec<P>::tinyexp && n > 1 && s.a.at(0, 0) == 0) s.tiny = g.coin();
		return s;
	}
}
inline Sys singular(Rng& g, int n, int mx) {       // zero row or column, repeated rows, or a product of thin factors
	Sys s; s.a = rmat(g, n, n, -mx, mx); int i = g.range(0, n - 1), j = n > 1 ? (i + g.range(1, n - 1)) % n : i;
	switch(n == 1 ? g.range(0, 1) : g.range(0, 4)) {
		case 0: for(int k = 0; k < n; k++) s.a.at(i, k) = 0; break;
		case 1: for(int k = 0; k < n; k++) s.a.at(k, i) = 0; break;
		case 2: for(int k = 0; k < n; k++) s.a.at(i, k) = s.a.at(j, k); break;
		case 3: for(int k = 0; k < n; k++) s.a.at(k, i) = -s.a.at(k, j); break;
		default: s.a = imul(rmat(g, n, 1, -1, 1), rmat(g, 1, n, -mx, mx)); break;
	}
	return s;
}
template<class P> Sys posdef(Rng& g, int n) {
	for(;;) {
		Sys s; IMat m = rmat(g, n, n, -3, 3);
		switch(g.range(0, 4)) {
			case 0: s.a = imul(itr(m), m); for(int i = 0; i < n; i++) s.a.at(i, i) += 1; break;
			case 1: s.a = IMat(n, n); for(int i = 0; i < n; i++) { s.a.at(i, i) = 2 + g.range(0, 1); if(i) s.a.at(i, i - 1) = s.a.at(i - 1, i) = g.coin() ? 1 : -1; } break;
			case 2: s.a = IMat(n, n); for(int i = 0; i < n; i++) s.a.at(i, i) = g.range(1, 30); break;
			case 3: m = family(g, 2, n); s.a = imul(itr(m), m); break;
			default: s.a = imul(m, itr(m)); break;
		}
		int rank; s.cd = pcond(s.a, &rank); if(s.cd == 0 || s.cd > Prec<P>::maxcd || rank < n) continue;
		return s;
	}
}
// put the values of s into matrix m, exactly; and read them back: the integers if every element still has its value
template<class P> inline P s2(P x, int e) { return e ? P(std::ldexp(x, e)) : x; }
template<class M> void load(M& m, const Sys& s) { typedef typename std::decay<decltype(m(0, 0))>::type P; setm(m, s.a); if(s.tiny) m(0, 0) = std::ldexp(P(1), -Prec<P>::tinyexp);
	for(int i = 0; i < m.num_rows(); i++) for(int j = 0; j < m.num_cols(); j++) m(i, j) = s2<P>(m(i, j), s.ex2(i, j)); }
template<class M> IMat unload(const M& m, const Sys& s) {
	typedef typename std::decay<decltype(m(0, 0))>::type P; IMat r(m.num_rows(), m.num_cols()); for(int i = 0; i < r.r; i++) for(int j = 0; j < r.c; j++) r.at(i, j) = ex(s2<P>(m(i, j), -s.ex2(i, j)));
	if(s.tiny && r.r > 0 && r.c > 0 && s2<P>(m(0, 0), -s.ex2(0, 0)) == std::ldexp(P(1), -Prec<P>::tinyexp)) r.at(0, 0) = 0;
	return r;
}
// right-hand side for solution x, exactly: what the tiny element adds to the first row is in it (systems with a common scale only)
template<class P, class M> void loadrhs(M& m, const Sys& s, const IMat& x) { IMat b = imul(s.a, x); setm(m, b); if(s.tiny) for(int j = 0; j < b.c; j++) m(0, j) = P(b.at(0, j)) + P(x.at(0, j)) * std::ldexp(P(1), -Prec<P>::tinyexp); for(int i = 0; i < b.r; i++) for(int j = 0; j < b.c; j++) m(i, j) = s2<P>(m(i, j), s.gs); }
template<class P, class M> IMat unloadrhs(const M& m, const Sys& s, const IMat& x) { IMat b = imul(s.a, x), r(m.num_rows(), m.num_cols()); for(int i = 0; i < r.r; i++) for(int j = 0; j < r.c; j++) r.at(i, j) = ex(s2<P>(m(i, j), -s.gs)); if(s.tiny) for(int j = 0; j < b.c; j++) if(s2<P>(m(0, j), -s.gs) == P(b.at(0, j)) + P(x.at(0, j)) * std::ldexp(P(1), -Prec<P>::tinyexp)) r.at(0, j) = b.at(0, j); return r; }
template<class V> struct AsCol { V& v; int num_rows() const { return v.size(); } int num_cols() const { return 1; } decltype(auto) operator()(int i, int) const { return (v[i]); } };
template<class V> AsCol<V> ascol(V& v) { return AsCol<V>{v}; }

template<class P, class M> void logmat(const char* f, const char* how, const Sys& s, const M& m) {
	Ev e("mat"); e.str("f", f).str("how", how).str("p", Prec<P>::n()).i("cd", s.cd).b("tiny", s.tiny).raw("a", s.a.json()).raw("a2", unload(m, s).json()).emit(); }
// the result and the operands after a solve
template<class P, class RM, class BM> void logsolve(const char* f, const char* how, const Sys& s, const IMat& x, const RM& res, const BM& b) {
	Ev e("solve"); e.str("f", f).str("how", how).raw("b", imul(s.a, x).json()).raw("b2", unloadrhs<P>(b, s, x).json()).raw("x", x.json()).raw("res", lmat<P>(res)).emit(); }
inline IMat rect(Rng& g, int m, int n) {
	IMat a(m, n); auto nz = [&](int k) { int v = g.range(1, k); return g.coin() ? v : -v; }; int mn = std::min(m, n);
	switch(g.range(0, 11)) {
		case 0: case 1: return rmat(g, m, n, -3, 3);
		case 2: return imul(rmat(g, m, 1, -2, 2), rmat(g, 1, n, -2, 2));
		case 3: { int k = g.range(1, mn); return imul(rmat(g, m, k, -1, 1), rmat(g, k, n, -1, 1)); }
		case 4: if(g.one_in(3)) return a;
		case 5: { std::vector<int> p = rperm(g, m), q = rperm(g, n); int k = g.range(1, mn); for(int i = 0; i < k; i++) a.at(p[i], q[i]) = nz(9); return a; }
		case 6: for(auto& x : a.d) x = g.coin() ? 1 : -1; return a;
		case 7: { a = rmat(g, m, n, -3, 3); if(g.coin()) { int i = g.range(0, m - 1); for(int j = 0; j < n; j++) a.at(i, j) = 0; } else { int j = g.range(0, n - 1); for(int i = 0; i < m; i++) a.at(i, j) = 0; } return a; }
		case 8: { a = rmat(g, m, n, -3, 3); if(n > 1) for(int i = 0; i < m; i++) a.at(i, n - 1) = a.at(i, 0); return a; }
		case 9: { int s = nz(3); std::vector<int> p = rperm(g, std::max(m, n)); for(int i = 0; i < mn; i++) a.at(m <= n ? i : p[i], m <= n ? p[i] : i) = g.coin() ? s : -s; return a; }
		case 10: for(int i = 0; i < mn; i++) { a.at(i, i) = g.one_in(4) ? 0 : nz(3); if(i + 1 < n) a.at(i, i + 1) = g.range(-2, 2); } return a;
		default: return rmat(g, m, n, 0, 1);
	}
}
template<class P> Sys rsys(Rng& g, int m, int n) { for(;;) { Sys s; s.a = rect(g, m, n); s.cd = pcond(s.a); if(s.cd && s.cd <= Prec<P>::maxcd) return s; } }
inline bool monomial(const IMat& a) { for(int i = 0; i < a.r; i++) { int k = 0; for(int j = 0; j < a.c; j++) k += a.at(i, j) != 0; if(k > 1) return false; } for(int j = 0; j < a.c; j++) { int k = 0; for(int i = 0; i < a.r; i++) k += a.at(i, j) != 0; if(k > 1) return false; } return true; }
// the scale factor: decompositions of an exact multiple
template<class P> P scale(Rng& g) { int k = Prec<P>::limbs == 3 ? 15 : 100; switch(g.range(0, 3)) { case 0: return std::ldexp(P(1), k); case 1: return std::ldexp(P(1), -k); default: return 1; } }
template<class M, class P> void fill(M& m, const IMat& a, P f) { for(int i = 0; i < a.r; i++) for(int j = 0; j < a.c; j++) m(i, j) = P(a.at(i, j)) * f; }
template<class M, class P> IMat back(const M& m, P f) { IMat r(m.num_rows(), m.num_cols()); for(int i = 0; i < r.r; i++) for(int j = 0; j < r.c; j++) r.at(i, j) = ex(m(i, j) / f); return r; }
template<class P, class M> void given(const char* f, const char* how, const Sys& s, const M& m, P sc) { Ev e("mat"); e.str("f", f).str("how", how).str("p", Prec<P>::n()).i("cd", s.cd).raw("a", s.a.json()).raw("a2", back(m, sc).json()).emit(); }
}
