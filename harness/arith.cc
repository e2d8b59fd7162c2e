// C06: arithmetic of every operand kind, and a register machine with aliased destinations.
// PART selects a translation unit so that the parts build in parallel.
#include "operands.h"
using namespace H;
using namespace TooN;

// Operand shapes (static ones must be known at compile time)
enum { R1 = 2, K1 = 3, C1 = 4 };
typedef std::decay<double>::type D;

static IMat rm(Rng& g, int r, int c) { return rmat(g, r, c, -9, 9); }
static IVec rv(Rng& g, int n) { return rvec(g, n, -9, 9); }

#define EV(op) Ev e(op); e.i("ka", ka).i("kb", kb)
static void fin2(Ev& e, const IMat& a, const IMat& b, bool g) { e.raw("a2", a.json()).raw("b2", b.json()).b("g", g).emit(); }

template<int KA, int KB> void mm_pair(Rng& g) {
	int ka = KA, kb = KB;
	IMat A = rm(g, R1, K1), B = rm(g, K1, C1), A2, B2, res, res2; bool gb = true;
	bool ga = MK<R1, K1, D, KA>::go(A, [&](auto& a) { gb = MK<K1, C1, D, KB>::go(B, [&](auto& b) {
		auto r = a * b; res = getm(r); Matrix<Dynamic, Dynamic, double, ColMajor> r2(a * b); res2 = getm(r2); A2 = getm(a); B2 = getm(b); }); });
	{ EV("mm"); e.raw("a", A.json()).raw("b", B.json()).raw("res", res.json()).raw("res2", res2.json()); fin2(e, A2, B2, ga && gb); }
}
template<int KA, int KB> void ma_pair(Rng& g) {
	int ka = KA, kb = KB;
	IMat A = rm(g, 3, 2), B = rm(g, 3, 2), A2, B2, res, res2; bool gb = true; bool eq = false, ne = false, eq2 = false, ne2 = false;
	if(g.one_in(3)) B = A; else if(g.one_in(2)) { B = A; B.d[g.range(0, 5)] += g.coin() ? 1 : -1; }
	bool ga = MK<3, 2, D, KA>::go(A, [&](auto& a) { gb = MK<3, 2, D, KB>::go(B, [&](auto& b) {
		auto r = a + b; res = getm(r); auto s = a - b; res2 = getm(s); eq = a == b; ne = a != b; eq2 = b == a; ne2 = b != a; A2 = getm(a); B2 = getm(b); }); });
	{ EV("addsub"); e.raw("a", A.json()).raw("b", B.json()).raw("res", res.json()).raw("res2", res2.json()).b("eq", eq).b("ne", ne).b("eq2", eq2).b("ne2", ne2); fin2(e, A2, B2, ga && gb); }
	for(int w = 0; w < 3; w++) {
		IMat A0 = rm(g, 3, 2), B0 = rm(g, 3, 2);
		ga = MK<3, 2, D, KA>::go(A0, [&](auto& a) { gb = MK<3, 2, D, KB>::go(B0, [&](auto& b) {
			if(w == 0) a += b; else if(w == 1) a -= b; else a = b; A2 = getm(a); B2 = getm(b); }); });
		EV(w == 0 ? "madd" : w == 1 ? "msub" : "massign"); e.raw("a", A0.json()).raw("b", B0.json()); fin2(e, A2, B2, ga && gb);
	}
	// product assigned into every destination kind; diagonal products
	{ IMat A0 = rm(g, 3, 2), L = rm(g, 3, 3), B0 = rm(g, 3, 2);
		ga = MK<3, 2, D, KA>::go(A0, [&](auto& a) { gb = MK<3, 2, D, KB>::go(B0, [&](auto& b) { Matrix<3> l; setm(l, L); a = l * b; A2 = getm(a); B2 = getm(b); }); });
		EV("masgmul"); e.raw("l", L.json()).raw("b", B0.json()); fin2(e, A2, B2, ga && gb); }
}
template<int KA, int KB> void mv_pair(Rng& g) {
	int ka = KA, kb = KB;
	{ IMat A = rm(g, 3, 4), A2; IVec V = rv(g, 4), V2, res, W = rv(g, 3); IMat dm; bool gb = true;
	  bool ga = MK<3, 4, D, KA>::go(A, [&](auto& a) { gb = VK<4, D, KB>::go(V, [&](auto& v) { auto r = a * v; res = getv(r); auto d = diagmult(a, v); dm = getm(d); A2 = getm(a); V2 = getv(v); }); });
	  EV("mv"); e.raw("a", A.json()).v("v", V).v("res", res).raw("dm", dm.json()).raw("a2", A2.json()).v("v2", V2).b("g", ga && gb).emit(); }
	{ IMat A = rm(g, 4, 3), A2; IVec V = rv(g, 4), V2, res; IMat dm; bool gb = true;
	  bool ga = MK<4, 3, D, KA>::go(A, [&](auto& a) { gb = VK<4, D, KB>::go(V, [&](auto& v) { auto r = v * a; res = getv(r); auto d = diagmult(v, a); dm = getm(d); A2 = getm(a); V2 = getv(v); }); });
	  EV("vm"); e.raw("a", A.json()).v("v", V).v("res", res).raw("dm", dm.json()).raw("a2", A2.json()).v("v2", V2).b("g", ga && gb).emit(); }
	{ // result of a product placed into a vector operand: v = A * w, and v += A * w
	  IMat A = rm(g, 4, 4), A2; IVec V = rv(g, 4), V2, V3; bool gb = true;
	  bool ga = MK<4, 4, D, KA>::go(A, [&](auto& a) { gb = VK<4, D, KB>::go(V, [&](auto& v) { v = a * v; V2 = getv(v); v = v * a; V3 = getv(v); A2 = getm(a); }); });
	  EV("valias"); e.raw("a", A.json()).v("v", V).v("v2", V2).v("v3", V3).raw("a2", A2.json()).b("g", ga && gb).emit(); }
}
template<int KA, int KB> void vv_pair(Rng& g) {
	int ka = KA, kb = KB; bool gb = true;
	{ IVec A = rv(g, 3), B = rv(g, 3), A2, B2, sum, dif, dg; long dot = 0; bool eq = 0, ne = 0; IMat outer; IVec cr; bool hascr = false;
	  if(g.one_in(4)) B = A; else if(g.one_in(2)) { B = A; B[g.range(0, 2)] += g.coin() ? 1 : -1; }
	  bool ga = VK<3, D, KA>::go(A, [&](auto& a) { gb = VK<3, D, KB>::go(B, [&](auto& b) {
		auto s = a + b; sum = getv(s); auto d = a - b; dif = getv(d); dot = ex(a * b); auto m = diagmult(a, b); dg = getv(m); eq = a == b; ne = a != b;
		auto o = a.as_col() * b.as_row(); outer = getm(o); A2 = getv(a); B2 = getv(b); }); });
	  EV("vv"); e.v("a", A).v("b", B).v("sum", sum).v("dif", dif).i("dot", dot).v("dg", dg).b("eq", eq).b("ne", ne).raw("outer", outer.json()).v("a2", A2).v("b2", B2).b("g", ga && gb).emit(); }
	for(int w = 0; w < 3; w++) {
	  IVec A = rv(g, 5), B = rv(g, 5), A2, B2;
	  bool ga = VK<5, D, KA>::go(A, [&](auto& a) { gb = VK<5, D, KB>::go(B, [&](auto& b) { if(w == 0) a += b; else if(w == 1) a -= b; else a = b; A2 = getv(a); B2 = getv(b); }); });
	  EV(w == 0 ? "vadd" : w == 1 ? "vsub" : "vassign"); e.v("a", A).v("b", B).v("a2", A2).v("b2", B2).b("g", ga && gb).emit(); }
}
// kinds of statically sized 3-vectors for ^
template<int KA, int KB> void cross_pair(Rng& g) {
	int ka = KA, kb = KB; bool gb = true; IVec A = rv(g, 3), B = rv(g, 3), A2, B2, cr, al;
	bool ga = VK<3, D, KA>::go(A, [&](auto& a) { gb = VK<3, D, KB>::go(B, [&](auto& b) { auto c = a ^ b; cr = getv(c); A2 = getv(a); B2 = getv(b); a = a ^ b; al = getv(a); }); });
	EV("cross"); e.v("a", A).v("b", B).v("res", cr).v("res2", al).v("a2", A2).v("b2", B2).b("g", ga && gb).emit();
}
template<int KA> void m_one(Rng& g) {
	int ka = KA, kb = -1;
	{ IMat A = rm(g, 2, 3), A2, x1, x2, x3, x4, x5, x6, tr; int s = g.range(-7, 7); int q = g.pick(std::vector<int>{1, -1, 2, 4, 3, 49, -98, 103, -107, 196, 7, 11}); IMat Q = A; for(auto& t : Q.d) t *= q;
	  bool ga = MK<2, 3, D, KA>::go(A, [&](auto& a) { auto p1 = a * s; x1 = getm(p1); auto p2 = s * a; x2 = getm(p2); auto p3 = -a; x3 = getm(p3); auto p6 = a * (double)s; x6 = getm(p6); auto p7 = (float)s * a; tr = getm(a.T()); x5 = getm(p7); A2 = getm(a); });
	  EV("mscal"); e.raw("a", A.json()).i("s", s).raw("x1", x1.json()).raw("x2", x2.json()).raw("x3", x3.json()).raw("x5", x5.json()).raw("x6", x6.json()).raw("tr", tr.json()).raw("a2", A2.json()).b("g", ga).emit();
	  IMat y1, y2, y3, Q2; bool gb = MK<2, 3, D, KA>::go(Q, [&](auto& a) { auto p1 = a / q; y1 = getm(p1); Q2 = getm(a); a /= q; y2 = getm(a); a *= s; y3 = getm(a); });
	  Ev f("mdiv"); f.i("ka", ka).raw("a", Q.json()).i("q", q).i("s", s).raw("y1", y1.json()).raw("y2", y2.json()).raw("y3", y3.json()).raw("a2", Q2.json()).b("g", gb).emit(); }
	{ // aliases: m = m*m, m = m*m.T(), m += m, m -= m, m = m + m, m *= element of m
	  for(int w = 0; w < 9; w++) { IMat A = rm(g, 3, 3), A2; 
		bool ga = MK<3, 3, D, KA>::go(A, [&](auto& a) { switch(w) { case 0: a = a * a; break; case 1: a = a * a.T(); break; case 2: a = a.T() * a; break; case 3: a += a; break; case 4: a -= a; break; case 5: a = a + a; break; case 6: a += a * a; break; case 7: a = -a; break; case 8: a = a; break; } A2 = getm(a); });
		Ev e("malias"); e.i("ka", ka).i("w", w).raw("a", A.json()).raw("a2", A2.json()).b("g", ga).emit(); } }
}
template<int KA> void v_one(Rng& g) {
	int ka = KA;
	{ IVec A = rv(g, 4), A2, x1, x2, x3, x5, x6; int s = g.range(-7, 7); int q = g.pick(std::vector<int>{1, -1, 2, 4, 3, 49, -98, 103, -107, 196, 7, 11}); IVec Q = A; for(auto& t : Q) t *= q;
	  bool ga = VK<4, D, KA>::go(A, [&](auto& a) { auto p1 = a * s; x1 = getv(p1); auto p2 = s * a; x2 = getv(p2); auto p3 = -a; x3 = getv(p3); auto p6 = a * (double)s; x6 = getv(p6); auto p7 = (float)s * a; x5 = getv(p7); A2 = getv(a); });
	  Ev e("vscal"); e.i("ka", ka).v("a", A).i("s", s).v("x1", x1).v("x2", x2).v("x3", x3).v("x5", x5).v("x6", x6).v("a2", A2).b("g", ga).emit();
	  IVec y1, y2, y3, Q2; bool gb = VK<4, D, KA>::go(Q, [&](auto& a) { auto p1 = a / q; y1 = getv(p1); Q2 = getv(a); a /= q; y2 = getv(a); a *= s; y3 = getv(a); });
	  Ev f("vdiv"); f.i("ka", ka).v("a", Q).i("q", q).i("s", s).v("y1", y1).v("y2", y2).v("y3", y3).v("a2", Q2).b("g", gb).emit(); }
	for(int w = 0; w < 6; w++) { IVec A = rv(g, 3), A2;
	  bool ga = VK<3, D, KA>::go(A, [&](auto& a) { switch(w) { case 0: a += a; break; case 1: a -= a; break; case 2: a = a + a; break; case 3: a = -a; break; case 4: a = a; break; case 5: a = diagmult(a, a); break; } A2 = getv(a); });
	  Ev e("vself"); e.i("ka", ka).i("w", w).v("a", A).v("a2", A2).b("g", ga).emit(); }
}
template<template<int, int> class F, int A, int B> struct ForB { static void go(Rng& g) { ForB<F, A, B - 1>::go(g); F<A, B>::go(g); } };
template<template<int, int> class F, int A> struct ForB<F, A, -1> { static void go(Rng&) {} };
template<template<int, int> class F, int A, int LO, int NB> struct ForA { static void go(Rng& g) { ForA<F, A - 1, LO, NB>::go(g); ForB<F, A, NB>::go(g); } };
template<template<int, int> class F, int LO, int NB> struct ForA<F, LO, LO, NB> { static void go(Rng& g) { ForB<F, LO, NB>::go(g); } };
template<int A, int B> struct FMM { static void go(Rng& g) { mm_pair<A, B>(g); } };
template<int A, int B> struct FMA { static void go(Rng& g) { ma_pair<A, B>(g); } };
template<int A, int B> struct FMV { static void go(Rng& g) { mv_pair<A, B>(g); } };
template<int A, int B> struct FVV { static void go(Rng& g) { vv_pair<A, B>(g); } };

#define PARTFN(N) void part##N(Rng& g)
#if PART == 1
PARTFN(1) { ForA<FMM, 3, 0, 11>::go(g); }
#elif PART == 2
PARTFN(2) { ForA<FMM, 7, 4, 11>::go(g); }
#elif PART == 3
PARTFN(3) { ForA<FMM, 11, 8, 11>::go(g); }
#elif PART == 4
PARTFN(4) { ForA<FMA, 3, 0, 11>::go(g); }
#elif PART == 5
PARTFN(5) { ForA<FMA, 7, 4, 11>::go(g); }
#elif PART == 6
PARTFN(6) { ForA<FMA, 11, 8, 11>::go(g); }
#elif PART == 7
PARTFN(7) { ForA<FMV, 5, 0, 7>::go(g); }
#elif PART == 8
PARTFN(8) { ForA<FMV, 11, 6, 7>::go(g); }
#elif PART == 9
PARTFN(9) { ForA<FVV, 7, 0, 7>::go(g); }
#endif
#if PART == 10
void part1(Rng&); void part2(Rng&); void part3(Rng&); void part4(Rng&); void part5(Rng&); void part6(Rng&); void part7(Rng&); void part8(Rng&); void part9(Rng&);
template<int KA> struct One { static void go(Rng& g) { One<KA - 1>::go(g); m_one<KA>(g); } };
template<> struct One<-1> { static void go(Rng&) {} };
template<int KA> struct OneV { static void go(Rng& g) { OneV<KA - 1>::go(g); v_one<KA>(g); } };
template<> struct OneV<-1> { static void go(Rng&) {} };
static void crosses(Rng& g) { cross_pair<0,0>(g); cross_pair<0,3>(g); cross_pair<3,0>(g); cross_pair<0,6>(g); cross_pair<6,0>(g); cross_pair<7,0>(g); cross_pair<0,7>(g); cross_pair<3,6>(g); cross_pair<6,7>(g); }

// Run-time sizes from 0 up, every dynamic kind
static void dynamics(Rng& g) {
	int ka = dmk[g.range(0, 3)], kb = dmk[g.range(0, 3)], kv = dvk[g.range(0, 3)], kw = dvk[g.range(0, 3)];
	int r = g.range(0, 5), k = g.range(0, 5), c = g.range(0, 5); bool gb = true;
	{ IMat A = rm(g, r, k), B = rm(g, k, c), A2, B2, res, res2;
	  bool ga = with_dmat(ka, A, [&](auto& a) { gb = with_dmat(kb, B, [&](auto& b) { auto p = a * b; res = getm(p); Matrix<Dynamic, Dynamic, double, ColMajor> q(a * b); res2 = getm(q); A2 = getm(a); B2 = getm(b); }); });
	  EV("mm"); e.raw("a", A.json()).raw("b", B.json()).raw("res", res.json()).raw("res2", res2.json()); fin2(e, A2, B2, ga && gb); }
	{ IMat A = rm(g, r, c), B = rm(g, r, c), A2, B2, res, res2; bool eq = false, ne = false, eq2 = false, ne2 = false;
	  if(g.one_in(3)) B = A; else if(g.one_in(2) && r * c) { B = A; B.d[g.range(0, r * c - 1)] += 1; }
	  bool ga = with_dmat(ka, A, [&](auto& a) { gb = with_dmat(kb, B, [&](auto& b) { auto p = a + b; res = getm(p); auto s = a - b; res2 = getm(s); eq = a == b; ne = a != b; eq2 = b == a; ne2 = b != a; A2 = getm(a); B2 = getm(b); }); });
	  EV("addsub"); e.raw("a", A.json()).raw("b", B.json()).raw("res", res.json()).raw("res2", res2.json()).b("eq", eq).b("ne", ne).b("eq2", eq2).b("ne2", ne2); fin2(e, A2, B2, ga && gb); }
	for(int w = 0; w < 3; w++) { IMat A0 = rm(g, r, c), B0 = rm(g, r, c), A2, B2;
	  bool ga = with_dmat(ka, A0, [&](auto& a) { gb = with_dmat(kb, B0, [&](auto& b) { if(w == 0) a += b; else if(w == 1) a -= b; else a = b; A2 = getm(a); B2 = getm(b); }); });
	  EV(w == 0 ? "madd" : w == 1 ? "msub" : "massign"); e.raw("a", A0.json()).raw("b", B0.json()); fin2(e, A2, B2, ga && gb); }
	{ IMat A = rm(g, r, c), A2; IVec V = rv(g, c), V2, res; IMat dm;
	  bool ga = with_dmat(ka, A, [&](auto& a) { gb = with_dvec(kv, V, [&](auto& v) { auto x = a * v; res = getv(x); auto d = diagmult(a, v); dm = getm(d); A2 = getm(a); V2 = getv(v); }); });
	  int kb = kv; EV("mv"); e.raw("a", A.json()).v("v", V).v("res", res).raw("dm", dm.json()).raw("a2", A2.json()).v("v2", V2).b("g", ga && gb).emit(); }
	{ IMat A = rm(g, r, c), A2; IVec V = rv(g, r), V2, res; IMat dm;
	  bool ga = with_dmat(ka, A, [&](auto& a) { gb = with_dvec(kv, V, [&](auto& v) { auto x = v * a; res = getv(x); auto d = diagmult(v, a); dm = getm(d); A2 = getm(a); V2 = getv(v); }); });
	  int kb = kv; EV("vm"); e.raw("a", A.json()).v("v", V).v("res", res).raw("dm", dm.json()).raw("a2", A2.json()).v("v2", V2).b("g", ga && gb).emit(); }
	{ IVec A = rv(g, r), B = rv(g, r), A2, B2, sum, dif, dg; long dot = 0; bool eq = 0, ne = 0; IMat outer; int ka = kv, kb = kw;
	  if(g.one_in(3)) B = A; else if(g.one_in(2) && r) { B = A; B[g.range(0, r - 1)] += 1; }
	  bool ga = with_dvec(ka, A, [&](auto& a) { gb = with_dvec(kb, B, [&](auto& b) { auto s = a + b; sum = getv(s); auto d = a - b; dif = getv(d); dot = ex(a * b); auto m = diagmult(a, b); dg = getv(m); eq = a == b; ne = a != b;
		auto o = a.as_col() * b.as_row(); outer = getm(o); A2 = getv(a); B2 = getv(b); }); });
	  EV("vv"); e.v("a", A).v("b", B).v("sum", sum).v("dif", dif).i("dot", dot).v("dg", dg).b("eq", eq).b("ne", ne).raw("outer", outer.json()).v("a2", A2).v("b2", B2).b("g", ga && gb).emit(); }
	for(int w = 0; w < 3; w++) { IVec A = rv(g, c), B = rv(g, c), A2, B2; int ka = kv, kb = kw;
	  bool ga = with_dvec(ka, A, [&](auto& a) { gb = with_dvec(kb, B, [&](auto& b) { if(w == 0) a += b; else if(w == 1) a -= b; else a = b; A2 = getv(a); B2 = getv(b); }); });
	  EV(w == 0 ? "vadd" : w == 1 ? "vsub" : "vassign"); e.v("a", A).v("b", B).v("a2", A2).v("b2", B2).b("g", ga && gb).emit(); }
}

// ---- register machine -------------------------------------------------------------------------
template<class A0, class A1, class A2, class A3, class B0, class B1, class B2, class B3> struct Regs {
	A0& m0; A1& m1; A2& m2; A3& m3; B0& v0; B1& v1; B2& v2; B3& v3;
	template<class F> void M(int i, F f) { switch(i) { case 0: f(m0); break; case 1: f(m1); break; case 2: f(m2); break; default: f(m3); } }
	template<class F> void V(int i, F f) { switch(i) { case 0: f(v0); break; case 1: f(v1); break; case 2: f(v2); break; default: f(v3); } }
	void log(Ev& e) {
		e.raw("m", "[" + getm(m0).json() + "," + getm(m1).json() + "," + getm(m2).json() + "," + getm(m3).json() + "]");
		e.raw("v", "[" + jv(getv(v0)) + "," + jv(getv(v1)) + "," + jv(getv(v2)) + "," + jv(getv(v3)) + "]");
		e.emit();
	}
	long big() { long x = 0; for(int i = 0; i < 4; i++) { M(i, [&](auto& m) { for(long y : getm(m).d) x = std::max(x, labs(y)); }); V(i, [&](auto& v) { for(long y : getv(v)) x = std::max(x, labs(y)); }); } return x; }
	void reset(Rng& g) { for(int i = 0; i < 4; i++) { M(i, [&](auto& m) { setm(m, rmat(g, 3, 3, -4, 4)); }); V(i, [&](auto& v) { setv(v, rvec(g, 3, -4, 4)); }); } Ev e("reset"); log(e); }
	void load(const std::vector<long>& x) { size_t k = 0; for(int i = 0; i < 4; i++) M(i, [&](auto& m) { IMat t(3, 3); for(auto& y : t.d) y = x[k++]; setm(m, t); }); for(int i = 0; i < 4; i++) V(i, [&](auto& v) { IVec t(3); for(auto& y : t) y = x[k++]; setv(v, t); }); Ev e("reset"); log(e); }
	static const std::vector<std::string>& ops() { static std::vector<std::string> o = {"mul", "add", "sub", "addeq", "subeq", "asg", "neg", "scale", "divexact", "addmul", "subT", "mulT", "diagl", "diagr", "addid", "subones", "outer", "setrow", "setcol",
		"mv", "vm", "vadd", "vsub", "vaddeq", "vsubeq", "vasg", "vneg", "vscale", "vdiag", "cross", "vrow", "vcol", "mvaddeq", "vaddones"}; return o; }
	void step(const std::string& f, int d, int a, int b, int s) {
		bool mop = false;
		if(f == "mul") M(d, [&](auto& D) { M(a, [&](auto& A) { M(b, [&](auto& B) { D = A * B; }); }); });
		else if(f == "add") M(d, [&](auto& D) { M(a, [&](auto& A) { M(b, [&](auto& B) { D = A + B; }); }); });
		else if(f == "sub") M(d, [&](auto& D) { M(a, [&](auto& A) { M(b, [&](auto& B) { D = A - B; }); }); });
		else if(f == "addeq") M(d, [&](auto& D) { M(a, [&](auto& A) { D += A; }); });
		else if(f == "subeq") M(d, [&](auto& D) { M(a, [&](auto& A) { D -= A; }); });
		else if(f == "asg") M(d, [&](auto& D) { M(a, [&](auto& A) { D = A; }); });
		else if(f == "neg") M(d, [&](auto& D) { M(a, [&](auto& A) { D = -A; }); });
		else if(f == "scale") M(d, [&](auto& D) { D *= s; });
		else if(f == "divexact") M(d, [&](auto& D) { D *= s; D = D / s; D *= 2; D /= 2; });
		else if(f == "addmul") M(d, [&](auto& D) { M(a, [&](auto& A) { M(b, [&](auto& B) { D += A * B; }); }); });
		else if(f == "subT") M(d, [&](auto& D) { M(a, [&](auto& A) { M(b, [&](auto& B) { D = A - B.T() * 1; }); }); });
		else if(f == "mulT") M(d, [&](auto& D) { M(a, [&](auto& A) { M(b, [&](auto& B) { D = A.T() * B; }); }); });
		else if(f == "diagl") M(d, [&](auto& D) { V(a, [&](auto& A) { M(b, [&](auto& B) { D = diagmult(A, B); }); }); });
		else if(f == "diagr") M(d, [&](auto& D) { M(a, [&](auto& A) { V(b, [&](auto& B) { D = diagmult(A, B); }); }); });
		else if(f == "addid") M(d, [&](auto& D) { M(a, [&](auto& A) { D = A + s * Identity; }); });
		else if(f == "subones") M(d, [&](auto& D) { M(a, [&](auto& A) { D = A - s * Ones; }); });
		else if(f == "outer") M(d, [&](auto& D) { V(a, [&](auto& A) { V(b, [&](auto& B) { D = A.as_col() * B.as_row(); }); }); });
		else if(f == "setrow") M(d, [&](auto& D) { V(a, [&](auto& A) { D[s] = A; }); });
		else if(f == "setcol") M(d, [&](auto& D) { V(a, [&](auto& A) { D.T()[s] = A; }); });
		else if(f == "mv") V(d, [&](auto& D) { M(a, [&](auto& A) { V(b, [&](auto& B) { D = A * B; }); }); });
		else if(f == "vm") V(d, [&](auto& D) { V(a, [&](auto& A) { M(b, [&](auto& B) { D = A * B; }); }); });
		else if(f == "vadd") V(d, [&](auto& D) { V(a, [&](auto& A) { V(b, [&](auto& B) { D = A + B; }); }); });
		else if(f == "vsub") V(d, [&](auto& D) { V(a, [&](auto& A) { V(b, [&](auto& B) { D = A - B; }); }); });
		else if(f == "vaddeq") V(d, [&](auto& D) { V(a, [&](auto& A) { D += A; }); });
		else if(f == "vsubeq") V(d, [&](auto& D) { V(a, [&](auto& A) { D -= A; }); });
		else if(f == "vasg") V(d, [&](auto& D) { V(a, [&](auto& A) { D = A; }); });
		else if(f == "vneg") V(d, [&](auto& D) { V(a, [&](auto& A) { D = -A; }); });
		else if(f == "vscale") V(d, [&](auto& D) { D *= s; });
		else if(f == "vdiag") V(d, [&](auto& D) { V(a, [&](auto& A) { V(b, [&](auto& B) { D = diagmult(A, B); }); }); });
		else if(f == "cross") V(d, [&](auto& D) { V(a, [&](auto& A) { V(b, [&](auto& B) { D = A.template slice<0, 3>() ^ B.template slice<0, 3>(); }); }); });
		else if(f == "vrow") V(d, [&](auto& D) { M(a, [&](auto& A) { D = A[s]; }); });
		else if(f == "vcol") V(d, [&](auto& D) { M(a, [&](auto& A) { D = A.T()[s]; }); });
		else if(f == "mvaddeq") V(d, [&](auto& D) { M(a, [&](auto& A) { V(b, [&](auto& B) { D += A * B; }); }); });
		else if(f == "vaddones") V(d, [&](auto& D) { V(a, [&](auto& A) { D = A + Ones * s; }); });
		else abort();
		(void)mop;
		Ev e("r"); e.str("f", f).i("d", d).i("a", a).i("b", b).i("s", s); log(e);
	}
	void random(Rng& g, int n) {
		reset(g);
		for(int i = 0; i < n; i++) {
			if(big() > 5000) reset(g);
			const std::string& f = g.pick(ops());
			int s = f == "setrow" || f == "setcol" || f == "vrow" || f == "vcol" ? g.range(0, 2) : f == "divexact" ? (g.coin() ? 2 : -3) : g.range(-3, 3);
			step(f, g.range(0, 3), g.range(0, 3), g.range(0, 3), s);
		}
	}
};
template<class A0, class A1, class A2, class A3, class B0, class B1, class B2, class B3> Regs<A0, A1, A2, A3, B0, B1, B2, B3> mkregs(A0& a, A1& b, A2& c, A3& d, B0& e, B1& f, B2& g, B3& h) { return {a, b, c, d, e, f, g, h}; }
template<class F> void regset(int which, F f) {
	if(which == 0) {
		Matrix<3> m0; Matrix<3, 3, double, ColMajor> m1; Matrix<> m2(3, 3); Matrix<5, 6> b3; guardm(b3); auto m3 = b3.T().slice<2, 1, 3, 3>();
		Vector<3> v0; Vector<> v1(3); Vector<Resizable> v2(3); Matrix<3, 4> bv; guardm(bv); auto v3 = bv.T()[1];
		auto r = mkregs(m0, m1, m2, m3, v0, v1, v2, v3); f(r);
		Ev e("guards"); e.b("g", guards_ok(b3, 1, 2, 3, 3) && guards_ok(bv, 0, 1, 3, 1)).emit();
	} else {
		double buf[9]; Matrix<3, 3, double, Reference::RowMajor> m0(buf); Matrix<Dynamic, 3> m1(3, 3); Matrix<Dynamic, Dynamic, double, ColMajor> b2(5, 4); guardm(b2); auto m2 = b2.slice(1, 1, 3, 3); Matrix<3, Dynamic, double, ColMajor> m3(3, 3);
		Vector<7> b0; vguard<decltype(b0), double>(b0); auto v0 = b0.slice<2, 3>(); Vector<> b1(6); vguard<decltype(b1), double>(b1); auto v1 = b1.slice(3, 3); double vb[3]; Vector<3, double, Reference> v2(vb); Matrix<4, 3, double, ColMajor> bb; guardm(bb); auto v3 = bb[2];
		auto r = mkregs(m0, m1, m2, m3, v0, v1, v2, v3); f(r);
		Ev e("guards"); e.b("g", guards_ok(b2, 1, 1, 3, 3) && vguards_ok<decltype(b0), double>(b0, 2, 3) && vguards_ok<decltype(b1), double>(b1, 3, 3) && guards_ok(bb, 2, 0, 1, 3)).emit();
	}
}
int main(int argc, char** argv) {
	Args A(argc, argv); Rng g = A.rng();
	if(A.mode == "script") {
		auto S = read_script(A.script);
		for(size_t k = 0; k < S.size(); k++) if((int)(k % A.shards) == A.shard) regset(k / A.shards % 2, [&](auto& r) {
			for(auto& t : S[k]) if(t[0] == "load") { std::vector<long> x; for(size_t i = 1; i < t.size(); i++) x.push_back(atol(t[i].c_str())); r.load(x); } else r.step(t[0], atoi(t[1].c_str()), atoi(t[2].c_str()), atoi(t[3].c_str()), atoi(t[4].c_str())); });
		return 0;
	}
	for(long it = 0; it < A.n; it++) {
		part1(g); part2(g); part3(g); part4(g); part5(g); part6(g); part7(g); part8(g); part9(g);
		One<11>::go(g); OneV<7>::go(g); crosses(g);
		for(int i = 0; i < 60; i++) dynamics(g);
		for(int i = 0; i < 4; i++) regset(i % 2, [&](auto& r) { r.random(g, 200); });
	}
}
#endif
