// C03: which operand sizes are accepted, for every combination of operand kinds.
// With TOON_TEST_INTERNALS the error path is an exception and the operands are compared afterwards; without it (the
// default policy) the call runs in a child process and must abort.
#include "operands.h"
#if PART == 8
#include <TooN/Cholesky.h>
#include <TooN/Lapack_Cholesky.h>
#include <TooN/LU.h>
#include <TooN/SVD.h>
#include <TooN/GR_SVD.h>
#include <TooN/SymEigen.h>
#include <TooN/gaussian_elimination.h>
#include <TooN/determinant.h>
#include <TooN/wls.h>
#include <TooN/irls.h>
#include <TooN/se2.h>
#include <TooN/se3.h>
#include <TooN/sim2.h>
#include <TooN/sim3.h>
#endif
using namespace H;
using namespace TooN;
typedef double D;

// outcome of a call: 0 returned, 1 rejected, 2 anything else (crash, wrong signal)
template<class F> int outcome(F f) {
#ifdef TOON_TEST_INTERNALS
	try { f(); return 0; }
	catch(Internal::SizeMismatch&) { return 1; }
	catch(Internal::StaticSizeMismatch&) { return 1; }
	catch(...) { return 2; }
#else
	int r = in_child(f);
	return r == 0 ? 0 : r == SIGABRT ? 1 : 2;
#endif
}
#ifdef TOON_TEST_INTERNALS
static const bool inproc = true;
#else
static const bool inproc = false;
#endif
static void say(const std::string& f, int ka, int kb, IVec da, IVec db, int err, bool chg, IVec res = IVec()) { size_t u = f.find('_'); Ev e("sz"); e.str("f", f).str("k", u == std::string::npos ? f : f.substr(0, u)).i("ka", ka).i("kb", kb).v("da", da).v("db", db).i("err", err).b("chg", chg).v("res", inproc ? res : IVec()).b("seen", inproc && !res.empty()).emit(); }

template<class V> IVec dimv(const V& v) { return IVec{v.size(), 1}; }
template<class M> IVec dimm(const M& m) { return IVec{m.num_rows(), m.num_cols()}; }

struct VV { template<class A, class B> static void run(int ka, int kb, A& a, B& b, const IVec& x, const IVec& y, Rng& g) {
	IVec da{a.size(), 1}, db{b.size(), 1}, res;
	auto put = [&](const char* f, std::function<void()> fn, bool destructive) {
		setv(a, x); setv(b, y); res.clear();
		int err = outcome(fn);
		bool chg = getv(b) != y || ((err || !destructive) && getv(a) != x);
		say(f, ka, kb, da, db, err, chg, res);
	};
	put("vadd", [&] { auto r = a + b; res = dimv(r); }, false);
	put("vsub", [&] { auto r = a - b; res = dimv(r); }, false);
	put("vdiag", [&] { auto r = diagmult(a, b); res = dimv(r); }, false);
	put("vdot", [&] { volatile double r = a * b; (void)r; }, false);
	put("viadd", [&] { a += b; res = dimv(a); }, true);
	put("visub", [&] { a -= b; res = dimv(a); }, true);
	put("veq", [&] { volatile bool r = a == b; (void)r; }, false);
	put("vne", [&] { volatile bool r = a != b; (void)r; }, false);
	if(ka != 2) put("vasg", [&] { a = b; res = dimv(a); }, true);     // a Resizable takes the size of what it is assigned
	if(ka != 2) put("vasgexpr", [&] { a = b + b; res = dimv(a); }, true);
	if(ka != 2 && kb != 2) { // swap: both keep their sizes (views exchange elements), or the call is rejected
		setv(a, x); setv(b, y);
		int err = outcome([&] { swap(a, b); });
		bool chg = err ? (getv(a) != x || getv(b) != y) : inproc && (getv(a) != y || getv(b) != x);
		say("vswap", ka, kb, da, db, err, chg);
	}
} };
template<int N1, int N2, int KA, int KB> void vpair(Rng& g) {
	IVec x = rvec(g, N1, -9, 9), y = rvec(g, N2, -9, 9);
	VK<N1, D, KA>::go(x, [&](auto& a) { VK<N2, D, KB>::go(y, [&](auto& b) { VV::run(KA, KB, a, b, x, y, g); }); });
}
struct MM { template<class A, class B> static void run(int ka, int kb, A& a, B& b, const IMat& x, const IMat& y, Rng& g) {
	IVec da{a.num_rows(), a.num_cols()}, db{b.num_rows(), b.num_cols()}, res;
	auto put = [&](const char* f, std::function<void()> fn, bool destructive) {
		setm(a, x); setm(b, y); res.clear();
		int err = outcome(fn);
		bool chg = getm(b).d != y.d || ((err || !destructive) && getm(a).d != x.d);
		say(f, ka, kb, da, db, err, chg, res);
	};
	put("madd", [&] { auto r = a + b; res = dimm(r); }, false);
	put("msub", [&] { auto r = a - b; res = dimm(r); }, false);
	put("miadd", [&] { a += b; res = dimm(a); }, true);
	put("misub", [&] { a -= b; res = dimm(a); }, true);
	put("masg", [&] { a = b; res = dimm(a); }, true);
	put("meq", [&] { volatile bool r = a == b; (void)r; }, false);
	put("mne", [&] { volatile bool r = a != b; (void)r; }, false);
	put("mm", [&] { auto r = a * b; res = dimm(r); }, false);
	put("mmT", [&] { auto r = a * b.T(); res = dimm(r); }, false);
	put("mTm", [&] { auto r = a.T() * b; res = dimm(r); }, false);
	if(x.r && y.r) put("rowdot", [&] { volatile double r = a[0] * b[0]; (void)r; }, false);
	if(x.c && y.c) put("coldot", [&] { volatile double r = a.T()[0] * b.T()[0]; (void)r; }, false);
	if(x.r && y.r) put("rowasg", [&] { a[0] = b[0]; }, true);
	if(x.c && y.c) put("colasg", [&] { a.T()[0] = b.T()[0]; }, true);
	put("diagasg", [&] { a.diagonal_slice() = b.diagonal_slice(); }, true);
} };
template<int R1, int C1, int R2, int C2, int KA, int KB> void mpair(Rng& g) {
	IMat x = rmat(g, R1, C1, -9, 9), y = rmat(g, R2, C2, -9, 9);
	MK<R1, C1, D, KA>::go(x, [&](auto& a) { MK<R2, C2, D, KB>::go(y, [&](auto& b) { MM::run(KA, KB, a, b, x, y, g); }); });
}
struct MV { template<class A, class B> static void run(int ka, int kb, A& a, B& b, const IMat& x, const IVec& y, Rng& g) {
	IVec da{a.num_rows(), a.num_cols()}, db{b.size(), 1}, res;
	auto put = [&](const char* f, std::function<void()> fn, bool destructive) {
		setm(a, x); setv(b, y); res.clear();
		int err = outcome(fn);
		bool chg = getv(b) != y || ((err || !destructive) && getm(a).d != x.d);
		say(f, ka, kb, da, db, err, chg, res);
	};
	put("mv", [&] { auto r = a * b; res = dimv(r); }, false);
	put("vm", [&] { auto r = b * a; res = dimv(r); }, false);
	put("mdiag", [&] { auto r = diagmult(a, b); res = dimm(r); }, false);
	put("vmdiag", [&] { auto r = diagmult(b, a); res = dimm(r); }, false);
	put("rowset", [&] { a[0] = b; }, true);
	put("colset", [&] { a.T()[0] = b; }, true);
	put("diagset", [&] { a.diagonal_slice() = b; }, true);
	put("rowiadd", [&] { a[0] += b; }, true);
	put("outer", [&] { auto r = b.as_col() * a[0].as_row(); res = dimm(r); }, false);
	put("dmm", [&] { auto r = b.as_diagonal() * a; res = dimm(r); }, false);
	put("mdm", [&] { auto r = a * b.as_diagonal(); res = dimm(r); }, false);
	put("massignd", [&] { a = b.as_diagonal(); res = dimm(a); }, true);
} };
template<int R1, int C1, int N, int KA, int KB> void mvpair(Rng& g) {
	IMat x = rmat(g, R1, C1, -9, 9); IVec y = rvec(g, N, -9, 9);
	MK<R1, C1, D, KA>::go(x, [&](auto& a) { VK<N, D, KB>::go(y, [&](auto& b) { MV::run(KA, KB, a, b, x, y, g); }); });
}
// every kind against a set of kinds, chosen per part
template<int N1, int N2, int KA> void vrow(Rng& g) { vpair<N1, N2, KA, 0>(g); vpair<N1, N2, KA, 1>(g); vpair<N1, N2, KA, 2>(g); vpair<N1, N2, KA, 3>(g); vpair<N1, N2, KA, 4>(g); vpair<N1, N2, KA, 5>(g); vpair<N1, N2, KA, 6>(g); vpair<N1, N2, KA, 7>(g); }
template<int N1, int N2> void vall(Rng& g) {
#ifdef TOON_TEST_INTERNALS
	vrow<N1, N2, 0>(g); vrow<N1, N2, 1>(g); vrow<N1, N2, 2>(g); vrow<N1, N2, 3>(g); vrow<N1, N2, 4>(g); vrow<N1, N2, 5>(g); vrow<N1, N2, 6>(g); vrow<N1, N2, 7>(g);
#else   // two static sizes that differ do not compile, as documented
	vpair<N1, N2, 0, 1>(g); vpair<N1, N2, 1, 0>(g); vpair<N1, N2, 1, 2>(g); vpair<N1, N2, 2, 3>(g); vpair<N1, N2, 4, 5>(g); vpair<N1, N2, 5, 7>(g); vpair<N1, N2, 1, 1>(g); vpair<N1, N2, 6, 4>(g);
#endif
}
template<int R1, int C1, int R2, int C2, int KA> void mrow1(Rng& g) { mpair<R1, C1, R2, C2, KA, 0>(g); mpair<R1, C1, R2, C2, KA, 2>(g); mpair<R1, C1, R2, C2, KA, 4>(g); mpair<R1, C1, R2, C2, KA, 7>(g); }
template<int R1, int C1, int R2, int C2, int KA> void mrow2(Rng& g) { mpair<R1, C1, R2, C2, KA, 1>(g); mpair<R1, C1, R2, C2, KA, 3>(g); mpair<R1, C1, R2, C2, KA, 5>(g); mpair<R1, C1, R2, C2, KA, 8>(g); }
template<int R1, int C1, int R2, int C2> void mall(Rng& g) {
#ifdef TOON_TEST_INTERNALS
	mrow1<R1, C1, R2, C2, 0>(g); mrow2<R1, C1, R2, C2, 2>(g); mrow1<R1, C1, R2, C2, 5>(g); mrow2<R1, C1, R2, C2, 4>(g); mrow1<R1, C1, R2, C2, 8>(g); mrow2<R1, C1, R2, C2, 10>(g); mrow1<R1, C1, R2, C2, 3>(g); mrow2<R1, C1, R2, C2, 6>(g); mrow2<R1, C1, R2, C2, 1>(g); mrow1<R1, C1, R2, C2, 11>(g);
#else
	mpair<R1, C1, R2, C2, 2, 3>(g); mpair<R1, C1, R2, C2, 0, 2>(g); mpair<R1, C1, R2, C2, 7, 8>(g); mpair<R1, C1, R2, C2, 10, 1>(g);
#endif
}
template<int R1, int C1, int N, int KA> void mvrow(Rng& g) { mvpair<R1, C1, N, KA, 0>(g); mvpair<R1, C1, N, KA, 1>(g); mvpair<R1, C1, N, KA, 2>(g); mvpair<R1, C1, N, KA, 4>(g); mvpair<R1, C1, N, KA, 6>(g); }
template<int R1, int C1, int N> void mvall(Rng& g) {
#ifdef TOON_TEST_INTERNALS
	mvrow<R1, C1, N, 0>(g); mvrow<R1, C1, N, 2>(g); mvrow<R1, C1, N, 4>(g); mvrow<R1, C1, N, 5>(g); mvrow<R1, C1, N, 8>(g); mvrow<R1, C1, N, 10>(g);
#else
	mvpair<R1, C1, N, 0, 1>(g); mvpair<R1, C1, N, 2, 0>(g); mvpair<R1, C1, N, 2, 4>(g); mvpair<R1, C1, N, 10, 2>(g);
#endif
}
void part1(Rng& g); void part2(Rng& g); void part3(Rng& g); void part4(Rng& g); void part5(Rng& g); void part6(Rng& g); void part7(Rng& g); void part8(Rng& g);
#if PART == 1
void part1(Rng& g) { vall<3, 2>(g); vall<3, 3>(g); }
#elif PART == 2
void part2(Rng& g) { vall<3, 4>(g); vall<1, 2>(g); }
#elif PART == 3
void part3(Rng& g) { vall<2, 1>(g); vall<1, 1>(g); }
#elif PART == 4
void part4(Rng& g) { mall<3, 2, 3, 2>(g); mall<3, 2, 2, 3>(g); }
#elif PART == 5
void part5(Rng& g) { mall<2, 3, 2, 2>(g); mall<3, 3, 2, 3>(g); }
#elif PART == 6
void part6(Rng& g) { mall<2, 3, 3, 3>(g); mall<2, 2, 3, 3>(g); }
#elif PART == 7
void part7(Rng& g) { mvall<2, 3, 3>(g); mvall<2, 3, 2>(g); mvall<3, 2, 4>(g); mvall<3, 3, 3>(g); mvall<3, 3, 2>(g); }
#elif PART == 8
// Run-time sizes only: random dimensions (zero included) and the solvers, decompositions and groups
static IMat wellm(Rng& g, int r, int c) { IMat m = rmat(g, r, c, -2, 2); for(int i = 0; i < r && i < c; i++) m.at(i, i) = 20 + i; for(int i = 0; i < r; i++) for(int j = 0; j < i; j++) if(j < c && i < c && j < r) m.at(i, j) = m.at(j, i); return m; }
struct Call {
	Rng& g; explicit Call(Rng& g_) : g(g_) {}
	// one matrix operand
	template<class F> void m1(const char* f, int r, int c, F fn) {
		IMat x = wellm(g, r, c); Matrix<> a(r, c); setm(a, x);
		int err = outcome([&] { fn(a); });
		say(f, 2, 0, {r, c}, {0, 0}, err, getm(a).d != x.d);
	}
	// (n x n system, second operand r x c)
	template<class F> void sys(const char* f, int n, int r, int c, F fn) {
		IMat x = wellm(g, n, n), y = wellm(g, r, c); Matrix<> a(n, n), b(r, c); setm(a, x); setm(b, y);
		int err = outcome([&] { fn(a, b); });
		say(f, 2, 2, {n, n}, {r, c}, err, getm(a).d != x.d || getm(b).d != y.d);
	}
	template<class F> void sysv(const char* f, int n, int k, F fn) {
		IMat x = wellm(g, n, n); IVec y = rvec(g, k, -9, 9); Matrix<> a(n, n); Vector<> b(k); setm(a, x); setv(b, y);
		int err = outcome([&] { fn(a, b); });
		say(f, 2, 1, {n, n}, {k, 1}, err, getm(a).d != x.d || getv(b) != y);
	}
	template<class F> void v1(const char* f, int n, F fn) {
		IVec y = rvec(g, n, -3, 3); Vector<> b(n); setv(b, y);
		int err = outcome([&] { fn(b); });
		say(f, 1, 0, {n, 1}, {0, 0}, err, getv(b) != y);
	}
};
void part8(Rng& g) {
	Call k(g);
	for(int it = 0; it < (inproc ? 200 : 25); it++) { // run-time sizes, zero included
		int r = g.range(0, 4), c = g.range(0, 4), r2 = g.one_in(3) ? c : g.one_in(2) ? r : g.range(0, 4), c2 = g.one_in(2) ? c : g.range(0, 4);
		IMat x = rmat(g, r, c, -9, 9), y = rmat(g, r2, c2, -9, 9); int ka = dmk[g.range(0, 3)], kb = dmk[g.range(0, 3)];
		with_dmat(ka, x, [&](auto& a) { with_dmat(kb, y, [&](auto& b) { MM::run(ka, kb, a, b, x, y, g); }); });
		int n = g.range(0, 4), n2 = g.one_in(3) ? n : g.range(0, 4); IVec u = rvec(g, n, -9, 9), v = rvec(g, n2, -9, 9);
		int kv = dvk[g.range(0, 3)], kw = dvk[g.range(0, 3)];
		with_dvec(kv, u, [&](auto& a) { with_dvec(kw, v, [&](auto& b) { VV::run(kv, kw, a, b, u, v, g); }); });
		if(r && c) with_dmat(ka, x, [&](auto& a) { with_dvec(kw, v, [&](auto& b) { MV::run(ka, kw, a, b, x, v, g); }); });
	}
	for(int it = 0; it < 3; it++) for(int n = 1; n <= 4; n++) for(int r = 1; r <= 4; r++) {
		int c = g.range(1, 4);
		// square matrices
		k.m1("sq_lu", n, r, [](Matrix<>& a) { LU<> x(a); });
		k.m1("sq_chol", n, r, [](Matrix<>& a) { Cholesky<> x(a); });
		k.m1("sq_lchol", n, r, [](Matrix<>& a) { Lapack_Cholesky<Dynamic> x(a); });
		k.m1("sq_symeig", n, r, [](Matrix<>& a) { SymEigen<> x(a); });
		k.m1("sq_det", n, r, [](Matrix<>& a) { determinant(a); });
		k.m1("sq_detge", n, r, [](Matrix<>& a) { determinant_gaussian_elimination(a); });
		k.m1("sq_trace", n, r, [](Matrix<>& a) { trace(a); });
		k.m1("sq_sym", n, r, [](Matrix<>& a) { Matrix<> b(a); Symmetrize(b); });
		k.m1("sq_exp", n, r, [](Matrix<>& a) { exp(a); });
		k.m1("sq_sqrt", n, r, [](Matrix<>& a) { TooN::sqrt(a); });
		k.m1("sq_log", n, r, [](Matrix<>& a) { log(a); });
		k.m1("sq_addI", n, r, [](Matrix<>& a) { Matrix<> b(a); b += Identity * 2; });
		k.m1("sq_asgI", n, r, [](Matrix<>& a) { Matrix<> b(a); b = Identity; });
		k.m1("sq_ge", n, r, [](Matrix<>& a) { Matrix<> b(a.num_rows(), 2); b = Ones; gaussian_elimination(a, b); });
		k.m1("sq_gev", n, r, [](Matrix<>& a) { Vector<> b(a.num_rows()); b = Ones; gaussian_elimination(a, b); });
		// right-hand sides
		k.sys("rhs_lu", n, r, c, [](Matrix<>& a, Matrix<>& b) { LU<> x(a); x.backsub(b); });
		k.sys("rhs_chol", n, r, c, [](Matrix<>& a, Matrix<>& b) { Cholesky<> x(a); x.backsub(b); });
		k.sys("rhs_lchol", n, r, c, [](Matrix<>& a, Matrix<>& b) { Lapack_Cholesky<Dynamic> x(a); x.backsub(b); });
		k.sys("rhs_svd", n, r, c, [](Matrix<>& a, Matrix<>& b) { SVD<> x(a); x.backsub(b); });
		k.sys("rhs_symeig", n, r, c, [](Matrix<>& a, Matrix<>& b) { SymEigen<> x(a); x.backsub(b); });
		k.sys("rhs_ge", n, r, c, [](Matrix<>& a, Matrix<>& b) { gaussian_elimination(a, b); });
		k.sysv("rhs_luv", n, r, [](Matrix<>& a, Vector<>& b) { LU<> x(a); x.backsub(b); });
		k.sysv("rhs_cholv", n, r, [](Matrix<>& a, Vector<>& b) { Cholesky<> x(a); x.backsub(b); });
		k.sysv("rhs_mahal", n, r, [](Matrix<>& a, Vector<>& b) { Cholesky<> x(a); x.mahalanobis(b); });
		k.sysv("rhs_lcholv", n, r, [](Matrix<>& a, Vector<>& b) { Lapack_Cholesky<Dynamic> x(a); x.backsub(b); });
		k.sysv("rhs_lmahal", n, r, [](Matrix<>& a, Vector<>& b) { Lapack_Cholesky<Dynamic> x(a); x.mahalanobis(b); });
		k.sysv("rhs_svdv", n, r, [](Matrix<>& a, Vector<>& b) { SVD<> x(a); x.backsub(b); });
		k.sysv("rhs_symeigv", n, r, [](Matrix<>& a, Vector<>& b) { SymEigen<> x(a); x.backsub(b); });
		k.sysv("rhs_gev", n, r, [](Matrix<>& a, Vector<>& b) { gaussian_elimination(a, b); });
		k.sysv("rhs_lu3", 3, r, [](Matrix<>& a, Vector<>& b) { LU<3> x(a); x.backsub(b); });
		k.sysv("rhs_chol3", 3, r, [](Matrix<>& a, Vector<>& b) { Matrix<3> s(a); Cholesky<3> x(s); x.backsub(b); });
		k.sysv("rhs_ge3", 3, 3, [](Matrix<>& a, Vector<>& b) { Matrix<3> s(a); Vector<3> t(b); gaussian_elimination(s, t); });
		// compute() on an object of size n
		k.sys("cmp_lu", n, r, c, [](Matrix<>& a, Matrix<>& b) { LU<> x(a); x.compute(b); });
		k.sys("cmp_chol", n, r, c, [](Matrix<>& a, Matrix<>& b) { Cholesky<> x(a); x.compute(b); });
		k.sys("cmp_lchol", n, r, c, [](Matrix<>& a, Matrix<>& b) { Lapack_Cholesky<Dynamic> x(a); x.compute(b); });
		k.sys("cmp_symeig", n, r, c, [](Matrix<>& a, Matrix<>& b) { SymEigen<> x(a); x.compute(b); });
		k.sys("cmp_svd", n, r, c, [](Matrix<>& a, Matrix<>& b) { SVD<> x(a); x.compute(b); });
		// least squares of size n: the accumulated state is part of what must not change
		k.sysv("wls1_prior", n, r, [](Matrix<>& a, Vector<>& b) { WLS<> w(a.num_rows()); w.add_prior(b); });
		k.sysv("wls1_mj", n, r, [](Matrix<>& a, Vector<>& b) { WLS<> w(a.num_rows()); w.add_mJ(2.0, b); });
		k.sysv("irls_mj", n, r, [](Matrix<>& a, Vector<>& b) { IRLS<Dynamic, double, ILinear> w(a.num_rows()); w.set_sd(1); w.add_mJ(2.0, b); });
		k.sys("cmp_wlspriorm", n, r, c, [](Matrix<>& a, Matrix<>& b) { WLS<> w(a.num_rows()); w.add_prior(b); });
		{ // add_mJ of r measurements: J is n x r, invcov c x c, m has d elements
			int d = g.coin() ? r : g.range(1, 4), cc = g.coin() ? r : c, jr = g.one_in(3) ? g.range(1, 4) : n;
			WLS<> w(n); w.add_prior(3); Vector<> m(d); m = Ones; Matrix<> J(jr, r), C(cc, cc); J = Ones; C = Ones;
			Matrix<> before = w.get_C_inv(); Vector<> vb = w.get_vector();
			int err = outcome([&] { w.add_mJ(m, J, C); });
			Ev e("wlsb"); e.i("n", n).i("jr", jr).i("k", r).i("d", d).i("cc", cc).i("err", err).b("chg", err && !(w.get_C_inv() == before && w.get_vector() == vb)).emit();
			err = outcome([&] { w.clear(); w.add_prior(3); Matrix<> JT = J.T(); w.add_mJ_rows(m, JT, C); });
			Ev e2("wlsb"); e2.i("n", n).i("jr", jr).i("k", r).i("d", d).i("cc", cc).i("err", err).b("chg", err && !(w.get_C_inv() == before && w.get_vector() == vb)).emit();
			err = outcome([&] { w.clear(); w.add_prior(3); Matrix<> JT = J.T(); w.add_mJ(m, JT, 2.0); });
			Ev e3("wlsb"); e3.i("n", n).i("jr", jr).i("k", r).i("d", d).i("cc", r).i("err", err).b("chg", err && !(w.get_C_inv() == before && w.get_vector() == vb)).emit();
		}
	}
	for(int n = 1; n <= 8; n++) {
		IVec di{n, 1};
		k.v1("len3_so3", n, [](Vector<>& b) { SO3<> r(b); });
		k.v1("len3_so3exp", n, [](Vector<>& b) { SO3<>::exp(b); });
		k.v1("len3_so3act", n, [](Vector<>& b) { SO3<> r; Vector<3> x = r * b; });
		k.v1("len3_so3actl", n, [](Vector<>& b) { SO3<> r; Vector<3> x = b * r; });
		k.v1("len3_so3adj", n, [](Vector<>& b) { SO3<> r; r.adjoint(b); });
		k.v1("len6_se3", n, [](Vector<>& b) { SE3<> r(b); });
		k.v1("len6_se3exp", n, [](Vector<>& b) { SE3<>::exp(b); });
		k.v1("len4_se3act", n, [](Vector<>& b) { SE3<> r; Vector<4> x = r * b; });
		k.v1("len4_se3actl", n, [](Vector<>& b) { SE3<> r; Vector<4> x = b * r; });
		k.v1("len6_se3adj", n, [](Vector<>& b) { SE3<> r; r.adjoint(b); });
		k.v1("len6_se3tri", n, [](Vector<>& b) { SE3<> r; r.trinvadjoint(b); });
		k.v1("len3_se2exp", n, [](Vector<>& b) { SE2<>::exp(b); });
		k.v1("len3_se2act", n, [](Vector<>& b) { SE2<> r; Vector<3> x = r * b; });
		k.v1("len3_se2actl", n, [](Vector<>& b) { SE2<> r; Vector<3> x = b * r; });
		k.v1("len4_sim2exp", n, [](Vector<>& b) { SIM2<>::exp(b); });
		k.v1("len3_sim2act", n, [](Vector<>& b) { SIM2<> r; Vector<3> x = r * b; });
		k.v1("len3_sim2actl", n, [](Vector<>& b) { SIM2<> r; Vector<3> x = b * r; });
		k.v1("len7_sim3exp", n, [](Vector<>& b) { SIM3<>::exp(b); });
		k.v1("len4_sim3act", n, [](Vector<>& b) { SIM3<> r; Vector<4> x = r * b; });
		k.v1("len4_sim3actl", n, [](Vector<>& b) { SIM3<> r; Vector<4> x = b * r; });
		k.v1("len7_sim3adj", n, [](Vector<>& b) { SIM3<> r; r.adjoint(b); });
		k.v1("len7_sim3tri", n, [](Vector<>& b) { SIM3<> r; r.trinvadjoint(b); });
		k.v1("len2_so2act", n, [](Vector<>& b) { SO2<> r; Vector<2> x = r * b; });
		k.v1("len2_so2actl", n, [](Vector<>& b) { SO2<> r; Vector<2> x = b * r; });
		k.v1("len3_cpm", n, [](Vector<>& b) { cross_product_matrix(b); });
	}
}
#endif
#if PART == 1
int main(int argc, char** argv) {
	Args A(argc, argv); Rng g = A.rng();
	for(long it = 0; it < A.n; it++) {
		typedef void (*P)(Rng&); P ps[] = {part1, part2, part3, part4, part5, part6, part7, part8};
		for(int i = 0; i < 8; i++) if(i % A.shards == A.shard) ps[i](g);
	}
	if(out().n == 0) out().line("{\"op\":\"none\"}");
}
#endif
