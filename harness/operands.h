// Operands of every kind TooN supports, holding given logical values.
// with_mat<R,C,P>(kind, values, f): builds a matrix of the chosen storage kind and calls f(m) with it,
// and afterwards checks that the cells of the parent object that are not part of the operand are untouched.
#pragma once
#include "common.h"
#include <TooN/TooN.h>

namespace H {
using namespace TooN;
static const long GUARD = 77;

struct Guards { bool ok = true; };

template<class P> struct Conv { static P to(long v) { return P(v); } };

template<class M> void setm(M& m, const IMat& v) { typedef typename std::decay<decltype(m(0,0))>::type P; for(int i = 0; i < v.r; i++) for(int j = 0; j < v.c; j++) m(i, j) = Conv<P>::to(v.at(i, j)); }
template<class V> void setv(V& m, const IVec& v) { typedef typename std::decay<decltype(m[0])>::type P; for(size_t i = 0; i < v.size(); i++) m[(int)i] = Conv<P>::to(v[i]); }
template<class M> void guardm(M& m) { typedef typename std::decay<decltype(m(0,0))>::type P; for(int i = 0; i < m.num_rows(); i++) for(int j = 0; j < m.num_cols(); j++) m(i, j) = Conv<P>::to(GUARD); }
template<class M> bool guards_ok(const M& m, int r0, int c0, int r, int c) {
	typedef typename std::decay<decltype(m(0,0))>::type P;
	for(int i = 0; i < m.num_rows(); i++) for(int j = 0; j < m.num_cols(); j++)
		if(!(i >= r0 && i < r0 + r && j >= c0 && j < c0 + c) && !(m(i, j) == Conv<P>::to(GUARD))) return false;
	return true;
}

// Matrix kinds. 0..NMK-1
static const int NMK = 12;
inline const char* mk_name(int k) {
	static const char* n[] = {"static-row", "static-col", "dyn-row", "dyn-col", "Rx?-row", "?xC-row", "static-slice-row", "dyn-slice-col", "transpose-static", "wrapped-row", "slice-of-T-dyn", "Rx?-col"};
	return n[k];
}
template<int R, int C, class P, int K> struct MK;
#define TV_PLAIN(K, TYPE, CTOR) template<int R, int C, class P> struct MK<R, C, P, K> { template<class F> static bool go(const IMat& v, F f) { TYPE m CTOR; setm(m, v); f(m); return true; } }
#define TV_COMMA ,
TV_PLAIN(0, Matrix<R TV_COMMA C TV_COMMA P>, );
TV_PLAIN(1, Matrix<R TV_COMMA C TV_COMMA P TV_COMMA ColMajor>, );
TV_PLAIN(2, Matrix<Dynamic TV_COMMA Dynamic TV_COMMA P>, (v.r TV_COMMA v.c));
TV_PLAIN(3, Matrix<Dynamic TV_COMMA Dynamic TV_COMMA P TV_COMMA ColMajor>, (v.r TV_COMMA v.c));
TV_PLAIN(4, Matrix<R TV_COMMA Dynamic TV_COMMA P>, (v.r TV_COMMA v.c));
TV_PLAIN(5, Matrix<Dynamic TV_COMMA C TV_COMMA P>, (v.r TV_COMMA v.c));
TV_PLAIN(11, Matrix<R TV_COMMA Dynamic TV_COMMA P TV_COMMA ColMajor>, (v.r TV_COMMA v.c));
template<int R, int C, class P> struct MK<R, C, P, 6> { template<class F> static bool go(const IMat& v, F f) {
	Matrix<R + 3, C + 2, P> big; guardm(big); auto m = big.template slice<1, 1, R, C>(); setm(m, v); f(m); return guards_ok(big, 1, 1, R, C); } };
template<int R, int C, class P> struct MK<R, C, P, 7> { template<class F> static bool go(const IMat& v, F f) {
	Matrix<Dynamic, Dynamic, P, ColMajor> big(v.r + 2, v.c + 3); guardm(big); auto m = big.slice(1, 2, v.r, v.c); setm(m, v); f(m); return guards_ok(big, 1, 2, v.r, v.c); } };
template<int R, int C, class P> struct MK<R, C, P, 8> { template<class F> static bool go(const IMat& v, F f) {
	Matrix<C, R, P> big; guardm(big); auto m = big.T(); setm(m, v); f(m); return true; } };
template<int R, int C, class P> struct MK<R, C, P, 9> { template<class F> static bool go(const IMat& v, F f) {
	std::vector<P> buf(R * C + 4, Conv<P>::to(GUARD)); Matrix<R, C, P, Reference::RowMajor> m(&buf[2]); setm(m, v); f(m);
	return buf[0] == Conv<P>::to(GUARD) && buf[1] == Conv<P>::to(GUARD) && buf[R * C + 2] == Conv<P>::to(GUARD) && buf[R * C + 3] == Conv<P>::to(GUARD); } };
template<int R, int C, class P> struct MK<R, C, P, 10> { template<class F> static bool go(const IMat& v, F f) {
	Matrix<Dynamic, Dynamic, P> big(v.c + 3, v.r + 2); guardm(big); auto t = big.T(); auto m = t.slice(2, 1, v.r, v.c); setm(m, v); f(m); return guards_ok(big, 1, 2, v.c, v.r); } };

template<int R, int C, class P = double, class F> bool with_mat(int kind, const IMat& v, F f) {
	switch(kind) {
		case 0: return MK<R, C, P, 0>::go(v, f); case 1: return MK<R, C, P, 1>::go(v, f); case 2: return MK<R, C, P, 2>::go(v, f);
		case 3: return MK<R, C, P, 3>::go(v, f); case 4: return MK<R, C, P, 4>::go(v, f); case 5: return MK<R, C, P, 5>::go(v, f);
		case 6: return MK<R, C, P, 6>::go(v, f); case 7: return MK<R, C, P, 7>::go(v, f); case 8: return MK<R, C, P, 8>::go(v, f);
		case 9: return MK<R, C, P, 9>::go(v, f); case 10: return MK<R, C, P, 10>::go(v, f); case 11: return MK<R, C, P, 11>::go(v, f);
	}
	abort();
}
// Dynamic-only kinds (any run-time size, including zero): 2, 3, 7, 10
static const int NDMK = 4;
static const int dmk[NDMK] = {2, 3, 7, 10};
template<class P = double, class F> bool with_dmat(int kind, const IMat& v, F f) {
	switch(kind) {
		case 2: return MK<1, 1, P, 2>::go(v, f); case 3: return MK<1, 1, P, 3>::go(v, f);
		case 7: return MK<1, 1, P, 7>::go(v, f); case 10: return MK<1, 1, P, 10>::go(v, f);
	}
	abort();
}

// Vector kinds
static const int NVK = 8;
inline const char* vk_name(int k) {
	static const char* n[] = {"static", "dynamic", "resizable", "static-slice", "dyn-slice", "row-of-T", "column", "wrapped"};
	return n[k];
}
template<class V, class P> bool vguards_ok(const V& v, int s, int n) { for(int i = 0; i < v.size(); i++) if(!(i >= s && i < s + n) && !(v[i] == Conv<P>::to(GUARD))) return false; return true; }
template<class V, class P> void vguard(V& v) { for(int i = 0; i < v.size(); i++) v[i] = Conv<P>::to(GUARD); }
template<int N, class P, int K> struct VK;
template<int N, class P> struct VK<N, P, 0> { template<class F> static bool go(const IVec& v, F f) { Vector<N, P> x; setv(x, v); f(x); return true; } };
template<int N, class P> struct VK<N, P, 1> { template<class F> static bool go(const IVec& v, F f) { Vector<Dynamic, P> x((int)v.size()); setv(x, v); f(x); return true; } };
template<int N, class P> struct VK<N, P, 2> { template<class F> static bool go(const IVec& v, F f) { Vector<Resizable, P> x((int)v.size()); setv(x, v); f(x); return true; } };
template<int N, class P> struct VK<N, P, 3> { template<class F> static bool go(const IVec& v, F f) { Vector<N + 4, P> b; vguard<decltype(b), P>(b); auto x = b.template slice<2, N>(); setv(x, v); f(x); return vguards_ok<decltype(b), P>(b, 2, N); } };
template<int N, class P> struct VK<N, P, 4> { template<class F> static bool go(const IVec& v, F f) { int n = (int)v.size(); Vector<Dynamic, P> b(n + 3); vguard<decltype(b), P>(b); auto x = b.slice(1, n); setv(x, v); f(x); return vguards_ok<decltype(b), P>(b, 1, n); } };
template<int N, class P> struct VK<N, P, 5> { template<class F> static bool go(const IVec& v, F f) { int n = (int)v.size(); Matrix<Dynamic, Dynamic, P> b(n, 3); guardm(b); auto t = b.T(); auto x = t[1]; setv(x, v); f(x); return guards_ok(b, 0, 1, n, 1); } };
template<int N, class P> struct VK<N, P, 6> { template<class F> static bool go(const IVec& v, F f) { Matrix<N, 3, P> b; guardm(b); auto x = b.T()[2]; setv(x, v); f(x); return guards_ok(b, 0, 2, N, 1); } };
template<int N, class P> struct VK<N, P, 7> { template<class F> static bool go(const IVec& v, F f) {
	std::vector<P> buf(N + 2, Conv<P>::to(GUARD)); Vector<N, P, Reference> x(&buf[1]); setv(x, v); f(x); return buf[0] == Conv<P>::to(GUARD) && buf[N + 1] == Conv<P>::to(GUARD); } };
template<int N, class P = double, class F> bool with_vec(int kind, const IVec& v, F f) {
	switch(kind) {
		case 0: return VK<N, P, 0>::go(v, f); case 1: return VK<N, P, 1>::go(v, f); case 2: return VK<N, P, 2>::go(v, f); case 3: return VK<N, P, 3>::go(v, f);
		case 4: return VK<N, P, 4>::go(v, f); case 5: return VK<N, P, 5>::go(v, f); case 6: return VK<N, P, 6>::go(v, f); case 7: return VK<N, P, 7>::go(v, f);
	}
	abort();
}
static const int NDVK = 4;
static const int dvk[NDVK] = {1, 2, 4, 5};
template<class P = double, class F> bool with_dvec(int kind, const IVec& v, F f) {
	switch(kind) { case 1: return VK<1, P, 1>::go(v, f); case 2: return VK<1, P, 2>::go(v, f); case 4: return VK<1, P, 4>::go(v, f); case 5: return VK<1, P, 5>::go(v, f); }
	abort();
}
}
