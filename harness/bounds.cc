// C04: which slices and indices are accepted.
#include "operands.h"
#include <climits>
using namespace H;
using namespace TooN;
typedef double D;
#ifdef TOON_TEST_INTERNALS
static const bool inproc = true;
template<class F> int outcome(F f) {
	try { f(); return 0; }
	catch(Internal::SliceError&) { return 1; }
	catch(Internal::StaticSliceError&) { return 1; }
	catch(Internal::BadIndex&) { return 1; }
	catch(...) { return 2; }
}
#else
static const bool inproc = false;
template<class F> int outcome(F f) { int r = in_child(f); return r == 0 ? 0 : r == SIGABRT ? 1 : 2; }
#endif
static int sz1, sz2;
static volatile const void* sink;
static std::vector<int> ints(int n) { std::vector<int> v = {INT_MIN, INT_MIN + 1, INT_MIN + n, -1000000, -n, -2, -1, 1000000, INT_MAX - n, INT_MAX - 1, INT_MAX, 65536, 1 << 30}; for(int i = 0; i <= n + 2; i++) v.push_back(i); return v; }
static void vs(int k, int n, int s, int l, int err, int sz) { Ev e("vs"); e.i("k", k).i("n", n).i("s", s).i("l", l).i("err", err).i("sz", err || !inproc ? -1 : sz).emit(); }
static void ms(int k, int r, int c, int rs, int cs, int rl, int cl, int err, int a, int b) { Ev e("ms"); e.i("k", k).i("r", r).i("c", c).i("rs", rs).i("cs", cs).i("rl", rl).i("cl", cl).i("err", err).v("sz", err || !inproc ? IVec{-1, -1} : IVec{a, b}).emit(); }
static void ix(int k, const char* f, int n, int i, int err) { Ev e("ix"); e.i("k", k).str("f", f).i("n", n).i("i", i).i("err", err).emit(); }
static void mx(int k, const char* f, int r, int c, int i, int j, int err) { Ev e("mx"); e.i("k", k).str("f", f).i("r", r).i("c", c).i("i", i).i("j", j).i("err", err).emit(); }

template<class V> void vec_dyn(int k, V& v, Rng& g, bool all) {
	const V& cv = v; int n = v.size(); auto I = ints(n);
	for(int s : I) { for(int l : I) if(all || g.one_in(5)) {
			int err = outcome([&] { auto x = v.slice(s, l); sz1 = x.size(); sink = &x; }); vs(k, n, s, l, err, sz1);
			if(all) { err = outcome([&] { auto x = cv.slice(s, l); sz1 = x.size(); sink = &x; }); vs(k, n, s, l, err, sz1); }
		}
		int err = outcome([&] { sink = &v[s]; }); ix(k, "v[]", n, s, err);
		err = outcome([&] { sink = &cv[s]; }); ix(k, "cv[]", n, s, err);
	}
	// a view of a view is checked against the view
	for(int q = 0; q < (inproc ? 30 : 4); q++) { int s0 = g.range(0, n), l0 = g.range(0, n - s0); auto w = v.slice(s0, l0); int s = g.pick(I), l = g.pick(I);
		int err = outcome([&] { auto x = w.slice(s, l); sz1 = x.size(); }); vs(k, l0, s, l, err, sz1);
		err = outcome([&] { sink = &w[s]; }); ix(k, "vv[]", l0, s, err);
		const auto& cw = w; auto u = cw.slice(0, l0 / 2); err = outcome([&] { sink = &u[s]; }); ix(k, "vvv[]", l0 / 2, s, err);
		auto r = w.as_row(); err = outcome([&] { sink = &r(0, s); }); mx(k, "row()", 1, l0, 0, s, err); err = outcome([&] { sink = &r(s, 0); }); mx(k, "row()", 1, l0, s, 0, err);
		auto c = w.as_col(); err = outcome([&] { sink = &c(s, 0); }); mx(k, "col()", l0, 1, s, 0, err);
		err = outcome([&] { auto x = c.slice(s, 0, l, 1); sz1 = x.num_rows(); sz2 = x.num_cols(); }); ms(k, l0, 1, s, 0, l, 1, err, sz1, sz2);
	}
}
template<class M> void mat_dyn(int k, M& m, Rng& g) {
	const M& cm = m; int r = m.num_rows(), c = m.num_cols(); auto I = ints(r), J = ints(c); int stp = inproc ? 1 : 5;
	auto one = [&](int rs, int cs, int rl, int cl) { int err = outcome([&] { auto x = m.slice(rs, cs, rl, cl); sz1 = x.num_rows(); sz2 = x.num_cols(); }); ms(k, r, c, rs, cs, rl, cl, err, sz1, sz2);
		if(inproc) { err = outcome([&] { auto x = cm.slice(rs, cs, rl, cl); sz1 = x.num_rows(); sz2 = x.num_cols(); }); ms(k, r, c, rs, cs, rl, cl, err, sz1, sz2); } };
	for(int s : I) for(int l : I) if(inproc ? g.one_in(2) : g.one_in(12)) { int c0 = g.range(0, c); one(s, c0, l, g.range(0, c - c0)); }
	for(int s : J) for(int l : J) if(inproc ? g.one_in(2) : g.one_in(12)) { int r0 = g.range(0, r); one(r0, s, g.range(0, r - r0), l); }
	for(int q = 0; q < (inproc ? 60 : 8); q++) one(g.pick(I), g.pick(J), g.pick(I), g.pick(J));
	for(int i : I) {
		int err = outcome([&] { auto x = m[i]; sink = &x; }); ix(k, "m[]", r, i, err);
		err = outcome([&] { auto x = cm[i]; sink = &x; }); ix(k, "cm[]", r, i, err);
		auto d = m.diagonal_slice(); int n = d.size(); err = outcome([&] { sink = &d[i]; }); ix(k, "diag[]", std::min(r, c), i, n == std::min(r, c) ? err : 2);
		err = outcome([&] { auto x = d.slice(i, 1); sz1 = x.size(); }); vs(k, n, i, 1, err, sz1);
		for(int j : J) if(inproc ? g.one_in(3) : g.one_in(15)) {
			err = outcome([&] { sink = &m(i, j); }); mx(k, "m()", r, c, i, j, err);
			err = outcome([&] { sink = &cm(i, j); }); mx(k, "cm()", r, c, i, j, err);
			err = outcome([&] { sink = &m[std::make_pair(i, j)]; }); mx(k, "m[p]", r, c, i, j, err);
			err = outcome([&] { sink = &cm[std::make_pair(i, j)]; }); mx(k, "cm[p]", r, c, i, j, err);
			err = outcome([&] { sink = &m[i][j]; }); mx(k, "m[][]", r, c, i, j, err);
			err = outcome([&] { sink = &m.T()(j, i); }); mx(k, "T()", r, c, i, j, err);
			err = outcome([&] { sink = &m.T()[j][i]; }); mx(k, "T[][]", r, c, i, j, err);
		}
	}
	for(int q = 0; q < (inproc ? 30 : 5); q++) { int r0 = g.range(0, r), c0 = g.range(0, c), rl = g.range(0, r - r0), cl = g.range(0, c - c0); auto w = m.slice(r0, c0, rl, cl);
		int a = g.pick(I), b = g.pick(J), x = g.pick(I), y = g.pick(J);
		int err = outcome([&] { auto z = w.slice(a, b, x, y); sz1 = z.num_rows(); sz2 = z.num_cols(); }); ms(k, rl, cl, a, b, x, y, err, sz1, sz2);
		err = outcome([&] { sink = &w(a, b); }); mx(k, "w()", rl, cl, a, b, err);
		auto t = w.T(); err = outcome([&] { auto z = t.slice(b, a, y, x); sz1 = z.num_cols(); sz2 = z.num_rows(); }); ms(k, rl, cl, a, b, x, y, err, sz1, sz2);
		err = outcome([&] { auto z = t[b]; sink = &z; }); ix(k, "t[]", cl, b, err);
	}
}
#ifdef TOON_TEST_INTERNALS
// static slices; in this build an impossible one throws instead of failing to compile
template<int S, int L, class V> void vst1(int k, V& v) {
	const V& cv = v; int n = v.size();
	int err = outcome([&] { auto x = v.template slice<S, L>(); sz1 = x.size(); }); vs(k, n, S, L, err, sz1);
	err = outcome([&] { auto x = cv.template slice<S, L>(); sz1 = x.size(); }); vs(k, n, S, L, err, sz1);
	err = outcome([&] { auto x = v.template slice<S, L>(S, L); sz1 = x.size(); }); vs(k, n, S, L, err, sz1);
	for(int d : {-2, 0, 1, 2, 3, 4, 5, INT_MAX, INT_MIN}) {
		err = outcome([&] { auto x = v.template slice<Dynamic, L>(d, L); sz1 = x.size(); }); vs(k, n, d, L, err, sz1);
		err = outcome([&] { auto x = cv.template slice<S, Dynamic>(S, d); sz1 = x.size(); }); vs(k, n, S, d, err, sz1);
	}
}
template<int S, class V> void vst(int k, V& v) { vst1<S, 0>(k, v); vst1<S, 1>(k, v); vst1<S, 2>(k, v); vst1<S, 3>(k, v); vst1<S, 4>(k, v); vst1<S, 5>(k, v); vst1<S, 1000000>(k, v); }
template<class V> void vstatic(int k, V& v) { vst<0>(k, v); vst<1>(k, v); vst<2>(k, v); vst<3>(k, v); vst<4>(k, v); vst<5>(k, v); vst<900>(k, v); }
template<int RS, int CS, int RL, int CL, class M> void mst1(int k, M& m) {
	const M& cm = m; int r = m.num_rows(), c = m.num_cols();
	int err = outcome([&] { auto x = m.template slice<RS, CS, RL, CL>(); sz1 = x.num_rows(); sz2 = x.num_cols(); }); ms(k, r, c, RS, CS, RL, CL, err, sz1, sz2);
	err = outcome([&] { auto x = cm.template slice<RS, CS, RL, CL>(); sz1 = x.num_rows(); sz2 = x.num_cols(); }); ms(k, r, c, RS, CS, RL, CL, err, sz1, sz2);
	for(int d : {-1, 0, 1, 2, 3, INT_MAX}) { if(d == -1) continue;
		err = outcome([&] { auto x = m.template slice<Dynamic, CS, RL, CL>(d, CS, RL, CL); sz1 = x.num_rows(); sz2 = x.num_cols(); }); ms(k, r, c, d, CS, RL, CL, err, sz1, sz2);
		err = outcome([&] { auto x = cm.template slice<RS, CS, RL, Dynamic>(RS, CS, RL, d); sz1 = x.num_rows(); sz2 = x.num_cols(); }); ms(k, r, c, RS, CS, RL, d, err, sz1, sz2); }
}
template<int RS, int RL, class M> void mst2(int k, M& m) { mst1<RS, 0, RL, 2>(k, m); mst1<RS, 1, RL, 2>(k, m); mst1<RS, 2, RL, 1>(k, m); mst1<RS, 2, RL, 2>(k, m); mst1<RS, 3, RL, 1>(k, m); mst1<RS, 3, RL, 0>(k, m); }
template<class M> void mstatic(int k, M& m) { mst2<0, 1>(k, m); mst2<0, 2>(k, m); mst2<0, 3>(k, m); mst2<1, 1>(k, m); mst2<1, 2>(k, m); mst2<2, 1>(k, m); mst2<2, 0>(k, m); mst2<3, 1>(k, m); }
#else
template<class V> void vstatic(int, V&) {}
template<class M> void mstatic(int, M&) {}
#endif
// static size against the run-time argument that repeats it: a mismatch aborts in every build
static void mismatch() {
	auto one = [&](const char* f, bool same, std::function<void()> fn) { int r = in_child(fn); Ev e("mis"); e.str("f", f).b("same", same).i("err", r == 0 ? 0 : r == SIGABRT ? 1 : 2).emit(); };
	Vector<5> v = Zeros; Vector<> d(5); d = Zeros; Matrix<4, 5> m = Zeros;
	for(int a = 0; a <= 3; a++) for(int b = 1; b <= 3; b++) {
		one("vstart", a == 1 && b == 2, [&] { auto x = v.slice<1, 2>(a, b); (void)x; });
		one("dstart", a == 1 && b == 2, [&] { auto x = d.slice<1, 2>(a, b); (void)x; });
		one("dlen", b == 2, [&] { auto x = d.slice<Dynamic, 2>(a, b); (void)x; });
		one("mrow", a == 1 && b == 2, [&] { auto x = m.slice<1, 0, 2, 3>(a, 0, b, 3); (void)x; });
		one("mcol", a == 1 && b == 2, [&] { auto x = m.slice<0, 1, 3, 2>(0, a, 3, b); (void)x; });
	}
}
void part1(Rng& g); void part2(Rng& g); void part3(Rng& g); void part4(Rng& g); void part5(Rng& g);
#if PART == 1
void part1(Rng& g) { mismatch(); for(int k = 0; k < NVK; k++) with_vec<4>(k, rvec(g, 4, -9, 9), [&](auto& v) { vec_dyn(k, v, g, inproc && k < 3); }); }
int main(int argc, char** argv) {
	Args A(argc, argv); Rng g = A.rng(); if(!inproc) g = Rng(A.seed * 31 + A.shard);
	for(long it = 0; it < A.n; it++) {
		typedef void (*P)(Rng&); P ps[] = {part1, part2, part3, part4, part5};
		for(int i = 0; i < 5; i++) if(i % A.shards == A.shard) ps[i](g);
	}
	if(out().n == 0) out().line("{\"op\":\"none\"}");
}
#elif PART == 2
void part2(Rng& g) { for(int k = 0; k < NMK; k++) with_mat<2, 3>(k, rmat(g, 2, 3, -9, 9), [&](auto& m) { mat_dyn(k, m, g); }); }
#elif PART == 3
void part3(Rng& g) { for(int q = 0; q < (inproc ? 3 : 1); q++) { int r = q == 0 ? 0 : g.range(0, 4), c = g.range(0, 4);
	for(int k : {2, 3, 7, 10}) with_dmat(k, rmat(g, r, c, -9, 9), [&](auto& m) { mat_dyn(k, m, g); });
	for(int k : {1, 2, 4, 5}) with_dvec(k, rvec(g, q, -9, 9), [&](auto& v) { vec_dyn(k, v, g, false); }); } }
#elif PART == 4
void part4(Rng& g) { for(int k = 0; k < NVK; k++) with_vec<4>(k, rvec(g, 4, -9, 9), [&](auto& v) { vstatic(k, v); }); }
#elif PART == 5
void part5(Rng& g) { for(int k = 0; k < NMK; k++) with_mat<2, 3>(k, rmat(g, 2, 3, -9, 9), [&](auto& m) { mstatic(k, m); }); }
#endif
