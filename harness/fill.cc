// C08: Fill, Data, makeVector and initializer lists.
#include "operands.h"
using namespace H;
using namespace TooN;
#ifdef TOON_TEST_INTERNALS
static const bool inproc = true;
#else
static const bool inproc = false;
#endif
inline bool quiet = false;
inline std::function<IVec()> snapshot;
// called for every value, in order, as the fill proceeds
template<class P> P put(int i, long x) { if(!quiet) { Ev e("fput"); e.i("i", i).v("cur", snapshot()).emit(); } return P(x); }
template<class P, class O, size_t... I> void fill_(O& o, const IVec& x, std::index_sequence<I...>) { ((Fill(o) = put<P>(0, x[0])), ..., put<P>(I + 1, x[I + 1])); }
template<class P, class O, size_t... I> void data_(O& o, const IVec& x, std::index_sequence<I...>) { o = Data(P(x[I])...); }
template<class M> IVec cells(const M& m) { return getm(m).d; }
struct Kind { int kind, r, c; bool vec; };

// Run a filling expression: first in a child (a short fill aborts, as documented), then here when it is accepted or throws.
template<class O, class F> void attempt_fill(const char* how, Kind kd, O& o, int size, const IVec& x, std::function<IVec()> get, std::function<void(long)> set, F f) {
	quiet = true; set(-5);
	int r = in_child([&] { f(); });
	quiet = false;
	int err = r == 0 ? 0 : r == 1009 ? 1 : r == SIGABRT ? 2 : 3;      // accepted, exception, abort, something else
	bool here = r == 0 || r == 1009;
	set(-5); snapshot = get;
	{ Ev e("fbegin"); e.str("how", how).i("kind", kd.kind).i("r", kd.r).i("c", kd.c).b("vec", kd.vec).i("size", size).v("x", x).v("pre", get()).emit(); }
	if(here) { int e2 = attempt(f); if(e2 != (r == 0 ? 0 : 1)) err = 3; }
	Ev e("fend"); e.b("rej", err == 1 || err == 2).b("odd", err == 3).b("seen", here).v("res", get()).emit();
}
template<int K, class P, bool Static, int N, class V> void vk(int kind, V& v, Rng& g) {
	IVec x = rvec(g, K, 10, 99); int n = v.size();
	auto get = [&] { return getv(v); }; auto set = [&](long y) { for(int i = 0; i < n; i++) v[i] = P(y - i); };
	if constexpr(inproc || !Static || K <= N) attempt_fill("Fill", {kind, n, 1, true}, v, n, x, get, set, [&] { fill_<P>(v, x, std::make_index_sequence<K - 1>()); });
	if constexpr(inproc || !Static || K == N) attempt_fill("Data", {kind, n, 1, true}, v, n, x, get, set, [&] { data_<P>(v, x, std::make_index_sequence<K>()); });
}
template<int K, class P, bool Static, int N, class M> void mk(int kind, M& m, Rng& g) {
	IVec x = rvec(g, K, 10, 99); int n = m.num_rows() * m.num_cols();
	auto get = [&] { return cells(m); }; auto set = [&](long y) { for(int i = 0; i < m.num_rows(); i++) for(int j = 0; j < m.num_cols(); j++) m(i, j) = P(y - i * m.num_cols() - j); };
	if constexpr(inproc || !Static || K <= N) attempt_fill("Fill", {kind, m.num_rows(), m.num_cols(), false}, m, n, x, get, set, [&] { fill_<P>(m, x, std::make_index_sequence<K - 1>()); });
	if constexpr(inproc || !Static || K == N) attempt_fill("Data", {kind, m.num_rows(), m.num_cols(), false}, m, n, x, get, set, [&] { data_<P>(m, x, std::make_index_sequence<K>()); });
}
static void guardev(const char* f, bool g) { Ev e("guards"); e.str("f", f).b("g", g).emit(); }
template<int N, class P, int KIND> void vkind(Rng& g) {
	constexpr bool st = KIND == 0 || KIND == 3 || KIND == 6 || KIND == 7;
	bool ok = VK<N, P, KIND>::go(rvec(g, N, 1, 5), [&](auto& v) {
		if constexpr(N > 2) vk<N - 2, P, st, N>(KIND, v, g);
		if constexpr(N > 1) vk<N - 1, P, st, N>(KIND, v, g);
		vk<N, P, st, N>(KIND, v, g); vk<N + 1, P, st, N>(KIND, v, g); vk<N + 2, P, st, N>(KIND, v, g); });
	guardev("v", ok);
}
template<int N, class P> void vkinds(Rng& g) { vkind<N, P, 0>(g); vkind<N, P, 1>(g); vkind<N, P, 2>(g); vkind<N, P, 3>(g); vkind<N, P, 4>(g); vkind<N, P, 5>(g); vkind<N, P, 6>(g); vkind<N, P, 7>(g); }
template<int R, int C, class P, int KIND> void mkind(Rng& g) {
	constexpr bool st = KIND == 0 || KIND == 1 || KIND == 6 || KIND == 8 || KIND == 9; constexpr int N = R * C;
	bool ok = MK<R, C, P, KIND>::go(rmat(g, R, C, 1, 5), [&](auto& m) {
		if constexpr(N > C && C > 1) mk<N - C, P, st, N>(KIND, m, g);
		if constexpr(N > 1) mk<N - 1, P, st, N>(KIND, m, g);
		mk<N, P, st, N>(KIND, m, g); mk<N + 1, P, st, N>(KIND, m, g); if(g.coin()) mk<N + C, P, st, N>(KIND, m, g); });
	guardev("m", ok);
}
template<int R, int C, class P> void mkinds(Rng& g) {
	mkind<R, C, P, 0>(g); mkind<R, C, P, 1>(g); mkind<R, C, P, 2>(g); mkind<R, C, P, 3>(g); mkind<R, C, P, 4>(g); mkind<R, C, P, 5>(g);
	mkind<R, C, P, 6>(g); mkind<R, C, P, 7>(g); mkind<R, C, P, 8>(g); mkind<R, C, P, 9>(g); mkind<R, C, P, 10>(g); mkind<R, C, P, 11>(g);
}
static void made(const char* how, const IVec& x, int size, const IVec& res) { Ev e("made"); e.str("how", how).v("x", x).i("size", size).v("res", res).emit(); }
template<class P, size_t... I> void mkv(Rng& g, std::index_sequence<I...>) {
	constexpr int K = sizeof...(I); IVec x = rvec(g, K, -99, 99); auto v = makeVector(P(x[I])...);
	static_assert(decltype(v)::SizeParameter == K, "length"); made("makeVector", x, v.size(), getv(v));
	Vector<> d = makeVector(P(x[I])...); made("makeVectorD", x, d.size(), getv(d));
	Vector<K, P> s; s = Data(P(x[I])...); made("DataV", x, s.size(), getv(s));
	Matrix<K, 1, P> mc = Data(P(x[I])...); made("DataCol", x, mc.num_rows(), getm(mc).d);
	Matrix<1, K, P> mr = Data(P(x[I])...); made("DataRow", x, mr.num_cols(), getm(mr).d);
	Vector<Resizable, P> il = {P(x[I])...}; made("ilR", x, il.size(), getv(il));
	Vector<Dynamic, P> id = {P(x[I])...}; made("ilD", x, id.size(), getv(id));
	if constexpr(K > 1) { Vector<K, P> is({P(x[I])...}); made("ilS", x, is.size(), getv(is)); }
	il = {P(x[K - 1 - I])...}; made("ilAsg", IVec(x.rbegin(), x.rend()), il.size(), getv(il));
	Vector<Resizable, P> e2 = {P(1), P(2)}; e2 = {P(x[I])...}; made("ilAsgR", x, e2.size(), getv(e2));
}
template<class P, int... K> void mkvs(Rng& g, std::integer_sequence<int, K...>) { (mkv<P>(g, std::make_index_sequence<K + 1>()), ...); }
void part1(Rng& g); void part2(Rng& g); void part3(Rng& g); void part4(Rng& g); void part5(Rng& g); void part6(Rng& g); void part7(Rng& g);
#if PART == 1
void part1(Rng& g) { vkinds<1, double>(g); vkinds<2, int>(g); vkinds<5, float>(g); }
int main(int argc, char** argv) {
	Args A(argc, argv); Rng g = A.rng();
	for(long it = 0; it < A.n; it++) {
		typedef void (*P)(Rng&); P ps[] = {part1, part2, part3, part4, part5, part6, part7};
		for(int i = 0; i < 7; i++) if(i % A.shards == A.shard) ps[i](g);
	}
	if(out().n == 0) out().line("{\"op\":\"none\"}");
}
#elif PART == 2
void part2(Rng& g) { mkinds<1, 1, double>(g); mkinds<1, 3, double>(g); }
#elif PART == 3
void part3(Rng& g) { mkinds<3, 1, double>(g); }
#elif PART == 4
void part4(Rng& g) { mkinds<2, 3, float>(g); }
#elif PART == 5
void part5(Rng& g) { mkinds<4, 3, double>(g); }
#elif PART == 6
void part6(Rng& g) { vkinds<3, double>(g); mkinds<2, 2, int>(g);
	{ auto v = makeVector(1, 2.5, 3); made("mixed", {2, 5, 6}, v.size(), getv(Vector<3>(v * 2))); }
	{ Matrix<2> m = Data(1, 2.0, 3, 4.f); made("mixedD", {1, 2, 3, 4}, 4, getm(m).d); }
	{ Vector<0> z; (void)z; made("empty", {}, z.size(), getv(z)); }
	{ const double a[] = {4, 5, 6}; Vector<3> v(a); made("array", {4, 5, 6}, v.size(), getv(v)); }
	{ Vector<Resizable> v = {}; made("ilEmpty", {}, v.size(), getv(v)); } }
#elif PART == 7
void part7(Rng& g) { mkvs<double>(g, std::make_integer_sequence<int, 30>()); mkvs<int>(g, std::make_integer_sequence<int, 8>()); mkvs<float>(g, std::make_integer_sequence<int, 8>()); }
#endif
