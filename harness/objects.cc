// C02, C05: owning objects of every kind, with a counting element type and counted storage blocks.
#include <new>
#include <variant>
#include <memory>
#include <unordered_map>
#include <unordered_set>
#include "operands.h"
using namespace H;
using namespace TooN;

// ---- storage blocks and elements, counted -----------------------------------------------------------
#if PART == 1
long g_blocks = 0, g_bad = 0, g_live = 0;
struct Hdr { long kind; long magic; };
static void* blk(size_t n, long kind) { Hdr* h = (Hdr*)malloc(n + sizeof(Hdr)); if(!h) abort(); h->kind = kind; h->magic = 0x5eedf00d; g_blocks++; return h + 1; }
static void unblk(void* p, long kind) { if(!p) return; Hdr* h = (Hdr*)p - 1; if(h->magic != 0x5eedf00d || h->kind != kind) { g_bad++; if(h->magic != 0x5eedf00d) return; } h->magic = 0xdead; g_blocks--; free(h); }
void* operator new(size_t n) { return blk(n, 1); }
void* operator new[](size_t n) { return blk(n, 2); }
void operator delete(void* p) noexcept { unblk(p, 1); }
void operator delete[](void* p) noexcept { unblk(p, 2); }
void operator delete(void* p, size_t) noexcept { unblk(p, 1); }
void operator delete[](void* p, size_t) noexcept { unblk(p, 2); }
#else
extern long g_blocks, g_bad, g_live;
#endif

// An element that knows whether it has been constructed. Pad makes it big enough for static objects to go on the heap.
template<int Pad> struct Cnt {
	long v; const void* self; char pad[Pad];
	void born() { self = this; g_live++; }
	void use() const { if(self != this) g_bad++; }
	Cnt() : v(0) { born(); }
	Cnt(int x) : v(x) { born(); }
	Cnt(const Cnt& o) : v(o.v) { o.use(); born(); }
	Cnt& operator=(const Cnt& o) { use(); o.use(); v = o.v; return *this; }
	~Cnt() { use(); self = nullptr; g_live--; }
#define TV_B(OP) Cnt operator OP(const Cnt& o) const { use(); o.use(); Cnt r; r.v = v OP o.v; return r; } Cnt& operator OP##=(const Cnt& o) { use(); o.use(); v = v OP o.v; return *this; }
	TV_B(+) TV_B(-) TV_B(*) TV_B(/)
	Cnt operator-() const { use(); Cnt r; r.v = -v; return r; }
	bool operator==(const Cnt& o) const { return v == o.v; }
	bool operator!=(const Cnt& o) const { return v != o.v; }
	bool operator<(const Cnt& o) const { return v < o.v; }
};
namespace TooN { template<int P> struct IsField<Cnt<P>> { static const int value = 1; }; }
template<class T> struct El { static long get(const T& x) { return ex(x); } };
template<int P> struct El<Cnt<P>> { static long get(const Cnt<P>& x) { x.use(); return x.v; } };

template<class T> struct Run {
	typedef Vector<4, T> VS; typedef Vector<Dynamic, T> VD; typedef Vector<Resizable, T> VR;
	typedef Matrix<2, 3, T> MS; typedef Matrix<Dynamic, Dynamic, T> MD; typedef Matrix<Dynamic, Dynamic, T, ColMajor> MC; typedef Matrix<2, Dynamic, T> MH;
	typedef std::variant<std::monostate, std::unique_ptr<VS>, std::unique_ptr<VD>, std::unique_ptr<VR>, std::unique_ptr<MS>, std::unique_ptr<MD>, std::unique_ptr<MC>, std::unique_ptr<MH>> Slot;
	static const char* name(int k) { static const char* n[] = {"", "VS", "VD", "VR", "MS", "MD", "MC", "MH"}; return n[k]; }
	static int kind(const std::string& s) { for(int i = 1; i < 8; i++) if(s == name(i)) return i; abort(); }
	static bool isvec(int k) { return k >= 1 && k <= 3; }
	template<class X> struct IsV { static const bool v = false; };
	template<int N, class B> struct IsV<Vector<N, T, B>> { static const bool v = true; };
	struct S { Slot o; bool moved = false; int r = 0, c = 0; };
	std::vector<S> t;
	long base_blocks = 0, base_live = 0;

	template<class F> static void visit(Slot& s, F f) { std::visit([&](auto& p) { if constexpr(!std::is_same<std::decay_t<decltype(p)>, std::monostate>::value) f(*p); }, s); }
	static int rows(Slot& s) { int r = 0; visit(s, [&](auto& x) { if constexpr(IsV<std::decay_t<decltype(x)>>::v) r = 1; else r = x.num_rows(); }); return r; }
	static int cols(Slot& s) { int r = 0; visit(s, [&](auto& x) { if constexpr(IsV<std::decay_t<decltype(x)>>::v) r = x.size(); else r = x.num_cols(); }); return r; }
	static IVec data(Slot& s) { IVec d; visit(s, [&](auto& x) { if constexpr(IsV<std::decay_t<decltype(x)>>::v) { for(int i = 0; i < x.size(); i++) d.push_back(El<T>::get(x[i])); } else for(int i = 0; i < x.num_rows(); i++) for(int j = 0; j < x.num_cols(); j++) d.push_back(El<T>::get(x(i, j))); }); return d; }
	int K(int s) { return (int)t[s].o.index(); }
	bool ok(int s) { return K(s) && !t[s].moved; }
	void log(Ev& e) {
		std::string j = "[";
		for(auto& s : t) { if(j.size() > 1) j += ","; bool none = s.o.index() == 0; if(!none && !s.moved) { s.r = rows(s.o); s.c = cols(s.o); }
			j += "{\"k\":" + jq(name((int)s.o.index())) + ",\"st\":" + (none ? "\"none\"" : s.moved ? "\"moved\"" : "\"ok\"") + ",\"r\":" + std::to_string(none ? 0 : s.r) + ",\"c\":" + std::to_string(none ? 0 : s.c) + ",\"d\":" + (none || s.moved ? std::string("[]") : jv(data(s.o))) + "}"; }
		e.raw("objs", j + "]").i("live", std::is_same<T, double>::value ? 100000 : g_live).i("bad", g_bad).emit();
	}
	// construct slot s of kind k from any value
	template<class X> void make(int s, int k, X&& x, bool vec) {
		if constexpr(IsV<std::decay_t<X>>::v) { switch(k) { case 1: t[s].o = std::make_unique<VS>(x); break; case 2: t[s].o = std::make_unique<VD>(x); break; case 3: t[s].o = std::make_unique<VR>(x); break; default: abort(); } }
		else switch(k) { case 4: t[s].o = std::make_unique<MS>(x); break; case 5: t[s].o = std::make_unique<MD>(x); break; case 6: t[s].o = std::make_unique<MC>(x); break; case 7: t[s].o = std::make_unique<MH>(x); break; default: abort(); }
		t[s].moved = false;
	}
	template<class X> void assign(int s, X&& x) { visit(t[s].o, [&](auto& d) { if constexpr(IsV<std::decay_t<decltype(d)>>::v == IsV<std::decay_t<X>>::v) d = x; else abort(); }); t[s].moved = false; }
	// call g with the source expression f applied to slot o
	template<class G> void source(const std::string& f, int o, int p, int n, G g) {
		visit(t[o].o, [&](auto& x) {
			if constexpr(IsV<std::decay_t<decltype(x)>>::v) {
				if(f == "id") g(x); else if(f == "slice") { auto v = x.slice(p, n); g(v); } else if(f == "neg") g(-x); else if(f == "twice") g(x + x); else if(f == "scale") g(x * T(p));
				else if(f == "gram") { Matrix<Dynamic, Dynamic, T> m(n, x.size()); for(int i = 0; i < n; i++) for(int j = 0; j < x.size(); j++) m(i, j) = T(p); g(m * x); } else abort();
			} else {
				if(f == "id") g(x); else if(f == "T") { auto v = x.T(); g(v); } else if(f == "row") { auto v = x[p]; g(v); } else if(f == "neg") g(-x); else if(f == "twice") g(x + x); else if(f == "scale") g(x * T(p)); else abort();
			}
		});
	}
	static bool vecval(const std::string& f, bool v) { return v || f == "row"; }
	template<class X> static X by_value(X x) { X y(x); return y; }
	void ctor(int s, int k, const IMat& m) {
		int err = attempt([&] {
			if(isvec(k)) { if(k == 1 && m.c != 4) { Vector<Dynamic, T> v(m.c); make(s, k, v, true); } else { switch(k) { case 1: t[s].o = std::make_unique<VS>(); break; case 2: t[s].o = std::make_unique<VD>(m.c); break; default: t[s].o = std::make_unique<VR>(m.c); } } }
			else switch(k) { case 4: t[s].o = std::make_unique<MS>(); break; case 5: t[s].o = std::make_unique<MD>(m.r, m.c); break; case 6: t[s].o = std::make_unique<MC>(m.r, m.c); break; default: t[s].o = std::make_unique<MH>(m.r, m.c); }
			visit(t[s].o, [&](auto& x) { if constexpr(IsV<std::decay_t<decltype(x)>>::v) for(int i = 0; i < m.c; i++) x[i] = T((int)m.d[i]); else for(int i = 0; i < m.r; i++) for(int j = 0; j < m.c; j++) x(i, j) = T((int)m.at(i, j)); });
		});
		t[s].moved = false; Ev e("ctor"); e.i("s", s + 1).str("k", name(k)).raw("m", m.json()).i("err", err); log(e);
	}
	void ctorf(int s, int k, const std::string& f, int o, int p, int n, bool viaret = false) {
		int err = attempt([&] { source(f, o, p, n, [&](auto&& x) { typedef std::decay_t<decltype(x)> X; if constexpr(std::is_same<X, VS>::value || std::is_same<X, VD>::value || std::is_same<X, VR>::value || std::is_same<X, MS>::value || std::is_same<X, MD>::value || std::is_same<X, MC>::value) { if(viaret) { make(s, k, by_value<X>(x), true); return; } } make(s, k, x, true); }); });
		Ev e("ctorf"); e.i("s", s + 1).str("k", name(k)).str("f", f).i("o", o + 1).i("p", p).i("n", n).i("err", err); log(e);
	}
	void asgf(int s, const std::string& f, int o, int p, int n) {
		int err = attempt([&] { source(f, o, p, n, [&](auto&& x) { assign(s, x); }); });
		Ev e("asgf"); e.i("s", s + 1).str("f", f).i("o", o + 1).i("p", p).i("n", n).i("err", err); log(e);
	}
	// assignment of sized and unsized constants and lists, as values
	void asgv(int s, const char* how, const IMat& m, std::function<void()> f) { int err = attempt(f); if(!err) t[s].moved = false; Ev e("asg"); e.i("s", s + 1).str("how", how).raw("m", m.json()).i("err", err); log(e); }
	void move(int s, int o) {
		int err = attempt([&] { visit(t[o].o, [&](auto& x) { typedef std::decay_t<decltype(x)> X; t[s].o = std::make_unique<X>(std::move(x)); }); });
		t[s].moved = false; t[s].r = t[o].r; t[s].c = t[o].c; t[o].moved = true; Ev e("move"); e.i("s", s + 1).i("o", o + 1).i("err", err); log(e);
	}
	void moveasg(int s, int o) {
		int err = attempt([&] { visit(t[o].o, [&](auto& x) { typedef std::decay_t<decltype(x)> X; *std::get<std::unique_ptr<X>>(t[s].o) = std::move(x); }); });
		if(!err) { t[s].moved = false; t[o].moved = true; } Ev e("moveasg"); e.i("s", s + 1).i("o", o + 1).i("err", err); log(e);
	}
	void swp(int s, int o, bool std_swap) {
		int err = attempt([&] { visit(t[s].o, [&](auto& a) { visit(t[o].o, [&](auto& b) { typedef std::decay_t<decltype(a)> A; typedef std::decay_t<decltype(b)> B; 
			if constexpr(std::is_same<A, B>::value) { if(std_swap) std::swap(a, b); else { using std::swap; swap(a, b); } }
			else if constexpr(IsV<A>::v && IsV<B>::v) { swap(a, b); } else abort(); }); }); });
		Ev e("swap"); e.i("s", s + 1).i("o", o + 1).i("err", err); log(e);
	}
	void ip(int s, const std::string& f, const IMat& m, int x) {
		int err = attempt([&] { visit(t[s].o, [&](auto& a) {
			if constexpr(IsV<std::decay_t<decltype(a)>>::v) { VD v(m.c); for(int i = 0; i < m.c; i++) v[i] = T((int)m.d[i]); if(f == "pluseq") a += v; else if(f == "minuseq") a -= v; }
			else { MC v(m.r, m.c); for(int i = 0; i < m.r; i++) for(int j = 0; j < m.c; j++) v(i, j) = T((int)m.at(i, j)); if(f == "pluseq") a += v; else if(f == "minuseq") a -= v; }
			if(f == "muleq") a *= T(x); else if(f == "zeros") a = Zeros; else if(f == "ones") a = Ones * x; else if(f == "addones") a += Ones * x; }); });
		Ev e("ip"); e.i("s", s + 1).str("f", f).raw("m", m.json()).i("x", x).i("err", err); log(e);
	}
	void ipo(int s, const std::string& f, int o) {
		int err = attempt([&] { visit(t[s].o, [&](auto& a) { visit(t[o].o, [&](auto& b) { if constexpr(IsV<std::decay_t<decltype(a)>>::v == IsV<std::decay_t<decltype(b)>>::v) { if(f == "pluseq") a += b; else a -= b; } else abort(); }); }); });
		Ev e("ipo"); e.i("s", s + 1).str("f", f).i("o", o + 1).i("err", err); log(e);
	}
	void write(int s, int i, int j, int x, int how) {
		visit(t[s].o, [&](auto& a) { if constexpr(IsV<std::decay_t<decltype(a)>>::v) { switch(how % 3) { case 0: a[j] = T(x); break; case 1: { auto v = a.slice(j, 1); v[0] = T(x); break; } default: a.as_row()(0, j) = T(x); } } else { switch(how % 3) { case 0: a(i, j) = T(x); break; case 1: { auto v = a.T(); v(j, i) = T(x); break; } default: a[i][j] = T(x); } } });
		Ev e("write"); e.i("s", s + 1).i("i", i).i("j", j).i("x", x); log(e);
	}
	void resize(int s, int n) {
		auto& v = *std::get<std::unique_ptr<VR>>(t[s].o); int old = t[s].moved ? 0 : v.size(); v.resize(n); t[s].moved = false; IVec d = data(t[s].o);
		Ev e("resize"); e.i("s", s + 1).i("n", n).v("d", d); log(e);
		for(int i = old; i < n; i++) write(s, 0, i, i + 1, i);
	}
	void destroy(int s) { t[s].o = std::monostate(); t[s].moved = false; Ev e("destroy"); e.i("s", s + 1); log(e); }
	template<class X> void algo(Rng& g, std::function<X(Rng&, std::vector<long>&)> mk, std::function<IVec(X&)> rd) {
		std::vector<X> v; int n = g.range(2, 40); std::string f = g.pick(std::vector<std::string>{"sort", "reverse", "erase", "insert", "rotate", "copy"}); int p = g.range(0, n - 1);
		for(int i = 0; i < n; i++) { std::vector<long> d; v.push_back(mk(g, d)); }
		auto dump = [&](std::vector<X>& v) { std::string s = "["; for(auto& x : v) { if(s.size() > 1) s += ","; s += jv(rd(x)); } return s + "]"; };
		std::string in = dump(v);
		if(f == "sort") std::sort(v.begin(), v.end(), [&](const X& a, const X& b) { return rd(const_cast<X&>(a))[0] < rd(const_cast<X&>(b))[0]; });
		else if(f == "reverse") std::reverse(v.begin(), v.end()); else if(f == "erase") v.erase(v.begin() + p); else if(f == "insert") { X c(v[0]); v.insert(v.begin() + p, c); } else if(f == "rotate") std::rotate(v.begin(), v.begin() + p, v.end()); else { std::vector<X> w(v); v = w; }
		std::string ou = dump(v); Ev e("algo"); e.str("f", f).i("p", p).raw("inn", in).raw("out", ou); log(e);
	}
	void algos(Rng& g) {
		auto rv = [](auto& x) { IVec d; for(int i = 0; i < x.size(); i++) d.push_back(El<T>::get(x[i])); return d; };
		auto rm = [](auto& x) { IVec d; for(int i = 0; i < x.num_rows(); i++) for(int j = 0; j < x.num_cols(); j++) d.push_back(El<T>::get(x(i, j))); return d; };
		switch(g.range(0, 4)) {
		case 0: algo<VD>(g, [](Rng& g, std::vector<long>&) { VD v(2); v[0] = T(g.range(-9, 9)); v[1] = T(g.range(-9, 9)); return v; }, rv); break;
		case 1: algo<VR>(g, [](Rng& g, std::vector<long>&) { VR v(g.range(1, 4)); for(int i = 0; i < v.size(); i++) v[i] = T(g.range(-9, 9)); return v; }, rv); break;
		case 2: algo<VS>(g, [](Rng& g, std::vector<long>&) { VS v; for(int i = 0; i < v.size(); i++) v[i] = T(g.range(-9, 9)); return v; }, rv); break;
		case 3: algo<MD>(g, [](Rng& g, std::vector<long>&) { MD v(1, 3); for(int i = 0; i < 3; i++) v(0, i) = T(g.range(-9, 9)); return v; }, rm); break;
		default: algo<MS>(g, [](Rng& g, std::vector<long>&) { MS v; for(int i = 0; i < 2; i++) for(int j = 0; j < 3; j++) v(i, j) = T(g.range(-9, 9)); return v; }, rm); break;
		}
	}
	void start(int n) { t.clear(); t.shrink_to_fit(); base_blocks = g_blocks; base_live = g_live; t.resize(n); Ev e("world"); e.i("n", n); log(e); }
	void finish() { size_t n = t.size(); t.clear(); t.shrink_to_fit(); long b = g_blocks - base_blocks, lv = g_live - base_live; (void)n; Ev e("end"); e.i("live", lv).i("blocks", b).i("bad", g_bad).emit(); }

	void random(Rng& g, int steps, bool resizable) {
		start(6);
		for(int it = 0; it < steps; it++) {
			int s = g.range(0, 5), o = g.range(0, 5);
			if(!K(s)) {
				if(g.coin() || !ok(o)) { int k = resizable && g.coin() ? 3 : g.range(1, 7); IMat m; switch(k) { case 1: m = rmat(g, 1, g.one_in(8) ? g.range(0, 5) : 4, -9, 9); break; case 2: case 3: m = rmat(g, 1, g.range(0, 6), -9, 9); break; case 4: m = rmat(g, 2, 3, -9, 9); break; case 7: m = rmat(g, 2, g.range(0, 4), -9, 9); break; default: m = rmat(g, g.range(0, 4), g.range(0, 4), -9, 9); }
					ctor(s, k, m); continue; }
			}
			if(!ok(o)) continue;
			bool vo = isvec(K(o)); long big = 0; for(long x : data(t[o].o)) big = std::max(big, labs(x));
			if(big > 3000) { ip(o, "zeros", IMat(rows(t[o].o), cols(t[o].o)), 0); continue; }
			int z = g.range(0, 11);
			std::string f = vo ? g.pick(std::vector<std::string>{"id", "id", "slice", "neg", "twice", "scale", "gram"}) : g.pick(std::vector<std::string>{"id", "id", "T", "row", "neg", "twice", "scale"});
			int R = rows(t[o].o), C = cols(t[o].o), p = g.range(-3, 3), n = g.range(1, 5);
			if(f == "slice") { p = g.range(0, C); n = g.range(0, C - p); } if(f == "row") { if(!R) continue; p = g.range(0, R - 1); }
			bool vv = vecval(f, vo);
			if(!K(s)) { if(z < 9) ctorf(s, vv ? g.range(1, 3) : g.range(4, 7), f, o, p, n, g.coin()); else if(s != o) move(s, o); continue; }
			if(z <= 3) {
				if(isvec(K(s)) != vv) continue;
				if(t[s].moved && K(s) != 3) { // same size only
					int c2 = f == "slice" || f == "gram" ? n : f == "row" ? C : f == "T" ? R : C, r2 = vv ? 1 : f == "T" ? C : R; if(c2 != t[s].c || r2 != t[s].r) continue; }
				if(s == o && (f == "T" || f == "slice") && !(f == "slice" && K(s) == 3)) continue;
				asgf(s, f, o, p, n);
			} else if(z == 4) { if(s != o && K(s) == K(o) && (!t[s].moved || K(s) == 3 || (t[s].r == R && t[s].c == C))) moveasg(s, o); }
			else if(z == 5 || z == 6) { if(ok(s) && isvec(K(s)) == vo && (vo || K(s) == K(o)) && s != o) swp(s, o, K(s) == K(o) && g.coin()); }
			else if(z == 7) { if(ok(s) && isvec(K(s)) == vo) ipo(s, g.coin() ? "pluseq" : "minuseq", o); }
			else if(z == 8) { if(ok(s)) { int r = rows(t[s].o), c = cols(t[s].o); std::string f = g.pick(std::vector<std::string>{"pluseq", "minuseq", "muleq", "zeros", "ones", "addones"}); if(g.one_in(3)) c = std::max(0, c + g.range(-1, 1)); ip(s, f, rmat(g, r, c, -9, 9), g.range(-2, 2)); } }
			else if(z == 9) { if(ok(s)) { int r = rows(t[s].o), c = cols(t[s].o); if(r * c) write(s, g.range(0, r - 1), g.range(0, c - 1), g.range(-99, 99), g.range(0, 2)); } }
			else if(z == 10) { if(K(s) == 3) {
				int n = g.range(0, 7); VR& v = *std::get<std::unique_ptr<VR>>(t[s].o); auto con = [&](int n, long x) { IMat m(1, n); for(auto& y : m.d) y = x; return m; };
				switch(g.range(0, 7)) {
				case 0: case 1: case 2: resize(s, n); break;
				case 3: asgv(s, "Zeros(n)", con(n, 0), [&] { v = Zeros(n); }); break;
				case 4: asgv(s, "Ones(n)", con(n, 3), [&] { v = Ones(n) * 3; }); break;
				case 5: if(ok(s)) asgv(s, "Ones", con(v.size(), 1), [&] { v = Ones; }); break;
				case 6: if(ok(s)) asgv(s, "Zeros", con(v.size(), 0), [&] { v = Zeros; }); break;
				default: { IMat m(1, 3); m.d = {4, 5, 6}; asgv(s, "makeVector", m, [&] { v = Vector<3, T>(makeVector(T(4), T(5), T(6))); }); } } } }
			else { if(g.coin()) destroy(s); else if(g.one_in(3)) algos(g); }
		}
		finish();
	}
	void script(const Behaviour& b) {
		start(5);
		int how = 0;
		for(auto& x : b) { auto I = [&](int i) { return atoi(x[i].c_str()); };
			if(x[0] == "skip") continue; int s = I(1) - 1;
			if(x[0] == "ctor") { IMat m(I(3), I(4)); for(size_t i = 0; i < m.d.size(); i++) m.d[i] = I(5 + i); ctor(s, kind(x[2]), m); }
			else if(x[0] == "ctorf") ctorf(s, kind(x[2]), x[3], I(4) - 1, I(5), I(6), ++how & 1);
			else if(x[0] == "asgf") asgf(s, x[2], I(3) - 1, I(4), I(5));
			else if(x[0] == "move") move(s, I(2) - 1); else if(x[0] == "moveasg") moveasg(s, I(2) - 1);
			else if(x[0] == "swap") swp(s, I(2) - 1, K(s) == K(I(2) - 1) && (++how & 1)); else if(x[0] == "ipo") ipo(s, x[2], I(3) - 1);
			else if(x[0] == "write") write(s, I(2), I(3), I(4), how++); else if(x[0] == "resize") resize(s, I(2)); else if(x[0] == "destroy") destroy(s); else abort(); }
		finish();
	}
};
struct Task { bool scr; bool resizable; int n; const Behaviour* b; };
void part1(Rng&, const Task&); void part2(Rng&, const Task&); void part3(Rng&, const Task&);
template<class T> void go(Rng& g, const Task& k) { Run<T> r; if(k.scr) r.script(*k.b); else r.random(g, k.n, k.resizable); }
#if PART == 1
void part1(Rng& g, const Task& k) { go<double>(g, k); }
#elif PART == 2
void part2(Rng& g, const Task& k) { go<Cnt<1>>(g, k); }
#elif PART == 3
void part3(Rng& g, const Task& k) { go<Cnt<400>>(g, k); }
int main(int argc, char** argv) {
	Args A(argc, argv); Rng g = A.rng();
	typedef void (*P)(Rng&, const Task&); P ps[] = {part1, part2, part3};
	if(A.mode == "script") { auto S = read_script(A.script); for(size_t k = 0; k < S.size(); k++) if((int)(k % A.shards) == A.shard) ps[(k / A.shards) % 3](g, Task{true, false, 0, &S[k]}); return 0; }
	for(long i = 0; i < A.n; i++) for(P p : ps) p(g, Task{false, A.mode == "resize", 250, nullptr});
}
#endif
