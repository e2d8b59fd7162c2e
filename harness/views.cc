// C01: views of every kind, chained, and what reads and writes through them do.
#include "operands.h"
#include <memory>
#include <typeinfo>
using namespace H;
using namespace TooN;

struct World;
struct HB {
	World* w = nullptr;
	virtual ~HB() {}
	virtual bool mat() const = 0;
	virtual int r() const = 0;
	virtual int c() const = 0;
	virtual std::vector<IVec> reads() = 0;
	virtual void set(int i, int j, long x, int how) = 0;
	virtual void ip(const std::string& f, const IVec& v, int s) = 0;
	virtual HB* derive(const std::string& op, const int a[4]) = 0;     // null: not supported for this type
	virtual bool both(HB& o, const std::string& f) = 0;
	virtual std::vector<std::array<int, 4>> statics() const = 0;       // static slices this type supports
};
struct World {
	std::vector<std::unique_ptr<HB>> hs;
	std::function<IVec()> cells;
	bool flat = true;
};

template<int D, class M> struct HM;
template<int D, class V> struct HV;
template<class T> struct IsMat { static const bool v = false; };
template<int R, int C, class P, class L> struct IsMat<Matrix<R, C, P, L>> { static const bool v = true; static const int rows = R, cols = C; typedef P prec; };
template<class T> struct VecT;
template<int N, class P, class B> struct VecT<Vector<N, P, B>> { static const int size = N; typedef P prec; };
template<int D, class M> HB* wrap_m(M m) { return new HM<D, M>(m); }
template<int D, class V> HB* wrap_v(V v) { return new HV<D, V>(v); }

// M is either a view type (held by value) or a reference to an owner
template<int D, class M> struct HM : HB {
	typedef typename std::decay<M>::type T;
	typedef typename IsMat<T>::prec P;
	static const int R = IsMat<T>::rows, C = IsMat<T>::cols;
	M m;
	explicit HM(M x) : m(x) {}
	bool mat() const override { return true; }
	int r() const override { return m.num_rows(); }
	int c() const override { return m.num_cols(); }
	template<class X> IVec vals(X& x) { IVec v; for(int i = 0; i < r(); i++) for(int j = 0; j < c(); j++) v.push_back(ex(x(i, j))); return v; }
	std::vector<IVec> reads() override {
		std::vector<IVec> o; const T& k = m;
		o.push_back(vals(m)); o.push_back(vals(k));
		IVec a, b, d, e, f, q;
		for(int i = 0; i < r(); i++) for(int j = 0; j < c(); j++) {
			a.push_back(ex(m[i][j])); b.push_back(ex(k[i][j])); d.push_back(ex(k[std::make_pair(i, j)])); e.push_back(ex(k.T()(j, i))); f.push_back(ex(k.T()[j][i])); q.push_back(ex(k.slice(i, j, r() - i, c() - j)(0, 0)));
		}
		for(auto& x : {a, b, d, e, f, q}) o.push_back(x);
		auto dg = k.diagonal_slice(); IVec g = a; for(int i = 0; i < dg.size(); i++) g[i * c() + i] = ex(dg[i]); o.push_back(g);
		Matrix<Dynamic, Dynamic, P> cp(m); o.push_back(getm(cp).d); Matrix<Dynamic, Dynamic, P, ColMajor> cc(k); o.push_back(getm(cc).d);
		return o;
	}
	void set(int i, int j, long x, int how) override { switch(how % 4) { case 0: m(i, j) = P(x); break; case 1: m[i][j] = P(x); break; case 2: m[std::make_pair(i, j)] = P(x); break; default: m.ref()(i, j) = P(x); } }
	void ip(const std::string& f, const IVec& v, int s) override {
		IMat t(r(), c()); if(!v.empty()) t.d = v;
		Matrix<Dynamic, Dynamic, P> a(r(), c()); setm(a, t); Matrix<Dynamic, Dynamic, P, ColMajor> b(r(), c()); setm(b, t);
		if(f == "asg") m = a; else if(f == "asgc") m = b; else if(f == "pluseq") m += a; else if(f == "pluseqc") m += b; else if(f == "minuseq") m -= a; else if(f == "minuseqc") m -= b;
		else if(f == "muleq") m *= P(s); else if(f == "diveq") m /= P(s); else if(f == "zeros") m = Zeros; else if(f == "ones") m = Ones * s; else if(f == "addones") m += Ones * s; else abort();
	}
	std::vector<std::array<int, 4>> statics() const override { std::vector<std::array<int, 4>> o; for(auto x : {std::array<int, 4>{0, 0, 2, 2}, std::array<int, 4>{1, 1, 1, 2}, std::array<int, 4>{1, 0, 2, 3}, std::array<int, 4>{0, 2, 2, 1}}) if(x[0] + x[2] <= r() && x[1] + x[3] <= c()) o.push_back(x); return o; }
	template<int A, int B, int E, int F> HB* ss() {
		if constexpr((R < 0 || A + E <= R) && (C < 0 || B + F <= C)) { auto x = m.template slice<A, B, E, F>(); return wrap_m<D - 1, decltype(x)>(x); }
		else return nullptr;
	}
	HB* derive(const std::string& op, const int a[4]) override {
		if constexpr(D > 0) {
			if(op == "row") { auto x = m[a[0]]; return wrap_v<D - 1, decltype(x)>(x); }
			if(op == "col") { auto x = m.T()[a[0]]; return wrap_v<D - 1, decltype(x)>(x); }
			if(op == "T") { auto x = m.T(); return wrap_m<D - 1, decltype(x)>(x); }
			if(op == "slice") { auto x = m.slice(a[0], a[1], a[2], a[3]); return wrap_m<D - 1, decltype(x)>(x); }
			if(op == "diag") { auto x = m.diagonal_slice(); return wrap_v<D - 1, decltype(x)>(x); }
			if(op == "ref") { auto& x = m.ref(); return new HM<D - 1, decltype(x)>(x); }
			if(op == "sslice") { if(a[0] == 0 && a[1] == 0) return ss<0, 0, 2, 2>(); if(a[0] == 1 && a[1] == 1) return ss<1, 1, 1, 2>(); if(a[0] == 1) return ss<1, 0, 2, 3>(); return ss<0, 2, 2, 1>(); }
		}
		return nullptr;
	}
	bool both(HB& o, const std::string& f) override {
		auto* p = dynamic_cast<HM<D, M>*>(&o); if(!p) return false;
		if(f == "asg") m = p->m; else if(f == "pluseq") m += p->m; else if(f == "minuseq") m -= p->m; else return false;
		return true;
	}
};
template<int D, class V> struct HV : HB {
	typedef typename std::decay<V>::type T;
	typedef typename VecT<T>::prec P;
	static const int N = VecT<T>::size;
	V v;
	explicit HV(V x) : v(x) {}
	bool mat() const override { return false; }
	int r() const override { return 1; }
	int c() const override { return v.size(); }
	std::vector<IVec> reads() override {
		std::vector<IVec> o; const T& k = v;
		o.push_back(getv(v)); o.push_back(getv(k)); IVec a, b, d, e, f, g;
		for(int i = 0; i < c(); i++) { a.push_back(ex(k.as_row()(0, i))); b.push_back(ex(k.as_col()(i, 0))); d.push_back(ex(k.slice(i, c() - i)[0])); e.push_back(ex(k.as_slice()[i])); f.push_back(ex(k.as_diagonal()[i])); g.push_back(ex(v.as_col()[i][0])); }
		for(auto& x : {a, b, d, e, f, g}) o.push_back(x);
		Vector<Dynamic, P> cp(v); o.push_back(getv(cp)); Vector<Resizable, P> cr; cr = k; o.push_back(getv(cr));
		return o;
	}
	void set(int, int j, long x, int how) override { switch(how % 3) { case 0: v[j] = P(x); break; case 1: v.as_diagonal()[j] = P(x); break; default: v.ref()[j] = P(x); } }
	void ip(const std::string& f, const IVec& w, int s) override {
		IVec z = w.empty() ? IVec(c(), 0) : w;
		Vector<Dynamic, P> a(c()); setv(a, z); Matrix<Dynamic, Dynamic, P> bm(c(), 2); bm = Zeros; auto b = bm.T()[1]; setv(b, z);
		if(f == "asg") v = a; else if(f == "asgc") v = b; else if(f == "pluseq") v += a; else if(f == "pluseqc") v += b; else if(f == "minuseq") v -= a; else if(f == "minuseqc") v -= b;
		else if(f == "muleq") v *= P(s); else if(f == "diveq") v /= P(s); else if(f == "zeros") v = Zeros; else if(f == "ones") v = Ones * s; else if(f == "addones") v += Ones * s; else abort();
	}
	std::vector<std::array<int, 4>> statics() const override { std::vector<std::array<int, 4>> o; for(auto x : {std::array<int, 4>{0, 2, 0, 0}, std::array<int, 4>{1, 3, 0, 0}, std::array<int, 4>{2, 1, 0, 0}}) if(x[0] + x[1] <= c()) o.push_back(x); return o; }
	template<int A, int L> HB* ss() { if constexpr(N < 0 || A + L <= N) { auto x = v.template slice<A, L>(); return wrap_v<D - 1, decltype(x)>(x); } else return nullptr; }
	HB* derive(const std::string& op, const int a[4]) override {
		if constexpr(D > 0) {
			if(op == "vslice") { auto x = v.slice(a[0], a[1]); return wrap_v<D - 1, decltype(x)>(x); }
			if(op == "as_row") { auto x = v.as_row(); return wrap_m<D - 1, decltype(x)>(x); }
			if(op == "as_col") { auto x = v.as_col(); return wrap_m<D - 1, decltype(x)>(x); }
			if(op == "as_slice") { auto x = v.as_slice(); return wrap_v<D - 1, decltype(x)>(x); }
			if(op == "ref") { auto& x = v.ref(); return new HV<D - 1, decltype(x)>(x); }
			if(op == "vsslice") { if(a[0] == 0) return ss<0, 2>(); if(a[0] == 1) return ss<1, 3>(); return ss<2, 1>(); }
		}
		return nullptr;
	}
	bool both(HB& o, const std::string& f) override {
		auto* p = dynamic_cast<HV<D, V>*>(&o); if(!p) return false;
		if(f == "asg") v = p->v; else if(f == "pluseq") v += p->v; else if(f == "minuseq") v -= p->v;
		else if(f == "swap") { if(std::is_lvalue_reference<V>::value) return false; swap(v, p->v); }
		else return false;
		return true;
	}
};

static void fin(World& w, Ev& e) { e.v("mem", w.cells()).emit(); }
static void world(World& w, const char* order) { HB& h = *w.hs[0]; Ev e("world"); e.str("t", h.mat() ? "m" : "v").i("r", h.r()).i("c", h.c()).str("order", order); fin(w, e); }
static void do_read(World& w, int k) { HB& h = *w.hs[k]; std::string s = "["; for(auto& x : h.reads()) { if(s.size() > 1) s += ","; s += jv(x); } Ev e("read"); e.i("h", k + 1).str("t", h.mat() ? "m" : "v").i("r", h.r()).i("c", h.c()).raw("reads", s + "]"); fin(w, e); }
static bool do_derive(World& w, int k, const std::string& op, const int a[4]) {
	HB* n = w.hs[k]->derive(op, a); if(!n) return false;
	w.hs.emplace_back(n); Ev e("derive"); e.i("h", k + 1).str("f", op).v("a", std::vector<int>(a, a + 4)).str("t", n->mat() ? "m" : "v").i("r", n->r()).i("c", n->c()); fin(w, e); return true;
}
static void do_drop(World& w, int n) { w.hs.resize(n); Ev e("drop"); e.i("n", n); fin(w, e); }
static void do_set(World& w, int k, int i, int j, long x, int how) { w.hs[k]->set(i, j, x, how); Ev e("set"); e.i("h", k + 1).i("i", i).i("j", j).i("x", x); fin(w, e); }
static void do_ip(World& w, int k, const std::string& f, const IVec& v, int s) { w.hs[k]->ip(f, v, s); Ev e("ip"); e.i("h", k + 1).str("f", f).v("w", v).i("s", s); fin(w, e); }
static void do_both(World& w, int k, int o, const std::string& f) { if(!w.hs[k]->both(*w.hs[o], f)) return; Ev e("both"); e.i("h", k + 1).i("o", o + 1).str("f", f); fin(w, e); }

static void big_reset(World& w, Rng& g) { long b = 0; for(long x : w.cells()) b = std::max(b, labs(x)); if(b > 3000) do_ip(w, 0, "asg", rvec(g, w.hs[0]->r() * w.hs[0]->c(), -20, 20), 0); }
static bool derive_some(World& w, Rng& g, int k, std::string& op, int a[4]) {
	HB& h = *w.hs[k]; int R = h.r(), C = h.c(); a[0] = a[1] = a[2] = a[3] = 0;
	if(h.mat()) {
		op = g.pick(std::vector<std::string>{"row", "col", "T", "slice", "slice", "sslice", "diag", "ref"});
		if(op == "row") { if(!R) return false; a[0] = g.range(0, R - 1); }
		else if(op == "col") { if(!C) return false; a[0] = g.range(0, C - 1); }
		else if(op == "slice") { a[0] = g.range(0, R); a[1] = g.range(0, C); a[2] = g.one_in(6) ? g.range(0, R - a[0]) : R - a[0]; a[3] = g.one_in(3) ? g.range(0, C - a[1]) : C - a[1]; if(g.one_in(2)) { a[0] = g.range(0, R) / 2; a[1] = g.range(0, C) / 2; a[2] = g.range((R - a[0] + 1) / 2, R - a[0]); a[3] = g.range((C - a[1] + 1) / 2, C - a[1]); } }
	} else {
		op = g.pick(std::vector<std::string>{"vslice", "vslice", "vsslice", "as_row", "as_col", "as_slice", "ref"});
		if(op == "vslice") { a[0] = g.range(0, C); a[1] = g.range(0, C - a[0]); if(g.one_in(2)) { a[0] = g.range(0, C) / 2; a[1] = C - a[0]; } }
	}
	if(op == "sslice" || op == "vsslice") { auto s = h.statics(); if(s.empty()) return false; auto x = g.pick(s); for(int i = 0; i < 4; i++) a[i] = x[i]; }
	return true;
}
static void random_world(World& w, Rng& g, int n) {
	std::vector<std::string> ips = {"asg", "asgc", "pluseq", "pluseqc", "minuseq", "minuseqc", "muleq", "diveq", "zeros", "ones", "addones"};
	for(int it = 0; it < n; it++) {
		big_reset(w, g);
		if(w.hs.size() > 10) do_drop(w, g.range(1, 4));
		int k = g.one_in(3) ? g.range(0, (int)w.hs.size() - 1) : (int)w.hs.size() - 1 - g.range(0, std::min<int>(2, w.hs.size() - 1)); HB& h = *w.hs[k]; int R = h.r(), C = h.c();
		std::string op; int a[4];
		switch(g.range(0, 9)) {
		case 0: case 1: case 2: if(derive_some(w, g, k, op, a)) do_derive(w, k, op, a); break;
		case 3: do_read(w, k); break;
		case 4: if(R * C) do_set(w, k, g.range(0, R - 1), g.range(0, C - 1), g.range(-99, 99), g.range(0, 11)); break;
		case 5: case 6: { std::string f = g.pick(ips); int s = f == "muleq" ? g.range(-3, 3) : g.range(-9, 9); IVec v; if(f.substr(0, 3) == "asg" || f.substr(0, 4) == "plus" || f.substr(0, 5) == "minus") v = rvec(g, R * C, -20, 20);
			if(f == "diveq") { do_ip(w, k, "muleq", {}, s ? s : 2); s = s ? s : 2; } do_ip(w, k, f, v, s); break; }
		default: {   // two views of one handle with the same type: separate parts, or exact aliases
			if(h.mat()) {
				if(R < 2 && C < 2) break; size_t s0 = w.hs.size(); bool ok = true;
				int kind = g.range(0, 3);
				if(kind == 0 && R >= 1) { int a1[4] = {g.range(0, R - 1), 0, 0, 0}, a2[4] = {g.range(0, R - 1), 0, 0, 0}; ok = do_derive(w, k, "row", a1) && do_derive(w, k, "row", a2); }
				else if(kind == 1 && C >= 1) { int a1[4] = {g.range(0, C - 1), 0, 0, 0}, a2[4] = {g.range(0, C - 1), 0, 0, 0}; ok = do_derive(w, k, "col", a1) && do_derive(w, k, "col", a2); }
				else if(kind == 2) { int q = R / 2, off = g.range(0, R - 2 * q); int a1[4] = {0, 0, q, C}, a2[4] = {q + off, 0, q, C}; ok = do_derive(w, k, "slice", a1) && do_derive(w, k, "slice", a2); }
				else { int q = C / 2; int a1[4] = {0, 0, R, q}, a2[4] = {0, C - q, R, q}; ok = do_derive(w, k, "slice", a1) && do_derive(w, k, "slice", a2); }
				if(ok) do_both(w, s0, s0 + 1, g.pick(std::vector<std::string>{"asg", "pluseq", "minuseq", "swap", "swap"})); if(w.hs.size() != s0) do_drop(w, (int)s0);
			} else {
				if(C < 2) break; size_t s0 = w.hs.size(); int q = C / 2; int a1[4] = {0, q, 0, 0}, a2[4] = {g.range(q, C - q), q, 0, 0}; if(g.one_in(4)) { a2[0] = 0; }
				if(do_derive(w, k, "vslice", a1) && do_derive(w, k, "vslice", a2)) do_both(w, s0, s0 + 1, g.pick(std::vector<std::string>{"asg", "pluseq", "minuseq", "swap", "swap"}));
				if(w.hs.size() != s0) do_drop(w, (int)s0);
			}
		} }
	}
	do_drop(w, 1); do_read(w, 0);
}
static void script_world(World& w, const Behaviour& b) {
	std::vector<int> map; map.push_back(0);     // specification handle -> our handle, or -1
	int how = 0;
	for(auto& t : b) {
		if(t[0] == "root") continue;
		auto I = [&](int i) { return atoi(t[i].c_str()); };
		if(t[0] == "drop") { int n = I(1); int keep = 1; std::vector<int> m2(map.begin(), map.begin() + n); for(int x : m2) keep = std::max(keep, x + 1); map = m2; do_drop(w, keep); continue; }
		int k = map[I(1) - 1];
		if(t[0] == "derive") { int a[4]; for(int i = 0; i < 4; i++) a[i] = I(3 + i); if(k >= 0 && do_derive(w, k, t[2], a)) map.push_back((int)w.hs.size() - 1); else map.push_back(-1); continue; }
		if(k < 0) continue;
		if(t[0] == "read") do_read(w, k);
		else if(t[0] == "set") do_set(w, k, I(2), I(3), I(4), how++);
		else if(t[0] == "ip") { IVec v; if(t[2].substr(0, 3) == "asg" || t[2].substr(0, 4) == "plus" || t[2].substr(0, 5) == "minus") for(size_t i = 4; i < t.size(); i++) v.push_back(atol(t[i].c_str())); do_ip(w, k, t[2], v, I(3)); }
		else abort();
	}
}

// Owners and wrapped buffers. f(world) drives.
typedef std::function<void(World&)> Drive;
static const int DEP = 3;
template<class O> void own_m(O& o, const char* order, int n, Drive d) { World w; w.cells = [&o, n] { IVec v; for(int i = 0; i < n; i++) v.push_back(ex(o.get_data_ptr()[i])); return v; }; w.hs.emplace_back(new HM<DEP, O&>(o)); IMat t(o.num_rows(), o.num_cols()); for(int i = 0; i < n; i++) t.d[i] = i + 1; setm(o, t); world(w, order); d(w); }
template<class O> void own_v(O& o, Drive d) { World w; int n = o.size(); w.cells = [&o, n] { IVec v; for(int i = 0; i < n; i++) v.push_back(ex(o.get_data_ptr()[i])); return v; }; w.hs.emplace_back(new HV<DEP, O&>(o)); IVec t(n); for(int i = 0; i < n; i++) t[i] = i + 1; setv(o, t); world(w, "row"); d(w); }
template<class P, class M> void wrapped_m(std::vector<P>& buf, M m, const char* order, Drive d) { World w; w.cells = [&buf] { IVec v; for(auto x : buf) v.push_back(ex(x)); return v; }; w.hs.emplace_back(new HM<DEP, M>(m)); world(w, order); d(w); }
template<class P, class M> void wrapped_v(std::vector<P>& buf, M m, Drive d) { World w; w.cells = [&buf] { IVec v; for(auto x : buf) v.push_back(ex(x)); return v; }; w.hs.emplace_back(new HV<DEP, M>(m)); world(w, "row"); d(w); }
template<class P> std::vector<P> cells(int n) { std::vector<P> b(n); for(int i = 0; i < n; i++) b[i] = P(i * 3 - 7); return b; }

void root0(Drive); void root1(Drive); void root2(Drive); void root3(Drive); void root4(Drive); void root5(Drive); void root6(Drive); void root7(Drive);
void root8(Drive); void root9(Drive); void root10(Drive); void root11(Drive); void root12(Drive); void root13(Drive); void root14(Drive); void root15(Drive);
#if PART == 1
void root0(Drive d) { Matrix<3, 4> m; own_m(m, "row", 12, d); }
void root13(Drive d) { Matrix<4, 4, int, ColMajor> m; own_m(m, "col", 16, d); }
#elif PART == 2
void root1(Drive d) { Matrix<3, 4, double, ColMajor> m; own_m(m, "col", 12, d); }
void root8(Drive d) { Vector<7> v; own_v(v, d); }
#elif PART == 3
void root2(Drive d) { Matrix<> m(3, 4); own_m(m, "row", 12, d); }
void root9(Drive d) { Vector<> v(7); own_v(v, d); }
#elif PART == 4
void root3(Drive d) { Matrix<Dynamic, Dynamic, double, ColMajor> m(3, 4); own_m(m, "col", 12, d); }
void root10(Drive d) { Vector<Resizable> v(7); own_v(v, d); }
#elif PART == 5
void root4(Drive d) { Matrix<3, Dynamic> m(3, 4); own_m(m, "row", 12, d); }
void root11(Drive d) { auto b = cells<double>(9); wrapped_v(b, wrapVector<7>(&b[0]), d); }
#elif PART == 6
void root5(Drive d) { Matrix<Dynamic, 4, double, ColMajor> m(3, 4); own_m(m, "col", 12, d); }
void root12(Drive d) { auto b = cells<double>(8); wrapped_v(b, wrapVector(&b[0], 7), d); }
#elif PART == 7
void root6(Drive d) { auto b = cells<double>(14); wrapped_m(b, wrapMatrix<3, 4>(&b[0]), "row", d); }
void root14(Drive d) { auto b = cells<float>(12); wrapped_m(b, Matrix<Dynamic, Dynamic, float, Reference::ColMajor>(&b[0], 3, 4), "col", d); }
#elif PART == 8
void root7(Drive d) { auto b = cells<double>(13); wrapped_m(b, wrapMatrix(&b[0], 3, 4), "row", d); }
void root15(Drive d) { auto b = cells<double>(13); wrapped_m(b, Matrix<3, 4, double, Reference::ColMajor>(&b[0]), "col", d); }
#elif PART == 9
// const buffers and remaining wrappers are only read
static void readonly() {
	auto b = cells<double>(12); const double* p = &b[0]; const std::vector<float> fb = cells<float>(12); const float* q = &fb[0];
	auto ev = [&](const char* t, int r, int c, const char* order, const std::vector<IVec>& rd) { IVec mem; for(double x : b) mem.push_back(ex(x));
		Ev e("world"); e.str("t", t).i("r", r).i("c", c).str("order", order).v("mem", mem).emit(); std::string s = "["; for(auto& x : rd) { if(s.size() > 1) s += ","; s += jv(x); }
		Ev f("read"); f.i("h", 1).str("t", t).i("r", r).i("c", c).raw("reads", s + "]").v("mem", mem).emit(); };
	ev("v", 1, 12, "row", {getv(wrapVector(p, 12)), getv(wrapVector<12>(p)), getv(wrapVector<float>(q, 12)), getv(wrapVector<12, float>(q)), getv(Vector<12, const double, Reference>(p)), getv(Vector<Dynamic, const double, Reference>(p, 12))});
	ev("m", 3, 4, "row", {getm(wrapMatrix(p, 3, 4)).d, getm(wrapMatrix<3, 4>(p)).d, getm(wrapMatrix<3, 4, float>(q)).d, getm(wrapMatrix<float>(q, 3, 4)).d, getm(wrapMatrix<3, Dynamic>(p, 3, 4)).d, getm(wrapMatrix<Dynamic, 4>(p, 3, 4)).d, getm(wrapMatrix<Dynamic, 4, float>(q, 3, 4)).d, getm(Matrix<3, 4, const double, Reference::RowMajor>(p)).d});
	ev("m", 4, 3, "col", {getm(Matrix<4, 3, const double, Reference::ColMajor>(p)).d, getm(Matrix<Dynamic, Dynamic, const double, Reference::ColMajor>(p, 4, 3)).d, getm(Matrix<4, Dynamic, const double, Reference::ColMajor>(p, 4, 3)).d, getm(Matrix<Dynamic, 3, const double, Reference::ColMajor>(p, 4, 3)).d});
}
int main(int argc, char** argv) {
	Args A(argc, argv); Rng g = A.rng();
	std::vector<void (*)(Drive)> roots = {root0, root1, root2, root3, root4, root5, root6, root7, root8, root9, root10, root11, root12, root13, root14, root15};
	if(A.mode == "script") {
		auto S = read_script(A.script);
		for(size_t k = 0; k < S.size(); k++) if((int)(k % A.shards) == A.shard) roots[atoi(S[k][0][1].c_str())]([&](World& w) { script_world(w, S[k]); });
		return 0;
	}
	readonly();
	for(long it = 0; it < A.n; it++) for(auto r : roots) r([&](World& w) { random_world(w, g, 120); });
}
#endif
