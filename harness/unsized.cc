// C07: Zeros, Ones, Identity and their sized and scaled forms on every kind of destination.
#include "operands.h"
using namespace H;
using namespace TooN;

// Scaled forms of a named constant. f(op) is called with the operator object.
struct CSpec { std::string what; int form, s, dv; };
template<class O, class F> void scaled(const O& o, const CSpec& c, F f) {
	switch(c.form) {
		case 0: f(o); break;
		case 1: f(o * c.s); break;
		case 2: f(c.s * o); break;
		case 3: f(-o); break;
		case 4: f(o * c.s / c.dv); break;
		case 5: f((double)c.s * o / (double)c.dv); break;
		case 6: f(o * (float)c.s); break;
		default: f(-(o * c.s)); break;
	}
}
static CSpec rspec(Rng& g, const std::string& what) {
	CSpec c; c.what = what; c.form = what == "Zeros" ? 0 : g.range(0, 7); c.dv = 1; c.s = g.range(-5, 5);
	if(c.form == 0) c.s = 1; else if(c.form == 3) c.s = -1;
	if(c.form == 4 || c.form == 5) { c.dv = g.pick(std::vector<int>{1, 2, 4, -2, 3}); c.s *= c.dv; }
	return c;
}
static void put(Ev& e, const CSpec& c) { e.str("what", c.what).i("form", c.form).i("s", c.form == 7 ? -c.s : c.s).i("dv", c.dv); }

template<class M> void msteps(M& m, Rng& g, int n, bool square) {
	{ Ev e("new"); e.raw("m", getm(m).json()).emit(); }
	for(int i = 0; i < n; i++) {
		int w = g.range(0, square ? 3 : 1);
		std::string what = w == 0 ? "Zeros" : w == 1 ? "Ones" : "Identity";
		CSpec c = rspec(g, what);
		std::string how; IMat x;
		if(what == "Zeros") { how = "asg"; m = Zeros; }
		else if(what == "Ones") scaled(Ones, c, [&](const auto& o) { switch(g.range(0, 6)) {
			case 0: how = "asg"; m = o; break; case 1: how = "pluseq"; m += o; break; case 2: how = "minuseq"; m -= o; break;
			case 3: { how = "add"; auto r = m + o; x = getm(r); break; } case 4: { how = "addl"; auto r = o + m; x = getm(r); break; }
			case 5: { how = "sub"; auto r = m - o; x = getm(r); break; } default: { how = "subl"; auto r = o - m; x = getm(r); } } });
		else scaled(Identity, c, [&](const auto& o) { switch(g.range(0, 5)) {
			case 0: how = "asg"; m = o; break; case 1: how = "pluseq"; m += o; break;
			case 2: { how = "add"; auto r = m + o; x = getm(r); break; } case 3: { how = "addl"; auto r = o + m; x = getm(r); break; }
			case 4: { how = "sub"; auto r = m - o; x = getm(r); break; } default: { how = "subl"; auto r = o - m; x = getm(r); } } });
		Ev e("cst"); put(e, c); e.str("how", how).raw("m", getm(m).json()).raw("x", x.json()).emit();
		long big = 0; for(long y : getm(m).d) big = std::max(big, labs(y));
		if(g.one_in(6) || big > 500) { setm(m, rmat(g, m.num_rows(), m.num_cols(), -9, 9)); Ev f("new"); f.raw("m", getm(m).json()).emit(); }
		if(what == "Zeros" || g.one_in(5)) { bool ne = m != Zeros; Ev f("isne"); f.b("ne", ne).raw("m", getm(m).json()).emit(); }
	}
}
template<class V> void vsteps(V& v, Rng& g, int n) {
	{ Ev e("vnew"); e.v("v", getv(v)).emit(); }
	for(int i = 0; i < n; i++) {
		std::string what = g.range(0, 2) == 0 ? "Zeros" : "Ones";
		CSpec c = rspec(g, what);
		std::string how; IVec x;
		if(what == "Zeros") { how = "asg"; v = Zeros; }
		else scaled(Ones, c, [&](const auto& o) { switch(g.range(0, 6)) {
			case 0: how = "asg"; v = o; break; case 1: how = "pluseq"; v += o; break; case 2: how = "minuseq"; v -= o; break;
			case 3: { how = "add"; auto r = v + o; x = getv(r); break; } case 4: { how = "addl"; auto r = o + v; x = getv(r); break; }
			case 5: { how = "sub"; auto r = v - o; x = getv(r); break; } default: { how = "subl"; auto r = o - v; x = getv(r); } } });
		Ev e("vcst"); put(e, c); e.str("how", how).v("v", getv(v)).v("x", x).emit();
		long big = 0; for(long y : getv(v)) big = std::max(big, labs(y));
		if(g.one_in(6) || big > 500) { setv(v, rvec(g, v.size(), -9, 9)); Ev f("vnew"); f.v("v", getv(v)).emit(); }
		if(g.one_in(5)) { bool ne = v != Zeros; Ev f("visne"); f.b("ne", ne).v("v", getv(v)).emit(); }
	}
}
static void gend(bool ok) { Ev e("guards"); e.b("g", ok).emit(); }

#if PART == 1
void part1(Rng& g, int n) { for(int k = 0; k < NMK; k++) gend(with_mat<3, 3>(k, rmat(g, 3, 3, -9, 9), [&](auto& m) { msteps(m, g, n, true); })); }
#elif PART == 2
void part2(Rng& g, int n) {
	for(int k = 0; k < NMK; k++) gend(with_mat<2, 3>(k, rmat(g, 2, 3, -9, 9), [&](auto& m) { msteps(m, g, n, false); }));
	for(int i = 0; i < 4; i++) { int r = g.range(0, 5), c = g.coin() ? r : g.range(0, 5); gend(with_dmat(dmk[i], rmat(g, r, c, -9, 9), [&](auto& m) { msteps(m, g, n, r == c); })); }
}
#elif PART == 3
void part3(Rng& g, int n) {
	for(int k = 0; k < NVK; k++) gend(with_vec<4>(k, rvec(g, 4, -9, 9), [&](auto& v) { vsteps(v, g, n); }));
	for(int i = 0; i < 4; i++) gend(with_dvec(dvk[i], rvec(g, g.range(0, 5), -9, 9), [&](auto& v) { vsteps(v, g, n); }));
	for(int k : {0, 2, 5, 8}) gend(with_mat<3, 3, int>(k, rmat(g, 3, 3, -9, 9), [&](auto& m) { msteps(m, g, n, true); }));
	for(int k : {0, 1, 2, 4}) gend(with_vec<4, int>(k, rvec(g, 4, -9, 9), [&](auto& v) { vsteps(v, g, n); }));
	for(int k : {0, 7}) gend(with_mat<3, 3, float>(k, rmat(g, 3, 3, -9, 9), [&](auto& m) { msteps(m, g, n, true); }));
}
#elif PART == 4
void part1(Rng&, int); void part2(Rng&, int); void part3(Rng&, int);
// sized forms construct objects of exactly the requested size, and resize a Resizable
static void sized(Rng& g) {
	int r = g.range(0, 5), c = g.range(0, 5), n = g.range(0, 5);
	auto logm = [&](const char* how, const CSpec& s, int r, int c, const IMat& x) { Ev e("sized"); put(e, s); e.str("how", how).i("r", r).i("c", c).raw("x", x.json()).emit(); };
	auto logv = [&](const char* how, const CSpec& s, int n, const IVec& x) { Ev e("vsized"); put(e, s); e.str("how", how).i("n", n).v("x", x).emit(); };
	CSpec z{"Zeros", 0, 1, 1}, one{"Ones", 0, 1, 1}, id{"Identity", 0, 1, 1};
	{ Matrix<> m(Zeros(r, c)); logm("ctor", z, r, c, getm(m)); Matrix<> m1 = Zeros(n); logm("ctorsq", z, n, n, getm(m1)); Matrix<Dynamic, 3> m2 = Zeros(r, 3); logm("ctor", z, r, 3, getm(m2)); Matrix<2, Dynamic, double, ColMajor> m3 = Zeros(2, c); logm("ctor", z, 2, c, getm(m3)); Vector<> v = Zeros(n); logv("ctor", z, n, getv(v)); }
	{ CSpec s = rspec(g, "Ones"); scaled(Ones(r, c), s, [&](const auto& o) { Matrix<> m(o); logm("ctor", s, r, c, getm(m)); Matrix<Dynamic, Dynamic, double, ColMajor> m2 = o; logm("ctor", s, r, c, getm(m2)); }); }
	{ CSpec s = rspec(g, "Ones"); scaled(Ones(n), s, [&](const auto& o) { Vector<> v(o); logv("ctor", s, n, getv(v)); Vector<Resizable> w; w = o; logv("resize", s, n, getv(w)); Vector<Resizable> w2(4); w2 = Ones; w2 = o; logv("resize", s, n, getv(w2)); Vector<Resizable> w3 = o; logv("ctor", s, n, getv(w3)); Matrix<> m(o); logm("ctorsq", s, n, n, getm(m)); }); }
	{ CSpec s = rspec(g, "Identity"); scaled(Identity(n), s, [&](const auto& o) { Matrix<> m(o); logm("ctor", s, n, n, getm(m)); Matrix<Dynamic, Dynamic, double, ColMajor> m2(n, n); m2 = o; logm("asg", s, n, n, getm(m2)); }); }
	{ Vector<Resizable> w(n); w = Ones; w = Zeros(c); logv("resize", z, c, getv(w)); w = Ones; logv("unsized", one, c, getv(w)); w.resize(0); w = Ones; logv("unsized", one, 0, getv(w)); }
	{ Vector<4> a = Ones; logv("ctor", one, 4, getv(a)); Vector<4> b = Zeros; logv("ctor", z, 4, getv(b)); Vector<3> b2 = Zeros(3); logv("ctor", z, 3, getv(b2)); Matrix<2, 3> m = Ones; logm("ctor", one, 2, 3, getm(m)); Matrix<3, 2, double, ColMajor> m2 = Zeros; logm("ctor", z, 3, 2, getm(m2)); Matrix<4> m3 = Identity; logm("ctor", id, 4, 4, getm(m3)); Matrix<3> m4 = Identity(3); logm("ctor", id, 3, 3, getm(m4)); Matrix<2, 2> m5 = Identity * 3; logm("ctor", CSpec{"Identity", 1, 3, 1}, 2, 2, getm(m5)); Vector<2> v3 = Ones * 4; logv("ctor", CSpec{"Ones", 1, 4, 1}, 2, getv(v3)); }
}
// Identity on a non-square destination is rejected and nothing changes
static void rejects(Rng& g) {
	int r = g.range(0, 5), c = g.range(0, 5);
	auto ev = [&](const char* how, const IMat& before, const IMat& after, int err) { Ev e("idrej"); e.str("how", how).raw("a", before.json()).raw("a2", after.json()).i("err", err).emit(); };
	for(int i = 0; i < 4; i++) for(int w = 0; w < 5; w++) {
		IMat A = rmat(g, r, c, -9, 9), A2; int err = 0;
		with_dmat(dmk[i], A, [&](auto& m) { err = attempt([&] { switch(w) { case 0: m = Identity; break; case 1: m += Identity; break; case 2: { auto x = m + Identity; break; } case 3: { auto x = Identity - m; break; } case 4: { auto x = m - Identity * 2; } } }); A2 = getm(m); });
		const char* nm[] = {"asg", "pluseq", "add", "subl", "sub"}; ev(nm[w], A, w == 1 && !err ? IMat(0, 0) : A2, err); }
	{ IMat A = rmat(g, 2, 3, -9, 9); Matrix<2, 3> m; setm(m, A); int err = attempt([&] { m = Identity; }); ev("asg", A, getm(m), err); }
	{ IMat A = rmat(g, 3, c, -9, 9); Matrix<3, Dynamic> m(3, c); setm(m, A); int err = attempt([&] { m = Identity; }); ev("asg", A, getm(m), err); }
	{ IMat A = rmat(g, r, 2, -9, 9); Matrix<Dynamic, 2> m(r, 2); setm(m, A); int err = attempt([&] { m = Identity * 2; }); ev("asg2", A, getm(m), err); }
}
int main(int argc, char** argv) {
	Args A(argc, argv); Rng g = A.rng();
	for(long it = 0; it < A.n; it++) {
		part1(g, 30); part2(g, 30); part3(g, 30);
		for(int i = 0; i < 30; i++) { sized(g); rejects(g); }
	}
}
#endif
