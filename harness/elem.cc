// Conformance harness for C25: element types, alone and combined; exact algorithms on rational numbers.
#include <utility>
#include "operands.h"
#include <limits>
#include <TooN/internal/planar_complex.hh>
#include <TooN/determinant.h>
#include <TooN/gaussian_elimination.h>
#include <TooN/gauss_jordan.h>
#include <TooN/Cholesky.h>
// types of a user
struct Rat {
	long n, d;
	Rat(long a = 0, long b = 1) : n(a), d(b) { low(); }
	void low() { if(d < 0) { n = -n; d = -d; } long a = n < 0 ? -n : n, b = d; while(b) { long t = a % b; a = b; b = t; } if(a) { n /= a; d /= a; } }
	Rat& operator+=(Rat o) { return *this = Rat(n * o.d + o.n * d, d * o.d); }
	Rat& operator-=(Rat o) { return *this = Rat(n * o.d - o.n * d, d * o.d); }
	Rat& operator*=(Rat o) { return *this = Rat(n * o.n, d * o.d); }
	Rat& operator/=(Rat o) { return *this = Rat(n * o.d, d * o.n); }
	Rat operator-() const { return Rat(-n, d); }
};
inline Rat operator+(Rat a, Rat b) { return a += b; }
inline Rat operator-(Rat a, Rat b) { return a -= b; }
inline Rat operator*(Rat a, Rat b) { return a *= b; }
inline Rat operator/(Rat a, Rat b) { return a /= b; }
inline bool operator==(Rat a, Rat b) { return a.n == b.n && a.d == b.d; }
inline bool operator!=(Rat a, Rat b) { return !(a == b); }
inline bool operator<(Rat a, Rat b) { return a.n * b.d < b.n * a.d; }
inline bool operator>(Rat a, Rat b) { return b < a; }
inline bool operator<=(Rat a, Rat b) { return !(b < a); }
inline bool operator>=(Rat a, Rat b) { return !(a < b); }
inline Rat abs(Rat a) { return a < Rat(0) ? -a : a; }
struct Quat {      // multiplication does not commute
	long v[4];
	Quat(long a = 0) : v{a, 0, 0, 0} {}
	Quat(long a, long b, long c, long d) : v{a, b, c, d} {}
	Quat& operator+=(Quat o) { for(int i = 0; i < 4; i++) v[i] += o.v[i]; return *this; }
	Quat& operator-=(Quat o) { for(int i = 0; i < 4; i++) v[i] -= o.v[i]; return *this; }
	Quat& operator*=(Quat o) { const long* x = v; const long* y = o.v; return *this = Quat(x[0]*y[0] - x[1]*y[1] - x[2]*y[2] - x[3]*y[3], x[0]*y[1] + x[1]*y[0] + x[2]*y[3] - x[3]*y[2], x[0]*y[2] - x[1]*y[3] + x[2]*y[0] + x[3]*y[1], x[0]*y[3] + x[1]*y[2] - x[2]*y[1] + x[3]*y[0]); }
	Quat operator-() const { return Quat(-v[0], -v[1], -v[2], -v[3]); }
};
inline Quat operator+(Quat a, Quat b) { return a += b; }
inline Quat operator-(Quat a, Quat b) { return a -= b; }
inline Quat operator*(Quat a, Quat b) { return a *= b; }
inline bool operator==(Quat a, Quat b) { for(int i = 0; i < 4; i++) if(a.v[i] != b.v[i]) return false; return true; }
inline bool operator!=(Quat a, Quat b) { return !(a == b); }
namespace std {
	template<> struct numeric_limits<Rat> { static const bool is_specialized = true, is_integer = false, is_signed = true; static Rat epsilon() { return Rat(0); } static Rat quiet_NaN() { return Rat(12345); } static const bool has_quiet_NaN = false; };
	template<> struct numeric_limits<Quat> { static const bool is_specialized = true, is_integer = false, is_signed = true; static Quat epsilon() { return Quat(0); } static Quat quiet_NaN() { return Quat(12345); } static const bool has_quiet_NaN = false; };
}
using namespace TooN;
using namespace H;
namespace {
typedef std::complex<double> C; typedef std::complex<float> CF;
const long U = 64;
template<class T> struct El;
template<class T> struct RealEl {
	static const bool field = true;
	static std::string js(T v) { return "[" + std::to_string(ex((long double)v * U)) + "]"; }
	static T draw(Rng& g) { return T(g.range(-72, 72) / (long double)8); }
	static T divisor(Rng& g) { static const int d[] = {1, 2, 4, -1, -2, -4}; return T(d[g.range(0, 5)]); }
	static bool fine(T v) { long double x = (long double)v * 8; return x == floorl(x) && fabsl(x) <= 512; }
};
template<> struct El<float> : RealEl<float> { static const char* c() { return "f"; } };
template<> struct El<double> : RealEl<double> { static const char* c() { return "d"; } };
template<> struct El<long double> : RealEl<long double> { static const char* c() { return "l"; } };
template<> struct El<int> { static const bool field = true; static const char* c() { return "i"; } static std::string js(int v) { return "[" + std::to_string(ex((double)v * U)) + "]"; } static int draw(Rng& g) { return g.range(-9, 9); } static int divisor(Rng& g) { static const int d[] = {1, 2, 4, -1, -2, -4}; return d[g.range(0, 5)]; } static bool fine(int v) { return v >= -64 && v <= 64; } };
template<class T> struct El<std::complex<T>> {
	static const bool field = true; typedef std::complex<T> Z;
	static const char* c() { return sizeof(T) == 4 ? "cf" : "c"; }
	static std::string js(Z v) { return "[" + std::to_string(ex(v.real() * U)) + "," + std::to_string(ex(v.imag() * U)) + "]"; }
	static Z draw(Rng& g) { T a = T(g.range(-36, 36)) / 8, b = T(g.range(-36, 36)) / 8; return Z(g.one_in(6) ? T(0) : a, g.one_in(6) ? T(0) : b); }
	static Z divisor(Rng& g) { static const int d[][2] = {{1, 0}, {2, 0}, {-1, 0}, {0, 1}, {0, -2}, {1, 1}, {1, -1}}; int k = g.range(0, 6); return Z(T(d[k][0]), T(d[k][1])); }
	static bool fine(Z v) { return RealEl<T>::fine(v.real()) && RealEl<T>::fine(v.imag()); }
};
template<> struct El<Rat> { static const bool field = true; static const char* c() { return "q"; } static std::string js(Rat v) { return "[" + std::to_string(v.n) + "," + std::to_string(v.d) + "]"; } static Rat draw(Rng& g) { return Rat(g.range(-6, 6), g.range(1, 4)); } static Rat divisor(Rng& g) { return Rat(g.coin() ? g.range(1, 6) : g.range(-6, -1), g.range(1, 4)); } static bool fine(Rat v) { return v.n <= 40 && v.n >= -40 && v.d <= 12; } };
template<> struct El<Quat> { static const bool field = false; static const char* c() { return "h"; } static std::string js(Quat v) { return "[" + std::to_string(v.v[0]) + "," + std::to_string(v.v[1]) + "," + std::to_string(v.v[2]) + "," + std::to_string(v.v[3]) + "]"; } static Quat draw(Rng& g) { return Quat(g.range(-5, 5), g.range(-5, 5), g.range(-5, 5), g.range(-5, 5)); } static Quat divisor(Rng&) { return Quat(1); } static bool fine(Quat v) { for(long x : v.v) if(x > 60 || x < -60) return false; return true; } };
// an integer divisor of an integer need not divide it
template<class A, class B> B divisor(Rng& g) { return El<B>::divisor(g); }
template<> int divisor<int, int>(Rng& g) { return g.coin() ? g.range(1, 9) : g.range(-9, -1); }
template<> int divisor<Rat, int>(Rng& g) { return g.coin() ? g.range(1, 5) : g.range(-5, -1); }

template<class V> std::string vj(const V& v) { typedef typename std::decay<decltype(v[0])>::type T; std::string s = std::string("{\"t\":\"") + El<T>::c() + "\",\"x\":["; for(int i = 0; i < v.size(); i++) s += (i ? "," : "") + El<T>::js(v[i]); return s + "]}"; }
template<class M> std::string mj(const M& m) { typedef typename std::decay<decltype(m(0, 0))>::type T; std::string s = std::string("{\"t\":\"") + El<T>::c() + "\",\"r\":" + std::to_string(m.num_rows()) + ",\"c\":" + std::to_string(m.num_cols()) + ",\"d\":["; for(int i = 0; i < m.num_rows(); i++) for(int j = 0; j < m.num_cols(); j++) s += (i + j ? "," : "") + El<T>::js(m(i, j)); return s + "]}"; }
template<class V, class = void> struct IsV : std::false_type {};
template<int S, class P, class B> struct IsV<Vector<S, P, B>> : std::true_type {};
template<int R, int Cc, class P, class B> std::string rj(const Matrix<R, Cc, P, B>& m) { return mj(m); }
template<int S, class P, class B> std::string rj(const Vector<S, P, B>& v) { return vj(v); }
template<class T> std::string rj(const T& t) { Vector<1, T> v; v[0] = t; return vj(v); }

template<class X, class Y> struct Arith { static const bool is = true; };
template<> struct Arith<CF, C> { static const bool is = false; };
template<> struct Arith<C, CF> { static const bool is = false; };
template<class X, class Y> struct FitsT { static const bool is = std::is_assignable<Y&, X>::value; };      // X into Y

// One session: registers a, m of T1 and b, n of T2.  sb sets b (a planar vector is written through its two arrays).
template<class T1, class T2, bool ST, bool PL = false> struct Session {
	Rng& g; std::function<void()> refill; std::function<std::string()> truth = nullptr;   // truth: what b holds, read where it is stored
	template<class VA, class VB, class MA, class MB> void tell(Ev& e, const VA& a, const VB& b, const MA& m, const MB& n) { e.raw("a", vj(a)).raw("b", truth ? truth() : vj(b)).raw("m", mj(m)).raw("n", mj(n)).emit(); }
	template<class VA> void fillv(VA& a) { typedef typename std::decay<decltype(a[0])>::type T; for(int i = 0; i < a.size(); i++) a[i] = El<T>::draw(g); }
	template<class MA> void fillm(MA& m) { typedef typename std::decay<decltype(m(0, 0))>::type T; for(int i = 0; i < m.num_rows(); i++) for(int j = 0; j < m.num_cols(); j++) m(i, j) = g.one_in(5) ? T(0) : El<T>::draw(g); }
	template<class VA, class MA> bool fine(const VA& a, const MA& m) { for(int i = 0; i < a.size(); i++) if(!El<T1>::fine(a[i])) return false; for(int i = 0; i < m.num_rows(); i++) for(int j = 0; j < m.num_cols(); j++) if(!El<T1>::fine(m(i, j))) return false; return true; }
	template<class VA, class VB, class MA, class MB> void go(VA& a, VB& b, MA& m, MB& n, int steps) {
		refill(); fillv(a); fillm(m); fillm(n); { Ev e("set"); tell(e, a, b, m, n); }
		for(int k = 0; k < steps; k++) {
			if(!fine(a, m)) { refill(); fillv(a); fillm(m); fillm(n); Ev e("set"); tell(e, a, b, m, n); }
			const VA& ca = a; const VB& cb = b; const MA& cm = m; const MB& cn = n;
#define BIN(NAME, EXPR) { auto r = EXPR; Ev e("bin"); e.str("k", NAME).raw("res", rj(r)); tell(e, a, b, m, n); break; }
			int what = g.range(0, 47);
			if constexpr(Arith<T1, T2>::is) switch(what) {
				case 0: BIN("a+b", ca + cb) case 1: BIN("a-b", ca - cb) case 2: BIN("b-a", cb - ca) case 3: BIN("dg", diagmult(ca, cb)) case 4: BIN("dgr", diagmult(cb, ca))
				case 5: BIN("m+n", cm + cn) case 6: BIN("m-n", cm - cn) case 7: BIN("n-m", cn - cm) case 8: BIN("a*b", ca * cb) case 9: BIN("b*a", cb * ca)
				case 10: BIN("m*b", cm * cb) case 11: BIN("b*m", cb * cm) case 12: BIN("n*a", cn * ca) case 13: BIN("a*n", ca * cn)
				case 14: BIN("m*n", cm * cn) case 15: BIN("n*m", cn * cm) case 16: if constexpr(!PL) BIN("ab'", ca.as_col() * cb.as_row()) else break;
				case 17: if constexpr(!PL) BIN("ba'", cb.as_col() * ca.as_row()) else break;
				case 18: BIN("mdb", diagmult(cm, cb)) case 19: BIN("bdm", diagmult(cb, cm)) case 20: BIN("nda", diagmult(cn, ca)) case 21: BIN("adn", diagmult(ca, cn))
				case 22: if constexpr(ST) BIN("a^b", ca ^ cb) else break;
				case 23: if constexpr(ST) BIN("b^a", cb ^ ca) else break;
				case 24: if constexpr(!PL) BIN("Db*a", cb.as_diagonal() * ca) else break;
				case 25: BIN("Da*n", ca.as_diagonal() * cn) case 26: BIN("n*Da", cn * ca.as_diagonal())
				case 27: case 28: { T2 s = El<T2>::draw(g); bool vec = g.coin(); Ev e("scal"); e.str("k", what == 27 ? "*" : "l").str("v", vec ? "a" : "m").str("st", El<T2>::c()).raw("s", El<T2>::js(s)); if(vec) { if(what == 27) { auto r = ca * s; e.raw("res", rj(r)); } else { auto r = s * ca; e.raw("res", rj(r)); } } else { if(what == 27) { auto r = cm * s; e.raw("res", rj(r)); } else { auto r = s * cm; e.raw("res", rj(r)); } } tell(e, a, b, m, n); break; }
				case 29: if constexpr(El<T1>::field && El<T2>::field) { T2 s = divisor<T1, T2>(g); bool vec = g.coin(); Ev e("scal"); e.str("k", "/").str("v", vec ? "a" : "m").str("st", El<T2>::c()).raw("s", El<T2>::js(s)); if(vec) { auto r = ca / s; e.raw("res", rj(r)); } else { auto r = cm / s; e.raw("res", rj(r)); } tell(e, a, b, m, n); } break;
				case 30: case 31: if constexpr(FitsT<T2, T1>::is) { if(what == 30) a += b; else a -= b; Ev e("vup"); e.str("k", what == 30 ? "+" : "-"); tell(e, a, b, m, n); } break;
				case 32: case 33: if constexpr(FitsT<T2, T1>::is) { if(what == 32) m += n; else m -= n; Ev e("mup"); e.str("k", what == 32 ? "+" : "-"); tell(e, a, b, m, n); } break;
				case 34: if constexpr(FitsT<decltype(T2() * T2()), T1>::is) { a = n * b; Ev e("vprod"); tell(e, a, b, m, n); } break;
				case 35: if constexpr(FitsT<decltype(T2() * T1()), T1>::is) { m = n * m; Ev e("mprod"); tell(e, a, b, m, n); } break;
				case 36: { Ev e("cmp"); if(g.coin()) { if constexpr(FitsT<T2, T1>::is) { a = b; m = n; Ev s("set"); tell(s, a, b, m, n); } } bool q1 = ca == cb, q2 = ca != cb, q3 = cm == cn, q4 = cm != cn; e.b("eq", q1).b("ne", q2).b("meq", q3).b("mne", q4); tell(e, a, b, m, n); break; }
			}
			switch(what) {
				case 37: if constexpr(FitsT<T2, T1>::is) { a = b; Ev e("vup"); e.str("k", "="); tell(e, a, b, m, n); } break;
				case 38: if constexpr(FitsT<T2, T1>::is) { m = n; Ev e("mup"); e.str("k", "="); tell(e, a, b, m, n); } break;
				case 39: if constexpr(FitsT<T1, T2>::is) { if(g.coin()) BIN("cav", (Vector<3, T2>(ca))) else BIN("cav", (Vector<Dynamic, T2>(ca))) } break;
				case 40: if constexpr(FitsT<T2, T1>::is) { if(g.coin()) BIN("cbv", (Vector<3, T1>(cb))) else BIN("cbv", (Vector<Resizable, T1>(cb))) } break;
				case 41: if constexpr(FitsT<T1, T2>::is) { if(g.coin()) BIN("cam", (Matrix<3, 3, T2>(cm))) else BIN("cam", (Matrix<Dynamic, Dynamic, T2, ColMajor>(cm))) } break;
				case 42: if constexpr(FitsT<T2, T1>::is) BIN("cbm", (Matrix<3, 3, T1, ColMajor>(cn))) break;
				case 43: { switch(g.range(0, 3)) { case 0: BIN("-a", -ca) case 1: BIN("-m", -cm) case 2: BIN("-b", -cb) default: BIN("m*a", cm * ca) } break; }
				case 44: { bool vec = g.coin(), div = El<T1>::field && g.coin(); T1 s = div ? divisor<T1, T1>(g) : El<T1>::draw(g); if(vec) { if(div) { if constexpr(El<T1>::field) a /= s; } else a *= s; } else { if(div) { if constexpr(El<T1>::field) m /= s; } else m *= s; } Ev e(vec ? "vscal" : "mscal"); e.str("k", div ? "/" : "*").raw("s", El<T1>::js(s)); tell(e, a, b, m, n); break; }
				case 45: { T1 s = El<T1>::draw(g); int w = g.range(0, 2); if(w == 0) a = Ones(3) * s; else if(w == 1) a += Ones * s; else a -= Ones * s; Ev e("ones"); e.str("k", w == 0 ? "=" : w == 1 ? "+" : "-").str("st", El<T1>::c()).raw("s", El<T1>::js(s)); tell(e, a, b, m, n); break; }
				case 46: { T1 s = El<T1>::draw(g); int w = g.range(0, 2); if(w == 0) m = Identity * s; else if(w == 1) m += Identity * s; else m -= Identity * s; Ev e("ident"); e.str("k", w == 0 ? "=" : w == 1 ? "+" : "-").str("st", El<T1>::c()).raw("s", El<T1>::js(s)); tell(e, a, b, m, n); break; }
				case 47: { int w = g.range(0, 2); bool vec = g.coin(); if(vec) { if(w == 0) a = Ones; else if(w == 1) a += Ones; else a -= Ones; } else { if(w == 0) m = Identity; else if(w == 1) m += Identity; else m -= Identity; } Ev e(vec ? "ones" : "ident"); e.str("k", w == 0 ? "=" : w == 1 ? "+" : "-").str("st", "i").raw("s", "[64]"); tell(e, a, b, m, n); break; }
			}
		}
	}
};
template<class T1, class T2> void pair_(Rng& g) {
	if(g.coin()) { Vector<3, T1> a; Vector<3, T2> b; Matrix<3, 3, T1> m; Matrix<3, 3, T2> n; Session<T1, T2, true> s{g, [&]() { for(int i = 0; i < 3; i++) b[i] = El<T2>::draw(g); }}; s.go(a, b, m, n, 12); }
	else { Vector<Dynamic, T1> a(3); Matrix<4, Dynamic, T2> big(4, 3); auto b = big.T()[1].slice(1, 3); Matrix<Dynamic, Dynamic, T1, ColMajor> m(3, 3); Matrix<5, 4, T2> nb; auto n = nb.T().template slice<1, 2, 3, 3>(); Session<T1, T2, false> s{g, [&]() { for(int i = 0; i < 3; i++) b[i] = El<T2>::draw(g); }}; s.go(a, b, m, n, 12); }
}
template<class T1, class T> void planar(Rng& g) {
	typedef std::complex<T> T2; std::vector<T> re(7), im(9); int o = g.range(0, 2), q = g.range(0, 2), k = g.range(0, 2);        // the three elements begin at re[o + k] and im[q + k]
	auto refill = [&]() { for(auto& x : re) x = T(99); for(auto& x : im) x = T(98); for(int i = 0; i < 3; i++) { T2 z = El<T2>::draw(g); re[o + k + i] = z.real(); im[q + k + i] = z.imag(); } };
	auto truth = [&]() { Vector<3, T2> v; for(int i = 0; i < 3; i++) v[i] = T2(re[o + k + i], im[q + k + i]); return vj(v); };
	Vector<3, T1> a; Matrix<3, 3, T1> m; Matrix<3, 3, T2> n; Session<T1, T2, true, true> s{g, refill, truth};
	switch(g.range(0, 4)) {
		case 0: { k = 0; Vector<3, T2, ReferencePlanarComplex> b(std::make_pair(&re[o], &im[q])); s.go(a, b, m, n, 10); break; }
		case 1: { k = 0; Vector<4, T2, ReferencePlanarComplex> b4(std::make_pair(&re[o], &im[q])); auto b = b4.template slice<0, 3>(); s.go(a, b, m, n, 10); break; }
		case 2: { k = 1; Vector<4, T2, ReferencePlanarComplex> b4(std::make_pair(&re[o], &im[q])); auto b = b4.template slice<1, 3>(); s.go(a, b, m, n, 10); break; }
		case 3: { k = 2; Vector<5, T2, ReferencePlanarComplex> b5(std::make_pair(&re[o], &im[q])); auto b4 = b5.template slice<1, 4>(); auto b = b4.template slice<1, 3>(); s.go(a, b, m, n, 10); break; }
		default: { Vector<5, T2, ReferencePlanarComplex> b5(std::make_pair(&re[o], &im[q])); auto d = b5.slice(k, 3); Session<T1, T2, false, true> sd{g, refill, truth}; sd.go(a, d, m, n, 10); break; }
	}
}
IMat regular(Rng& g, int n, bool minors) {
	static const int lim[] = {0, 9, 9, 7, 4};
	for(;;) {
		IMat a = rmat(g, n, n, -lim[n], lim[n]); if(minors) for(int i = 0; i < n; i++) for(int j = 0; j < i; j++) a.at(i, j) = a.at(j, i);
		auto det = [&](int k) { std::vector<std::vector<double>> w(k, std::vector<double>(k)); for(int i = 0; i < k; i++) for(int j = 0; j < k; j++) w[i][j] = a.at(i, j); double d = 1; for(int i = 0; i < k; i++) { int p = i; for(int r = i; r < k; r++) if(fabs(w[r][i]) > fabs(w[p][i])) p = r; if(fabs(w[p][i]) < 1e-9) return 0.; if(p != i) { std::swap(w[p], w[i]); d = -d; } d *= w[i][i]; for(int r = i + 1; r < k; r++) { double f = w[r][i] / w[i][i]; for(int c = i; c < k; c++) w[r][c] -= f * w[i][c]; } } return d; };
		bool ok = true; for(int k = minors ? 1 : n; k <= n; k++) ok = ok && fabs(det(k)) > .5; if(ok) return a;
	}
}
std::string qv(const std::vector<Rat>& v) { std::string s = "["; for(size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + El<Rat>::js(v[i]); return s + "]"; }
template<class M> std::vector<Rat> allm(const M& m) { std::vector<Rat> r; for(int i = 0; i < m.num_rows(); i++) for(int j = 0; j < m.num_cols(); j++) r.push_back(m(i, j)); return r; }
template<class V> std::vector<Rat> allv(const V& v) { std::vector<Rat> r; for(int i = 0; i < v.size(); i++) r.push_back(v[i]); return r; }
template<class M> void setq(M& m, const IMat& v, long den) { for(int i = 0; i < v.r; i++) for(int j = 0; j < v.c; j++) m(i, j) = Rat(v.at(i, j), den); }
template<int N, int NS, class Mat_, class Vec_> void exact_on(Rng& g, Mat_& A, Vec_& b) {
	long den = g.range(1, 3);
	{ IMat a = g.coin() ? regular(g, N, false) : rmat(g, N, N, -3, 3); setq(A, a, den); Rat d = determinant(A), d2 = determinant_gaussian_elimination(A); Ev("qdet").raw("am", a.json()).i("den", den).raw("res", El<Rat>::js(d)).emit(); Ev("qdet").raw("am", a.json()).i("den", den).raw("res", El<Rat>::js(d2)).emit(); }
	{ IMat a = regular(g, N, false); IVec v = rvec(g, N, -5, 5); setq(A, a, den); for(int i = 0; i < N; i++) b[i] = Rat(v[i]); auto x = gaussian_elimination(A, b); Ev("qsolve").raw("am", a.json()).i("den", den).v("v", v).raw("x", qv(allv(x))).emit(); }
	{ IMat a = regular(g, N, false); int k = g.range(1, 3); IMat bm = rmat(g, N, k, -5, 5); setq(A, a, den); Matrix<NS, Dynamic, Rat> B(N, k); setq(B, bm, 1); auto x = gaussian_elimination(A, B); Ev("qsolvem").raw("am", a.json()).i("den", den).raw("bm", bm.json()).raw("x", qv(allm(x))).emit(); }
	{ IMat a = regular(g, N, false); IMat id(N, N); for(int i = 0; i < N; i++) id.at(i, i) = 1; setq(A, a, den); Matrix<(NS < 0 ? NS : N), (NS < 0 ? NS : 2 * N), Rat> W(N, 2 * N); W.template slice<0, 0, N, N>() = A; W.template slice<0, N, N, N>() = Identity; gauss_jordan(W); Ev("qsolvem").raw("am", a.json()).i("den", den).raw("bm", id.json()).raw("x", qv(allm(W.template slice<0, N, N, N>()))).emit(); }
	{ IMat a = regular(g, N, true); setq(A, a, den); Cholesky<NS, Rat> c(A); Ev("qldl").raw("am", a.json()).i("den", den).raw("L", qv(allm(c.get_unscaled_L()))).raw("D", qv(allm(c.get_D()))).emit();
	  Ev("qdet").raw("am", a.json()).i("den", den).raw("res", El<Rat>::js(c.determinant())).emit();
	  IVec v = rvec(g, N, -5, 5); for(int i = 0; i < N; i++) b[i] = Rat(v[i]); Ev("qsolve").raw("am", a.json()).i("den", den).v("v", v).raw("x", qv(allv(c.backsub(b)))).emit();
	  IMat id(N, N); for(int i = 0; i < N; i++) id.at(i, i) = 1; Ev("qsolvem").raw("am", a.json()).i("den", den).raw("bm", id.json()).raw("x", qv(allm(c.get_inverse()))).emit(); }
}
template<int N> void exact(Rng& g) { if(g.coin()) { Matrix<N, N, Rat> A; Vector<N, Rat> b; exact_on<N, N>(g, A, b); } else { Matrix<Dynamic, Dynamic, Rat> A(N, N); Vector<Dynamic, Rat> b(N); exact_on<N, Dynamic>(g, A, b); } }
}
void run1(Rng&); void run2(Rng&); void run3(Rng&); void run4(Rng&); void run5(Rng&); void run6(Rng&); void run7(Rng&); void run8(Rng&); void run9(Rng&); void run10(Rng&);
#if PART == 1
void run1(Rng& g) { pair_<int, double>(g); pair_<int, int>(g); }
#elif PART == 2
void run2(Rng& g) { pair_<double, int>(g); pair_<double, float>(g); }
#elif PART == 3
void run3(Rng& g) { pair_<float, double>(g); pair_<float, int>(g); }
#elif PART == 4
void run4(Rng& g) { pair_<long double, float>(g); pair_<int, long double>(g); }
#elif PART == 5
void run5(Rng& g) { pair_<C, double>(g); pair_<C, C>(g); }
#elif PART == 6
void run6(Rng& g) { pair_<double, C>(g); pair_<CF, float>(g); }
#elif PART == 7
void run7(Rng& g) { pair_<CF, C>(g); pair_<C, CF>(g); pair_<int, float>(g); }
#elif PART == 8
void run8(Rng& g) { planar<C, double>(g); planar<CF, float>(g); planar<double, double>(g); }
#elif PART == 9
void run9(Rng& g) { pair_<Rat, Rat>(g); pair_<Rat, int>(g); pair_<int, Rat>(g); exact<1>(g); exact<2>(g); exact<3>(g); exact<4>(g); }
#elif PART == 10
void run10(Rng& g) { pair_<Quat, Quat>(g); pair_<Quat, int>(g); pair_<int, Quat>(g); }
#elif PART == 11
int main(int c, char** v) {
	Args a(c, v); Rng g = a.rng();
	void (*p[])(Rng&) = {run1, run2, run3, run4, run5, run6, run7, run8, run9, run10};
	for(long n = 0; n < a.n; n++) p[(n + a.shard) % 10](g);
	return 0;
}
#endif
