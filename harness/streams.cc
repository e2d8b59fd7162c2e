// Conformance harness for C20: text streams of vectors, matrices and transformations.
#include "numeric.h"
#include <TooN/TooN.h>
#include <TooN/so2.h>
#include <TooN/so3.h>
#include <TooN/se2.h>
#include <TooN/se3.h>
#include <TooN/sim2.h>
#include <TooN/sim3.h>
#include <TooN/sl.h>
#include <iomanip>
#include <limits>
using namespace TooN;
using namespace H;
namespace {
struct Val { long a = 0, b = 0; };
typedef std::vector<Val> Vals;
template<class P> struct El { static const char* t() { return "r"; } static P to(Val v) { return P(v.a); } static Val of(P p) { Val v; v.a = ex(p); return v; } };
template<> struct El<int> { static const char* t() { return "i"; } static int to(Val v) { return (int)v.a; } static Val of(int p) { Val v; v.a = ex(p); return v; } };
template<class Q> struct El<std::complex<Q>> { static const char* t() { return "c"; } static std::complex<Q> to(Val v) { return std::complex<Q>(Q(v.a), Q(v.b)); } static Val of(std::complex<Q> p) { Val v; v.a = ex(p.real()); v.b = ex(p.imag()); return v; } };
std::string js(const Vals& x, bool c) { std::string s = "["; for(size_t i = 0; i < x.size(); i++) { s += i ? "," : ""; s += c ? "[" + std::to_string(x[i].a) + "," + std::to_string(x[i].b) + "]" : std::to_string(x[i].a); } return s + "]"; }
std::string shp(const char* k, int r, int c) { return std::string("{\"k\":\"") + k + "\",\"r\":" + std::to_string(r) + ",\"c\":" + std::to_string(c) + "}"; }
Val value(Rng& g) { Val v; static const int lim[] = {1, 9, 99, 999, 9999}; int m = lim[g.range(0, 4)]; v.a = g.range(-m, m); m = lim[g.range(0, 4)]; v.b = g.range(-m, m); return v; }
Vals values(Rng& g, int n) { Vals v(n); for(auto& x : v) x = value(g); return v; }
template<class V, class P> void setx(V& v, const Vals& x, P*) { for(size_t i = 0; i < x.size(); i++) v[(int)i] = El<P>::to(x[i]); }
template<class V, class P> Vals getx(const V& v, P*) { Vals x; for(int i = 0; i < v.size(); i++) x.push_back(El<P>::of(v[i])); return x; }
template<class M, class P> void setmx(M& m, const Vals& x, P*) { for(int i = 0; i < m.num_rows(); i++) for(int j = 0; j < m.num_cols(); j++) m(i, j) = El<P>::to(x[i * m.num_cols() + j]); }
template<class M, class P> Vals getmx_(const M& m, P*) { Vals x; for(int i = 0; i < m.num_rows(); i++) for(int j = 0; j < m.num_cols(); j++) x.push_back(El<P>::of(m(i, j))); return x; }

// one stream, what it is told and what it then holds
struct Stream {
	Rng& g; std::stringstream ss; long n = 0;      // n: elements written and not read
	char form = 0; int frows = 0, fcols = 0;       // the unread text is exactly one transformation
	explicit Stream(Rng& g_) : g(g_) { Ev("open").emit(); }
	std::string rest() { std::streampos p = ss.tellg(); if(p < 0) return "[]"; std::string s = ss.str().substr((size_t)p), r = "["; for(size_t i = 0; i < s.size(); i++) r += (i ? "," : "") + std::to_string((int)(unsigned char)s[i]); return r + "]"; }
	void tell(Ev& e) { bool f = ss.fail(); if(!f) ss.clear(); e.b("fail", f).i("w", (long)ss.width()).raw("rest", f ? "[]" : rest()).emit(); }
	void reset() { ss.str(""); ss.clear(); ss.seekg(0); ss.seekp(0); n = 0; form = 0; Ev e("reset"); tell(e); }
	void fmt(bool odd) {
		static const char fills[] = {'*', '_', '#', '.', 'x'};
		char f = odd ? fills[g.range(0, 4)] : ' '; int a = g.range(0, odd ? 2 : 1); bool pos = g.one_in(3), fixed = g.one_in(3); int pr = fixed ? g.range(0, 3) : 6;
		ss << std::setfill(f) << (a == 0 ? std::left : a == 1 ? std::right : std::internal) << (pos ? std::showpos : std::noshowpos) << std::setprecision(pr);
		if(fixed) ss << std::fixed; else ss.unsetf(std::ios::floatfield);
		Ev e("fmt"); e.i("fill", f).str("adj", a == 0 ? "l" : a == 1 ? "r" : "i").b("pos", pos).b("fixed", fixed).i("prec", pr); tell(e);
	}
	void width() { int w = g.range(0, 9); ss.width(w); Ev e("width"); e.i("v", w); tell(e); }
};
template<class P> struct WriteV { Stream& s; const Vals& x; template<class V> void operator()(V& v) {
	setx(v, x, (P*)0); const V& c = v; if(s.g.coin()) s.ss << c; else s.ss << v.as_slice();
	s.n += (long)x.size(); Ev e("write"); e.raw("sh", shp("v", (int)x.size(), 1)).raw("x", js(x, *El<P>::t() == 'c')).str("t", El<P>::t()); s.tell(e);
} };
template<class P> struct WriteM { Stream& s; const Vals& x; template<class M> void operator()(M& m) {
	setmx(m, x, (P*)0); const M& c = m; if(s.g.coin()) s.ss << c; else s.ss << c.T().T();
	s.n += (long)x.size(); Ev e("write"); e.raw("sh", shp("m", m.num_rows(), m.num_cols())).raw("x", js(x, *El<P>::t() == 'c')).str("t", El<P>::t()); s.tell(e);
} };
template<class P> void after_read(Stream& s, const Vals& x0, const Vals& x) {
	s.n -= (long)x.size(); if(s.n < 0) s.n = 0; s.form = 0;
	bool c = *El<P>::t() == 'c'; Ev e("read"); e.raw("x0", js(x0, c)).raw("x", js(x, c)).str("t", El<P>::t()); s.tell(e);
}
template<class P> struct ReadV { Stream& s; const Vals& x0; template<class V> void operator()(V& v) { setx(v, x0, (P*)0); if(s.g.coin()) s.ss >> v; else s.ss >> v.as_slice().ref(); after_read<P>(s, x0, getx(v, (P*)0)); } };
template<class P> struct ReadM { Stream& s; const Vals& x0; template<class M> void operator()(M& m) { setmx(m, x0, (P*)0); if(s.g.coin()) s.ss >> m; else s.ss >> m.slice(0, 0, m.num_rows(), m.num_cols()).ref(); after_read<P>(s, x0, getmx_(m, (P*)0)); } };
template<class P, template<class> class F, int N> bool vecn(Stream& s, const Vals& x) { return with_vec<N, P>(s.g.range(0, NVK - 1), IVec(N, 0), F<P>{s, x}); }
template<class P, template<class> class F> void vec(Stream& s, const Vals& x) {
	int n = (int)x.size(); bool ok;
	if(n == 1 && s.g.coin()) ok = vecn<P, F, 1>(s, x); else if(n == 3 && s.g.coin()) ok = vecn<P, F, 3>(s, x); else if(n == 5 && s.g.coin()) ok = vecn<P, F, 5>(s, x);
	else ok = with_dvec<P>(dvk[s.g.range(0, NDVK - 1)], IVec(n, 0), F<P>{s, x});
	if(!ok) Ev("guard").emit();
}
template<class P, template<class> class F> void mat(Stream& s, int r, int c, const Vals& x) {
	bool ok; IMat z(r, c);
	if(r == 2 && c == 3 && s.g.coin()) ok = with_mat<2, 3, P>(s.g.range(0, NMK - 1), z, F<P>{s, x}); else if(r == 3 && c == 1 && s.g.coin()) ok = with_mat<3, 1, P>(s.g.range(0, NMK - 1), z, F<P>{s, x});
	else ok = with_dmat<P>(dmk[s.g.range(0, NDMK - 1)], z, F<P>{s, x});
	if(!ok) Ev("guard").emit();
}
void ws(Rng& g, std::string& s, bool some) { int k = g.range(some ? 1 : 0, 2); for(int i = 0; i < k; i++) s += " \t\n\r\v\f"[g.range(0, 5)]; }
std::string digits(Rng& g, long v, char t) { std::string s = v < 0 ? "-" : g.one_in(3) ? "+" : ""; if(g.one_in(4)) s += "00"; s += std::to_string(std::labs(v)); if(t != 'i' && g.one_in(3)) s += g.coin() ? "." : ".00"; return s; }
template<class P> bool literal(Stream& s, bool junk) {      // does the text end in a digit or a point
	bool bare = false;
	char t = *El<P>::t(); int n = s.g.range(0, 4); Vals x = values(s.g, n); std::string txt; ws(s.g, txt, true);
	for(auto& v : x) { if(t == 'c') { txt += "("; ws(s.g, txt, false); txt += digits(s.g, v.a, t); ws(s.g, txt, false); txt += ","; ws(s.g, txt, false); txt += digits(s.g, v.b, t); ws(s.g, txt, false); txt += ")"; ws(s.g, txt, false); } else { txt += digits(s.g, v.a, t); ws(s.g, txt, true); } }
	if(junk) { static const char* j[] = {"x 1 ", "--1 ", "- 1 ", "+ ", ", ", "*3 ", ": "}; static const char* jc[] = {"x (1,2) ", "(1;2) ", "(,1) ", "(--1,2) ", "[1,2] ", "(1,)"}; txt += t == 'c' ? jc[s.g.range(0, 5)] : j[s.g.range(0, 6)]; }
	else if(t != 'c' && s.g.one_in(4) && n) txt.erase(txt.find_last_not_of(" \t\n\r\v\f") + 1), bare = true;      // no space at the end
	long w = (long)s.ss.width(); s.ss.write(txt.data(), (long)txt.size()); (void)w; s.n += n; s.form = 0;
	IVec cs; for(char c : txt) cs.push_back((unsigned char)c); Ev e("lit"); e.v("s", cs); s.tell(e);
	return bare;
}
template<class P> void session(Rng& g) {
	Stream s(g); const int K = g.range(3, 9); bool odd = g.one_in(5), ended = false;      // a text that ends in a digit is followed by a space
	for(int k = 0; k < K; k++) {
		if(s.ss.fail()) { if(g.coin()) { if(g.coin()) vec<P, ReadV>(s, values(g, g.range(0, 4))); else { int r = g.range(0, 3), c = g.range(0, 3); mat<P, ReadM>(s, r, c, values(g, r * c)); } } s.reset(); continue; }
		switch(g.range(0, 9)) {
			case 0: s.fmt(odd); break;
			case 1: case 2: { if(ended) { s.ss.write(" ", 1); Ev e("lit"); e.v("s", IVec{32}); s.tell(e); ended = false; } bool w = g.coin(); int n = g.range(w ? 1 : 0, 6); if(w) s.width(); vec<P, WriteV>(s, values(g, n)); break; }
			case 3: case 4: { if(ended) { s.ss.write(" ", 1); Ev e("lit"); e.v("s", IVec{32}); s.tell(e); ended = false; } bool w = g.coin(); int r = g.range(w ? 1 : 0, 3), c = g.range(w ? 1 : 0, 3); if(w) s.width(); mat<P, WriteM>(s, r, c, values(g, r * c)); break; }
			case 5: ended = literal<P>(s, g.one_in(5)); break;
			default: if(odd) { s.reset(); break; }
				if(g.coin()) { int n = (int)(g.one_in(8) ? s.n + g.range(1, 2) : std::min<long>(s.n, g.range(0, 6))); vec<P, ReadV>(s, values(g, n)); }
				else { int r = g.range(0, 3), c = g.range(0, 3); if(r * c > s.n && !g.one_in(4)) { r = 1; c = (int)std::min<long>(s.n, 3); } mat<P, ReadM>(s, r, c, values(g, r * c)); }
		}
	}
	s.ss.clear(); s.reset();
}
// Arbitrary values, every digit of them
inline void bits(std::string& s, const void* p, int n) { unsigned char b[16]; memcpy(b, p, n); for(int i = 0; i < n; i += 2) s += (s.size() > 1 ? "," : "") + std::to_string(b[i] + 256 * (i + 1 < n ? b[i + 1] : 0)); }
template<class P> struct Bytes { static const int n = sizeof(P); };
template<> struct Bytes<long double> { static const int n = 10; };
template<class P> P odd_value(Rng& g, P*) {
	typedef std::numeric_limits<P> L;
	switch(g.range(0, 9)) { case 0: return L::max(); case 1: return L::lowest(); case 2: return L::min(); case 3: return L::epsilon(); case 4: return -P(0); case 5: return P(1) + L::epsilon(); case 6: return P(1) / P(3);
		default: { P m = P(g.unit()) + P(g.unit()) * P(1e-10); return std::ldexp(g.coin() ? m : -m, g.range(L::min_exponent + 60 > 0 ? -20 : L::min_exponent + 60, L::max_exponent - 2)); } }
}
inline int odd_value(Rng& g, int*) { switch(g.range(0, 3)) { case 0: return std::numeric_limits<int>::max(); case 1: return std::numeric_limits<int>::min(); default: return (int)g.next(); } }
template<class V> struct AllOf { V& v; int size() const { return v.size(); } };
template<class P> std::string vb(const std::vector<P>& x) { std::string s = "["; for(const P& p : x) bits(s, &p, Bytes<P>::n); return s + "]"; }
template<class P> std::string vb(const std::vector<std::complex<P>>& x) { std::string s = "["; for(auto& p : x) { P a = p.real(), b = p.imag(); bits(s, &a, Bytes<P>::n); bits(s, &b, Bytes<P>::n); } return s + "]"; }
template<class P> struct Draw { static P go(Rng& g) { return odd_value(g, (P*)0); } };
template<class P> struct Draw<std::complex<P>> { static std::complex<P> go(Rng& g) { P a = odd_value(g, (P*)0), b = odd_value(g, (P*)0); return std::complex<P>(a, b); } };
template<class P> struct Dig { static const int n = std::numeric_limits<P>::max_digits10; };
template<class P> struct Dig<std::complex<P>> { static const int n = std::numeric_limits<P>::max_digits10; };
template<class P> struct TripV { Rng& g; template<class V> void operator()(V& v) {
	std::vector<P> a, b; for(int i = 0; i < v.size(); i++) { a.push_back(Draw<P>::go(g)); v[i] = a.back(); }
	std::stringstream ss; ss << std::setprecision(Dig<P>::n); if(g.one_in(3)) ss << std::scientific; if(g.one_in(3)) ss.width(g.range(1, 30)); ss << v;
	for(int i = 0; i < v.size(); i++) v[i] = P();
	Vector<Dynamic, P> w(v.size()); for(int i = 0; i < v.size(); i++) w[i] = P(1); bool other = g.coin(); if(other) ss >> w; else ss >> v;
	for(int i = 0; i < v.size(); i++) b.push_back(other ? w[i] : v[i]);
	Ev("trip").raw("x", vb(a)).raw("y", vb(b)).b("fail", ss.fail()).emit();
} };
template<class P> struct TripM { Rng& g; template<class M> void operator()(M& m) {
	std::vector<P> a, b; for(int i = 0; i < m.num_rows(); i++) for(int j = 0; j < m.num_cols(); j++) { a.push_back(Draw<P>::go(g)); m(i, j) = a.back(); }
	std::stringstream ss; ss << std::setprecision(Dig<P>::n); if(g.one_in(3)) ss << std::scientific; if(g.one_in(3)) ss.width(g.range(1, 30)); ss << m;
	Matrix<Dynamic, Dynamic, P, ColMajor> w(m.num_rows(), m.num_cols()); for(int i = 0; i < m.num_rows(); i++) for(int j = 0; j < m.num_cols(); j++) w(i, j) = m(i, j) = P();
	bool other = g.coin(); if(other) ss >> w; else ss >> m;
	for(int i = 0; i < m.num_rows(); i++) for(int j = 0; j < m.num_cols(); j++) b.push_back(other ? w(i, j) : m(i, j));
	Ev("trip").raw("x", vb(a)).raw("y", vb(b)).b("fail", ss.fail()).emit();
} };
template<class P> void trips(Rng& g) {
	bool ok = true;
	switch(g.range(0, 3)) {
		case 0: ok = with_vec<4, P>(g.range(0, NVK - 1), IVec(4, 0), TripV<P>{g}); break;
		case 1: ok = with_dvec<P>(dvk[g.range(0, NDVK - 1)], IVec(g.range(0, 9), 0), TripV<P>{g}); break;
		case 2: ok = with_mat<2, 3, P>(g.range(0, NMK - 1), IMat(2, 3), TripM<P>{g}); break;
		default: { int r = g.range(0, 4), c = g.range(0, 4); ok = with_dmat<P>(dmk[g.range(0, NDMK - 1)], IMat(r, c), TripM<P>{g}); }
	}
	if(!ok) Ev("guard").emit();
}
}
void run1(Rng&); void run2(Rng&); void run3(Rng&); void run4(Rng&); void run5(Rng&); void run6(Rng&); void run7(Rng&); void run8(Rng&);
#if PART == 1
void run1(Rng& g) { session<double>(g); trips<double>(g); }
#elif PART == 2
void run2(Rng& g) { session<int>(g); trips<int>(g); }
#elif PART == 3
void run3(Rng& g) { session<float>(g); trips<float>(g); }
#elif PART == 4
void run4(Rng& g) { session<long double>(g); trips<long double>(g); }
#elif PART == 5
void run5(Rng& g) { session<std::complex<double>>(g); trips<std::complex<double>>(g); }
#elif PART == 6
void run6(Rng& g) { session<std::complex<float>>(g); trips<std::complex<float>>(g); }
#elif PART == 7 || PART == 8
namespace {
// transformations: Tr<K, P> has the rotation part r() (D x D), the translation t() and the scale s()
enum { kSO, kSE, kSIM };
template<class P, int D, int K> struct Tr;
template<class P> struct Tr<P, 2, kSO> { typedef SO2<P> T; static T make(const Matrix<2, 2, P>& r, const Vector<2, P>&, P) { return T(r); } static Matrix<2, 2, P> r(const T& t) { return t.get_matrix(); } static Vector<2, P> t(const T&) { return Zeros; } static P s(const T&) { return 1; } };
template<class P> struct Tr<P, 3, kSO> { typedef SO3<P> T; static T make(const Matrix<3, 3, P>& r, const Vector<3, P>&, P) { return T(r); } static Matrix<3, 3, P> r(const T& t) { return t.get_matrix(); } static Vector<3, P> t(const T&) { return Zeros; } static P s(const T&) { return 1; } };
template<class P> struct Tr<P, 2, kSE> { typedef SE2<P> T; static T make(const Matrix<2, 2, P>& r, const Vector<2, P>& t, P) { return T(SO2<P>(r), t); } static Matrix<2, 2, P> r(const T& t) { return t.get_rotation().get_matrix(); } static Vector<2, P> t(const T& x) { return x.get_translation(); } static P s(const T&) { return 1; } };
template<class P> struct Tr<P, 3, kSE> { typedef SE3<P> T; static T make(const Matrix<3, 3, P>& r, const Vector<3, P>& t, P) { return T(SO3<P>(r), t); } static Matrix<3, 3, P> r(const T& t) { return t.get_rotation().get_matrix(); } static Vector<3, P> t(const T& x) { return x.get_translation(); } static P s(const T&) { return 1; } };
template<class P> struct Tr<P, 2, kSIM> { typedef SIM2<P> T; static T make(const Matrix<2, 2, P>& r, const Vector<2, P>& t, P s) { return T(SO2<P>(r), t, s); } static Matrix<2, 2, P> r(const T& t) { return t.get_rotation().get_matrix(); } static Vector<2, P> t(const T& x) { return x.get_translation(); } static P s(const T& x) { return x.get_scale(); } };
template<class P> struct Tr<P, 3, kSIM> { typedef SIM3<P> T; static T make(const Matrix<3, 3, P>& r, const Vector<3, P>& t, P s) { return T(SO3<P>(r), t, s); } static Matrix<3, 3, P> r(const T& t) { return t.get_rotation().get_matrix(); } static Vector<3, P> t(const T& x) { return x.get_translation(); } static P s(const T& x) { return x.get_scale(); } };
template<class P, int D> Matrix<D, D, P> perm(Rng& g) {      // a signed permutation with determinant 1
	for(;;) { int p[3] = {0, 1, 2}; for(int i = D - 1; i > 0; i--) std::swap(p[i], p[g.range(0, i)]); Matrix<D, D, P> m = Zeros; int det = 1; for(int i = 0; i < D; i++) { int s = g.coin() ? 1 : -1; m(i, p[i]) = P(s); det *= s; for(int j = 0; j < i; j++) if(p[j] > p[i]) det = -det; } if(det == 1) return m; }
}
template<class P, int D> Vector<D, P> tvec(Rng& g) { Vector<D, P> v; for(int i = 0; i < D; i++) v[i] = P(value(g).a); return v; }
template<class M> bool minus0(const M& m) { for(int i = 0; i < m.num_rows(); i++) for(int j = 0; j < m.num_cols(); j++) if(m(i, j) == 0 && std::signbit(m(i, j))) return true; return false; }
template<class P, int D, int K> bool twrite(Stream& s) {
	typedef Tr<P, D, K> R; P sc = P(1 << s.g.range(0, 6)); if(K != kSIM) sc = 1;
	typename R::T t = R::make(perm<P, D>(s.g), tvec<P, D>(s.g), sc); if(minus0(R::r(t))) return false;
	const typename R::T& c = t; s.ss << c; Matrix<D, D, P> r = R::r(c); Vector<D, P> tt = R::t(c); Vals x;
	for(int i = 0; i < D; i++) { for(int j = 0; j < D; j++) { Val v; v.a = ex(r(i, j) * sc); x.push_back(v); } if(K != kSO) { Val v; v.a = ex(tt[i]); x.push_back(v); } }
	s.n += (long)x.size(); s.form = K == kSO ? 'o' : 'e'; s.frows = D; s.fcols = D + (K != kSO);
	Ev e("write"); e.raw("sh", shp("t", D, s.fcols)).raw("x", js(x, false)).str("t", "r"); s.tell(e); return true;
}
template<class P, int D, int K> void tread(Stream& s) {
	typedef Tr<P, D, K> R; typename R::T t = R::make(perm<P, D>(s.g), tvec<P, D>(s.g), P(4)); s.ss >> t; s.n = 0; s.form = 0;
	Ev e("readt"); e.str("k", K == kSO ? "so" : K == kSE ? "se" : "sim").i("d", D).raw("m", getm(R::r(t)).json()).v("tr", getv(R::t(t))).i("s", ex(R::s(t))); s.tell(e);
}
template<class P, int N> bool slwrite(Stream& s) {
	Matrix<N, N, P> m = Identity; for(int i = 0; i < N; i++) for(int j = i + 1; j < N; j++) m(i, j) = P(s.g.range(-9, 9)); SL<N, P> h(m); Vals x; for(int i = 0; i < N; i++) for(int j = 0; j < N; j++) { Val v; v.a = ex(h.get_matrix()(i, j)); x.push_back(v); }
	if(minus0(h.get_matrix())) return false;
	s.ss << h; s.n += N * N; s.form = 'l'; s.frows = s.fcols = N; Ev e("write"); e.raw("sh", shp("t", N, N)).raw("x", js(x, false)).str("t", "r"); s.tell(e); return true;
}
template<class P, int N> void slread(Stream& s) { Matrix<N, N, P> z = Identity; z(0, N - 1) = 5; SL<N, P> h(z); s.ss >> h; s.n = 0; s.form = 0; Ev e("readt"); e.str("k", "sl").i("d", N).raw("m", getm(h.get_matrix()).json()).v("tr", IVec()).i("s", 1); s.tell(e); }
template<class P, int D> bool mwrite(Stream& s) {      // a matrix that is a rotation but for its scale
	Matrix<D, D, P> m = perm<P, D>(s.g); P sc = P(1 << s.g.range(0, 6)); Vals x; for(int i = 0; i < D; i++) for(int j = 0; j < D; j++) { if(m(i, j) != 0) m(i, j) *= sc; Val v; v.a = ex(m(i, j)); x.push_back(v); }
	s.ss << m; s.n += D * D; s.form = 'o'; s.frows = s.fcols = D; Ev e("write"); e.raw("sh", shp("m", D, D)).raw("x", js(x, false)).str("t", "r"); s.tell(e); return true;
}
template<class P> void tsession(Rng& g) {
	Stream s(g); bool odd = g.one_in(6);
	for(int k = 0; k < 4; k++) {
		if(g.coin()) s.fmt(odd); if(g.coin()) s.width();
		bool w = false; while(!w) switch(g.range(0, 10)) {
			case 9: w = mwrite<P, 2>(s); break; case 10: w = mwrite<P, 3>(s); break;
			case 0: w = twrite<P, 2, kSO>(s); break; case 1: w = twrite<P, 3, kSO>(s); break; case 2: w = twrite<P, 2, kSE>(s); break; case 3: w = twrite<P, 3, kSE>(s); break;
			case 4: w = twrite<P, 2, kSIM>(s); break; case 5: w = twrite<P, 3, kSIM>(s); break; case 6: w = slwrite<P, 2>(s); break; case 7: w = slwrite<P, 3>(s); break; default: w = slwrite<P, 4>(s); break;
		}
		if(odd) { s.reset(); continue; }
		int D = s.frows; bool sim = g.coin();
		if(g.one_in(5)) { if(g.coin()) vec<P, ReadV>(s, values(g, s.frows * s.fcols)); else mat<P, ReadM>(s, s.frows, s.fcols, values(g, s.frows * s.fcols)); }
		else if(s.form == 'o') { if(D == 2) tread<P, 2, kSO>(s); else tread<P, 3, kSO>(s); }
		else if(s.form == 'l') { if(D == 2) slread<P, 2>(s); else if(D == 3) slread<P, 3>(s); else slread<P, 4>(s); }
		else if(D == 2) { if(sim) tread<P, 2, kSIM>(s); else tread<P, 2, kSE>(s); } else { if(sim) tread<P, 3, kSIM>(s); else tread<P, 3, kSE>(s); }
	}
	s.reset();
}
// any transformation: what is read is what was written, up to the digits written
template<class P> struct Lm { static const int n = sizeof(P) == 4 ? 3 : 5; };
template<class P, class V> void nums(std::string& s, const V& v) { for(int i = 0; i < v.size(); i++) s += (s.size() > 1 ? "," : "") + limb((LD)v[i], Lm<P>::n); }
template<class P, int D, int K> std::string whole(const typename Tr<P, D, K>::T& t) { typedef Tr<P, D, K> R; std::string s = "["; Matrix<D, D, P> r = R::r(t); for(int i = 0; i < D; i++) nums<P>(s, r[i]); nums<P>(s, R::t(t)); Vector<1, P> q; q[0] = R::s(t); nums<P>(s, q); return s + "]"; }
template<class P, int D, int K> void nearly(Rng& g, const typename Tr<P, D, K>::T& t) {
	std::stringstream ss; ss << std::setprecision(std::numeric_limits<P>::max_digits10); if(g.coin()) ss << std::scientific; if(g.coin()) ss.width(g.range(1, 30));
	ss << t; typename Tr<P, D, K>::T u; ss >> u; Ev("near").i("L", Lm<P>::n).raw("x", whole<P, D, K>(t)).raw("y", whole<P, D, K>(u)).b("fail", ss.fail()).emit();
}
template<class P, int N> Vector<N, P> small(Rng& g) { Vector<N, P> v; for(int i = 0; i < N; i++) v[i] = P((g.unit() - .5) * 4); return v; }
template<class P> void nearby(Rng& g) {
	switch(g.range(0, 6)) {
		case 0: nearly<P, 2, kSO>(g, SO2<P>::exp(P((g.unit() - .5) * 6))); break;
		case 1: nearly<P, 3, kSO>(g, SO3<P>::exp(small<P, 3>(g))); break;
		case 2: nearly<P, 2, kSE>(g, SE2<P>(SO2<P>::exp(P((g.unit() - .5) * 6)), small<P, 2>(g))); break;
		case 3: nearly<P, 3, kSE>(g, SE3<P>(SO3<P>::exp(small<P, 3>(g)), small<P, 3>(g))); break;
		case 4: nearly<P, 2, kSIM>(g, SIM2<P>(SO2<P>::exp(P((g.unit() - .5) * 6)), small<P, 2>(g), P(.1 + g.unit() * 4))); break;
		case 5: nearly<P, 3, kSIM>(g, SIM3<P>(SO3<P>::exp(small<P, 3>(g)), small<P, 3>(g), P(.1 + g.unit() * 4))); break;
		default: { Vector<8, P> v = small<P, 8>(g); v /= P(4); SL<3, P> h(v), k; std::stringstream ss; ss << std::setprecision(std::numeric_limits<P>::max_digits10) << h; ss >> k; std::string x = "[", y = "["; for(int i = 0; i < 3; i++) { nums<P>(x, h.get_matrix()[i]); nums<P>(y, k.get_matrix()[i]); } Ev("near").i("L", Lm<P>::n).raw("x", x + "]").raw("y", y + "]").b("fail", ss.fail()).emit(); }
	}
}
}
#if PART == 7
void run7(Rng& g) { tsession<double>(g); for(int i = 0; i < 3; i++) nearby<double>(g); }
#else
void run8(Rng& g) { tsession<float>(g); for(int i = 0; i < 3; i++) nearby<float>(g); }
#endif
#elif PART == 9
int main(int c, char** v) {
	Args a(c, v); Rng g = a.rng();
	void (*p[])(Rng&) = {run1, run2, run3, run4, run5, run6, run7, run8};
	for(long n = 0; n < a.n; n++) p[(n + a.shard) % 8](g);
	return 0;
}
#endif
