// Numerical derivatives (spec/Deriv.tla): polynomials and functions of polynomials, whose evaluations are recorded.
#include "numeric.h"
#include <TooN/functions/derivatives.h>
#include <set>
using namespace TooN;
using namespace H;
void run1(Rng&); void run2(Rng&); void run3(Rng&);
#if PART < 4
namespace {
struct Mono { int c; int e[6]; };
struct Prob { int n; std::vector<Mono> m; int k[6]; int phi, sh; double rad; };
static const char* const PHI[] = {"id", "exp", "inv", "sqrt"};
template<class P> P poly(const Prob& p, const P* x) { P s = 0; for(auto& q : p.m) { P t = (P)q.c; for(int i = 0; i < p.n; i++) for(int k = 0; k < q.e[i]; k++) t *= x[i]; s += t; } return s; }
inline LD size(const Prob& p) { LD s = 1; for(auto& q : p.m) { LD t = std::abs(q.c); for(int i = 0; i < p.n; i++) for(int k = 0; k < q.e[i]; k++) t *= std::max(std::abs(p.k[i]) / 4.0L, 1.0L); s += t; } return s; }
// what was displaced, and how far, in thousandths of the step that fits the size of the coordinates
struct Log {
	struct G { IVec d; long far; long n; }; std::vector<G> g;
	void add(const IVec& d, long far) { if(!g.empty() && g.back().d == d) { g.back().far = std::max(g.back().far, far); g.back().n++; } else g.push_back(G{d, far, 1}); }
	void emit(const char* kind) { for(auto& x : g) { Ev e("eval"); e.str("kind", kind).v("d", x.d).i("far", x.far).i("n", x.n); e.emit(); } g.clear(); }
};
template<class P> struct Fn {
	const Prob& p; std::vector<P> x0; Log& log;
	template<class V> P operator()(const V& y) const {
		P z[6]; IVec d; LD scale = 1, far = 0; bool hole = false; const P S = std::ldexp(P(1), p.sh);
		for(int i = 0; i < p.n; i++) if(y[i] != x0[i]) { d.push_back(i + 1); scale = std::max(scale, fabsl((LD)x0[i])); }
		for(int i = 0; i < p.n; i++) { far = std::max(far, fabsl((LD)y[i] - (LD)x0[i])); z[i] = y[i] / S; }
		far = far / scale / 1e-3L; if(far > p.rad) hole = true;
		log.add(d, y.size() == p.n && far == far && far < 1000 ? (long)ceill(far * 1000 - 0.5L) : 1000000);
		if(hole) return std::numeric_limits<P>::quiet_NaN();
		P v = poly(p, z); using std::exp; using std::sqrt;
		return p.phi == 0 ? v : p.phi == 1 ? exp(v) : p.phi == 2 ? 1 / v : sqrt(v);
	}
};
template<class P> struct Go {
	const Prob& p; Rng& g;
	std::string pjs() const { std::string s = "["; for(auto& q : p.m) { s += (s.size() > 1 ? ",{\"c\":" : "{\"c\":") + std::to_string(q.c) + ",\"e\":["; for(int i = 0; i < p.n; i++) s += (i ? "," : "") + std::to_string(q.e[i]); s += "]}"; } return s + "]"; }
	template<class V> IVec quarters(const V& v) const { IVec r; for(int i = 0; i < v.size(); i++) { LD q = ldexpl((LD)v[i], 2 - p.sh); r.push_back(q == (LD)(long)q ? (long)q : 1000000); } return r; }
	template<class V> void grad(V& v, const Fn<P>& f, Log& log, LD S) const {
		log.g.clear(); auto r = numerical_gradient(f, v); static_assert(std::is_same<decltype(r[0] + P()), P>::value, ""); log.emit("grad");
		Ev e("grad"); e.str("t", Prec<P>::n()).i("L", Prec<P>::limbs).raw("g", lvec<P>(r, S)).raw("errs", "[]").v("k", quarters(v)); e.emit();
	}
	template<int N, class B> void more(Vector<N, P, B>& v, const Fn<P>& f, Log& log, LD S) const {
		for(int t = 0; t < 4; t++) switch(g.range(0, 3)) {
			case 0: grad(v, f, log, S); break;
			case 1: { log.g.clear(); auto r = numerical_gradient_with_errors(f, v); log.emit("grad"); Ev e("grad"); std::string s, u; if(r.num_rows() != v.size() || r.num_cols() != 2) { Ev("shape").emit(); return; }
				e.str("t", Prec<P>::n()).i("L", Prec<P>::limbs).raw("g", lvec<P>(r.T()[0], S)).raw("errs", lvec<P>(r.T()[1], S)).v("k", quarters(v)); e.emit(); break; }
			case 2: { log.g.clear(); auto r = numerical_hessian(f, v); log.emit("hess"); tell(r, "{\"r\":0,\"c\":0,\"d\":[]}", v, S); break; }
			default: { log.g.clear(); auto r = numerical_hessian_with_errors(f, v); log.emit("hess"); tell(r.first, lmat<P>(r.second, S * S), v, S); break; }
		}
	}
	template<class B> void more(Vector<Resizable, P, B>& v, const Fn<P>& f, Log& log, LD S) const { grad(v, f, log, S); }
	template<class M, class V> void tell(const M& r, const std::string& errs, const V& v, LD S) const {
		bool rough = Prec<P>::limbs == 3 && (p.sh >= 0 || p.rad < 1e5);      // floats have too few digits for second differences, unless the steps are large
		Ev e("hess"); e.str("t", Prec<P>::n()).i("L", Prec<P>::limbs).raw("h", lmat<P>(r, S * S)).raw("errs", errs).b("rough", rough).v("k", quarters(v)); e.emit();
	}
	template<class V> void operator()(V& v) const {
		const LD S = ldexpl(1, p.sh); std::vector<P> x0; for(int i = 0; i < p.n; i++) { v[i] = P(p.k[i] * S / 4); x0.push_back(v[i]); }
		LD z[6]; for(int i = 0; i < p.n; i++) z[i] = p.k[i] / 4.0L;
		LD y = poly(p, z); y = p.phi == 0 ? 0 : p.phi == 1 ? expl(y) : p.phi == 2 ? 1 / y : sqrtl(y);
		{ Ev e("pose"); e.raw("p", pjs()).v("k", IVec(p.k, p.k + p.n)).str("phi", PHI[p.phi]).raw("y", limb(y, Prec<P>::limbs)); e.emit(); }
		Log log; Fn<P> f{p, x0, log}; more(v, f, log, S);
	}
};
template<class P> Prob problem(Rng& g, int n) {
	for(;;) {
		Prob p; p.n = n; p.phi = g.coin() ? 0 : g.range(1, 3); p.sh = g.coin() ? 0 : g.coin() ? 12 : -6; p.rad = 1e9;
		if(p.phi && p.sh < 0) p.sh = 0;
		int K = g.range(g.one_in(10) ? 0 : 1, 6); for(int k = 0; k < K; k++) { Mono q; q.c = g.range(-3, 3); for(int& e : q.e) e = 0; int d = g.range(0, 4); for(int i = 0; i < d && n; i++) q.e[g.one_in(3) ? 0 : g.range(0, n - 1)]++; p.m.push_back(q); }
		for(int i = 0; i < 6; i++) do p.k[i] = g.range(-8, 8); while(p.sh > 0 && !p.k[i]);
		if(Prec<P>::limbs > 3 && g.one_in(3)) p.rad = pow(1.1, -g.range(1, 25));      // the function ends near x
		LD z[6]; for(int i = 0; i < 6; i++) z[i] = p.k[i] / 4.0L; LD v = poly(p, z);
		if(p.phi && size(p) > 50) continue; if(p.phi == 1 && !(v > -3 && v < 1.5L)) continue; if(p.phi > 1 && !(v >= 1 && v <= 8)) continue;
		return p;
	}
}
template<class P> void many(Rng& g) {
	int n = g.range(1, 4); bool ok;
	if(g.coin()) { Prob p = problem<P>(g, n); Go<P> go{p, g}; IVec z(n, 0); int k = g.range(0, NVK - 1);
		switch(n) { case 1: ok = with_vec<1, P>(k, z, go); break; case 2: ok = with_vec<2, P>(k, z, go); break; case 3: ok = with_vec<3, P>(k, z, go); break; default: ok = with_vec<4, P>(k, z, go); } }
	else { n = g.range(g.one_in(6) ? 0 : 1, 6); Prob p = problem<P>(g, n); ok = with_dvec<P>(dvk[g.range(0, NDVK - 1)], IVec(n, 0), Go<P>{p, g}); }
	if(!ok) Ev("guard").emit();
}
}
#endif
#if PART == 1
void run1(Rng& g) { many<double>(g); }
#elif PART == 2
void run2(Rng& g) { many<long double>(g); }
#elif PART == 3
void run3(Rng& g) { many<float>(g); }
#else
int main(int c, char** v) {
	Args a(c, v); Rng g = a.rng();
	for(long n = 0; n < a.n; n++) switch((n + a.shard) % 4) { case 0: case 1: run1(g); break; case 2: run2(g); break; default: run3(g); }
	return 0;
}
#endif
