// Conformance harness for C18: ConjugateGradient and bracket_minimum_forward.
#include "numeric.h"
#include <TooN/TooN.h>
#include <TooN/optimization/conjugate_gradient.h>
#include <memory>
using namespace TooN;
using namespace H;
namespace {
template<class P> struct LM { static const int n = 5; };
template<> struct LM<float> { static const int n = 3; };
template<> struct LM<long double> { static const int n = 6; };
template<class P> std::string num(P v) { return limb((LD)v, LM<P>::n); }
template<class P, class V> std::string pt(const V& v) { std::string s = "["; for(int i = 0; i < v.size(); i++) s += (i ? "," : "") + num<P>(v[i]); return s + "]"; }

template<class P> struct Prob {            // objective functions of n variables with their gradients
	int kind, n; IMat q; IVec m; std::vector<P> w;
	bool rec = false; std::string log; int calls = 0; std::vector<P> vals;   // vals: the values found (not the NaNs)
	template<class V> P val(const V& x) const {
		P s = 0;
		switch(kind) {
			case 0: case 1: for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) s += (x[i] - m[i]) * P(q.at(i, j)) * (x[j] - m[j]) / 2; if(kind) for(int i = 0; i < n; i++) s += (x[i] - m[i]) * (x[i] - m[i]) * (x[i] - m[i]) * (x[i] - m[i]) / 16; return s;
			case 2: for(int i = 0; i + 1 < n; i++) s += (1 - x[i]) * (1 - x[i]) + 4 * (x[i + 1] - x[i] * x[i]) * (x[i + 1] - x[i] * x[i]); if(n == 1) s = (1 - x[0]) * (1 - x[0]); return s;
			case 3: for(int i = 0; i < n; i++) s += w[i] * x[i] - std::log(x[i] + 4); return s;                                  // not a number beyond -4
			case 4: for(int i = 0; i < n; i++) s -= std::sqrt(P(9) - (x[i] - m[i])); return s;                                     // lowest towards minus infinity ... bounded below by the next
			case 5: for(int i = 0; i < n; i++) s += std::sqrt(1 + w[i] * (x[i] - m[i]) * (x[i] - m[i])); return s;
			case 6: for(int i = 0; i < n; i++) s -= std::sqrt(P(8) - x[i] - m[i]) * -w[i]; return s;                               // falls until it is no number: x_i <= 8 - m_i
			case 7: for(int i = 0; i < n; i++) s += std::cos(x[i] * w[i]) + (x[i] - m[i]) * (x[i] - m[i]) / 8; return s;
			default: for(int i = 0; i < n; i++) s += x[i] - m[i] > 6 || x[i] - m[i] < -6 ? std::numeric_limits<P>::infinity() : (x[i] - m[i]) * (x[i] - m[i]) * w[i]; return s;
		}
	}
	template<class V> std::vector<P> grad(const V& x) const {
		std::vector<P> g(n);
		for(int i = 0; i < n; i++) switch(kind) {
			case 0: case 1: for(int j = 0; j < n; j++) g[i] += P(q.at(i, j)) * (x[j] - m[j]); if(kind) g[i] += (x[i] - m[i]) * (x[i] - m[i]) * (x[i] - m[i]) / 4; break;
			case 2: if(n == 1) g[i] = -2 * (1 - x[0]); else { if(i + 1 < n) g[i] += -2 * (1 - x[i]) - 16 * x[i] * (x[i + 1] - x[i] * x[i]); if(i) g[i] += 8 * (x[i] - x[i - 1] * x[i - 1]); } break;
			case 3: g[i] = w[i] - 1 / (x[i] + 4); break;
			case 4: g[i] = P(1) / (2 * std::sqrt(P(9) - (x[i] - m[i]))); break;
			case 5: g[i] = w[i] * (x[i] - m[i]) / std::sqrt(1 + w[i] * (x[i] - m[i]) * (x[i] - m[i])); break;
			case 6: g[i] = w[i] * P(-1) / (2 * std::sqrt(P(8) - x[i] - m[i])); break;
			case 7: g[i] = -w[i] * std::sin(x[i] * w[i]) + (x[i] - m[i]) / 4; break;
			default: g[i] = 2 * (x[i] - m[i]) * w[i]; break;
		}
		return g;
	}
	template<class V> P ask(const V& x) {
		P v = val(x);
		if(rec) for(int i = 0; i < n; i++) if(!(std::fabs(x[i]) < 3000)) throw 1;
		if(rec) { bool nan = !(v == v); if(++calls > 3000) throw 1; if(!nan) vals.push_back(v); log += (calls > 1 ? "," : "") + ("{\"x\":" + pt<P>(x)) + ",\"nan\":" + (nan ? "true" : "false") + ",\"f\":" + num<P>(v) + "}"; }
		return v;
	}
};
template<int N, class P> struct F { Prob<P>* p; P operator()(const Vector<N, P>& x) const { return p->ask(x); } };
template<int N, class P> struct D { Prob<P>* p; Vector<N, P> operator()(const Vector<N, P>& x) const { Vector<N, P> r(p->n); auto g = p->grad(x); for(int i = 0; i < p->n; i++) r[i] = g[i]; return r; } };

template<int N, class P> void session(Rng& g, int n, int len) {
	typedef ConjugateGradient<N, P> CG;
	Prob<P> pr; pr.n = n; static const int kinds[] = {0, 0, 1, 2, 3, 5, 6, 6, 7, 8, 0}; pr.kind = kinds[g.range(0, 10)];
	IMat a = rmat(g, n, n, -2, 2); pr.q = imul(itr(a), a); for(int i = 0; i < n; i++) pr.q.at(i, i) += 1 + g.range(0, 1); if(g.one_in(4)) { pr.q = iid(n); for(auto& x : pr.q.d) x *= 2; }
	pr.m = rvec(g, n, -3, 3); for(int i = 0; i < n; i++) pr.w.push_back(P(g.range(1, 16)) / 8);
	Vector<N, P> start(n); for(int i = 0; i < n; i++) start[i] = pr.kind == 3 ? P(g.range(-20, 40)) / 8 : g.one_in(5) ? P(pr.m[i]) : P(g.range(-32, 32)) / 8;
	F<N, P> f{&pr}; D<N, P> d{&pr};
	std::unique_ptr<CG> c;
	if(g.coin()) c.reset(new CG(start, f, d)); else c.reset(new CG(start, f, d(start)));
	P y0 = c->y;
	auto tell = [&](Ev& e, CG& c) {
		pr.rec = false;
		auto gr = pr.grad(c.x); Vector<N, P> gx(n); for(int i = 0; i < n; i++) gx[i] = gr[i];
		e.raw("ev", "[" + pr.log + "]").raw("x", pt<P>(c.x)).raw("y", num<P>(c.y)).raw("g", pt<P>(c.g)).raw("h", pt<P>(c.h)).raw("mh", pt<P>(c.minus_h)).raw("oy", num<P>(c.old_y)).i("it", c.iterations).raw("fy", num<P>(pr.val(c.x))).raw("gx", pt<P>(gx));
		if(c.iterations > 0) e.raw("ox", pt<P>(c.old_x)); 
		e.raw("og", pt<P>(c.old_g)).raw("oh", pt<P>(c.old_h)).i("max", c.max_iterations).raw("tol", num<P>(c.tolerance)).raw("eps", num<P>(c.epsilon));
		// the order of the values: r of the evaluations that are numbers, in turn, r0 before and r2 after
		std::vector<P> all = pr.vals; all.push_back(y0); all.push_back(c.y); std::sort(all.begin(), all.end()); all.erase(std::unique(all.begin(), all.end()), all.end());
		auto rank = [&](P v) { return (long)(std::lower_bound(all.begin(), all.end(), v) - all.begin()); };
		IVec r; for(auto v : pr.vals) r.push_back(rank(v)); e.v("r", r).i("r0", rank(y0)).i("r2", rank(c.y)); y0 = c.y;
		e.emit(); pr.log.clear(); pr.calls = 0; pr.vals.clear();
	};
	auto sq = [&](LD v) { return fx(v * v / std::numeric_limits<P>::epsilon(), 1000) * 10; };
	IVec df = {c->max_iterations, c->linesearch_max_iterations, sq(c->tolerance), sq(c->linesearch_tolerance), ex(c->bracket_initial_lambda * 10000), fx((LD)c->epsilon * 1e20L, 1000) * 10, fx((LD)c->linesearch_epsilon * 1e20L, 1000) * 10, fx((LD)c->bracket_epsilon * 1e20L, 1000) * 10};
	if(!(std::fabs(c->y) < 1e6)) return;
	{ Ev e("new"); e.i("n", n).i("L", LM<P>::n).raw("start", pt<P>(start)).v("defaults", df).str("t", Prec<P>::n()).i("kind", pr.kind); tell(e, *c); }
	if(g.coin()) c->tolerance = std::ldexp(P(1), -g.range(2, 20));
	if(g.one_in(5)) c->epsilon = P(1) / g.range(1, 50);
	if(g.one_in(4)) c->max_iterations = g.range(0, 4);
	if(g.coin()) c->bracket_initial_lambda = std::ldexp(P(1), g.range(-6, 2));
	if(g.one_in(4)) { c->bracket_epsilon = P(1) / 65536; c->linesearch_max_iterations = g.range(1, 30); }
	if(g.one_in(4)) { c->linesearch_tolerance = P(1) / 128; c->linesearch_epsilon = P(1) / 1024; }
	bool more = true;
	auto large = [&] { P big = 0; for(int j = 0; j < n; j++) big = std::max(big, std::max(std::fabs(c->x[j]), std::max(std::fabs(c->g[j]), std::fabs(c->h[j])))); return !(big < 200); };   // too large to follow
	if(large()) { Ev("forget").emit(); return; }
	for(int i = 0; i < len; i++) {
		if(more || g.one_in(3)) {
			pr.rec = true;
			try {
				if(g.one_in(5)) {
					c->find_next_point(f); more = !c->finished(); if(large()) break;
					{ Ev e("search"); e.b("cont", more); tell(e, *c); }
					if(!more) break;
					auto gr = pr.grad(c->x); bool z = true; for(auto v : gr) z = z && v == 0;
					Vector<N, P> o = c->g; P oo = 0; for(int j = 0; j < n; j++) oo += o[j] * o[j]; if(oo == 0) break;
					c->update_vectors_PR(d(c->x)); if(large()) break; Ev e("turn"); tell(e, *c);
				}
				else { more = c->iterate(f, d); if(large()) break; Ev e("iterate"); e.b("cont", more); tell(e, *c); }
			} catch(int) { Ev("runaway").str("t", Prec<P>::n()).i("kind", pr.kind).emit(); break; }
		}
		else { CG k(*c); Ev e("look"); tell(e, k); break; }
		if(!more && g.coin()) break;
	}
	Ev("forget").emit();
}
template<class P> struct Ray { int kind; P lo, hi, at; mutable std::vector<std::pair<P, P>> log;
	P value(P x) const {
		switch(kind) {
			case 0: return (x - at) * (x - at);
			case 1: return x >= hi ? std::numeric_limits<P>::quiet_NaN() : (x - at) * (x - at);
			case 2: return std::floor((x - at) * (x - at) / 2);
			case 3: return x > hi ? std::numeric_limits<P>::infinity() : std::fabs(x - at);
			case 4: return x > hi ? std::numeric_limits<P>::quiet_NaN() : -x;
			case 5: return x;
			case 6: return 3;
			case 7: return x > hi ? std::numeric_limits<P>::quiet_NaN() : std::ceil(std::fabs(x - at));
			case 8: return x > hi ? std::numeric_limits<P>::quiet_NaN() : x;
			default: return x > hi ? std::numeric_limits<P>::quiet_NaN() : std::floor(-x * 2) + (x > at ? 3 : 0);
		}
	}
	P operator()(P x) const { P v = value(x); log.emplace_back(x, v); if(log.size() > 3000) throw 1; return v; }
};
template<class P> int rk(const std::vector<P>& s, P v) { return (int)(std::lower_bound(s.begin(), s.end(), v) - s.begin()); }
template<class P> void bracket(Rng& g) {
	Ray<P> r; r.kind = g.range(0, 9); r.at = P(g.range(-40, 200)) / 16; r.lo = P(g.range(1, 200)) / 16; r.hi = r.lo + P(g.range(1, 200)) / 16; if(g.one_in(5)) r.at /= 1024;
	P lam = std::ldexp(P(1), g.range(-8, 4)) * (g.coin() ? 1 : P(3) / 7), z = g.coin() ? P(1e-20) : std::ldexp(P(1), -g.range(3, 20)), av = r.value(0);
	Matrix<3, 2, P> m;
	try { m = TooN::Internal::bracket_minimum_forward<P>(av, r, lam, z); } catch(int) { Ev("runaway").i("kind", r.kind).emit(); return; }
	std::vector<P> xs = {0, z, lam}, vs = {av};
	for(auto& q : r.log) { xs.push_back(q.first); if(q.second == q.second) vs.push_back(q.second); }
	std::sort(xs.begin(), xs.end()); xs.erase(std::unique(xs.begin(), xs.end()), xs.end()); std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
	int base = rk<P>(xs, 0);
	auto pos = [&](P x) { return std::binary_search(xs.begin(), xs.end(), x) ? rk(xs, x) - base : -1000; };
	auto val = [&](P v) { return std::binary_search(vs.begin(), vs.end(), v) ? rk(vs, v) + 1 : -1000; };
	bool none = true; for(int i = 0; i < 3; i++) for(int j = 0; j < 2; j++) none = none && m(i, j) == 0;
	std::string ev = "["; for(size_t i = 0; i < r.log.size(); i++) { auto& q = r.log[i]; bool nan = !(q.second == q.second); ev += (i ? "," : "") + ("{\"p\":" + std::to_string(pos(q.first))) + ",\"v\":" + std::to_string(nan ? 0 : val(q.second)) + ",\"nan\":" + (nan ? "true" : "false") + "}"; }
	auto row = [&](int i) { return "{\"p\":" + std::to_string(pos(m(i, 0))) + ",\"v\":" + std::to_string(val(m(i, 1))) + "}"; };
	Ev("bracket").i("av", val(av)).raw("ev", ev + "]").i("p0", pos(lam)).i("z", pos(z)).b("none", none).raw("a", row(0)).raw("b", row(1)).raw("c", row(2)).str("t", Prec<P>::n()).i("kind", r.kind).emit();
}
}
void run1(Rng& g); void run2(Rng& g); void run3(Rng& g);
#if PART == 1
void run1(Rng& g) { session<2, double>(g, 2, 12); session<3, double>(g, 3, 12); session<1, double>(g, 1, 8); session<4, double>(g, 4, 10); for(int i = 0; i < 10; i++) bracket<double>(g); }
#elif PART == 2
void run2(Rng& g) { session<Dynamic, double>(g, g.range(1, 4), 12); session<Dynamic, float>(g, g.range(1, 3), 8); session<Dynamic, long double>(g, g.range(1, 3), 10); for(int i = 0; i < 5; i++) bracket<float>(g); }
#elif PART == 3
void run3(Rng& g) { session<2, float>(g, 2, 10); session<3, long double>(g, 3, 10); session<3, float>(g, 3, 10); session<2, long double>(g, 2, 10); for(int i = 0; i < 5; i++) bracket<long double>(g); }
#elif PART == 4
int main(int c, char** v) {
	Args a(c, v); Rng g = a.rng();
	void (*p[])(Rng&) = {run1, run2, run3};
	for(long n = 0; n < a.n; n++) p[(n + a.shard) % 3](g);
	return 0;
}
#endif
