// Conformance harness for C16: DownhillSimplex with arbitrary objective functions.
#include "numeric.h"
#include <TooN/TooN.h>
#include <TooN/optimization/downhill_simplex.h>
#include <map>
#include <memory>
using namespace TooN;
using namespace H;
namespace {
const long INF = 100000000;
template<class P> struct LM { static const int n = 5; };
template<> struct LM<float> { static const int n = 3; };
template<> struct LM<long double> { static const int n = 6; };
template<class P> std::string num(P v) { return limb((LD)v, LM<P>::n); }
template<class P, class V> std::string pt(const V& v) { std::string s = "["; for(int i = 0; i < v.size(); i++) s += (i ? "," : "") + num<P>(v[i]); return s + "]"; }
template<class P> long iv(P v) { if(v == std::numeric_limits<P>::infinity()) return INF; if(v == -std::numeric_limits<P>::infinity()) return -INF; return ex(v); }

// An objective function: consistent, and otherwise whatever the kind says. Records the points at which it is asked.
template<class P> struct Obj {
	int kind = 0; uint64_t salt = 1; IVec a; std::vector<long> script; size_t next = 0;
	std::map<std::vector<P>, long> memo;
	bool rec = true; std::string log; int n = 0;
	void clear() { log.clear(); n = 0; }
	long value(const std::vector<P>& x) {
		uint64_t h = salt; for(P c : x) { double d = (double)c; uint64_t b; memcpy(&b, &d, 8); if(d == 0) b = 0; h = (h ^ b) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
		switch(kind) {
			case 0: return (long)(h % 7) - 3;
			case 1: { long r = h % 9; return r == 0 ? INF : r == 1 ? -INF : r == 2 ? INF : r - 4; }
			case 2: { LD s = 0; for(size_t i = 0; i < x.size(); i++) { LD d = x[i] - a[i]; s += d * d * (i + 1); if(i) s += (x[i] - a[i]) * (x[i - 1] - a[i - 1]); } s *= 1000; return s > 9e6L ? (long)9e6 : (long)floorl(s); }
			case 3: { LD s = 0; for(size_t i = 0; i < x.size(); i++) s += fabsl(x[i] - a[i]); return s > 9e6L ? (long)9e6 : (long)floorl(s * 3); }
			case 4: { LD s = 0; for(size_t i = 0; i + 1 < x.size(); i++) s += (1 - x[i]) * (1 - x[i]) + 100 * (x[i + 1] - x[i] * x[i]) * (x[i + 1] - x[i] * x[i]); s *= 100; return s > 9e6L ? INF : (long)floorl(s); }
			case 5: return INF;
			case 6: return 4;
			case 7: { LD s = 0; for(size_t i = 0; i < x.size(); i++) { if(x[i] < a[i]) return INF; s += x[i]; } return s > 1e4L ? (long)1e6 : (long)floorl(s * 100); }
			case 9: { LD s = 0; for(size_t i = 0; i < x.size(); i++) s += x[i] * (LD)(a[i] + (i == 0)); return fabsl(s) > 1e4L ? (s > 0 ? (long)1e6 : (long)-1e6) : (long)floorl(s * 100); }
			default: return next < script.size() ? script[next++] : (long)(h % 5);
		}
	}
	template<class V> P ask(const V& v) {
		std::vector<P> x; for(int i = 0; i < v.size(); i++) x.push_back((P)v[i]);
		auto it = memo.find(x);
		long r = it != memo.end() ? it->second : (memo[x] = value(x));
		if(rec) { log += (n++ ? "," : "") + ("{\"x\":" + pt<P>(v)) + ",\"f\":" + std::to_string(r) + "}"; }
		return r == INF ? std::numeric_limits<P>::infinity() : r == -INF ? -std::numeric_limits<P>::infinity() : (P)r;
	}
};
template<int N, class P> struct Plain { Obj<P>* o; P operator()(const Vector<N, P>& x) const { return o->ask(x); } };          // takes a vector of its type
template<int N, class P> struct Generic { Obj<P>* o; template<int M, class B> P operator()(const Vector<M, P, B>& x) const { return o->ask(x); } };   // any vector
inline void* current = nullptr;
template<int N, class P> P pointer(const Vector<N, P>& x) { return ((Obj<P>*)current)->ask(x); }

template<int N, class P> struct Session {
	typedef DownhillSimplex<N, P> DS;
	Obj<P> o; std::unique_ptr<DS> s; int n, form; Rng& g; P eps = 0, zeps = 0;
	Session(Rng& g_, int n_) : n(n_), form(g_.range(0, 2)), g(g_) {}
	template<class F> auto with(F f) { if(form == 0) { Plain<N, P> p{&o}; return f(p); } if(form == 1) { Generic<N, P> q{&o}; return f(q); } current = &o; return f(&pointer<N, P>); }
	Vector<N, P> vec(const IVec& c, P q) { Vector<N, P> v(n); for(int i = 0; i < n; i++) v[i] = P(c[i]) * q; return v; }
	bool sane() { P m = 0; for(int i = 0; i <= n; i++) for(int j = 0; j < n; j++) m = std::max(m, std::fabs(s->get_simplex()[i][j])); return m < 100; }
	void tell(Ev& e, int cont) {
		e.raw("ev", "[" + o.log + "]"); o.clear(); o.rec = false;
		std::string x = "["; IVec v, fv;
		for(int i = 0; i <= n; i++) { x += (i ? "," : "") + pt<P>(s->get_simplex()[i]); v.push_back(iv(s->get_values()[i])); fv.push_back(iv(o.ask(s->get_simplex()[i]))); }
		e.raw("x", x + "]").v("v", v).v("fv", fv).i("best", s->get_best() + 1).i("worst", s->get_worst() + 1).b("fin", s->finished()).i("cont", cont).raw("eps", num<P>(s->epsilon)).raw("zeps", num<P>(s->zero_epsilon));
		o.rec = true; e.emit();
	}
	void start(const IVec& c, P q, P spread) {
		o.clear(); auto v = vec(c, q);
		bool def = spread == 1 && g.coin();
		with([&](auto f) { if(def) s.reset(new DS(f, v)); else s.reset(new DS(f, v, spread)); return 0; });
		IVec d = {ex(s->alpha * 10000), ex(s->rho * 10000), ex(s->gamma * 10000), ex(s->sigma * 10000), fx((LD)s->epsilon * s->epsilon / std::numeric_limits<P>::epsilon(), 1000) * 10, fx((LD)s->zero_epsilon * 1e20L, 1000) * 10};
		Ev e("new"); e.i("n", n).i("L", LM<P>::n).raw("c", pt<P>(v)).raw("spread", num<P>(spread)).v("defaults", d); tell(e, -1);
	}
	void step() {
		o.clear(); int c = -1;
		if(g.one_in(4)) with([&](auto f) { s->find_next_point(f); return 0; }); else c = with([&](auto f) { return s->iterate(f); });
		if(!sane()) { o.clear(); return; }     // beyond what is followed
		Ev e("step"); tell(e, c);
	}
	void restart(P spread) { o.clear(); with([&](auto f) { s->restart(f, spread); return 0; }); Ev e("restart"); e.raw("spread", num<P>(spread)); tell(e, -1); }
	void restart_at(P spread) {
		o.clear(); int k = g.range(-1, n); Vector<N, P> c(n); if(k < 0) { for(int i = 0; i < n; i++) c[i] = P(g.range(-40, 40)) / 8; } else c = s->get_simplex()[k];
		with([&](auto f) { if(k < 0) s->restart(f, c, spread); else s->restart(f, s->get_simplex()[k], spread); return 0; });
		Ev e("restartat"); e.raw("c", pt<P>(c)).raw("spread", num<P>(spread)); tell(e, -1);
	}
	void tune() {
		auto pk = [&](int a, int b) { return P(g.range(a, b)) / 8; };
		s->alpha = pk(4, 12); s->rho = pk(9, 24); s->gamma = pk(1, 7); s->sigma = pk(1, 7);
		Ev("par").raw("al", num<P>(s->alpha)).raw("rho", num<P>(s->rho)).raw("ga", num<P>(s->gamma)).raw("sg", num<P>(s->sigma)).emit();
	}
	void random(int len) {
		o.kind = g.range(0, 9); o.salt = g.next(); o.a = rvec(g, n, -3, 3); if(o.kind == 8) o.kind = 0;
		P q = g.coin() ? P(1) : P(1) / 7; P sp = g.coin() ? P(1) : P(g.range(1, 40)) / 8; if(g.one_in(6)) sp = -sp;
		start(rvec(g, n, -5, 5), q, sp);
		if(g.coin()) { s->epsilon = ldexp(1, -g.range(1, 6)); if(g.coin()) s->zero_epsilon = P(g.range(1, 30)) / 100; }
		for(int i = 0; i < len && sane(); i++) {
			int z = g.range(0, 39);
			if(z == 0) tune();
			else if(z == 1) restart(P(g.range(1, 24)) / 8);
			else if(z == 2) restart_at(P(g.range(1, 24)) / 8);
			else if(z == 3) { DS t(*s); with([&](auto f) { o.rec = false; t.find_next_point(f); t.restart(f, 2); o.rec = true; return 0; }); Ev e("look"); o.clear(); tell(e, -1); }
			else step();
		}
		Ev("forget").emit();
	}
	void scripted(const Behaviour& b) {
		o.kind = 8; IVec c; for(int i = 1; i <= n; i++) c.push_back(i);
		for(auto& st : b) {
			for(size_t k = 1; k < st.size(); k++) o.script.push_back(atol(st[k].c_str()));
			if(st[0] == "new") start(c, 1, 4); else if(!sane()) break; else if(st[0] == "step") step(); else restart(4);
			o.script.clear(); o.next = 0;
		}
		Ev("forget").emit();
	}
};
template<int N, class P> void rnd(Rng& g, int n, int len) { Session<N, P>(g, n).random(len); }
template<int N, class P> void scr(Rng& g, int n, const Behaviour& b) { Session<N, P>(g, n).scripted(b); }
}
void run1(Rng& g); void run2(Rng& g); void run3(Rng& g);
void scr1(Rng& g, int n, const Behaviour& b); void scr2(Rng& g, int n, const Behaviour& b);
#if PART == 1
void run1(Rng& g) { rnd<2, double>(g, 2, 25); rnd<3, double>(g, 3, 20); rnd<1, double>(g, 1, 15); rnd<4, double>(g, 4, 15); }
void scr1(Rng& g, int n, const Behaviour& b) { if(n == 1) scr<1, double>(g, n, b); else if(n == 2) scr<2, double>(g, n, b); else scr<3, double>(g, n, b); }
#elif PART == 2
void run2(Rng& g) { rnd<-1, double>(g, g.range(1, 4), 25); rnd<-1, float>(g, g.range(1, 4), 15); rnd<-1, long double>(g, g.range(1, 3), 15); }
void scr2(Rng& g, int n, const Behaviour& b) { int z = g.range(0, 2); if(z == 0) scr<-1, double>(g, n, b); else if(z == 1) scr<-1, float>(g, n, b); else scr<-1, long double>(g, n, b); }
#elif PART == 3
void run3(Rng& g) { rnd<2, float>(g, 2, 20); rnd<3, long double>(g, 3, 20); rnd<2, long double>(g, 2, 15); rnd<3, float>(g, 3, 15); }
#elif PART == 4
int main(int c, char** v) {
	Args a(c, v); Rng g = a.rng();
	if(a.mode == "script") { auto bs = read_script(a.script); for(size_t k = a.shard; k < bs.size(); k += a.shards) { int n = (int)bs[k][0].size() - 2; if(g.coin()) scr1(g, n, bs[k]); else scr2(g, n, bs[k]); } Ev("forget").emit(); return 0; }
	void (*p[])(Rng&) = {run1, run2, run3};
	for(long n = 0; n < a.n; n++) p[(n + a.shard) % 3](g);
	return 0;
}
#endif
