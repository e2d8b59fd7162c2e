// Conformance harness for C17: golden_section_search and brent_line_search.
#include "numeric.h"
#include <TooN/TooN.h>
#include <TooN/optimization/golden_section.h>
#include <TooN/optimization/brent.h>
#include <map>
using namespace TooN;
using namespace H;
namespace {
template<class P> struct LM { static const int n = 5; };
template<> struct LM<float> { static const int n = 3; };
template<> struct LM<long double> { static const int n = 6; };
template<class P> std::string num(P v) { return limb((LD)v, LM<P>::n); }

template<class P> struct Fun {       // a function of one variable; those below NUNI have their only minimum at xs, monotone on both sides whatever the rounding
	static const int NUNI = 9, N = 15;
	int kind; P xs, k1, k2; uint64_t salt;
	mutable std::vector<std::pair<P, P>> log;
	P value(P x) const {
		P d = x - xs, m = d < 0 ? -d * k1 : d * k2;
		switch(kind) {
			case 0: return d * d;
			case 1: return m;
			case 2: return std::sqrt(m);
			case 3: return m * m * m;
			case 4: return std::expm1(m < 60 ? m : P(60) + (m - 60) / 64);
			case 5: return d < 0 ? m : m * m;
			case 6: return m > 2 ? std::numeric_limits<P>::infinity() : m * m;               // a wall at both sides (not strictly monotone beyond it)
			case 7: return std::log1p(m);
			case 8: return d > 0 ? m + 1 : m;                                                     // a jump
			case 9: return m * m - 5;
			case 10: return std::floor(m * 4);                                                       // plateaus
			case 11: { uint64_t h = salt, b = 0; memcpy(&b, &x, sizeof(P) < 8 ? sizeof(P) : 8); h = (h ^ b) * 0x9E3779B97F4A7C15ull; h ^= h >> 31; return P(h % 13); }
			case 12: return std::cos(x * k1) + m / 16;
			case 13: return d * d * (d - k1) * (d + k2);
			default: { P q = std::fabs(d); return q == k2 || q == k1 ? P(1) : (d > 0 ? std::fabs(d - k1 / 8) : q + k1 / 4); }
		}
	}
	P operator()(P x) const { P v = value(x); log.emplace_back(x, v); if(log.size() > 2000) throw 1; return v; }
};
template<class P> int rankof(const std::vector<P>& s, P v) { return (int)(std::lower_bound(s.begin(), s.end(), v) - s.begin()) + 1; }

template<class P> bool search(Rng& g) {
	Fun<P> f; f.kind = g.range(0, Fun<P>::N - 1); f.salt = g.next();
	static const P sc[] = {P(1), P(1) / 8, P(30), P(1) / 100};
	P s = sc[g.range(0, 3)];
	f.xs = g.one_in(4) ? P(0) : P(g.range(-400, 400)) / (g.coin() ? 16 : 7) * s; f.k1 = P(g.range(1, 40)) / 8; f.k2 = P(g.range(1, 40)) / 8;
	P a, b, c; int brent = g.range(0, 1), tries = 0;
	do {
		if(tries++ > 200) return false;
		a = f.xs - P(g.range(1, 300)) / 32 * s; c = f.xs + P(g.range(1, 300)) / 32 * s;
		b = g.one_in(8) ? f.xs : g.one_in(8) ? (a + c) / 2 : g.one_in(5) ? a + (c - a) / 1024 : a + (c - a) * P(g.range(1, 63)) / 64;
	} while(!(a < b && b < c && f.value(b) < f.value(a) && f.value(b) < f.value(c)));
	P fa = f.value(a), fb = f.value(b), fc = f.value(c);
	int max = g.one_in(4) ? g.range(0, 12) : g.range(30, 120);
	static const P tols[] = {P(1) / 8, P(1) / 128, P(1) / 1024, P(1) / 65536};
	P tol = tols[g.range(0, 3)], eps = P(g.range(1, 64)) / 4096;
	int form = g.range(0, 3); if(form == 0) { tol = std::sqrt(std::numeric_limits<P>::epsilon()); eps = std::numeric_limits<P>::epsilon(); } else if(form == 1) eps = std::numeric_limits<P>::epsilon();
	bool twice = !brent && g.coin();            // the form that evaluates f(b) itself
	f.log.clear(); Vector<2, P> r; bool over = false;
	try {
	if(brent) r = form == 0 ? brent_line_search(a, b, c, fb, f, max) : form == 1 ? brent_line_search(a, b, c, fb, f, max, tol) : brent_line_search(a, b, c, fb, f, max, tol, eps);
	else if(twice) r = form == 0 ? golden_section_search(a, b, c, f, max) : golden_section_search(a, b, c, f, max, tol);
	else r = form == 0 ? golden_section_search(a, b, c, fb, f, max) : golden_section_search(a, b, c, fb, f, max, tol);
	} catch(int) { over = true; }
	if(over) { Ev("runaway").i("evaluations", (long)f.log.size()).i("max", max).emit(); return true; }
	int limit = brent ? max : std::max(1, max); if(twice) limit++;
	std::vector<P> xs = {a, b, c, r[0]}, vs = {fa, fb, fc, r[1]};
	bool bad = false;
	for(auto& q : f.log) { xs.push_back(q.first); vs.push_back(q.second); if(!(q.first == q.first)) bad = true; }
	if(!bad) { std::sort(xs.begin(), xs.end()); xs.erase(std::unique(xs.begin(), xs.end()), xs.end()); std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end()); }
	auto P1 = [&](P x, P v) { return "{\"p\":" + std::to_string(bad ? 0 : rankof(xs, x)) + ",\"v\":" + std::to_string(bad ? 0 : rankof(vs, v)) + ",\"x\":" + num(x) + "}"; };
	Ev("begin").raw("a", P1(a, fa)).raw("b", P1(b, fb)).raw("c", P1(c, fc)).str("t", Prec<P>::n()).i("kind", f.kind).i("form", form).b("known", !twice).str("alg", brent ? "brent" : "golden").raw("tol", num(tol)).raw("eps", num(eps)).emit();
	if(bad) { Ev("eval").raw("u", "{\"p\":0,\"v\":0,\"x\":" + num(std::numeric_limits<P>::quiet_NaN()) + "}").emit(); return true; }
	for(auto& q : f.log) Ev("eval").raw("u", P1(q.first, q.second)).emit();
	Ev("return").str("alg", brent ? "brent" : "golden").i("p", rankof(xs, r[0])).i("v", rankof(vs, r[1])).raw("x", num(r[0])).raw("xs", num(f.xs)).b("uni", f.kind < Fun<P>::NUNI).i("max", limit).raw("tol", num(tol)).raw("eps", num(eps)).emit();
	return true;
}
}
int main(int c, char** v) {
	Args a(c, v); Rng g = a.rng();
	for(long n = 0; n < a.n; ) { int z = g.range(0, 3); if(z == 0 ? search<float>(g) : z == 1 ? search<long double>(g) : search<double>(g)) n++; }
	return 0;
}
