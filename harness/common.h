// Shared by every conformance harness: trace output, random choices, exact number logging.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <functional>
#include <exception>
#include <iostream>
#include <sstream>
#include <fstream>
#include <complex>
#include <utility>
#include <algorithm>
#include <unistd.h>
#include <signal.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/resource.h>

namespace H {
// Values that no specification value equals: not finite, out of range, not an integer.
static const long BAD = 1000000000L;      // NaN / infinity / too big
static const long FRAC = 999999999L;      // finite but not an integer where one is required
static const long LIM = 900000000L;

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
	uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	int range(int lo, int hi) { return lo + (int)(next() % (uint64_t)(hi - lo + 1)); }
	bool coin() { return next() & 1; }
	bool one_in(int n) { return next() % n == 0; }
	double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	template<class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};

inline long ex(double v) {                 // exact integer
	if(!(v == v) || std::fabs(v) > LIM) return BAD;
	double r = std::floor(v + 0.5);
	return r == v ? (long)r : FRAC;
}
inline long ex(float v) { return ex((double)v); }
inline long ex(long double v) { if(!(v == v) || fabsl(v) > LIM) return BAD; long double r = floorl(v + 0.5L); return r == v ? (long)r : FRAC; }
inline long ex(int v) { return v > LIM || v < -LIM ? BAD : v; }
inline long ex(long v) { return v > LIM || v < -LIM ? BAD : v; }
inline long ex(unsigned v) { return v > LIM ? BAD : v; }
inline long fx(long double v, double scale) {   // fixed point, nearest
	long double s = v * scale;
	if(!(s == s)) return BAD;
	if(fabsl(s) > LIM) return BAD;
	return (long)std::floor((double)(s + 0.5L));
}

struct Out {
	FILE* f = nullptr;
	long n = 0;
	void open(const char* p) { f = fopen(p, "w"); if(!f) { perror(p); exit(3); } }
	void line(const std::string& s) { fputs(s.c_str(), f); fputc('\n', f); fflush(f); n++; }
};
inline Out& out() { static Out o; return o; }

template<class C> std::string jv(const C& c) { std::string s = "["; bool first = true; for(const auto& x : c) { if(!first) s += ","; first = false; s += std::to_string((long)x); } return s + "]"; }
inline std::string jq(const std::string& x) { std::string s = "\""; for(char c : x) { if(c == '"' || c == '\\') { s += '\\'; s += c; } else if(c == '\n') s += "\\n"; else if((unsigned char)c < 32) s += ' '; else s += c; } return s + "\""; }

class Ev {
	std::string s;
	bool done = false;
public:
	explicit Ev(const std::string& op) { s = "{\"op\":" + jq(op); }
	Ev& i(const char* k, long v) { s += ",\"" + std::string(k) + "\":" + std::to_string(v); return *this; }
	Ev& b(const char* k, bool v) { s += ",\"" + std::string(k) + "\":" + (v ? "true" : "false"); return *this; }
	Ev& str(const char* k, const std::string& v) { s += ",\"" + std::string(k) + "\":" + jq(v); return *this; }
	Ev& raw(const char* k, const std::string& v) { s += ",\"" + std::string(k) + "\":" + v; return *this; }
	template<class C> Ev& v(const char* k, const C& c) { return raw(k, jv(c)); }
	void emit() { if(!done) { done = true; out().line(s + "}"); } }
	~Ev() { }
};

// Plain value types of the abstract state
typedef std::vector<long> IVec;
struct IMat {
	int r = 0, c = 0;
	std::vector<long> d;
	IMat() {}
	IMat(int r_, int c_) : r(r_), c(c_), d(r_ * c_, 0) {}
	long& at(int i, int j) { return d[i * c + j]; }
	long at(int i, int j) const { return d[i * c + j]; }
	std::string json() const { return "{\"r\":" + std::to_string(r) + ",\"c\":" + std::to_string(c) + ",\"d\":" + jv(d) + "}"; }
};
inline IVec rvec(Rng& g, int n, int lo, int hi) { IVec v(n); for(auto& x : v) x = g.range(lo, hi); return v; }
inline IMat rmat(Rng& g, int r, int c, int lo, int hi) { IMat m(r, c); for(auto& x : m.d) x = g.range(lo, hi); return m; }

template<class V> IVec getv(const V& v) { IVec r; for(int i = 0; i < v.size(); i++) r.push_back(ex(v[i])); return r; }
template<class M> IMat getm(const M& m) { IMat r(m.num_rows(), m.num_cols()); for(int i = 0; i < r.r; i++) for(int j = 0; j < r.c; j++) r.at(i, j) = ex(m(i, j)); return r; }
template<class V> IVec getvx(const V& v, double sc) { IVec r; for(int i = 0; i < v.size(); i++) r.push_back(fx(v[i], sc)); return r; }
template<class M> IMat getmx(const M& m, double sc) { IMat r(m.num_rows(), m.num_cols()); for(int i = 0; i < r.r; i++) for(int j = 0; j < r.c; j++) r.at(i, j) = fx(m(i, j), sc); return r; }

// 0: returned, 1: the library reported an error (exception in the test-internals build)
template<class F> int attempt(F f) { try { f(); return 0; } catch(...) { return 1; } }

// Run f in a child. 0: returned normally; otherwise the signal number (SIGABRT=6), or 1000 for another exit.
template<class F> int in_child(F f) {
	fflush(nullptr);
	pid_t p = fork();
	if(p == 0) {
		fclose(stderr); fclose(stdout);
		struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
		alarm(20);
		try { f(); } catch(...) { _exit(9); }
		_exit(0);
	}
	int st = 0;
	waitpid(p, &st, 0);
	if(WIFSIGNALED(st)) return WTERMSIG(st);
	if(WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
	return 1000 + WEXITSTATUS(st);
}

// A script generated from the specification: behaviours of steps, each a list of fields.
typedef std::vector<std::vector<std::string>> Behaviour;
inline std::vector<Behaviour> read_script(const std::string& file) {
	std::vector<Behaviour> r; std::ifstream f(file); std::string l;
	while(std::getline(f, l)) { if(l == "B") { r.emplace_back(); continue; } std::istringstream is(l); std::vector<std::string> t; std::string x; while(is >> x) t.push_back(x); if(!t.empty()) r.back().push_back(t); }
	return r;
}

// A library that ends the program (LAPACK does) does not end it unnoticed: only a return from main is an end.
inline bool& finished() { static bool f = false; return f; }
struct Args {
	std::string mode = "rand", script, outp = "/dev/stdout";
	uint64_t seed = 1; long n = 100; int shard = 0, shards = 1;
	Args(int argc, char** argv) {
		for(int i = 1; i + 1 < argc; i += 2) {
			std::string k = argv[i], v = argv[i + 1];
			if(k == "--mode") mode = v; else if(k == "--script") script = v; else if(k == "--out") outp = v;
			else if(k == "--seed") seed = strtoull(v.c_str(), 0, 10); else if(k == "--n") n = atol(v.c_str());
			else if(k == "--shard") shard = atoi(v.c_str()); else if(k == "--shards") shards = atoi(v.c_str());
		}
		out().open(outp.c_str());
		finished(); atexit([] { if(!finished()) { fflush(nullptr); _exit(97); } });
	}
	~Args() { finished() = true; }
	Args(const Args&) = delete;
	Rng rng() const { return Rng(seed * 1000003 + shard * 7919 + 17); }
};
}
