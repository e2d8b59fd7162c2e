// C13: histories of WLS and IRLS accumulators.
#include "numeric.h"
#include <memory>
#include <map>
#include <TooN/wls.h>
#include <TooN/irls.h>
#include <TooN/SymEigen.h>
#include <TooN/Lapack_Cholesky.h>
using namespace H;
using namespace TooN;
// long double: measurements multiplied by a factor that only long double has; everything is divided by it again
template<class P> struct Fac { static P f() { return 1; } };
template<> struct Fac<long double> { static long double f() { return 1 + ldexpl(1, -54); } };
template<class P, class M> std::string lmatd(const M& m, P f) { Matrix<Dynamic, Dynamic, P> q(m.num_rows(), m.num_cols()); for(int i = 0; i < q.num_rows(); i++) for(int j = 0; j < q.num_cols(); j++) q(i, j) = m(i, j) / f; return lmat<P>(q); }
template<class P, class V> std::string lvecd(const V& v, P f) { Vector<Dynamic, P> q(v.size()); for(int i = 0; i < q.size(); i++) q[i] = v[i] / f; return lvec<P>(q); }
inline IMat symmat(Rng& g, int n, int lo, int hi) { IMat m(n, n); for(int i = 0; i < n; i++) for(int j = i; j < n; j++) m.at(i, j) = m.at(j, i) = g.range(lo, hi); return m; }

template<class W> struct Spec;       // what can be said about a type
template<int N, class P, template<int, class> class D> struct Spec<WLS<N, P, D>> { static const int S = N; typedef P T; };
template<int N, class P, template<class> class R> struct Spec<IRLS<N, P, R>> { static const int S = N; typedef P T; };
template<class P> const char* rname(const RobustI<P>&) { return "I"; }
template<class P> const char* rname(const RobustII<P>&) { return "II"; }
template<class P> const char* rname(const RobustIII<P>&) { return "III"; }
template<class P> const char* rname(const ILinear<P>&) { return "L"; }

// the vector that is passed has the accumulator's own size type
template<int N, class P, class F> void jac(Rng& g, const IVec& v, F f) {
	switch(g.range(0, 3)) {
		case 0: { Vector<N, P> x(v.size()); setv(x, v); f(x); break; }
		case 1: { Matrix<N, 3, P> m(v.size(), 3); guardm(m); auto c = m.T()[1]; setv(c, v); f(c); break; }
		case 2: { Matrix<2, N, P> m(2, v.size()); guardm(m); auto c = m[1]; setv(c, v); f(c); break; }
		default: { std::vector<P> buf(v.size() + 2, P(GUARD)); Vector<N, P, Reference> x(&buf[1], v.size()); setv(x, v); f(x); }
	}
}
template<int R, int C, class P, class F> void mat(Rng& g, const IMat& v, F f) {
	switch(g.range(0, 4)) {
		case 0: { Matrix<R, C, P> x(v.r, v.c); setm(x, v); f(x); break; }
		case 1: { Matrix<R, C, P, ColMajor> x(v.r, v.c); setm(x, v); f(x); break; }
		case 2: { Matrix<C, R, P> x(v.c, v.r); auto y = x.T(); setm(y, v); f(y); break; }
		case 3: { Matrix<Dynamic, Dynamic, P> big(v.r + 1, v.c + 2); guardm(big); Matrix<R, C, P, Reference::RowMajor>* z = 0; (void)z; Matrix<R, C, P> x(v.r, v.c); setm(x, v); f(x); break; }
		default: { std::vector<P> buf(v.r * v.c + 2, P(GUARD)); Matrix<R, C, P, Reference::ColMajor> x(&buf[1], v.r, v.c); setm(x, v); f(x); }
	}
}
template<class P, class W> void obs(W& w, int k, P f, bool computed, bool exact) {
	Ev e("obs"); e.i("k", k).b("exact", exact && f == 1).raw("C", lmatd<P>(w.get_C_inv(), f * f)).raw("v", lvecd<P>(w.get_vector(), f)).raw("mu", computed ? lvecd<P>(w.get_mu(), 1 / f) : "[]").emit();
}
// everything a WLS can be told; returns false if o was not applicable
template<class W> bool tell(W& w, int k, int n, int o, Rng& g, typename Spec<W>::T f) {
	typedef typename Spec<W>::T P; const int N = Spec<W>::S; IMat L; Ev e0("");
	auto scaled = [&](auto& x) { for(int i = 0; i < x.num_rows(); i++) for(int j = 0; j < x.num_cols(); j++) x(i, j) *= f; };
	auto scalev = [&](auto& x) { for(int i = 0; i < x.size(); i++) x[i] *= f; };
	auto unv = [&](const auto& x) { IVec r; for(int i = 0; i < x.size(); i++) r.push_back(ex(x[i] / f)); return r; };
	auto unm = [&](const auto& x) { IMat r(x.num_rows(), x.num_cols()); for(int i = 0; i < r.r; i++) for(int j = 0; j < r.c; j++) r.at(i, j) = ex(x(i, j) / f); return r; };
	switch(o) {
		case 0: { w.clear(); Ev e("clear"); e.i("k", k).emit(); return true; }
		case 1: { int x = g.range(-1, 6); w.add_prior(P(x) * f * f); Ev e("priors"); e.i("k", k).i("x", x).emit(); return true; }
		case 2: { jac<N, P>(g, rvec(g, n, 0, 9), [&](auto& x) { x *= f; x *= f; w.add_prior(x); x /= f; Ev e("priorv"); e.i("k", k).v("x", unv(x)).emit(); }); return true; }
		case 3: { mat<N, N, P>(g, symmat(g, n, -4, 9), [&](auto& x) { scaled(x); scaled(x); w.add_prior(x); x /= f; Ev e("priorm"); e.i("k", k).raw("x", unm(x).json()).emit(); }); return true; }
		case 8: { int b = g.range(1, n), at = g.range(0, n - b); P m = g.range(-5, 5); IVec J = rvec(g, b, -3, 3); int wt = g.range(1, 3);
			auto go = [&](auto& x) { scalev(x); int said = wt; if(wt == 1 && g.coin()) w.add_sparse_mJ(m, x, at); else w.add_sparse_mJ(m, x, at, P(wt)); Ev e("sp"); e.i("k", k).i("m", ex(m)).v("J", unv(x)).i("at", at).i("w", said).emit(); };
			if(b == 1 && g.coin()) jac<1, P>(g, J, go); else if(b == 2 && g.coin()) jac<2, P>(g, J, go); else jac<Dynamic, P>(g, J, go); return true; }
		case 9: { int b = g.range(1, n), at = g.range(0, n - b), q = g.range(1, 3); IVec m = rvec(g, q, -5, 5);
			auto go = [&](auto& mm, auto& J, auto& C) { scaled(J); w.add_sparse_mJ_rows(mm, J, at, C); Ev e("spr"); e.i("k", k).v("m", getv(mm)).raw("J", unm(J).json()).i("at", at).raw("W", getm(C).json()).emit(); };
			IMat J = rmat(g, q, b, -3, 3), C = symmat(g, q, -1, 3);
			if(q == 2 && b == 1 && g.coin()) jac<2, P>(g, m, [&](auto& a) { mat<2, 1, P>(g, J, [&](auto& x) { mat<2, 2, P>(g, C, [&](auto& c) { go(a, x, c); }); }); });
			else if(q == 1 && b == 2 && g.coin()) jac<1, P>(g, m, [&](auto& a) { mat<1, 2, P>(g, J, [&](auto& x) { mat<1, 1, P>(g, C, [&](auto& c) { go(a, x, c); }); }); });
			else jac<Dynamic, P>(g, m, [&](auto& a) { mat<Dynamic, Dynamic, P>(g, J, [&](auto& x) { mat<Dynamic, Dynamic, P>(g, C, [&](auto& c) { go(a, x, c); }); }); }); return true; }
		case 10: { int b = g.range(1, n), at = g.range(0, n - b), b2 = g.range(1, n), at2 = g.range(0, n - b2), q = g.range(1, 3); IVec m = rvec(g, q, -5, 5);
			auto go = [&](auto& mm, auto& J, auto& J2, auto& C) { scaled(J); scaled(J2); w.add_sparse_mJ_rows(mm, J, at, J2, at2, C); Ev e("spr2"); e.i("k", k).v("m", getv(mm)).raw("J1", unm(J).json()).i("at1", at).raw("J2", unm(J2).json()).i("at2", at2).raw("W", getm(C).json()).emit(); };
			IMat J = rmat(g, q, b, -3, 3), J2 = rmat(g, q, b2, -3, 3), C = symmat(g, q, -1, 3);
			if(q == 2 && b == 1 && b2 == 2) jac<2, P>(g, m, [&](auto& a) { mat<2, 1, P>(g, J, [&](auto& x) { mat<2, 2, P>(g, J2, [&](auto& y) { mat<2, 2, P>(g, C, [&](auto& c) { go(a, x, y, c); }); }); }); });
			else jac<Dynamic, P>(g, m, [&](auto& a) { mat<Dynamic, Dynamic, P>(g, J, [&](auto& x) { mat<Dynamic, Dynamic, P>(g, J2, [&](auto& y) { mat<Dynamic, Dynamic, P>(g, C, [&](auto& c) { go(a, x, y, c); }); }); }); }); return true; }
		default: return false;
	}
}
template<class W> void measure(W& w, int k, int n, int o, Rng& g, typename Spec<W>::T f) {     // measurements of WLS that IRLS hides
	typedef typename Spec<W>::T P; const int N = Spec<W>::S;
	auto scaled = [&](auto& x) { for(int i = 0; i < x.num_rows(); i++) for(int j = 0; j < x.num_cols(); j++) x(i, j) *= f; };
	auto unm = [&](const auto& x) { IMat r(x.num_rows(), x.num_cols()); for(int i = 0; i < r.r; i++) for(int j = 0; j < r.c; j++) r.at(i, j) = ex(x(i, j) / f); return r; };
	switch(o) {
		case 4: { P m = g.range(-5, 5); int wt = g.range(0, 3); IVec J = rvec(g, n, -3, 3);
			if(f == 1 && g.one_in(3)) { Vector<N, int> x(n); setv(x, J); w.add_mJ(m, x, P(wt)); Ev e("mJ"); e.i("k", k).i("m", ex(m)).v("J", getv(x)).i("w", wt).emit(); return; }
			if(f == 1 && g.one_in(3)) { Vector<N, float> x(n); setv(x, J); w.add_mJ(m, x, P(wt)); Ev e("mJ"); e.i("k", k).i("m", ex(m)).v("J", getv(x)).i("w", wt).emit(); return; }
			jac<N, P>(g, J, [&](auto& x) { x *= f; if(wt == 1 && g.coin()) w.add_mJ(m, x); else w.add_mJ(m, x, P(wt)); x /= f; Ev e("mJ"); e.i("k", k).i("m", ex(m)).v("J", getv(x)).i("w", wt).emit(); }); return; }
		case 5: { int q = g.range(0, 4), wt = g.range(1, 3); IVec m = rvec(g, q, -5, 5); IMat J = rmat(g, q, n, -3, 3);
			auto go = [&](auto& mm, auto& x) { scaled(x); if(wt == 1 && g.coin()) w.add_mJ(mm, x); else w.add_mJ(mm, x, P(wt)); Ev e("mJs"); e.i("k", k).v("m", getv(mm)).raw("J", unm(x).json()).i("w", wt).emit(); };
			if(q == 2 && g.coin()) jac<2, P>(g, m, [&](auto& a) { mat<2, N, P>(g, J, [&](auto& x) { go(a, x); }); });
			else jac<Dynamic, P>(g, m, [&](auto& a) { mat<Dynamic, N, P>(g, J, [&](auto& x) { go(a, x); }); }); return; }
		case 6: { int q = g.range(1, 4); IVec m = rvec(g, q, -5, 5); IMat J = rmat(g, n, q, -3, 3), C = symmat(g, q, -1, 3);
			auto go = [&](auto& mm, auto& x, auto& c) { scaled(x); w.add_mJ(mm, x, c); Ev e("cov"); e.i("k", k).v("m", getv(mm)).raw("J", unm(x).json()).raw("W", getm(c).json()).emit(); };
			if(q == 2 && g.coin()) jac<2, P>(g, m, [&](auto& a) { mat<N, 2, P>(g, J, [&](auto& x) { mat<2, 2, P>(g, C, [&](auto& c) { go(a, x, c); }); }); });
			else jac<Dynamic, P>(g, m, [&](auto& a) { mat<N, Dynamic, P>(g, J, [&](auto& x) { mat<Dynamic, Dynamic, P>(g, C, [&](auto& c) { go(a, x, c); }); }); }); return; }
		case 7: { int q = g.range(1, 4); IVec m = rvec(g, q, -5, 5); IMat J = rmat(g, q, n, -3, 3), C = symmat(g, q, -1, 3);
			auto go = [&](auto& mm, auto& x, auto& c) { scaled(x); w.add_mJ_rows(mm, x, c); Ev e("rows"); e.i("k", k).v("m", getv(mm)).raw("J", unm(x).json()).raw("W", getm(c).json()).emit(); };
			if(q == 2 && g.coin()) jac<2, P>(g, m, [&](auto& a) { mat<2, N, P>(g, J, [&](auto& x) { mat<2, 2, P>(g, C, [&](auto& c) { go(a, x, c); }); }); });
			else jac<Dynamic, P>(g, m, [&](auto& a) { mat<Dynamic, N, P>(g, J, [&](auto& x) { mat<Dynamic, Dynamic, P>(g, C, [&](auto& c) { go(a, x, c); }); }); }); return; }
	}
}
// compute, if the answer is determined to working precision
template<class P, class W> bool solve(W& w, int k, int n, P f, Rng& g) {
	IMat c(n, n); long nm = 0, vm = 1;
	for(int i = 0; i < n; i++) { long s = 0; for(int j = 0; j < n; j++) { P x = w.get_C_inv()(std::min(i, j), std::max(i, j)) / f / f; c.at(i, j) = lround((double)x); s += labs(c.at(i, j)) + 1; } nm = std::max(nm, s); vm = std::max(vm, (long)fabs((double)(w.get_vector()[i] / f)) + 1); }
	for(int i = 1; i <= n; i++) {      // positive definite?
		std::vector<LD> a; for(int r = 0; r < i; r++) for(int q = 0; q < i; q++) a.push_back(c.at(r, q)); LD d = 1;
		for(int p = 0; p < i; p++) { LD x = a[p * i + p]; if(x <= 1e-3L) return false; d *= x; for(int r = p + 1; r < i; r++) { LD y = a[r * i + p] / x; for(int q = p; q < i; q++) a[r * i + q] -= y * a[p * i + q]; } } }
	int rank; int cd = pcond(c, &rank); if(cd == 0 || rank < n || cd > Prec<P>::maxcd) return false;
	LD least = sigmas(c).back(), mu = vm * sqrtl(n) / least + 1; if(nm * mu * n > (Prec<P>::limbs == 3 ? 5e3L : 5e5L)) return false;
	w.compute();
	{ Ev e("comp"); e.i("k", k).raw("mu", lvecd<P>(w.get_mu(), 1 / f)).emit(); }
	obs<P>(w, k, f, true, f == 1);
	IMat b = rmat(g, n, 1, -4, 4); { Vector<Dynamic, P> q(n); setv(q, b.d); const W& cw = w; auto x = cw.get_decomposition().backsub(q); x *= f; x *= f; IMat s; Ev e("dec"); e.i("k", k).raw("x", lcol<P>(x)).raw("b", b.json()).emit(); }
	return true;
}
template<class W> void history(Rng& g, int n, int steps) {
	typedef typename Spec<W>::T P; P f = g.coin() ? Fac<P>::f() : P(1);
	{ Ev e("forget"); e.emit(); }
	std::vector<std::unique_ptr<W>> o; std::vector<bool> done; int K = 2;
	auto isnew = [&](int k) { Ev e("new"); e.i("k", k).i("n", n).i("L", Prec<P>::limbs).emit(); };
	for(int k = 0; k < K; k++) { o.emplace_back(new W(n)); done.push_back(false); isnew(k); obs<P>(*o[k], k, f, false, true); }
	for(int s = 0; s < steps; s++) {
		int k = g.range(0, K - 1), big = 0; W& w = *o[k];
		for(int i = 0; i < n; i++) for(int j = i; j < n; j++) big |= !(std::fabs((double)w.get_C_inv()(i, j)) < 1500); for(int i = 0; i < n; i++) big |= !(std::fabs((double)w.get_vector()[i]) < 1500);
		int op = big ? 0 : g.range(0, 16); if(op == 0 && !big && g.one_in(2)) op = 4;
		if(!tell(w, k, n, op, g, f)) {
			if(op >= 4 && op <= 7) measure(w, k, n, op, g, f);
			else if(op == 11) { int j = g.range(0, K - 1); w += *o[j]; { Ev e("merge"); e.i("k", k).i("j", j).emit(); } obs<P>(*o[j], j, f, done[j], true); }
			else if(op == 12) { int j = 1 - k; if(g.coin()) w = *o[j]; else o[k].reset(new W(*o[j])); done[k] = done[j]; { Ev e("copy"); e.i("k", k).i("j", j).emit(); } obs<P>(*o[k], k, f, done[k], true); w.get_C_inv(); continue; }
			else if(op == 13 && K < 3) { const W& cw = *o[1 - k]; obs<P>(cw, 1 - k, f, done[1 - k], true); continue; }
			else { if(g.coin()) { int x = 40; w.add_prior(P(x) * f * f); Ev e("priors"); e.i("k", k).i("x", x).emit(); } if(solve<P>(w, k, n, f, g)) done[k] = true; continue; }
		}
		obs<P>(*o[k], k, f, done[k], true);
	}
	for(int k = 0; k < K; k++) obs<P>(*o[k], k, f, done[k], true);
}
template<class W> void irhist(Rng& g, int n, int steps) {
	typedef typename Spec<W>::T P;
	{ Ev e("forget"); e.emit(); }
	std::vector<std::unique_ptr<W>> o; std::vector<bool> done; int K = 2; std::vector<int> sd;
	auto tru = [&](int k) { obs<P>(*o[k], k, P(1), done[k], false); Ev e("tru"); const W& c = *o[k]; e.i("k", k).b("exact", false).raw("T", lmat<P>(c.get_true_C_inv())).raw("res", lnum<P>(o[k]->get_residual())).emit(); };
	for(int k = 0; k < K; k++) { o.emplace_back(new W(n)); done.push_back(false); sd.push_back(g.range(1, 3)); o[k]->set_sd(sd[k]); { Ev e("new"); e.i("k", k).i("n", n).i("L", Prec<P>::limbs).emit(); } tru(k); }
	for(int s = 0; s < steps; s++) {
		int k = g.range(0, K - 1); W& w = *o[k]; int op = g.range(0, 13); if((op == 0 && g.coin()) || op > 11) op = 4;
		if(op == 11) { int j = g.range(0, K - 1); if(w.get_residual() > 400) op = 0; else { w += *o[j]; { Ev e("merge"); e.i("k", k).i("j", j).emit(); } tru(j); } }
		if(op >= 4 && op <= 7) {
			int m = g.range(-7, 7); if(g.coin()) { static const int nice[] = {0, 1, -1, 3, -3, 7, 2, -2}; m = nice[g.range(0, 7)]; }
			IVec J = rvec(g, n, -3, 3);
			auto lg = [&](auto& x) { Ev e("irmJ"); e.i("k", k).str("f", rname(w)).i("s", sd[k]).i("m", m).v("J", getv(x)).raw("w", lnum<P>(P(w.reweight(m)))).raw("ts", lnum<P>(P(w.true_scale(m)))).raw("ob", lnum<P>(P(w.objective(m)))).emit(); };
			switch(g.range(0, 3)) { case 0: { Vector<Spec<W>::S, double> x(n); setv(x, J); w.add_mJ(m, x); lg(x); break; }
				default: jac<Spec<W>::S, P>(g, J, [&](auto& x) { w.add_mJ(m, x); lg(x); }); }
		} else if(op != 11 && op != 10 && op != 9 && !tell(w, k, n, op, g, P(1))) continue;
		else if(op == 9 || op == 10) { if(g.coin()) { w.add_prior(P(4)); Ev e("priors"); e.i("k", k).i("x", 4).emit(); tru(k); }
			bool ok = true; for(int i = 0; i < n; i++) for(int j = i; j < n; j++) { P x = w.get_C_inv()(i, j); ok &= std::fabs(x) < 200; } if(!ok) continue;
			// diagonally dominant systems only: the weights make the matrix non-integer
			for(int i = 0; i < n && ok; i++) { P s = 0; for(int j = 0; j < n; j++) if(j != i) s += std::fabs(w.get_C_inv()(std::min(i, j), std::max(i, j))); ok = w.get_C_inv()(i, i) > s + 1 && std::fabs(w.get_vector()[i]) < 300; } if(!ok) continue;
			w.compute(); done[k] = true; Ev e("comp"); e.i("k", k).raw("mu", lvec<P>(w.get_mu())).emit(); }
		tru(k);
	}
}
template<class R> void weigh(Rng& g, R r) {
	typedef decltype(r.reweight(1)) P;
	for(int n = 0; n < 12; n++) { int s = g.range(1, 4), m = g.range(-6, 6); r.set_sd(s); Ev e("weigh"); e.str("f", rname(r)).i("s", s).i("m", m).raw("w", lnum<P>(r.reweight(m))).raw("ob", lnum<P>(r.objective(m))).emit(); }
}
#if PART == 1
void p1(Rng& g) { history<WLS<1>>(g, 1, 20); history<WLS<2>>(g, 2, 30); history<WLS<3>>(g, 3, 40); history<WLS<5>>(g, 5, 30); }
#elif PART == 2
void p2(Rng& g) { history<WLS<3, float>>(g, 3, 30); history<WLS<2, long double>>(g, 2, 30); history<WLS<4, long double>>(g, 4, 30); }
#elif PART == 3
void p3(Rng& g) { history<WLS<>>(g, g.range(1, 5), 30); history<WLS<>>(g, g.range(1, 4), 30); history<WLS<Dynamic, float>>(g, g.range(1, 4), 20); history<WLS<Dynamic, long double>>(g, g.range(1, 3), 20); }
#elif PART == 4
void p4(Rng& g) { history<WLS<3, double, Lapack_Cholesky>>(g, 3, 30); history<WLS<3, double, SymEigen>>(g, 3, 30); history<WLS<Dynamic, double, SymEigen>>(g, g.range(1, 4), 30); history<WLS<Dynamic, double, Lapack_Cholesky>>(g, g.range(1, 4), 30); }
#elif PART == 5
void p5(Rng& g) { irhist<IRLS<3, double, RobustI>>(g, 3, 30); irhist<IRLS<2, double, RobustII>>(g, 2, 30); irhist<IRLS<3, double, ILinear>>(g, 3, 20); irhist<IRLS<Dynamic, double, RobustI>>(g, g.range(1, 3), 20); irhist<IRLS<Dynamic, double, RobustII>>(g, g.range(1, 3), 20); }
#elif PART == 6
void p1(Rng&); void p2(Rng&); void p3(Rng&); void p4(Rng&); void p5(Rng&);
void p6(Rng& g) { irhist<IRLS<2, float, RobustI>>(g, 2, 20); irhist<IRLS<2, float, RobustII>>(g, 2, 20); irhist<IRLS<2, long double, RobustII>>(g, 2, 20); irhist<IRLS<3, long double, RobustI>>(g, 3, 20);
	weigh(g, RobustI<double>()); weigh(g, RobustII<double>()); weigh(g, RobustIII<double>()); weigh(g, RobustI<float>()); weigh(g, RobustII<float>()); weigh(g, RobustIII<float>()); weigh(g, ILinear<double>()); weigh(g, RobustII<long double>()); weigh(g, RobustIII<long double>()); }
int main(int c, char** v) {
	Args a(c, v); Rng g = a.rng(); void (*p[])(Rng&) = {p1, p2, p3, p4, p5, p6};
	for(long n = 0; n < a.n; n++) p[(n + a.shard) % 6](g);
	return 0;
}
#endif
