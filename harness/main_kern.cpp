// C23: bundled vector kernels, dense matrices and the dense linear solver, called through their public interfaces
#include "explore.h"
#include <algorithm>
#include <numeric>
extern "C" {
#include <sundials/sundials_context.h>
#include <sundials/sundials_nvector.h>
#include <sundials/sundials_nvector_senswrapper.h>
#include <nvector/nvector_serial.h>
#include <sunmatrix/sunmatrix_dense.h>
#include <sunlinsol/sunlinsol_dense.h>
#include <sundials/sundials_dense.h>
}
int g_cap = 0, g_open = 0;
typedef std::vector<double> vd;
static SUNContext ctx() { static SUNContext c; if (!c && SUNContext_Create(nullptr, &c)) abort(); return c; }
static void need(bool b, Machine &m, const std::string &w) { ++*g_checks; if (!b) m.bad(w); }
// a vector (k = 0: serial of length n; k > 0: k serial vectors of length n behind the sensitivity wrapper)
struct Vec { N_Vector v; int k, n; bool own;
  Vec(int k_, int n_, bool fused) : k(k_), n(n_), own(true) { if (k == 0) { v = N_VNew_Serial(n, ctx()); } else { N_Vector w = N_VNew_Serial(n, ctx()); v = N_VNew_SensWrapper(k, w); N_VDestroy(w); } if (k == 0 && fused) N_VEnableFusedOps_Serial(v, SUNTRUE); }
  Vec(const Vec &) = delete; Vec(Vec &&o) : v(o.v), k(o.k), n(o.n), own(o.own) { o.own = false; }
  ~Vec() { if (own) N_VDestroy(v); }
  int size() const { return k ? k * n : n; }
  double *at(int i) const { return k ? NV_DATA_S(NV_VEC_SW(v, i / n)) + i % n : NV_DATA_S(v) + i; }
  void set(const vd &x) { for (int i = 0; i < size(); i++) *at(i) = x[i]; }
  vd get() const { vd x; for (int i = 0; i < size(); i++) x.push_back(*at(i)); return x; } };
static vd content(int set, int sz, int salt) { vd r; for (int i = 0; i < sz; i++) { int j = i * 3 + salt * 5; switch (set) {
  case 0: { static const double T[] = {1.5, -2.25, 0.75, 3.5, -0.5, 2.0, -1.125, 0.3125, -4.0, 5.75, 0.625}; r.push_back(T[j % 11]); } break;
  case 1: { static const double T[] = {0.0, -1.0, 2.0, 0.0, 1.0, -3.0, 0.0}; r.push_back(T[j % 7]); } break;
  case 2: { static const double T[] = {1e-200, -1e150, 1e140, -1e-160, 1.0, 1e100, -1e-300}; r.push_back(T[j % 7]); } break;
  default: { static const double T[] = {-1.0, -2.0, -0.25, -8.0, -3.0}; r.push_back(T[j % 5]); } } } return r; }
static bool near_(double g, q r, q scale) { if (std::isinf(g) || fabsq(r) > 1.7e308Q) return fabsq(r) > 1.7e308Q && (std::isinf(g) ? (g > 0) == (r > 0) : true); return fabsq((q)g - r) <= 4e-16Q * scale * 4 + 1e-320Q; }
static const double CO[] = {1, -1, 0, 0.5, -0.5, 2, -2.75, 1.0000001}; static const int NC = 8;
static void cmpv(Machine &m, const Vec &z, const std::vector<q> &ref, const std::vector<q> &sc, const char *w) { vd g = z.get(); for (size_t i = 0; i < ref.size(); i++) need(near_(g[i], ref[i], sc[i]), m, fmt("%s: element %zu is %.17g, expected %s", w, i, g[i], qs(ref[i]).c_str())); }
static void same(Machine &m, const Vec &x, const vd &was, const char *w) { vd g = x.get(); for (size_t i = 0; i < was.size(); i++) need(memcmp(&g[i], &was[i], 8) == 0, m, fmt("%s: input vector changed at %zu", w, i)); }

static int len(int i, int NL) { static const int L[] = {8, 13, 16, 17, 33}; return i < NL ? i : L[i - NL]; }
static void vectors(Fams &F, bool th) {
  int NL = th ? 8 : 5, NX = NL + 5;  // lengths 0..NL-1 and 8, 13, 16, 17, 33
  F.push_back({"linear-sum", fmt("z = a x + b y: %d x %d coefficients (0, +-1, equal, opposite, other) x 5 aliasings (none, z=x, z=y, x=y, all the same) x lengths 0..%d, 8, 13, 16, 17, 33 x 4 contents x {serial, 1..3 vectors behind the sensitivity wrapper}", NC, NC, NL - 1), (uint64_t)NC * NC * 5 * NX * 4 * 4,
    [=](uint64_t i, Machine &m) { Idx d(i); double a = CO[d.pick(NC)], b = CO[d.pick(NC)]; int al = d.pick(5), n = len(d.pick(NX), NL), cs = d.pick(4), k = d.pick(4); m.say("N_VLinearSum(%g, x, %g, y, z) alias %d length %d content %d wrapper %d", a, b, al, n, cs, k);
      Vec X(k, n, false), Y(k, n, false), Z(k, n, false); vd x = content(cs, X.size(), 0), y = content(cs, X.size(), 1); X.set(x); Y.set(y); Z.set(content(0, X.size(), 2));
      Vec *px = &X, *py = al >= 3 ? &X : &Y, *pz = al == 0 || al == 3 ? &Z : al == 2 ? &Y : &X; if (al == 1) pz = &X; if (al >= 3) y = x;
      N_VLinearSum(a, px->v, b, py->v, pz->v); std::vector<q> r, s; for (size_t j = 0; j < x.size(); j++) { r.push_back((q)a * x[j] + (q)b * y[j]); s.push_back(fabsq((q)a * x[j]) + fabsq((q)b * y[j])); }
      cmpv(m, *pz, r, s, "N_VLinearSum"); if (px != pz) same(m, *px, x, "x"); if (py != pz) same(m, *py, y, "y"); }, 512});
  F.push_back({"elementwise", fmt("Const, Prod, Div, Scale, Abs, Inv, AddConst, Compare, InvTest x %d constants x 4 aliasings x lengths 0..%d, 8, 13, 16, 17, 33 x 4 contents x 4 content pairings x {serial, 1..3 vectors behind the wrapper}", NC, NL - 1), (uint64_t)9 * NC * 4 * NX * 4 * 4 * 4,
    [=](uint64_t i, Machine &m) { Idx d(i); int op = d.pick(9); double c = CO[d.pick(NC)]; int al = d.pick(4), n = len(d.pick(NX), NL), cs = d.pick(4), cy = d.pick(4), k = d.pick(4);
      static const char *N[] = {"Const", "Prod", "Div", "Scale", "Abs", "Inv", "AddConst", "Compare", "InvTest"}; bool two = op == 1 || op == 2, usec = op == 0 || op == 3 || op >= 6; if (op == 8) usec = false; if ((!two && (cy || al > 1)) || (!usec && c != CO[0])) throw Skip();
      m.say("N_V%s c=%g alias %d length %d contents %d %d wrapper %d", N[op], c, al, n, cs, cy, k);
      Vec X(k, n, false), Y(k, n, false), Z(k, n, false); vd x = content(cs, X.size(), 0), y = content(cy, X.size(), 1); X.set(x); Y.set(y); vd z0 = content(0, X.size(), 2); Z.set(z0);
      Vec *pz = al == 1 ? &X : al == 2 ? &Y : al == 3 ? &X : &Z, *py = al == 3 ? &X : &Y; if (al == 3) y = x;
      bool zero = false; for (double t : x) zero |= t == 0; std::vector<q> r, s; q INF_ = (q)INFINITY;
      if (op == 2) for (double t : y) if (t == 0) throw Skip(); if (op == 5 && zero) throw Skip();
      int ret = -1;
      switch (op) { case 0: N_VConst(c, pz->v); break; case 1: N_VProd(X.v, py->v, pz->v); break; case 2: N_VDiv(X.v, py->v, pz->v); break; case 3: N_VScale(c, X.v, pz->v); break; case 4: N_VAbs(X.v, pz->v); break; case 5: N_VInv(X.v, pz->v); break; case 6: N_VAddConst(X.v, c, pz->v); break; case 7: N_VCompare(c, X.v, pz->v); break; default: ret = N_VInvTest(X.v, pz->v); }
      if (op == 8) need(ret == (zero ? SUNFALSE : SUNTRUE), m, "N_VInvTest: wrong verdict");
      for (size_t j = 0; j < x.size(); j++) { q t = 0, u = -1; switch (op) { case 0: t = c; break; case 1: t = (q)x[j] * y[j]; break; case 2: t = (q)x[j] / y[j]; break; case 3: t = (q)c * x[j]; break; case 4: t = fabsq((q)x[j]); break; case 5: t = 1 / (q)x[j]; break; case 6: t = (q)x[j] + c; u = fabsq((q)x[j]) + fabs(c); break; case 7: t = fabs(x[j]) >= c; break; default: if (x[j] == 0) { t = (q)pz->get()[j]; } else t = 1 / (q)x[j]; } if (fabsq(t) > 1.7e308Q) t = t > 0 ? INF_ : -INF_; r.push_back(t); s.push_back(u < 0 ? fabsq(t) : u); }
      for (size_t j = 0; j < x.size(); j++) { double g = *pz->at(j); need(std::isinf((double)r[j]) ? std::isinf(g) && (g > 0) == (r[j] > 0) : fabsq((q)g - r[j]) <= 1e-15Q * s[j] + 5e-324Q, m, fmt("N_V%s: element %zu is %.17g, expected %s", N[op], j, g, qs(r[j]).c_str())); }
      if (pz != &X) same(m, X, x, "x"); if (two && pz != py) same(m, *py, y, "y"); }, 512});
  F.push_back({"reductions", fmt("DotProd, MaxNorm, WrmsNorm, WrmsNormMask, Min, WL2Norm, L1Norm, MinQuotient, ConstrMask x lengths 1..%d, 8, 13, 16, 17, 33 x 4 x 4 contents x every mask (period 6) x {serial, 1..3 vectors behind the wrapper}", NL - 1), (uint64_t)9 * (NX - 1) * 16 * 64 * 4,
    [=](uint64_t i, Machine &m) { Idx d(i); int op = d.pick(9), n = len(1 + d.pick(NX - 1), NL), cs = d.pick(4), cy = d.pick(4), mask = d.pick(64), k = d.pick(4); if (mask && ((mask >> std::min(n, 6)) || op != 3)) throw Skip(); if (op == 8 && k) throw Skip(); if ((op == 1 || op == 4 || op == 6) && cy) throw Skip(); if ((op == 2 || op == 3 || op == 5 || op == 0) && (cs == 2 || cy == 2)) throw Skip();
      static const char *N[] = {"DotProd", "MaxNorm", "WrmsNorm", "WrmsNormMask", "Min", "WL2Norm", "L1Norm", "MinQuotient", "ConstrMask"}; m.say("N_V%s length %d contents %d %d mask %x wrapper %d", N[op], n, cs, cy, mask, k);
      Vec X(k, n, false), Y(k, n, false), I(k, n, false), M(k, n, false); int sz = X.size(); vd x = content(cs, sz, 0), y = content(cy, sz, 1), id(sz); for (int j = 0; j < sz; j++) id[j] = mask >> (j % n % 6) & 1; if (op == 8) { static const double C[] = {2, -2, 1, -1, 0}; for (int j = 0; j < sz; j++) y[j] = C[(j + cy) % 5]; } X.set(x); Y.set(y); I.set(id); M.set(content(0, sz, 3));
      auto part = [&](int lo) { q s = 0, t = 0, mx = 0, mn = x[lo], l1 = 0, mq = 1e300Q * 1e8Q; bool any = false; for (int j = lo; j < lo + n; j++) { q p = (q)x[j] * y[j]; s += p; if (op == 3 ? id[j] > 0 : true) t += p * p; if (fabs(x[j]) > mx) mx = fabs(x[j]); if (x[j] < mn) mn = x[j]; l1 += fabs(x[j]); if (y[j] != 0) { q r = (q)x[j] / y[j]; if (!any || r < mq) mq = r; any = true; } } switch (op) { case 0: return s; case 1: return mx; case 2: case 3: return sqrtq(t / n); case 4: return mn; case 5: return sqrtq(t); case 6: return l1; default: return any ? mq : (q)BIG_REAL; } };
      if (op == 8) { int ok = 1; for (int j = 0; j < sz; j++) { bool bad = (fabs(y[j]) == 2 && !(x[j] * y[j] > 0)) || (fabs(y[j]) == 1 && !(x[j] * y[j] >= 0)); ok &= !bad; id[j] = bad; } int g = N_VConstrMask(Y.v, X.v, M.v); need(g == ok, m, "N_VConstrMask: wrong verdict"); vd mm = M.get(); for (int j = 0; j < sz; j++) need(mm[j] == id[j], m, "N_VConstrMask: wrong mask"); return; }
      q ref = 0, sc = 0; for (int p = 0; p < std::max(k, 1); p++) { q t = part(p * n); if (p == 0) ref = t; else if (op == 0) ref += t; else if (op == 4 || op == 7) { if (t < ref) ref = t; } else if (t > ref) ref = t; }
      double g; switch (op) { case 0: g = N_VDotProd(X.v, Y.v); break; case 1: g = N_VMaxNorm(X.v); break; case 2: g = N_VWrmsNorm(X.v, Y.v); break; case 3: g = N_VWrmsNormMask(X.v, Y.v, I.v); break; case 4: g = N_VMin(X.v); break; case 5: g = N_VWL2Norm(X.v, Y.v); break; case 6: g = N_VL1Norm(X.v); break; default: g = N_VMinQuotient(X.v, Y.v); }
      sc = fabsq(ref); if (op == 0) for (int j = 0; j < sz; j++) sc += fabsq((q)x[j] * y[j]); if (fabsq(ref) > 1.7e308Q) { need(!(fabs(g) < 1e300), m, fmt("N_V%s is %.17g, expected overflow", N[op], g)); return; }
      need(fabsq((q)g - ref) <= 1e-14Q * sc + 1e-320Q, m, fmt("N_V%s is %.17g, expected %s", N[op], g, qs(ref).c_str())); same(m, X, x, "x"); same(m, Y, y, "y"); }, 512});
  // fused operations: coefficient triples x aliasing x fused implementation / generic fallback
  int FL = th ? 5 : 3;
  F.push_back({"linear-combination", fmt("LinearCombination of 1..4 vectors: coefficients from %d values each x z is X[0] or not x lengths 0..%d x {fused kernel, generic fallback, sensitivity wrapper of 2}", 5, FL), 4ull * 625 * 2 * (FL + 1) * 3,
    [=](uint64_t i, Machine &m) { Idx d(i); int nv = 1 + d.pick(4); double c[4]; static const double C5[] = {1, -1, 0, 2, -0.375}; int lim = 1; for (int j = 0; j < 4; j++) { int p = d.pick(5); if (j >= nv && p) throw Skip(); c[j] = C5[p]; } (void)lim; int al = d.pick(2), n = d.pick(FL + 1), how = d.pick(3); m.say("N_VLinearCombination(%d; %g %g %g %g) alias %d length %d how %d", nv, c[0], c[1], c[2], c[3], al, n, how);
      std::vector<Vec> X; std::vector<N_Vector> p; std::vector<vd> x; for (int j = 0; j < nv; j++) { X.emplace_back(how == 2 ? 2 : 0, n, how == 0); x.push_back(content(j % 2, X[0].size(), j)); X[j].set(x[j]); p.push_back(X[j].v); } Vec Z(how == 2 ? 2 : 0, n, how == 0); Z.set(content(0, Z.size(), 7)); Vec &z = al ? X[0] : Z;
      need(N_VLinearCombination(nv, c, p.data(), z.v) == 0, m, "failed"); std::vector<q> r, s; for (int e = 0; e < Z.size(); e++) { q t = 0, u = 0; for (int j = 0; j < nv; j++) { t += (q)c[j] * x[j][e]; u += fabsq((q)c[j] * x[j][e]); } r.push_back(t); s.push_back(u); } cmpv(m, z, r, s, "N_VLinearCombination"); for (int j = al; j < nv; j++) same(m, X[j], x[j], "X"); }, 512});
  auto fz = [&](const char *nm, std::vector<int> nvs, std::vector<int> nss, int ncf, std::vector<int> lens) { F.push_back({nm, fmt("ScaleAddMulti, DotProdMulti, LinearSumVectorArray, ScaleVectorArray, ConstVectorArray, WrmsNorm(Mask)VectorArray, ScaleAddMultiVectorArray, LinearCombinationVectorArray: %d..%d vectors x %d..%d sums x %d x %d coefficients x 3 aliasings x lengths %d..%d x {fused kernel, generic fallback}", nvs[0], nvs.back(), nss[0], nss.back(), ncf, ncf, lens[0], lens.back()), 9ull * nvs.size() * nss.size() * ncf * ncf * 3 * lens.size() * 2,
    [=](uint64_t i, Machine &m) { Idx d(i); int op = d.pick(9), nv = nvs[d.pick(nvs.size())], ns = nss[d.pick(nss.size())]; double a = CO[d.pick(ncf)], b = CO[d.pick(ncf)]; int al = d.pick(3), n = lens[d.pick(lens.size())]; bool fused = d.pick(2);
      static const char *N[] = {"ScaleAddMulti", "DotProdMulti", "LinearSumVectorArray", "ScaleVectorArray", "ConstVectorArray", "WrmsNormVectorArray", "WrmsNormMaskVectorArray", "ScaleAddMultiVectorArray", "LinearCombinationVectorArray"};
      bool sums = op >= 7; if (!sums && ns != nss[0]) throw Skip(); if (al == 2 && op != 2) throw Skip(); if (al && (op == 1 || op == 4 || op == 5 || op == 6)) throw Skip(); if ((op == 1 || op == 5 || op == 6) && (a != 1 || b != 1)) throw Skip(); if (op == 4 && b != 1) throw Skip();
      m.say("N_V%s nvec %d nsum %d coefficients %g %g alias %d length %d %s", N[op], nv, ns, a, b, al, n, fused ? "fused" : "fallback");
      auto many = [&](int cnt, int set, int salt, std::vector<Vec> &V, std::vector<N_Vector> &p, std::vector<vd> &x) { for (int j = 0; j < cnt; j++) { V.emplace_back(0, n, fused); x.push_back(content(set, n, salt + 2 * j)); V[j].set(x[j]); p.push_back(V[j].v); } };
      auto cf = [&](int j) { return j % 3 == 0 ? a : j % 3 == 1 ? b : a - b; };
      std::vector<Vec> X, Y, Z; std::vector<N_Vector> px, py, pz; std::vector<vd> x, y, z; many(sums ? nv * ns : std::max(nv, ns), 0, 0, X, px, x); many(sums ? nv * ns : nv, 1, 1, Y, py, y); many(sums ? nv * ns : nv, 0, 5, Z, pz, z);
      std::vector<double> c(64), o(64, -7); for (int j = 0; j < 64; j++) c[j] = cf(j);
      std::vector<q> r, s; auto chk = [&](Vec &v, std::function<q(int, q &)> f) { r.clear(); s.clear(); for (int e = 0; e < n; e++) { q sc = 0; q t = f(e, sc); r.push_back(t); s.push_back(sc + fabsq(t)); } cmpv(m, v, r, s, N[op]); };
      switch (op) {
      case 0: need(N_VScaleAddMulti(nv, c.data(), px[0], py.data(), al ? py.data() : pz.data()) == 0, m, "failed"); for (int j = 0; j < nv; j++) chk(al ? Y[j] : Z[j], [&](int e, q &sc) { sc = fabsq((q)c[j] * x[0][e]) + fabs(y[j][e]); return (q)c[j] * x[0][e] + y[j][e]; }); same(m, X[0], x[0], "x"); break;
      case 1: need(N_VDotProdMulti(nv, px[0], py.data(), o.data()) == 0, m, "failed"); for (int j = 0; j < nv; j++) { q t = 0, sc = 0; for (int e = 0; e < n; e++) { t += (q)x[0][e] * y[j][e]; sc += fabsq((q)x[0][e] * y[j][e]); } need(near_(o[j], t, sc), m, fmt("N_VDotProdMulti: product %d is %.17g", j, o[j])); } break;
      case 2: { auto &zz = al == 1 ? X : al == 2 ? Y : Z; need(N_VLinearSumVectorArray(nv, a, px.data(), b, py.data(), al == 1 ? px.data() : al == 2 ? py.data() : pz.data()) == 0, m, "failed"); for (int j = 0; j < nv; j++) chk(zz[j], [&](int e, q &sc) { sc = fabsq((q)a * x[j][e]) + fabsq((q)b * y[j][e]); return (q)a * x[j][e] + (q)b * y[j][e]; }); } break;
      case 3: need(N_VScaleVectorArray(nv, c.data(), px.data(), al ? px.data() : pz.data()) == 0, m, "failed"); for (int j = 0; j < nv; j++) chk(al ? X[j] : Z[j], [&](int e, q &) { return (q)c[j] * x[j][e]; }); break;
      case 4: need(N_VConstVectorArray(nv, a, pz.data()) == 0, m, "failed"); for (int j = 0; j < nv; j++) chk(Z[j], [&](int, q &) { return (q)a; }); break;
      case 5: case 6: { Vec I(0, n, fused); vd id; for (int e = 0; e < n; e++) id.push_back((e + nv) % 2); I.set(id); need((op == 5 ? N_VWrmsNormVectorArray(nv, px.data(), py.data(), o.data()) : N_VWrmsNormMaskVectorArray(nv, px.data(), py.data(), I.v, o.data())) == 0, m, "failed"); for (int j = 0; j < nv; j++) { q t = 0; for (int e = 0; e < n; e++) if (op == 5 || id[e] > 0) t += (q)x[j][e] * y[j][e] * x[j][e] * y[j][e]; t = sqrtq(t / n); need(near_(o[j], t, 8 * t), m, fmt("%s: norm %d is %.17g, expected %s", N[op], j, o[j], qs(t).c_str())); } } break;
      case 7: { std::vector<N_Vector *> Yp, Zp; for (int k = 0; k < ns; k++) { Yp.push_back(&py[k * nv]); Zp.push_back(al ? &py[k * nv] : &pz[k * nv]); } need(N_VScaleAddMultiVectorArray(nv, ns, c.data(), px.data(), Yp.data(), Zp.data()) == 0, m, "failed"); for (int k = 0; k < ns; k++) for (int j = 0; j < nv; j++) chk(al ? Y[k * nv + j] : Z[k * nv + j], [&](int e, q &sc) { sc = fabsq((q)c[k] * x[j][e]) + fabs(y[k * nv + j][e]); return (q)c[k] * x[j][e] + y[k * nv + j][e]; }); } break;
      default: { std::vector<N_Vector *> Xp; for (int k = 0; k < ns; k++) Xp.push_back(&px[k * nv]); need(N_VLinearCombinationVectorArray(nv, ns, c.data(), Xp.data(), al ? Xp[0] : pz.data()) == 0, m, "failed"); for (int j = 0; j < nv; j++) chk(al ? X[j] : Z[j], [&](int e, q &sc) { q t = 0; for (int k = 0; k < ns; k++) { t += (q)c[k] * x[k * nv + j][e]; sc += fabsq((q)c[k] * x[k * nv + j][e]); } return t; }); } } }, 512}); };
  { std::vector<int> L; for (int k = 1; k <= FL; k++) L.push_back(k); fz("fused", {1, 2, 3, 4}, {1, 2, 3}, NC, L); fz("fused-many", {1, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20}, {1, 2, 4, 5, 6, 7}, 5, {1, 3, 17}); }
  static const int NV[] = {5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20};
  F.push_back({"linear-combination-many", "LinearCombination of 5..20 vectors: one coefficient (every position) from 4 special values among others equal to 1, -0.375 or mixed x z is X[0] or not x lengths 1, 5, 33 x {fused kernel, generic fallback, sensitivity wrapper of 2}", 13ull * 20 * 4 * 3 * 2 * 3 * 3,
    [=](uint64_t i, Machine &m) { Idx d(i); int nv = NV[d.pick(13)], pos = d.pick(20); double sp = (const double[]){1, -1, 0, 2}[d.pick(4)]; int base = d.pick(3), al = d.pick(2), n = (const int[]){1, 5, 33}[d.pick(3)], how = d.x; if (pos >= nv) throw Skip(); std::vector<double> c(nv); for (int j = 0; j < nv; j++) c[j] = j == pos ? sp : base == 0 ? 1 : base == 1 ? -0.375 : 0.25 * (j % 7) - 0.5; m.say("N_VLinearCombination of %d, coefficient %d is %g, others %d, alias %d length %d how %d", nv, pos, sp, base, al, n, how);
      std::vector<Vec> X; std::vector<N_Vector> p; std::vector<vd> x; for (int j = 0; j < nv; j++) { X.emplace_back(how == 2 ? 2 : 0, n, how == 0); x.push_back(content(j % 2, X[0].size(), j)); X[j].set(x[j]); p.push_back(X[j].v); } Vec Z(how == 2 ? 2 : 0, n, how == 0); Z.set(content(0, Z.size(), 7)); Vec &z = al ? X[0] : Z;
      need(N_VLinearCombination(nv, c.data(), p.data(), z.v) == 0, m, "failed"); std::vector<q> r, s; for (int e = 0; e < Z.size(); e++) { q t = 0, u = 0; for (int j = 0; j < nv; j++) { t += (q)c[j] * x[j][e]; u += fabsq((q)c[j] * x[j][e]); } r.push_back(t); s.push_back(u * (1 + nv / 4)); } cmpv(m, z, r, s, "N_VLinearCombination"); for (int j = al; j < nv; j++) same(m, X[j], x[j], "X"); }, 256});
  F.push_back({"clones", "clone, clone arrays of 1..4 and separate storage for lengths 0..8, serial and wrapper: writing one vector changes no other; lengths agree", 9 * 4 * 3,
    [=](uint64_t i, Machine &m) { Idx d(i); int n = d.pick(9), cnt = 1 + d.pick(4), k = d.pick(3); m.say("clones of length %d, %d vectors, wrapper %d", n, cnt, k); Vec X(k, n, false); X.set(content(0, X.size(), 0)); N_Vector *a = N_VCloneVectorArray(cnt, X.v), one = N_VClone(X.v); need(a && one, m, "clone failed"); if (!k) need(N_VGetLength(one) == n, m, "length of the clone");
      for (int j = 0; j < cnt; j++) N_VConst(j + 10, a[j]); N_VConst(99, one); for (int j = 0; j < cnt; j++) { if (n) { need(N_VMaxNorm(a[j]) == j + 10, m, "clones share storage"); need(N_VMin(a[j]) == j + 10, m, "clones share storage"); } } vd w = content(0, X.size(), 0); same(m, X, w, "original"); N_VDestroy(one); N_VDestroyVectorArray(a, cnt); same(m, X, w, "original"); }, 16});
}

// exact rational arithmetic (small numbers)
struct R { __int128 n, d; static __int128 g(__int128 a, __int128 b) { if (a < 0) a = -a; while (b) { __int128 t = a % b; a = b; b = t; } return a; } R(long x = 0) : n(x), d(1) {} R(__int128 a, __int128 b) { __int128 k = g(a, b < 0 ? -b : b); if (b < 0) { a = -a; b = -b; } if (k > 1) { a /= k; b /= k; } n = a; d = b; }
  R operator*(const R &o) const { return R(n * o.n, d * o.d); } R operator/(const R &o) const { return R(n * o.d, d * o.n); } R operator-(const R &o) const { return R(n * o.d - o.n * d, d * o.d); } R operator+(const R &o) const { return R(n * o.d + o.n * d, d * o.d); } bool z() const { return n == 0; } q v() const { return (q)n / (q)d; } bool dyadic() const { return (d & (d - 1)) == 0; } };
static bool abslt(const R &a, const R &b) { R x(a.n < 0 ? -a.n : a.n, a.d), y(b.n < 0 ? -b.n : b.n, b.d); return x.n * y.d < y.n * x.d; }
// returns regular?; dy: elimination with partial pivoting stays exact in binary arithmetic
static bool exact(int n, std::vector<R> A, std::vector<R> B, int nb, std::vector<R> &X, bool &dy, double &growth) {
  dy = true; growth = 1; auto a = [&](int i, int j) -> R & { return A[i + n * j]; };
  for (int k = 0; k < n; k++) { int p = k; for (int i = k + 1; i < n; i++) if (abslt(a(p, k), a(i, k))) p = i; if (a(p, k).z()) return false; if (p != k) { for (int j = 0; j < n; j++) std::swap(a(p, j), a(k, j)); for (int c = 0; c < nb; c++) std::swap(B[p + n * c], B[k + n * c]); }
    for (int i = k + 1; i < n; i++) { R f = a(i, k) / a(k, k); dy &= f.dyadic() && (R(1) / a(k, k)).dyadic(); growth = std::max(growth, (double)fabsq((R(1) / a(k, k)).v())); a(i, k) = R(0); for (int j = k + 1; j < n; j++) a(i, j) = a(i, j) - f * a(k, j); for (int c = 0; c < nb; c++) B[i + n * c] = B[i + n * c] - f * B[k + n * c]; } }
  X.assign(n * nb, R()); for (int c = 0; c < nb; c++) for (int i = n - 1; i >= 0; i--) { R s = B[i + n * c]; for (int j = i + 1; j < n; j++) s = s - a(i, j) * X[j + n * c]; X[i + n * c] = s / a(i, i); } return true; }
static void lu_check(Machine &m, int n, const std::vector<long> &E, bool alias) {
  std::vector<R> A, B, X; for (long e : E) A.push_back(R(e)); int nb = n + 1; for (int c = 0; c < nb; c++) for (int i = 0; i < n; i++) B.push_back(R(c < n ? c == i : 2 * i * i - 3 * i + 1));
  bool dy; double gr; bool reg = exact(n, A, B, nb, X, dy, gr);
  SUNMatrix M = SUNDenseMatrix(n, n, ctx()); Vec x(0, n, false), b(0, n, false); SUNLinearSolver S = SUNLinSol_Dense(x.v, M, ctx()); need(M && S, m, "set-up"); need(SUNLinSolInitialize(S) == 0, m, "initialize"); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) SM_ELEMENT_D(M, i, j) = E[i + n * j];
  int rc = SUNLinSolSetup(S, M); if (reg) need(rc == 0, m, "factorisation of a regular matrix failed"); else if (dy) { need(rc != 0, m, "a singular matrix was not flagged"); long lf = SUNLinSolLastFlag(S); need(lf >= 1 && lf <= n, m, "column of the zero pivot out of range"); }
  if (reg) for (int c = 0; c < nb; c++) { vd bb; for (int i = 0; i < n; i++) bb.push_back((double)B[i + n * c].v()); b.set(bb); x.set(vd(n, -5.0)); Vec &xx = alias ? b : x; need(SUNLinSolSolve(S, M, xx.v, b.v, 0) == 0, m, "solve failed"); vd g = xx.get(); q mx = 0; for (int i = 0; i < n; i++) mx = std::max(mx, fabsq(X[i + n * c].v())); for (int i = 0; i < n; i++) need(fabsq((q)g[i] - X[i + n * c].v()) <= 1e-13Q * mx * n, m, fmt("solution %d of right-hand side %d is %.17g, expected %s", i, c, g[i], qs(X[i + n * c].v()).c_str())); if (!alias) same(m, b, bb, "right-hand side"); }
  SUNLinSolFree(S); SUNMatDestroy(M); }
static void dense(Fams &F, bool th) {
  auto all = [&](const char *nm, int n, std::vector<long> ent) { uint64_t tot = 1; for (int i = 0; i < n * n; i++) tot *= ent.size(); std::string es; for (long e : ent) es += fmt(" %ld", e);
    F.push_back({nm, fmt("every %dx%d matrix with entries from {%s }: factor and solve for all unit right-hand sides and a general one against exact rational elimination; singular matrices flagged; solution vector separate from or the same as the right-hand side", n, n, es.c_str()), tot * 2,
      [=](uint64_t i, Machine &m) { bool al = i % 2; i /= 2; std::vector<long> E; std::string t; for (int k = 0; k < n * n; k++) { E.push_back(ent[i % ent.size()]); i /= ent.size(); t += fmt(" %ld", E.back()); } m.say("dense solve, column major:%s%s", t.c_str(), al ? ", x is b" : ""); lu_check(m, n, E, al); }, 512}); };
  all("lu-1", 1, {-3, -2, -1, 0, 1, 2, 3}); all("lu-2", 2, {-3, -2, -1, 0, 1, 2, 3, 5}); all("lu-3", 3, {-1, 0, 1}); all("lu-3w", 3, th ? std::vector<long>{-2, -1, 0, 1, 2} : std::vector<long>{-2, 0, 1, 3}); all("lu-4", 4, {0, 1}); if (th) all("lu-4s", 4, {-1, 0, 1});
  F.push_back({"lu-pivots", "row-permuted triangular and scaled matrices of size 5 and 6: every permutation x 4 fillings x 3 row scalings (every pivoting pattern)", (120 + 720) * 12,
    [=](uint64_t i, Machine &m) { Idx d(i); int fill = d.pick(4), sc = d.pick(3); uint64_t pn = d.x; int n = pn < 120 ? 5 : 6; if (n == 6) pn -= 120; std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); for (uint64_t k = 0; k < pn; k++) std::next_permutation(p.begin(), p.end());
      std::vector<long> E(n * n); std::string t; for (int r = 0; r < n; r++) for (int c = 0; c < n; c++) { long v = fill == 0 ? (r == c ? r + 2 : 0) : fill == 1 ? (r > c ? 0 : r == c ? 3 : (r + c) % 3 - 1) : fill == 2 ? (r < c ? 0 : r == c ? 2 : 1) : (r == c ? 7 : (r * 3 + c * 5) % 4 - 1); if (sc == 1 && r % 2) v *= 1000; if (sc == 2) v *= (r + 1); E[p[r] + n * c] = v; } m.say("permutation %llu of size %d, filling %d, scaling %d", (unsigned long long)pn, n, fill, sc); lu_check(m, n, E, false); }, 64});
  F.push_back({"lu-large", "systems of 7, 8, 9, 12, 16, 17 equations: rotation of the rows by every amount, swap of every pair of rows, or one row repeated (singular), x 3 fillings x negative or positive pivots: the residual and the known solution", 6ull * 17 * 17 * 3 * 3 * 2,
    [=](uint64_t i, Machine &m) { Idx d(i); static const int N_[] = {7, 8, 9, 12, 16, 17}; int n = N_[d.pick(6)], r1 = d.pick(17), r2 = d.pick(17), kind = d.pick(3), fill = d.pick(3); bool neg = d.x; if (r1 >= n || r2 >= n || (kind == 0 && r2) || (kind && r1 >= r2)) throw Skip();
      m.say("size %d kind %d rows %d %d filling %d %s", n, kind, r1, r2, fill, neg ? "negative" : "positive"); std::vector<int> p(n); for (int j = 0; j < n; j++) p[j] = kind == 0 ? (j + r1) % n : j; if (kind == 1) std::swap(p[r1], p[r2]);
      std::vector<double> E(n * n); for (int r = 0; r < n; r++) for (int c = 0; c < n; c++) { double v = fill == 0 ? (r == c ? 5 + r : r > c ? 0 : (r * 7 + c * 3) % 5 - 2) : fill == 1 ? (r == c ? 4 * n : (r * 5 + c * 11) % 9 - 4) : (r == c ? 3 : r == c + 1 ? 2 : c == n - 1 ? 1 : 0); if (neg) v = -v; E[p[r] + n * c] = v; } if (kind == 2) for (int c = 0; c < n; c++) E[r2 + n * c] = E[r1 + n * c];
      SUNMatrix M = SUNDenseMatrix(n, n, ctx()); Vec x(0, n, false), b(0, n, false); SUNLinearSolver S = SUNLinSol_Dense(x.v, M, ctx()); need(SUNLinSolInitialize(S) == 0, m, "initialize"); for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) SM_ELEMENT_D(M, k, j) = E[k + n * j];
      int rc = SUNLinSolSetup(S, M); if (kind == 2) { if (fill == 0) need(rc != 0, m, "two equal rows: a singular matrix was not flagged"); } else { need(rc == 0, m, "factorisation of a regular matrix failed"); vd sol, rhs_(n, 0.0); for (int j = 0; j < n; j++) sol.push_back((j * 3 % 7) - 2.5); for (int k = 0; k < n; k++) for (int j = 0; j < n; j++) rhs_[k] += E[k + n * j] * sol[j]; b.set(rhs_); x.set(vd(n, 9.0)); need(SUNLinSolSolve(S, M, x.v, b.v, 0) == 0, m, "solve failed"); vd g = x.get(); for (int j = 0; j < n; j++) need(fabs(g[j] - sol[j]) <= 1e-9, m, fmt("solution %d is %.17g, expected %g", j, g[j], sol[j])); same(m, b, rhs_, "right-hand side"); }
      SUNLinSolFree(S); SUNMatDestroy(M); }, 256});
  F.push_back({"fresh-matrix", "four matrices at a time in recycled memory, every shape up to 12x12: zeroing, separate storage, column pointers", 12 * 12,
    [=](uint64_t i, Machine &m) { int r = 1 + i % 12, c = 1 + i / 12; m.say("fresh %dx%d", r, c); for (int k = 0; k < 3; k++) { std::vector<SUNMatrix> W; for (int j = 0; j < 4; j++) { SUNMatrix A = SUNDenseMatrix(r, c, ctx()); need(A != nullptr, m, "creation"); need(SUNMatZero(A) == 0, m, "zero"); for (int e = 0; e < r * c; e++) need(SUNDenseMatrix_Data(A)[e] == 0, m, fmt("zeroed matrix has %g in element %d", SUNDenseMatrix_Data(A)[e], e)); for (int e = 0; e < r * c; e++) SUNDenseMatrix_Data(A)[e] = 7.25 + e; W.push_back(A); } for (SUNMatrix A : W) { for (int e = 0; e < r * c; e++) need(SUNDenseMatrix_Data(A)[e] == 7.25 + e, m, "matrices share storage"); for (int j = 0; j < c; j++) need(SUNDenseMatrix_Column(A, j) == SUNDenseMatrix_Data(A) + r * j, m, "column pointer"); } for (SUNMatrix A : W) SUNMatDestroy(A); } }, 4});
  F.push_back({"lu-reuse", "two different regular or singular systems factored one after the other with one solver: all pairs of 2x2 matrices with entries -1, 0, 1", 81 * 81,
    [=](uint64_t i, Machine &m) { SUNMatrix M = SUNDenseMatrix(2, 2, ctx()); Vec x(0, 2, false), b(0, 2, false); SUNLinearSolver S = SUNLinSol_Dense(x.v, M, ctx()); SUNLinSolInitialize(S);
      for (int t = 0; t < 2; t++) { long e[4]; uint64_t c = t ? i / 81 : i % 81; for (int k = 0; k < 4; k++) { e[k] = (long)(c % 3) - 1; c /= 3; } m.say("matrix %ld %ld %ld %ld", e[0], e[1], e[2], e[3]); long det = e[0] * e[3] - e[1] * e[2]; for (int k = 0; k < 4; k++) SM_ELEMENT_D(M, k % 2, k / 2) = e[k]; int rc = SUNLinSolSetup(S, M); need((rc == 0) == (det != 0), m, "wrong verdict on regularity"); if (det) { b.set({3, -5}); need(SUNLinSolSolve(S, M, x.v, b.v, 0) == 0, m, "solve"); vd g = x.get(); double r0 = (3.0 * e[3] + 5.0 * e[2]) / det, r1 = (-5.0 * e[0] - 3.0 * e[1]) / det; need(fabs(g[0] - r0) < 1e-13 && fabs(g[1] - r1) < 1e-13, m, fmt("solution %.17g %.17g, expected %.17g %.17g", g[0], g[1], r0, r1)); } }
      SUNLinSolFree(S); SUNMatDestroy(M); }, 256});
  int MS = th ? 7 : 5;
  F.push_back({"matrix-ops", fmt("Zero, Copy, ScaleAdd, ScaleAddI, Matvec, clone on every shape 1..%d x 1..%d, %d coefficients, 4 contents: exact results; argument of another shape refused", MS, MS, NC), (uint64_t)MS * MS * NC * 4 * 7,
    [=](uint64_t i, Machine &m) { Idx d(i); int r = 1 + d.pick(MS), c = 1 + d.pick(MS); double k = CO[d.pick(NC)]; int cs = d.pick(4), op = d.pick(7); if ((op == 0 || op == 1 || op >= 4) && k != 1) throw Skip(); static const char *N[] = {"Zero", "Copy", "ScaleAdd", "ScaleAddI", "Matvec", "Clone", "wrong shape"}; m.say("SUNMat%s %dx%d c=%g content %d", N[op], r, c, k, cs);
      SUNMatrix A = SUNDenseMatrix(r, c, ctx()), B = SUNDenseMatrix(r, c, ctx()); vd a = content(cs, r * c, 0), b = content(0, r * c, 1); for (int j = 0; j < c; j++) for (int p = 0; p < r; p++) { SM_ELEMENT_D(A, p, j) = a[p + r * j]; SM_ELEMENT_D(B, p, j) = b[p + r * j]; }
      need(SUNDenseMatrix_Rows(A) == r && SUNDenseMatrix_Columns(A) == c && SUNDenseMatrix_LData(A) == r * c, m, "shape"); auto el = [&](SUNMatrix M, std::function<q(int, int)> f) { for (int j = 0; j < c; j++) for (int p = 0; p < r; p++) { double g = SM_ELEMENT_D(M, p, j); q t = f(p, j); need(fabsq((q)g - t) <= 1e-15Q * (fabsq(t) + fabsq((q)k * a[p + r * j]) + 1), m, fmt("element %d %d is %.17g, expected %s", p, j, g, qs(t).c_str())); } };
      switch (op) { case 0: need(SUNMatZero(A) == 0, m, "flag"); el(A, [&](int, int) { return (q)0; }); break; case 1: need(SUNMatCopy(A, B) == 0, m, "flag"); el(B, [&](int p, int j) { return (q)a[p + r * j]; }); el(A, [&](int p, int j) { return (q)a[p + r * j]; }); break;
      case 2: need(SUNMatScaleAdd(k, A, B) == 0, m, "flag"); el(A, [&](int p, int j) { return (q)k * a[p + r * j] + b[p + r * j]; }); el(B, [&](int p, int j) { return (q)b[p + r * j]; }); break; case 3: need(SUNMatScaleAddI(k, A) == 0, m, "flag"); el(A, [&](int p, int j) { return (q)k * a[p + r * j] + (p == j); }); break;
      case 4: { if (cs == 2) break; Vec x(0, c, false), y(0, r, false); vd xv = content(0, c, 4); x.set(xv); y.set(content(0, r, 2)); need(SUNMatMatvec(A, x.v, y.v) == 0, m, "flag"); vd g = y.get(); for (int p = 0; p < r; p++) { q t = 0; for (int j = 0; j < c; j++) t += (q)a[p + r * j] * xv[j]; need(fabsq((q)g[p] - t) <= 1e-14Q * (1 + fabsq(t)), m, fmt("product %d is %.17g, expected %s", p, g[p], qs(t).c_str())); } } break;
      case 5: { SUNMatrix C = SUNMatClone(A); need(C && SUNDenseMatrix_Rows(C) == r && SUNDenseMatrix_Columns(C) == c, m, "clone"); need(SUNMatZero(C) == 0, m, "flag"); el(A, [&](int p, int j) { return (q)a[p + r * j]; }); SUNMatDestroy(C); } break;
      default: { SUNMatrix C = SUNDenseMatrix(r + 1, c, ctx()), D = SUNDenseMatrix(r, c + 1, ctx()); for (SUNMatrix W : {C, D}) { SUNMatZero(W); need(SUNMatCopy(A, W) != 0 && SUNMatScaleAdd(1, A, W) != 0, m, "wrong shape accepted"); } SUNMatDestroy(C); SUNMatDestroy(D); } }
      SUNMatDestroy(A); SUNMatDestroy(B); }, 256});
  F.push_back({"getrf-rectangular", "denseGETRF of every m x n matrix, m >= n, m <= 4, n <= 2, entries -1, 0, 1: rows permuted by the pivots give L U", (3 + 9 + 27 + 81) + (81 + 729 + 6561),
    [=](uint64_t i, Machine &m) { static const int SH[7][2] = {{1, 1}, {2, 1}, {3, 1}, {4, 1}, {2, 2}, {3, 2}, {4, 2}}; int k = 0; uint64_t t = i; for (;; k++) { uint64_t c = 1; for (int e = 0; e < SH[k][0] * SH[k][1]; e++) c *= 3; if (t < c) break; t -= c; } int r = SH[k][0], c = SH[k][1]; vd a(r * c), w; std::string es; for (double &e : a) { e = (double)(t % 3) - 1; t /= 3; es += fmt(" %g", e); } w = a; m.say("GETRF %dx%d:%s", r, c, es.c_str()); std::vector<double *> col; for (int j = 0; j < c; j++) col.push_back(&w[r * j]); sunindextype p[4] = {-1, -1, -1, -1}; long f = SUNDlsMat_denseGETRF(col.data(), r, c, p);
      bool rank = c == 1 ? std::any_of(a.begin(), a.end(), [](double x) { return x != 0; }) : [&] { for (int x = 0; x < r; x++) for (int y = 0; y < r; y++) if (a[x] * a[y + r] != a[y] * a[x + r]) return true; return false; }(); need((f == 0) == rank, m, "wrong verdict on the rank"); if (f) return;
      std::vector<int> perm(r); std::iota(perm.begin(), perm.end(), 0); for (int j = 0; j < c; j++) { need(p[j] >= j && p[j] < r, m, "pivot index out of range"); std::swap(perm[j], perm[p[j]]); }
      for (int x = 0; x < r; x++) for (int y = 0; y < c; y++) { double s = 0; for (int z = 0; z <= std::min(x, y); z++) s += (z == x ? 1.0 : w[x + r * z]) * w[z + r * y]; need(fabs(s - a[perm[x] + r * y]) < 1e-14, m, fmt("L U differs from the permuted matrix at %d %d", x, y)); for (int z = 0; z < c && z < x; z++) need(fabs(w[x + r * z]) <= 1, m, "multiplier larger than 1: no partial pivoting"); } }, 256});
}
int main(int c, char **v) { return explore_main(c, v, [](bool th, const std::string &) { Fams F; vectors(F, th); dense(F, th); return F; }); }
