// C06 gradient(f,x), C07 jacobian(f,n,x)
#include "fz.h"
#include <memory>
#include "call.h"
typedef std::shared_ptr<Alpha> PA;
static const double XS[4][4] = {{1.25, 0.6, -0.4, 2.0}, {0.35, 2.5, 1.5, -0.75}, {2.0, 2.0, 2.0, 0.5}, {1.0, 0.0, -1.0, 0.5}};
static PA alpha(bool th) {
  (void)th;
  return std::make_shared<Alpha>(Alpha{kvv(MUL), kvv(SUB), kvv(DIV), kun(SIN), kun(EXP), kvd(MUL, 2.5), kvd(ADD, 0.0), kcopy(), kx(K_SUM3), kx(K_DOT2), kx(K_MM), kx(K_CUST2), kleaf(0.3)});
}
void fam_fun(Fams &F, bool th, const std::string &sel) {
  if (sel != "C06" && sel != "C07") return;
  bool J = sel == "C07"; PA A = alpha(th);
  PA B = std::make_shared<Alpha>(Alpha{kvv(MUL), kvv(SUB), kun(SIN), kvd(ADD, 0.0), kcopy(), kx(K_SUM3)});
  const char *w = J ? "jacobian" : "gradient";
  auto cnt = [](PA A, int m, int N) { uint64_t s = 1; for (int i = 0; i < N; i++) s *= steps(*A, m + i); return s; };
  // f with nin inputs and N operations, outputs: any tuple of variables (inputs included)
  auto prog = [=](const char *name, PA A, int nin, int N, int nout, int nctx, bool capture, int sets, uint64_t batch) {
    int m0 = nin + (capture ? 2 : 0); uint64_t P = cnt(A, m0, N), O = 1; for (int k = 0; k < nout; k++) O *= m0 + N;
    return Family{name, fmt("%s of every f with %d inputs%s, %d operations from %zu kinds and every choice of %d output(s), in %d contexts (empty, existing variables, stale adjoints, nested 1, 2 and 12 deep, reused storage, 1200 variables), called twice", w, nin, capture ? " and 2 captured outer variables" : "", N, A->size(), nout, nctx), P * O * nctx * sets,
      [=](uint64_t i, Machine &m) { Idx d(i); int c = d.pick(nctx), set = d.pick(sets); std::vector<int> out; for (int k = 0; k < nout; k++) out.push_back(d.pick(m0 + N)); std::vector<uint64_t> s; for (int k = 0; k < N; k++) s.push_back(d.pick(steps(*A, m0 + k)));
        Ctx x(m, c); std::vector<int> cap; if (capture) cap = {c >= 4 ? (int)m.n.size() - 1 : 0, 1};
        for (int rep = 0; rep < 2; rep++) { x.before(); Call f; f.outer = &m; f.x.assign(XS[set], XS[set] + nin); f.cap = cap; f.body = [&](Machine &in) { for (int k = 0; k < N; k++) step(in, *A, s[k], m0 + k); f.out = out; };
          if (J) f.jacobian(nout); else f.gradient(rep == 1);
          x.after(cap); }
        x.finish(); }, batch}; };
  if (!J) {
    F.push_back(prog("programs-1", A, 1, 2, 1, NCTX - 1, false, 4, 48));
    F.push_back(prog("programs-2", A, 2, 2, 1, NCTX - 1, false, th ? 4 : 2, 48));
    F.push_back(prog("programs-2-deep", B, 2, 3, 1, th ? NCTX - 1 : 3, false, 1, 48));
    F.push_back(prog("captured", A, 1, 2, 1, 6, true, 1, 48));
    F.push_back(prog("context-big", B, 2, 1, 1, NCTX, false, 2, 16));
  } else {
    F.push_back(prog("programs-1-1", A, 1, 2, 1, NCTX - 1, false, 2, 48));
    F.push_back(prog("programs-2-2", A, 2, 2, 2, th ? NCTX - 1 : 4, false, 1, 48));
    F.push_back(prog("programs-2-3", B, 2, 2, 3, NCTX - 1, false, 1, 48));
    F.push_back(prog("programs-3-1", B, 3, 2, 1, NCTX - 1, false, 1, 48));
    F.push_back(prog("captured", B, 1, 2, 2, 6, true, 1, 48));
    F.push_back(prog("context-big", B, 2, 1, 2, NCTX, false, 1, 16));
    if (th) F.push_back(prog("programs-2-2-deep", B, 2, 3, 2, 3, false, 1, 48));
  }
  // f itself calls gradient / jacobian (values used as constants), one or two levels deep
  PA R = std::make_shared<Alpha>(Alpha{kvv(MUL), kvv(SUB), kun(SIN), kun(EXP), kcopy(), kvd(MUL, 2.0)});
  uint64_t s2 = steps(*R, 2), s3 = steps(*R, 3);
  F.push_back({"recursive", fmt("%s of f that itself calls gradient and jacobian of g (every g of one operation, every f of two operations around the inner call), 1 or 2 levels deep, in %d contexts", w, 6), s2 * s2 * s3 * 2 * 6,
    [=](uint64_t i, Machine &m) { Idx d(i); int c = d.pick(6), lev = d.pick(2); uint64_t gs = d.pick(s2), f1 = d.pick(s2), f2 = d.x; Ctx x(m, c); x.before();
      std::function<void(Call &, int)> build = [&](Call &f, int depth) { f.depth = depth; f.outer = &m; f.x = {0.9 + 0.1 * depth, -0.6};
        f.body = [&f, depth, lev, gs, f1, f2, R, &build, &m](Machine &in) { int a = step(in, *R, f1, 2);
          Call g; double cc = 1.5;
          if (depth <= lev) { build(g, depth + 1); if ((depth + lev) % 2) { g.jacobian(1); } else g.gradient(false); std::vector<q> A, E; g.in.ref_adj(g.out[0], A, E); cc = (double)A[0]; if (cc == 0) cc = 0.5; }
          else { step(in, *R, gs, 2); }
          for (size_t k = 0; k < in.n.size(); k++) { double v = fz_val(in.reg(k)); ++*g_checks; if (v != in.n[k].v) in.bad(fmt("value of n%zu changed by the inner call: %.17g", k, v)); double aj = fz_adj(in.reg(k)); if (aj != 0) in.bad(fmt("adjoint of n%zu changed by the inner call: %.17g", k, aj)); }
          int b = in.vd(MUL, a, cc); (void)b; int r = step(in, *R, f2, 3); f.out.assign(f.out.size(), r); }; };
      Call top; build(top, 0); if (J) top.jacobian(1); else top.gradient(false); x.after(); x.finish(); }, 128});
  static const int NS[] = {1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 33, 64, 100, 257}; int nns = 14;
  F.push_back({"sizes", fmt("%s with 1..257 inputs%s, 4 function shapes (products of neighbours, sum of squares via dot_product, one input only, chain), 3 contexts", w, J ? " and 1..33 components" : ""), (uint64_t)nns * 4 * 3 * (J ? 10 : 2),
    [=](uint64_t i, Machine &m) { Idx d(i); int nin = NS[d.pick(nns)], sh = d.pick(4), c = (int)d.pick(3) * 2, no = J ? NS[d.x] : 1; bool st = !J && d.x; Ctx x(m, c); x.before();
      Call f; f.outer = &m; for (int k = 0; k < nin; k++) f.x.push_back(0.3 + 0.07 * (k % 23) - 0.5 * (k % 3));
      f.body = [&](Machine &in) { std::vector<int> o; std::vector<int> all; for (int k = 0; k < nin; k++) all.push_back(k);
        for (int r = 0; r < no; r++) { int y;
          switch (sh) { case 0: y = in.vv(MUL, r % nin, (r + 1) % nin); y = in.vv(ADD, y, nin - 1); break; case 1: y = in.dot(0, all, all, {}); y = in.vd(MUL, y, r + 1.0); break; case 2: y = r % 3 == 1 ? r % nin : r % 3 ? in.copy(r % nin) : in.un(SIN, (r * 5) % nin); break;
            default: y = r ? o.back() : 0; for (int k = 0; k < std::min(nin, 40); k++) y = in.un(TANH, in.vv(ADD, y, k)); }
          o.push_back(y); }
        f.out = o; };
      if (J) f.jacobian(no); else f.gradient(st);
      x.after(); x.finish(); }, 16});
}
