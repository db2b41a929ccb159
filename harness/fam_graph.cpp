// C03 chain rule, C04 aliasing, C05 nesting histories, C18 user-defined operations, C19 construction and assignment
#include "fz.h"
#include <memory>
#include <algorithm>
typedef std::shared_ptr<Alpha> PA;
static PA mk(std::initializer_list<Kind> l) { return std::make_shared<Alpha>(l); }

// leave garbage (other records, dirty adjoints) in the slots the next nested environment reuses
static void dirty(Machine &m, int which) {
  int s = 60000;
  m.say("(begin; 12 unrelated variables with gradients, pattern %d; end)", which);
  fz_begin();
  fz_var(s, 0.8); fz_var(s + 1, -1.3);
  for (int k = 0; k < 10; k++) {
    int a = s + (k * 7 + which) % (k + 2), b = s + k + 1, d = s + k + 2;
    switch ((k + which) % 5) {
    case 0: fz_vv(MUL, d, a, b); break;
    case 1: fz_un(SIN, d, b); break;
    case 2: { int rr[3] = {a, b, a}; fz_red(0, d, 3, rr, 0); } break;
    case 3: { double g[2] = {1.5, -2}; int rr[2] = {a, b}; fz_partials(d, 2, rr, 0.3, g); } break;
    default: fz_vd(MUL, d, b, 3.0);
    }
  }
  fz_grad(s + 11); fz_end();
}
static void leaves(Machine &m, int set) {
  static const double S[6][2] = {{1.25, 0.6}, {0.35, 2.5}, {-0.75, 1.5}, {2.0, 2.0}, {0.5, -0.25}, {1.0, 0.0}};
  m.leaf(S[set][0]); m.leaf(S[set][1]);
}
static void all_roots(Machine &m, int lo = 0) { for (int r = lo; r < (int)m.n.size(); r++) m.grad_check(r); }

static void c03(Fams &F, bool th) {
  auto addprog = [&](const char *name, const char *what, PA A, int N, int sets, bool ctx, uint64_t batch) {
    uint64_t P = progs(*A, 2, N);
    F.push_back({name, fmt("every program of %d operations over 2 inputs from %zu operation kinds (%s), all operand choices, gradient from every variable; %d input settings%s", N, A->size(), what, sets, ctx ? "; on fresh storage, and nested in storage reused after other programs" : ""),
      P * sets * (ctx ? 2 : 1), [=](uint64_t i, Machine &m) {
        Idx d(i); m.ckval = false; int c = ctx ? d.pick(2) : 0; int set = d.pick(sets); uint64_t s[8]; for (int k = 0; k < N; k++) s[k] = d.pick(steps(*A, 2 + k));
        if (c) { dirty(m, set); m.say("begin"); fz_begin(); }
        leaves(m, set); for (int k = 0; k < N; k++) step(m, *A, s[k], 2 + k);
        all_roots(m); m.grad_check((int)m.n.size() - 1);
        if (c) fz_end(); }, batch});
  };
  PA A = mk({kvv(MUL), kvv(SUB), kvv(DIV), kx(K_SUM3), kx(K_DOT2), kun(SIN), kun(EXP), kvd(MUL, 2.5), kdv(SUB, 1.5), kcopy(), kx(K_CUST2)});
  addprog("programs", "* - / sum dot_product sin exp x*c c-x copy user-defined", A, 3, th ? 3 : 1, true, 40);
  PA B = mk({kvv(MUL), kvv(ADD), kx(K_MM), kun(SQUARE), kvd(ADD, 0.0)});
  addprog("programs-deep", "* + matmul square x+0", B, th ? 5 : 4, 1, false, 40);
  addprog("programs-all", "every operation and argument mix", std::make_shared<Alpha>(all_kinds()), 2, th ? 4 : 1, false, 40);
  // expressions at poles or outside their domain that the dependent does not use must not disturb its derivatives
  struct Pole { int t, op; double x, c; };
  static const Pole PO[] = {{0, SQRT, 0, 0}, {0, SQRT, -1, 0}, {0, LOG, 0, 0}, {0, LOG, -2, 0}, {0, INV, 0, 0}, {0, INV_SQRT, 0, 0}, {0, INV_SQUARE, 0, 0}, {0, ASIN, 1, 0}, {0, ASIN, -1, 0}, {0, ACOS, 1, 0}, {0, ACOS, 2, 0}, {0, LOGIT, 0, 0}, {0, LOGIT, 1, 0}, {0, LOGIT, 2, 0},
    {0, LOG_GAMMA, 0, 0}, {0, LOG_GAMMA, -1, 0}, {0, EXP, 1000, 0}, {0, SQUARE, 1e200, 0}, {0, COSH, 800, 0}, {0, SINH, -800, 0}, {0, SIN, INFINITY, 0}, {0, SIN, NAN, 0}, {0, ABS, NAN, 0}, {0, INV_LOGIT, NAN, 0}, {0, ERF, NAN, 0},
    {1, MUL, 0.5, INFINITY}, {1, MUL, 0.5, NAN}, {1, DIV, 0.5, 0.0}, {1, POW, 0, -1}, {1, POW, 0, 0.5}, {1, POW, -1, 0.5}, {1, HYPOT, 0.5, NAN}, {2, DIV, 0, 1}, {2, POW, 2, -1}, {2, POW, 2, 0}, {2, SUB, NAN, 1},
    {3, MUL, INFINITY, 0}, {3, DIV, 0, 0}, {3, POW, 0, 0}, {3, POW, -1, 0}, {3, HYPOT, 0, 0}, {4, 0, INFINITY, 0}, {4, 1, 0, 0}, {4, 1, NAN, 0}, {4, 2, INFINITY, 0}, {4, 2, -INFINITY, 0}, {5, 0, 0, 0}, {6, 0, 0, 0}, {7, 0, 0.5, 0}};
  static const int NPO = sizeof PO / sizeof *PO;
  F.push_back({"unused-poles", fmt("%d operations at a pole, outside their domain or at NaN or infinity x built {before, between, after} the dependent's expression x {alone, squared, added to the input, twice} x 8 dependents of the same input x {fresh, nested} x {gradients of the dependent only, gradient of the pole first, which leaves NaN and infinite adjoints}: every derivative of the dependent as if they were not there", NPO), (uint64_t)NPO * 3 * 4 * 8 * 2 * 2,
    [=](uint64_t i, Machine &m) { Idx d(i); const Pole &p = PO[d.pick(NPO)]; int when = d.pick(3), cons = d.pick(4), g = d.pick(8), nest = d.pick(2), first = d.x, last = -1; m.ckval = false; if (nest) { m.say("begin"); fz_begin(); }
      int z = m.leaf(1.25), x = m.leaf(p.x);
      auto raw = [&](const char *w) { int k = m.add(); m.say("n%d = %s (unused)", k, w); return k; };
      auto seen = [&](int k) { m.n[k].v = fz_val(m.reg(k)); };
      auto spoil = [&] { if (first && last >= 0) { m.say("zero; grad of n%d", last); fz_zero_all(); fz_grad(m.reg(last)); } };
      auto pole = [&] { int k; switch (p.t) {
        case 0: k = raw(UNN[p.op]); fz_un(p.op, m.reg(k), m.reg(x)); break;
        case 1: k = raw(BIN[p.op]); fz_vd(p.op, m.reg(k), m.reg(x), p.c); break;
        case 2: k = raw(BIN[p.op]); fz_dv(p.op, m.reg(k), p.c, m.reg(x)); break;
        case 3: k = raw(BIN[p.op]); fz_vv(p.op, m.reg(k), m.reg(x), m.reg(x)); break;
        case 4: { static const char *R[] = {"sum", "norm2", "log_sum_exp"}; k = raw(R[p.op]); int r[2] = {m.reg(x), m.reg(x)}; fz_red(p.op, m.reg(k), 2, r, 0); } break;
        case 5: { k = raw("normal_lpdf(sigma = 0)"); double y[2] = {1, 2}; fz_lpdf(0, 0, m.reg(k), 2, y, m.reg(z), m.reg(x), 0, 0, 0); } break;
        case 6: { k = raw("lognormal_lpdf(y = -1)"); double y[2] = {-1, 0}; fz_lpdf(1, 0, m.reg(k), 2, y, m.reg(x), m.reg(z), 0, 0, 0); } break;
        default: { k = raw("var_with_partials(inf, nan)"); double pg[2] = {INFINITY, NAN}; int r[2] = {m.reg(x), m.reg(z)}; fz_partials(m.reg(k), 2, r, 0.5, pg); } }
        seen(k); int w; last = k;
        if (cons == 1) { w = raw("squared"); fz_vv(MUL, m.reg(w), m.reg(k), m.reg(k)); seen(w); last = w; }
        if (cons == 2) { w = raw("plus input"); fz_vv(ADD, m.reg(w), m.reg(k), m.reg(x)); seen(w); w = raw("times z"); fz_vv(MUL, m.reg(w), m.reg(z), m.reg(k)); seen(w); last = w; } };
      auto twice = [&] { pole(); if (cons == 3) pole(); };
      if (when == 0) twice();
      // x may hold a value outside the domain of the reference: derivatives are with respect to z, and of operations linear in x
      auto lin = [&](std::function<void(int)> f, const char *w) { int k = m.add(); m.say("n%d = %s", k, w); f(m.reg(k)); seen(k); return k; };
      bool fx = std::isfinite(p.x); int y;
      switch (g) {
      case 0: y = m.un(SIN, z); break;
      case 1: y = lin([&](int k) { fz_vd(MUL, k, m.reg(x), 2.5); }, "n1 * 2.5"); m.edge(y, x, 2.5Q, 0); break;
      case 2: y = lin([&](int k) { fz_vv(ADD, k, m.reg(x), m.reg(z)); }, "n1 + n0"); m.edge(y, x, 1, 0); m.edge(y, z, 1, 0); break;
      case 3: y = lin([&](int k) { fz_vv(MUL, k, m.reg(z), m.reg(x)); }, "n0 * n1"); m.edge(y, x, 1.25Q, 0); if (!fx) throw Skip(); m.edge(y, z, p.x, 0); break;
      case 4: { y = lin([&](int k) { int r[3] = {m.reg(x), m.reg(z), m.reg(x)}; fz_red(0, k, 3, r, 0); }, "sum([n1,n0,n1])"); m.edge(y, x, 2, 0); m.edge(y, z, 1, 0); } break;
      case 5: { y = lin([&](int k) { double c[2] = {3, -0.5}; int r[2] = {m.reg(x), m.reg(z)}; fz_dot(1, k, 2, r, r, c, 0); }, "dot_product([n1,n0],[3,-0.5])"); m.edge(y, x, 3, 0); m.edge(y, z, -0.5Q, 0); } break;
      case 6: if (!fx || fabs(p.x) > 700) throw Skip(); y = m.vv(MUL, m.un(SIN, x), z); break;
      default: { int a = m.un(EXP, z); y = lin([&](int k) { fz_dv(SUB, k, 1.5, m.reg(x)); }, "1.5 - n1"); m.edge(y, x, -1, 0); int b = lin([&](int k) { fz_vv(ADD, k, m.reg(y), m.reg(a)); }, "sum"); m.edge(b, y, 1, 0); m.edge(b, a, 1, 0); y = b; } }
      if (when == 1) twice();
      if (when == 2) { int w = m.vd(MUL, z, 3.0); twice(); (void)w; }
      spoil(); m.grad_check(y); spoil(); m.grad_check(z); m.grad_check(y);
      if (nest) { spoil(); m.say("zero_nested; grad_nested"); fz_zero_nested(); fz_grad_nested(m.reg(y)); m.cmp_all(y); fz_end(); } }, 32});
  // long chains and wide fans
  static const int LEN[] = {1, 2, 3, 5, 10, 50, 100, 300, 700, 1021, 1022, 1023, 1024, 1025, 1026, 1500, 2047, 2048, 2049, 2050, 3000, 4095, 4096, 4097, 5000};
  uint64_t nl = sizeof LEN / sizeof *LEN;
  F.push_back({"long", "chains of 1..5000 operations in 8 link patterns (previous two, previous and first, aliases in between, unrelated variables in between), gradient from the end, the middle and the first variable", nl * 8,
    [=](uint64_t i, Machine &m) { Idx d(i); int pat = d.pick(8), L = LEN[d.x]; m.ckval = false; leaves(m, 0); int x = 0, y = 1, prev = 0, pp = 1;
      for (int k = 0; k < L; k++) { int w;
        switch (pat) {
        case 0: w = m.vv(MUL, m.vd(MUL, prev, 0.5), pp); w = m.vd(ADD, w, 0.75); break;
        case 1: w = m.un(SIN, m.vv(ADD, prev, x)); break;
        case 2: w = m.vd(MUL, m.vv(ADD, prev, pp), 0.5); break;
        case 3: w = m.vd(ADD, m.vd(MUL, prev, 0.999), 0.0); break;
        case 4: m.leaf(0.1 * (k % 7)); w = m.vd(MUL, m.red(0, {prev, pp, x}), 1.0 / 3); break;
        case 5: w = k % 3 ? m.copy(prev) : m.un(COS, prev); break;
        case 6: w = m.vd(MUL, m.dot(0, {prev, x}, {y, prev}, {}), 0.4); break;
        default: w = m.un(TANH, m.vv(SUB, pp, prev)); }
        pp = prev; prev = w; }
      m.grad_check(prev); m.grad_check((int)m.n.size() / 2); m.grad_check(0); m.grad_check(prev); }, 1, 60});
}

static void rel_all(Machine &m) {
  static uint64_t k = 0; int N = m.n.size();
  for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) { fz_rel_vv((k + a + b) % 6, a, b); fz_rel_vd((k + a) % 6, a, m.v(b)); fz_rel_dv((k + b) % 6, m.v(b), a); fz_value_of(a); }
  k++;
}
static void c04(Fams &F, bool th) {
  // shortcut operations on any variable
  Alpha S;
  for (double c : {0.0, 1.0, -0.0, 2.0, -1.0}) for (int o : {ADD, SUB, MUL}) { S.push_back(kvd(o, c)); S.push_back(kdv(o, c)); }
  for (double c : {1.0, 2.0, -1.0}) { S.push_back(kvd(DIV, c)); S.push_back(kdv(DIV, c)); }
  for (double c : {1.0, 0.0, 2.0, 0.5, -1.0, 3.0}) S.push_back(kvd(POW, c));
  for (double c : {1.0, 2.0}) S.push_back(kdv(POW, c));
  for (double c : {0.0, 1.0, -0.0}) { S.push_back(kvd(HYPOT, c)); S.push_back(kdv(HYPOT, c)); }
  for (int o : {POS, NEG, ABS, SQRT, SQUARE}) S.push_back(kun(o));
  S.push_back(kcopy()); for (int o : {MUL, SUB, HYPOT, POW}) S.push_back(kvv(o)); S.push_back(kx(K_SUM2)); S.push_back(kx(K_DOT2)); S.push_back(kx(K_MM));
  for (int t : {K_SUM1, K_NORM1, K_LSE1, K_DOTC1, K_MM1, K_PART1, K_CUST1}) S.push_back(kx(t, 1));
  S.push_back(kx(K_DOT1));
  auto A = std::make_shared<Alpha>(S);
  auto base = [](Machine &m, int b) {
    switch (b) {
    case 0: m.leaf(1.25); m.leaf(-0.5); m.vv(MUL, 0, 1); break;
    case 1: m.leaf(0.0); m.leaf(1.0); m.un(SIN, 0); break;
    case 2: m.leaf(0.7); m.un(EXP, 0); m.vv(DIV, 1, 0); break;
    case 3: m.leaf(2.0); m.un(SQUARE, 0); m.red(0, {0, 1, 0}); break;
    case 4: m.leaf(-1.5); m.custom(3, 0.4, {0, 0}, {0.5}); m.partials({0, 1}, 2.0, {1.5, -1}); break;
    case 5: m.leaf(1.0); m.matmul(0, 1, 1, 1, {0}, {0}, {}, {}, 0); m.leaf(1.0); break;
    case 6: m.leaf(2.0); m.leaf(2.0); m.vv(SUB, 0, 1); break;
    case 7: m.leaf(0.0); m.leaf(2.5); m.vv(MUL, 0, 1); break;
    case 8: m.leaf(0.5); m.leaf(2.0); m.vv(MUL, 0, 1); break;
    } };
  // after every action: values unchanged, every variable's gradient unchanged
  auto run = [=](Machine &m, PA A, int b, int N, uint64_t *s, bool nested) {
    base(m, b); int n0 = m.n.size(); if (nested) { m.say("begin"); fz_begin(); }
    for (int k = 0; k < N; k++) { step(m, *A, s[k], 3 + k); m.values_check("by a later operation"); }
    m.say("all comparisons and reads"); rel_all(m); m.values_check("by comparisons"); all_roots(m);
    if (nested) { m.say("end"); fz_end(); m.n.resize(n0); m.values_check("by a nested environment"); all_roots(m); } };
  for (int N = 1; N <= 2; N++) {
    uint64_t P = progs(*A, 3, N);
    F.push_back({fmt("shortcuts-%d", N), fmt("9 base programs x every sequence of %d operation(s) from %zu shortcut-prone kinds on any variable x {same level, nested}: all values unchanged, all gradients rechecked", N, A->size()), P * 18,
      [=](uint64_t i, Machine &m) { Idx d(i); int b = d.pick(9); bool ne = d.pick(2); uint64_t s[2]; for (int k = 0; k < N; k++) s[k] = d.pick(steps(*A, 3 + k)); run(m, A, b, N, s, ne); }, 40});
  }
  PA B = th ? mk({kvd(ADD, 0), kdv(ADD, 0), kvd(SUB, 0), kdv(SUB, 0), kvd(MUL, 1), kdv(MUL, 1), kvd(MUL, 0), kvd(DIV, 1), kvd(POW, 1), kvd(POW, 0), kvd(HYPOT, 0), kdv(HYPOT, 0), kun(POS), kun(ABS), kun(NEG), kcopy(), kvv(MUL), kx(K_SUM1, 1), kx(K_LSE1, 1)})
            : mk({kvd(ADD, 0), kdv(ADD, 0), kvd(SUB, 0), kvd(MUL, 1), kdv(MUL, 1), kvd(DIV, 1), kvd(POW, 1), kdv(HYPOT, 0), kun(POS), kun(ABS), kvv(MUL), kx(K_SUM1, 1)});
  uint64_t P = progs(*B, 3, 3);
  F.push_back({"shortcuts-3", fmt("6 base programs x every sequence of 3 operations from %zu neutral-constant kinds", B->size()), P * 6,
    [=](uint64_t i, Machine &m) { Idx d(i); int b = d.pick(6); uint64_t s[3]; for (int k = 0; k < 3; k++) s[k] = d.pick(steps(*B, 3 + k)); run(m, B, b, 3, s, false); }, 40});
  // every kind on every operand after every kind: values and gradients of all others stay
  auto K = std::make_shared<Alpha>(all_kinds());
  F.push_back({"all-kinds", "2 base programs x every pair of operations of any kind: values and gradients of all variables stay", progs(*K, 3, 2) * 2,
    [=](uint64_t i, Machine &m) { Idx d(i); int b = d.pick(2) * 2; base(m, b); uint64_t s1 = d.pick(steps(*K, 3)); step(m, *K, s1, 3); m.values_check("by a later operation"); step(m, *K, d.x, 4); m.values_check("by a later operation"); all_roots(m); }, 40});
}

// ---- C05
struct Hist {
  Machine &m; std::vector<size_t> marks; std::vector<q> A, E; std::vector<char> known;
  Hist(Machine &mm) : m(mm) {}
  void sync() { while (A.size() < m.n.size()) { A.push_back(0); E.push_back(0); known.push_back(1); } A.resize(m.n.size()); E.resize(m.n.size()); known.resize(m.n.size()); }
  size_t mark() { return marks.empty() ? 0 : marks.back(); }
  void check(const char *when) {
    for (size_t i = 0; i < m.n.size(); i++) {
      double g = fz_val((int)i); ++*g_checks; if (!(g == m.n[i].v)) m.bad(fmt("value of n%zu %s: %.17g, expected %.17g", i, when, g, m.n[i].v));
      if (known[i] && !m.n[i].alias) { double a = fz_adj((int)i); ++*g_checks; if (!(fabsq((q)a - A[i]) <= E[i])) m.bad(fmt("adjoint of n%zu %s: %.17g, expected %s", i, when, a, qs(A[i]).c_str())); }
    }
  }
  // grad (lo = 0) or grad_nested: applies the derivative rules of the variables from lo on
  void sweep(int root, size_t lo) {
    size_t N = m.n.size(); bool clean = true;
    for (size_t i = lo; i < N; i++) if (!known[i] || A[i] != 0) clean = false;
    std::vector<char> reach(N, 0); reach[root] = 1;
    if (!clean) for (size_t i = lo; i < N; i++) if (!known[i] || A[i] != 0) for (auto &e : m.n[i].e) reach[e.op] = 1;
    for (int i = (int)N - 1; i >= (int)lo; i--) if (reach[i]) for (auto &e : m.n[i].e) reach[e.op] = 1;
    std::vector<q> a, e; m.ref_adj(root, a, e, lo);
    for (size_t i = 0; i < N; i++) {
      if (!reach[i]) continue;
      if (!clean) { known[i] = 0; continue; }
      if (i < lo) { if (known[i]) { A[i] += a[i]; E[i] += e[i] + 1e-15Q * fabsq(A[i]); } continue; }
      known[i] = 1; A[i] = a[i]; E[i] = e[i];
    }
  }
  void act(int a) {
    static const double LV[] = {0.9, -0.7, 1.6, 0.45, -1.2, 2.2};
    size_t N = m.n.size(); int nw = (int)N - 1;
    switch (a) {
    case 0: m.say("begin"); fz_begin(); marks.push_back(N); break;
    case 1: m.say("end"); fz_end(); if (!marks.empty()) { m.n.resize(marks.back()); marks.pop_back(); } break;
    case 2: m.leaf(LV[N % 6]); break;
    case 3: if (N < 1) throw Skip(); m.vv(MUL, nw, 0); break;
    case 4: if (N < 1) throw Skip(); m.un(SIN, nw); break;
    case 5: { if (N < 2) throw Skip(); std::vector<int> l; for (size_t i = 0; i < N; i++) l.push_back((int)i); m.red(0, l); } break;
    case 6: if (N < 1) throw Skip(); m.say("n%d.grad", nw); fz_grad(nw); sync(); sweep(nw, 0); break;
    case 7: if (N < 1 || (size_t)nw < mark()) throw Skip(); m.say("n%d.grad_nested", nw); fz_grad_nested(nw); sync(); sweep(nw, mark()); break;
    case 8: m.say("set_zero_all_adj"); fz_zero_all(); sync(); for (size_t i = 0; i < N; i++) { A[i] = E[i] = 0; known[i] = 1; } break;
    case 9: m.say("set_zero_nested_adj"); fz_zero_nested(); sync(); for (size_t i = mark(); i < N; i++) { A[i] = E[i] = 0; known[i] = 1; } break;
    case 10: { if (N < 1) throw Skip(); int r = mark() < N ? (int)mark() : 0; if (m.n[r].alias) throw Skip(); m.say("n%d.grad", r); fz_grad(r); sync(); sweep(r, 0); } break;
    case 11: m.leaf(LV[N % 6]); m.partials({nw + 1, nw < 0 ? nw + 1 : nw}, 0.3, {1.25, -0.5}); break;
    }
    sync();
  }
  void finish(int variant) {
    if (variant) { all_roots(m); for (size_t i = 0; i < m.n.size(); i++) known[i] = 0; }
    while (!marks.empty()) { act(1); check("after end"); }
    size_t N = m.n.size(); act(2); check("after creating a variable at the end"); int l = (int)N; m.vv(MUL, l, N ? 0 : l); sync(); check("after creating an operation at the end");
    all_roots(m);
  }
};
static void c05(Fams &F, bool th) {
  auto run = [](Machine &m, int ini, int depth, uint64_t x, int na, int variant) {
    Hist h(m); m.ckval = false;
    if (ini) { m.leaf(1.25); m.leaf(0.6); m.vv(MUL, 0, 1); h.sync(); }
    std::string t;
    for (int k = 0; k < depth; k++) { int a = x % na; x /= na; h.act(a); h.check("in the history"); }
    h.finish(variant);
  };
  auto hist = [&](const char *name, int ini, int depth, uint64_t batch, const char *what) {
    uint64_t c = 2; for (int k = 0; k < depth; k++) c *= 12;
    F.push_back({name, fmt("every history of %d actions out of 12 (begin, end, new variable, product, sin, sum over all, grad of newest, grad of first of the level, grad_nested, both resets, variable with partials), %s; then all environments left and every remaining variable's value, adjoint and gradient checked, with and without gradients taken before leaving", depth, what), c,
      [=](uint64_t i, Machine &m) { run(m, ini, depth, i / 2, 12, i % 2); }, batch});
  };
  for (int dp = 1; dp <= 3; dp++) hist(fmt("fresh-%d", dp).c_str(), 0, dp, 1, "as the first use of the library in a process");
  hist("history", 1, th ? 6 : 5, 48, "from 3 existing variables, on storage used by other histories");
  hist("history-empty", 0, th ? 6 : 5, 48, "from no variables, on storage used by other histories");
  // longer histories over the structural actions only
  static const int SUB[] = {0, 1, 2, 3, 7, 9};
  int L = th ? 9 : 7; uint64_t c = 1; for (int k = 0; k < L; k++) c *= 6;
  F.push_back({"structural", fmt("every history of %d actions out of 6 (begin, end, new variable, product, grad_nested, nested reset)", L), c,
    [=](uint64_t i, Machine &m) { Hist h(m); m.ckval = false; m.leaf(1.25); h.sync(); for (int k = 0; k < L; k++) { h.act(SUB[i % 6]); i /= 6; h.check("in the history"); } h.finish(0); }, 40});
  F.push_back({"deep", "nesting to depth 1..64 x 0..3 variables created per level x action pattern per level x 0..3 surplus ends", 64 * 4 * 6 * 4,
    [=](uint64_t i, Machine &m) { Idx d(i); int D = 1 + d.pick(64), per = d.pick(4), pat = d.pick(6), extra = d.pick(4); Hist h(m); m.ckval = false; m.leaf(1.25); h.sync();
      static const int P[6][3] = {{2, 3, 6}, {3, 4, 7}, {2, 5, 9}, {11, 7, 8}, {4, 4, 4}, {2, 7, 10}};
      for (int k = 0; k < D; k++) { h.act(0); for (int j = 0; j < per; j++) h.act(P[pat][j]); }
      h.check("at the deepest level");
      for (int k = 0; k < D; k++) { h.act(1); if (k % 3 == pat % 3) { h.check("while leaving"); if (per && k % 2) { h.act(2); h.act(9); h.check("after using a level again"); } } }
      for (int k = 0; k < extra; k++) { h.act(1); h.check("after a surplus end"); }
      h.finish(0); }, 8});
}

// ---- C18
static void c18(Fams &F, bool th) {
  PA D = mk({kvv(MUL), kvv(SUB), kun(SIN), kvd(MUL, 2.0), kcopy(), kx(K_SUM3), kx(K_DOT2)});
  static const double G[] = {0.5, -1.25, 2.0, 0.75, 3.5, -0.1, 1e-3, 40.0};
  auto obs = [](Machine &m, int c, size_t nd, int root) {
    std::vector<q> A, E; m.ref_adj(root, A, E);
    if (A[c] == 0) return;
    size_t no = m.n[c].e.size();
    ++*g_checks;
    if (fz_obs_calls != 1) m.bad(fmt("derivative rule applied %d times in one gradient", fz_obs_calls));
    if (fz_obs_val != m.n[c].v) m.bad(fmt("value inside the rule is %.17g, expected %.17g", fz_obs_val, m.n[c].v));
    if (!(fabsq((q)fz_obs_adj - A[c]) <= E[c])) m.bad(fmt("adjoint inside the rule is %.17g, expected %s", fz_obs_adj, qs(A[c]).c_str()));
    if (fz_obs_nop != (int)no) m.bad(fmt("operand count inside the rule is %d, expected %zu", fz_obs_nop, no));
    if (fz_obs_ndop != (int)nd) m.bad(fmt("data count inside the rule is %d, expected %zu", fz_obs_ndop, nd));
    for (size_t k = 0; k < no && k < 4096; k++) if (fz_obs_op[k] != m.n[m.n[c].e[k].op].v) m.bad(fmt("operand %zu inside the rule is %.17g", k + 1, fz_obs_op[k]));
  };
  auto obsd = [](Machine &m, const std::vector<double> &g) { for (size_t k = 0; k < g.size() && k < 4096; k++) if (fz_obs_dop[k] != g[k]) m.bad(fmt("data item %zu inside the rule is %.17g, expected %.17g", k + 1, fz_obs_dop[k], g[k])); };
  int NO = th ? 5 : 4; uint64_t tup = 1; for (int k = 0; k < NO; k++) tup *= 3;
  uint64_t ds = steps(*D, 4);
  F.push_back({"rule", fmt("user rule x {operands only, operands and data, data only, none} x 0..%d operands in every repetition pattern over 3 variables x 0..4 data items x every further operation on any variables", NO), 4ull * (NO + 1) * tup * 5 * ds,
    [=](uint64_t i, Machine &m) { Idx d(i); int kind = d.pick(4), no = d.pick(NO + 1), nd = d.pick(5); uint64_t t = d.pick(tup), st = d.x;
      uint64_t lim = 1; for (int k = 0; k < no; k++) lim *= 3; if (t >= lim) throw Skip();
      if ((kind == 0 && (no || nd)) || (kind == 1 && nd) || (kind == 2 && no)) throw Skip();
      m.ckval = true; m.leaf(1.25); m.leaf(-0.5); m.leaf(2.0); std::vector<int> a; for (int k = 0; k < no; k++) { a.push_back(t % 3); t /= 3; }
      std::vector<double> g(G, G + nd); int c = m.custom(kind, 0.375, a, g); int w = step(m, *D, st, 4);
      for (int root : {c, w}) { fz_obs_calls = 0; m.grad_check(root); std::vector<q> A, E; m.ref_adj(root, A, E); obs(m, c, kind >= 2 ? nd : 0, root); if (A[c] != 0) obsd(m, kind >= 2 ? g : std::vector<double>()); }
      m.values_check("by the user-defined operation"); }, 40});
  F.push_back({"two-rules", "two user-defined variables in sequence, operands chosen from 4 variables (all pairs), data sizes 0..3 each, with a variable with partials on top", 16 * 16 * 16 * 16,
    [=](uint64_t i, Machine &m) { Idx d(i); m.leaf(1.25); m.leaf(-0.5); int o1 = d.pick(2), o2 = d.pick(2); int n1 = d.pick(4), n2 = d.pick(4); uint64_t a = d.pick(16), b = d.pick(16), c = d.x % 64; if (d.x >= 64) throw Skip();
      std::vector<double> g1(G, G + n1), g2(G + 2, G + 2 + n2);
      m.custom(3, 0.5, {(int)(a % 2), (int)(a / 2 % 2)}, g1); if (a >= 4) m.un(SIN, 2); int k = m.n.size(); std::vector<int> ops = {(int)(b % 4) % k, (int)(b / 4) % k}; if (o2) ops.push_back(k - 1); if (o1) ops.insert(ops.begin(), 0);
      m.custom(3, -0.25, ops, g2); k = m.n.size(); m.partials({(int)(c % 8) % k, (int)(c / 8) % k, k - 1}, 1.0, {0.5, -2.0, 1.25}); all_roots(m); }, 40});
  static const int SZ[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 2048, 3000}; uint64_t ns = sizeof SZ / sizeof *SZ;
  F.push_back({"sizes", "user rule and var_with_partials with 0..3000 operands x 0..3000 data items, operands repeating with period 1, 3 or 7, nested or not", ns * ns * 3 * 2,
    [=](uint64_t i, Machine &m) { Idx d(i); int no = SZ[d.pick(ns)], nd = SZ[d.pick(ns)], per = 1 + 3 * d.pick(3); bool ne = d.x; if (per == 4) per = 3; for (int k = 0; k < 8; k++) m.leaf(0.5 + 0.25 * k);
      if (ne) { m.say("begin"); fz_begin(); }
      std::vector<int> a; for (int k = 0; k < no; k++) a.push_back(k % per); std::vector<double> g; for (int k = 0; k < nd; k++) g.push_back(0.01 * (k % 9) - 0.02);
      int c = m.custom(3, 0.5, a, g); m.vd(MUL, c, 2.0); fz_obs_calls = 0; m.grad_check(c + 1); obs(m, c, nd, c + 1); obsd(m, g);
      if (no) { std::vector<double> gg; for (int k = 0; k < no; k++) gg.push_back(1.0 + 0.5 * (k % 5)); int p = m.partials(a, 0.25, gg); int w = m.vv(MUL, p, c); m.grad_check(w); m.values_check("by a user-defined operation"); }
      if (ne) { fz_end(); m.n.resize(8); m.grad_check(0); } }, 32});
  F.push_back({"partials", "var_with_partials with 1..5 operands in every repetition pattern over 3 variables x partials including 0, negative, huge and tiny x every further operation", 5ull * 243 * 4 * ds,
    [=](uint64_t i, Machine &m) { Idx d(i); int no = 1 + d.pick(5); uint64_t t = d.pick(243); int gs = d.pick(4); uint64_t lim = 1; for (int k = 0; k < no; k++) lim *= 3; if (t >= lim) throw Skip();
      static const double PG[4][5] = {{1, -2, 0.5, 3, -0.25}, {0, 0, 1, 0, 2}, {1e150, -1e-150, 1, 1e10, -1e10}, {-1, -1, -1, -1, -1}};
      m.leaf(1.25); m.leaf(-0.5); m.leaf(2.0); std::vector<int> a; for (int k = 0; k < no; k++) { a.push_back(t % 3); t /= 3; }
      int p = m.partials(a, 0.75, std::vector<double>(PG[gs], PG[gs] + no)); int w = step(m, *D, d.x, 4); m.grad_check(p); m.grad_check(w); }, 40});
}

// ---- C19
static void c19(Fams &F, bool th) {
  F.push_back({"construct", "6 constructors x sizes (vectors 0..40, matrices up to 6x6) x {fresh storage, storage reused with dirty adjoints} x {same level, nested}: values, zero adjoints, distinctness (assigning one element changes only it), gradients", 6 * 41 * 2 * 2,
    [=](uint64_t i, Machine &m) { Idx d(i); int kind = d.pick(6), sz = d.pick(41); int dr = d.pick(2), ne = d.x; int M = 1, N = sz;
      if (kind == 3 || kind == 5) { M = sz / 6 + 1; N = sz % 6 + 1; if (M > 6) throw Skip(); } if (kind < 2 && sz > 3) throw Skip();
      if (dr) dirty(m, sz % 5); if (ne) fz_begin();
      m.leaf(0.5); int cnt = M * N; std::vector<int> r; std::vector<double> x, e;
      if (kind < 2) cnt = 1;
      for (int k = 0; k < cnt; k++) { r.push_back(m.reg(m.add())); x.push_back(0.25 + 1.5 * k); }
      e = x; m.say("constructor %d %dx%d", kind, M, N);
      switch (kind) { case 0: fz_var0(r[0]); e[0] = 0; break; case 1: fz_var(r[0], x[0]); break; case 2: fz_var_arr(cnt, r.data(), x.data()); break; case 3: fz_var_arr2(M, N, r.data(), x.data()); break;
        case 4: fz_var_n(cnt, r.data()); e.assign(cnt, 0.0); break; case 5: fz_var_mn(M, N, r.data()); e.assign(cnt, 0.0); break; }
      for (int k = 0; k < cnt; k++) { m.chkval(1 + k, e[k], 0, "constructed"); double a = fz_adj(r[k]); ++*g_checks; if (a != 0) m.bad(fmt("new element %d has adjoint %.17g", k, a)); }
      if (cnt) { std::vector<int> l0 = {0}; for (int k = 0; k < cnt && k < 3; k++) l0.push_back(k + 1); int s0 = m.red(0, l0); m.grad_check(s0); }
      auto aj = m.adjs();
      for (int k = 0; k < cnt; k++) { fz_assign(r[k], 100.0 + k); m.n[1 + k].v = 100.0 + k; if (m.n.size() > (size_t)cnt + 1) m.n[cnt + 1].v = fz_val(m.reg(cnt + 1)); m.values_check("by assigning one element"); }
      m.adjs_check(aj, "by assignments");
      std::vector<int> all; for (int k = 0; k <= cnt; k++) all.push_back(k); int s = m.red(0, all); m.vv(MUL, s, 0); m.grad_check(s); m.grad_check(s + 1);
      for (int k = 0; k <= std::min(cnt, 3); k++) m.grad_check(k);
      if (ne) fz_end(); }, 16});
  F.push_back({"assign-array", "array assignment (whole, strided section, reversed section; from array or from scalar; rank 1 and 2) x sizes 0..9 / up to 5x5 x three assignments in sequence: exactly the assigned variables change", 8 * 36 * 3,
    [=](uint64_t i, Machine &m) { Idx d(i); int form = d.pick(8), sz = d.pick(36), off = d.x; for (int k = 0; k < 40; k++) m.leaf(0.125 * k - 1);
      { std::vector<int> l; for (int k = 0; k < 40; k++) l.push_back(k); fz_red(0, 50, 40, l.data(), 0); fz_zero_all(); fz_grad(50); if (off == 2) { double dx[40] = {0}; fz_dot(0, 51, 40, l.data(), l.data(), dx, 0); fz_zero_all(); fz_grad(51); } } auto aj = m.adjs();
      int M = 1, N = sz; if (form >= 5) { M = sz / 6; N = sz % 6; } else if (sz > 9) throw Skip(); int cnt = M * N; if (cnt == 0 && form >= 5) throw Skip();
      for (int rep = 0; rep < 3; rep++) { std::vector<int> r(cnt + 1); std::vector<double> x(cnt + 1); int st = off ? off : 1; for (int k = 0; k < cnt; k++) { r[k] = (3 + rep + k * st) % 40; x[k] = 10.5 * (rep + 1) - k; }
        if (st > 1 && cnt * st > 36) throw Skip();
        m.say("assign form %d shape %dx%d round %d", form, M, N, rep);
        switch (form) { case 0: case 1: case 2: fz_assign_arr(cnt, r.data(), x.data(), form); break; case 3: case 4: fz_assign_arr0(cnt, r.data(), -7.5 + rep, form - 3); break; case 5: case 6: fz_assign_mat(M, N, r.data(), x.data(), form - 5); break; default: fz_assign_mat0(M, N, r.data(), -7.5 + rep); }
        for (int k = 0; k < cnt; k++) m.n[r[k]].v = form == 3 || form == 4 || form == 7 ? -7.5 + rep : form == 2 ? x[cnt - 1 - (cnt - 1 - k)] : x[k];
        m.values_check("by an array assignment"); m.adjs_check(aj, "by an array assignment"); }
      int w = m.vv(MUL, 3, 4); m.grad_check(w); m.grad_check(5); }, 64});
  // histories: assignments interleaved with building and gradients; after an assignment only variables built from current values are checked
  int L = th ? 6 : 5; uint64_t c = 1; for (int k = 0; k < L; k++) c *= 10;
  F.push_back({"history", fmt("every history of %d actions out of 10 (assign new values to inputs, assign equal value, copy and assign through the copy, build product/sum/2x, take gradients, read): values of all other variables stay; gradients of expressions built from current values are exact", L), c,
    [=](uint64_t i, Machine &m) { m.leaf(1.25); m.leaf(0.6); std::vector<int> fresh;   // expressions whose inputs have not been reassigned since
      std::vector<char> stale; std::vector<int> root; // root of alias chains
      auto rep = [&](int x) { while (m.n[x].alias) x = m.n[x].e[0].op; return x; };
      std::function<bool(int, int)> dep = [&](int a, int b) { if (rep(a) == b) return true; for (auto &e : m.n[a].e) if (dep(e.op, b)) return true; return false; };
      std::vector<char> lin;     // all edges independent of values
      auto sync = [&]() { while (stale.size() < m.n.size()) { int k = stale.size(); char s = 0; for (auto &e : m.n[k].e) s |= stale[e.op]; stale.push_back(s); } };
      auto assign = [&](int t, double x) { int r = rep(t); m.say("n%d = %.17g (assignment)", t, x); auto aj = m.adjs(); fz_assign(m.reg(t), x); m.adjs_check(aj, "by an assignment");
        sync(); for (size_t k = 0; k < m.n.size(); k++) { if (rep(k) == r) m.n[k].v = x; else if (dep(k, r)) stale[k] = 1; } 
        m.values_check("by an assignment"); };
      sync();
      for (int k = 0; k < L; k++) { int a = i % 10; i /= 10; int nw = m.n.size() - 1;
        switch (a) {
        case 0: assign(0, -0.4 + 0.3 * k); break; case 1: assign(1, 2.0 - 0.25 * k); break; case 2: assign(0, m.v(0)); break;
        case 3: m.copy(nw); break;
        case 4: { int r = rep(nw); if (!m.n[r].e.empty()) throw Skip(); assign(nw, 0.55 * (k + 1)); } break;
        case 5: m.vv(MUL, nw, 0); break; case 6: m.red(0, {nw, 1, 0}); break; case 7: m.vd(MUL, nw, 2.0); break;
        case 8: m.un(SIN, 0); break;
        case 9: sync(); for (size_t r = 0; r < m.n.size(); r++) if (!stale[r]) { m.grad_check(r); } break; }
        sync(); m.values_check("later"); }
      sync(); for (size_t r = 0; r < m.n.size(); r++) if (!stale[r]) m.grad_check(r);
      int w = m.vv(MUL, 0, 1); m.grad_check(w); }, 40});
  F.push_back({"copies", "every pattern of 4 copies among 5 variables followed by assignment of each: the copy and its origin stay the same quantity, all others keep theirs", 625 * 5 * 2,
    [=](uint64_t i, Machine &m) { Idx d(i); bool w0 = d.pick(2); int t = d.pick(5); m.leaf(1.25); m.leaf(0.6); m.leaf(-2.0); std::vector<int> rep = {0, 1, 2};
      for (int k = 0; k < 4; k++) { int s = d.pick(5); if (s >= (int)m.n.size()) throw Skip(); m.copy(s); rep.push_back(rep[s]); }
      if (w0) { int r = rep[t]; int g0 = m.red(0, {0, 1, 2, 4, 6}); m.grad_check(g0); m.n.pop_back(); auto aj = m.adjs(); m.say("n%d = 9.5", t); fz_assign(m.reg(t), 9.5); m.adjs_check(aj, "by assignment through a copy"); for (size_t k = 0; k < m.n.size(); k++) if (rep[k] == r) m.n[k].v = 9.5; m.values_check("by assignment through a copy"); }
      int s = m.red(0, {0, 1, 2, 3, 4, 5, 6}); m.vv(MUL, s, t); m.grad_check(s); m.grad_check(s + 1); }, 40});
  F.push_back({"awkward-values", "assignment of every one of 11 values (0, -0, 1, the next numbers, subnormal, smallest, largest, infinities, NaN) over every other by 9 kinds of assignment and 4 constructors: exactly that value, bit for bit, in exactly the assigned variables", 11 * 11 * 13,
    [=](uint64_t i, Machine &m) { Idx d(i); static const double W[] = {0.0, -0.0, 1, 1 + 0x1p-52, 1 - 0x1p-53, 5e-324, -2.2250738585072014e-308, 1.7976931348623157e308, INFINITY, -INFINITY, NAN}; double a = W[d.pick(11)], b = W[d.pick(11)]; int form = d.x;
      const int N = 9; for (int k = 0; k < N; k++) { fz_var(k, k % 4 == 3 ? b : a); } std::vector<double> e(N); for (int k = 0; k < N; k++) e[k] = k % 4 == 3 ? b : a;
      m.say("values %.17g (%.17g) replaced by %.17g, kind of assignment %d", a, b, b, form); int r[4] = {2, 3, 6, 7}; double x[4] = {b, a, b, b};
      switch (form) { case 0: case 1: case 2: for (int k = 0; k < 4; k++) e[r[k]] = x[k]; fz_assign_arr(4, r, x, form); break; case 3: case 4: for (int k = 0; k < 4; k++) e[r[k]] = b; fz_assign_arr0(4, r, b, form - 3); break;
        case 5: case 6: for (int k = 0; k < 4; k++) e[r[k]] = x[k]; fz_assign_mat(2, 2, r, x, form - 5); break; case 7: for (int k = 0; k < 4; k++) e[r[k]] = b; fz_assign_mat0(2, 2, r, b); break; case 8: e[5] = b; fz_assign(5, b); break;
        case 9: e[4] = b; fz_var(4, b); break; case 10: for (int k = 0; k < 4; k++) e[r[k]] = x[k]; fz_var_arr(4, r, x); break; case 11: for (int k = 0; k < 4; k++) e[r[k]] = x[k]; fz_var_arr2(2, 2, r, x); break; default: for (int k = 0; k < 4; k++) e[r[k]] = 0; fz_var_n(4, r); }
      for (int k = 0; k < N; k++) { ++*g_checks; double g = fz_val(k); if (memcmp(&g, &e[k], 8) && !(std::isnan(g) && std::isnan(e[k]))) m.bad(fmt("variable %d has the value %.17g instead of %.17g", k, g, e[k])); } }, 64});
}
void fam_graph(Fams &F, bool th, const std::string &sel) {
  if (sel == "C03") c03(F, th);
  if (sel == "C04") c04(F, th);
  if (sel == "C05") c05(F, th);
  if (sel == "C18") c18(F, th);
  if (sel == "C19") c19(F, th);
}
