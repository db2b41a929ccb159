// C16: failing solves; C17: releasing everything
#define FAULT_PART
#include "fam_ode.cpp"
// number of allocations in the solve of a scenario (measured in a child)
template <class G> static long measure(G g) {
  int fd[2]; if (pipe(fd)) abort(); pid_t p = fork();
  if (p == 0) { Machine m; g_arm = 0; long r = -1; try { g(m); r = g_allocs; } catch (...) {} if (write(fd[1], &r, sizeof r) < 0) _exit(1); _exit(0); }
  int st; waitpid(p, &st, 0); close(fd[1]); long r = -1; if (read(fd[0], &r, sizeof r) != sizeof r) r = -1; close(fd[0]); return r; }
struct Scen { int kind, n, np, method, prob, prefill, nt; };
static Case scase(const Scen &s) { Case c; c.pr = s.prob; c.n = s.n; c.p = params(s.prob, s.np, 0); c.y0 = state(s.prob, s.n, 0, 1); c.ts = s.nt == 1 ? std::vector<double>{0.5} : grid(1, 0, 0.6); c.method = s.method; c.rtol = 1e-5; c.atol = 1e-7; return c; }
static void srun(Machine &m, const Scen &s) {
  if (s.prefill) { m.say("%d variables", s.prefill); for (int k = 0; k < s.prefill; k++) fz_var(40000 + k % 20000, 1.0); }
  Case c = scase(s);
  if (s.kind == 0) { use_data(m, c); return; }
  std::vector<int> a; for (double v : s.kind == 2 ? c.p : c.y0) a.push_back(m.leaf(v)); auto y = use_sens(m, c, s.kind == 2, a); for (int k : y) m.grad_check(k); }
void fam_fault(Fams &F, bool th, const std::string &sel) {
  if (sel == "C16" && fz_alloc_arm) {
    auto S = std::make_shared<std::vector<Scen>>(); auto off = std::make_shared<std::vector<uint64_t>>(); uint64_t tot = 0; std::string cnts;
    for (int kind = 0; kind < 3; kind++) for (int me = 100; me < 102; me++) for (int n : {1, 3}) { S->push_back({kind, n, 2, me, 0, 0, 3}); if (th) { S->push_back({kind, n, 2, me, 9, 0, 1}); S->push_back({kind, n + 4, 5, me, 11, 0, 1}); } }
    for (int kind = 1; kind < 3; kind++) for (int pre : {1000, 1015}) S->push_back({kind, 2, 2, 100, 9, pre, 1});          // the tape grows during the solve
    for (auto &s : *S) { long k = measure([&](Machine &m) { srun(m, s); }); off->push_back(tot); if (k > 0) tot += k + 1; cnts += fmt(" %ld", k); }
    off->push_back(tot);
    for (int st = 0; st < 2; st++)
      F.push_back({st ? "out-of-memory" : "single-allocation", fmt("%s, for each of %zu solve scenarios (data / initial state / parameters, BDF / ADAMS, 1..7 equations, tape growth during the solve; allocations per scenario:%s)", st ? "all allocations from the k-th on fail, every k" : "exactly the k-th allocation fails, every k", S->size(), cnts.c_str()), tot,
        [=](uint64_t i, Machine &m) { size_t j = 0; while (i >= (*off)[j + 1]) j++; g_arm = 1 + i - (*off)[j]; g_sticky = st; m.say("allocation %ld%s fails in scenario %zu", g_arm, st ? " and all later" : "", j); srun(m, (*S)[j]); }, 1, 60, true, true});
  }
  if (sel == "C16") {
    static const double RT_[] = {1e-6, -1e-6, NAN, 0, 1, -INFD}; static const double AT_[] = {1e-8, -1e-8, NAN, 0, 1e300, -INFD};
    static const int ME[] = {100, 101, 0, -1, 3, 17, 1000000};
    F.push_back({"settings", "every combination of 7 method codes, 6 relative and 6 absolute tolerances (negative, NaN, zero, infinite), data / initial state / parameter solves, 2 sizes, initial states with zeros", (uint64_t)7 * 6 * 6 * 3 * 2 * 2,
      [=](uint64_t i, Machine &m) { Idx d(i); Case c; int me = ME[d.pick(7)]; double rt = RT_[d.pick(6)], at = AT_[d.pick(6)]; int kind = d.pick(3); c.n = 1 + 2 * d.pick(2); c.pr = 0; c.p = params(0, 2, 0); c.y0 = state(0, c.n, 0, 1); if (d.x) c.y0[0] = 0; c.ts = {0.4, 1}; c.method = me; c.rtol = rt; c.atol = at;
        c.judge_r = std::isnan(rt) || rt < 0 ? 1e-4 : rt + 1e-6; c.judge_a = std::isnan(at) || at < 0 ? 1e-6 : at + 1e-8;
        std::vector<int> a; if (kind == 0) { use_data(m, c); return; } for (double v : kind == 2 ? c.p : c.y0) a.push_back(m.leaf(v)); for (int k : use_sens(m, c, kind == 2, a)) m.grad_check(k); }, 1, 60, true});
    F.push_back({"accuracy", "6 relative and 5 absolute tolerances at and below the rounding of the numbers (0, 1e-18 .. 5e-15; 0, 1e-300 .. 1e-12), 6 problems, 2 methods, 3 kinds of solve, starts with and without a zero: the requested accuracy is impossible or nearly so", (uint64_t)6 * 5 * 6 * 2 * 3 * 2,
      [=](uint64_t i, Machine &m) { Idx d(i); static const double R2[] = {0, 1e-18, 1e-16, 1e-15, 5e-15, 1e-13}, A2[] = {0, 1e-300, 1e-30, 1e-18, 1e-12}; static const int P_[] = {0, 4, 6, 9, 2, 11}; Case c; c.rtol = R2[d.pick(6)]; c.atol = A2[d.pick(5)]; c.pr = P_[d.pick(6)]; c.method = 100 + d.pick(2); int kind = d.pick(3); c.n = c.pr == 11 ? 3 : 2; c.p = params(c.pr, minpar(c.pr), 0); c.y0 = state(c.pr, c.n, 0, 1); if (d.x) c.y0[c.n - 1] = 0; c.ts = {0.1, 0.3}; c.maxn = 3000; c.judge_r = 1e-6; c.judge_a = 1e-8;
        std::vector<int> a; if (kind == 0) { use_data(m, c); return; } for (double v : kind == 2 ? c.p : c.y0) a.push_back(m.leaf(v)); for (int k : use_sens(m, c, kind == 2, a)) m.grad_check(k); }, 1, 60, true});
    static const int MX[] = {1, 2, 3, 5, 10, 20, 50, 100, 400, 0, -1}; 
    F.push_back({"step-limits", "step limits 1..400, the default and none, for 5 problems, 2 methods, 2 tolerances, 3 output grids, 3 kinds of solve", (uint64_t)11 * 5 * 2 * 2 * 3 * 3,
      [=](uint64_t i, Machine &m) { Idx d(i); static const int P_[] = {0, 4, 6, 9, 2}; Case c; c.maxn = MX[d.pick(11)]; c.pr = P_[d.pick(5)]; c.method = 100 + d.pick(2); int to = d.pick(2), g = d.pick(3), kind = d.x; c.n = 2; c.p = params(c.pr, minpar(c.pr), 0); c.y0 = state(c.pr, 2, 0, 1); if (c.pr == 6) c.p[0] = 20; c.ts = grid(g, 0, c.pr == 4 ? 0.3 : 1.2); c.rtol = TOLS[to][0]; c.atol = TOLS[to][1];
        std::vector<int> a; if (kind == 0) { use_data(m, c); return; } for (double v : kind == 2 ? c.p : c.y0) a.push_back(m.leaf(v)); for (int k : use_sens(m, c, kind == 2, a)) m.grad_check(k); }, 1, 60, true});
    // output times that cannot be served
    auto G = std::make_shared<std::vector<std::vector<double>>>(std::vector<std::vector<double>>{{0}, {0, 1}, {1, 0}, {1, 0.5}, {1, -1}, {-1, 1}, {1, 1, 0.99}, {1e-20}, {1e-20, 1}, {NAN}, {1, NAN}, {NAN, 1}, {1, NAN, 1.5}, {INFD}, {1, INFD}, {-INFD}, {1, 2, 0.2}, {1, 1.0000000000000002}, {1, 0.9999999999999999, 1.2}, {1e-300, 1}});
    F.push_back({"output-times", "20 awkward or impossible lists of output times (equal to the start, behind the current time, reversing, NaN, infinite, almost equal), 3 kinds of solve, 2 methods, 2 start times", (uint64_t)G->size() * 3 * 2 * 2,
      [=](uint64_t i, Machine &m) { Idx d(i); Case c; c.ts = (*G)[d.pick(G->size())]; int kind = d.pick(3); c.method = 100 + d.pick(2); c.t0 = d.x ? 2 : 0; for (double &t : c.ts) t += c.t0; c.maxn = 5000; c.pr = 9; c.n = 2; c.p = params(9, 2, 0); c.y0 = {0.4, -0.2}; 
        std::vector<int> a; if (kind == 0) { use_data(m, c); return; } for (double v : kind == 2 ? c.p : c.y0) a.push_back(m.leaf(v)); for (int k : use_sens(m, c, kind == 2, a)) m.grad_check(k); }, 1, 60, true});
    F.push_back({"bad-rhs", "right-hand sides that turn NaN or infinite (each component, from 6 times on, including the start), initial states with NaN or infinity in each component, 3 kinds of solve, 2 methods, 1..4 equations", (uint64_t)4 * 7 * 4 * 2 * 3 * 2,
      [=](uint64_t i, Machine &m) { Idx d(i); static const double TA[] = {-1, 0, 1e-9, 0.25, 0.5, 0.7, 0}; Case c; c.n = 1 + d.pick(4); int w = d.pick(7), comp = d.pick(4); fz_rhs_nan_kind = d.pick(2); int kind = d.pick(3); c.method = 100 + d.x; if (comp >= c.n) throw Skip(); c.pr = 0; c.p = params(0, 2, 0); c.y0 = state(0, c.n, 0, 1); c.ts = {0.3, 0.5, 0.9}; c.maxn = 5000;
        if (w < 6) { fz_rhs_nan_after = TA[w]; fz_rhs_nan_comp = comp + 1; m.say("rhs component %d is %s from t=%g on", comp + 1, fz_rhs_nan_kind ? "infinite" : "NaN", TA[w]); c.badafter = TA[w]; } else { c.y0[comp] = fz_rhs_nan_kind ? INFD : NAN; c.badafter = -1; }
        std::vector<int> a; if (kind == 0) { use_data(m, c); return; } if (w == 6 && kind == 1) { for (double v : c.y0) { int k = m.add(); fz_var(m.reg(k), v); m.n[k].v = v; a.push_back(k); } } else for (double v : kind == 2 ? c.p : c.y0) a.push_back(m.leaf(v)); use_sens(m, c, kind == 2, a); }, 1, 60, true});
  }
  if (sel == "C17") {
    bool cnt = fz_alloc_live != nullptr; const int NK = 29; static const char *KN[] = {"data solve BDF", "data solve ADAMS", "data solve strided", "y0 solve BDF in a nested environment", "y0 solve ADAMS in a nested environment", "y0 solve strided, nested", "parameter solve BDF, nested", "parameter solve ADAMS, nested", "parameter solve strided, nested", "gradient", "jacobian", "gradient with a solve inside", "jacobian with a solve inside", "nested environment with arrays", "matmul/dot/lpdf in a nested environment", "nested depth 12", "gradient of strided input", "custom operations, nested", "top-level parameter solve (tape grows by itself)", "top-level gradient sweeps", "data solve 10 equations 40 times", "array operations of every layout, nested", "y0 solve BDF, 7 equations, nested", "parameter solve ADAMS, 15 parameters, nested", "parameter solve BDF, 14 parameters, nested", "y0 solve ADAMS, 14 equations, nested", "nested environment with one variable", "empty nested environment", "nested environments with one variable each inside one another"};
    auto op = [](int k, Machine &m) {
      auto cs = [&](int pr, int n, int np, int me, int lay) { Case c; c.pr = pr; c.n = n; c.p = params(pr, np, 0); c.y0 = state(pr, n, 0, 1); c.ts = grid(1, 0, 0.5); c.method = me; c.lay = lay; return c; };
      auto sens = [&](Case c, bool par) { m.n.clear(); std::vector<int> a; for (double v : par ? c.p : c.y0) a.push_back(m.leaf(v)); auto y = use_sens(m, c, par, a); m.grad_check(y.back()); };
      auto nest = [&](std::function<void()> f) { fz_begin(); m.n.clear(); f(); fz_end(); m.n.clear(); };
      auto call = [&](bool j, bool sol, bool st) { m.n.clear(); Call f; f.outer = &m; f.x = {0.7, 0.9, 0.4}; f.body = [&](Machine &in) { int z; if (sol) { Case c = cs(9, 2, 2, 100, 0); auto y = use_sens(in, c, false, {0, 1}); z = in.vv(MUL, y[0], y.back()); } else { z = in.vv(MUL, 0, 1); z = in.dot(0, {z, 2}, {2, z}, {}); z = in.red(2, {z, 0, 1}); } f.out = {z, 0}; if (!j) f.out.resize(1); }; if (j) f.jacobian(2); else f.gradient(st); };
      m.log.clear();
      switch (k) {
      case 0: use_data(m, cs(0, 3, 2, 100, 0)); m.n.clear(); break; case 1: use_data(m, cs(9, 2, 2, 101, 0)); m.n.clear(); break; case 2: use_data(m, cs(0, 4, 2, 100, 1)); m.n.clear(); break;
      case 3: nest([&] { sens(cs(0, 3, 2, 100, 0), false); }); break; case 4: nest([&] { sens(cs(9, 2, 2, 101, 0), false); }); break; case 5: nest([&] { sens(cs(0, 3, 2, 100, 1), false); }); break;
      case 6: nest([&] { sens(cs(0, 3, 5, 100, 0), true); }); break; case 7: nest([&] { sens(cs(9, 2, 2, 101, 0), true); }); break; case 8: nest([&] { sens(cs(0, 3, 1, 100, 1), true); }); break;
      case 9: call(false, false, false); break; case 10: call(true, false, false); break; case 11: call(false, true, false); break; case 12: call(true, true, false); break;
      case 13: nest([&] { std::vector<int> d; std::vector<double> x; for (int j = 0; j < 50; j++) { m.add(); d.push_back(m.reg(j)); x.push_back(j * 0.1); } fz_var_arr(50, d.data(), x.data()); fz_grad(d[3]); }); break;
      case 14: nest([&] { int a = m.leaf(0.5), b = m.leaf(1.5); m.matmul(0, 2, 2, 2, {a, b, b, a}, {b, b, a, a}, {}, {}, 0); m.matmul(1, 2, 2, 1, {a, b, b, a}, {}, {}, {0.5, 2}, 1); m.dot(1, {a, b}, {}, {1, 2}); int l = m.lpdf(0, 0, {0.5, 1, 2}, a, b, 0, 0, 0); m.grad_check(l); }); break;
      case 15: for (int j = 0; j < 12; j++) fz_begin(); m.n.clear(); m.leaf(1.0); m.un(SIN, 0); for (int j = 0; j < 12; j++) fz_end(); m.n.clear(); break;
      case 16: call(false, false, true); break;
      case 17: nest([&] { int a = m.leaf(0.5), b = m.leaf(1.5); int p = m.partials({a, b, a}, 0.7, {1, 2, 3}); int c = m.custom(3, 0.3, {p, b}, {0.25, 0.5}); m.grad_check(c); }); break;
      case 18: sens(cs(0, 2, 2, 100, 0), true); m.n.clear(); break;
      case 19: { m.n.clear(); m.leaf(0.3); m.un(SIN, 0); m.vv(MUL, 0, 1); m.grad_check(2); m.grad_check(1); m.n.clear(); } break;
      case 20: { Case c = cs(9, 10, 2, 100, 0); c.ts.clear(); for (int j = 1; j <= 40; j++) c.ts.push_back(0.02 * j); use_data(m, c); m.n.clear(); } break;
      case 22: nest([&] { sens(cs(0, 7, 2, 100, 0), false); }); break; case 23: nest([&] { sens(cs(5, 2, 15, 101, 0), true); }); break; case 24: nest([&] { sens(cs(0, 3, 14, 100, 0), true); }); break; case 25: nest([&] { sens(cs(11, 14, 1, 101, 0), false); }); break;
      case 21: nest([&] { std::vector<int> a; for (int j = 0; j < 8; j++) a.push_back(m.leaf(0.5 + 0.1 * j)); for (int lay = 0; lay < 3; lay++) { m.red(0, a, lay); m.red(1, a, lay); m.red(2, a, lay); if (lay < 2) m.dot(0, a, a, {}, lay); } }); break;
      case 26: nest([&] { m.leaf(0.5); }); break; case 27: nest([&] {}); break; case 28: nest([&] { m.leaf(0.5); fz_begin(); m.leaf(1.5); fz_begin(); fz_end(); fz_begin(); m.un(SIN, 1); fz_end(); fz_end(); }); break;
      } };
    F.push_back({"repeat", fmt("every pair of %d kinds of activity (solves of every kind, gradient, jacobian, nested environments, array and user operations), 3 warm-up rounds and 4 measured rounds%s", NK, cnt ? ": number and size of live allocations constant" : " under AddressSanitizer (double free, use after free)"), (uint64_t)NK * NK,
      [=](uint64_t i, Machine &m) { int a = i % NK, b = i / NK; bool top = a == 18 || b == 18 || a == 19 || b == 19; std::vector<long> L, B; L.reserve(64); B.reserve(64); std::string lg; lg.reserve(4096);
        // capacity of the tape far beyond what the rounds use
        fz_begin(); for (int k = 0; k < 6000; k++) fz_var(60000 + k % 3000, 1.0); fz_end();
        auto live = [&] { Machine t; std::swap(t.n, m.n); std::swap(t.log, m.log); return cnt ? std::make_pair(fz_alloc_live(), fz_alloc_bytes()) : std::make_pair(0L, 0L); };
        for (int r = 0; r < 7; r++) { op(a, m); op(b, m); std::vector<Node>().swap(m.n); std::string().swap(m.log); auto p = live(); L.push_back(p.first); B.push_back(p.second); }
        for (int r = 0; r < 7; r++) m.say("round %d: %s; %s: live blocks %ld, bytes %ld", r + 1, KN[a], KN[b], L[r], B[r]);
        int nd = m.add(); m.n[nd].v = a; m.edge(nd, b, 1, 0);
        for (int r = 4; r < 7; r++) { ++*g_checks; if (L[r] != L[3] || (!top && B[r] != B[3])) m.bad(fmt("live allocations grow: %ld blocks / %ld bytes after round 4, %ld / %ld after round %d", L[3], B[3], L[r], B[r], r + 1)); } }, 8, 120});
    // no spare capacity: whatever a round leaves behind fills the tape until it has to grow
    int R = cnt ? th ? 5000 : 1300 : 60;
    F.push_back({"long", fmt("each activity (those that end by themselves) %d times from an empty library, and a quarter as often after 900 variables: live allocations as after the third time", R), (uint64_t)NK * 2, [=](uint64_t i, Machine &m) { int k = i % NK, pre = i / NK; if (k == 18 || k == 19) throw Skip(); int reps = pre && cnt ? R / 4 : R;
        for (int j = 0; j < pre * 900; j++) fz_var(60000 + j, 1.0);
        long l3 = 0, b3 = 0, bl = 0; for (int r = 0; r < reps; r++) { op(k, m); std::vector<Node>().swap(m.n); std::string().swap(m.log); if (cnt) { bl = fz_alloc_bytes(); if (r == 2) { l3 = fz_alloc_live(); b3 = bl; } if (r > 2) { ++*g_checks; if (fz_alloc_live() != l3 || bl != b3) m.bad(fmt("%s: live allocations grow: %ld blocks after round 3, %ld after round %d; bytes %ld, %ld", KN[k], l3, fz_alloc_live(), r + 1, b3, bl)); } } } m.say("%s x %d: %ld blocks %ld bytes", KN[k], reps, l3, b3); int nd = m.add(); m.n[nd].v = k; m.edge(nd, pre, 1, 0); }, 1, 240});
  }
}
