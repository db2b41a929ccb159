// gradient/jacobian calls with programs as f, and contexts to call from
#pragma once
#include "fz.h"
#include <memory>
struct Call;
static void cb(void *p);
// one call of gradient/jacobian: f is a program over the inputs, captured outer variables and nested calls
struct Call {
  Machine in; Machine *outer = nullptr; std::vector<double> x; std::vector<int> cap;    // captured outer nodes
  std::function<void(Machine &)> body; std::vector<int> out; std::vector<int> outreg, inreg;
  std::string err; bool skip = false; int depth = 0;
  void prep(int nout) { in.base = 2000 + 12000 * depth; for (size_t i = 0; i < x.size(); i++) inreg.push_back(in.base + i); out.resize(nout, 0); outreg.assign(nout, in.base); in.ckval = true; }
  void run() {
    in.n.clear(); in.log = outer ? "  (context)\n" + outer->log + "  (f)\n" : "";
    for (size_t i = 0; i < x.size(); i++) { int k = in.add(); in.n[k].v = x[i]; in.say("n%d = x(%zu) = %.17g", k, i + 1, x[i]); double g = fz_val(in.reg(k)); ++*g_checks; if (g != x[i]) throw Violation(fmt("inside f: x(%zu) has value %.17g, expected %.17g", i + 1, g, x[i]) + in.log); double a = fz_adj(in.reg(k)); if (a != 0) throw Violation(fmt("inside f: x(%zu) has adjoint %.17g", i + 1, a) + in.log); }
    for (int c : cap) { int k = in.add(); in.say("n%d = captured outer n%d", k, c); fz_copy(in.reg(k), outer->reg(c)); in.n[k].v = outer->n[c].v; in.n[k].alias = false; }
    body(in);
    for (size_t i = 0; i < out.size(); i++) outreg[i] = in.reg(out[i]);
  }
  void verify(const std::vector<double> &res, int n) {
    if (skip) throw Skip();
    if (!err.empty()) throw Violation(err);
    for (int r = 0; r < n; r++) {
      std::vector<q> A, E; in.ref_adj(out[r], A, E);
      ++*g_checks; if (!(res[r] == in.n[out[r]].v)) in.bad(fmt("component %d of f is returned as %.17g, its value is %.17g", r + 1, res[r], in.n[out[r]].v));
      for (size_t k = 0; k < x.size(); k++) { double g = res[n * (k + 1) + r]; ++*g_checks; if (!(fabsq((q)g - A[k]) <= E[k])) in.bad(fmt("partial derivative of component %d with respect to x(%zu) is returned as %.17g, expected %s", r + 1, k + 1, g, qs(A[k]).c_str())); }
    }
  }
  void gradient(bool strided) { prep(1); std::vector<double> res(x.size() + 1, -777.0); (strided ? fz_gradient_s : fz_gradient)(cb, this, (int)x.size(), inreg.data(), x.data(), outreg.data(), res.data()); verify(res, 1); note_state(in.hash()); }
  void jacobian(int n) { prep(n); std::vector<double> res(n * (x.size() + 1) + 1, -777.0); fz_jacobian(cb, this, (int)x.size(), inreg.data(), x.data(), n, outreg.data(), res.data()); verify(res, n); note_state(in.hash()); }
};
static void cb(void *p) {
  Call &c = *(Call *)p;
  try { c.run(); } catch (Skip &) { c.skip = true; } catch (Violation &v) { c.err = v.what(); if (c.err.empty()) c.err = "?"; }
}
// contexts in which the call is made
static const int NCTX = 9;
struct Ctx {
  Machine &m; int c; std::vector<double> adj; std::vector<size_t> marks;
  Ctx(Machine &mm, int cc) : m(mm), c(cc) {
    m.ckval = false; m.leaf(0.8); m.leaf(-1.3);
    if (c == 0) return;
    m.vv(MUL, 0, 1); m.un(SIN, 2);
    if (c == 1) return;
    grad(3);                                             // stale adjoints everywhere
    if (c == 3) { beg(); }
    if (c == 4) { beg(); m.leaf(0.4); m.vv(MUL, 4, 0); grad(5); }
    if (c == 5) { beg(); m.leaf(0.4); m.vv(MUL, 4, 1); grad(5); beg(); m.vv(SUB, 5, 3); m.un(EXP, 4); grad(7); }
    if (c == 6) { beg(); m.leaf(0.4); m.un(COS, 4); grad(5); m.say("end"); fz_end(); m.n.resize(4); marks.pop_back(); }     // reused storage
    if (c == 7) { for (int k = 0; k < 12; k++) { beg(); m.vv(MUL, (int)m.n.size() - 1, 0); } grad((int)m.n.size() - 1); }
    if (c == 8) { for (int k = 0; k < 1200; k++) m.vd(ADD, (int)m.n.size() - 1, 0.001); grad((int)m.n.size() - 1); }
  }
  void beg() { m.say("begin"); fz_begin(); marks.push_back(m.n.size()); }
  void grad(int r) { m.say("n%d.grad", r); fz_grad(m.reg(r)); }
  void before() { adj.clear(); for (size_t i = 0; i < m.n.size(); i++) adj.push_back(fz_adj(m.reg(i))); }
  void after(const std::vector<int> &readby = {}) {
    m.say("(after the call)"); m.values_check("by the call");
    std::vector<char> rd(m.n.size(), 0); for (int c : readby) rd[c] = 1;
    for (int i = (int)m.n.size() - 1; i >= 0; i--) for (auto &e : m.n[i].e) if (m.n[i].alias && rd[i]) rd[e.op] = 1;
    for (size_t i = 0; i < adj.size(); i++) { ++*g_checks; double a = fz_adj(m.reg(i)); if (!rd[i] && memcmp(&a, &adj[i], 8)) m.bad(fmt("adjoint of pre-existing n%zu changed by the call: was %.17g, is %.17g", i, adj[i], a)); }
  }
  void finish() {   // nesting state: variables of each level survive exactly as long as their level
    int k = m.n.size(); m.leaf(0.9); m.vv(MUL, k, 0); m.vv(ADD, k + 1, k); m.values_check("by variables created after the call");
    m.grad_check(k + 2); if (k < 50) m.grad_check(k - 1);
    while (!marks.empty()) { m.say("end"); fz_end(); m.n.resize(marks.back()); marks.pop_back(); m.values_check("by leaving an environment"); int j = m.n.size(); m.leaf(1.1); m.vv(MUL, j, 0); m.values_check("by variables created after leaving"); m.grad_check(j + 1); }
    // outside every environment the nested reset covers all variables
    m.say("set_zero_nested_adj outside every environment"); fz_grad(m.reg(m.n.size() - 1)); fz_zero_nested();
    for (size_t i = 0; i < m.n.size(); i++) { ++*g_checks; double a = fz_adj(m.reg(i)); if (a != 0) m.bad(fmt("the nesting level was not restored: n%zu keeps adjoint %.17g after the reset", i, a)); }
  }
};
