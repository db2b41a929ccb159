// Exhaustive driver: families of executions enumerated by index, run in forked
// processes (a crash or hang of the library is an observation, not the end).
#pragma once
#include "fz.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <map>
#include <atomic>

struct Shared {
  std::atomic<uint64_t> evals, skipped, stops, transitions, checks, crashes, states, next, stop, dup;
  std::atomic<int> nviol;
  struct V { char fam[64]; uint64_t lo, hi; char text[6000]; } v[8];
  struct S { char text[1200]; } sample[4];
  std::atomic<int> nsample;
  std::atomic<uint64_t> known[16];
  volatile uint64_t cur[64];
};
static const size_t TAB = 1u << 23;
static Shared *SH; static std::atomic<uint64_t> *TABLE;
uint64_t *g_transitions, *g_checks;
static uint64_t loc_tr, loc_ck;
// known findings: keys listed in the environment (one per line); a hit is counted, not raised
static const std::vector<std::string> &known_keys() { static std::vector<std::string> k; static bool init; if (!init) { init = true; std::string e = getenv("FZ_KNOWN") ? getenv("FZ_KNOWN") : ""; size_t p = 0; while (p < e.size()) { size_t q = e.find('\n', p); if (q == std::string::npos) q = e.size(); if (q > p) k.push_back(e.substr(p, q - p)); p = q + 1; } } return k; }
static bool is_known(const std::string &key) { auto &k = known_keys(); for (size_t i = 0; i < k.size() && i < 16; i++) if (k[i] == key) { SH->known[i]++; return true; } return false; }
void note_state(uint64_t h) {
  if (!TABLE) return; if (!h) h = 1;
  size_t i = (h * 0x9E3779B97F4A7C15ull) >> 41;
  for (int k = 0; k < 64; k++, i = (i + 1) & (TAB - 1)) {
    uint64_t e = TABLE[i].load(std::memory_order_relaxed);
    if (e == h) { return; }
    if (e == 0) { if (TABLE[i].compare_exchange_strong(e, h)) { SH->states++; return; } if (e == h) return; }
  }
}
static void flush_counts() { SH->transitions += loc_tr; SH->checks += loc_ck; loc_tr = loc_ck = 0; }

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

// child exit codes: 0 fine, 11 violation recorded in *slot
static int child_run(Family &f, uint64_t lo, uint64_t hi, Shared::V *slot, int w) {
  for (uint64_t i = lo; i < hi; i++) {
    SH->cur[w] = i;
    Machine m; m.base = 0;
    try { f.run(i, m); SH->evals++; note_state(m.hash());
      int ns = SH->nsample; if (ns < 4 && (i * 7 + 3) % (f.count / 3 + 1) == 0 && m.log.size() && SH->nsample.compare_exchange_strong(ns, ns + 1)) snprintf(SH->sample[ns].text, 1200, "[%s #%llu] %s", f.name.c_str(), (unsigned long long)i, m.log.c_str()); }
    catch (Skip &) { SH->skipped++; }
    
    catch (Violation &e) {
      snprintf(slot->text, sizeof slot->text, "%s", e.what()); snprintf(slot->fam, sizeof slot->fam, "%s", f.name.c_str());
      slot->lo = lo; slot->hi = i + 1; flush_counts(); return 11;
    }
    while (g_open > 0) fz_end();
  }
  flush_counts();
  return 0;
}
// run [lo,hi) in a fresh process. returns 0 ok, 11 violation, other: crash (text set)
static int forked(Family &f, uint64_t lo, uint64_t hi, Shared::V *slot, int w, int limit) {
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    alarm(limit);
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); if (!getenv("FZ_STDERR")) dup2(nul, 2);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    int rc = child_run(f, lo, hi, slot, w); if (getenv("FZ_COV")) exit(rc);   // coverage builds write their counters on exit
    _exit(rc);
  }
  int st; while (waitpid(p, &st, 0) < 0) ;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 11) return 11;
  if ((f.stop_ok && WIFEXITED(st) && WEXITSTATUS(st) != 0) || (f.sig_ok && WIFSIGNALED(st) && WTERMSIG(st) != SIGALRM && WTERMSIG(st) != SIGKILL)) { SH->evals++; SH->stops++; return 0; }
  if (f.max_stops && WIFEXITED(st) && WEXITSTATUS(st) == 1 && __sync_add_and_fetch(f.stops, 1) <= f.max_stops) { SH->evals++; SH->stops++; return 0; }
  snprintf(slot->fam, sizeof slot->fam, "%s", f.name.c_str()); slot->lo = lo; slot->hi = hi;
  if (WIFSIGNALED(st)) snprintf(slot->text, sizeof slot->text, "%s in execution %llu", WTERMSIG(st) == SIGALRM ? "no termination (time limit)" : strsignal(WTERMSIG(st)), (unsigned long long)SH->cur[w]);
  else snprintf(slot->text, sizeof slot->text, "the program was stopped (exit status %d) in execution %llu", WEXITSTATUS(st), (unsigned long long)SH->cur[w]);
  return 1;
}
// full treatment of one batch; returns true if a violation was stored
static bool do_batch(Family &f, uint64_t lo, uint64_t hi, int w) {
  static Shared::V *slots = nullptr;
  if (!slots) slots = (Shared::V *)mmap(0, sizeof(Shared::V) * 2, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Shared::V *s = &slots[0];
  int r = forked(f, lo, hi, s, w, f.limit_s);
  if (r == 0) return false;
  // reproduce: alone first, then with the history of the batch
  uint64_t at = r == 11 ? s->hi - 1 : SH->cur[w];
  Shared::V *a = &slots[1];
  int ra = forked(f, at, at + 1, a, w, f.limit_s * 4);
  Shared::V out;
  if (ra != 0) out = *a;
  else {
    int rb = forked(f, lo, at + 1, s, w, f.limit_s * 4);
    if (rb == 0) { SH->crashes++; return false; }   // not reproducible: not reported (counted)
    out = *s; out.lo = lo; out.hi = at + 1;
  }
  if (ra != 0) { out.lo = at; out.hi = at + 1; }
  int k = SH->nviol++;
  if (k < 8) SH->v[k] = out;
  return true;
}
static std::string jesc(const std::string &s) {
  std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32) o += fmt("\\u%04x", c); else o += c; } return o;
}

static int explore_main(int argc, char **argv, std::function<std::vector<Family>(bool thorough, const std::string &sel)> mk) {
  std::string sel, out, replay, rfam; bool thorough = false; int jobs = 8; uint64_t maxf = 0; uint64_t rlo = 0, rhi = 0, every = 1; double budget = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--sel") sel = argv[++i]; else if (a == "--thorough") thorough = true; else if (a == "--jobs") jobs = atoi(argv[++i]);
    else if (a == "--out") out = argv[++i]; else if (a == "--cap") g_cap = atoi(argv[++i]);
    else if (a == "--max") maxf = strtoull(argv[++i], 0, 10);   // leave out families larger than this
    else if (a == "--every") every = strtoull(argv[++i], 0, 10);     // development aid: only every n-th batch
    else if (a == "--budget") budget = atof(argv[++i]);
    else if (a == "--replay") { rfam = argv[++i]; rlo = strtoull(argv[++i], 0, 10); rhi = strtoull(argv[++i], 0, 10); }
  }
  SH = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  TABLE = (std::atomic<uint64_t> *)mmap(0, TAB * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_transitions = &loc_tr; g_checks = &loc_ck;
  auto fams = mk(thorough, sel);
  if (!rfam.empty()) {
    for (auto &f : fams) if (f.name == rfam) {
      static Shared::V *s = (Shared::V *)mmap(0, sizeof(Shared::V), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      int r = forked(f, rlo, rhi, s, 0, f.limit_s * 4);
      if (r == 0) { printf("replay: no violation\n"); return 0; }
      printf("replay: %s\n", s->text); return 1;
    }
    fprintf(stderr, "no such family\n"); return 2;
  }
  double t0 = now(); std::string fj; bool capped = false;
  for (auto &f : fams) {
    if (maxf && f.count > maxf) continue;
    if (const char *o = getenv("FZ_ONLY")) if (f.name != o) continue;      // development aid
    SH->next = 0; uint64_t e0 = SH->evals, k0 = SH->skipped; double ft = now();
    std::vector<pid_t> ws;
    uint64_t b = f.batch; if (f.count / b < (uint64_t)jobs * 4) b = std::max<uint64_t>(1, f.count / (jobs * 4));
    for (int w = 0; w < jobs; w++) {
      fflush(stdout);
      pid_t p = fork();
      if (p == 0) {
        for (;;) {
          if (SH->nviol >= 3) break;
          if (budget > 0 && now() - t0 > budget) { SH->stop = 1; break; }
          uint64_t lo = SH->next.fetch_add(b); if (lo >= f.count) break;
          if (every > 1 && (lo / b) % every) continue;
          do_batch(f, lo, std::min(lo + b, f.count), w);
        }
        _exit(0);
      }
      ws.push_back(p);
    }
    for (pid_t p : ws) { int st; waitpid(p, &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { fprintf(stderr, "worker died\n"); return 2; } }
    if (SH->stop) capped = true;
    fj += fmt("%s{\"family\":\"%s\",\"rule\":\"%s\",\"space\":%llu,\"executed\":%llu,\"infeasible\":%llu,\"wall_s\":%.2f}", fj.empty() ? "" : ",", f.name.c_str(), jesc(f.rule).c_str(),
      (unsigned long long)f.count, (unsigned long long)(SH->evals - e0), (unsigned long long)(SH->skipped - k0), now() - ft);
    fprintf(stderr, "  family %-28s space %llu executed %llu infeasible %llu  %.2fs\n", f.name.c_str(), (unsigned long long)f.count, (unsigned long long)(SH->evals - e0), (unsigned long long)(SH->skipped - k0), now() - ft);
    if (SH->nviol >= 3 || capped) break;
  }
  std::string j = fmt("{\"executions\":%llu,\"infeasible\":%llu,\"transitions\":%llu,\"checks\":%llu,\"states\":%llu,\"unreproducible\":%llu,\"stopped\":%llu,\"capped\":%s,\"wall_s\":%.2f,",
    (unsigned long long)SH->evals, (unsigned long long)SH->skipped, (unsigned long long)SH->transitions, (unsigned long long)SH->checks, (unsigned long long)SH->states, (unsigned long long)SH->crashes, (unsigned long long)SH->stops, capped ? "true" : "false", now() - t0);
  j += "\"families\":[" + fj + "],\"samples\":[";
  for (int i = 0; i < SH->nsample; i++) j += (i ? "," : "") + ("\"" + jesc(SH->sample[i].text) + "\"");
  j += "],\"known\":{"; { bool first = true; for (size_t i = 0; i < known_keys().size() && i < 16; i++) if (SH->known[i]) { j += fmt("%s\"%s\":%llu", first ? "" : ",", jesc(known_keys()[i]).c_str(), (unsigned long long)SH->known[i]); first = false; } }
  j += "},\"violations\":[";
  int nv = std::min<int>(SH->nviol, 8);
  for (int i = 0; i < nv; i++) j += fmt("%s{\"family\":\"%s\",\"lo\":%llu,\"hi\":%llu,\"text\":\"", i ? "," : "", SH->v[i].fam, (unsigned long long)SH->v[i].lo, (unsigned long long)SH->v[i].hi) + jesc(SH->v[i].text) + "\"}";
  j += "]}\n";
  if (!out.empty()) { FILE *o = fopen(out.c_str(), "w"); fputs(j.c_str(), o); fclose(o); } else fputs(j.c_str(), stdout);
  return nv ? 1 : 0;
}
