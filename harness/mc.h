// Bounded exhaustive explorer for the real library code (stateless model checking by choice enumeration).
//
// A "space" is a body that asks choose(n) at every branching point. The explorer runs the body once for
// every sequence of answers (complete depth-first enumeration, no sampling, no time cut-off); the first
// choices of a space are expanded into tasks that worker processes take from a shared counter. The worker's
// current choice vector lives in shared memory, so that a crash, sanitizer report, assertion or hang of the
// code under test is attributed to the exact execution and exploration continues with the next one.
// A choice vector is a replayable counterexample:  <binary> --replay <space> c0,c1,...
#pragma once
#include "ref.h"
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <set>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>

extern "C" size_t __sanitizer_get_current_allocated_bytes();

void define_spaces();
namespace mc {
enum { MAXD = 96, MAXW = 16, MAXFAIL = 64, MAXOUT = 512, MAXSAMP = 24 };
static const size_t HT = 1u << 24;
struct Rec { std::atomic<uint64_t> beat; uint32_t len; uint32_t c[MAXD], n[MAXD]; int64_t task; int active; };
struct Fail { char space[48]; char key[200]; char msg[1600]; uint32_t len; uint32_t c[MAXD]; };
struct Out { char tag[64]; std::atomic<uint64_t> cnt; };
struct Shared {
  std::atomic<uint64_t> next_task, execs, steps, choices, states, htfull, nfail, nout, spin;
  Rec w[MAXW]; Fail f[MAXFAIL]; Out o[MAXOUT];
  std::atomic<uint64_t> nsamp; char samp[MAXSAMP][256];
};
inline Shared *S; inline std::atomic<uint64_t> *H; inline Rec *R; inline const char *cur_space = "";
inline bool verbose = false, thorough = false; inline size_t cut_at = (size_t)-1;
inline uint32_t pre[MAXD]; inline size_t prelen = 0; // forced choices of this run
struct Failure {}; struct Cut {};
struct Space { std::string name; size_t depth; std::function<void()> body; };
inline std::vector<Space> &spaces() { static std::vector<Space> v; return v; }
inline void space(const std::string &n, size_t d, std::function<void()> b) { spaces().push_back({n, d, b}); }

inline uint32_t choose(uint32_t n) {
  if (n == 0) { fprintf(stderr, "choose(0)\n"); abort(); }
  size_t i = R->len; if (i >= MAXD) { fprintf(stderr, "choice vector too long\n"); abort(); }
  if (i >= cut_at) throw Cut();
  uint32_t v = i < prelen ? pre[i] : 0; if (v >= n) { fprintf(stderr, "replay vector does not fit (choice %zu: %u of %u)\n", i, v, n); abort(); }
  R->c[i] = v; R->n[i] = n; R->len = i + 1; return v;
}
inline bool flip() { return choose(2); }
template <class T> const T &pick(const std::vector<T> &v) { return v[choose(v.size())]; }
inline void step(uint64_t n = 1) { S->steps.fetch_add(n, std::memory_order_relaxed); }
inline void state(uint64_t h) {
  if (!h) h = 1; size_t i = (h * 0x9E3779B97F4A7C15ULL) >> 40;
  for (int k = 0; k < 64; k++, i = (i + 1) & (HT - 1)) {
    uint64_t e = H[i].load(std::memory_order_relaxed);
    if (e == h) return;
    if (e == 0) { if (H[i].compare_exchange_strong(e, h)) { S->states.fetch_add(1); return; } if (e == h) return; }
  }
  S->htfull.fetch_add(1);
}
inline void state(const ref::bytes &b) { state(ref::fnv(b)); }
inline void lock() { while (S->spin.exchange(1)) usleep(1); }
inline void unlock() { S->spin.store(0); }
inline void outcome(const char *tag, uint64_t n = 1) {
  static std::map<std::string, int> idx; auto it = idx.find(tag); int k;
  if (it != idx.end()) k = it->second; else {
    lock(); uint64_t c = S->nout.load(); k = -1; for (uint64_t i = 0; i < c; i++) if (!strcmp(S->o[i].tag, tag)) k = i;
    if (k < 0 && c < MAXOUT) { k = c; snprintf(S->o[k].tag, 64, "%s", tag); S->nout.store(c + 1); } unlock(); idx[tag] = k; }
  if (k >= 0) S->o[k].cnt.fetch_add(n, std::memory_order_relaxed);
}
inline void outcome(const std::string &t) { outcome(t.c_str()); }
inline void sample(const std::string &s) { uint64_t k = S->nsamp.load(); if (k >= MAXSAMP) return; k = S->nsamp.fetch_add(1); if (k < MAXSAMP) snprintf(S->samp[k], 256, "%s", s.c_str()); }
inline std::string vecstr(const uint32_t *c, size_t n) { std::string s; for (size_t i = 0; i < n; i++) { if (i) s += ','; s += std::to_string(c[i]); } return s.empty() ? "-" : s; }
inline void record(const char *key, const char *msg, const Rec *r) {
  if (verbose) fprintf(stderr, "FAIL key=%s\n%s\n", key, msg);
  uint64_t k = S->nfail.fetch_add(1); if (k >= MAXFAIL) return; Fail &f = S->f[k];
  snprintf(f.space, sizeof f.space, "%s", cur_space); snprintf(f.key, sizeof f.key, "%s", key); snprintf(f.msg, sizeof f.msg, "%s", msg); f.len = r->len; memcpy(f.c, r->c, sizeof f.c);
}
inline std::string fmt(const char *f, ...) { char b[1600]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
[[noreturn]] inline void fail(const std::string &key, const std::string &msg) { record(key.c_str(), msg.c_str(), R); throw Failure(); }
inline std::string cutstr(const std::string &s, size_t n = 600) { return s.size() <= n ? s : s.substr(0, n) + "...(" + std::to_string(s.size()) + ")"; }
// expectation helpers: key = what is being judged (stable), details in msg
inline void ok(bool c, const std::string &key, const std::string &msg = "") { if (!c) fail(key, msg); }
inline void eq(const ref::bytes &got, const ref::bytes &want, const std::string &key, const std::string &ctx = "") { if (got != want) fail(key, ctx + "\n got  " + cutstr(ref::hex(got)) + "\n want " + cutstr(ref::hex(want))); }
inline void eq(const std::string &got, const std::string &want, const std::string &key, const std::string &ctx = "") { if (got != want) fail(key, ctx + "\n got  '" + cutstr(got) + "'\n want '" + cutstr(want) + "'"); }
inline void eqn(long long got, long long want, const std::string &key, const std::string &ctx = "") { if (got != want) fail(key, ctx + " got " + std::to_string(got) + " want " + std::to_string(want)); }
// run f; a leak is a heap growth that repeats in three consecutive identical runs
inline void noleak(const std::string &key, const std::function<void()> &f, const std::string &ctx = "") {
  size_t d = 0; for (int i = 0; i < 3; i++) { size_t a = __sanitizer_get_current_allocated_bytes(); f(); size_t b = __sanitizer_get_current_allocated_bytes(); if (b <= a) return; d = b - a; }
  fail(key, ctx + " leaks " + std::to_string(d) + " bytes per execution");
}
inline void (*before_run)() = nullptr;
// one run with forced prefix pre[0..prelen)
inline int run_once(const Space &sp) { // 0 ok 1 failure 2 cut
  R->len = 0; R->beat.fetch_add(1); R->active = 1; if (before_run) before_run();
  try { sp.body(); S->execs.fetch_add(1); S->choices.fetch_add(R->len); R->active = 0; return 0; }
  catch (Failure &) { S->execs.fetch_add(1); S->choices.fetch_add(R->len); R->active = 0; return 1; }
  catch (Cut &) { R->active = 0; return 2; }
  catch (std::exception &e) { record("exception", e.what(), R); S->execs.fetch_add(1); R->active = 0; return 1; }
}
inline bool advance(size_t floor) { for (size_t i = R->len; i-- > floor;) if (R->c[i] + 1 < R->n[i]) { memcpy(pre, R->c, sizeof(uint32_t) * i); pre[i] = R->c[i] + 1; prelen = i + 1; return true; } return false; }

struct Task { std::vector<uint32_t> p; };
inline std::vector<Task> *T;
inline void worker(const Space &sp, int wi, bool resume) {
  R = &S->w[wi]; int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); if (!verbose) dup2(nul, 2);
  for (;;) {
    size_t fl;
    if (resume) { resume = false; fl = (*T)[R->task].p.size(); if (!advance(fl)) continue; }
    else { uint64_t t = S->next_task.fetch_add(1); if (t >= T->size()) break; R->task = t; const auto &p = (*T)[t].p; fl = p.size(); memcpy(pre, p.data(), 4 * fl); prelen = fl; }
    do { run_once(sp); if (S->nfail.load() >= MAXFAIL) _exit(0); } while (advance(fl));
  }
  _exit(0);
}
inline std::string jstr(const std::string &s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
inline std::string death(int st) { if (WIFSIGNALED(st)) return "signal " + std::to_string(WTERMSIG(st)); return "exit " + std::to_string(WEXITSTATUS(st)); }
inline int hang_s = 90; inline bool hung = false, keep_going = false; // a hang ends the exploration, other failures end it after the current space (unless findings are recorded)
inline void explore(const Space &sp, int W) {
  cur_space = sp.name.c_str();
  // expand the first sp.depth choices into tasks, in a child (the code under test may crash there too)
  size_t cap = 1u << 22; uint32_t *buf = (uint32_t *)mmap(0, cap * 4, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); // [n, c...]*
  std::atomic<uint64_t> *fill = (std::atomic<uint64_t> *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  R = &S->w[0]; bool resume = false; fill[0] = 0;
  for (int crashes = 0;;) {
    pid_t p = fork();
    if (!p) {
      int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); if (!verbose) dup2(nul, 2);
      cut_at = sp.depth; bool more = true; if (resume) more = advance(0); else prelen = 0;
      while (more) { int r = run_once(sp); if (r == 2) { uint64_t o = fill[0]; if (o + R->len + 1 > cap) abort(); buf[o] = R->len; memcpy(buf + o + 1, R->c, 4 * R->len); fill[0] = o + 1 + R->len; } if (S->nfail.load() >= MAXFAIL) break; more = advance(0); }
      _exit(0);
    }
    uint64_t last = R->beat; int st; time_t t0 = time(0); bool hang = false; int nap = 50;
    while (waitpid(p, &st, WNOHANG) == 0) { usleep(nap); if (nap < 20000) nap += nap / 2; if (R->beat != last) { last = R->beat; t0 = time(0); } else if (time(0) - t0 > hang_s) { kill(p, SIGKILL); hang = true; } }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
    std::string v = vecstr(R->c, R->len), k = std::string(hang ? "hang" : "crash") + ":" + sp.name + ":" + v; record(k.c_str(), (std::string(hang ? "hang" : "crash") + " (" + death(st) + ") in execution " + v).c_str(), R);
    resume = true; if (hang) hung = true; if (hang || ++crashes >= 8) break;
  }
  std::vector<Task> ts; for (uint64_t o = 0; o < fill[0];) { uint32_t n = buf[o]; Task t; t.p.assign(buf + o + 1, buf + o + 1 + n); ts.push_back(t); o += n + 1; }
  munmap(buf, cap * 4); munmap(fill, 4096); if (hung) return; T = &ts; S->next_task = 0;
  std::vector<pid_t> pid(W, 0); std::vector<uint64_t> last(W, 0); std::vector<time_t> seen(W, time(0)); int live = 0, crashes = 0;
  for (int i = 0; i < W; i++) { S->w[i].active = 0; S->w[i].task = -1; S->w[i].len = 0; }
  auto spawn = [&](int i, bool res) { pid_t p = fork(); if (!p) worker(sp, i, res); pid[i] = p; seen[i] = time(0); last[i] = S->w[i].beat; live++; };
  if (!ts.empty()) for (int i = 0; i < W && i < (int)ts.size(); i++) spawn(i, false);
  while (live) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p <= 0) { usleep(2000); for (int i = 0; i < W; i++) if (pid[i]) { if (S->w[i].beat != last[i]) { last[i] = S->w[i].beat; seen[i] = time(0); } else if (time(0) - seen[i] > hang_s) { kill(pid[i], SIGKILL); pid_t q = waitpid(pid[i], &st, 0); (void)q; live--; int k = i; pid[k] = 0; R = &S->w[k]; std::string v = vecstr(R->c, R->len); record(("hang:" + sp.name + ":" + v).c_str(), ("no progress for " + std::to_string(hang_s) + " s in execution " + v).c_str(), R); hung = true; (void)crashes; } } if (hung) { for (int i = 0; i < W; i++) if (pid[i]) { kill(pid[i], SIGKILL); waitpid(pid[i], &st, 0); pid[i] = 0; live--; } } continue; }
    int i = -1; for (int k = 0; k < W; k++) if (pid[k] == p) i = k; if (i < 0) continue; live--; pid[i] = 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
    R = &S->w[i]; std::string v = vecstr(R->c, R->len); record(("crash:" + sp.name + ":" + v).c_str(), ("crash (" + death(st) + ") in execution " + v).c_str(), R);
    if (++crashes < 24 && S->w[i].task >= 0) spawn(i, true);
  }
}
inline int main(int argc, char **argv) {
  struct rlimit nocore = {0, 0}; setrlimit(RLIMIT_CORE, &nocore);
  S = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); H = (std::atomic<uint64_t> *)mmap(0, HT * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  std::string out, rsp, rvec, only; int W = 8;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "--out") out = argv[++i]; else if (a == "--tier") thorough = std::string(argv[++i]) == "thorough"; else if (a == "--replay") { rsp = argv[++i]; rvec = argv[++i]; } else if (a == "--only") only = argv[++i]; else if (a == "-j") W = atoi(argv[++i]); else if (a == "--keep-going") keep_going = true; else if (a == "-v") verbose = true; }
  if (W > MAXW) W = MAXW;
  signal(SIGALRM, [](int) { static const char m[] = "building the inputs does not end\n"; if (write(2, m, sizeof m - 1)) {} _exit(4); }); alarm(200);
  try { ::define_spaces(); } catch (Failure &) { fprintf(stderr, "building the inputs failed\n"); _exit(4); }
  alarm(0);
  if (!rsp.empty()) {
    verbose = true; R = &S->w[0]; for (auto &sp : spaces()) if (sp.name == rsp) { cur_space = sp.name.c_str(); prelen = 0; if (rvec != "-") { const char *p = rvec.c_str(); while (*p) { pre[prelen++] = strtoul(p, (char **)&p, 10); if (*p == ',') p++; } }
      int r = run_once(sp); fprintf(stderr, "replay %s %s: %s\n", rsp.c_str(), rvec.c_str(), r == 1 ? "FAILED" : "ok"); return r == 1 ? 1 : 0; }
    fprintf(stderr, "no such space %s\n", rsp.c_str()); return 2;
  }
  std::string js = "{\"spaces\":["; bool first = true;
  for (auto &sp : spaces()) { if (!only.empty() && sp.name.compare(0, only.size(), only)) continue;
    uint64_t e0 = S->execs, s0 = S->steps, c0 = S->choices, st0 = S->states; struct timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a); explore(sp, W); clock_gettime(CLOCK_MONOTONIC, &b);
    double t = (b.tv_sec - a.tv_sec) + (b.tv_nsec - a.tv_nsec) / 1e9; js += fmt("%s{\"space\":%s,\"executions\":%llu,\"operations\":%llu,\"choice_points\":%llu,\"new_states\":%llu,\"wall_s\":%.2f}", first ? "" : ",", jstr(sp.name).c_str(), (unsigned long long)(S->execs - e0), (unsigned long long)(S->steps - s0), (unsigned long long)(S->choices - c0), (unsigned long long)(S->states - st0), t); first = false;
    fprintf(stderr, "%-34s exec %10llu ops %10llu states %9llu  %7.2fs fails %llu\n", sp.name.c_str(), (unsigned long long)(S->execs - e0), (unsigned long long)(S->steps - s0), (unsigned long long)(S->states - st0), t, (unsigned long long)S->nfail.load());
    if (S->nfail.load() >= MAXFAIL || hung || (S->nfail.load() && !keep_going)) break; }
  js += fmt("],\"executions\":%llu,\"operations\":%llu,\"choice_points\":%llu,\"states\":%llu,\"state_table_overflow\":%llu,\"failures_total\":%llu,\"outcomes\":{", (unsigned long long)S->execs, (unsigned long long)S->steps, (unsigned long long)S->choices, (unsigned long long)S->states, (unsigned long long)S->htfull, (unsigned long long)S->nfail);
  for (uint64_t i = 0; i < S->nout; i++) js += (i ? "," : "") + jstr(S->o[i].tag) + ":" + std::to_string(S->o[i].cnt);
  js += "},\"samples\":["; for (uint64_t i = 0; i < S->nsamp && i < MAXSAMP; i++) js += (i ? "," : "") + jstr(S->samp[i]);
  js += "],\"failures\":["; for (uint64_t i = 0; i < S->nfail && i < MAXFAIL; i++) { Fail &f = S->f[i]; js += (i ? "," : "") + ("{\"space\":" + jstr(f.space) + ",\"key\":" + jstr(f.key) + ",\"msg\":" + jstr(f.msg) + ",\"vec\":" + jstr(vecstr(f.c, f.len)) + "}"); }
  js += "]}\n"; if (!out.empty()) { FILE *fo = fopen(out.c_str(), "w"); fputs(js.c_str(), fo); fclose(fo); }
  for (uint64_t i = 0; i < S->nfail && i < 5; i++) fprintf(stderr, "FAIL %s %s key=%s %s\n", S->f[i].space, vecstr(S->f[i].c, S->f[i].len).c_str(), S->f[i].key, S->f[i].msg);
  return S->nfail ? 1 : 0;
}
} // namespace mc
void define_spaces();
int main(int argc, char **argv) { return mc::main(argc, argv); }
extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=64:quarantine_size_mb=8:max_malloc_fill_size=65536:malloc_fill_byte=215:detect_stack_use_after_return=0:print_summary=1:handle_segv=1"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:abort_on_error=1:halt_on_error=1"; }
