#include "mc.hpp"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <ftw.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <algorithm>
#include <unordered_set>
#include <unordered_map>
#include <map>
#include <set>

namespace mc {
namespace {

const int MAXTRACE = 20000;
const int MSGLEN = 6000;
struct Shared {                    // one per worker
  volatile long executions;
  volatile int len;
  volatile int kind;               // 0 none 1 fail 2 hang
  unsigned short val[MAXTRACE];
  char msg[MSGLEN];
  char notes[MSGLEN];
};

std::vector<Section> &sections() { static std::vector<Section> s; return s; }
std::vector<std::string> &assumptions() { static std::vector<std::string> s; return s; }
std::string &ruletext() { static std::string s; return s; }
bool g_thorough, g_replaying;
int g_worker, g_nworkers = 1;
std::string g_scratch, g_knownfile;
std::set<std::string> g_known;
Shared *g_sh;

struct Pt { unsigned short v, n; };
std::vector<Pt> g_trace;           // current path
size_t g_pos;
bool g_sharded;
long g_prefix_no;
int g_budget[8];
std::string g_notes;
std::string g_outcome;
bool g_outcome_set; uint64_t g_outcome_h;
long n_exec, n_trans, n_pruned, n_nodes;
std::unordered_set<uint64_t> g_outcomes, g_states;
std::vector<std::string> g_samples;
std::unordered_set<uint64_t> g_sampled;
std::map<std::string, long> g_knownhits;
std::map<std::string, std::string> g_knownmsg;
double g_cpu_limit = 20;

double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

int rmcb(const char *p, const struct stat *, int, struct FTW *) { remove(p); return 0; }
void rmtree(const std::string &d) { if (d.size() > 5) nftw(d.c_str(), rmcb, 16, FTW_DEPTH | FTW_PHYS); }

void publish_trace() {
  int l = std::min<size_t>(g_trace.size(), MAXTRACE);
  l = std::min<size_t>(l, g_pos);
  for (int i = 0; i < l; i++) g_sh->val[i] = g_trace[i].v;
  g_sh->len = l;
}

void arm(double s) {
  struct itimerval it; memset(&it, 0, sizeof(it));
  it.it_value.tv_sec = (time_t)s; it.it_value.tv_usec = (s - (time_t)s) * 1e6;
  setitimer(ITIMER_PROF, &it, NULL);
}
void on_prof(int) {
  if (g_sh) { g_sh->kind = 2; snprintf(g_sh->msg, MSGLEN, "execution did not terminate (CPU limit)"); }
  _exit(97);
}

// so that recording never allocates inside a harness' leak accounting
void reserve_all() { g_trace.reserve(MAXTRACE); g_notes.reserve(3 * MSGLEN); g_outcome.reserve(3 * MSGLEN); }

bool advance() {                    // next leaf; false when exhausted
  while (!g_trace.empty()) {
    Pt &p = g_trace.back();
    if (p.v + 1 < p.n) { p.v++; return true; }
    g_trace.pop_back();
  }
  return false;
}

void run_once(const Section &s) {
  g_pos = 0; g_sharded = false; g_notes.clear(); g_outcome.clear(); g_outcome_set = false;
  for (auto &b : g_budget) b = 1 << 30;
  g_sh->len = 0;
  s.body();
}
} // namespace

bool thorough() { return g_thorough; }
bool replaying() { return g_replaying; }
int worker_id() { return g_worker; }
const std::string &scratch() { return g_scratch; }

int choose(int n) {
  if (n <= 0) { fprintf(stderr, "mc: choose(%d)\n", n); _exit(98); }
  n_trans++;
  if (g_pos < g_trace.size()) {
    Pt &p = g_trace[g_pos];
    if (!g_replaying && p.n != n) {
      fprintf(stderr, "mc: nondeterministic body: choice %zu had %d alternatives, now %d\n%s\n", g_pos, p.n, n, g_notes.c_str());
      _exit(98);
    }
    if (p.v >= n) { fprintf(stderr, "mc: replay trace out of range\n"); _exit(98); }
    if (g_pos < (size_t)MAXTRACE) { g_sh->val[g_pos] = p.v; g_sh->len = g_pos + 1; }
    return g_trace[g_pos++].v;
  }
  g_trace.push_back({0, (unsigned short)n});
  n_nodes++;
  if (g_pos < (size_t)MAXTRACE) { g_sh->val[g_pos] = 0; g_sh->len = g_pos + 1; }
  g_pos++;
  return 0;
}
void set_budget(int b, int id) { g_budget[id] = b; }
int choose_cost(int n, int id) {
  if (g_budget[id] <= 0 || n <= 1) return 0;
  int v = choose(n);
  if (v) g_budget[id]--;
  return v;
}
bool flip() { return choose(2) == 1; }

void shard() {
  if (g_sharded) return;
  g_sharded = true;
  if (g_replaying) return;
  // ordinal of this prefix: executions of the same prefix are contiguous, so count changes
  static unsigned short last[MAXTRACE]; static size_t nlast; static bool have = false;
  if (g_prefix_no < 0) have = false;
  bool same = have && nlast == g_pos;
  for (size_t i = 0; same && i < g_pos; i++) same = g_trace[i].v == last[i];
  if (!same) { g_prefix_no++; nlast = g_pos; for (size_t i = 0; i < g_pos; i++) last[i] = g_trace[i].v; have = true; }
  // spread neighbouring prefixes, which tend to be similar in cost
  if ((long)((g_prefix_no * 2654435761u >> 3) % g_nworkers) != g_worker) throw SkipPrefix();
}
void prune() { n_pruned++; throw SkipPrefix(); }

static void vmsg(char *dst, size_t n, const char *fmt, va_list va) { vsnprintf(dst, n, fmt, va); }

void fail(const char *fmt, ...) {
  va_list va; va_start(va, fmt); vmsg(g_sh->msg, MSGLEN, fmt, va); va_end(va);
  snprintf(g_sh->notes, MSGLEN, "%s", g_notes.c_str());
  g_sh->kind = 1;
  _exit(96);
}
bool violation(const char *key, const char *fmt, ...) {
  char buf[MSGLEN]; va_list va; va_start(va, fmt); vmsg(buf, sizeof(buf), fmt, va); va_end(va);
  if (g_known.count(key)) { if (!g_knownhits[key]++) g_knownmsg[key] = buf; return true; }
  snprintf(g_sh->msg, MSGLEN, "[%s] %s", key, buf);
  snprintf(g_sh->notes, MSGLEN, "%s", g_notes.c_str());
  g_sh->kind = 1;
  _exit(96);
}
void note(const char *fmt, ...) {
  if (g_notes.size() > MSGLEN) return;
  char buf[2000]; va_list va; va_start(va, fmt); vsnprintf(buf, sizeof(buf), fmt, va); va_end(va);
  g_notes += buf; g_notes += "\n";
  if (g_replaying) fprintf(stderr, "  | %s\n", buf);
}
uint64_t hash(const void *p, size_t n, uint64_t h) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
void outcome(const std::string &s) { g_outcome.assign(s, 0, 2 * MSGLEN); g_outcome_set = true; g_outcome_h = hash(s); }
void outcome_h(uint64_t h) { if (!g_outcome_set) g_outcome_h = 1469598103934665603ull; g_outcome_set = true; g_outcome_h = hash(&h, 8, g_outcome_h); }
void state(uint64_t h) { if (g_states.size() < 20000000) g_states.insert(h); }
std::string esc(const std::string &s) {
  std::string r; char b[8];
  for (unsigned char c : s.substr(0, 600)) {
    if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '\\') r += "\\\\";
    else if (c < 32 || c > 126) { snprintf(b, 8, "\\x%02x", c); r += b; } else r += c;
  }
  if (s.size() > 600) r += strf("...(%zu bytes)", s.size());
  return r;
}
std::string strf(const char *fmt, ...) {
  va_list va; va_start(va, fmt); va_list v2; va_copy(v2, va);
  int n = vsnprintf(NULL, 0, fmt, va); va_end(va);
  std::string s(n, 0); vsnprintf(&s[0], n + 1, fmt, v2); va_end(v2);
  return s;
}
void add(const char *name, std::function<void()> body, bool quick, std::function<void()> init, double cpu) {
  Section s; s.name = name; s.body = body; s.init = init; s.quick = quick; s.cpu_limit_s = cpu;
  sections().push_back(s);
}
void assume(const char *t) { assumptions().push_back(t); }
void rule(const char *t) { ruletext() = t; }

extern "C" size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
size_t live_bytes() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }
int open_fds(int upto) { int n = 0; for (int i = 0; i < upto; i++) if (fcntl(i, F_GETFD) >= 0) n++; return n; }

namespace {
std::string jstr(const std::string &s) {
  std::string r = "\""; char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c;
  }
  return r + "\"";
}

// worker: explore one section completely for this shard
void worker(const Section &s, const char *outfile, const char *scratchdir) {
  g_scratch = scratchdir; mkdir(g_scratch.c_str(), 0777);
  signal(SIGPROF, on_prof);
  g_cpu_limit = s.cpu_limit_s;
  g_trace.clear(); g_prefix_no = -1;
  reserve_all();
  if (s.init) s.init();
  do {
    arm(g_cpu_limit);
    bool ran = true;
    try { run_once(s); } catch (SkipPrefix &) { ran = false; }
    g_trace.resize(g_pos);
    if (ran && !g_sharded && g_nworkers > 1) {
      // body ended before shard(): attribute to worker 0 only
      if (g_worker != 0) ran = false;
    }
    if (ran) {
      n_exec++; g_sh->executions = n_exec;
      if (!g_outcome_set) { g_outcome_h = hash(g_notes); }
      if (g_outcomes.insert(g_outcome_h).second && (g_samples.size() < 6 || (g_outcomes.size() & (g_outcomes.size() - 1)) == 0) && g_samples.size() < 24) {
        std::string t = g_notes.size() > 700 ? g_notes.substr(0, 700) : g_notes;
        g_samples.push_back(std::string(s.name) + ": " + t + (g_outcome.size() ? " => " + g_outcome.substr(0, 300) : ""));
      }
    }
  } while (advance());
  arm(0);
  rmtree(g_scratch);
  FILE *f = fopen(outfile, "w");
  if (!f) _exit(98);
  fprintf(f, "%ld %ld %ld %ld\n", n_exec, n_trans, n_pruned, n_nodes);
  fprintf(f, "%zu\n", g_outcomes.size()); for (auto h : g_outcomes) fprintf(f, "%lx ", (unsigned long)h);
  fprintf(f, "\n%zu\n", g_states.size()); for (auto h : g_states) fprintf(f, "%lx ", (unsigned long)h);
  fprintf(f, "\n%zu\n", g_knownhits.size()); for (auto &k : g_knownhits) fprintf(f, "%s %ld %s\n", k.first.c_str(), k.second, jstr(g_knownmsg[k.first]).c_str());
  fprintf(f, "%zu\n", g_samples.size()); for (auto &k : g_samples) fprintf(f, "%s\n", jstr(k).c_str());
  fclose(f);
  fflush(stdout); fflush(stderr);
  _exit(0);
}
Shared *newshared() {
  return (Shared *)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
// replay a trace in a fresh process; returns exit description, "" when it passed
std::string replay(const Section &s, const std::vector<int> &tr, std::string &notes, const std::string &scratchdir, bool verbose) {
  Shared *sh = newshared();
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (!p) {
    g_sh = sh; g_replaying = true; g_worker = 0; g_nworkers = 1;
    g_scratch = scratchdir; mkdir(g_scratch.c_str(), 0777);
    if (!verbose) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); }
    signal(SIGPROF, on_prof);
    g_trace.clear(); reserve_all();
    for (int v : tr) g_trace.push_back({(unsigned short)v, 65535});
    if (s.init) s.init();
    arm(s.cpu_limit_s + 5);
    try { run_once(s); } catch (SkipPrefix &) {}
    _exit(0);
  }
  int st = 0; double t0 = now(); bool hung = false;
  while (waitpid(p, &st, WNOHANG) == 0) { usleep(5000); if (now() - t0 > 150) { kill(p, SIGKILL); waitpid(p, &st, 0); hung = true; break; } }
  rmtree(scratchdir);
  notes = sh->notes;
  std::string r;
  if (hung) r = "execution blocked forever";
  else if (sh->kind) r = sh->msg;
  else if (WIFSIGNALED(st)) r = strf("crashed with signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
  else if (WEXITSTATUS(st)) r = strf("aborted with exit status %d (sanitizer report or abort)", WEXITSTATUS(st));
  munmap(sh, sizeof(Shared));
  return r;
}
} // namespace

int main(int argc, char **argv) {
  std::string out, replayfile, only, prop = "?", replaydir = ".", scratchbase = "/tmp";
  g_nworkers = 8;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") g_thorough = nx() == "thorough";
    else if (a == "--out") out = nx();
    else if (a == "--replay") replayfile = nx();
    else if (a == "--section") only = nx();
    else if (a == "--property") prop = nx();
    else if (a == "--replaydir") replaydir = nx();
    else if (a == "--scratch") scratchbase = nx();
    else if (a == "--workers") g_nworkers = atoi(nx().c_str());
    else if (a == "--known") g_known.insert(nx());
  }
  setvbuf(stdout, NULL, _IOLBF, 0);
  if (!replayfile.empty()) {
    FILE *f = fopen(replayfile.c_str(), "r"); if (!f) { perror("replay"); return 2; }
    char sec[256], tier[32]; std::vector<int> tr; int v;
    if (fscanf(f, "section %255[^\n]", sec) != 1) return 2; { char *q = strstr(sec, " tier "); if (!q || sscanf(q, " tier %31s", tier) != 1) return 2; char *tr = strstr(q, " trace"); if (!tr) return 2; fseek(f, (long)strlen("section ") + (tr + 6 - sec), SEEK_SET); *q = 0; }
    g_thorough = !strcmp(tier, "thorough");
    while (fscanf(f, "%d", &v) == 1) tr.push_back(v);
    fclose(f);
    for (auto &s : sections()) if (!strcmp(s.name, sec)) {
      std::string notes; std::string r = replay(s, tr, notes, scratchbase + "/replay", true);
      printf("section %s, %zu choices: %s\n%s\n", sec, tr.size(), r.empty() ? "PASSED" : r.c_str(), notes.c_str());
      return r.empty() ? 0 : 1;
    }
    fprintf(stderr, "no section %s\n", sec); return 2;
  }
  long te = 0, tt = 0, tp = 0, tn = 0; std::string secjson, samplejson; int nsamples = 0;
  std::unordered_set<uint64_t> outcomes_all; size_t states_all = 0; size_t outcomes_total = 0;
  std::map<std::string, std::pair<long, std::string>> known;
  std::string violation_msg; int rc = 0;
  for (auto &s : sections()) {
    if (!only.empty() && only != s.name) continue;
    if (!s.quick && !g_thorough) continue;
    double t0 = now(); int retries = 0;
  again_section:
    std::vector<pid_t> pids; std::vector<Shared *> sh;
    for (int w = 0; w < g_nworkers; w++) {
      Shared *m = newshared(); sh.push_back(m);
      std::string of = strf("%s/res.%s.%d", scratchbase.c_str(), s.name, w), sd = strf("%s/w.%s.%d", scratchbase.c_str(), s.name, w);
      fflush(stdout); fflush(stderr);
      pid_t p = fork();
      if (!p) {
        g_worker = w; g_sh = m;
        std::string ef = strf("%s/err.%s.%d", scratchbase.c_str(), s.name, w);
        int fd = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666); dup2(fd, 2); close(fd);
        worker(s, of.c_str(), sd.c_str());
      }
      pids.push_back(p);
    }
    int left = g_nworkers, failed = -1, failst = 0;
    std::vector<int> lastlen(g_nworkers, -1); std::vector<long> lastex(g_nworkers, -1); std::vector<double> lastt(g_nworkers, now());
    std::vector<bool> done(g_nworkers, false);
    while (left > 0 && failed < 0) {
      for (int w = 0; w < g_nworkers; w++) {
        if (done[w]) continue;
        int st; pid_t p = waitpid(pids[w], &st, WNOHANG);
        if (p == pids[w]) {
          done[w] = true; left--;
          if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { failed = w; failst = st; break; }
          continue;
        }
        if (sh[w]->executions != lastex[w] || sh[w]->len != lastlen[w]) { lastex[w] = sh[w]->executions; lastlen[w] = sh[w]->len; lastt[w] = now(); }
        else if (now() - lastt[w] > 120) {
          sh[w]->kind = 2; snprintf(sh[w]->msg, MSGLEN, "execution blocked forever");
          kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); done[w] = true; left--; failed = w; failst = st; break;
        }
      }
      usleep(3000);
    }
    if (failed >= 0) {
      for (int w = 0; w < g_nworkers; w++) if (!done[w]) { kill(pids[w], SIGKILL); waitpid(pids[w], NULL, 0); }
      for (int w = 0; w < g_nworkers; w++) rmtree(strf("%s/w.%s.%d", scratchbase.c_str(), s.name, w));
      Shared *m = sh[failed];
      std::vector<int> tr; for (int i = 0; i < m->len; i++) tr.push_back(m->val[i]);
      std::string first = m->kind ? m->msg : WIFSIGNALED(failst) ? strf("crashed with signal %d", WTERMSIG(failst)) : strf("aborted, status %d", WEXITSTATUS(failst));
      std::string ef = strf("%s/err.%s.%d", scratchbase.c_str(), s.name, failed);
      std::string errtail; { FILE *f = fopen(ef.c_str(), "r"); if (f) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof(b), f)) > 0) { errtail.append(b, n); if (errtail.size() > 400000) errtail.erase(0, 200000); } fclose(f); } }
      if (WIFEXITED(failst) && WEXITSTATUS(failst) == 98) { fprintf(stderr, "MC-ERROR section %s: %s\n%s\n", s.name, first.c_str(), errtail.c_str()); return 2; }
      std::string notes; std::string again = replay(s, tr, notes, scratchbase + "/replay", false);
      bool history = false;
      if (again.empty()) {                // maybe it depends on earlier executions of the same worker: rerun that worker
        Shared *m2 = newshared();
        fflush(stdout);
        pid_t p = fork();
        if (!p) { g_worker = failed; g_sh = m2; int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); std::string of = scratchbase + "/res.again", sd = scratchbase + "/w.again"; worker(s, of.c_str(), sd.c_str()); }
        int st; double t1 = now(); bool killed = false;
        while (waitpid(p, &st, WNOHANG) == 0) { usleep(5000); if (now() - t1 > 400) { kill(p, SIGKILL); waitpid(p, &st, 0); killed = true; break; } }
        rmtree(scratchbase + "/w.again");
        bool same = !killed && !(WIFEXITED(st) && WEXITSTATUS(st) == 0) && m2->len == m->len && !memcmp(m2->val, m->val, sizeof(unsigned short) * m->len);
        if (!same) { fprintf(stderr, "MC-ERROR section %s: failure not reproducible: %s\n%s\n%s\n", s.name, first.c_str(), m->notes, errtail.c_str()); if (retries++) return 2; goto again_section; } // something outside of the check: the whole section again, once
        history = true; again = first + " (needs the earlier executions of the same process)";
      }
      std::string sn = s.name; for (auto &c : sn) if (!isalnum((unsigned char)c)) c = '_';
      std::string rp = strf("%s/%s-%s.replay", replaydir.c_str(), prop.c_str(), sn.c_str());
      FILE *f = fopen(rp.c_str(), "w");
      if (f) {
        fprintf(f, "section %s tier %s trace", s.name, g_thorough ? "thorough" : "quick"); for (int v : tr) fprintf(f, " %d", v);
        fprintf(f, "\n#\n# %s\n# first: %s\n# history-dependent: %d\n# notes:\n%s\n# stderr:\n%s\n", again.c_str(), first.c_str(), history, m->notes[0] ? m->notes : notes.c_str(), errtail.size() > 20000 ? errtail.substr(errtail.size() - 20000).c_str() : errtail.c_str());
        fclose(f);
      }
      printf("section %s: %s\n%s\n", s.name, again.c_str(), m->notes[0] ? m->notes : notes.c_str());
      size_t sp = errtail.find("ERROR: AddressSanitizer");
      if (sp == std::string::npos) sp = errtail.find("runtime error:");
      if (sp != std::string::npos) printf("%s\n", errtail.substr(sp, 1500).c_str());
      printf("VIOLATION property=%s replay=%s\n", prop.c_str(), rp.c_str());
      violation_msg = again; rc = 1;
    }
    long e = 0, t = 0, p = 0, nn = 0; std::unordered_set<uint64_t> oc, stt;
    if (failed < 0) for (int w = 0; w < g_nworkers; w++) {
      std::string of = strf("%s/res.%s.%d", scratchbase.c_str(), s.name, w);
      FILE *f = fopen(of.c_str(), "r"); if (!f) { fprintf(stderr, "no result of worker %d\n", w); return 2; }
      long a, b, c, d; size_t n; unsigned long h;
      if (fscanf(f, "%ld %ld %ld %ld", &a, &b, &c, &d) != 4) return 2;
      e += a; t += b; p += c; nn += d;
      if (fscanf(f, "%zu", &n) != 1) return 2; while (n--) { if (fscanf(f, "%lx", &h) != 1) return 2; oc.insert(h); }
      if (fscanf(f, "%zu", &n) != 1) return 2; while (n--) { if (fscanf(f, "%lx", &h) != 1) return 2; stt.insert(h); }
      char *line = NULL; size_t cap = 0;
      if (fscanf(f, "%zu\n", &n) != 1) return 2;
      while (n--) { if (getline(&line, &cap, f) < 0) break; char *k = strtok(line, " "); char *c2 = strtok(NULL, " "); char *m = strtok(NULL, "\n"); auto &x = known[k]; x.first += atol(c2); x.second = m ? m : ""; }
      if (fscanf(f, "%zu\n", &n) != 1) return 2;
      while (n--) { if (getline(&line, &cap, f) < 0) break; if (nsamples < 40 && (w + nsamples) % 3 == 0) { line[strcspn(line, "\n")] = 0; samplejson += (nsamples ? ",\n" : "") + std::string(line); nsamples++; } }
      free(line); fclose(f); unlink(of.c_str());
    }
    for (int w = 0; w < g_nworkers; w++) { unlink(strf("%s/err.%s.%d", scratchbase.c_str(), s.name, w).c_str()); munmap(sh[w], sizeof(Shared)); }
    te += e; tt += t; tp += p; tn += nn; outcomes_total += oc.size(); states_all += stt.size();
    double dt = now() - t0;
    printf("section %-28s executions %9ld  choices %10ld  outcomes %8zu  states %8zu  %.1fs%s\n", s.name, e, t, oc.size(), stt.size(), dt, failed >= 0 ? "  FAILED" : "");
    secjson += strf("%s{\"section\":%s,\"executions\":%ld,\"choice_points\":%ld,\"tree_nodes\":%ld,\"pruned\":%ld,\"distinct_outcomes\":%zu,\"distinct_states\":%zu,\"wall_s\":%.2f,\"complete\":%s}", secjson.empty() ? "" : ",\n", jstr(s.name).c_str(), e, t, nn, p, oc.size(), stt.size(), dt, failed >= 0 ? "false" : "true");
    if (rc) break;
  }
  for (auto &k : known) printf("KNOWN-FINDING: property=%s %s %s (%ld executions)\n", prop.c_str(), k.first.c_str(), k.second.second.c_str(), k.second.first);
  if (!out.empty()) {
    FILE *f = fopen(out.c_str(), "w"); if (!f) return 2;
    fprintf(f, "{\"executions\":%ld,\"choice_points\":%ld,\"tree_nodes\":%ld,\"pruned\":%ld,\"outcomes\":%zu,\"states\":%zu,\"rule\":%s,\n\"sections\":[%s],\n\"samples\":[%s],\n\"assumptions\":[", te, tt, tn, tp, outcomes_total, states_all, jstr(ruletext()).c_str(), secjson.c_str(), samplejson.c_str());
    bool first = true; for (auto &a : assumptions()) { fprintf(f, "%s%s", first ? "" : ",", jstr(a).c_str()); first = false; }
    fprintf(f, "],\"violations\":%d,\"message\":%s}\n", rc ? 1 : 0, jstr(violation_msg).c_str());
    fclose(f);
  }
  return rc;
}
} // namespace mc
