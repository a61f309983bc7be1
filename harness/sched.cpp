#include "sched.hpp"
#include <sys/stat.h>
#include <regex.h>
#include <libgen.h>
#include <time.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <algorithm>

// ------------------------------------------------------------------ fibers
extern "C" void sched_switch(void **save, void *load);
asm(R"(
.text
.globl sched_switch
.type sched_switch,@function
sched_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sched_switch,.-sched_switch
)");

extern "C" char __start_onion_data[] __attribute__((weak)), __stop_onion_data[] __attribute__((weak));
extern "C" char __start_onion_bss[] __attribute__((weak)), __stop_onion_bss[] __attribute__((weak));
extern "C" char __executable_start[], etext[];

namespace sched {
namespace {
const int MAXF = 16;
const size_t STK = 512 * 1024;
struct Fiber {
  int id; std::string name; void *sp = nullptr; char *stack = nullptr; std::function<void()> f;
  bool done = false, idle = false; Pred pred = nullptr; void *arg = nullptr; const char *what = ""; int64_t deadline = -1; bool timedout = false;
  int err = 0; int vc[MAXF]; void *ret = nullptr; bool detached = false;
};
std::vector<Fiber *> F; std::vector<char *> stackpool;
int cur = 0; bool g_active = false;
int64_t step; const int64_t MAXSTEP = 400000, BASE_S = 1600000000;
std::vector<std::function<void(int64_t)>> hooks;

// exploration state
enum Mode { COUNT, LEARN, RUN } mode;
long pt; long p1; bool deviated; long learn_at; int learn_rot;
std::vector<unsigned char> pcmap; char *textbase; size_t textlen;
std::set<uintptr_t> *pcs; // being learnt

// ---- arena
char *arena; unsigned char *shadow; size_t atop; const size_t ARENA = 512u << 20; long n_live, b_live;
struct Hdr { size_t n; uintptr_t caller; size_t magic; };

// ---- learning
struct Loc { int w[MAXF]; uintptr_t wpc[MAXF]; int r[MAXF]; uintptr_t rpc[MAXF]; Loc() { memset(this, 0, sizeof *this); } };
std::unordered_map<uintptr_t, Loc> locs;

std::string snap_data, snap_bss; bool snapped = false;
void statics_reset() {
  size_t nd = __stop_onion_data - __start_onion_data, nb = __stop_onion_bss - __start_onion_bss;
  if (!snapped) { snapped = true; snap_data.assign(__start_onion_data, nd); snap_bss.assign(__start_onion_bss, nb); return; }
  memcpy(__start_onion_data, snap_data.data(), nd); memcpy(__start_onion_bss, snap_bss.data(), nb);
}
} // namespace
int64_t clock_ns;
struct Lock;
static std::unordered_map<void *, Lock *> locks;
static void locks_reset();
static std::unordered_map<void *, HB> atomhb;

int self() { return cur; }
const char *name(int id) { return F[id]->name.c_str(); }
bool active() { return g_active; }
bool finished(int id) { return F[id]->done; }
int64_t now() { return clock_ns; }
void at_time_advance(std::function<void(int64_t)> f) { hooks.push_back(f); }
int live_fibers() { int n = 0; for (auto f : F) if (!f->done) n++; return n; }
void release(HB &h) { if (mode != LEARN) return; h.c.resize(MAXF); Fiber *f = F[cur]; for (int i = 0; i < MAXF; i++) h.c[i] = std::max(h.c[i], f->vc[i]); f->vc[cur]++; }
void acquire(HB &h) { if (mode != LEARN) return; h.c.resize(MAXF); Fiber *f = F[cur]; for (int i = 0; i < MAXF; i++) f->vc[i] = std::max(h.c[i], f->vc[i]); }

static bool enabled(Fiber *f) {
  if (f->done || f->idle) return false;
  if (!f->pred) return true;
  if (f->pred(f->arg)) return true;
  if (f->deadline >= 0 && f->deadline <= clock_ns) return true;
  return false;
}
static void switch_to(int n) {
  if (n == cur) { return; }
  Fiber *a = F[cur], *b = F[n]; a->err = errno; cur = n;
  sched_switch(&a->sp, b->sp);
  errno = F[cur]->err;
}
static std::string where() { std::string r; for (auto f : F) if (!f->done) r += mc::strf("\n  %s: %s", f->name.c_str(), f->idle ? "waiting for idleness" : f->pred ? f->what : "runnable"); return r; }
static int collect(int *out) { int n = 0, N = F.size(); for (int k = 0; k < N; k++) { int i = (cur + k) % N; if (enabled(F[i])) out[n++] = i; } return n; }

static int spin_who; static long spin;
// picks the next fiber; the current one is alternative 0 when it can go on
static void decide(bool can_go_on) {
  if (++step > MAXSTEP) mc::fail("the system never comes to rest (livelock):%s", where().c_str());
  int e[MAXF * 2]; int n;
  while (true) {
    n = collect(e);
    if (n) break;
    // nobody: somebody who waits for idleness, else time goes by
    for (auto f : F) if (f->idle && !f->done) { e[n++] = f->id; f->idle = false; break; }
    if (n) break;
    int64_t d = -1; for (auto f : F) if (!f->done && f->deadline >= 0 && (d < 0 || f->deadline < d)) d = f->deadline;
    int64_t t = vk::next_timer(); if (t >= 0 && (d < 0 || t < d)) d = t;
    if (d < 0) mc::fail("deadlock: nothing can ever run again:%s", where().c_str());
    for (auto &h : hooks) h(d);
    clock_ns = std::max(clock_ns, d);
    if (clock_ns > (BASE_S + 3 * 86400) * 1000000000) mc::fail("nothing happens any more, for days:%s", where().c_str());
  }
  int pick = 0;
  // fairness: who spins lets the others go on
  if (e[0] != spin_who) { spin_who = e[0]; spin = 0; } else if (++spin > 400 && n > 1) { spin = 0; std::rotate(e, e + 1, e + n); spin_who = e[0]; }
  if (n > 1) {
    long my = pt++;
    if (mode == LEARN) { if (learn_at >= 0 && my == learn_at) pick = 1 + learn_rot % (n - 1); }
    else if (mode == RUN) {
      if (!deviated) { if (my == p1) { pick = 1 + mc::choose(n - 1); deviated = true; } }
      else pick = mc::choose_cost(n);
    }
    if (pick && mode == RUN && mc::replaying()) mc::note("      [%ld] %s%s stops, %s runs", my, F[cur]->name.c_str(), F[cur]->pred || F[cur]->done ? " (blocked)" : "", F[e[pick]]->name.c_str());
  }
  switch_to(e[pick]);
}
void point(const char *what) { if (!g_active) return; F[cur]->what = what; decide(true); }
bool block(Pred p, void *arg, const char *what, int64_t deadline) {
  Fiber *f = F[cur];
  if (p && p(arg)) return true;
  f->pred = p; f->arg = arg; f->what = what; f->deadline = deadline;
  while (true) {
    decide(false);
    if (p && p(arg)) { f->pred = nullptr; f->deadline = -1; return true; }
    if (deadline >= 0 && deadline <= clock_ns) { f->pred = nullptr; f->deadline = -1; return false; }
  }
}
static bool never(void *) { return false; }
bool wait(std::function<bool()> p, const char *what, double t) { return block([](void *a) { bool k = g_active; g_active = false; /* what it looks at is no step of anybody */ bool r = (*(std::function<bool()> *)a)(); g_active = k; return r; }, &p, what, t < 0 ? -1 : clock_ns + (int64_t)(t * 1e9)); }
void sleep(double s) { block(never, nullptr, "sleeping", clock_ns + (int64_t)(s * 1e9)); }
void wait_idle() { F[cur]->idle = true; F[cur]->what = "idle"; decide(false); F[cur]->idle = false; }

static void fiber_main() {
  Fiber *f = F[cur]; f->f(); f = F[cur]; f->done = true; f->pred = nullptr;
  decide(false); abort();
}
static int spawn_(const char *nm, std::function<void()> fn) {
  if (F.size() >= MAXF) mc::fail("too many threads");
  Fiber *f = new Fiber; f->id = F.size(); f->name = nm; f->f = fn; memset(f->vc, 0, sizeof f->vc);
  if (stackpool.empty()) { f->stack = (char *)mmap(NULL, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); mprotect(f->stack, 4096, PROT_NONE); }
  else { f->stack = stackpool.back(); stackpool.pop_back(); }
  uintptr_t top = ((uintptr_t)f->stack + STK) & ~15ul; void **sp = (void **)top; *--sp = nullptr; *--sp = (void *)fiber_main; for (int i = 0; i < 6; i++) *--sp = nullptr;
  f->sp = sp;
  if (mode == LEARN) { for (int i = 0; i < MAXF; i++) f->vc[i] = F[cur]->vc[i]; F[cur]->vc[cur]++; f->vc[f->id] = 1; }
  F.push_back(f); return f->id;
}
int spawn(const char *nm, std::function<void()> fn) { return spawn_(nm, fn); }
static bool is_done(void *a) { return ((Fiber *)a)->done; }
void join(int id) { point("join"); block(is_done, F[id], "joining a thread"); if (mode == LEARN) for (int i = 0; i < MAXF; i++) F[cur]->vc[i] = std::max(F[cur]->vc[i], F[id]->vc[i]); }

// ------------------------------------------------------------------ one execution
static void execute(std::function<void()> &sc) {
  for (auto f : F) { if (f->stack) stackpool.push_back(f->stack); delete f; }
  F.clear(); hooks.clear(); locs.clear(); locks_reset(); atomhb.clear(); vk::reset(); statics_reset();
  if (!arena) {
    arena = (char *)mmap((void *)0x100000000000ul, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    shadow = (unsigned char *)mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED || (void *)shadow == MAP_FAILED) { perror("arena"); _exit(98); }
  }
  memset(shadow, 0, atop); atop = 64; n_live = b_live = 0;
  Fiber *m = new Fiber; m->id = 0; m->name = "main"; memset(m->vc, 0, sizeof m->vc); m->vc[0] = 1; F.push_back(m); cur = 0;
  clock_ns = BASE_S * 1000000000; step = 0; spin = 0; spin_who = -1; pt = 0; deviated = false;
  g_active = true; errno = 0;
  sc();
  g_active = false;
  if (cur != 0) { fprintf(stderr, "scenario ended in another fiber\n"); _exit(98); }
  for (auto f : F) if (f->id && !f->done) mc::fail("thread %s still runs at the end: %s", f->name.c_str(), f->what);
}
struct Info { long K; std::vector<uintptr_t> pcs; };
static std::map<std::string, Info> infos;
static void set_pcs(const std::vector<uintptr_t> &v, bool on) { for (auto p : v) pcmap[p - (uintptr_t)textbase] = on; }

void explore(const std::string &key, int budget, std::function<void()> sc, bool manykeys) {
  if (budget <= 0) { mc::shard(); run_default(sc); return; }
  if (manykeys) mc::shard();
  if (pcmap.empty()) { textbase = __executable_start; textlen = etext - __executable_start; pcmap.resize(textlen + 16); }
  auto it = infos.find(key);
  if (it == infos.end()) {
    if (manykeys) infos.clear();
    Info in; std::set<uintptr_t> all; in.K = 0;
    for (int round = 0; round < 4; round++) {
      std::vector<uintptr_t> v(all.begin(), all.end()); set_pcs(v, true);
      std::set<uintptr_t> fresh; pcs = &fresh;
      mode = LEARN; learn_at = -1; execute(sc); long K = pt; in.K = K;
      long stride = std::max(1l, K / 250);
      for (long i = 0; i < K; i += stride) for (int r = 0; r < 2; r++) { mode = LEARN; learn_at = i; learn_rot = r; execute(sc); }
      set_pcs(v, false);
      size_t before = all.size(); all.insert(fresh.begin(), fresh.end());
      if (all.size() == before) break;
    }
    in.pcs.assign(all.begin(), all.end());
    set_pcs(in.pcs, true); mode = COUNT; execute(sc); in.K = pt; set_pcs(in.pcs, false);
    it = infos.emplace(key, in).first;
    locs.clear();
  }
  Info &in = it->second;
  p1 = mc::choose(in.K + 1);
  if (p1 == in.K) p1 = -1;
  mc::shard();

  mc::set_budget(budget - 1);
  set_pcs(in.pcs, true); mode = RUN; execute(sc); set_pcs(in.pcs, false);
}
void run_default(std::function<void()> sc) {
  if (pcmap.empty()) { textbase = __executable_start; textlen = etext - __executable_start; pcmap.resize(textlen + 16); }
  mode = COUNT; p1 = -1; execute(sc);
}

// ------------------------------------------------------------------ memory
static std::string src(uintptr_t pc) { if (!mc::replaying()) return "in the library"; std::string r; FILE *f = popen(mc::strf("addr2line -fpe /proc/%d/exe %#lx 2>/dev/null", getpid(), (unsigned long)(pc - 1)).c_str(), "r"); char b[300]; if (f && fgets(b, sizeof b, f)) r = b; if (f) pclose(f); while (!r.empty() && r.back() == '\n') r.pop_back(); return "in " + r; }
void check_mem(const void *p, size_t n, bool write, const char *what) {
  uintptr_t o = (uintptr_t)p - (uintptr_t)arena;
  if (o >= ARENA || !n) return;
  for (size_t i = 0; i < n; i++) if (shadow[o + i] != 1) mc::fail("%s of memory that is %s (%s, byte %zu of %zu) by %s", write ? "write" : "read", shadow[o + i] == 2 ? "already freed" : "not allocated", what, i, n, F[cur]->name.c_str());
}
static inline void access(uintptr_t a, size_t n, bool w, uintptr_t pc) {
  if (!g_active) return;
  uintptr_t o = a - (uintptr_t)arena;
  if (o < ARENA && (shadow[o] != 1 || shadow[o + n - 1] != 1)) {
    // before reporting, remember that a pending preemption does not matter: the access would happen now
    check_mem((void *)a, n, w, src(pc).c_str());
  }
  if (mode == LEARN) {
    Fiber *f = F[cur];
    if (f->stack && a - (uintptr_t)f->stack < STK) return;
    if (!f->stack && o >= ARENA) { char here; if (a > (uintptr_t)&here - 4096 && a < (uintptr_t)&here + (1 << 20)) return; }
    for (uintptr_t g = a & ~7ul; g < a + n; g += 8) {
      Loc &l = locs[g]; int N = F.size();
      for (int t = 0; t < N; t++) if (t != cur) {
        if (l.w[t] > f->vc[t]) { pcs->insert(pc); pcs->insert(l.wpc[t]); }
        if (w && l.r[t] > f->vc[t]) { pcs->insert(pc); pcs->insert(l.rpc[t]); }
      }
      if (w) { l.w[cur] = f->vc[cur]; l.wpc[cur] = pc; } else { l.r[cur] = f->vc[cur]; l.rpc[cur] = pc; }
      if (n > 4096) break;
    }
  }
  if (pcmap[(pc - (uintptr_t)textbase) < textlen ? pc - (uintptr_t)textbase : 0]) { point("memory access"); if (o < ARENA && (shadow[o] != 1 || shadow[o + n - 1] != 1)) check_mem((void *)a, n, w, (src(pc) + " after being interrupted").c_str()); }
}
// live blocks that nothing static points to (directly or through other blocks): what a leak checker would report
static std::set<size_t> reachable() {
  std::map<size_t, size_t> blocks; std::set<size_t> seen; std::vector<size_t> work; // offset of payload -> size
  for (size_t p = 64; p < atop;) { Hdr *h = (Hdr *)(arena + p); if (h->magic == 1) blocks[p + sizeof(Hdr)] = h->n; p += sizeof(Hdr) + ((h->n + 15) & ~15ul) + 32; }
  auto visit = [&](char *a, char *e) { for (a = (char *)(((uintptr_t)a + 7) & ~7ul); a + 8 <= e; a += 8) { uintptr_t o = *(uintptr_t *)a - (uintptr_t)arena; if (o >= ARENA) continue; auto it = blocks.upper_bound(o); if (it == blocks.begin()) continue; --it; if (o <= it->first + it->second && seen.insert(it->first).second) work.push_back(it->first); } };
  visit(__start_onion_data, __stop_onion_data); visit(__start_onion_bss, __stop_onion_bss);
  while (!work.empty()) { size_t b = work.back(); work.pop_back(); visit(arena + b, arena + b + blocks[b]); }
  return seen;
}
long live_allocs() { return n_live ? n_live - (long)reachable().size() : 0; }
long live_bytes() { return b_live; }
std::string alloc_report() {
  auto ok = reachable();
  std::string r; size_t p = 64; std::map<uintptr_t, std::pair<long, long>> by;
  while (p < atop) { Hdr *h = (Hdr *)(arena + p); if (h->magic == 1 && !ok.count(p + sizeof(Hdr))) { auto &x = by[h->caller]; x.first++; x.second += h->n; } p += sizeof(Hdr) + ((h->n + 15) & ~15ul) + 32; }
  for (auto &b : by) r += mc::strf("\n  %ld blocks, %ld bytes, allocated %s", b.second.first, b.second.second, src(b.first).c_str());
  return r;
}
static void *amalloc(size_t n, uintptr_t caller) {
  size_t need = sizeof(Hdr) + ((n + 15) & ~15ul) + 32;
  if (atop + need > ARENA) { errno = ENOMEM; return nullptr; }
  Hdr *h = (Hdr *)(arena + atop); h->n = n; h->caller = caller; h->magic = 1; char *p = (char *)(h + 1); atop += need;
  memset(shadow + (p - arena), 1, n); memset(p, 0xA5, n); n_live++; b_live += n; return p;
}
static bool in_arena(const void *p) { return arena && (uintptr_t)p - (uintptr_t)arena < ARENA; }
static void afree(void *p) {
  if (!p) return;
  if (!in_arena(p)) { free(p); return; }
  if (!g_active) return;
  Hdr *h = (Hdr *)p - 1;
  if (h->magic == 2) mc::fail("memory freed twice by %s", F[cur]->name.c_str());
  if (h->magic != 1) mc::fail("free of a pointer that was never allocated by %s", F[cur]->name.c_str());
  if (mode == LEARN) for (size_t i = 0; i < h->n && i < 512; i += 8) access((uintptr_t)p + i, std::min<size_t>(8, h->n - i), true, (uintptr_t)__builtin_return_address(0));
  h->magic = 2; memset(shadow + ((char *)p - arena), 2, h->n); memset(p, 0x5A, h->n); n_live--; b_live -= h->n;
}
#define CALLER (uintptr_t)__builtin_return_address(0)
extern "C" {
void *vk_malloc(size_t n) { return g_active ? amalloc(n, CALLER) : malloc(n); }
void *vk_calloc(size_t a, size_t b) { if (!g_active) return calloc(a, b); void *p = amalloc(a * b, CALLER); if (p) memset(p, 0, a * b); return p; }
void vk_free(void *p) { afree(p); }
void *vk_realloc(void *p, size_t n) { if (!p) return g_active ? amalloc(n, CALLER) : malloc(n); if (!in_arena(p)) return realloc(p, n); Hdr *h = (Hdr *)p - 1; if (h->magic != 1) mc::fail("realloc of freed memory by %s", F[cur]->name.c_str()); void *q = amalloc(n, CALLER); if (!q) return q; memcpy(q, p, std::min(n, h->n)); afree(p); return q; }
char *vk_strdup(const char *s) { size_t n = strlen(s); if (!g_active) return strdup(s); check_mem(s, n + 1, false, "strdup"); char *p = (char *)amalloc(n + 1, CALLER); memcpy(p, s, n + 1); return p; }
char *vk_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); if (!g_active) return strndup(s, m); check_mem(s, n, false, "strndup"); char *p = (char *)amalloc(n + 1, CALLER); memcpy(p, s, n); p[n] = 0; return p; }

#define RD(p, n) range((const void *)(p), (n), false, CALLER)
#define WR(p, n) range((const void *)(p), (n), true, CALLER)
static void range(const void *p, size_t n, bool w, uintptr_t pc) { if (!g_active || !n) return; access((uintptr_t)p, n, w, pc); check_mem(p, n, w, "block operation"); }
void *vk_memcpy(void *d, const void *s, size_t n) { RD(s, n); WR(d, n); return memmove(d, s, n); }
void *vk_memmove(void *d, const void *s, size_t n) { RD(s, n); WR(d, n); return memmove(d, s, n); }
void *vk_memset(void *d, int c, size_t n) { WR(d, n); return memset(d, c, n); }
int vk_memcmp(const void *a, const void *b, size_t n) { RD(a, n); RD(b, n); return memcmp(a, b, n); }
void *vk_memchr(const void *a, int c, size_t n) { return (void *)memchr(a, c, n); }
size_t vk_strlen(const char *s) { RD(s, 1); size_t n = strlen(s); check_mem(s, n + 1, false, "strlen"); return n; }
size_t vk_strnlen(const char *s, size_t m) { RD(s, 1); return strnlen(s, m); }
int vk_strcmp(const char *a, const char *b) { RD(a, 1); RD(b, 1); return strcmp(a, b); }
int vk_strncmp(const char *a, const char *b, size_t n) { RD(a, 1); RD(b, 1); return strncmp(a, b, n); }
int vk_strcasecmp(const char *a, const char *b) { RD(a, 1); RD(b, 1); return strcasecmp(a, b); }
int vk_strncasecmp(const char *a, const char *b, size_t n) { RD(a, 1); RD(b, 1); return strncasecmp(a, b, n); }
char *vk_strchr(const char *a, int c) { RD(a, 1); return (char *)strchr(a, c); }
char *vk_strrchr(const char *a, int c) { RD(a, 1); return (char *)strrchr(a, c); }
char *vk_strstr(const char *a, const char *b) { RD(a, 1); RD(b, 1); return (char *)strstr(a, b); }
size_t vk_strspn(const char *a, const char *b) { RD(a, 1); return strspn(a, b); }
size_t vk_strcspn(const char *a, const char *b) { RD(a, 1); return strcspn(a, b); }
char *vk_strcpy(char *d, const char *s) { size_t n = strlen(s) + 1; RD(s, n); WR(d, n); return strcpy(d, s); }
char *vk_strncpy(char *d, const char *s, size_t n) { RD(s, 1); WR(d, n); return strncpy(d, s, n); }
char *vk_strcat(char *d, const char *s) { size_t n = strlen(s) + 1; RD(s, n); WR(d + strlen(d), n); return strcat(d, s); }
char *vk_strncat(char *d, const char *s, size_t n) { size_t k = strnlen(s, n); WR(d + strlen(d), k + 1); return strncat(d, s, n); }
int vk_vsnprintf(char *d, size_t n, const char *f, va_list va) { int r = vsnprintf(d, n, f, va); if (r >= 0 && n) WR(d, std::min<size_t>(n, r + 1)); return r; }
int vk_snprintf(char *d, size_t n, const char *f, ...) { va_list va; va_start(va, f); int r = vsnprintf(d, n, f, va); va_end(va); if (r >= 0 && n) WR(d, std::min<size_t>(n, r + 1)); return r; }
int vk_sprintf(char *d, const char *f, ...) { va_list va; va_start(va, f); int r = vsprintf(d, f, va); va_end(va); WR(d, r + 1); return r; }
int vk_vsprintf(char *d, const char *f, va_list va) { int r = vsprintf(d, f, va); WR(d, r + 1); return r; }
int vk_vasprintf(char **o, const char *f, va_list va) { va_list v2; va_copy(v2, va); int r = vsnprintf(nullptr, 0, f, v2); va_end(v2); if (r < 0) return r; char *p = (char *)vk_malloc(r + 1); if (!p) return -1; vsnprintf(p, r + 1, f, va); WR(o, sizeof *o); *o = p; return r; }
int vk_asprintf(char **o, const char *f, ...) { va_list va; va_start(va, f); int r = vk_vasprintf(o, f, va); va_end(va); return r; }
char *vk_stpcpy(char *d, const char *s) { size_t n = strlen(s) + 1; RD(s, n); WR(d, n); return stpcpy(d, s); }
void *vk_mempcpy(void *d, const void *s, size_t n) { RD(s, n); WR(d, n); return mempcpy(d, s, n); }
void *vk_memrchr(const void *s, int c, size_t n) { RD(s, n); return (void *)memrchr(s, c, n); }
char *vk_strpbrk(const char *s, const char *a) { RD(s, 1); return (char *)strpbrk(s, a); }
char *vk_strcasestr(const char *s, const char *a) { RD(s, 1); return (char *)strcasestr(s, a); }
char *vk_strtok_r(char *s, const char *d, char **k) { RD(k, sizeof *k); if (s) WR(s, 1); return strtok_r(s, d, k); }
char *vk_strsep(char **s, const char *d) { WR(s, sizeof *s); return strsep(s, d); }
int vk_atoi(const char *s) { RD(s, 1); return atoi(s); } long vk_atol(const char *s) { RD(s, 1); return atol(s); } long long vk_atoll(const char *s) { RD(s, 1); return atoll(s); }
long vk_strtol(const char *s, char **e, int b) { RD(s, 1); return strtol(s, e, b); } unsigned long vk_strtoul(const char *s, char **e, int b) { RD(s, 1); return strtoul(s, e, b); }
long long vk_strtoll(const char *s, char **e, int b) { RD(s, 1); return strtoll(s, e, b); } unsigned long long vk_strtoull(const char *s, char **e, int b) { RD(s, 1); return strtoull(s, e, b); }
size_t vk_strftime(char *d, size_t n, const char *f, const struct tm *t) { RD(t, sizeof *t); size_t r = strftime(d, n, f, t); WR(d, r + 1); return r; }
struct tm *vk_gmtime_r(const time_t *t, struct tm *o) { WR(o, sizeof *o); return gmtime_r(t, o); } struct tm *vk_localtime_r(const time_t *t, struct tm *o) { WR(o, sizeof *o); return localtime_r(t, o); }
char *vk_asctime_r(const struct tm *t, char *o) { WR(o, 26); return asctime_r(t, o); } char *vk_ctime_r(const time_t *t, char *o) { WR(o, 26); return ctime_r(t, o); }
time_t vk_mktime(struct tm *t) { WR(t, sizeof *t); return mktime(t); } time_t vk_timegm(struct tm *t) { WR(t, sizeof *t); return timegm(t); }
int vk_stat(const char *f, struct stat *s) { WR(s, sizeof *s); return stat(f, s); } int vk_lstat(const char *f, struct stat *s) { WR(s, sizeof *s); return lstat(f, s); } int vk_fstat(int f, struct stat *s) { WR(s, sizeof *s); return fstat(f, s); }
char *vk_realpath(const char *f, char *o) { if (o) { char *r = realpath(f, o); WR(o, r ? strlen(r) + 1 : 1); return r; } char *r = realpath(f, nullptr); if (!r) return nullptr; int e = errno; char *c = (char *)vk_malloc(strlen(r) + 1); if (c) strcpy(c, r); free(r); errno = e; return c; }
char *vk_dirname(char *f) { RD(f, 1); return dirname(f); }
int vk_mkstemp(char *t) { WR(t, strlen(t) + 1); return mkstemp(t); }
size_t vk_fread(void *d, size_t a, size_t b, FILE *f) { if (a * b) WR(d, a * b); return fread(d, a, b, f); } char *vk_fgets(char *d, int n, FILE *f) { if (n > 0) WR(d, n); return fgets(d, n, f); }
int vk_regexec(const regex_t *r, const char *s, size_t n, regmatch_t *m, int fl) { RD(s, 1); if (n) WR(m, n * sizeof *m); return regexec(r, s, n, m, fl); }

// ------------------------------------------------------------------ compiler hooks
#define HOOK(n) \
  void __tsan_read##n(void *a) { access((uintptr_t)a, n, false, CALLER); } void __tsan_write##n(void *a) { access((uintptr_t)a, n, true, CALLER); } \
  void __tsan_unaligned_read##n(void *a) { access((uintptr_t)a, n, false, CALLER); } void __tsan_unaligned_write##n(void *a) { access((uintptr_t)a, n, true, CALLER); } \
  void __tsan_volatile_read##n(void *a) { access((uintptr_t)a, n, false, CALLER); } void __tsan_volatile_write##n(void *a) { access((uintptr_t)a, n, true, CALLER); } \
  void __tsan_unaligned_volatile_read##n(void *a) { access((uintptr_t)a, n, false, CALLER); } void __tsan_unaligned_volatile_write##n(void *a) { access((uintptr_t)a, n, true, CALLER); } \
  void __tsan_read_write##n(void *a) { access((uintptr_t)a, n, true, CALLER); }
HOOK(1) HOOK(2) HOOK(4) HOOK(8) HOOK(16)
void __tsan_read_range(void *a, size_t n) { if (n) access((uintptr_t)a, n, false, CALLER); }
void __tsan_write_range(void *a, size_t n) { if (n) access((uintptr_t)a, n, true, CALLER); }
void __tsan_func_entry(void *) {} void __tsan_func_exit(void) {} void __tsan_init(void) {}
void __tsan_vptr_update(void **, void *) {} void __tsan_vptr_read(void **) {}
static inline void atom(void *a, size_t n) { if (!g_active) return; check_mem(a, n, true, "atomic operation"); if (live_fibers() > 1) point("atomic operation"); check_mem(a, n, true, "atomic operation"); if (mode == LEARN) { HB &h = atomhb[a]; acquire(h); release(h); } }
#define ATOM(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T *a, int) { atom((void *)a, sizeof(T)); return *a; } \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int) { atom((void *)a, sizeof(T)); *a = v; } \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { atom((void *)a, sizeof(T)); T o = *a; *a = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { atom((void *)a, sizeof(T)); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { atom((void *)a, sizeof(T)); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { atom((void *)a, sizeof(T)); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { atom((void *)a, sizeof(T)); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { atom((void *)a, sizeof(T)); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { atom((void *)a, sizeof(T)); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { atom((void *)a, sizeof(T)); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { atom((void *)a, sizeof(T)); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { atom((void *)a, sizeof(T)); T o = *a; if (o == c) *a = v; return o; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
} // extern C

// ------------------------------------------------------------------ threads and locks
struct Lock { int owner = -1, depth = 0, readers = 0; std::map<int, int> rd; bool recursive = false, errorcheck = false; bool init = true; HB hb; int kind = 0; std::set<int> waiters; };
struct Waiter { int who; bool woken; };
static std::map<void *, std::vector<Waiter *>> conds;
static void locks_reset() { for (auto &l : locks) delete l.second; locks.clear(); conds.clear(); }
static Lock *get(void *p) { auto &l = locks[p]; if (!l) l = new Lock; return l; }
struct Want { Lock *l; int who; bool write; };
static bool can_mutex(void *a) { Want *w = (Want *)a; return w->l->owner < 0; }
static bool can_rw(void *a) { Want *w = (Want *)a; return w->write ? w->l->owner < 0 && w->l->rd.empty() : w->l->owner < 0; }
extern "C" {
int vk_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *at) { if (!g_active) return 0; range(m, sizeof *m, true, CALLER); Lock *l = get(m); if (l->owner >= 0) mc::fail("mutex initialised while locked"); *l = Lock(); int t = 0; if (at) pthread_mutexattr_gettype(at, &t); l->recursive = t == PTHREAD_MUTEX_RECURSIVE; l->errorcheck = t == PTHREAD_MUTEX_ERRORCHECK; return 0; }
int vk_pthread_mutex_destroy(pthread_mutex_t *m) { if (!g_active) return 0; point("mutex destroy"); check_mem(m, sizeof *m, true, "mutex"); Lock *l = get(m); if (l->owner >= 0) mc::fail("mutex destroyed while %s holds it", F[l->owner]->name.c_str()); *l = Lock(); return 0; }
static int mlock(pthread_mutex_t *m, bool tr, int64_t dl) {
  if (!g_active) return 0;
  check_mem(m, sizeof *m, true, "mutex"); point("mutex lock"); check_mem(m, sizeof *m, true, "mutex");
  Lock *l = get(m);
  if (l->owner == cur) { if (l->recursive) { l->depth++; return 0; } if (tr) return EBUSY; if (l->errorcheck) return EDEADLK; }
  if (tr && l->owner >= 0) return EBUSY;
  Want w{l, cur, true};
  if (!block(can_mutex, &w, "a mutex", dl)) return ETIMEDOUT;
  check_mem(m, sizeof *m, true, "mutex");
  l->owner = cur; l->depth = 1; acquire(l->hb); return 0;
}
int vk_pthread_mutex_lock(pthread_mutex_t *m) { return mlock(m, false, -1); }
int vk_pthread_mutex_trylock(pthread_mutex_t *m) { return mlock(m, true, -1); }
int vk_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { return mlock(m, false, t->tv_sec * 1000000000ll + t->tv_nsec); }
int vk_pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!g_active) return 0;
  check_mem(m, sizeof *m, true, "mutex"); Lock *l = get(m);
  if (l->owner != cur) { mc::fail("%s unlocks a mutex %s", F[cur]->name.c_str(), l->owner < 0 ? "that nobody holds" : "held by another thread"); }
  if (--l->depth) return 0;
  release(l->hb); l->owner = -1; point("mutex unlocked"); return 0;
}
int vk_pthread_rwlock_init(pthread_rwlock_t *m, const pthread_rwlockattr_t *) { if (!g_active) return 0; range(m, sizeof *m, true, CALLER); *get(m) = Lock(); return 0; }
int vk_pthread_rwlock_destroy(pthread_rwlock_t *m) { if (!g_active) return 0; point("rwlock destroy"); check_mem(m, sizeof *m, true, "rwlock"); Lock *l = get(m); if (l->owner >= 0 || !l->rd.empty()) mc::fail("read-write lock destroyed while held"); *l = Lock(); return 0; }
static int rwlock(pthread_rwlock_t *m, bool wr, bool tr) {
  if (!g_active) return 0;
  check_mem(m, sizeof *m, true, "rwlock"); point("rwlock"); check_mem(m, sizeof *m, true, "rwlock");
  Lock *l = get(m); Want w{l, cur, wr};
  if (l->owner == cur) return tr ? EBUSY : EDEADLK;
  if (tr && !can_rw(&w)) return EBUSY;
  block(can_rw, &w, "a read-write lock"); check_mem(m, sizeof *m, true, "rwlock");
  if (wr) l->owner = cur; else l->rd[cur]++; acquire(l->hb); return 0;
}
int vk_pthread_rwlock_rdlock(pthread_rwlock_t *m) { return rwlock(m, false, false); }
int vk_pthread_rwlock_wrlock(pthread_rwlock_t *m) { return rwlock(m, true, false); }
int vk_pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { return rwlock(m, false, true); }
int vk_pthread_rwlock_trywrlock(pthread_rwlock_t *m) { return rwlock(m, true, true); }
int vk_pthread_rwlock_unlock(pthread_rwlock_t *m) {
  if (!g_active) return 0;
  check_mem(m, sizeof *m, true, "rwlock"); Lock *l = get(m);
  if (l->owner == cur) l->owner = -1; else if (l->rd.count(cur)) { if (!--l->rd[cur]) l->rd.erase(cur); } else mc::fail("%s unlocks a read-write lock it does not hold", F[cur]->name.c_str());
  release(l->hb); point("rwlock unlocked"); return 0;
}
int vk_pthread_spin_init(pthread_spinlock_t *m, int) { *get((void *)m) = Lock(); return 0; }
int vk_pthread_spin_destroy(pthread_spinlock_t *) { return 0; }
int vk_pthread_spin_lock(pthread_spinlock_t *m) { if (!g_active) return 0; point("spin lock"); Lock *l = get((void *)m); Want w{l, cur, true}; block(can_mutex, &w, "a spin lock"); l->owner = cur; acquire(l->hb); return 0; }
int vk_pthread_spin_trylock(pthread_spinlock_t *m) { if (!g_active) return 0; point("spin lock"); Lock *l = get((void *)m); if (l->owner >= 0) return EBUSY; l->owner = cur; acquire(l->hb); return 0; }
int vk_pthread_spin_unlock(pthread_spinlock_t *m) { if (!g_active) return 0; Lock *l = get((void *)m); release(l->hb); l->owner = -1; point("spin unlocked"); return 0; }
static bool woken(void *a) { return ((Waiter *)a)->woken; }
int vk_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *) { return 0; }
int vk_pthread_cond_destroy(pthread_cond_t *) { return 0; }
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, int64_t dl) { Waiter w{cur, false}; conds[c].push_back(&w); Lock *l = get(m); int d = l->depth; release(l->hb); l->owner = -1; l->depth = 0; bool ok = block(woken, &w, "a condition", dl); auto &v = conds[c]; v.erase(std::remove(v.begin(), v.end(), &w), v.end()); Want x{l, cur, true}; block(can_mutex, &x, "a mutex"); l->owner = cur; l->depth = d; acquire(l->hb); return ok ? 0 : ETIMEDOUT; }
int vk_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cwait(c, m, -1); }
int vk_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return cwait(c, m, t->tv_sec * 1000000000ll + t->tv_nsec); }
int vk_pthread_cond_signal(pthread_cond_t *c) { point("signal"); for (auto w : conds[c]) if (!w->woken) { w->woken = true; break; } return 0; }
int vk_pthread_cond_broadcast(pthread_cond_t *c) { point("signal"); for (auto w : conds[c]) w->woken = true; return 0; }
int vk_pthread_once(pthread_once_t *o, void (*f)(void)) {
  if (!g_active) { if (!*o) { *o = 2; f(); } return 0; }
  point("once"); volatile int *s = (volatile int *)o;
  if (*s == 2) { acquire(atomhb[(void *)o]); return 0; }
  if (*s == 1) { block([](void *a) { return *(volatile int *)a == 2; }, (void *)o, "a pthread_once"); acquire(atomhb[(void *)o]); return 0; }
  *s = 1; f(); release(atomhb[(void *)o]); *s = 2; return 0;
}
int vk_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
  point("create a thread");
  if (vk::fault) { int e = vk::fault("pthread_create"); if (e) return e; }
  int id = spawn(mc::strf("thread%zu", F.size()).c_str(), [=] { void *r = fn(arg); F[cur]->ret = r; });
  if (t) { range(t, sizeof *t, true, CALLER); *t = (pthread_t)(id + 1000); }
  point("thread created"); return 0;
}
int vk_pthread_join(pthread_t t, void **r) { int id = (int)t - 1000; if (id <= 0 || id >= (int)F.size() || F[id]->detached) mc::fail("%s joins something that is not a joinable thread", F[cur]->name.c_str()); if (id == cur) return EDEADLK; join(id); F[id]->detached = true; if (r) *r = F[id]->ret; return 0; }
int vk_pthread_detach(pthread_t t) { int id = (int)t - 1000; if (id <= 0 || id >= (int)F.size()) mc::fail("detach of something that is not a thread"); F[id]->detached = true; return 0; }
pthread_t vk_pthread_self(void) { return (pthread_t)(cur + 1000); }
void vk_pthread_exit(void *r) { F[cur]->ret = r; F[cur]->done = true; F[cur]->pred = nullptr; decide(false); abort(); }
int vk_pthread_cancel(pthread_t) { return 0; }
int vk_pthread_setname_np(pthread_t, const char *) { return 0; }
int vk_pthread_sigmask(int, const sigset_t *, sigset_t *) { return 0; }
static std::map<void *, long> sems; static bool sem_ok(void *a) { return sems[a] > 0; }
int vk_sem_init(sem_t *s, int, unsigned n) { if (!g_active) return 0; range(s, sizeof *s, true, CALLER); sems[s] = n; return 0; }
int vk_sem_destroy(sem_t *s) { sems.erase(s); return 0; }
int vk_sem_wait(sem_t *s) { if (!g_active) return 0; point("semaphore"); block(sem_ok, s, "a semaphore"); sems[s]--; acquire(atomhb[(void *)s]); return 0; }
int vk_sem_trywait(sem_t *s) { point("semaphore"); if (!sem_ok(s)) { errno = EAGAIN; return -1; } sems[s]--; acquire(atomhb[(void *)s]); return 0; }
int vk_sem_timedwait(sem_t *s, const struct timespec *t) { point("semaphore"); if (!block(sem_ok, s, "a semaphore", t->tv_sec * 1000000000ll + t->tv_nsec)) { errno = ETIMEDOUT; return -1; } sems[s]--; acquire(atomhb[(void *)s]); return 0; }
int vk_sem_post(sem_t *s) { if (!g_active) return 0; release(atomhb[(void *)s]); sems[s]++; point("semaphore post"); return 0; }
int vk_sem_getvalue(sem_t *s, int *v) { *v = sems[s]; return 0; }
int vk_sched_yield(void) { point("yield"); return 0; }
}
}
