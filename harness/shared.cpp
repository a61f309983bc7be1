// P25: dictionaries and sessions shared by threads: locked operations are atomic, and the last reference (and only it) frees
#include "srv.hpp"
#include <map>
#include <set>
extern "C" {
#include "onion/sessions.h"
#include "onion/sessions_mem.h"
#include "onion/random.h"
}
struct Op { int kind; string key, val; string result; int64_t from = 0, to = 0; int thread; };
static int64_t tick;
typedef std::map<string, string> M;
// is there an order of the operations, that respects which ended before which began, and explains every result and the end?
static bool explained(vector<Op> &ops, vector<bool> &done, size_t left, const M &m, const M &end, const std::function<string(M &, const Op &)> &apply) {
  if (!left) return m == end;
  for (size_t i = 0; i < ops.size(); i++) { if (done[i]) continue; bool ok = true; for (size_t j = 0; j < ops.size(); j++) if (!done[j] && j != i && ops[j].to < ops[i].from) ok = false; if (!ok) continue;
    M n = m; if (apply(n, ops[i]) != ops[i].result) continue; done[i] = true; bool r = explained(ops, done, left - 1, n, end, apply); done[i] = false; if (r) return true; }
  return false;
}
static string show(const vector<Op> &ops, const M &end, const std::function<string(const Op &)> &name) { string r; for (auto &o : ops) r += strf("thread %d: %s -> %s; ", o.thread, name(o).c_str(), o.result.c_str()); r += "end: "; for (auto &e : end) r += e.first + "=" + e.second + " "; return r; }
static void collect(M *m, const char *k, const void *v, int f) { if (m->count(k)) fail("key %s twice", k); (*m)[k] = v ? (const char *)v : "(null)"; }
static M contents(onion_dict *d) { M m; onion_dict_preorder(d, (void *)collect, &m); return m; }
// ---- locked operations -----
enum { GET, ADD, DEL, COUNT, APPEND, SUM, NOPS };
static string dname(const Op &o) { static const char *N[] = {"get", "add", "remove", "count", "append", "sum"}; return string(N[o.kind]) + " " + o.key + (o.val.empty() ? "" : "=" + o.val); }
static string dapply(M &m, const Op &o) { switch (o.kind) { case GET: return m.count(o.key) ? m[o.key] : "none"; case ADD: m[o.key] = o.val; return "ok"; case DEL: return m.erase(o.key) ? "removed" : "none"; case COUNT: return strf("%zu", m.size()); case APPEND: { string v = m.count(o.key) ? m[o.key] : ""; m[o.key] = v + o.val; return "ok"; } case SUM: { string r; for (auto &e : m) r += e.first + e.second; return r; } } return ""; }
static void sum(string *r, const char *k, const void *v, int f) { *r += k; *r += (const char *)v; }
static void dop(onion_dict *d, Op &o) { o.from = ++tick; switch (o.kind) {
  case GET: { onion_dict_lock_read(d); const char *v = onion_dict_get(d, o.key.c_str()); o.result = v ? v : "none"; onion_dict_unlock(d); break; }
  case ADD: onion_dict_lock_write(d); onion_dict_add(d, o.key.c_str(), o.val.c_str(), OD_DUP_ALL | OD_REPLACE); onion_dict_unlock(d); o.result = "ok"; break;
  case DEL: onion_dict_lock_write(d); o.result = onion_dict_remove(d, o.key.c_str()) ? "removed" : "none"; onion_dict_unlock(d); break;
  case COUNT: onion_dict_lock_read(d); o.result = strf("%d", onion_dict_count(d)); onion_dict_unlock(d); break;
  case APPEND: { onion_dict_lock_write(d); const char *v = onion_dict_get(d, o.key.c_str()); string n = (v ? v : "") + o.val; onion_dict_add(d, o.key.c_str(), n.c_str(), OD_DUP_ALL | OD_REPLACE); onion_dict_unlock(d); o.result = "ok"; break; }
  case SUM: { onion_dict_lock_read(d); string r; onion_dict_preorder(d, (void *)sum, &r); onion_dict_unlock(d); o.result = r; break; } } o.to = ++tick; }
static void locked(int nth, int per, int budget) {
  vector<Op> ops; string key; for (int t = 0; t < nth; t++) for (int i = 0; i < per; i++) { Op o; o.kind = choose(NOPS); o.thread = t; o.key = string(1, "bc"[i % 2]); if (o.kind == ADD || o.kind == APPEND) o.val = strf("%d%d", t, i); if (o.kind == COUNT || o.kind == SUM) o.key = ""; ops.push_back(o); key += dname(o) + (i + 1 < per ? ", " : t + 1 < nth ? " | " : ""); }
  bool writes = false; for (auto &o : ops) writes |= o.kind == ADD || o.kind == DEL || o.kind == APPEND; if (!writes) mc::prune();
  mc::note("%s", key.c_str());
  sched::explore(key, budget, [&] {
    tick = 0; vector<Op> h = ops; onion_dict *d = onion_dict_new(); M m; for (const char *k : {"b", "a", "d"}) { onion_dict_add(d, k, "0", OD_DUP_ALL); m[k] = "0"; }
    vector<int> f; for (int t = 0; t < nth; t++) { onion_dict *mine = onion_dict_dup(d); f.push_back(sched::spawn(strf("thread%d", t).c_str(), [&h, t, per, mine] { for (int i = 0; i < per; i++) dop(mine, h[t * per + i]); onion_dict_free(mine); })); }
    for (int x : f) sched::join(x); M end = contents(d); vector<bool> done(h.size()); if (!explained(h, done, h.size(), m, end, dapply)) fail("no order of the operations explains it: %s", show(h, end, dname).c_str());
    onion_dict_free(d); all_released("at the end");
  }, true); mc::outcome(key);
}
// ---- references: threads take and leave references of the same dictionary, alone or inside others
static void references() {
  int nth = 2 + choose(2), kinds[3]; string key; static const char *K[] = {"leaves its own", "takes another, leaves both", "takes another, leaves one, looks, leaves it", "puts it inside another", "takes the inner one out"}; for (int i = 0; i < nth; i++) { kinds[i] = choose(5); if (i && kinds[i] < kinds[i - 1]) mc::prune(); key += strf("%s%s", i ? " | " : "", K[kinds[i]]); } mc::note("%s", key.c_str());
  sched::explore(key, nth == 2 ? 3 : mc::thorough() ? 3 : 2, [&] {
    onion_dict *d = onion_dict_new(); onion_dict_add(d, "k", "v", OD_DUP_ALL); onion_dict *in = onion_dict_new(); onion_dict_add(in, "x", "y", OD_DUP_ALL); onion_dict_add(d, "in", in, OD_DICT | OD_FREE_VALUE);
    auto look = [](onion_dict *d) { const char *v = onion_dict_get(d, "k"); if (!v || strcmp(v, "v")) fail("the data is gone while there are references"); onion_dict *i = onion_dict_get_dict(d, "in"); if (!i || strcmp(onion_dict_get(i, "x"), "y")) fail("the inner data is gone while there are references"); };
    vector<int> f; for (int t = 0; t < nth; t++) { onion_dict *mine = onion_dict_dup(d); int k = kinds[t]; f.push_back(sched::spawn(strf("thread%d", t).c_str(), [=] {
      switch (k) { case 0: look(mine); onion_dict_free(mine); break; case 1: { onion_dict *o = onion_dict_dup(mine); look(o); onion_dict_free(mine); look(o); onion_dict_free(o); break; } case 2: { onion_dict *o = onion_dict_dup(mine); onion_dict_free(o); look(mine); onion_dict_free(mine); break; }
        case 3: { onion_dict *w = onion_dict_new(); onion_dict_add(w, "d", mine, OD_DICT | OD_FREE_VALUE); look(onion_dict_get_dict(w, "d")); onion_dict_free(w); break; } case 4: { onion_dict *i = onion_dict_dup(onion_dict_get_dict(mine, "in")); onion_dict_free(mine); if (strcmp(onion_dict_get(i, "x"), "y")) fail("the inner data is gone"); onion_dict_free(i); break; } } })); }
    onion_dict_free(d); for (int x : f) sched::join(x); all_released("when all references were left");
  }, true); mc::outcome(key);
}
// ---- the session store in memory: each id is a register of data -----
enum { SGET, SSAVE, SDEL, SNEW, SNOPS };
static string sname(const Op &o) { static const char *N[] = {"get", "save", "remove", "create"}; return string(N[o.kind]) + " " + o.key + (o.val.empty() ? "" : "=" + o.val); }
static string sapply(M &m, const Op &o) { switch (o.kind) { case SGET: return m.count(o.key) ? m[o.key] : "none"; case SSAVE: m[o.key] = o.val; return "ok"; case SDEL: m.erase(o.key); return "ok"; case SNEW: if (m.count(o.result)) return "twice"; m[o.result] = "empty"; return o.result; } return ""; }
static string peek(onion_sessions *s, const char *id) { onion_dict *d = onion_sessions_get(s, id); if (!d) return "none"; onion_dict_lock_read(d); const char *v = onion_dict_get(d, "k"); string r = v ? v : "empty"; onion_dict_unlock(d); onion_dict_free(d); return r; }
static void store(int nth, int per, int budget) {
  vector<Op> ops; string key; for (int t = 0; t < nth; t++) for (int i = 0; i < per; i++) { Op o; o.kind = choose(SNOPS); o.thread = t; o.key = i % 2 ? "two" : "one"; if (o.kind == SSAVE) o.val = strf("%d%d", t, i); if (o.kind == SNEW) o.key = ""; ops.push_back(o); key += sname(o) + (i + 1 < per ? ", " : t + 1 < nth ? " | " : ""); } mc::note("%s", key.c_str());
  sched::explore(key, budget, [&] {
    onion_log = nolog; tick = 0; vector<Op> h = ops; onion_sessions *s = onion_sessions_mem_new(); M m; { onion_dict *d = onion_dict_new(); onion_dict_add(d, "k", "0", OD_DUP_ALL); onion_sessions_save(s, "one", d); onion_dict_free(d); m["one"] = "0"; } std::set<string> ids = {"one", "two"};
    vector<int> f; for (int t = 0; t < nth; t++) f.push_back(sched::spawn(strf("thread%d", t).c_str(), [&h, t, per, s] { for (int i = 0; i < per; i++) { Op &o = h[t * per + i]; o.from = ++tick; switch (o.kind) { case SGET: o.result = peek(s, o.key.c_str()); break; case SSAVE: { onion_dict *d = onion_dict_new(); onion_dict_add(d, "k", o.val.c_str(), OD_DUP_ALL); onion_sessions_save(s, o.key.c_str(), d); onion_dict_free(d); o.result = "ok"; break; } case SDEL: onion_sessions_remove(s, o.key.c_str()); o.result = "ok"; break; case SNEW: { char *x = onion_sessions_create(s); o.result = x ? x : "none"; if (x) onion_low_free(x); break; } } o.to = ++tick; } }));
    for (int x : f) sched::join(x); for (auto &o : h) if (o.kind == SNEW && !ids.insert(o.result).second) fail("the id %s was given twice", o.result.c_str());
    M end; for (auto &i : ids) { string v = peek(s, i.c_str()); if (v != "none") end[i] = v; } vector<bool> done(h.size()); if (!explained(h, done, h.size(), m, end, sapply)) fail("no order of the operations explains it: %s", show(h, end, sname).c_str());
    onion_sessions_free(s); all_released("at the end");
  }, true); mc::outcome(key);
}
// ---- two users of the same session ----
static void same_session() {
  int nth = 2 + choose(2), rm = choose(2); string key = strf("%d users of a session%s", nth, rm ? ", removed meanwhile" : ""); mc::note("%s", key.c_str());
  sched::explore(key, mc::thorough() ? 3 : 2, [&] {
    onion_log = nolog; onion_sessions *s = onion_sessions_mem_new(); char *id = onion_sessions_create(s); vector<bool> had(nth); vector<int> f; for (int t = 0; t < nth; t++) f.push_back(sched::spawn(strf("user%d", t).c_str(), [=, &had] { onion_dict *d = onion_sessions_get(s, id); had[t] = d; if (!d) { if (!rm) fail("the session is not there"); return; } onion_dict_lock_write(d); onion_dict_add(d, strf("k%d", t).c_str(), "x", OD_DUP_ALL); onion_dict_unlock(d); if (!rm) onion_sessions_save(s, id, d); onion_dict_lock_read(d); if (!onion_dict_get(d, strf("k%d", t).c_str())) fail("what was added is gone"); onion_dict_unlock(d); onion_dict_free(d); }));
    if (rm) onion_sessions_remove(s, id); for (int x : f) sched::join(x); onion_dict *d = onion_sessions_get(s, id); if (rm) { if (d) fail("a removed session is there"); } else { if (!d) fail("the session is gone"); for (int t = 0; t < nth; t++) if (!onion_dict_get(d, strf("k%d", t).c_str())) fail("the change of user %d is lost", t); if (onion_dict_count(d) != nth) fail("there are %d keys", onion_dict_count(d)); onion_dict_free(d); }
    onion_low_free(id); onion_sessions_free(s); all_released("at the end");
  }); mc::outcome(key);
}
int main(int c, char **v) {
  mc::rule("All combinations of operations of two or three threads on a shared dictionary (locked as documented), on references to it, on the session store and on one session, under every schedule within the bound on deviations; each history must be explained by some order of its operations (linearizable), nothing is used after it was freed and nothing is left. Distinct: combinations of operations.");
  mc::assume("Sequentially consistent memory.");
  mc::add("locked operations", [] { bool th = mc::thorough(); locked(2, 2, th ? 3 : 2); }); mc::add("locked operations, three threads", [] { locked(3, 1, mc::thorough() ? 3 : 2); }); mc::add("references", references);
  mc::add("session store", [] { store(2, 2, mc::thorough() ? 3 : 2); }); mc::add("session store, three threads", [] { store(3, 1, mc::thorough() ? 3 : 2); }); mc::add("one session", same_session);
  return mc::main(c, v);
}
