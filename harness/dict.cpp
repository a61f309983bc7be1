// Dictionary: every short history of operations against a sorted-multimap model.
#include "mc.hpp"
#include <string.h>
#include <strings.h>
#include <stdlib.h>
#include <map>
#include <set>
#include <algorithm>
#include "onion/dict.h"
#include "onion/low.h"
#include "onion/block.h"
#include "onion/log.h"
using std::string; using mc::choose; using mc::fail; using mc::esc;

typedef std::pair<string, string> KV;     // key as stored, value ("{}..." for sub dictionaries)
typedef std::vector<KV> Bag;              // in iteration order

static string show(const Bag &b) { string r; for (auto &e : b) r += e.first + "=" + e.second + " "; return r; }
static void vis(Bag *b, const char *k, const void *v, int flags) {
  if (flags & OD_DICT) { Bag s; onion_dict_preorder((onion_dict *)v, (void *)vis, &s); b->push_back(KV(k, "{" + show(s) + "}")); }
  else b->push_back(KV(k, v ? (const char *)v : "(null)"));
}
static Bag dump(const onion_dict *d) { Bag b; onion_dict_preorder(d, (void *)vis, &b); return b; }

struct Model {
  bool icase = false;
  Bag b;                                   // unordered multiset, kept sorted for comparison
  int cmp(const string &x, const string &y) const { return icase ? strcasecmp(x.c_str(), y.c_str()) : strcmp(x.c_str(), y.c_str()); }
  void add(const string &k, const string &v) { b.push_back(KV(k, v)); }
  std::vector<int> of(const string &k) const { std::vector<int> r; for (size_t i = 0; i < b.size(); i++) if (!cmp(b[i].first, k)) r.push_back(i); return r; }
};
static Bag sorted(Bag b) { std::sort(b.begin(), b.end()); return b; }

// compares dictionary and model; the model is resynchronised when a choice among equal keys was left to the implementation
static void compare(onion_dict *d, Model &m, const char *keys[], int nkeys, const char *what) {
  Bag got = dump(d);
  for (size_t i = 1; i < got.size(); i++) if (m.cmp(got[i - 1].first, got[i].first) > 0) fail("%s: iteration is not in key order: %s", what, show(got).c_str());
  if (sorted(got) != sorted(m.b)) fail("%s: holds [%s], expected [%s]", what, show(got).c_str(), show(sorted(m.b)).c_str());
  if (onion_dict_count(d) != (int)m.b.size()) fail("%s: count %d, expected %zu", what, onion_dict_count(d), m.b.size());
  for (int i = 0; i < nkeys; i++) {
    auto idx = m.of(keys[i]); const char *v = onion_dict_get(d, keys[i]); onion_dict *sub = onion_dict_get_dict(d, keys[i]);
    if (idx.empty()) { if (v || sub) fail("%s: get(%s) finds %s, expected nothing", what, keys[i], v ? v : "a dict"); continue; }
    bool ok = false;
    for (int j : idx) { const string &ev = m.b[j].second; if (ev[0] == '{') { if (sub && !v) { Bag s = dump(sub); if ("{" + show(s) + "}" == ev) ok = true; } } else if (v && ev == v && !sub) ok = true; }
    if (!ok) fail("%s: get(%s) = %s is not a value stored under it", what, keys[i], v ? v : sub ? "dict" : "NULL");
  }
}
// the model entry that disappeared is whatever the implementation removed: exactly one entry of that key
static void remove_model(onion_dict *d, Model &m, const string &k, int ret) {
  auto idx = m.of(k);
  if (idx.empty()) { if (ret) fail("remove(%s) of a missing key claims to have removed something", k.c_str()); return; }
  if (!ret) fail("remove(%s) removed something but says it did not", k.c_str());
  if (idx.size() == 1) { m.b.erase(m.b.begin() + idx[0]); return; }
  Bag got = sorted(dump(d));
  for (int j : idx) { Bag t = m.b; t.erase(t.begin() + j); if (sorted(t) == got) { m.b = t; return; } }
  fail("remove(%s) with %zu entries of that key: now [%s], was [%s]", k.c_str(), idx.size(), show(got).c_str(), show(sorted(m.b)).c_str());
}
static void add_real(onion_dict *d, Model &m, const char *k, const string &v, int how) {
  switch (how) {
  case 0: { string kk = k, vv = v; onion_dict_add(d, kk.c_str(), vv.c_str(), OD_DUP_ALL); m.add(k, v); break; }
  case 1: { // replace, ownership transferred
    auto idx = m.of(k);
    onion_dict_add(d, onion_low_strdup(k), onion_low_strdup(v.c_str()), OD_FREE_ALL | OD_REPLACE);
    if (idx.empty()) m.add(k, v);
    else if (idx.size() == 1) m.b[idx[0]] = KV(k, v);
    else { Bag got = sorted(dump(d)); bool ok = false; for (int j : idx) { Bag t = m.b; t[j] = KV(k, v); if (sorted(t) == got) { m.b = t; ok = true; break; } } if (!ok) fail("replace(%s): now [%s], was [%s]", k, show(got).c_str(), show(sorted(m.b)).c_str()); }
    break; }
  case 2: { // nested dictionary, owned
    onion_dict *s = onion_dict_new(); onion_dict_add(s, "in", v.c_str(), OD_DUP_ALL);
    onion_dict_add(d, k, s, OD_DUP_KEY | OD_FREE_VALUE | OD_DICT); m.add(k, "{in=" + v + " }"); break; }
  case 3: { // nested dictionary, copied
    onion_dict *s = onion_dict_new(); onion_dict_add(s, "in", v.c_str(), OD_DUP_ALL);
    onion_dict_add(d, k, s, OD_DUP_ALL | OD_DICT); onion_dict_add(s, "later", "x", 0); onion_dict_free(s); m.add(k, "{in=" + v + " }"); break; }
  case 4: { static const char *K[] = {"a", "b", "c", "d", "e", "f", "A", "B"}; const char *sk = k; for (auto x : K) if (!strcmp(x, k)) sk = x; onion_dict_add(d, sk, "static", 0); m.add(k, "static"); break; }
  }
}

static size_t base_live; static int warm = 0;
static void leak(const char *what) { size_t l = mc::live_bytes(); if (l != base_live) fail("%s: %zd bytes still allocated after freeing everything", what, (ssize_t)(l - base_live)); }

// --- general histories -------------------------------------------------------------
static void histories() {
  static const char *K0[] = {"a", "b", "c"}; static const char *K1[] = {"a", "A", "b"};
  bool icase = mc::flip(); int depth = mc::thorough() ? 6 : 5; const char **K = icase ? K1 : K0;
  base_live = mc::live_bytes();
  {
    onion_dict *d = onion_dict_new(); Model m; if (icase) { onion_dict_set_flags(d, OD_ICASE); m.icase = true; }
    string tr;
    for (int i = 0; i < depth; i++) {
      int op = choose(15); if (i == 1) mc::shard();
      const char *k = K[op % 3]; string v = mc::strf("v%d", i);
      switch (op / 3) {
      case 0: add_real(d, m, k, v, 0); mc::note("add %s=%s", k, v.c_str()); break;
      case 1: add_real(d, m, k, v, 1); mc::note("replace %s=%s", k, v.c_str()); break;
      case 2: case 3: { if (op / 3 == 3 && op % 3) { add_real(d, m, k, v, op % 3 + 1); mc::note("add sub dict %s (%d)", k, op % 3); break; }
                mc::note("remove %s", k); int r = onion_dict_remove(d, k); remove_model(d, m, k, r); break; }
      case 4:
        if (op % 3 == 0) { mc::note("copy, drop the original"); onion_dict *c = onion_dict_hard_dup(d); onion_dict_add(d, "b", "gone", OD_DUP_ALL); onion_dict_free(d); d = c; }
        else if (op % 3 == 1) { mc::note("share, drop one reference"); onion_dict *c = onion_dict_dup(d); onion_dict_free(d); d = c; }
        else { mc::note("merge another"); onion_dict *o = onion_dict_new(); onion_dict_add(o, "b", v.c_str(), OD_DUP_ALL); onion_dict_add(o, "a", "m", 0); onion_dict_merge(d, o); onion_dict_free(o); m.add("b", v); m.add("a", "m"); }
      }
      compare(d, m, K, 3, "after operation");
    }
    mc::outcome(show(m.b)); onion_dict_free(d);
  }
  leak("history");
}
// --- tree shapes: all insertion orders x all removal orders ------------------------
static void orders() {
  static const char *K[] = {"a", "b", "c", "d", "e", "f", "g"};
  int n = 3 + choose(mc::thorough() ? 5 : 4);
  base_live = mc::live_bytes();
  { std::vector<int> rest; string tr;
    onion_dict *d = onion_dict_new(); Model m;
    for (int i = 0; i < n; i++) rest.push_back(i);
    for (int i = 0; i < n; i++) { int j = choose(rest.size()); if (i == 2) mc::shard(); int k = rest[j]; rest.erase(rest.begin() + j); add_real(d, m, K[k], mc::strf("v%d", k), i % 2); tr += K[k]; }
    tr += " -"; for (int i = 0; i < n; i++) rest.push_back(i);
    mc::note("insert %s", tr.c_str());
    int rem = n >= 7 ? 4 : n;
    for (int i = 0; i < rem; i++) { int j = choose(rest.size()); int k = rest[j]; rest.erase(rest.begin() + j); tr += K[k]; int r = onion_dict_remove(d, K[k]); remove_model(d, m, K[k], r); compare(d, m, K, n, "orders"); }
    mc::note("insert and remove %s", tr.c_str()); mc::outcome(tr); onion_dict_free(d);
  }
  leak("orders");
}
// --- duplicates: multisets of 3 keys, then removals --------------------------------
static void duplicates() {
  static const char *K[] = {"a", "b", "c"}; int n = 2 + choose(mc::thorough() ? 6 : 5);
  base_live = mc::live_bytes();
  { string tr;
    onion_dict *d = onion_dict_new(); Model m;
    for (int i = 0; i < n; i++) { int k = choose(3); if (i == 1) mc::shard(); add_real(d, m, K[k], mc::strf("v%d", i), 0); tr += K[k]; }
    tr += "-";
    for (int i = 0; i < n && i < 4; i++) { int k = choose(3); tr += K[k]; int r = onion_dict_remove(d, K[k]); remove_model(d, m, K[k], r); compare(d, m, K, 3, tr.c_str()); }
    { int k = choose(3); add_real(d, m, K[k], "rep", 1); compare(d, m, K, 3, "replace among duplicates"); onion_dict *c = onion_dict_hard_dup(d); compare(c, m, K, 3, "copy"); onion_dict_free(c); }
    mc::note("%s", tr.c_str()); mc::outcome(tr); onion_dict_free(d);
  }
  leak("duplicates");
}
// --- big trees ---------------------------------------------------------------------
static void big() {
  int n = 1 + choose(mc::thorough() ? 70 : 40), order = choose(4); mc::shard(); 
  static char names[100][8]; static const char *K[100]; for (int i = 0; i < 100; i++) { snprintf(names[i], 8, "k%02d", i); K[i] = names[i]; }
  int r1 = choose(n), r2 = choose(n);
  base_live = mc::live_bytes();
  {
    onion_dict *d = onion_dict_new(); Model m;
    for (int i = 0; i < n; i++) { int k = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i % 2 ? i / 2 : n - 1 - i / 2) : (i * 7 + 3) % n; if (order == 3 && n % 7 == 0) k = i; add_real(d, m, K[k], K[k], 0); }
    mc::note("n=%d order %d remove %d then %d", n, order, r1, r2);
    compare(d, m, K, n, "inserted");
    for (int r : {r1, r2}) { int x = onion_dict_remove(d, K[r]); remove_model(d, m, K[r], x); compare(d, m, K, n, "removed"); }
    onion_dict_free(d);
  }
  leak("big");
}
// --- odd inputs --------------------------------------------------------------------
static void odd() {
  int c = choose(6); mc::shard(); base_live = mc::live_bytes();
  onion_dict *d = onion_dict_new();
  switch (c) {
  case 0: onion_dict_add(d, NULL, "x", OD_DUP_VALUE); if (onion_dict_count(d)) fail("NULL key stored"); break;
  case 1: onion_dict_add(d, "a", NULL, OD_DUP_ALL); if (onion_dict_count(d) != 1 || onion_dict_get(d, "a")) fail("NULL value"); break;
  case 2: if (onion_dict_get(NULL, "a") || onion_dict_count(NULL)) fail("get from no dict"); onion_dict_free(NULL); break;
  case 3: onion_dict_add(d, "", "empty", 0); if (!onion_dict_get(d, "") || strcmp(onion_dict_get(d, ""), "empty")) fail("empty key"); break;
  case 4: { onion_dict *s = onion_dict_new(), *t = onion_dict_new(); onion_dict_add(t, "z", "deep", 0); onion_dict_add(s, "y", t, OD_DICT | OD_FREE_VALUE); onion_dict_add(d, "x", s, OD_DICT | OD_FREE_VALUE);
    const char *v = onion_dict_rget(d, "x", "y", "z", NULL); if (!v || strcmp(v, "deep")) fail("rget of a nested value"); if (onion_dict_rget(d, "x", "n", "z", NULL)) fail("rget through a missing dict");
    if (onion_dict_rget_dict(d, "x", "y", NULL) != t || onion_dict_rget_dict(d, "x", "q", NULL)) fail("rget_dict"); if (onion_dict_get(d, "x")) fail("get of a dict must be NULL"); if (onion_dict_rget(d, "x", "y", NULL)) fail("rget of a dict must be NULL"); break; }
  case 5: { onion_dict *r[6]; for (auto &x : r) x = onion_dict_dup(d); onion_dict_add(r[3], "k", "shared", OD_DUP_ALL); if (!onion_dict_get(d, "k")) fail("a shared dictionary shows changes"); for (auto &x : r) onion_dict_free(x); if (!onion_dict_get(d, "k")) fail("still referenced"); break; }
  }
  onion_dict_free(d); leak("odd"); mc::note("odd %d", c);
}

static void nolog(onion_log_level, const char *, int, const char *, ...) {}
int main(int argc, char **argv) {
  onion_log_flags = OF_INIT | OF_NODEBUG | OF_NOINFO | OF_NOCOLOR;
  onion_log = nolog;
  mc::rule("every sequence of operations up to the depth; every insertion order x removal order up to 7 keys; every multiset of 3 keys; two removals from trees up to 40 keys; distinct by history/content");
  mc::assume("which of several entries with the same key an operation affects is left open; it must be exactly one");
  mc::add("histories", histories); mc::add("orders", orders); mc::add("duplicates", duplicates); mc::add("big", big); mc::add("odd", odd);
  return mc::main(argc, argv);
}
