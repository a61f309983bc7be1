// P19: every session backend is a map from ids to the data saved last, for every history of create, change, save, read, remove and reopen,
// also when the storage fails in the middle.
#include "onh.hpp"
#include <sqlite3.h>
#include <hiredis/hiredis.h>
extern "C" {
#include "onion/sessions.h"
#include "onion/sessions_mem.h"
onion_sessions *onion_sessions_sqlite3_new(const char *database_filename);
#include "onion/sessions_redis.h"
}
using namespace onh; using mc::choose;
// ---- a redis that lives in this process: commands formatted by the real hiredis, executed on a map ----
static std::map<string, std::map<string, string>> rdb; static std::map<string, string> rkv; static int rcmd, rfault_at = -1, rfault; static int rctx; static int conn_fault;
extern "C" int redisvFormatCommand(char **target, const char *format, va_list ap);
static redisReply *mk(int type, long long i = 0, const string &s = "") { redisReply *r = (redisReply *)calloc(1, sizeof *r); r->type = type; r->integer = i; if (type == REDIS_REPLY_STRING || type == REDIS_REPLY_ERROR || type == REDIS_REPLY_STATUS) { r->str = (char *)malloc(s.size() + 1); memcpy(r->str, s.data(), s.size()); r->str[s.size()] = 0; r->len = s.size(); } return r; }
static int rreplies;
static redisReply *execute(redisContext *c, const vector<string> &a) {
  if (c->err) return nullptr; int k = rcmd++;
  if (k == rfault_at) { if (rfault == 0) { c->err = REDIS_ERR_EOF; strcpy(c->errstr, "Server closed the connection"); return nullptr; } if (rfault == 1) { rreplies++; return mk(REDIS_REPLY_ERROR, 0, "ERR something"); } if (rfault == 2) { rreplies++; return mk(REDIS_REPLY_NIL); } }
  rreplies++; string n = a[0]; for (auto &x : n) x = toupper(x);
  if (n == "HEXISTS" && a.size() == 3) return mk(REDIS_REPLY_INTEGER, rdb.count(a[1]) && rdb[a[1]].count(a[2]));
  if (n == "HGET" && a.size() == 3) { if (!rdb.count(a[1]) || !rdb[a[1]].count(a[2])) return mk(REDIS_REPLY_NIL); return mk(REDIS_REPLY_STRING, 0, rdb[a[1]][a[2]]); }
  if (n == "HSET" && a.size() == 4) { bool e = rdb[a[1]].count(a[2]); rdb[a[1]][a[2]] = a[3]; return mk(REDIS_REPLY_INTEGER, !e); }
  if (n == "HDEL" && a.size() == 3) return mk(REDIS_REPLY_INTEGER, rdb[a[1]].erase(a[2]));
  if (n == "EXISTS" && a.size() == 2) return mk(REDIS_REPLY_INTEGER, rkv.count(a[1]));
  if (n == "GET" && a.size() == 2) { if (!rkv.count(a[1])) return mk(REDIS_REPLY_NIL); return mk(REDIS_REPLY_STRING, 0, rkv[a[1]]); }
  if (n == "SET" && a.size() == 3) { rkv[a[1]] = a[2]; return mk(REDIS_REPLY_STATUS, 0, "OK"); }
  if (n == "DEL" && a.size() == 2) return mk(REDIS_REPLY_INTEGER, rkv.erase(a[1]));
  return mk(REDIS_REPLY_ERROR, 0, "ERR unknown command");
}
static redisReply *resp(redisContext *c, const string &p) { vector<string> a; size_t i = p.find("\r\n") + 2; int n = atoi(p.c_str() + 1); for (int k = 0; k < n; k++) { int l = atoi(p.c_str() + i + 1); i = p.find("\r\n", i) + 2; a.push_back(p.substr(i, l)); i += l + 2; } return execute(c, a); }
extern "C" redisContext *__wrap_redisConnect(const char *, int) { if (conn_fault == 1) return nullptr; redisContext *c = (redisContext *)calloc(1, sizeof *c); c->fd = -1; rctx++; if (conn_fault == 2) { c->err = REDIS_ERR_IO; strcpy(c->errstr, "Connection refused"); } return c; }
extern "C" void __wrap_redisFree(redisContext *c) { if (!c) return; rctx--; free(c); }
extern "C" int __wrap_redisReconnect(redisContext *c) { c->err = 0; return REDIS_OK; }
extern "C" void *__wrap_redisvCommand(redisContext *c, const char *f, va_list ap) { char *t = nullptr; int l = redisvFormatCommand(&t, f, ap); if (l < 0) fail("bad redis command %s", f); string p(t, l); free(t); return resp(c, p); }
extern "C" void *__wrap_redisCommand(redisContext *c, const char *f, ...) { va_list ap; va_start(ap, f); void *r = __wrap_redisvCommand(c, f, ap); va_end(ap); return r; }
extern "C" void *__wrap_redisCommandArgv(redisContext *c, int n, const char **v, const size_t *l) { vector<string> a; for (int i = 0; i < n; i++) a.push_back(l ? string(v[i], l[i]) : string(v[i])); return execute(c, a); }
extern "C" void __real_freeReplyObject(void *); extern "C" void __wrap_freeReplyObject(void *r) { if (r) rreplies--; __real_freeReplyObject(r); }
// ---- sqlite: quick settings, and a step that can fail ----
extern "C" int __real_sqlite3_open(const char *, sqlite3 **); static int sstep, sfault_at = -1, sfault; static int dbs;
extern "C" int __wrap_sqlite3_open(const char *f, sqlite3 **d) { int r = __real_sqlite3_open(f, d); if (*d) dbs++; if (r == SQLITE_OK) { sqlite3_exec(*d, "PRAGMA synchronous=OFF", 0, 0, 0); sqlite3_busy_timeout(*d, 1); } return r; }
extern "C" int __real_sqlite3_close(sqlite3 *); extern "C" int __wrap_sqlite3_close(sqlite3 *d) { int r = __real_sqlite3_close(d); if (d && r == SQLITE_OK) dbs--; else if (d) fail("the database could not be closed (%d)", r); return r; }
extern "C" int __real_sqlite3_step(sqlite3_stmt *); extern "C" int __wrap_sqlite3_step(sqlite3_stmt *s) { int k = sstep++; if (k == sfault_at) return sfault; return __real_sqlite3_step(s); }
extern "C" int __real_sqlite3_bind_text(sqlite3_stmt *, int, const char *, int, void (*)(void *)); static int sbind, bfault_at = -1; extern "C" int __wrap_sqlite3_bind_text(sqlite3_stmt *s, int i, const char *t, int n, void (*d)(void *)) { int k = sbind++; if (k == bfault_at) return SQLITE_NOMEM; return __real_sqlite3_bind_text(s, i, t, n, d); }

enum { MEM, SQL, RED };
static const char *bname[] = {"memory", "sqlite3", "redis"};
static string dbfile; static int dbn;
static std::set<onion_sessions *> opened;
static onion_sessions *mkstore(int b) { onion_sessions *s = b == MEM ? onion_sessions_mem_new() : b == SQL ? onion_sessions_sqlite3_new(dbfile.c_str()) : onion_sessions_redis_new("127.0.0.1", 6379); if (s) opened.insert(s); return s; }
static void endstore(onion_sessions *s) { opened.erase(s); onion_sessions_free(s); }
static void fresh() { for (auto *s : std::set<onion_sessions *>(opened)) endstore(s); rdb.clear(); rkv.clear(); rcmd = 0; rfault_at = -1; sstep = 0; sfault_at = -1; sbind = 0; bfault_at = -1; conn_fault = 0; if (!dbfile.empty()) unlink(dbfile.c_str()); dbfile = mc::scratch() + mc::strf("/s%d.db", dbn); unlink(dbfile.c_str()); }
// the model: nested maps as text
typedef std::map<string, string> Data; // nested dictionaries are keys "a/b"
static void vis(Data *o, const char *k, const void *v, int f);
static void flat(Data &o, const string &pre, onion_dict *d) { struct C { Data *o; string pre; } c{&o, pre}; onion_dict_preorder(d, (void *)+[](C *c, const char *k, const void *v, int f) { string n = c->pre + k; if (f & OD_DICT) { (*c->o)[n + "/"] = ""; flat(*c->o, n + "/", (onion_dict *)v); } else { if (c->o->count(n)) fail("key %s twice", n.c_str()); (*c->o)[n] = v ? (const char *)v : "(null)"; } }, &c); }
static string show(const Data &d) { string r = "{"; for (auto &x : d) r += esc(x.first) + "=" + esc(x.second.substr(0, 40)) + " "; return r + "}"; }
static Data load(onion_sessions *s, const string &id, bool &exists) { onion_dict *d = onion_sessions_get(s, id.c_str()); exists = d != nullptr; Data o; if (d) { flat(o, "", d); onion_dict_free(d); } return o; }
static const vector<string> &values() { static vector<string> v = {"v1", "", "a\"b\\c/\n\t\x01", "\xc3\xa9\xe2\x82\xac\xf0\x90\x8d\x88", string(3000, 'x'), "{}", "null", "'; DROP TABLE sessions; --", "%s%b%n", "tail "}; return v; }
static void change(Data &m, onion_dict *d, int what) { // what happens to the data
  switch (what) {
  case 0: onion_dict_add(d, "k", "one", OD_DUP_ALL | OD_REPLACE); m["k"] = "one"; break;
  case 1: onion_dict_add(d, "k2", "two", OD_DUP_ALL | OD_REPLACE); m["k2"] = "two"; break;
  case 2: { onion_dict *n = onion_dict_new(); onion_dict_add(n, "in", "x", OD_DUP_ALL); onion_dict_add(d, "n", n, OD_DUP_KEY | OD_DICT | OD_FREE_VALUE | OD_REPLACE); m["n/"] = ""; m["n/in"] = "x"; break; }
  case 3: onion_dict_remove(d, "k"); m.erase("k"); break;
  }
}
// all the histories of operations over two sessions
static void histories() {
  int b = choose(3); bool two = b != MEM && choose(2); int n = mc::thorough() ? 5 : 4; fresh(); mc::note("%s", bname[b]);
  onion_sessions *st[2] = {mkstore(b), nullptr}; if (!st[0]) fail("cannot create the backend"); if (two) { st[1] = mkstore(b); if (!st[1]) fail("cannot create the second"); }
  string id[2]; std::map<string, Data> model; std::set<string> all; string d = bname[b]; size_t before = 0;
  auto check = [&](onion_sessions *s) { for (auto &i : all) { bool e; Data g = load(s, i, e); auto it = model.find(i); if (e != (it != model.end())) fail("%s: session %s", d.c_str(), e ? "exists after it was removed" : "does not exist"); if (e && g != it->second) fail("%s: the session has %s, should have %s", d.c_str(), show(g).c_str(), show(it->second).c_str()); } bool e; load(s, "unknown", e); if (e) fail("an unknown session exists"); load(s, "", e); if (e) fail("the session with no name exists"); };
  for (int i = 0; i < n; i++) {
    int op = choose(b == MEM ? 7 : 8); int w = op == 7 ? 0 : choose(2); if (i == 1) mc::shard(); onion_sessions *s = two && (i & 1) ? st[1] : st[0]; d += mc::strf(" %d%c", op, 'a' + w); mc::note("%s", d.c_str());
    if (op == 7) { endstore(st[0]); st[0] = mkstore(b); if (!st[0]) fail("cannot reopen"); check(st[0]); continue; }
    if (op == 0) { char *x = onion_sessions_create(s); if (!x) fail("not created"); id[w] = x; onion_low_free(x); if (all.count(id[w])) fail("id used twice"); all.insert(id[w]); model[id[w]] = {}; }
    else if (op == 1) { onion_sessions_remove(s, id[w].empty() ? "unknown" : id[w].c_str()); model.erase(id[w]); }
    else if (op == 6) { onion_dict *x = onion_dict_new(); Data m; change(m, x, 1); string k = id[w].empty() ? string("given") : id[w]; onion_sessions_save(s, k.c_str(), x); onion_dict_free(x); id[w] = k; all.insert(k); model[k] = m; } // saves other data in its place
    else { onion_dict *x = onion_sessions_get(s, id[w].empty() ? "unknown" : id[w].c_str()); auto it = model.find(id[w]); if ((x != nullptr) != (it != model.end())) fail("%s: the session %s", d.c_str(), x ? "exists" : "does not exist"); if (x) { Data m = it->second; change(m, x, op - 2); onion_sessions_save(s, id[w].c_str(), x); onion_dict_free(x); it->second = m; } }
    check(s); if (two) check(s == st[0] ? st[1] : st[0]);
  }
  endstore(st[0]); if (two) endstore(st[1]); if (rctx || rreplies || dbs) fail("not everything is released: %d connections, %d replies, %d databases", rctx, rreplies, dbs); mc::outcome(d);
}
// data and ids with every kind of text come back as they were
static void contents() {
  int b = choose(3), k = choose(10), v = choose(10); mc::shard(); fresh(); static const vector<string> keys = {"k", "a b", "\"q\"", "back\\slash", "\xc3\xb1", "new\nline", "'sql", "%d", string(600, 'k'), "a.b[0]"}; onion_sessions *s = mkstore(b); Data m; mc::note("%s key %s value %s", bname[b], esc(keys[k].substr(0, 30)).c_str(), esc(values()[v].substr(0, 30)).c_str());
  static const vector<string> ids = {"abc", "it's", "a\"b", "x%sy", "\xc3\xa9", "with space", "*", string(300, 'i'), "abc ", "ABC"};
  for (auto &i : ids) { onion_dict *d = onion_dict_new(); onion_dict_add(d, keys[k].c_str(), values()[v].c_str(), OD_DUP_ALL); onion_dict_add(d, "id", i.c_str(), OD_DUP_ALL); onion_sessions_save(s, i.c_str(), d); onion_dict_free(d); }
  if (b != MEM && choose(2)) { endstore(s); s = mkstore(b); }
  for (auto &i : ids) { bool e; Data g = load(s, i, e); Data w; w[keys[k]] = values()[v]; w["id"] = i; if (!e) fail("session %s does not exist", esc(i).c_str()); if (g != w) fail("session %s has %s", esc(i).c_str(), show(g).c_str()); }
  for (auto &i : ids) { onion_sessions_remove(s, i.c_str()); for (auto &j : ids) { bool e; load(s, j, e); bool w = &j > &i; if (e != w) fail("after removing up to %s, %s %s", esc(i).c_str(), esc(j).c_str(), e ? "exists" : "does not exist"); } }
  endstore(s); mc::outcome(mc::strf("%d %d %d", b, k, v));
}
static void lengths() { int b = choose(3), L = choose(17) * 256 + choose(24) - 12; if (L < 0) L = 0; mc::shard(); fresh(); onion_sessions *s = mkstore(b); mc::note("%s %d bytes", bname[b], L); onion_dict *d = onion_dict_new(); string v(L, 'v'); onion_dict_add(d, "k", v.c_str(), OD_DUP_ALL); onion_sessions_save(s, "i", d); onion_dict_free(d); bool e; Data g = load(s, "i", e); if (!e || g["k"] != v || g.size() != 1) fail("the data is not the saved one"); endstore(s); mc::outcome(mc::strf("%d %d", b, L)); }
static void many() { int b = choose(3), n = choose(12) * 5; mc::shard(); fresh(); onion_sessions *s = mkstore(b); vector<string> ids; for (int i = 0; i < n; i++) { char *x = onion_sessions_create(s); ids.push_back(x); onion_low_free(x); onion_dict *d = onion_sessions_get(s, ids[i].c_str()); if (!d) fail("session %d not created", i); onion_dict_add(d, "n", mc::strf("%d", i).c_str(), OD_DUP_ALL); onion_sessions_save(s, ids[i].c_str(), d); onion_dict_free(d); } for (int i = 0; i < n; i += 3) onion_sessions_remove(s, ids[i].c_str()); for (int i = 0; i < n; i++) { bool e; Data g = load(s, ids[i], e); if (e != (i % 3 != 0) || (e && g["n"] != mc::strf("%d", i))) fail("session %d of %d is wrong", i, n); } endstore(s); mc::outcome(mc::strf("%d %d", b, n)); }
// one storage operation fails: no crash, nothing else is lost or changed, and what failed is either done or not done
static void faults() {
  int b = 1 + choose(2); int at = choose(14), kind = choose(b == SQL ? 4 : 3); int n = 3; fresh(); onion_sessions *s = mkstore(b); std::map<string, std::set<string>> model; // what it may have: texts of the data, "-" is missing
  auto txt = [](const Data &d) { return show(d); }; onion_dict *x = onion_dict_new(); onion_dict_add(x, "k", "other", OD_DUP_ALL); onion_sessions_save(s, "other", x); onion_dict_free(x); Data o; o["k"] = "other"; model["other"] = {txt(o)}; model["id"] = {"-"}; string d = mc::strf("%s fault %d at %d:", bname[b], kind, at);
  rcmd = sstep = sbind = 0; if (b == RED) { rfault_at = at; rfault = kind; } else if (kind == 3) bfault_at = at; else { sfault_at = at; static const int e[] = {SQLITE_BUSY, SQLITE_IOERR, SQLITE_FULL}; sfault = e[kind]; }
  for (int i = 0; i < n; i++) { int op = choose(3); if (i == 1) mc::shard(); d += mc::strf(" %d", op); mc::note("%s", d.c_str()); auto &may = model["id"];
    if (op == 0) { onion_dict *y = onion_dict_new(); Data m; m["k"] = mc::strf("%d", i); onion_dict_add(y, "k", m["k"].c_str(), OD_DUP_ALL); onion_sessions_save(s, "id", y); onion_dict_free(y); may.insert(txt(m)); if (b == RED ? rcmd <= rfault_at || rfault_at < 0 : sstep <= sfault_at && sbind <= bfault_at) may = {txt(m)}; else may.insert(txt(m)); }
    else if (op == 1) { onion_sessions_remove(s, "id"); may.insert("-"); } else { bool e; Data g = load(s, "id", e); string t = e ? txt(g) : "-"; if (!may.count(t) && e) fail("%s: it has %s", d.c_str(), t.c_str()); } }
  rfault_at = sfault_at = bfault_at = -1; endstore(s); s = mkstore(b); if (!s) fail("cannot reopen"); for (auto &m : model) { bool e; Data g = load(s, m.first, e); string t = e ? txt(g) : "-"; if (!m.second.count(t)) fail("%s: session %s has %s", d.c_str(), m.first.c_str(), t.c_str()); }
  endstore(s); if (rctx || rreplies || dbs) fail("not everything is released: %d connections, %d replies, %d databases", rctx, rreplies, dbs); mc::outcome(d);
}
static void unavailable() { int b = 1 + choose(2), k = choose(3); mc::shard(); fresh(); onion_sessions *s; if (b == SQL) { static const char *bad[] = {"/nonexistent/dir/x.db", "/", "@"}; string f = bad[k]; if (k == 2) { f = mc::scratch() + "/notdb"; spit(f, string(5000, 'j')); } s = onion_sessions_sqlite3_new(f.c_str()); } else { conn_fault = 1 + k % 2; s = onion_sessions_redis_new("127.0.0.1", 1); conn_fault = 0; } if (s) fail("a backend that is not available was created"); if (rctx || dbs) fail("something is left open"); s = onion_sessions_mem_new(); char *i = onion_sessions_create(s); if (!i) fail("sessions do not work"); onion_low_free(i); endstore(s); mc::outcome(mc::strf("%d %d", b, k)); }
int main(int c, char **v) {
  mc::rule("backend x all histories of create/remove/change/save/replace/reopen over two sessions (two open backends on the same storage too), texts of ids, keys and values, sizes, one failing storage call at each position; non-trivial: each execution compares all the sessions with a map");
  mc::assume("redis is an in-process model of HEXISTS, HGET, HSET, HDEL (and GET, SET, DEL, EXISTS) fed with what the real hiredis formats; sqlite3 is the real one with synchronous=OFF");
  mc::add("histories", histories); mc::add("contents", contents); mc::add("lengths", lengths); mc::add("many", many); mc::add("faults", faults); mc::add("unavailable", unavailable); return mc::main(c, v);
}
