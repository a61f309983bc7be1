// P20: a client gets its own session data back, and nobody else's: only the session cookie selects the session, unknown or invented ids never do,
// ids are hard to guess, and sessions end when emptied or released.
#include "onh.hpp"
#include <gnutls/crypto.h>
extern "C" {
#include "onion/sessions.h"
#include "onion/sessions_mem.h"
onion_sessions *onion_sessions_sqlite3_new(const char *);
#include "onion/random.h"
}
using namespace onh; using mc::choose;
// ---- the source of randomness is ours ----
static int rnd_mode; static unsigned char rnd_base, rnd_val; static int rnd_pos; static uint64_t rnd_ctr; static size_t rnd_asked;
extern "C" int __wrap_gnutls_rnd(gnutls_rnd_level_t, void *data, size_t n) { unsigned char *p = (unsigned char *)data; rnd_asked += n; if (rnd_mode == 1) { for (size_t i = 0; i < n; i++) p[i] = (int)i == rnd_pos ? rnd_val : rnd_base; } else for (size_t i = 0; i < n; i++) { uint64_t c = ++rnd_ctr; c ^= c >> 33; c *= 0xff51afd7ed558ccdull; c ^= c >> 33; c *= 0xc4ceb9fe1a85ec53ull; c ^= c >> 33; p[i] = c; } return 0; }
static Server *sv; static std::function<int(onion_request *, onion_response *)> fn; static int on_request(onion_request *q, onion_response *r) { auto f = fn; return f(q, r); }
static string dbfile; static int backend;
static void init_mem() { sv = new Server(on_request); backend = 0; }
static void init_sql() { sv = new Server(on_request); backend = 1; dbfile = mc::scratch() + "/h.db"; unlink(dbfile.c_str()); onion_sessions *s = onion_sessions_sqlite3_new(":memory:"); if (!s) fail("no sqlite"); onion_set_session_backend(sv->o, s); }
static Resp http(const string &cookie_lines, std::function<int(onion_request *, onion_response *)> f, Conn *keep = nullptr, const char *method = "GET") { fn = f; auto go = [&](Conn &c) { size_t o = c.out.size(); c.feed(string(method) + " / HTTP/1.1\r\n" + cookie_lines + "\r\n"); Resp r = parse_response(c.out, o, false, !c.open); if (!r.err.empty() || r.incomplete) fail("malformed answer (%s): %s", r.err.c_str(), esc(c.out.substr(o)).c_str()); return r; }; if (keep) return go(*keep); Conn c(*sv); return go(c); }
static string set_cookie(const Resp &r) { if (r.count("Set-Cookie") > 1) fail("%d Set-Cookie lines", r.count("Set-Cookie")); const string *s = r.get("Set-Cookie"); if (!s) return ""; if (s->compare(0, 10, "sessionid=")) fail("cookie is %s", s->c_str()); size_t e = s->find(';'); string a = s->substr(10, e - 10); string low = *s; for (auto &c : low) c = tolower(c); if (low.find("httponly") == string::npos) fail("the session cookie is readable by scripts: %s", s->c_str()); if (low.find("path=/") == string::npos) fail("the session cookie is not for all the site: %s", s->c_str()); return a; }
static void valid_id(const string &id) { if (id.size() < 16) fail("session id %s is too short", esc(id).c_str()); for (unsigned char c : id) if (!isalnum(c)) fail("session id %s has strange characters", esc(id).c_str()); }
static string make(const string &val) { Resp r = http("", [&](onion_request *q, onion_response *) { onion_dict_add(onion_request_get_session_dict(q), "k", val.c_str(), OD_DUP_ALL | OD_REPLACE); return OCS_PROCESSED; }); string id = set_cookie(r); if (id.empty()) fail("no session cookie"); valid_id(id); return id; }
static string value_for(const string &lines) { string v = "(none)"; http(lines, [&](onion_request *q, onion_response *) { const char *x = onion_request_get_session(q, "k"); if (x) v = x; return OCS_PROCESSED; }); return v; }
static void drop(const string &id) { http("Cookie: sessionid=" + id + "\r\n", [&](onion_request *q, onion_response *) { onion_request_session_free(q); return OCS_PROCESSED; }); }
static size_t stored() { return backend ? 0 : onion_dict_count((onion_dict *)sv->o->sessions->data); }
// the cookie header: any list of pieces. Reference: split at ';', the cookies named exactly sessionid, first one that exists
static void cookie_text() {
  static string A, B; if (A.empty()) { A = make("A"); B = make("B"); }
  static const vector<string> tok = {"sessionid=", "sessionid", "x", "_", ";", "; ", "=", " ", "@A", "@B", "\"", ",", "SessionId=", "nope"}; int n = mc::thorough() ? 6 : 5; int k = choose(tok.size()), k2 = choose(tok.size()); mc::shard(); size_t cnt = 0;
  for (int L = 0; L <= n - 2; L++) { vector<int> ix(L, 0); while (true) { string c = tok[k] + tok[k2]; for (int i : ix) c += tok[i]; string e; for (size_t p = 0; p < c.size(); p++) if (c[p] == '@') { e += c[p + 1] == 'A' ? A : B; p++; } else e += c[p]; mc::note("Cookie: %s", c.c_str());
      string want = "(none)"; string h = e; size_t f = h.find_first_not_of(' '); h = f == string::npos ? "" : h.substr(f);
      bool undecided = false; for (size_t p = 0; p <= h.size();) { size_t q = h.find(';', p); if (q == string::npos) q = h.size(); string t = h.substr(p, q - p); size_t g = t.find_first_not_of(' '); t = g == string::npos ? "" : t.substr(g); if (t.compare(0, 10, "sessionid=") == 0) { string v = t.substr(10); string tr = v; while (!tr.empty() && tr.back() == ' ') tr.pop_back(); if (v == A || v == B) { want = v == A ? "A" : "B"; break; } if (tr != v && (tr == A || tr == B)) { undecided = true; break; } if (v.size() > 1 && v[0] == '"' && v.back() == '"' && (v.substr(1, v.size() - 2) == A || v.substr(1, v.size() - 2) == B)) { undecided = true; break; } } p = q + 1; }
      if (!undecided) { string got = value_for("Cookie: " + e + "\r\n"); if (got != want) fail("Cookie: %s selects session %s, expected %s", c.c_str(), got.c_str(), want.c_str()); } cnt++; mc::state(mc::hash(c));
      int i = L - 1; while (i >= 0 && ++ix[i] == (int)tok.size()) ix[i--] = 0; if (i < 0) break; } }
  if (!backend && stored() != 2) fail("%zu sessions are stored, there should be 2", stored()); mc::outcome(mc::strf("%d %d %zu", k, k2, cnt));
}
// every single edit of a valid id is not a valid id
static void forged() { static string A; if (A.empty()) A = make("A"); int pos = choose(A.size() + 1), kind = choose(4); mc::shard(); for (int b = kind == 0 || kind == 3 ? 255 : 1; b < 256; b++) { if (b == '\r' || b == '\n' || b == ';') continue; string e = A; if (kind == 0) e = A.substr(0, pos); else if (kind == 1) { if (pos >= (int)A.size()) break; e[pos] = b; } else if (kind == 2) e.insert(pos, 1, b); else e = A.substr(pos); if (e == A) continue; string tr = e; while (!tr.empty() && (tr.back() == ' ' || tr.back() == '\t')) tr.pop_back(); if (tr == A) continue; mc::note("id %s, valid %s", esc(e).c_str(), A.c_str()); string got = value_for("Cookie: sessionid=" + e + "\r\n"); if (got != "(none)") fail("the id %s gives the session of %s", esc(e).c_str(), A.c_str()); mc::state(mc::hash(e)); } if (value_for("Cookie: sessionid=" + A + "\r\n") != "A") fail("the session was lost"); if (!backend && stored() != 1) fail("%zu sessions are stored, there should be 1", stored()); mc::outcome(mc::strf("%d %d", pos, kind)); }
// the id depends on all the random bytes, evenly
static void ids() { rnd_mode = 0; int pos = choose(32); static const unsigned char bases[] = {0, 0x80, 0xff, 61}; int b = choose(4); mc::shard(); rnd_mode = 1; rnd_base = bases[b]; rnd_pos = pos; std::map<string, int> seen; std::map<char, int> at; rnd_asked = 0; string first;
  for (int v = 0; v < 256; v++) { rnd_val = v; mc::note("random byte %d is %d, the others %d", pos, v, rnd_base); char *x = nullptr; onion_sessions *s = onion_sessions_mem_new(); x = onion_sessions_create(s); string id = x; onion_low_free(x); onion_sessions_free(s); valid_id(id); seen[id]++; } rnd_mode = 0;
  if (rnd_asked < 256 * 16) fail("an id is made of only %zu random bytes", rnd_asked / 256); if (pos < (int)(rnd_asked / 256)) { if (seen.size() < 62) fail("256 values of random byte %d give only %zu different ids", pos, seen.size()); int mx = 0; for (auto &x : seen) mx = std::max(mx, x.second); if (mx > 2 * 256 / (int)seen.size() + 1) fail("an id is %d times more likely than it should", mx); } mc::outcome(mc::strf("%d %d", pos, b)); }
// histories of browsers over kept connections: write, read, remove the key, release, ask for the session and leave it empty, do not touch it
static void histories() {
  int n = mc::thorough() ? 6 : 5; if (!backend && stored() != 0) { /* left by an abandoned prefix */ onion_set_session_backend(sv->o, onion_sessions_mem_new()); } struct Br { string id; } br[2]; std::map<string, std::map<string, string>> model; std::set<string> all; string d; { Conn c0(*sv), c1(*sv); Conn *cn[2] = {&c0, &c1};
  for (int i = 0; i < n; i++) {
    int w = i == 0 ? 0 : choose(2), op = choose(7); if (i == 2) mc::shard(); d += mc::strf("%c%d ", 'A' + w, op); mc::note("%s", d.c_str()); string cookie = br[w].id; if (op == 6) cookie = br[1 - w].id; // the other's cookie: it is the other's session
    string line = cookie.empty() ? "" : "Cookie: a=b; sessionid=" + cookie + "\r\n"; auto it = model.find(cookie); std::map<string, string> now = it == model.end() ? std::map<string, string>() : it->second; string seen = "(null)"; bool asked = false; string val = mc::strf("%d", i); string inid;
    Resp r = http(line, [&](onion_request *q, onion_response *res) { auto look = [&] { asked = true; const char *x = onion_request_get_session(q, "k"); seen = x ? x : "(null)"; const char *o = onion_request_get_session(q, "o"); string oo = o ? o : "(null)"; string wo = now.count("o") ? now["o"] : "(null)"; if (oo != wo) fail("%s: o is %s, expected %s", d.c_str(), oo.c_str(), wo.c_str()); };
      if (op == 0) { look(); onion_dict_add(onion_request_get_session_dict(q), "k", val.c_str(), OD_DUP_ALL | OD_REPLACE); } else if (op == 1 || op == 6) look(); else if (op == 2) { look(); onion_dict_remove(onion_request_get_session_dict(q), "k"); } else if (op == 3) { look(); onion_request_session_free(q); } else if (op == 4) { look(); onion_request_session_free(q); if (onion_request_get_session(q, "k")) fail("%s: a session just released has data", d.c_str()); onion_dict_add(onion_request_get_session_dict(q), "o", val.c_str(), OD_DUP_ALL | OD_REPLACE); } onion_response_write0(res, "x"); return OCS_PROCESSED; }, cn[w]);
    string sc = set_cookie(r); if (asked) { string ws = now.count("k") ? now["k"] : "(null)"; if (seen != ws) fail("%s: k is %s, expected %s", d.c_str(), seen.c_str(), ws.c_str()); }
    auto settle = [&](std::map<string, string> data, bool fresh) { if (data.empty()) { if (!sc.empty()) fail("%s: a cookie for an empty session", d.c_str()); model.erase(cookie); return; } if (sc.empty()) fail("%s: no cookie for the session", d.c_str()); valid_id(sc); if (!fresh && it != model.end()) { if (sc != cookie) fail("%s: the session changed its id", d.c_str()); } else { if (all.count(sc)) fail("%s: the new session has the id of an old one", d.c_str()); if (fresh) model.erase(cookie); } all.insert(sc); model[sc] = data; if (op != 6) br[w].id = sc; };
    if (op == 5) { if (!sc.empty()) fail("%s: a cookie for a request that did not use the session", d.c_str()); } else if (op == 0) { now["k"] = val; settle(now, false); } else if (op == 1 || op == 6) settle(now, false); else if (op == 2) { now.erase("k"); settle(now, false); } else if (op == 3) { settle({}, true); } else if (op == 4) { settle({{"o", val}}, true); }
  } }
  for (auto &i : all) { string v = value_for("Cookie: sessionid=" + i + "\r\n"); auto it = model.find(i); string wv = it == model.end() || !it->second.count("k") ? "(none)" : it->second["k"]; if (v != wv) fail("%s: at the end session has k=%s, expected %s", d.c_str(), v.c_str(), wv.c_str()); }
  if (!backend && stored() != model.size()) fail("%s: %zu sessions are stored, there should be %zu", d.c_str(), stored(), model.size()); for (auto &x : model) drop(x.first); mc::outcome(d);
}
// two requests of the same browser at the same time (mem backend shares the data live)
static void overlap() { if (backend) return; int a = choose(4), b = choose(4), order = choose(2); mc::shard(); if (stored()) onion_set_session_backend(sv->o, onion_sessions_mem_new()); string id = make("0"); string line = "Cookie: sessionid=" + id + "\r\n"; mc::note("%d while %d", b, a); auto act = [&](onion_request *q, int k) { onion_dict *s = onion_request_get_session_dict(q); if (k == 0) onion_dict_add(s, "a", "1", OD_DUP_ALL | OD_REPLACE); else if (k == 1) onion_dict_remove(s, "k"); else if (k == 2) onion_request_session_free(q); else (void)onion_request_get_session(q, "k"); };
  bool nested = false; http(line, [&](onion_request *q, onion_response *) { if (order) act(q, a); else (void)onion_request_get_session_dict(q); if (!nested) { nested = true; auto save = fn; http(line, [&](onion_request *q2, onion_response *) { act(q2, b); return OCS_PROCESSED; }); fn = save; } if (!order) act(q, a); return OCS_PROCESSED; });
  string v = value_for(line); if (v != "0" && v != "(none)") fail("the session has %s", v.c_str()); if (a != 1 && a != 2 && b != 1 && b != 2 && v != "0") fail("the session was lost"); if (b == 2 && a == 2 && v != "(none)") fail("the session survived"); drop(id); if (value_for(line) != "(none)") fail("released session is alive"); mc::outcome(mc::strf("%d %d %d", a, b, order)); }
// the storage can not create sessions: requests work, with no session
static onion_dict *nget(onion_sessions *, const char *) { return nullptr; } static void nsave(onion_sessions *, const char *, onion_dict *) {} static void nfree(onion_sessions *s) { onion_low_free(s); }
static void broken_store() { int k = choose(6); mc::shard(); Server s2(on_request); Server *keep = sv; sv = &s2; onion_sessions *n = (onion_sessions *)onion_low_calloc(1, sizeof(onion_sessions)); n->get = nget; n->save = nsave; n->free = nfree; onion_set_session_backend(s2.o, n); onion_random_init(); static size_t base; string id = "abcdefghijklmnopqrstuvwxyz012345"; for (int i = 0; i < 4; i++) { size_t m0 = mc::live_bytes(); { Resp r = http(k & 1 ? "Cookie: sessionid=" + id + "\r\n" : "", [&](onion_request *q, onion_response *) { if (k / 2 == 0) { if (onion_request_get_session_dict(q)) fail("a session"); } else if (k / 2 == 1) { if (onion_request_get_session(q, "k")) fail("data"); } else { onion_request_get_session_dict(q); onion_request_session_free(q); } return OCS_PROCESSED; }); if (!set_cookie(r).empty()) fail("cookie for a session that does not exist"); } fn = nullptr; if (i > 1 && mc::live_bytes() > m0 + 20) fail("each request leaks %zu bytes", mc::live_bytes() - m0); } sv = keep; mc::outcome(mc::strf("%d", k)); }
int main(int c, char **v) {
  mc::rule("Cookie headers made of all the sequences of tokens, every single edit of a session id, every value of every random byte, histories of two browsers on kept connections for the memory and sqlite3 backends, nested requests; non-trivial: each execution compares session contents with a map, and the stored sessions with the ones that should exist");
  mc::assume("gnutls_rnd is the only source of randomness and is replaced by a counter-based generator or by chosen bytes");
  mc::add("cookie text", cookie_text, true, init_mem); mc::add("forged ids", forged, true, init_mem); mc::add("random ids", ids, true, init_mem); mc::add("histories, memory", histories, true, init_mem); mc::add("histories, sqlite3", histories, true, init_sql); mc::add("forged ids, sqlite3", forged, true, init_sql); mc::add("overlapping requests", overlap, true, init_mem); mc::add("broken storage", broken_store, true, init_mem); return mc::main(c, v);
}
