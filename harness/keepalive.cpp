// P07: each request on a kept connection is handled as if it were alone, and gets exactly one answer with the right status.
#include "corpus.hpp"
#include "onion/sessions.h"
#include <time.h>
using namespace onh; using mc::choose;
extern "C" time_t __wrap_time(time_t *t) { if (t) *t = 1700000000; return 1700000000; }
struct K { const char *name; string wire; int code; bool head; bool keep; };
static vector<K> ks; static Server *sv; static vector<string> seen; static string sid; static bool custom;
static int on_request(onion_request *req, onion_response *res) {
  Seen s = observe(req); string t = s.text(); const char *p = onion_request_get_path(req);
  if (!strncmp(p, "session", 7)) { const char *u = onion_request_get_session(req, "user"); t += string("session ") + (u ? u : "(none)") + "\n"; onion_request_session_free(req); if (!strcmp(p, "session/keep")) {} }
  if (!strncmp(p, "peek", 4)) { onion_dict *d = onion_request_get_session_dict(req); const char *u = onion_dict_get(d, "user"); t += string("session ") + (u ? u : "(none)") + "\n"; }
  seen.push_back(t);
  if (!strncmp(p, "e", 1)) { switch (p[1]) { case '0': return OCS_NOT_PROCESSED; case '5': return OCS_INTERNAL_ERROR; case '1': return OCS_NOT_IMPLEMENTED; case '3': return OCS_FORBIDDEN; case 'c': onion_response_set_code(res, 418); onion_response_write0(res, "tea"); return OCS_CLOSE_CONNECTION; case 'k': onion_response_write0(res, "keep"); return OCS_KEEP_ALIVE; } }
  if (!strncmp(p, "adv", 3)) onion_request_advance_path(req, 3);
  if (!strncmp(p, "hdr", 3)) { onion_response_set_header(res, "X-Mine", "1"); onion_response_set_code(res, 201); }
  if (!strncmp(p, "big", 3)) { for (int i = 0; i < 400; i++) onion_response_write0(res, "0123456789"); return OCS_PROCESSED; }
  onion_response_write0(res, "body of "); onion_response_write0(res, onion_request_get_fullpath(req)); return OCS_PROCESSED;
}
static int on_error(void *, onion_request *req, onion_response *res) { onion_response_set_code(res, 503); onion_response_printf(res, "custom %x", onion_request_get_flags(req) & 0xf000); return OCS_PROCESSED; }
static void init() {
  sv = new Server(on_request); ks.clear(); sid = onion_sessions_create(sv->o->sessions); onion_dict *d = onion_sessions_get(sv->o->sessions, sid.c_str()); onion_dict_add(d, "user", "alice", OD_DUP_ALL); onion_sessions_save(sv->o->sessions, sid.c_str(), d); onion_dict_free(d);
  auto add = [](const char *n, const string &w, int code, bool keep = true, bool head = false) { ks.push_back({n, w, code, head, keep}); };
  add("get", "GET /a?x=1&y=2 HTTP/1.1\r\nHost: a\r\nX-Long: " + rep("z", 50) + "\r\n\r\n", 200);
  add("bare", "GET / HTTP/1.1\r\n\r\n", 200); add("head", "HEAD /h HTTP/1.1\r\nCookie: a=b; c=d\r\n\r\n", 200, true, true);
  add("http10", "GET /old HTTP/1.0\r\nConnection: Keep-Alive\r\n\r\n", 200); add("http10close", "GET /old HTTP/1.0\r\n\r\n", 200, false);
  add("form", with_body("", "POST /f HTTP/1.1", "Content-Type: application/x-www-form-urlencoded\r\n", "a=b&c=d").wire, 200);
  add("multipart", post_multipart("", "b", "b", {part("Content-Disposition: form-data; name=\"n\"", "v"), part("Content-Disposition: form-data; name=\"f\"; filename=\"g\"", "file")}).wire, 200);
  add("put", with_body("", "PUT /p HTTP/1.1", "", "content").wire, 200); add("data", with_body("", "POST /d HTTP/1.1", "Content-Type: text/x\r\n", "{data}").wire, 200);
  add("404", "GET /e0 HTTP/1.1\r\n\r\n", 404); add("500", "GET /e5 HTTP/1.1\r\n\r\n", 500); add("501", "GET /e1 HTTP/1.1\r\n\r\n", 501); add("403", "GET /e3 HTTP/1.1\r\n\r\n", 403); add("head404", "HEAD /e0 HTTP/1.1\r\n\r\n", 404, true, true);
  add("close", "GET /c HTTP/1.1\r\nConnection: close\r\n\r\n", 200, false); add("wants-close", "GET /ec HTTP/1.1\r\n\r\n", 418, false); add("keeps", "GET /ek HTTP/1.1\r\n\r\n", 200);
  add("peek-alice", "GET /peek HTTP/1.1\r\nCookie: sessionid=" + sid + "\r\n\r\n", 200); add("peek-nobody", "GET /peek HTTP/1.1\r\n\r\n", 200); add("peek-wrong", "GET /peek HTTP/1.1\r\nCookie: sessionid=nosuch\r\n\r\n", 200);
  add("advance", "GET /advance HTTP/1.1\r\n\r\n", 200); add("headers", "GET /hdr HTTP/1.1\r\nA: b\r\n c\r\n\r\n", 201); add("big", "GET /big HTTP/1.1\r\n\r\n", 200);
}
static std::map<int, std::pair<string, string>> alone;
static string norm(string s) { size_t p = 0; while ((p = s.find("sessionid=", p)) != string::npos) { size_t e = s.find(';', p); s.replace(p, e - p, "SID"); p++; } return s; }
static std::pair<string, string> &solo(int k) { auto it = alone.find(k); if (it != alone.end()) return it->second; seen.clear(); Conn c(*sv); c.feed(ks[k].wire); c.close(); if (seen.size() != 1) fail("%s alone: %zu requests", ks[k].name, seen.size()); return alone[k] = {seen[0], norm(c.out)}; }
static void histories(int depth) {
  int unit = choose(3); vector<int> h; for (int i = 0; i < depth; i++) { int k = choose(ks.size() + 1); if (i == 1) mc::shard(); if (!k) { if (i < 1) mc::shard(); break; } h.push_back(k - 1); if (!ks[k - 1].keep) { if (i == 0) mc::shard(); break; } }
  string n; for (int k : h) n += string(ks[k].name) + " "; mc::note("%s pieces %d", n.c_str(), unit); for (int k : h) solo(k);
  int fds = mc::open_fds(); { Conn c(*sv);
  for (size_t i = 0; i < h.size(); i++) {
    const K &k = ks[h[i]]; seen.clear(); size_t off = c.out.size(); bool a = true; if (unit == 0) a = c.feed(k.wire); else for (size_t p = 0; p < k.wire.size() && a; p += unit == 1 ? 1 : 64) a = c.feed(k.wire.substr(p, unit == 1 ? 1 : 64));
    if (seen.size() != 1) fail("request %zu (%s) reached the handler %zu times", i, k.name, seen.size());
    if (seen[0] != solo(h[i]).first) fail("request %zu (%s) is seen differently after the others:\n%s\nalone:\n%s", i, k.name, seen[0].c_str(), solo(h[i]).first.c_str());
    if (a != k.keep) fail("request %zu (%s): the connection is %s", i, k.name, a ? "kept" : "closed");
    Resp r = parse_response(c.out, off, k.head, !a); if (!r.err.empty() || r.incomplete) fail("request %zu (%s): bad answer %s", i, k.name, esc(c.out.substr(off)).c_str()); if (r.used != c.out.size()) fail("request %zu (%s): more than one answer: %s", i, k.name, esc(c.out.substr(off)).c_str());
    if (r.code != k.code) fail("request %zu (%s): status %d, expected %d", i, k.name, r.code, k.code);
    if (norm(c.out.substr(off)) != solo(h[i]).second) fail("request %zu (%s) is answered differently after the others:\n%s\nalone:\n%s", i, k.name, c.out.substr(off).c_str(), solo(h[i]).second.c_str());
    string l = tmp_left(); tmp_reset(); if (!l.empty()) fail("temporary file %s left after request %zu", l.c_str(), i);
  } }
  if (mc::open_fds() != fds) fail("descriptors leaked"); mc::outcome(n);
}
static void h3() { histories(mc::thorough() ? 4 : 3); }
static void statuses() { // every status a handler can return x with or without its own error handler x method
  static const struct { int hs; int code; unsigned flag; } T[] = {{OCS_NOT_PROCESSED, 404, OR_NOT_FOUND}, {OCS_INTERNAL_ERROR, 500, OR_INTERNAL_ERROR}, {OCS_NOT_IMPLEMENTED, 501, OR_NOT_IMPLEMENTED}, {OCS_FORBIDDEN, 403, OR_FORBIDDEN}}; static const char *me[] = {"GET", "HEAD", "POST", "DELETE", "OPTIONS"}; static const char *ve[] = {"HTTP/1.1", "HTTP/1.0"};
  int t = choose(4), cu = choose(2), m = choose(5), v = choose(2); mc::shard(); int setcode = choose(2); Server s([&](onion_request *, onion_response *res) -> int { if (setcode) onion_response_set_header(res, "X", "y"); return T[t].hs; }); if (cu) onion_set_internal_error_handler(s.o, onion_handler_new((onion_handler_handler)on_error, nullptr, nullptr));
  Conn c(s); bool a = c.feed(string(me[m]) + " /x " + ve[v] + "\r\nContent-Length: 0\r\n\r\n"); mc::note("%s %s returns %d", me[m], ve[v], T[t].hs); Resp r = parse_response(c.out, 0, m == 1, !a); if (!r.err.empty() || r.incomplete || r.used != c.out.size()) fail("bad answer %s", esc(c.out).c_str());
  int e = cu ? 503 : T[t].code; if (r.code != e) fail("status %d, expected %d", r.code, e); if (cu && m != 1 && r.body != mc::strf("custom %x", T[t].flag)) fail("the error handler was told %s", r.body.c_str()); mc::outcome(mc::strf("%d %d", r.code, m));
}
int main(int argc, char **argv) {
  mc::rule("histories of requests of every kind on one connection; each must be seen and answered as when sent alone");
  mc::add("histories of requests", h3, true, init); mc::add("statuses", statuses, true, init); return mc::main(argc, argv);
}
