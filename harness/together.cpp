// P27: requests attended at the same time do not mix
#include "srv.hpp"
#include <map>
#include <unistd.h>
#include <sys/stat.h>
#include <dirent.h>
#include <fcntl.h>
extern "C" {
#include "onion/shortcuts.h"
#include "onion/url.h"
}
static string fdir; // a file for each client, with its own size, date and type
static void put(onion_response *r, const string &s) { onion_response_set_length(r, s.size()); onion_response_write(r, s.data(), s.size()); }
static string S(const char *s) { return s ? s : "(none)"; }
static int handler(onion_request *q, onion_response *r) {
  string p = onion_request_get_fullpath(q);
  if (p == "/q") { put(r, "q " + S(onion_request_get_query(q, "x")) + " " + S(onion_request_get_header(q, "X-Me")) + " " + S(onion_request_get_cookie(q, "c"))); return OCS_PROCESSED; }
  if (p == "/p") { put(r, "p " + S(onion_request_get_post(q, "a")) + " " + S(onion_request_get_post(q, "b"))); return OCS_PROCESSED; }
  if (p == "/f") { const char *f = onion_request_get_file(q, "up"); string d = "(none)"; if (f) { FILE *x = fopen(f, "r"); if (!x) fail("the uploaded file is not there"); char b[200]; d.assign(b, fread(b, 1, sizeof b, x)); fclose(x); } put(r, "f " + d + " " + S(onion_request_get_post(q, "up"))); return OCS_PROCESSED; }
  if (p == "/set") { onion_dict *s = onion_request_get_session_dict(q); onion_dict_lock_write(s); onion_dict_add(s, onion_request_get_queryd(q, "k", "u"), onion_request_get_query(q, "x"), OD_DUP_ALL | OD_REPLACE); onion_dict_unlock(s); put(r, "set"); return OCS_PROCESSED; }
  if (p == "/del") { onion_dict *s = onion_request_get_session_dict(q); onion_dict_lock_write(s); onion_dict_remove(s, onion_request_get_queryd(q, "k", "u")); onion_dict_unlock(s); put(r, "del"); return OCS_PROCESSED; }
  if (p == "/get") { onion_dict *s = onion_request_get_session_dict(q); string d = "get"; onion_dict_lock_read(s); for (const char *k : {"u", "v", "w"}) d += " " + S(onion_dict_get(s, k)); onion_dict_unlock(s); put(r, d); return OCS_PROCESSED; }
  if (p == "/out") { onion_request_session_free(q); put(r, "out"); return OCS_PROCESSED; }
  if (p == "/m") { put(r, "m " + S(onion_mime_get("a.html")) + " " + S(onion_mime_get("a.png")) + " " + S(onion_mime_get("a.zz"))); return OCS_PROCESSED; }
  if (p == "/big") { string me = S(onion_request_get_query(q, "x")); for (int i = 0; i < 60; i++) onion_response_printf(r, "%s%039d", me.c_str(), i); return OCS_PROCESSED; }
  if (p == "/file") return (onion_connection_status)onion_shortcut_response_file((fdir + "/" + S(onion_request_get_query(q, "x"))).c_str(), q, r);
  if (p == "/cookie") { string m = S(onion_request_get_query(q, "x")); onion_response_add_cookie(r, "c", m.c_str(), m.size() * 1000, "/", nullptr, 0); put(r, "cookie"); return OCS_PROCESSED; }
  if (p == "/json") { onion_dict *d = onion_dict_new(); onion_dict_add(d, "x", S(onion_request_get_query(q, "x")).c_str(), OD_DUP_ALL); return (onion_connection_status)onion_shortcut_response_json(d, q, r); }
  return OCS_NOT_PROCESSED;
}
struct C { std::shared_ptr<vk::Client> c; Http h; string cookie, me, head; };
static void ask(C &c, const string &req, int want, const string &body, const char *type = nullptr) {
  if (!c.h.c) { c.h.c = vk::connect(8080); if (!c.h.c) fail("refused"); }
  vk::send(*c.h.c, req); int code; string hd, b; if (!c.h.answer(&code, &hd, &b)) fail("%s: no answer (%s)", c.me.c_str(), mc::esc(c.h.buf).c_str()); c.head = hd;
  if (code != want || (want / 100 == 2 && b != body)) fail("%s asked %s and is answered %d '%s'", c.me.c_str(), mc::esc(req.substr(0, 60)).c_str(), code, mc::esc(b.substr(0, 100)).c_str());
  if (type && hd.find(string("Content-Type: ") + type + "\r\n") == string::npos) fail("%s: the type is wrong: %s", c.me.c_str(), mc::esc(hd).c_str());
  size_t p = hd.find("Date: "); if (p == string::npos) fail("no date"); string d = hd.substr(p + 6, hd.find("\r\n", p) - p - 6); char w[64]; time_t t = sched::now() / 1000000000; struct tm tm; gmtime_r(&t, &tm); strftime(w, sizeof w, "%a, %d %b %Y %H:%M:%S GMT", &tm); if (d != w) fail("%s: the date is '%s', now it is '%s'", c.me.c_str(), d.c_str(), w);
  p = hd.find("Set-Cookie: sessionid="); if (p != string::npos) c.cookie = hd.substr(p + 22, hd.find_first_of(";\r", p + 22) - p - 22);
}
static string get(const string &url, const string &hd = "") { return "GET " + url + " HTTP/1.1\r\n" + hd + "\r\n"; }
static const char *KIND[] = {"query", "form", "upload", "session", "types", "long answer", "file", "not found", "json", "two queries", "cookie"};
static void act(C &c, int kind) {
  const string &m = c.me; string cookie;
  switch (kind) {
  case 0: ask(c, get("/q?x=" + m + "1", "X-Me: " + m + "2\r\nCookie: c=" + m + "3\r\n"), 200, "q " + m + "1 " + m + "2 " + m + "3"); break;
  case 1: { string b = "a=" + m + "1&b=" + m + "%202"; ask(c, "POST /p HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: " + std::to_string(b.size()) + "\r\n\r\n" + b, 200, "p " + m + "1 " + m + " 2"); break; }
  case 2: { string b = "--" + m + "\r\nContent-Disposition: form-data; name=\"up\"; filename=\"" + m + ".txt\"\r\n\r\ndata of " + m + "\r\n--" + m + "--\r\n"; ask(c, "POST /f HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=" + m + "\r\nContent-Length: " + std::to_string(b.size()) + "\r\n\r\n" + b, 200, "f data of " + m + " " + m + ".txt"); break; }
  case 3: ask(c, get("/set?x=" + m), 200, "set"); if (c.cookie.empty()) fail("%s: no session cookie", m.c_str()); cookie = c.cookie; ask(c, get("/get", "Cookie: sessionid=" + cookie + "\r\n"), 200, "get " + m + " (none) (none)"); break;
  case 4: ask(c, get("/m"), 200, "m text/html image/png text/plain"); break;
  case 5: { string w; for (int i = 0; i < 60; i++) w += strf("%s%039d", m.c_str(), i); ask(c, get("/big?x=" + m), 200, w); break; }
  case 6: { int n = m == "alice" ? 0 : m == "bob" ? 1 : 2; static const char *T[] = {"text/html", "image/png", "text/css"}, *X[] = {".html", ".png", ".css"}; string all = "content of the file of " + m; ask(c, get("/file?x=" + m + X[n]), 200, all, T[n]); size_t p = c.head.find("Etag: "); if (p == string::npos) fail("%s: no tag: %s", m.c_str(), mc::esc(c.head).c_str()); string e = c.head.substr(p + 6, c.head.find("\r\n", p) - p - 6); ask(c, get("/file?x=" + m + X[n], "If-None-Match: " + e + "\r\n"), 304, ""); ask(c, get("/file?x=" + m + X[n], strf("Range: bytes=%d-9\r\n", n)), 206, all.substr(n, 10 - n), T[n]); if (c.head.find(strf("Content-Range: bytes %d-9/%zu\r\n", n, all.size())) == string::npos) fail("%s: wrong range: %s", m.c_str(), mc::esc(c.head).c_str()); break; }
  case 7: ask(c, get("/nothing"), 404, ""); break;
  case 8: ask(c, get("/json?x=" + m), 200, "{\"x\":\"" + m + "\"}"); break;
  case 9: ask(c, get("/q?x=" + m + "1", "X-Me: " + m + "2\r\n"), 200, "q " + m + "1 " + m + "2 (none)"); ask(c, get("/q"), 200, "q (none) (none) (none)"); break;
  case 10: { ask(c, get("/cookie?x=" + m), 200, "cookie"); char b[64]; time_t t = sched::now() / 1000000000 + m.size() * 1000; struct tm tm; localtime_r(&t, &tm); strftime(b, sizeof b, "%a, %d %b %Y %H:%M:%S", &tm); if (c.head.find("Set-Cookie: c=" + m + "; expires=" + b) == string::npos) fail("%s: the cookie is wrong: %s (it should be %s)", m.c_str(), mc::esc(c.head).c_str(), b); break; }
  }
  if (kind != 3 && !c.cookie.empty()) fail("%s: a session it did not ask for", m.c_str());
}
static void init() { fdir = mc::scratch(); int n = 0; for (const char *f : {"alice.html", "bob.png", "carol.css"}) { string p = fdir + "/" + f; FILE *x = fopen(p.c_str(), "w"); fprintf(x, "content of the file of %.*s", (int)strcspn(f, "."), f); fclose(x); struct timespec t[2] = {{86400 * ++n, 0}, {86400 * n, 0}}; utimensat(AT_FDCWD, p.c_str(), t, 0); } }
static void serve(int threads, std::function<void()> body) {
  onion *o = new_server(threads > 1 ? O_POOL : O_POLL, threads, handler); onion_set_timeout(o, -1); int l = sched::spawn("listen", [o] { onion_listen(o); }); sched::wait_idle(); body(); onion_listen_stop(o); sched::join(l); onion_free(o); all_released("at the end");
}
static void several(int n, int threads, int budget) {
  vector<int> k; string key = strf("%d threads:", threads); for (int i = 0; i < n; i++) { k.push_back(choose(11)); if (i && k[i] < k[i - 1]) mc::prune(); key += string(i ? " | " : " ") + KIND[k[i]]; } mc::note("%s", key.c_str());
  sched::explore(key, budget, [&] { serve(threads, [&] { vector<C> c(n); vector<int> f; for (int i = 0; i < n; i++) { c[i].me = i == 0 ? "alice" : i == 1 ? "bob" : "carol"; f.push_back(sched::spawn(c[i].me.c_str(), [&c, &k, i] { act(c[i], k[i]); vk::close(*c[i].h.c); })); } for (int x : f) sched::join(x); if (n > 1 && !c[0].cookie.empty() && c[0].cookie == c[1].cookie) fail("two clients have the same session"); }); }, true); mc::outcome(key);
}
// requests of the same session at once; u and v are there before
static void session() {
  static const char *R[] = {"/set?k=w&x=1", "/set?k=u&x=2", "/del?k=v", "/get", "/q?x=1", "/del?k=u"}; int n = 2 + choose(2); if (n == 3 && !mc::thorough()) mc::prune(); vector<int> k; string key = "same session:"; for (int i = 0; i < n; i++) { k.push_back(choose(6)); if (i && k[i] < k[i - 1]) mc::prune(); key += string(i ? " | " : " ") + R[k[i]]; } mc::note("%s", key.c_str());
  int du = 0, dv = 0; for (int x : k) { du += x == 5; dv += x == 2; } if (du && dv) mc::prune(); // emptied meanwhile: gone
  sched::explore(key, 2, [&] { serve(2, [&] { C a; a.me = "alice"; ask(a, get("/set?k=u&x=0"), 200, "set"); string ck = "Cookie: sessionid=" + a.cookie + "\r\n"; ask(a, get("/set?k=v&x=0", ck), 200, "set"); vector<C> c(n); vector<int> f;
    for (int i = 0; i < n; i++) { c[i].me = strf("window %d", i); f.push_back(sched::spawn(c[i].me.c_str(), [&c, &k, i, ck] { C &x = c[i]; x.h.c = vk::connect(8080); vk::send(*x.h.c, get(R[k[i]], ck)); int code; string h, b; if (!x.h.answer(&code, &h, &b) || code != 200) fail("no answer"); if (h.find("Set-Cookie: sessionid=") != string::npos && h.find(ck.substr(18, 20)) == string::npos) fail("it got another session"); vk::close(*x.h.c); })); }
    for (int x : f) sched::join(x); sched::wait_idle(); // the sessions are kept once the answers are done
    string u = "0", v = dv ? "(none)" : "0", w = "(none)"; for (int x : k) { if (x == 0) w = "1"; } bool s = false; for (int x : k) s |= x == 1; int code; string h, b; vk::send(*a.h.c, get("/get", ck)); if (!a.h.answer(&code, &h, &b)) fail("no answer"); vector<string> ok; if (s && du) { ok = {"2", "(none)"}; } else if (s) ok = {"2"}; else if (du) ok = {"(none)"}; else ok = {"0"}; bool good = false; for (auto &x : ok) good |= b == "get " + x + " " + v + " " + w; if (!good) fail("at the end the session has '%s'", b.c_str()); vk::close(*a.h.c); }); }, true); mc::outcome(key);
}
int main(int c, char **v) {
  mc::rule("Two (or three) clients that send any of eleven kinds of requests at the same time to a server with several threads, also requests of the same session; every schedule within the bound on deviations. Each answer must be the one the request would get alone. Distinct: combinations of requests.");
  mc::assume("Sequentially consistent memory; kernel calls are atomic; the clock moves only when nothing can run.");
  mc::add("two clients", [] { several(2, 2, 2); }, true, init); mc::add("two clients, three threads", [] { several(2, 3, 2); }, false, init); mc::add("three clients", [] { several(3, 3, 1); }, true, init); mc::add("same session", session, true, init);
  return mc::main(c, v);
}
