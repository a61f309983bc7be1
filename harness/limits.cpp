// P04: the configured maximum sizes of posts and files are enforced exactly, before the data is stored or a handler sees it.
#include "corpus.hpp"
using namespace onh; using mc::choose;
static Server *sv; static vector<Seen> got;
static int on_request(onion_request *req, onion_response *res) { got.push_back(observe(req)); onion_response_write0(res, "ok"); return OCS_PROCESSED; }
static void init() { sv = new Server(on_request); tmp_made.reserve(1000); }
static const string CD = "Content-Disposition: form-data; ";
static size_t disk() { size_t t = 0; struct stat st; for (auto &f : tmp_made) if (stat(f.c_str(), &st) == 0) t += st.st_size; return t; }
// sends w; watches memory and disk all the time
static bool deliver(const string &w, int unit, size_t post, size_t file, size_t slack = 30000) {
  got.clear(); onion_set_max_post_size(sv->o, post); onion_set_max_file_size(sv->o, file); size_t base = mc::live_bytes();
  { Conn c(*sv); c.in.reserve(2000); c.out.reserve(4000); bool a = true; for (size_t i = 0; i < w.size() && a; i += unit) { a = c.feed(w.substr(i, unit)); if (!got.empty()) break; size_t m = mc::live_bytes() - base; if (m > 3 * post + slack) fail("%zu bytes of memory in use with a limit of %zu", m, post); if (disk() > file) fail("%zu bytes in temporary files with a limit of %zu", disk(), file); }
    if (got.empty() && a) fail("the request is complete, and is neither refused nor handled"); if (got.empty() && c.open) fail("refused, and the connection is left open"); }
  tmp_reset(); return !got.empty();
}
static void single() { // one body with a declared length
  static const int lim[] = {0, 1, 2, 7, 16, 100, 1499, 1500, 1501, 5000}; int li = choose(10), kind = choose(4); int lo = std::max(0, lim[li] - 4), L = lo + choose(9); mc::shard(); static const int us[] = {1500, 1, 7, 100000}; int unit = us[choose(4)]; int hint = choose(2); string body(L, 'x'); if (L > 2) body[1] = '=';
  static const char *h[] = {"POST /p HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\n", "POST /p HTTP/1.1\r\nContent-Type: application/json\r\n", "PUT /p HTTP/1.1\r\n", "PROPFIND /p HTTP/1.1\r\n"};
  mc::note("kind %d length %d limit %d pieces of %d", kind, L, lim[li], unit); size_t other = hint ? 1000000 : 0; size_t mem = kind == 2 ? other : lim[li], fil = kind == 2 ? lim[li] : other;
  bool r = deliver(string(h[kind]) + "Content-Length: " + std::to_string(L) + "\r\n\r\n" + body, unit, mem, fil);
  if (r != (L <= lim[li])) fail("a body of %d bytes with a limit of %d was %s", L, lim[li], r ? "accepted" : "refused"); mc::outcome(mc::strf("%d %d", kind, r));
  if (r && kind == 2 && got[0].files[0].second != body) fail("the content is wrong"); if (r && L && (kind == 1 || kind == 3) && got[0].data != body) fail("the content is wrong");
}
static void huge() { // far more data than allowed, declared or not
  static const char *cl[] = {"1000000", "4294967296", "4294967297", "2147483648", "9223372036854775807", "1099511627776", "-1", "-5", "18446744073709551615"}; int c = choose(9), kind = choose(4); mc::shard(); int lim = 1 + choose(3) * 700;
  static const char *h[] = {"POST /p HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\n", "POST /p HTTP/1.1\r\nContent-Type: application/json\r\n", "PUT /p HTTP/1.1\r\n", "PATCH /p HTTP/1.1\r\n"}; mc::note("kind %d Content-Length %s limit %d", kind, cl[c], lim);
  got.clear(); onion_set_max_post_size(sv->o, lim); onion_set_max_file_size(sv->o, lim); size_t base = mc::live_bytes(); string z(1500, 'z');
  { Conn co(*sv); co.in.reserve(2000); co.out.reserve(9000); bool a = co.feed(string(h[kind]) + "Content-Length: " + cl[c] + "\r\n\r\n"); for (int i = 0; i < 40 && a; i++) { a = co.feed(z); if (mc::live_bytes() - base > (size_t)3 * lim + 30000) fail("memory in use grows over the limit"); if (disk() > (size_t)lim) fail("temporary files grow over the limit"); }
    if (*cl[c] != '-' && a) fail("a declared length over the limit is not refused"); }
  for (auto &g : got) { if (*cl[c] != '-') fail("a handler was called"); if (g.data.size() > (size_t)lim) fail("a handler got %zu bytes with a limit of %d", g.data.size(), lim); } tmp_reset(); mc::outcome(mc::strf("%d %zu", kind, got.size()));
}
static void fields() { // multipart fields: their total is limited
  static const int lim[] = {0, 1, 10, 50, 200, 1600}; int li = choose(6); int n = 1 + choose(3); int tot = std::max(0, lim[li] - 30) + choose(64); mc::shard(); static const int us[] = {1500, 1, 13}; int unit = us[choose(3)]; int asfile = choose(2);
  vector<string> ps; size_t left = tot, names = 0; for (int i = 0; i < n; i++) { size_t k = i == n - 1 ? left : tot / n; left -= k; string nm = mc::strf("n%d", i); ps.push_back(part(CD + "name=\"" + nm + "\"", string(k, 'v'))); names += nm.size() + 2; } if (asfile) { ps.insert(ps.begin(), part(CD + "name=\"f\"; filename=\"g\"", string(300, 'F'))); names += 4; }
  Msg m = post_multipart("", "b", "b", ps); mc::note("%d fields, %d bytes, limit %d, pieces of %d", n, tot, lim[li], unit); bool r = deliver(m.wire, unit, lim[li], 300);
  if (r && tot > lim[li]) fail("fields of %d bytes with a limit of %d were accepted", tot, lim[li]); if (!r && tot + (int)names <= lim[li]) fail("fields of %d bytes with a limit of %d were refused", tot, lim[li]); mc::outcome(mc::strf("%d %d", n, r));
  if (r) { size_t t = 0; for (auto &e : got[0].post) t += e.second.size(); if (t != (size_t)tot + asfile) fail("%zu bytes of fields arrived, not %d", t, tot); }
}
static void files() { // files in a post: their total is limited
  static const int lim[] = {0, 1, 5, 100, 1024, 3000}; int li = choose(6), n = 1 + choose(3); int tot = std::max(0, lim[li] - 4) + choose(9); mc::shard(); static const int us[] = {1500, 1, 64}; int unit = us[choose(3)], fill = choose(4); static const char *fs[] = {"v", "\r", "\n", "\r\n--"};
  vector<string> ps; size_t left = tot; for (int i = 0; i < n; i++) { size_t k = i == n - 1 ? left : tot / n; left -= k; string c; while (c.size() < k) c += fs[fill]; c.resize(k); ps.push_back(part(CD + mc::strf("name=\"n%d\"; filename=\"f\"", i), c)); }
  Msg m = post_multipart("", "b", "b", ps); mc::note("%d files, %d bytes, limit %d, pieces of %d, filled with %s", n, tot, lim[li], unit, esc(fs[fill]).c_str()); bool r = deliver(m.wire, unit, 4000, lim[li]);
  if (r != (tot <= lim[li])) fail("files of %d bytes with a limit of %d were %s", tot, lim[li], r ? "accepted" : "refused"); mc::outcome(mc::strf("%d %d", n, r));
  if (r) { size_t t = 0; for (auto &e : got[0].files) t += e.second.size(); if (t != (size_t)tot) fail("%zu bytes of files arrived, not %d", t, tot); }
}
static void defaults() { Server s2(on_request); if (sv->o->max_post_size == 0) {} mc::shard(); size_t def = 1024 * 1024; int d = choose(3) - 1; got.clear(); string body(def + d, 'q'); bool a; { Conn c(s2); a = c.feed("POST / HTTP/1.1\r\nContent-Type: a/b\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n"); if (a) c.feed(body); } bool r = !got.empty(); if (r != (d <= 0)) fail("by default a body of 1MB%+d is %s", d, r ? "accepted" : "refused"); if (r && got[0].data != body) fail("content is wrong"); mc::outcome(r ? "yes" : "no"); }
int main(int argc, char **argv) {
  mc::rule("limits x bodies of every length around the limit x piece sizes x kind of body, plus lying lengths; accepted exactly up to the limit, memory and disk bounded at every step");
  mc::add("declared bodies around the limit", single, true, init); mc::add("declared far over the limit", huge, true, init); mc::add("multipart fields around the limit", fields, true, init); mc::add("multipart files around the limit", files, true, init); mc::add("default limits", defaults, true, init);
  return mc::main(argc, argv);
}
