// P08: response headers and cookies reach the client exactly as the handler set them, as well formed header lines.
#include "onh.hpp"
#include <time.h>
using namespace onh; using mc::choose;
static time_t now = 1700000000; extern "C" time_t __wrap_time(time_t *t) { if (t) *t = now; return now; }
static Server *sv; static std::function<void(onion_request *, onion_response *)> fn;
static int on_request(onion_request *req, onion_response *res) { fn(req, res); onion_response_write0(res, "body"); return OCS_PROCESSED; }
static void init() { sv = new Server(on_request); }
static Resp get(std::function<void(onion_request *, onion_response *)> f, const string &hdrs = "", const char *line = "GET / HTTP/1.1") { fn = f; Conn c(*sv); c.feed(string(line) + "\r\n" + hdrs + "\r\n"); Resp r = parse_response(c.out, 0, false, !c.open); if (!r.err.empty() || r.incomplete || r.used != c.out.size()) fail("malformed response (%s): %s", r.err.c_str(), esc(c.out).c_str()); if (r.body != "body") fail("body is %s", esc(r.body).c_str()); return r; }
static void headers() { // any sequence of set_header: the last value of each name, once
  static const char *nm[] = {"X-A", "x-a", "Content-Type", "content-type", "Server", "Location", "Z"}; static const char *va[] = {"v", "a b;c=\"d\"", "", "text/plain"}; int n = choose(mc::thorough() ? 5 : 4); vector<std::pair<int, int>> s; for (int i = 0; i < n; i++) { int a = choose(7), b = choose(4); if (i == 0) mc::shard(); s.push_back({a, b}); } if (!n) mc::shard(); string d; for (auto &x : s) d += string(nm[x.first]) + ": " + va[x.second] + " | "; mc::note("%s", d.c_str());
  Resp r = get([&](onion_request *, onion_response *res) { for (auto &x : s) onion_response_set_header(res, nm[x.first], va[x.second]); });
  std::map<string, string> e; auto low = [](string k) { for (auto &c : k) c = tolower(c); return k; }; for (auto &x : s) e[low(nm[x.first])] = va[x.second]; if (!e.count("content-type")) e["content-type"] = "text/html";
  for (auto &x : e) { int c = r.count(x.first.c_str()); if (c != 1) fail("header %s appears %d times", x.first.c_str(), c); if (*r.get(x.first.c_str()) != x.second) fail("header %s is %s, expected %s", x.first.c_str(), esc(*r.get(x.first.c_str())).c_str(), esc(x.second).c_str()); }
  for (const char *k : {"Date", "Server", "Content-Length", "Content-Type"}) if (r.count(k) != 1) fail("header %s appears %d times", k, r.count(k)); mc::outcome(d);
}
static void header_bytes() { int b = 1 + choose(255), p = choose(3); mc::shard(); if (b == '\r' || b == '\n' || ((b == ' ' || b == '\t') && p != 1)) return; string v = p == 0 ? string(1, b) + "x" : p == 1 ? string("x") + (char)b + "y" : string("x") + (char)b; Resp r = get([&](onion_request *, onion_response *res) { onion_response_set_header(res, "X", v.c_str()); }); if (r.count("X") != 1 || *r.get("X") != v) fail("value is %s", esc(*r.get("X")).c_str()); mc::outcome(v); }
static void long_headers() { int L = choose(7) * 700 + choose(60) * 4; mc::shard(); int n = 1 + choose(3); string v(L, 'v'); mc::note("%d headers of %d bytes", n, L); Resp r = get([&](onion_request *, onion_response *res) { for (int i = 0; i < n; i++) onion_response_set_header(res, mc::strf("H%d", i).c_str(), v.c_str()); }); for (int i = 0; i < n; i++) { const string *g = r.get(mc::strf("H%d", i).c_str()); if (!g || *g != v) fail("long header is wrong"); } mc::outcome(mc::strf("%d %d", L, n)); }
static vector<string> attrs(const string &c) { vector<string> o; size_t p = 0; while (p <= c.size()) { size_t e = c.find(';', p); if (e == string::npos) e = c.size(); string a = c.substr(p, e - p); size_t f = a.find_first_not_of(' '); o.push_back(f == string::npos ? "" : a.substr(f)); p = e + 1; } return o; }
struct Ck { string n, v; long val; int path, dom, fl; };
static bool add(onion_response *res, const Ck &k) { static const char *P[] = {nullptr, "/", "/a/b"}; static const char *D[] = {nullptr, "example.com"}; return onion_response_add_cookie(res, k.n.c_str(), k.v.c_str(), k.val, P[k.path], D[k.dom], k.fl); }
static void verify(const string &c, const Ck &k) {
  vector<string> a = attrs(c); if (a[0] != k.n + "=" + k.v) fail("cookie is %s", c.c_str()); std::map<string, string> m; for (size_t i = 1; i < a.size(); i++) { size_t e = a[i].find('='); string n = a[i].substr(0, e); for (auto &x : n) x = tolower(x); if (m.count(n)) fail("attribute %s twice in %s", n.c_str(), c.c_str()); m[n] = e == string::npos ? "" : a[i].substr(e + 1); }
  auto want = [&](const char *n, const char *v) { auto it = m.find(n); if (!v) { if (it != m.end()) fail("attribute %s in %s", n, c.c_str()); } else if (it == m.end() || it->second != v) fail("attribute %s should be %s in %s", n, v, c.c_str()); };
  static const char *P[] = {nullptr, "/", "/a/b"}; static const char *D[] = {nullptr, "example.com"}; want("path", P[k.path]); want("domain", D[k.dom]); want("httponly", k.fl & OC_HTTP_ONLY ? "" : nullptr); want("secure", k.fl & OC_SECURE ? "" : nullptr);
  int ss = k.fl & (OC_SAMESITE_NONE | OC_SAMESITE_LAX | OC_SAMESITE_STRICT); want("samesite", ss == OC_SAMESITE_NONE ? "None" : ss == OC_SAMESITE_LAX ? "Lax" : ss == OC_SAMESITE_STRICT ? "Strict" : nullptr);
  if (k.val < 0) want("expires", nullptr); else { auto it = m.find("expires"); if (it == m.end()) fail("no expiry in %s", c.c_str()); struct tm tm; memset(&tm, 0, sizeof tm); char *e = strptime(it->second.c_str(), "%a, %d %b %Y %H:%M:%S", &tm); if (!e || (strcmp(e, " GMT") && strcmp(e, " UTC"))) fail("expiry %s is not a date", it->second.c_str()); time_t t = timegm(&tm); if (t != (k.val == 0 ? 0 : now + k.val)) fail("expiry of %s is not %ld seconds away", c.c_str(), k.val); }
}
static void cookies() {
  static const long vals[] = {-1, 0, 1, 3600, 31536000}; static const int ss[] = {0, OC_SAMESITE_NONE, OC_SAMESITE_LAX, OC_SAMESITE_STRICT}; Ck k; k.n = "name"; k.val = vals[choose(5)]; k.path = choose(3); k.dom = choose(2); mc::shard(); k.fl = (mc::flip() ? OC_HTTP_ONLY : 0) | (mc::flip() ? OC_SECURE : 0) | ss[choose(4)]; static const char *vv[] = {"v", "", "a=b", "\"q\""}; k.v = vv[choose(4)]; bool ok = false; Resp r = get([&](onion_request *, onion_response *res) { ok = add(res, k); }); if (!ok) fail("refused"); if (r.count("Set-Cookie") != 1) fail("%d Set-Cookie lines", r.count("Set-Cookie")); mc::note("%s", r.get("Set-Cookie")->c_str()); verify(*r.get("Set-Cookie"), k); mc::outcome(*r.get("Set-Cookie"));
}
static void several() { // several cookies, each in a line of its own
  int n = choose(5); vector<Ck> v; for (int i = 0; i < n; i++) { int a = choose(6); if (i == 0) mc::shard(); Ck k{mc::strf("c%d", i), mc::strf("v%d", a), a % 2 ? -1 : 60, a % 3, a % 2, a > 3 ? OC_HTTP_ONLY : 0}; v.push_back(k); } if (!n) mc::shard(); Resp r = get([&](onion_request *, onion_response *res) { for (auto &k : v) if (!add(res, k)) fail("refused"); }); if (r.count("Set-Cookie") != n) fail("%d cookies set, %d sent", n, r.count("Set-Cookie"));
  for (auto &k : v) { bool f = false; for (auto &h : r.h) if (!strcasecmp(h.first.c_str(), "Set-Cookie") && h.second.compare(0, k.n.size() + 1, k.n + "=") == 0) { verify(h.second, k); f = true; } if (!f) fail("cookie %s not sent", k.n.c_str()); } mc::outcome(std::to_string(n));
}
static void long_cookies() { // too long is refused, never truncated
  int which = choose(4); int L = choose(2) ? 3900 + choose(260) : choose(4) * 3000 + 4000; mc::shard(); int fl = choose(2) ? OC_HTTP_ONLY | OC_SECURE | OC_SAMESITE_STRICT : 0; long val = choose(3) - 1; if (val > 0) val = 1000; string x(L, 'x'); bool ok = false; const char *n = which == 0 ? x.c_str() : "n", *v = which == 1 ? x.c_str() : "v", *p = which == 2 ? x.c_str() : "/", *d = which == 3 ? x.c_str() : nullptr; mc::note("length %d in %d", L, which);
  Resp r = get([&](onion_request *, onion_response *res) { ok = onion_response_add_cookie(res, n, v, val, p, d, fl); }); if (ok != (r.count("Set-Cookie") == 1)) fail("added is %d, sent is %d", ok, r.count("Set-Cookie"));
  size_t want = strlen(n) + 1 + strlen(v) + 7 + strlen(p) + (d ? 9 + strlen(d) : 0) + (val < 0 ? 0 : 39) + (fl ? 10 + 8 + 17 : 0); if (ok) { string c = *r.get("Set-Cookie"); if (c.size() + 4 < want || c.size() > want + 4) fail("cookie of %zu bytes was sent with %zu", want, c.size()); if (c.compare(0, strlen(n) + 1 + strlen(v), string(n) + "=" + v) || (p && c.find(string("; path=") + p) == string::npos) || (d && c.find(string("; domain=") + d) == string::npos)) fail("cookie was changed"); }
  if (want > 4100 && ok) fail("a cookie of %zu bytes was accepted", want); if (want < 4090 && !ok) fail("a cookie of %zu bytes was refused", want); mc::outcome(mc::strf("%d %d", which, ok));
}
static void codes() { int c = 100 + choose(500), v = choose(2); mc::shard(); if (c < 200 || c == 204 || c == 304) return; Resp r = get([&](onion_request *, onion_response *res) { onion_response_set_code(res, c); }, "", v ? "GET / HTTP/1.0" : "GET / HTTP/1.1"); if (r.code != c) fail("code %d sent as %d", c, r.code); if (r.reason.empty()) fail("no reason phrase for %d", c); static const std::map<int, const char *> K = {{200, "OK"}, {201, "Created"}, {206, "Partial Content"}, {302, "Found"}, {301, "Moved Permanently"}, {400, "Bad Request"}, {401, "Unauthorized"}, {403, "Forbidden"}, {404, "Not Found"}, {405, "Method Not Allowed"}, {500, "Internal Server Error"}, {501, "Not Implemented"}}; auto it = K.find(c); if (it != K.end() && r.reason != it->second) fail("reason of %d is %s", c, r.reason.c_str()); mc::outcome(r.reason); }
static void session_cookie() { // a used session gives a well formed cookie; an empty one gives none
  int use = choose(4), others = choose(3); mc::shard(); string id; Resp r = get([&](onion_request *req, onion_response *res) { if (use) { onion_dict *d = onion_request_get_session_dict(req); if (use == 2) onion_dict_add(d, "a", "b", OD_DUP_ALL); if (use == 3) { onion_dict_add(d, "a", "b", OD_DUP_ALL); onion_request_session_free(req); } if (use == 2) id = req->session_id; } for (int i = 0; i < others; i++) onion_response_add_cookie(res, mc::strf("o%d", i).c_str(), "x", -1, nullptr, nullptr, 0); });
  int ns = 0; for (auto &h : r.h) if (!strcasecmp(h.first.c_str(), "Set-Cookie")) { vector<string> a = attrs(h.second); if (a[0].compare(0, 10, "sessionid=") == 0) { ns++; if (a[0] != "sessionid=" + id) fail("session cookie %s, session %s", a[0].c_str(), id.c_str()); bool ho = false, pa = false; for (auto &x : a) { if (!strcasecmp(x.c_str(), "httponly")) ho = true; if (!strcasecmp(x.c_str(), "path=/")) pa = true; } if (!ho || !pa) fail("session cookie is not HttpOnly with path /: %s", h.second.c_str()); } } if (ns != (use == 2)) fail("%d session cookies", ns); if (r.count("Set-Cookie") != others + ns) fail("%d cookies", r.count("Set-Cookie")); mc::outcome(mc::strf("%d %d", use, others));
}
static string http_date(time_t t) { char b[64]; struct tm tm; gmtime_r(&t, &tm); strftime(b, sizeof b, "%a, %d %b %Y %H:%M:%S GMT", &tm); return b; }
// Dates are told in GMT, whatever zone the server lives in. A client reads the date of a cookie as GMT (RFC 6265, 5.1.1)
static void zones() {
  static const char *Z[] = {"UTC0", "EST5", "CET-1CEST", "AAA12", "BBB-14", "NNN3:30"}; static const time_t T[] = {1, 86399, 951782400, 1700000000, 1711846799, 1711846800, 1735689599, 4102444800}; static const long V[] = {1, 60, 3600, 86400, 31536000}; int z = choose(6); mc::shard(); int ti = choose(8), vi = choose(5);
  time_t keep = now; now = T[ti] + vi * 7 + z; setenv("TZ", Z[z], 1); tzset(); mc::note("zone %s, time %ld, validity %ld", Z[z], (long)now, V[vi]);
  Resp r = get([&](onion_request *, onion_response *res) { if (!onion_response_add_cookie(res, "c", "v", V[vi], nullptr, nullptr, 0)) fail("refused"); });
  if (r.count("Date") != 1 || *r.get("Date") != http_date(now)) fail("Date is %s, it should be %s", r.get("Date") ? r.get("Date")->c_str() : "missing", http_date(now).c_str());
  vector<string> a = attrs(*r.get("Set-Cookie")); string e; for (auto &x : a) if (!strncasecmp(x.c_str(), "expires=", 8)) e = x.substr(8); time_t want = now + V[vi]; struct tm tm; memset(&tm, 0, sizeof tm); const char *rest = strptime(e.c_str(), "%a, %d %b %Y %H:%M:%S", &tm); if (!rest) fail("expiry %s is not a date", e.c_str());
  if (timegm(&tm) != want) { char b[64]; struct tm lt; localtime_r(&want, &lt); strftime(b, sizeof b, "%a, %d %b %Y %H:%M:%S %Z", &lt); if (e == b && lt.tm_gmtoff) mc::violation("cookie-expiry-local-zone", "onion_response_add_cookie tells the expiry in the local time zone (e.g. '%s' in TZ=%s), which clients read as GMT: it is off by the offset of the zone", b, Z[z]); else fail("expiry is %s, it should be %s", e.c_str(), http_date(want).c_str()); }
  unsetenv("TZ"); tzset(); now = keep; mc::outcome(mc::strf("%d %d %d", z, ti, vi));
}
int main(int argc, char **argv) {
  mc::rule("sequences of header and cookie calls of a handler; a reference client parses the response and compares with a model of the calls");
  mc::add("header sequences", headers, true, init); mc::add("every byte in a value", header_bytes, true, init); mc::add("long headers", long_headers, true, init); mc::add("cookie attributes", cookies, true, init); mc::add("several cookies", several, true, init); mc::add("long cookies", long_cookies, true, init); mc::add("status codes", codes, true, init); mc::add("session cookie", session_cookie, true, init); mc::add("dates in every zone", zones, true, init); return mc::main(argc, argv);
}
