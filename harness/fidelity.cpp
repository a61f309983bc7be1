// P02: a handler sees exactly what the client sent: method, path, query, headers, cookies, form fields, body.
#include "onh.hpp"
using namespace onh; using mc::choose;
static Server *sv; static vector<Seen> got; static std::function<void(onion_request *)> extra;
static int on_request(onion_request *req, onion_response *res) { got.push_back(observe(req)); if (extra) extra(req); onion_response_write0(res, "ok"); return OCS_PROCESSED; }
static void init() { sv = new Server(on_request); }
static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static bool dec(const string &s, string &o) { o.clear(); for (size_t i = 0; i < s.size(); i++) { if (s[i] == '%') { if (i + 2 >= s.size() || hexv(s[i + 1]) < 0 || hexv(s[i + 2]) < 0) return false; o += (char)(hexv(s[i + 1]) * 16 + hexv(s[i + 2])); i += 2; } else o += s[i] == '+' ? ' ' : s[i]; } return true; }
// reference form decoding. false: some escape is malformed (unspecified)
static bool form(const string &q, KV &o) {
  size_t p = 0; bool ok = true;
  while (p <= q.size()) { size_t e = q.find('&', p); if (e == string::npos) e = q.size(); string it = q.substr(p, e - p), k, v; size_t eq = it.find('='); ok &= dec(it.substr(0, eq), k); if (eq != string::npos) ok &= dec(it.substr(eq + 1), v); if (!k.empty()) o.push_back({k, v}); p = e + 1; }
  std::sort(o.begin(), o.end()); return ok;
}
static KV named(KV v) { KV o; for (auto &e : v) if (!e.first.empty()) o.push_back(e); return o; }
static string kvs(const KV &v) { string r; Seen::sec(r, "", v); return r; }
static bool send(const string &w, const char *what, bool must = true) {
  got.clear(); mc::note("%s: %s", what, esc(w).c_str());
  { Conn c(*sv); c.feed(w); }
  if (must && got.size() != 1) fail("%s: %zu requests reached the handler", what, got.size());
  if (got.size() > 1) fail("%s: %zu requests reached the handler", what, got.size());
  if (!got.empty()) mc::outcome_h(mc::hash(got[0].text()));
  return !got.empty();
}
static string str(const char *al, int n) { string s; int k = strlen(al); for (int i = 0; i < n; i++) { int c = choose(k + 1); if (i == 1) mc::shard(); if (c == 0) { if (i < 1) mc::shard(); break; } s += al[c - 1]; } return s; }
static void target() {
  string t = "/" + str("a%41?&=+/", mc::thorough() ? 8 : 6);
  if (t == "/" ) {}
  send("GET " + t + " HTTP/1.1\r\n\r\n", "target");
  size_t q = t.find('?'); string path; bool ok = dec(t.substr(0, q), path);
  if (ok) { if (got[0].fullpath != path) fail("path is %s, expected %s", esc(got[0].fullpath).c_str(), esc(path).c_str()); if (got[0].path != path.substr(1)) fail("path inside the server is %s, expected %s", esc(got[0].path).c_str(), esc(path.substr(1)).c_str()); }
  KV e; bool okq = q == string::npos || form(t.substr(q + 1), e);
  if (okq && named(got[0].get) != e) fail("query is%sexpected%s", kvs(got[0].get).c_str(), kvs(e).c_str());
}
static void target_byte() { // every byte value, raw and escaped, in path, query name and query value
  int b = 1 + choose(255), how = choose(3), where = choose(3); mc::shard();
  if (how == 0 && (b == ' ' || b == '\t' || b == '\r' || b == '\n' || b == '%' || b == '?' || b == '&' || b == '=' || b == '+')) return;
  string e = how == 0 ? string(1, b) : mc::strf(how == 1 ? "%%%02x" : "%%%02X", b), x = "p" + e + "q", y = string("p") + (char)b + "q";
  send("GET /" + (where == 0 ? x : "z") + "?" + (where == 1 ? x : "k") + "=" + (where == 2 ? x : "v") + " HTTP/1.1\r\n\r\n", "target");
  KV q = {{where == 1 ? y : "k", where == 2 ? y : "v"}};
  if (got[0].fullpath != "/" + (where == 0 ? y : "z") || got[0].get != q) fail("byte %d: %s", b, got[0].text().c_str());
}
static void form_body() {
  string b = str("a%41=&+;", mc::thorough() ? 7 : 6);
  string ct[] = {"application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=UTF-8"}; int c = choose(2);
  send("POST /p?x=y HTTP/1.1\r\nContent-Type: " + ct[c] + "\r\nContent-Length: " + std::to_string(b.size()) + "\r\n\r\n" + b, "form");
  KV e; KV q = {{"x", "y"}}; if (form(b, e) && named(got[0].post) != e) fail("form fields are%sexpected%s", kvs(got[0].post).c_str(), kvs(e).c_str());
  if (got[0].get != q) fail("query is%s", kvs(got[0].get).c_str());
}
static void headers() { // header blocks as sequences of lexical elements
  static const char *tk[] = {"A", ":", " ", "\t", "b", "\r\n", "\n"};
  int n = mc::thorough() ? 9 : 7; string w; vector<int> seq;
  for (int i = 0; i < n; i++) { int c = choose(8); if (i == 2) mc::shard(); if (c == 0) { if (i < 2) mc::shard(); break; } seq.push_back(c - 1); w += tk[c - 1]; }
  // reference: lines
  vector<string> lines; string cur; for (int c : seq) if (c >= 5) { lines.push_back(cur); cur.clear(); } else cur += tk[c];
  if (!cur.empty()) { lines.push_back(cur); w += "\r\n"; }
  size_t end = lines.size(); for (size_t i = 0; i < lines.size(); i++) if (lines[i].empty()) { end = i; break; }
  if (end == lines.size()) w += "\r\n"; else if (end + 1 != lines.size()) mc::prune(); // something after the empty line: another request
  bool bad = false; KV e; string key, val; bool have = false;
  for (size_t i = 0; i < end; i++) {
    const string &l = lines[i];
    if (l[0] == ' ' || l[0] == '\t') { if (!have) mc::prune(); size_t p = l.find_first_not_of(" \t"); if (p != string::npos) val += (val.empty() ? "" : " ") + l.substr(p); continue; }
    if (have) e.push_back({key, val});
    size_t c = l.find(':'); if (c == string::npos) { bad = true; break; }
    key = l.substr(0, c); if (key.empty() || key.find_first_of(" \t") != string::npos) mc::prune();
    size_t p = l.find_first_not_of(" \t", c + 1); val = p == string::npos ? "" : l.substr(p); have = true;
  }
  if (have && !bad) e.push_back({key, val});
  bool r = send("GET /h HTTP/1.1\r\n" + w, "headers", false);
  if (bad) { if (r) fail("a header line without colon was accepted"); return; }
  if (!r) fail("a well formed header block was refused");
  auto trim = [](KV v) { for (auto &x : v) { size_t p = x.second.find_last_not_of(" \t"); x.second.erase(p == string::npos ? 0 : p + 1); string y; for (size_t i = 0; i < x.second.size(); i++) { bool sp = x.second[i] == ' ' || x.second[i] == '\t'; if (!sp || y.empty() || y.back() != ' ') y += sp ? ' ' : x.second[i]; } x.second = y; } std::sort(v.begin(), v.end()); return v; };
  if (trim(e) != trim(got[0].headers)) fail("headers are%sexpected%s", kvs(got[0].headers).c_str(), kvs(e).c_str());
}
static void header_sets() { // many headers, any order, any case of the name, looked up in another case
  static const char *names[] = {"Host", "Accept", "X-A", "X-B", "User-Agent", "Zed", "Aaa", "Referer"};
  int n = 1 + choose(mc::thorough() ? 6 : 5); vector<int> used; string w; KV e; bool nl = mc::flip();
  for (int i = 0; i < n; i++) { int c = choose(8 - i); if (i == 0) mc::shard(); int k = 0; for (k = 0; k < 8; k++) { if (std::find(used.begin(), used.end(), k) != used.end()) continue; if (c-- == 0) break; } used.push_back(k); string v = mc::strf("v%d %s", k, names[k]); w += string(names[k]) + ": " + v + (nl ? "\n" : "\r\n"); e.push_back({names[k], v}); }
  std::sort(e.begin(), e.end()); string wrong;
  extra = [&](onion_request *r) { for (auto &x : e) for (int cs = 0; cs < 3; cs++) { string k = x.first; for (auto &ch : k) ch = cs == 0 ? ch : cs == 1 ? toupper(ch) : tolower(ch); const char *v = onion_request_get_header(r, k.c_str()); if (!v || x.second != v) wrong = k + " is " + (v ? v : "missing"); } for (int k = 0; k < 8; k++) if (std::find(used.begin(), used.end(), k) == used.end() && onion_request_get_header(r, names[k])) wrong = string(names[k]) + " was not sent"; };
  send("GET / HTTP/1.1\r\n" + w + "\r\n", "headers"); extra = nullptr;
  if (!wrong.empty()) fail("header %s", wrong.c_str());
  if (got[0].headers != e) fail("headers are%sexpected%s", kvs(got[0].headers).c_str(), kvs(e).c_str());
}
static void header_value_byte() { int b = choose(256), pos = choose(3); mc::shard(); if (b == '\r' || b == '\n' || b == 0) return; if ((b == ' ' || b == '\t') && pos != 1) return; string v = pos == 0 ? string(1, b) + "x" : pos == 1 ? string("x") + (char)b + "y" : string("x") + (char)b; send("GET / HTTP/1.1\r\nA: " + v + "\r\n\r\n", "header byte"); KV e = {{"A", v}}; if (got[0].headers != e) fail("header is%s", kvs(got[0].headers).c_str()); }
static void cookies() {
  string c = str("ab=; ", mc::thorough() ? 9 : 7);
  KV e; size_t p = 0; while (p <= c.size()) { size_t q = c.find(';', p); if (q == string::npos) q = c.size(); string it = c.substr(p, q - p); size_t f = it.find_first_not_of(' '); it = f == string::npos ? "" : it.substr(f); size_t eq = it.find('='); if (eq != string::npos && eq) e.push_back({it.substr(0, eq), it.substr(eq + 1)}); p = q + 1; }
  auto trim = [](KV v) { for (auto &x : v) for (string *s : {&x.first, &x.second}) { size_t p = s->find_first_not_of(' '); *s = p == string::npos ? "" : s->substr(p); p = s->find_last_not_of(' '); s->erase(p == string::npos ? 0 : p + 1); } std::sort(v.begin(), v.end()); return v; };
  string wrong; extra = [&](onion_request *r) { for (auto &x : e) { int same = 0; for (auto &y : e) if (y.first == x.first) same++; const char *v = onion_request_get_cookie(r, x.first.c_str()); if (same == 1 && x.first.find(' ') == string::npos && (!v || trim({{"k", v}}) != trim({{"k", x.second}}))) wrong = x.first + " is " + (v ? v : "missing"); } };
  send("GET / HTTP/1.1\r\nCookie: " + c + "\r\n\r\n", "cookies"); extra = nullptr;
  if (!wrong.empty()) fail("cookie %s", wrong.c_str());
  KV g = named(got[0].cookies); if (trim(g) != trim(e)) fail("cookies are%sexpected%s", kvs(g).c_str(), kvs(e).c_str());
}
static void raw_body() { // bodies that are not forms arrive as they are
  static const char *line[] = {"POST /r HTTP/1.1\r\nContent-Type: application/json\r\n", "POST /r HTTP/1.1\r\n", "PROPFIND /r HTTP/1.1\r\n", "PATCH /r HTTP/1.0\r\n", "GET /r HTTP/1.1\r\n", "PROPPATCH /r HTTP/1.1\r\nContent-Type: text/xml\r\n", "DELETE /r HTTP/1.1\r\n", "MOVE /r HTTP/1.1\r\n"};
  int l = choose(8); static const char al[] = {'a', '\0', '\r', '\n', '-', (char)0xff}; int n = 1 + choose(mc::thorough() ? 5 : 4); string b; mc::shard(); for (int i = 0; i < n; i++) b += al[choose(6)];
  send(line[l] + string("Content-Length: ") + std::to_string(b.size()) + "\r\n\r\n" + b, "body");
  if (!got[0].has_data || got[0].data != b) fail("body is %s, expected %s", esc(got[0].data).c_str(), esc(b).c_str());
}
static void long_body() { int l = 1 + choose(mc::thorough() ? 9000 : 4700); mc::shard(); int kind = choose(3); string b; for (int i = 0; i < l; i++) b += kind == 1 ? "abcdefgh"[i % 7] : (char)(i * 7 + i / 256); if (kind == 1) b[0] = 'k';
  if (kind == 1 && l > 2) b[1] = '=';
  send(string(kind == 0 ? "POST /r HTTP/1.1\r\nContent-Type: a/b\r\n" : kind == 1 ? "POST /r HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\n" : "PUT /r HTTP/1.1\r\n") + "Content-Length: " + std::to_string(b.size()) + "\r\n\r\n" + b, "long body");
  if (kind == 0 && got[0].data != b) fail("body of %d bytes is wrong", l);
  if (kind == 1 && l > 2) { KV e = {{"k", b.substr(2)}}; if (got[0].post != e) fail("form field of %d bytes is wrong", l - 2); }
  if (kind == 2) { KV e = {{"filename", b}}; if (got[0].files != e) fail("file of %d bytes is wrong", l); }
  tmp_reset();
}
static void request_line() {
  static const char *me[] = {"GET", "POST", "HEAD", "OPTIONS", "PROPFIND", "DELETE", "MOVE", "MKCOL", "PROPPATCH", "PATCH", "PUT"}; static const char *ve[] = {" HTTP/1.1", " HTTP/1.0", "", " HTTP/1.1 "}; static const char *cn[] = {"", "Connection: close", "Connection: Keep-Alive", "Connection: keep-alive", "CONNECTION: CLOSE", "Connection: Upgrade"};
  int m = choose(11), v = choose(4), nl = choose(2), c = choose(6); mc::shard(); int no_ka = choose(2); string E = nl ? "\n" : "\r\n"; if (v == 3 && nl) return; if (v == 2 && !nl) return; (void)no_ka;
  send(string(me[m]) + " /x" + ve[v] + E + cn[c] + (c ? E : "") + "Content-Length: 0" + E + E, "request line");
  if (got[0].method != me[m]) fail("method is %s", got[0].method.c_str());
  bool h11 = v == 0 || v == 3; if (got[0].http11 != h11) fail("version is wrong");
  bool ka = h11 ? !(c == 1 || c == 4) : (c == 2 || c == 3); if (got[0].keep != ka) fail("keep alive is %d", got[0].keep);
  if (got[0].fullpath != "/x") fail("path is %s", got[0].fullpath.c_str());
  if (!got[0].get.empty() || !got[0].post.empty()) fail("query or post not empty");
  tmp_reset();
}
static void method_names() { // only the known methods, exactly spelled, are accepted
  static const char *me[] = {"GET", "POST", "HEAD", "OPTIONS", "PROPFIND", "DELETE", "MOVE", "MKCOL", "PROPPATCH", "PATCH", "PUT"};
  int m = choose(11); string s = me[m]; int how = choose(5), p = choose(s.size() + 1); mc::shard(); string t = s;
  if (how == 0) t.insert(p, "X"); else if (p == (int)s.size()) return; else if (how == 1) t.erase(p, 1); else if (how == 2) t[p] = tolower(t[p]); else if (how == 3) t[p]++; else t = s.substr(0, p);
  if (t.empty()) return; for (auto x : me) if (t == x) return;
  send(t + " /x HTTP/1.1\r\nContent-Length: 0\r\n\r\n", "method", false); if (!got.empty()) fail("method %s was accepted as %s", t.c_str(), got[0].method.c_str());
}
static void language() {
  string v = str("aZ-,; ", 5); string g; extra = [&](onion_request *r) { const char *l = onion_request_get_language_code(r); g = l; onion_low_free((void *)l); };
  bool has = mc::flip(); send("GET / HTTP/1.1\r\n" + (has ? "Accept-Language: " + v + "\r\n" : "") + "\r\n", "language"); extra = nullptr;
  string e = has ? v.substr(0, v.find_first_of("-,;")) : "C"; size_t p = e.find_first_not_of(' '); e = p == string::npos ? "" : e.substr(p); p = g.find_first_not_of(' '); if (p && p != string::npos) g = g.substr(p);
  p = v.find_first_not_of(' '); if (has && p != string::npos && g != e) fail("language is %s, expected %s", esc(g).c_str(), esc(e).c_str());
}
static void pairs() { // several parameters at once, encoded the way a browser does
  static const char *al[] = {"", "a", "b c", "=", "&", "%", "+", "?", "\xc3\xb1", "a=b&c"}; KV e; string q; int n = 1 + choose(3); for (int i = 0; i < n; i++) { int k = choose(10), v = choose(10); if (i == 0) mc::shard(); string kk = mc::strf("%d%s", i % 2, al[k]), vv = al[v]; auto enc = [](const string &s) { string r; for (unsigned char c : s) if (isalnum(c)) r += c; else if (c == ' ') r += '+'; else r += mc::strf("%%%02X", c); return r; }; q += (i ? "&" : "") + enc(kk) + "=" + enc(vv); e.push_back({kk, vv}); }
  std::sort(e.begin(), e.end()); int form = choose(2);
  send(form ? "POST /x HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: " + std::to_string(q.size()) + "\r\n\r\n" + q : "GET /x?" + q + " HTTP/1.1\r\n\r\n", "parameters");
  if ((form ? got[0].post : got[0].get) != e) fail("parameters are%sexpected%s", kvs(form ? got[0].post : got[0].get).c_str(), kvs(e).c_str());
}
int main(int argc, char **argv) {
  mc::rule("requests built from every string over the alphabet of each syntactic element; the reference decoder of the element is the oracle; distinct observations count");
  mc::add("request targets", target, true, init); mc::add("every byte in the target", target_byte, true, init); mc::add("form bodies", form_body, true, init);
  mc::add("parameter lists", pairs, true, init); mc::add("header blocks", headers, true, init); mc::add("header sets", header_sets, true, init); mc::add("every byte in a header value", header_value_byte, true, init);
  mc::add("cookie headers", cookies, true, init); mc::add("raw bodies", raw_body, true, init); mc::add("bodies of every length", long_body, true, init);
  mc::add("request lines", request_line, true, init); mc::add("misspelled methods", method_names, true, init); mc::add("language", language, true, init);
  return mc::main(argc, argv);
}
