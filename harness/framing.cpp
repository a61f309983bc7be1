// P06: whatever a handler writes, and however the network accepts it, the client receives exactly that body, correctly
// delimited, and the connection is only reused when the client can know where the response ended.
#include "onh.hpp"
#include <time.h>
using namespace onh; using mc::choose;
extern "C" time_t __wrap_time(time_t *t) { if (t) *t = 1700000000; return 1700000000; }
struct Op { char k; int a; };
static vector<Op> prog; static Server *sv; static string written; static int nreq; static long setlen; static int bufsz = sizeof(((onion_response *)0)->buffer);
static bool began; static int status = OCS_PROCESSED;
static string fill(int n) { string s; static int c; (void)c; for (int i = 0; i < n; i++) s += (char)('a' + (written.size() + i) % 23); return s; }
static int on_request(onion_request *req, onion_response *res) {
  nreq++; if (!strncmp(onion_request_get_path(req), "second", 6)) { onion_response_write0(res, "SECOND"); return OCS_PROCESSED; }
  written.clear(); setlen = -1; began = false; bool &hs = began;
  for (auto &o : prog) switch (o.k) {
    case 'w': { string d = fill(o.a); onion_response_write(res, d.data(), d.size()); written += d; if ((int)written.size() > bufsz) hs = true; break; }
    case '0': { string d = fill(o.a); onion_response_write0(res, d.c_str()); written += d; break; }
    case 'p': { string d = fill(o.a); onion_response_printf(res, "%s|%d", d.c_str(), o.a); written += d + "|" + std::to_string(o.a); break; }
    case 'q': onion_response_write_html_safe(res, "<a&\">"); written += "&lt;a&amp;&quot;&gt;"; break;
    case 'f': onion_response_flush(res); if (!written.empty()) hs = true; break;
    case 'z': onion_response_write(res, "x", 0); if (!written.empty()) hs = true; break;
    case 'h': onion_response_write_headers(res); hs = true; break;
    case 'l': if (!hs) { onion_response_set_length(res, o.a); setlen = o.a; } break;
    case 'c': if (!hs) onion_response_set_code(res, o.a); break;
    case 'x': if (!hs) onion_response_set_header(res, "X-Test", "v w"); break;
    case 'L': if (!hs) { onion_response_set_header(res, "Content-Length", std::to_string(o.a).c_str()); setlen = o.a; } break;
    case 'k': onion_request_set_no_keep_alive(req); break;
  }
  if ((int)written.size() > bufsz) hs = true; return status;
}
static void init() { sv = new Server(on_request); }
static vector<Op> ops() { int B = bufsz; return {{'w', 1}, {'w', 7}, {'w', B - 1}, {'w', B}, {'w', B + 1}, {'w', 2 * B + 3}, {'0', 5}, {'p', 3}, {'p', 600}, {'q', 0}, {'f', 0}, {'h', 0}, {'z', 0}}; }
static string hdr(int m, int v, int c) { static const char *me[] = {"GET", "HEAD", "POST"}; static const char *ve[] = {"HTTP/1.1", "HTTP/1.0"}; static const char *cn[] = {"", "Connection: close\r\n", "Connection: Keep-Alive\r\n"}; return string(me[m]) + " /first " + ve[v] + "\r\n" + cn[c] + "\r\n"; }
static string show() { string r; for (auto &o : prog) r += mc::strf("%c%d ", o.k, o.a); return r; }
struct Out { string out; bool open; };
static Out go(int m, int v, int c, std::function<ssize_t(const char *, size_t)> plan = nullptr, bool second = true) {
  nreq = 0; Conn co(*sv); co.on_write = plan; co.feed(hdr(m, v, c)); Out o{co.out, co.open}; if (nreq != 1) fail("the handler was called %d times", nreq);
  if (o.open && second) { co.on_write = nullptr; co.feed("GET /second HTTP/1.1\r\n\r\n"); if (nreq != 2) fail("the connection is open and a second request is not served"); if (!co.open) fail("closed after the second request"); Resp r = parse_response(co.out, o.out.size(), false, false); if (!r.err.empty() || r.incomplete || r.body != "SECOND" || r.used != co.out.size()) fail("the second response on the connection is wrong: %s", esc(co.out.substr(o.out.size())).c_str()); }
  return o;
}
static void judge(const Out &o, int m, int v, int c) {
  Resp r = parse_response(o.out, 0, m == 1, !o.open);
  if (!r.err.empty()) fail("malformed response: %s\n%s", r.err.c_str(), esc(o.out.substr(0, 500)).c_str());
  bool wrong_len = setlen >= 0 && setlen != (long)written.size() && m != 1;
  if (r.minor != (v ? 0 : 1)) fail("answered with HTTP/1.%d", r.minor);
  if (wrong_len && r.get("Content-Length") && atol(r.get("Content-Length")->c_str()) == setlen) { if (o.open) fail("the handler wrote %zu bytes after announcing %ld, and the connection is reused", written.size(), setlen); if (written.size() < (size_t)setlen ? written != r.body : written.compare(0, setlen, r.body)) fail("body differs"); return; }
  if (r.incomplete) fail("the response is not complete, the connection is %s: %s", o.open ? "open" : "closed", esc(o.out.substr(0, 500)).c_str());
  if (m == 1) { if (r.used != o.out.size()) fail("%zu bytes of body in the answer to HEAD", o.out.size() - r.used); }
  else { if (r.body != written) fail("the handler wrote %zu bytes and the client got %zu%s", written.size(), r.body.size(), r.body.size() < 200 ? (": " + esc(r.body)).c_str() : ""); if (r.used != o.out.size()) fail("%zu bytes after the end of the response", o.out.size() - r.used); if (r.close_delimited && o.open) fail("body delimited by close and the connection is open"); }
  bool wants = v == 0 ? c != 1 : c == 2; for (auto &p : prog) if (p.k == 'k') wants = false;
  if (o.open && !wants) fail("the client asked to close and the connection stays open");
  if (v == 0 && wants && !o.open) fail("the connection of an HTTP/1.1 client was closed for no reason");
  const string *cn = r.get("Connection"); if (o.open && cn && !strcasecmp(cn->c_str(), "close")) fail("Connection: close announced, and it is kept open");
  if (o.open == false && cn && !strcasecmp(cn->c_str(), "keep-alive") && wants) fail("Keep-Alive announced and asked for, and the connection is closed");
}
static void program(int depth, bool pre) {
  prog.clear(); static const vector<Op> al = ops();
  if (pre) { int p = choose(6); if (p == 1) prog.push_back({'c', 404}); if (p == 2) prog.push_back({'x', 0}); if (p == 3) prog.push_back({'l', 8}); if (p == 4) prog.push_back({'k', 0}); if (p == 5) prog.push_back({'L', 2000}); }
  for (int i = 0; i < depth; i++) { int k = choose(al.size() + 1); if (i == 1) mc::shard(); if (k == 0) { if (i < 1) mc::shard(); break; } prog.push_back(al[k - 1]); }
}
static void sequences() { int m = choose(3), v = choose(2), c = choose(3); program(mc::thorough() ? 5 : 4, false); mc::note("%s %s", hdr(m, v, c).c_str(), show().c_str()); Out o = go(m, v, c); judge(o, m, v, c); mc::outcome_h(mc::hash(o.out) + o.open); }
static void prepared() { int m = choose(3), v = choose(2), c = choose(3); program(mc::thorough() ? 4 : 3, true); mc::note("%s %s", hdr(m, v, c).c_str(), show().c_str()); Out o = go(m, v, c); judge(o, m, v, c); mc::outcome_h(mc::hash(o.out) + o.open); }
static void exact() { // an announced length is honoured for every length around the buffer
  int m = choose(3), v = choose(2), c = choose(3); int via = choose(3); static const int base[] = {0, 0, 0}; (void)base; int L = choose(40); static const int at[] = {0, 1, 2}; int a = choose(3); L = a == 0 ? L : at[a] * bufsz - 200 + L * 6 + choose(6); mc::shard(); int split = choose(4);
  prog.clear(); if (via) prog.push_back({via == 1 ? 'l' : 'L', L}); if (split == 0) { if (L) prog.push_back({'w', L}); } else if (split == 1) { if (L > 1) prog.push_back({'w', L - 1}); if (L) prog.push_back({'w', 1}); } else if (split == 2) { prog.push_back({'h', 0}); if (L) prog.push_back({'w', L}); } else { if (L > 2) { prog.push_back({'w', L / 2}); prog.push_back({'f', 0}); } if (L) prog.push_back({'w', L > 2 ? L - L / 2 : L}); }
  mc::note("%s %s", hdr(m, v, c).c_str(), show().c_str()); Out o = go(m, v, c); judge(o, m, v, c); if (via) { Resp r = parse_response(o.out, 0, m == 1, !o.open); if (!r.get("Content-Length") || atol(r.get("Content-Length")->c_str()) != L) fail("announced length %d not sent", L); } mc::outcome_h(mc::hash(o.out) + o.open);
}
static void faults() { // short and failing writes of the transport
  int m = choose(3), v = choose(2), c = choose(3); prog.clear(); static const vector<Op> al = ops(); int pre = choose(3); if (pre == 1) prog.push_back({'l', 8}); if (pre == 2) prog.push_back({'l', 2 * bufsz + 3});
  int depth = mc::thorough() ? 3 : 2; for (int i = 0; i < depth; i++) { int k = choose(al.size() + 1); if (i == 0) mc::shard(); if (k == 0) break; prog.push_back(al[k - 1]); }
  Out ref = go(m, v, c, nullptr, false); judge(ref, m, v, c);
  mc::set_budget(mc::thorough() ? 2 : 1); size_t sent = 0; bool broken = false; string tr; int after = 0;
  Out o = go(m, v, c, [&](const char *d, size_t l) -> ssize_t { if (broken) { after++; return -1; } int k = mc::choose_cost(6); tr += mc::strf("%d", k); ssize_t n = l; if (k == 1) n = 1; else if (k == 2) n = (l + 1) / 2; else if (k == 3) n = l - 1 ? l - 1 : 1; else if (k == 4) n = -1; else if (k == 5) n = 0; if (n <= 0) { broken = true; errno = EPIPE; } else sent += n; return n; });
  mc::note("%s %s writes %s", hdr(m, v, c).c_str(), show().c_str(), tr.c_str());
  if (broken) { if (o.open) fail("a write failed and the connection is kept open"); if (ref.out.compare(0, o.out.size(), o.out)) fail("what was sent before the failure is not the start of the response"); if (after) fail("%d more writes on a broken connection", after); }
  else { if (o.out != ref.out || o.open != ref.open) fail("short writes change the response\nexpected %s\ngot      %s", esc(ref.out).c_str(), esc(o.out).c_str()); }
  mc::outcome_h(mc::hash(o.out) + o.open + broken * 7);
}
static void every_write_short() { int m = choose(3), v = choose(2), c = choose(3); program(3, true); int step = 1 + choose(5) * 3; mc::note("%s %s, at most %d bytes per write", hdr(m, v, c).c_str(), show().c_str(), step); Out ref = go(m, v, c, nullptr, false); Out o = go(m, v, c, [&](const char *, size_t l) -> ssize_t { return std::min(l, (size_t)step); }); if (o.out != ref.out || o.open != ref.open) fail("short writes change the response\nexpected %s\ngot      %s", esc(ref.out).c_str(), esc(o.out).c_str()); mc::outcome_h(mc::hash(o.out)); }
static void flushed() { // after a flush all that was written has reached the client
  int v = choose(2), c = choose(3), n = 1 + choose(3); mc::shard(); static const int sz[] = {1, 7, 1499, 1500, 1501, 4000}; vector<int> k; for (int i = 0; i < n; i++) k.push_back(sz[choose(6)]); string w; string bad; Conn *pc; Handler old = sv->h;
  sv->h = [&](onion_request *req, onion_response *res) -> int { for (int x : k) { string d(x, 'd'); w += d; onion_response_write(res, d.data(), x); onion_response_flush(res); Resp r = parse_response(pc->out, 0, false, true); if (!r.err.empty() || r.body != w) bad = mc::strf("after flushing %zu bytes the client has %zu", w.size(), r.body.size()); } return OCS_PROCESSED; };
  { Conn co(*sv); pc = &co; co.feed(hdr(0, v, c)); } sv->h = old; if (!bad.empty()) fail("%s", bad.c_str()); mc::outcome(std::to_string(w.size()));
}
static void every_length() { // each way of writing, with every length: nothing is lost at the limits of any internal buffer
  int api = choose(5), L = choose(mc::thorough() ? 9000 : 2100); mc::shard(); static const int pre[] = {0, 3, 1499}; int pr = pre[choose(3)]; string w; Handler old = sv->h; mc::note("api %d, length %d after %d bytes", api, L, pr);
  sv->h = [&](onion_request *, onion_response *res) -> int { string a(pr, 'P'); if (pr) onion_response_write(res, a.data(), pr); w = a; string d; for (int i = 0; i < L; i++) d += (char)('a' + i % 23); ssize_t r = L;
    switch (api) { case 0: r = onion_response_printf(res, "%s", d.c_str()); w += d; break; case 1: r = onion_response_write0(res, d.c_str()); w += d; break; case 2: r = onion_response_printf(res, "%d-%s-%s", L, d.substr(0, L / 2).c_str(), d.substr(L / 2).c_str()) - 2 - (int)std::to_string(L).size(); w += std::to_string(L) + "-" + d.substr(0, L / 2) + "-" + d.substr(L / 2); break;
      case 3: { string q = d; if (L) q[L / 2] = '<'; onion_response_write_html_safe(res, q.c_str()); if (L) d.replace(L / 2, 1, "&lt;"); w += d; break; } case 4: for (int i = 0; i < L; i++) onion_response_write(res, &d[i], 1); w += d; break; }
    if (r != L) fail("%d bytes were written and it returned %zd", L, r); return OCS_PROCESSED; };
  string out; bool open; { Conn co(*sv); co.feed(hdr(0, 0, 0)); out = co.out; open = co.open; } sv->h = old; Resp r = parse_response(out, 0, false, !open); if (!r.err.empty() || r.incomplete || r.used != out.size()) fail("bad response %s", r.err.c_str()); if (r.body != w) { size_t i = 0; while (i < w.size() && i < r.body.size() && w[i] == r.body[i]) i++; fail("wrote %zu bytes and the client got %zu, differing from byte %zu", w.size(), r.body.size(), i); } mc::outcome(std::to_string(w.size()));
}
// a handler that fails, whatever it did before: the error is the whole answer, or if it is too late the connection ends there
static int own; static string error_page; static int on_error(void *, onion_request *, onion_response *r) { onion_response_set_code(r, 503); int n = own == 2 ? bufsz + 1 : own == 5 ? 0 : own == 6 ? bufsz : 20; error_page = string(n, 'E'); if (own == 4) onion_response_set_length(r, n); if (own == 7) onion_response_write_headers(r); onion_response_write(r, error_page.data(), n); if (own == 3) { onion_response_flush(r); onion_response_write0(r, "more"); error_page += "more"; } return OCS_PROCESSED; }
static void failing() {
  static const struct { int hs, code; const char *text; } T[] = {{OCS_NOT_PROCESSED, 404, "<h1>404 - Not found</h1>"}, {OCS_INTERNAL_ERROR, 500, "<h1>500 - Internal error</h1> Check server logs or contact administrator."}, {OCS_NOT_IMPLEMENTED, 501, "<h1>501 - Not implemented</h1>"}, {OCS_FORBIDDEN, 403, "<h1>403 - Forbidden</h1>"}};
  static Server *mine; if (!mine) { mine = new Server(on_request); onion_set_internal_error_handler(mine->o, onion_handler_new((onion_handler_handler)on_error, nullptr, nullptr)); }
  int m = choose(3), v = choose(2), c = choose(3), t = choose(4); own = choose(8); program(mc::thorough() ? 3 : 2, true); mc::note("%s %s then fails with %d; error handler %d", hdr(m, v, c).c_str(), show().c_str(), T[t].hs, own);
  Server *keep = sv; if (own) sv = mine; status = T[t].hs; error_page.clear(); Out o = go(m, v, c, nullptr, false); status = OCS_PROCESSED; sv = keep; mc::outcome_h(mc::hash(o.out) + o.open);
  if (!began) { written = own ? error_page : T[t].text; setlen = -1; judge(o, m, v, c); Resp r = parse_response(o.out, 0, m == 1, !o.open); if (r.code != (own ? 503 : T[t].code)) fail("the code is %d", r.code); if (r.count("Content-Length") > 1) fail("two lengths"); return; }
  if (o.open) fail("the answer was begun before the error, and the connection is kept open"); Resp r = parse_response(o.out, 0, m == 1, true); if (!r.err.empty()) fail("malformed answer: %s", r.err.c_str()); if (o.out.find("E") != string::npos && o.out.find("EEEE") != string::npos) fail("the error is inside of another answer"); if (r.used != o.out.size() && !r.incomplete && setlen < 0) fail("bytes after the end of the answer"); if (m != 1 && setlen < 0 && written.compare(0, r.body.size(), r.body)) fail("the body is not what was written: %s", esc(r.body).c_str()); if (r.get("Transfer-Encoding") && m != 1 && !r.incomplete) fail("an answer that failed looks complete");
}
int main(int argc, char **argv) {
  mc::rule("handler programs over the response API x method, version and Connection of the client x outcome of every transport write; a reference HTTP client judges the bytes");
  mc::add("handler programs", sequences, true, init); mc::add("handler programs with preparations", prepared, true, init); mc::add("lengths around the buffer", exact, true, init); mc::add("one faulty write anywhere", faults, true, init); mc::add("all writes short", every_write_short, true, init); mc::add("handlers that fail", failing, true, init); mc::add("flush delivers", flushed, true, init); mc::add("every way of writing, every length", every_length, true, init);
  return mc::main(argc, argv);
}
