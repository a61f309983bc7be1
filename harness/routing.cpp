// P13: requests reach the first handler whose pattern matches, with the matched part taken off the path and the groups available.
#include "onh.hpp"
#include "onion/url.h"
#include "onion/handlers/path.h"
#include "onion/handlers/static.h"
#include <regex.h>
using namespace onh; using mc::choose;
static vector<string> seen; static int frees;
struct Leaf { string id; int answer; };           // what it returns
static std::map<string, string> groups(onion_request *req) { std::map<string, string> g; for (int i = 0; i <= 16; i++) { string k = std::to_string(i); const char *v = onion_request_get_query(req, k.c_str()); if (v) g[k] = v; } return g; }
static string fmt(const string &id, const string &path, const std::map<string, string> &g) { string r = id + " path=<" + path + ">"; for (auto &e : g) r += " " + e.first + "=<" + e.second + ">"; return r; }
static int leaf(Leaf *l, onion_request *req, onion_response *res) { seen.push_back(fmt(l->id, onion_request_get_path(req), groups(req))); if (l->answer == OCS_PROCESSED) onion_response_write0(res, l->id.c_str()); return l->answer; }
static void leaf_free(Leaf *l) { frees++; delete l; }

// the router as data: built on the implementation, and interpreted by the reference
struct Node; struct Route { string pat; vector<Node> in; };
struct Node { char kind; /* 'L' leaf, 'U' url, 'P' path, 'S' static */ string id; int answer = OCS_PROCESSED; vector<Route> routes; };
static int nleaves;
static onion_handler *build(const vector<Node> &chain);
static onion_handler *build1(const Node &n) {
  if (n.kind == 'L') { nleaves++; return onion_handler_new((onion_handler_handler)leaf, new Leaf{n.id, n.answer}, (onion_handler_private_data_free)leaf_free); }
  if (n.kind == 'S') return onion_handler_static(n.id.c_str(), 201);
  if (n.kind == 'P') return onion_handler_path(n.routes[0].pat.c_str(), build(n.routes[0].in));
  onion_url *u = onion_url_new(); for (auto &r : n.routes) if (onion_url_add_handler(u, r.pat.c_str(), build(r.in))) fail("pattern %s refused", r.pat.c_str()); return onion_url_to_handler(u);
}
static onion_handler *build(const vector<Node> &chain) { onion_handler *f = nullptr; for (auto &n : chain) { onion_handler *h = build1(n); if (!f) f = h; else onion_handler_add(f, h); } return f; }
typedef std::map<string, string> G;
static vector<string> want;
static regex_t *compiled(const string &p) { static std::map<string, regex_t *> c; auto it = c.find(p); if (it != c.end()) return it->second; regex_t *r = new regex_t; if (regcomp(r, p.c_str(), REG_EXTENDED)) fail("regcomp"); return c[p] = r; }
// -> answer of the chain
static int model(const vector<Node> &chain, const string &path, G &g, string &body, int &code) {
  for (auto &n : chain) {
    int r = OCS_NOT_PROCESSED;
    if (n.kind == 'L') { want.push_back(fmt(n.id, path, g)); r = n.answer; if (r == OCS_PROCESSED) { body = n.id; code = 200; } }
    else if (n.kind == 'S') { body = n.id; code = 201; return OCS_PROCESSED; }
    else for (auto &rt : n.routes) {
      regmatch_t m[20]; bool re = n.kind == 'P' || rt.pat[0] == '^'; size_t used;
      if (re) { regex_t *x = compiled(rt.pat); if (regexec(x, path.c_str(), 20, m, 0)) continue; used = m[0].rm_eo; if (n.kind == 'U') for (size_t i = 1; i < 16 && i <= x->re_nsub; i++) if (m[i].rm_so >= 0) g[std::to_string(i)] = path.substr(m[i].rm_so, m[i].rm_eo - m[i].rm_so); }
      else { if (path != rt.pat) continue; used = path.size(); }
      r = model(rt.in, path.substr(used), g, body, code); break;
    }
    if (r != OCS_NOT_PROCESSED) return r;
  }
  return OCS_NOT_PROCESSED;
}
static string show(const vector<Node> &c) { string s; for (auto &n : c) { s += n.kind; s += n.id; if (n.kind == 'L' && n.answer != OCS_PROCESSED) s += mc::strf("(%d)", n.answer); for (auto &r : n.routes) s += "[" + r.pat + " -> " + show(r.in) + "]"; s += " "; } return s; }
static Server *sv; static onion_handler *cur;
static void init() { sv = new Server(); }
static void use(const vector<Node> &chain) { nleaves = frees = 0; onion_handler_free(sv->o->root_handler); onion_set_root_handler(sv->o, build(chain)); }
static void drop() { int n = nleaves; onion_handler_free(sv->o->root_handler); onion_set_root_handler(sv->o, onion_handler_new((onion_handler_handler)call_handler, sv, nullptr)); if (frees != n) fail("%d handlers, %d of them freed with the router", n, frees); }
static void ask(const vector<Node> &chain, const string &path, const string &query, const G &q) {
  mc::note("router %s\nrequest /%s%s", show(chain).c_str(), path.c_str(), query.c_str()); seen.clear(); want.clear(); G g = q; string body; int code = 404; int r = model(chain, path, g, body, code);
  string out; { Conn c(*sv); c.feed("GET /" + path + query + " HTTP/1.1\r\nConnection: close\r\n\r\n"); out = c.out; }
  if (seen != want) { string a, b; for (auto &x : seen) a += x + "\n"; for (auto &x : want) b += x + "\n"; fail("called:\n%sexpected:\n%s", a.c_str(), b.c_str()); }
  if (r == OCS_INTERNAL_ERROR) code = 500; if (r == OCS_FORBIDDEN) code = 403; Resp p = parse_response(out, 0, false, true); if (!p.err.empty() || p.incomplete) fail("bad answer"); if (p.code != code) fail("answered %d, expected %d", p.code, code); if (r == OCS_PROCESSED && p.body != body) fail("answered by %s, expected %s", p.body.c_str(), body.c_str());
  for (auto &w : want) mc::outcome(w); if (want.empty()) mc::outcome(body + "-");
}
static const char *PAT[] = {"", "a", "a/b", "ab", "^", "^a", "^a/", "^a$", "^(a)?(b)", "^(.*)$", "^a/([^/]*)/?", "^([ab]*)/(.*)", "^b", "^(a(b)?)+/", "^a|^b/", "/", "a/"};
static Node L(const string &id, int ans = OCS_PROCESSED) { Node n; n.kind = 'L'; n.id = id; n.answer = ans; return n; }
static const char *QS[] = {"", "?1=q", "?2=y&1=x&1=z&0=w"}; static const G QG[] = {{}, {{"1", "q"}}, {}};
static string paths(int maxlen) { static const char al[] = "ab/."; int n = choose(maxlen + 1); string p; for (int i = 0; i < n; i++) p += al[choose(n > 5 ? 3 : 4)]; return p; }
// asks one router for every path up to the length (each an evaluation of its own)
static void all_paths(const vector<Node> &ch, int maxlen) { use(ch); int q = choose(2); static const char al[] = "ab/."; for (int n = 0; n <= maxlen; n++) { int base = n > 4 ? 3 : 4; long tot = 1; for (int i = 0; i < n; i++) tot *= base; for (long k = 0; k < tot; k++) { string p; long x = k; for (int i = 0; i < n; i++) { p += al[x % base]; x /= base; } ask(ch, p, QS[q], QG[q]); mc::state(mc::hash(p) * 31 + mc::hash(show(ch)) + q); } } drop(); }
static const int NP = sizeof PAT / sizeof *PAT;
static void flat() { // up to three routes, answering or declining, then a sibling handler
  int n = 1 + choose(mc::thorough() ? 3 : 2); Node u; u.kind = 'U'; for (int i = 0; i < n; i++) { Route r; r.pat = PAT[choose(NP)]; static const int an[] = {OCS_PROCESSED, OCS_NOT_PROCESSED, OCS_FORBIDDEN}; r.in.push_back(L(mc::strf("r%d", i), an[choose(i == 0 ? 2 : n > 2 ? 1 : 2)])); u.routes.push_back(r); if (i == 0) mc::shard(); }
  vector<Node> ch{u}; if (choose(2)) ch.push_back(L("sibling")); all_paths(ch, mc::thorough() ? 5 : 4);
}
static void nested() { // a router (or path handler) inside a router, siblings at both levels
  char ok = choose(2) ? 'P' : 'U', ik = choose(2) ? 'P' : 'U'; string op = PAT[choose(NP)]; mc::shard(); string ip = PAT[choose(NP)]; int decl = choose(2), sib = choose(3); Node in; in.kind = ik; in.routes.push_back({ip, {L("inner", decl ? OCS_NOT_PROCESSED : OCS_PROCESSED)}}); Node o; o.kind = ok; vector<Node> inside{in}; if (sib == 1) inside.push_back(L("inner-sibling")); o.routes.push_back({op, inside}); if (ok == 'U') o.routes.push_back({"^a", {L("second")}});
  vector<Node> ch{o}; if (sib == 2) ch.push_back(L("sibling")); all_paths(ch, mc::thorough() ? 5 : 4);
}
static void chains() { // handlers are asked in order until one answers
  int n = 1 + choose(5); vector<Node> ch; static const int an[] = {OCS_PROCESSED, OCS_NOT_PROCESSED, OCS_FORBIDDEN, OCS_INTERNAL_ERROR}; for (int i = 0; i < n; i++) { int a = choose(5); if (i == 0) mc::shard(); if (a == 4) { Node s; s.kind = 'S'; s.id = mc::strf("s%d", i); ch.push_back(s); } else ch.push_back(L(mc::strf("h%d", i), an[a])); } use(ch); ask(ch, "a", "", {}); drop();
}
static void many_groups() { // groups up to 15
  int k = choose(16); mc::shard(); string pat = "^", path; int skip = choose(k + 1); for (int i = 1; i <= k; i++) { pat += i == skip ? "(x)?" : "([a-z]*)/"; if (i != skip) path += string(i % 4, 'a' + i) + "/"; } Node u; u.kind = 'U'; u.routes.push_back({pat, {L("r")}}); vector<Node> ch{u}; use(ch); ask(ch, path + "rest", "", {}); drop();
}
static void shadow() { // query parameters named as groups never replace the groups
  static const char *qs[] = {"?1=evil", "?1=evil&1=evil2", "?2=evil&1=e", "?1", "?1=a&1=b&1=c&2=d&2=e&3=f"}; int q = choose(5); mc::shard(); int pt = choose(3); static const char *pp[] = {"^([a-z]*)/([a-z]*)", "^(u)?([a-z]*)/", "^([a-z]*)$"}; static const char *pa[] = {"good/fine", "good/", "good"}; G m; Node u; u.kind = 'U'; u.routes.push_back({pp[pt], {L("r")}}); vector<Node> ch{u}; use(ch); seen.clear(); { Conn c(*sv); c.feed(string("GET /") + pa[pt] + qs[q] + " HTTP/1.1\r\nConnection: close\r\n\r\n"); } mc::note("%s %s%s", pp[pt], pa[pt], qs[q]); if (seen.size() != 1) fail("called %zu times", seen.size()); const char *k = pt == 1 ? " 2=<good>" : " 1=<good>"; if (seen[0].find(k) == string::npos) fail("the handler sees %s", seen[0].c_str()); if (pt == 0 && seen[0].find(" 2=<fine>") == string::npos) fail("the handler sees %s", seen[0].c_str()); drop(); mc::outcome(seen[0]);
}
static void advance() { // moving inside the path never leaves it
  string p = string(choose(6), 'p'); vector<int> mv; int n = 1 + choose(3); for (int i = 0; i < n; i++) { mv.push_back(choose(17) - 8); if (i == 0) mc::shard(); } string got; sv->h = [&](onion_request *req, onion_response *) -> int { long at = 1, full = p.size() + 1; for (int m : mv) { onion_request_advance_path(req, m); if (at + m >= 0 && at + m <= full) at += m; string e = ("/" + p).substr(at); if (e != onion_request_get_path(req)) fail("path is %s, expected %s", onion_request_get_path(req), e.c_str()); } if (string(onion_request_get_fullpath(req)) != "/" + p) fail("the full path changed"); return OCS_PROCESSED; }; { Conn c(*sv); c.feed("GET /" + p + " HTTP/1.1\r\n\r\n"); } mc::outcome(mc::strf("%zu %d", p.size(), n));
}
static void statics() { static const char *T[] = {"", "x", "hello world"}; int t = choose(3), code = 200 + choose(300); mc::shard(); if (code == 204 || code == 304) return; onion_url *u = onion_url_new(); string text = choose(2) ? T[t] : string(T[t]) + string(3000, 'y'); if (onion_url_add_static(u, "^s", text.c_str(), code)) fail("refused"); onion_handler_free(sv->o->root_handler); onion_set_root_handler(sv->o, onion_url_to_handler(u)); string out; { Conn c(*sv); c.feed("GET /s HTTP/1.1\r\n\r\n"); out = c.out; } Resp r = parse_response(out, 0, false, false); if (!r.err.empty() || r.code != code || r.body != text) fail("static route answered %d %s", r.code, r.body.substr(0, 40).c_str()); nleaves = frees = 0; drop(); mc::outcome(mc::strf("%d %zu", code, text.size())); }
static void badpat() { static const char *B[] = {"^(", "^[a", "^a{2,1}", "^*", "^(a"}; int b = choose(5); mc::shard(); int n = choose(3); Node u; u.kind = 'U'; for (int i = 0; i < n; i++) u.routes.push_back({i ? "^a" : "b", {L(mc::strf("r%d", i))}}); vector<Node> ch{u}; regex_t x; bool good = regcomp(&x, B[b], REG_EXTENDED) == 0; if (good) { regfree(&x); return; } use(ch); onion_url *uu = (onion_url *)sv->o->root_handler; onion_handler *h = build1(L("bad")); if (!onion_url_add_handler(uu, B[b], h)) fail("bad pattern %s accepted", B[b]); onion_handler_free(h); if (onion_url_add_handler(uu, "^z", build1(L("last")))) fail("good pattern refused after a bad one"); ch[0].routes.push_back({"^z", {L("last")}}); string p = paths(1); ask(ch, p, "", {}); ask(ch, "z", "", {}); drop(); }
int main(int argc, char **argv) {
  mc::rule("routers of up to 3 routes, nested and chained, out of 17 literal and regular patterns x every path over {a b / .} to the bound x queries; a reference router says which handlers are asked, with which path and groups; distinct calls count");
  mc::add("routes", flat, true, init); mc::add("nested routers and path handlers", nested, true, init); mc::add("chains", chains, true, init); mc::add("groups", many_groups, true, init); mc::add("groups and query", shadow, true, init); mc::add("advance", advance, true, init); mc::add("static routes", statics, true, init); mc::add("bad patterns", badpat, true, init);
  return mc::main(argc, argv);
}
