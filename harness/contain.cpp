// P15: exported directories and WebDAV shares never reach outside of themselves
#include "fsguard.hpp"
#include "onion/handlers/exportlocal.h"
extern "C" {
#include "onion/handlers/webdav.h"
}
#include "onion/mime.h"
#include "onion/url.h"
#include <limits.h>
using namespace onh; using mc::choose;
static const char *MARK = "zq7-out"; static string S, base;
static void tree() { // builds it once per worker; nothing changes it
  S = mc::scratch() + "/t"; mkdir(S.c_str(), 0755); base = S + "/srv"; for (const char *d : {"/srv", "/srv/d", "/srv/d/e", "/out", "/out/sub", "/srv2", "/srv2/d"}) mkdir((S + d).c_str(), 0755);
  spit(S + "/srv/f", "IN-f"); spit(S + "/srv/d/g", "IN-g"); for (const char *f : {"/out/sec", "/out/sub/sec", "/srv2/sec", "/srv2/d/g", "/srv2/f", "/sec"}) spit(S + f, string("content ") + MARK); spit(S + "/out/zq7-out-name", "x"); spit(S + "/srv2/zq7-out-name", "x"); spit(S + "/zq7-out-name", "x");
  auto ln = [&](const char *t, const char *n) { if (symlink(t, (S + n).c_str())) fail("symlink"); }; ln("d", "/srv/lin"); ln("d/g", "/srv/lfile"); ln("../out", "/srv/lout"); ln("../out/sec", "/srv/lsec"); ln("../srv2", "/srv/lpre"); ln("../srv2/sec", "/srv/lpf"); ln("../out/newfile", "/srv/ldang"); ln("..", "/srv/lup"); ln((S + "/out").c_str(), "/srv/labs"); ln("loop", "/srv/loop"); ln("../../srv2", "/srv/d/l2"); ln("srv", "/lsrv"); ln(".", "/srv/ldot");
}
static const char *COMP[] = {"f", "d", "g", "..", ".", "", "lin", "lfile", "lout", "lsec", "sec", "lpre", "lpf", "ldang", "lup", "labs", "loop", "l2", "srv", "srv2", "out", "new", "ldot", "e", "sub", "lsrv", "..."}; static const int NC = sizeof COMP / sizeof *COMP;
static Server *sv; static int exported, mount; static string pre;
static const char *EXP[] = {"/srv", "/srv/", "/srv/.", "/lsrv", "/srv/../srv", "/srv/d/..", "/lsrv/d/../"};
static void server(int e, int mo, bool dav) { delete sv; sv = new Server(); exported = e; mount = mo; onion_handler *h = dav ? onion_handler_webdav((S + EXP[e]).c_str(), nullptr) : onion_handler_export_local_new((S + EXP[e]).c_str()); if (!h) fail("can not export"); if (mo == 0) { onion_set_root_handler(sv->o, h); pre = "/"; } else { onion_url *u = onion_url_new(); onion_url_add_handler(u, mo == 1 ? "^x/" : "^x", h); onion_set_root_handler(sv->o, onion_url_to_handler(u)); pre = "/x/"; } }
static string urlenc(const string &p, int how) { string r; for (char c : p) if (how == 0) r += c; else if (how == 1 ? c == '.' : how == 2 ? c == '/' : true) r += mc::strf("%%%02x", (unsigned char)c); else r += c; return r; }
static string body_of(const Resp &r) { return r.body; }
struct A { int code; string body, out; };
static A ask(const string &w) { Conn c(*sv); guard::log.clear(); guard::on = true; c.feed(w); guard::on = false; Resp r = parse_response(c.out, 0, false, !c.open); A a{r.code, body_of(r), c.out}; return a; }
static void contained(const A &a, const string &what) {
  if (a.out.find(MARK) != string::npos) fail("%s: something from outside the directory was sent: %s", what.c_str(), esc(a.out.substr(0, 600)).c_str());
  for (auto &r : guard::log) if (r.real != "(nowhere)" && !guard::inside(r.real, base)) fail("%s: %s of %s, that is %s, outside of the share", what.c_str(), r.op.c_str(), r.given.c_str(), r.real.c_str());
}
static bool plain_inside(const string &rel, string *content) { char rp[PATH_MAX]; if (!realpath((base + "/" + rel).c_str(), rp)) return false; struct stat st; if (stat((base + "/" + rel).c_str(), &st) || !S_ISREG(st.st_mode) || !guard::inside(rp, base)) return false; *content = slurp(rp); return true; }
static void paths(int depth, std::function<void(const string &)> f, string p0 = "") { std::function<void(const string &, int)> rec = [&](const string &p, int left) { f(p); if (left) for (auto c : COMP) rec(p + "/" + c, left - 1); }; rec(p0, depth); }
static void init() { tree(); onion_mime_set(onion_dict_new()); }
static void get_local() { // every path up to the bound through exportlocal
  int e = choose(7), mo = choose(3); int c1 = choose(NC); mc::shard(); server(e, mo, false); int how = 0; int depth = e == 0 ? (mc::thorough() || mo == 0 ? 4 : 3) : mc::thorough() ? 3 : 2; long n = 0;
  for (how = 0; how < 4; how++) paths(how == 0 ? depth - 1 : std::min(depth - 1, 1), [&](const string &p) { A a = ask("GET " + pre + urlenc(p, how) + " HTTP/1.1\r\n\r\n"); n++; string what = "GET " + pre + p + " of " + EXP[e]; contained(a, what); string want; if (plain_inside(p, &want)) { if (a.code != 200 || a.body != want) fail("%s: a file inside the directory, and the answer is %d", what.c_str(), a.code); } else if (a.code == 200 && a.body.find("<html>") == string::npos) fail("%s: answered 200 with %s", what.c_str(), esc(a.body.substr(0, 100)).c_str()); mc::state(mc::hash(what + std::to_string(a.code))); }, COMP[c1]);
  if (!guard::log.empty()) fail("changed something"); mc::outcome("contained");
}
static void file_local() { int k = choose(3); mc::shard(); delete sv; sv = new Server(); static const char *F[] = {"/srv/f", "/srv/lfile", "/srv/lsec"}; onion_handler *h = onion_handler_export_local_new((S + F[k]).c_str()); onion_set_root_handler(sv->o, h); paths(2, [&](const string &p) { A a = ask("GET /" + p + " HTTP/1.1\r\n\r\n"); if (a.code != 200 || a.body != slurp((S + F[k]).c_str())) fail("an exported file is not served at %s (%d)", p.c_str(), a.code); mc::state(mc::hash(p)); }); mc::outcome("served"); }
static const char *DAV[] = {"GET", "HEAD", "PUT", "DELETE", "MKCOL", "PROPFIND", "PROPPATCH", "OPTIONS"};
static string dav_request(int m, const string &target, const string &extra = "") { string body, h = extra; if (m == 2) body = "uploaded"; if (m == 5) h += "Depth: 1\r\n"; if (m == 6) body = "<?xml version=\"1.0\"?><D:propertyupdate xmlns:D=\"DAV:\"><D:set><D:prop><executable>T</executable></D:prop></D:set></D:propertyupdate>"; return string(DAV[m]) + " " + target + " HTTP/1.1\r\n" + h + (m == 2 || m == 6 ? "Content-Length: " + std::to_string(body.size()) + "\r\n" : "") + "\r\n" + body; }
static void dav() { // every method on every path; with rename working and failing as between file systems
  int m = choose(8), e = choose(3), x = choose(2); int c1 = choose(NC); if (x && m != 2) mc::prune(); mc::shard(); static const int es[] = {0, 1, 3}; server(es[e], e, true); guard::exdev = x; int depth = mc::thorough() ? (e == 0 ? 4 : 3) : e == 0 ? 3 : 2; if (m >= 4 && e) depth--; 
  for (int how = 0; how < 3; how++) paths(how == 0 ? depth - 1 : std::min(depth - 1, 1), [&](const string &p) { string what = string(DAV[m]) + " " + pre + p + (x ? " (other file system)" : ""); mc::note("%s", what.c_str()); A a = ask(dav_request(m, pre + urlenc(p, how))); contained(a, what); string want; bool dd = ("/" + p + "/").find("/../") != string::npos; if (m == 0) { if (!dd && plain_inside(p, &want)) { if (a.code != 200 || a.body != want) fail("%s: a file inside the share, and the answer is %d", what.c_str(), a.code); } else if (!dd && a.code == 200) fail("%s answered 200", what.c_str()); } mc::state(mc::hash(what + std::to_string(a.code))); }, COMP[c1]);
  guard::exdev = false; mc::outcome("contained");
}
static void dav_move() { // every origin and destination
  int x = choose(2), e = choose(2), c1 = choose(NC); mc::shard(); server(e ? 3 : 0, e, true); guard::exdev = x; vector<string> src = {COMP[c1]}; if (mc::thorough() || c1 == 1 || c1 == 6 || c1 == 3 || c1 == 8 || c1 == 11 || c1 == 14) for (auto c : COMP) src.push_back(string(COMP[c1]) + "/" + c);
  for (auto &s : src) for (int how = 0; how < 3; how++) paths(how == 0 ? (mc::thorough() && s.find('/') == string::npos ? 2 : 1) : 0, [&](const string &d0) { for (auto c : COMP) { string d = c + d0; string to = "http://host" + pre + urlenc(d, how); string what = "MOVE " + pre + s + " to " + to + (x ? " (other file system)" : ""); mc::note("%s", what.c_str()); A a = ask("MOVE " + pre + s + " HTTP/1.1\r\nDestination: " + to + "\r\n\r\n"); contained(a, what); mc::state(mc::hash(what)); } }); guard::exdev = false; mc::outcome("contained");
}
static void dav_destinations() { // odd forms of the destination
  static const char *T[] = {"http:", "/", "//", "host", "x", "..", "f", "%2f", "%2e%2e", "%00", "new", "?", "srv2", " ", "d"}; int a = choose(15), mo = choose(2); mc::shard(); server(0, mo, true); std::function<void(const string &, int)> rec = [&](const string &t, int left) { mc::note("Destination: %s", t.c_str()); A r = ask("MOVE " + pre + "f HTTP/1.1\r\nDestination: " + t + "\r\n\r\n"); contained(r, "MOVE to " + t); mc::state(mc::hash(t)); if (left) for (auto x : T) rec(t + x, left - 1); }; rec(T[a], mc::thorough() ? 4 : 3); mc::outcome("contained");
}
static void long_paths() { // a path is never taken for a shorter one
  int m = choose(10), mo = choose(2), part = choose(8); mc::shard(); bool dav = m > 0; server(0, mo, dav); string root = S + EXP[0] + "/"; int top = mc::thorough() ? 4300 : 700;
  for (int L = 100 + part; L < top; L += 8) for (const char *victim : {"f", "d/g", "new"}) for (int tail = 1; tail < 4; tail++) { // base/./././//victim is L long; then more
    string fill; int need = L - (int)root.size() - (int)strlen(victim); if (need < 0) continue; while ((int)fill.size() + 2 <= need) fill += "./"; if ((int)fill.size() < need) fill += "/"; string p = fill + victim + string(tail, 'x'); string what = mc::strf("%s of a path of %zu bytes ending in %s%s", m == 9 ? "MOVE to" : m ? DAV[m - 1] : "GET (directory)", p.size() + root.size(), victim, string(tail, 'x').c_str());
    A a; if (m == 9) a = ask("MOVE " + pre + "f HTTP/1.1\r\nDestination: http://h" + pre + p + "\r\n\r\n"); else a = ask(dav ? dav_request(m - 1, pre + p) : "GET " + pre + p + " HTTP/1.1\r\n\r\n"); contained(a, what); if (a.code == 200 && m <= 1) fail("%s answered 200", what.c_str());
    string bad = base + "/" + victim; for (auto &r : guard::log) if (r.real == bad && r.op != "rename from") fail("%s: %s of %s", what.c_str(), r.op.c_str(), bad.c_str()); mc::state(mc::hash(what)); }
  mc::outcome("contained");
}
static void filesystem_root() { // exporting / is allowed, and then everything is inside
  int k = choose(2); mc::shard(); delete sv; sv = new Server(); onion_handler *h = k ? onion_handler_webdav("/", nullptr) : onion_handler_export_local_new("/"); onion_set_root_handler(sv->o, h); string f = S + "/srv/f"; Conn c(*sv); c.feed("GET /" + urlenc(f.substr(1), 3) + " HTTP/1.1\r\n\r\n"); Resp r = parse_response(c.out, 0, false, false); if (r.code != 200 || r.body != "IN-f") fail("%s answered %d", f.c_str(), r.code); mc::outcome("served"); }
int main(int c, char **v) {
  mc::rule("A directory with files, directories and links of every kind (inside, outside, to a sibling whose name starts alike, dangling, absolute, loop), exported in 7 ways and mounted in 3; every path up to the bound over 27 components, plain and percent encoded, every WebDAV method, every origin and destination of MOVE, also when rename fails as between file systems. Destructive calls are stand-ins that record the place they would touch.");
  mc::assume("The tree does not change between the permission check and the operation, except by the server."); mc::assume("Names and sizes of links inside the directory may be listed.");
  mc::add("paths of exported directories", get_local, true, init); mc::add("exported files", file_local, true, init); mc::add("WebDAV methods on every path", dav, true, init); mc::add("MOVE", dav_move, true, init); mc::add("odd destinations", dav_destinations, true, init); mc::add("long paths", long_paths, true, init); mc::add("exported root", filesystem_root, true, init); return mc::main(c, v);
}
