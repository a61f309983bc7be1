// P16: WebDAV operations do to the shared tree exactly what they say, or nothing
#include "fsguard.hpp"
extern "C" {
#include "onion/handlers/webdav.h"
}
#include "onion/mime.h"
#include "onion/url.h"
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <dirent.h>
#include <ftw.h>
using namespace onh; using mc::choose;
static Server *sv; static string base, pre; static int nserver = -1;
struct N { bool dir; string data; bool x; bool operator==(const N &o) const { return dir == o.dir && data == o.data && (dir || x == o.x); } }; typedef std::map<string, N> T; // path relative to the share
static int rmone(const char *p, const struct stat *, int, struct FTW *) { ::remove(p); return 0; }
static void wipe() { bool g = guard::on; guard::on = false; nftw(base.c_str(), rmone, 16, FTW_DEPTH | FTW_PHYS); mkdir(base.c_str(), 0755); guard::on = g; }
static void walk(const string &rel, T &t) { DIR *d = opendir((base + rel).c_str()); if (!d) return; while (dirent *e = readdir(d)) { string n = e->d_name; if (n == "." || n == "..") continue; string p = rel + "/" + n; struct stat st; lstat((base + p).c_str(), &st); if (S_ISDIR(st.st_mode)) { t[p] = {true, "", false}; walk(p, t); } else if (S_ISREG(st.st_mode)) t[p] = {false, slurp((base + p).c_str()), (st.st_mode & 0111) != 0}; else t[p] = {false, "(other)", false}; } closedir(d); }
static T actual() { T t; walk("", t); return t; }
static string show(const T &t) { string r; for (auto &e : t) r += esc(e.first) + (e.second.dir ? "/ " : "=" + esc(e.second.data.substr(0, 20)) + (e.second.x ? "* " : " ")); return "{" + r + "}"; }
static void build(const T &t) { wipe(); for (auto &e : t) if (e.second.dir) mkdir((base + e.first).c_str(), 0755); else { spit(base + e.first, e.second.data); if (e.second.x) chmod((base + e.first).c_str(), 0755); } }
static void server(int mo) { if (mo == nserver) return; delete sv; sv = new Server(); onion_handler *h = onion_handler_webdav(base.c_str(), nullptr); nserver = mo; if (mo == 0) { onion_set_root_handler(sv->o, h); pre = ""; } else { onion_url *u = onion_url_new(); onion_url_add_handler(u, mo == 1 ? "^x/" : mo == 2 ? "^x" : "^x/y/", h); onion_set_root_handler(sv->o, onion_url_to_handler(u)); pre = mo == 3 ? "/x/y" : "/x"; } }
static void init() { base = mc::scratch() + "/share"; mkdir(base.c_str(), 0755); onion_mime_set(onion_dict_new()); guard::act = true; nserver = -1; }
static string enc(const string &p) { string r; for (unsigned char c : p) if (isalnum(c) || c == '/') r += c; else r += mc::strf("%%%02X", c); return r; }
static string dec(const string &p) { string r; for (size_t i = 0; i < p.size(); i++) if (p[i] == '%' && i + 2 < p.size() + 0 && isxdigit(p[i + 1]) && isxdigit(p[i + 2])) { r += (char)strtol(p.substr(i + 1, 2).c_str(), 0, 16); i += 2; } else r += p[i]; return r; }
static Resp ask(const string &method, const string &path, const string &hdr = "", const string *body = nullptr) { Conn c(*sv); guard::log.clear(); guard::on = true; bool head = method == "HEAD"; c.feed(method + " " + pre + enc(path) + " HTTP/1.1\r\n" + hdr + (body ? "Content-Length: " + std::to_string(body->size()) + "\r\n" : "") + "\r\n" + (body ? *body : "")); guard::on = false; bool open = c.open; string out = c.out; c.close(); Resp r = parse_response(out, 0, head, !open); if (out.empty()) fail("%s %s is not answered", method.c_str(), esc(path).c_str()); if (!r.err.empty() || r.incomplete || r.used != out.size()) fail("%s %s: malformed answer %s", method.c_str(), esc(path).c_str(), esc(out.substr(0, 300)).c_str()); return r; }
static string parent(const string &p) { return p.substr(0, p.rfind('/')); }
static bool isdir(const T &t, const string &p) { if (p.empty()) return true; auto i = t.find(p); return i != t.end() && i->second.dir; }
static bool empty_dir(const T &t, const string &p) { for (auto &e : t) if (e.first.compare(0, p.size() + 1, p + "/") == 0) return false; return true; }
// the model: true if the operation is possible, and then applied to t
static bool m_put(T &t, const string &p, const string &d) { if (!isdir(t, parent(p)) || isdir(t, p)) return false; t[p] = {false, d, false}; return true; }
static bool m_del(T &t, const string &p) { if (!t.count(p) || (t[p].dir && !empty_dir(t, p))) return false; t.erase(p); return true; }
static bool m_mkcol(T &t, const string &p) { if (!isdir(t, parent(p)) || t.count(p)) return false; t[p] = {true, "", false}; return true; }
static bool m_move(T &t, const string &a, const string &b) { if (!t.count(a) || !isdir(t, parent(b))) return false; if (a == b) return true; if (b.compare(0, a.size() + 1, a + "/") == 0) return false; if (t.count(b)) { if (t[a].dir != t[b].dir) return false; if (t[b].dir && !empty_dir(t, b)) return false; } T n; for (auto &e : t) { if (e.first == b) continue; if (e.first == a || e.first.compare(0, a.size() + 1, a + "/") == 0) n[b + e.first.substr(a.size())] = e.second; else n[e.first] = e.second; } t = n; return true; }
static string to(const string &p) { return "Destination: http://host:8080" + pre + enc(p) + "\r\n"; }
static const string XBODY[2] = {"<?xml version=\"1.0\"?><D:propertyupdate xmlns:D=\"DAV:\"><D:set><D:prop><a:executable xmlns:a=\"http://apache.org/dav/props/\">F</a:executable></D:prop></D:set></D:propertyupdate>", "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<D:propertyupdate xmlns:D=\"DAV:\">\n <D:set>\n  <D:prop>\n   <a:executable xmlns:a=\"http://apache.org/dav/props/\">T</a:executable>\n  </D:prop>\n </D:set>\n</D:propertyupdate>\n"};
// PROPFIND
struct Item { string href; bool col = false, x = false; bool hascl = false; string cl; std::set<string> ok, missing; };
static xmlNode *kid(xmlNode *n, const char *name) { for (xmlNode *c = n->children; c; c = c->next) if (c->type == XML_ELEMENT_NODE && !strcmp((const char *)c->name, name)) return c; return nullptr; }
static string text(xmlNode *n) { xmlChar *c = xmlNodeGetContent(n); string r = c ? (const char *)c : ""; xmlFree(c); return r; }
static vector<Item> propfind(const string &path, int depth, const string *body, int *code) {
  Resp r = ask("PROPFIND", path, mc::strf("Depth: %d\r\n", depth), body); *code = r.code; vector<Item> v; if (r.code != 207) return v; xmlDocPtr d = xmlParseMemory(r.body.data(), r.body.size()); if (!d) fail("PROPFIND %s gives no XML: %s", esc(path).c_str(), esc(r.body.substr(0, 500)).c_str()); xmlNode *root = xmlDocGetRootElement(d); if (strcmp((const char *)root->name, "multistatus")) fail("PROPFIND gives %s", (const char *)root->name);
  for (xmlNode *c = root->children; c; c = c->next) { if (c->type != XML_ELEMENT_NODE) continue; if (strcmp((const char *)c->name, "response")) fail("unexpected element %s", (const char *)c->name); Item it; xmlNode *h = kid(c, "href"); if (!h) fail("no href"); it.href = text(h);
    for (xmlNode *ps = c->children; ps; ps = ps->next) { if (ps->type != XML_ELEMENT_NODE || strcmp((const char *)ps->name, "propstat")) continue; xmlNode *st = kid(ps, "status"), *pr = kid(ps, "prop"); if (!st || !pr) fail("propstat without status or prop"); bool ok = text(st).find(" 200 ") != string::npos; for (xmlNode *p = pr->children; p; p = p->next) { if (p->type != XML_ELEMENT_NODE) continue; string n = (const char *)p->name; (ok ? it.ok : it.missing).insert(n); if (ok && n == "resourcetype") it.col = kid(p, "collection") != nullptr; if (ok && n == "getcontentlength") { it.hascl = true; it.cl = text(p); } if (ok && n == "executable") it.x = text(p) == "true"; } } v.push_back(it); }
  xmlFreeDoc(d); return v;
}
static string norm(const string &p) { string r; for (size_t i = 0; i < p.size(); i++) if (!(p[i] == '/' && !r.empty() && r.back() == '/')) r += p[i]; while (!r.empty() && r.back() == '/') r.pop_back(); return r; }
static void listing(const T &t, const string &path, int depth, const string *body = nullptr) { // exactly the resource and its visible members
  int code; vector<Item> v = propfind(path, depth, body, &code); string p = norm(path); bool there = p.empty() || t.count(p); if (!there) { if (code < 400) fail("PROPFIND of a missing %s answered %d", esc(path).c_str(), code); return; } if (code != 207) fail("PROPFIND %s answered %d", esc(path).c_str(), code);
  std::map<string, N> want; want[p] = p.empty() ? N{true, "", false} : t.at(p); if (depth && want[p].dir) for (auto &e : t) if (parent(e.first) == p && e.first[p.size() + 1] != '.') want[e.first] = e.second;
  std::set<string> seen; for (auto &it : v) { string h = dec(it.href); for (unsigned char c : it.href) if (c <= 32 || c >= 127 || strchr("<>\"{}|\\^`#?", c)) fail("href %s is not an URL", esc(it.href).c_str()); if (h.compare(0, pre.size(), pre) || (h.size() > pre.size() && h[pre.size()] != '/')) fail("href %s is not in the share %s", esc(it.href).c_str(), pre.c_str()); if (it.href.compare(0, 2, "//") == 0) fail("href %s names another server", it.href.c_str()); string rel = norm(h.substr(pre.size())); auto w = want.find(rel); if (w == want.end()) fail("PROPFIND %s lists %s, that is not there (%s)", esc(path).c_str(), esc(it.href).c_str(), show(t).c_str()); if (!seen.insert(rel).second) fail("PROPFIND %s lists %s twice", esc(path).c_str(), esc(rel).c_str()); if (it.ok.count("resourcetype") && it.col != w->second.dir) fail("%s is listed as %s", esc(rel).c_str(), it.col ? "collection" : "file"); if (it.hascl && (w->second.dir || it.cl != std::to_string(w->second.data.size()))) fail("%s has length %s", esc(rel).c_str(), it.cl.c_str()); if (it.ok.count("executable") && !w->second.dir && it.x != w->second.x) fail("executable of %s is wrong", esc(rel).c_str()); }
  if (seen.size() != want.size()) fail("PROPFIND %s lists %zu of %zu resources of %s", esc(path).c_str(), seen.size(), want.size(), show(t).c_str());
}
static const string ALLPROPS = "<?xml version=\"1.0\"?><D:propfind xmlns:D=\"DAV:\"><D:prop><D:resourcetype/><D:getcontentlength/><D:getlastmodified/><D:creationdate/><D:getetag/><D:getcontenttype/><D:displayname/><executable xmlns=\"http://apache.org/dav/props/\"/></D:prop></D:propfind>";
static void observe_all(const T &t) { T a = actual(); if (a != t) fail("the share is %s and should be %s", show(a).c_str(), show(t).c_str()); }
static void deep(const T &t, const vector<string> &names) { for (auto &p : names) { Resp r = ask("GET", p); auto i = t.find(p); if (i != t.end() && !i->second.dir) { if (r.code != 200 || r.body != i->second.data) fail("GET %s answers %d", esc(p).c_str(), r.code); } else if (r.code < 400) fail("GET %s answers %d", esc(p).c_str(), r.code); listing(t, p, 1, &ALLPROPS); } listing(t, "/", 1, nullptr); listing(t, "/", 0, &ALLPROPS); }
struct Op { char k; string a, b; }; static string showop(const Op &o) { return string(1, o.k) + " " + o.a + (o.b.empty() ? "" : ">" + o.b); }
static void step(T &t, const Op &o, bool exdev) {
  Resp r; T before = t; bool can = false; bool may_refuse = false;
  switch (o.k) { case 'P': can = m_put(t, o.a, o.b); r = ask("PUT", o.a, "", &o.b); break; case 'D': can = m_del(t, o.a); r = ask("DELETE", o.a); break; case 'K': can = m_mkcol(t, o.a); r = ask("MKCOL", o.a); break; case 'M': may_refuse = exdev && before.count(o.a) && before[o.a].dir; can = m_move(t, o.a, o.b); r = ask("MOVE", o.a, to(o.b)); break;
    case 'X': { bool on = o.b == "T"; can = t.count(o.a) && !t[o.a].dir; if (can) t[o.a].x = on; if (t.count(o.a) && t[o.a].dir) may_refuse = true; r = ask("PROPPATCH", o.a, "", &XBODY[on]); if (before.count(o.a) && before[o.a].dir) { chmod((base + o.a).c_str(), 0755); can = r.code < 300; } break; } }
  if (may_refuse && can && r.code >= 400) { t = before; can = false; }
  if (can && r.code / 100 != 2) fail("%s is possible on %s and answers %d", showop(o).c_str(), show(before).c_str(), r.code); if (!can && r.code < 400) fail("%s is not possible on %s and answers %d", showop(o).c_str(), show(before).c_str(), r.code);
  T a = actual(); if (a != t) fail("after %s on %s (answer %d) the share is %s and should be %s", showop(o).c_str(), show(before).c_str(), r.code, show(a).c_str(), show(t).c_str());
}
static void histories() { // all sequences of operations over a small name space
  static const vector<string> names = {"/a", "/b", "/d", "/d/a"}; static vector<Op> ops; if (ops.empty()) { for (auto &n : names) { ops.push_back({'P', n, "one"}); ops.push_back({'P', n, string("t\0wo", 4)}); ops.push_back({'D', n, ""}); ops.push_back({'K', n, ""}); ops.push_back({'X', n, "T"}); ops.push_back({'X', n, "F"}); for (auto &m : names) ops.push_back({'M', n, m}); } }
  int st = choose(3), x = choose(2), mo = choose(4); if (!mc::thorough() && (mo > 1 || (x && mo))) mc::prune(); static const T starts[] = {{}, {{"/a", {false, "A", true}}, {"/d", {true, "", false}}, {"/d/a", {false, "DA", false}}}, {{"/b", {true, "", false}}, {"/d", {true, "", false}}, {"/d/a", {true, "", false}}}}; int n = mc::thorough() ? 3 : x || mo || st != 1 ? 2 : 3; vector<Op> seq; for (int i = 0; i < n; i++) { seq.push_back(ops[choose(ops.size())]); if (i == 0) mc::shard(); }
  server(mo); guard::exdev = x; T t = starts[st]; build(t); string h; for (auto &o : seq) { h += showop(o) + "; "; mc::note("start %d exdev %d mount %d: %s", st, x, mo, h.c_str()); step(t, o, x); } deep(t, names); guard::exdev = false; mc::outcome_h(mc::hash(show(t)));
}
static void names_any() { // any byte in a name: created, listed, moved and deleted under exactly that name
  int c = 1 + choose(255), form = choose(4), mo = choose(4); mc::shard(); if (c == '/') return; string n = form == 0 ? string(1, c) : form == 1 ? "a" + string(1, c) + "b" : form == 2 ? string(1, c) + "41" : "a" + string(2, c); if (n == ".") return; if (n == "..") return; mc::note("name %s", esc(n).c_str()); server(mo); wipe(); T t; bool hidden = n[0] == '.';
  step(t, {'K', "/" + n, ""}, false); step(t, {'P', "/" + n + "/" + n, "data"}, false); deep(t, {"/" + n, "/" + n + "/" + n}); step(t, {'M', "/" + n + "/" + n, "/z"}, false); step(t, {'D', "/" + n, ""}, false); step(t, {'M', "/z", "/" + n}, false); deep(t, {"/" + n}); step(t, {'X', "/" + n, "T"}, false); step(t, {'D', "/" + n, ""}, false); (void)hidden; mc::outcome_h(mc::hash(n));
}
static void lengths() { // names of any length: the operation is exact, or refused without effect
  int part = choose(8), deepd = choose(3), mo = choose(2); mc::shard(); server(mo); for (int l = 1 + part; l < 300; l += 8) { wipe(); T t; string dir; for (int i = 0; i < deepd; i++) { dir += "/" + string(200, 'd'); mkdir((base + dir).c_str(), 0755); t[dir] = {true, "", false}; } string p = dir + "/" + string(l, 'n'), q = dir + "/" + string(l, 'm'); mc::note("name of %d bytes at depth %d", l, deepd); bool ok = l <= 255; string d = "x"; Resp r = ask("PUT", p, "", &d); if (ok) t[p] = {false, d, false}; if (ok != (r.code < 300)) fail("PUT answers %d", r.code); observe_all(t); if (!ok) continue; listing(t, dir + "/", 1); listing(t, p, 0); r = ask("GET", p); if (r.body != d) fail("GET answers %d", r.code); r = ask("MOVE", p, to(q)); if (r.code >= 300) fail("MOVE answers %d", r.code); t[q] = t[p]; t.erase(p); observe_all(t); r = ask("DELETE", q); if (r.code >= 300) fail("DELETE answers %d", r.code); t.erase(q); observe_all(t); mc::state(l * 8 + deepd); } mc::outcome("exact");
}
static const char *PROPS[] = {"resourcetype", "getcontentlength", "getlastmodified", "creationdate", "getetag", "getcontenttype", "displayname", "executable"};
static void properties() { // every set of properties
  int k = choose(4); mc::shard(); server(0); T t = {{"/a", {false, "abc", true}}, {"/d", {true, "", false}}, {"/d/f", {false, string(1000, 'x'), false}}}; build(t); static const char *P[] = {"/a", "/d", "/", "/d/f"};
  for (int m = 0; m < 256; m++) for (int depth = 0; depth < 2; depth++) { string b = "<?xml version=\"1.0\"?><propfind xmlns=\"DAV:\">\n <prop>\n"; for (int i = 0; i < 8; i++) if (m & (1 << i)) b += string("  <") + PROPS[i] + "/>\n"; b += " <unknown/></prop></propfind>"; mc::note("properties %x of %s", m, P[k]); listing(t, P[k], depth, &b); int code; for (auto &it : propfind(P[k], depth, &b, &code)) for (int i = 0; i < 8; i++) { bool asked = m & (1 << i), ok = it.ok.count(PROPS[i]), mi = it.missing.count(PROPS[i]); if (ok && mi) fail("%s is found and not found", PROPS[i]); if (!asked && (ok || mi)) fail("%s was not asked", PROPS[i]); if (asked && i != 7 && !ok && !mi) fail("%s was asked and there is no answer", PROPS[i]); } mc::state(m * 8 + k * 2 + depth); }
  mc::outcome("listed");
}
static void modes() { // of any mode only the execution bits change, for all or none, and nothing else of the tree
  int on = choose(2), part = choose(8); mc::shard(); server(0); T t = {{"/a", {false, "abc", false}}, {"/d", {true, "", false}}, {"/d/f", {false, "x", false}}}; build(t); auto md = [&](const char *p) { struct stat st; if (stat((base + p).c_str(), &st)) fail("%s is gone", p); return (int)(st.st_mode & 07777); }; int m1 = md("/d/f"), m2 = md("/d");
  for (int m = part; m < 01000; m += 8) for (const char *p : {"/a", "/d/f"}) { chmod((base + p).c_str(), m); mc::note("mode %o of %s made %s", m, p, on ? "executable" : "not executable"); Resp r = ask("PROPPATCH", p, "", &XBODY[on]); if (r.code >= 300) fail("answered %d", r.code); int w = on ? m | 0111 : m & ~0111; if (md(p) != w) fail("mode is %o and should be %o", md(p), w); if (md("/d") != m2 || (!strcmp(p, "/a") && md("/d/f") != m1)) fail("the mode of another resource changed"); chmod((base + p).c_str(), 0644); m1 = md("/d/f"); mc::state(m * 4 + on * 2); } mc::outcome("exact");
}
static void xml_quiet(void *, const char *, ...) {}
static void broken_bodies() { // cut or edited bodies: an answer, no effect unless it is valid
  int kind = choose(3), cut = choose(ALLPROPS.size() + 1); mc::shard(); server(0); T t = {{"/a", {false, "abc", false}}, {"/d", {true, "", false}}}; build(t); string b = kind == 2 ? XBODY[1] : ALLPROPS; if (cut > (int)b.size()) return; static const char sub[] = "<>/&\"x \0"; int code; mc::note("kind %d at %d", kind, cut); xmlSetGenericErrorFunc(nullptr, xml_quiet); xmlSetStructuredErrorFunc(nullptr, [](void *, auto) {});
  auto probe = [&](const string &x) { if (kind == 2) { ask("PROPPATCH", "/a", "", &x); T a = actual(); T u = t; u["/a"].x = true; if (a != t && a != u) fail("PROPPATCH changed the share to %s", show(a).c_str()); build(t); } else { propfind(kind ? "/d" : "/a", kind, &x, &code); observe_all(t); } mc::state(mc::hash(x)); };
  probe(b.substr(0, cut)); if (cut < (int)b.size()) { for (size_t i = 0; i < sizeof sub - 1; i++) { string x = b; x[cut] = sub[i]; probe(x); x = b; x.insert(cut, 1, sub[i]); probe(x); } string x = b; x.erase(cut, 1); probe(x); x = b; x.insert(cut, "<executable/>"); probe(x); x = b; x.insert(cut, "<executable><x/></executable>"); probe(x); x = b; x.insert(cut, "<!-- c -->"); probe(x); x = b; x.insert(cut, "<propfind/>"); probe(x); }
  mc::outcome("answered");
}
static void missing_headers() { // without destination, depth or body
  int k = choose(10); mc::shard(); server(k % 2); T t = {{"/a", {false, "abc", false}}}; build(t); switch (k / 2) { case 0: ask("MOVE", "/a"); break; case 1: { Resp r = ask("PROPFIND", "/a"); (void)r; break; } case 2: { string e; ask("PROPFIND", "/a", "Depth: 1\r\n", &e); break; } case 3: { string e; ask("PROPPATCH", "/a", "", &e); break; } case 4: ask("PROPPATCH", "/a"); break; } observe_all(t); mc::outcome("answered");
}
int main(int c, char **v) {
  mc::rule("All sequences of PUT, DELETE, MKCOL, MOVE and PROPPATCH over a small name space from three starting trees; after each step the real tree is compared with a model, and at the end every resource is read and listed. Every byte in names, every name length, every set of properties, every edit of the bodies.");
  mc::assume("Recursive DELETE and Overwrite are not offered; hidden names are not listed.");
  mc::add("histories", histories, true, init); mc::add("any byte in names", names_any, true, init); mc::add("any length of names", lengths, true, init); mc::add("sets of properties", properties, true, init); mc::add("modes", modes, true, init); mc::add("broken bodies", broken_bodies, true, init); mc::add("missing headers", missing_headers, true, init); return mc::main(c, v);
}
