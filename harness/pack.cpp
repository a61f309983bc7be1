// P30: what opack packs is served as it is, and the header with the declarations is kept
#include "tools.hpp"
#include <map>
#include <set>
using namespace tools; using mc::choose;
extern "C" { void *keep[] = {(void *)onion_response_set_length, (void *)onion_response_set_header, (void *)onion_response_write, (void *)onion_request_get_path, (void *)onion_request_advance_path}; }
typedef int (*H)(void *, onion_request *, onion_response *);
static Server *sv; static std::function<int(onion_request *, onion_response *)> handler; static string dir;
static void wipe(const string &d) { string c = mc::scratch(); if (d.compare(0, c.size() + 1, c + "/")) fail("not in the scratch: %s", d.c_str()); run({"rm", "-rf", "--", d}, c); }
static void init() { sv = new Server([](onion_request *q, onion_response *r) { return handler(q, r); }); onion_log = nolog; dir = mc::scratch() + "/pack"; mkdir(dir.c_str(), 0755); }
static string fn(const string &prefix, const string &name) { string r = prefix.empty() ? name : name.empty() ? prefix : prefix + "_" + name; for (auto &c : r) if (!isascii(c) || !isalnum(c)) c = '_'; return "opack_" + r; }
static string exe() { return libdir() + "/tools/opack/opack"; }
static void opack(const vector<string> &a, const string &in) { vector<string> v = {exe()}; v.insert(v.end(), a.begin(), a.end()); string said; int r = run(v, in, &said); if (crashed(r)) fail("opack crashes: %s", said.substr(0, 1500).c_str()); if (r) fail("opack fails with %d: %s", r, said.substr(0, 600).c_str()); }
static string urlenc(const string &s) { string r; for (unsigned char c : s) if (c == '/' || isalnum(c)) r += c; else r += mc::strf("%%%02X", c); return r; }
static string hd(const Resp &r, const char *n) { const string *s = r.get(n); return s ? *s : ""; }
// asks twice in the same connection
static void ask(H h, const string &path, const string *body, const string &mime, const string &what) {
  handler = [&](onion_request *q, onion_response *r) { return h(nullptr, q, r); }; Conn c(*sv);
  for (int i = 0; i < 2; i++) {
    size_t from = c.out.size(); c.feed("GET /" + urlenc(path) + " HTTP/1.1\r\n\r\n"); Resp r = parse_response(c.out, from, false, !c.open);
    if (!r.err.empty() || r.incomplete) fail("%s, request %d: the answer is not right: %s", what.c_str(), i, esc(c.out.substr(from, 300)).c_str());
    if (!body) { if (r.code != 404) fail("%s: it is not there, and the answer is %d: %s", what.c_str(), r.code, esc(r.body.substr(0, 100)).c_str()); if (!c.open) break; continue; }
    if (r.code != 200) fail("%s: the answer is %d", what.c_str(), r.code); if (r.body != *body) fail("%s: the content is different: %zu bytes instead of %zu", what.c_str(), r.body.size(), body->size());
    if (hd(r, "Content-Type") != mime) fail("%s: the type is %s instead of %s", what.c_str(), hd(r, "Content-Type").c_str(), mime.c_str());
    if (hd(r, "Content-Length") != std::to_string(body->size())) fail("%s: the length is %s", what.c_str(), hd(r, "Content-Length").c_str());
    if (!c.open) fail("%s: the connection is closed", what.c_str());
  }
  c.close(); mc::state(mc::hash(what.data(), what.size(), body ? body->size() : -1));
}
static string content(size_t n, int kind) { string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = kind == 0 ? i * 7 + n : kind == 1 ? "ab\"\\\n?%"[i % 7] : kind == 2 ? 0 : 0xff; return s; }
// ---- sizes and contents
static void sizes() {
  static const int C[] = {0, 16, 32, 128, 256, 4095, 4096, 8190, 8192, 12285, 65535, 65536}; int ci = choose(12), kind = choose(4); mc::shard(); wipe(dir); mkdir(dir.c_str(), 0755); vector<string> a; std::map<string, string> f; for (int d = -9; d <= 9; d++) { if (C[ci] + d < 0 || (C[ci] > 20000 && d % 3)) continue; string n = mc::strf("s%d.txt", C[ci] + d); f[n] = content(C[ci] + d, kind); spit(dir + "/" + n, f[n]); a.push_back(n); } a.push_back("-o"); a.push_back("out.c"); opack(a, dir);
  So so; compile(so, {"out.c"}, dir); for (auto &x : f) { mc::note("%s", x.first.c_str()); ask(so.sym<H>(fn("", x.first)), "whatever", &x.second, "text/plain", x.first); unsigned *l = so.sym<unsigned *>(fn("", x.first) + "_length"); if (*l != x.second.size()) fail("%s: _length is %u", x.first.c_str(), *l); } mc::outcome(mc::strf("%d %d", ci, kind));
}
// every byte, first, last and in the middle
static void bytes() { int part = choose(16); mc::shard(); wipe(dir); mkdir(dir.c_str(), 0755); vector<string> a = {"-o", "out.c"}; std::map<string, string> f; for (int i = 0; i < 16; i++) for (int p = 0; p < 4; p++) { int c = part * 16 + i; string s = p == 0 ? string(1, c) : p == 1 ? string(1, c) + "0" : p == 2 ? string("\xff") + string(1, c) : string("a") + string(1, c) + "b"; string n = mc::strf("b%d_%d", c, p); f[n] = s; spit(dir + "/" + n, s); a.push_back(n); } opack(a, dir); So so; compile(so, {"out.c"}, dir); for (auto &x : f) ask(so.sym<H>(fn("", x.first)), "", &x.second, onion_mime_get(x.first.c_str()), x.first); mc::outcome(mc::strf("%d", part)); }
// ---- directories: all the subsets of these
static const char *N[] = {"a", "aa", "a.html", "d/a", "d/b.css", "d/e/a", ".hid", "old~", "d~/x", ".g/x", "aa.d/a", "d/e/f/g.js", "d/.x", "d/x~"};
static bool visible(const string &p) { size_t i = 0; while (i <= p.size()) { size_t e = p.find('/', i); string c = p.substr(i, e == string::npos ? e : e - i); if (c.empty() || c[0] == '.' || c.back() == '~') return false; if (e == string::npos) break; i = e + 1; } return true; }
static void mkdirs(const string &base, const string &p) { for (size_t e = p.find('/'); e != string::npos; e = p.find('/', e + 1)) mkdir((base + "/" + p.substr(0, e)).c_str(), 0755); }
static void place(const string &base, const std::map<string, string> &f) { mkdir(base.c_str(), 0755); for (auto &x : f) { mkdirs(base, x.first); spit(base + "/" + x.first, x.second); } }
static void ask_all(H h, const std::map<string, string> &f, const string &what) {
  std::set<string> q = {"", "/", "d", "d/", "d/e", "d/e/", "d/e/f/", "d//a", "/a", "a/", "aa.d", "d/d/a", "a.htm", "a.html.", "d/a/", "e/a", "A"}; for (auto n : N) { q.insert(n); q.insert(string("d/") + n); q.insert(string(n) + "/a"); }
  for (auto &x : f) q.insert(x.first); for (auto &p : q) { auto it = f.find(p); bool is = it != f.end() && visible(p); mc::note("%s: %s", what.c_str(), p.c_str()); ask(h, p, is ? &it->second : nullptr, is ? onion_mime_get(("w/" + p).c_str()) : "", what + " " + p); }
}
static void trees() { int n = mc::thorough() ? 14 : 10, k = 1 << (n - 6), hi = choose(k); mc::shard(); for (int lo = 0; lo < 64; lo++) { int set = hi * 64 + lo; wipe(dir); mkdir(dir.c_str(), 0755); std::map<string, string> f; for (int i = 0; i < n; i++) if (set >> i & 1) f[N[i]] = string("this is ") + N[i]; place(dir + "/web", f); opack({"web", "-o", "out.c"}, dir); So so; compile(so, {"out.c"}, dir); string w = "files"; for (auto &x : f) w += " " + x.first; ask_all(so.sym<H>("opack_web"), f, w); } mc::outcome(mc::strf("%d", hi)); }
// ---- names
static void names() { static const char *X[] = {"x y.html", "a\"b.txt", "a\\b.js", "a\\n", "%s%n", "1.png", "-x", "a.b.c.js", "UP.HTML", "ñandú.txt", "a'b", "a?b", "a#b", "tab\tx", "??=", "a%41", "a+b", "x;y", "*", "..a", "n\nl"}; int i = choose(21), sub = choose(3); mc::shard(); wipe(dir); mkdir(dir.c_str(), 0755); string n = X[i]; std::map<string, string> f; string p = sub == 0 ? n : sub == 1 ? n + "/" + n : "d/" + n + "/z"; f[p] = "content of " + n; f["other"] = "other"; mc::note("%s", esc(p).c_str()); place(dir + "/web", f); opack({"web", "-o", "out.c"}, dir); So so; compile(so, {"out.c"}, dir); ask_all(so.sym<H>("opack_web"), f, esc(p)); mc::outcome(p); }
// names that are equal for long
static void longnames() { int L = 1 + choose(120) * 2; mc::shard(); wipe(dir); mkdir(dir.c_str(), 0755); string pre; for (int i = 0; i < L; i++) pre += "abcdefghij"[i % 10]; string n[3] = {pre + "x.txt", pre + "y.txt", pre + "xx.txt"}; std::map<string, string> f; vector<string> a = {"-o", "out.c"}; for (auto &x : n) { spit(dir + "/" + x, "content of " + x); f[x] = "in web " + x; a.push_back(x); } a.push_back("web"); place(dir + "/web", f); opack(a, dir); opack(a, dir); So so; spit(dir + "/use.c", "#include \"assets.h\"\n#include \"out.c\"\n"); compile(so, {"use.c"}, dir); auto as = slurp((dir + "/assets.h").c_str());
  for (auto &x : n) { mc::note("%s", x.c_str()); string c = "content of " + x; ask(so.sym<H>(fn("", x)), "", &c, "text/plain", x); for (auto &m : {fn("", x), fn("web", x)}) { size_t p = as.find(m + "("); if (p == string::npos || as.find(m + "(", p + 1) != string::npos) fail("%s is not declared once", m.c_str()); } } for (auto &x : n) { string c = "in web " + x; ask(so.sym<H>("opack_web"), x, &c, "text/plain", "web/" + x); } string none = pre; ask(so.sym<H>("opack_web"), none, nullptr, "", "web/" + none); mc::outcome(mc::strf("%d", L)); }
// ---- command lines: what is given, in any order
static void commands() {
  static const vector<string> G[] = {{"web"}, {"one.html"}, {"sub/two.css"}, {"web", "one.html"}, {"web", "other"}, {"one.html", "web", "sub/two.css", "other"}, {"sub/other2", "web"}}; int g = choose(7), opos = choose(6), apos = choose(6), how = choose(3); mc::shard(); if (opos > (int)G[g].size() + 1 || apos > (int)G[g].size() + 1) return; wipe(dir); mkdir(dir.c_str(), 0755);
  std::map<string, string> web = {{"a", "web a"}, {"d/b.css", "web b"}}, other = {{"a", "other a"}, {"d/b.css", "other b"}, {"d/e/a", "deep"}}; place(dir + "/web", web); place(dir + "/other", other); mkdir((dir + "/sub").c_str(), 0755); place(dir + "/sub/other2", other); spit(dir + "/one.html", "one"); spit(dir + "/sub/two.css", "two");
  vector<string> a; for (int i = 0; i <= (int)G[g].size(); i++) { if (opos == i) { a.push_back("-o"); a.push_back("out.c"); } if (apos == i) { a.push_back("-a"); a.push_back("my.h"); } if (i < (int)G[g].size()) a.push_back((how == 1 ? "./" : how == 2 ? dir + "/" : "") + G[g][i]); }
  bool has_o = opos <= (int)G[g].size(), has_a = apos <= (int)G[g].size(); string w; for (auto &x : a) w += x + " "; mc::note("opack %s", w.c_str());
  if (has_o) opack(a, dir); else { vector<string> v = {"sh", "-c", "exec \"$@\" 2>/dev/null >out.c", "sh", exe()}; v.insert(v.end(), a.begin(), a.end()); int r = run(v, dir); if (r) fail("opack fails with %d", r); }
  So so; compile(so, {"out.c"}, dir); string as = slurp((dir + (has_a ? "/my.h" : "/assets.h")).c_str()); int want = 0;
  for (auto &x : G[g]) { string b = x.substr(x.rfind('/') == string::npos ? 0 : x.rfind('/') + 1), m = fn("", b); if (as.find(m + "(") == string::npos) fail("%s is not declared", m.c_str()); if (b.find('.') != string::npos) { string c = b == "one.html" ? "one" : "two"; ask(so.sym<H>(m), "", &c, onion_mime_get(b.c_str()), b); want++; } else ask_all(so.sym<H>(m), b == "web" ? web : other, b); }
  spit(dir + "/use.c", string("#include \"") + (has_a ? "my.h" : "assets.h") + "\"\n#include \"out.c\"\n"); So s2; compile(s2, {"use.c"}, dir); mc::outcome(w);
}
// ---- the header: what was there stays, what is new appears once
static vector<string> lines(const string &s) { vector<string> v; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == string::npos) e = s.size(); v.push_back(s.substr(i, e - i)); i = e + 1; } return v; }
static const char *MARK = "// New data will be inserted over this line. DO NOT MODIFY (SPECIALLY THIS LINE).";
static void header() {
  int start = choose(9), n = mc::thorough() ? 4 : 3; mc::shard(); string long_; for (int i = 0; i < 200; i++) long_ += mc::strf("// comment number %d, so that it is long\n", i);
  const string M = string(MARK) + "\n", S[] = {"<none>", "", "// mine\n#include <onion/types.h>\n" + M + "// end\n", "// mine\n#include <onion/types.h>\n" + M + "// end", "#include <onion/types.h>\n" + long_ + M + "// tail 1\n// tail 2\n", "#include <onion/types.h>\n" + M + long_, "#include <onion/types.h>\n//" + string(5000, 'x') + "\n" + M + "//" + string(9000, 'y'), "#include <onion/types.h>\n// no mark\n", "#include <onion/types.h>\n" + M};
  static const char *F[] = {"a.txt", "b.txt", "web", "t.html"}; int N4 = 1; for (int i = 0; i < n; i++) N4 *= 4;
  for (int seq = 0; seq < N4; seq++) {
    wipe(dir); mkdir(dir.c_str(), 0755); place(dir + "/web", {{"x", "1"}, {"d/y", "2"}}); spit(dir + "/a.txt", "a"); spit(dir + "/b.txt", "b"); spit(dir + "/t.html", "hello {{name}}"); string h = dir + "/assets.h"; if (start) spit(h, S[start]); std::set<string> declared; std::set<int> done; string before = start ? S[start] : ""; string w;
    for (int i = 0, y = seq; i < n; i++, y /= 4) {
      int act = y % 4; w += string(F[act]) + " "; mc::note("header %d: %s", start, w.c_str()); if (act < 3) opack({F[act], "-o", mc::strf("o%d.c", act)}, dir); else { string said; int r = run({libdir() + "/tools/otemplate/otemplate", "-n", "-t", libdir() + "/tools/otemplate/templatetags", "t.html", "t.c"}, dir, &said); if (r) fail("otemplate fails with %d: %s", r, said.substr(0, 500).c_str()); }
      string now = slurp(h.c_str()); vector<string> b = lines(before), a = lines(now); size_t j = 0; std::set<string> seen; for (auto &l : b) { if (!seen.insert(l).second) continue; while (j < a.size() && a[j] != l) j++; if (j == a.size()) fail("the line is lost: %s", esc(l.substr(0, 200)).c_str()); j++; }
      if (done.count(act) && start != 7 && now != before) fail("packing the same again changes the header"); done.insert(act); before = now;
      static const vector<string> D[] = {{"opack_a_txt"}, {"opack_b_txt"}, {"opack_web", "opack_web_x", "opack_web_d", "opack_web_d_y"}, {"t_html"}}; for (auto &x : D[act]) declared.insert(x); for (auto &x : declared) { int k = 0; for (auto &l : a) if (l.find(" " + x + "(") != string::npos) k++; if (k != 1 && !(start == 7 && k > 1)) fail("%s is declared %d times", x.c_str(), k); }
    }
    string use = "#include \"assets.h\"\n#include \"assets.h\"\nvoid *all[] = {"; for (auto &x : declared) use += "(void *)" + x + ", "; use += "0};\n"; spit(dir + "/use.c", use); spit(dir + "/use.cpp", use); if (start != 7 && (seq % 8 == 0 || mc::thorough())) { string said; for (const char *lang : {"gcc", "g++"}) { if (start > 1 && lang[1] == '+') continue; int r = run({lang, "-fsyntax-only", "-I" + repo() + "/src", "-I" + libdir() + "/src", lang[1] == '+' ? "use.cpp" : "use.c"}, dir, &said); if (r) fail("the header does not compile: %s", said.substr(0, 500).c_str()); } }
    mc::state(mc::hash(w.data(), w.size(), start));
  }
  mc::outcome(mc::strf("%d", start));
}
// ---- errors are told
static void errors() { static const vector<string> X[] = {{"nothing", "-o", "out.c"}, {"a", "nothing", "-o", "out.c"}, {"-o", "out.c", "nothing/"}, {"a", "-o"}, {"a", "-a"}, {"a", "-o", "no/such/dir/out.c"}, {}, {"--help"}, {"web", "web/nothing", "-o", "out.c"}, {"", "-o", "out.c"}}; int i = choose(10); mc::shard(); wipe(dir); mkdir(dir.c_str(), 0755); spit(dir + "/a", "a"); place(dir + "/web", {{"x", "1"}}); vector<string> v = {exe()}; v.insert(v.end(), X[i].begin(), X[i].end()); string said; int r = run(v, dir, &said); if (crashed(r)) fail("opack crashes: %s", said.substr(0, 1500).c_str()); if (!r) fail("opack says that all went right: %s", said.c_str()); mc::outcome(mc::strf("%d", i)); }
int main(int c, char **v) {
  mc::rule("Files and directories packed with the tool of the tree, compiled with gcc, loaded and served by the library, asked twice in the same connection. All sizes around the buffers for 4 contents, all bytes, all subsets of 10 (14) files of a tree with all the paths next to them, 21 names in 3 places, names equal for 1 to 239 characters, 7 sets of arguments with the options at any place, all sequences of 3 (4) packings and compilations over 9 headers. Distinct: paths x trees.");
  mc::assume("Names that differ only in characters that are not letters or digits make the same C function, and the compiler says so: they are not packed together.");
  mc::add("sizes", sizes, true, init, 300); mc::add("bytes", bytes, true, init, 300); mc::add("directories", trees, true, init, 600); mc::add("names", names, true, init, 300); mc::add("long names", longnames, true, init, 300); mc::add("command lines", commands, true, init, 300); mc::add("header", header, true, init, 600); mc::add("errors", errors, true, init);
  return mc::main(c, v);
}
