// P29: templates compiled by otemplate give what they say
#include "tools.hpp"
#include <map>
using namespace tools; using mc::choose;
extern "C" { void *keep[] = {(void *)onion_dict_get, (void *)onion_dict_rget, (void *)onion_dict_get_dict, (void *)onion_dict_rget_dict, (void *)onion_dict_hard_dup, (void *)onion_dict_preorder, (void *)onion_dict_add, (void *)onion_dict_free, (void *)onion_dict_new, (void *)onion_response_write, (void *)onion_response_write0, (void *)onion_response_write_html_safe, (void *)onion_handler_new, (void *)onion_request_get_language_code}; }
// ---- contexts
struct Val { bool dict = false; string s; std::map<string, Val> d; Val() {} Val(const char *x) : s(x) {} Val(const string &x) : s(x) {} Val(std::map<string, Val> m) : dict(true), d(std::move(m)) {} };
typedef std::map<string, Val> Ctx;
static onion_dict *to_dict(const Ctx &c) { onion_dict *d = onion_dict_new(); for (auto &e : c) if (e.second.dict) onion_dict_add(d, e.first.c_str(), to_dict(e.second.d), OD_DUP_KEY | OD_DICT | OD_FREE_VALUE); else onion_dict_add(d, e.first.c_str(), e.second.s.c_str(), OD_DUP_ALL); return d; }
static const Val *find(const Ctx &c, const string &path) { const Ctx *x = &c; size_t p = 0; while (true) { size_t e = path.find('.', p); auto it = x->find(path.substr(p, e == string::npos ? e : e - p)); if (it == x->end()) return nullptr; if (e == string::npos) return &it->second; if (!it->second.dict) return nullptr; x = &it->second.d; p = e + 1; } }
static const string *str(const Ctx &c, const string &path) { const Val *v = find(c, path); return v && !v->dict ? &v->s : nullptr; }
static string html(const string &s) { string r; for (char ch : s) switch (ch) { case '<': r += "&lt;"; break; case '>': r += "&gt;"; break; case '&': r += "&amp;"; break; case '"': r += "&quot;"; break; case '\'': r += "&#39;"; break; default: r += ch; } return r; }
// ---- templates
struct Node { enum K { TEXT, VAR, IF, FOR, INCLUDE, BLOCK, COMMENT, TRANS } k; string a, b; vector<string> cond; vector<Node> body, other; bool has_else = false; };
typedef vector<Node> Nodes;
static Node T(const string &s) { return Node{Node::TEXT, s}; } static Node V(const string &s) { return Node{Node::VAR, s}; }
static Node If(vector<string> c, Nodes b) { Node n{Node::IF}; n.cond = c; n.body = b; return n; } static Node IfElse(vector<string> c, Nodes b, Nodes o) { Node n = If(c, b); n.other = o; n.has_else = true; return n; }
static Node For(const string &v, const string &in, Nodes b) { Node n{Node::FOR, v, in}; n.body = b; return n; } static Node Block(const string &name, Nodes b) { Node n{Node::BLOCK, name}; n.body = b; return n; } static Node Include(const string &f) { return Node{Node::INCLUDE, f}; }
struct Tpl { string file, extends; Nodes nodes; };
static string S0 = " ", S1 = " ", S2 = " "; // what separates what is in a tag
static string tag(const vector<string> &a) { string r = "{%" + S0; for (size_t i = 0; i < a.size(); i++) r += (i ? S1 : "") + a[i]; return r + S2 + "%}"; }
static string src(const Nodes &ns) { string r; for (auto &n : ns) switch (n.k) { case Node::TEXT: r += n.a; break; case Node::VAR: r += "{{" + n.a + "}}"; break; case Node::COMMENT: r += "{#" + n.a + "#}"; break; case Node::TRANS: r += tag({"trans", "\"" + n.a + "\""}); break; case Node::IF: { vector<string> a = {"if"}; a.insert(a.end(), n.cond.begin(), n.cond.end()); r += tag(a) + src(n.body); if (n.has_else) r += tag({"else"}) + src(n.other); r += tag({"endif"}); } break; case Node::FOR: r += tag({"for", n.a, "in", n.b}) + src(n.body) + tag({"endfor"}); break; case Node::INCLUDE: r += tag({"include", "\"" + n.a + "\""}); break; case Node::BLOCK: r += tag({"block", n.a}) + src(n.body) + tag({"endblock"}); break; } return r; }
static string src(const Tpl &t) { return (t.extends.empty() ? "" : tag({"extends", "\"" + t.extends + "\""})) + src(t.nodes); }
struct World { vector<Tpl> all; const Tpl *get(const string &f) const { for (auto &t : all) if (t.file == f) return &t; fail("no template %s", f.c_str()); } };
typedef std::map<string, const Nodes *> Blocks;
static void collect(const Nodes &ns, Blocks &b) { for (auto &n : ns) { if (n.k == Node::BLOCK && !b.count(n.a)) b[n.a] = &n.body; collect(n.body, b); collect(n.other, b); } }
static bool truth(const vector<string> &c, const Ctx &x) {
  auto val = [&](const string &o, string &keep) -> const string * { if (o[0] == '"') { keep = o.substr(1, o.size() - 2); return &keep; } return str(x, o); }; string k1, k2; const string *a = val(c[0], k1); if (c.size() == 1) return a && *a != "false";
  const string *b = val(c[2], k2); const string &op = c[1]; bool both = a && b; int cmp = both ? strcmp(a->c_str(), b->c_str()) : 0; bool eq = both ? cmp == 0 : !a && !b; if (op == "==") return eq; if (op == "!=") return !eq; if (op == "<=") return both ? cmp <= 0 : eq; if (op == ">=") return both ? cmp >= 0 : eq; if (op == "<") return both && cmp < 0; if (op == ">") return both && cmp > 0; fail("operator");
}
static string show(const World &w, const Tpl &t, const Ctx &c, Blocks b);
static string show(const World &w, const Nodes &ns, const Ctx &c, Blocks &b) { string r; for (auto &n : ns) switch (n.k) { case Node::TEXT: r += n.a; break; case Node::COMMENT: break; case Node::TRANS: r += n.a; break; case Node::VAR: { string p; for (char ch : n.a) if (ch != ' ') p += ch; if (const string *s = str(c, p)) r += html(*s); break; } case Node::IF: r += truth(n.cond, c) ? show(w, n.body, c, b) : show(w, n.other, c, b); break; case Node::FOR: { const Val *v = find(c, n.b); if (v && v->dict) for (auto &e : v->d) { Ctx in = c; in[n.a] = e.second; r += show(w, n.body, in, b); } break; } case Node::INCLUDE: r += show(w, *w.get(n.a), c, b); break; case Node::BLOCK: r += show(w, *b[n.a], c, b); break; } return r; }
static string show(const World &w, const Tpl &t, const Ctx &c, Blocks b) { collect(t.nodes, b); if (!t.extends.empty()) return show(w, *w.get(t.extends), c, b); return show(w, t.nodes, c, b); }
// ---- the tool
static Server *sv; static std::function<int(onion_request *, onion_response *)> handler; static string dir;
static void init() { sv = new Server([](onion_request *q, onion_response *r) { return handler(q, r); }); onion_log = nolog; dir = mc::scratch() + "/tpl"; mkdir(dir.c_str(), 0755); }
static string cname(const string &f) { string r = f; for (auto &c : r) if (c == '.' || c == '-') c = '_'; if (isdigit(r[0])) r = "_" + r; return r; }
static int otemplate(const string &in, const string &out, bool orig, string *said = nullptr) { vector<string> a = {libdir() + "/tools/otemplate/otemplate"}; if (!orig) a.push_back("-n"); a.insert(a.end(), {"-t", libdir() + "/tools/otemplate/templatetags", "-a", dir + "/assets.h", in, out}); return run(a, dir, said); }
static void build(So &so, const World &w, bool orig) { vector<string> cs; unlink((dir + "/assets.h").c_str()); for (auto &t : w.all) { spit(dir + "/" + t.file, src(t)); string said, c = cname(t.file) + ".c"; unlink((dir + "/" + c).c_str()); int r = otemplate(t.file, c, orig, &said); if (crashed(r)) fail("otemplate crashes: %s", said.substr(0, 1500).c_str()); if (r) fail("otemplate does not accept it: %s", said.substr(0, 600).c_str()); cs.push_back(c); } compile(so, cs, dir); }
static string served() { Conn c(*sv); c.feed("GET / HTTP/1.1\r\n\r\n"); Resp r = parse_response(c.out, 0, false, !c.open); string o = r.body; if (r.code != 200 || !r.err.empty() || r.incomplete) fail("the answer is not right: %s %s", r.err.c_str(), esc(c.out.substr(0, 300)).c_str()); c.close(); return o; }
typedef onion_connection_status (*TplF)(onion_dict *, onion_request *, onion_response *); typedef void (*RawF)(onion_dict *, onion_response *);
static string rendered(So &so, const string &file, const Ctx *c) { TplF f = so.sym<TplF>(cname(file) + "_template"); handler = [&](onion_request *q, onion_response *r) { return (int)f(c ? to_dict(*c) : nullptr, q, r); }; return served(); }
static void differ(const string &got, const string &want, const string &what) { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++; size_t s = i > 60 ? i - 60 : 0; fail("%s: different at %zu of %zu: ...%s instead of ...%s", what.c_str(), i, want.size(), esc(got.substr(s, 160)).c_str(), esc(want.substr(s, 160)).c_str()); }
static void check_world(const World &w, const string &main, const vector<const Ctx *> &cs, bool orig) { So so; build(so, w, orig); int k = 0; for (auto *c : cs) { Ctx none; string got = rendered(so, main, c), want = show(w, *w.get(main), c ? *c : none, {}); if (got != want) differ(got, want, mc::strf("context %d", k)); mc::state(mc::hash(want.data(), want.size(), k)); k++; } static size_t m0 = 0; size_t m1 = mc::live_bytes(); for (int i = 0; i < 3; i++) for (auto *c : cs) rendered(so, main, c); size_t m2 = mc::live_bytes(); if (m2 > m1 + 400) { for (auto *c : cs) rendered(so, main, c); if (mc::live_bytes() > m2) fail("%zu bytes are left each time", mc::live_bytes() - m2); } }
// many snippets in one template: a mark between each two tells which one fails
struct Many { Nodes nodes; int n = 0; vector<string> what; void add(const Nodes &x) { what.push_back(src(x)); nodes.insert(nodes.end(), x.begin(), x.end()); nodes.push_back(T(mc::strf("|%d|\n", n++))); }
  void check(const vector<const Ctx *> &cs, bool orig) { if (!n) return; World w; w.all.push_back({"t.html", "", nodes}); So so; build(so, w, orig); for (size_t k = 0; k < cs.size(); k++) { Ctx none; Blocks b; string got = rendered(so, "t.html", cs[k]); size_t p = 0, q = 0; const Ctx &c = cs[k] ? *cs[k] : none; string want; for (size_t i = 0, j = 0; i < nodes.size(); j++) { Nodes one; while (!(nodes[i].k == Node::TEXT && nodes[i].a == mc::strf("|%zu|\n", j))) one.push_back(nodes[i++]); one.push_back(nodes[i++]); string x = show(w, one, c, b); if (got.compare(p, x.size(), x)) { mc::note("snippet %s", esc(what[j]).c_str()); fail("context %zu: %s instead of %s", k, esc(got.substr(p, x.size() + 20)).c_str(), esc(x).c_str()); } mc::state(mc::hash(what[j].data(), what[j].size(), k)); p += x.size(); } if (p != got.size()) fail("%zu bytes more at the end", got.size() - p); } }
};
// reference lexer for text and comments only; false if there is anything else
static bool text_only(const string &s, Nodes &o) { string cur; for (size_t i = 0; i < s.size();) { if (s[i] == '{' && i + 1 < s.size()) { if (s[i + 1] == '{' || s[i + 1] == '%') return false; if (s[i + 1] == '#') { size_t e = s.find("#}", i + 2); if (e == string::npos) return false; if (!cur.empty()) o.push_back(T(cur)); cur.clear(); o.push_back(Node{Node::COMMENT, s.substr(i + 2, e - i - 2)}); i = e + 2; continue; } } cur += s[i++]; } if (!cur.empty()) o.push_back(T(cur)); return true; }
static const char A[] = "a{}%#\"\\\n? ";
static void texts() { int a = choose(10), b = choose(10), orig = choose(2); mc::shard(); int L = mc::thorough() ? 6 : 5; Many m; mc::note("texts that start with %s, %s", esc(string(1, A[a]) + A[b]).c_str(), orig ? "original lines" : "no lines"); for (int n = 2; n <= L; n++) { long N = 1; for (int i = 2; i < n; i++) N *= 10; for (long x = 0; x < N; x++) { string s = string(1, A[a]) + A[b]; long y = x; for (int i = 2; i < n; i++) { s += A[y % 10]; y /= 10; } if (!orig && n == L && x % 7) continue; Nodes o; if (text_only(s, o)) m.add(o); if (m.n >= 2500) { m.check({nullptr}, orig); m = Many(); } } } m.check({nullptr}, orig); mc::outcome(string(1, A[a]) + A[b]); }
static void ends() { int a = choose(11), b = choose(11), orig = choose(2); mc::shard(); string s; if (a) s += A[a - 1]; if (b) s += A[b - 1]; Nodes o; if (!text_only(s, o)) return; mc::note("whole template: %s", esc(s).c_str()); World w; w.all.push_back({"t.html", "", o}); check_world(w, "t.html", {nullptr}, orig); mc::outcome(s); }
static void bytes() { int a = choose(32), orig = choose(2); mc::shard(); Many m; static const string F = string("0179afAFx\"\\?n\n'") + (char)0x80 + (char)0xff; for (int i = 0; i < 8; i++) { int c = a * 8 + i; if (!c) continue; for (char f : F) { string s = string(1, c) + f; Nodes o; if (text_only(s, o)) m.add(o); s = string(1, f) + (char)c; o.clear(); if (text_only(s, o)) m.add(o); } } mc::note("bytes from %d", a * 8); m.check({nullptr}, orig); mc::outcome(std::to_string(a)); }
static void sizes() { static const int C[] = {128, 256, 512, 1024, 1365, 2048, 4096, 8192, 16384, 65536, 300000}; int ci = choose(11), kind = choose(4), orig = choose(2); if (kind == 3 && C[ci] > 16384) return; mc::shard(); Many m; static const char K[] = {'a', '"', 1, '\n'}; for (int d = -70; d <= 10; d++) { if (C[ci] > 10000 && d % 9) continue; string s(C[ci] + d, K[kind]); if (kind == 3) for (size_t i = 0; i < s.size(); i++) s[i] = i % 37 ? 'b' : '\n'; mc::note("text of %zu times %s", s.size(), esc(string(1, K[kind])).c_str()); m.add({T(s)}); } m.check({nullptr}, orig); mc::outcome(mc::strf("%d %d", ci, kind)); }
static Ctx C1() { return Ctx{{"a", "va"}, {"b", "<&>"}, {"e", ""}, {"f", "false"}, {"d", Ctx{{"x", "dx"}, {"y", Ctx{{"z", "dyz\"'"}, {"a", "inner"}}}, {"a", "da"}}}, {"empty", Ctx{}}, {"l", Ctx{{"0", "L0"}, {"1", "L1"}, {"2", "L<2>"}}}, {"m", Ctx{{"p", Ctx{{"n", "P"}, {"s", Ctx{{"1", "p1"}, {"2", "p2"}}}}}, {"q", Ctx{{"n", "Q"}}}, {"r", "text"}}}}; }
static void variables() { int orig = choose(2), part = choose(16); mc::shard(); static const char *N[] = {"a", "b", "e", "f", "d", "nothing", "d.x", "d.y.z", "d.y", "d.nothing", "d.x.z", "a.b", "nothing.x", "d.y.a", "d.a", "l.0", "l.2", "l.9", "m.p.n", "m.p.s.2", "empty.x", "a.", ".a", "\"a\"", "a-b", "\\", "a\nb"}; static const char *B[] = {"", " ", "  "}; Many m; int i = 0; for (auto n : N) for (auto x : B) for (auto y : B) for (int k = 0; k < 3; k++) if (i++ % 16 == part) { Nodes o; if (k == 1) o.push_back(T("x")); o.push_back(V(string(x) + n + y)); if (k) o.push_back(V("a")); if (k == 2) o.push_back(T("}}")); m.add(o); } Ctx c1 = C1(), c2{{"a", string(5000, '<')}, {"b", string(20000, 'x')}, {"d", "not a dict"}}, c3{{"a", Ctx{{"b", "ab"}}}, {"", "noname"}}; mc::note("variables, part %d", part); m.check({&c1, &c2, &c3, nullptr}, orig); mc::outcome(std::to_string(part)); }
static void conditions() { int orig = choose(2), op = choose(7), l = choose(9); mc::shard(); static const char *O[] = {"", "==", "!=", "<", "<=", ">", ">="}; static const char *X[] = {"a", "b", "nothing", "d.x", "\"\"", "\"va\"", "\"false\"", "\"50% > <a b\\\"", "d.nothing"}; Many m; for (int r = 0; r < (op ? 9 : 1); r++) for (int e = 0; e < 3; e++) { vector<string> c = {X[l]}; if (op) { c.push_back(O[op]); c.push_back(X[r]); } m.add({e == 0 ? If(c, {T("yes")}) : e == 1 ? IfElse(c, {T("yes")}, {T("no")}) : IfElse(c, {}, {V("a")})}); } static const char *VV[] = {nullptr, "", "va", "vb", "false"}; vector<Ctx> cs; for (auto x : VV) for (auto y : VV) { Ctx c; if (x) c["a"] = x; if (y) c["b"] = y; c["d"] = Val(Ctx{{"x", "va"}}); cs.push_back(c); } vector<const Ctx *> p; for (auto &c : cs) p.push_back(&c); p.push_back(nullptr); mc::note("if %s %s", X[l], O[op]); m.check(p, orig); mc::outcome(mc::strf("%s%s", X[l], O[op])); }
// all the trees of at most n nodes
static void trees(int n, int depth, vector<Nodes> &out) { out.push_back({}); if (n == 0) return; vector<std::pair<Node, int>> first; first.push_back({T("t"), 1}); first.push_back({V("v"), 1}); if (depth > 0) for (int k = 0; k < n; k++) { vector<Nodes> in; trees(k, depth - 1, in); for (auto &b : in) { first.push_back({If({"v"}, b), k + 1}); first.push_back({IfElse({"v", "==", "\"L1\""}, b, {V("a")}), k + 1}); first.push_back({IfElse({"w.n"}, {T("n:"), V("w.n")}, b), k + 1}); first.push_back({For("v", "l", b), k + 1}); first.push_back({For("w", "m", b), k + 1}); first.push_back({For("v", "w.s", b), k + 1}); } } for (auto &f : first) { vector<Nodes> rest; if (f.second >= n) rest.push_back({}); else { trees(n - f.second, depth, rest); } for (auto &r : rest) { Nodes x = {f.first}; x.insert(x.end(), r.begin(), r.end()); out.push_back(x); } } }
static void structures() { int orig = choose(2), part = choose(32); mc::shard(); static vector<Nodes> all; if (all.empty()) { trees(mc::thorough() ? 4 : 3, 3, all); std::set<string> seen; vector<Nodes> u; for (auto &x : all) if (seen.insert(src(x)).second) u.push_back(x); all = u; } Ctx c1 = C1(), c2{{"l", Ctx{}}, {"v", "outer"}, {"m", Ctx{{"1", Ctx{{"n", "one"}, {"s", Ctx{}}}}}}}, c3{{"w", Ctx{{"n", "N"}, {"s", Ctx{{"k", "false"}, {"j", "&"}}}}}, {"l", "no dict"}}; Many m; for (size_t i = part; i < all.size(); i += 32) { m.add(all[i]); if (m.n >= 400) { mc::note("structures, part %d", part); m.check({&c1, &c2, &c3, nullptr}, orig); m = Many(); } } m.check({&c1, &c2, &c3, nullptr}, orig); mc::outcome(mc::strf("%d of %zu", part, all.size())); }
// any white space inside tags
static void spacing() { static const char *W[] = {" ", "\t", "\n", "\r\n", "  \t ", ""}; int a = choose(6), b = choose(5), c = choose(6), orig = choose(2); mc::shard(); mc::note("tags as %s", esc(string("{%") + W[a] + "if" + W[b] + "a" + W[c] + "%}").c_str()); S0 = W[a]; S1 = W[b]; S2 = W[c]; World w; w.all.push_back({"t.html", "base.html", {Block("one", {If({"a"}, {V("a")}), For("x", "l", {V("x"), IfElse({"x", "==", "\"L1\""}, {T("=")}, {T("-")})}), Include("inc.html")})}}); w.all.push_back({"base.html", "", {T("<"), Block("one", {T("wrong")}), Block("two", {IfElse({"nothing"}, {T("wrong")}, {T("two")})}), T(">")}}); w.all.push_back({"inc.html", "", {For("y", "m.p.s", {V("y"), T(",")})}}); Ctx x = C1(); check_world(w, "t.html", {&x, nullptr}, orig); S0 = S1 = S2 = " "; mc::outcome(mc::strf("%d %d %d", a, b, c)); }
// blocks and templates that extend others: what each of three levels redefines
static void inheritance() {
  int shape = choose(8), mid = choose(8), leaf = choose(8), deep = choose(2); mc::shard(); int orig = (shape + mid + leaf) & 1; auto body = [](const char *n, int lv) -> Nodes { return {T(mc::strf("(%s%d ", n, lv)), V("a"), T(")")}; }; Nodes base; Nodes x = body("x", 0), y = body("y", 0), z = body("z", 0);
  switch (shape) { case 0: base = {T("B["), Block("x", x), T("]"), Block("y", y), Block("z", z), T("E")}; break; case 1: base = {Block("x", {T("o"), Block("y", y), Block("z", z), T("c")})}; break; case 2: base = {For("v", "l", {Block("x", {T("<"), V("v"), T(">")}), T(",")}), Block("y", y), Block("z", z)}; break; case 3: base = {IfElse({"a"}, {Block("x", x), Block("z", z)}, {Block("y", y)})}; break; case 4: base = {Block("x", {For("v", "l", {Block("y", {V("v")})})}), Block("z", {If({"f"}, {T("f")})})}; break; case 5: base = {For("w", "m", {For("v", "w.s", {Block("x", {V("w.n"), V("v")})}), Block("y", y)}), Block("z", z)}; break; case 6: base = {Include("part.html"), Block("x", {Include("part.html"), V("a")}), For("v", "l", {Include("part.html")}), Block("y", y), Block("z", z)}; break; default: base = {Block("x", {}), Block("y", {T("\n\"")}), T("\n"), Block("z", {V("d.y.z")})}; }
  auto level = [&](int mask, int lv) { Nodes n; n.push_back(T("outside ")); const char *N[] = {"x", "y", "z"}; for (int i = 0; i < 3; i++) if (mask >> i & 1) { Nodes b = body(N[i], lv); if (i == 0 && lv == 2) b.push_back(For("v", "l", {V("v"), T(";")})); if (i == 1) b.push_back(IfElse({"a", "==", "\"va\""}, {T("A")}, {V("b")})); if (i == 2 && lv == 1) b.push_back(Include("part.html")); n.push_back(Block(N[i], b)); n.push_back(V("a")); } return n; };
  World w; w.all.push_back({"part.html", "", {T("{part "), V("v"), T("}")}}); w.all.push_back({"base-0.html", "", base}); w.all.push_back({"1mid.html", "base-0.html", level(mid, 1)}); if (deep) w.all.push_back({"leaf.html", "1mid.html", level(leaf, 2)}); else if (leaf) return; Ctx c1 = C1(), c2{{"l", Ctx{{"k", "only"}}}}; mc::note("shape %d, the middle one redefines %d, the last one %d%s", shape, mid, leaf, deep ? "" : " (no last one)"); check_world(w, deep ? "leaf.html" : "1mid.html", {&c1, &c2, nullptr}, orig); mc::outcome(mc::strf("%d %d %d", shape, mid, leaf));
}
// every way to call a template; the same context several times; many calls
static void calls() {
  int way = choose(5), orig = choose(2); mc::shard(); World w; w.all.push_back({"t.html", "", {T("x"), V("a"), For("v", "l", {V("v"), Block("b", {T("-"), V("a")})}), Node{Node::COMMENT, " no \n comment "}, Block("c", {IfElse({"a"}, {T("A")}, {T("N")})})}}); Ctx c1 = C1(); Ctx none; So so; build(so, w, orig); string want = show(w, w.all[0], c1, {}), wnone = show(w, w.all[0], none, {}); mc::note("way %d", way); RawF raw = so.sym<RawF>("t_html"); auto hf = so.sym<onion_handler *(*)(onion_dict *)>("t_html_handler");
  if (way == 0 || way == 1) { onion_dict *d = way ? nullptr : to_dict(c1); handler = [&](onion_request *, onion_response *r) { raw(d, r); return OCS_PROCESSED; }; for (int i = 0; i < 5; i++) if (served() != (way ? wnone : want)) differ(served(), way ? wnone : want, "calling the function"); if (d) onion_dict_free(d); }
  else if (way == 2 || way == 3) { onion_handler *h = hf(way == 2 ? to_dict(c1) : nullptr); handler = [&](onion_request *q, onion_response *r) { return (int)onion_handler_handle(h, q, r); }; for (int i = 0; i < 5; i++) { string g = served(); if (g != (way == 2 ? want : wnone)) differ(g, way == 2 ? want : wnone, "as a handler"); } onion_handler_free(h); }
  else { handler = [&](onion_request *q, onion_response *r) { onion_dict *d = to_dict(c1); onion_response_write0(r, "before "); raw(d, r); onion_response_write0(r, " between "); raw(d, r); onion_dict_free(d); return OCS_PROCESSED; }; string g = served(); if (g != "before " + want + " between " + want) differ(g, "before " + want + " between " + want, "twice"); }
  string a = slurp((dir + "/assets.h").c_str()); if (a.find("void t_html(onion_dict *context, onion_response *res);") == string::npos) fail("it is not in the assets file"); mc::outcome(std::to_string(way));
}
static void trans() { int orig = choose(2); mc::shard(); World w; Nodes n = {T("{% load i18n %}")}; static const char *S[] = {"hello", "100% sure", "50%%", "a } b", "%", "<b>", "back\\slash", "it's", "#}", "{{a}}", "% %"}; for (auto s : S) { n.push_back(Node{Node::TRANS, s}); n.push_back(T("|")); } mc::note("translations with no translation"); World x; x.all.push_back({"t.html", "", n}); So so; build(so, x, orig); string want; for (auto s : S) want += string(s) + "|"; Ctx c; string g = rendered(so, "t.html", &c); if (g != want) differ(g, want, "trans"); mc::outcome("trans"); }
// what is not a template: told, and no crash
static void errors() {
  static const char *E[] = {"{% endif %}", "{% else %}", "{% endfor %}", "{% endblock %}", "{% if a %}", "{% for v in l %}", "{% block x %}", "{% if a %}{% endfor %}", "{% for v in l %}{% endif %}", "{% block x %}{% endif %}{% endblock %}", "{% if a %}{% else %}{% else %}{% endif %}", "{% nothing %}", "{% %}", "{%%}", "{% if %}x{% endif %}", "{% if a b %}x{% endif %}", "{% if a ~ b %}x{% endif %}", "{% for %}x{% endfor %}", "{% for v %}x{% endfor %}", "{% for v in %}x{% endfor %}", "{% include %}", "{% extends %}", "{% block %}{% endblock %}", "{% load nosuchplugin %}", "{% if a", "{{ a", "{# a", "{{ a }", "{% if a %", "{% include \"x %}", "{% endif %}{% endif %}{% endif %}{% endfor %}{% endfor %}", "{% if a %}{% for v in l %}{% endif %}{% endfor %}"}; int n = sizeof E / sizeof *E; int i = choose(n), where = choose(3), orig = choose(2); mc::shard(); string s = where == 0 ? E[i] : where == 1 ? string("text\n") + E[i] : string("{% if q %}") + E[i]; if (where == 2 && (i == 0 || i == 1)) return; mc::note("%s", esc(s).c_str()); spit(dir + "/t.html", s); string said; unlink((dir + "/t.c").c_str()); int r = otemplate("t.html", "t.c", orig, &said); if (crashed(r)) fail("otemplate crashes: %s", said.substr(0, 1500).c_str()); if (r == 0) fail("it is accepted"); mc::outcome(E[i]);
  if (i == 0 && where == 0) { r = otemplate("nothere.html", "t.c", orig, &said); if (crashed(r)) fail("crashes with a file that is not there"); if (!r) fail("a file that is not there is accepted"); spit(dir + "/t.html", "x"); r = otemplate("t.html", "no/such/dir/t.c", orig, &said); if (crashed(r)) fail("crashes with an output that can not be written"); if (!r) fail("nothing was written and it does not say it"); }
}
int main(int c, char **v) {
  mc::rule("Templates compiled with the tool of the tree, then with gcc, loaded and served by the library; every answer is compared with a renderer of our own. All texts of at most 5 (6) symbols of 10, all bytes next to those that matter, sizes around buffers, all comparisons of 9 operands in 26 contexts, all trees of at most 3 (4) tags in 4 contexts, all redefinitions of three blocks over three levels for 8 shapes, 6 x 5 x 6 ways of separating what is in tags, 32 errors. Distinct: snippets x contexts.");
  mc::assume("Two templates included in the same one do not have blocks of the same name."); mc::assume("gcc is right.");
  mc::add("texts", texts, true, init, 300); mc::add("ends of the template", ends, true, init); mc::add("bytes", bytes, true, init, 300); mc::add("sizes", sizes, true, init, 300); mc::add("variables", variables, true, init, 300); mc::add("conditions", conditions, true, init, 300); mc::add("structures", structures, true, init, 600); mc::add("spaces in tags", spacing, true, init); mc::add("inheritance", inheritance, true, init); mc::add("ways to call", calls, true, init); mc::add("translations", trans, true, init); mc::add("errors", errors, true, init);
  return mc::main(c, v);
}
