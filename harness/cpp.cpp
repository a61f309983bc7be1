// P31: the C++ interface gives what the C one gives, and what is held stays alive
#include "corpus.hpp"
#include "onion.hpp"
#include "dict.hpp"
#include "request.hpp"
#include "response.hpp"
#include "url.hpp"
#include "shortcuts.hpp"
#include "extrahandlers.hpp"
#include "exceptions.hpp"
#include "listen_point.hpp"
#include "http.hpp"
#include "mime.hpp"
extern "C" {
#include "onion/handlers/exportlocal.h"
#include "onion/shortcuts.h"
}
#include <stdexcept>
#include <set>
#include <optional>
using namespace onh; using mc::choose;
typedef Onion::Dict Dict;
// ---- dictionaries: handles to shared trees, against a model of the same
struct Node; typedef std::shared_ptr<Node> P;
struct Node { std::map<string, string> s; std::map<string, P> d; };
static P copy(const P &p) { P r = std::make_shared<Node>(); r->s = p->s; for (auto &e : p->d) r->d[e.first] = copy(e.second); return r; }
static bool inside(const P &x, const P &of) { if (x == of) return true; for (auto &e : of->d) if (inside(x, e.second)) return true; return false; }
static string text(const P &p) { if (!p) return "-"; string r = "{"; for (auto &e : p->s) r += e.first + "=" + e.second + ";"; for (auto &e : p->d) r += e.first + text(e.second); return r + "}"; }
static const char *SK[] = {"a", "b"}, *DK[] = {"d", "e"};
static string text(const Dict &x, int depth = 0) {
  if (!x.c_handler()) return "-"; string r = "{"; size_t n = 0; std::map<string, string> m = const_cast<Dict &>(x); for (auto k : SK) { bool has = x.has(k); if (has) { n++; string v = x[k]; if (x.get(k, "?") != v || m[k] != v) fail("values differ"); r += string(k) + "=" + v + ";"; } else { if (x.get(k, "?") != "?") fail("a value that is not there"); bool th = false; try { x[k]; } catch (Dict::key_not_found &e) { th = true; if (string(e.what()).find(k) == string::npos) fail("the exception does not tell the key"); } if (!th) fail("no exception"); } }
  if (m.size() != n) fail("the map has %zu", m.size()); if (depth < 6) for (auto k : DK) { Dict s = x.getDict(k); if (s.c_handler()) { n++; r += k + text(s, depth + 1); } else if (s.has("a") || s.get("a", "x") != "x" || s.count() || s.getDict("d").c_handler()) fail("what does not exist has something"); }
  if (x.count() != n) fail("it has %zu elements and not %zu", x.count(), n); return r + "}";
}
static void dicts(int slots, int depth) {
  static const char *JS[] = {"{\"a\":\"ja\", \"d\":{\"b\":\"jb\"}}", "{}", "{\"a\":", ""}; enum { NEW, DEL, ASSIGN, COPY, ASSIGN_C, ADDS, ADDD, GETD, ASSIGN_GETD, HARD, REMOVE, MERGE, JSON, LOCK, INIT, NOPS };
  size_t live = 0; vector<int> rec; size_t at = 0; string all; auto choose = [&](int n) { if (live) return rec[at++]; rec.push_back(mc::choose(n)); return rec.back(); };
  for (int round = 0; round < 2; round++) { // the same twice, so that what is lost is seen
    all = string(); if (round) { live = mc::live_bytes(); }
    vector<std::optional<Dict>> h(slots); vector<P> m(slots); vector<bool> on(slots); string prog; int added = 0;
    auto check = [&](const char *what) { for (int i = 0; i < slots; i++) if (on[i]) { string w = text(m[i]), g = text(*h[i]); if (g != w) fail("%s: after%s %d is %s instead of %s", what, prog.c_str(), i, g.c_str(), w.c_str()); } };
    for (int step = 0; step < depth; step++) {
      int op = choose(NOPS), i = choose(slots), j = 0; bool two = op == ASSIGN || op == COPY || op == ASSIGN_C || op == ADDD || op == GETD || op == ASSIGN_GETD || op == HARD || op == MERGE; if (two) j = choose(slots); int k = op == ADDS || op == REMOVE || op == JSON ? choose(op == ADDS ? 2 : op == JSON ? 4 : 3) : 0;
      bool need_i = op == DEL || op == ASSIGN || op == ASSIGN_C || op == ADDS || op == ADDD || op == ASSIGN_GETD || op == REMOVE || op == MERGE || op == LOCK; if (need_i && !on[i]) mc::prune(); if (two && !on[j]) mc::prune(); if ((op == NEW || op == INIT) && step && on[i]) mc::prune();
      if ((op == ADDS || op == ADDD || op == REMOVE || op == MERGE || op == LOCK) && !m[i]) mc::prune(); if ((op == ADDD || op == MERGE || op == HARD) && !m[j]) mc::prune(); // writing to what does not exist
      if (op == MERGE) { if (inside(m[i], m[j])) mc::prune(); /* one into itself */ for (auto &e : m[j]->s) if (m[i]->s.count(e.first)) mc::prune(); for (auto &e : m[j]->d) if (m[i]->d.count(e.first)) mc::prune(); }
      static const char *ON[] = {"new", "del", "assign", "copy", "assign C", "add string", "add dict", "get dict", "assign get dict", "hard dup", "remove", "merge", "json", "lock", "init"}; prog += mc::strf(" %s(%d%s%s)", ON[op], i, two ? mc::strf(",%d", j).c_str() : "", k ? mc::strf(",%d", k).c_str() : ""); if (!round) { mc::note("%s", prog.c_str());
      if (step == 1 && depth > 1) mc::shard(); }
      switch (op) {
      case NEW: h[i].emplace(); m[i] = std::make_shared<Node>(); on[i] = true; break;
      case INIT: h[i].emplace(Dict{{"a", "ia"}, {"b", ""}}); m[i] = std::make_shared<Node>(); m[i]->s = {{"a", "ia"}, {"b", ""}}; on[i] = true; break;
      case DEL: h[i].reset(); m[i].reset(); on[i] = false; break;
      case ASSIGN: *h[i] = *h[j]; m[i] = m[j]; break;
      case COPY: { Dict c(*h[j]); h[i].reset(); h[i].emplace(c); P t = m[j]; m[i] = t; on[i] = true; break; }
      case ASSIGN_C: *h[i] = h[j]->c_handler(); m[i] = m[j]; break;
      case ADDS: { string v = mc::strf("v%d<\"", added++); h[i]->add(SK[k], v, OD_DUP_ALL | OD_REPLACE); m[i]->s[SK[k]] = v; break; }
      case ADDD: { P c = copy(m[j]); h[i]->add(DK[step & 1], *h[j], OD_DUP_ALL | OD_REPLACE); m[i]->d[DK[step & 1]] = c; break; }
      case GETD: { Dict s = h[j]->getDict("d"); P t = m[j] && m[j]->d.count("d") ? m[j]->d["d"] : nullptr; h[i].reset(); h[i].emplace(s); m[i] = t; on[i] = true; break; }
      case ASSIGN_GETD: { P t = m[j] && m[j]->d.count("d") ? m[j]->d["d"] : nullptr; *h[i] = h[j]->getDict("d"); m[i] = t; break; }
      case HARD: { P c = copy(m[j]); Dict x = h[j]->hard_dup(); h[i].reset(); h[i].emplace(x); m[i] = c; on[i] = true; break; }
      case REMOVE: h[i]->remove(k == 2 ? "d" : SK[k]); if (k == 2) m[i]->d.erase("d"); else m[i]->s.erase(SK[k]); break;
      case MERGE: { P c = copy(m[j]); h[i]->merge(*h[j]); for (auto &e : c->s) m[i]->s.insert(e); for (auto &e : c->d) m[i]->d.insert(e); break; }
      case JSON: { h[i].reset(); h[i].emplace(Dict::fromJSON(JS[k])); m[i] = k < 2 ? std::make_shared<Node>() : nullptr; if (k == 0) { m[i]->s["a"] = "ja"; m[i]->d["d"] = std::make_shared<Node>(); m[i]->d["d"]->s["b"] = "jb"; } on[i] = true; break; }
      case LOCK: { auto l = h[i]->readLock(); auto l2 = std::move(l); h[i]->get("a"); } { auto l = h[i]->writeLock(); Dict::lock l2(std::move(l)); } break;
      }
      check("different");
    }
    for (int i = 0; i < slots; i++) if (on[i] && m[i]) { Dict back = Dict::fromJSON(h[i]->toJSON()); string w = text(m[i]), g = text(back); if (g != w) fail("after%s: through JSON %s instead of %s", prog.c_str(), g.c_str(), w.c_str()); }
    if (!round) for (int i = 0; i < slots; i++) all += text(m[i]);
    if (!round) mc::state(mc::hash(all.data(), all.size(), slots));
  }
  all = string(); if (mc::live_bytes() > live) fail("%zu bytes are left", mc::live_bytes() - live);
}
// ---- handlers
static int alive; struct Token { Token() { alive++; } Token(const Token &) { alive++; } ~Token() { alive--; } };
static int how; static const int NHOW = 17; enum Phase { BEFORE, AFTER_BIG };
static string longtext(size_t n) { string r; for (size_t i = 0; i < n; i++) r += "abcdefghijklmnopqrstuvwxyz"[i % 26]; return r; }
static onion_connection_status act(Onion::Request &q, Onion::Response &r) {
  switch (how) {
  case 0: r << "hello " << 42 << " " << q.path(); return OCS_PROCESSED;
  case 1: return OCS_NOT_PROCESSED; case 2: return OCS_INTERNAL_ERROR; case 3: return OCS_FORBIDDEN; case 4: return OCS_CLOSE_CONNECTION;
  case 5: throw Onion::HttpException("teapot", (onion_response_codes)HTTP_FORBIDDEN); case 6: throw Onion::HttpException("plain"); case 7: throw Onion::HttpNotFound("not here"); case 8: throw Onion::HttpInternalError("broken"); case 9: throw Onion::HttpRedirect("/else where");
  case 10: throw std::runtime_error("std"); case 11: throw 42; case 12: throw "text"; case 13: throw string("a string"); case 14: { Dict d; d["missing"]; return OCS_PROCESSED; }
  case 15: r.setCode(201); r.setHeader("X-A", "b c"); r.addCookie("k", "v", -1, "", "", 0); r.setLength(3); r << "abc"; return OCS_PROCESSED; case 16: q["no such header"]; return OCS_PROCESSED; } return OCS_PROCESSED;
}
static void judge(const string &raw, bool open, const char *kind, const string &path, bool onlylive) {
  static const int CODE[] = {200, 404, 500, 403, 0, 403, 500, 404, 500, 302, 500, 500, 500, 500, 500, 201, 500}; static const char *BODY[] = {nullptr, nullptr, nullptr, nullptr, nullptr, "teapot", "plain", "not here", "broken", nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, "abc", nullptr};
  if (how == 4) { if (open) fail("%s: the connection is not closed", kind); return; } Resp r = parse_response(raw, 0, false, !open); if (!r.err.empty() || r.incomplete) fail("%s: the answer is not right: %s %s", kind, r.err.c_str(), esc(raw).c_str());
  if (r.code != CODE[how]) fail("%s: outcome %d gives %d instead of %d", kind, how, r.code, CODE[how]); if (BODY[how] && r.body != BODY[how]) fail("%s: outcome %d gives '%s'", kind, how, esc(r.body).c_str()); if (how == 0 && r.body != "hello 42 " + path) fail("%s: '%s'", kind, esc(r.body).c_str());
  if (how == 9 && (!r.get("Location") || *r.get("Location") != "/else where")) fail("%s: no Location", kind); if (how == 15 && (!r.get("X-A") || *r.get("X-A") != "b c" || !r.get("Set-Cookie") || r.get("Set-Cookie")->compare(0, 3, "k=v"))) fail("%s: headers are lost", kind);
}
struct Obj { Token t; onion_connection_status go(Onion::Request &q, Onion::Response &r) { return act(q, r); } };
static int c_act(void *, onion_request *q, onion_response *r) { Onion::Request Q(q); Onion::Response R(r); return act(Q, R); }
struct Own : Onion::HandlerBase { Token t; onion_connection_status operator()(Onion::Request &q, Onion::Response &r) override { return act(q, r); } };
static const char *KIND[] = {"function", "method", "own class", "C function", "C bridge", "url function", "url method", "url handler", "url C handler", "url C function", "url in a url", "url called by a function", "moved root url", "url moved", "url of pointer", "root url and its move destroyed", "own class in unique_ptr"};
static void handlers() {
  int kind = choose(17); how = choose(NHOW); mc::shard(); bool throws = how >= 5 && how != 15; if (throws && (kind == 3 || kind == 4 || kind == 8 || kind == 9) && 0) mc::prune(); // through C frames of the library: only with the C++ handler above
  if (throws && (kind == 4 || kind == 8)) { mc::outcome("-"); return; } // a C handler can not throw
  mc::note("%s, outcome %d", KIND[kind], how); size_t live = 0; 
  for (int round = 0; round < 3; round++) { if (round == 1) live = mc::live_bytes(); alive = 0; {
    Server s(nullptr); onion_handler_free(onion_get_root_handler(s.o)); onion_set_root_handler(s.o, nullptr); Obj obj; Token tok; auto fn = [tok](Onion::Request &q, Onion::Response &r) { return act(q, r); }; string path = "/some/x", rest = "x", want = kind < 5 || kind == 16 ? "some/x" : "";
    std::unique_ptr<Onion::Url> keep, keep2; typedef Onion::Handler Hd;
    struct Holder { onion *c_handler() { return p; } onion *p; }; 
    auto set = [&](Hd h) { onion_set_root_handler(s.o, Onion::onion_handler_cpp_to_c(std::move(h))); };
    auto &U = keep; auto mk = [&] { U.reset(new Onion::Url(onion_root_url(s.o))); }; // ownership is fixed below
    switch (kind) {
    case 0: set(Hd::make<Onion::HandlerFunction>(fn)); break; case 1: set(Hd::make<Onion::HandlerMethod<Obj>>(&obj, &Obj::go)); break; case 2: set(new Own); break; case 16: set(Hd::make<Own>()); break; case 3: set(Hd::make<Onion::HandlerCFunction>((onion_handler_handler)c_act)); break; case 4: set(Onion::onion_handler_c_to_cpp(onion_handler_new((onion_handler_handler)c_act, nullptr, nullptr))); break;
    default: {
      U.reset(new Onion::Url()); onion_set_root_handler(s.o, nullptr);
      auto add = [&](Onion::Url &u) { switch (kind) { case 6: u.add("some/x", &obj, &Obj::go); break; case 7: u.add("some/x", Hd::make<Own>()); break; case 8: u.add("some/x", onion_handler_new((onion_handler_handler)c_act, nullptr, nullptr)); break; case 9: u.add("some/x", (onion_handler_handler)c_act); break; case 10: keep2.reset(new Onion::Url()); u.add("^some/", std::move(*keep2)); keep2->add("x", fn); break; case 11: keep2.reset(new Onion::Url()); keep2->add("x", fn); { Onion::Url *k2 = keep2.get(); u.add("^some/", [k2](Onion::Request &q, Onion::Response &r) { return (*k2)(q, r); }); } break; default: u.add("some/x", fn); } };
      if (kind == 13) { add(*U); keep2.reset(new Onion::Url(std::move(*U))); Onion::Url *k2 = keep2.get(); U.reset(); set(Hd::make<Onion::HandlerFunction>([k2](Onion::Request &q, Onion::Response &r) { return (*k2)(q, r); })); }
      else if (kind == 14) { U.reset(new Onion::Url(onion_url_new())); add(*U); set(std::move(*U)); }
      else { add(*U); set(std::move(*U)); }
    } }
    for (int again = 0; again < 2; again++) { Conn c(s); c.feed("GET /some/x HTTP/1.1\r\n\r\n"); judge(c.out, c.open, KIND[kind], want, false); c.close(); }
    if (kind >= 5 && kind != 16) { int h0 = how; how = 1; Conn c(s); c.feed("GET /some/y HTTP/1.1\r\n\r\n"); judge(c.out, c.open, "another path", "", false); c.close(); how = h0; }
  } if (alive) fail("%s: %d handlers were not freed, or freed twice", KIND[kind], alive); }
  if (mc::live_bytes() > live) fail("%s, outcome %d: %zu bytes left", KIND[kind], how, mc::live_bytes() - live); mc::outcome(mc::strf("%d %d", kind, how));
}
// ---- the root url of a server, moved and destroyed in any order
static void urls() {
  int n = mc::thorough() ? 6 : 5; size_t live = 0; vector<int> prog; for (int i = 0; i < n; i++) prog.push_back(choose(7)); mc::shard(); string d; for (int p : prog) d += mc::strf(" %d", p); mc::note("program%s", d.c_str()); how = 0;
  for (int round = 0; round < 3; round++) { if (round == 1) live = mc::live_bytes(); alive = 0; {
    Onion::Onion o(O_ONE_LOOP | O_NO_SIGTERM | O_NO_SIGPIPE); onion_listen_point *lp = onion_http_new(); lp->request_init = conn_init; lp->read = conn_read; lp->write = conn_write; lp->close = conn_close; lp->listen = conn_listen; onion_add_listen_point(o.c_handler(), nullptr, nullptr, lp); Server *fake = (Server *)calloc(1, sizeof(Server)); fake->o = o.c_handler(); fake->lp = lp;
    std::unique_ptr<Onion::Url> u[2]; int added = 0; bool root = false; Token tok; auto fn = [tok](Onion::Request &q, Onion::Response &r) { r << "here"; return OCS_PROCESSED; };
    for (int p : prog) switch (p) {
    case 0: if (!u[0]) { u[0].reset(new Onion::Url(o)); root = true; } break; case 1: if (!u[1]) { u[1].reset(new Onion::Url(&o)); root = true; } break; case 2: if (u[0] && !u[1]) u[1].reset(new Onion::Url(std::move(*u[0]))); break; case 3: if (u[1] && !u[0]) u[0].reset(new Onion::Url(std::move(*u[1]))); break; case 4: u[0].reset(); break; case 5: u[1].reset(); break;
    case 6: for (auto &x : u) if (x) { x->add(mc::strf("p%d", added++), fn); break; } break; }
    for (int i = 0; root && i <= added; i++) { Conn c(*fake); c.feed(mc::strf("GET /p%d HTTP/1.1\r\n\r\n", i)); Resp r = parse_response(c.out, 0, false, !c.open); if (r.code != (i < added ? 200 : 404) || (i < added && r.body != "here")) fail("after%s: /p%d gives %d %s", d.c_str(), i, r.code, esc(r.body).c_str()); c.close(); }
    free(fake);
  } if (alive) fail("after%s: %d handlers alive", d.c_str(), alive); }
  if (mc::live_bytes() > live) fail("after%s: %zu bytes left", d.c_str(), mc::live_bytes() - live); mc::outcome(d);
}
// ---- writing to the response as a stream
static void streams() {
  static Server *s; static vector<int> prog; static string want; static int err; if (!s) s = new Server([](onion_request *, onion_response *res) { want.clear(); Onion::Response r(res); for (int p : prog) { string t; switch (p) { case 0: r << "text"; want += "text"; break; case 1: r << 42 << ' ' << 1.5 << true; want += "42 1.51"; break; case 2: r.put('\0'); want += '\0'; break; case 3: r << std::endl; want += "\n"; break; case 4: r << std::flush; break; case 5: t = longtext(1499); r << t; want += t; break; case 6: t = longtext(3001); r.write(t.data(), t.size()); want += t; break; case 7: t = string("a\0b\xff", 4); r << t; want += t; break; case 8: r << ""; r.write("x", 0); break; case 9: r << "\xff"; r.put((char)0xff); want += "\xff\xff"; break; } if (!r.good()) err++; } return (int)OCS_PROCESSED; });
  int n = mc::thorough() ? 5 : 4; prog.clear(); for (int i = 0; i < n; i++) { prog.push_back(choose(10)); if (i == 1) mc::shard(); } string d; for (int p : prog) d += mc::strf(" %d", p); mc::note("writes%s", d.c_str()); err = 0; Conn c(*s); c.feed("GET / HTTP/1.1\r\n\r\n"); Resp r = parse_response(c.out, 0, false, !c.open); if (!r.err.empty() || r.incomplete || r.code != 200) fail("the answer is not right: %s", r.err.c_str()); if (r.body != want) fail("writes%s: %zu bytes instead of %zu", d.c_str(), r.body.size(), want.size()); if (err) fail("the stream is not good"); c.close(); mc::state(mc::hash(want.data(), want.size(), 0));
}
// ---- what is seen of a request
static KV kv(const Dict &d) { return dump(d.c_handler()); }
static void requests() {
  static vector<Msg> ms = corpus(); int mi = choose(ms.size()), extra = choose(4); mc::shard(); static Server *s; static vector<Dict> held; static int calls; static vector<KV> were;
  if (!s) { s = new Server([](onion_request *q, onion_response *) { calls++; Onion::Request r(q);
    auto same = [](const string &a, const char *b, const char *def, const char *what) { if (a != (b ? b : def)) fail("%s: '%s' instead of '%s'", what, esc(a).c_str(), b ? b : def); };
    same(r.path(), onion_request_get_path(q), "", "path"); same(r.fullpath(), onion_request_get_fullpath(q), "", "full path"); same(r.methodName(), onion_request_get_method_name(q), "", "method"); if (r.flags() != onion_request_get_flags(q)) fail("flags"); same(r.clientDescription(), onion_request_get_client_description(q), "", "client"); if (r.isSecure() != onion_request_is_secure(q)) fail("secure"); const char *lc = onion_request_get_language_code(q); same(r.languageCode(), lc, "", "language"); onion_low_free((void *)lc);
    if (kv(r.headers()) != dump(onion_request_get_header_dict(q)) || kv(r.query()) != dump(onion_request_get_query_dict(q)) || kv(r.post()) != dump(onion_request_get_post_dict(q)) || kv(r.files()) != dump(onion_request_get_file_dict(q)) || kv(r.cookies()) != dump(onion_request_get_cookies_dict(q))) fail("the dicts are different"); if (r.hasFiles() != !!onion_request_get_file_dict(q)) fail("hasFiles");
    for (const char *k : {"a", "b", "n", "f", "c", "", "zz"}) for (const char *def : {"", "def"}) { same(r.query(k, def), onion_request_get_query(q, k), def, "query"); same(r.post(k, def), onion_request_get_post(q, k), def, "post"); same(r.cookies(k, def), onion_request_get_cookie(q, k), def, "cookie"); same(r.session(k, def), onion_request_get_session(q, k), def, "session"); }
    for (auto &e : dump(onion_request_get_header_dict(q))) same(r[e.first], onion_request_get_header(q, e.first.c_str()), "", "header"); 
    onion_dict *sd = onion_request_get_session_dict(q); r.session().add("visits", mc::strf("%d", calls), OD_DUP_ALL | OD_REPLACE); same(r.session("visits"), mc::strf("%d", calls).c_str(), "", "session"); if (kv(r.session()) != dump(sd)) fail("session");
    if (calls % 2) r.removeSession(); held.push_back(Dict(r.headers())); held.push_back(Dict(Dict(r.query()))); Dict p; p = r.query(); held.push_back(p); were.push_back(kv(r.headers())); were.push_back(kv(r.query())); were.push_back(kv(r.query())); return (int)OCS_PROCESSED; }); }
  const Msg &m = ms[mi]; calls = 0; mc::note("%s", m.name.c_str()); string w = m.wire; static const char *X[] = {"", "Accept-Language: es-ES, en;q=0.5\r\n", "Accept-Language: \r\n", "Cookie: a=1; n=2\r\n"}; size_t p = w.find("\n"); while (p != string::npos && p < 8) p = w.find("\n", p + 1); if (extra && p != string::npos) { w.insert(p + 1, X[extra]); }
  held.clear(); were.clear(); { Conn c(*s); c.feed(w); c.close(); } tmp_reset(); if (m.ok && !extra && calls != 1) fail("%s: the handler was called %d times", m.name.c_str(), calls);
  mc::outcome(mc::strf("%d %d", mi, calls));
}
// ---- programs of the response, in C++ and in C
struct Op { int k, a, b, c, d; };
static const char *PATHS[] = {"", "/", "/private"}, *DOMS[] = {"", "x.com", "*.y.org"}; static const int VAL[] = {-1, 0, 1, 86400, 1000000};
static void op_cpp(const Op &o, Onion::Response &r, string &ret) { switch (o.k) {
  case 0: r.setCode(o.a); break; case 1: r.setHeader("X-A", o.a ? "b c" : ""); break; case 2: r.setLength(o.a); break; case 3: r.writeHeaders(); break; case 4: ret += mc::strf("%d ", r.write("abcdef", o.a)); break;
  case 5: r.addCookie(o.a % 2 ? "name" : "n", o.a / 2 ? "" : "v v", VAL[o.b], PATHS[o.c], DOMS[o.d % 3], o.d / 3); break; } }
static void op_c(const Op &o, onion_response *r, string &ret) { switch (o.k) {
  case 0: onion_response_set_code(r, o.a); break; case 1: onion_response_set_header(r, "X-A", o.a ? "b c" : ""); break; case 2: onion_response_set_length(r, o.a); break; case 3: onion_response_write_headers(r); break; case 4: ret += mc::strf("%d ", (int)onion_response_write(r, "abcdef", o.a)); break;
  case 5: onion_response_add_cookie(r, o.a % 2 ? "name" : "n", o.a / 2 ? "" : "v v", VAL[o.b], *PATHS[o.c] ? PATHS[o.c] : nullptr, *DOMS[o.d % 3] ? DOMS[o.d % 3] : nullptr, o.d / 3); break; } }
static vector<Op> ops; static bool incpp; static string rets; static Server *opsrv;
static string run_ops(bool cpp, const char *q) { if (!opsrv) opsrv = new Server([](onion_request *, onion_response *res) { rets.clear(); if (incpp) { Onion::Response r(res); for (auto &o : ops) op_cpp(o, r, rets); } else for (auto &o : ops) op_c(o, res, rets); return (int)OCS_PROCESSED; }); incpp = cpp; Conn c(*opsrv); c.feed(q); string o = c.out + (c.open ? " open " : " closed ") + rets; c.close(); return o; }
static void compare_ops(const char *q, const string &d) { for (int t = 0;; t++) { time_t t0 = time(nullptr); string a = run_ops(true, q), b = run_ops(false, q); if (a == b) { mc::state(mc::hash(d.data(), d.size(), 7)); return; } if (time(nullptr) == t0 || t > 5) fail("%s: C++ gives '%s' and C '%s'", d.c_str(), esc(a).c_str(), esc(b).c_str()); } }
static const char *OPREQ[] = {"GET / HTTP/1.1\r\n\r\n", "HEAD / HTTP/1.1\r\n\r\n", "GET / HTTP/1.0\r\n\r\n"};
static void cookies() { int a = choose(4), b = choose(5); mc::shard(); for (int c = 0; c < 3; c++) for (int d = 0; d < 12; d++) { ops = {{5, a, b, c, d}}; string t = mc::strf("cookie %d %d %d %d", a, b, c, d); mc::note("%s", t.c_str()); compare_ops(OPREQ[0], t); } mc::outcome(mc::strf("%d %d", a, b)); }
static void responses() {
  static const Op ALL[] = {{0, 201}, {0, 404}, {0, 304}, {1, 0}, {1, 1}, {2, 3}, {2, 0}, {3}, {4, 3}, {4, 0}, {5, 0, 0, 0, 0}, {5, 1, 3, 2, 7}}; const int N = sizeof ALL / sizeof *ALL; int n = mc::thorough() ? 4 : 3; int q = choose(3), f = choose(N); mc::shard(); long all = 1; for (int i = 1; i < n; i++) all *= N;
  for (long x = 0; x < all; x++) { ops = {ALL[f]}; string d = mc::strf("request %d, operations %d", q, f); long y = x; for (int i = 1; i < n; i++, y /= N) { ops.push_back(ALL[y % N]); d += mc::strf(" %ld", y % N); } mc::note("%s", d.c_str()); compare_ops(OPREQ[q], d); } mc::outcome(mc::strf("%d %d", q, f));
}
// ---- ready made handlers
static void ready() {
  int k = choose(9), q = choose(4); mc::shard(); string dir = mc::scratch() + "/ready"; mkdir(dir.c_str(), 0700); spit(dir + "/f.html", "<p>file</p>"); mc::note("ready handler %d, request %d", k, q); static const char *Q[] = {"GET /f.html HTTP/1.1\r\n\r\n", "HEAD /f.html HTTP/1.1\r\n\r\n", "GET /none HTTP/1.1\r\n\r\n", "GET /f.html HTTP/1.0\r\n\r\n"}; size_t live = 0; string out[2];
  for (int round = 0; round < 3; round++) { if (round == 1) live = mc::live_bytes(); for (int cpp = 0; cpp < 2; cpp++) for (int t = 0; t < 5; t++) { time_t t0 = time(nullptr); std::unique_ptr<Onion::Url> u; Server s(nullptr); onion_handler_free(onion_get_root_handler(s.o)); onion_set_root_handler(s.o, nullptr); string file = dir + "/f.html";
      auto set = [&](Onion::Handler h) { onion_set_root_handler(s.o, Onion::onion_handler_cpp_to_c(std::move(h))); }; struct D { string file, dir; int k; } *d = new D{file, dir, k};
      if (cpp) switch (k) { case 0: set(Onion::StaticHandler(file)); break; case 1: set(Onion::Shortcuts::static_file(file)); break; case 2: set(Onion::RedirectHandler("/other?a=b")); break; case 3: set(Onion::Shortcuts::redirect("")); break; case 4: set(Onion::ExportLocal(dir)); break; case 5: set(Onion::ExportLocal(file)); break;
        case 6: set(Onion::Handler::make<Onion::HandlerFunction>([](Onion::Request &q, Onion::Response &r) { return Onion::redirect("/x y", q, r); })); break;
        case 7: set(Onion::Handler::make<Onion::HandlerFunction>([](Onion::Request &, Onion::Response &r) { Onion::Dict c; c.add("k", "value"); return Onion::render_to_response([](onion_dict *c, onion_response *r) { onion_response_write0(r, onion_dict_get(c, "k")); }, c, r); })); break;
        case 8: u.reset(new Onion::Url()); u->add("none", Onion::InternalRedirectHandler("f.html")); u->add("f.html", "static text", 203); set(std::move(*u)); break; }
      else { auto act = [](void *p, onion_request *q, onion_response *r) -> int { D *d = (D *)p; switch (d->k) { case 0: case 1: return onion_shortcut_response_file(d->file.c_str(), q, r); case 2: return onion_shortcut_redirect("/other?a=b", q, r); case 3: return onion_shortcut_redirect("", q, r); case 6: return onion_shortcut_redirect("/x y", q, r); case 7: onion_response_write0(r, "value"); return OCS_PROCESSED; } return OCS_NOT_PROCESSED; };
        if (k == 4 || k == 5) onion_set_root_handler(s.o, onion_handler_export_local_new(k == 4 ? dir.c_str() : file.c_str())); else if (k == 8) { onion_url *u = onion_root_url(s.o); onion_url_add_with_data(u, "none", (void *)+[](void *, onion_request *q, onion_response *r) -> int { return onion_shortcut_internal_redirect("f.html", q, r); }, nullptr, nullptr); onion_url_add_static(u, "f.html", "static text", 203); } else onion_set_root_handler(s.o, onion_handler_new((onion_handler_handler)(int (*)(void *, onion_request *, onion_response *))act, d, nullptr)); }
      { Conn c(s); c.feed(Q[q]); out[cpp] = c.out; c.close(); } delete d; if (time(nullptr) == t0) break; }
    if (out[0] != out[1]) { string a = out[0], b = out[1]; size_t i = a.find("\r\nDate: "), j = b.find("\r\nDate: "); if (i != string::npos && j != string::npos) { a.erase(i, a.find("\r\n", i + 2) - i); b.erase(j, b.find("\r\n", j + 2) - j); } if (a != b) fail("ready handler %d, request %d: C++ gives '%s' and C '%s'", k, q, esc(b).c_str(), esc(a).c_str()); } if (out[0].empty()) fail("no answer"); }
  unlink((dir + "/f.html").c_str()); rmdir(dir.c_str()); if (mc::live_bytes() > live + 64) fail("ready handler %d, request %d: %zu bytes left", k, q, mc::live_bytes() - live); mc::outcome(mc::strf("%d %d", k, q));
}
// ---- listen points and other objects
static void objects() {
  int k = choose(6), order = choose(3); mc::shard(); onion_log = nolog; mc::note("object %d, %d", k, order); size_t live = 0; for (int round = 0; round < 3; round++) { if (round == 1) live = mc::live_bytes(); Onion::Onion *o = new Onion::Onion(O_ONE_LOOP | O_NO_SIGTERM | O_NO_SIGPIPE);
    switch (k) {
    case 0: { Onion::ListenPoint l; if (order == 1) { Onion::ListenPoint l2(std::move(l)); o->addListenPoint("127.0.0.1", "0", std::move(l2)); } else if (order == 2) { o->addListenPoint("127.0.0.1", "0", std::move(l)); } onion_listen_point *p = onion_get_listen_point(o->c_handler(), 0); if ((order != 0) != (p != nullptr)) fail("listen point"); if (p && (string(p->hostname) != "127.0.0.1" || string(p->port) != "0")) fail("listen point is freed"); break; }
    case 1: { o->addListenPoint("127.0.0.1", "0", Onion::HttpListenPoint()); onion_listen_point *p = onion_get_listen_point(o->c_handler(), 0); if (!p || string(p->port) != "0") fail("listen point"); if (order) { o->addListenPoint("::1", "1", Onion::HttpListenPoint()); if (string(onion_get_listen_point(o->c_handler(), 1)->hostname) != "::1") fail("second listen point"); } break; }
    case 2: o->setPort(1234 + order); o->setHostname("localhost"); o->setTimeout(100); o->setMaxThreads(3); o->setMaxPostSize(10); o->setMaxFileSize(20); if (string(o->c_handler()->listen_points ? onion_get_listen_point(o->c_handler(), 0)->port : "?") != mc::strf("%d", 1234 + order)) fail("the port"); if (o->c_handler()->timeout != 100 || o->c_handler()->max_post_size != 10 || o->c_handler()->max_file_size != 20) fail("limits"); break;
    case 3: { Token *t = nullptr; alive = 0; { Onion::Handler h(new Own); if (order == 0) o->setRootHandler(std::move(h)); if (order == 1) { o->setRootHandler(std::move(h)); onion_handler *old = onion_get_root_handler(o->c_handler()); o->setRootHandler(new Own); onion_handler_free(old); } if (order == 2) o->setInternalErrorHandler(std::move(h)); } if (alive < 1) fail("the handler is freed"); break; }
    case 4: { { Onion::Dict d{{"xx", "application/xx"}}; Onion::Mime::set(d); } if (Onion::Mime::get("a.xx") != "application/xx") fail("mime"); Onion::Mime::update("yy", "text/yy"); if (Onion::Mime::get("b.yy") != "text/yy") fail("mime update"); Onion::Mime::remove("yy"); if (Onion::Mime::get("b.yy") != "text/plain") fail("mime remove"); onion_mime_set(nullptr); break; }
    case 5: { std::map<string, string> m = {{"a", "1"}, {"b", "2"}, {"", "empty"}}; Onion::Dict d(m); std::map<string, string> back = d; if (back != m) fail("map"); d.add("s", Onion::Dict(m)); back = d; if (back != m) fail("map with a dict inside"); break; }
    }
    delete o; if (k == 3 && alive) fail("%d handlers alive", alive); }
  if (mc::live_bytes() > live) fail("object %d, %d: %zu bytes left", k, order, mc::live_bytes() - live); mc::outcome(mc::strf("%d %d", k, order));
}
int main(int c, char **v) {
  mc::rule("Real C++ library. Dictionaries: all sequences of at most 4 (5) of 15 operations on two (three) handles, against a model of shared trees; handlers: 17 ways to give a handler x 17 outcomes (returns and exceptions); all sequences of 5 (6) operations on urls of a server; all sequences of 4 (5) writes of 10 kinds; the messages of the corpus seen through C++ and C. Distinct: contents of the handles, answers.");
  mc::assume("Handlers given by reference to objects of the user (methods, urls moved into others) outlive the server, as in C++.");
  mc::add("dictionaries", [] { dicts(2, mc::thorough() ? 5 : 4); }); mc::add("three dictionaries", [] { dicts(3, mc::thorough() ? 4 : 3); }); mc::add("handlers", handlers); mc::add("urls", urls); mc::add("streams", streams); mc::add("requests", requests); mc::add("objects", objects); mc::add("cookies", cookies); mc::add("responses", responses); mc::add("ready made handlers", ready);
  return mc::main(c, v);
}
