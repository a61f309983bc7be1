// P26: a server can be started, stopped at any moment, started again and freed, in every mode, and leaves nothing behind
#include "srv.hpp"
#include <fcntl.h>
static const struct { const char *name; int flags; int threads; } MODE[] = {{"poll", O_POLL, 1}, {"pool of 2", O_POOL, 2}, {"one loop", O_ONE_LOOP, 1}, {"pool of 3", O_POOL, 3}};
static int hello(onion_request *q, onion_response *r) { sched::point("handler"); string p = onion_request_get_fullpath(q); onion_response_set_length(r, 3 + p.size()); onion_response_write(r, "hi ", 3); onion_response_write(r, p.data(), p.size()); return OCS_PROCESSED; }
struct Cl { bool refused = false, answered = false, cut = false; bool keep = false, silent = false; std::shared_ptr<vk::Client> c; };
// a client: refused, or answered well, or disconnected before any answer
static void client(Cl *c, int port, bool must) {
  Http h; h.c = c->c = vk::connect(port); if (!h.c) { c->refused = true; if (must) fail("the connection is refused while listening"); return; }
  if (c->silent) { sched::wait([c] { return vk::eof(*c->c); }, "silent client"); vk::close(*c->c); return; }
  vk::send(*h.c, "GET /x HTTP/1.1\r\n\r\n"); int code; string hd, body;
  if (h.answer(&code, &hd, &body)) { if (code != 200 || body != "hi /x") fail("wrong answer %d '%s'", code, body.c_str()); c->answered = true; if (c->keep) while (h.fill()); }
  else { if (!h.buf.empty()) fail("half an answer: %s", mc::esc(h.buf).c_str()); c->cut = true; if (must) fail("the connection is closed without an answer"); }
  vk::close(*h.c);
}
struct Listener { onion *o; int ret = -1; int f = 0; bool detach;
  void start() { if (detach) { ret = onion_listen(o); } else f = sched::spawn("listen", [this] { ret = onion_listen(o); }); }
  void finish() { if (!detach) sched::join(f); }
};
static string modekey(int m, bool detach) { return string(MODE[m].name) + (detach ? ", detached" : ""); }
static void after_stop(onion *o) { if (vk::listening(8080)) fail("it still listens after the stop"); }
// start, some clients, stop at any moment, free
static void stop_any(int budget, int nmodes) {
  int m = choose(nmodes), det = choose(2), cl = choose(4), wait = choose(2), keep = choose(2); if (MODE[m].flags == O_ONE_LOOP && cl > 1 && !mc::thorough()) mc::prune();
  if (MODE[m].flags == O_ONE_LOOP && cl == 3) mc::prune(); // one client at a time: a silent one keeps it busy
  if (keep && cl != 1) mc::prune();
  string key = modekey(m, det) + strf(", %s%s, stopped %s", cl == 0 ? "no client" : cl == 1 ? "one client" : cl == 2 ? "two clients" : "a silent client", keep ? " that stays" : "", wait ? "when listening" : "as soon as started"); mc::note("%s", key.c_str());
  sched::explore(key, budget, [&] {
    onion *o = new_server(MODE[m].flags | (det ? O_DETACH_LISTEN : 0), MODE[m].threads, hello); Listener l{o}; l.detach = det; l.start();
    if (wait) sched::wait_idle();
    else if (!det) sched::wait([o] { return (onion_flags(o) & O_LISTENING) != 0; }, "listening flag"); // a stop before listening has nothing to stop
    vector<Cl> cs(3); vector<int> f; for (int i = 0; i < (cl == 3 ? 1 : cl); i++) { cs[i].silent = cl == 3; cs[i].keep = keep; f.push_back(sched::spawn(strf("client%d", i).c_str(), [&cs, i] { client(&cs[i], 8080, false); })); }
    onion_listen_stop(o); l.finish(); if (l.ret) fail("listen failed: %d", l.ret); after_stop(o);
    onion_free(o); for (int x : f) sched::join(x); all_released("after the server was freed");
  });
  mc::outcome(key);
}
// start, serve, stop, start again, ...
static void again(int budget, int nmodes) {
  int m = choose(nmodes), det = choose(2), left = choose(2); if (left && MODE[m].flags == O_ONE_LOOP) mc::prune(); string key = modekey(m, det) + (left ? ", with a connection left open each time" : ""); mc::note("%s", key.c_str());
  sched::explore(key, budget, [&] {
    onion *o = new_server(MODE[m].flags | (det ? O_DETACH_LISTEN : 0), MODE[m].threads, hello); vector<int> f; Cl silent[3], c[3];
    for (int i = 0; i < 3; i++) {
      Listener l{o}; l.detach = det; l.start(); sched::wait_idle(); if (!vk::listening(8080)) fail("round %d: it does not listen (%d)", i, l.ret);
      if (left) { silent[i].silent = true; f.push_back(sched::spawn("silent", [&silent, i] { client(&silent[i], 8080, true); })); sched::wait_idle(); }
      int x = sched::spawn("client", [&c, i] { client(&c[i], 8080, true); }); sched::join(x);
      onion_listen_stop(o); l.finish(); after_stop(o); if (l.ret) fail("round %d: listen returned %d", i, l.ret);
    }
    onion_free(o); for (int x : f) sched::join(x); all_released("after the server was freed");
  });
  mc::outcome(key);
}
// several listen points; some cannot be opened
static void points(int budget) {
  int m = choose(2), det = choose(2), a = choose(2), b = choose(2), c = choose(2); string key = modekey(m, det) + strf(", ports busy: %d %d %d", a, b, c); mc::note("%s", key.c_str());
  sched::explore(key, budget, [&] {
    auto hold = [&](int port) { onion *h = new_server(O_POLL | O_DETACH_LISTEN, 1, hello, strf("%d", port).c_str()); if (onion_listen(h)) fail("cannot listen"); sched::wait_idle(); return h; };
    vector<onion *> held; if (a) held.push_back(hold(8080)); if (b) held.push_back(hold(8081)); if (c) held.push_back(hold(8082));
    int busy[] = {a, b, c};
    onion *o = new_server(MODE[m].flags | (det ? O_DETACH_LISTEN : 0), MODE[m].threads, hello); onion_add_listen_point(o, "127.0.0.1", "8081", onion_http_new()); onion_add_listen_point(o, nullptr, "8082", onion_http_new());
    for (int i = 0; i < 3; i++) if (!onion_get_listen_point(o, i)) fail("listen point %d is not there", i); if (onion_get_listen_point(o, 3)) fail("there is a fourth listen point");
    Listener l{o}; l.detach = det; l.start(); sched::wait_idle();
    bool any = !a || !b || !c;
    if (any) { for (int i = 0; i < 3; i++) if (!busy[i]) { Cl x; int f = sched::spawn("client", [&x, i] { client(&x, 8080 + i, true); }); sched::join(f); } onion_listen_stop(o); }
    l.finish(); if (!any && !det && l.ret == 0) fail("listen says it works, and no port could be opened"); if (any && l.ret) fail("listen failed: %d", l.ret);
    onion_free(o); for (int i = 0; i < 3; i++) if (vk::listening(8080 + i) != (bool)busy[i]) fail("port %d is %s", 8080 + i, busy[i] ? "closed for its owner" : "still open");
    for (auto h : held) { onion_listen_stop(h); onion_free(h); } all_released("after the servers were freed");
  });
  mc::outcome(key);
}
// servers that never listened, and two at once
static void odd() {
  int k = choose(8); static const char *K[] = {"never listened", "no listen points", "stop without listen", "two servers", "stopped twice", "two stop at once", "freed while listening (detached)", "stopped by a handler"}; mc::note("%s", K[k]);
  sched::explore(K[k], mc::thorough() ? 3 : 2, [&] {
    switch (k) {
    case 0: { onion *o = new_server(O_POOL, 2, hello); onion_add_listen_point(o, nullptr, "8081", onion_http_new()); onion_free(o); if (fcntl(0, F_GETFD) < 0) fail("the standard input was closed"); break; }
    case 1: { onion *o = new_server(O_POLL, 1, hello, nullptr); onion_free(o); break; }
    case 2: { onion *o = new_server(O_POLL, 1, hello); onion_listen_stop(o); int f = sched::spawn("listen", [o] { onion_listen(o); }); sched::wait_idle(); Cl c; int x = sched::spawn("client", [&c] { client(&c, 8080, true); }); sched::join(x); onion_listen_stop(o); sched::join(f); onion_free(o); break; }
    case 3: { onion *a = new_server(O_POLL, 1, hello), *b = new_server(O_POLL, 1, hello, "8081"); int fa = sched::spawn("listen a", [a] { onion_listen(a); }), fb = sched::spawn("listen b", [b] { onion_listen(b); }); sched::wait_idle(); Cl c, d; int x = sched::spawn("client", [&c] { client(&c, 8080, true); }), y = sched::spawn("client", [&d] { client(&d, 8081, true); }); sched::join(x); sched::join(y); onion_listen_stop(a); sched::join(fa); onion_free(a); Cl e; int z = sched::spawn("client", [&e] { client(&e, 8081, true); }); sched::join(z); onion_listen_stop(b); sched::join(fb); onion_free(b); break; }
    case 4: case 5: { onion *o = new_server(O_POOL | (k == 5 ? O_DETACH_LISTEN : 0), 2, hello); int f = k == 5 ? 0 : sched::spawn("listen", [o] { onion_listen(o); }); if (k == 5) onion_listen(o); sched::wait_idle(); int x = sched::spawn("stopper", [o] { onion_listen_stop(o); }); onion_listen_stop(o); sched::join(x); if (f) sched::join(f); onion_free(o); break; }
    case 6: { onion *o = new_server(O_POOL | O_DETACH_LISTEN, 2, hello); onion_listen(o); Cl c; int x = sched::spawn("client", [&c] { client(&c, 8080, false); }); onion_free(o); sched::join(x); break; }
    case 7: { onion *o = new_server(O_POOL, 2, hello); g_handler = [o](onion_request *q, onion_response *r) { onion_listen_stop(o); return hello(q, r); }; int f = sched::spawn("listen", [o] { onion_listen(o); }); sched::wait_idle(); Cl c; int x = sched::spawn("client", [&c] { client(&c, 8080, true); }); sched::join(x); sched::join(f); onion_free(o); if (!c.answered) fail("not answered"); break; }
    }
    all_released("at the end");
  });
  mc::outcome(K[k]);
}
// every system call needed to start may fail
static void faults() {
  static const char *CALL[] = {"epoll_create", "eventfd", "timerfd_create", "socket", "bind", "listen", "getaddrinfo", "accept", "pthread_create", "epoll_wait"}; int c = choose(10), nth = choose(3), m = choose(2), det = choose(2); string key = modekey(m, det) + strf(", %s fails, time %d", CALL[c], nth); mc::note("%s", key.c_str());
  sched::explore(key, 1, [&] {
    int left = nth; bool hit = false; vk::fault = [&](const char *w) { if (!strcmp(w, CALL[c])) { if (left-- == 0) { hit = true; return c == 9 ? EINTR : c == 8 ? EAGAIN : EMFILE; } } return 0; };
    onion_log = nolog; g_handler = hello; onion *o = onion_new(MODE[m].flags | (det ? O_DETACH_LISTEN : 0)); if (!o) { if (c > 2) fail("no server, and nothing failed"); vk::fault = nullptr; all_released("after failing to create a server"); return; }
    onion_set_max_threads(o, 3); onion_set_port(o, "8080"); onion_add_listen_point(o, nullptr, "8081", onion_http_new()); onion_set_root_handler(o, onion_handler_new((onion_handler_handler)call_handler, nullptr, nullptr)); Listener l{o}; l.detach = det; l.start(); sched::wait_idle();
    for (int i = 0; i < 2; i++) if (vk::listening(8080 + i)) { Cl x; int f = sched::spawn("client", [&x, i] { Http h; h.c = vk::connect(8080 + i); if (!h.c) return; vk::send(*h.c, "GET /x HTTP/1.1\r\n\r\n"); int code; string a, b; h.answer(&code, &a, &b, 20); vk::close(*h.c); }); sched::join(f); }
    onion_listen_stop(o); l.finish(); onion_free(o); vk::fault = nullptr; all_released("after the server was freed");
  }, true);
  mc::outcome(key);
}
#include <fcntl.h>
int main(int c, char **v) {
  mc::rule("Servers in every mode are started, used by clients, stopped at every moment, started again and freed, under every schedule within the bound on deviations; also with ports that are busy and system calls that fail. Distinct: configurations; each explored over all those schedules.");
  mc::assume("Sequentially consistent memory; kernel calls are atomic; the virtual kernel has the semantics of Linux for the calls used.");
  mc::add("stop at any moment", [] { stop_any(mc::thorough() ? 3 : 2, mc::thorough() ? 4 : 3); }); mc::add("again", [] { again(mc::thorough() ? 3 : 1, 3); });
  mc::add("listen points", [] { points(mc::thorough() ? 2 : 1); }); mc::add("odd lives", odd); mc::add("failing calls", faults);
  return mc::main(c, v);
}
