// P23: the poller tells every event to exactly one thread at a time, ends each slot exactly once, and stops when told
#include "sched.hpp"
#include <string.h>
#include <sys/epoll.h>
extern "C" {
#include "onion/onion.h"
#include "onion/poller.h"
#include "onion/log.h"
}
using std::string; using std::vector; using mc::fail; using mc::choose;
static void nolog(onion_log_level, const char *, int, const char *, ...) {}
struct Slot { int no, fd; vk::FileP peer; string sent, got; bool in_cb = false, ended = false; int ends = 0; bool peer_closed = false, removed = false; int cbs = 0; int keep = 1 << 30; size_t atonce = 1; onion_poller *p = nullptr; bool stops = false; };
static vector<Slot *> all;
static int on_ready(void *d) {
  Slot *s = (Slot *)d;
  if (s->ended) fail("slot %d is called after it ended", s->no);
  if (s->in_cb) fail("slot %d is handled by two threads at once", s->no);
  s->in_cb = true; s->cbs++;
  char b[16]; ssize_t n = vk_read(s->fd, b, s->atonce);
  if (n < 0) fail("slot %d is called and there is nothing to read", s->no);
  s->got.append(b, n);
  sched::point("handler");
  if (s->ended) fail("slot %d is ended while it is being handled", s->no);
  if (s->stops && n > 0) onion_poller_stop(s->p);
  s->in_cb = false;
  if (n == 0) return -1;
  if ((int)s->got.size() >= s->keep) return -1;
  return 1;
}
static void on_end(void *d) {
  Slot *s = (Slot *)d; s->ends++; s->ended = true;
  if (s->in_cb) fail("slot %d is ended while a thread is handling it", s->no);
  if (s->ends > 1) fail("the end of slot %d is told twice", s->no);
  sched::point("end of a slot"); vk_close(s->fd);
}
static Slot *add(onion_poller *p, int keep = 1 << 30, int atonce = 1, int type = 0, const char *data = nullptr, bool closed = false) { // data, closed: already so when it is added
  Slot *s = new Slot; s->no = all.size(); s->fd = vk::pair_new(s->peer); s->keep = keep; s->atonce = atonce; s->p = p; all.push_back(s);
  onion_poller_slot *o = onion_poller_slot_new(s->fd, on_ready, s); if (!o) fail("no slot for descriptor %d", s->fd);
  if (data) { vk::put(s->peer, data); s->sent += data; } if (closed) { s->peer_closed = true; vk::hangup(s->peer); }
  onion_poller_slot_set_shutdown(o, on_end, s); if (type) onion_poller_slot_set_type(o, (onion_poller_slot_type_e)type); onion_poller_add(p, o); return s;
}
static void send(Slot *s, const char *d) { vk::put(s->peer, d); if (!s->ended) s->sent += d; }
static void begin() { onion_log = nolog; for (auto s : all) delete s; all.clear(); }
static void settle(const char *when) { // everything that can happen has happened
  sched::wait_idle();
  for (auto s : all) {
    string want = (int)s->sent.size() > s->keep ? s->sent.substr(0, s->keep) : s->sent;
    if (s->removed) { if (s->ends != 1) fail("%s: the end of the removed slot %d was told %d times", when, s->no, s->ends); continue; }
    bool gone = s->peer_closed || (int)s->sent.size() >= s->keep;
    if (gone ? s->got != want && want.compare(0, s->got.size(), s->got) : s->got != want) fail("%s: slot %d received '%s' of '%s'", when, s->no, s->got.c_str(), s->sent.c_str());
    if (s->got != want) fail("%s: slot %d received '%s' of '%s'", when, s->no, s->got.c_str(), s->sent.c_str());
    if (gone && s->ends != 1) fail("%s: the end of slot %d was told %d times", when, s->no, s->ends);
    if (!gone && s->ends) fail("%s: slot %d was ended for no reason", when, s->no);
  }
}
static void finish(onion_poller *p) {
  onion_poller_free(p);
  for (auto s : all) if (s->ends != 1) fail("after freeing the poller the end of slot %d was told %d times", s->no, s->ends);
  if (vk::open_fds()) fail("descriptors left open:%s", vk::fd_report().c_str());
  if (sched::live_allocs()) fail("memory is left:%s", sched::alloc_report().c_str());
}
// actions of the environment
static const char *ACT[] = {"send 0", "send 1", "close 0", "half-close 1", "add", "remove 2", "add and close", "send 0 long", "add with data", "add closed", "add with data that ends it"};
static void act(onion_poller *p, int a) {
  switch (a) {
  case 0: if (!all[0]->peer_closed) send(all[0], "x"); break;
  case 1: if (!all[1]->peer_closed) send(all[1], "ab"); break;
  case 2: if (!all[0]->peer_closed) { all[0]->peer_closed = true; vk::hangup(all[0]->peer); } break;
  case 3: if (!all[1]->peer_closed) { all[1]->peer_closed = true; vk::shut_wr(all[1]->peer); } break;
  case 4: send(add(p), "n"); break;
  case 5: if (!all[2]->removed) { all[2]->removed = true; onion_poller_remove(p, all[2]->fd); } break; // slot 2 never has data
  case 6: { Slot *s = add(p); s->peer_closed = true; vk::hangup(s->peer); break; }
  case 7: if (!all[0]->peer_closed) send(all[0], "0123"); break;
  case 8: add(p, 1 << 30, 1, 0, "r"); break;
  case 9: add(p, 1 << 30, 1, 0, nullptr, true); break;
  case 10: add(p, 3, 8, 0, "end", false); break;
  }
}
static void events(int budget, int threads_max, int nact, int maxq) {
  int T = 1 + choose(threads_max), q = choose(maxq) + 1; vector<int> prog; string key = mc::strf("%d threads, queue %d:", T, q); int na = sizeof ACT / sizeof *ACT;
  for (int i = 0; i < nact; i++) { int a = choose(na); prog.push_back(a); key += string(" ") + ACT[a] + ","; }
  mc::note("%s", key.c_str());
  sched::explore(key, budget, [&] {
    begin(); onion_poller *p = onion_poller_new(8); onion_poller_set_queue_size_per_thread(p, q); add(p); add(p, 1 << 30, 8); add(p);
    vector<int> th; for (int i = 0; i < T; i++) th.push_back(sched::spawn(mc::strf("poller%d", i).c_str(), [p] { onion_poller_poll(p); }));
    for (int a : prog) act(p, a);
    settle("while polling"); for (int t : th) if (sched::finished(t)) fail("a thread stopped polling for no reason");
    onion_poller_stop(p); for (int t : th) sched::join(t);
    finish(p);
  }, nact > 1);
  mc::outcome(key);
}
// stop at any moment: everybody returns; then polling again works as before
static void stops(int budget) {
  int T = 1 + choose(3), how = choose(4); string key = mc::strf("%d threads, stopped by %s", T, how == 0 ? "another thread" : how == 1 ? "a handler" : how == 2 ? "two threads" : "another thread, while data arrives"); mc::note("%s", key.c_str());
  sched::explore(key, budget, [&] {
    begin(); onion_poller *p = onion_poller_new(8); add(p); add(p, 1 << 30, 8);
    for (int round = 0; round < 2; round++) {
      vector<int> th; for (int i = 0; i < T; i++) th.push_back(sched::spawn(mc::strf("poller%d.%d", round, i).c_str(), [p] { onion_poller_poll(p); }));
      sched::wait_idle(); for (int t : th) if (sched::finished(t)) fail("round %d: a thread stopped polling for no reason", round);
      send(all[1], "m"); settle("before the stop");
      all[0]->stops = how == 1;
      if (how == 1) send(all[0], "s");
      else if (how == 2) { int x = sched::spawn("stopper", [p] { onion_poller_stop(p); }); onion_poller_stop(p); sched::join(x); }
      else { if (how == 3) send(all[0], "d"); onion_poller_stop(p); }
      for (int t : th) sched::join(t);
      all[0]->stops = false;
    }
    { int t = sched::spawn("poller.last", [p] { onion_poller_poll(p); }); sched::wait_idle(); settle("polling again"); onion_poller_stop(p); sched::join(t); }
    finish(p);
  });
  mc::outcome(key);
}
// a slot that ends itself, and whose descriptor number is taken again at once
static void reuse(int budget) {
  int T = 1 + choose(3), n = 1 + choose(3), how = choose(2); string key = mc::strf("%d threads, %d slots ending, %s", T, n, how ? "new slot in the same descriptor added by another thread" : "by themselves"); mc::note("%s", key.c_str());
  sched::explore(key, budget, [&] {
    begin(); onion_poller *p = onion_poller_new(8); for (int i = 0; i < n; i++) add(p, 2, 1);
    vector<int> th; for (int i = 0; i < T; i++) th.push_back(sched::spawn(mc::strf("poller%d", i).c_str(), [p] { onion_poller_poll(p); }));
    for (int i = 0; i < n; i++) send(all[i], "ab");
    if (how) for (int i = 0; i < n; i++) { Slot *s = add(p, 1 << 30, 4); send(s, "new"); }
    settle("while polling"); if (how) { for (int i = n; i < 2 * n; i++) send(all[i], "more"); settle("afterwards"); }
    onion_poller_stop(p); for (int t : th) sched::join(t); finish(p);
  });
  mc::outcome(key);
}
// slots whose type was set: to read, or to write
static int on_writable(void *d) { Slot *s = (Slot *)d; if (s->ended) fail("slot %d is called after it ended", s->no); if (s->in_cb) fail("slot %d is handled by two threads at once", s->no); s->in_cb = true; s->cbs++; if (vk_write(s->fd, "w", 1) != 1) fail("slot %d is called and can not be written", s->no); sched::point("handler"); s->in_cb = false; return s->cbs >= 2 ? -1 : 1; }
static void types(int budget) {
  static const int TY[] = {O_POLL_READ, O_POLL_READ | O_POLL_OTHER, O_POLL_WRITE, O_POLL_WRITE | O_POLL_OTHER}; int T = 1 + choose(3), ty = choose(4), n = 1 + choose(2), close = choose(2); bool wr = TY[ty] & O_POLL_WRITE; if (wr && close) mc::prune(); string key = mc::strf("%d threads, %d slots of type %d%s", T, n, TY[ty], close ? ", and the peers go" : ""); mc::note("%s", key.c_str());
  sched::explore(key, budget, [&] {
    begin(); onion_poller *p = onion_poller_new(8); add(p);
    for (int i = 0; i < n; i++) { if (!wr) { add(p, 1 << 30, 1, TY[ty]); continue; } Slot *s = new Slot; s->no = all.size(); s->fd = vk::pair_new(s->peer); s->keep = -1; all.push_back(s); onion_poller_slot *o = onion_poller_slot_new(s->fd, on_writable, s); onion_poller_slot_set_shutdown(o, on_end, s); onion_poller_slot_set_type(o, (onion_poller_slot_type_e)TY[ty]); onion_poller_add(p, o); }
    vector<int> th; for (int i = 0; i < T; i++) th.push_back(sched::spawn(mc::strf("poller%d", i).c_str(), [p] { onion_poller_poll(p); }));
    if (!wr) for (int i = 1; i <= n; i++) { send(all[i], "ab"); if (close) { all[i]->peer_closed = true; vk::shut_wr(all[i]->peer); } }
    sched::wait_idle(); if (wr) { for (int i = 1; i <= n; i++) if (all[i]->cbs != 2 || all[i]->ends != 1 || vk::take(all[i]->peer) != "ww") fail("slot %d was called %d times to write, and ended %d times", i, all[i]->cbs, all[i]->ends); } else settle("while polling");
    onion_poller_stop(p); for (int t : th) sched::join(t); finish(p);
  });
  mc::outcome(key);
}
int main(int c, char **v) {
  mc::rule("Poller threads and an environment that sends, closes, adds, removes and stops, under every schedule within the bound on deviations from the default schedule (a deviation: preempting a thread at a lock, kernel call or racing access, or not taking the next thread in turn). Distinct: configurations; each is explored over all those schedules.");
  mc::assume("Sequentially consistent memory; kernel calls are atomic; the virtual kernel has the semantics of Linux for the calls used.");
  mc::add("events", [] { events(mc::thorough() ? 4 : 3, mc::thorough() ? 3 : 2, 1, 1); }); mc::add("pairs of events", [] { events(mc::thorough() ? 3 : 2, mc::thorough() ? 3 : 2, 2, 2); });
  mc::add("three events", [] { events(2, 2, 3, 1); }, false);
  mc::add("types of slots", [] { types(mc::thorough() ? 3 : 2); }); mc::add("stop", [] { stops(3); }); mc::add("descriptor taken again", [] { reuse(mc::thorough() ? 3 : 2); });
  return mc::main(c, v);
}
