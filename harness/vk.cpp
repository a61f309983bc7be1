// vk.cpp - the kernel that the library sees: descriptors, sockets, epoll, eventfd, timerfd, clocks. All in memory, all deterministic.
#include "sched.hpp"
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/timerfd.h>
#include <sys/eventfd.h>
#include <sys/resource.h>
#include <sys/sendfile.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <poll.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <map>
#include <deque>
#include <algorithm>

using sched::point; using sched::block;
namespace vk {
enum Kind { EPOLL, EVENT, TIMER, SOCK, LISTEN };
struct Reg { int fd; FileP f; uint32_t ev; epoll_data_t data; bool off = false; sched::HB hb; };
struct File {
  Kind kind; bool nonblock = false; int refs = 0; sched::HB hb;
  uint64_t count = 0;                                         // eventfd, expirations of timerfd
  int64_t due = -1, interval = 0;                             // timerfd
  std::vector<std::shared_ptr<Reg>> regs; size_t rot = 0;     // epoll
  std::string rx; bool rx_eof = false, rd_shut = false, wr_shut = false, dead = false; std::weak_ptr<File> peer; int64_t rcvtimeo = 0; size_t cap = (size_t)-1; bool gone = false; // socket
  std::deque<FileP> backlog; int port = 0; bool bound = false; // listen
};
static std::vector<FileP> fds; const int FIRST = 40;
int rlimit_nofile = 64; size_t sndbuf = (size_t)-1;
std::function<int(const char *)> fault;
static std::vector<std::weak_ptr<File>> timers;
static long gai_live;
static unsigned char rnd_c;
void reset() { rnd_c = 0; fds.clear(); timers.clear(); rlimit_nofile = 64; sndbuf = (size_t)-1; fault = nullptr; gai_live = 0; }
static int newfd(FileP f) {
  size_t i = 0; while (i < fds.size() && fds[i]) i++;
  if ((int)i + FIRST >= rlimit_nofile) { errno = EMFILE; return -1; }
  if (i == fds.size()) fds.push_back(f); else fds[i] = f;
  f->refs++; return FIRST + i;
}
static FileP get(int fd) { if (fd < FIRST || fd - FIRST >= (int)fds.size()) return nullptr; return fds[fd - FIRST]; }
static FileP mk(Kind k) { auto f = std::make_shared<File>(); f->kind = k; return f; }
static void timer_update(File &f) { if (f.due >= 0 && f.due <= sched::clock_ns) { f.count++; if (f.interval) { f.due += f.interval; } else f.due = -1; } }
int64_t next_timer() { int64_t d = -1; for (auto &w : timers) if (auto f = w.lock()) { timer_update(*f); if (f->due >= 0 && (d < 0 || f->due < d)) d = f->due; } return d; }
static uint32_t ready(File &f) {
  uint32_t r = 0;
  switch (f.kind) {
  case EVENT: if (f.count) r |= EPOLLIN; r |= EPOLLOUT; break;
  case TIMER: timer_update(f); if (f.count) r |= EPOLLIN; break;
  case LISTEN: if (!f.backlog.empty()) r |= EPOLLIN; if (f.dead) r |= EPOLLHUP | EPOLLIN | EPOLLRDHUP; break;
  case SOCK: { bool in = f.rx_eof || f.rd_shut; if (!f.rx.empty() || in) r |= EPOLLIN | EPOLLRDNORM; if (in) r |= EPOLLRDHUP; if (in && f.wr_shut) r |= EPOLLHUP; if (f.dead) r |= EPOLLHUP | EPOLLERR;
    auto p = f.peer.lock(); if (!f.wr_shut && (!p || p->rx.size() < p->cap)) r |= EPOLLOUT; break; }
  case EPOLL: break;
  }
  return r;
}
static int err(int e) { errno = e; return -1; }
static int inj(const char *c) { if (fault) { int e = fault(c); if (e) { errno = e; return e; } } return 0; }
static void forget(FileP f, int fd) { for (auto &e : fds) if (e && e->kind == EPOLL) e->regs.erase(std::remove_if(e->regs.begin(), e->regs.end(), [&](std::shared_ptr<Reg> &r) { return r->f == f; }), e->regs.end()); }
static void sock_close(File &f) { f.rd_shut = f.wr_shut = true; f.gone = true; if (auto p = f.peer.lock()) p->rx_eof = true; }
static void pair(FileP a, FileP b) { a->peer = b; b->peer = a; }

// ---- environment side
struct Keep { FileP a; };
std::shared_ptr<Client> connect(int port) {
  point("connect");
  for (auto &f : fds) if (f && f->kind == LISTEN && f->bound && f->port == port && !f->dead) { auto c = std::make_shared<Client>(); c->f = mk(SOCK); FileP s = mk(SOCK); s->cap = (size_t)-1; pair(c->f, s); c->f->cap = sndbuf; sched::release(f->hb); f->backlog.push_back(s); return c; }
  return nullptr;
}
bool listening(int port) { for (auto &f : fds) if (f && f->kind == LISTEN && f->bound && f->port == port && !f->dead) return true; return false; }
static bool peer_gone(File &f) { auto p = f.peer.lock(); return !p || p->gone; }
void put(FileP f, const std::string &d) { point("client sends"); if (auto p = f->peer.lock()) { sched::release(p->hb); if (!p->rd_shut && !p->gone) p->rx += d; } }
std::string take(FileP f) { point("client reads"); std::string r; r.swap(f->rx); return r; }
bool at_eof(FileP f) { return f->rx.empty() && (f->rx_eof || peer_gone(*f)); }
void hangup(FileP f) { point("client closes"); sock_close(*f); if (auto p = f->peer.lock()) sched::release(p->hb); }
void shut_wr(FileP f) { point("client ends its side"); f->wr_shut = true; if (auto p = f->peer.lock()) { p->rx_eof = true; sched::release(p->hb); } }
void send(Client &c, const std::string &d) { put(c.f, d); }
std::string recv(Client &c) { return take(c.f); }
bool eof(Client &c) { return at_eof(c.f); }
bool wait_data(Client &c, double t) { FileP f = c.f; return sched::wait([f] { return !f->rx.empty() || f->rx_eof || peer_gone(*f); }, "client waits for the answer", t); }
void close(Client &c) { hangup(c.f); }
void half_close(Client &c) { shut_wr(c.f); }
int eventfd_new() { return newfd(mk(EVENT)); }
int pair_new(FileP &peer) { FileP a = mk(SOCK); peer = mk(SOCK); pair(a, peer); return newfd(a); }
int open_fds() { int n = 0; for (auto &f : fds) if (f) n++; return n; }
std::string fd_report() { std::string r; const char *k[] = {"epoll", "eventfd", "timerfd", "socket", "listening socket"}; for (size_t i = 0; i < fds.size(); i++) if (fds[i]) r += mc::strf(" %zu:%s", i + FIRST, k[fds[i]->kind]); return r; }
}
using namespace vk;
#define V(fd) FileP f = get(fd)
extern "C" {
int vk_clock_gettime(clockid_t c, struct timespec *t) { if (!sched::active()) return clock_gettime(c, t); t->tv_sec = sched::clock_ns / 1000000000; t->tv_nsec = sched::clock_ns % 1000000000; return 0; }
time_t vk_time(time_t *p) { if (!sched::active()) return time(p); time_t t = sched::clock_ns / 1000000000; if (p) *p = t; return t; }
int vk_gettimeofday(struct timeval *t, void *) { t->tv_sec = sched::clock_ns / 1000000000; t->tv_usec = sched::clock_ns % 1000000000 / 1000; return 0; }
unsigned vk_sleep(unsigned s) { sched::sleep(s); return 0; }
int vk_usleep(useconds_t u) { sched::sleep(u / 1e6); return 0; }
int vk_nanosleep(const struct timespec *t, struct timespec *) { sched::sleep(t->tv_sec + t->tv_nsec / 1e9); return 0; }
int vk_getrlimit(int w, struct rlimit *r) { if (w == RLIMIT_NOFILE && sched::active()) { r->rlim_cur = r->rlim_max = rlimit_nofile; return 0; } return getrlimit((__rlimit_resource_t)w, r); }
typedef void (*sigh)(int);
static std::map<int, sigh> sigs;
sigh vk_signal(int s, sigh h) { sigh o = sigs[s]; sigs[s] = h; return o; }
int vk_sigaction(int s, const struct sigaction *a, struct sigaction *o) { if (a) sigs[s] = a->sa_handler; return 0; }

int vk_epoll_create1(int) { point("epoll_create"); if (inj("epoll_create")) return -1; return newfd(mk(EPOLL)); }
int vk_epoll_create(int) { return vk_epoll_create1(0); }
int vk_eventfd(unsigned n, int fl) { if (inj("eventfd")) return -1; FileP f = mk(EVENT); f->count = n; f->nonblock = fl & EFD_NONBLOCK; return newfd(f); }
int vk_timerfd_create(int, int fl) { if (inj("timerfd_create")) return -1; FileP f = mk(TIMER); f->nonblock = fl & TFD_NONBLOCK; timers.push_back(f); return newfd(f); }
int vk_timerfd_settime(int fd, int fl, const struct itimerspec *n, struct itimerspec *o) {
  point("timerfd_settime"); V(fd); if (!f) return err(EBADF); if (f->kind != TIMER) return err(EINVAL);
  if (n->it_value.tv_sec < 0 || n->it_value.tv_nsec < 0 || n->it_value.tv_nsec > 999999999) return err(EINVAL);
  if (o) { memset(o, 0, sizeof *o); if (f->due >= 0) { int64_t l = f->due - sched::clock_ns; o->it_value.tv_sec = l / 1000000000; o->it_value.tv_nsec = l % 1000000000; } }
  f->count = 0; f->interval = n->it_interval.tv_sec * 1000000000ll + n->it_interval.tv_nsec;
  int64_t v = n->it_value.tv_sec * 1000000000ll + n->it_value.tv_nsec;
  f->due = v == 0 ? -1 : (fl & TFD_TIMER_ABSTIME) ? v : sched::clock_ns + v; return 0;
}
int vk_timerfd_gettime(int fd, struct itimerspec *o) { V(fd); if (!f || f->kind != TIMER) return err(EINVAL); memset(o, 0, sizeof *o); if (f->due >= 0) { int64_t l = f->due - sched::clock_ns; o->it_value.tv_sec = l / 1000000000; o->it_value.tv_nsec = l % 1000000000; } return 0; }
int vk_epoll_ctl(int ep, int op, int fd, struct epoll_event *e) {
  point("epoll_ctl"); FileP p = get(ep); V(fd);
  if (!p || !f) return err(EBADF); if (p->kind != EPOLL || p == f) return err(EINVAL);
  auto it = std::find_if(p->regs.begin(), p->regs.end(), [&](std::shared_ptr<Reg> &r) { return r->f == f; });
  if (op == EPOLL_CTL_ADD) { if (it != p->regs.end()) return err(EEXIST); auto r = std::make_shared<Reg>(); r->fd = fd; r->f = f; r->ev = e->events; r->data = e->data; sched::release(r->hb); p->regs.push_back(r); }
  else if (it == p->regs.end()) return err(ENOENT);
  else if (op == EPOLL_CTL_MOD) { (*it)->ev = e->events; (*it)->data = e->data; (*it)->off = false; sched::release((*it)->hb); }
  else if (op == EPOLL_CTL_DEL) p->regs.erase(it);
  else return err(EINVAL);
  return 0;
}
static uint32_t fire(Reg &r) { if (r.off) return 0; return ready(*r.f) & (r.ev | EPOLLHUP | EPOLLERR); }
static bool ep_ready(void *a) { File *p = (File *)a; for (auto &r : p->regs) if (fire(*r)) return true; return false; }
int vk_epoll_wait(int ep, struct epoll_event *ev, int max, int timeout) {
  point("epoll_wait"); FileP p = get(ep); if (!p) return err(EBADF); if (p->kind != EPOLL || max <= 0) return err(EINVAL);
  if (int e = inj("epoll_wait")) return err(e);
  sched::check_mem(ev, sizeof *ev * max, true, "epoll_wait");
  if (timeout != 0) { if (!block(ep_ready, p.get(), "epoll_wait", timeout < 0 ? -1 : sched::clock_ns + timeout * 1000000ll)) return 0; }
  int n = 0; size_t N = p->regs.size(); size_t last = p->rot;
  for (size_t k = 0; k < N && n < max; k++) { size_t i = (p->rot + k) % N; Reg &r = *p->regs[i]; uint32_t x = fire(r); if (!x) continue; ev[n].events = x; ev[n].data = r.data; n++; if (r.ev & EPOLLONESHOT) r.off = true; sched::acquire(r.hb); sched::acquire(r.f->hb); last = i + 1; }
  p->rot = N ? last % N : 0; return n;
}
int vk_epoll_pwait(int ep, struct epoll_event *ev, int max, int t, const sigset_t *) { return vk_epoll_wait(ep, ev, max, t); }
struct PollArg { struct pollfd *p; nfds_t n; };
static bool poll_ready(void *a) { PollArg *q = (PollArg *)a; bool any = false; for (nfds_t i = 0; i < q->n; i++) { q->p[i].revents = 0; if (q->p[i].fd < 0) continue; FileP f = get(q->p[i].fd); if (!f) { q->p[i].revents = POLLNVAL; any = true; continue; } uint32_t r = ready(*f) & ((uint32_t)(uint16_t)q->p[i].events | EPOLLHUP | EPOLLERR); q->p[i].revents = r; if (r) any = true; } return any; }
int vk_poll(struct pollfd *p, nfds_t n, int t) { point("poll"); PollArg a{p, n}; bool ok = t == 0 ? poll_ready(&a) : block(poll_ready, &a, "poll", t < 0 ? -1 : sched::clock_ns + t * 1000000ll); if (!ok) return 0; int c = 0; for (nfds_t i = 0; i < n; i++) if (p[i].revents) c++; return c; }

int vk_socket(int, int type, int) { if (inj("socket")) return -1; FileP f = mk(LISTEN); f->nonblock = type & SOCK_NONBLOCK; return newfd(f); }
int vk_bind(int fd, const struct sockaddr *a, socklen_t) { if (inj("bind")) return -1; V(fd); if (!f) return err(EBADF); int port = ntohs(((struct sockaddr_in *)a)->sin_port); if (listening(port)) return err(EADDRINUSE); f->port = port; return 0; }
int vk_listen(int fd, int) { point("listen"); V(fd); if (!f) return err(EBADF); if (inj("listen")) return -1; f->bound = true; return 0; }
static bool can_accept(void *a) { File *f = (File *)a; return !f->backlog.empty() || f->dead; }
int vk_accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) {
  point("accept"); V(fd); if (!f) return err(EBADF); if (f->kind != LISTEN) return err(EINVAL); if (inj("accept")) return -1;
  if (!can_accept(f.get())) { if (f->nonblock) return err(EAGAIN); block(can_accept, f.get(), "accept"); }
  if (f->dead) return err(EINVAL);
  FileP s = f->backlog.front(); s->nonblock = fl & SOCK_NONBLOCK; int n = newfd(s); if (n < 0) return -1; f->backlog.pop_front(); sched::acquire(f->hb);
  if (a && l) { struct sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_port = htons(1234); in.sin_addr.s_addr = htonl(0x7f000001); memcpy(a, &in, std::min<size_t>(*l, sizeof in)); *l = sizeof in; }
  return n;
}
int vk_accept(int fd, struct sockaddr *a, socklen_t *l) { return vk_accept4(fd, a, l, 0); }
int vk_setsockopt(int fd, int lv, int o, const void *v, socklen_t) { V(fd); if (!f) return err(EBADF); if (lv == SOL_SOCKET && o == SO_RCVTIMEO) { const struct timeval *t = (const struct timeval *)v; f->rcvtimeo = t->tv_sec * 1000000000ll + t->tv_usec * 1000ll; } return 0; }
int vk_getsockopt(int fd, int, int, void *v, socklen_t *l) { V(fd); if (!f) return err(EBADF); if (v && l && *l >= 4) *(int *)v = 0; return 0; }
int vk_getsockname(int fd, struct sockaddr *a, socklen_t *l) { V(fd); if (!f) return err(EBADF); struct sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_port = htons(f->port); memcpy(a, &in, std::min<size_t>(*l, sizeof in)); *l = sizeof in; return 0; }
int vk_shutdown(int fd, int how) {
  point("shutdown"); V(fd); if (!f) return err(EBADF);
  if (f->kind == LISTEN) { f->dead = true; return 0; }
  if (f->kind != SOCK) return err(ENOTSOCK);
  if (how == SHUT_RD || how == SHUT_RDWR) f->rd_shut = true;
  if (how == SHUT_WR || how == SHUT_RDWR) { f->wr_shut = true; if (auto p = f->peer.lock()) p->rx_eof = true; }
  return 0;
}
int vk_close(int fd) {
  if (fd < FIRST) { if (fd < 0) return err(EBADF); return ::close(fd); }
  point("close"); V(fd); if (!f) return err(EBADF);
  fds[fd - FIRST] = nullptr;
  if (--f->refs == 0) { forget(f, fd); if (f->kind == SOCK) sock_close(*f); if (f->kind == LISTEN) { f->bound = false; for (auto &b : f->backlog) sock_close(*b); f->backlog.clear(); } }
  return 0;
}
static bool can_read(void *a) { File *f = (File *)a; return !f->rx.empty() || f->rx_eof || f->rd_shut || f->dead; }
static ssize_t sock_read(FileP f, void *b, size_t n, bool peek, bool nb) {
  sched::check_mem(b, n, true, "read");
  if (!can_read(f.get())) { if (f->nonblock || nb) return err(EAGAIN); if (!block(can_read, f.get(), "read", f->rcvtimeo ? sched::clock_ns + f->rcvtimeo : -1)) return err(EAGAIN); }
  sched::acquire(f->hb);
  size_t k = std::min(n, f->rx.size()); memcpy(b, f->rx.data(), k); if (!peek) f->rx.erase(0, k); return k;
}
ssize_t vk_read(int fd, void *b, size_t n) {
  if (fd < FIRST) return ::read(fd, b, n);
  point("read"); V(fd); if (!f) return err(EBADF); if (int e = inj("read")) return err(e);
  if (f->kind == SOCK) return sock_read(f, b, n, false, false);
  if (f->kind == EVENT) { if (n < 8) return err(EINVAL); if (!f->count) { if (f->nonblock) return err(EAGAIN); block([](void *a) { return ((File *)a)->count > 0; }, f.get(), "read of an eventfd"); } sched::acquire(f->hb); memcpy(b, &f->count, 8); f->count = 0; return 8; }
  if (f->kind == TIMER) { if (n < 8) return err(EINVAL); timer_update(*f); if (!f->count) { if (f->nonblock) return err(EAGAIN); block([](void *a) { timer_update(*(File *)a); return ((File *)a)->count > 0; }, f.get(), "read of a timer"); } memcpy(b, &f->count, 8); f->count = 0; return 8; }
  return err(EINVAL);
}
ssize_t vk_recv(int fd, void *b, size_t n, int fl) { point("recv"); V(fd); if (!f) return err(EBADF); if (f->kind != SOCK) return err(ENOTSOCK); if (int e = inj("read")) return err(e); return sock_read(f, b, n, fl & MSG_PEEK, fl & MSG_DONTWAIT); }
static bool can_write(void *a) { File *f = (File *)a; auto p = f->peer.lock(); return !p || p->gone || p->rx.size() < p->cap; }
ssize_t vk_write(int fd, const void *b, size_t n) {
  if (fd < FIRST) return ::write(fd, b, n);
  point("write"); V(fd); if (!f) return err(EBADF); if (int e = inj("write")) return err(e);
  sched::check_mem(b, n, false, "write");
  if (f->kind == SOCK) {
    if (f->wr_shut) return err(EPIPE); auto p = f->peer.lock(); if (!p || p->gone) return err(EPIPE);
    if (!can_write(f.get())) { if (f->nonblock) return err(EAGAIN); block(can_write, f.get(), "write"); }
    p = f->peer.lock(); if (!p || p->gone || f->wr_shut) return err(EPIPE);
    size_t k = std::min(n, p->cap - p->rx.size()); p->rx.append((const char *)b, k); sched::release(p->hb); return k;
  }
  if (f->kind == EVENT) { if (n < 8) return err(EINVAL); uint64_t v; memcpy(&v, b, 8); sched::release(f->hb); f->count += v; return 8; }
  return err(EINVAL);
}
ssize_t vk_send(int fd, const void *b, size_t n, int) { return vk_write(fd, b, n); }
ssize_t vk_writev(int fd, const struct iovec *v, int c) { std::string s; for (int i = 0; i < c; i++) s.append((const char *)v[i].iov_base, v[i].iov_len); return vk_write(fd, s.data(), s.size()); }
ssize_t vk_sendfile(int out, int in, off_t *o, size_t n) { std::string s(std::min<size_t>(n, 65536), 0); ssize_t k = o ? pread(in, &s[0], s.size(), *o) : ::read(in, &s[0], s.size()); if (k <= 0) return k; k = vk_write(out, s.data(), k); if (k > 0 && o) *o += k; return k; }
int vk_fcntl(int fd, int c, ...) { va_list va; va_start(va, c); long a = va_arg(va, long); va_end(va); if (fd < FIRST) return fcntl(fd, c, a); V(fd); if (!f) return err(EBADF); if (c == F_SETFL) { f->nonblock = a & O_NONBLOCK; return 0; } if (c == F_GETFL) return O_RDWR | (f->nonblock ? O_NONBLOCK : 0); return 0; }
int vk_getaddrinfo(const char *h, const char *p, const struct addrinfo *, struct addrinfo **r) {
  if (inj("getaddrinfo")) return EAI_FAIL;
  struct addrinfo *a = (struct addrinfo *)calloc(1, sizeof *a + sizeof(struct sockaddr_in)); struct sockaddr_in *s = (struct sockaddr_in *)(a + 1);
  a->ai_family = AF_INET; a->ai_socktype = SOCK_STREAM; a->ai_addrlen = sizeof *s; a->ai_addr = (struct sockaddr *)s; s->sin_family = AF_INET; s->sin_port = htons(p ? atoi(p) : 0); *r = a; gai_live++; return 0;
}
ssize_t vk_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *, socklen_t) { return vk_send(fd, b, n, fl); }
ssize_t vk_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *, socklen_t *) { return vk_recv(fd, b, n, fl); }
// results in static data, that other threads overwrite
static struct tm shared_tm; static char shared_txt[64];
struct tm *vk_gmtime(const time_t *t) { gmtime_r(t, &shared_tm); point("gmtime"); return &shared_tm; }
struct tm *vk_localtime(const time_t *t) { localtime_r(t, &shared_tm); point("localtime"); return &shared_tm; }
char *vk_asctime(const struct tm *t) { asctime_r(t, shared_txt); point("asctime"); return shared_txt; }
char *vk_ctime(const time_t *t) { ctime_r(t, shared_txt); point("ctime"); return shared_txt; }
static char *strtok_next; char *vk_strtok(char *p, const char *d) { char *r = strtok_r(p, d, &strtok_next); point("strtok"); return r; }
// the only stream the library opens itself
FILE *vk_fopen(const char *p, const char *m) { point("fopen"); if (strcmp(p, "/etc/mime.types")) return fopen(p, m); static char t[] = "text/html html\nimage/png png\ntext/css css\n"; return fmemopen(t, sizeof t - 1, "r"); }
void vk_freeaddrinfo(struct addrinfo *a) { gai_live--; free(a); }
int vk_getnameinfo(const struct sockaddr *, socklen_t, char *h, socklen_t hl, char *s, socklen_t sl, int) { if (h && hl) snprintf(h, hl, "127.0.0.1"); if (s && sl) snprintf(s, sl, "1234"); return 0; }
int vk_gnutls_rnd(int, void *d, size_t n) { unsigned char &c = vk::rnd_c; for (size_t i = 0; i < n; i++) ((unsigned char *)d)[i] = sched::self() * 37 + i * 11 + c++ * 101; return 0; }
}
namespace vk { long addrinfos() { return gai_live; } }
