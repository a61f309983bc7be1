// sched.hpp - runs the threads of libonion as fibers under a controlled scheduler.
//
// The library is compiled with -fsanitize=thread, but linked against the hooks of sched.cpp instead of libtsan, and every libc call
// it makes to threads, locks, memory, sockets, epoll and clocks is redirected (objcopy --redefine-syms) to sched.cpp and vk.cpp.
// A scheduling point is every such call and every access (found in learning runs) that may race with another thread.
// explore() enumerates every schedule that differs from the default one (go on until blocked, then round robin) in at most
// `budget` decisions.
#pragma once
#include "mc.hpp"
#include <functional>
#include <string>
#include <vector>
#include <memory>

namespace sched {
// Runs the scenario under every schedule within the budget. Key identifies the configuration (all that was chosen before).
// manykeys: configurations, not schedules, are divided among the workers.
void explore(const std::string &key, int budget, std::function<void()> scenario, bool manykeys = false);
// one execution, default schedule; for scenarios that draw their choices themselves (env choices through mc::choose)
void run_default(std::function<void()> scenario);

int spawn(const char *name, std::function<void()> f);
void join(int id);
bool finished(int id);
int self();
const char *name(int id);
void point(const char *what = "step");           // a scheduling point of the environment
typedef bool (*Pred)(void *);
bool block(Pred p, void *arg, const char *what, int64_t deadline_ns = -1); // false: the deadline came first
bool wait(std::function<bool()> p, const char *what, double timeout_s = -1);
void wait_idle();                                // until nothing else can run without time going by
void sleep(double s);
int64_t now();                                   // virtual ns
extern int64_t clock_ns;
void at_time_advance(std::function<void(int64_t)> f); // called before the clock moves on
long live_allocs(); long live_bytes();
std::string alloc_report();
bool active();                                   // inside an execution
void check_mem(const void *p, size_t n, bool write, const char *what);
int live_fibers();
// happens-before edges for learning
struct HB { std::vector<int> c; };
void release(HB &h); void acquire(HB &h);
}

namespace vk {
struct File; typedef std::shared_ptr<File> FileP;
struct Client { FileP f; };
void reset();
std::shared_ptr<Client> connect(int port);       // nullptr: refused
void send(Client &c, const std::string &d);
std::string recv(Client &c);                     // what is there now
bool eof(Client &c);                             // the server closed its side and all was read
bool wait_data(Client &c, double timeout_s = -1);// blocks until data or end; false on timeout
void close(Client &c);
void half_close(Client &c);
int open_fds(); std::string fd_report();
bool listening(int port);
int64_t next_timer();                            // earliest expiry of an armed timerfd, or -1
extern int rlimit_nofile;
extern std::function<int(const char *call)> fault; // returns errno to inject, 0 none
extern size_t sndbuf;                            // bytes a socket accepts before its writer blocks
// for the harness' own slots
int eventfd_new(); int pair_new(FileP &peer); 
void put(FileP f, const std::string &d); std::string take(FileP f); bool at_eof(FileP f); void hangup(FileP f);
void shut_wr(FileP f);
}
extern "C" { ssize_t vk_read(int, void *, size_t); ssize_t vk_write(int, const void *, size_t); int vk_close(int); }
