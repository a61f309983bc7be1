// mc.hpp - a small stateless model checker.
//
// A "section" is a deterministic body that draws every nondeterministic decision
// (input symbol, chunk boundary, operation, fault, schedule step) from choose().
// The engine runs the body once per leaf of the resulting choice tree, depth first,
// until the tree is exhausted: within the bounds built into the body nothing is
// sampled.  Work is split over forked workers by shard(): every worker enumerates
// the (cheap) prefixes before shard(), and executes the leaves below only for the
// prefixes whose ordinal is its own modulo the number of workers.
//
// Any failure (oracle mismatch, sanitizer report, signal, hang) is replayed from its
// choice trace in a fresh process before it is reported.
#pragma once
#include <stdint.h>
#include <string>
#include <vector>
#include <functional>

namespace mc {

struct SkipPrefix {};

bool thorough();                       // tier
int choose(int n);                     // enumerate 0..n-1 completely
int choose_cost(int n, int budget_id = 0); // alternative 0 is free, others use one unit of the deviation budget
void set_budget(int b, int budget_id = 0); // (re)sets the deviation budget for this execution
bool flip();                           // choose(2)==1
void shard();                          // end of the shared prefix
void prune();                          // abandon this leaf (does not count as an execution); throws
void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
// violation identified by a key; if the key is listed in the known-findings file it is
// recorded and true is returned, otherwise it is a failure.
bool violation(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void outcome(const std::string &s);    // classify this execution
void outcome_h(uint64_t h);
void state(uint64_t h);                // a distinct state fingerprint reached
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // trace description, shown with a failure
bool replaying();
int worker_id();
const std::string &scratch();          // private scratch directory of this worker (removed at exit)
uint64_t hash(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hash(const std::string &s) { return hash(s.data(), s.size()); }
std::string esc(const std::string &s); // printable form
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

struct Section {
  const char *name;
  std::function<void()> body;
  std::function<void()> init;  // once per worker, before the first execution
  bool quick;
  bool ordered = false;
  double cpu_limit_s = 20;     // CPU seconds one execution may take before it counts as a hang
};
void add(const char *name, std::function<void()> body, bool quick = true, std::function<void()> init = nullptr,
         double cpu_limit_s = 20);
void assume(const char *text);         // an assumption to be listed in the evidence
void rule(const char *text);           // how cases are made / what makes one non-trivial
int main(int argc, char **argv);

// leak accounting (ASAN build)
size_t live_bytes();
int open_fds(int upto = 128);
}
