// running the tools of /repo (built by check.py) and the code they generate
#pragma once
#include "onh.hpp"
#include <dlfcn.h>
#include <spawn.h>
#include <sys/wait.h>
extern "C" {
#include "onion/shortcuts.h"
#include "onion/mime.h"
}
extern char **environ;
namespace tools {
using namespace onh;
inline string libdir() { const char *p = getenv("ONION_LIBDIR"); return p ? p : ""; }
inline string repo() { const char *p = getenv("ONION_REPO"); return p ? p : "/repo"; }
// exit status (or 1000+signal) of a program run in dir; what it says is kept in `said`
inline int run(const vector<string> &args, const string &dir, string *said = nullptr) {
  string of = dir + "/said.txt"; vector<char *> a; for (auto &s : args) a.push_back((char *)s.c_str()); a.push_back(nullptr); fflush(stdout); fflush(stderr);
  pid_t p = vfork(); if (p == 0) { int fd = ::open(of.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 1); dup2(fd, 2); ::close(fd); if (chdir(dir.c_str())) _exit(126); execvp(a[0], a.data()); _exit(127); }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR); if (said) *said = slurp(of.c_str()); unlink(of.c_str()); return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
inline bool crashed(int st) { return st >= 1000 || st == 99; } // 99: a sanitizer
struct So { void *h = nullptr; string file; template <class F> F sym(const string &n) { F f = (F)dlsym(h, n.c_str()); if (!f) fail("the generated code has no %s", n.c_str()); return f; } ~So() { if (h) dlclose(h); if (!file.empty()) unlink(file.c_str()); } };
inline void compile(So &so, const vector<string> &cfiles, const string &dir) {
  static int n = 0; so.file = dir + mc::strf("/t%d.so", n++); vector<string> a = {"gcc", "-O0", "-w", "-pipe", "-shared", "-fPIC", "-I" + repo() + "/src", "-I" + libdir() + "/src", "-o", so.file}; for (auto &c : cfiles) a.push_back(c); string said; int r = run(a, dir, &said);
  if (r == 127 || r >= 1000) fail("the compiler does not work: %d %s", r, said.c_str()); if (r) fail("the generated code does not compile: %s", said.substr(0, 600).c_str()); so.h = dlopen(so.file.c_str(), RTLD_NOW | RTLD_LOCAL); if (!so.h) fail("%s", dlerror());
}
}
