#include "fsguard.hpp"
#include <stdarg.h>
#include <limits.h>
#include <libgen.h>
#include <dirent.h>
namespace guard {
bool on, act, exdev; vector<Rec> log; std::function<int(const char *, const char *)> hook; static std::set<string> tmp;
string real_target(const string &path, bool follow) {
  string p = path; char rp[PATH_MAX];
  for (int i = 0; i < 40; i++) {
    if ((follow || p.back() == '/') && realpath(p.c_str(), rp)) return rp;
    string q = p; while (q.size() > 1 && q.back() == '/') q.pop_back(); size_t s = q.rfind('/'); string dir = s == string::npos ? "." : s == 0 ? "/" : q.substr(0, s), name = s == string::npos ? q : q.substr(s + 1);
    if (name == "." || name == ".." || name.empty()) { if (realpath(q.c_str(), rp)) return rp; return "(nowhere)"; }
    if (!realpath(dir.c_str(), rp)) return "(nowhere)"; struct stat st; if (stat(rp, &st) || !S_ISDIR(st.st_mode)) return "(nowhere)";
    string full = string(rp) == "/" ? "/" + name : string(rp) + "/" + name; if (!follow) return full;
    char l[PATH_MAX]; ssize_t n = readlink(full.c_str(), l, sizeof l - 1); if (n < 0) return full; l[n] = 0; p = l[0] == '/' ? string(l) : string(rp) + "/" + l;
  }
  return "(nowhere)";
}
static bool is_tmp(const char *p) { return tmp.count(p); }
// true: go on with the real call
static bool rec(const char *op, const char *path, bool follow, int *err) { *err = 0; if (!on) return true; if (hook) { *err = hook(op, path); if (*err) { errno = *err; return false; } } if (is_tmp(path)) return true; string r = real_target(path, follow); log.push_back({op, path, r}); return act && inside(r, mc::scratch()); }
}
using namespace guard;
#define REC(op, path, follow) int err_; if (!rec(op, path, follow, &err_)) return err_ || act ? (errno = err_ ? err_ : EPERM, -1) : 0
extern "C" {
int __real_remove(const char *); int __wrap_remove(const char *p) { REC("remove", p, false); return __real_remove(p); }
int __real_unlink(const char *); int __wrap_unlink(const char *p) { if (on && is_tmp(p)) return __real_unlink(p); REC("unlink", p, false); return __real_unlink(p); }
int __real_rmdir(const char *); int __wrap_rmdir(const char *p) { REC("rmdir", p, false); return __real_rmdir(p); }
int __real_mkdir(const char *, mode_t); int __wrap_mkdir(const char *p, mode_t m) { REC("mkdir", p, false); return __real_mkdir(p, m); }
int __real_chmod(const char *, mode_t); int __wrap_chmod(const char *p, mode_t m) { REC("chmod", p, true); return __real_chmod(p, m); }
int __real_truncate(const char *, off_t); int __wrap_truncate(const char *p, off_t m) { REC("truncate", p, true); return __real_truncate(p, m); }
int __real_open(const char *, int, ...); int __real_rename(const char *, const char *); int __wrap_rename(const char *a, const char *b) {
  if (!on) return __real_rename(a, b);
  int e1, e2; bool r1 = rec("rename from", a, false, &e1); if (e1) { errno = e1; return -1; } bool r2 = rec("rename to", b, false, &e2);
  if (exdev) { string x = real_target(a, false), y = real_target(b, false); if (x.substr(0, x.rfind('/')) != y.substr(0, y.rfind('/'))) { errno = EXDEV; return -1; } }
  if (!act) return 0; if (!r1 || !r2) { errno = EPERM; return -1; }
  int r = __real_rename(a, b); if (r < 0 && errno == EXDEV && is_tmp(a)) { /* /tmp and the scratch directory may really be different file systems */ // as a rename within one file system would do
    string bb = b; size_t sl = bb.rfind('/'); string t2 = (sl == string::npos ? "" : bb.substr(0, sl + 1)) + ".guard"; struct stat st; if (stat(a, &st)) return -1; int fd = __real_open(t2.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0600); if (fd < 0) return -1; string d = onh::slurp(a); size_t w = 0; while (w < d.size()) { ssize_t k = ::write(fd, d.data() + w, d.size() - w); if (k <= 0) { fprintf(stderr, "guard: no space\n"); _exit(98); } w += k; } fchmod(fd, st.st_mode & 07777); ::close(fd);
    if (__real_rename(t2.c_str(), b)) { int e = errno; __real_unlink(t2.c_str()); errno = e; return -1; } __real_unlink(a); return 0; } return r;
}
int __real_open(const char *, int, ...); int __wrap_open(const char *p, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
  if (!on) return __real_open(p, fl, m); bool wr = (fl & O_ACCMODE) != O_RDONLY || fl & (O_CREAT | O_TRUNC); if (!wr) { if (hook) { int e = hook("open", p); if (e) { errno = e; return -1; } } return __real_open(p, fl, m); }
  int e; bool go = rec("open for writing", p, !(fl & O_NOFOLLOW) && !(fl & O_EXCL), &e); if (e) { errno = e; return -1; } if (!go) { if (act) { errno = EPERM; return -1; } return __real_open("/dev/null", O_WRONLY); } return __real_open(p, fl, m); }
int __real_mkstemp(char *); int __wrap_mkstemp(char *t) { if (!on) return __real_mkstemp(t); if (!strncmp(t, "/tmp/onion-", 11)) { int fd = __real_mkstemp(t); if (fd >= 0) guard::tmp.insert(t); return fd; } int e; bool go = rec("create", t, false, &e); if (e) { errno = e; return -1; } if (!go) { if (act) { errno = EPERM; return -1; } return __real_open("/dev/null", O_WRONLY); } return __real_mkstemp(t); }
}
