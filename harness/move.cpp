// P17: moving a file (renames, and copies between file systems) never loses data, at whatever system call it fails or stops
#include "fsguard.hpp"
#include "onion/shortcuts.h"
#include <dirent.h>
using namespace onh; using mc::choose;
static bool watch; static string A, B, D1, D2, data, old; static bool had_dest; static int steps; static std::function<int(const char *)> fault; // 0 go on, >0 errno, -1 short, -2 zero
static bool mine(int fd) { char l[64], b[600]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t r = readlink(l, b, sizeof b - 1); if (r < 0) return false; b[r] = 0; return guard::inside(b, mc::scratch()); }
static string peek(const string &f, bool *there) { bool w = watch; watch = false; guard::on = false; *there = exists(f); string r = *there ? slurp(f.c_str()) : ""; guard::on = w; watch = w; return r; }
static void invariant(const char *when) { // what a crash here would leave
  bool a, b; string da = peek(A, &a), db = peek(B, &b); if (a && da != data) fail("%s: the original has %zu of %zu bytes", when, da.size(), data.size()); if (!a && !(b && db == data)) fail("%s: the original is gone and the destination is not complete", when);
  if (b && db != data && !(had_dest && db == old)) fail("%s: the destination holds %zu bytes that are neither the old nor the new content", when, db.size()); if (!b && had_dest) fail("%s: the old destination is gone and the new one is not there", when);
}
static int at(const char *op) { steps++; invariant((string("before ") + op).c_str()); if (steps > 3000) fail("no end"); int r = fault ? fault(op) : 0; return r; }
extern "C" {
ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t); int __real_close(int);
ssize_t __wrap_read(int fd, void *b, size_t n) { if (!watch || !mine(fd)) return __real_read(fd, b, n); int e = at("read"); if (e > 0) { errno = e; return -1; } return __real_read(fd, b, e == -1 && n > 1 ? n / 2 : e == -2 ? 1 : n); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { if (!watch || !mine(fd)) return __real_write(fd, b, n); int e = at("write"); if (e > 0) { errno = e; return -1; } if (e == -1 && n > 1) n = n / 2; if (e == -2) n = 1; return __real_write(fd, b, n); }
int __real_fstat(int, struct stat *); int __wrap_fstat(int fd, struct stat *s) { return __real_fstat(fd, s); }
int __wrap_close(int fd) { if (!watch || !mine(fd)) return __real_close(fd); int e = at("close"); int r = __real_close(fd); if (e > 0) { errno = e; return -1; } return r; }
ssize_t __real_sendfile(int, int, off_t *, size_t); ssize_t __wrap_sendfile(int o, int i, off_t *off, size_t n) { if (!watch || !mine(o)) return __real_sendfile(o, i, off, n); int e = at("sendfile"); if (e > 0) { errno = e; return -1; } if (e == -1 && n > 1) n /= 2; if (e == -2) n = 1; return __real_sendfile(o, i, off, n); }
ssize_t __real_copy_file_range(int, off64_t *, int, off64_t *, size_t, unsigned); ssize_t __wrap_copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) { if (!watch || !mine(o)) return __real_copy_file_range(i, io, o, oo, n, f); int e = at("copy_file_range"); if (e > 0) { errno = e; return -1; } if (e == -1 && n > 1) n /= 2; if (e == -2) n = 1; return __real_copy_file_range(i, io, o, oo, n, f); }
}
static int entries(const string &d) { DIR *x = opendir(d.c_str()); int n = 0; while (dirent *e = readdir(x)) n += e->d_name[0] != '.' || strlen(e->d_name) > 2; closedir(x); return n; }
static void clear(const string &d) { DIR *x = opendir(d.c_str()); if (!x) return; while (dirent *e = readdir(x)) { string n = e->d_name; if (n != "." && n != "..") ::unlink((d + "/" + n).c_str()); } closedir(x); }
static void init() { D1 = mc::scratch() + "/one"; D2 = mc::scratch() + "/two"; mkdir(D1.c_str(), 0755); mkdir(D2.c_str(), 0755); A = D1 + "/file"; onion_log = nolog; guard::act = true; }
static void moves() {
  static const size_t sizes[] = {0, 1, 4095, 4096, 4097, 10000}; size_t n = sizes[choose(6)]; int mode = choose(2), dest = choose(4); mc::shard(); mc::set_budget(mc::thorough() ? 4 : 3); clear(D1); clear(D2); data.clear(); for (size_t i = 0; i < n; i++) data += (char)(i * 7 + i / 251); old = string(5000, 'o'); spit(A, data); chmod(A.c_str(), 0640); had_dest = dest == 1; B = dest == 2 ? D1 + "/other" : dest == 3 ? D2 + "/missing/x" : D2 + "/dest"; if (had_dest) spit(B, old);
  int fds = mc::open_fds(), e2 = entries(D2); guard::exdev = mode; steps = 0; bool faulted = false; bool unlink_failed = false; string h; bool hard = false;
  fault = [&](const char *op) -> int { static const int errs[] = {0, EIO, ENOSPC, EINTR}; bool io = !strcmp(op, "read") || !strcmp(op, "write") || !strcmp(op, "sendfile") || !strcmp(op, "copy_file_range"); int c = mc::choose_cost(io ? 6 : 3); if (!c) return 0; faulted = true; if (!io) { hard = true; h += string(op) + " fails; "; if (!strcmp(op, "unlink")) unlink_failed = true; return c == 1 ? EIO : EACCES; } h += mc::strf("%s %s; ", op, c == 1 ? "EIO" : c == 2 ? "ENOSPC" : c == 3 ? "EINTR" : c == 4 ? "half" : "one byte"); if (c < 3) hard = true; return c <= 3 ? errs[c] : c == 4 ? -1 : -2; };
  guard::hook = [&](const char *op, const char *) { if (!strcmp(op, "rename to")) return 0; if (!strcmp(op, "rename from")) { int r = at("rename"); return r < 0 ? 0 : r; } int r = at(op); return r < 0 ? 0 : r; };
  mc::note("%zu bytes, %s, destination %d: ", n, mode ? "other file system" : "same file system", dest); guard::on = watch = true; int r = onion_shortcut_rename(A.c_str(), B.c_str()); guard::on = watch = false; guard::hook = nullptr; guard::exdev = false; mc::note("%s-> %d", h.c_str(), r);
  invariant("at the end"); bool a, b; peek(A, &a); string db = peek(B, &b);
  if (r == 0) { if (!b || db != data) fail("reported as moved and the destination is not complete"); if (a && !unlink_failed) fail("reported as moved and the original is still there"); }
  else { if (!hard && dest != 3) fail("fails without a reason"); if (!a) fail("reported as failed and the original is gone"); }
  if (r == 0 && dest == 3) fail("moved to a directory that is not there");
  int want = e2 + (dest == 0 && b); if (entries(D2) != want && !unlink_failed) fail("the destination directory has %d entries and not %d", entries(D2), want); if (entries(D1) != (a ? 1 : 0) + (dest == 2 && b)) fail("the original directory has extra files"); if (mc::open_fds() != fds) fail("descriptors leaked"); if (!hard && r == 0) { struct stat st; stat(B.c_str(), &st); if ((st.st_mode & 0777) != 0640) fail("the mode changed to %o", st.st_mode & 0777); }
  mc::outcome_h(mc::hash(h) + r);
}
static void specials() { int k = choose(4), mode = choose(2); mc::shard(); clear(D1); clear(D2); guard::exdev = mode; guard::on = true; int r; string out = mc::scratch() + "/outside"; spit(out, "keep"); switch (k) { case 0: r = onion_shortcut_rename((D1 + "/none").c_str(), (D2 + "/x").c_str()); guard::on = false; if (r == 0) fail("moved a missing file"); if (entries(D2)) fail("created a destination for a missing file"); break; case 1: { guard::on = false; spit(A, "new"); if (symlink(out.c_str(), (D2 + "/l").c_str())) fail("symlink"); guard::on = true; r = onion_shortcut_rename(A.c_str(), (D2 + "/l").c_str()); guard::on = false; if (slurp(out.c_str()) != "keep") fail("wrote through a link"); if (r == 0 && slurp((D2 + "/l").c_str()) != "new") fail("not moved"); break; } case 2: { guard::on = false; spit(A, "new"); guard::on = true; r = onion_shortcut_rename(A.c_str(), D2.c_str()); guard::on = false; if (r == 0 || slurp(A.c_str()) != "new") fail("moved over a directory"); break; } case 3: { guard::on = false; spit(A, "same"); guard::on = true; r = onion_shortcut_rename(A.c_str(), A.c_str()); guard::on = false; if (slurp(A.c_str()) != "same") fail("moving a file to itself lost it"); break; } } guard::exdev = false; mc::outcome_h(k * 2 + mode); }
static void sizes() { // every size around the copy buffer
  int part = choose(16); mc::shard(); guard::exdev = true; for (size_t n = part; n < (mc::thorough() ? 20000 : 9000); n += 16) { clear(D1); clear(D2); string d; for (size_t i = 0; i < n; i++) d += (char)(i * 31 + i / 253); spit(A, d); B = D2 + "/dest"; guard::on = true; int r = onion_shortcut_rename(A.c_str(), B.c_str()); guard::on = false; mc::note("%zu bytes", n); if (r) fail("not moved"); if (slurp(B.c_str()) != d) fail("the content changed"); if (exists(A)) fail("the original is still there"); mc::state(n); } guard::exdev = false; mc::outcome("moved"); }
int main(int c, char **v) {
  mc::rule("Each move is run with every combination of up to 3 (thorough 4) faults (error, interruption, short read or write) over all the system calls it makes; before each call the state a crash would leave is checked.");
  mc::assume("Completed system calls are durable in order (no loss of unsynced data).");
  mc::add("faults and crash points", moves, true, init); mc::add("special destinations", specials, true, init); mc::add("every size", sizes, true, init); return mc::main(c, v);
}
