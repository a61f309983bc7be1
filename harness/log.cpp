// P33: each message to the log is one whole line that says what happened and where, and the filters hide only what they say
#include "onh.hpp"
#include <sys/socket.h>
#include <sys/wait.h>
#include <syslog.h>
#include <stdarg.h>
using namespace onh; using mc::choose;
static bool child; static int out;
static void bad(const char *f, ...) { char t[600]; va_list a; va_start(a, f); int n = vsnprintf(t, sizeof t, f, a); va_end(a); if (child) { if (write(out, t, std::min(n, 599))) {} _exit(1); } fail("%s", t); }
// standard error is a socket that keeps each write apart
static int sv[2]; static vector<string> lines() { vector<string> r; char b[4096]; ssize_t n; while ((n = recv(sv[0], b, sizeof b, MSG_DONTWAIT)) > 0) r.push_back(string(b, n)); return r; }
static vector<std::pair<int, string>> sys; static void tosys(int p, const char *f, va_list a) { char b[5000]; vsnprintf(b, sizeof b, f, a); sys.push_back({p, b}); }
extern "C" void __wrap_vsyslog(int p, const char *f, va_list a) { tosys(p, f, a); }
extern "C" void __wrap___vsyslog_chk(int p, int, const char *f, va_list a) { tosys(p, f, a); }
extern "C" void __wrap_syslog(int p, const char *f, ...) { va_list a; va_start(a, f); tosys(p, f, a); va_end(a); }
extern "C" void __wrap___syslog_chk(int p, int, const char *f, ...) { va_list a; va_start(a, f); tosys(p, f, a); va_end(a); }
// runs it in a process where nothing was logged yet
static void apart(const char *env, std::function<void()> f) {
  int p[2]; if (pipe(p)) fail("pipe"); fflush(nullptr); pid_t pid = fork(); if (!pid) { child = true; out = p[1]; if (socketpair(AF_UNIX, SOCK_SEQPACKET, 0, sv)) _exit(3); int big = 1 << 20; setsockopt(sv[1], SOL_SOCKET, SO_SNDBUF, &big, sizeof big); dup2(sv[1], 2); if (env) setenv("ONION_LOG", env, 1); else unsetenv("ONION_LOG"); unsetenv("ONION_DEBUG0"); onion_log = onion_log_stderr; onion_log_flags = 0; f(); _exit(0); }
  ::close(p[1]); string e; char b[700]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) e.append(b, n); ::close(p[0]); int st; waitpid(pid, &st, 0); if (!e.empty()) fail("ONION_LOG=%s: %s", env ? env : "(none)", e.c_str()); if (!WIFEXITED(st) || WEXITSTATUS(st)) fail("ONION_LOG=%s: it crashes (%x)", env ? env : "(none)", st);
}
static const char *LEVEL[] = {"DEBUG0", "DEBUG", "INFO", "WARNING", "ERROR", "UNKNOWN"};
struct Want { int level; string file; int line; string text; bool color; };
static void check(const string &l, const Want &w) {
  string d = mc::strf("a text of %zu bytes in a file with a name of %zu, level %d", w.text.size(), w.file.size(), w.level); if (l.empty() || l[l.size() - 1] != '\n') bad("%s: the line does not end", d.c_str()); if (l.find('\0') != string::npos) bad("%s: there is a zero in the line", d.c_str()); if (std::count(l.begin(), l.end(), '\n') != 1) bad("%s: it is not one line", d.c_str());
  string t; bool esc_seen = false; for (size_t i = 0; i < l.size(); i++) { if (l[i] == '\033') { esc_seen = true; if (i + 1 >= l.size() || l[i + 1] != '[') bad("%s: a broken color", d.c_str()); i += 2; while (i < l.size() && (isdigit(l[i]) || l[i] == ';')) i++; if (i >= l.size() || l[i] != 'm') bad("%s: a broken color", d.c_str()); continue; } t += l[i]; }
  if (esc_seen != w.color) bad("%s: %s", d.c_str(), esc_seen ? "colors nobody asked for" : "no colors"); if (w.color && l.compare(l.size() - 5, 5, "\033[0m\n")) bad("%s: the color goes on in the next line", d.c_str());
  if (w.file.size() > 60) { size_t p = t.find(string("[") + LEVEL[w.level]); if (p == string::npos) bad("%s: no level", d.c_str()); return; }
  string place = mc::strf("[%s %s:%d] ", LEVEL[w.level], w.file.c_str(), w.line); size_t p = t.find(place); if (p == string::npos) bad("%s: no '%s' in '%s'", d.c_str(), place.c_str(), esc(t).c_str()); string text = t.substr(p + place.size()); text.resize(text.size() - 1);
  if (text == w.text) return; if (w.text.size() <= 100) bad("%s: the text is '%s'", d.c_str(), esc(text).c_str()); if (text.size() < 50 || text.compare(text.size() - 3, 3, "...") || w.text.compare(0, text.size() - 3, text, 0, text.size() - 3) || text.size() > w.text.size()) bad("%s: it is cut as '%s'", d.c_str(), esc(text).c_str());
}
static string filler(size_t n, char c) { string r; for (size_t i = 0; i < n; i++) r += (char)(c + i % 26); return r; }
static const char *ENV[] = {nullptr, "", "nocolor", "noinfo", "nodebug", "nocolor,noinfo", "nocolor nodebug", "noinfo nodebug", "nocolor noinfo nodebug", "something else"};
static bool has(const char *e, const char *w) { return e && strstr(e, w); }
static void sizes() {
  int e = choose(10), part = choose(8); mc::shard(); mc::note("ONION_LOG=%s, file names of %d modulo 8", ENV[e] ? ENV[e] : "(none)", part); size_t last = mc::thorough() ? 700 : 330; long n = 0;
  apart(ENV[e], [&] { for (size_t fl = part; fl <= 300; fl += 8) { string name = filler(fl, 'a'), file = fl % 3 == 0 ? "/some/dir/" + name : name; for (size_t tl = 0; tl <= last; tl += fl > 64 && tl > 100 ? 7 : 1) { int lv = (tl + fl) % 6; string text = filler(tl, 'A'); bool hidden = (lv == 2 && has(ENV[e], "noinfo")) || (lv == 1 && has(ENV[e], "nodebug")); onion_log((onion_log_level)lv, file.c_str(), 1 + tl * 37, "%s", text.c_str()); auto l = lines(); if (l.size() != (hidden ? 0 : 1)) bad("level %d, a text of %zu bytes in a file with a name of %zu: %zu lines", lv, tl, fl, l.size()); if (!hidden) check(l[0], {lv, name, (int)(1 + tl * 37), text, !has(ENV[e], "nocolor")}); } } });
  for (size_t fl = part; fl <= 300; fl += 8) for (size_t tl = 0; tl <= last; tl += fl > 64 && tl > 100 ? 7 : 1) { size_t k[] = {fl, tl}; mc::state(mc::hash(k, sizeof k, e)); n++; } mc::outcome(mc::strf("%d %d %ld", e, part, n));
}
// all sequences of messages with their filters
static void sequences() {
  int e = choose(10), n = 3; vector<int> lv; for (int i = 0; i < n; i++) lv.push_back(choose(7)); mc::shard(); static const int L[] = {0, 1, 2, 3, 4, 5, 1000}; string d; for (int x : lv) d += mc::strf(" %d", L[x]); mc::note("ONION_LOG=%s, levels%s", ENV[e] ? ENV[e] : "(none)", d.c_str());
  apart(ENV[e], [&] { int k = 0; for (int x : lv) { int v = std::min(L[x], 5); bool hidden = (v == 2 && has(ENV[e], "noinfo")) || (v == 1 && has(ENV[e], "nodebug")); k++; switch (k) { case 1: onion_log((onion_log_level)L[x], "dir/file.c", k, "%d%% of %s and %c%5.2f", 50, "all", '!', 1.5); break; case 2: onion_log((onion_log_level)L[x], "file.c", k, "plain"); break; case 3: onion_log((onion_log_level)L[x], "/file.c", k, "%s", "with % \x80\xff"); } auto l = lines(); if (l.size() != (hidden ? 0 : 1)) bad("message %d: %zu lines", k, l.size()); static const char *T[] = {"50% of all and ! 1.50", "plain", "with % \x80\xff"}; if (!hidden) check(l[0], {v, "file.c", k, T[k - 1], !has(ENV[e], "nocolor")}); } });
  mc::outcome(mc::strf("%d", e) + d);
}
static void syslogs() {
  int how = choose(2), a = choose(7), b = choose(7), c = choose(7); mc::shard(); static const int L[] = {0, 1, 2, 3, 4, 5, 1000}, PRI[] = {LOG_DEBUG, LOG_DEBUG, LOG_INFO, LOG_WARNING, LOG_ERR}; mc::note("%s, levels %d %d %d", how ? "ONION_LOG=syslog" : "onion_log_syslog", L[a], L[b], L[c]);
  apart(how ? "syslog" : nullptr, [&] { if (!how) onion_log = onion_log_syslog; else { onion_log(O_INFO, "f.c", 1, "the first"); size_t s = sys.size() + lines().size(); if (s != 1) bad("the first message is logged %zu times", s); sys.clear(); } int k = 0; for (int x : {a, b, c}) { string t = filler(k * 900, 'a'); onion_log((onion_log_level)L[x], "f.c", 7, "%d %s", ++k, t.c_str()); if (lines().size()) bad("it goes to the error output"); if (L[x] > 4) { if (sys.size()) bad("an unknown level"); continue; } if (sys.size() != 1) bad("message %d is logged %zu times", k, sys.size()); if (sys[0].first != PRI[L[x]]) bad("level %d has priority %d", L[x], sys[0].first); if (sys[0].second.find(mc::strf("%d %s", k, t.c_str())) == string::npos) bad("message %d is lost", k); sys.clear(); } });
  mc::outcome(mc::strf("%d %d %d %d", how, a, b, c));
}
int main(int c, char **v) {
  mc::rule("Real logger, whose error output keeps each write apart. 10 values of ONION_LOG x names of files of 0 to 300 bytes x texts of 0 to 330 (700) bytes; all sequences of 3 messages of 7 levels with each value; and the same to syslog. Distinct: environment, length of name and of text.");
  mc::assume("A write of a line to the error output is atomic, as for pipes and files opened to append."); mc::assume("Texts of up to 100 bytes in files with names of up to 60 are whole; longer ones may be cut, with dots at the end.");
  mc::add("sizes", sizes, true, nullptr, 60); mc::add("sequences", sequences); mc::add("syslog", syslogs); return mc::main(c, v);
}
