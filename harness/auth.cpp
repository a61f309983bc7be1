// P18: what is behind the PAM authentication handler is reached only by clients that PAM accepted (now, or before in the same session).
#include "onh.hpp"
#include <security/pam_appl.h>
extern "C" {
#include "onion/handlers/auth_pam.h"
#include "onion/codecs.h"
}
using namespace onh; using mc::choose;
// ---- a PAM that we control: accounts, and which call fails ----
struct Pam { string user; struct pam_conv conv; };
static int handles, ended; static string gave_user, gave_pw, gave_service; static int asked, accepted; static int start_rc, auth_rc, acct_rc, questions; static bool known_only;
static const std::map<string, string> accounts = {{"al", "pw"}, {"bo", ""}, {"co", "a:b"}, {"di", "x"}};
extern "C" int __wrap_pam_start(const char *service, const char *user, const struct pam_conv *c, pam_handle_t **h) { gave_service = service; gave_user = user; asked++; *h = nullptr; if (start_rc != PAM_SUCCESS) return start_rc; *h = (pam_handle_t *)new Pam{user, *c}; handles++; return PAM_SUCCESS; }
extern "C" int __wrap_pam_authenticate(pam_handle_t *h, int) { Pam *p = (Pam *)h; if (!p) return PAM_ABORT; struct pam_message m[3]; const struct pam_message *pm[3]; for (int i = 0; i < 3; i++) { m[i].msg_style = PAM_PROMPT_ECHO_OFF; m[i].msg = "Password: "; pm[i] = &m[0] + i; } struct pam_response *r = nullptr; int rc = p->conv.conv(questions, pm, &r, p->conv.appdata_ptr); gave_pw = "(none)"; if (rc == PAM_SUCCESS && r) { for (int i = 0; i < questions; i++) { if (r[i].resp) { if (i == 0) gave_pw = r[i].resp; free(r[i].resp); } } free(r); } if (auth_rc != PAM_SUCCESS) return auth_rc; auto it = accounts.find(p->user); if (it == accounts.end()) return PAM_USER_UNKNOWN; return it->second == gave_pw ? PAM_SUCCESS : PAM_AUTH_ERR; }
extern "C" int __wrap_pam_acct_mgmt(pam_handle_t *h, int) { Pam *p = (Pam *)h; if (!p) return PAM_ABORT; if (acct_rc != PAM_SUCCESS) return acct_rc; if (p->user == "di") return PAM_ACCT_EXPIRED; return PAM_SUCCESS; }
extern "C" int __wrap_pam_end(pam_handle_t *h, int) { if (!h) return PAM_SYSTEM_ERR; delete (Pam *)h; handles--; ended++; return PAM_SUCCESS; }
static bool good(const string &u, const string &p) { if (start_rc || auth_rc || acct_rc || u == "di") return false; auto it = accounts.find(u); return it != accounts.end() && it->second == p; }

static Server *sv; static string realm; static int ran; static string who; static int act;
static int inside(void *, onion_request *req, onion_response *res) { ran++; const char *u = onion_request_get_session(req, "username"); who = u ? u : "(null)"; if (act == 1) onion_request_session_free(req); if (act == 2) { onion_dict *s = onion_request_get_session_dict(req); onion_dict_add(s, "other", "x", OD_DUP_ALL | OD_REPLACE); } onion_response_write0(res, "secret"); return OCS_PROCESSED; }
static void install(const string &r) { realm = r; onion_set_root_handler(sv->o, onion_handler_auth_pam(r.c_str(), "svc", onion_handler_new((onion_handler_handler)inside, nullptr, nullptr))); }
static void init() { sv = new Server; onion_handler *h = onion_get_root_handler(sv->o); onion_handler_free(h); install("my realm"); }
static string b64(const string &s) { static const char *T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; string o; size_t i = 0; for (; i + 2 < s.size(); i += 3) { unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8 | (unsigned char)s[i + 2]; o += T[v >> 18]; o += T[v >> 12 & 63]; o += T[v >> 6 & 63]; o += T[v & 63]; } if (s.size() - i == 1) { unsigned v = (unsigned char)s[i] << 16; o += T[v >> 18]; o += T[v >> 12 & 63]; o += "=="; } else if (s.size() - i == 2) { unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8; o += T[v >> 18]; o += T[v >> 12 & 63]; o += T[v >> 6 & 63]; o += "="; } return o; }
static void reset() { gave_user = gave_pw = "(not asked)"; asked = ran = ended = 0; who = ""; start_rc = auth_rc = acct_rc = 0; questions = 1; act = 0; }
struct A { bool in; Resp r; string set; };
static A request(const string &auth, const string &cookie) {
  string m = "GET /x HTTP/1.1\r\n"; if (!auth.empty()) m += "Authorization: " + (auth == "-" ? string() : auth) + "\r\n"; if (!cookie.empty()) m += "Cookie: " + cookie + "\r\n"; ran = 0; asked = 0; string before = "";
  A a; { Conn c(*sv); c.feed(m + "\r\n"); a.r = parse_response(c.out, 0, false, !c.open); if (!a.r.err.empty() || a.r.incomplete || a.r.used != c.out.size()) fail("malformed answer (%s): %s", a.r.err.c_str(), esc(c.out).c_str()); }
  a.in = ran > 0; if (ran > 1) fail("the handler ran %d times for one request", ran); if (handles) fail("%d PAM transactions are left open", handles);
  if (a.in) { if (a.r.code != 200 || a.r.body != "secret") fail("the handler ran but the answer is %d %s", a.r.code, esc(a.r.body).c_str()); }
  else { if (a.r.code != 401) fail("the client is not let in, but the answer is %d", a.r.code); if (a.r.body.find("secret") != string::npos) fail("the answer has what the handler writes"); const string *w = a.r.get("WWW-Authenticate"); if (a.r.count("WWW-Authenticate") != 1 || *w != "Basic realm=\"" + realm + "\"") fail("the challenge is %s", w ? esc(*w).c_str() : "missing"); }
  const string *s = a.r.get("Set-Cookie"); if (s) a.set = s->substr(0, s->find(';')); return a;
}
static string drop_cookie; // removes the session made, so that the store stays small
static void clear(const string &cookie) { if (cookie.empty()) return; act = 1; request("", cookie); act = 0; }
// every credential text over the structural alphabet: exactly what the client wrote is asked to PAM
static void credentials() {
  static const char al[] = "alpwboc:d"; int n = mc::thorough() ? 6 : 5; string u; int k = choose(6); mc::shard(); static const char *pre[] = {"", "al:", "bo:", "co:a", "di:", "al"}; string base = pre[k]; size_t cnt = 0; int lim = base.empty() ? n : n - 1;
  for (int L = 0; L <= lim; L++) { vector<int> ix(L, 0); while (true) { string t = base; for (int i : ix) t += al[i]; mc::note("credentials %s", t.c_str()); reset(); A a = request("Basic " + b64(t), ""); cnt++;
      size_t c = t.find(':'); bool ok = c != string::npos && good(t.substr(0, c), t.substr(c + 1)); if (a.in != ok) fail("credentials %s: %s", t.c_str(), a.in ? "let in" : "refused"); if (c != string::npos) { if (asked != 1 || gave_user != t.substr(0, c) || gave_pw != t.substr(c + 1) || gave_service != "svc") fail("credentials %s: PAM was asked %d times, for user %s with password %s", t.c_str(), asked, gave_user.c_str(), gave_pw.c_str()); } if (ok && who != t.substr(0, c)) fail("the session says the user is %s", who.c_str()); mc::state(mc::hash(t)); if (a.in) clear(a.set);
      int i = L - 1; while (i >= 0 && ++ix[i] == (int)sizeof al - 1) ix[i--] = 0; if (i < 0) break; } }
  mc::outcome(mc::strf("%s %zu", base.c_str(), cnt));
}
// bytes of credentials: any byte in the user or the password
static void bytes() { int b = choose(256), p = choose(3); mc::shard(); string t = p == 0 ? string(1, (char)b) + "l:pw" : p == 1 ? string("al") + (char)b + "pw" : string("al:p") + (char)b; mc::note("byte %d at %d", b, p); reset(); A a = request("Basic " + b64(t), ""); bool ok = t == "al:pw"; if (a.in && !ok && !(b == 0)) fail("let in with %s", esc(t).c_str()); if (!a.in && ok) fail("refused"); if (b == 0 && a.in) fail("let in with %s", esc(t).c_str()); if (b && p != 1) { size_t c = t.find(':'); if (asked != 1 || gave_user != t.substr(0, c) || gave_pw != t.substr(c + 1)) fail("PAM was asked for %s with password %s", esc(gave_user).c_str(), esc(gave_pw).c_str()); } clear(a.set); mc::outcome(t); }
// any single edit, cut or doubling of an authorization header: let in only if PAM said yes in this very request
static void edits() {
  string h = "Basic " + b64(choose(2) ? "al:pw" : "bo:"); int kind = choose(4), pos = choose(h.size() + 1); mc::shard(); for (int b = kind == 0 || kind == 3 ? 255 : 1; b < 256; b++) { string e = h; if (b == '\n' || b == '\r') continue; if (kind == 0) e = h.substr(0, pos); else if (kind == 1) { if (pos >= (int)h.size()) break; e[pos] = b; } else if (kind == 2) e.insert(pos, 1, b); else e = h.substr(0, pos) + h; mc::note("header %s", esc(e).c_str()); reset(); A a = request(e.empty() ? "-" : e, ""); if (a.in && (asked != 1 || !good(gave_user, gave_pw))) fail("let in with %s (PAM asked %d times, user %s password %s)", esc(e).c_str(), asked, esc(gave_user).c_str(), esc(gave_pw).c_str()); if (e == h && !a.in) fail("refused"); clear(a.set); mc::state(mc::hash(e)); }
  mc::outcome(mc::strf("%d %d", kind, pos));
}
// every result of every step of PAM
static void pam_results() { static const int rc[] = {PAM_SUCCESS, PAM_OPEN_ERR, PAM_SYSTEM_ERR, PAM_BUF_ERR, PAM_PERM_DENIED, PAM_AUTH_ERR, PAM_CRED_INSUFFICIENT, PAM_AUTHINFO_UNAVAIL, PAM_USER_UNKNOWN, PAM_MAXTRIES, PAM_NEW_AUTHTOK_REQD, PAM_ACCT_EXPIRED, PAM_IGNORE, PAM_ABORT, PAM_CONV_ERR}; int s = choose(15), a = choose(15), m = choose(15); mc::shard(); int q = choose(4), pw = choose(3); reset(); start_rc = rc[s]; auth_rc = rc[a]; acct_rc = rc[m]; questions = q; static const char *cr[] = {"al:pw", "al:no", "bo:"}; mc::note("start %d authenticate %d account %d, %d questions, %s", start_rc, auth_rc, acct_rc, q, cr[pw]); A x = request("Basic " + b64(cr[pw]), ""); bool ok = pw == 0 ? good("al", q ? "pw" : "(none)") : pw == 1 ? false : good("bo", q ? "" : "(none)"); if (x.in != ok) fail("%s", x.in ? "let in" : "refused"); reset(); if (x.in) { A y = request("", x.set); if (!y.in) fail("the session is not logged in"); clear(x.set); } else if (!x.set.empty()) { A y = request("", x.set); if (y.in) fail("a refused client is let in later with its session"); } mc::outcome(mc::strf("%d %d %d %d %d", s, a, m, q, pw)); }
static void realms() { int L = choose(40) * 16 + choose(16); mc::shard(); if (L == 0) return; string r; for (int i = 0; i < L; i++) r += 'a' + i % 26; mc::note("realm of %d bytes", L); onion_handler_free(onion_get_root_handler(sv->o)); install(r); reset(); A a = request("", ""); if (a.in) fail("let in"); a = request("Basic " + b64("al:pw"), ""); if (!a.in) fail("refused"); clear(a.set); mc::outcome(mc::strf("%d", L)); }
static void lengths() { int L = 1 + choose(400); mc::shard(); for (int k = 0; k < 2; k++) { reset(); string u = k ? "al" : string(L, 'u'), p = k ? string(L, 'p') : "pw"; mc::note("user of %zu and password of %zu bytes", u.size(), p.size()); A a = request("Basic " + b64(u + ":" + p), ""); if (a.in) fail("let in"); if (gave_user != u || gave_pw != p) fail("PAM was asked something else"); } mc::outcome(mc::strf("%d", L)); }
// histories of two browsers: logins, failures, visits, logouts, somebody else's and invented cookies
static void histories() {
  int n = mc::thorough() ? 5 : 4; struct B { string cookie; string user; } br[2]; std::map<string, string> live; string d; reset();
  static const char *cr[] = {"al:pw", "bo:", "al:no", "di:x"};
  for (int i = 0; i < n; i++) {
    int w = choose(2), op = choose(9); if (i == 1) mc::shard(); string auth, cookie = br[w].cookie; act = 0; if (op < 4) auth = "Basic " + b64(cr[op]); else if (op == 5) act = 1; else if (op == 6) cookie = "sessionid=AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA"; else if (op == 7) act = 2; else if (op == 8) { cookie = "xsessionid=" + (cookie.empty() ? string("zz") : cookie.substr(10)); }
    d += mc::strf("%c%d ", 'A' + w, op); mc::note("%s", d.c_str()); auto it = live.find(cookie); string user = it == live.end() ? "" : it->second; bool logged = !user.empty(); if (!logged && op < 4) { string t = cr[op]; size_t c = t.find(':'); if (good(t.substr(0, c), t.substr(c + 1))) user = t.substr(0, c); }
    A a = request(auth, cookie); if (a.in != !user.empty()) fail("request %d: %s, the user is %s", i, a.in ? "let in" : "refused", user.empty() ? "nobody" : user.c_str()); if (a.in && who != user) fail("request %d: the handler sees user %s, it is %s", i, who.c_str(), user.c_str());
    if (logged && asked) fail("PAM asked again for a logged in session");
    if (act == 1 && a.in) { live.erase(cookie); if (op != 6 && op != 8) br[w].cookie = ""; continue; }
    if (a.in) { if (a.set.empty()) fail("a logged in client got no session cookie"); if (logged && a.set != cookie) fail("the session changed"); if (!logged && live.count(a.set)) fail("two clients share a session"); live[a.set] = user; br[w].cookie = a.set; } else if (!a.set.empty() && live.count(a.set)) fail("a refused client got the session of another");
  }
  act = 0; for (auto &x : live) { A a = request("", x.first); if (!a.in || who != x.second) fail("session of %s was lost", x.second.c_str()); } for (auto &x : live) { clear(x.first); if (request("", x.first).in) fail("the session of %s is still open after the logout", x.second.c_str()); } mc::outcome(d);
}
int main(int c, char **v) {
  mc::rule("credential texts over the characters that matter, every single edit of an Authorization header, every result of every PAM call, realm/user/password lengths, and histories of two browsers; non-trivial: every execution, both let-in and refused ones are judged");
  mc::assume("PAM is replaced by a model with four accounts and chosen results; the model answers to pam_start, pam_authenticate, pam_acct_mgmt and pam_end");
  mc::add("credentials", credentials, true, init); mc::add("bytes", bytes, true, init); mc::add("edits", edits, true, init); mc::add("pam results", pam_results, true, init); mc::add("realms", realms, true, init); mc::add("lengths", lengths, true, init); mc::add("histories", histories, true, init); return mc::main(c, v);
}
