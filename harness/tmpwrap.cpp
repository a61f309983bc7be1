// records the temporary files libonion makes (linked with --wrap=mkstemp,...), and can make the creation fail
#include "onh.hpp"
namespace onh { vector<string> tmp_made; bool tmp_fail = false; }
// the library makes them in /tmp; here they go to memory (same or shorter name), as creating and removing millions of files on a disk is slow
static void redirect(char *t) { static const bool shm = access("/dev/shm", W_OK) == 0; size_t n = strlen(t); if (shm && !strncmp(t, "/tmp/", 5) && n >= 15 && !strcmp(t + n - 6, "XXXXXX")) strcpy(t, "/dev/shm/XXXXXX"); }
extern "C" {
int __real_mkstemp(char *t); int __real_mkostemp(char *t, int f);
int __wrap_mkstemp(char *t) { if (onh::tmp_fail) { errno = EMFILE; return -1; } redirect(t); int fd = __real_mkstemp(t); if (fd >= 0) onh::tmp_made.push_back(t); return fd; }
int __wrap_mkostemp(char *t, int f) { if (onh::tmp_fail) { errno = EMFILE; return -1; } redirect(t); int fd = __real_mkostemp(t, f); if (fd >= 0) onh::tmp_made.push_back(t); return fd; }
}
