"""What each check is made of."""

ASAN = "-O1 -g -fno-omit-frame-pointer -fsanitize=address,bounds -fno-sanitize-recover=all"
VARIANTS = {
    "asan": dict(cflags=ASAN, targets=["onion_static", "otemplate", "opack", "i18n", "onioncpp_static", "onion_extras"], harness_cflags="-O1 -g -fsanitize=address", link="-fsanitize=address,undefined",
                 plain=[]),
    # threads as fibers: compiled with the hooks of ThreadSanitizer, which are ours (see harness/sched.hpp)
    "sched": dict(cflags="-O1 -g -fno-builtin -fno-omit-frame-pointer -fsanitize=thread -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0", targets=["onion_static"],
                  harness_cflags="-O1 -g -no-pie -fno-pie", link="-no-pie", redefine=True),
}

CHECKS = {}


def check(pid, sources, variant="asan", **kw):
    CHECKS[pid] = dict(sources=["mc.cpp"] + sources, variant=variant, **kw)
check("P11", ["codecs.cpp"])
check("P09", ["dict.cpp"])
check("P10", ["json.cpp"])
check("P12", ["block.cpp"])
TMPWRAP = ["mkstemp", "mkostemp"]
check("P01", ["tmpwrap.cpp", "chunk.cpp"], wrap=TMPWRAP)
check("P02", ["tmpwrap.cpp", "fidelity.cpp"], wrap=TMPWRAP)
check("P03", ["tmpwrap.cpp", "hostile.cpp"], wrap=TMPWRAP)
check("P05", ["tmpwrap.cpp", "upload.cpp"], wrap=TMPWRAP + ["write"])
check("P04", ["tmpwrap.cpp", "limits.cpp"], wrap=TMPWRAP)
check("P06", ["framing.cpp"], wrap=["time"])
check("P07", ["tmpwrap.cpp", "keepalive.cpp"], wrap=TMPWRAP + ["time"])
check("P08", ["headers.cpp"], wrap=["time"])
check("P13", ["routing.cpp"])
check("P14", ["files.cpp"], wrap=["read", "write", "sendfile", "fopen", "stat", "fstat"])
GUARD = ["remove", "unlink", "rmdir", "mkdir", "chmod", "truncate", "rename", "open", "mkstemp"]
check("P15", ["fsguard.cpp", "contain.cpp"], wrap=GUARD)
check("P16", ["fsguard.cpp", "webdav.cpp"], wrap=GUARD, cflags=["-I/usr/include/libxml2"])
check("P17", ["fsguard.cpp", "move.cpp"], wrap=GUARD + ["read", "write", "close", "sendfile", "copy_file_range", "fstat"])
check("P18", ["auth.cpp"], wrap=["pam_start", "pam_authenticate", "pam_acct_mgmt", "pam_end"])
check("P19", ["store.cpp"], wrap=["redisConnect", "redisFree", "redisReconnect", "redisvCommand", "redisCommand", "redisCommandArgv", "freeReplyObject", "sqlite3_open", "sqlite3_close", "sqlite3_step", "sqlite3_bind_text"])
check("P20", ["sessid.cpp"], wrap=["gnutls_rnd"])
check("P21", ["ws.cpp", "ws_recv.cpp"], wrap=["poll", "sleep"])
check("P22", ["ws.cpp", "ws_send.cpp"], wrap=["poll", "sleep"])


def sched_check(pid, sources, **kw):
    check(pid, ["sched.cpp", "vk.cpp"] + sources, variant="sched", libs=["onion_sched.o"], **kw)
sched_check("P23", ["poller.cpp"])
sched_check("P24", ["timeouts.cpp"])
sched_check("P25", ["shared.cpp"])
sched_check("P26", ["lifecycle.cpp"])
sched_check("P27", ["together.cpp"])
check("P28", ["tmpwrap.cpp", "https.cpp"], wrap=TMPWRAP + ["accept4", "gnutls_dh_params_generate2", "time", "poll"])
check("P29", ["templates.cpp"], ldflags=["-rdynamic"])
check("P30", ["pack.cpp"], ldflags=["-rdynamic"])
check("P31", ["tmpwrap.cpp", "cpp.cpp"], wrap=TMPWRAP, cflags=["-I@REPO@/src/bindings/cpp"], libs=["src/bindings/cpp/libonioncpp_static.a", "src/onion/libonion_static.a"])
check("P32", ["tmpwrap.cpp", "memory.cpp"], wrap=TMPWRAP + ["time", "malloc", "calloc", "realloc", "strdup", "strndup", "pthread_create", "pthread_join", "pam_start", "pam_authenticate", "pam_acct_mgmt", "pam_end"])
check("P33", ["log.cpp"], wrap=["vsyslog", "__vsyslog_chk", "syslog", "__syslog_chk"])
check("P34", ["images.cpp"], libs=["src/onion/extras/libonion_extras.a", "src/onion/libonion_static.a"], ldflags=["-lpng", "-ljpeg"])
check("P35", ["config.cpp"], wrap=["bind", "accept4", "gnutls_dh_params_generate2", "getpwnam", "getpwnam_r", "initgroups", "setgroups", "setgid", "setregid", "setresgid", "setuid", "setreuid", "setresuid", "seteuid", "setegid", "getuid", "geteuid", "getgid", "getegid", "sd_listen_fds"])
sched_check("P36", ["yield.cpp"])
