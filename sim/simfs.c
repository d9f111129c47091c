/* simfs: decides the outcome of every file system call made under one directory.
 *
 * Preloaded in the interpreter. Calls on paths outside the directory, and all calls while the simulation is not armed,
 * go straight to libc. While armed, each intercepted call gets the next number of the run; the plan given by the
 * simulator says which numbers fail, are cut short, or kill the process. Nothing here uses time or randomness. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/sendfile.h>
#include <unistd.h>

enum { K_OPEN, K_READ, K_WRITE, K_CLOSE, K_RENAME, K_UNLINK, K_MKDIR, K_STAT, K_CHMOD, K_SYNC, K_TRUNC, K_LIST, K_LINK, K_N };
enum { A_NONE, A_FAIL, A_SHORT, A_CRASH_BEFORE, A_CRASH_AFTER, A_CRASH_MID, A_FULL, A_EINTR, A_FAIL_FROM };
#define CRASH_STATUS 77
#define MAXR 64
#define MAXFD 4096
#define MAXLOG 4096

static char prefix[1024];
static size_t plen;
static int armed, count, nrules, short_rd, short_wr, full_from;
static int from_idx, from_kind, from_errno;
static struct { int target, kind, idx, act, arg, hit; } rules[MAXR];   /* kind -1: idx counts all the calls */
static unsigned char fds[MAXFD];
#define MAXT 32
static char targets[MAXT][128];       /* files (end of path) some rules are about; target 0: any */
static int ntargets, cur, tkinds[MAXT][K_N], thits[MAXT][16], fdt[MAXFD];
static int kinds[K_N], hits[16];
static unsigned short logk[MAXLOG];   /* kind<<8 | action applied */
static int nlog;

#define REAL(name) static __typeof__(&name) real_##name; if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

/* ---- control, called by the simulator ---- */
void simfs_root(const char *p) { strncpy(prefix, p, sizeof prefix - 1); plen = strlen(prefix); }
void simfs_arm(void) { armed = 1; count = 0; nrules = 0; short_rd = short_wr = 0; full_from = 0; from_idx = 0; nlog = 0;
    ntargets = cur = 0; memset(tkinds, 0, sizeof tkinds); memset(thits, 0, sizeof thits); memset(fdt, 0, sizeof fdt);
    memset(kinds, 0, sizeof kinds); memset(hits, 0, sizeof hits); }
int simfs_target(const char *end) { if (ntargets >= MAXT - 1) return 0; strncpy(targets[++ntargets], end, 127); return ntargets; }
int simfs_thits(int t, int act) { return thits[t][act]; }
void simfs_rule(int target, int kind, int idx, int act, int arg) {
    if (act == A_FULL) { full_from = idx; return; }
    if (nrules < MAXR) { rules[nrules].target = target; rules[nrules].kind = kind; rules[nrules].idx = idx; rules[nrules].act = act; rules[nrules].arg = arg;
        rules[nrules].hit = 0; nrules++; } }
void simfs_from(int idx, int kind, int err) { from_idx = idx; from_kind = kind; from_errno = err; }
void simfs_short(int rd, int wr) { short_rd = rd; short_wr = wr; }
int simfs_disarm(void) { armed = 0; return count; }
int simfs_hits(int act) { return act >= 0 && act < 16 ? hits[act] : 0; }
int simfs_kind(int k) { return k >= 0 && k < K_N ? kinds[k] : 0; }
int simfs_log(int i) { return i >= 0 && i < nlog ? logk[i] : -1; }
int simfs_openfds(void) { int n = 0; for (int i = 0; i < MAXFD; i++) n += fds[i]; return n; }
void simfs_forget(void) { memset(fds, 0, sizeof fds); }

/* ---- decision ---- */
static int target_of(const char *p) { size_t n = strlen(p);
    for (int i = 1; i <= ntargets; i++) { size_t m = strlen(targets[i]); if (n >= m && strcmp(p + n - m, targets[i]) == 0) return i; }
    return 0; }
static int under(const char *p) { if (p) cur = target_of(p); return plen && p && strncmp(p, prefix, plen) == 0 && (p[plen] == '/' || p[plen] == 0); }
static int ours(int fd) { if (fd >= 0 && fd < MAXFD) cur = fdt[fd]; return fd >= 0 && fd < MAXFD && fds[fd]; }
static int under_at(int d, const char *p) { if (!p) return 0; if (p[0] == '/') return under(p); int r = ours(d); cur = target_of(p); return r; }

static int decide(int kind, int *arg) {
    int act = A_NONE; *arg = 0;
    count++; kinds[kind]++; tkinds[cur][kind]++;
    for (int i = 0; i < nrules; i++) if (rules[i].target ? rules[i].target == cur && rules[i].kind == kind && rules[i].idx == tkinds[cur][kind] :
            rules[i].idx == (rules[i].kind < 0 ? count : rules[i].kind == kind ? kinds[kind] : 0)) { act = rules[i].act; *arg = rules[i].arg; }
    if (act == A_NONE && full_from && count >= full_from && (kind == K_WRITE || kind == K_MKDIR)) { act = A_FULL; *arg = ENOSPC; }
    if (act == A_NONE && from_idx && count >= from_idx && kind == from_kind) { act = A_FAIL_FROM; *arg = from_errno; }
    if (act == A_SHORT && kind != K_READ && kind != K_WRITE) act = A_NONE;
    if (act == A_EINTR && kind != K_READ && kind != K_WRITE && kind != K_OPEN) act = A_NONE;
    if (act == A_CRASH_MID && kind != K_WRITE) act = A_CRASH_BEFORE;
    if (nlog < MAXLOG) logk[nlog++] = kind << 8 | act;
    hits[act]++; thits[cur][act]++;
    if (act == A_CRASH_BEFORE) _exit(CRASH_STATUS);
    return act;
}
#define FAILS(act) ((act) == A_FAIL || (act) == A_FULL || (act) == A_FAIL_FROM || (act) == A_EINTR)
#define ERR(act, arg) ((act) == A_EINTR ? EINTR : (arg) ? (arg) : EIO)

#define SIMPLE(kind, cond, call, failval) \
    if (!armed || !(cond)) return call; \
    int arg, act = decide(kind, &arg); \
    if (FAILS(act)) { errno = ERR(act, arg); return failval; } \
    __typeof__(call) ret = call; \
    if (act == A_CRASH_AFTER) _exit(CRASH_STATUS); \
    return ret;

/* ---- files ---- */
static int opened(int fd) { if (fd >= 0 && fd < MAXFD) { fds[fd] = 1; fdt[fd] = cur; } return fd; }
#define OPENBODY(cond, call) \
    if (!armed || !(cond)) { return call; } \
    int arg, act = decide(K_OPEN, &arg); \
    if (FAILS(act)) { errno = ERR(act, arg); return -1; } \
    int fd = opened(call); \
    if (act == A_CRASH_AFTER) _exit(CRASH_STATUS); \
    return fd;
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *p, int flags, ...) { REAL(open); MODE OPENBODY(under(p), real_open(p, flags, mode)) }
int open64(const char *p, int flags, ...) { REAL(open64); MODE OPENBODY(under(p), real_open64(p, flags, mode)) }
int openat64(int d, const char *p, int flags, ...) { REAL(openat64); MODE OPENBODY(under_at(d, p), real_openat64(d, p, flags, mode)) }
int openat(int d, const char *p, int flags, ...) { REAL(openat); MODE OPENBODY(under_at(d, p), real_openat(d, p, flags, mode)) }

int close(int fd) {
    REAL(close);
    if (!ours(fd)) return real_close(fd);
    fds[fd] = 0;
    if (!armed) return real_close(fd);
    int arg, act = decide(K_CLOSE, &arg);
    int ret = real_close(fd);                       /* the descriptor is gone even when close reports an error */
    if (act == A_CRASH_AFTER) _exit(CRASH_STATUS);
    if (FAILS(act)) { errno = ERR(act, arg); return -1; }
    return ret;
}

#define XFER(kind, lim, fd, n, call_n) \
    if (!armed || !ours(fd)) { size_t m = n; return call_n; } \
    int arg, act = decide(kind, &arg); \
    if (FAILS(act)) { errno = ERR(act, arg); return -1; } \
    size_t m = n; \
    if (lim && m > (size_t)lim) m = lim; \
    if (act == A_SHORT && m > 1) { size_t s = arg > 0 ? (size_t)arg : 1; m = s < m ? s : m - 1; } \
    if (act == A_CRASH_MID) { m = m > 1 ? (size_t)(arg > 0 ? arg : 1) % m : 0; if (m) { ssize_t r = call_n; (void)r; } _exit(CRASH_STATUS); } \
    ssize_t ret = call_n; \
    if (act == A_CRASH_AFTER) _exit(CRASH_STATUS); \
    return ret;
ssize_t read(int fd, void *b, size_t n) { REAL(read); XFER(K_READ, short_rd, fd, n, real_read(fd, b, m)) }
ssize_t write(int fd, const void *b, size_t n) { REAL(write); XFER(K_WRITE, short_wr, fd, n, real_write(fd, b, m)) }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { REAL(pread64); XFER(K_READ, short_rd, fd, n, real_pread64(fd, b, m, o)) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(pwrite64); XFER(K_WRITE, short_wr, fd, n, real_pwrite64(fd, b, m, o)) }
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) { REAL(sendfile64); XFER(K_WRITE, short_wr, out, n, real_sendfile64(out, in, o, m)) }

int fsync(int fd) { REAL(fsync); SIMPLE(K_SYNC, ours(fd), real_fsync(fd), -1) }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); SIMPLE(K_TRUNC, ours(fd), real_ftruncate64(fd, n), -1) }
int fchmod(int fd, mode_t m) { REAL(fchmod); SIMPLE(K_CHMOD, ours(fd), real_fchmod(fd, m), -1) }
int dup(int fd) { REAL(dup); int r = real_dup(fd); if (ours(fd)) opened(r); return r; }
int dup2(int a, int b) { REAL(dup2); int r = real_dup2(a, b); if (r >= 0 && r < MAXFD) fds[r] = ours(a); return r; }
int dup3(int a, int b, int f) { REAL(dup3); int r = real_dup3(a, b, f); if (r >= 0 && r < MAXFD) fds[r] = ours(a); return r; }

/* ---- names ---- */
int rename(const char *a, const char *b) { REAL(rename); SIMPLE(K_RENAME, under(a) || under(b), real_rename(a, b), -1) }
int renameat(int da, const char *a, int db, const char *b) { REAL(renameat); SIMPLE(K_RENAME, under_at(da, a) || under_at(db, b), real_renameat(da, a, db, b), -1) }
int unlink(const char *p) { REAL(unlink); SIMPLE(K_UNLINK, under(p), real_unlink(p), -1) }
int unlinkat(int d, const char *p, int f) { REAL(unlinkat); SIMPLE(K_UNLINK, under_at(d, p), real_unlinkat(d, p, f), -1) }
int rmdir(const char *p) { REAL(rmdir); SIMPLE(K_UNLINK, under(p), real_rmdir(p), -1) }
int mkdir(const char *p, mode_t m) { REAL(mkdir); SIMPLE(K_MKDIR, under(p), real_mkdir(p, m), -1) }
int mkdirat(int d, const char *p, mode_t m) { REAL(mkdirat); SIMPLE(K_MKDIR, under_at(d, p), real_mkdirat(d, p, m), -1) }
int link(const char *a, const char *b) { REAL(link); SIMPLE(K_LINK, under(a) || under(b), real_link(a, b), -1) }
int symlink(const char *a, const char *b) { REAL(symlink); SIMPLE(K_LINK, under(b), real_symlink(a, b), -1) }
int chmod(const char *p, mode_t m) { REAL(chmod); SIMPLE(K_CHMOD, under(p), real_chmod(p, m), -1) }
int fchmodat(int d, const char *p, mode_t m, int f) { REAL(fchmodat); SIMPLE(K_CHMOD, under_at(d, p), real_fchmodat(d, p, m, f), -1) }
int truncate64(const char *p, off64_t n) { REAL(truncate64); SIMPLE(K_TRUNC, under(p), real_truncate64(p, n), -1) }
int stat64(const char *p, struct stat64 *s) { REAL(stat64); SIMPLE(K_STAT, under(p), real_stat64(p, s), -1) }
int lstat64(const char *p, struct stat64 *s) { REAL(lstat64); SIMPLE(K_STAT, under(p), real_lstat64(p, s), -1) }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { REAL(fstatat64); SIMPLE(K_STAT, under_at(d, p) && p[0], real_fstatat64(d, p, s, f), -1) }
int access(const char *p, int m) { REAL(access); SIMPLE(K_STAT, under(p), real_access(p, m), -1) }
DIR *opendir(const char *p) { REAL(opendir); SIMPLE(K_LIST, under(p), real_opendir(p), NULL) }
