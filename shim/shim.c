/* Preloaded into the approval script and the tools it runs: shows them the
 * scratch directory as /var/run/sudo_pair, a small fixed account database
 * and (only to play root) a user id that is not theirs; records each path
 * below the directory that is touched. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <pwd.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

#define REAL(name) ({ static void *p_; if (!p_) p_ = dlsym(RTLD_NEXT, #name); (__typeof__(&name))p_; })

static const char *cfg(const char *k) { const char *v = getenv(k); return v && *v ? v : NULL; }

/* one record per touch; says whether this touch has to fail */
static int touch(const char *p) {
    const char *t = cfg("MC_SHIM_TOUCH");
    const char *v = cfg("MC_SHIM_VANISH");
    int n = 0, fd;
    if (!t) return 0;
    fd = REAL(open)(t, O_RDWR | O_APPEND | O_CLOEXEC);
    if (fd < 0) return 0;
    if (v) {
        char b[65536];
        ssize_t r = pread(fd, b, sizeof b, 0);
        for (ssize_t i = 0; i < r; i++) n += b[i] == 0;
    }
    if (write(fd, p, strlen(p) + 1) < 0) { }
    close(fd);
    if (!v) return 0;
    /* "3+": from the fourth on; "3": only that one */
    return strchr(v, '+') ? n >= atoi(v) : n == atoi(v);
}

/* NULL with errno set if it has to fail */
static const char *map(const char *p, char *buf) {
    static const char *const pre[] = { "/var/run/sudo_pair", "/run/sudo_pair", NULL };
    const char *d = cfg("MC_SHIM_DIR");
    if (!p || !d) return p;
    for (int i = 0; pre[i]; i++) {
        size_t n = strlen(pre[i]);
        if (!strncmp(p, pre[i], n) && (p[n] == 0 || p[n] == '/')) {
            if (p[n] && p[n + 1] && touch(p + n + 1)) { errno = ENOENT; return NULL; }
            snprintf(buf, 4096, "%s%s", d, p + n);
            return buf;
        }
    }
    return p;
}

static int is_root(void) { const char *u = cfg("MC_SHIM_UID"); return u && !strcmp(u, "0"); }

#define M(fail) char b_[4200]; const char *q = map(p, b_); if (p && !q) return fail

int stat(const char *p, struct stat *s) { M(-1); return REAL(stat)(q, s); }
int lstat(const char *p, struct stat *s) { M(-1); return REAL(lstat)(q, s); }
int stat64(const char *p, struct stat64 *s) { M(-1); return REAL(stat64)(q, s); }
int lstat64(const char *p, struct stat64 *s) { M(-1); return REAL(lstat64)(q, s); }
int fstatat(int d, const char *p, struct stat *s, int f) { M(-1); return REAL(fstatat)(d, q, s, f); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { M(-1); return REAL(fstatat64)(d, q, s, f); }
int statx(int d, const char *p, int f, unsigned m, struct statx *s) { M(-1); return REAL(statx)(d, q, f, m, s); }
static int rooted(const char *q) { struct stat s; return REAL(stat)(q, &s); }
int access(const char *p, int m) { M(-1); return q != p && is_root() ? rooted(q) : REAL(access)(q, m); }
int eaccess(const char *p, int m) { M(-1); return q != p && is_root() ? rooted(q) : REAL(eaccess)(q, m); }
int euidaccess(const char *p, int m) { M(-1); return q != p && is_root() ? rooted(q) : REAL(euidaccess)(q, m); }
int faccessat(int d, const char *p, int m, int f) { M(-1); return q != p && is_root() ? rooted(q) : REAL(faccessat)(d, q, m, f); }
DIR *opendir(const char *p) { M(NULL); return REAL(opendir)(q); }
int chdir(const char *p) { M(-1); return REAL(chdir)(q); }
int unlink(const char *p) { M(-1); return REAL(unlink)(q); }
int unlinkat(int d, const char *p, int f) { M(-1); return REAL(unlinkat)(d, q, f); }
int chmod(const char *p, mode_t m) { M(-1); return REAL(chmod)(q, m); }
int fchmodat(int d, const char *p, mode_t m, int f) { M(-1); return REAL(fchmodat)(d, q, m, f); }
int chown(const char *p, uid_t u, gid_t g) { M(-1); return REAL(chown)(q, u, g); }
int fchownat(int d, const char *p, uid_t u, gid_t g, int f) { M(-1); return REAL(fchownat)(d, q, u, g, f); }
ssize_t readlink(const char *p, char *b, size_t n) { M(-1); return REAL(readlink)(q, b, n); }
ssize_t readlinkat(int d, const char *p, char *b, size_t n) { M(-1); return REAL(readlinkat)(d, q, b, n); }
FILE *fopen(const char *p, const char *m) { M(NULL); return REAL(fopen)(q, m); }
FILE *fopen64(const char *p, const char *m) { M(NULL); return REAL(fopen64)(q, m); }

#define MODE mode_t m = 0; if (f & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, int); va_end(a); }
int open(const char *p, int f, ...) { MODE M(-1); return REAL(open)(q, f, m); }
int open64(const char *p, int f, ...) { MODE M(-1); return REAL(open64)(q, f, m); }
int openat(int d, const char *p, int f, ...) { MODE M(-1); return REAL(openat)(d, q, f, m); }
int openat64(int d, const char *p, int f, ...) { MODE M(-1); return REAL(openat64)(d, q, f, m); }

/* the commands the harness stands in for, wherever they are looked for */
static const char *stand_in(const char *p, char *b) {
    static const char *const names[] = { "sudo", "socat", "stty", "clear", "evil", "nc", "ncat", "su", "doas", "pkexec", "runuser", "sg", NULL };
    const char *d = cfg("MC_SHIM_BIN"), *s = p ? strrchr(p, '/') : NULL;
    if (!d || !s) return p;
    for (int i = 0; names[i]; i++)
        if (!strcmp(s + 1, names[i])) { snprintf(b, 4096, "%s/%s", d, names[i]); return b; }
    return p;
}
int execve(const char *p, char *const a[], char *const e[]) { char b[4200]; return REAL(execve)(stand_in(p, b), a, e); }
int execv(const char *p, char *const a[]) { char b[4200]; return REAL(execv)(stand_in(p, b), a); }

/* accounts */
static struct passwd pws[] = {
    { "root", "x", 0, 0, "", "/", "/bin/sh" },
    { "alice", "x", 1000, 1000, "", "/", "/bin/sh" },
    { "mallory", "x", 1001, 1001, "", "/", "/bin/sh" },
    { "bob", "x", 2000, 2000, "", "/", "/bin/sh" },
    { "carol", "x", 2100, 2100, "", "/", "/bin/sh" },
    { "a-b.c_d", "x", 2200, 2200, "", "/", "/bin/sh" },
    { "nobody", "x", 65534, 65534, "", "/", "/bin/sh" },
};
static char *none[] = { NULL };
static struct group grs[] = {
    { "root", "x", 0, none }, { "ops", "x", 30, none }, { "alice", "x", 1000, none },
    { "mallory", "x", 1001, none }, { "bobs", "x", 2000, none }, { "carol", "x", 2100, none }, { "nogroup", "x", 65534, none },
};
#define N(a) (sizeof a / sizeof *a)
struct passwd *getpwuid(uid_t u) { for (size_t i = 0; i < N(pws); i++) if (pws[i].pw_uid == u) return &pws[i]; errno = 0; return NULL; }
struct passwd *getpwnam(const char *n) { for (size_t i = 0; i < N(pws); i++) if (!strcmp(pws[i].pw_name, n)) return &pws[i]; errno = 0; return NULL; }
struct group *getgrgid(gid_t g) { for (size_t i = 0; i < N(grs); i++) if (grs[i].gr_gid == g) return &grs[i]; errno = 0; return NULL; }
struct group *getgrnam(const char *n) { for (size_t i = 0; i < N(grs); i++) if (!strcmp(grs[i].gr_name, n)) return &grs[i]; errno = 0; return NULL; }
int getpwuid_r(uid_t u, struct passwd *o, char *b, size_t n, struct passwd **r) { (void)b; (void)n; *r = getpwuid(u); if (*r) { *o = **r; *r = o; } return 0; }
int getpwnam_r(const char *s, struct passwd *o, char *b, size_t n, struct passwd **r) { (void)b; (void)n; *r = getpwnam(s); if (*r) { *o = **r; *r = o; } return 0; }
int getgrgid_r(gid_t u, struct group *o, char *b, size_t n, struct group **r) { (void)b; (void)n; *r = getgrgid(u); if (*r) { *o = **r; *r = o; } return 0; }
int getgrnam_r(const char *s, struct group *o, char *b, size_t n, struct group **r) { (void)b; (void)n; *r = getgrnam(s); if (*r) { *o = **r; *r = o; } return 0; }

uid_t getuid(void) { return is_root() ? 0 : REAL(getuid)(); }
uid_t geteuid(void) { return is_root() ? 0 : REAL(geteuid)(); }
gid_t getgid(void) { return is_root() ? 0 : REAL(getgid)(); }
gid_t getegid(void) { return is_root() ? 0 : REAL(getegid)(); }
