/* vh: the helper program the workloads run as commands.  Every argument is
 * an operation, done in order; see vf/model.py for what each of them means.
 * Exit status 0 unless said otherwise; 74 when its output can't be written,
 * 75 when its input can't be read, 76 for anything it does not understand. */
#define _GNU_SOURCE
#include <ctype.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern char **environ;

static void die(int code) { _exit(code); }

static void wr(int fd, const void *p, size_t n) {
    const char *c = p;
    while (n) {
        ssize_t r = write(fd, c, n);
        if (r < 0) { if (errno == EINTR) continue; die(errno == EPIPE ? 74 : 77); }
        c += r; n -= (size_t) r;
    }
}
static ssize_t rd(int fd, void *p, size_t n) {
    for (;;) {
        ssize_t r = read(fd, p, n);
        if (r < 0) { if (errno == EINTR) continue; die(75); }
        return r;
    }
}
static void us(long n) {
    struct timespec t = { n / 1000000, (n % 1000000) * 1000 };
    if (n > 0) while (nanosleep(&t, &t) < 0 && errno == EINTR);
}
static int hexval(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static size_t unhex(const char *s, unsigned char *out) {
    size_t n = 0;
    while (s[0] && s[1]) { out[n++] = (unsigned char)(hexval(s[0]) * 16 + hexval(s[1])); s += 2; }
    return n;
}
typedef struct { char *p; size_t n, cap; } buf;
static void put(buf *b, const void *p, size_t n) {
    if (b->n + n + 1 > b->cap) { b->cap = (b->n + n + 1) * 2; b->p = realloc(b->p, b->cap); if (!b->p) die(78); }
    memcpy(b->p + b->n, p, n); b->n += n; b->p[b->n] = 0;
}
static void puts_(buf *b, const char *s) { put(b, s, strlen(s)); }
static void puthex(buf *b, const char *s) {
    char t[3]; puts_(b, "\"");
    for (; *s; s++) { snprintf(t, 3, "%02x", (unsigned char)*s); put(b, t, 2); }
    puts_(b, "\"");
}
static void slurp(int fd, buf *b) {
    char t[65536]; ssize_t r;
    while ((r = rd(fd, t, sizeof t)) > 0) put(b, t, (size_t) r);
}
static char sigs[200];  /* those blocked and ignored when this was started */
static int pipe_ignored;
static volatile sig_atomic_t got;
static void on(int s) { (void) s; got = 1; }
static uint64_t lcg;
static unsigned char rnd(void) { lcg = lcg * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned char)(lcg >> 56); }

/* Everything a command can see of what it was given, as JSON, strings in hex */
static void dump(const char *path, int argc, char **argv) {
    buf b = {0}; char t[512], l[4096]; int i, first = 1;
    puts_(&b, "{\"argv\":[");
    for (i = 0; i < argc; i++) { if (i) puts_(&b, ","); puthex(&b, argv[i]); }
    puts_(&b, "],\"env\":[");
    for (i = 0; environ[i]; i++) { if (i) puts_(&b, ","); puthex(&b, environ[i]); }
    puts_(&b, "],\"cwd\":");
    if (!getcwd(l, sizeof l)) strcpy(l, "?");
    puthex(&b, l);
    mode_t um = umask(0); umask(um);
    snprintf(t, sizeof t, ",\"umask\":%d,\"pid\":%d,\"ppid\":%d,\"fds\":{", (int) um, (int) getpid(), (int) getppid());
    puts_(&b, t);
    struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl);
    DIR *d = opendir("/proc/self/fd"); struct dirent *e;
    while (d && (e = readdir(d))) {
        if (!isdigit((unsigned char) e->d_name[0])) continue;
        int fd = atoi(e->d_name); struct stat st;
        if (fd == dirfd(d)) continue;
        snprintf(t, sizeof t, "/proc/self/fd/%d", fd);
        ssize_t n = readlink(t, l, sizeof l - 1); l[n < 0 ? 0 : n] = 0;
        if (fstat(fd, &st) < 0) memset(&st, 0, sizeof st);
        if (!first) puts_(&b, ",");
        first = 0;
        snprintf(t, sizeof t, "\"%d\":{\"fl\":%d,\"fdfl\":%d,\"dev\":%llu,\"ino\":%llu,\"mode\":%u,\"pos\":%lld,\"link\":", fd,
                 fcntl(fd, F_GETFL), fcntl(fd, F_GETFD), (unsigned long long) st.st_dev,
                 (unsigned long long) st.st_ino, (unsigned) st.st_mode, (long long) lseek(fd, 0, SEEK_CUR));
        puts_(&b, t); puthex(&b, l); puts_(&b, "}");
    }
    snprintf(t, sizeof t, "},\"state\":{%s,\"pgid\":%d,\"sid\":%d,\"nice\":%d", sigs, (int) getpgid(0), (int) getsid(0), getpriority(PRIO_PROCESS, 0));
    puts_(&b, t);
    struct { const char *n; int r; } ls[] = { {"CPU", RLIMIT_CPU}, {"FSIZE", RLIMIT_FSIZE}, {"DATA", RLIMIT_DATA}, {"STACK", RLIMIT_STACK}, {"CORE", RLIMIT_CORE},
        {"NOFILE", RLIMIT_NOFILE}, {"NPROC", RLIMIT_NPROC}, {"MEMLOCK", RLIMIT_MEMLOCK}, {"AS", RLIMIT_AS} };
    for (i = 0; i < (int) (sizeof ls / sizeof *ls); i++) {
        getrlimit(ls[i].r, &rl);
        snprintf(t, sizeof t, ",\"%s\":[%lld,%lld]", ls[i].n, (long long) rl.rlim_cur, (long long) rl.rlim_max);
        puts_(&b, t);
    }
    puts_(&b, "}}\n");
    if (!path) { wr(1, b.p, b.n); free(b.p); return; }
    snprintf(l, sizeof l, "%s.%d.tmp", path, (int) getpid());
    int fd = open(l, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
    if (fd < 0) die(79);
    wr(fd, b.p, b.n); close(fd);
    if (rename(l, path) < 0) die(79);
    free(b.p);
}

int main(int argc, char **argv) {
    int i, k, n = 0;
    sigset_t ss; struct sigaction sa;
    sigprocmask(SIG_BLOCK, NULL, &ss);
    n = sprintf(sigs, "\"blk\":[0");
    for (k = 1; k < 32; k++) if (sigismember(&ss, k)) n += sprintf(sigs + n, ",%d", k);
    n += sprintf(sigs + n, "],\"ign\":[0");
    for (k = 1; k < 32; k++) if (!sigaction(k, NULL, &sa) && sa.sa_handler == SIG_IGN) { n += sprintf(sigs + n, ",%d", k); pipe_ignored |= k == SIGPIPE; }
    sprintf(sigs + n, "]");
    signal(SIGPIPE, SIG_IGN);   /* So that what became of the output can be told from the exit status */
    const char *name = argc ? strrchr(argv[0], '/') : 0;
    name = name ? name + 1 : argc ? argv[0] : "";
    if (!strncmp(name, "dumper", 6) || !strcmp(name, "Cd") || !strcmp(name, "FG") || !strcmp(name, "cd_") || !strcmp(name, "Remote")) { dump(0, argc, argv); return 0; } /* whatever the arguments are */
    for (i = 1; i < argc; i++) {
        char *a = strdup(argv[i]), *f[8] = {0}; int nf = 0; char *p = a;
        while (nf < 7) { f[nf++] = p; p = strchr(p, ':'); if (!p) break; *p++ = 0; }
        const char *op = f[0];
#define F(k) (k < nf ? f[k] : "")
#define N(k) (k < nf ? atol(f[k]) : 0)
        if (!strcmp(op, "w") || !strcmp(op, "e")) {
            unsigned char *o = malloc(strlen(F(1)) / 2 + 1); size_t n = unhex(F(1), o);
            wr(op[0] == 'w' ? 1 : 2, o, n); free(o);
        } else if (!strcmp(op, "wf")) {
            unsigned char *o = malloc(strlen(F(2)) / 2 + 1); size_t n = unhex(F(2), o);
            wr((int) N(1), o, n); free(o);
        } else if (!strcmp(op, "g") || !strcmp(op, "ge")) { /* SEED:N:CHUNK:US */
            long n = N(2), c = N(3) > 0 ? N(3) : 65536, k; char *o = malloc((size_t) c);
            lcg = (uint64_t) N(1) * 2654435761u + 12345;
            while (n > 0) {
                long m = n < c ? n : c;
                for (k = 0; k < m; k++) o[k] = (char) rnd();
                wr(op[1] ? 2 : 1, o, (size_t) m); n -= m; us(N(4));
            }
            free(o);
        } else if (!strcmp(op, "gl")) { /* TAG:N:LEN:US lines, one write each */
            long k, j; char o[8192];
            for (k = 0; k < N(2); k++) {
                int n = snprintf(o, 512, "%s-%ld-", F(1), k);
                for (j = 0; j < N(3) && n < 4000; j++) o[n++] = (char)('a' + (k + j) % 26);
                o[n++] = '\n'; wr(1, o, (size_t) n); us(N(4));
            }
        } else if (!strcmp(op, "cat") || !strcmp(op, "up") || !strcmp(op, "xor")) { /* CHUNK:US:KEY */
            long c = N(1) > 0 ? N(1) : 65536, k; ssize_t r; char *o = malloc((size_t) c);
            while ((r = rd(0, o, (size_t) c)) > 0) {
                if (op[0] == 'u') for (k = 0; k < r; k++) { if (o[k] >= 'a' && o[k] <= 'z') o[k] -= 32; }
                if (op[0] == 'x') for (k = 0; k < r; k++) o[k] ^= (char) N(3);
                wr(1, o, (size_t) r); us(N(2));
            }
            free(o);
        } else if (!strcmp(op, "rev")) { /* all of the input, bytes reversed */
            buf b = {0}; slurp(0, &b); size_t x, y;
            for (x = 0, y = b.n; b.n && x < --y; x++) { char t = b.p[x]; b.p[x] = b.p[y]; b.p[y] = t; }
            wr(1, b.p ? b.p : "", b.n); free(b.p);
        } else if (!strcmp(op, "pre")) { /* HEX before every line */
            buf b = {0}; slurp(0, &b); unsigned char pre[4096]; size_t n = unhex(F(1), pre), x; buf o = {0};
            for (x = 0; x < b.n; x++) { if (x == 0 || b.p[x - 1] == '\n') put(&o, pre, n); put(&o, b.p + x, 1); }
            wr(1, o.p ? o.p : "", o.n); free(b.p); free(o.p);
        } else if (!strcmp(op, "lcat") || !strcmp(op, "lup")) { /* by line, one write each */
            buf b = {0}; char t[4096]; ssize_t r; size_t s, k;
            while ((r = rd(0, t, sizeof t)) > 0) {
                put(&b, t, (size_t) r);
                for (s = k = 0; k < b.n; k++) {
                    if (op[1] == 'u' && b.p[k] >= 'a' && b.p[k] <= 'z') b.p[k] -= 32;
                    if (b.p[k] == '\n') { wr(1, b.p + s, k + 1 - s); s = k + 1; }
                }
                memmove(b.p, b.p + s, b.n - s); b.n -= s;
            }
            wr(1, b.p ? b.p : "", b.n); free(b.p);
        } else if (!strcmp(op, "cnt")) {
            char t[65536]; ssize_t r; unsigned long long n = 0; uint64_t h = 14695981039346656037ULL; char o[64];
            while ((r = rd(0, t, sizeof t)) > 0) { for (ssize_t k = 0; k < r; k++) { h ^= (unsigned char) t[k]; h *= 1099511628211ULL; } n += (unsigned long long) r; }
            int m = snprintf(o, sizeof o, "%llu %016llx\n", n, (unsigned long long) h); wr(1, o, (size_t) m);
        } else if (!strcmp(op, "head")) { /* N bytes */
            long n = N(1); char c;
            while (n > 0 && rd(0, &c, 1) == 1) { wr(1, &c, 1); n--; }
        } else if (!strcmp(op, "drain")) {
            char t[65536]; while (rd(0, t, sizeof t) > 0);
        } else if (!strcmp(op, "cf")) { /* PATH to stdout */
            int fd = open(F(1), O_RDONLY); if (fd < 0) die(80);
            char t[65536]; ssize_t r; while ((r = rd(fd, t, sizeof t)) > 0) wr(1, t, (size_t) r);
            close(fd);
        } else if (!strcmp(op, "to")) { /* stdin to PATH */
            int fd = open(F(1), O_WRONLY); if (fd < 0) die(81);
            char t[65536]; ssize_t r; while ((r = rd(0, t, sizeof t)) > 0) wr(fd, t, (size_t) r);
            close(fd);
        } else if (!strcmp(op, "wto")) { /* PATH:HEX */
            int fd = open(F(1), O_WRONLY); if (fd < 0) die(81);
            unsigned char *o = malloc(strlen(F(2)) / 2 + 1); size_t n = unhex(F(2), o);
            wr(fd, o, n); free(o); close(fd);
        } else if (!strcmp(op, "rf")) { /* FD to stdout */
            char t[65536]; ssize_t r; while ((r = rd((int) N(1), t, sizeof t)) > 0) wr(1, t, (size_t) r);
        } else if (!strcmp(op, "args")) { /* the rest of the arguments: files to stdout, in order; the ones starting with = as a line */
            for (i++; i < argc; i++) {
                char *q = argv[i]; if (!strncmp(q, "--", 2) && strchr(q, '=')) q = strchr(q, '=') + 1;
                if (q[0] == '=') { wr(1, q + 1, strlen(q + 1)); wr(1, "\n", 1); continue; }
                int fd = open(q, O_RDONLY); if (fd < 0) die(80);
                char t[65536]; ssize_t r; while ((r = rd(fd, t, sizeof t)) > 0) wr(1, t, (size_t) r);
                close(fd);
            }
        } else if (!strcmp(op, "tee")) { /* stdin to stdout and to each of the rest of the arguments */
            int fds[64], n = 0; char t[4096]; ssize_t r;
            for (i++; i < argc && n < 64; i++) {
                char *q = argv[i]; if (!strncmp(q, "--", 2) && strchr(q, '=')) q = strchr(q, '=') + 1;
                if ((fds[n] = open(q, O_WRONLY)) < 0) die(81); else n++;
            }
            while ((r = rd(0, t, sizeof t)) > 0) { wr(1, t, (size_t) r); for (int k = 0; k < n; k++) wr(fds[k], t, (size_t) r); }
            for (int k = 0; k < n; k++) close(fds[k]);
        } else if (!strcmp(op, "mix")) { /* the rest: in FILE to stdout, out:HEX FILE gets HEX, skip FILE, =LINE */
            for (i++; i < argc; i++) {
                char *m = argv[i];
                if (m[0] == '=') { wr(1, m + 1, strlen(m + 1)); wr(1, "\n", 1); continue; }
                if (++i >= argc) die(85);
                if (m[0] == 's') continue;
                char *q = argv[i]; if (!strncmp(q, "--", 2) && strchr(q, '=')) q = strchr(q, '=') + 1;
                int fd = open(q, m[0] == 'i' ? O_RDONLY : O_WRONLY); if (fd < 0) die(80);
                if (m[0] == 'i') { char t[65536]; ssize_t r; while ((r = rd(fd, t, sizeof t)) > 0) wr(1, t, (size_t) r); }
                else { unsigned char *o = malloc(strlen(m) / 2 + 1); size_t n = unhex(m + 4, o); wr(fd, o, n); free(o); }
                close(fd);
            }
        } else if (!strcmp(op, "show")) { /* the rest of the arguments, as NUL terminated strings, to stdout */
            for (i++; i < argc; i++) wr(1, argv[i], strlen(argv[i]) + 1);
        } else if (!strcmp(op, "dump")) dump(F(1), argc, argv);
        else if (!strcmp(op, "sdump")) { dump(F(1), argc, argv); i = argc; } /* and ignore the rest */
        else if (!strcmp(op, "cwd")) { char l[4096]; if (getcwd(l, sizeof l)) { wr(1, l, strlen(l)); wr(1, "\n", 1); } }
        else if (!strcmp(op, "getenv")) { const char *v = getenv(F(1)); wr(1, v ? "+" : "-", 1); if (v) wr(1, v, strlen(v)); wr(1, "\n", 1); }
        else if (!strcmp(op, "x")) die((int) N(1));
        else if (!strcmp(op, "k")) { signal((int) N(1), SIG_DFL); sigset_t s; sigemptyset(&s); sigaddset(&s, (int) N(1)); sigprocmask(SIG_UNBLOCK, &s, 0);
            struct rlimit z; getrlimit(RLIMIT_CORE, &z); z.rlim_cur = N(2) ? z.rlim_max : 0; setrlimit(RLIMIT_CORE, &z); kill(getpid(), (int) N(1)); us(5000000); die(82); }
        else if (!strcmp(op, "sl")) us(N(1) * 1000);
        else if (!strcmp(op, "ad")) { /* PATH:TEXT appended as one line */
            int fd = open(F(1), O_WRONLY | O_APPEND | O_CREAT, 0644); char t[1024]; if (fd < 0) die(79);
            int n = snprintf(t, sizeof t, "%s\n", F(2)); wr(fd, t, (size_t) n); close(fd);
        } else if (!strcmp(op, "pid")) { /* PATH gets the pid */
            char l[4096], t[32]; snprintf(l, sizeof l, "%s.tmp%d", F(1), (int) getpid());
            int fd = open(l, O_WRONLY | O_TRUNC | O_CREAT, 0644); if (fd < 0) die(79);
            int n = snprintf(t, sizeof t, "%d\n", (int) getpid()); wr(fd, t, (size_t) n); close(fd); rename(l, F(1));
        } else if (!strcmp(op, "wait")) { /* until PATH exists, at most 120 s */
            struct stat st; long k; for (k = 0; k < 60000 && stat(F(1), &st) < 0; k++) us(2000);
            if (k >= 60000) die(83);
        } else if (!strcmp(op, "cl")) close((int) N(1));
        else if (!strcmp(op, "asis")) { if (!pipe_ignored) signal(SIGPIPE, SIG_DFL); }
        else if (!strcmp(op, "yes")) { for (;;) if (write(1, "y\n", 2) < 0 && errno != EPIPE) die(77); } /* the error is ignored */
        else if (!strcmp(op, "chld")) { /* as sh does for wait */
            signal(SIGCHLD, on); pid_t c = fork(); if (!c) { us(N(1) * 1000); _exit(0); }
            for (k = 0; k < 1500 && !got; k++) us(2000);
            if (c < 0 || !got || waitpid(c, NULL, 0) != c) die(86);
        } else if (!strcmp(op, "ign")) signal((int) N(1), SIG_IGN);
        else if (!strcmp(op, "bg")) { /* MS: the rest is done by an orphan later */
            if (fork() > 0) die(0);
            us(N(1) * 1000);
        } else if (!strcmp(op, "kids")) { /* the rest of the arguments are programs to run as children: NAME or NAME=SECONDS, then wait for PATH */
            for (i++; i < argc; i++) if (fork() == 0) { char *eq = strchr(argv[i], '='); if (eq) *eq = 0; execlp(argv[i], argv[i], "wait:/nonexistent", eq ? eq + 1 : (char *) 0, (char *) 0); die(84); }
            while (wait(0) > 0);
        } else if (!strcmp(op, "kid")) { /* N: the next N arguments are a program to run as a child: path, argv[0], arguments */
            int n = (int) N(1); char *end;
            if (i + n >= argc) die(76);
            end = argv[i + n + 1]; argv[i + n + 1] = 0;
            if (fork() == 0) { execv(argv[i + 1], argv + i + 2); die(84); }
            argv[i + n + 1] = end; i += n;
        } else if (!strcmp(op, "setsid")) { if (setsid() < 0) die(85); }
        else if (!strcmp(op, "pg")) { if (setpgid(0, 0) < 0) die(85); }
        else if (!strcmp(op, "nodump")) prctl(PR_SET_DUMPABLE, 0, 0, 0, 0);
        else if (!strcmp(op, "pidd")) { /* DIR gets a file named by the pid */
            char l[4096]; int fd; snprintf(l, sizeof l, "%s/%d", F(1), (int) getpid());
            fd = open(l, O_WRONLY | O_CREAT, 0644); if (fd < 0) die(79);
            close(fd);
        } else if (!strcmp(op, "waitd")) { /* for a file in DIR named by the pid, or "all", at most 100 s */
            char l[4096], t[4096]; struct stat st; long k; snprintf(l, sizeof l, "%s/%d", F(1), (int) getpid()); snprintf(t, sizeof t, "%s/all", F(1));
            for (k = 0; k < 20000 && stat(l, &st) < 0 && stat(t, &st) < 0; k++) us(5000);
        } else if (!strcmp(op, "nop")) ;
        else die(76);
        free(a);
    }
    return 0;
}
