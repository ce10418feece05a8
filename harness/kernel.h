/* A stand-in for the kernel calls through which a command is run: pipes of one page or 64 KB, a command
 * (the child) that is an automaton, and every interleaving of the two within the schedule bound. */
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <stdarg.h>
enum { READALL, IGNORE, PARTIAL, STREAM, HANG, HANGW, LINGER, NOEXEC };
static struct { int pipe[16], open[16], nb[16]; } F; static struct { char *b; size_t n; int w, r; } Q[4]; static int nq;
static int sched_left, eintr_left, sp_ignored, forked, groups, as_child, fail_pipe = -1, fail_fork; static long long now_ms; static size_t qcap = 4096;
static struct { int mode, phase, code, sig, exited, reaped, in_open, out_open; size_t pos; B in; char *out; size_t outn; char *(*fn)(const char *); int inq, outq, t; } K;
#define PID 4242
static const char M_DEAD[] = "the program and the command never wait for each other";
static void quit(int sig, int code) { K.exited = 1; K.sig = sig; K.code = code; if (K.in_open) Q[K.inq].r--; if (K.out_open) Q[K.outq].w--; K.in_open = K.out_open = 0; }
/* one action of the command; 0 if it is blocked */
static int child(void) {
  if (!forked || K.exited) return 0; K.t++;
  if (K.mode == NOEXEC) { quit(0, 127); return 1; }
  size_t av = Q[K.inq].n, room = qcap - Q[K.outq].n; int eof = !av && !Q[K.inq].w;
  if (K.phase == 0) {
    if (K.mode == IGNORE) { K.phase = 1; return 1; }
    if (av) { size_t k = K.mode == STREAM ? (av < 900 ? av : 900) : K.mode == PARTIAL ? 1 : av; b_mem(&K.in, Q[K.inq].b, k); memmove(Q[K.inq].b, Q[K.inq].b + k, av - k); Q[K.inq].n -= k; K.phase = K.mode == PARTIAL ? 1 : K.mode == STREAM && K.pos < K.outn ? 3 : 0; return 1; }
    if (!eof) return 0;
    if (K.mode == HANG) return 0;
    K.phase = 1; return 1; }
  if (K.fn && !K.out) { if (!K.in.p) b_lit(&K.in, ""); K.out = K.fn(K.in.p); K.outn = strlen(K.out); }
  if (K.pos < K.outn && K.out_open) { if (!Q[K.outq].r) { quit(SIGPIPE, 0); return 1; } if (!room) return 0; size_t k = K.outn - K.pos; if (k > room) k = room; if (K.phase == 3 && k > 1300) k = 1300; memcpy(Q[K.outq].b + Q[K.outq].n, K.out + K.pos, k); Q[K.outq].n += k; K.pos += k; if (K.phase == 3) K.phase = 0; return 1; }
  if (K.phase == 3) { K.phase = 0; return 1; }
  if (K.mode == HANGW) return 0;
  if (K.phase == 1) { K.phase = 2; if (K.out_open) { Q[K.outq].w--; K.out_open = 0; } return 1; }
  if (K.mode == LINGER) return 0;
  quit(K.sig, K.code); return 1; }
static void run_on(void) { int n = 0; while (child()) if (++n > 400) break; }
/* called on entry of every call of the program: the command runs not at all, one action, or as far as it can */
static void sched(void) { if (!forked || K.exited) return; if (sched_left > 0) { sched_left--; int c = sv_choice(3); if (c == 1) child(); else if (c == 2) run_on(); } else child(); }
static int eintr_at, cd_fail; /* the how-manieth call that can be is interrupted (0: none) */
static int intr(void) { if (eintr_at && !--eintr_at) { errno = EINTR; return 1; } if (eintr_left > 0) { eintr_left--; if (sv_choice(2)) { errno = EINTR; return 1; } } return 0; }
static int fd_new(int q) { for (int f = 3; f < 16; f++) if (!F.open[f]) { F.open[f] = 1; F.pipe[f] = q; F.nb[f] = 0; return f; } abort(); }
static void next_run(void) { memset(&F, 0, sizeof F); nq = 0; forked = groups = 0; memset(&K, 0, sizeof K); }
static void settled(void); static void (*on_fork)(void); static void (*on_next)(void); /* a further command starts */
int m_pipe(int p[2]) { if (nq == 2 && on_next) { settled(); next_run(); on_next(); } if (nq == fail_pipe) { errno = EMFILE; return -1; } Q[nq].b = malloc(65536); Q[nq].n = 0; Q[nq].r = Q[nq].w = 1; p[0] = fd_new(nq | 16); p[1] = fd_new(nq); nq++; return 0; }
int m_close(int f) { if (as_child) { if (f < 3 || f > 15 || !F.open[f]) return -1; F.open[f] = 0; return 0; } sched(); sv_assert(f >= 3 && f < 16 && F.open[f], "only open descriptors are closed"); F.open[f] = 0; if (F.pipe[f] & 16) Q[F.pipe[f] & 15].r--; else Q[F.pipe[f]].w--; return 0; }
static int ckfd(int f, int rd) { int ok = f >= 3 && f < 16 && F.open[f] && !!(F.pipe[f] & 16) == rd; sv_assert(ok, "input goes to the command, output comes from it"); return F.pipe[f] & 15; }
ssize_t m_read(int f, void *p, size_t n) { sched(); int q = ckfd(f, 1); if (intr()) return -1; while (!Q[q].n && Q[q].w) { if (F.nb[f]) { errno = EAGAIN; return -1; } if (!child()) { sv_fail(M_DEAD); return -1; } } size_t k = Q[q].n < n ? Q[q].n : n; memcpy(p, Q[q].b, k); memmove(Q[q].b, Q[q].b + k, Q[q].n - k); Q[q].n -= k; return (ssize_t)k; }
ssize_t m_write(int f, const void *p, size_t n) { sched(); int q = ckfd(f, 0); if (intr()) return -1; size_t d = 0; for (;;) { if (!Q[q].r) { sv_assert(sp_ignored, "a command that does not read its input does not end the program"); errno = EPIPE; return d ? (ssize_t)d : -1; } size_t room = qcap - Q[q].n, k = n - d; if (k > room) { if (F.nb[f] && (!room || k <= 4096)) { errno = EAGAIN; return d ? (ssize_t)d : -1; } k = room; } memcpy(Q[q].b + Q[q].n, (const char *)p + d, k); Q[q].n += k; d += k; if (d == n || F.nb[f]) return (ssize_t)d; if (!child()) { sv_fail(M_DEAD); return -1; } } }
int m_poll(struct pollfd *p, nfds_t n, int tmo) { sched(); if (n == 0) { now_ms += tmo; return 0; } if (intr()) return -1; for (;;) { int r = 0; for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; int f = p[i].fd; if (f < 0) continue; if (f >= 16 || !F.open[f]) { p[i].revents = POLLNVAL; r++; continue; } int q = F.pipe[f] & 15; if (F.pipe[f] & 16) { if (Q[q].n && p[i].events & POLLIN) p[i].revents |= POLLIN; if (!Q[q].w) p[i].revents |= POLLHUP; } else { if (qcap - Q[q].n >= 4096 && p[i].events & POLLOUT) p[i].revents |= POLLOUT; if (!Q[q].r) p[i].revents |= POLLERR; } if (p[i].revents) r++; } if (r) return r; if (!child()) { if (tmo < 0) { sv_fail(M_DEAD); return -1; } now_ms += tmo; return 0; } } }
int m_fcntl(int f, int c, ...) { va_list a; va_start(a, c); int v = va_arg(a, int); va_end(a); if (c == F_SETFL) F.nb[f] = !!(v & O_NONBLOCK); return c == F_GETFL && F.nb[f] ? O_NONBLOCK : 0; }
pid_t m_fork(void) { if (fail_fork) { errno = EAGAIN; return -1; } if (as_child) return 0; if (on_fork) on_fork(); forked = 1; K.in_open = K.out_open = 1; K.inq = 0; K.outq = 1; Q[0].r++; Q[1].w++; return PID; }
int m_setpgid(pid_t p, pid_t g) { (void)g; if (as_child) return 0; if (p == PID) groups = 1; return 0; }
int m_kill(pid_t p, int s) { sched(); sv_assert(p == PID || p == -PID, "only the command is killed"); if (p == -PID && !groups) { errno = ESRCH; return -1; } if (!K.exited && s == SIGKILL) quit(SIGKILL, 0); return 0; }
int m_killpg(pid_t p, int s) { return m_kill(-p, s); }
pid_t m_waitpid(pid_t p, int *st, int o) { sched(); sv_assert(p == PID || p == -1, "the command is waited for"); if (K.reaped) { errno = ECHILD; return -1; } if (!K.exited && o & WNOHANG) return 0; if (intr()) return -1; while (!K.exited) if (!child()) { sv_fail(M_DEAD); return -1; } K.reaped = 1; if (st) *st = K.sig ? K.sig : K.code << 8; return PID; }
int m_clock(clockid_t c, struct timespec *t) { (void)c; sched(); now_ms++; t->tv_sec = 100 + now_ms / 1000; t->tv_nsec = now_ms % 1000 * 1000000; return 0; }
int m_sigaction(int s, const struct sigaction *n, struct sigaction *o) { if (o) { memset(o, 0, sizeof *o); o->sa_handler = s == SIGPIPE && sp_ignored ? SIG_IGN : SIG_DFL; } if (n && s == SIGPIPE) sp_ignored = n->sa_handler == SIG_IGN; return 0; }
typedef void (*sh_t)(int); sh_t m_signal(int s, sh_t h) { sh_t o = s == SIGPIPE && sp_ignored ? SIG_IGN : SIG_DFL; if (s == SIGPIPE) sp_ignored = h == SIG_IGN; return o; }
static int dup_in = -1, dup_out = -1; static const char *cd_to; static const char *want_cmd, *want_dir;
int m_dup2(int a, int b) { if (b == 0) dup_in = F.pipe[a]; if (b == 1) dup_out = F.pipe[a]; return b; }
int m_chdir(const char *p) { cd_to = p; if (cd_fail) { errno = ENOENT; return -1; } return 0; }
int m_execl(const char *p, const char *a0, ...) { va_list a; va_start(a, a0); const char *x = va_arg(a, const char *), *c = va_arg(a, const char *), *e = va_arg(a, const char *); va_end(a); (void)a0; if (cd_fail) { sv_fail("a command runs in the plugin's directory or not at all"); sv_assume(0); }
  sv_assert(!strcmp(p, "/bin/sh") && !strcmp(x, "-c") && !strcmp(c, want_cmd) && !e, "the command is run by the shell"); sv_assert(dup_in == 16 && dup_out == 1, "the command reads the program's input and writes its output"); int ok = want_dir ? cd_to && !strcmp(cd_to, want_dir) : !cd_to; sv_assert(ok, "the command runs in the plugin's directory"); for (int i = 3; i < 16; i++) sv_assert(!F.open[i], "the command does not hold the pipes"); sv_cover("exec"); sv_assume(0); return -1; }
void m__exit(int c) { if (!cd_fail) sv_fail("the command is run"); else sv_assert(c != 0, "a command that cannot be started counts as failed"); sv_assume(0); }
static void settled(void) { for (int i = 3; i < 16; i++) sv_assert(!F.open[i], "every descriptor is closed"); sv_assert(!forked || K.reaped, "the command is waited for"); sv_assert(!sp_ignored, "signal handling is restored"); }
