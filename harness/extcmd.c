//@src src/plugins_env.c
//@srcflags -Dpipe=m_pipe -Dclose=m_close -Dread=m_read -Dwrite=m_write -Dpoll=m_poll -Dfcntl=m_fcntl -Dfork=m_fork -Dsetpgid=m_setpgid -Dkill=m_kill -Dkillpg=m_killpg -Dwaitpid=m_waitpid -Dclock_gettime=m_clock -Dsigaction=m_sigaction -Dsignal=m_signal -Ddup2=m_dup2 -Dchdir=m_chdir -Dexecl=m_execl -D_exit=m__exit
//@job C43 h_x_run quick=60 workers=6 bound="commands that read all, nothing, some or stream, 5 output sizes up to 20000 bytes, texts of 1 and 9000 bytes, pipes of 4 and 64 KB, 6 endings, every interleaving of the first 4 calls, interrupted calls"
//@job C43 h_x_time quick=60 workers=4 bound="commands that hang before, during and after their output, 3 limits, every interleaving of the first 4 calls"
//@job C43 h_x_json quick=60 workers=4 bound="2 arbitrary bytes in text and 1 in the plugin's name, both phases, lengths up to 9000"
//@job C43 h_x_fail quick=60 workers=2 bound="failure of every pipe and of fork, the child's side, missing arguments, the environment variable set, empty and unset"
//@job C43 h_x_intr quick=60 workers=4 bound="one interrupted call (each of the first 40 that can be), commands that read all or stream, 4 output and 2 text sizes, with and without a limit"
#include "hl.h"
#include "kernel.h"
#include "apex/apex.h"
char *apex_run_external_plugin_command(const char *cmd, const char *dir, const char *phase, const char *id, const char *text, int timeout_ms);
char *apex_run_preparse_plugin_env(const char *text, const apex_options *o);
static char *textof(size_t n) { char *t = malloc(n + 1); for (size_t i = 0; i < n; i++) t[i] = 'a' + i % 23; t[n] = 0; return t; }
static void setup(void) { qcap = sv_choice(2) ? 65536 : 4096; sched_left = 4; }
static const char PRE[] = "{ \"version\": 1, \"plugin_id\": \"id\", \"phase\": \"pre_parse\", \"text\": \"";
void h_x_run(void) { static const size_t ON[] = {1, 4096, 8191, 8192, 20000}; setup(); K.mode = sv_choice(4); int on = sv_choice(6), tn = sv_choice(2), e = sv_choice(4); K.outn = on == 5 ? 0 : ON[on]; K.out = textof(K.outn); if (e == 1) K.code = 1; if (e == 2) K.sig = SIGSEGV; if (e == 3) K.mode = NOEXEC; eintr_left = sv_choice(2) * 2; char *t = textof(tn ? 9000 : 1);
  char *r = apex_run_external_plugin_command("cmd", 0, "pre_parse", "id", t, sv_choice(2) * 1000); settled();
  if (e || !K.outn) sv_assert(!r, "a command that fails or prints nothing changes nothing"); else expect_str(r, K.out, "the command's output becomes the text");
  B w = {0}; b_lit(&w, PRE); b_lit(&w, t); b_lit(&w, "\" }\n"); if (K.mode == READALL || K.mode == STREAM) { sv_assert(K.in.n == w.n || (e == 2 && 0), "the command gets all of its input"); } if (K.in.n) { sv_assert(K.in.n <= w.n, "the command gets its input"); sv_assert_mem_eq(K.in.p, w.p, K.in.n, "the command gets its input"); } free(r); sv_cover("run"); }
void h_x_time(void) { static const int T[] = {1, 50, 61000}; setup(); K.mode = HANG + sv_choice(3); K.outn = sv_choice(2) ? 5000 : 3; K.out = textof(K.outn); int lim = T[sv_choice(3)]; if (lim > 100 && K.mode == LINGER) lim = 200; char *t = textof(sv_choice(2) ? 9000 : 1); long long t0 = now_ms; char *r = apex_run_external_plugin_command("cmd", 0, "post_render", "id", t, lim); settled(); sv_assert(!r, "a command that takes too long changes nothing"); sv_assert(now_ms - t0 <= lim + 100, "a command is not waited for longer than its limit"); sv_assert(K.exited, "a command that takes too long is ended"); sv_cover("time"); }
static const char *js; static int jbad; static void jw(const char *s) { for (; *s; s++) { while (*js == ' ' && *s != ' ') js++; if (*js++ != *s) { jbad = 1; return; } } }
static void jlit(const char *s) { size_t n = strlen(s); if (strncmp(js, s, n)) jbad = 1; else js += n; }
static char *jstr(void) { B b = {0}; b_lit(&b, ""); while (*js == ' ') js++; if (*js++ != '"') { jbad = 1; return b.p; } for (; *js != '"'; js++) { if ((unsigned char)*js < 32) { jbad = 1; return b.p; } if (*js != '\\') { b_c(&b, *js); continue; } js++; switch (*js) { case '"': case '\\': case '/': b_c(&b, *js); break; case 'n': b_c(&b, '\n'); break; case 't': b_c(&b, '\t'); break; case 'r': b_c(&b, '\r'); break; case 'b': b_c(&b, '\b'); break; case 'f': b_c(&b, '\f'); break; case 'u': { unsigned c = 0; for (int i = 1; i <= 4; i++) { char h = js[i]; if (!((h >= '0' && h <= '9') || ((h | 32) >= 'a' && (h | 32) <= 'f'))) { jbad = 1; return b.p; } c = c * 16 + (h <= '9' ? h - '0' : (h | 32) - 'a' + 10); } js += 4; if (c > 127) jbad = 1; b_c(&b, c); break; } default: jbad = 1; return b.p; } } js++; return b.p; }
void h_x_json(void) { B t = {0}, i = {0}; static const size_t L[] = {0, 1, 4000, 9000}; size_t n = L[sv_choice(4)]; if (sv_choice(2)) { b_fill(&t, 'y', n); b_not(&t, n ? 1 : 2, ""); b_lit(&t, "z"); b_lit(&i, "id"); } else { b_fill(&t, '\n', n); b_lit(&t, "t"); b_lit(&i, "a"); b_not(&i, 1, ""); b_lit(&i, "b"); } K.mode = READALL; K.out = "x"; K.outn = 1; int ph = sv_choice(2); qcap = 65536; char *tx = b_done(&t), *id = b_done(&i); char *r = apex_run_external_plugin_command("cmd", 0, ph ? "pre_parse" : "post_render", id, tx, 0); settled(); expect_str(r, "x", "the command's output becomes the text"); if (!K.in.p) { sv_fail("the command gets its input"); return; }
  js = K.in.p; jbad = 0; char *v[3] = {0}; int ver = 0; jw("{"); for (int k = 0; k < 4 && !jbad; k++) { char *key = jstr(); jw(":"); if (!strcmp(key, "version")) { jw("1"); ver = 1; } else { int s = !strcmp(key, "plugin_id") ? 0 : !strcmp(key, "phase") ? 1 : !strcmp(key, "text") ? 2 : -1; if (s < 0) { jbad = 1; break; } v[s] = jstr(); } if (k < 3) jw(","); } jw("}"); while (*js == '\n' || *js == ' ') js++; sv_assert(!jbad && !*js && ver && v[0] && v[1] && v[2], "the command's input is the documented JSON object"); if (jbad || !v[2]) return; expect_str(v[0], id, "the command's input names the plugin"); expect_str(v[1], ph ? "pre_parse" : "post_render", "the command's input names the phase"); expect_str(v[2], tx, "the command's input holds the text"); sv_cover("json"); (void)jlit; }
void h_x_fail(void) { int k = sv_choice(6); K.mode = READALL; K.out = "x"; K.outn = 1; want_cmd = "cmd"; char *r; switch (k) { case 0: fail_pipe = sv_choice(2); r = apex_run_external_plugin_command("cmd", 0, "pre_parse", "id", "t", 0); settled(); sv_assert(!r, "no change"); break; case 1: fail_fork = 1; r = apex_run_external_plugin_command("cmd", 0, "pre_parse", "id", "t", 0); settled(); sv_assert(!r, "no change"); break; case 2: as_child = 1; if (sv_choice(2)) { want_dir = "p/d"; cd_fail = sv_choice(2); } sv_cover("fail"); apex_run_external_plugin_command("cmd", want_dir, "pre_parse", "id", "t", sv_choice(2) * 9); sv_fail("the command is run"); return; case 3: { int q = sv_choice(3); r = apex_run_external_plugin_command(q == 0 ? 0 : q == 1 ? "" : "cmd", 0, "pre_parse", "id", q == 2 ? 0 : "t", 0); settled(); sv_assert(!r && !forked, "nothing to run"); break; } case 4: { apex_options o; memset(&o, 0, sizeof o); int q = sv_choice(2); if (q) setenv("APEX_PRE_PARSE_PLUGIN", "", 1); else unsetenv("APEX_PRE_PARSE_PLUGIN"); r = apex_run_preparse_plugin_env("t", &o); settled(); sv_assert(!r && !forked, "nothing to run"); break; } default: { apex_options o; memset(&o, 0, sizeof o); setenv("APEX_PRE_PARSE_PLUGIN", "cmd", 1); r = apex_run_preparse_plugin_env("t", &o); settled(); expect_str(r, "x", "the command's output becomes the text"); } } sv_cover("fail"); }
void h_x_intr(void) { static const size_t ON[] = {1, 4096, 8192, 20000}; qcap = sv_choice(2) ? 65536 : 4096; K.mode = sv_choice(2) ? READALL : STREAM; K.outn = ON[sv_choice(4)]; K.out = textof(K.outn); eintr_at = 1 + sv_choice(40); char *t = textof(sv_choice(2) ? 9000 : 1); sched_left = 1; char *r = apex_run_external_plugin_command("cmd", 0, "pre_parse", "id", t, sv_choice(2) * 1000); settled(); expect_str(r, K.out, "an interrupted call changes nothing"); B w = {0}; b_lit(&w, PRE); b_lit(&w, t); b_lit(&w, "\" }\n"); sv_assert(K.in.n == w.n, "the command gets all of its input"); if (K.in.n == w.n) sv_assert_mem_eq(K.in.p, w.p, w.n, "the command gets its input"); free(r); sv_cover("interrupted"); }
