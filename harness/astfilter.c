//@src src/filters_ast.c src/plugins_env.c src/ast_json.c @model/cmark.c
//@srcflags -Dpipe=m_pipe -Dclose=m_close -Dread=m_read -Dwrite=m_write -Dpoll=m_poll -Dfcntl=m_fcntl -Dfork=m_fork -Dsetpgid=m_setpgid -Dkill=m_kill -Dkillpg=m_killpg -Dwaitpid=m_waitpid -Dclock_gettime=m_clock -Dsigaction=m_sigaction -Dsignal=m_signal -Ddup2=m_dup2 -Dchdir=m_chdir -Dexecl=m_execl -D_exit=m__exit
//@job C43 h_f_run quick=60 workers=6 bound="1..3 filters (with an empty or missing command anywhere in lists of up to 2), each of 8 outcomes (unchanged, appended, replaced, emptied, garbage, cut off, failing, silent), strict and not, 4 ways to read and write, documents of 1 and (for 1..2 filters) 6000 bytes"
#include "hl.h"
#include <cmark-gfm.h>
#include "kernel.h"
#include "apex/apex.h"
#include "filters_ast.h"
static int out[3], nf, at, big; static const char *FMT;
static char *f_same(const char *in) { return strdup(in); }
static char *f_app(const char *in) { size_t n = strlen(in); while (n && in[n - 1] != ']') n--; B b = {0}; if (n) b_mem(&b, in, n - 1); b_lit(&b, ",{\"t\":\"HorizontalRule\"}]}"); return b.p; }
static char *f_new(const char *in) { (void)in; return strdup("{\"blocks\":[{\"t\":\"Para\",\"c\":[{\"t\":\"Str\",\"c\":\"N\"}]}]}"); }
static char *f_empty(const char *in) { (void)in; return strdup("{\"meta\":{},\"blocks\":[]}"); }
static char *f_bad(const char *in) { (void)in; return strdup("Traceback: no"); }
static char *f_cut(const char *in) { char *r = strdup(in); size_t n = strlen(r); r[n / 2] = 0; return r; }
static char *f_nil(const char *in) { (void)in; return strdup(""); }
static void start(void) { static char *(*const G[])(const char *) = {f_same, f_app, f_new, f_empty, f_bad, f_cut, f_same, f_nil}; if (at >= nf) { sv_fail("every filter is run once"); return; } K.mode = READALL; K.fn = G[out[at]]; if (out[at] == 6) K.code = 3; at++; sched_left = nf < 3; }
static void env(void) { const char *e = getenv("APEX_TARGET_FORMAT"); if (!e || strcmp(e, FMT)) sv_fail("a filter is told the output format"); }
static void ser(B *o, cmark_node *n) { int t = cmark_node_get_type(n); if (t == CMARK_NODE_TEXT) { b_c(o, '"'); b_lit(o, cmark_node_get_literal(n)); return; } b_c(o, t == CMARK_NODE_DOCUMENT ? 'D' : t == CMARK_NODE_PARAGRAPH ? 'P' : t == CMARK_NODE_THEMATIC_BREAK ? 'R' : '?'); b_c(o, '('); for (cmark_node *c = cmark_node_first_child(n); c; c = cmark_node_next(c)) ser(o, c); b_c(o, ')'); }
void h_f_run(void) { nf = 1 + sv_choice(3); for (int i = 0; i < nf; i++) out[i] = sv_choice(8); qcap = sv_choice(2) ? 65536 : 4096; big = nf < 3 ? sv_choice(2) : 0; int strict = sv_choice(2); static char *cmds[3] = {"one", "two", "three"}; apex_options o; memset(&o, 0, sizeof o); char *list[4]; int bl = nf < 3 ? sv_choice(nf + 2) : nf + 1, ln = 0; for (int i = 0; i <= nf; i++) { if (i == bl) list[ln++] = strict ? "" : 0; if (i < nf) list[ln++] = cmds[i]; } o.ast_filter_commands = (const char **)list; o.ast_filter_count = ln; o.ast_filter_strict = strict; FMT = strict ? "html" : "markdown";
  B t = {0}, w = {0}; b_fill(&t, 'q', big ? 6000 : 1); cmark_node *d = cmark_node_new(CMARK_NODE_DOCUMENT), *p = cmark_node_new(CMARK_NODE_PARAGRAPH), *x = cmark_node_new(CMARK_NODE_TEXT); cmark_node_set_literal(x, t.p); cmark_node_append_child(p, x); cmark_node_append_child(d, p);
  /* reference: what the document becomes */ b_lit(&w, "P(\""); b_lit(&w, t.p); b_c(&w, ')'); int dead = 0, ran = 0; for (int i = 0; i < nf && !dead; i++) { ran++; switch (out[i]) { case 1: b_lit(&w, "R()"); break; case 2: w.n = 0; b_lit(&w, "P(\"N)"); break; case 4: case 5: case 6: case 7: dead = strict; } }
  on_next = start; on_fork = env; if (sv_choice(2)) setenv("APEX_TARGET_FORMAT", "latex", 1); else unsetenv("APEX_TARGET_FORMAT"); start(); /* the first command */
  cmark_node *r = apex_run_ast_filters(d, &o, FMT); settled(); (void)ran; { B g = {0}, e = {0}; ser(&g, d); b_lit(&e, "D(P(\""); b_lit(&e, t.p); b_lit(&e, "))"); expect_str(g.p, e.p, "the given document stays the caller's"); }
  if (dead) { sv_assert(!r, "a failing filter ends the conversion"); sv_assert(at == ran, "no filter runs after a failure"); } else { if (!r) { sv_fail("the filters' result is the document"); return; } sv_assert(at == nf, "every filter is run once"); B g = {0}, e = {0}; ser(&g, r); b_lit(&e, "D("); b_lit(&e, w.p); b_c(&e, ')'); expect_str(g.p, e.p, "the filters' result is the document"); } sv_cover("filters"); }
