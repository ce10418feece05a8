//@src src/extensions/syntax_highlight.c src/plugins_env.c
//@srcflags -Dpipe=m_pipe -Dclose=m_close -Dread=m_read -Dwrite=m_write -Dpoll=m_poll -Dfcntl=m_fcntl -Dfork=m_fork -Dsetpgid=m_setpgid -Dkill=m_kill -Dkillpg=m_killpg -Dwaitpid=m_waitpid -Dclock_gettime=m_clock -Dsigaction=m_sigaction -Dsignal=m_signal -Ddup2=m_dup2 -Dchdir=m_chdir -Dexecl=m_x_execl -D_exit=m__exit -Dsystem=m_system -Dopen=m_open
//@job C46 h_s_cmd quick=90 workers=6 bound="3 tools, line numbers, terminal output, 4 places of the language, languages with 2 arbitrary characters or 5 character references, of 63 bytes, or of 64 to 66 (given in full or not at all)"
//@job C46 h_s_doc quick=90 workers=6 bound="3 consecutive pieces out of 16 (code blocks with and without a language, look-alikes, cut-off blocks), 4 outcomes of the tool per block, language-only on and off"
//@job C46 h_s_code quick=60 workers=4 bound="code of 3 characters, each an arbitrary byte or one of 10 references and look-alikes; texts of 9000 bytes, tools that read nothing, some or stream, pipes of 4 KB, interleavings of the first 3 calls"
//@job C46 h_s_grow quick=60 workers=4 bound="1..4 blocks of 1..3000 bytes whose highlighted form has 0, 1, 700, 2047 or 6000 bytes, text of 0, 1 or 2000 bytes between"
//@job C46 h_s_off quick=60 workers=4 bound="the tool absent or unknown, no HTML, arbitrary text of 3 bytes around a block"
#include "hl.h"
#include "kernel.h"
#include "syntax_highlight.h"
static int present = 1, runs, want_runs; static const char *BIN;
/* the shell's reading of a command: words, or bad for anything else than a plain command */
static char *W[24]; static int nw, bad;
static void split(const char *c) { nw = bad = 0; int in = 0; B w = {0}; b_lit(&w, ""); for (;; c++) { char x = *c;
    if (!x || x == ' ' || x == '\t') { if (in) { W[nw++] = w.p; in = 0; memset(&w, 0, sizeof w); b_lit(&w, ""); if (nw > 20) { bad = 1; return; } } if (!x) break; continue; }
    if (!in && !strncmp(c, "2>/dev/null", 11) && (!c[11] || c[11] == ' ')) { c += 10; continue; }
    in = 1;
    if (x == '\'') { for (c++; *c != '\''; c++) { if (!*c) { bad = 1; return; } b_c(&w, *c); } }
    else if (x == '"') { for (c++; *c != '"'; c++) { if (!*c || *c == '$' || *c == '`') { bad = 1; return; } if (*c == '\\' && (c[1] == '\\' || c[1] == '"' || c[1] == '$' || c[1] == '`')) c++; b_c(&w, *c); } }
    else if (x == '\\') { c++; if (!*c || *c == '\n') { bad = 1; return; } b_c(&w, *c); }
    else { if (strchr("|&;<>()$`*?[#~!{}\n\r\v\f", x)) { bad = 1; return; } b_c(&w, x); } } }
int m_open(const char *p, int fl, ...) { (void)fl; sv_assert(!strcmp(p, "/dev/null"), "only the null device is opened"); F.open[15] = 1; F.pipe[15] = 3; return 15; }
int m_system(const char *c) { split(c); /* only a question whether the tool is there */ sv_assert(strstr(c, BIN) && (!strncmp(c, "which ", 6) || !strncmp(c, "command -v ", 11)), "only the tool's presence is asked for"); return present ? 0 : 256; }
static const char *tool, *lang; static int lineno, ansi, lang_opt;
static void args(void) { sv_assert(!bad, "nothing of the document is executed"); if (bad) return; sv_assert(nw && !strcmp(W[0], BIN), "the tool is run"); if (!nw) return; int t = tool[0] == 'p' ? 0 : tool[1] == 'k' ? 1 : 2;
  if (lang_opt) { int has = 0; for (int i = 1; i < nw; i++) has |= !strcmp(W[i], lang); if (!has) lang = 0; }
  const char *E[5][2]; int n = 0, seen = 0; E[n][0] = 0; if (lang) { E[n][0] = t == 0 ? "-l" : t == 1 ? "--syntax" : "--lang"; E[n++][1] = lang; } else if (t == 0) { E[n][0] = "-g"; E[n++][1] = 0; }
  E[n][0] = t == 2 ? "--format" : "-f"; E[n++][1] = t == 2 && ansi ? "ansi" : "html"; if (t == 1) { E[n][0] = "-r"; E[n++][1] = 0; } if (lineno && t == 0) { E[n][0] = "-O"; E[n++][1] = "linenos=1"; } if (lineno && t == 1) { E[n][0] = "-n"; E[n++][1] = 0; }
  for (int i = 1; i < nw; i++) { int k; for (k = 0; k < n; k++) if (!strcmp(W[i], E[k][0])) break; if (k == n || seen >> k & 1) { sv_fail("the tool gets the options for this block"); return; } seen |= 1 << k; if (E[k][1]) { i++; if (i >= nw) { sv_fail("the tool gets the options for this block"); return; } if (!lang || E[k][1] != lang) sv_assert(!strcmp(W[i], E[k][1]), "the tool gets the options for this block"); else expect_str(W[i], lang, "the tool gets the block's language as one argument"); } }
  sv_assert(seen == (1 << n) - 1, "the tool gets the options for this block"); }
int m_x_execl(const char *p, const char *a0, ...) { va_list a; va_start(a, a0); const char *x = va_arg(a, const char *), *c = va_arg(a, const char *), *e = va_arg(a, const char *); va_end(a); (void)a0; sv_assert(!strcmp(p, "/bin/sh") && !strcmp(x, "-c") && !e, "the command is run by the shell"); sv_assert(dup_in == 16 && dup_out == 1, "the tool reads the code and writes its output"); for (int i = 3; i < 16; i++) sv_assert(!F.open[i], "the command does not hold the pipes"); split(c); args(); sv_cover("exec"); sv_assume(0); return -1; }
static const char *const T[] = {"pygments", "skylighting", "shiki"}, *const BI[] = {"pygmentize", "skylighting", "shiki"};
static void pick(int t) { tool = T[t]; BIN = BI[t]; }
void h_s_cmd(void) { pick(sv_choice(3)); lineno = sv_choice(2); ansi = sv_choice(2); int form = sv_choice(4), only = sv_choice(2), k = sv_choice(10); B h = {0}, L = {0}, l = {0};
  if (form == 3) k = 0; /* none */
  else if (k == 9) { sv_assume(!only && form != 1); lang_opt = 1; b_fill(&l, 'l', 64 + sv_choice(3)); b_lit(&L, l.p); } else if (k == 8) b_fill(&l, 'l', 63), b_lit(&L, l.p); else if (k >= 2 && k < 8) { static const char *const R[][2] = {{"&lt;", "<"}, {"&gt;", ">"}, {"&amp;", "&"}, {"&quot;", "\""}, {"&#39;", "'"}, {"&amp;lt;", "&lt;"}}; b_lit(&L, "a"); b_lit(&l, "a"); b_lit(&L, R[k - 2][0]); b_lit(&l, R[k - 2][1]); b_lit(&L, "b"); b_lit(&l, "b"); } else { char c[2]; sv_sym(c, 2); sv_exclude_(c, 2, "\0\"&<>", 5); if (form == 2) sv_exclude_(c, 2, " ", 1); if (k) { b_lit(&L, "x"); b_lit(&l, "x"); } b_mem(&L, c, 2); b_mem(&l, c, 2); if (k) { b_lit(&L, "y"); b_lit(&l, "y"); } }
  switch (form) { case 0: b_lit(&h, "<pre lang=\""); b_lit(&h, L.p); b_lit(&h, "\"><code>"); break; case 1: b_lit(&h, "<pre class=\"k\" lang=\""); b_lit(&h, L.p); b_lit(&h, "\">\n<code class=\"language-no\">"); break; case 2: b_lit(&h, "<pre><code class=\"q language-"); b_lit(&h, L.p); b_lit(&h, sv_choice(2) ? "\">" : " w\">"); break; default: b_lit(&h, "<pre><code>"); }
  b_lit(&h, "c\n</code></pre>"); lang = form == 3 ? 0 : l.p; as_child = 1; char *r = apex_apply_syntax_highlighting(h.p, tool, lineno, form == 3 ? 0 : only, ansi); (void)r; sv_fail("the tool is run for the block"); }
/* blocks one after the other */
static struct { const char *code; int out; char *res; } RUN[8]; static int nr, at;
static char *res(const char *in) { expect_str(in, RUN[at - 1].code, "the tool gets the block's code, all of it and nothing else"); return strdup(RUN[at - 1].res); }
static void start(void) { if (at >= nr) { sv_fail("only code blocks are given to the tool"); return; } K.mode = READALL; K.fn = res; if (RUN[at].out == 1) K.code = 1; if (RUN[at].out == 2) K.sig = SIGSEGV; at++; sched_left = 0; }
static int started; static void forked_one(void) { started++; }
static void nxt(void) { start(); }
static void given(void) { on_next = nxt; on_fork = forked_one; if (nr) start(); }
static const struct { const char *h; const char *code; int lang; } P[] = {
  {"<pre lang=\"c\"><code>int a;\n</code></pre>", "int a;\n", 1}, {"<pre><code class=\"language-js\">a &lt; b &amp;&amp; c\n</code></pre>", "a < b && c\n", 1}, {"<pre><code>plain\n</code></pre>", "plain\n", 0}, {"<pre>\n<code class=\"z\">q</code></pre>", "q", 0}, {"<p>text</p>\n", 0, 0}, {"<pre>no code</pre>", 0, 0}, {"<prefix><code>x</code></prefix>", 0, 0}, {"<pre><codex>", 0, 0}, {"<p><code>inline</code></p>", 0, 0},
  {"<pre lang=\"a\"><code>cut</code> </pre>", 0, 0}, {"<pre class=\"lang\"><code>k</code></pre>", "k", 0}, {"<pre><code></code></pre>", "", 0}, {"<pre><code class=\"lang\">u</code></pre><a class=\"language-no\">v</a>", "u", 0}, {"<pre", 0, -1}, {"<pre><code", 0, -1}, {"<pre lang=\"b\"><code>open", 0, -1} };
void h_s_doc(void) { pick(sv_choice(3)); int only = sv_choice(2); B h = {0}, w = {0}; b_lit(&w, ""); for (int i = 0; i < 3; i++) { int k = sv_choice(i == 2 ? 16 : 13); b_lit(&h, P[k].h); int run = P[k].code && (P[k].lang || !only); if (run) { int o = i == 2 ? sv_choice(4) : sv_choice(2) ? 0 : (i ? 3 : 1); RUN[nr].code = P[k].code; RUN[nr].out = o; RUN[nr].res = o == 3 ? "" : i == 0 ? "<A/>" : i == 1 ? "<div>&lt;B</div>\n" : "C"; if (!o) { const char *e = strstr(P[k].h, "</pre>") + 6; b_lit(&w, RUN[nr].res); b_lit(&w, e); } else b_lit(&w, P[k].h); nr++; } else b_lit(&w, P[k].h); }
  given(); char *r = apex_apply_syntax_highlighting(h.p, tool, 0, only, 0); settled(); sv_assert(at == nr && started == nr, "every code block is given to the tool once"); expect_str(r, w.p, "highlighted blocks replace the code, everything else stays"); sv_cover("doc"); free(r); }
static const char *const CE[][2] = {{"&lt;", "<"}, {"&gt;", ">"}, {"&amp;", "&"}, {"&quot;", "\""}, {"&#39;", "'"}, {"&apos;", "'"}, {"&amp;lt;", "&lt;"}, {"&lt", "&lt"}, {"&#x3c;", "&#x3c;"}, {"&amp;amp;", "&amp;"}};
void h_s_code(void) { pick(sv_choice(3)); B h = {0}, c = {0}; b_lit(&c, ""); b_lit(&h, "A<pre lang=\"c\"><code>"); int big = sv_choice(4);
  if (big) { b_fill(&h, 'k', 9000); b_fill(&c, 'k', 9000); } else for (int i = 0; i < 3; i++) { int k = sv_choice(11); if (k == 10) { char x[1]; sv_sym(x, 1); sv_exclude_(x, 1, "\0&<;", 4); b_mem(&h, x, 1); b_mem(&c, x, 1); } else { b_lit(&h, CE[k][0]); b_lit(&c, CE[k][1]); if (k == 7) { b_lit(&h, "-"); b_lit(&c, "-"); } } }
  b_lit(&h, "</code></pre>Z"); K.mode = big == 1 ? IGNORE : big == 2 ? PARTIAL : big == 3 ? STREAM : READALL; size_t on = big ? (sv_choice(2) ? 20000 : 9) : 1; char *o = malloc(on + 1); memset(o, 'o', on); o[on] = 0; K.out = o; K.outn = on; sched_left = big ? 3 : 0;
  char *r = apex_apply_syntax_highlighting(h.p, tool, 0, 1, 0); settled(); B w = {0}; b_lit(&w, "A"); b_lit(&w, o); b_lit(&w, "Z"); expect_str(r, w.p, "highlighted blocks replace the code, everything else stays"); if (big != 1 && big != 2) expect_str(K.in.p ? K.in.p : "", c.p, "the tool gets the block's code, all of it and nothing else"); sv_cover("code"); free(r); }
void h_s_grow(void) { static const int S[] = {0, 1, 2000}, C[] = {1, 300, 3000}, O[] = {0, 1, 700, 2047, 6000}; pick(0); int n = 1 + sv_choice(4), s = S[sv_choice(3)], c = C[sv_choice(3)], many = sv_choice(2), only = sv_choice(2); B h = {0}, w = {0}; b_lit(&w, ""); for (int i = 0; i < n; i++) { int o = n > 2 && i < 2 ? (many ? 6000 : i ? 0 : 700) : O[sv_choice(5)], lg = i & 1; B k = {0}, p = {0}; b_lit(&k, lg ? "<pre lang=\"c\"><code>" : "<pre><code>"); b_fill(&p, 'c', c); b_lit(&k, p.p); b_lit(&k, "</code></pre>"); b_fill(&k, 's', s); b_lit(&h, k.p); if (only && !lg) { b_lit(&w, k.p); continue; } RUN[nr].code = p.p; B q = {0}; b_lit(&q, ""); b_fill(&q, 'H', o); RUN[nr].res = q.p; if (o) { b_lit(&w, q.p); b_fill(&w, 's', s); } else b_lit(&w, k.p); nr++; }
  qcap = 65536; given(); char *r = apex_apply_syntax_highlighting(h.p, tool, 0, only, 0); settled(); sv_assert(at == nr && started == nr, "every code block is given to the tool once"); expect_str(r, w.p, "highlighted blocks replace the code, everything else stays"); sv_cover("grow"); free(r); }
void h_s_off(void) { int k = sv_choice(4); pick(sv_choice(3)); B h = {0}; char x[3]; sv_sym(x, 3); sv_exclude_(x, 3, "\0", 1); b_mem(&h, x, 3); b_lit(&h, k == 3 ? "|<p>" : "<pre lang=\"c\"><code>i</code></pre>"); setenv("APEX_SUPPRESS_HIGHLIGHT_WARNINGS", "1", 1); char *r;
  if (k == 0) { present = 0; r = apex_apply_syntax_highlighting(h.p, tool, sv_choice(2), sv_choice(2), sv_choice(2)); } else if (k == 1) { r = apex_apply_syntax_highlighting(h.p, "rouge", 0, 0, 0); } else if (k == 2) { r = apex_apply_syntax_highlighting(h.p, 0, 0, 0, 0); sv_assert(!apex_apply_syntax_highlighting(0, tool, 0, 0, 0), "no HTML, no result"); } else r = apex_apply_syntax_highlighting(h.p, tool, 0, 0, 0);
  sv_assert(!forked, "nothing is run"); expect_str(r, h.p, "without the tool or a block nothing changes"); sv_cover("off"); free(r); }
