//@src src/apex.c @model/cmark.c
//@job C34 h_tb_free quick=60 workers=6 bound="every text of at most 9 characters over a | - newline"
//@job C34 h_tb_pipes quick=60 workers=4 bound="a table with 5 arbitrary characters over | \\ a space tab : - in the header, separator or body line, in a quote, list or plain, with LF, CRLF or CR"
//@job C34 h_tb_lines quick=90 workers=8 bound="every sequence of 4 lines from 24 kinds (rows, separators, captions of all forms, text, blanks, fences, indented lines, list items)"
//@job C34 h_tb_cap quick=60 workers=6 bound="each caption form with 2 arbitrary bytes and 6 attribute forms, 0..2 blank lines or other captions before or after a table"
//@job C34 h_tb_code quick=60 workers=4 bound="tables and captions in fences of 3..5 backticks or tildes, open, closed and mismatched, and in indented code"
//@job C34 h_tb_long quick=60 workers=2 max_instr=200000000 bound="1..60 rows, up to 300 pipes in a row, captions of up to 3000 bytes, lines of one arbitrary byte"
#include "core.h"
/* ---- reference ---- */
typedef struct { const char *s, *p, *e, *n; size_t ind; int blank, code, sep, pipe, tab; } L;
static int allin(const char *p, const char *e, const char *set) { for (; p < e; p++) if (!strchr(set, *p)) return 0; return 1; }
static int item(L *x) { const char *q = x->p; if (*q == '*' || *q == '-' || *q == '+') q++; else { while (*q >= '0' && *q <= '9' && q - x->p < 9) q++; if (q == x->p || (*q != '.' && *q != ')')) return 0; q++; } return q == x->e || *q == ' ' || *q == '\t'; }
static int lines(const char *t, L *l) {
  int n = 0, lst = 0, ic = 0, bl = 1; char fc = 0; size_t fl = 0;
  while (*t) { L *x = &l[n++]; memset(x, 0, sizeof *x); x->s = t; while (*t && *t != '\n' && *t != '\r') { if (*t == '|') x->pipe = 1; t++; } x->e = t; if (*t == '\r' && t[1] == '\n') t++; if (*t) t++; x->n = t; x->p = x->s; while (x->p < x->e && (*x->p == ' ' || *x->p == '\t')) { x->ind = *x->p == '\t' ? x->ind / 4 * 4 + 4 : x->ind + 1; x->p++; } x->blank = x->p == x->e;
    size_t r = 0; if (!x->blank && (*x->p == '`' || *x->p == '~')) while (x->p + r < x->e && x->p[r] == *x->p) r++; const char *q = x->p + r;
    if (fc) { x->code = 1; if (*x->p == fc && r >= fl && allin(q, x->e, " \t")) fc = 0; ic = 0; } else if (!x->blank && x->ind >= 4 && !lst && (bl || ic)) x->code = ic = 1; else if (r >= 3 && (*x->p == '~' || !memchr(q, '`', x->e - q))) { x->code = 1; fc = *x->p; fl = r; } else if (!x->blank) { if (item(x)) lst = 1; else if (!x->ind && bl) lst = 0; ic = 0; }
    bl = x->blank && !x->code; const char *z = x->p; while (z < x->e && strchr("> \t", *z)) z++; x->sep = !x->code && allin(z, x->e, "|-: \t") && x->pipe && memchr(z, '-', x->e - z) && memchr(z, '|', x->e - z); }
  for (int i = 1; i < n; i++) if (!l[i - 1].tab && l[i].sep && !l[i - 1].blank && !l[i - 1].code && l[i - 1].pipe) { l[i - 1].tab = 1; for (int k = i; k < n && l[k].pipe && !l[k].code; k++) l[k].tab = 1; }
  return n;
}
static L ln[1600];
static char *spans(const char *t) { B o = {0}; int n = lines(t, ln); b_lit(&o, ""); for (int i = 0; i < n; i++) for (const char *p = ln[i].s; p < ln[i].n; p++) { if (ln[i].tab && *p == '|' && p > ln[i].s && p[-1] == '|' && !(p - 1 > ln[i].s && p[-2] == '\\')) b_lit(&o, " << "); b_c(&o, *p); } return b_done(&o); }
static char *caps(const char *t) {
  B o = {0}; int n = lines(t, ln), near = 0; b_lit(&o, "");
  for (int i = 0; i < n; i++) { L *x = &ln[i]; const char *c = 0, *ce = x->e, *at = 0; int plain = !x->code && !x->tab;
    if (plain && (starts(x->p, "Table:") || starts(x->p, "table:"))) { int k = i + 1; while (k < n && ln[k].blank && !ln[k].code) k++; if (near || (k < n && ln[k].tab)) c = x->p + 6; }
    if (plain && near && (starts(x->p, ": ") || starts(x->p, ":\t"))) c = x->p + 1;
    if (c) { while (c < ce && strchr(" \t", *c)) c++; while (ce > c && strchr(" \t", ce[-1])) ce--; if (ce > c && ce[-1] == '}') { const char *q = ce - 1; while (q > c && *q != '{') q--; if (*q == '{' && strchr(":#.", q[1])) { at = q; ce = q; while (ce > c && strchr(" \t", ce[-1])) ce--; } } if (ce == c) c = 0; }
    int br = plain && near && !x->blank && *x->p == '['; if (i && !ln[i - 1].blank && (c || (br && ln[i - 1].tab))) b_c(&o, '\n');
    if (c) { b_mem(&o, x->s, x->p - x->s); b_c(&o, '['); b_mem(&o, c, ce - c); b_c(&o, ']'); if (at) { b_c(&o, ' '); b_mem(&o, at, x->e - at); } } else b_mem(&o, x->s, x->e - x->s);
    if (x->n > x->e) b_c(&o, '\n'); if (x->tab) near = 1; else if (x->code || (!x->blank && !c && !br)) near = 0; }
  if (o.n && o.p[o.n - 1] != '\n') b_c(&o, '\n'); return b_done(&o);
}

static const char M[] = "in tables, pipe runs become spans; captions next to a table become [..] paragraphs; all other text is kept";
static void chk(const char *in) { if (!*in) return; apex_options o = bare(); o.enable_tables = true; html_in = 0; B t = {0}; b_lit(&t, in); char e = t.p[t.n - 1]; if (e != '\n' && e != '\r') b_c(&t, '\n'); char *w = caps(spans(b_done(&t))); run_core(in, &o); expect_str(fed, w, M); sv_cover("tb"); }
void h_tb_free(void) { B b = {0}; b_in0(&b, 9, "a|-\n"); chk(b_done(&b)); }
void h_tb_pipes(void) { static const char *E[] = {"\n", "\r\n", "\r"}, *P[] = {"", "> ", "- "}, *Q[] = {"", "> ", "  "}; int w = sv_choice(3), k = sv_choice(3); const char *e = E[sv_choice(3)]; B b = {0}; b_lit(&b, "a||b"); b_lit(&b, e); b_lit(&b, e); b_lit(&b, P[k]); if (w == 0) b_in(&b, 5, "|\\a :-"); else b_lit(&b, "|a||b|"); b_lit(&b, e); b_lit(&b, Q[k]); if (w == 1) b_in(&b, 5, "|a :-\t"); else b_lit(&b, "|-|:-:|"); b_lit(&b, e); b_lit(&b, Q[k]); if (w == 2) b_in(&b, 5, "|\\a \t"); else b_lit(&b, "c|||"); b_lit(&b, e); b_lit(&b, "d||"); chk(b_done(&b)); }
void h_tb_lines(void) { static const char *K[] = {"| h || i |\n", "|---|---|\n", "x || y\n", "--|--\n", "\n", "text\n", "[cap]\n", "[a](b) c\n", "Table: cap\n", "table:c {#i}\n", "The Table: x\n", ": cap {.c}\n", ":no\n", "| Table: x |\n", "```\n", "    | a || b |\n", "- i\n", "  : q\n", "  Table: q  \n", "Table:\n", ":  \n", "---\n", "[x] | y\n", "> | a || b |\n"}; B b = {0}; for (int i = 0; i < (SV_TIER > 1 ? 5 : 4); i++) b_lit(&b, K[sv_choice(24)]); chk(b_done(&b)); }
void h_tb_cap(void) {
  static const char *T = "| h || i |\n|---|---|\n| 1 | 2 |\n", *F[] = {"[", "Table:", "table: ", ": ", ":\t", "  Table: ", "   : "}, *A[] = {"", " {#i}", "{: .c}", " {x}", " {.c} z", "{#"}, *G[] = {"", "\n", " \n\n", "[c]\n", "\n: d\n\n", "txt\n"}; B b = {0}; int before = sv_choice(2), f = sv_choice(7);
  if (!before) { b_lit(&b, T); b_lit(&b, G[sv_choice(6)]); } b_lit(&b, F[f]); b_lit(&b, "a"); b_not(&b, 2, ""); if (!f) b_lit(&b, "]"); b_lit(&b, A[sv_choice(6)]); b_lit(&b, "\n"); if (before) { b_lit(&b, G[sv_choice(6)]); b_lit(&b, T); } b_lit(&b, "\n: e\n"); chk(b_done(&b)); }
void h_tb_code(void) { static const char *F[] = {"```", "````", "~~~~~", "``` c", "``` a`b", "~~~", "", "    x", "\tx", "``"}; B b = {0}; b_lit(&b, sv_choice(2) ? "p\n\n" : "- i\n\n"); b_lit(&b, F[sv_choice(10)]); b_lit(&b, sv_choice(2) ? "\n| h || i |\n|---|---|\n| 1 || 2 |\n" : "\n    a|b\n    -|-\n    c||d\n"); b_lit(&b, F[sv_choice(10)]); b_lit(&b, sv_choice(2) ? "\nTable: cap\n" : "\n[c]\n: d\n"); b_lit(&b, F[sv_choice(10)]); b_lit(&b, "\n|a||\n|-|-|\n"); chk(b_done(&b)); }
void h_tb_long(void) { static const int N[] = {1, 2, 30, 60}, Pn[] = {1, 2, 3, 100, 300}, C[] = {1, 200, 3000}; B b = {0}; int n = N[sv_choice(4)], k = Pn[sv_choice(5)], c = C[sv_choice(3)]; b_lit(&b, "a|b\n-|-\n"); for (int i = 0; i < n; i++) { b_lit(&b, "x"); b_fill(&b, '|', i ? 2 : k); if (i == n / 2) b_not(&b, 1, ""); b_lit(&b, "\n"); } b_lit(&b, sv_choice(2) ? "Table: " : ":   "); b_fill(&b, 'c', c); b_lit(&b, sv_choice(2) ? " {#i}" : "\n"); chk(b_done(&b)); }
