//@src src/extensions/relaxed_tables.c
//@job C02,C23 h_rt_free quick=60 workers=2 bound="every text of at most 4 (thorough 5) bytes"
//@job C02,C23 h_rt_alpha quick=90 workers=6 bound="every text of at most 8 characters over a | - newline"
//@job C23 h_rt_lines quick=90 workers=6 bound="every sequence of 4 lines, and of 3 lines with one arbitrary byte at the end of one, out of 13 kinds (rows of 1..3 columns with and without outer pipes, escaped pipes, separators, rules, blank, text, fence lines), with and without final newline"
//@job C23 h_rt_code quick=60 workers=2 bound="rows inside and after fenced code: fences of 3..4 backticks or tildes, indented 0..3, closed, open or badly closed, two arbitrary bytes"
//@job C02,C23 h_rt_long quick=60 workers=4 max_instr=60000000 bound="1..3 runs of 2..60 rows of 1..120 columns, cells of 0..100 bytes, one arbitrary byte"
//@job C02,C23 h_hl_free quick=60 workers=2 bound="every text of at most 4 (thorough 5) bytes"
//@job C02,C23 h_hl_alpha quick=90 workers=6 bound="every text of at most 8 characters over a | - newline"
//@job C23 h_hl_lines quick=90 workers=6 bound="every sequence of 4 lines, and of 3 lines with one arbitrary byte at the end of one, out of 13 kinds, with and without final newline"
//@job C02,C23 h_hl_long quick=60 workers=4 max_instr=60000000 bound="1..30 separator rows of 1..200 columns, one arbitrary byte"
//@job C23 h_rt_place quick=60 workers=2 bound="each construct in 17 places that are code or look like it (spans, fences, quotes, lists, indented blocks), one byte of the place arbitrary"
#include "code.h"
#include "relaxed_tables.h"
static int sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
enum { OTHER, BLANK, SEP, RULE, ROW, CODE };
typedef struct { const char *s, *e, *nx; int k, cols, pipe; } L; /* e: before the newline, nx: after it */
static int cells(const char *s, const char *e) { while (s < e && (*s == ' ' || *s == '\t')) s++; while (e > s && sp(e[-1])) e--; int n = 0, last = 0, first = s < e && *s == '|'; for (const char *p = s; p < e; p++) { if (*p == '\\' && p + 1 < e) { p++; continue; } if (*p == '|') { n++; last = p == e - 1; } } if (!n) return -1; if (n == 1 && first) return 0; return n + 1 - first - last; }
static int split(const char *t, L *l, int max) {
  int n = 0; const char *t0 = t, *ce = t;
  while (*t) {
    if (n == max) sv_assume(0);
    L *x = &l[n++]; x->s = t; if (t >= ce) ce = blockend(t0, t); int code = t < ce; while (*t && *t != '\n') t++; x->e = t; if (*t) t++; x->nx = t;
    int blank = 1, dash = 0, pipe = 0, sep = 1, rule = 1;
    for (const char *q = x->s; q < x->e; q++) { char c = *q; if (!sp(c)) blank = 0; if (c == '-') dash++; else if (c == '|') { pipe = 1; rule = 0; } else if (c == ':' || c == '+') rule = 0; else if (c != ' ' && c != '\t' && c != '\r') sep = rule = 0; }
    x->cols = cells(x->s, x->e); x->pipe = x->cols >= 0;
    if (code) { x->k = CODE; x->pipe = 0; continue; }
    x->k = blank ? BLANK : sep && pipe && dash ? SEP : rule && dash >= 3 ? RULE : x->cols > 0 ? ROW : OTHER;
  }
  return n;
}
/* one line of made-up text at o: of characters in set, n cells wide; the text after it */
static const char *made(const char *o, const char *set, int n, const char *msg) { const char *e = o; while (*e && *e != '\n') { const char *z = set; while (*z && *z != *e) z++; if (!*z) { sv_fail(msg); return 0; } e++; } if (*e != '\n' || cells(o, e) != n) { sv_fail(msg); return 0; } return e + 1; }
static int looks(const char *o, const char *set, const char *msg) { const char *e = o; (void)msg; int p = 0; while (*e && *e != '\n') { const char *z = set; while (*z && *z != *e) z++; if (!*z) return 0; p |= *e == '|'; e++; } return p; }
#define MAXL 400
static L l[MAXL];
static const char *same(const char *o, const L *x, const char *msg) { size_t k = x->nx - x->s, i = 0; while (i < k && o[i]) i++; sv_assert(i == k, msg); sv_assert_mem_eq(o, x->s, k, msg); return o + k; }
static void relaxed(char *in) {
  int n = split(in, l, MAXL), tab = 0, any = 0; char *r = apex_process_relaxed_tables(in); const char *o = r ? r : in; if (r) sv_emit("out", r, strlen(r));
  for (int i = 0; i < n;) {
    if (l[i].k != ROW || tab) { o = same(o, &l[i], "lines outside of relaxed tables are kept"); tab = l[i].k == SEP || (tab && l[i].k == ROW); i++; continue; }
    int j = i, b = i; while (j < n && l[j].k == ROW && l[j].cols == l[i].cols) j++; while (b < n && l[b].k == ROW) b++; int mixed = b != j || (i && l[i - 1].k == ROW);
    int ends = b == n || (l[b].k != SEP && l[b].k != RULE), need = j - i >= 2 && ends && !mixed, may = j - i >= 2 && mixed;
    o = same(o, &l[i], "the first row of a table is kept");
    if (need) { any = 1; o = made(o, "|- ", l[i].cols, "rows without a separator row get one, as wide as they are"); if (!o) return; }
    else if (may && (i + 1 >= n || strlen(o) > (size_t)(l[n - 1].nx - l[i + 1].s)) && looks(o, "|- ", "")) { o = made(o, "|- ", l[i].cols, "a separator row is as wide as the rows"); if (!o) return; any = 1; }
    for (i++; i < j; i++) o = same(o, &l[i], "all rows of a table are kept");
  }
  sv_assert(*o == 0, "nothing is added after the text"); sv_cover(any ? "table" : "same"); free(r);
}
static void headerless(char *in) {
  int n = split(in, l, MAXL), any = 0; char *r = apex_process_headerless_tables(in); const char *o = r ? r : in; if (r) sv_emit("out", r, strlen(r));
  for (int i = 0; i < n; i++) {
    if (l[i].k == SEP && l[i].cols > 0) {
      int head = i && l[i - 1].pipe && l[i - 1].k != SEP, row = i + 1 < n && l[i + 1].k == ROW, dbl = i && l[i - 1].k == SEP, word = 0, later = 0; if (row) for (const char *p = l[i + 1].s; p < l[i + 1].e; p++) if (*p >= 'a' && *p <= 'z') word = 1; for (int j = i + 1; j < n; j++) { const char *p = l[j].s; while (p < l[j].e && *p != '|') p++; if (p < l[j].e) { later = 1; break; } if (l[j].k != BLANK) break; }
      if (!head && later) { if (row && word && !dbl) { any = 1; o = made(o, "| \t", l[i].cols, "a separator row without a header gets an empty one, as wide as it is"); if (!o) return; } else if (looks(o, "| ", "")) { o = made(o, "| ", l[i].cols, "an added header is as wide as its separator row"); if (!o) return; } }
    }
    o = same(o, &l[i], "all lines are kept, and nothing but a missing header is added");
  }
  sv_assert(*o == 0, "nothing is added after the text"); sv_cover(any ? "header" : "same"); free(r);
}
void h_rt_free(void) { B b = {0}; b_sym(&b, 3 + SV_TIER); relaxed(b_done(&b)); }
void h_rt_alpha(void) { B b = {0}; b_in0(&b, 6 + 2 * SV_TIER, "a|-\n"); relaxed(b_done(&b)); }
static const char *K[] = {"a | b", "| a | b |", "| a | b", "a | b |", "x|y|z", "| a |", "a \\| b | c", "|---|---|", "---|:--:", "---", "", "text", "```"};
static char *lines(void) { int n = 3 + sv_choice(2), at = n == 4 && SV_TIER < 2 ? 9 : sv_choice(n); B b = {0}; for (int i = 0; i < n; i++) { if (i) b_c(&b, '\n'); b_lit(&b, K[sv_choice(13)]); if (i == at) b_sym(&b, 1); } if (sv_choice(2)) b_c(&b, '\n'); return b_done(&b); }
void h_rt_lines(void) { relaxed(lines()); }
void h_rt_code(void) { static const char *F[] = {"```", "````", "~~~", " ```", "   ```", "``"}, *E[] = {"```", "````", "~~~", "  ```  ", "``` x", "```\n\nc | d\ne | f"}; B b = {0}; b_lit(&b, sv_choice(2) ? "p | q\nr | s\n" : ""); b_lit(&b, F[sv_choice(6)]); b_sym(&b, 1); b_lit(&b, "\na | b\nc | d\n"); b_lit(&b, E[sv_choice(6)]); b_sym(&b, 1); b_lit(&b, "\ng | h\ni | j\n"); char *in = b_done(&b); if (sv_choice(2)) relaxed(in); else headerless(in); }
void h_rt_long(void) { static const int N[] = {1, 3}, R[] = {2, 5, 60}, C[] = {1, 2, 20, 120}, W[] = {0, 1, 100}; int n = N[sv_choice(2)], r = R[sv_choice(3)], c = C[sv_choice(4)], w = W[sv_choice(3)], lead = sv_choice(2); sv_assume(c * r * (w + 1) < 20000); B b = {0}; for (int i = 0; i < n; i++) { for (int j = 0; j < r; j++) { if (lead) b_c(&b, '|'); else b_c(&b, 'q'); for (int k = 0; k < c; k++) { b_fill(&b, 'w', w); if (!j && k == c - 1 && !i) b_sym(&b, 1); b_c(&b, '|'); } b_c(&b, '\n'); } b_lit(&b, i & 1 ? "x\n" : "\n"); } relaxed(b_done(&b)); }
void h_hl_free(void) { B b = {0}; b_sym(&b, 3 + SV_TIER); headerless(b_done(&b)); }
void h_hl_alpha(void) { B b = {0}; b_in0(&b, 6 + 2 * SV_TIER, "a|-\n"); headerless(b_done(&b)); }
void h_hl_lines(void) { headerless(lines()); }
void h_hl_long(void) { static const int N[] = {1, 2, 30}, C[] = {1, 2, 40, 200}; int n = N[sv_choice(3)], c = C[sv_choice(4)], lead = sv_choice(2); B b = {0}; for (int i = 0; i < n; i++) { if (lead) b_c(&b, '|'); for (int k = 0; k < c; k++) b_lit(&b, "-|"); if (!i) b_sym(&b, 1); b_lit(&b, "\na|b\n\n"); } headerless(b_done(&b)); }
void h_rt_place(void) { static const char *T[] = {"a | b\nc | d", "a | b\n    c | d", "---|---\na | b\n", "|-|\n    a | b\n"}; B b = {0}; int k = sv_choice(4); code_ctx(&b, T[k]); char *in = b_done(&b); if (sv_choice(2)) relaxed(in); else headerless(in); }
