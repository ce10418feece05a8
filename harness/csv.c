//@src src/extensions/includes.c src/extensions/inline_tables.c
//@job C20 h_csv_free quick=60 workers=2 bound="every CSV/TSV text of at most 5 bytes"
//@job C20 h_csv_alpha quick=90 workers=6 bound="every CSV text of at most 8 characters over a , newline | backslash carriage-return"
//@job C20 h_csv_align quick=60 workers=4 bound="second rows of 1..3 cells out of 8 words (alignment keywords in any case, padded, near misses; alone, words of 1..40 bytes) with one arbitrary byte, a third row"
//@job C02,C20 h_csv_shape quick=60 workers=2 max_instr=60000000 bound="tables of 1..40 columns by 1..60 rows, full or ragged, cells of 0..200 bytes, one arbitrary byte"
//@job C20 h_it_free quick=60 workers=2 bound="every text of at most 4 (thorough 5) bytes; every text of at most 8 characters over backtick, newline, comma, a"
//@job C20 h_it_fence quick=60 workers=4 bound="fences with 3 arbitrary info bytes (table in any case), data with 2 arbitrary bytes, closed or open, text around"
//@job C20 h_it_mark quick=60 workers=4 bound="<!--TABLE--> followed by every text of at most 6 characters over a comma tab newline space carriage-return"
//@job C02,C20 h_it_long quick=60 workers=2 max_instr=60000000 bound="1..20 blocks of up to 100 columns/rows, one arbitrary byte"
//@job C20 h_it_place quick=60 workers=2 bound="each construct in 17 places that are code or look like it (spans, fences, quotes, lists, indented blocks), one byte of the place arbitrary"
#include "code.h"
#include "includes.h"
#include "inline_tables.h"
static int sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static int word(const char *s, const char *e, const char *w) { while (s < e && sp(*s)) s++; while (e > s && sp(e[-1])) e--; size_t n = e - s; if (n != strlen(w)) return 0; for (size_t i = 0; i < n; i++) { char c = s[i]; if (c >= 'A' && c <= 'Z') c += 32; if (c != w[i]) return 0; } return 1; }
/* cell c of the line [s,e): 0 if there is none */
static int cell(const char *s, const char *e, char d, int c, const char **a, const char **b) { for (;;) { const char *x = s; while (x < e && *x != d) x++; if (!c) { *a = s; *b = x; return 1; } if (x == e) return 0; s = x + 1; c--; } }
static const char *eol(const char *s, const char **e) { const char *x = s; while (*x && *x != '\n') x++; *e = x > s && x[-1] == '\r' ? x - 1 : x; return *x ? x + 1 : x; }
static void row(B *w, const char *s, const char *e, char d, int n) { b_c(w, '|'); for (int c = 0; c < n; c++) { const char *a, *b; b_c(w, ' '); if (cell(s, e, d, c, &a, &b)) { int k = 0; for (; a < b; a++) { if (*a == '|' && !k) b_c(w, '\\'); k = *a == '\\' && !k; b_c(w, *a); } } b_lit(w, " |"); } b_c(w, '\n'); }
static void table(B *w, const char *t, int tsv) {
  char d = tsv ? '\t' : ','; const char *e, *s = t, *a, *b, *nx = eol(t, &e); int n = 0; while (cell(s, e, d, n, &a, &b)) n++; row(w, s, e, d, n); s = nx; static const char *K[] = {"left", "right", "center", "auto"}, *D[] = {" :--- |", " ---: |", " :---: |", " --- |"}; int al = 0; B z = {0}; b_lit(&z, "|");
  if (*s) { nx = eol(s, &e); al = !cell(s, e, d, n, &a, &b); for (int c = 0; c < n && al; c++) { al = 0; if (cell(s, e, d, c, &a, &b)) for (int k = 0; k < 4; k++) if (word(a, b, K[k])) { al = 1; b_lit(&z, D[k]); break; } } }
  if (al) { b_lit(w, z.p); s = nx; } else { b_c(w, '|'); for (int c = 0; c < n; c++) b_lit(w, " --- |"); } b_c(w, '\n'); sv_cover(al ? "aligned" : "plain");
  while (*s) { nx = eol(s, &e); row(w, s, e, d, n); s = nx; }
}
static void csv(char *in) { int tsv = sv_choice(2); if (tsv) for (char *p = in; *p; p++) sv_assume(*p != '\f'); char *r = apex_csv_to_table(in, tsv); if (!*in) { sv_assert(!r, "no table from nothing"); return; } B w = {0}; table(&w, in, tsv); expect_str(r, w.p, "every row and cell is in the table, in order, escaped"); free(r); }
void h_csv_free(void) { B b = {0}; b_sym(&b, 5); csv(b_done(&b)); }
void h_csv_alpha(void) { B b = {0}; b_in0(&b, 7 + SV_TIER, "a,\n|\\\r"); char *in = b_done(&b); char *r = apex_csv_to_table(in, 0); if (!*in) return; B w = {0}; table(&w, in, 0); expect_str(r, w.p, "every row and cell is in the table, in order, escaped"); }
void h_csv_align(void) { static const char *K[] = {"left", "RIGHT", " Center ", "auto", "lef", "", "leftleftleftleftleft", "--"}; int n = 1 + sv_choice(3), at = sv_choice(4); B b = {0}; b_lit(&b, "h1"); for (int i = 1; i < n; i++) b_lit(&b, ",h"); b_lit(&b, "\n"); for (int i = 0; i < n; i++) { if (i) b_c(&b, ','); int k = sv_choice(n == 1 ? 9 : 8); if (k < 8) b_lit(&b, K[k]); else b_fill(&b, 'l', 1 + sv_choice(40)); if (i == at) b_sym(&b, 1); } b_lit(&b, "\nx,y,z\n"); char *in = b_done(&b); B w = {0}; table(&w, in, 0); expect_str(apex_csv_to_table(in, 0), w.p, "the second row is an alignment row exactly if all its cells are alignment words"); }
void h_csv_shape(void) { static const int C[] = {1, 2, 9, 40}, R[] = {1, 2, 9, 60}, L[] = {0, 1, 200}; int c = C[sv_choice(4)], r = R[sv_choice(4)], l = L[sv_choice(3)], rag = sv_choice(3); B b = {0}; for (int i = 0; i < r; i++) { int n = rag == 0 ? c : rag == 1 ? (i ? 1 : c) : (i ? c + 3 : 1); for (int j = 0; j < n; j++) { if (j) b_c(&b, ','); if (i == 1 && j == 0) b_sym(&b, 1); b_fill(&b, (i + j) % 5 ? 'q' : '|', i < 3 ? l : l > 0); } b_c(&b, '\n'); } char *in = b_done(&b); if (!*in) return; B w = {0}; table(&w, in, 0); expect_str(apex_csv_to_table(in, 0), w.p, "tables of every shape hold all their cells"); }
/* ---- inline tables ---- */
static int delim(const char *s, const char *e) { int c = 0; for (; s < e; s++) { if (*s == '\t') return 2; if (*s == ',') c = 1; } return c; }
static void conv(B *w, const char *s, const char *e, int d) { char *t = malloc(e - s + 1); memcpy(t, s, e - s); t[e - s] = 0; table(w, t, d == 2); free(t); }
/* the backticks of a line that opens a table block, 0 if it does not */
static const char *tfence(const char *p) { int c; const char *x; p = cd_text(p, &c); for (;;) { if (*p == '>') p++; else if ((x = cd_item(p))) p = x; else break; p = cd_text(p, &c); } if (!starts(p, "```") || p[3] == '`') return 0; const char *e = cd_eol(p), *s = p + 3; while (*s == ' ' || *s == '\t') s++; while (e > s && (e[-1] == ' ' || e[-1] == '\t' || e[-1] == '\r')) e--; return !sp(*s) && (e == s || !sp(e[-1])) && word(s, e, "table") ? p : 0; }
static void inl(char *in) {
  B w = {0}; b_lit(&w, ""); const char *t = in, *tf = 0; int made = 0;
  while (*t) {
    if (t == in || t[-1] == '\n') tf = cd_indented(in, t) ? 0 : tfence(t);
    if (t != tf) { const char *x = tf && tf > t ? t : codeend(in, t); if (x > t) { b_mem(&w, t, x - t); t = x; continue; } }
    if (t == tf) { const char *e = cd_eol(t), *s = *e ? e + 1 : e, *c = s; while (*c && !starts(c, "```")) c++; int d = delim(s, c); if (!d) { const char *x = *c ? c + 3 : c; b_mem(&w, t, x - t); t = x; continue; }
      made = 1; conv(&w, s, c, d); if (*c) { c += 3; while (*c && *c != '\n') c++; if (*c) { b_c(&w, '\n'); c++; } } t = c; continue; }
    if (starts(t, "<!--TABLE-->")) { const char *p = t + 12; while (*p == ' ' || *p == '\t') p++; if (*p == '\r') p++; if (*p == '\n') p++; const char *e = p; while (*e) { const char *x = e; int blank = 1; while (*x && *x != '\n') { if (*x != ' ' && *x != '\t' && *x != '\r') blank = 0; x++; } if (blank) break; e = *x ? x + 1 : x; }
      int d = delim(p, e); if (e == p || !d) { b_mem(&w, t, e - t); t = e; continue; } made = 1; conv(&w, p, e, d); t = e; continue; }
    b_c(&w, *t++);
  }
  char *r = apex_process_inline_tables(in); expect_str(r, w.p, "table blocks become tables of their data and all other text is kept"); sv_cover(made ? "table" : "same"); free(r);
}
void h_it_free(void) { B b = {0}; if (sv_choice(2)) b_sym(&b, 3 + SV_TIER); else b_in0(&b, 8, "`\n,a"); inl(b_done(&b)); }
void h_it_fence(void) { B b = {0}; static const char *I[] = {"table", "TABLE", " table ", "tables", "tabl", "c", ""}; b_lit(&b, sv_choice(2) ? "x\n```" : "```"); b_lit(&b, I[sv_choice(7)]); b_sym(&b, 1); b_lit(&b, "\nh"); b_sym(&b, 1); b_lit(&b, "i\nc"); b_sym(&b, 1); b_lit(&b, "d\n"); static const char *E[] = {"```", "```\nrest", "``", "", "```\n\n```table\na,b\n```"}; b_lit(&b, E[sv_choice(5)]); inl(b_done(&b)); }
void h_it_mark(void) { B b = {0}; static const char *P[] = {"", "t\n", "`"}; b_lit(&b, P[sv_choice(3)]); b_lit(&b, sv_choice(2) ? "<!--TABLE-->" : "<!--TABLE-->\n"); b_in0(&b, 6, "a,\t\n \r"); char *x = b_done(&b); b_lit(&b, x); if (sv_choice(2)) b_lit(&b, "\n\nend,"); inl(b_done(&b)); }
void h_it_long(void) { static const int N[] = {1, 3, 20}, C[] = {1, 30, 100}; int n = N[sv_choice(3)], c = C[sv_choice(3)], r = C[sv_choice(3)], k = sv_choice(2); sv_assume(n * c * r < 20000); B b = {0}; for (int i = 0; i < n; i++) { b_lit(&b, k ? "<!--TABLE-->\n" : "```table\n"); b_lit(&b, "h,"); b_fill(&b, ',', c); b_c(&b, '\n'); for (int j = 0; j < r; j++) { b_c(&b, 'r'); if (!i && !j) b_sym(&b, 1); b_c(&b, '\n'); } b_lit(&b, k ? "\n" : "```\n"); } b_lit(&b, "end"); inl(b_done(&b)); }
void h_it_place(void) { static const char *T[] = {"<!--TABLE-->\na,b\n", "```table\na,b\n```\n", "\n```table\na,b\n```\n", "\n- ```TABLE \na\tb\n```\n"}; B b = {0}; int k = sv_choice(4); code_ctx(&b, T[k]); inl(b_done(&b)); }
