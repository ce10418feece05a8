//@src src/extensions/includes.c
//@job C21 h_inc_free quick=60 workers=2 bound="every text of at most 4 (thorough 5) bytes, no files"
//@job C21 h_inc_fence quick=60 workers=4 bound="every text of at most 6 (thorough 7) characters over backtick, newline, a, tilde, space, > before includes, a fence and another include"
//@job C21 h_inc_addr quick=90 workers=6 bound="address of at most 5 characters over 0 1 2 3 comma space semicolon, 4 file contents, {{}} and <<[] and <<()"
//@job C21 h_inc_range quick=60 workers=2 bound="line ranges N,M with N,M in 0..12 and far beyond, with and without prefix, files of 0..9 lines"
//@job C21 h_inc_regex quick=60 workers=4 bound="start and end patterns out of 7 (matching, missing, invalid, absent), 3 prefixes, 4 file contents"
//@job C21 h_inc_syn quick=90 workers=6 bound="all five syntaxes by all file types, present or missing, arbitrary bytes before and after, in and out of code"
//@job C21 h_inc_nest quick=60 workers=2 max_instr=60000000 bound="files that include each other across directories in every syntax, cycles, transclude base, depth limit"
//@job C21 h_inc_wild quick=60 workers=2 bound="wildcards over every subset of 5 files"
//@job C02,C21 h_inc_big quick=60 workers=2 max_instr=60000000 bound="files of up to 200 lines of up to 300 bytes, prefixes of up to 200 bytes, 1..20 includes, names of up to 1030 bytes, one arbitrary byte"
//@job C21 h_inc_place quick=60 workers=2 bound="each construct in 17 places that are code or look like it (spans, fences, quotes, lists, indented blocks), one byte of the place arbitrary"
#include "code.h"
#include <regex.h>
#include "includes.h"
#include "metadata.h"
/* stand-ins on both sides: a pattern matches as a substring (with ^ as line start), "(" is invalid; a file whose first line is TB:x has transclude base x */
int regcomp(regex_t *r, const char *p, int f) { if (*p == '(') return 1; memset(r, 0, sizeof *r); *(char **)r = strdup(p); return 0; }
int regexec(const regex_t *r, const char *s, size_t n, regmatch_t *m, int f) { const char *p = *(char *const *)r; return (*p == '^' ? starts(s, p + 1) : has(s, p)) ? 0 : 1; }
void regfree(regex_t *r) { free(*(char **)r); }
apex_metadata_item *apex_extract_metadata(char **t) { if (!starts(*t, "TB:")) return 0; apex_metadata_item *m = calloc(1, sizeof *m); const char *v = *t + 3; size_t n = 0; while (v[n] && v[n] != '\n') n++; m->value = malloc(n + 1); memcpy(m->value, v, n); m->value[n] = 0; m->key = strdup("transclude base"); return m; }
const char *apex_metadata_get(apex_metadata_item *m, const char *k) { return m && !strcmp(m->key, k) ? m->value : 0; }
void apex_free_metadata(apex_metadata_item *m) { free(m->key); free(m->value); free(m); }
/* ---- files ---- */
static struct { const char *n, *c; } F[16]; static int NF;
static void file(const char *n, const char *c) { sv_file(n, c, strlen(c)); F[NF].n = n; F[NF++].c = c; }
static const char *look(const char *n) { if (starts(n, "./")) n += 2; for (int i = 0; i < NF; i++) if (!strcmp(F[i].n, n)) return F[i].c; return 0; }
static char *cut(const char *s, const char *e) { char *r = malloc(e - s + 1); memcpy(r, s, e - s); r[e - s] = 0; return r; }
static char *path(const char *n, const char *dir) { if (*n == '/' || !dir || !*dir) return strdup(n); B b = {0}; b_lit(&b, dir); b_c(&b, '/'); b_lit(&b, n); return b.p; }
static char *dirof(const char *p) { const char *s = strrchr(p, '/'); return s ? cut(p, s) : strdup("."); }
static int isext(const char *n, const char *x) { const char *e = strrchr(n, '.'); return e && !strcmp(e + 1, x); }
/* ---- address: which lines, which prefix (documented: 1-based, end exclusive) ---- */
typedef struct { int all; long s, e; const char *rs, *re; char *pf; } A;
static const char *ws(const char *p) { while (*p == ' ' || *p == '\t' || *p == '\n') p++; return p; }
static char *prefix(const char *p) { if (!starts(p, "prefix=\"")) return 0; p += 8; const char *e = strchr(p, '"'); return e ? cut(p, e) : 0; }
static void addr(const char *p, A *a) {
  memset(a, 0, sizeof *a); a->all = 1; p = ws(p); if (starts(p, "prefix=\"")) { a->pf = prefix(p); return; }
  if (*p == '/') { const char *e = strchr(p + 1, '/'); if (!e) return; a->rs = cut(p + 1, e); p = e + 1; while (*p == ',' || ws(p) != p) p++; if (*p == '/' && (e = strchr(p + 1, '/'))) { a->re = cut(p + 1, e); p = e + 1; } a->all = 0; }
  else { long n = 0; int d = 0; const char *q = p; while (*q >= '0' && *q <= '9') n = n * 10 + *q++ - '0', d = 1; if (d && n) { a->all = 0; a->s = n; a->e = n + 1; p = ws(q); if (*p == ',') { p = ws(p + 1); a->e = -1; long m = 0; q = p; d = 0; while (*q >= '0' && *q <= '9') m = m * 10 + *q++ - '0', d = 1; if (d) { p = q; if (m >= n) a->e = m; } } } }
  p = ws(p); if (*p == ';') a->pf = prefix(ws(p + 1));
}
static int match(const char *pt, const char *l, const char *e) { char *s = cut(l, e); int r = *pt == '^' ? starts(s, pt + 1) : has(s, pt); free(s); return r; }
static char *extract(const char *c, A *a) {
  B w = {0}; b_lit(&w, ""); if (a->all && !a->pf) return strdup(c);
  if (a->all) { int bol = 1; for (; *c; c++) { if (bol) b_lit(&w, a->pf); b_c(&w, *c); bol = *c == '\n'; } return w.p; }
  const char *rs = a->rs && *a->rs != '(' ? a->rs : 0, *re = a->re && *a->re != '(' ? a->re : 0; int in = !rs && a->rs, n = 0; long s = a->s; if (a->rs) s = rs ? -1 : 1;
  while (*c) { const char *e = c; while (*e && *e != '\n') e++; n++; int take;
    if (a->rs) { if (!in && rs && match(rs, c, e)) in = 1; else if (in == 1 && re && match(re, c, e)) in = 2; take = in == 1; if (in == 0 && rs == 0) take = 1; }
    else take = n >= s && (a->e == -1 || n < a->e);
    if (take) { if (a->pf) b_lit(&w, a->pf); b_mem(&w, c, e - c); b_c(&w, '\n'); } c = *e ? e + 1 : e; }
  return w.p;
}
static void proc(B *w, const char *t, const char *dir, const char *tb, int depth);
static void nested(B *w, const char *c, const char *full, const char *p, int depth) { char *d = dirof(p), *tb = 0; if (starts(full, "TB:")) { const char *e = full + 3; while (*e && *e != '\n') e++; tb = cut(full + 3, e); char *dd = *tb == '/' ? strdup(tb) : tb[0] == '.' && (!tb[1] || tb[1] == '/') ? d : path(tb, d); d = dd; } proc(w, c, d, tb, depth + 1); }
static const char *lang(const char *n) { const char *e = strrchr(n, '.'); if (!e) return ""; e++; if (!strcmp(e, "h")) return "c"; if (!strcmp(e, "cc")) return "cpp"; if (!strcmp(e, "py")) return "python"; if (!strcmp(e, "js")) return "javascript"; if (!strcmp(e, "rb")) return "ruby"; if (!strcmp(e, "sh")) return "bash"; return e; }
static const char *address(const char *p, A *a, int *any) { *any = 0; if (*p != '[') return 0; const char *e = strchr(p + 1, ']'); if (!e) return 0; if (e > p + 1 && e - p - 1 < 1024) { addr(cut(p + 1, e), a); *any = 1; } return e + 1; }
static void table(B *w, const char *c, const char *p, const char *full, int depth, int csv) { if (csv) { char *t = apex_csv_to_table(c, isext(p, "tsv")); if (t) c = t; } nested(w, c, full, p, depth); }
static void proc(B *w, const char *t, const char *dir, const char *tb, int depth) {
  if (depth > 10) { b_lit(w, t); return; } if (tb && depth) { /* the transclude base of a file applies on top of its directory */ if (*tb == '/') dir = tb; else if (!(tb[0] == '.' && (!tb[1] || tb[1] == '/'))) dir = dir ? path(tb, dir) : tb; }
  const char *t0 = t, *ce = t;
  while (*t) {
    if (t >= ce) ce = codeend(t0, t); int code = t < ce, bol = t == t0 || t[-1] == '\n'; A a; int any = 0;
    if (!code && bol && *t == '/') { const char *e = t + 1; while (*e && !strchr(" \t\n\r", *e)) e++; if (e > t + 1 && e - t - 1 < 1024) { char *n = cut(t + 1, e), *p = path(n, dir); const char *c = look(p); if (c) { if (isext(p, "png")) { b_lit(w, "![]("); b_lit(w, n); b_lit(w, ")\n"); } else if (isext(p, "csv")) { char *x = apex_csv_to_table(c, 0); if (x) b_lit(w, x); } else if (isext(p, "c") || isext(p, "py")) { b_lit(w, "\n```"); b_lit(w, strrchr(n, '.') + 1); b_lit(w, "\n"); b_lit(w, c); b_lit(w, "\n```\n"); } else nested(w, c, c, p, depth); sv_cover("ia"); t = e; continue; } } }
    if (!code && starts(t, "{{")) { const char *e = strstr(t + 2, "}}"); if (e && e > t + 2 && e - t - 2 < 1024) { char *n = cut(t + 2, e), *p = path(n, dir); const char *c = look(p), *ae = address(e + 2, &a, &any); if (c) { table(w, any ? extract(c, &a) : c, p, c, depth, isext(p, "csv")); sv_cover("mmd"); t = ae ? ae : e + 2; continue; } } }
    if (!code && bol && starts(t, "<<") && t[2] && strchr("[({", t[2])) { char o = t[2]; const char *e = strchr(t + 3, o == '[' ? ']' : o == '(' ? ')' : '}'); if (e && e > t + 3 && e - t - 3 < 1024) { char *n = cut(t + 3, e), *p = path(n, dir); const char *c = look(p), *ae = address(ws(e + 1), &a, &any); if (c) { const char *x = any ? extract(c, &a) : c; if (o == '[') table(w, x, p, c, depth, isext(p, "csv")); else if (o == '(') { b_lit(w, "\n```"); b_lit(w, lang(n)); b_lit(w, "\n"); b_lit(w, x); b_lit(w, "\n```\n"); } else { b_lit(w, "<!--APEX_RAW_INCLUDE:"); b_lit(w, p); b_lit(w, "-->"); } sv_cover("marked"); } t = ae ? ae : e + 1; continue; } }
    b_c(w, *t++);
  }
}
static void go(char *in, const char *dir) { char *r = apex_process_includes(in, dir, NULL, 0); B w = {0}; b_lit(&w, ""); proc(&w, in, dir, 0, 0); expect_str(r, w.p, "includes are replaced by exactly the content they name and all other text is kept"); sv_cover("done"); free(r); }
void h_inc_free(void) { B b = {0}; b_sym(&b, 3 + SV_TIER); char *in = b_done(&b); go(in, NULL); }
void h_inc_fence(void) { file("f", "F"); B b = {0}; b_in0(&b, 5 + SV_TIER, "`\na~ >"); char *x = b_done(&b); b_lit(&b, x); b_lit(&b, "\n{{f}}\n<<[f]\n````\n{{f}}\n"); go(b_done(&b), NULL); }
static const char *C0[] = {"one\ntwo\nthree", "one\n\nthree\n", "", "only", "a\nb\nc\nd\ne\nf\ng\nh\ni"};
static const char *P[] = {"{{f.txt}}[", "<<[f.txt][", "<<(f.txt) ["};
void h_inc_addr(void) { file("f.txt", C0[sv_choice(4)]); B b = {0}; b_lit(&b, P[sv_choice(3)]); b_in0(&b, 5, "0123, ;"); char *x = b_done(&b); b_lit(&b, x); b_lit(&b, "]z"); go(b_done(&b), NULL); }
void h_inc_range(void) { file("f.txt", C0[sv_choice(5)]); static const char *N[] = {"0", "1", "2", "3", "4", "9", "10", "11", "500", ""}; B b = {0}; b_lit(&b, P[sv_choice(3)]); b_lit(&b, N[sv_choice(10)]); int k = sv_choice(3); if (k) { b_lit(&b, k == 1 ? "," : ", "); b_lit(&b, N[sv_choice(10)]); } static const char *X[] = {"", ";prefix=\"> \"", " ; prefix=\"\"", ";prefix=\"x"}; b_lit(&b, X[sv_choice(4)]); b_lit(&b, "] z"); go(b_done(&b), NULL); }
void h_inc_regex(void) { file("f.txt", C0[sv_choice(5)]); static const char *R[] = {"/one/", "/e/", "/^t/", "/zz/", "/(/", "/^/", "/d"}, *X[] = {"", ";prefix=\"> \"", ";prefix=\"\""}; B b = {0}; b_lit(&b, P[sv_choice(3)]); b_lit(&b, R[sv_choice(7)]); int k = sv_choice(9); if (k < 7) { b_lit(&b, ","); b_lit(&b, R[k]); } else if (k == 7) b_lit(&b, ","); b_lit(&b, X[sv_choice(3)]); b_lit(&b, "]z"); go(b_done(&b), NULL); }
void h_inc_syn(void) { static const char *N[] = {"a.md", "b.csv", "c.c", "d.png", "e.html", "g.py", "none.md", "h", "i.abcdef", "sub", "sub.md"}, *C[] = {"text *a*\nmore", "x,y\n1,2\n", "int c;\n", "PNG", "<b>", "def g()", 0, "plain", "other\n", 0, 0}, *O[] = {"/", "{{", "<<[", "<<(", "<<{"}, *E[] = {"", "}}", "]", ")", "}"}; int n = sv_choice(11), o = sv_choice(5); if (C[n]) file(N[n], C[n]); else if (n > 8) sv_dir(N[n]); B b = {0}; b_lit(&b, "p"); b_sym(&b, 1); b_lit(&b, O[o]); b_lit(&b, N[n]); b_lit(&b, E[o]); b_sym(&b, 1); b_lit(&b, "q\n"); if (sv_choice(2)) { b_lit(&b, "`{{a.md}}` ``` x\n<<[a.md]\n```\n/a.md"); } go(b_done(&b), NULL); }
void h_inc_nest(void) {
  static const char *O[] = {"/", "{{", "<<["}, *E[] = {"", "}}", "]"}; int k = sv_choice(6); B x = {0}, y = {0}, b = {0}; int o = sv_choice(3), p = sv_choice(3); static const char *T[] = {"d/x.md", "x.md", "d/x.md", "d/x.md", "self.md", "d/x.md"};
  b_lit(&x, k == 3 ? "TB:s\nX " : k == 5 ? "TB:.\nX\n" : "X\n"); if (k != 3 || o == 1) ; else b_lit(&x, "\n"); b_lit(&x, O[o]); b_lit(&x, "y.md"); b_lit(&x, E[o]); b_lit(&x, " xend\n"); b_lit(&y, "Y\n"); if (k == 2) { b_lit(&y, O[p]); b_lit(&y, "x.md"); b_lit(&y, E[p]); } b_lit(&y, "\nyend");
  file("d/x.md", x.p); file("x.md", x.p); file("d/y.md", y.p); if (k != 1) file("y.md", "top y\n"); file("d/s/y.md", "sub y\n"); file("self.md", "S\n<<[self.md]\nE\n");
  b_lit(&b, "start\n"); b_lit(&b, O[p]); b_lit(&b, T[k]); b_lit(&b, E[p]); b_lit(&b, "\nend"); char *in = b_done(&b); static const char *D[] = {0, "d"}; int d = sv_choice(2); go(in, D[d]);
}
void h_inc_wild(void) {
  static const char *N[] = {"w.tex", "w.txt", "w.md", "w.html", "a.md"}, *C[] = {"TEX", "TXT", "MD", "HTML", "A"}; int have[5]; for (int i = 0; i < 5; i++) if ((have[i] = sv_choice(2))) file(N[i], C[i]); static const char *Q[] = {"w.*", "*.md", "w.m?", "w.t*", "?.*", "z.*"}; int q = sv_choice(6); const char *w = 0;
  switch (q) { case 0: for (int i = 0; i < 4; i++) if (have[i]) w = C[i]; break; case 1: w = have[4] ? C[4] : have[2] ? C[2] : 0; break; case 2: w = have[2] ? C[2] : 0; break; case 3: w = have[0] ? C[0] : have[1] ? C[1] : 0; break; case 4: w = have[4] ? C[4] : have[3] ? C[3] : have[2] ? C[2] : have[0] ? C[0] : have[1] ? C[1] : 0; break; }
  B b = {0}, e = {0}; b_lit(&b, "p{{"); b_lit(&b, Q[q]); b_lit(&b, "}}q"); char *in = b_done(&b); if (w) { b_lit(&e, "p"); b_lit(&e, w); b_lit(&e, "q"); } else b_lit(&e, in); expect_str(apex_process_includes(in, NULL, NULL, 0), e.p, "a wildcard names the preferred match, or stays if nothing matches"); sv_cover(w ? "match" : "none");
}
void h_inc_big(void) {
  static const int L[] = {1, 9, 200}, W[] = {0, 10, 300}, PL[] = {0, 3, 200}, K[] = {1, 20}, NM[] = {1, 120, 1010, 1024, 1030}; int l = L[sv_choice(3)], n = W[sv_choice(3)], pl = PL[sv_choice(3)], k = K[sv_choice(2)], q = sv_choice(2), nm = NM[sv_choice(5)]; if (nm > 1) sv_assume(l == 1 && n == 10 && pl == 3 && k == 1); sv_assume((long)l * (n + pl) * k < 130000); B c = {0}, b = {0}, x = {0}; b_lit(&c, ""); for (int i = 0; i < l; i++) { b_fill(&c, 'a' + i % 26, n); b_c(&c, i == 5 ? ' ' : '\n'); } b_not(&c, 1, "`{}"); if (nm > 1) b_lit(&x, "f."); b_fill(&x, 'n', nm); if (nm == 1) file("n", c.p); else if (nm < 250) file(x.p, c.p);
  for (int i = 0; i < k; i++) { b_lit(&b, q ? "<<(" : "{{"); b_lit(&b, x.p); b_lit(&b, q ? ")" : "}}"); b_lit(&b, pl == 3 ? "[2,;prefix=\"" : "[prefix=\""); b_fill(&b, 'p', pl); b_lit(&b, "\"]\n"); } go(b_done(&b), NULL);
}
void h_inc_place(void) { static const char *T[] = {"{{f}}", "\n<<[f]\n", "\n/f\n", "<<(f)"}; file("f", "F"); B b = {0}; int k = sv_choice(4); code_ctx(&b, T[k]); go(b_done(&b), NULL); }
