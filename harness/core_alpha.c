//@src src/apex.c @model/cmark.c
//@job C33 h_alpha_free quick=60 workers=6 bound="every text of at most 7 characters over a . A b space newline 1"
//@job C33 h_alpha_lines quick=90 workers=8 bound="every sequence of 4 lines from 22 kinds (letters, indentations, text, blanks, bullets, numbers, fences, headings, quotes)"
//@job C33 h_alpha_code quick=60 workers=4 bound="fences of 3..5 backticks or tildes, open, closed and mismatched, and indented code around marker lines"
//@job C33 h_alpha_items quick=60 workers=2 bound="1..30 items starting at any letter of either case, 2 arbitrary bytes in the items"
//@job C33 h_alpha_deep quick=30 workers=1 bound="nesting 1..20 deep, 400 lists in a document"
//@job C33 h_alpha_html quick=60 workers=4 bound="1..2 placeholders with 0..2 whitespace characters and lists with any of 6 tags, arbitrary bytes around"
#include "core.h"
static apex_options al(void) { apex_options o = bare(); o.allow_alpha_lists = true; html_in = 0; return o; }
/* ---- reference: lines with their roles ---- */
typedef struct { const char *s, *p, *e; size_t ind, total; int blank; } L;
static int split(const char *t, L *l) { int n = 0; while (*t) { const char *nl = strchr(t, '\n'); L *x = &l[n++]; x->s = t; x->e = nl ? nl : t + strlen(t); x->total = (nl ? nl + 1 : x->e) - t; t += x->total; if (x->e > x->s && x->e[-1] == '\r') x->e--; x->p = x->s; x->ind = 0; while (x->p < x->e && (*x->p == ' ' || *x->p == '\t')) { x->ind = *x->p == '\t' ? x->ind / 4 * 4 + 4 : x->ind + 1; x->p++; } x->blank = x->p == x->e; } return n; }
static int sp(const char *q, const char *e) { return q == e || *q == ' ' || *q == '\t'; }
static int islist(L *x) { const char *q = x->p; if (strchr("*-+", *q)) return sp(q + 1, x->e); while (q < x->e && *q >= '0' && *q <= '9') q++; return q > x->p && q < x->e && strchr(".)", *q) && sp(q + 1, x->e) ? 2 : 0; }
static int letter(L *x) { char c = *x->p; return x->e - x->p >= 2 && ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) && x->p[1] == '.' && sp(x->p + 2, x->e); }
static void ind(B *o, L *x) { b_mem(o, x->s, x->p - x->s); }
static void ref(B *o, const char *t) {
  static L l[1600]; int n = split(t, l), d = 0, bl = 1, lst = 0, ic = 0; char fc = 0; size_t fl = 0; struct { size_t ind; char nx; int c; } st[64];
  for (int i = 0; i < n; i++) { L *x = &l[i]; int verb = 0; size_t run = 0; while (x->p + run < x->e && (*x->p == '`' || *x->p == '~') && x->p[run] == *x->p) run++; const char *q = x->p + run; int was = ic; ic = 0; if (fc) { verb = 1; while (q < x->e && (*q == ' ' || *q == '\t')) q++; if (*x->p == fc && run >= fl && q == x->e) fc = 0; } else if (!x->blank && x->ind >= 4 && (bl || was) && !lst) verb = ic = 1; else if (run >= 3 && (*x->p == '~' || !memchr(q, '`', x->e - q))) { verb = 1; fc = *x->p; fl = run; }
    if (!verb && !x->blank && letter(x)) { while (d && st[d - 1].ind > x->ind) d--; int sib = d && st[d - 1].ind == x->ind, low = *x->p >= 'a'; char f = low ? 'a' : 'A'; if (sib && st[d - 1].nx == *x->p) { st[d - 1].c++; st[d - 1].nx = (*x->p - f + 1) % 26 + f; ind(o, x); b_c(o, '0' + st[d - 1].c % 10); b_c(o, '.'); b_mem(o, x->p + 2, x->s + x->total - x->p - 2); bl = 0; lst = 1; continue; }
      if (sib || bl || *x->p == f) { if (sib) d--; if (d < 16) { if (!bl) b_c(o, '\n'); ind(o, x); b_lit(o, low ? "[apex-alpha-list:lower]\n\n" : "[apex-alpha-list:upper]\n\n"); st[d].ind = x->ind; st[d].c = 1; st[d++].nx = (*x->p - f + 1) % 26 + f; ind(o, x); int k = *x->p - f + 1; if (k >= 10) b_c(o, '0' + k / 10); b_c(o, '0' + k % 10); b_c(o, '.'); b_mem(o, x->p + 2, x->s + x->total - x->p - 2); bl = 0; lst = 1; continue; } } }
    if (x->blank && !verb) { if (++bl >= 2) d = 0; } else { int k = verb ? 0 : islist(x); if (k || bl || verb || *x->p == '#' || *x->p == '>') while (d && st[d - 1].ind >= x->ind) { if (k == 2 && st[d - 1].ind == x->ind) { if (!bl) b_c(o, '\n'); ind(o, x); b_lit(o, "[apex-alpha-list:ended]\n\n"); } d--; } if (k) lst = 1; else if (!x->ind && bl) lst = 0; bl = 0; }
    b_mem(o, x->s, x->total); }
}
static const char M[] = "letter markers outside code become list numbers with one placeholder paragraph per list; all other text is kept";
static void chk(const char *in) { apex_options o = al(); if (!*in) return; run_core(in, &o); B w = {0}; ref(&w, in); if (!w.p) b_lit(&w, ""); if (!w.n || (w.p[w.n - 1] != '\n' && w.p[w.n - 1] != '\r')) b_c(&w, '\n'); expect_str(fed, w.p, M); }
void h_alpha_free(void) { B b = {0}; b_in0(&b, 7, "a.Ab \n1"); char *in = b_done(&b); chk(in); if (has(in, "a. ")) sv_cover("marker"); sv_cover("free"); }
void h_alpha_lines(void) { static const char *K[] = {"a. x\n", "b. x\n", "c. y\n", "A. x\n", "B. x\n", "    a. x\n", "    b. y\n", "  a. x\n", "\n", "text\n", "    more\n", "- x\n", "1. x\n", "    2. x\n", "```\n", "# h\n", "> q\n", "a.x\n", "a.\r\n", "\ta. t\n", "zz. x\n", " \n"}; B b = {0}; for (int i = 0; i < 4; i++) b_lit(&b, K[sv_choice(22)]); chk(b_done(&b)); sv_cover("lines"); }
void h_alpha_code(void) { static const char *F[] = {"```", "````", "~~~", "~~~~~", "``` c", "~~~ a`b", "``` a`b", "    ", "\t", "``` ", "", "    ```"}; B b = {0}; b_lit(&b, sv_choice(2) ? "p\n\n" : "- i\n\n"); b_lit(&b, F[sv_choice(12)]); b_lit(&b, sv_choice(2) ? "\na. x\n" : "a. x\n"); b_lit(&b, F[sv_choice(12)]); b_lit(&b, sv_choice(2) ? "\nb. y\n" : "\na. y\n"); b_lit(&b, F[sv_choice(12)]); b_lit(&b, "\n\nA. z"); chk(b_done(&b)); sv_cover("code"); }
void h_alpha_items(void) { static const int N[] = {1, 2, 9, 10, 11, 26, 27, 30}; int up = sv_choice(2), s = sv_choice(26), n = N[sv_choice(8)]; B b = {0}; for (int i = 0; i < n; i++) { b_c(&b, (up ? 'A' : 'a') + (s + i) % 26); b_lit(&b, ". "); if (i == n / 2) b_not(&b, 2, "\n"); b_lit(&b, "x\n"); } char *in = b_done(&b); apex_options o = al(); run_core(in, &o); sv_assert(count_of(fed, "[apex-alpha-list:") == 1 && starts(fed, up ? "[apex-alpha-list:upper]\n\n" : "[apex-alpha-list:lower]\n\n"), "consecutive letters are one list"); B w = {0}; ref(&w, in); expect_str(fed, w.p, M); sv_cover("items"); }
void h_alpha_deep(void) { B b = {0}; int k = sv_choice(22); if (k < 20) { for (int i = 0; i <= k; i++) { b_fill(&b, ' ', i * 3); b_lit(&b, "a. x\n"); } for (int i = k; i >= 0; i--) { b_fill(&b, ' ', i * 3); b_lit(&b, "b. y\n"); } } else for (int i = 0; i < 400; i++) b_lit(&b, k & 1 ? "a. \n" : "a.\nt\n\n\n"); chk(b_done(&b)); sv_cover("deep"); }
void h_alpha_html(void) {
  apex_options o = al(); static const char *P[] = {"<p>[apex-alpha-list:lower]</p>", "<p>[apex-alpha-list:upper]</p>", "<p>[apex-alpha-list:ended]</p>\n"}, *S[] = {"", "\n", "\n\n", " "}, *T[] = {"<ol>", "<ol start=\"3\">", "<ol class=\"a\" id=\"b\">", "<ol style=\"x\">", "<ul>", "x"}; B b = {0}, w = {0}; int n = 1 + sv_choice(2);
  for (int i = 0; i < n; i++) { int t = i ? sv_choice(2) * 2 : sv_choice(6), p = sv_choice(3), s = sv_choice(4); b_lit(&b, P[p]); b_lit(&b, S[s]); b_lit(&w, S[s]); b_lit(&b, T[t]); size_t z = b.n; b_not(&b, i ? 0 : 2, ""); if (p < 2 && t < 3) { b_mem(&w, T[t], strlen(T[t]) - 1); b_lit(&w, p ? " style=\"list-style-type: upper-alpha\">" : " style=\"list-style-type: lower-alpha\">"); } else b_lit(&w, T[t]); b_mem(&w, b.p + z, b.n - z); b_lit(&b, "<p>[apex</p>"); b_lit(&w, "<p>[apex</p>"); } char *in = b_done(&b); expect_str(html_of(in, &o), w.p, "every placeholder becomes the style of the list after it, and nothing else changes"); sv_cover("html");
}
