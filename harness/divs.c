//@src src/extensions/fenced_divs.c
//@job C02,C22 h_fd_free quick=60 workers=2 bound="every text of at most 4 (thorough 5) bytes"
//@job C22 h_fd_alpha quick=90 workers=6 bound="every text of at most 8 characters over : newline a space { }"
//@job C02,C22 h_fd_attr quick=90 workers=6 bound="::: followed by every attribute text of at most 6 characters over { } # . a = double-quote space backslash >, closed and unclosed braces"
//@job C22 h_fd_byte quick=60 workers=4 bound="one arbitrary byte anywhere in attribute lists of each kind"
//@job C22 h_fd_nest quick=90 workers=6 bound="every sequence of 5 (thorough 6) lines out of 9 kinds (openings, closings, text, code fences)"
//@job C02,C22 h_fd_long quick=60 workers=2 max_instr=60000000 bound="ids, classes, values, element names of 0..600 bytes around the buffer sizes, 1..40 divs, one arbitrary byte"
//@job C03,C22 h_fp_seq quick=60 workers=4 bound="every sequence of 5 pieces out of 9 (wrapper openings, plain divs, closings, text, broken wrappers)"
//@job C03,C22 h_fp_free quick=60 workers=2 bound="wrapper prefix followed by every text of at most 4 (thorough 5) bytes; names of 0..300 bytes, 1..20 wrappers"
//@job C22 h_fd_place quick=60 workers=2 bound="each construct in 17 places that are code or look like it (spans, fences, quotes, lists, indented blocks), one byte of the place arbitrary"
#include "code.h"
#include "fenced_divs.h"
static int sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static int an(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static char *cut(const char *s, const char *e) { char *r = malloc(e - s + 1); memcpy(r, s, e - s); r[e - s] = 0; return r; }
static const char *BT[] = {"address", "article", "aside", "base", "basefont", "blockquote", "body", "caption", "center", "col", "colgroup", "dd", "details", "dialog", "dir", "div", "dl", "dt", "fieldset", "figcaption", "figure", "footer", "form", "frame", "frameset", "h1", "h2", "h3", "h4", "h5", "h6", "head", "header", "hr", "html", "iframe", "legend", "li", "link", "main", "menu", "menuitem", "nav", "noframes", "ol", "optgroup", "option", "p", "param", "section", "source", "title", "summary", "table", "tbody", "td", "tfoot", "th", "thead", "tr", "track", "ul", 0};
static int known(const char *t) { for (int i = 0; BT[i]; i++) { const char *a = t, *b = BT[i]; while (*a && ((*a >= 'A' && *a <= 'Z') ? *a + 32 : *a) == *b) a++, b++; if (!*a && !*b) return 1; } return 0; }
static void attrs(B *w, const char *s, const char *e) {
  while (s < e && sp(*s)) s++; while (e > s && sp(e[-1])) e--; if (s == e) return;
  if (*s != '{') { const char *x = s; while (x < e && !sp(*x)) x++; b_lit(w, " class=\""); b_mem(w, s, x - s); b_c(w, '"'); return; }
  s++; if (e > s && e[-1] == '}') e--; B c = {0}, k = {0}; b_lit(&c, ""); b_lit(&k, ""); char *id = 0; int nc = 0;
  while (s < e) {
    if (sp(*s)) { s++; continue; }
    if (*s == '#') { const char *x = ++s; while (s < e && !sp(*s) && *s != '.' && *s != '}') s++; if (s > x) id = cut(x, s); continue; }
    if (*s == '.') { const char *x = ++s; while (s < e && !sp(*s) && *s != '.' && *s != '#' && *s != '}') s++; if (s > x) { if (nc++) b_c(&c, ' '); b_mem(&c, x, s - x); } continue; }
    const char *x = s; while (s < e && *s != '=' && !sp(*s) && *s != '}') s++; if (s == e || *s != '=') { if (s < e) s++; continue; }
    const char *ke = s++; char q = s < e ? *s : 0; if (q == '"' || q == '\'') { const char *v = ++s; while (s < e && *s != q) { if (*s == '\\' && s + 1 < e) s++; s++; } if (s >= e) continue; b_c(&k, ' '); b_mem(&k, x, ke - x); b_lit(&k, "=\""); for (; v < s; v++) { if (*v == '\\' && v + 1 < s && (v[1] == '"' || v[1] == '\'')) v++; if (*v == '"') b_lit(&k, "&quot;"); else b_c(&k, *v); } b_c(&k, '"'); s++; }
    else { const char *v = s; while (s < e && !sp(*s) && *s != '}') s++; b_c(&k, ' '); b_mem(&k, x, ke - x); b_lit(&k, "=\""); b_mem(&k, v, s - v); b_c(&k, '"'); }
  }
  if (id) { b_lit(w, " id=\""); b_lit(w, id); b_c(w, '"'); } if (nc) { b_lit(w, " class=\""); b_lit(w, c.p); b_c(w, '"'); } b_lit(w, k.p);
}
static char *want(const char *t) {
  B w = {0}; b_lit(&w, ""); static char *st[64]; int d = 0; const char *t0 = t, *ce = t;
  while (*t) {
    const char *e = t; while (*e && *e != '\n' && *e != '\r') e++; const char *nx = e; if (*nx == '\r') nx++; if (*nx == '\n') nx++; const char *p = t; if (t >= ce) ce = blockend(t0, t); int code = t < ce;
    while (p < e && sp(*p)) p++; int n = 0; while (p < e && *p == ':') p++, n++; const char *a = p; while (a < e && sp(*a)) a++; const char *z = e; while (z > a && z[-1] == ':') z--; while (z > a && sp(z[-1])) z--; if (z == a) z = e; /* only colons */ int some = 0; for (const char *q = a; q < z; q++) if (!sp(*q) && *q != ':') some = 1;
    if (!code && n >= 3 && some) {
      char *ty = "div"; if (*a == '>') { const char *x = a + 1; while (x < z && (an(*x) || *x == '-')) x++; if (x > a + 1) { ty = cut(a + 1, x); a = x; } }
      int kn = known(ty); b_lit(&w, kn ? "<" : "<div data-apex-fenced-element=\""); b_lit(&w, ty); if (!kn) b_c(&w, '"'); attrs(&w, a, z); b_lit(&w, " markdown=\"1\">\n"); st[d++] = kn ? ty : "div"; t = nx; sv_cover("open"); continue;
    }
    if (!code && n >= 3 && a == e && d) { b_lit(&w, "</"); b_lit(&w, st[--d]); b_c(&w, '>'); t = nx; sv_cover("close"); continue; }
    b_mem(&w, t, nx - t); t = nx;
  }
  while (d) { b_lit(&w, "</"); b_lit(&w, st[--d]); b_c(&w, '>'); } return w.p;
}
static void go(char *in) { char *r = apex_process_fenced_divs(in); expect_str(r, want(in), "fenced divs become elements with their attributes, properly nested and closed; all other lines are kept"); free(r); sv_cover("done"); }
void h_fd_free(void) { B b = {0}; b_sym(&b, 3 + SV_TIER); go(b_done(&b)); }
void h_fd_alpha(void) { B b = {0}; b_lit(&b, sv_choice(2) ? ":::a\n" : ""); b_in0(&b, 7, ":\na {}"); char *x = b_done(&b); go(x); }
void h_fd_attr(void) { B b = {0}; b_lit(&b, sv_choice(2) ? "::: {" : "::: "); b_in0(&b, 5 + SV_TIER, "{}#.a=\" \\>"); char *x = b_done(&b); b_lit(&b, x); static const char *E[] = {"", "}\nt\n:::\nz", "} :::\n"}; b_lit(&b, E[sv_choice(3)]); go(b_done(&b)); }
void h_fd_byte(void) { static const char *T[] = {"::: {#id .cl k=\"v w\" l=m}", "::: >aside {.x}", ":::: >my-el note", "::: warn :::", "::: {k='q\"r'}"}; const char *t = T[sv_choice(5)]; size_t at = sv_choice(26); sv_assume(at < strlen(t)); int ins = sv_choice(2); B b = {0}; b_mem(&b, t, at); b_not(&b, 1, ""); b_lit(&b, t + at + !ins); b_lit(&b, "\nbody\n:::\nend"); go(b_done(&b)); }
void h_fd_nest(void) { static const char *L[] = {"::: a\n", ":::: {.b}\r\n", ":::\n", "  ::::::\n", "text\n", "```\n", "~~~~ x\n", "::: >custom-el\n", "\n"}; B b = {0}; for (int i = 0; i < 4 + SV_TIER; i++) b_lit(&b, L[sv_choice(9)]); b_lit(&b, "end"); go(b_done(&b)); }
void h_fd_long(void) { static const int N[] = {0, 1, 20, 240, 248, 249, 250, 251, 252, 600}, K[] = {1, 2, 40}; static const char *O[] = {"::: {#", "::: {.", "::: {k=", "::: {k=\"", "::: >", "::: ", "::: {.c #", "::: {.c k="}, *C[] = {"}", "}", "}", "\"}", "", "", "}", "}"}; int n = N[sv_choice(10)], k = K[sv_choice(3)], o = sv_choice(8), cl = sv_choice(2); sv_assume(k < 40 || n <= 20); B b = {0}; b_not(&b, 1, ""); b_c(&b, '\n'); for (int i = 0; i < k; i++) { b_lit(&b, O[o]); b_fill(&b, 'w', n); b_lit(&b, C[o]); b_c(&b, '\n'); if (cl) b_lit(&b, ":::\n"); } go(b_done(&b)); }
/* ---- post-processing: <div data-apex-fenced-element="n" rest> .. </div> becomes <n rest> .. </n> ---- */
#define PRE "<div data-apex-fenced-element=\""
static void post(char *in) {
  B w = {0}; b_lit(&w, ""); static char *st[64]; int d = 0; const char *t = in;
  while (*t) {
    if (starts(t, "</div>") && d) { d--; if (st[d]) { b_lit(&w, "</"); b_lit(&w, st[d]); b_c(&w, '>'); } else b_lit(&w, "</div>"); t += 6; continue; }
    if (starts(t, "<div") && (t[4] == '>' || sp(t[4]))) { const char *e = strchr(t, '>'); if (e) { st[d] = 0; const char *q = 0; if (starts(t, PRE)) { q = strchr(t + strlen(PRE), '"'); if (q && q < e && q > t + strlen(PRE)) st[d] = cut(t + strlen(PRE), q); } if (st[d]) { b_c(&w, '<'); b_lit(&w, st[d]); q++; while (sp(*q)) q++; if (q < e) b_c(&w, ' '); b_mem(&w, q, e + 1 - q); } else b_mem(&w, t, e + 1 - t); d++; t = e + 1; continue; } }
    b_c(&w, *t++);
  }
  char *r = apex_postprocess_fenced_divs_html(in); expect_str(r, w.p, "every wrapper becomes its element, opened and closed, and all other HTML is kept"); free(r); sv_cover("post");
}
void h_fp_seq(void) { static const char *P[] = {PRE "my-el\">", PRE "x\" class=\"c\">", "<div>", "<div class=\"d\">", "</div>", "t", PRE "open", PRE "\">", "<divx>"}; B b = {0}; b_lit(&b, "s"); for (int i = 0; i < 4 + SV_TIER; i++) b_lit(&b, P[sv_choice(9)]); b_lit(&b, "</div>"); b_not(&b, 1, ""); post(b_done(&b)); }
void h_fp_free(void) { B b = {0}; if (sv_choice(2)) { b_lit(&b, "a" PRE); b_sym(&b, 5); } else { static const int N[] = {1, 30, 127, 128, 300}, K[] = {1, 3, 20}; int n = N[sv_choice(5)], k = K[sv_choice(3)], nest = sv_choice(2); for (int i = 0; i < k; i++) { b_lit(&b, PRE); b_fill(&b, 'n', n); b_lit(&b, "\">c"); if (!i) b_not(&b, 1, "<"); if (!nest) b_lit(&b, "</div>"); } for (int i = 0; i < k && nest; i++) b_lit(&b, "</div>"); b_lit(&b, "z"); } post(b_done(&b)); }
void h_fd_place(void) { static const char *T[] = {"::: a", "\n::: {.b}\nx\n:::\n", ":::"}; B b = {0}; int k = sv_choice(3); code_ctx(&b, T[k]); go(b_done(&b)); }
