//@src src/extensions/abbreviations.c
//@job C01,C10 h_ab_free quick=60 workers=2 bound="every text of at most 5 bytes"
//@job C10 h_ab_alpha quick=60 workers=4 bound="[> followed by every text of at most 7 characters over ( ) ] : a space newline"
//@job C10 h_ab_def quick=60 workers=4 bound="definition line in either syntax, 2 arbitrary name bytes, 2 arbitrary expansion bytes, arbitrary byte before and after the line"
//@job C01,C10 h_ab_inline quick=60 workers=4 bound="inline definition with 2 arbitrary name bytes and 2 arbitrary expansion bytes, followed by a definition line"
//@job C10 h_ab_long quick=60 workers=2 bound="lines of up to 3000 fill bytes before and after a definition, arbitrary bytes at the joints"
//@job C01,C10 h_ab_rep quick=60 workers=4 bound="two abbreviations, html of at most 6 arbitrary bytes over a small alphabet around an occurrence"
//@job C10 h_ab_rep2 quick=60 workers=4 bound="escaped inline forms [&gt;..] with every text of at most 7 characters over ( ) ] A B space < newline"
//@job C01,C10 h_ab_many quick=60 workers=2 bound="1..40 occurrences, expansion of 1..3000 bytes, inline name of 1..300 bytes"
//@job C10 h_ab_code quick=60 workers=4 bound="definitions and inline forms after at most 4 characters over ` ~ a space newline and before at most 3 more, in and around fenced code and code spans"
//@job C10 h_ab_tag quick=60 workers=4 bound="html with at most 6 characters over A < > / \" ' - ! c before and 2 after tags, comments, code and raw elements out of 12 that hold the name"
//@job C10 h_ab_ref quick=60 workers=4 bound="names out of 6 and expansions with 2 arbitrary bytes over a A & ; # \" < > against html of at most 4 characters over A & a m p ; l t"
//@job C10 h_ab_defs quick=60 workers=4 bound="up to 4 lines, each a definition in either syntax, an inline one or text, names of 1 arbitrary byte"
#include "hl.h"
#include "abbreviations.h"
static int sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static int an(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static char *dup_trim(const char *s, size_t n) { while (n && sp(*s)) s++, n--; while (n && sp(s[n - 1])) n--; char *r = malloc(n + 1); memcpy(r, s, n); r[n] = 0; return r; }
typedef struct { char *a, *e; } It; static It L[64]; static int NL;
/* which bytes are code: fenced blocks and code spans */
static const char *eol(const char *l) { while (*l && *l != '\n') l++; return l; }
static int fence(const char *l, char *k) { int i = 0; while (l[i] == ' ') i++; if (i > 3) return 0; l += i; if (*l != '`' && *l != '~') return 0; int n = 0; while (l[n] == *l) n++; *k = *l; if (n < 3) return 0; if (*l == '`') for (const char *q = l + n; q < eol(l); q++) if (*q == '`') return 0; return n; }
static int fclose_(const char *l, char k, int n) { char k2; int i = 0; if (fence(l, &k2) < n || k2 != k) return 0; while (l[i] == ' ' || l[i] == k) i++; for (const char *q = l + i; q < eol(l); q++) if (*q != ' ' && *q != '\t' && *q != '\r') return 0; return 1; }
static const char *block(const char *l) { char k; int n = fence(l, &k); if (!n) return l; for (;;) { l = eol(l); if (!*l) return l; l++; if (fclose_(l, k, n)) { l = eol(l); return *l ? l + 1 : l; } } }
static const char *span(const char *t) { size_t n = 0; while (t[n] == '`') n++; for (const char *q = t + n; *q;) { if (*q == '`') { size_t m = 0; while (q[m] == '`') m++; q += m; if (m == n) return q; } else { if (*q == '\n') { const char *z = q + 1; while (*z == ' ' || *z == '\t' || *z == '\r') z++; if (*z == '\n') break; } q++; } } return t + n; }
static char *oracle_extract(const char *t) {
  B o = {0}; b_lit(&o, ""); NL = 0; const char *t0 = t;
  while (*t) {
    const char *c = t == t0 || t[-1] == '\n' ? block(t) : t; if (c == t && *t == '`') c = span(t); if (c > t) { b_mem(&o, t, c - t); t = c; continue; }
    if (starts(t, "[>(")) {
      const char *ae = strchr(t + 3, ')'), *ee = 0, *es = 0;
      if (ae) { es = ae + 1; while (*es == ' ') es++; ee = strchr(es, ']'); }
      if (ee && ae > t + 3 && ae - (t + 3) < 256 && ee > es && ee - es < 1024) {
        char *a = dup_trim(t + 3, ae - t - 3), *e = dup_trim(es, ee - es);
        if (*a) { for (int i = NL; i > 0; i--) L[i] = L[i - 1]; L[0].a = a; L[0].e = e; NL++; }
        b_mem(&o, t + 3, ae - t - 3); t = ee + 1; continue;
      }
    }
    b_c(&o, *t++);
  }
  B r = {0}; b_lit(&r, ""); const char *l = o.p;
  while (*l) {
    const char *c = block(l); if (c > l) { b_mem(&r, l, c - l); l = c; continue; }
    const char *e = eol(l);
    const char *cb = 0; if ((l[0] == '*' && l[1] == '[') || (l[0] == '[' && l[1] == '>')) { for (cb = l + 2; cb < e && *cb != ']'; cb++); if (cb >= e || cb[1] != ':') cb = 0; }
    if (cb) { char *a = dup_trim(l + 2, cb - l - 2), *x = dup_trim(cb + 2, e - cb - 2); if (*a && *x) { L[NL].a = a; L[NL].e = x; NL++; } }
    else { b_mem(&r, l, e - l); if (*e) b_c(&r, '\n'); }
    l = *e ? e + 1 : e;
  }
  return r.p;
}
static void ext(char *in) {
  char *w = oracle_extract(in), *p = in; abbr_item *l = apex_extract_abbreviations(&p);
  expect_str(p, w, "definitions are removed and all other text is kept");
  int i = 0; for (abbr_item *x = l; x; x = x->next, i++) { if (i >= NL) { sv_fail("no abbreviation is invented"); return; } expect_str(x->abbr, L[i].a, "abbreviation text"); expect_str(x->expansion, L[i].e, "expansion text"); }
  sv_assert(i == NL, "every definition is collected"); if (i) sv_cover("defined"); else sv_cover("none"); apex_free_abbreviations(l);
}
void h_ab_free(void) { B b = {0}; b_sym(&b, 5); ext(b_done(&b)); }
void h_ab_alpha(void) { B b = {0}; b_lit(&b, "[>"); b_in0(&b, 7, "()]:a \n"); ext(b_done(&b)); }
void h_ab_def(void) { B b = {0}; int k = sv_choice(2); b_lit(&b, "x"); b_sym(&b, 1); b_lit(&b, k ? "*[" : "[>"); b_sym(&b, 1); b_lit(&b, "A"); b_sym(&b, 1); b_lit(&b, "]:"); b_sym(&b, 1); b_lit(&b, "E"); b_sym(&b, 1); b_lit(&b, "\nrest A"); ext(b_done(&b)); }
void h_ab_inline(void) { B b = {0}; b_lit(&b, "x [>("); b_sym(&b, 2); b_lit(&b, ")"); b_sym(&b, 2); b_lit(&b, "] y [>(Q) qq]\n*[D]: dd\n"); ext(b_done(&b)); }
void h_ab_long(void) { static const int N[] = {0, 1022, 1023, 1024, 3000}; B b = {0}; int i = sv_choice(5), j = sv_choice(5), d = sv_choice(3); if (d == 2 && i != j) return; b_fill(&b, 'p', N[i]); b_sym(&b, 1); if (d) { b_lit(&b, "\n*[A"); if (d > 1) b_fill(&b, 'n', N[sv_choice(5)]); b_lit(&b, "]: bee"); if (d > 1) b_fill(&b, 'x', N[sv_choice(5)]); b_lit(&b, "\n"); } b_fill(&b, 'q', N[j]); b_sym(&b, 1); b_lit(&b, "\nend"); ext(b_done(&b)); }
static size_t ref(const char *p) { if (*p != '&') return 0; size_t n = 1; if (p[n] == '#') n++; size_t s = n; while (an(p[n])) n++; return n > s && p[n] == ';' ? n + 1 : 0; }
static char *esc(const char *s) { B o = {0}; b_lit(&o, ""); for (; *s; s++) if (*s == '<') b_lit(&o, "&lt;"); else if (*s == '>') b_lit(&o, "&gt;"); else if (*s == '"') b_lit(&o, "&quot;"); else if (*s == '&' && !ref(s)) b_lit(&o, "&amp;"); else b_c(&o, *s); return b_done(&o); }
static int wc(const char *p) { unsigned char c = p[0], d; if (an(p[0])) return 1; if (c < 0xC3 || c > 0xDF) return 0; d = p[1]; return d >= 0x80 && d <= 0xBF && !(c == 0xC3 && (d == 0x97 || d == 0xB7)); }
static int wb(const char *h, const char *p) { return p > h && (an(p[-1]) || (p - h > 1 && (p[-1] & 0x80) && wc(p - 2))); }
static int al(char c) { return an(c) && !(c >= '0' && c <= '9'); }
static char lc(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int ci(const char *s, const char *n) { while (*n) if (lc(*s++) != *n++) return 0; return 1; }
static const char *tag_end(const char *p) { if (starts(p, "<!--")) { const char *e = strstr(p + 4, "-->"); return e ? e + 3 : 0; } if (!al(p[1]) && p[1] != '/' && p[1] != '!' && p[1] != '?') return 0; char q = 0; for (p++; *p; p++) { if (q) { if (*p == q) q = 0; } else if (*p == '"' || *p == '\'') q = *p; else if (*p == '>') return p + 1; } return 0; }
static const char *keep_end(const char *p) { static const char *const V[] = {"pre", "code", "script", "style", "textarea", "abbr"}; const char *e = tag_end(p); if (!e) return 0; for (int i = 0; i < 6; i++) { size_t n = strlen(V[i]); if (!ci(p + 1, V[i]) || an(p[1 + n]) || p[1 + n] == '-') continue; for (const char *q = e; *q; q++) if (q[0] == '<' && q[1] == '/' && ci(q + 2, V[i]) && !an(q[2 + n])) { const char *c = tag_end(q); return c ? c : e; } } return e; }
static char *oracle_rep(const char *h) {
  B o = {0}; b_lit(&o, ""); const char *t = h; char *X[8], *Y[8]; for (int i = 0; i < NL; i++) { X[i] = esc(L[i].a); Y[i] = esc(L[i].e); }
#define TAG(e, a) (b_lit(&o, "<abbr title=\""), b_lit(&o, e), b_lit(&o, "\">"), b_lit(&o, a), b_lit(&o, "</abbr>"))
  while (*t) {
    int done = 0;
    if (*t == '<') { const char *k = keep_end(t); if (k) { b_mem(&o, t, k - t); t = k; continue; } }
    if (starts(t, "[&gt;")) {
      const char *s = t + 5, *e = s; while (*e && *e != ']' && *e != '\n' && *e != '<') e++;
      if (*e == ']') {
        if (*s == '(') { const char *c = strchr(s + 1, ')'); if (c && c < e && c > s + 1 && e > c + 1) { TAG(dup_trim(c + 1, e - c - 1), dup_trim(s + 1, c - s - 1)); done = 1; } }
        else if (e > s) { char *r = dup_trim(s, e - s); for (int i = 0; i < NL && !done; i++) if (!strcmp(X[i], r)) { TAG(Y[i], X[i]); done = 1; } }
        if (done) { t = e + 1; continue; }
      }
    }
    for (int i = 0; i < NL && !done; i++) { size_t n = strlen(X[i]); if (!strncmp(t, X[i], n) && !wb(h, t) && !wc(t + n)) { TAG(Y[i], X[i]); t += n; done = 1; } }
    if (!done) { size_t n = ref(t); if (!n) n = 1; b_mem(&o, t, n); t += n; }
  }
  return o.p;
}
static void rep(char *in) {
  abbr_item *l = 0; for (int i = NL - 1; i >= 0; i--) { abbr_item *x = malloc(sizeof *x); x->abbr = strdup(L[i].a); x->expansion = strdup(L[i].e); x->next = l; l = x; }
  char *r = apex_replace_abbreviations(in, l), *w = oracle_rep(in); expect_str(r, w, "exactly the whole-word occurrences are wrapped, everything else is unchanged"); if (strcmp(in, r)) sv_cover("replaced"); else sv_cover("same");
}
void h_ab_rep(void) { NL = 2; L[0].a = "AB"; L[0].e = "alpha beta"; L[1].a = "A"; L[1].e = "alpha"; B b = {0}; int k = sv_choice(2); if (k) b_sym(&b, 5); else { b_sym(&b, 1); b_lit(&b, "AB"); b_sym(&b, 2); b_lit(&b, "A"); b_sym(&b, 1); } rep(b_done(&b)); }
void h_ab_rep2(void) { NL = 2; L[0].a = "AB"; L[0].e = "alpha beta"; L[1].a = "B"; L[1].e = "beta"; B b = {0}; b_lit(&b, "p[&gt;"); b_in0(&b, 7, "()]AB <\n"); rep(b_done(&b)); }
void h_ab_many(void) { static const int N[] = {1, 2, 5, 40}, E[] = {1, 60, 900, 2100, 3000}; int n = N[sv_choice(4)], e = E[sv_choice(5)], k = sv_choice(3); B x = {0}; b_fill(&x, 'e', e); NL = 1; L[0].a = "HT"; L[0].e = b_done(&x); B b = {0};
  static const int Q[] = {1, 254, 255, 256, 300}; int q = Q[sv_choice(5)]; for (int i = 0; i < n; i++) { if (i == 1) b_sym(&b, 1); if (k == 0) b_lit(&b, "HT "); else if (k == 1) b_lit(&b, "[&gt;HT]"); else { b_lit(&b, "[&gt;("); b_fill(&b, 'i', q); b_lit(&b, ") "); b_fill(&b, 'x', q * 5); b_lit(&b, "]"); } } rep(b_done(&b)); }

void h_ab_code(void) { B b = {0}; int k = sv_choice(2); static const char *const F[] = {"", "```\n", "~~~~ x\n", "   ```\n", "a `", "``"}; b_lit(&b, F[sv_choice(6)]); b_in0(&b, 2, "`~a \n"); char *pre = b_done(&b); B c = {0}; b_lit(&c, pre); b_lit(&c, k ? "[>(Q) qq]" : "\n*[D]: dd\n"); B d = {0}; b_in0(&d, 3, "`~a \n"); b_lit(&c, b_done(&d)); b_lit(&c, sv_choice(2) ? "\n[>R]: rr\n" : "[>(S) ss] z"); ext(b_done(&c)); }
void h_ab_tag(void) { static const char *const T[] = {"<a title=\"A\">", "<a title='A \" A'>A</a>", "<!-- A > A -->", "<code>A</code>", "<pre><code>A</code> A</pre>", "<CODE x=1>A</CODE >", "<abbr title=\"x\">A</abbr>", "<script>A<b>A</script>", "</p A>", "<codex>A</codex>", "<!DOCTYPE A>", "<style>A"}; NL = 1; L[0].a = "A"; L[0].e = "alpha"; B b = {0}; b_in0(&b, sv_choice(2) ? 4 : 2, "A<>/\"'-!c"); char *p = b_done(&b); B c = {0}; b_lit(&c, p); b_lit(&c, T[sv_choice(12)]); B d = {0}; b_in0(&d, 2, "A<>/\"'-!c"); b_lit(&c, b_done(&d)); b_lit(&c, " A"); rep(b_done(&c)); }
void h_ab_ref(void) { static const char *const N[] = {"amp", "A", "A&A", "lt", "a<A", "A\""}; NL = 1; L[0].a = (char *)N[sv_choice(6)]; B e = {0}; b_lit(&e, "x"); b_in(&e, 2, "aA&;#\"<>"); L[0].e = b_done(&e); B b = {0}; int k = sv_choice(3); if (k == 0) b_lit(&b, "A&amp;A "); if (k == 1) b_lit(&b, "a&lt;A [&gt;A&quot;]"); b_in0(&b, 4, "A&amp;lt"); rep(b_done(&b)); }

void h_ab_defs(void) { B b = {0}; b_lit(&b, ""); int n = 1 + sv_choice(4); for (int i = 0; i < n; i++) { int k = sv_choice(4); if (k == 3) { b_lit(&b, "txt\n"); continue; } b_lit(&b, k == 0 ? "*[" : k == 1 ? "[>" : "u [>("); if (i < 2) b_sym(&b, 1); else b_lit(&b, "N"); b_lit(&b, k == 2 ? ") e" : "]: e"); b_c(&b, (char)('0' + i)); b_lit(&b, k == 2 ? "]\n" : "\n"); } ext(b_done(&b)); }
