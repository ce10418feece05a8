//@src src/pretty_html.c
//@job C17 h_ph_tok quick=90 workers=6 bound="every sequence of 3 (thorough 4) of 22 tags, each followed by text, a newline or nothing"
//@job C17 h_ph_text quick=60 workers=4 bound="3 arbitrary text bytes around and between 3 tags out of 8"
//@job C03,C17 h_ph_free quick=60 workers=4 bound="every text of at most 7 characters over < > / p a space newline, and every text of at most 4 bytes"
//@job C17 h_ph_pre quick=60 workers=2 bound="pre and code blocks with every content of at most 6 characters over newline, space, tab, a, with and without inner markup, at depth 0..2"
//@job C03,C17 h_ph_long quick=60 workers=6 bound="up to 60 nested blocks, up to 400 lines, tags of up to 5000 bytes, one arbitrary byte"
#include "hl.h"
char *apex_pretty_print_html(const char *);
static int ws(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static const char *BL[] = {"html", "head", "body", "div", "section", "article", "nav", "header", "footer", "main", "aside", "h1", "h2", "h3", "h4", "h5", "h6", "p", "blockquote", "pre", "ul", "ol", "li", "dl", "dt", "dd", "table", "thead", "tbody", "tfoot", "tr", "th", "td", "figure", "figcaption", "details", "summary"};
static int named(const char *t, const char *n) { t++; if (*t == '/') t++; size_t k = strlen(n); return !strncmp(t, n, k) && (ws(t[k]) || t[k] == '>' || t[k] == '/'); }
static int block(const char *t) { for (int i = 0; i < sizeof BL / sizeof *BL; i++) if (named(t, BL[i])) return 1; return 0; }
/* in: well-formed tags, text without < and >.  Only white space between tags/text may differ, and only where layout allows */
static void check(const char *in, const char *out) {
  const char *i = in, *o = out; int pre = 0, code = 0, lastblock = 1; sv_emit("out", out, strlen(out));
  for (;;) {
    if (pre || code) { sv_assert(*i == *o, "preformatted text and code come out byte for byte"); if (!*i) return; }
    else {
      int wi = 0, wo = 0; while (ws(*i)) i++, wi = 1; while (ws(*o)) o++, wo = 1;
      if (*i != *o) { sv_fail("only white space is changed"); return; }
      if (!*i) return;
      sv_assert(!wi || wo, "white space between words and elements never disappears");
      if (!wi && wo && i != in) sv_assert(lastblock || (*i == '<' && block(i)), "white space is only added next to block elements");
    }
    if (*i == '<') {
      const char *e = strchr(i, '>'); size_t n = e - i + 1; sv_assert(strlen(o) >= n, "tags come out unchanged"); sv_assert_mem_eq(i, o, n, "tags come out unchanged");
      lastblock = block(i); if (named(i, "pre")) { if (i[1] == '/') { if (pre) pre--; } else pre++; } if (named(i, "code")) { if (i[1] == '/') { if (code) code--; } else code++; }
      i += n; o += n;
    } else { lastblock = 0; i++; o++; }
  }
}
static void go(char *in) { char *r = apex_pretty_print_html(in); check(in, r); if (strcmp(in, r)) sv_cover("laid out"); else sv_cover("same"); }
static const char *T[] = {"<p>", "</p>", "<div class=\"a b\">", "</div>", "<em>", "</em>", "<code>", "</code>", "<pre>", "</pre>", "<tr>", "</tr>", "</tbody>", "<td>", "</td>", "<br />", "<img src=\"x\">", "<li>", "</li>", "<hr>", "<x-y>", "<!-- c -->"};
void h_ph_tok(void) { B b = {0}; for (int i = 0; i < 2 + SV_TIER; i++) { b_lit(&b, T[sv_choice(22)]); static const char *W[] = {"", "t", "\n"}; b_lit(&b, W[sv_choice(3)]); } b_lit(&b, "z\n"); go(b_done(&b)); }
void h_ph_text(void) { static const char *S[] = {"<p>", "</p>", "<a href=\"u\">", "</a>", "<code>", "</code>", "<img>", "<pre>"}; B b = {0}; b_not(&b, 1, "<>"); for (int i = 0; i < 3; i++) { b_lit(&b, S[sv_choice(8)]); if (i < 2) b_not(&b, 1, "<>"); } go(b_done(&b)); }
void h_ph_free(void) { B b = {0}; if (sv_choice(2)) b_in0(&b, 7, "<>/pa \n"); else b_sym(&b, 4); char *in = b_done(&b), *r = apex_pretty_print_html(in); sv_emit("out", r, strlen(r)); const char *i = in, *o = r; for (;;) { while (ws(*i)) i++; while (ws(*o)) o++; sv_assert(*i == *o, "only white space is changed"); if (!*i || *i != *o) break; i++; o++; } sv_cover("free"); }
void h_ph_pre(void) {
  static const char *O[] = {"<pre>", "<pre><code>", "<pre class=\"k\"><code class=\"l\">", "<code>", "<pre>x<code>y</code>", "<pre><b>q</b>", "<pre\nid=\"k\">", "<code\tid=\"k\">", "<pre><code\nclass=\"l\">"}, *C[] = {"</pre>", "</code></pre>", "</code></pre>", "</code>", "</pre>", "</pre>", "</pre>", "</code>", "</code></pre>"}; int k = sv_choice(9), d = sv_choice(3), t = sv_choice(2);
  B b = {0}; for (int i = 0; i < d; i++) b_lit(&b, "<div>"); if (t) b_lit(&b, "a\n"); b_lit(&b, O[k]); b_in0(&b, 6, "\n \ta"); char *h = b_done(&b); b_lit(&b, h); b_lit(&b, C[k]); b_lit(&b, t ? "\n" : "w"); for (int i = 0; i < d; i++) b_lit(&b, "</div>"); b_lit(&b, "<p>end</p>"); go(b_done(&b));
}
void h_ph_long(void) {
  static const int D[] = {0, 1, 9, 60}, L[] = {0, 1, 40, 400}, A[] = {0, 50, 99, 300, 5000}; int d = D[sv_choice(4)], l = L[sv_choice(4)], a = A[sv_choice(5)], k = sv_choice(3); static const char *E[] = {"p", "em", "xx"}; B b = {0}; for (int i = 0; i < d; i++) b_lit(&b, "<div>"); for (int i = 0; i < l; i++) { if (i == 20) b_not(&b, 1, "<>"); b_lit(&b, "l\n"); }
  b_c(&b, '<'); b_lit(&b, E[k]); if (a) { b_lit(&b, " t=\""); b_fill(&b, 'v', a); b_lit(&b, "\""); } b_c(&b, '>'); b_not(&b, 1, "<>"); for (int i = 0; i < d; i++) b_lit(&b, "</div>"); go(b_done(&b));
}
