//@src src/extensions/header_ids.c src/extensions/emoji.c @model/cmark.c
//@job C11 h_id_ascii quick=60 workers=4 bound="every ASCII heading of at most 4 bytes, all three formats"
//@job C11 h_id_alpha quick=60 workers=4 bound="every heading of at most 6 (thorough 7) characters over A, 9, space, dash, dot, tab; all three formats"
//@job C11 h_id_utf quick=60 workers=2 bound="headings with one U+00C0..U+00FF letter, em/en dash or curly quote between arbitrary ASCII bytes"
//@job C02,C11 h_id_bytes quick=90 workers=6 bound="every byte string of at most 3 bytes (invalid UTF-8 included), all formats"
//@job C02,C11 h_id_trunc quick=60 workers=2 bound="text ending in a cut UTF-8 sequence with arbitrary lead byte and continuation"
//@job C02,C11 h_id_emoji quick=60 workers=2 bound="1..6 emoji with long names, 0..40 bytes of text before/after and one arbitrary ASCII byte"
//@job C02,C11 h_id_long quick=60 workers=2 bound="headings of up to 5000 bytes with two arbitrary ASCII bytes"
//@job C12 h_mid_free quick=60 workers=4 bound="every heading text of at most 6 bytes"
//@job C12 h_mid_alpha quick=60 workers=4 bound="every text of at most 8 characters over [ ] { } # a space %"
//@job C12 h_mid_tmpl quick=60 workers=4 bound="Heading text with an [id] or {#id} tail, arbitrary bytes inside, before and after"
//@job C12 h_mid_node quick=60 workers=4 bound="headings that start with nothing, text, code, markup or an emphasis after [x], and end in an ID in text, in text that goes on, in a link written in 5 ways, or before more content; 2 arbitrary id bytes, with and without earlier attributes"
//@job C02,C12 h_mid_text quick=60 workers=2 bound="heading nodes of 1..8 text/code/other children of 0..700 bytes with arbitrary bytes"
//@job C11 h_id_wide quick=60 workers=2 bound="headings with one CJK character of 3 bytes or a letter of 4 bytes, the last byte arbitrary, between ASCII letters; MultiMarkdown and GitHub formats"
#include "hl.h"
#include <cmark-gfm.h>
#include "header_ids.h"
static int an(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static char lo(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
/* text: ASCII, or one multi-byte letter given separately as its expansion */
static char *oracle(const char *t, int f) {
  B o = {0}; b_lit(&o, ""); int punct = 0;
  for (; *t; t++) {
    if (an(*t)) { b_c(&o, lo(*t)); punct = 0; continue; }
    if (f == APEX_ID_FORMAT_MMD) { if (*t == '-') b_c(&o, '-'); continue; }
    if (f == APEX_ID_FORMAT_GFM) { if ((*t == ' ' || *t == '-') && o.n && o.p[o.n - 1] != '-') b_c(&o, '-'); continue; }
    if (*t == '-') { b_c(&o, '-'); punct = 0; }
    else if (*t == ' ') { if (!punct) b_c(&o, '-'); punct = 0; }
    else { const char *n = t + 1; while (*n == ' ' || *n == '\t' || *n == '\n' || *n == '\r') n++; if (*n) { b_c(&o, '-'); punct = 1; } else punct = 0; }
  }
  char *r = o.p;
  if (f == APEX_ID_FORMAT_GFM) while (o.n && r[o.n - 1] == '-') r[--o.n] = 0;
  if (f == APEX_ID_FORMAT_KRAMDOWN) while (*r == '-') r++;
  return *r ? r : "header";
}
static void go(char *in, const char *spec) {
  int f = sv_choice(3); char *r = apex_generate_header_id(in, f); expect_str(r, oracle(spec, f), "the heading ID follows the rules of the chosen format"); sv_cover(f == 0 ? "gfm" : f == 1 ? "mmd" : "kramdown");
}
static void b_ascii(B *b, int k) { b_need(b, k); for (int i = 0; i < k; i++) { b_sym(b, 1); sv_assume((b->p[b->n - 1] & 0x80) == 0); } }
void h_id_ascii(void) { B b = {0}; b_ascii(&b, 4); char *in = b_done(&b); go(in, in); }
void h_id_alpha(void) { B b = {0}; b_in0(&b, 5 + SV_TIER, "A9 -.\t"); char *in = b_done(&b); go(in, in); }
/* safety and shape for anything: an ID never contains blanks, quotes or markup */
static void shape(char *in) {
  int f = sv_choice(3); char *r = apex_generate_header_id(in, f); size_t n = strlen(r); sv_emit("id", r, n); sv_assert(n > 0, "an ID is never empty");
  for (size_t i = 0; i < n; i++) { sv_assert(r[i] != ' ' && r[i] != '\t' && r[i] != '\n', "an ID contains no blanks"); sv_assert(r[i] != '"' && r[i] != '\'' && r[i] != '<' && r[i] != '>' && r[i] != '&', "an ID contains no markup characters"); }
  sv_cover("shape");
}
static void nomk(B *b, int k) { b_sym(b, k); }
void h_id_bytes(void) { B b = {0}; b_lit(&b, "x"); b_sym(&b, 3); char *in = b_done(&b);
  /* markup after a broken lead byte is outside valid UTF-8: shape only for well-formed tails */
  int f = sv_choice(3); char *r = apex_generate_header_id(in, f); size_t n = strlen(r); sv_emit("id", r, n); sv_assert(n > 0, "an ID is never empty"); sv_assert(r[0] == 'x', "an ID keeps the first letter"); sv_cover("bytes"); }
void h_id_trunc(void) { B b = {0}; int k = sv_choice(4); b_fill(&b, 'a', k * 9); b_sym(&b, 1); sv_assume((b.p[b.n - 1] & 0xC0) == 0xC0); if (sv_choice(2)) { b_sym(&b, 1); sv_assume((b.p[b.n - 1] & 0xC0) == 0x80); } shape(b_done(&b)); }
void h_id_wide(void) { B b = {0}, s = {0}; int mmd = sv_choice(2), k = sv_choice(2), n = 1 + sv_choice(2); b_lit(&b, "a"); b_lit(&s, "a"); for (int i = 0; i < n; i++) { size_t at = b.n; b_lit(&b, k ? "\xf0\x9d\x90" : "\xe4\xb8"); b_sym(&b, 1); sv_assume((b.p[b.n - 1] & 0xC0) == 0x80); if (mmd) b_lit(&s, b.p + at); b_lit(&b, "b"); b_lit(&s, "b"); } expect_str(apex_generate_header_id(b_done(&b), mmd ? APEX_ID_FORMAT_MMD : APEX_ID_FORMAT_GFM), s.p, "the heading ID follows the rules of the chosen format"); sv_cover("wide"); }
void h_id_utf(void) {
  B b = {0}, s = {0}; int f = sv_choice(3), k = sv_choice(3); b_lit(&b, "a"); b_ascii(&b, 1); char c1 = b.p[b.n - 1]; sv_assume(c1); b_lit(&s, "a"); b_c(&s, c1);
  if (k == 0) { /* letter U+00C0..U+00FF */
    b_c(&b, (char)0xC3); b_sym(&b, 1); unsigned char c = b.p[b.n - 1]; sv_assume((c & 0xC0) == 0x80); unsigned char cp = c + 0x40;
    static const char map[65] = "aaaaaa\1ceeeeiiii\1nooooo\1ouuuuy\1saaaaaa\1ceeeeiiii\1nooooo\1ouuuuy\1y"; char m = map[cp - 0xC0];
    if (f == APEX_ID_FORMAT_GFM) { if (m != 1) b_c(&s, m); } else if (f == APEX_ID_FORMAT_MMD) { b_c(&s, (char)0xC3); b_c(&s, c); }
  } else if (k == 1) { int e = sv_choice(2); b_lit(&b, e ? "\xe2\x80\x94" : "\xe2\x80\x93"); if (f == APEX_ID_FORMAT_MMD) b_lit(&s, e ? "\xe2\x80\x94" : "\xe2\x80\x93"); }
  else b_lit(&b, sv_choice(2) ? "\xe2\x80\x99" : "\xe2\x80\x98");
  b_lit(&b, "z"); b_lit(&s, "z"); char *in = b_done(&b), *spec = b_done(&s), *r = apex_generate_header_id(in, f);
  /* build the expectation: ASCII rules on the neighbours, the letter as given */
  B w = {0}; char *o = 0;
  if (f == APEX_ID_FORMAT_MMD) { b_lit(&w, ""); for (char *p = spec; *p; p++) if (an(*p)) b_c(&w, lo(*p)); else if (*p == '-' || (*p & 0x80)) b_c(&w, *p); o = w.p; } else o = oracle(spec, f);
  expect_str(r, o, "letters with diacritics, dashes and quotes follow the rules of the chosen format"); sv_cover("utf");
}
void h_id_emoji(void) {
  static const int N[] = {1, 2, 3, 6}; int f = APEX_ID_FORMAT_GFM, n = N[sv_choice(4)], k = sv_choice(12), j = sv_choice(3); B b = {0}, w = {0}; static const char *E[] = {"\xf0\x9f\x92\xa0", "\xf0\x9f\x98\x9c", "\xf0\x9f\x93\x94"}, *M[] = {"diamond_shape_with_a_dot_inside", "stuck_out_tongue_winking_eye", "notebook_with_decorative_cover"};
  b_lit(&b, "h"); b_lit(&w, "h"); for (int i = 0; i < n; i++) { b_lit(&b, E[j]); b_lit(&w, M[j]); } b_ascii(&b, 1); char c = b.p[b.n - 1]; if (c) b_c(&w, c); int l = k < 11 ? k : 40; if (c) { b_fill(&b, 'q', l); b_fill(&w, 'q', l); }
  char *in = b_done(&b), *r = apex_generate_header_id(in, f), *o = 0; B x = {0}; b_lit(&x, ""); for (char *p = w.p; *p; p++) { if (an(*p) || *p == '_' && p - w.p < 1 + n * strlen(M[j])) b_c(&x, lo(*p)); else if ((*p == ' ' || *p == '-') && x.p[x.n - 1] != '-') b_c(&x, '-'); } while (x.p[x.n - 1] == '-') x.p[--x.n] = 0;
  expect_str(r, x.p, "emoji in a heading become their names in the ID"); sv_cover("emoji");
}
void h_id_long(void) { static const int N[] = {10, 85, 255, 256, 700, 5000}; B b = {0}; int n = N[sv_choice(6)]; b_fill(&b, 'A', n); b_ascii(&b, 1); sv_assume(b.p[b.n - 1]); b_fill(&b, ' ', 3); b_fill(&b, 'b', n); b_ascii(&b, 1); char *in = b_done(&b); go(in, in); }
/* ---- manual IDs ---- */
static char *wid, *wtext;
static int oracle_mid(const char *t) {
  const char *m = strrchr(t, '['); wid = wtext = 0; const char *e;
  for (int k = 0; k < 2; k++) {
    const char *s = k ? strrchr(t, '{') : m; if (!s) continue; int skip = 1; if (k) { if (s[1] != '#') continue; skip = 2; }
    e = strchr(s, k ? '}' : ']'); if (!e || e <= s + skip) continue; if (!k && s[1] == '%') continue;
    const char *a = e + 1; while (*a && sp(*a)) a++; if (*a) continue;
    B i = {0}, x = {0}; b_mem(&i, s + skip, e - s - skip); const char *pe = s; while (pe > t && sp(pe[-1])) pe--; b_lit(&x, ""); b_mem(&x, t, pe - t); wid = i.p; wtext = x.p; return 1;
  }
  return 0;
}
static void mid(char *in) {
  int w = oracle_mid(in); char *orig = strdup(in), *id = 0; bool r = apex_extract_manual_header_id(&in, &id); sv_assert(r == w, "a manual ID is found exactly when the heading ends in [id] or {#id}");
  if (w) { expect_str(id, wid, "the manual ID is the delimited text"); expect_str(in, wtext, "the heading text is the text before the ID"); sv_cover("id"); } else { expect_str(in, orig, "text without a manual ID is unchanged"); sv_cover("none"); }
}
void h_mid_free(void) { B b = {0}; b_sym(&b, 6); mid(b_done(&b)); }
void h_mid_alpha(void) { B b = {0}; b_in0(&b, 8, "[]{}#a %"); mid(b_done(&b)); }
void h_mid_tmpl(void) { B b = {0}; int k = sv_choice(2); b_lit(&b, "Hd"); b_sym(&b, 1); b_lit(&b, k ? "[" : "{#"); b_sym(&b, 1); b_lit(&b, "id"); b_sym(&b, 1); b_lit(&b, k ? "]" : "}"); b_sym(&b, 2); mid(b_done(&b)); }
static cmark_node *leaf(int t, const char *s) { cmark_node *n = cmark_node_new(t); cmark_node_set_literal(n, s); return n; }
void sv_node_columns(cmark_node *n, int a, int b);
static void b_attr(B *w, const char *id) { for (; *id; id++) if (*id == '&') b_lit(w, "&amp;"); else if (*id == '<') b_lit(w, "&lt;"); else if (*id == '>') b_lit(w, "&gt;"); else if (*id == '"') b_lit(w, "&quot;"); else b_c(w, *id); }
/* a heading of 0..2 parts (text, emphasis, code, break) and a last one that is an ID in text, or a link written as [label], [label][], [label](url) or <url> */
void h_mid_node(void) {
  cmark_node *h = cmark_node_new(CMARK_NODE_HEADING); int k = sv_choice(9), ex = sv_choice(2), before = sv_choice(5), after = sv_choice(3); B i = {0}; b_not(&i, 2, "[]{}#% \t\n\r\v\f"); char *id = b_done(&i); sv_assume(*id); int n = strlen(id); if (ex) cmark_node_set_user_data(h, strdup("class=\"c\""));
  B t = {0}, w = {0}; if (ex) b_lit(&w, "class=\"c\" "); b_lit(&w, "id=\""); b_attr(&w, id); b_lit(&w, "\"");
  if (before) cmark_node_append_child(h, leaf(before == 1 ? CMARK_NODE_CODE : before == 4 ? CMARK_NODE_HTML_INLINE : CMARK_NODE_TEXT, before == 3 ? "Early [x] " : "Part ")); if (before == 3) { cmark_node *e = cmark_node_new(CMARK_NODE_EMPH); cmark_node_append_child(e, leaf(CMARK_NODE_TEXT, "em")); cmark_node_append_child(h, e); }
  cmark_node *l, *first = cmark_node_first_child(h); int want = 0, link = 0;
  if (k < 4) { b_lit(&t, "Title "); b_lit(&t, k == 0 || k == 2 ? "{#" : "["); b_lit(&t, id); b_lit(&t, k == 0 || k == 2 ? "}" : "]"); if (k > 1) b_lit(&t, " x"); l = leaf(CMARK_NODE_TEXT, t.p); want = k < 2; }
  else { l = cmark_node_new(CMARK_NODE_LINK); cmark_node_append_child(l, leaf(CMARK_NODE_TEXT, id)); link = 1; B u = {0}; if (k == 7) b_lit(&u, id); else if (k == 8) { b_lit(&u, "mailto:"); b_lit(&u, id); } else b_lit(&u, "http://u.vw/"); cmark_node_set_url(l, u.p); sv_node_columns(l, 7, 6 + n + (k == 5 ? 4 : k == 6 ? 16 : 2)); want = k == 4 && first; }
  cmark_node_append_child(h, l); if (after == 1) cmark_node_append_child(h, cmark_node_new(CMARK_NODE_SOFTBREAK)); if (after == 2) { cmark_node_append_child(h, leaf(CMARK_NODE_CODE, "z")); want = 0; }
  bool r = apex_process_manual_header_id(h); sv_assert(r == want, "an ID is taken exactly when the heading ends in [id] or {#id}"); const char *ud = cmark_node_get_user_data(h);
  if (want) { expect_str(ud, w.p, "the ID attribute is attached after earlier attributes, escaped"); cmark_node *x = first ? cmark_node_next(before == 3 ? cmark_node_next(first) : first) : cmark_node_first_child(h); sv_assert(x && cmark_node_get_type(x) == CMARK_NODE_TEXT, "the last part is text"); expect_str(cmark_node_get_literal(x), link ? id : "Title", "the ID syntax leaves the text"); sv_cover(link ? "link" : "text"); }
  else { if (ex) expect_str(ud, "class=\"c\"", "attributes are unchanged"); else sv_assert(!ud, "no attributes are added"); if (link) sv_assert(cmark_node_get_type(l) == CMARK_NODE_LINK && cmark_node_parent(l) == h, "a link stays a link"); else expect_str(cmark_node_get_literal(l), t.p, "the text is unchanged"); sv_cover("none"); }
  if (first) expect_str(cmark_node_get_literal(first), before == 3 ? "Early [x] " : "Part ", "what stands before the ID is unchanged");
}
void h_mid_text(void) {
  static const int N[] = {1, 2, 8}, L[] = {0, 1, 100, 255, 256, 257, 700}; int n = N[sv_choice(3)], l = L[sv_choice(7)]; cmark_node *h = cmark_node_new(CMARK_NODE_HEADING); B w = {0}; b_lit(&w, "");
  for (int i = 0; i < n; i++) { B t = {0}; b_fill(&t, 'a' + i, l); if (i == n / 2) b_sym(&t, 1); char *s = b_done(&t); int ty = i % 3; cmark_node_append_child(h, leaf(ty == 0 ? CMARK_NODE_TEXT : ty == 1 ? CMARK_NODE_CODE : CMARK_NODE_HTML_INLINE, s)); if (ty < 2) b_lit(&w, s); }
  expect_str(apex_extract_heading_text(h), w.p, "heading text is the concatenation of its text and code"); sv_cover("text");
}
