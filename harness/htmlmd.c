//@src src/extensions/html_markdown.c
//@job C18 h_hm_one quick=90 workers=6 bound="one element with the attribute in every form (7 values, quoting styles, other attributes before/after, separated by any blank), one arbitrary content byte; in its plain form 2 arbitrary content bytes and arbitrary bytes before and after"
//@job C18 h_hm_nest quick=60 workers=2 bound="up to 3 elements nested or in sequence, with same or other names, markdown on any of them, one arbitrary byte each"
//@job C02,C18 h_hm_free quick=60 workers=4 bound="every text of at most 5 bytes; an opening tag followed by every text of at most 7 characters over < / a > space m"
//@job C02,C18 h_hm_attr quick=60 workers=4 bound="<a then 2 arbitrary bytes, markdown= with 3 arbitrary bytes, then content and closing tag"
//@job C02,C18 h_hm_long quick=60 workers=2 bound="attributes and contents of up to 5000 bytes, 1..20 elements, text of up to 400 bytes before and after"
//@job C02,C18 h_hm_place quick=60 workers=4 bound="an element to parse in each of 17 places that are code or look like it, one byte of each arbitrary, with code and closing tags in its content"
//@job C18 h_hm_stray quick=60 workers=2 bound="an element to parse after 6 texts with < in them, with 6 other attributes holding blanks, >, quotes and markdown= in quotes, 2 arbitrary bytes"
//@job C02,C18 h_hm_names quick=60 workers=4 bound="element names of 1..63 bytes in every case of letters, with closing tags and nested elements in another case or with a longer name; values of 0..70 bytes; one arbitrary byte"
#include "hl.h"
#include "code.h"
#include <cmark-gfm.h>
#include "html_markdown.h"
/* the parser and renderer are replaced by a stand-in that shows what they were given: content X renders as <p>X</p>\n */
static B feed;
cmark_parser *cmark_parser_new(int o) { static int x; feed.p = 0; feed.n = feed.cap = 0; b_lit(&feed, ""); return (cmark_parser *)&x; }
void cmark_parser_feed(cmark_parser *p, const char *s, size_t n) { b_mem(&feed, s, n); }
cmark_node *cmark_parser_finish(cmark_parser *p) { return (cmark_node *)&feed; }
void cmark_parser_free(cmark_parser *p) { }
void cmark_node_free(cmark_node *n) { }
void apex_process_ial_in_tree(cmark_node *n, void *a) { }
void apex_apply_image_attributes(cmark_node *n, void *a) { }
char *apex_render_html_with_attributes(cmark_node *n, int o) { B b = {0}; b_lit(&b, "<p>"); b_lit(&b, feed.p); b_lit(&b, "</p>\n"); return b.p; }
static void render(B *w, int v, const char *tag, const char *attrs, const char *raw, const char *content) { /* content: already processed */
  if (v == 0 || !*raw) return; b_c(w, '<'); b_lit(w, tag); b_lit(w, attrs); b_c(w, '>'); if (v == 1) b_lit(w, "<p>"); b_lit(w, content); if (v == 1) b_lit(w, "</p>\n"); b_lit(w, "</"); b_lit(w, tag); b_lit(w, v == 1 ? ">\n" : ">");
}
static char *hole(const char *no, int n) { B b = {0}; b_not(&b, n, no); return b_done(&b); }
void h_hm_one(void) {
  static const char *V[] = {"1", "block", "span", "0", "2", "", "Block"}; static const int K[] = {1, 1, 2, 0, 0, 0, 0}; int v = sv_choice(7), q = sv_choice(3), pre = sv_choice(3), post = sv_choice(2), blank = sv_choice(3), t = sv_choice(3); if (v == 5) sv_assume(q < 2);
  static const char *T[] = {"div", "section", "x-y_1"}, *PA[] = {"", "class=\"a b\"", "id='q'"}, *SP[] = {" ", "\n", "\t"}; int full = sv_choice(2); if (full) sv_assume(!q && !pre && !post && !blank && !t); char *h1 = full ? hole("<`\t", 1) : "p", *c = hole("<`", full ? 2 : 1), *h2 = full ? hole("<", 1) : "z";
  B b = {0}, a = {0}; b_lit(&b, h1); b_c(&b, '<'); b_lit(&b, T[t]); if (pre) { b_lit(&b, SP[blank]); b_lit(&b, PA[pre]); b_lit(&a, " "); b_lit(&a, PA[pre]); } else b_lit(&a, ""); b_lit(&b, SP[blank]); b_lit(&b, "markdown="); if (q == 0) b_lit(&b, "\""); if (q == 1) b_lit(&b, "'"); b_lit(&b, V[v]); if (q == 0) b_lit(&b, "\""); if (q == 1) b_lit(&b, "'"); if (post) { b_lit(&b, " data-z=\"1\""); b_lit(&a, " data-z=\"1\""); } b_lit(&b, ">"); b_lit(&b, c); b_lit(&b, "</"); b_lit(&b, T[t]); b_lit(&b, ">"); b_lit(&b, h2); char *in = b_done(&b);
  B w = {0}; if (!K[v]) b_lit(&w, in); else { b_lit(&w, h1); render(&w, K[v], T[t], a.p, c, c); b_lit(&w, h2); }
  expect_str(apex_process_html_markdown(in, NULL), w.p, "the element is parsed as its markdown attribute says, keeps its other attributes, and all text around it is kept"); sv_cover(K[v] ? "parsed" : "raw");
}
void h_hm_nest(void) {
  static const char *O[] = {"<div>", "<div markdown=\"1\">", "<b markdown=\"span\">", "<div markdown=\"0\">"}, *C[] = {"</div>", "</div>", "</b>", "</div>"}; static const int K[] = {0, 1, 2, 0}; int x = sv_choice(4), y = sv_choice(4), shape = sv_choice(3); char *h = hole("<`\t", 1), *g = hole("<`", 1);
  static const char *N[] = {"div", "div", "b", "div"}; B b = {0}, w = {0}, i = {0}, ip = {0}; b_lit(&i, O[y]); b_lit(&i, g); b_lit(&i, C[y]); b_lit(&ip, ""); if (K[y]) render(&ip, K[y], N[y], "", g, g); else b_lit(&ip, i.p);
  if (shape == 0) { b_lit(&b, O[x]); b_lit(&b, h); b_lit(&b, i.p); b_lit(&b, C[x]); b_lit(&b, "end"); char *in = b_done(&b); B p = {0}; b_lit(&p, h); b_lit(&p, ip.p); if (K[x]) render(&w, K[x], N[x], "", h, p.p); else if (x == 3) { b_lit(&w, O[3]); b_lit(&w, h); b_lit(&w, i.p); b_lit(&w, C[3]); } else { b_lit(&w, O[x]); b_lit(&w, p.p); b_lit(&w, C[x]); } b_lit(&w, "end"); expect_str(apex_process_html_markdown(in, NULL), w.p, "nested elements are matched with their own closing tags"); sv_cover("nested"); }
  else { b_lit(&b, O[x]); b_lit(&b, h); b_lit(&b, C[x]); b_lit(&b, shape == 1 ? "" : "mid"); b_lit(&b, i.p); char *in = b_done(&b); b_lit(&w, ""); if (K[x]) render(&w, K[x], N[x], "", h, h); else { b_lit(&w, O[x]); b_lit(&w, h); b_lit(&w, C[x]); } if (shape != 1) b_lit(&w, "mid"); b_lit(&w, ip.p); expect_str(apex_process_html_markdown(in, NULL), w.p, "elements in sequence are each processed"); sv_cover("sequence"); }
}
void h_hm_names(void) {
  static const char *I[] = {"", "<dIV>", "<div-x>", "</div-x>", "</divs>", "<divs>", "</div_>", "</di>", "<dIV\nid=q>", "<DIV>u</div>"}, *E[] = {"", "</Div>", "", "", "", "", "", "", "</diV>", ""}, *O[] = {"div", "Div", "DIV"}, *C[] = {"</div>", "</DIV>", "</dIv >"}; int m = sv_choice(3); char *h = hole("<`", 1); B b = {0}, w = {0}; b_lit(&w, "");
  if (m == 0) { int i = sv_choice(10), o = sv_choice(3), c = sv_choice(3), v = 1 + sv_choice(2); B x = {0}; b_lit(&x, I[i]); b_lit(&x, h); b_lit(&x, E[i]); b_lit(&x, "y"); b_c(&b, '<'); b_lit(&b, O[o]); b_lit(&b, v == 1 ? " markdown=\"1\">" : " markdown=span>"); b_lit(&b, x.p); b_lit(&b, C[c]); b_lit(&b, "z</div>"); b_c(&w, '<'); b_lit(&w, O[o]); b_lit(&w, v == 1 ? "><p>" : ">"); b_lit(&w, x.p); if (v == 1) b_lit(&w, "</p>\n"); b_lit(&w, C[c]); b_lit(&w, v == 1 ? "\nz</div>" : "z</div>"); sv_cover("case"); }
  else if (m == 1) { int n = 1 + sv_choice(63), v = 1 + sv_choice(2); B t = {0}; b_fill(&t, 'n', n); b_c(&b, '<'); b_lit(&b, t.p); b_lit(&b, v == 1 ? " markdown=\"1\">" : " markdown=span>"); b_lit(&b, h); b_lit(&b, "</"); b_lit(&b, t.p); b_lit(&b, ">z"); render(&w, v, t.p, "", h, h); b_c(&w, 'z'); sv_cover("name"); }
  else { int n = sv_choice(71), q = sv_choice(2); b_lit(&b, "<p markdown="); if (q) b_c(&b, '"'); b_fill(&b, 'v', n); if (q) b_c(&b, '"'); b_c(&b, '>'); b_lit(&b, h); b_lit(&b, "</p>z"); b_lit(&w, b.p); sv_cover("value"); }
  expect_str(apex_process_html_markdown(b_done(&b), NULL), w.p, "an element is matched with its own closing tag, in any case of letters");
}
void h_hm_free(void) {
  B b = {0}; int k = sv_choice(2); if (k) { b_lit(&b, "<a markdown=0>"); b_in0(&b, 7, "</a> m"); } else b_sym(&b, 5); char *in = b_done(&b); char *r = apex_process_html_markdown(in, NULL); expect_str(r, in, "text without elements to parse, and elements that are not closed, come out unchanged"); sv_cover(k ? "open" : "free");
}
void h_hm_attr(void) { B b = {0}; b_lit(&b, "<a"); b_sym(&b, 2); b_lit(&b, "markdown="); b_sym(&b, 3); b_lit(&b, ">cc</a>z"); char *in = b_done(&b), *r = apex_process_html_markdown(in, NULL); size_t n = strlen(r); sv_emit("r", r, n);
  if (strlen(in) < 24) { if (!strstr(in, ">")) expect_str(r, in, "an open tag is unchanged"); return; } sv_assert(n && r[n - 1] == 'z', "the text after the element is kept"); if (strcmp(r, in)) { sv_assert(has(r, "cc"), "the content is kept"); sv_cover("parsed"); } else sv_cover("same"); }
void h_hm_long(void) {
  static const int A[] = {0, 60, 2000, 2040, 5000}, C[] = {1, 100, 5000}, N[] = {1, 3, 20}, T[] = {0, 1, 400}; int a = A[sv_choice(5)], c = C[sv_choice(3)], n = N[sv_choice(3)], t = T[sv_choice(3)], v = sv_choice(3); B b = {0}, w = {0}; b_lit(&w, ""); char *h = hole("<>&`", 1);
  static const char *V[] = {"0", "1", "span"}; b_fill(&b, 't', t); b_fill(&w, 't', t); for (int i = 0; i < n; i++) { B at = {0}, ct = {0}; b_lit(&at, ""); if (a) { b_lit(&at, " title=\""); b_fill(&at, 'v', a); b_lit(&at, "\""); } b_fill(&ct, 'c', c); b_lit(&ct, h); b_lit(&b, "<p"); b_lit(&b, at.p); b_lit(&b, " markdown=\""); b_lit(&b, V[v]); b_lit(&b, "\">"); b_lit(&b, ct.p); b_lit(&b, "</p>");
    if (v) render(&w, v, "p", at.p, ct.p, ct.p); else { b_lit(&w, "<p"); b_lit(&w, at.p); b_lit(&w, " markdown=\"0\">"); b_lit(&w, ct.p); b_lit(&w, "</p>"); } } b_fill(&b, 'u', t); b_fill(&w, 'u', t);
  expect_str(apex_process_html_markdown(b_done(&b), NULL), w.p, "nothing is dropped, however long"); sv_cover("long");
}
/* reference: elements <b markdown="1"> outside code, matched with the next </b> outside code */
void h_hm_place(void) {
  static const char *S[] = {"<b markdown=\"1\">q</b>", "<b markdown=\"1\">`</b>`</b>", "<b markdown=\"span\">q\n```\n</b>\n```\n</b>"}; int k = sv_choice(3); B b = {0}, w = {0}; b_lit(&w, ""); code_ctx(&b, S[k]); char *in = b_done(&b), *open = k == 2 ? "<b markdown=\"span\">" : "<b markdown=\"1\">"; size_t no = strlen(open);
  for (const char *p = in, *e; *p;) { e = codeend(in, p); if (e > p) { b_mem(&w, p, e - p); p = e; continue; } if (!starts(p, open)) { if (*p == '<' && p[1] != '!' && p[1] != '/' && (e = tagend(p)) > p) { b_mem(&w, p, e - p); p = e; continue; } b_c(&w, *p++); continue; }
    const char *c = p + no, *q = c; while (*q && !starts(q, "</b>")) { e = codeend(in, q); q = e > q ? e : q + 1; } if (!*q) { b_mem(&w, p, no); p = c; continue; } B x = {0}; b_mem(&x, c, q - c); render(&w, k == 2 ? 2 : 1, "b", "", x.p, x.p); p = q + 4; }
  expect_str(apex_process_html_markdown(in, NULL), w.p, "elements in code are left alone, and closing tags in code close nothing"); sv_cover("place");
}
void h_hm_stray(void) {
  static const char *P[] = {"", "a <b c ", "i <n\n\n", "1 < 2 ", "<i title=\"<div markdown='1'>\">", "<x-y "}, *A[] = {"", " title=\"a > b\"", " title='x markdown=0 y'", " hidden", " title=\"it's\" id='q\"'", " data-markdown=\"0\" class='a  b'"}; int p = sv_choice(6), a = sv_choice(6), post = sv_choice(2); char *h = hole("<`", 1), *g = hole("<`", 1);
  B b = {0}, w = {0}; b_lit(&b, P[p]); b_lit(&w, P[p]); b_lit(&b, "<div"); if (!post) b_lit(&b, A[a]); b_lit(&b, " markdown=\"1\""); if (post) b_lit(&b, A[a]); b_c(&b, '>'); b_lit(&b, h); b_lit(&b, "</div>"); b_lit(&b, g); render(&w, 1, "div", A[a], h, h); b_lit(&w, g);
  expect_str(apex_process_html_markdown(b_done(&b), NULL), w.p, "the element is parsed whatever stands before it, and its other attributes are kept"); sv_cover("stray");
}
