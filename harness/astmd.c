//@src src/ast_markdown.c @model/cmark.c
//@job C45 h_md_text quick=60 workers=6 bound="text of 1..2 arbitrary ASCII characters, in 13 places (paragraph, heading, quote, list item, emphasis, link, image, after each break, before code, between texts), 5 dialects"
//@job C45 h_md_mark quick=60 workers=6 bound="text of 1..5 characters over each of 6 sets of block and inline markers, in 5 places"
//@job C45 h_md_code quick=60 workers=6 bound="code spans of 1..5 characters over backtick, space, backslash, letter, with 4 kinds of neighbours"
//@job C45 h_md_link quick=60 workers=6 bound="links and images: URLs of 0..3 and titles of 0..2 arbitrary ASCII characters; references in both"
//@job C45 h_md_fence quick=60 workers=6 bound="code blocks of 0..5 characters over backtick, tilde, space, letter and line end, with info strings of 0..2 arbitrary characters, in 4 places"
//@job C45 h_md_emph quick=60 workers=6 bound="paragraphs of 1..3 inlines of 10 kinds, emphasis with 1..3 children and nested to depth 3"
//@job C45 h_md_toc quick=60 workers=4 bound="paragraphs that resemble a TOC marker and are none, 8 forms, 5 dialects"
//@job C45 h_md_join quick=60 workers=4 bound="1..2 emphases of both kinds, apart and side by side and in another emphasis, directly followed by any ASCII character"
//@job C45 h_md_blocks quick=60 workers=6 bound="documents of 1..2 blocks of 12 kinds and of 3 blocks of 7 kinds, one of them with 1..2 children of 12 kinds"
//@job C45 h_md_deep quick=60 workers=6 bound="quotes, bullet and ordered lists (tight and loose) nested to depth 3, with 1..2 blocks of 8 kinds at each level and 1..2 items"
//@job C45 h_md_list quick=60 workers=6 bound="1..3 lists of 1..3 items next to each other, both kinds, both delimiters, tight and loose, start numbers 0..999999999"
//@job C45 h_md_html quick=60 workers=4 bound="7 HTML blocks and 7 inline elements in 4 places"
//@job C45 h_md_table quick=60 workers=6 bound="tables of 1..3 columns with every alignment and 1..2 rows, cells of 7 kinds with 1 arbitrary character"
#include "hl.h"
#include <cmark-gfm.h>
#include <cmark-gfm-core-extensions.h>
#include "apex/apex.h"
#include "apex/ast_markdown.h"
/* whether a blank line after n makes a list loose (the library does not count those after a rule) */
static int shows(cmark_node *n) { while (n && (cmark_node_get_type(n) == CMARK_NODE_LIST || cmark_node_get_type(n) == CMARK_NODE_ITEM) && cmark_node_last_child(n)) n = cmark_node_last_child(n); return !n || cmark_node_get_type(n) != CMARK_NODE_THEMATIC_BREAK; }
#ifdef SV_NATIVE
static cmark_node *mk(cmark_node *p, int t, const char *lit) { cmark_node *n = cmark_node_new(t); if (lit) cmark_node_set_literal(n, lit); if (p) cmark_node_append_child(p, n); return n; }
#define SP(c) ((c) == ' ' || ((c) >= 9 && (c) <= 13))
static cmark_node *mr_read(const char *s) { cmark_gfm_core_extensions_ensure_registered(); cmark_parser *p = cmark_parser_new(CMARK_OPT_DEFAULT); cmark_parser_attach_syntax_extension(p, cmark_find_syntax_extension("table")); cmark_parser_attach_syntax_extension(p, cmark_find_syntax_extension("strikethrough")); cmark_parser_feed(p, s, strlen(s)); return cmark_parser_finish(p); }
#else
#include "md_reader.h"
#endif
static const char MSG[] = "Markdown output read again is the same document";
/* ---- a tree as text: kind, fields in \1 \2, children in parentheses; neighbouring texts are one ---- */
static void fl(B *o, const char *s) { b_c(o, '\1'); b_lit(o, s ? s : ""); b_c(o, '\2'); }
static void num(B *o, long v) { char t[24]; int k = 0; do t[k++] = '0' + v % 10; while (v /= 10); while (k) b_c(o, t[--k]); }
static int roomy(cmark_node *l) { for (cmark_node *i = cmark_node_first_child(l); i; i = cmark_node_next(i)) { if (cmark_node_next(i) && shows(i)) return 1; for (cmark_node *c = cmark_node_first_child(i); c; c = cmark_node_next(c)) if (cmark_node_next(c) && shows(c)) return 1; } return 0; }
static void ser(B *o, cmark_node *n) {
  int t = cmark_node_get_type(n); const char *s = cmark_node_get_type_string(n);
  char k = !strcmp(s, "table") ? 'T' : !strcmp(s, "table_header") ? 'h' : !strcmp(s, "table_row") ? 'r' : !strcmp(s, "table_cell") ? 'd' : !strcmp(s, "strikethrough") ? 'x' : t == CMARK_NODE_DOCUMENT ? 'D' : t == CMARK_NODE_PARAGRAPH ? 'P' : t == CMARK_NODE_HEADING ? 'H' : t == CMARK_NODE_THEMATIC_BREAK ? 'R' : t == CMARK_NODE_HTML_BLOCK ? 'B' : t == CMARK_NODE_CODE_BLOCK ? 'K' : t == CMARK_NODE_BLOCK_QUOTE ? 'Q' : t == CMARK_NODE_LIST ? 'L' : t == CMARK_NODE_ITEM ? 'I' : t == CMARK_NODE_SOFTBREAK ? 's' : t == CMARK_NODE_LINEBREAK ? 'l' : t == CMARK_NODE_CODE ? 'c' : t == CMARK_NODE_HTML_INLINE ? 'w' : t == CMARK_NODE_EMPH ? 'e' : t == CMARK_NODE_STRONG ? 'g' : t == CMARK_NODE_LINK ? 'a' : t == CMARK_NODE_IMAGE ? 'i' : '?'; b_c(o, k);
  if (k == 'B' || k == 'K' || k == 'c' || k == 'w') fl(o, cmark_node_get_literal(n)); if (k == 'K') fl(o, cmark_node_get_fence_info(n)); if (k == 'H') num(o, cmark_node_get_heading_level(n)); if (k == 'a' || k == 'i') { fl(o, cmark_node_get_url(n)); fl(o, cmark_node_get_title(n)); }
  if (k == 'L') { int ord = cmark_node_get_list_type(n) == CMARK_ORDERED_LIST; b_c(o, ord ? '1' : '*'); if (ord) { num(o, cmark_node_get_list_start(n)); b_c(o, cmark_node_get_list_delim(n) == CMARK_PAREN_DELIM ? ')' : '.'); } b_c(o, cmark_node_get_list_tight(n) || !roomy(n) ? 'T' : 'L'); }
  if (k == 'T') { int c = cmark_gfm_extensions_get_table_columns(n); uint8_t *a = cmark_gfm_extensions_get_table_alignments(n); num(o, c); for (int i = 0; i < c; i++) b_c(o, a[i] ? a[i] : '-'); }
  b_c(o, '('); int tx = 0; for (cmark_node *c = cmark_node_first_child(n); c; c = cmark_node_next(c)) { if (cmark_node_get_type(c) == CMARK_NODE_TEXT) { const char *x = cmark_node_get_literal(c); if (!tx && *x) b_lit(o, "t\1"); if (*x) tx = 1; b_lit(o, x); continue; } if (tx) b_c(o, '\2'); tx = 0; ser(o, c); } if (tx) b_c(o, '\2'); b_c(o, ')'); }
static int dia = -1;
static void again(cmark_node *d) { static const apex_markdown_dialect_t V[] = {APEX_MD_DIALECT_COMMONMARK, APEX_MD_DIALECT_MMD, APEX_MD_DIALECT_UNIFIED, APEX_MD_DIALECT_KRAMDOWN, APEX_MD_DIALECT_GFM}; if (dia < 0) dia = sv_choice(5); apex_options o; memset(&o, 0, sizeof o); B a = {0}, r = {0}; ser(&a, d); char *m = apex_cmark_to_markdown(d, &o, V[dia]); if (!m) { sv_fail(MSG); return; } sv_emit("markdown", m, strlen(m)); cmark_node *d2 = mr_read(m); ser(&r, d2); expect_str(r.p, a.p, MSG); free(m); }
/* ---- building ---- */
static cmark_node *doc(void) { return cmark_node_new(CMARK_NODE_DOCUMENT); }
static cmark_node *par(cmark_node *p, const char *t) { cmark_node *n = mk(p, CMARK_NODE_PARAGRAPH, 0); if (t) mk(n, CMARK_NODE_TEXT, t); return n; }
static cmark_node *lst(cmark_node *p, int ord, int start, int paren, int tight) { cmark_node *l = mk(p, CMARK_NODE_LIST, 0); if (ord) { cmark_node_set_list_type(l, CMARK_ORDERED_LIST); cmark_node_set_list_start(l, start); cmark_node_set_list_delim(l, paren ? CMARK_PAREN_DELIM : CMARK_PERIOD_DELIM); } cmark_node_set_list_tight(l, tight); return l; }
static cmark_node *item(cmark_node *l) { return mk(l, CMARK_NODE_ITEM, 0); }
static cmark_node *lnk(cmark_node *p, int img, const char *u, const char *ti) { cmark_node *l = mk(p, img ? CMARK_NODE_IMAGE : CMARK_NODE_LINK, 0); cmark_node_set_url(l, u); cmark_node_set_title(l, ti); return l; }
static void ascii(const char *s) { for (; *s; s++) sv_assume((unsigned char)*s < 128); }
static void trimmed(const char *s) { size_t n = strlen(s); if (n) { sv_assume(!SP(s[0])); sv_assume(!SP(s[n - 1])); } }
static cmark_node *place(cmark_node *d, int k) { cmark_node *p; switch (k) {
  case 0: return par(d, 0); case 1: p = mk(d, CMARK_NODE_HEADING, 0); cmark_node_set_heading_level(p, 2); return p; case 2: return par(mk(d, CMARK_NODE_BLOCK_QUOTE, 0), 0); case 3: return par(item(lst(d, 0, 0, 0, 1)), 0);
  case 4: p = par(d, "a"); mk(p, CMARK_NODE_SOFTBREAK, 0); return p; case 5: p = par(d, "a"); mk(p, CMARK_NODE_LINEBREAK, 0); return p; case 6: return mk(par(d, 0), CMARK_NODE_EMPH, 0); case 7: return mk(par(d, 0), CMARK_NODE_STRONG, 0); case 8: return lnk(par(d, 0), 0, "u", ""); case 9: return lnk(par(d, 0), 1, "u", ""); case 10: p = par(d, 0); mk(p, CMARK_NODE_CODE, "k"); return p; case 11: return par(d, "b"); default: p = par(item(lst(mk(d, CMARK_NODE_BLOCK_QUOTE, 0), 1, 1, 0, 1)), "q"); mk(p, CMARK_NODE_SOFTBREAK, 0); return p; } }
void h_md_text(void) { cmark_node *d = doc(); int k = sv_choice(13), n = 1 + sv_choice(2); cmark_node *p = place(d, k); B b = {0}; b_not(&b, n, "\n\r\1\2"); char *s = b_done(&b); ascii(s); trimmed(s); mk(p, CMARK_NODE_TEXT, s); int z = sv_choice(2); if (z && k != 10) mk(p, CMARK_NODE_CODE, "k"); again(d); sv_cover("text"); }
void h_md_mark(void) { static const char *const S[] = {"-= a", "#1.)", "&#lt1;", "<b/>!", "*_ a", "[](:)a"}; cmark_node *d = doc(); cmark_node *p = place(d, (int[]){0, 1, 3, 4, 8}[sv_choice(5)]); int n = 1 + sv_choice(5); B b = {0}; b_in(&b, n, S[sv_choice(6)]); char *s = b_done(&b); trimmed(s); mk(p, CMARK_NODE_TEXT, s); again(d); sv_cover("mark"); }
void h_md_toc(void) { static const char *const T[] = {"{{TOC}} x", "{{TOC}}}", "{{TOC", "{{TOC}", "x{{TOC}}", "{{TOC}}}}", "{{TO}}"}; cmark_node *d = doc(); int k = sv_choice(8); if (k < 7) par(d, T[k]); else { cmark_node *p = par(d, "{{TOC}}"); mk(p, CMARK_NODE_CODE, "k"); } if (sv_choice(2)) par(d, "z"); again(d); sv_cover("toc"); }
void h_md_join(void) { dia = 0; cmark_node *d = doc(), *p = par(d, 0); int a = sv_choice(2), b = sv_choice(2), w = sv_choice(3), o = sv_choice(2); if (o) { sv_assume(w == 2 && !b); p = mk(p, CMARK_NODE_EMPH, 0); int l = sv_choice(2); if (l) mk(p, CMARK_NODE_TEXT, "l"); if (l) w = 3; } B t = {0}; b_not(&t, 1, "\n\r\1\2 "); char *s = b_done(&t); ascii(s); sv_assume(!SP(*s)); mk(mk(p, a ? CMARK_NODE_STRONG : CMARK_NODE_EMPH, 0), CMARK_NODE_TEXT, "m"); if (w == 1) mk(p, CMARK_NODE_TEXT, ". "); if (w < 2) mk(mk(p, b ? CMARK_NODE_STRONG : CMARK_NODE_EMPH, 0), CMARK_NODE_TEXT, "n"); if (w != 3) mk(p, CMARK_NODE_TEXT, s); again(d); sv_cover("join"); }
void h_md_code(void) { cmark_node *d = doc(); int k = sv_choice(4), n = 1 + sv_choice(5); cmark_node *p = k == 3 ? mk(par(d, 0), CMARK_NODE_EMPH, 0) : par(d, k == 1 ? "a" : k == 2 ? "`" : 0); B b = {0}; b_in(&b, n, "` \\a"); char *s = b_done(&b); mk(p, CMARK_NODE_CODE, s); if (k) mk(p, CMARK_NODE_TEXT, k == 2 ? "``" : "b"); again(d); sv_cover("code"); }
void h_md_link(void) { dia = 0; cmark_node *d = doc(); int img = sv_choice(2), ref = sv_choice(3); B u = {0}, t = {0}; if (ref == 1) { b_lit(&u, "a?"); b_in(&u, 5, "&lt;#1"); b_lit(&t, "x"); } else if (ref == 2) { b_in(&t, 5, "&lt;\"\\"); b_lit(&u, "x"); } else { int n = sv_choice(4), m = sv_choice(n > 2 ? 1 : 3); if (n) b_not(&u, n, "\n\r\1\2"); if (m) b_not(&t, m, "\r\1\2"); } if (!u.p) b_lit(&u, ""); if (!t.p) b_lit(&t, ""); char *us = b_done(&u), *ts = b_done(&t); ascii(us); ascii(ts); trimmed(us); trimmed(ts); cmark_node *l = lnk(par(d, "a"), img, us, ts); mk(l, CMARK_NODE_TEXT, "b"); again(d); sv_cover("link"); }
void h_md_fence(void) { dia = 0; cmark_node *d = doc(), *p = d; int k = sv_choice(4), n = sv_choice(6); if (k == 1) p = mk(d, CMARK_NODE_BLOCK_QUOTE, 0); if (k == 2) p = item(lst(d, 0, 0, 0, 1)); if (k == 3) { p = item(lst(d, 1, 10, 1, 1)); par(p, "a"); } B b = {0}, f = {0}; if (n) { b_in(&b, n, "`~ a\n"); b_c(&b, '\n'); } else b_lit(&b, ""); int m = n < 3 ? sv_choice(3) : 0; if (m) b_not(&f, m, "\n\r\1\2"); else b_lit(&f, n > 2 && sv_choice(2) ? "`" : n & 1 ? "c" : ""); char *s = b_done(&b), *i = b_done(&f); ascii(i); trimmed(i); cmark_node *c = mk(p, CMARK_NODE_CODE_BLOCK, s); cmark_node_set_fence_info(c, i); if (k < 2) par(p, "z"); again(d); sv_cover("fence"); }
/* ---- emphasis: neighbours are blanks, punctuation or the ends, or nested directly ---- */
static int lk;
static void inl(cmark_node *p, int k, int deep) { cmark_node *n; switch (k) { case 0: mk(p, CMARK_NODE_TEXT, "x "); break; case 1: mk(p, CMARK_NODE_TEXT, " y "); break; case 2: mk(p, CMARK_NODE_TEXT, "."); break; case 3: mk(p, CMARK_NODE_CODE, "k"); break; case 4: mk(p, CMARK_NODE_SOFTBREAK, 0); break; case 5: mk(p, CMARK_NODE_LINEBREAK, 0); break; case 6: mk(p, CMARK_NODE_HTML_INLINE, "<b>"); break;
  case 7: case 8: n = mk(p, k == 7 ? CMARK_NODE_EMPH : CMARK_NODE_STRONG, 0); if (deep) { int z = sv_choice(4); if (z == 1) mk(n, CMARK_NODE_TEXT, "a "); if (z == 3) mk(n, CMARK_NODE_CODE, "a"); inl(n, 7 + sv_choice(lk ? 2 : 4), deep - 1); if (z == 2) mk(n, CMARK_NODE_TEXT, " b"); if (z == 3) mk(n, CMARK_NODE_TEXT, "!"); } else mk(n, CMARK_NODE_TEXT, "m"); break;
  case 9: case 10: n = lnk(p, k == 10, "u", ""); if (deep) { lk = 1; inl(n, 7 + sv_choice(2), deep - 1); lk = 0; } else mk(n, CMARK_NODE_TEXT, "m"); break; } }
void h_md_emph(void) { cmark_node *d = doc(), *p = par(d, 0); int n = 1 + sv_choice(3), deep = sv_choice(n), last = -1; for (int i = 0; i < n; i++) { int k = sv_choice(11), brk = k == 4 || k == 5, was = last == 4 || last == 5; sv_assume(!(brk && (i == 0 || i == n - 1 || was || last <= 1))); sv_assume(!(k == 1 && (i == 0 || was || last == 0 || last == 1))); sv_assume(!((k == 0 || k == 1) && i == n - 1)); sv_assume(!(k == 3 && last == 3)); sv_assume(!(k == 6 && i == 0)); sv_assume(!(k == 0 && (last == 7 || last == 8) && deep == i - 1)); inl(p, k, i == deep ? 2 - n / 3 : 0); last = k; } again(d); sv_cover("emph"); }
static int blk(cmark_node *p, int k, int d);
static int kids(cmark_node *p, int d, int tight) { int m = 1 + sv_choice(2), prev = -1; for (int i = 0; i < m; i++) { int k = sv_choice(12); if (i) sv_assume(!(k >= 9 && k <= 10 && prev >= 9 && prev <= 10)); if (tight && i) sv_assume((k != 0 && k != 2) || prev == 1 || prev == 3 || prev == 4); if (tight && i) sv_assume(k != 5 && k != 11 && prev != 5 && prev != 8 && prev != 7 && prev != 6 && prev != 11 && prev != 2 && !(prev == 9 || prev == 10)); blk(p, k, d - 1); prev = k; } return 0; }
static int blk(cmark_node *p, int k, int d) { cmark_node *n; switch (k) {
  case 0: par(p, "a"); break; case 1: n = mk(p, CMARK_NODE_HEADING, 0); cmark_node_set_heading_level(n, 3); mk(n, CMARK_NODE_TEXT, "h"); break; case 2: n = mk(p, CMARK_NODE_HEADING, 0); cmark_node_set_heading_level(n, 2); mk(n, CMARK_NODE_TEXT, "h"); mk(n, CMARK_NODE_SOFTBREAK, 0); mk(n, CMARK_NODE_TEXT, "i"); break; case 3: mk(p, CMARK_NODE_THEMATIC_BREAK, 0); break;
  case 4: n = mk(p, CMARK_NODE_CODE_BLOCK, "  k\n\nm\n"); cmark_node_set_fence_info(n, "c"); break; case 5: mk(p, CMARK_NODE_HTML_BLOCK, "<div>\nq\n"); break; case 6: n = mk(p, CMARK_NODE_BLOCK_QUOTE, 0); if (d > 0) kids(n, d, 0); else par(n, "q"); break;
  case 7: case 8: case 9: case 10: { int ti = k & 1; n = lst(p, k > 8, 1, 0, ti); cmark_node *it = item(n); if (d > 0) kids(it, d, ti); else par(it, "i"); par(item(n), "j"); break; } case 11: n = par(p, "a"); mk(n, CMARK_NODE_LINEBREAK, 0); mk(n, CMARK_NODE_TEXT, "b"); break; } return 0; }
void h_md_blocks(void) { dia = 0; cmark_node *d = doc(); int n = 1 + sv_choice(3), deep = sv_choice(n), prev = -1; for (int i = 0; i < n; i++) { static const int K[] = {0, 3, 4, 6, 7, 10, 11}; int k = n == 3 ? K[sv_choice(7)] : sv_choice(12); sv_assume(!(prev >= 9 && prev <= 10 && k >= 9 && k <= 10)); blk(d, k, i == deep); prev = k; } again(d); sv_cover("blocks"); }
void h_md_deep(void) { dia = 0; cmark_node *d = doc(), *p = d; int ti = 0; for (int l = 0; l < 3; l++) { int k = sv_choice(5), pre = sv_choice(2); if (pre) par(p, "a"); if (k == 0) { p = mk(p, CMARK_NODE_BLOCK_QUOTE, 0); ti = 0; } else { ti = k & 1; cmark_node *q = lst(p, k > 2, 1, 0, ti); p = item(q); par(item(q), "z"); } } int k = sv_choice(8); static const int K[] = {0, 1, 3, 4, 6, 7, 8, 11}; blk(p, K[k], 0); again(d); sv_cover("deep"); }
void h_md_list(void) { dia = 0; static const int S[] = {0, 1, 2, 9, 10, 99, 999999990}; cmark_node *d = doc(); int n = 1 + sv_choice(3), lo = -1, lp = 0; for (int i = 0; i < n; i++) { int o = sv_choice(2), pa = o ? sv_choice(2) : 0, m = 1 + sv_choice(i ? 2 : 3); if (lo == 1 && o) sv_assume(pa != lp); cmark_node *l = lst(d, o, o ? S[sv_choice(i ? 2 : 7)] : 0, pa, sv_choice(2)); for (int j = 0; j < m; j++) { cmark_node *it = item(l); par(it, "i"); } lo = o; lp = pa; } again(d); sv_cover("list"); }
void h_md_html(void) { dia = 0; static const char *const HB[] = {"<div>\n", "<!-- x -->\n", "<pre>\na\n\nb\n</pre>\n", "<table>\n<tr>\n", "</div>\n", "<?x\n\n?>\n", "<i>\n"}, *const HI[] = {"<b>", "</b>", "<br/>", "<a href=\"x\">", "<!-- c -->", "<b\nc>", "<?p?>"}; cmark_node *d = doc(), *p = d; int k = sv_choice(4); if (k == 1) p = mk(d, CMARK_NODE_BLOCK_QUOTE, 0); if (k == 2) p = item(lst(d, 0, 0, 0, 1)); if (k == 3) { p = item(lst(d, 1, 1, 0, 0)); par(p, "a"); } if (sv_choice(2)) { mk(p, CMARK_NODE_HTML_BLOCK, HB[sv_choice(7)]); if (k < 2) par(p, "z"); } else { cmark_node *q = par(p, sv_choice(2) ? "x" : "y "); mk(q, CMARK_NODE_HTML_INLINE, HI[sv_choice(7)]); mk(q, CMARK_NODE_TEXT, "z"); } again(d); sv_cover("html"); }
#ifdef SV_NATIVE
static cmark_node *tabs(cmark_node **cell, int c, int r, const char *al) { B b = {0}; for (int i = 0; i < r + 1; i++) { b_c(&b, '|'); for (int j = 0; j < c; j++) b_lit(&b, i == 1 ? (al[j] == 'c' ? ":-:|" : al[j] == 'l' ? ":--|" : al[j] == 'r' ? "--:|" : "---|") : " |"); b_c(&b, '\n'); } cmark_node *d = mr_read(b.p); int k = 0; for (cmark_node *x = cmark_node_first_child(cmark_node_first_child(d)); x; x = cmark_node_next(x)) for (cmark_node *y = cmark_node_first_child(x); y; y = cmark_node_next(y)) cell[k++] = y; return d; }
#else
static cmark_node *tabs(cmark_node **cell, int c, int r, const char *al) { cmark_node *d = doc(), *t = tab_new(d, c, al); int k = 0; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) cell[k++] = tab_cell(t, i, !i); return d; }
#endif
void h_md_table(void) { dia = 0; cmark_node *cell[9]; char al[3]; int c = 1 + sv_choice(3), r = 1 + sv_choice(2); for (int i = 0; i < c; i++) al[i] = "\0lrc"[sv_choice(4)]; cmark_node *d = tabs(cell, c, r, al); int n = c * r, w = sv_choice(n); B b = {0}; b_not(&b, 1, "\n\r\1\2"); char *s = b_done(&b); ascii(s); trimmed(s); for (int i = 0; i < n; i++) { if (i != w) { mk(cell[i], CMARK_NODE_TEXT, "v"); continue; } cmark_node *q = cell[i]; switch (sv_choice(7)) { case 0: break; case 1: mk(q, CMARK_NODE_TEXT, s); break; case 2: sv_assume(*s != '\\'); mk(q, CMARK_NODE_CODE, s); break; case 3: mk(mk(q, CMARK_NODE_EMPH, 0), CMARK_NODE_TEXT, s); break; case 4: mk(lnk(q, 0, s, ""), CMARK_NODE_TEXT, "t"); break; case 5: mk(lnk(q, 1, "u", s), CMARK_NODE_TEXT, "t"); break; case 6: mk(q, CMARK_NODE_TEXT, "p"); mk(q, CMARK_NODE_TEXT, s); break; } } again(d); sv_cover("table"); }
