//@src src/ast_json.c @model/cmark.c
//@job C42 h_aj_inl quick=60 workers=6 bound="every paragraph of 1..2 inlines of 9 kinds, one level of nesting with 1..2 children, 1 arbitrary byte of text"
//@job C42 h_aj_blk quick=60 workers=6 bound="every document of 1..3 blocks of 8 kinds (tight and loose lists, ordered lists with start and delimiter), nested quotes and lists of 1..2 children"
//@job C42 h_aj_deep quick=60 workers=4 bound="lists and quotes nested to depth 3, each with 2 children of 5 kinds"
//@job C42 h_aj_str quick=60 workers=4 bound="2 arbitrary bytes in the text of each node kind that has one, in the URL, title and language"
//@job C42 h_aj_num quick=60 workers=2 bound="every heading level, start numbers 0..1200000000 at 14 boundaries, both delimiters"
//@job C42 h_aj_in quick=60 workers=6 bound="filter output: 13 inline and 12 block forms in both key orders, extra keys, 4 white space characters anywhere, elements without content"
//@job C42 h_aj_esc quick=60 workers=4 bound="every \\uXXXX escape with 2 arbitrary hex digits at either end; surrogate pairs with 2 arbitrary digits; all one-letter escapes"
//@job C42 h_aj_any quick=60 workers=6 bound="every text of at most 7 characters over { } [ ] quote : , t c; a document cut off at every byte"
//@job C42 h_aj_big quick=60 workers=2 max_instr=200000000 bound="texts of up to 9000 bytes, 1..150 blocks, nesting up to 40"
//@job C42 h_aj_size quick=60 workers=4 bound="texts of every length 0..1280, plain or with a last character written as an escape of 1..4 bytes, as text, code or language"
#include "hl.h"
#include <cmark-gfm.h>
#include "ast_json.h"
static const char MJ[] = "the JSON of a document stands for exactly its tree", MR[] = "a document that passes through JSON is unchanged";
/* ---- a tree as text: kind, fields length-prefixed, children in parentheses ---- */
static void fl(B *o, const char *s) { if (!s) s = ""; size_t n = strlen(s); for (int i = 3; i >= 0; i--) b_c(o, 'a' + (n >> (4 * i) & 15)); b_lit(o, s); }
static void num(B *o, long v) { char t[24]; int k = 0; if (v < 0) { b_c(o, '-'); v = -v; } do t[k++] = '0' + v % 10; while (v /= 10); while (k) b_c(o, t[--k]); b_c(o, ';'); }
static void ser(B *o, cmark_node *n) {
  int t = cmark_node_get_type(n); const char *k = t == CMARK_NODE_DOCUMENT ? "D" : t == CMARK_NODE_PARAGRAPH ? "P" : t == CMARK_NODE_HEADING ? "H" : t == CMARK_NODE_THEMATIC_BREAK ? "R" : t == CMARK_NODE_HTML_BLOCK ? "B" : t == CMARK_NODE_CODE_BLOCK ? "K" : t == CMARK_NODE_LIST ? "L" : t == CMARK_NODE_ITEM ? "I" : t == CMARK_NODE_BLOCK_QUOTE ? "Q" : t == CMARK_NODE_TEXT ? "t" : t == CMARK_NODE_SOFTBREAK ? "s" : t == CMARK_NODE_LINEBREAK ? "l" : t == CMARK_NODE_CODE ? "c" : t == CMARK_NODE_EMPH ? "e" : t == CMARK_NODE_STRONG ? "g" : t == CMARK_NODE_LINK ? "a" : t == CMARK_NODE_IMAGE ? "i" : t == CMARK_NODE_HTML_INLINE ? "h" : "?";
  b_lit(o, k); if (strchr("BKtch", *k)) fl(o, cmark_node_get_literal(n)); if (*k == 'K') fl(o, cmark_node_get_fence_info(n)); if (*k == 'H') num(o, cmark_node_get_heading_level(n)); if (*k == 'a' || *k == 'i') { fl(o, cmark_node_get_url(n)); fl(o, cmark_node_get_title(n)); }
  if (*k == 'L') { int ord = cmark_node_get_list_type(n) == CMARK_ORDERED_LIST, para = 0; b_c(o, ord ? '1' : '*'); if (ord) { num(o, cmark_node_get_list_start(n)); b_c(o, cmark_node_get_list_delim(n) == CMARK_PAREN_DELIM ? ')' : '.'); } for (cmark_node *i = cmark_node_first_child(n); i; i = cmark_node_next(i)) for (cmark_node *c = cmark_node_first_child(i); c; c = cmark_node_next(c)) if (cmark_node_get_type(c) == CMARK_NODE_PARAGRAPH) para = 1; if (para) b_c(o, cmark_node_get_list_tight(n) ? 'x' : 'o'); }
  if (cmark_node_first_child(n)) { b_c(o, '('); for (cmark_node *c = cmark_node_first_child(n); c; c = cmark_node_next(c)) ser(o, c); b_c(o, ')'); } }
/* ---- independent JSON reader ---- */
typedef struct J { char k; char *s; long n; struct J *kid, *next; } J;
static const char *jp; static int jbad;
static void ws(void) { while (*jp == ' ' || *jp == '\n' || *jp == '\t' || *jp == '\r') jp++; }
static int hx(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static char *jstr(void) { B b = {0}; b_lit(&b, ""); if (*jp != '"') { jbad = 1; return b.p; } for (jp++; *jp != '"'; jp++) { if (!*jp || (unsigned char)*jp < 32) { jbad = 1; return b.p; } if (*jp != '\\') { b_c(&b, *jp); continue; } jp++; switch (*jp) { case '"': case '\\': case '/': b_c(&b, *jp); break; case 'n': b_c(&b, '\n'); break; case 't': b_c(&b, '\t'); break; case 'r': b_c(&b, '\r'); break; case 'b': b_c(&b, '\b'); break; case 'f': b_c(&b, '\f'); break; case 'u': { unsigned c = 0; for (int i = 1; i <= 4; i++) { if (!strchr("0123456789abcdefABCDEF", jp[i]) || !jp[i]) { jbad = 1; return b.p; } c = c * 16 + hx(jp[i]); } jp += 4; if (c > 127) { jbad = 1; return b.p; } b_c(&b, c); break; } default: jbad = 1; return b.p; } } jp++; return b.p; }
static J *jval(int d) { J *v = calloc(1, sizeof *v); ws(); if (d > 200) { jbad = 1; return v; } if (*jp == '"') { v->k = 's'; v->s = jstr(); } else if (*jp == '[' || *jp == '{') { char e = *jp == '[' ? ']' : '}'; v->k = *jp++; J **t = &v->kid; ws(); if (*jp == e) { jp++; return v; } for (;;) { char *key = 0; if (e == '}') { ws(); key = jstr(); ws(); if (*jp++ != ':') { jbad = 1; return v; } } J *c = jval(d + 1); if (jbad) return v; if (e == '}') { J *w = calloc(1, sizeof *w); w->k = 'k'; w->s = key; w->kid = c; c = w; } *t = c; t = &c->next; ws(); if (*jp == ',') { jp++; continue; } if (*jp == e) { jp++; return v; } jbad = 1; return v; } } else if ((*jp >= '0' && *jp <= '9') || *jp == '-') { v->k = 'n'; int neg = *jp == '-'; if (neg) jp++; if (!(*jp >= '0' && *jp <= '9')) jbad = 1; while (*jp >= '0' && *jp <= '9') v->n = v->n * 10 + *jp++ - '0'; if (neg) v->n = -v->n; } else jbad = 1; return v; }
static J *get(J *o, const char *k) { if (!o || o->k != '{') return 0; for (J *c = o->kid; c; c = c->next) if (!strcmp(c->s, k)) return c->kid; return 0; }
static J *at(J *a, int i) { if (!a || a->k != '[') return 0; J *c = a->kid; while (c && i--) c = c->next; return c; }
static const char *tag(J *o) { J *t = get(o, "t"); return t && t->k == 's' ? t->s : ""; }
static void jinl(B *o, J *a, int *bad); static void jblk(B *o, J *a, int *bad);
static void kids(B *o, J *a, int blk, int *bad) { if (!a || a->k != '[') { *bad = 1; return; } if (!a->kid) return; b_c(o, '('); if (blk) jblk(o, a, bad); else jinl(o, a, bad); b_c(o, ')'); }
static int attr(J *a) { return a && a->k == '[' && at(a, 0) && at(a, 0)->k == 's' && at(a, 1) && at(a, 1)->k == '[' && at(a, 2) && at(a, 2)->k == '[' && !at(a, 3); }
static void jinl(B *o, J *a, int *bad) { for (J *n = a->kid; n; n = n->next) { const char *t = tag(n); J *c = get(n, "c"); if (!strcmp(t, "Str")) { b_c(o, 't'); if (!c || c->k != 's') *bad = 1; else fl(o, c->s); } else if (!strcmp(t, "SoftBreak")) b_c(o, 's'); else if (!strcmp(t, "LineBreak")) b_c(o, 'l'); else if (!strcmp(t, "Emph") || !strcmp(t, "Strong")) { b_c(o, *t == 'E' ? 'e' : 'g'); kids(o, c, 0, bad); } else if (!strcmp(t, "Code")) { b_c(o, 'c'); if (!attr(at(c, 0)) || !at(c, 1) || at(c, 1)->k != 's' || at(c, 2)) *bad = 1; else fl(o, at(c, 1)->s); } else if (!strcmp(t, "RawInline")) { b_c(o, 'h'); if (!at(c, 1) || at(c, 0)->k != 's' || strcmp(at(c, 0)->s, "html") || at(c, 1)->k != 's') *bad = 1; else fl(o, at(c, 1)->s); } else if (!strcmp(t, "Link") || !strcmp(t, "Image")) { b_c(o, *t == 'L' ? 'a' : 'i'); J *u = at(c, 2); if (!attr(at(c, 0)) || !at(u, 1) || at(u, 0)->k != 's' || at(u, 1)->k != 's' || at(u, 2) || at(c, 3)) { *bad = 1; return; } fl(o, at(u, 0)->s); fl(o, at(u, 1)->s); kids(o, at(c, 1), 0, bad); } else *bad = 1; if (*bad) return; } }
static void jblk(B *o, J *a, int *bad) { for (J *n = a->kid; n; n = n->next) { const char *t = tag(n); J *c = get(n, "c"); if (!strcmp(t, "Para") || !strcmp(t, "Plain")) { b_c(o, 'P'); kids(o, c, 0, bad); } else if (!strcmp(t, "Header")) { b_c(o, 'H'); if (!at(c, 2) || at(c, 0)->k != 'n' || !attr(at(c, 1)) || at(c, 3)) { *bad = 1; return; } num(o, at(c, 0)->n); kids(o, at(c, 2), 0, bad); } else if (!strcmp(t, "HorizontalRule")) b_c(o, 'R'); else if (!strcmp(t, "RawBlock")) { b_c(o, 'B'); if (!at(c, 1) || at(c, 0)->k != 's' || strcmp(at(c, 0)->s, "html") || at(c, 1)->k != 's') *bad = 1; else fl(o, at(c, 1)->s); }
  else if (!strcmp(t, "CodeBlock")) { b_c(o, 'K'); if (!attr(at(c, 0)) || !at(c, 1) || at(c, 1)->k != 's' || at(c, 2)) { *bad = 1; return; } B x = {0}; b_lit(&x, at(c, 1)->s); if (x.n) b_c(&x, '\n'); fl(o, x.p); J *l = at(at(c, 0), 1); fl(o, l->kid ? l->kid->s : ""); } else if (!strcmp(t, "BlockQuote")) { b_c(o, 'Q'); kids(o, c, 1, bad); }
  else if (!strcmp(t, "BulletList") || !strcmp(t, "OrderedList")) { int ord = *t == 'O'; b_c(o, 'L'); b_c(o, ord ? '1' : '*'); J *it = c; if (ord) { J *la = at(c, 0); it = at(c, 1); if (!at(la, 2) || at(la, 0)->k != 'n' || !it || at(c, 2) || strcmp(tag(at(la, 1)), "Decimal")) { *bad = 1; return; } num(o, at(la, 0)->n); b_c(o, !strcmp(tag(at(la, 2)), "OneParen") ? ')' : '.'); } if (!it || it->k != '[') { *bad = 1; return; } int pl = 0, pa = 0; for (J *i = it->kid; i; i = i->next) { if (i->k != '[') { *bad = 1; return; } for (J *q = i->kid; q; q = q->next) { if (!strcmp(tag(q), "Plain")) pl = 1; if (!strcmp(tag(q), "Para")) pa = 1; } } if (pl && pa) { *bad = 1; return; } if (pl || pa) b_c(o, pl ? 'x' : 'o'); if (it->kid) { b_c(o, '('); for (J *i = it->kid; i; i = i->next) { b_c(o, 'I'); kids(o, i, 1, bad); } b_c(o, ')'); } } else *bad = 1; if (*bad) return; } }
/* both directions */
static void thru(cmark_node *d) { B a = {0}, w = {0}, r = {0}; ser(&a, d); apex_options o; memset(&o, 0, sizeof o); char *j = apex_cmark_to_pandoc_json(d, &o); if (!j) { sv_fail(MJ); return; } sv_emit("json", j, strlen(j)); jp = j; jbad = 0; J *v = jval(0); ws(); sv_assert(!jbad && !*jp, "the output is valid JSON"); if (jbad) return; J *bl = get(v, "blocks"); int bad = 0; b_c(&w, 'D'); if (!bl || !get(v, "meta") || !get(v, "pandoc-api-version")) bad = 1; else kids(&w, bl, 1, &bad); sv_assert(!bad, "the JSON has the shape of Pandoc's document model"); if (bad) return; expect_str(w.p, a.p, MJ);
  B in = {0}; b_lit(&in, j); char *jj = b_done(&in); cmark_node *d2 = apex_pandoc_json_to_cmark(jj, &o); if (!d2) { sv_fail(MR); return; } ser(&r, d2); expect_str(r.p, a.p, MR); cmark_node_free(d2); free(j); free(jj); }
static cmark_node *nn(cmark_node *p, cmark_node_type t, const char *lit) { cmark_node *n = cmark_node_new(t); if (lit) cmark_node_set_literal(n, lit); if (p) cmark_node_append_child(p, n); return n; }
static char sy[2];
static cmark_node *inl(cmark_node *p, int k, int kids_) { static const cmark_node_type T[] = {CMARK_NODE_TEXT, CMARK_NODE_SOFTBREAK, CMARK_NODE_LINEBREAK, CMARK_NODE_CODE, CMARK_NODE_HTML_INLINE, CMARK_NODE_EMPH, CMARK_NODE_STRONG, CMARK_NODE_LINK, CMARK_NODE_IMAGE}; cmark_node *n = nn(p, T[k], k == 0 ? sy : k == 3 ? "co\"de" : k == 4 ? "<b>" : 0); if (k >= 7) { cmark_node_set_url(n, "u?a=\"b\\"); cmark_node_set_title(n, k == 7 ? "" : "t\n"); } if (k >= 5 && kids_) { int m = 1 + sv_choice(2); for (int i = 0; i < m; i++) inl(n, i ? 3 + sv_choice(4) : sv_choice(9), 0); } return n; }
static void sym(void) { B b = {0}; b_not(&b, 1, ""); sy[0] = b.p[0]; sy[1] = 0; }
void h_aj_inl(void) { sym(); cmark_node *d = cmark_node_new(CMARK_NODE_DOCUMENT), *p = nn(d, CMARK_NODE_PARAGRAPH, 0); int n = 1 + sv_choice(2), deep = sv_choice(n + 1); for (int i = 0; i < n; i++) inl(p, sv_choice(9), i == deep); thru(d); sv_cover("inl"); }
static void blk(cmark_node *p, int k, int d);
static void bkids(cmark_node *p, int d) { int m = d > 1 ? 1 + sv_choice(2) : sv_choice(2) + 1; for (int i = 0; i < m; i++) blk(p, i ? sv_choice(3) : d > 0 ? sv_choice(8) : sv_choice(3), d - 1); }
static void blk(cmark_node *p, int k, int d) { static const cmark_node_type T[] = {CMARK_NODE_PARAGRAPH, CMARK_NODE_CODE_BLOCK, CMARK_NODE_HEADING, CMARK_NODE_THEMATIC_BREAK, CMARK_NODE_HTML_BLOCK, CMARK_NODE_BLOCK_QUOTE, CMARK_NODE_LIST, CMARK_NODE_LIST}; cmark_node *n = nn(p, T[k], k == 1 ? "x\ny\n" : k == 4 ? "<div>\n" : 0); switch (k) { case 0: nn(n, CMARK_NODE_TEXT, "p"); break; case 1: if (d & 1) cmark_node_set_fence_info(n, "c++ x"); break; case 2: cmark_node_set_heading_level(n, 3); nn(nn(n, CMARK_NODE_EMPH, 0), CMARK_NODE_TEXT, "h"); break; case 5: if (d > 0) bkids(n, d); else nn(nn(n, CMARK_NODE_PARAGRAPH, 0), CMARK_NODE_TEXT, "q"); break; case 6: case 7: if (k == 7) { cmark_node_set_list_type(n, CMARK_ORDERED_LIST); cmark_node_set_list_start(n, d > 0 ? 0 : 7); cmark_node_set_list_delim(n, d > 0 ? CMARK_PAREN_DELIM : CMARK_PERIOD_DELIM); } cmark_node_set_list_tight(n, d > 0 ? sv_choice(2) : 1); int m = d > 0 ? sv_choice(3) : 1; for (int i = 0; i < m; i++) { cmark_node *it = nn(n, CMARK_NODE_ITEM, 0); if (d > 0 && i == 0) { if (m < 2 || sv_choice(4)) bkids(it, d - 1); } else if (i) nn(nn(it, CMARK_NODE_PARAGRAPH, 0), CMARK_NODE_TEXT, "i"); } break; } }
void h_aj_blk(void) { cmark_node *d = cmark_node_new(CMARK_NODE_DOCUMENT); int n = sv_choice(4), deep = n ? sv_choice(n) : 0; for (int i = 0; i < n; i++) blk(d, sv_choice(8), i == deep); thru(d); sv_cover("blk"); }
void h_aj_deep(void) { cmark_node *d = cmark_node_new(CMARK_NODE_DOCUMENT), *p = d; for (int l = 0; l < 3; l++) { int k = sv_choice(3); cmark_node *n; if (k == 0) n = p = nn(p, CMARK_NODE_BLOCK_QUOTE, 0); else { n = nn(p, CMARK_NODE_LIST, 0); cmark_node_set_list_tight(n, sv_choice(2)); if (k == 2) { cmark_node_set_list_type(n, CMARK_ORDERED_LIST); cmark_node_set_list_start(n, 2); cmark_node_set_list_delim(n, CMARK_PERIOD_DELIM); } p = nn(n, CMARK_NODE_ITEM, 0); } int w = sv_choice(3); if (w < 2) blk(p, w, 0); } if (sv_choice(2)) blk(p, sv_choice(5), 1); thru(d); sv_cover("deep"); }
void h_aj_str(void) { B b = {0}; b_not(&b, 2, ""); char *s = b_done(&b); int k = sv_choice(9); cmark_node *d = cmark_node_new(CMARK_NODE_DOCUMENT), *p = nn(d, CMARK_NODE_PARAGRAPH, 0), *n; if (k < 3) { static const cmark_node_type T[] = {CMARK_NODE_TEXT, CMARK_NODE_CODE, CMARK_NODE_HTML_INLINE}; nn(p, T[k], s); } else if (k < 7) { n = nn(p, k & 1 ? CMARK_NODE_LINK : CMARK_NODE_IMAGE, 0); if (k < 5) cmark_node_set_url(n, s); else cmark_node_set_title(n, s); nn(n, CMARK_NODE_TEXT, "z"); } else if (k == 7) nn(d, CMARK_NODE_HTML_BLOCK, s); else { B c = {0}; b_lit(&c, s); b_c(&c, '\n'); n = nn(d, CMARK_NODE_CODE_BLOCK, c.p); if (!strcmp(s, "inc")) return; cmark_node_set_fence_info(n, s); } nn(p, CMARK_NODE_TEXT, "end"); thru(d); sv_cover("str"); }
void h_aj_num(void) { static const int S[] = {0, 1, 2, 9, 10, 11, 99, 100, 101, 999, 65536, 1000000, 999999999, 1200000000}; cmark_node *d = cmark_node_new(CMARK_NODE_DOCUMENT); int l = 1 + sv_choice(6); cmark_node *h = nn(d, CMARK_NODE_HEADING, 0); cmark_node_set_heading_level(h, l); nn(h, CMARK_NODE_TEXT, "x"); cmark_node *n = nn(d, CMARK_NODE_LIST, 0); cmark_node_set_list_type(n, CMARK_ORDERED_LIST); cmark_node_set_list_start(n, S[sv_choice(14)]); cmark_node_set_list_delim(n, sv_choice(2) ? CMARK_PAREN_DELIM : CMARK_PERIOD_DELIM); cmark_node_set_list_tight(n, sv_choice(2)); nn(nn(nn(n, CMARK_NODE_ITEM, 0), CMARK_NODE_PARAGRAPH, 0), CMARK_NODE_TEXT, "y"); thru(d); sv_cover("num"); }
/* ---- what filters write ---- */
static void obj(B *b, const char *t, const char *c, int ord, const char *sp) { b_c(b, '{'); b_lit(b, sp); if (ord == 2) b_lit(b, "\"x\":[{\"t\":1},null],"); if (ord == 1 && c) { b_lit(b, "\"c\":"); b_lit(b, c); b_lit(b, sp); b_lit(b, ","); } b_lit(b, "\"t\""); b_lit(b, sp); b_lit(b, ":\""); b_lit(b, t); b_lit(b, "\""); if (ord != 1 && c) { b_lit(b, sp); b_lit(b, ",\"c\":"); b_lit(b, sp); b_lit(b, c); } b_lit(b, sp); b_c(b, '}'); }
#define A0 "[\"\",[],[]]"
#define S(x) "{\"t\":\"Str\",\"c\":\"" x "\"}"
static const char *IN[][3] = {{"Str", "\"a\"", "taaaba"}, {"Space", 0, "taaab "}, {"SoftBreak", 0, "s"}, {"LineBreak", "[]", "l"}, {"LineBreak", 0, "l"}, {"Emph", "[" S("a") "," S("b") "]", "e(taaabataaabb)"}, {"Strong", "[]", "g"}, {"Code", "[[\"i\",[\"k\"],[[\"a\",\"b\"]]],\"q\"]", "caaabq"}, {"Span", "[" A0 ",[" S("a") "," S("b") "]]", "taaabataaabb"}, {"Math", "[{\"t\":\"InlineMath\"},\"x\"]", "haaad$x$"}, {"Math", "[{\"t\":\"DisplayMath\"},\"x\"]", "haaaf$$x$$"}, {"RawInline", "[\"html\",\"<i>\"]", "haaad<i>"}, {"Link", "[" A0 ",[" S("a") "],[\"u\",\"\"]]", "aaaabuaaaa(taaaba)"}, {"Image", "[" A0 ",[],[\"u\",\"t\"]]", "iaaabuaaabt"}};
static const char *BK[][3] = {{"Para", "[" S("a") "]", "P(taaaba)"}, {"Plain", "[" S("a") "," S("b") "]", "P(taaabataaabb)"}, {"HorizontalRule", 0, "R"}, {"Header", "[2,[\"id\",[],[]],[" S("a") "]]", "H2;(taaaba)"}, {"CodeBlock", "[[\"\",[\"c\",\"d\",\"e\"],[[\"k\",\"v\"]]],\"x\"]", "Kaaacx\naaabc"}, {"BlockQuote", "[{\"t\":\"Para\",\"c\":[]}]", "Q(P)"}, {"BulletList", "[[{\"t\":\"Plain\",\"c\":[" S("a") "]}],[]]", "L*x(I(P(taaaba))I)"}, {"OrderedList", "[[3,{\"t\":\"Decimal\"},{\"t\":\"OneParen\"}],[[{\"c\":[" S("a") "],\"t\":\"Para\"}]]]", "L13;)o(I(P(taaaba)))"}, {"Div", "[" A0 ",[{\"t\":\"HorizontalRule\"},{\"t\":\"Para\",\"c\":[" S("a") "]}]]", "RP(taaaba)"}, {"RawBlock", "[\"html\",\"<p>\"]", "Baaad<p>"}, {"OrderedList", "[[1,{\"t\":\"Decimal\"},{\"t\":\"Period\"}],[[{\"t\":\"Plain\",\"c\":[" S("OneParen") "]}]]]", "L11;.x(I(P(taaaiOneParen)))"}, {"BulletList", "[[{\"t\":\"Div\",\"c\":[" A0 ",[{\"t\":\"Plain\",\"c\":[" S("a") "]}]]}]]", "L*x(I(P(taaaba)))"}};
void h_aj_in(void) { static const char *W[] = {"", " ", "\n", "\t \r"}; const char *sp = W[sv_choice(4)]; int o1 = sv_choice(3), k = sv_choice(2); B b = {0}, w = {0}, r = {0}; b_lit(&b, o1 == 2 ? "{\"pandoc-api-version\":[1,22],\"meta\":{\"t\":{\"blocks\":[1]}},\"blocks\":" : "{\"blocks\":"); b_lit(&b, sp); b_c(&b, '['); b_lit(&w, "D("); if (k) { B p = {0}; b_c(&p, '['); b_lit(&w, "P("); for (int i = 0; i < 2; i++) { int q = sv_choice(14); if (i) b_c(&p, ','); b_lit(&p, sp); obj(&p, IN[q][0], IN[q][1], i ? 0 : o1, sp); b_lit(&p, sp); b_lit(&w, IN[q][2]); } b_c(&p, ']'); obj(&b, "Para", p.p, o1, sp); b_lit(&w, ")"); } else for (int i = 0; i < 2; i++) { int q = sv_choice(12); if (i) b_c(&b, ','); b_lit(&b, sp); obj(&b, BK[q][0], BK[q][1], i ? 0 : o1, sp); b_lit(&w, BK[q][2]); } b_lit(&b, sp); b_c(&b, ']'); if (o1 == 1) b_lit(&b, ",\"meta\":{}"); b_c(&b, '}'); b_lit(&b, sp); b_c(&w, ')'); apex_options o; memset(&o, 0, sizeof o); cmark_node *d = apex_pandoc_json_to_cmark(b_done(&b), &o); if (!d) { sv_fail("the output of a filter is read"); return; } ser(&r, d); expect_str(r.p, w.p, "the output of a filter is read as the tree it stands for"); sv_cover("in"); }
void h_aj_esc(void) { int k = sv_choice(3); B b = {0}, w = {0}; b_lit(&b, "{\"blocks\":[{\"t\":\"Para\",\"c\":[{\"t\":\"Str\",\"c\":\"a"); b_c(&w, 'a'); if (k == 0) { b_lit(&b, "\\u"); static const char *PRE[] = {"00", "07", "08", "0f", "1F", "7f", "80", "e0", "FF"}; if (sv_choice(2)) { b_lit(&b, PRE[sv_choice(9)]); b_in(&b, 2, "0123456789abcdefABCDEF"); } else { b_in(&b, 2, "0123456789abcdefABCDEF"); b_lit(&b, sv_choice(2) ? "3f" : "C0"); } const char *h = b.p + b.n - 4; unsigned c = hx(h[0]) << 12 | hx(h[1]) << 8 | hx(h[2]) << 4 | hx(h[3]); if (c == 0 || (c >= 0xd800 && c < 0xe000)) return; if (c < 0x80) b_c(&w, c); else if (c < 0x800) { b_c(&w, 0xc0 | c >> 6); b_c(&w, 0x80 | (c & 63)); } else { b_c(&w, 0xe0 | c >> 12); b_c(&w, 0x80 | (c >> 6 & 63)); b_c(&w, 0x80 | (c & 63)); } }
  else if (k == 1) { static const char Q[] = "\"\\/ntrbf", D[] = "\"\\/\n\t\r\b\f"; int j = sv_choice(8); b_c(&b, '\\'); b_c(&b, Q[j]); b_c(&w, D[j]); } else { static const char *HI[] = {"00", "3d", "7F", "bf", "ff"}; int q = sv_choice(5); b_lit(&b, "\\uD8"); b.n -= 1; b.p[b.n] = 0; b_lit(&b, q < 3 ? "8" : q == 3 ? "9" : "B"); b_lit(&b, HI[q]); unsigned hi = (q < 3 ? 0xd800 : q == 3 ? 0xd900 : 0xdb00) | hx(HI[q][0]) << 4 | hx(HI[q][1]); b_lit(&b, "\\uD"); b_in(&b, 1, "cdEF"); b_in(&b, 1, "08f"); b_in(&b, 1, "0123456789abcdef"); const char *h = b.p + b.n - 3; unsigned lo = (0xd << 12) | hx(h[0]) << 8 | hx(h[1]) << 4 | hx(h[2]), c = 0x10000 + ((hi - 0xd800) << 10) + (lo - 0xdc00); b_c(&w, 0xf0 | c >> 18); b_c(&w, 0x80 | (c >> 12 & 63)); b_c(&w, 0x80 | (c >> 6 & 63)); b_c(&w, 0x80 | (c & 63)); }
  b_lit(&b, "z\"}]}]}"); b_c(&w, 'z'); apex_options o; memset(&o, 0, sizeof o); cmark_node *d = apex_pandoc_json_to_cmark(b_done(&b), &o), *t = d ? cmark_node_first_child(cmark_node_first_child(d)) : 0; expect_str(t ? cmark_node_get_literal(t) : 0, w.p, "JSON escapes are decoded"); sv_cover("esc"); }
void h_aj_any(void) { apex_options o; memset(&o, 0, sizeof o); if (sv_choice(2)) { B b = {0}; int k = sv_choice(3); if (k) b_lit(&b, k == 1 ? "{\"blocks\":[" : "{\"blocks\":[{\"t\":\"Para\",\"c\":["); b_in0(&b, k ? 5 : 7, "{}[]\":,tc"); cmark_node *d = apex_pandoc_json_to_cmark(b_done(&b), &o); if (d) { sv_assert(cmark_node_get_type(d) == CMARK_NODE_DOCUMENT, "a document"); cmark_node_free(d); } sv_cover("any"); return; }
  static const char T[] = "{\"meta\":{\"a\":[1,\"\\\"\"]},\"blocks\":[{\"t\":\"Para\",\"c\":[" S("a\\u00e9") ",{\"t\":\"Link\",\"c\":[" A0 ",[],[\"u\",\"t\"]]},{\"t\":\"Math\",\"c\":[{\"t\":\"InlineMath\"},\"x\"]}]},{\"t\":\"CodeBlock\",\"c\":[" A0 ",\"x\"]},{\"t\":\"OrderedList\",\"c\":[[1,{\"t\":\"Decimal\"},{\"t\":\"Period\"}],[[{\"t\":\"BlockQuote\",\"c\":[{\"t\":\"Div\",\"c\":[" A0 ",[{\"t\":\"Header\",\"c\":[1," A0 ",[]]}]]}]}]]]}]}"; size_t n = sizeof T - 1; int c = sv_choice((int)(n / 8 + 1)) * 8; c += sv_choice(8); if (c >= (int)n) return; B b = {0}; b_mem(&b, T, c); cmark_node *d = apex_pandoc_json_to_cmark(b_done(&b), &o), *f = apex_pandoc_json_to_cmark(T, &o); if (!f) { sv_fail("a whole document is read"); return; } if (d) { B x = {0}, y = {0}; ser(&x, d); ser(&y, f); sv_assert(x.n == y.n && !memcmp(x.p, y.p, x.n), "a truncated document is never taken for a whole one"); } sv_cover("cut"); }
void h_aj_big(void) { static const int Z[] = {1, 62, 63, 64, 127, 4095, 9000}, N[] = {1, 150}, D[] = {1, 40}; cmark_node *d = cmark_node_new(CMARK_NODE_DOCUMENT); int m = sv_choice(3); B t = {0}; if (m == 0) { int z = Z[sv_choice(7)]; b_fill(&t, sv_choice(2) ? 'x' : '"', z); nn(nn(d, CMARK_NODE_PARAGRAPH, 0), CMARK_NODE_TEXT, t.p); cmark_node *k = nn(d, CMARK_NODE_CODE_BLOCK, 0); b_c(&t, '\n'); cmark_node_set_literal(k, t.p); } else if (m == 1) { int n = N[sv_choice(2)]; for (int i = 0; i < n; i++) { cmark_node *p = nn(d, CMARK_NODE_PARAGRAPH, 0); nn(p, CMARK_NODE_TEXT, "w"); nn(p, CMARK_NODE_SOFTBREAK, 0); nn(p, CMARK_NODE_CODE, "v"); } } else { int n = D[sv_choice(2)]; cmark_node *p = d; for (int i = 0; i < n; i++) p = nn(p, CMARK_NODE_BLOCK_QUOTE, 0); nn(nn(p, CMARK_NODE_PARAGRAPH, 0), CMARK_NODE_TEXT, "w"); } thru(d); sv_cover("big"); }
void h_aj_size(void) { int z = sv_choice(256) + 256 * sv_choice(5), k = sv_choice(2); B t = {0}; b_fill(&t, 'x', z); apex_options o; memset(&o, 0, sizeof o); if (k == 0) { cmark_node *d = cmark_node_new(CMARK_NODE_DOCUMENT), *p = nn(d, CMARK_NODE_PARAGRAPH, 0); b_not(&t, 1, ""); nn(p, CMARK_NODE_TEXT, t.p); nn(p, CMARK_NODE_CODE, "k"); thru(d); } else { static const char *E[] = {"\\n", "\\u00e9", "\\u20ac", "\\ud83d\\ude00"}, *D[] = {"\n", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80"}; int e = sv_choice(4); B b = {0}; b_lit(&b, "{\"blocks\":[{\"t\":\"Para\",\"c\":[{\"t\":\"Str\",\"c\":\""); b_lit(&b, t.p); b_lit(&b, E[e]); b_lit(&t, D[e]); b_lit(&b, "\"}]}]}"); cmark_node *d = apex_pandoc_json_to_cmark(b_done(&b), &o), *x = d ? cmark_node_first_child(cmark_node_first_child(d)) : 0; expect_str(x ? cmark_node_get_literal(x) : 0, t.p, "texts of every length are read in full"); } sv_cover("size"); }
