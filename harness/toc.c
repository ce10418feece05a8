//@src src/extensions/toc.c src/extensions/header_ids.c src/extensions/emoji.c @model/cmark.c
//@job C15 h_toc_nest quick=90 workers=6 bound="every sequence of 1..5 headings of levels 1..6 (thorough: 6)"
//@job C15 h_toc_range quick=60 workers=4 bound="markers of all forms with arbitrary digit limits, 3 headings of arbitrary level, distracting text after the marker"
//@job C15 h_toc_text quick=60 workers=2 bound="one heading with 3 arbitrary bytes of text in a text or code node; HTML around the marker arbitrary (2 bytes)"
//@job C03,C15 h_toc_code quick=60 workers=2 bound="markers inside code/pre elements (any letter case, arbitrary byte), followed by a real marker"
//@job C03,C15 h_toc_long quick=60 workers=2 max_instr=200000000 bound="1..60 headings of up to 1500 bytes"
//@job C03,C15 h_toc_cap quick=60 workers=3 max_instr=200000000 bound="one heading with every length of 1995..2027 bytes, so that the list has every length around its buffer's first size"
//@job C03,C15 h_toc_free quick=60 workers=4 bound="every html of at most 8 characters over { } T O C < ! - > with headings present"
//@job C15 h_toc_attr quick=60 workers=1 bound="headings with explicit IDs and the no_toc class, 2 arbitrary ID bytes; headings nested in block quotes and list items"
#include "hl.h"
#include <cmark-gfm.h>
#include "toc.h"
#include "header_ids.h"
static cmark_node *doc; static int lev[64]; static char *txt[64]; static int nh;
static cmark_node *heading(cmark_node *p, int level, const char *t, int code) { cmark_node *h = cmark_node_new(CMARK_NODE_HEADING), *x = cmark_node_new(code ? CMARK_NODE_CODE : CMARK_NODE_TEXT); cmark_node_set_heading_level(h, level); cmark_node_set_literal(x, t); cmark_node_append_child(h, x); cmark_node_append_child(p, h); return h; }
static const char *skip(const char *p, const char *s, const char *msg) { sv_assert(starts(p, s), msg); return p + strlen(s); }
/* checks a <nav> against headings lo..hi; returns the end */
static const char *check_nav(const char *p, int lo, int hi) {
  static const char N[] = "the TOC is a properly nested list"; int stack = 0, inli[16] = {0}, had[16] = {0}, depth[64], k = 0, idx[64];
  for (int i = 0; i < nh; i++) if (lev[i] >= lo && lev[i] <= hi) idx[k++] = i;
  p = skip(p, "<nav class=\"toc\">\n", N); int seen = 0;
  while (!starts(p, "</nav>\n")) {
    if (starts(p, "<ul>\n")) { sv_assert(stack == 0 ? seen == 0 : inli[stack] == 1, N); sv_assert(!had[stack], "what is below a heading is one list"); had[stack] = 1; stack++; inli[stack] = 0; p += 5; sv_assert(starts(p, "<li>"), N); }
    else if (starts(p, "</ul>\n")) { sv_assert(stack > 0 && inli[stack] == 0, N); stack--; p += 6; }
    else if (starts(p, "</li>\n")) { sv_assert(stack > 0 && inli[stack] == 1, N); inli[stack] = 0; p += 6; }
    else if (starts(p, "<li>")) {
      sv_assert(stack > 0 && inli[stack] == 0, N); inli[stack] = 1; had[stack] = 0; p += 4; if (seen >= k) { sv_fail("no heading outside the limits or twice"); return p; }
      depth[seen] = stack; B w = {0}; b_lit(&w, "<a href=\"#"); b_lit(&w, apex_generate_header_id(txt[idx[seen]], 0)); b_lit(&w, "\">"); for (const char *c = txt[idx[seen]]; *c; c++) { if (*c == '<') b_lit(&w, "&lt;"); else if (*c == '>') b_lit(&w, "&gt;"); else if (*c == '&') b_lit(&w, "&amp;"); else b_c(&w, *c); } b_lit(&w, "</a>");
      size_t wl = strlen(w.p); sv_assert(strlen(p) >= wl, "every heading in range is listed with its link and text"); sv_assert_mem_eq(p, w.p, wl, "every heading in range is listed with its link and text, in order"); p += wl; seen++; if (*p == '\n') p++;
    } else { sv_fail(N); return p; }
  }
  sv_assert(stack == 0, N); sv_assert(seen == k, "every heading in range is listed");
  for (int i = 1; i < k; i++) { int a = lev[idx[i - 1]], b = lev[idx[i]]; if (b > a) sv_assert(depth[i] == depth[i - 1] + 1, "a deeper heading nests in the one before"); else if (b == a) sv_assert(depth[i] == depth[i - 1], "equal headings are siblings"); else sv_assert(depth[i] <= depth[i - 1], "a shallower heading never nests deeper");
    for (int j = i - 1; j >= 0 && lev[idx[j]] >= b; j--) if (lev[idx[j]] == b) { sv_assert(depth[i] == depth[j], "headings of equal level under one parent are siblings"); break; } }
  return p + 7;
}
static void begin(void) { doc = cmark_node_new(CMARK_NODE_DOCUMENT); nh = 0; }
static void add(int level, char *t) { lev[nh] = level; txt[nh++] = t; heading(doc, level, t, 0); }
static char *T[] = {"Alpha", "Beta", "Gamma", "Delta", "Eps", "Zeta"};
void h_toc_nest(void) { begin(); int n = 1 + sv_choice(SV_TIER > 1 ? 6 : 5); for (int i = 0; i < n; i++) add(1 + sv_choice(6), T[i]); char *r = apex_process_toc("<p>{{TOC}}</p>", doc, 0); const char *p = skip(r, "<p>", "text before"); p = check_nav(p, 1, 6); sv_assert(!strcmp(p, "</p>"), "text after the marker is kept"); sv_emit("r", r, strlen(r)); sv_cover("nest"); }
void h_toc_range(void) {
  begin(); for (int i = 0; i < 3; i++) add(1 + sv_choice(6), T[i]); B b = {0}; int k = sv_choice(9), lo = 1, hi = 6; char d1 = '1' + sv_choice(6), d2 = '1' + sv_choice(6); b_lit(&b, "x");
  switch (k) { case 0: b_lit(&b, "<!--TOC-->"); break; case 1: b_lit(&b, "<!--TOC max"); b_c(&b, d1); b_lit(&b, "-->"); hi = d1 - '0'; break; case 2: b_lit(&b, "<!--TOC max"); b_c(&b, d1); b_lit(&b, " min"); b_c(&b, d2); b_lit(&b, "-->"); hi = d1 - '0'; lo = d2 - '0'; break; case 3: b_lit(&b, "<!--TOC min"); b_c(&b, d1); b_lit(&b, "-->"); lo = d1 - '0'; break;
    case 4: b_lit(&b, "{{TOC}}"); break; case 5: b_lit(&b, "{{TOC:"); b_c(&b, d1); b_lit(&b, "}}"); lo = d1 - '0'; break; case 6: b_lit(&b, "{{TOC:"); b_c(&b, d1); b_c(&b, '-'); b_c(&b, d2); b_lit(&b, "}}"); lo = d1 - '0'; hi = d2 - '0'; break; case 7: b_lit(&b, "<!--TOC max"); b_c(&b, d1); b_c(&b, d2); b_lit(&b, "-->"); break; case 8: b_lit(&b, "<!-- TOC -->{{TOC:"); b_c(&b, d1); b_lit(&b, "-1"); b_c(&b, d2); b_lit(&b, "}}"); lo = d1 - '0'; break; }
  static const char *tail[] = {"", " note: 5-6", " max 2 min 3", "<a href=\"x:4-5\">", " {{TOC:2}}", " <!--TOC min2-->"}; const char *t = tail[sv_choice(6)]; b_lit(&b, t); char *in = b_done(&b), *r = apex_process_toc(in, doc, 0); const char *p = skip(r, k == 8 ? "x<!-- TOC -->" : "x", "text before"); p = check_nav(p, lo, hi); sv_assert(!strcmp(p, t), "text after the marker is kept"); sv_emit("r", r, strlen(r)); sv_cover("range");
}
void h_toc_text(void) { begin(); B t = {0}; b_lit(&t, "h"); for (int i = 0; i < 3; i++) { b_sym(&t, 1); sv_assume((t.p[t.n - 1] & 0x80) == 0); sv_assume(t.p[t.n-1] != 0); } char *s = b_done(&t); int code = sv_choice(2); lev[0] = 2; txt[0] = s; nh = 1; heading(doc, 2, s, code); B b = {0}; b_not(&b, 1, "<{"); char c = b.p[0]; b_lit(&b, "<!--TOC-->"); b_not(&b, 1, ""); char *in = b_done(&b); char *r = apex_process_toc(in, doc, 0); sv_assert(r[0] == in[0], "text before is kept"); const char *p = check_nav(r + 1, 1, 6); sv_assert(p[0] == in[11] && !p[1], "text after is kept"); sv_emit("r", r, strlen(r)); sv_cover("text"); }
void h_toc_code(void) {
  begin(); add(1, T[0]); static const char *O[] = {"<code>", "<pre>", "<CODE class=\"a\">", "<pre\n>", "<pre><code>", "<code\tid=\"x\">", "<pre\tid=\"x\">", "<code><pre>y</pre>", "<pre><code>x</code>", "<code>a</code><pre>b</pre><code>"}, *C[] = {"</code>", "</pre>", "</Code>", "</PRE>", "</code></pre>", "</code>", "</pre>", "</code>", "</pre>", "</code>"}, *M[] = {"{{TOC}}", "<!--TOC max2-->", "{{TOC", "<!--TOC"}; int k = sv_choice(10), m = sv_choice(4), m2 = sv_choice(2), real = sv_choice(2); B b = {0}; b_lit(&b, O[k]); b_not(&b, 1, "<{"); b_lit(&b, M[m]); b_not(&b, 1, "<{"); b_lit(&b, C[k]); b_lit(&b, " z "); size_t n = b.n; if (real) b_lit(&b, M[m2]); b_lit(&b, "end"); char *in = b_done(&b), *r = apex_process_toc(in, doc, 0);
  sv_assert_mem_eq(r, in, n, "markers in code stay literal"); const char *p = r + n; if (real) p = check_nav(p, 1, m2 ? 2 : 6); sv_assert(!strcmp(p, "end"), "text after"); sv_emit("r", r, strlen(r)); sv_cover("code");
}
void h_toc_long(void) { static const int N[] = {1, 3, 20, 60}, L[] = {5, 400, 990, 1500}; begin(); int n = N[sv_choice(4)], l = L[sv_choice(4)]; for (int i = 0; i < n; i++) { B t = {0}; b_fill(&t, 'a' + i % 26, l); if (i == 1) { b_not(&t, 1, "<>&"); sv_assume((t.p[t.n - 1] & 0x80) == 0); } add(1 + (i * 7) % 6, b_done(&t)); } char *r = apex_process_toc("<!--TOC-->", doc, 0); const char *p = check_nav(r, 1, 6); sv_assert(!*p, "nothing after"); sv_cover("long"); }
void h_toc_cap(void) { begin(); int l = 1995 + sv_choice(32); B t = {0}; b_fill(&t, 'a', l); if (sv_choice(2)) b_c(&t, '.'); add(1, b_done(&t)); char *r = apex_process_toc("<!--TOC-->", doc, 0); const char *p = check_nav(r, 1, 6); sv_assert(!*p, "nothing after"); sv_cover("cap"); }
void h_toc_free(void) { begin(); add(2, T[0]); B b = {0}; int k = sv_choice(2); b_lit(&b, k ? "{{TOC" : "<!--TOC"); b_in0(&b, 6, "{}<!->3:"); char *in = b_done(&b), *r = apex_process_toc(in, doc, 0); sv_emit("r", r, strlen(r)); const char *e = strstr(in, k ? "}}" : "-->"); if (!e) { sv_assert(!strcmp(r, in), "an unterminated marker is left alone"); sv_cover("open"); } else { e += k ? 2 : 3; size_t n = strlen(r), t = strlen(e); sv_assert(starts(r, "<nav class=\"toc\">\n"), "the marker becomes the TOC"); sv_assert(n > t && !strcmp(r + n - t, e), "text after the marker is kept"); sv_cover("toc"); } }
void h_toc_attr(void) {
  begin(); B i = {0}; b_not(&i, 2, "\"<>&"); char *id = b_done(&i); cmark_node *q = cmark_node_new(CMARK_NODE_BLOCK_QUOTE); cmark_node_append_child(doc, q); cmark_node *h = heading(q, 1, "One", 0); B a = {0}; int cls = sv_choice(4); b_lit(&a, cls == 1 ? "class=\"k\" " : cls == 2 ? " " : cls == 3 ? " data-id=\"q\"\n" : ""); b_lit(&a, "id=\""); b_lit(&a, id); b_lit(&a, "\""); cmark_node_set_user_data(h, b_done(&a)); cmark_node *n = heading(doc, 1, "Hidden", 0); cmark_node_set_user_data(n, "class=\"no_toc\""); cmark_node *ls = cmark_node_new(CMARK_NODE_LIST), *it = cmark_node_new(CMARK_NODE_ITEM); if (sv_choice(2)) { cmark_node_append_child(doc, ls); cmark_node_append_child(ls, it); heading(it, 1, "Two", 0); } else heading(doc, 1, "Two", 0);
  B w = {0}; b_lit(&w, "<nav class=\"toc\">\n<ul>\n<li><a href=\"#"); b_lit(&w, id); b_lit(&w, "\">One</a></li>\n<li><a href=\"#two\">Two</a></li>\n</ul>\n</nav>\n"); expect_str(apex_process_toc("{{TOC}}", doc, 0), w.p, "explicit IDs are linked, no_toc headings left out, nested headings included"); sv_cover("attr");
}
