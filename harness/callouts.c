//@src src/extensions/callouts.c @model/cmark.c
//@job C16 h_co_type quick=60 workers=4 bound="every callout type name and alias with one byte of it or after it arbitrary, arbitrary byte after the bracket, 2 arbitrary title bytes"
//@job C03,C16 h_co_long quick=60 workers=2 bound="names of every length of 55..74 bytes and of up to 1500"
//@job C16 h_co_free quick=60 workers=4 bound="[!note followed by every text of at most 5 bytes; and every text of at most 6 bytes"
//@job C03,C16 h_co_title quick=60 workers=2 bound="titles of 0..3000 bytes with arbitrary bytes at both ends, all three fold states, second line present or absent"
//@job C16 h_co_tree quick=60 workers=2 bound="documents of up to 4 blocks (callouts, plain quotes, paragraphs), callouts nested in lists and quotes, content blocks after the title"
#include "hl.h"
#include <cmark-gfm.h>
#include "callouts.h"
static const char *NM[] = {"NOTE", "ABSTRACT", "SUMMARY", "TLDR", "INFO", "TODO", "TIP", "HINT", "IMPORTANT", "SUCCESS", "CHECK", "DONE", "QUESTION", "HELP", "FAQ", "WARNING", "CAUTION", "ATTENTION", "FAILURE", "FAIL", "MISSING", "DANGER", "ERROR", "BUG", "EXAMPLE", "QUOTE", "CITE"};
static const char *TY[] = {"note", "abstract", "abstract", "abstract", "info", "todo", "tip", "tip", "tip", "success", "success", "success", "question", "question", "question", "warning", "warning", "warning", "failure", "failure", "failure", "danger", "danger", "bug", "example", "quote", "quote"};
static char up(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static cmark_node *leaf(int t, const char *s) { cmark_node *n = cmark_node_new(t); cmark_node_set_literal(n, s); return n; }
/* what the wrapper of a block quote whose first text is t looks like; 0 if it is no callout */
static char *wb, *we; static const char *rest;
static int oracle(const char *t) {
  if (t[0] != '[' || t[1] != '!') return 0; const char *e = strchr(t + 2, ']'); if (!e || e == t + 2) return 0; size_t n = e - t - 2; int k = -1;
  for (int i = 0; i < 27 && k < 0; i++) if (strlen(NM[i]) == n) { int same = 1; for (size_t j = 0; j < n; j++) if (up(t[2 + j]) != NM[i][j]) same = 0; if (same) k = i; }
  if (k < 0) return 0; int fold = 0; e++; if (*e == '+') fold = 1, e++; else if (*e == '-') fold = 2, e++;
  while (*e == ' ' || *e == '\t') e++; const char *nl = e; while (*nl && *nl != '\n') nl++;
  B b = {0}, w = {0}; if (!*e) b_lit(&b, TY[k]); else b_lit(&b, ""); for (const char *p = e; p < nl; p++) { if (*p == '<') b_lit(&b, "&lt;"); else if (*p == '>') b_lit(&b, "&gt;"); else if (*p == '&') b_lit(&b, "&amp;"); else b_c(&b, *p); }
  if (fold) { b_lit(&w, "<details class=\"callout callout-"); b_lit(&w, TY[k]); b_lit(&w, fold == 1 ? "\" open>\n<summary>" : "\">\n<summary>"); b_lit(&w, b.p); b_lit(&w, "</summary>\n<div class=\"callout-content\">\n"); we = "\n</div>\n</details>"; }
  else { b_lit(&w, "<div class=\"callout callout-"); b_lit(&w, TY[k]); b_lit(&w, "\">\n<div class=\"callout-title\">"); b_lit(&w, b.p); b_lit(&w, "</div>\n<div class=\"callout-content\">\n"); we = "\n</div>\n</div>"; }
  wb = w.p; rest = *nl && nl[1] ? nl + 1 : 0; return 1;
}
/* a block quote holding one paragraph with text t, checked before and after */
static cmark_node *quote(const char *t) { cmark_node *q = cmark_node_new(CMARK_NODE_BLOCK_QUOTE), *p = cmark_node_new(CMARK_NODE_PARAGRAPH); cmark_node_append_child(p, leaf(CMARK_NODE_TEXT, t)); cmark_node_append_child(p, leaf(CMARK_NODE_CODE, "kept")); cmark_node_append_child(q, p); return q; }
static cmark_node *check(cmark_node *q, const char *t) { /* returns the node after what q became */
  int c = oracle(t); cmark_node *p = cmark_node_first_child(q), *x = cmark_node_first_child(p), *b = cmark_node_previous(q), *a = cmark_node_next(q);
  if (!c) { expect_str(cmark_node_get_literal(x), t, "a block quote that is no callout keeps its text"); sv_assert(!b || cmark_node_get_type(b) != CMARK_NODE_HTML_BLOCK || starts(cmark_node_get_literal(b), "\n</div>"), "a plain quote is not wrapped"); sv_cover("plain"); return a; }
  sv_assert(b && a && cmark_node_get_type(b) == CMARK_NODE_HTML_BLOCK && cmark_node_get_type(a) == CMARK_NODE_HTML_BLOCK, "a callout is wrapped"); expect_str(cmark_node_get_literal(b), wb, "the callout opens with its type, fold state and whole title"); expect_str(cmark_node_get_literal(a), we, "the callout closes what it opened");
  if (rest) { sv_assert(cmark_node_get_type(x) == CMARK_NODE_TEXT, "content"); expect_str(cmark_node_get_literal(x), rest, "the text after the title line is kept"); x = cmark_node_next(x); }
  sv_assert(x && cmark_node_get_type(x) == CMARK_NODE_CODE && !strcmp(cmark_node_get_literal(x), "kept") && !cmark_node_next(x), "the rest of the content is kept"); sv_cover("callout"); return cmark_node_next(a);
}
static void one(char *t) { cmark_node *d = cmark_node_new(CMARK_NODE_DOCUMENT), *q = quote(t); cmark_node_append_child(d, q); apex_process_callouts_in_tree(d); cmark_node *r = check(q, t); sv_assert(!r, "nothing follows"); if (oracle(t)) sv_assert(cmark_node_first_child(d) == cmark_node_previous(q), "wrapper comes first"); else sv_assert(cmark_node_first_child(d) == q && !cmark_node_next(q), "a plain quote stays alone"); }
void h_co_type(void) { const char *n = NM[sv_choice(27)]; int low = sv_choice(2); size_t at = sv_choice(11); sv_assume(at <= strlen(n)); B b = {0}; b_lit(&b, "[!"); for (size_t i = 0; n[i]; i++) if (i == at) b_not(&b, 1, ""); else b_c(&b, low ? n[i] + 32 : n[i]); if (at == strlen(n) && sv_choice(2)) b_not(&b, 1, "]"); b_lit(&b, "]"); b_sym(&b, 1); b_lit(&b, " T"); b_sym(&b, 2); one(b_done(&b)); }
void h_co_long(void) { int l = 55 + sv_choice(20), pre = sv_choice(3); B b = {0}; b_lit(&b, "[!"); b_lit(&b, pre == 1 ? "note" : pre == 2 ? "  tip" : ""); b_fill(&b, 'e', l - (pre == 1 ? 4 : pre == 2 ? 5 : 0)); b_lit(&b, "] t"); one(b_done(&b)); if (sv_choice(2)) { B c = {0}; b_lit(&c, "[!"); b_fill(&c, 'n', l * 20); b_lit(&c, "]"); one(b_done(&c)); } sv_cover("long"); }
void h_co_free(void) { B b = {0}; if (sv_choice(2)) { b_lit(&b, "[!note"); b_sym(&b, 5); } else b_sym(&b, 6); one(b_done(&b)); }
void h_co_title(void) { static const int L[] = {0, 1, 800, 900, 940, 1000, 1024, 3000}; static const char *F[] = {"[!TIP] ", "[!TIP]+ ", "[!TIP]- "}; int l = L[sv_choice(8)], nl = sv_choice(2); B b = {0}; b_lit(&b, F[sv_choice(3)]); b_sym(&b, 1); b_fill(&b, 't', l); b_sym(&b, 1); if (nl) b_lit(&b, "\nsecond"); one(b_done(&b)); }
void h_co_tree(void) {
  cmark_node *d = cmark_node_new(CMARK_NODE_DOCUMENT), *q[4], *par = d; int n = 1 + sv_choice(4), ty[4]; static const char *T[] = {"[!note] a", "[!bug]- b\nc", "plain", "[!other] x"}; int wrap = sv_choice(3);
  if (wrap == 1) { cmark_node *o = cmark_node_new(CMARK_NODE_BLOCK_QUOTE); cmark_node_append_child(d, o); par = o; } else if (wrap == 2) { cmark_node *l = cmark_node_new(CMARK_NODE_LIST), *i = cmark_node_new(CMARK_NODE_ITEM); cmark_node_set_list_type(l, CMARK_BULLET_LIST); cmark_node_append_child(d, l); cmark_node_append_child(l, i); par = i; }
  if (wrap == 1) { cmark_node *p = cmark_node_new(CMARK_NODE_PARAGRAPH); cmark_node_append_child(p, leaf(CMARK_NODE_TEXT, "intro")); cmark_node_append_child(par, p); }
  for (int i = 0; i < n; i++) { ty[i] = sv_choice(5); if (ty[i] == 4) { q[i] = cmark_node_new(CMARK_NODE_PARAGRAPH); cmark_node_append_child(q[i], leaf(CMARK_NODE_TEXT, "[!note] not a quote")); } else { q[i] = quote(T[ty[i]]); cmark_node *p = cmark_node_new(CMARK_NODE_PARAGRAPH); cmark_node_append_child(p, leaf(CMARK_NODE_TEXT, "body")); cmark_node_append_child(q[i], p); } cmark_node_append_child(par, q[i]); }
  apex_process_callouts_in_tree(d); cmark_node *x = cmark_node_first_child(par); if (wrap == 1) x = cmark_node_next(x);
  for (int i = 0; i < n; i++) { if (ty[i] < 2) x = cmark_node_next(x); sv_assert(x == q[i], "blocks stay in order"); if (ty[i] == 4) { expect_str(cmark_node_get_literal(cmark_node_first_child(x)), "[!note] not a quote", "paragraphs are untouched"); x = cmark_node_next(x); } else { cmark_node *bp = cmark_node_last_child(x); sv_assert(bp && !strcmp(cmark_node_get_literal(cmark_node_first_child(bp)), "body"), "content blocks are kept"); x = check(q[i], T[ty[i]]); } }
  sv_assert(!x, "nothing is added at the end"); sv_cover("tree");
}
