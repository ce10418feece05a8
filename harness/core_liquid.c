//@src src/apex.c @model/cmark.c
//@job C31 h_liq_free quick=60 workers=4 bound="every text of at most 8 characters over { % } a 5 newline, rendered unchanged by the parser"
//@job C31 h_liq_bytes quick=60 workers=2 bound="a tag of 3 arbitrary bytes between 2 arbitrary bytes, twice"
//@job C31 h_liq_many quick=60 workers=2 max_instr=200000000 bound="0..24 tags of up to 300 bytes, digits and letters between them"
//@job C31 h_liq_stages quick=60 workers=2 bound="all options on in every mode: a tag of 2 arbitrary bytes and every stage from special markers to the parser"
//@job C31 h_liq_formats quick=60 workers=2 bound="every output format other than HTML, the tag in text, code, code block, HTML, link URL or title, 2 arbitrary bytes"
#include "core.h"
static void same(char *in, char *r, const char *msg) { B w = {0}; b_lit(&w, in); size_t n = strlen(in); if (!n || in[n - 1] != '\n') b_lit(&w, "\n"); expect_str(r, w.p, msg); }
static const char M[] = "Liquid tags and the text around them reach the output byte for byte";
void h_liq_free(void) { apex_options o = bare(); html_in = 0; B b = {0}; b_in0(&b, 8, "{%}a5\n"); char *in = b_done(&b); if (!*in) return; char *r = run_core(in, &o); char *t = strstr(in, "{%"); if (t && strstr(t + 2, "%}")) { sv_assert(!strstr(fed, "{%") || !strstr(strstr(fed, "{%") + 2, "%}"), "the parser never sees a complete tag"); sv_cover("tag"); } same(in, r, M); }
void h_liq_bytes(void) { apex_options o = bare(); html_in = 0; B b = {0}; b_not(&b, 1, "\r"); b_lit(&b, "{%"); b_not(&b, 3, ""); b_lit(&b, "%}"); b_not(&b, 2, "\r"); b_lit(&b, "{%"); b_not(&b, 1, ""); b_lit(&b, "%}."); char *in = b_done(&b); same(in, run_core(in, &o), M); sv_cover("bytes"); }
void h_liq_many(void) {
  static const int N[] = {0, 1, 2, 9, 11, 24}, L[] = {0, 3, 20, 63, 64, 65, 300}; apex_options o = bare(); html_in = 0; B b = {0}; int n = N[sv_choice(6)], l = L[sv_choice(7)], d = sv_choice(3); for (int i = 0; i < n; i++) { b_lit(&b, "{%"); b_fill(&b, 'a' + i, l); b_lit(&b, "%}"); if (d == 1) { b_c(&b, '0' + i % 10); } if (d == 2) { b_in(&b, 1, "0Ex_"); d = 1; } } b_lit(&b, "end"); char *in = b_done(&b); same(in, run_core(in, &o), M); sv_cover("many");
}
static apex_options all_on(int mode) { apex_options o = apex_options_for_mode(mode); o.enable_tables = o.relaxed_tables = o.enable_footnotes = o.enable_definition_lists = o.enable_critic_markup = o.enable_marked_extensions = o.enable_divs = o.enable_spans = o.enable_sup_sub = o.enable_emoji_autocorrect = o.enable_markdown_in_html = o.allow_alpha_lists = o.enable_file_includes = true; return o; }
static char *tagtxt;
void h_liq_stages(void) {
  apex_options o = all_on(sv_choice(5)); o.proofreader_mode = sv_choice(2); o.enable_hashtags = sv_choice(2); html_in = 0; int k = sv_choice(7); static const char *T[] = {"{% if ==a== %}", "{% x #tag %}", "{% http://a.b %}", "{% m@n.op %}", "{% ~~y~~ || Table: %}", "{% a. b. ++c++ %}", 0}; B b = {0}; b_lit(&b, "p "); if (T[k]) b_lit(&b, T[k]); else { b_lit(&b, "{%"); b_in(&b, 2, "=~#|[]`<a. \n"); b_lit(&b, "%}"); } b_lit(&b, " q\n"); char *in = b_done(&b); marks = 0; char *r = run_core(in, &o); sv_assert(!strstr(fed, "{%"), "the parser never sees a complete tag"); same(in, r, M); sv_cover("stages");
}
static int kind; static char *want;
static void build(cmark_node *d) {
  cmark_node *p = cmark_node_new(kind == 2 ? CMARK_NODE_CODE_BLOCK : kind == 3 ? CMARK_NODE_HTML_BLOCK : CMARK_NODE_PARAGRAPH); cmark_node_append_child(d, p); if (kind == 2 || kind == 3) { cmark_node_set_literal(p, fed); return; }
  if (kind < 2) { cmark_node *x = cmark_node_new(kind ? CMARK_NODE_CODE : CMARK_NODE_TEXT); cmark_node_set_literal(x, fed); cmark_node_append_child(p, x); return; }
  cmark_node *x = cmark_node_new(kind & 1 ? CMARK_NODE_IMAGE : CMARK_NODE_LINK); if (kind < 6) cmark_node_set_url(x, fed); else cmark_node_set_title(x, fed); cmark_node_append_child(p, x);
}
void h_liq_formats(void) {
  apex_options o = bare(); o.output_format = 1 + sv_choice(11); kind = sv_choice(8); core_build = build; B b = {0}; b_lit(&b, "p {%"); b_not(&b, 2, ""); b_lit(&b, "%}q\n"); char *in = b_done(&b); char *r = run_core(in, &o); expect_str(r, in, "Liquid tags are restored in every output format"); sv_cover("format");
}
