//@src src/apex.c src/extensions/critic.c src/extensions/highlight.c src/extensions/insert.c src/extensions/inline_footnotes.c src/extensions/sup_sub.c src/extensions/special_markers.c src/extensions/inline_tables.c src/extensions/emoji.c src/extensions/abbreviations.c src/extensions/index.c src/extensions/citations.c src/extensions/includes.c src/extensions/fenced_divs.c src/extensions/relaxed_tables.c src/extensions/html_markdown.c src/extensions/metadata.c src/extensions/toc.c src/pretty_html.c @model/cmark.c
//@cflags -DCORE_REAL
//@job C52 h_code_text quick=120 workers=8 max_instr=40000000 bound="52 constructs of every extension, twice, in 9 kinds of code (fences of both kinds, long fences, in a quote, in a list, indented by blanks and by tab, spans of one and two backticks), all five modes with every text stage on, an arbitrary byte between them"
//@job C52 h_code_html quick=120 workers=8 max_instr=40000000 bound="20 constructs in code blocks and code spans of the HTML, all five modes, one arbitrary byte"
#include "core.h"
static const char *T[] = {"==a==", "++a++", "^[n]", "[^a b]", "x^2^", "H~2~O", "~u~", "<!--BREAK-->", "{::pagebreak /}", "<!--PAUSE:3-->", "{index}", "^", ":smlie:", "*[a]: b", "[>a]: b", "[>(a) b]", "{{q.md}}", "<<[q.md]", "/q.md", "<<(q.md)", "http://a.b", "m@n.op", "#tag", "[@k]", "@k", "[#k]", "a. x", "b. y", ":::: {.c}", "::::", "| a | b |", "|---|---|", "a || b", "[cap]", "Table: c", ": c", "!a\t(b)", "(!a)", "[t]{^}", "{i:a}", "{^}", "<b markdown=\"1\">*x*</b>", "<!--TABLE-->", "a,b", "# h [id]", "{{TOC}}", "$x$", "[%q]", "{++a++}", "{~~a~>b~~}", "![a](b.png)", "---"};
enum { NT = sizeof T / sizeof *T };
static const char *OP[] = {"```\n", "~~~~ x\n", "p\n\n    ", "p `", "p ``", "````\n```\n", "\t", "> ```\n> ", "- i\n\n  ~~~\n  "}, *NL[] = {"\n", "\n", "\n    ", " ", " ", "\n", "\n\t", "\n> ", "\n  "}, *CL[] = {"\n```\n", "\n~~~~\n", "\n\np\n", "` p\n", "`` p\n", "\n````\n", "\n", "\n> ```\n", "\n  ~~~\n"};
static apex_options all_on(int mode) { apex_options o = apex_options_for_mode(mode); o.enable_tables = o.relaxed_tables = o.enable_footnotes = o.enable_definition_lists = o.enable_critic_markup = o.enable_marked_extensions = o.enable_divs = o.enable_spans = o.enable_sup_sub = o.enable_emoji_autocorrect = o.enable_markdown_in_html = o.allow_alpha_lists = o.enable_file_includes = o.enable_hashtags = o.enable_autolink = o.enable_indices = o.enable_citations = o.enable_mmark_index_syntax = o.enable_textindex_syntax = o.enable_leanpub_index_syntax = true; return o; }
void h_code_text(void) {
  int m = sv_choice(5), k = sv_choice(9), t = sv_choice(NT), n = sv_choice(2); apex_options o = all_on(m); o.critic_mode = 2; sv_file("q.md", "Q", 1);
  B b = {0}; b_lit(&b, "Words\n\n"); b_lit(&b, OP[k]); b_lit(&b, T[t]); if (!n) b_not(&b, 1, "\n\r`~"); b_lit(&b, n ? NL[k] : " "); b_lit(&b, T[t]); b_lit(&b, CL[k]); b_lit(&b, "\nend\n"); char *in = b_done(&b);
  run_core(in, &o); expect_str(fed, in, "code reaches the parser byte for byte"); sv_cover("code");
}
static const char *H[] = {":smile:", ":smlie:", "abbr", "http://a.b", "m@n.op", "#tag", "{{TOC}}", "{{TOC:2-3}}", "[%q]", "&lt;!--TOC--&gt;", "{:toc}", "[[a]]", "==a==", "--", "...", "{++a++}", "XX", "@@", "[ ]", "&lt;!--INDEX--&gt;"};
void h_code_html(void) {
  int m = sv_choice(5), k = sv_choice(2), t = sv_choice(sizeof H / sizeof *H); apex_options o = all_on(m); o.critic_mode = 2; B c = {0}; b_lit(&c, k ? "<code>" : "<pre><code class=\"language-x\">"); b_lit(&c, H[t]); b_not(&c, 1, "<>&"); b_c(&c, ' '); b_lit(&c, H[t]); b_lit(&c, k ? "</code>" : "\n</code></pre>"); char *code = b_done(&c);
  B b = {0}; b_lit(&b, k ? "<p>q " : "<p>q</p>\n"); b_lit(&b, code); b_lit(&b, k ? " r</p>\n" : "\n<p>r</p>\n"); char *h = b_done(&b); html_in = h; char *r = run_core("Words\n\n*[abbr]: long\n*[XX]: y\n", &o); size_t n = strlen(code), i, ok = 0; sv_emit("out", r, strlen(r)); const char *at = strstr(r, k ? "<code>" : "<pre><code"); sv_assert(at && strlen(at) >= n, "code is in the output"); if (at && strlen(at) >= n) sv_assert_mem_eq(at, code, n, "code is in the output byte for byte"); sv_cover("html");
}
