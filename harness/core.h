/* Stand-ins for everything src/apex.c calls outside itself, so that its own pipeline is
 * driven through the public API.  The parser stand-in captures the text it is fed, the
 * renderer stand-in returns the HTML the harness supplies.  With `marks` set, every stage
 * appends its own letter to the text (or HTML) it is given and to the log. */
#ifndef CORE_H
#define CORE_H
#include "hl.h"
#include "apex/apex.h"
#include "cmark-gfm.h"
#include "cmark-gfm-extension_api.h"
#include "cmark-gfm-core-extensions.h"
#include "extensions/metadata.h"
#include "extensions/wiki_links.h"
#include "extensions/math.h"
#include "extensions/critic.h"
#include "extensions/callouts.h"
#include "extensions/includes.h"
#include "extensions/toc.h"
#include "extensions/abbreviations.h"
#include "extensions/emoji.h"
#include "extensions/special_markers.h"
#include "extensions/inline_tables.h"
#include "extensions/ial.h"
#include "extensions/definition_list.h"
#include "extensions/advanced_footnotes.h"
#include "extensions/advanced_tables.h"
#include "extensions/html_markdown.h"
#include "extensions/inline_footnotes.h"
#include "extensions/highlight.h"
#include "extensions/insert.h"
#include "extensions/sup_sub.h"
#include "extensions/header_ids.h"
#include "extensions/relaxed_tables.h"
#include "extensions/citations.h"
#include "extensions/index.h"
#include "extensions/fenced_divs.h"
#include "extensions/syntax_highlight.h"
#include "plugins.h"
#include "ast_json.h"
#include "apex/ast_markdown.h"
#include "apex/ast_terminal.h"
#include "apex/ast_man.h"
#include "filters_ast.h"
#include "html_renderer.h"
#ifdef CORE_REAL /* the real stage wins where its source is given */
#pragma weak apex_process_citations
#pragma weak apex_process_index_entries
#pragma weak apex_preprocess_image_attributes
#pragma weak apex_preprocess_ial
#pragma weak apex_preprocess_bracketed_spans
#pragma weak apex_process_includes
#pragma weak apex_process_special_markers
#pragma weak apex_process_inline_tables
#pragma weak apex_autocorrect_emoji_names
#pragma weak apex_process_inline_footnotes
#pragma weak apex_process_highlights
#pragma weak apex_process_inserts
#pragma weak apex_process_sup_sub
#pragma weak apex_process_relaxed_tables
#pragma weak apex_process_headerless_tables
#pragma weak apex_process_definition_lists
#pragma weak apex_process_fenced_divs
#pragma weak apex_process_html_markdown
#pragma weak apex_process_critic_markup_text
#pragma weak apex_extract_metadata
#pragma weak apex_extract_alds
#pragma weak apex_extract_abbreviations
#pragma weak apex_metadata_get
#pragma weak apex_metadata_replace_variables
#pragma weak apex_free_metadata
#pragma weak apex_free_alds
#pragma weak apex_free_abbreviations
#pragma weak apex_free_image_attributes
#pragma weak apex_free_citation_registry
#pragma weak apex_free_index_registry
#pragma weak apex_load_bibliography
#pragma weak apex_load_bibliography_file
#pragma weak apex_find_bibliography_entry
#pragma weak apex_bibliography_entry_free
#pragma weak apex_postprocess_fenced_divs_html
#pragma weak apex_replace_abbreviations
#pragma weak apex_replace_emoji
#pragma weak apex_render_citations
#pragma weak apex_insert_bibliography
#pragma weak apex_render_index_markers
#pragma weak apex_insert_index
#pragma weak apex_process_toc
#pragma weak apex_pretty_print_html
#pragma weak apex_apply_syntax_highlighting
#pragma weak apex_process_ial_in_tree
#pragma weak apex_apply_image_attributes
#pragma weak apex_process_callouts_in_tree
#pragma weak apex_process_manual_header_id
#pragma weak apex_deflist_debug_touch
#pragma weak create_definition_list_extension
#pragma weak create_math_extension
#pragma weak apex_process_wiki_links_in_tree
#endif
static int marks; static char clog_[256]; static int clogn;
static char *fed; static const char *html_in = "<p>x</p>\n"; static int copts; static unsigned exts; static cmark_node *core_doc; static void (*core_build)(cmark_node *); static void (*core_seen)(cmark_node *);
static const char *meta_k[8], *meta_v[8]; static int nmeta; static int have_alds, have_abbr, have_img, have_bib, have_cite, have_index;
static const apex_options *seen_opts; static long av[128], av2[128]; static const char *as_[128]; static int filter_fails; static char *(*stage_hook)(char, const char *);
static void note(char c) { if (clogn < 250) clog_[clogn++] = c; clog_[clogn] = 0; }
static int logged(char c) { return strchr(clog_, c) != NULL; }
static char *stage(char c, const char *t) { note(c); if (t && stage_hook) return stage_hook(c, t); if (!t) { sv_fail("a stage is always given the text"); return 0; } size_t n = strlen(t); if (!marks) return 0; char *r = malloc(n + 2); memcpy(r, t, n); r[n] = c; r[n + 1] = 0; return r; }
/* text stages: lower-case letters */
char *apex_process_citations(const char *t, apex_citation_registry *r, const apex_options *o) { if (have_cite) r->count = 1; return stage('b', t); }
char *apex_process_index_entries(const char *t, apex_index_registry *r, const apex_options *o) { if (have_index) r->count = 1; return stage('c', t); }
char *apex_preprocess_image_attributes(const char *t, image_attr_entry **i, apex_mode_t m) { static char d[8]; *i = have_img ? (image_attr_entry *)d : 0; sv_assert(m == (apex_mode_t)seen_opts->mode, "the mode is passed on"); return stage('d', t); }
char *apex_preprocess_ial(const char *t) { return stage('e', t); }
char *apex_preprocess_bracketed_spans(const char *t) { return stage('f', t); }
char *apex_process_includes(const char *t, const char *base, apex_metadata_item *m, int depth) { sv_assert(depth == 0 && base == seen_opts->base_directory, "includes start at depth 0 in the base directory"); return stage('g', t); }
char *apex_process_special_markers(const char *t) { return stage('h', t); }
char *apex_process_inline_tables(const char *t) { return stage('i', t); }
char *apex_autocorrect_emoji_names(const char *t) { return stage('j', t); }
char *apex_process_inline_footnotes(const char *t) { return stage('k', t); }
char *apex_process_highlights(const char *t) { return stage('l', t); }
char *apex_process_inserts(const char *t) { return stage('m', t); }
char *apex_process_sup_sub(const char *t) { return stage('n', t); }
char *apex_process_relaxed_tables(const char *t) { return stage('o', t); }
char *apex_process_headerless_tables(const char *t) { return stage('p', t); }
char *apex_process_definition_lists(const char *t, bool u) { av['q'] = u; return stage('q', t); }
char *apex_process_fenced_divs(const char *t) { return stage('r', t); }
char *apex_process_html_markdown(const char *t, void *i) { return stage('s', t); }
char *apex_process_critic_markup_text(const char *t, critic_mode_t m) { av['t'] = m; return stage('t', t); }
/* extraction */
static char meta_mem[16], ald_mem[16], abbr_mem[16];
apex_metadata_item *apex_extract_metadata(char **t) { note('1'); return nmeta ? (apex_metadata_item *)meta_mem : 0; }
ald_entry *apex_extract_alds(char **t) { note('2'); return have_alds ? (ald_entry *)ald_mem : 0; }
abbr_item *apex_extract_abbreviations(char **t) { note('3'); return have_abbr ? (abbr_item *)abbr_mem : 0; }
static int keyeq(const char *a, const char *b) { for (;; a++, b++) { while (*a == ' ') a++; while (*b == ' ') b++; char x = *a, y = *b; if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; if (x != y) return 0; if (!x) return 1; } }
const char *apex_metadata_get(apex_metadata_item *m, const char *k) { if (!m) return 0; for (int i = 0; i < nmeta; i++) if (keyeq(meta_k[i], k)) return meta_v[i]; return 0; }
char *apex_metadata_replace_variables(const char *t, apex_metadata_item *m, const apex_options *o) { return stage(fed ? 'V' : 'a', t); }
void apex_free_metadata(apex_metadata_item *m) {} void apex_free_alds(ald_entry *a) {} void apex_free_abbreviations(abbr_item *a) {} void apex_free_image_attributes(image_attr_entry *i) {} void apex_free_citation_registry(apex_citation_registry *r) {} void apex_free_index_registry(apex_index_registry *r) {}
static apex_bibliography_registry bibreg;
apex_bibliography_registry *apex_load_bibliography(const char **f, const char *b) { note('4'); return have_bib ? &bibreg : 0; }
apex_bibliography_registry *apex_load_bibliography_file(const char *f) { note('5'); as_['5'] = strdup(f); return 0; }
apex_bibliography_entry *apex_find_bibliography_entry(apex_bibliography_registry *r, const char *id) { return 0; }
void apex_bibliography_entry_free(apex_bibliography_entry *e) {}
static char plug_mem[16];
apex_plugin_manager *apex_plugins_load(const apex_options *o) { note('6'); return (apex_plugin_manager *)plug_mem; }
char *apex_plugins_run_text_phase(apex_plugin_manager *m, apex_plugin_phase_mask ph, const char *t, const apex_options *o) { return stage(ph == APEX_PLUGIN_PHASE_PRE_PARSE ? '7' : '8', t); }
void apex_plugins_free(apex_plugin_manager *m) { note('9'); }
void apex_deflist_debug_touch(int e) {}
/* tree stages */
void apex_process_wiki_links_in_tree(cmark_node *d, wiki_link_config *c) { note('!'); av['!'] = c->space_mode; av2['!'] = c->sanitize; as_['!'] = c->extension; }
void apex_process_callouts_in_tree(cmark_node *d) { note('@'); }
bool apex_process_manual_header_id(cmark_node *h) { note('#'); return false; }
void apex_process_ial_in_tree(cmark_node *d, ald_entry *a) { note('$'); }
void apex_apply_image_attributes(cmark_node *d, image_attr_entry *i) { note('%'); }
cmark_node *apex_run_ast_filters(cmark_node *d, const apex_options *o, const char *t) { note('&'); as_['&'] = t; return filter_fails ? 0 : d; }
/* other output formats: the text of the first leaf (or what the parser was fed) */
static char *ser(cmark_node *d) { cmark_node *p = cmark_node_first_child(d); if (!p) return strdup(fed); const char *l = cmark_node_get_literal(p); if (l) return strdup(l); p = cmark_node_first_child(p); if ((l = cmark_node_get_literal(p))) return strdup(l); l = cmark_node_get_url(p); if (l && *l) return strdup(l); l = cmark_node_get_title(p); return strdup(l ? l : ""); }
char *apex_cmark_to_pandoc_json(cmark_node *d, const apex_options *o) { note('('); return ser(d); }
char *apex_cmark_to_markdown(cmark_node *d, const apex_options *o, apex_markdown_dialect_t k) { note(')'); av[')'] = k; return ser(d); }
char *apex_cmark_to_terminal(cmark_node *d, const apex_options *o, bool u) { note('*'); av['*'] = u; return ser(d); }
char *apex_cmark_to_man_roff(cmark_node *d, const apex_options *o) { note('+'); return ser(d); }
char *apex_cmark_to_man_html(cmark_node *d, const apex_options *o) { note(','); return ser(d); }
/* HTML stages: capital letters */
char *apex_render_html_with_attributes(cmark_node *d, int o) { note('A'); if (core_seen) core_seen(d); return strdup(html_in ? html_in : fed); }
char *cmark_render_html(cmark_node *d, int o, cmark_llist *e) { note('B'); if (core_seen) core_seen(d); return strdup(html_in ? html_in : fed); }
char *apex_postprocess_fenced_divs_html(const char *h) { return stage('C', h); }
char *apex_inject_table_attributes(const char *h, cmark_node *d, int c) { av['D'] = c; return stage('D', h); }
char *apex_adjust_header_levels(const char *h, int b) { av['E'] = b; return stage('E', h); }
char *apex_adjust_quote_language(const char *h, const char *q) { as_['F'] = strdup(q); return stage('F', h); }
char *apex_expand_auto_media(const char *h, const char *b) { as_['G'] = strdup(b); return stage('G', h); }
char *apex_convert_image_captions(const char *h, bool e, bool t) { av['H'] = e; av2['H'] = t; return stage('H', h); }
char *apex_strip_figure_paragraph_wrapper(const char *h) { return stage('I', h); }
char *apex_strip_block_paragraph_wrapper(const char *h) { return stage('J', h); }
char *apex_inject_header_ids(const char *h, cmark_node *d, bool g, bool a, int f) { sv_assert(g && a == seen_opts->header_anchors && f == seen_opts->id_format, "header options are passed on"); return stage('K', h); }
char *apex_process_toc(const char *h, cmark_node *d, int f) { sv_assert(f == seen_opts->id_format, "the TOC uses the ID format of the headings"); return stage('L', h); }
char *apex_apply_aria_labels(const char *h, cmark_node *d) { return stage('M', h); }
char *apex_apply_syntax_highlighting(const char *h, const char *t, bool l, bool o, bool a) { sv_assert(l == seen_opts->code_line_numbers && o == seen_opts->highlight_language_only && !strcmp(t, seen_opts->code_highlighter), "highlighting options are passed on"); return stage('N', h); }
char *apex_replace_abbreviations(const char *h, abbr_item *a) { return stage('O', h); }
char *apex_replace_emoji(const char *h) { return stage('P', h); }
char *apex_render_citations(const char *h, apex_citation_registry *r, const apex_options *o) { return stage('Q', h); }
char *apex_insert_bibliography(const char *h, apex_citation_registry *r, const apex_options *o) { return stage('R', h); }
char *apex_render_index_markers(const char *h, apex_index_registry *r, const apex_options *o) { return stage('S', h); }
char *apex_insert_index(const char *h, apex_index_registry *r, const apex_options *o) { return stage('T', h); }
char *apex_clean_html_tag_spacing(const char *h) { return stage('U', h); }
char *apex_collapse_intertag_newlines(const char *h) { return stage('W', h); }
char *apex_convert_relaxed_table_headers(const char *h) { return stage('X', h); }
char *apex_remove_table_blank_lines(const char *h) { return stage('Y', h); }
char *apex_remove_table_separator_rows(const char *h) { return stage('Z', h); }
char *apex_pretty_print_html(const char *h) { return stage('^', h); }
/* parser */
static char parser_mem[16], ext_mem[16];
cmark_parser *cmark_parser_new(int o) { copts = o; return (cmark_parser *)parser_mem; }
void cmark_parser_feed(cmark_parser *p, const char *b, size_t n) { fed = malloc(n + 1); memcpy(fed, b, n); fed[n] = 0; sv_assert(strlen(fed) == n, "the parser is given the whole text"); }
cmark_node *cmark_parser_finish(cmark_parser *p) { core_doc = cmark_node_new(CMARK_NODE_DOCUMENT); if (core_build) core_build(core_doc); return core_doc; }
void cmark_parser_free(cmark_parser *p) {}
static const char *EXT[] = {"table", "tasklist", "strikethrough", "autolink", "tagfilter"};
void cmark_gfm_core_extensions_ensure_registered(void) {}
cmark_syntax_extension *cmark_find_syntax_extension(const char *n) { for (int i = 0; i < 5; i++) if (!strcmp(n, EXT[i])) return (cmark_syntax_extension *)(ext_mem + i); sv_fail("unknown extension"); return 0; }
int cmark_parser_attach_syntax_extension(cmark_parser *p, cmark_syntax_extension *e) { exts |= 1u << ((char *)e - ext_mem); return 1; }
cmark_syntax_extension *create_math_extension(void) { return (cmark_syntax_extension *)(ext_mem + 5); }
cmark_syntax_extension *create_definition_list_extension(void) { return (cmark_syntax_extension *)(ext_mem + 6); }
cmark_syntax_extension *create_advanced_footnotes_extension(void) { return (cmark_syntax_extension *)(ext_mem + 7); }
cmark_syntax_extension *create_advanced_tables_extension(bool pc) { av['|'] = pc; return (cmark_syntax_extension *)(ext_mem + 8); }
/* ---- running ---- */
static char *run_core(const char *md, apex_options *o) { seen_opts = o; clogn = 0; clog_[0] = 0; fed = 0; copts = -1; exts = 0; return apex_markdown_to_html(md, strlen(md), o); }
/* everything off: only the unconditional stages run */
static apex_options bare(void) { apex_options o = apex_options_for_mode(APEX_MODE_COMMONMARK); o.generate_header_ids = false; return o; }
/* the HTML pipeline's result for a given rendered HTML */
static char *html_of(const char *html, apex_options *o) { html_in = html; return run_core("x", o); }
#endif
