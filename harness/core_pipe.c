//@src src/apex.c @model/cmark.c
//@job C28 h_pipe_flags quick=100 workers=6 bound="5 modes, each from its defaults, from everything on and from everything off, with any pair of 47 flags flipped"
//@job C28 h_pipe_meta quick=60 workers=2 bound="5 modes, every combination of bibliography sources, citations found, attributes, abbreviations, index entries and metadata keys"
//@job C28 h_pipe_formats quick=60 workers=2 bound="12 output formats, 5 modes, filters none/succeeding/failing, strict or not"
//@job C28 h_pipe_args quick=60 workers=2 bound="arbitrary critic mode, unsafe, caption options and position, wiki-link options, 0..3 headings, markers in the text"
//@job C28 h_pipe_order quick=60 workers=2 bound="each stage producing the syntax another one consumes"
//@job C28 h_pipe_long quick=60 workers=2 max_instr=300000000 bound="texts of 0..70000 bytes with and without final newline, len smaller or larger than the text"
//@job C28 h_pipe_modes quick=20 workers=1 bound="the 5 modes, the documented feature table and ID formats, at the API and as parser extensions and stages"
#include "core.h"
#define F(x) offsetof(apex_options, x)
static const size_t FL[] = {F(enable_plugins), F(enable_tables), F(enable_footnotes), F(enable_definition_lists), F(enable_smart_typography), F(enable_math), F(enable_critic_markup), F(enable_wiki_links), F(enable_task_lists), F(enable_attributes), F(enable_callouts), F(enable_marked_extensions), F(enable_divs), F(enable_spans), F(enable_metadata_variables), F(enable_file_includes), F(unsafe), F(standalone), F(pretty), F(generate_header_ids), F(relaxed_tables), F(per_cell_alignment), F(allow_mixed_list_markers), F(allow_alpha_lists), F(enable_sup_sub), F(enable_strikethrough), F(enable_autolink), F(obfuscate_emails), F(embed_images), F(enable_image_captions), F(title_captions_only), F(enable_citations), F(suppress_bibliography), F(enable_indices), F(suppress_index), F(enable_aria), F(enable_emoji_autocorrect), F(enable_widont), F(code_is_poetry), F(enable_markdown_in_html), F(random_footnote_ids), F(enable_hashtags), F(proofreader_mode), F(hr_page_break), F(title_from_h1), F(page_break_before_footnotes), F(validate_utf8)};
enum { NF = sizeof FL / sizeof *FL };
static int getf(apex_options *o, int i) { return *(bool *)((char *)o + FL[i]); }
static void setf(apex_options *o, int i, int v) { *(bool *)((char *)o + FL[i]) = v; }
static int metahas(const char *k) { for (int i = 0; i < nmeta; i++) if (keyeq(meta_k[i], k)) return 1; return 0; }
static const char *text;
/* which stages the documented options call for */
static int wants(char c, const apex_options *o) {
  int U = o->mode == APEX_MODE_UNIFIED, K = o->mode == APEX_MODE_KRAMDOWN, M = o->mode == APEX_MODE_MULTIMARKDOWN, G = o->mode == APEX_MODE_GFM, C = o->mode == APEX_MODE_COMMONMARK;
  int ex = U || K || M, meta = nmeta && ex, bibm = meta && (metahas("bibliography") || metahas("csl")), cites = (o->enable_citations || bibm) && (o->bibliography_files || o->csl_file || bibm), bib = o->bibliography_files && have_bib;
  int alds = have_alds && (U || K), img = have_img && ex;
  switch (c) {
  case '1': case '3': return ex; case '2': return U || K;
  case '4': return o->bibliography_files != 0; case '5': return meta && metahas("bibliography");
  case '6': case '7': case '8': case '9': return o->enable_plugins;
  case 'a': case 'V': return meta && o->enable_metadata_variables;
  case 'b': return cites; case 'c': return o->enable_indices; case 'd': return ex; case 'e': return U || K; case 'f': return (U || K) && o->enable_spans;
  case 'g': return o->enable_file_includes; case 'h': return o->enable_marked_extensions; case 'i': return o->enable_tables;
  case 'j': return o->enable_emoji_autocorrect && (U || G); case 'k': return o->enable_footnotes;
  case 'l': return ex && !o->proofreader_mode; case 'm': return ex; case 'n': return o->enable_sup_sub;
  case 'o': return o->enable_tables && o->relaxed_tables; case 'p': return o->enable_tables; case 'q': return o->enable_definition_lists;
  case 'r': case 'C': return o->enable_divs && U; case 's': return o->enable_markdown_in_html; case 't': return o->enable_critic_markup;
  case '!': return o->enable_wiki_links && strstr(text, "[["); case '@': return o->enable_callouts; case '%': return img;
  case '$': return (alds || K || U) && (strstr(text, "{:") || strstr(text, "{#") || strstr(text, "{."));
  case 'A': return img || alds || K || U; case 'B': return !wants('A', o);
  case 'D': return o->enable_tables; case 'X': return o->enable_tables && o->relaxed_tables;
  case 'E': return meta && (metahas("HTML Header Level") || metahas("Base Header Level")); case 'F': return meta && (metahas("language") || metahas("Quotes Language"));
  case 'H': case 'I': case 'J': case 'U': case 'Y': return 1; case 'Z': return o->enable_tables;
  case 'K': return o->generate_header_ids; case 'L': return o->enable_marked_extensions; case 'M': return o->enable_aria; case 'N': return o->code_highlighter != 0;
  case 'O': return have_abbr && ex; case 'P': return G || U; case 'Q': return cites && have_cite; case 'R': return cites && bib && !o->suppress_bibliography;
  case 'S': case 'T': return o->enable_indices && have_index; case 'W': return !o->pretty; case '^': return o->pretty;
  }
  (void)C; return -1;
}
static const char TEXT[] = "7abcdefghijklmnopqrst", HTML[] = "CDEFHIJKVLMNOPQRSTUWXYZ8^", OTHER[] = "123456@!%$AB9";
static long at(char c) { char *p = strchr(clog_, c); return p ? p - clog_ : -1; }
static void before(const char *a, const char *b) { for (; *a; a++) for (const char *q = b; *q; q++) if (logged(*a) && logged(*q)) sv_assert(at(*a) < at(*q), "stages run in the order their results require"); }
static void stages(const char *set, const apex_options *o) { for (; *set; set++) { int w = wants(*set, o); if (w < 0) continue; sv_assert(!logged(*set) == !w, w ? "a stage that is enabled runs" : "a stage that is not enabled does not run"); if (w) sv_assert(count_of(clog_, (char[]){*set, 0}) == 1 , "a stage runs once"); } }
/* the letters each stage added, in the order they ran */
static void carried(const char *txt, const char *set, const char *msg) { B w = {0}; for (int i = 0; clog_[i]; i++) if (strchr(set, clog_[i])) b_c(&w, clog_[i]); B g = {0}; for (const char *p = txt; *p; p++) if (*p != '\n') b_c(&g, *p); if (!w.p) b_lit(&w, ""); if (!g.p) b_lit(&g, ""); expect_str(g.p, w.p, msg); }
static char *go(const char *md, apex_options *o) { text = md; marks = 1; html_in = "<p>x</p>\n"; return run_core(md, o); }
static void html_ok(char *r, const char *md, apex_options *o) {
  stages(TEXT, o); stages(HTML, o); stages(OTHER, o); sv_assert(starts(fed, md), "the text is kept"); carried(fed + strlen(md), TEXT, "every text stage works on the full result of the one before it");
  sv_assert(fed[strlen(fed) - 1] == '\n', "the parser is given complete lines");
  char *h = strstr(r, "<p>x</p>\n"); if (!h) { sv_fail("the rendered text is kept"); return; } h += 9; char *e = strchr(h, '<'); if (o->pretty) { size_t n = strlen(r); sv_assert(n && r[n - 1] == '^', "pretty printing comes last"); } B g = {0}; b_mem(&g, h, e ? e - h : strlen(h)); if (e && (e = strstr(e, "</html>"))) b_lit(&g, e + 7); carried(g.p, HTML, "every HTML stage works on the full result of the one before it");
}
void h_pipe_flags(void) {
  static const char *bf[] = {"b.bib", 0}; int m = sv_choice(5), base = sv_choice(3), i = sv_choice(NF), j = sv_choice(NF + 1); if (j <= i && j) return; apex_options o = apex_options_for_mode(m); if (base) for (int k = 0; k < NF; k++) setf(&o, k, base == 1); setf(&o, i, !getf(&o, i)); if (j) { if (j == NF) { o.code_highlighter = "pygments"; } else setf(&o, j, !getf(&o, j)); }
  nmeta = 1; meta_k[0] = "title"; meta_v[0] = "T"; have_abbr = have_bib = have_cite = have_index = 1; o.bibliography_files = (char **)bf; char *r = go("x\n", &o); if (!r) { sv_fail("a document is always produced"); return; } html_ok(r, "x\n", &o);
  before("7", "123abcdefg"); before("1", "23a"); before("a", "bcdefg"); before("b", "QR"); before("g", "hijklmnopqrst"); before("o", "p"); before("hi", "q"); before("K", "LM"); before("Q", "R"); before("S", "T"); before("D", "XZ"); before("CDHIJKLMNOPQRSTUWX", "8"); before("8", "9"); before("CDHIJKLMNOPQRSTUWXYZ8", "^");
  sv_assert(!!(exts & 1) == o.enable_tables && !!(exts & 0x100) == o.enable_tables && !!(exts & 2) == o.enable_task_lists && !!(exts & 4) == o.enable_strikethrough && !!(exts & 8) == (o.enable_autolink && (m == APEX_MODE_GFM || m == APEX_MODE_UNIFIED)) && !!(exts & 16) == (m == APEX_MODE_GFM) && !!(exts & 32) == o.enable_math && !!(exts & 64) == o.enable_definition_lists && !!(exts & 128) == o.enable_footnotes, "exactly the enabled syntax extensions are attached"); if (o.enable_tables) sv_assert(av['|'] == o.per_cell_alignment, "per-cell alignment is passed on");
  int w = (o.validate_utf8 ? CMARK_OPT_VALIDATE_UTF8 : 0) | (o.unsafe ? CMARK_OPT_UNSAFE | CMARK_OPT_LIBERAL_HTML_TAG : 0) | (o.hardbreaks ? CMARK_OPT_HARDBREAKS : 0) | (o.nobreaks ? CMARK_OPT_NOBREAKS : 0) | (o.github_pre_lang ? CMARK_OPT_GITHUB_PRE_LANG : 0) | (o.enable_footnotes ? CMARK_OPT_FOOTNOTES : 0) | (o.enable_smart_typography ? CMARK_OPT_SMART : 0); sv_assert(copts == w, "the parser is given exactly the options that are set"); sv_cover("flags");
}
void h_pipe_meta(void) {
  static const char *bf[] = {"b.bib", 0}; static const char *MK[] = {0, "title", "bibliography", "csl", "language", "Quotes Language", "Base Header Level", "HTML Header Level"}; apex_options o = apex_options_for_mode(sv_choice(5)); int k = sv_choice(8), k2 = sv_choice(8); if (k2 && k2 <= k) return; nmeta = 0; if (k) { meta_k[nmeta] = MK[k]; meta_v[nmeta++] = "3"; } if (k2) { meta_k[nmeta] = MK[k2]; meta_v[nmeta++] = "3"; }
  int f = sv_choice(8), g = sv_choice(16); if (f & 1) o.bibliography_files = (char **)bf; if (f & 2) o.csl_file = "s.csl"; o.enable_citations = !!(f & 4); have_bib = g & 1; have_cite = !!(g & 2); o.suppress_bibliography = !!(g & 4); have_index = have_abbr = have_alds = !!(g & 8); have_img = (g & 1) && (g & 8); o.base_directory = g & 4 ? "/d" : g & 2 ? "" : 0;
  char *r = go("x\n", &o); if (!r) { sv_fail("a document is always produced"); return; } html_ok(r, "x\n", &o); if (wants('F', &o)) sv_assert(!strcmp(as_['F'], "3"), "the quote language is the declared one"); if (wants('E', &o)) sv_assert(av['E'] == 3, "the header level is the declared one"); if (wants('5', &o)) sv_assert(!strcmp(as_['5'], g & 4 ? "/d/3" : "3"), "a bibliography from metadata is looked up in the base directory"); sv_cover("meta");
}
static int nh; static void heads(cmark_node *d) { cmark_node *q = cmark_node_new(CMARK_NODE_BLOCK_QUOTE); cmark_node_append_child(d, q); for (int i = 0; i < nh; i++) cmark_node_append_child(i & 1 ? q : d, cmark_node_new(CMARK_NODE_HEADING)); cmark_node_append_child(d, cmark_node_new(CMARK_NODE_PARAGRAPH)); }
void h_pipe_formats(void) {
  static const char *fc[] = {"f", 0}; apex_options o = apex_options_for_mode(sv_choice(5)); int f = sv_choice(12), k = sv_choice(3); o.output_format = f; o.ast_filter_commands = fc; o.ast_filter_count = k > 0; filter_fails = k == 2; o.ast_filter_strict = sv_choice(2); o.allow_mixed_list_markers = false; char *r = go("x\n", &o);
  int filt = k && f != APEX_OUTPUT_JSON; sv_assert(logged('&') == filt, "filters run exactly when configured, but not for unfiltered JSON"); if (filt && filter_fails && o.ast_filter_strict) { sv_assert(!r, "a failing strict filter aborts"); return; } if (!r) { sv_fail("a document is always produced"); return; }
  if (filt) { const char *t = f == APEX_OUTPUT_HTML || f == APEX_OUTPUT_MAN || f == APEX_OUTPUT_MAN_HTML ? "html" : f == APEX_OUTPUT_JSON_FILTERED ? "json" : f == APEX_OUTPUT_TERMINAL || f == APEX_OUTPUT_TERMINAL256 ? "terminal" : "markdown"; sv_assert(!strcmp(as_['&'], t), "filters are told the output format"); }
  int want = f == APEX_OUTPUT_JSON || f == APEX_OUTPUT_JSON_FILTERED ? '(' : f == APEX_OUTPUT_TERMINAL || f == APEX_OUTPUT_TERMINAL256 ? '*' : f == APEX_OUTPUT_MAN ? '+' : f == APEX_OUTPUT_MAN_HTML ? ',' : f == APEX_OUTPUT_HTML ? 0 : ')'; for (const char *p = "()*+,"; *p; p++) sv_assert(logged(*p) == (*p == want), "exactly the serializer of the output format runs"); sv_assert((logged('A') || logged('B')) == !want, "HTML is rendered exactly for HTML output");
  if (want == '*') sv_assert(av['*'] == (f == APEX_OUTPUT_TERMINAL256), "256 colours exactly when asked for"); if (want == ')') sv_assert(av[')'] == (f == APEX_OUTPUT_MARKDOWN ? APEX_MD_DIALECT_UNIFIED : f == APEX_OUTPUT_MMD ? APEX_MD_DIALECT_MMD : f == APEX_OUTPUT_COMMONMARK ? APEX_MD_DIALECT_COMMONMARK : f == APEX_OUTPUT_KRAMDOWN ? APEX_MD_DIALECT_KRAMDOWN : APEX_MD_DIALECT_GFM), "the Markdown dialect is the one asked for"); sv_cover("format");
}
void h_pipe_args(void) {
  apex_options o = apex_options_for_mode(sv_choice(5)); static const char *T[] = {"x", "[[x]]\n", "a {: .x}\n", "{#i}", "b {.c}\n", "a\r\n", "a\r"}; int cm, cp, ws; bool b[4]; sv_sym(&cm, sizeof cm); sv_sym(&cp, sizeof cp); sv_sym(&ws, sizeof ws); sv_sym(b, 4); for (int i = 0; i < 4; i++) sv_restrict_(&b[i], 1, "\0\1", 2); o.enable_critic_markup = o.enable_tables = o.enable_wiki_links = o.enable_definition_lists = true; o.relaxed_tables = o.enable_metadata_variables = false; o.critic_mode = cm; o.caption_position = cp; o.wikilink_space = ws; o.unsafe = b[0]; o.enable_image_captions = b[1]; o.title_captions_only = b[2]; o.wikilink_sanitize = b[3]; o.wikilink_extension = sv_choice(2) ? "html" : 0; nh = sv_choice(4); core_build = heads; const char *t = T[sv_choice(7)]; char *r = go(t, &o); if (!r) { sv_fail("a document is always produced"); return; }
  stages("!$ABDHqt", &o); sv_assert((int)av['t'] == cm && (int)av['D'] == cp && av['q'] == b[0] && av['H'] == b[1] && av2['H'] == b[2], "every stage is given its own options"); if (strstr(t, "[[")) sv_assert((int)av['!'] == ws && av2['!'] == b[3] && !strcmp(as_['!'], o.wikilink_extension ? "html" : ""), "wiki links are given their options"); sv_assert(count_of(clog_, "#") == (o.generate_header_ids ? (size_t)nh : 0), "every heading's manual ID is looked at"); sv_cover("args");
}
static int hk; static const char *HK[][2] = {{"a", "http://a.b/ "}, {"g", "{% x %}"}, {"g", "#t q"}, {"a", "{% x %}"}, {"h", "{% x %}"}, {"7", "http://a.b/ "}};
static char *hook(char c, const char *t) { if (c != HK[hk][0][0]) return 0; B b = {0}; b_lit(&b, HK[hk][1]); b_lit(&b, t); return b_done(&b); }
void h_pipe_order(void) {
  apex_options o = apex_options_for_mode(APEX_MODE_UNIFIED); o.enable_hashtags = true; o.enable_plugins = true; nmeta = 1; meta_k[0] = "k"; meta_v[0] = "v"; hk = sv_choice(6); stage_hook = hook; html_in = 0; char *r = run_core("x\n", &o); if (!r) { sv_fail("a document is always produced"); return; }
  if (hk == 0 || hk == 5) sv_assert(has(fed, "](http://a.b/)"), "URLs from variables and plugins are linked"); else if (hk == 2) sv_assert(has(fed, "<span class=\"mkhashtag\">#t</span>"), "included text has its hashtags marked"); else if (hk < 4) sv_assert(!has(fed, "{%") && starts(r, "{% x %}x"), "Liquid tags from includes and variables are protected"); sv_cover("order");
}
void h_pipe_long(void) {
  static const size_t N[] = {0, 1, 2, 3, 63, 64, 4096, 70000}; apex_options o = bare(); o.enable_tables = sv_choice(2); o.relaxed_tables = sv_choice(2); o.allow_alpha_lists = sv_choice(2); size_t n = N[sv_choice(8)]; B b = {0}; b_fill(&b, 'x', n); int nl = sv_choice(3); if (nl) b_lit(&b, nl == 1 ? "\n" : "\n\n"); if (!b.p) b_lit(&b, ""); char *in = b_done(&b); size_t len = strlen(in), l = sv_choice(3); size_t give = l == 0 ? len : l == 1 ? len + 5 : len / 2; html_in = 0; marks = 0; seen_opts = &o; fed = 0; char *r = apex_markdown_to_html(in, give, &o); size_t eff = give > len ? len : give; if (!n || !eff) { sv_assert(r && strspn(r, "\n") == strlen(r), "nothing becomes nothing"); return; } sv_assert(strlen(fed) >= eff && !memcmp(fed, in, eff) && strspn(fed + eff, "\n") == strlen(fed + eff), "exactly the given bytes are processed"); sv_cover("long");
}
/* docs: Feature Comparison Table; columns Unified, GFM, MMD, Kramdown, CommonMark */
void h_pipe_modes(void) {
  static const int MO[] = {APEX_MODE_UNIFIED, APEX_MODE_GFM, APEX_MODE_MULTIMARKDOWN, APEX_MODE_KRAMDOWN, APEX_MODE_COMMONMARK}; int m = sv_choice(5); apex_options o = apex_options_for_mode(MO[m]);
  static const struct { size_t off; char v[6]; } T[] = {{F(enable_tables), "11110"}, {F(enable_strikethrough), "11000"}, {F(enable_task_lists), "11000"}, {F(enable_footnotes), "10110"}, {F(enable_definition_lists), "10110"}, {F(enable_smart_typography), "10110"}, {F(enable_math), "10110"}, {F(enable_wiki_links), "00000"}, {F(enable_critic_markup), "10000"}, {F(enable_callouts), "10000"}, {F(enable_file_includes), "10100"}, {F(enable_metadata_variables), "10100"}, {F(relaxed_tables), "10010"}, {F(hardbreaks), "01000"}, {F(enable_sup_sub), "10100"}, {F(enable_divs), "10000"}, {F(enable_spans), "10000"}, {F(allow_alpha_lists), "10000"}, {F(enable_emoji_autocorrect), "10000"}, {F(enable_plugins), "00000"}, {F(standalone), "00000"}, {F(pretty), "00000"}, {F(embed_images), "00000"}, {F(generate_header_ids), "11111"}};
  for (int i = 0; i < (int)(sizeof T / sizeof *T); i++) sv_assert(*(bool *)((char *)&o + T[i].off) == (T[i].v[m] == '1'), "each mode starts with exactly its documented features"); sv_assert((int)o.mode == MO[m] && o.id_format == (m == 2 ? 1 : m == 3 ? 2 : 0) && o.output_format == APEX_OUTPUT_HTML && o.unsafe == (m == 0 || m == 2 || m == 3), "each mode starts with its documented ID format and HTML handling");
  if (m == 4) { marks = 0; html_in = 0; char *r = run_core("==a== ++b++ ^c^ http://d.e {++f++} :+1: [g]{.h} [[i]]\na.\n", &o); expect_str(fed, "==a== ++b++ ^c^ http://d.e {++f++} :+1: [g]{.h} [[i]]\na.\n", "CommonMark mode feeds the document to the parser unchanged"); sv_assert(!exts, "CommonMark mode has no extensions"); (void)r; }
  if (!m) { apex_options d = apex_options_default(); for (int i = 0; i < (int)(sizeof T / sizeof *T); i++) sv_assert(*(bool *)((char *)&o + T[i].off) == *(bool *)((char *)&d + T[i].off), "Unified is the default"); } sv_cover("mode");
}
