//@src cli/main.c
//@src src/extensions/metadata.c
//@srcflags -Dmain=apex_main -Dfopen=m_fopen -Dfclose=m_fclose -Dfflush=m_fflush -Dferror=m_ferror -Dfputs=m_fputs -Dfputc=m_fputc -Dputc=m_fputc -Dputchar=m_putchar -Dputs=m_puts -Dfwrite=m_fwrite -Dfprintf=m_fprintf -Dprintf=m_printf -Dread=m_read -Dfgets=m_fgets -Dpopen=m_popen -Dpclose=m_pclose -Disatty=m_isatty -Dfileno=m_fileno -Dsystem=m_system -Dunlink=m_unlink -Dgetcwd=m_getcwd -Dgetenv=m_getenv -Dstat=m_stat -Dopendir=m_opendir -Dreaddir=m_readdir -Dclosedir=m_closedir -Daccess=m_access -fno-builtin
//@job C49 h_o_flag quick=60 workers=6 bound="every pair of flags out of 117, in both orders, on arbitrary mode defaults"
//@job C49 h_o_bad quick=60 workers=4 bound="options without their argument, with a wrong one (1 arbitrary character) and unknown options, alone or after a valid one"
//@job C49 h_o_css quick=60 workers=6 bound="--css arguments of at most 6 characters over a , space tab, then a second one; 0..9 stylesheets"
//@job C49 h_o_bib quick=60 workers=4 bound="0..9 bibliographies and 0..9 scripts out of 14 kinds, one of 2 arbitrary bytes; mode given in the document or not"
//@job C49 h_o_filter quick=60 workers=6 bound="filter folders of 0..10 entries of 8 kinds in any order, 2 --filter names out of 9, 1 --lua-filter path with 2 arbitrary bytes"
//@job C49 h_o_wrap quick=60 workers=6 bound="rendered texts of at most 4 characters over a newline CR two-byte letters and escape sequences, widths -1..4, from flag or metadata, all output formats"
//@job C49 h_o_prec quick=60 workers=4 bound="every flag out of 119 against 25 settings in the document or --meta, on arbitrary mode defaults"
#define CV_LISTS 1
#include "cliconv.h"
#include <stddef.h>
#include <dirent.h>
#include <sys/stat.h>
#define O(f) offsetof(apex_options, f)
typedef struct { const char *n, *a; size_t o; int sz, v; size_t o2; int v2; } FL;
#define T(n, f) {n, 0, O(f), 1, 1, 0, 0}
#define N(n, f) {n, 0, O(f), 1, 0, 0, 0}
#define I(n, a, f, v) {n, a, O(f), 4, v, 0, 0}
#define S(n, a, f) {n, a, O(f), 8, 0, 0, 0}
static const FL F[] = {{"--plugins", 0, O(enable_plugins), 1, 1, 0, 0}, N("--no-plugins", enable_plugins), N("--no-tables", enable_tables), N("--no-footnotes", enable_footnotes), N("--no-smart", enable_smart_typography), N("--no-math", enable_math), T("--includes", enable_file_includes), N("--no-includes", enable_file_includes), T("--hardbreaks", hardbreaks), T("-s", standalone), T("--standalone", standalone), T("--embed-css", embed_stylesheet), T("--pretty", pretty), N("--no-ids", generate_header_ids), T("--header-anchors", header_anchors), T("--relaxed-tables", relaxed_tables), N("--no-relaxed-tables", relaxed_tables), T("--per-cell-alignment", per_cell_alignment), N("--no-per-cell-alignment", per_cell_alignment), T("--code-line-numbers", code_line_numbers), T("--highlight-language-only", highlight_language_only), T("--alpha-lists", allow_alpha_lists), N("--no-alpha-lists", allow_alpha_lists), T("--mixed-lists", allow_mixed_list_markers), N("--no-mixed-lists", allow_mixed_list_markers), T("--unsafe", unsafe), N("--no-unsafe", unsafe), T("--sup-sub", enable_sup_sub), N("--no-sup-sub", enable_sup_sub), T("--divs", enable_divs), N("--no-divs", enable_divs), T("--spans", enable_spans), N("--no-spans", enable_spans), T("--autolink", enable_autolink), N("--no-autolink", enable_autolink), T("--strikethrough", enable_strikethrough), N("--no-strikethrough", enable_strikethrough), T("--obfuscate-emails", obfuscate_emails), T("--aria", enable_aria), T("--wikilinks", enable_wiki_links), N("--no-wikilinks", enable_wiki_links), T("--emoji-autocorrect", enable_emoji_autocorrect), N("--no-emoji-autocorrect", enable_emoji_autocorrect), T("--widont", enable_widont), {"--code-is-poetry", 0, O(code_is_poetry), 1, 1, O(highlight_language_only), 1}, T("--markdown-in-html", enable_markdown_in_html), N("--no-markdown-in-html", enable_markdown_in_html), T("--random-footnote-ids", random_footnote_ids), T("--hashtags", enable_hashtags), T("--style-hashtags", style_hashtags), T("--hr-page-break", hr_page_break), T("--title-from-h1", title_from_h1), T("--page-break-before-footnotes", page_break_before_footnotes), T("--wikilink-sanitize", wikilink_sanitize), N("--no-wikilink-sanitize", wikilink_sanitize), T("--transforms", enable_metadata_transforms), N("--no-transforms", enable_metadata_transforms), T("--embed-images", embed_images), T("--image-captions", enable_image_captions), N("--no-image-captions", enable_image_captions), {"--title-captions-only", 0, O(title_captions_only), 1, 1, O(enable_image_captions), 1}, N("--no-title-captions-only", title_captions_only), T("--no-bibliography", suppress_bibliography), T("--link-citations", link_citations), T("--show-tooltips", show_tooltips), N("--no-indices", enable_indices), T("--no-index", suppress_index), {"--no-progress", 0, 0, 0, 0, 0, 0},
  {"--accept", 0, O(critic_mode), 4, 0, O(enable_critic_markup), 1}, {"--reject", 0, O(critic_mode), 4, 1, O(enable_critic_markup), 1}, {"--proofreader", 0, O(critic_mode), 4, 2, O(enable_critic_markup), 1}, {"--indices", 0, O(enable_indices), 1, 1, 0, 0},
  I("--id-format", "gfm", id_format, 0), I("--id-format", "mmd", id_format, 1), I("--id-format", "kramdown", id_format, 2), I("--captions", "above", caption_position, 0), I("--captions", "below", caption_position, 1), I("--wikilink-space", "dash", wikilink_space, 0), I("--wikilink-space", "none", wikilink_space, 1), I("--wikilink-space", "underscore", wikilink_space, 2), I("--wikilink-space", "space", wikilink_space, 3),
  I("-t", "html", output_format, APEX_OUTPUT_HTML), I("--to", "json", output_format, APEX_OUTPUT_JSON), I("-t", "json-filtered", output_format, APEX_OUTPUT_JSON_FILTERED), I("-t", "ast-json", output_format, APEX_OUTPUT_JSON_FILTERED), I("-t", "ast", output_format, APEX_OUTPUT_JSON_FILTERED), I("-t", "markdown", output_format, APEX_OUTPUT_MARKDOWN), I("-t", "md", output_format, APEX_OUTPUT_MARKDOWN), I("--to", "mmd", output_format, APEX_OUTPUT_MMD), I("-t", "commonmark", output_format, APEX_OUTPUT_COMMONMARK), I("-t", "cmark", output_format, APEX_OUTPUT_COMMONMARK), I("-t", "kramdown", output_format, APEX_OUTPUT_KRAMDOWN), I("-t", "gfm", output_format, APEX_OUTPUT_GFM), I("-t", "terminal", output_format, APEX_OUTPUT_TERMINAL), I("-t", "cli", output_format, APEX_OUTPUT_TERMINAL), I("-t", "terminal256", output_format, APEX_OUTPUT_TERMINAL256), I("-t", "man", output_format, APEX_OUTPUT_MAN), I("-t", "man-html", output_format, APEX_OUTPUT_MAN_HTML),
  I("-m", "commonmark", mode, APEX_MODE_COMMONMARK), I("--mode", "gfm", mode, APEX_MODE_GFM), I("-m", "mmd", mode, APEX_MODE_MULTIMARKDOWN), I("--mode", "multimarkdown", mode, APEX_MODE_MULTIMARKDOWN), I("-m", "kramdown", mode, APEX_MODE_KRAMDOWN), I("--mode", "unified", mode, APEX_MODE_UNIFIED),
  S("--title", "A Title", document_title), S("--theme", "dark", theme_name), S("--wikilink-extension", "html", wikilink_extension), {"--csl", "x.csl", O(csl_file), 8, 0, O(enable_citations), 1}, {"--base-dir", "q", O(base_directory), 8, 0, 0, 0},
  {"--code-highlight", "pygments", O(code_highlighter), 9, 0, 0, 0}, {"--code-highlight", "p", O(code_highlighter), 9, 0, 0, 0}, {"--code-highlight", "pyg", O(code_highlighter), 9, 0, 0, 0}, {"--code-highlight", "skylighting", O(code_highlighter), 9, 1, 0, 0}, {"--code-highlight", "s", O(code_highlighter), 9, 1, 0, 0}, {"--code-highlight", "sky", O(code_highlighter), 9, 1, 0, 0}, {"--code-highlight", "shiki", O(code_highlighter), 9, 2, 0, 0}, {"--code-highlight", "sh", O(code_highlighter), 9, 2, 0, 0}};
#define NF ((int)(sizeof F / sizeof *F))
static const size_t BOOLS[] = {O(enable_plugins), O(enable_tables), O(enable_footnotes), O(enable_definition_lists), O(enable_smart_typography), O(enable_math), O(enable_critic_markup), O(enable_wiki_links), O(enable_task_lists), O(enable_attributes), O(enable_callouts), O(enable_marked_extensions), O(enable_divs), O(enable_spans), O(strip_metadata), O(enable_metadata_variables), O(enable_metadata_transforms), O(enable_file_includes), O(unsafe), O(validate_utf8), O(github_pre_lang), O(standalone), O(pretty), O(hardbreaks), O(nobreaks), O(generate_header_ids), O(header_anchors), O(relaxed_tables), O(per_cell_alignment), O(allow_mixed_list_markers), O(allow_alpha_lists), O(enable_sup_sub), O(enable_strikethrough), O(enable_autolink), O(obfuscate_emails), O(embed_images), O(enable_image_captions), O(title_captions_only), O(enable_citations), O(suppress_bibliography), O(link_citations), O(show_tooltips), O(enable_indices), O(enable_mmark_index_syntax), O(enable_textindex_syntax), O(enable_leanpub_index_syntax), O(suppress_index), O(group_index_by_letter), O(wikilink_sanitize), O(embed_stylesheet), O(enable_aria), O(enable_emoji_autocorrect), O(code_line_numbers), O(highlight_language_only), O(enable_widont), O(code_is_poetry), O(enable_markdown_in_html), O(random_footnote_ids), O(enable_hashtags), O(style_hashtags), O(proofreader_mode), O(hr_page_break), O(title_from_h1), O(page_break_before_footnotes), O(ast_filter_strict)};
static void symbolic_defaults(void) { int n = (int)(sizeof BOOLS / sizeof *BOOLS); char c[60]; sv_sym(c, 60); sv_restrict_(c, 60, "\0\1", 2); for (int i = 0; i < n; i++) ((char *)&base_o)[BOOLS[i]] = c[i % 60]; base_o.critic_mode = 7; base_o.id_format = 7; base_o.caption_position = 7; base_o.wikilink_space = 7; base_o.max_include_depth = 10; }
static const char M_F[] = "a flag sets exactly what it is documented to set, wherever it stands";
static void str_is(const char *g, const char *w) { sv_assert(w ? g && !strcmp(g, w) : !g, M_F); }
static void apply(apex_options *w, const FL *f) { static const char *const H[] = {"pygments", "skylighting", "shiki"}; char *p = (char *)w; switch (f->sz) { case 1: p[f->o] = (char)f->v; break; case 4: *(int *)(p + f->o) = f->v; break; case 8: *(const char **)(p + f->o) = f->a; break; case 9: *(const char **)(p + f->o) = H[f->v]; break; default: return; } if (f->o2) p[f->o2] = (char)f->v2; if (!strcmp(f->n, "--proofreader")) w->proofreader_mode = true; if (!strcmp(f->n, "--indices")) w->enable_mmark_index_syntax = w->enable_textindex_syntax = w->enable_leanpub_index_syntax = true; }
static void same(apex_options g, apex_options w) { str_is(g.code_highlighter, w.code_highlighter); str_is(g.document_title, w.document_title); str_is(g.theme_name, w.theme_name); str_is(g.wikilink_extension, w.wikilink_extension); str_is(g.csl_file, w.csl_file); str_is(cv_base, w.base_directory); str_is(cv_path, w.input_file_path); for (size_t i = 0; i < sizeof BOOLS / sizeof *BOOLS; i++) sv_assert(((char *)&g)[BOOLS[i]] == ((char *)&w)[BOOLS[i]], M_F); sv_assert(g.mode == w.mode && g.output_format == w.output_format && g.critic_mode == w.critic_mode && g.id_format == w.id_format && g.caption_position == w.caption_position && g.wikilink_space == w.wikilink_space && g.max_include_depth == w.max_include_depth && g.terminal_width == w.terminal_width && !g.nocite, M_F); sv_assert(g.progress_callback == 0, M_F); }
void h_o_flag(void) { symbolic_defaults(); in_data = "# x\n"; in_len = 4; int n = 0; char *a[8]; const FL *f[2]; for (int i = 0; i < 2; i++) { int k = sv_choice(NF + 1); f[i] = k < NF ? &F[k] : 0; if (f[i]) { a[n++] = (char *)f[i]->n; if (f[i]->a) a[n++] = (char *)f[i]->a; } } int rc = run(n, a); sv_assert(rc == 0 && cv_n == 1, "the input is converted"); apex_options w = apex_options_default(); for (int i = 0; i < 2; i++) if (f[i]) apply(&w, f[i]); if (w.base_directory) w.input_file_path = w.base_directory; same(cv_o, w); sv_assert(!cv_o.stylesheet_paths && !cv_o.bibliography_files && !cv_o.script_tags && !cv_o.ast_filter_count, M_F); sv_cover("flags"); }
void h_o_bad(void) { static const char *const NA[] = {"-m", "--mode", "-t", "--to", "--theme", "--width", "-o", "--output", "--css", "--style", "--script", "--title", "--id-format", "--captions", "--code-highlight", "--wikilink-space", "--wikilink-extension", "--base-dir", "--bibliography", "--csl", "--meta-file", "--meta", "--filter", "--lua-filter", "--install-plugin", "--uninstall-plugin", "--install-filter", "--uninstall-filter"}; static const char *const BV[][2] = {{"-m", "gf"}, {"--mode", "mmd"}, {"-t", "htm"}, {"--to", "terminal"}, {"--id-format", "gfm"}, {"--captions", "above"}, {"--code-highlight", "shiki"}, {"--wikilink-space", "dash"}}; in_data = "x"; in_len = 1; B b = {0}; char *a[4]; int n = 0; if (sv_choice(2)) a[n++] = "--pretty"; switch (sv_choice(3)) { case 0: a[n++] = (char *)NA[sv_choice(28)]; break; case 1: { int k = sv_choice(8); b_lit(&b, BV[k][1]); b_not(&b, 1, "fml2"); a[n++] = (char *)BV[k][0]; a[n++] = b.p; break; } default: b_lit(&b, sv_choice(2) ? "--x" : "-"); b_in(&b, 2, "qxz-"); a[n++] = b.p; } int rc = run(n, a); sv_assert(rc != 0 && !cv_n && !SO.b.n, "a wrong command line is refused"); sv_cover("bad"); }
void h_o_css(void) { in_data = "x"; in_len = 1; B b = {0}; b_in0(&b, 6, "a, \t"); char *c = b_done(&b); int more = sv_choice(4); char *a[24] = {"--css", c, "--style", "b.css", "--css", "c, d,e", "--css", "f,g,h,i"}; static const char *const EX[] = {"b.css", "c", "d", "e", "f", "g", "h", "i"}; static const int EN[] = {0, 1, 4, 8}; char *w[24]; int n = 0; for (char *p = c; *p;) { while (*p == ' ' || *p == '\t') p++; char *s = p; while (*p && *p != ',') p++; char *e = p; while (e > s && (e[-1] == ' ' || e[-1] == '\t')) e--; if (e > s) w[n++] = strndup(s, (size_t)(e - s)); if (*p) p++; } for (int i = 0; i < EN[more]; i++) w[n++] = (char *)EX[i]; int rc = run(2 + 2 * more, a); static const char M[] = "the stylesheets are those given, in order"; sv_assert(rc == 0 && cv_n == 1, "the input is converted"); sv_assert(cv_o.standalone, "a stylesheet implies a whole document"); if (!n) sv_assert(!cv_o.stylesheet_count, M); else { sv_assert((int)cv_o.stylesheet_count == n && cv_o.stylesheet_paths && !cv_o.stylesheet_paths[n], M); for (int i = 0; i < n; i++) expect_str(cv_o.stylesheet_paths[i], w[i], M); } sv_cover("css"); }
#define CDN "https://cdn.jsdelivr.net/npm/"
void cv_lists(const apex_options *o); static char *sc_got[32]; static int sc_n; static const char *bi_got[16]; static int bi_n;
void h_o_bib(void) { static const struct { const char *a, *w; } SC[] = {{"mermaid", "<script src=\"" CDN "mermaid@10/dist/mermaid.min.js\"></script>"}, {"MathJax", "<script src=\"" CDN "mathjax@3/es5/tex-mml-chtml.js\"></script>"}, {"highlightjs", "<script src=\"" CDN "highlight.js@11/lib/highlight.min.js\"></script>"}, {"highlight.js", "<script src=\"" CDN "highlight.js@11/lib/highlight.min.js\"></script>"}, {"prism", "<script src=\"" CDN "prismjs@1/components/prism-core.min.js\"></script>"}, {"prismjs", "<script src=\"" CDN "prismjs@1/components/prism-core.min.js\"></script>"}, {"htmx", "<script src=\"https://unpkg.com/htmx.org@1.9.10\"></script>"}, {"alpine", "<script defer src=\"" CDN "alpinejs@3.x.x/dist/cdn.min.js\"></script>"}, {"alpinejs", "<script defer src=\"" CDN "alpinejs@3.x.x/dist/cdn.min.js\"></script>"}, {"x.js", "<script src=\"x.js\"></script>"}, {" a/b.js\t", "<script src=\"a/b.js\"></script>"}, {"mermaids", "<script src=\"mermaids\"></script>"}, {"", 0}};
  in_data = sv_choice(2) ? "---\nmode: mmd\n---\n# x\n" : "# x\n"; in_len = strlen(in_data); int nb = sv_choice(10), ns = sv_choice(10), k = sv_choice(14), how = sv_choice(2); char *a[48]; int n = 0; char bn[10][8]; for (int i = 0; i < nb; i++) { sprintf(bn[i], "b%d.bib", i); a[n++] = "--bibliography"; a[n++] = bn[i]; } B one = {0}, s = {0}; const char *w1; if (k == 13) { b_not(&one, 2, ", \t\n\r\"<>&"); b_lit(&s, "<script src=\""); b_lit(&s, one.p); b_lit(&s, "\"></script>"); w1 = s.p; } else { b_lit(&one, SC[k].a); w1 = SC[k].w; } B list = {0}; b_lit(&list, ""); const char *w[32]; int nw = 0; for (int i = 0; i < ns; i++) { const char *v = i == ns / 2 ? one.p : "s.js"; if (how) { if (i) b_c(&list, ','); b_lit(&list, v); } else { a[n++] = "--script"; a[n++] = (char *)v; } const char *x = i == ns / 2 ? w1 : "<script src=\"s.js\"></script>"; if (x) w[nw++] = x; } if (how && ns) { a[n++] = "--script"; a[n++] = list.p; } char *v[64]; v[0] = "apex"; for (int i = 0; i < n; i++) v[i + 1] = a[i]; v[n + 1] = 0; int rc = apex_main(n + 1, v); sv_assert(rc == 0 && cv_n == 1, "the input is converted"); static const char MB[] = "the bibliographies are those given, in order", MS[] = "the scripts are those given, in order"; sv_assert(bi_n == nb, MB); for (int i = 0; i < nb; i++) sv_assert(!strcmp(bi_got[i], bn[i]), MB); sv_assert(!nb || in_data[0] == '-' || cv_o.enable_citations, "a bibliography enables citations"); sv_assert(sc_n == nw, MS); for (int i = 0; i < nw; i++) expect_str(sc_got[i], w[i], MS); sv_cover("bib"); }
/* the filters folder */
typedef struct { const char *n; int dir, x; } ENT; static ENT ent[16]; static int ent_n, ent_at; static char dirobj; static const char *const ROOT = "x/apex/filters"; static int root_ok = 1; static struct dirent de;
DIR *m_opendir(const char *p) { sv_assert(!strcmp(p, ROOT), "the filters folder is read"); ent_at = 0; return (DIR *)&dirobj; } int m_closedir(DIR *d) { (void)d; return 0; } struct dirent *m_readdir(DIR *d) { (void)d; while (ent_at < ent_n && strchr(ent[ent_at].n, '/')) ent_at++; if (ent_at == ent_n) return 0; snprintf(de.d_name, sizeof de.d_name, "%s", ent[ent_at++].n); return &de; }
static ENT *look(const char *p) { size_t k = strlen(ROOT); if (strncmp(p, ROOT, k) || p[k] != '/') return 0; for (int i = 0; i < ent_n; i++) if (!strcmp(ent[i].n, p + k + 1)) return &ent[i]; return 0; }
int m_stat(const char *p, struct stat *s) { memset(s, 0, sizeof *s); if (!strcmp(p, ROOT)) { s->st_mode = S_IFDIR | 0755; return root_ok ? 0 : -1; } ENT *e = look(p); if (!e) return -1; s->st_mode = e->dir ? S_IFDIR | 0755 : S_IFREG | (e->x ? 0755 : 0644); return 0; } int m_access(const char *p, int m) { ENT *e = look(p); (void)m; return e && (e->dir || e->x) ? 0 : -1; }
static char *words[4]; static int nwords; /* the shell's view of a command */
static void shell(const char *c) { static const char M[] = "a filter's path reaches the shell as one word"; nwords = 0; while (*c) { while (*c == ' ') c++; if (!*c) break; B w = {0}; b_lit(&w, ""); while (*c && *c != ' ') { if (*c == '\'') { for (c++; *c != '\''; c++) { if (!*c) { sv_fail(M); return; } b_c(&w, *c); } c++; } else if (*c == '"') { for (c++; *c != '"'; c++) { sv_assert(*c && *c != '$' && *c != '`', M); if (*c == '\\' && (c[1] == '"' || c[1] == '\\' || c[1] == '$' || c[1] == '`')) c++; b_c(&w, *c); } c++; } else if (*c == '\\') { sv_assert(c[1], M); b_c(&w, c[1]); c += 2; } else { sv_assert(!strchr("$`&|;<>()*?[]#~\n\t{}!", *c), M); b_c(&w, *c++); } } sv_assert(nwords < 3, M); words[nwords++] = w.p; } words[nwords] = 0; }
static char *fc_got[32]; static int fc_n;
static void is_filter(int i, int lua, const char *path) { static const char M[] = "the filters are those asked for, in order"; sv_assert(i < fc_n, M); shell(fc_got[i]); sv_assert(nwords == 1 + lua && (!lua || !strcmp(words[0], "lua")), M); expect_str(words[lua], path, M); }
static const ENT KIND[] = {{"b", 0, 1}, {"a b", 0, 1}, {"c.lua", 0, 0}, {"notes.txt", 0, 0}, {".hid", 0, 1}, {"d", 1, 1}, {"d/d.py", 0, 1}, {"e.rb", 0, 1}, {"it's", 0, 1}, {"d2", 1, 1}};
void h_o_filter(void) { in_data = "x"; in_len = 1; xdg = "x"; int all = sv_choice(2), perm = sv_choice(10), strict = sv_choice(2), n1 = sv_choice(10), n2 = n1 == 9 ? 9 : sv_choice(10), lua = sv_choice(2), cnt = sv_choice(2); for (int i = 0; i < 10; i++) { const ENT *e = &KIND[(i * 3 + perm) % 10]; if (cnt && e == &KIND[0]) continue; ent[ent_n++] = *e; } root_ok = sv_choice(3) != 2; static const char *const NM[] = {"b", "a b", "c", "c.lua", "notes.txt", "d", "e", "it's", "nosuch", 0}; static const struct { int ok, lua; const char *p; } RES[] = {{1, 0, "b"}, {1, 0, "a b"}, {1, 1, "c.lua"}, {1, 1, "c.lua"}, {1, 0, "notes.txt"}, {1, 0, "d/d.py"}, {1, 0, "e.rb"}, {1, 0, "it's"}, {0, 0, 0}};
  B lp = {0}; b_lit(&lp, "f/"); if (lua) b_not(&lp, 2, ""); char *a[12]; int n = 0; int nn[2] = {n1, n2}; for (int i = 0; i < 2; i++) if (NM[nn[i]]) { a[n++] = "--filter"; a[n++] = (char *)NM[nn[i]]; } if (lua) { a[n++] = "--lua-filter"; a[n++] = lp.p; } if (all) a[n++] = "--filters"; if (!strict) a[n++] = "--no-strict-filters"; int rc = run(n, a); int miss = 0; for (int i = 0; i < 2; i++) if (NM[nn[i]] && (!RES[nn[i]].ok || (cnt && nn[i] == 0))) miss = 1; if ((all || NM[n1] || NM[n2]) && !root_ok) miss = 1; if (miss) { sv_assert(rc != 0 && !cv_n, "a missing filter is reported"); sv_cover("missing"); return; } sv_assert(rc == 0 && cv_n, "the input is converted"); int k = 0; static const struct { int l; const char *p; } AL[] = {{0, "x/apex/filters/a b"}, {0, "x/apex/filters/b"}, {1, "x/apex/filters/c.lua"}, {0, "x/apex/filters/e.rb"}, {0, "x/apex/filters/it's"}}; if (all) { for (int i = 0; i < 5; i++) if (!(cnt && i == 1)) is_filter(k++, AL[i].l, AL[i].p); }
  for (int i = 0; i < 2; i++) if (NM[nn[i]]) { B w = {0}; b_lit(&w, "x/apex/filters/"); b_lit(&w, RES[nn[i]].p); is_filter(k++, RES[nn[i]].lua, w.p); } if (lua) is_filter(k++, 1, lp.p); sv_assert(fc_n == k, "no other filter is run"); if (k) sv_assert(cv_o.ast_filter_strict == (strict != 0), "filters are strict unless told otherwise"); sv_cover("filters"); }
void h_o_wrap(void) { static const char *const A[] = {"", "a", "\n", "\r", "\xc3\xa9", "\xe2\x82\xac", "\x1b[1m", "\x1b[38;5;2m"}; in_data = "x"; in_len = 1; B t = {0}, w = {0}; b_lit(&t, ""); b_lit(&w, ""); int wi = sv_choice(6) - 1, by = 1 + sv_choice(2), fmt = sv_choice(4), col = 0; static const char *const FM[] = {"terminal", "terminal256", "html", "man"}; int width = by == 2 ? 2 : wi, on = fmt < 2 && width > 0; for (int i = 0; i < 4; i++) { int k = sv_choice(8); if (!k) break; b_lit(&t, A[k]); if (k == 2) col = 0; else if (k != 3 && k < 6) { if (on && col >= width) { b_c(&w, '\n'); col = 0; } col++; } b_lit(&w, A[k]); } cv_out = t.p; char ws[8]; sprintf(ws, "%d", wi); base_o.terminal_width = by == 2 ? 2 : 0; int rc; if (by == 2) rc = CLI_RUN("-t", (char *)FM[fmt]); else rc = CLI_RUN("--width", ws, "-t", (char *)FM[fmt]); sv_assert(rc == 0, "the input is converted"); expect_str(SO.b.p ? SO.b.p : "", w.p, "terminal output is wrapped at the width, between characters"); sv_cover("wrap"); }
static const struct { const char *k, *v; } MD[] = {{"pretty", "false"}, {"pretty", "true"}, {"mode", "mmd"}, {"mode", "kramdown"}, {"mode", "gfm"}, {"title", "Doc"}, {"autolink", "false"}, {"autolink", "true"}, {"wikilinks", "true"}, {"id-format", "mmd"}, {"plugins", "true"}, {"plugins", "false"}, {"unsafe", "false"}, {"base-dir", "mb"}, {"csl", "m.csl"}, {"header-anchors", "false"}, {"standalone", "no"}, {"indices", "false"}, {"wikilink-space", "none"}, {"wikilink-extension", "md"}, {"image-captions", "false"}, {"captions", "above"}, {"hashtags", "false"}, {"aria", "false"}, {"title-captions-only", "true"}};
void h_o_prec(void) { symbolic_defaults(); int m = sv_choice(25), k = sv_choice(NF + 2), src = sv_choice(2); B d = {0}; b_lit(&d, ""); char *a[8]; int n = 0; if (src) { b_lit(&d, MD[m].k); b_c(&d, '='); b_lit(&d, MD[m].v); a[n++] = "--meta"; a[n++] = d.p; in_data = "# x\n"; } else { b_lit(&d, "---\n"); b_lit(&d, MD[m].k); b_lit(&d, ": "); b_lit(&d, MD[m].v); b_lit(&d, "\n---\n# x\n"); in_data = d.p; } in_len = strlen(in_data); if (k < NF) { a[n++] = (char *)F[k].n; if (F[k].a) a[n++] = (char *)F[k].a; if (!src && F[k].o == O(mode) && F[k].sz && F[k].v <= APEX_MODE_GFM) sv_assume(0); } else if (k == NF) { a[n++] = "--css"; a[n++] = "f.css"; } else { a[n++] = "--bibliography"; a[n++] = "f.bib"; }
  int rc = run(n, a); sv_assert(rc == 0 && cv_n, "the input is converted"); apex_metadata_item it = {(char *)MD[m].k, (char *)MD[m].v, 0}; apex_options w = apex_options_default(); int fm = k < NF && F[k].sz == 4 && F[k].o == O(mode); if (fm) w.mode = F[k].v; if (!fm || strcmp(MD[m].k, "mode")) apex_apply_metadata_to_options(&it, &w); if (k < NF) apply(&w, &F[k]); else if (k == NF) w.standalone = true; else w.enable_citations = true; if (k < NF && !strcmp(F[k].n, "--base-dir")) w.input_file_path = "q"; same(cv_o, w); if (k == NF) sv_assert(cv_o.stylesheet_count == 1 && !strcmp(cv_o.stylesheet_paths[0], "f.css"), M_F); if (k == NF + 1) sv_assert(bi_n == 1 && !strcmp(bi_got[0], "f.bib"), M_F); sv_cover("precedence"); }
void cv_lists(const apex_options *o) { if (o->bibliography_files) while (o->bibliography_files[bi_n]) { bi_got[bi_n] = strdup(o->bibliography_files[bi_n]); bi_n++; } if (o->script_tags) while (o->script_tags[sc_n]) { sc_got[sc_n] = strdup(o->script_tags[sc_n]); sc_n++; } for (size_t i = 0; i < o->ast_filter_count; i++) fc_got[fc_n++] = strdup(o->ast_filter_commands[i]); if (o->stylesheet_paths) { const char **c = calloc(o->stylesheet_count + 1, sizeof *c); for (size_t i = 0; i < o->stylesheet_count; i++) c[i] = strdup(o->stylesheet_paths[i]); sv_assert(!o->stylesheet_paths[o->stylesheet_count], "the stylesheets are those given, in order"); cv_o.stylesheet_paths = c; } if (cv_o.code_highlighter) cv_o.code_highlighter = strdup(cv_o.code_highlighter); cv_o.document_title = cv_title; cv_o.theme_name = dup0(cv_o.theme_name); cv_o.csl_file = dup0(cv_o.csl_file); cv_o.wikilink_extension = dup0(cv_o.wikilink_extension); }
