//@src cli/main.c
//@srcflags -Dmain=apex_main -Dfopen=m_fopen -Dfclose=m_fclose -Dfflush=m_fflush -Dferror=m_ferror -Dfputs=m_fputs -Dfputc=m_fputc -Dputc=m_fputc -Dputchar=m_putchar -Dputs=m_puts -Dfwrite=m_fwrite -Dfprintf=m_fprintf -Dprintf=m_printf -Dread=m_read -Dfgets=m_fgets -Dpopen=m_popen -Dpclose=m_pclose -Disatty=m_isatty -Dfileno=m_fileno -Dsystem=m_system -Dunlink=m_unlink -fno-builtin
//@job C47 h_m_shift quick=60 workers=6 bound="contents of at most 6 characters over # newline x carriage-return, 0..4 levels of tabs, spaces and both"
//@job C47 h_m_index quick=60 workers=6 bound="indices of 3 lines out of 12 (files here and in a folder, comments, blanks, missing files, trailing blanks), 3 line ends, 2 arbitrary bytes in a file"
//@job C47 h_m_comb quick=60 workers=6 bound="3 files out of 6 (plain, in a folder, empty, missing, 2 summaries), 2 arbitrary bytes in a file"
//@job C47 h_m_sum quick=60 workers=6 bound="summaries of 3 lines out of 14 (links at every level, anchors, blanks, external links, no links, missing files), 3 line ends"
//@job C47 h_m_out quick=60 workers=4 bound="output to a file that cannot be opened, to full media of 0..9 bytes, at once or when flushed; 0, 1, 8, 9, 16 and 17 input files"
#include "hl.h"
#include "cli.h"
/* the library: includes are expanded relative to a folder, with the document's metadata */
typedef struct apex_metadata_item apex_metadata_item; struct apex_metadata_item { char *key, *value; apex_metadata_item *next; };
apex_options apex_options_default(void) { apex_options o; memset(&o, 0, sizeof o); o.mode = APEX_MODE_UNIFIED; return o; }
apex_options apex_options_for_mode(apex_mode_t m) { apex_options o = apex_options_default(); o.mode = m; return o; }
static int converted; char *apex_markdown_to_html(const char *m, size_t n, const apex_options *o) { (void)m; (void)n; (void)o; converted++; return strdup("H"); }
const char *apex_version_string(void) { return "0"; } void apex_free_string(char *s) { free(s); }
apex_metadata_item *apex_extract_metadata(char **t) { if (**t != 'M') return 0; *t += 2; return calloc(1, sizeof(apex_metadata_item)); }
void apex_free_metadata(apex_metadata_item *m) { free(m); }
char *apex_process_includes(const char *t, const char *base, apex_metadata_item *m, int depth) { B b = {0}; b_c(&b, '<'); b_lit(&b, base ? base : "?"); if (m) b_c(&b, 'M'); if (depth) b_c(&b, 'D'); b_c(&b, '|'); b_lit(&b, t); b_c(&b, '>'); return b.p; }
apex_metadata_item *apex_load_metadata_from_file(const char *p) { (void)p; return 0; } apex_metadata_item *apex_merge_metadata(apex_metadata_item *a, ...) { return a; } apex_metadata_item *apex_parse_command_metadata(const char *s) { (void)s; return 0; } void apex_apply_metadata_to_options(apex_metadata_item *m, apex_options *o) { (void)m; (void)o; }
void *apex_remote_fetch_directory(const char *u) { (void)u; return 0; } void *apex_remote_fetch_filters_directory(const char *u) { (void)u; return 0; } char *apex_remote_fetch_json(const char *u) { (void)u; return 0; } void *apex_remote_find_plugin(void *l, const char *i) { (void)l; (void)i; return 0; } void apex_remote_free_plugins(void *l) { (void)l; } const char *apex_remote_plugin_repo(void *p) { (void)p; return 0; } const char *apex_remote_plugin_path(void *p) { (void)p; return 0; } void apex_remote_print_plugins_filtered(void *l, const char **a, size_t n, const char *k) { (void)l; (void)a; (void)n; (void)k; } char *apex_remote_extract_string(const char *o, const char *k) { (void)o; (void)k; return 0; }
FILE *m_popen(const char *c, const char *m) { (void)c; (void)m; return 0; } int m_pclose(FILE *f) { (void)f; return 0; } int m_system(const char *c) { (void)c; sv_fail("nothing is run"); return 1; } int m_unlink(const char *p) { (void)p; sv_fail("nothing is removed"); return -1; }
static const char M_SH[] = "a merged file's headings are shifted by its indentation", M_MG[] = "the index's files are merged in order", M_CB[] = "the files are combined in order, a blank line between them";
static void file(const char *n, const char *d) { sv_file(n, d, strlen(d)); }
static void shifted(B *w, const char *t, int k) { int bol = 1; for (; *t; t++) { if (bol && *t == '#') b_fill(w, '#', k); b_c(w, *t); bol = *t == '\n'; } }
void h_m_shift(void) { static const char *const I[] = {"", "\t", "    ", "\t\t", "        ", "\t    ", "\t\t\t", "            ", "\t\t\t\t", "  "}; static const int L[] = {0, 1, 1, 2, 2, 2, 3, 3, 4, 0}; int k = sv_choice(10); char c[6]; sv_sym(c, 6); sv_restrict_(c, 6, "#\nx\r\0", 5); B t = {0}; b_mem(&t, c, 6); char *txt = b_done(&t); file("a.md", txt); B ix = {0}; b_lit(&ix, I[k]); b_lit(&ix, "a.md\n"); file("i.txt", ix.p); int rc = CLI_RUN("--mmd-merge", "i.txt", "-o", "out"); B w = {0}; b_lit(&w, ""); shifted(&w, txt, L[k]); b_lit(&w, "\n\n"); sv_assert(rc == 0, M_SH); expect_str(OF.b.p, w.p, M_SH); sv_cover("shift"); }
static char sy[3]; static void two(void) { sv_sym(sy, 2); sv_exclude_(sy, 2, "\0", 1); sy[2] = 0; }
static const struct { const char *l; int file, lev; } ML[] = {{"a.md", 1, 0}, {"\tb.md", 2, 1}, {"    s/c.md", 3, 1}, {"\t\ta.md  ", 1, 2}, {"  a.md\t", 1, 0}, {"# a.md", 0, 0}, {"  #b.md", 0, 0}, {"", 0, 0}, {" \t ", 0, 0}, {"missing.md", 0, 0}, {"\tmissing.md", 0, 0}, {"s/c.md", 3, 0}};
void h_m_index(void) { two(); B b = {0}; b_lit(&b, "#B\n"); b_lit(&b, sy); const char *C[] = {0, "# A\ntext", b_done(&b), "x\n## C #\n"}; int sub = sv_choice(2), le = sv_choice(3), n = 1 + sv_choice(3); file(sub ? "d/a.md" : "a.md", C[1]); file(sub ? "d/b.md" : "b.md", C[2]); file(sub ? "d/s/c.md" : "s/c.md", C[3]); B ix = {0}, w = {0}; b_lit(&ix, ""); b_lit(&w, ""); for (int i = 0; i < n; i++) { int k = sv_choice(12); b_lit(&ix, ML[k].l); if (i < n - 1 || le != 2) b_lit(&ix, le == 1 ? "\r\n" : "\n"); if (ML[k].file) { shifted(&w, C[ML[k].file], ML[k].lev); b_lit(&w, "\n\n"); } }
  file(sub ? "d/i.txt" : "i.txt", ix.p); int f = sv_choice(2), rc = f ? CLI_RUN("--mmd-merge", sub ? "d/i.txt" : "i.txt", "--output", "out") : CLI_RUN("--mmd-merge", sub ? "d/i.txt" : "i.txt"); sv_assert(rc == 0 && !converted, M_MG); OS *o = out_of(f); expect_str(o->b.p ? o->b.p : "", w.p, M_MG); sv_assert(!f || !strcmp(of_name, "out"), "the output goes to the named file"); sv_assert(!OF.open, "the output file is closed"); sv_cover("index"); }
static void chunk(B *w, int *sep, const char *dir, const char *t) { if (*sep) b_lit(w, "\n\n"); *sep = 1; b_c(w, '<'); b_lit(w, dir); if (*t == 'M') b_c(w, 'M'); b_c(w, '|'); b_lit(w, t); b_c(w, '>'); }
void h_m_comb(void) { two(); B b = {0}; b_lit(&b, "M:"); b_lit(&b, sy); char *bt = b_done(&b); file("a.md", "# A\n"); file("d/b.md", bt); file("e.md", ""); file("SUMMARY.md", "* [A](a.md)\n* [B](d/b.md)\n"); file("d/summary.MD", "[B](b.md#x)"); int sep = 0; B w = {0}; b_lit(&w, ""); char *a[4] = {"--combine"}; for (int i = 0; i < 3; i++) switch (sv_choice(6)) { case 0: a[i + 1] = "a.md"; chunk(&w, &sep, ".", "# A\n"); break; case 1: a[i + 1] = "d/b.md"; chunk(&w, &sep, "d", bt); break; case 2: a[i + 1] = "e.md"; chunk(&w, &sep, ".", ""); break; case 3: a[i + 1] = "SUMMARY.md"; chunk(&w, &sep, ".", "# A\n"); chunk(&w, &sep, "./d", bt); break; case 4: a[i + 1] = "d/summary.MD"; chunk(&w, &sep, "d", bt); break; default: a[i + 1] = "missing.md"; }
  int rc = run(4, a); sv_assert(rc == 0 && !converted, M_CB); expect_str(SO.b.p ? SO.b.p : "", w.p, M_CB); sv_cover("combine"); }
static const struct { const char *l; int f; } SL[] = {{"* [A](a.md)", 1}, {"    * [B](d/b.md)", 2}, {"# Summary", 0}, {"", 0}, {"* [B](d/b.md#part)", 2}, {"- [Site](https://x.y/a.md)", 0}, {"* [none]()", 0}, {"* [A]( a.md )", 1}, {"[A](a.md) and text", 1}, {"* [open](a.md", 0}, {"[A] (a.md)", 0}, {"* [m](missing.md)", 0}, {"* []( \t)", 0}, {"(a.md)", 0}};
void h_m_sum(void) { file("q/a.md", "A"); file("q/d/b.md", "B\n"); int le = sv_choice(3), sep = 0, n = 1 + sv_choice(3); B s = {0}, w = {0}; b_lit(&s, ""); b_lit(&w, ""); for (int i = 0; i < n; i++) { int k = sv_choice(14); b_lit(&s, SL[k].l); if (i < n - 1 || le != 2) b_lit(&s, le == 1 ? "\r\n" : "\n"); if (SL[k].f == 1) chunk(&w, &sep, "q", "A"); if (SL[k].f == 2) chunk(&w, &sep, "q/d", "B\n"); }
  file("q/SUMMARY.md", s.p); int rc = CLI_RUN("--combine", "q/SUMMARY.md", "-o", "out"); sv_assert(rc == 0, M_CB); expect_str(OF.b.p ? OF.b.p : "", w.p, M_CB); sv_assert(!OF.open && !SO.b.n, "the output goes to the named file"); sv_cover("summary"); }
void h_m_out(void) { file("a.md", "A"); file("i.txt", "a.md\n"); int k = sv_choice(4), f = sv_choice(2), cm = sv_choice(2); OS *o = out_of(f); static const int N[] = {0, 1, 8, 9, 16, 17};
  if (k == 0) { no_open = "out"; int rc = cm ? CLI_RUN("--combine", "a.md", "-o", "out") : CLI_RUN("--mmd-merge", "i.txt", "-o", "out"); sv_assert(rc != 0, "output that cannot be written is reported"); sv_cover("out"); return; }
  if (k == 1) { int n = N[sv_choice(6)]; char *v[20]; int c = 0; v[c++] = cm ? "--combine" : "--mmd-merge"; B w = {0}; b_lit(&w, ""); int sep = 0; for (int i = 0; i < n; i++) { v[c++] = cm ? "a.md" : "i.txt"; if (cm) chunk(&w, &sep, ".", "A"); else b_lit(&w, "A\n\n"); } int rc = run(c, v); sv_assert(n ? rc == 0 : rc != 0, "merging needs files"); expect_str(SO.b.p ? SO.b.p : "", w.p, cm ? M_CB : M_MG); sv_cover("out"); return; }
  if (k == 3) { int rc = sv_choice(2) ? CLI_RUN("--mmd-merge", "nosuch.txt") : sv_choice(2) ? CLI_RUN("--combine", "SUMMARY.md") : CLI_RUN("--combine", "--mmd-merge", "a.md"); sv_assert(rc != 0, "a missing index is reported"); sv_cover("out"); return; }
  o->room = sv_choice(10); o->buffered = sv_choice(2); const char *want = cm ? "<.|A>" : "A\n\n"; int rc; if (f) rc = cm ? CLI_RUN("--combine", "a.md", "-o", "out") : CLI_RUN("--mmd-merge", "i.txt", "-o", "out"); else rc = cm ? CLI_RUN("--combine", "a.md") : CLI_RUN("--mmd-merge", "i.txt"); if (o->room < strlen(want)) sv_assert(rc != 0, "output that cannot be written is reported"); else { sv_assert(rc == 0, "output that cannot be written is reported"); expect_str(o->b.p, want, M_MG); } sv_cover("out"); }
