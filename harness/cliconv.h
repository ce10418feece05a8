/* The command line program with the real metadata code; the converter, libyaml, regex, git and the environment are stand-ins. */
#include "hl.h"
#include <time.h>
#include <regex.h>
#include <yaml.h>
#include "cli.h"
#include "metadata.h"
static const char *atom_end(const char *p) { if (*p == '[') { while (*p != ']') p++; return p + 1; } return *p == '\\' ? p + 2 : p + 1; }
static int atom(const char *p, char c) { if (!c) return 0; if (*p == '.') return 1; if (*p == '\\') return p[1] == 's' ? c == ' ' || (c >= 9 && c <= 13) : p[1] == c; if (*p == '[') { for (p++; *p != ']'; p++) { if (p[1] == '-' && p[2] != ']') { if (c >= p[0] && c <= p[2]) return 1; p += 2; } else if (*p == c) return 1; } return 0; } return *p == c; }
static const char *rx(const char *p, const char *s, int bol) { if (!*p) return s; if (*p == '^') return bol ? rx(p + 1, s, 0) : 0; if (*p == '$' && !p[1]) return *s ? 0 : s; const char *e = atom_end(p); if (*e == '*' || *e == '+' || *e == '?') { const char *m = s; size_t lim = *e == '?' ? 1 : (size_t)-1; while ((size_t)(m - s) < lim && atom(p, *m)) m++; for (;; m--) { if (*e == '+' && m == s) return 0; const char *r = rx(e + 1, m, 0); if (r) return r; if (m == s) return 0; } } return atom(p, *s) ? rx(e, s + 1, 0) : 0; }
int regcomp(regex_t *r, const char *p, int f) { if (*p == '(' || *p == '*') return 1; memset(r, 0, sizeof *r); *(char **)r = strdup(p); return 0; }
int regexec(const regex_t *r, const char *s, size_t n, regmatch_t *m, int f) { const char *p = *(char *const *)r; if (*p == '|') p++; for (const char *t = s;; t++) { const char *e = rx(p, t, t == s && !(f & REG_NOTBOL)); if (e) { m[0].rm_so = (int)(t - s); m[0].rm_eo = (int)(e - s); return 0; } if (!*t) return 1; } }
void regfree(regex_t *r) { free(*(char **)r); }
size_t strftime(char *b, size_t n, const char *f, const struct tm *t) { int k; if (!strcmp(f, "%Y")) k = snprintf(b, n, "%d", t->tm_year + 1900); else if (!strcmp(f, "%m/%d")) k = snprintf(b, n, "%02d/%02d", t->tm_mon + 1, t->tm_mday); else if (!strcmp(f, "%H:%M:%S")) k = snprintf(b, n, "%02d:%02d:%02d", t->tm_hour, t->tm_min, t->tm_sec); else if (!strcmp(f, "%w")) k = snprintf(b, n, "%d", t->tm_wday); else if (!strcmp(f, "%j")) k = snprintf(b, n, "%03d", t->tm_yday + 1); else k = snprintf(b, n, "%s", f); return k < (int)n ? k : 0; }
static const char *y_text; static size_t y_len; static int y_ok; static yaml_node_t y_node[24]; static int y_n;
int yaml_parser_initialize(yaml_parser_t *p) { return 1; }
void yaml_parser_delete(yaml_parser_t *p) {}
void yaml_parser_set_input_string(yaml_parser_t *p, const unsigned char *in, size_t n) { char *c = malloc(n + 1); memcpy(c, in, n); c[n] = 0; y_text = c; y_len = n; }
int yaml_parser_load(yaml_parser_t *p, yaml_document_t *d) { memset(d, 0, sizeof *d); if (!y_ok) return 0; y_ok = 0; return 1; }
yaml_node_t *yaml_document_get_root_node(yaml_document_t *d) { return y_n ? &y_node[0] : 0; }
yaml_node_t *yaml_document_get_node(yaml_document_t *d, int i) { return i > 0 && i <= y_n ? &y_node[i - 1] : 0; }
void yaml_document_delete(yaml_document_t *d) {}
static int y_scalar(const char *s) { yaml_node_t *n = &y_node[y_n++]; n->type = YAML_SCALAR_NODE; n->data.scalar.value = (yaml_char_t *)strdup(s); n->data.scalar.length = strlen(s); return y_n; }
static int y_coll(int map) { yaml_node_t *n = &y_node[y_n++]; n->type = map ? YAML_MAPPING_NODE : YAML_SEQUENCE_NODE; if (map) n->data.mapping.pairs.start = n->data.mapping.pairs.top = calloc(8, sizeof(yaml_node_pair_t)); else n->data.sequence.items.start = n->data.sequence.items.top = calloc(8, sizeof(yaml_node_item_t)); return y_n; }
static void y_pair(int m, int k, int v) { yaml_node_pair_t *p = y_node[m - 1].data.mapping.pairs.top++; p->key = k; p->value = v; }
static void y_item(int q, int v) { *y_node[q - 1].data.sequence.items.top++ = v; }
static apex_options base_o; /* defaults of every mode, but for the mode itself */
apex_options apex_options_for_mode(apex_mode_t m) { apex_options o = base_o; o.mode = m; return o; }
apex_options apex_options_default(void) { return apex_options_for_mode(APEX_MODE_UNIFIED); }
static char *cv_text; static size_t cv_len; static int cv_n, cv_fail; static apex_options cv_o; static char *cv_base, *cv_path, *cv_title; static const char *cv_out = "H";
static char *dup0(const char *s) { return s ? strdup(s) : 0; }
#ifdef CV_LISTS
void cv_lists(const apex_options *o);
#else
static void cv_lists(const apex_options *o) { (void)o; }
#endif
char *apex_markdown_to_html(const char *m, size_t n, const apex_options *o) { sv_assert(!cv_n, "the input is converted once"); cv_n++; cv_text = malloc(n + 1); memcpy(cv_text, m, n); cv_text[n] = 0; cv_len = n; sv_assert(m[n] == 0, "the text ends where it is said to end"); cv_o = *o; cv_base = dup0(o->base_directory); cv_path = dup0(o->input_file_path); cv_title = dup0(o->document_title); cv_lists(o); return cv_fail ? 0 : strdup(cv_out); }
const char *apex_version_string(void) { return "0"; } void apex_free_string(char *s) { free(s); }
char *apex_process_includes(const char *t, const char *base, apex_metadata_item *m, int depth) { (void)base; (void)m; (void)depth; return strdup(t); }
#ifndef CV_REMOTE
void *apex_remote_fetch_directory(const char *u) { (void)u; return 0; } void *apex_remote_fetch_filters_directory(const char *u) { (void)u; return 0; } char *apex_remote_fetch_json(const char *u) { (void)u; return 0; } void *apex_remote_find_plugin(void *l, const char *i) { (void)l; (void)i; return 0; } void apex_remote_free_plugins(void *l) { (void)l; } const char *apex_remote_plugin_repo(void *p) { (void)p; return 0; } const char *apex_remote_plugin_path(void *p) { (void)p; return 0; } void apex_remote_print_plugins_filtered(void *l, const char **a, size_t n, const char *k) { (void)l; (void)a; (void)n; (void)k; } char *apex_remote_extract_string(const char *o, const char *k) { (void)o; (void)k; return 0; }
int m_system(const char *c) { (void)c; sv_fail("nothing is run"); return 1; } int m_unlink(const char *p) { (void)p; sv_fail("nothing is removed"); return -1; }
#endif
static const char *wd = "w"; char *m_getcwd(char *b, size_t n) { snprintf(b, n, "%s", wd); return b; }
static const char *xdg, *home; char *m_getenv(const char *k) { if (!strcmp(k, "XDG_CONFIG_HOME")) return (char *)xdg; if (!strcmp(k, "HOME")) return (char *)home; return 0; }
static char gitobj; static int git_rc;
#ifndef CV_REMOTE
FILE *m_popen(const char *c, const char *m) { (void)m; sv_assert(starts(c, "git rev-parse --show-toplevel"), "nothing else is run"); return (FILE *)(git_pipe = &gitobj); } int m_pclose(FILE *f) { sv_assert(f == (FILE *)&gitobj, "the pipe is closed"); return git_rc; }
#endif
static void file(const char *n, const char *d) { sv_file(n, d, strlen(d)); }
