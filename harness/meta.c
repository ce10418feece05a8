//@src src/extensions/metadata.c
//@job C24 h_mmd_free quick=60 workers=4 bound="every text of at most 6 bytes that does not start with --- or %"
//@job C24 h_mmd_alpha quick=90 workers=8 bound="every text of at most 9 characters over a : space newline # carriage-return"
//@job C24 h_mmd_first quick=60 workers=6 bound="a first line out of 22 (headings, comments, definitions, lists, quotes, rows, links, keys) with 1 arbitrary byte, then 3 continuations"
//@job C24 h_mmd_block quick=60 workers=6 bound="1..3 metadata lines out of 9 kinds with 2 arbitrary bytes, 7 kinds of following text, with or without final newline"
//@job C02,C24 h_mmd_long quick=60 workers=3 bound="keys and values of 1..5000 bytes, 1..60 lines, in all three formats and in a file, one arbitrary byte"
//@job C24 h_yaml_block quick=60 workers=6 bound="an opening line, 0..3 lines out of 12 and 3 arbitrary bytes, 10 closing lines, following text"
//@job C24 h_yaml_simple quick=60 workers=6 bound="front matter that libyaml refuses: 2 lines of 5 characters over a : quote apostrophe space"
//@job C24 h_yaml_tree quick=60 workers=4 bound="documents of 0..3 entries: scalars, lists of 0..3 scalars, nested maps, lists of maps, cycles; keys of up to 600 bytes"
//@job C24 h_pandoc quick=60 workers=4 bound="% lines: every text of at most 8 characters over % a space newline; up to 4 title lines with 2 arbitrary bytes"
//@job C24 h_file quick=60 workers=4 bound="files in the three formats with 2 arbitrary bytes, with or without closing marker and final newline; a missing file"
//@job C25 h_var_free quick=60 workers=6 bound="every text of at most 7 characters over [ % ] k space newline, metadata k"
//@job C25 h_var_key quick=60 workers=4 bound="[%KEY] with a key of at most 4 characters over k K space x, two items, text with 2 arbitrary bytes around"
//@job C02,C25 h_var_long quick=60 workers=4 bound="1..200 variables, values of 0..3000 bytes, texts and patterns of up to 2000 bytes"
//@job C25 h_tr_map quick=90 workers=8 bound="upper lower title capitalize trim slug reverse length html_escape urlencode urldecode basename of every value of at most 4 bytes"
//@job C25 h_tr_str quick=90 workers=8 bound="prefix suffix remove contains default replace with options of at most 3 characters, every value of at most 4 characters over 5"
//@job C25 h_tr_num quick=90 workers=8 bound="substr truncate repeat pad slice with every pair of numbers out of 14 incl. negative, huge and missing ones; 6 values incl. UTF-8"
//@job C25 h_tr_arr quick=90 workers=8 bound="split join first last slice chains on every value of at most 5 characters over a b , space"
//@job C25 h_tr_rx quick=60 workers=6 bound="split and replace(regex:) with 12 patterns incl. ones that match nothing, every value of at most 4 characters over a b 1 space"
//@job C25 h_tr_fmt quick=60 workers=4 bound="format strings of at most 4 characters over % s n d f . 5 *, strftime of 12 dates with 8 formats"
//@job C25 h_tr_chain quick=60 workers=6 bound="every chain of two transforms out of 14 on 4 values"
//@job C02,C25 h_var_sizes quick=60 workers=4 bound="1..3 variables with values of every length 500..530 (the result buffer's size and around it), known or too long unknown keys, 3 lengths of text around"
//@job C02,C25 h_tr_many quick=60 workers=4 bound="split and join of every number 1..20 of items by comma, pattern or character, replace (plain and regular) of 1..20 matches by texts of 1..40 bytes, one arbitrary byte"
//@job C26 h_kv quick=90 workers=8 bound="every --meta argument of at most 7 characters over a = , space quote apostrophe"
//@job C26 h_kv_list quick=60 workers=4 bound="1..3 pairs, 6 kinds of value with 1 arbitrary byte, separators with and without spaces"
//@job C26 h_get quick=60 workers=4 bound="lists of 3 items, two with keys of at most 2 characters over a A space b, and a looked-up key of at most 3"
//@job C26 h_merge quick=90 workers=6 bound="three lists of 0..2 items, keys out of a, A, b, a b, ab, lists possibly absent"
//@job C27 h_opt quick=90 workers=8 bound="every documented key (any case), every value of at most 5 bytes, options initially all set or all clear"
//@job C27 h_opt_str quick=60 workers=4 bound="every documented string option, values out of 12 with an arbitrary byte"
//@job C27 h_opt_mode quick=60 workers=2 bound="mode in any position among other keys, 8 mode names with an arbitrary byte"
#include "hl.h"
#include <time.h>
#include <regex.h>
#include <yaml.h>
#include "apex/apex.h"
#include "metadata.h"
/* ---- stand-ins (both sides): mode defaults, regex, strftime, libyaml ---- */
apex_options apex_options_for_mode(apex_mode_t m) { apex_options o; memset(&o, 0, sizeof o); o.mode = m; o.caption_position = 42; return o; }
static const char *atom_end(const char *p) { if (*p == '[') { while (*p != ']') p++; return p + 1; } return *p == '\\' ? p + 2 : p + 1; }
static int atom(const char *p, char c) { if (!c) return 0; if (*p == '.') return 1; if (*p == '\\') return p[1] == 's' ? c == ' ' || (c >= 9 && c <= 13) : p[1] == c; if (*p == '[') { for (p++; *p != ']'; p++) { if (p[1] == '-' && p[2] != ']') { if (c >= p[0] && c <= p[2]) return 1; p += 2; } else if (*p == c) return 1; } return 0; } return *p == c; }
static const char *rx(const char *p, const char *s, int bol) { if (!*p) return s; if (*p == '^') return bol ? rx(p + 1, s, 0) : 0; if (*p == '$' && !p[1]) return *s ? 0 : s; const char *e = atom_end(p); if (*e == '*' || *e == '+' || *e == '?') { const char *m = s; size_t lim = *e == '?' ? 1 : (size_t)-1; while ((size_t)(m - s) < lim && atom(p, *m)) m++; for (;; m--) { if (*e == '+' && m == s) return 0; const char *r = rx(e + 1, m, 0); if (r) return r; if (m == s) return 0; } } return atom(p, *s) ? rx(e, s + 1, 0) : 0; }
int regcomp(regex_t *r, const char *p, int f) { if (*p == '(' || *p == '*') return 1; memset(r, 0, sizeof *r); *(char **)r = strdup(p); return 0; }
int regexec(const regex_t *r, const char *s, size_t n, regmatch_t *m, int f) { const char *p = *(char *const *)r; if (*p == '|') p++; for (const char *t = s;; t++) { const char *e = rx(p, t, t == s && !(f & REG_NOTBOL)); if (e) { m[0].rm_so = (int)(t - s); m[0].rm_eo = (int)(e - s); return 0; } if (!*t) return 1; } }
void regfree(regex_t *r) { free(*(char **)r); }
size_t strftime(char *b, size_t n, const char *f, const struct tm *t) { int k; if (!strcmp(f, "%Y")) k = snprintf(b, n, "%d", t->tm_year + 1900); else if (!strcmp(f, "%m/%d")) k = snprintf(b, n, "%02d/%02d", t->tm_mon + 1, t->tm_mday); else if (!strcmp(f, "%H:%M:%S")) k = snprintf(b, n, "%02d:%02d:%02d", t->tm_hour, t->tm_min, t->tm_sec); else if (!strcmp(f, "%w")) k = snprintf(b, n, "%d", t->tm_wday); else if (!strcmp(f, "%j")) k = snprintf(b, n, "%03d", t->tm_yday + 1); else k = snprintf(b, n, "%s", f); return k < (int)n ? k : 0; }
static const char *y_text; static size_t y_len; static int y_ok; static yaml_node_t y_node[24]; static int y_n;
int yaml_parser_initialize(yaml_parser_t *p) { return 1; }
void yaml_parser_delete(yaml_parser_t *p) {}
void yaml_parser_set_input_string(yaml_parser_t *p, const unsigned char *in, size_t n) { char *c = malloc(n + 1); memcpy(c, in, n); c[n] = 0; y_text = c; y_len = n; }
int yaml_parser_load(yaml_parser_t *p, yaml_document_t *d) { memset(d, 0, sizeof *d); return y_ok; }
yaml_node_t *yaml_document_get_root_node(yaml_document_t *d) { return y_n ? &y_node[0] : 0; }
yaml_node_t *yaml_document_get_node(yaml_document_t *d, int i) { return i > 0 && i <= y_n ? &y_node[i - 1] : 0; }
void yaml_document_delete(yaml_document_t *d) {}
static int y_scalar(const char *s) { yaml_node_t *n = &y_node[y_n++]; n->type = YAML_SCALAR_NODE; n->data.scalar.value = (yaml_char_t *)strdup(s); n->data.scalar.length = strlen(s); return y_n; }
static int y_coll(int map) { yaml_node_t *n = &y_node[y_n++]; n->type = map ? YAML_MAPPING_NODE : YAML_SEQUENCE_NODE; if (map) n->data.mapping.pairs.start = n->data.mapping.pairs.top = calloc(8, sizeof(yaml_node_pair_t)); else n->data.sequence.items.start = n->data.sequence.items.top = calloc(8, sizeof(yaml_node_item_t)); return y_n; }
static void y_pair(int m, int k, int v) { yaml_node_pair_t *p = y_node[m - 1].data.mapping.pairs.top++; p->key = k; p->value = v; }
static void y_item(int q, int v) { *y_node[q - 1].data.sequence.items.top++ = v; }

/* ---- reference ---- */
static int sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static int dig(char c) { return c >= '0' && c <= '9'; }
static int alnum(char c) { return dig(c) || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
typedef struct { char *k, *v; } kv; static kv W[80]; static int nW;
static char *cut(const char *s, const char *e) { while (s < e && sp(*s)) s++; while (e > s && sp(e[-1])) e--; char *r = malloc(e - s + 1); memcpy(r, s, e - s); r[e - s] = 0; return r; }
static void want(char *k, char *v) { W[nW].k = k; W[nW].v = v; nW++; }
static int find(const char *s, const char *e, const char *w) { size_t n = strlen(w); for (; s + n <= e; s++) if (!strncmp(s, w, n)) return 1; return 0; }
static int mmd_line(const char *s0, const char *e) { const char *s = s0; while (s < e && sp(*s)) s++; while (e > s && sp(e[-1])) e--; if (s == e) return 0; if (!alnum(*s) && *s != '_' && (unsigned char)*s < 128) return 0; if (find(s, e, "{i:")) return 0; const char *d = s; while (d < e && dig(*d)) d++; if (d > s && d + 1 < e && (*d == '.' || *d == ')') && (d[1] == ' ' || d[1] == '\t')) return 0; const char *c = s; while (c < e && *c != ':') c++; if (c == e || c + 1 == e || (c[1] != ' ' && c[1] != '\t')) return 0; if (find(s, e, "[!") || (find(s, e, "[") && find(s, e, "]("))) return 0; for (const char *x = s; x < c; x++) if (*x == '<') return 0; want(cut(s, c), cut(c + 1, e)); return 1; }
static const char *mmd(const char *t) { const char *p = t; nW = 0; for (; *p;) { const char *e = p; while (*e && *e != '\n') e++; const char *nx = *e ? e + 1 : e; int blank = 1; for (const char *x = p; x < e; x++) if (!sp(*x)) blank = 0; if (!nW) { if (!*e) return t; if (blank) { p = nx; continue; } if (!mmd_line(p, e)) return t; } else { if (blank) return nx; if (!mmd_line(p, e)) return p; } p = nx; } return nW ? p : t; }
static void check_items(apex_metadata_item *m) { int n = 0; for (apex_metadata_item *i = m; i; i = i->next) n++; sv_assert(n == nW, "the metadata holds exactly the keys of the block"); for (int i = 0; i < nW; i++) { int f = 0; for (apex_metadata_item *x = m; x; x = x->next) if (!strcmp(x->key, W[i].k) && !strcmp(x->value, W[i].v)) f = 1; sv_assert(f, "every key has the value the block gives it"); } if (nW) { int j = nW - 1; expect_str(apex_metadata_get(m, W[j].k), W[j].v, "the last definition of a key counts"); } }
static void doc(char *in, const char *rest) { char *keep = strdup(rest), *p = in; int meta = nW; kv s[80]; memcpy(s, W, sizeof s); apex_metadata_item *m = apex_extract_metadata(&p); check_items(m); expect_str(p, keep, "the text after the metadata is kept, all of it and nothing else removed"); sv_cover(meta ? "metadata" : "none"); apex_free_metadata(m); }
static void mmd_doc(char *in) { sv_assume(!starts(in, "---") && *in != '%'); doc(in, mmd(in)); }
void h_mmd_free(void) { B b = {0}; b_sym(&b, 5 + SV_TIER); mmd_doc(b_done(&b)); }
void h_mmd_alpha(void) { B b = {0}; b_in0(&b, 8 + SV_TIER, "a: \n#\r"); mmd_doc(b_done(&b)); }
void h_mmd_first(void) { static const char *F[] = {"# Head", "<!-- c: d -->", "*[HTML]: Hyper", "[>A]: Abbr", "{::comment}", "{: .a b: c}", "{{TOC}}", "- item: x", "1. item: x", "12) item: x", "> quote: x", "| a: b |", "[ref]: url", "[^1]: note", "![a](b): c", "see [a](b): c", "plain text", "http://a.b: c", "<a:b>: c", "Key: value", "Website: http://x.y", "\xc3\xa9t\xc3\xa9: v"}, *T[] = {"\nKey: v\n\nbody: x\n", "\n\nKey: v\nbody\n", "\nbody"}; B b = {0}; const char *f = F[sv_choice(22)]; int at = sv_choice(3); if (at == 0) b_sym(&b, 1); b_lit(&b, f); if (at == 1) b_sym(&b, 1); if (at == 2) b_lit(&b, sv_choice(2) ? "{i:" : " [!"); b_lit(&b, T[sv_choice(3)]); mmd_doc(b_done(&b)); }
void h_mmd_block(void) { static const char *L[] = {"Title: A", "Quotes Language: de", "a:b", "key:\tv", "k: ", " in: dented", "Title: B: C", "url: http://a/b", "k : v"}, *T[] = {"", "\n", "\nBody", "Body", "# Head\n", "* list: x\n", " \r\n\r\nx: y\n"}; B b = {0}; int n = 1 + sv_choice(3), at = sv_choice(4); for (int i = 0; i < n; i++) { if (i) b_c(&b, '\n'); b_lit(&b, L[sv_choice(i == 2 ? 2 : 9)]); if (at == i) b_sym(&b, n == 3 && SV_TIER == 1 ? 1 : 2); } if (sv_choice(2)) b_c(&b, '\n'); b_lit(&b, T[sv_choice(7)]); mmd_doc(b_done(&b)); }
void h_mmd_long(void) { static const int L[] = {1, 510, 1022, 1023, 1024, 5000}, N[] = {1, 2, 60}; int kind = sv_choice(4), kl = L[sv_choice(6)], vl = L[sv_choice(6)], n = N[sv_choice(3)]; sv_assume(n < 60 || (kl < 600 && vl < 600)); if (kind == 1) n = 1; B b = {0}, k = {0}, v = {0}; b_fill(&k, 'k', kl); b_fill(&v, 'v', vl); b_not(&v, 1, "\n \t\r\f\v\"'"); char *ks = b_done(&k), *vs = b_done(&v); y_ok = 0; y_n = 0; nW = 0; if (kind == 2 || kind == 3) b_lit(&b, "---\n"); for (int i = 0; i < n; i++) { if (kind == 1) { b_lit(&b, "% "); b_lit(&b, vs); b_lit(&b, "\n"); want("title", vs); } else { char t[8]; snprintf(t, 8, "x%d", i); b_lit(&b, t); b_lit(&b, ks); b_lit(&b, ": "); b_lit(&b, vs); b_c(&b, '\n'); char *kk = malloc(kl + 8); strcpy(kk, t); strcat(kk, ks); want(kk, vs); } } b_lit(&b, kind >= 2 ? "---\n" : "\n"); b_lit(&b, kind == 1 ? "body" : "Body: x\n"); if (kind == 3) { char *f = b_done(&b); sv_file("m.yml", f, strlen(f)); apex_metadata_item *m = apex_load_metadata_from_file("m.yml"); check_items(m); return; } doc(b_done(&b), kind == 1 ? "\nbody" : "Body: x\n"); }
/* YAML */
static int marker(const char *s, const char *e, int dots) { if (e - s < 3) return 0; if (strncmp(s, "---", 3) && (!dots || strncmp(s, "...", 3))) return 0; for (s += 3; s < e; s++) if (!sp(*s)) return 0; return 1; }
static int yblock(const char *t, const char **a, const char **z, const char **r) { const char *p = t; int op = 0; while (*p) { const char *e = p; while (*e && *e != '\n') e++; const char *nx = *e ? e + 1 : e; if (!op) { if (!marker(p, e, 0)) return 0; op = 1; *a = nx; } else if (marker(p, e, 1)) { *z = p; *r = nx; return 2; } p = nx; } *z = *r = p; return op; }
static void ylines(const char *a, const char *z) { while (a < z) { const char *e = a; while (e < z && *e != '\n') e++; const char *c = a; while (c < e && *c != ':') c++; if (c < e) { char *k = cut(a, c), *v = cut(c + 1, e); size_t n = strlen(v); if (n >= 2 && (*v == '"' || *v == '\'') && v[n - 1] == *v) { v[n - 1] = 0; v++; n = strlen(v); while (n && sp(v[n - 1])) n--; int any = 0; for (char *x = v; *x; x++) if (!sp(*x)) any = 1; if (any) v[n] = 0; } if (*k) want(k, v); } a = e < z ? e + 1 : z; } }
static void yaml(char *in, int lib) { sv_assume(starts(in, "---")); const char *a = 0, *z = 0, *r = 0; int k = yblock(in, &a, &z, &r); nW = 0; y_ok = lib; y_n = 0; if (k == 2 && lib) { int m = y_coll(1); y_pair(m, y_scalar("lib"), y_scalar("yes")); want("lib", "yes"); } else if (k == 2) ylines(a, z); char *block = 0; if (k == 2) { block = malloc(z - a + 1); memcpy(block, a, z - a); block[z - a] = 0; } y_text = 0; doc(in, k == 2 && nW ? r : in); if (k == 2) { sv_assert(y_text != 0, "front matter goes to the YAML parser"); size_t n = strlen(block); sv_assert(y_len <= n + 1 && y_len + 1 >= n, "exactly the lines between the markers are YAML"); sv_assert_mem_eq(y_text, block, y_len < n ? y_len : n, "exactly the lines between the markers are YAML"); } sv_cover(k == 2 ? "block" : k == 1 ? "open" : "no"); }
void h_yaml_block(void) { static const char *O[] = {"---\n", "--- \n", "---", "----\n", "---a\n", "---\r\n"}, *L[] = {"a: b\n", "# c: d\n", "x: |\n  ---\n", " ---\n", "----\n", "--- a\n", "...x\n", "\n", "k: \"q\"\n", "title: x\r\n", "a\n", ": v\n"}, *C[] = {"---\n", "---", "...\n", "...", "--- \n", "---\r\n", "--\n", "", "-----\n", "---\nBody: x\n---\n"}; B b = {0}; b_lit(&b, O[sv_choice(6)]); int n = sv_choice(3), at = sv_choice(3); for (int i = 0; i < n; i++) { b_lit(&b, L[sv_choice(12)]); if (at == i) b_sym(&b, 1); } if (at == n) b_sym(&b, n == 2 && SV_TIER == 1 ? 1 : 2); b_lit(&b, C[sv_choice(10)]); if (sv_choice(2)) b_lit(&b, "Body\n"); yaml(b_done(&b), sv_choice(2)); }
void h_yaml_simple(void) { B b = {0}; b_lit(&b, "---\n"); b_in(&b, 5, "a:\"' "); b_c(&b, '\n'); b_in(&b, 3, "b:\" "); b_lit(&b, "\n---\nBody"); yaml(b_done(&b), 0); }
void h_yaml_tree(void) { static const int K[] = {1, 5, 300, 600}; y_n = 0; nW = 0; y_ok = 1; int kl = K[sv_choice(4)], n = sv_choice(kl > 5 && SV_TIER == 1 ? 3 : 4); int m = y_coll(1); for (int i = 0; i < n; i++) { B k = {0}; b_c(&k, 'a' + i); b_fill(&k, 'k', kl); char *ks = b_done(&k); int kn = y_scalar(ks); B v = {0}; b_sym(&v, 1); char *vs = b_done(&v), *t, *u; size_t un = kl + 40; switch (sv_choice(5)) {
  case 0: y_pair(m, kn, y_scalar(vs)); want(ks, vs); break;
  case 1: { int q = y_coll(0), c = sv_choice(4); B j = {0}; b_lit(&j, ""); for (int x = 0; x < c; x++) { if (x) b_lit(&j, ", "); const char *w = x == 1 ? vs : "item"; b_lit(&j, w); y_item(q, y_scalar(w)); } y_pair(m, kn, q); if (c) want(ks, j.p); break; }
  case 2: { int q = y_coll(1); y_pair(q, y_scalar("sub"), y_scalar(vs)); y_pair(m, kn, q); u = malloc(un); snprintf(u, un, "%s.sub", ks); want(u, vs); break; }
  case 3: { int q = y_coll(0), z = y_coll(1); y_item(q, y_scalar(vs)); y_pair(z, y_scalar("sub"), y_scalar("w")); y_item(q, z); y_pair(m, kn, q); u = malloc(un); snprintf(u, un, "%s.0", ks); want(u, vs); t = malloc(un); snprintf(t, un, "%s.1.sub", ks); want(t, "w"); break; }
  default: { int q = y_coll(1); y_pair(q, y_scalar("self"), q); y_pair(m, kn, q); break; } } }
  char *in = strdup("---\nx\n---\nBody"); doc(in, nW ? "Body" : in); }
void h_pandoc(void) { B b = {0}; if (sv_choice(2)) { b_c(&b, '%'); b_in0(&b, 7, "%a \n"); } else { b_lit(&b, "% T"); b_sym(&b, 1); b_lit(&b, "\n"); static const char *L[] = {"% A\n", "%\n", " % x\n", "text\n", "% D", ""}; b_lit(&b, L[sv_choice(6)]); b_lit(&b, L[sv_choice(6)]); b_sym(&b, 1); b_lit(&b, L[sv_choice(6)]); } char *in = b_done(&b); static char *K[] = {"title", "author", "date"}; nW = 0; const char *p = in; for (int i = 0; i < 3 && *p; i++) { const char *e = p; while (*e && *e != '\n') e++; const char *s = p; while (s < e && sp(*s)) s++; if (s == e || *s != '%') break; char *v = cut(s + 1, e); if (*v) want(K[i], v); p = *e ? e + 1 : e; } doc(in, nW ? p : in); }
void h_file(void) { static const char *F[] = {"Language: de\nQuotes Language: german", "---\nlanguage: fr", "% T\n% A", "k: v\n"}, *E[] = {"", "\n", "\n---\n", "\n...", "\n\nrest: x\n"}; B b = {0}; b_lit(&b, F[sv_choice(4)]); b_sym(&b, 2); b_lit(&b, E[sv_choice(5)]); char *in = b_done(&b); y_ok = 0; y_n = 0; if (sv_choice(2)) { sv_file("m.yml", in, strlen(in)); apex_metadata_item *m = apex_load_metadata_from_file("m.yml"); B t = {0}; b_lit(&t, in); if (t.n && t.p[t.n - 1] != '\n') b_c(&t, '\n'); nW = 0; if (starts(in, "---")) { const char *a, *z, *r; if (yblock(t.p, &a, &z, &r)) ylines(a, z); } else if (*in == '%') { static char *K[] = {"title", "author", "date"}; const char *p = t.p; for (int i = 0; i < 3 && *p; i++) { const char *e = p; while (*e && *e != '\n') e++; const char *s = p; while (s < e && sp(*s)) s++; if (s == e || *s != '%') break; char *v = cut(s + 1, e); if (*v) want(K[i], v); p = *e ? e + 1 : e; } } else mmd(t.p); check_items(m); } else sv_assert(!apex_load_metadata_from_file("none.yml"), "a missing file gives no metadata"); }
/* ---- variables ---- */
static int norm_eq(const char *a, const char *b) { for (;;) { while (*a && sp(*a)) a++; while (*b && sp(*b)) b++; char x = *a, y = *b; if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; if (x != y) return 0; if (!x) return 1; a++; b++; } }
static apex_metadata_item *item(const char *k, const char *v, apex_metadata_item *next) { apex_metadata_item *i = malloc(sizeof *i); i->key = strdup(k); i->value = strdup(v); i->next = next; return i; }
static apex_options opt(int tr) { apex_options o; memset(&o, 0, sizeof o); o.enable_metadata_transforms = tr; return o; }
void h_var_free(void) { B b = {0}; b_in0(&b, 7 + SV_TIER, "[%]k \n"); char *in = b_done(&b); apex_metadata_item *m = item("k", "V", 0); apex_options o = opt(sv_choice(2)); B w = {0}; b_lit(&w, ""); int hit = 0; for (const char *p = in; *p;) { if (p[0] == '[' && p[1] == '%') { const char *e = p + 2; int d = 1; for (; *e; e++) { if (*e == '[') d++; if (*e == ']' && !--d) break; } if (*e) { char *k = malloc(e - p); memcpy(k, p + 2, e - p - 2); k[e - p - 2] = 0; if (norm_eq(k, "k")) { b_c(&w, 'V'); hit = 1; } else b_mem(&w, p, e + 1 - p); p = e + 1; continue; } } b_c(&w, *p++); } expect_str(apex_metadata_replace_variables(in, m, &o), w.p, "[%key] becomes the value, everything else stays"); sv_cover(hit ? "replaced" : "same"); }
void h_var_key(void) { B b = {0}; b_not(&b, 1, "["); b_lit(&b, "[%"); B k = {0}; b_in0(&k, 4, "kK x"); char *ks = b_done(&k); b_lit(&b, ks); b_c(&b, ']'); b_not(&b, 1, "["); b_lit(&b, "[%zz]"); char *in = b_done(&b); apex_metadata_item *m = item("x k", "one", item("kk", "two", item("k", "[%kk]", 0))); apex_options o = opt(sv_choice(2)); const char *v = !*ks ? 0 : norm_eq(ks, "xk") ? "one" : norm_eq(ks, "kk") ? "two" : norm_eq(ks, "k") ? "[%kk]" : 0; B w = {0}; b_c(&w, in[0]); if (v) b_lit(&w, v); else { b_lit(&w, "[%"); b_lit(&w, ks); b_c(&w, ']'); } b_c(&w, in[4 + strlen(ks)]); b_lit(&w, "[%zz]"); expect_str(apex_metadata_replace_variables(in, m, &o), w.p, "keys match ignoring case and spaces; unknown keys stay"); }
void h_var_long(void) { static const int N[] = {1, 7, 200}, V[] = {0, 1, 511, 3000}, T[] = {0, 3, 600, 2000}; int n = N[sv_choice(3)], v = V[sv_choice(4)], t = T[sv_choice(4)], long_pat = sv_choice(2); sv_assume(n < 200 || (v < 600 && t < 600)); B val = {0}; b_fill(&val, 'v', v); b_sym(&val, 1); char *vs = b_done(&val); B b = {0}, w = {0}; for (int i = 0; i < n; i++) { b_fill(&b, 't', t); b_fill(&w, 't', t); if (long_pat && i % 2) { b_lit(&b, "[%"); b_fill(&b, 'k', t); b_c(&b, ']'); b_lit(&w, "[%"); b_fill(&w, 'k', t); b_c(&w, ']'); if (t == 1) return; } else { b_lit(&b, "[%k]"); b_lit(&w, vs); } } b_fill(&b, 'e', t); b_fill(&w, 'e', t); apex_options o = opt(1); expect_str(apex_metadata_replace_variables(b_done(&b), item("k", vs, 0), &o), w.p, "values and texts of every length are inserted in full"); }
/* ---- transforms ---- */
static char *tr(const char *val, const char *chain) { B b = {0}; b_lit(&b, "[%k:"); b_lit(&b, chain); b_c(&b, ']'); apex_options o = opt(1); char *r = apex_metadata_replace_variables(b_done(&b), item("k", val, 0), &o); sv_assert(r != 0, "a transform always gives a result"); return r; }
static char up(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; } static char lo(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int cont(char c) { return ((unsigned char)c & 0xC0) == 0x80; }
static const char *skip(const char *s, long n) { while (n > 0 && *s) { s++; while (cont(*s)) s++; n--; } return s; }
static long nch(const char *s) { long n = 0; while (*s) { s = skip(s, 1); n++; } return n; }
static int hx(char c) { return dig(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
void h_tr_map(void) { static const char *N[] = {"upper", "lower", "title", "capitalize", "trim", "slug", "slugify", "reverse", "length", "html_escape", "escape", "urlencode", "urldecode", "basename", "nosuch"}; int k = sv_choice(15); B b = {0}; b_sym(&b, k == 7 || k == 8 ? 3 : k == 11 ? 2 : k == 12 ? 3 : 3 + (SV_TIER > 1)); char *v = b_done(&b); if (k == 12) { /* one path per hex number */ for (char *p = v; *p; p++) sv_assume(*p == '%' || *p == '+' || (*p >= '3' && *p <= '4') || *p == 'b' || *p == 'G'); } char *r = tr(v, N[k]); B w = {0}; b_lit(&w, "");
  switch (k) { case 0: for (char *p = v; *p; p++) b_c(&w, up(*p)); break; case 1: for (char *p = v; *p; p++) b_c(&w, lo(*p)); break; case 2: for (char *p = v; *p; p++) b_c(&w, p == v || sp(p[-1]) ? up(*p) : lo(*p)); break; case 3: b_lit(&w, v); if (*v) w.p[0] = up(*v); break; case 4: b_lit(&w, cut(v, v + strlen(v))); break;
  case 5: case 6: for (char *p = v; *p; p++) { if (alnum(*p)) b_c(&w, lo(*p)); else if ((sp(*p) || *p == '_') && !(w.n && w.p[w.n - 1] == '-') ) b_c(&w, '-'); } while (w.n && w.p[w.n - 1] == '-') w.p[--w.n] = 0; break;
  case 7: { long n = nch(v); while (n--) { const char *s = skip(v, n); b_mem(&w, s, skip(s, 1) - s); } break; } case 8: { char t[16]; snprintf(t, 16, "%ld", nch(v)); b_lit(&w, t); break; }
  case 9: case 10: for (char *p = v; *p; p++) { if (*p == '&') b_lit(&w, "&amp;"); else if (*p == '<') b_lit(&w, "&lt;"); else if (*p == '>') b_lit(&w, "&gt;"); else if (*p == '"') b_lit(&w, "&quot;"); else if (*p == '\'') b_lit(&w, "&#39;"); else b_c(&w, *p); } break;
  case 11: for (char *p = v; *p; p++) { if (alnum(*p) || *p == '-' || *p == '_' || *p == '.' || *p == '~') b_c(&w, *p); else { unsigned char c = *p; b_c(&w, '%'); b_c(&w, "0123456789ABCDEF"[c >> 4]); b_c(&w, "0123456789ABCDEF"[c & 15]); } } break;
  case 12: for (char *p = v; *p; p++) { if (*p == '%' && hx(p[1]) >= 0 && hx(p[2]) >= 0) { b_c(&w, (char)(hx(p[1]) * 16 + hx(p[2]))); p += 2; } else b_c(&w, *p == '+' ? ' ' : *p); } break;
  case 13: { char *s = v; for (char *p = v; *p; p++) if (*p == '/') s = p + 1; b_lit(&w, s); break; } default: b_lit(&w, v); } expect_str(r, w.p, "the transform gives the documented result"); }
void h_tr_str(void) { static const char *N[] = {"prefix", "suffix", "remove", "contains", "default", "replace"}; int k = sv_choice(6); B o = {0}, b = {0}; b_in0(&o, 3, "ab,:"); b_in0(&b, 4, "ab, "); char *os = b_done(&o), *v = b_done(&b); b_lit(&b, N[k]); b_c(&b, '('); b_lit(&b, os); b_c(&b, ')'); char *ch = b_done(&b), *r = tr(v, ch); B w = {0}; b_lit(&w, "");
  switch (k) { case 0: b_lit(&w, os); b_lit(&w, v); break; case 1: b_lit(&w, v); b_lit(&w, os); break; case 2: for (char *p = v; *p;) { if (*os && starts(p, os)) p += strlen(os); else b_c(&w, *p++); } break; case 3: b_lit(&w, has(v, os) ? "true" : "false"); break; case 4: b_lit(&w, *v ? v : os); break;
  default: { char *c = strchr(os, ','); if (!c || c == os) b_lit(&w, v); else { *c = 0; for (char *p = v; *p;) { if (starts(p, os)) { b_lit(&w, c + 1); p += strlen(os); } else b_c(&w, *p++); } } } } expect_str(r, w.p, "the transform gives the documented result"); }
static const char *NUM[] = {"0", "1", "2", "3", "5", "7", "-1", "-2", "-7", "9223372036854775807", "-9223372036854775808", "1048577", "", "x"}; static long val(int i) { static const long V[] = {0, 1, 2, 3, 5, 7, -1, -2, -7, 0x7fffffffffffffffL, -0x7fffffffffffffffL - 1, 1048577}; return V[i]; }
void h_tr_num(void) { static const char *N[] = {"substr", "substring", "truncate", "repeat", "pad", "slice"}, *V[] = {"", "a", "Hello", "h\xc3\xa9llo", "\xe2\x82\xac\xf0\x9f\x98\x80", "abcdefg"}; int k = sv_choice(6), i = sv_choice(14), two = sv_choice(2), j = two ? sv_choice(14) : 12; const char *v = V[sv_choice(6)]; B b = {0}; b_lit(&b, N[k]); b_c(&b, '('); b_lit(&b, NUM[i]); if (two) { b_c(&b, ','); if (k == 2 && j == 13) b_lit(&b, "\xe2\x80\xa6"); else b_lit(&b, NUM[j]); } b_c(&b, ')'); char *ch = b_done(&b), *r = tr(v, ch); if (i >= 12) { expect_str(r, v, "a transform without a number changes nothing"); return; } long a = val(i), len = nch(v); B w = {0}; b_lit(&w, ""); const char *s;
  switch (k) { case 0: case 1: { long st = a < 0 ? len + a : a, en = j >= 12 ? len : val(j) < 0 ? len + val(j) : val(j); if (st < 0) st = 0; if (en > len) en = len; if (st < en) { s = skip(v, st); b_mem(&w, s, skip(s, en - st) - s); } break; }
  case 2: { const char *sf = !two || j == 12 ? "" : j == 13 ? "\xe2\x80\xa6" : NUM[j]; if (a < 0 || len <= a) b_lit(&w, v); else { long sl = nch(sf), kp = a > sl ? a - sl : a; b_mem(&w, v, skip(v, kp) - v); b_lit(&w, sf); } break; }
  case 3: { if (a <= 0 || a > 1000) b_lit(&w, *v ? v : ""); else for (long x = 0; x < a; x++) b_lit(&w, v); break; }
  case 4: { char pc = two && j != 12 ? (j == 13 ? 'x' : NUM[j][0]) : ' '; if (a > len && a <= 1000) b_fill(&w, pc, a - len); b_lit(&w, v); break; }
  default: { long st = a < 0 ? 0 : a, n = j >= 12 || val(j) < 0 ? len : val(j); if (st < len) { s = skip(v, st); b_mem(&w, s, skip(s, n > len - st ? len - st : n) - s); } break; } }
  expect_str(r, w.p, "numbers count characters; out of range ones are harmless"); }
static char *tok(const char *v, int n, int *cnt) { char *res = 0; int c = 0; const char *p = v; for (;;) { const char *e = p; while (*e && *e != ',') e++; char *t = cut(p, e); if (*t) { if (c == n) res = t; c++; } if (!*e) break; p = e + 1; } *cnt = c; if (!c) { *cnt = 1; return n == 0 ? strdup(v) : 0; } return res; }
void h_tr_arr(void) { B b = {0}; b_in0(&b, 5 + (SV_TIER > 1), "ab, "); char *v = b_done(&b); static const char *N[] = {"split(,)", "split(,):first", "split(,):last", "first", "last", "split(,):join(|)", "join(-)", "join", "split(,):slice(1,1):join(;)", "split(,):slice(0,2):join(;)", "split(,):first:upper", "split(,):last:prefix(<)", "split(,):slice(1):first"}; int k = sv_choice(13), n; char *r = tr(v, N[k]); B w = {0}; b_lit(&w, ""); char *t0 = tok(v, 0, &n), *tl = tok(v, n - 1, &n); const char *sep = k == 5 ? "|" : k == 6 ? "-" : k == 7 ? ", " : ";"; int from = 0, to = n;
  switch (k) { case 0: case 1: case 3: b_lit(&w, t0); break; case 2: case 4: b_lit(&w, tl); break; case 10: for (char *p = t0; *p; p++) b_c(&w, up(*p)); break; case 11: b_lit(&w, "<"); b_lit(&w, tl); break; case 12: if (n > 1) b_lit(&w, tok(v, 1, &n)); else return; break; default: if (k == 8) { from = 1; to = 2; if (n < 2) return; } if (k == 9) to = 2; if (to > n) to = n; for (int i = from; i < to; i++) { if (i > from) b_lit(&w, sep); b_lit(&w, tok(v, i, &n)); } } expect_str(r, w.p, "array transforms work on the parts of the value"); sv_cover(n > 1 ? "several" : "one"); }
void h_tr_rx(void) { static const char *P[] = {"a", "a*", "x*", "$", "^", "^a", "a+", "[0-9]+", ".", "b?", "|", "a$"}; int k = sv_choice(12), sp_ = sv_choice(2); B b = {0}; b_in0(&b, 4, "ab1 "); char *v = b_done(&b); if (sp_) { b_lit(&b, "split("); b_lit(&b, P[k]); b_lit(&b, "):join(;)"); } else { b_lit(&b, "replace(regex:"); b_lit(&b, P[k]); b_lit(&b, ",<>)"); } char *ch = b_done(&b), *r = tr(v, ch); B w = {0}; b_lit(&w, ""); const char *pat = *P[k] == '|' ? "" : P[k]; if (!sp_) { const char *p = v; for (;;) { const char *e = rx(pat, p, p == v); if (e) { b_lit(&w, "<>"); if (e == p) { if (!*p) break; b_c(&w, *p++); } else { p = e; if (!*p) break; } } else { if (!*p) break; b_c(&w, *p++); } } expect_str(r, w.p, "every match is replaced once"); } else { const char *p = v, *s = v; int any = 0; for (; *p;) { const char *e = rx(pat, p, p == v); if (e && e > p) { char *t = cut(s, p); if (*t) { if (any) b_c(&w, ';'); b_lit(&w, t); any = 1; } p = s = e; } else p++; } char *t = cut(s, p); if (*t) { if (any) b_c(&w, ';'); b_lit(&w, t); any = 1; } if (!any) b_lit(&w, v); expect_str(r, w.p, "the value is split at every match"); } }
void h_tr_fmt(void) { if (sv_choice(2)) { B o = {0}; b_in0(&o, 4, "%snf.5*"); char *os = b_done(&o); B c = {0}; b_lit(&c, "format("); b_lit(&c, os); b_c(&c, ')'); char *ch = b_done(&c), *r = tr("2.5", ch); B w = {0}; b_lit(&w, ""); int bad = 0, n = 0; for (char *p = os; *p; p++) { if (*p != '%') { b_c(&w, *p); continue; } p++; if (*p == '%') { b_c(&w, '%'); continue; } int width = 0, prec = 6; while (dig(*p)) width = width * 10 + *p++ - '0'; if (*p == '.') { p++; prec = 0; while (dig(*p)) prec = prec * 10 + *p++ - '0'; } if (*p != 'f') { bad = 1; break; } n++; if (prec == 0) { sv_assume(0); } char t[80]; snprintf(t, 80, "2.5%0*d", prec - 1, 0); if (prec == 1) strcpy(t, "2.5"); if (prec > 60 || width > 60) return; for (int x = (int)strlen(t); x < width; x++) b_c(&w, ' '); b_lit(&w, t); } if (bad || n != 1) expect_str(r, "2.5", "only formats for one number are applied"); else expect_str(r, w.p, "numbers are formatted"); return; }
  static const char *D[] = {"2024-03-15", "2024-03-15 14:30", "2024-03-15 14:30:59", "1999-12-31", "2000-02-29", "2023-01-01", "no date", "2024-13-01", "2024-00-10", "", "1900-03-01", "2024-02-30x"}, *F[] = {"%Y", "%m/%d", "%H:%M:%S", "%w", "%j", "plain"}, *A[][5] = {{"2024", "03/15", "00:00:00", "5", "075"}, {"2024", "03/15", "14:30:00", "5", "075"}, {"2024", "03/15", "14:30:59", "5", "075"}, {"1999", "12/31", "00:00:00", "5", "365"}, {"2000", "02/29", "00:00:00", "2", "060"}, {"2023", "01/01", "00:00:00", "0", "001"}, {0}, {0}, {0}, {0}, {"1900", "03/01", "00:00:00", "4", "060"}, {"2024", "02/30", "00:00:00", 0, "061"}}; int d = sv_choice(12), f = sv_choice(6); B c = {0}; b_lit(&c, "strftime("); b_lit(&c, F[f]); b_c(&c, ')'); char *ch = b_done(&c), *r = tr(D[d], ch); if (!A[d][0]) { expect_str(r, D[d], "what is not a date stays"); return; } if (f == 5) expect_str(r, "plain", "formats without conversions"); else if (A[d][f]) expect_str(r, A[d][f], "dates are formatted, day of week and year included"); }
void h_var_sizes(void) { static const int T[] = {0, 1, 5}; int n = 1 + sv_choice(3), v = 500 + sv_choice(31), t = T[sv_choice(3)], unk = sv_choice(3); B b = {0}, w = {0}, vb = {0}; b_fill(&vb, 'v', v - 1); b_not(&vb, 1, "["); char *vs = b_done(&vb); b_lit(&b, ""); b_lit(&w, ""); for (int i = 0; i < n; i++) { b_fill(&b, 't', t); b_fill(&w, 't', t); b_lit(&b, "[%k]"); b_lit(&w, vs); if (unk) { const char *u = unk == 1 ? "[%zz]" : "[%zzzzzzzzzz:upper]"; b_lit(&b, u); b_lit(&w, u); } } b_fill(&b, 'e', t); b_fill(&w, 'e', t); apex_options o = opt(1); expect_str(apex_metadata_replace_variables(b_done(&b), item("k", vs, 0), &o), w.p, "results of every size are complete"); }
void h_tr_many(void) { int n = 1 + sv_choice(20), k = sv_choice(5); B v = {0}, w = {0}, c = {0}; b_lit(&w, ""); if (k <= 2) { for (int i = 0; i < n; i++) { if (i) { b_lit(&v, k == 0 ? "," : k == 1 ? "12" : " "); b_c(&w, '|'); } if (i == n - 1) { size_t at = v.n; b_in(&v, 1, "abcxyz"); b_c(&w, v.p[at]); } else { b_c(&v, 'a' + i); b_c(&w, 'a' + i); } } b_lit(&c, k == 0 ? "split(,):join(|)" : k == 1 ? "split([0-9]+):join(|)" : "split( ):join(|)"); } else { static const int L[] = {1, 2, 7, 40}; int l = L[sv_choice(4)]; for (int i = 0; i < n; i++) { b_lit(&v, "ab"); b_fill(&w, 'x', l); b_c(&w, 'b'); } b_lit(&c, k == 3 ? "replace(a," : "replace(regex:a,"); b_fill(&c, 'x', l); b_c(&c, ')'); } char *vs = b_done(&v), *cs = b_done(&c); expect_str(tr(vs, cs), w.p, "every item and every match counts, however many"); }
void h_tr_chain(void) { static const char *T[] = {"upper", "trim", "prefix(x )", "reverse", "truncate(3)", "substr(1)", "slug", "html_escape", "urlencode", "repeat(2)", "pad(4,-)", "nosuch", "length", "default(d)"}, *V[] = {"", " ab ", "A&b c", "h\xc3\xa9"}; int a = sv_choice(14), b_ = sv_choice(14); B v = {0}; b_lit(&v, V[sv_choice(4)]); b_in0(&v, 1, "q \xff"); char *vs = b_done(&v); B c = {0}; b_lit(&c, T[a]); b_c(&c, ':'); b_lit(&c, T[b_]); char *ch = b_done(&c), *r = tr(vs, ch), *one = tr(vs, T[a]), *two = tr(one, T[b_]); expect_str(r, two, "each transform works on the result of the one before"); apex_options o = opt(0); B t = {0}; b_lit(&t, "[%k:"); b_lit(&t, T[a]); b_c(&t, ']'); char *in = b_done(&t); expect_str(apex_metadata_replace_variables(in, item("k", vs, 0), &o), in, "with transforms off the text stays"); }
/* ---- --meta ---- */
static void kv_ref(const char *p) { nW = 0; for (;;) { while (sp(*p)) p++; const char *q = strchr(p, '='); if (!q) return; char *k = cut(p, q); const char *v = q + 1, *e; while (sp(*v)) v++; if (*v == '"' || *v == '\'') { e = strchr(v + 1, *v); if (!e) { char *x = strdup(v + 1); want(k, x); return; } char *x = malloc(e - v); memcpy(x, v + 1, e - v - 1); x[e - v - 1] = 0; want(k, x); e++; while (sp(*e)) e++; } else { for (e = v; *e; e++) { if (*e != ',') continue; const char *n = e + 1; while (sp(*n)) n++; if (!alnum(*n) && *n != '_') continue; while (*n && *n != ',' && *n != '=') n++; if (*n == '=') break; } want(k, cut(v, e)); } if (*e != ',') return; p = e + 1; } }
void h_kv(void) { B b = {0}; b_in0(&b, 6 + SV_TIER, "a=, \"'"); char *in = b_done(&b); apex_metadata_item *m = apex_parse_command_metadata(in); kv_ref(in); { int n = 0; for (apex_metadata_item *i = m; i; i = i->next) n++; sv_assert(n == nW, "one item for each KEY=VALUE"); int j = nW; for (apex_metadata_item *i = m; i; i = i->next) { j--; expect_str(i->key, W[j].k, "keys are trimmed"); expect_str(i->value, W[j].v, "values are complete"); } } sv_cover(nW > 1 ? "several" : "few"); }
void h_kv_list(void) { static const char *V[] = {"v", "\"My Doc\"", "'a,b=c'", "a,b,c", "x y", ""}, *S[] = {",", ", ", " , "}, *K[] = {"title", "author", "tags"}; int n = 1 + sv_choice(3); B b = {0}; for (int i = 0; i < n; i++) { if (i) b_lit(&b, S[sv_choice(3)]); b_lit(&b, K[i]); b_c(&b, '='); b_lit(&b, V[sv_choice(6)]); if (i == 0 && sv_choice(2)) b_not(&b, 1, "=\"'"); } char *in = b_done(&b); apex_metadata_item *m = apex_parse_command_metadata(in); kv_ref(in); check_items(m); }
static char *key(int n) { B b = {0}; b_lit(&b, ""); for (int i = 0; i < n; i++) { int c = sv_choice(5); if (!c) break; b_c(&b, "aA b"[c - 1]); } return b.p; }
static char *mkey(void) { static char *K[] = {"a", "A", "b", "a b", "ab "}; return K[sv_choice(5)]; }
static int key_eq(const char *a, const char *b) { return norm_eq(a, b); }
static int blank(const char *s) { while (sp(*s)) s++; return !*s; }
void h_get(void) { char *k[3], *q = key(3); apex_metadata_item *m = 0; static char *V[] = {"v0", "v1", "v2"}; for (int i = 2; i >= 0; i--) { k[i] = i == 2 ? mkey() : key(2); m = item(k[i], V[i], m); } const char *g = apex_metadata_get(m, q); if (blank(q)) return; int f = -1; for (int i = 0; i < 3 && f < 0; i++) { size_t x = 0; for (; q[x] && k[i][x] && lo(q[x]) == lo(k[i][x]); x++) ; if (!q[x] && !k[i][x]) f = i; } for (int i = 0; i < 3 && f < 0; i++) if (key_eq(k[i], q)) f = i; if (f < 0) sv_assert(!g, "no value for an unknown key"); else expect_str(g, V[f], "keys are found ignoring case and spaces"); sv_cover(f < 0 ? "none" : "found"); }
void h_merge(void) { apex_metadata_item *L[3]; char *k[3][2]; int n[3]; static char *V[3][2] = {{"a0", "a1"}, {"b0", "b1"}, {"c0", "c1"}}; for (int i = 0; i < 3; i++) { n[i] = sv_choice(3); L[i] = 0; for (int j = n[i] - 1; j >= 0; j--) { k[i][j] = mkey(); L[i] = item(k[i][j], V[i][j], L[i]); } } int two = sv_choice(2); sv_assume(two || L[1] || !L[2]); apex_metadata_item *m = two ? apex_merge_metadata(L[0], L[1], NULL) : apex_merge_metadata(L[0], L[1], L[2], NULL); int top = two ? 1 : 2; for (int i = 0; i <= top; i++) for (int j = 0; j < n[i]; j++) { const char *w = 0; for (int x = top; x >= 0 && !w; x--) w = apex_metadata_get(L[x], k[i][j]); expect_str(apex_metadata_get(m, k[i][j]), w, "the last list that has a key decides its value"); } int c = 0; for (apex_metadata_item *x = m; x; x = x->next) { c++; int f = 0; for (int i = 0; i <= top; i++) if (apex_metadata_get(L[i], x->key)) f = 1; sv_assert(f, "only keys of the lists"); } sv_assert(c <= n[0] + n[1] + (two ? 0 : n[2]), "no item twice"); }
/* ---- options ---- */
#define OB(n, f) {n, offsetof(apex_options, f)}
static const struct { const char *n; size_t o; } BO[] = {OB("wikilinks", enable_wiki_links), OB("wikilink-sanitize", wikilink_sanitize), OB("includes", enable_file_includes), OB("relaxed-tables", relaxed_tables), OB("per-cell-alignment", per_cell_alignment), OB("alpha-lists", allow_alpha_lists), OB("mixed-lists", allow_mixed_list_markers), OB("sup-sub", enable_sup_sub), OB("strikethrough", enable_strikethrough), OB("autolink", enable_autolink), OB("transforms", enable_metadata_transforms), OB("unsafe", unsafe), OB("tables", enable_tables), OB("footnotes", enable_footnotes), OB("smart", enable_smart_typography), OB("math", enable_math), OB("ids", generate_header_ids), OB("header-anchors", header_anchors), OB("embed-images", embed_images), OB("image-captions", enable_image_captions), OB("link-citations", link_citations), OB("show-tooltips", show_tooltips), OB("suppress-bibliography", suppress_bibliography), OB("suppress-index", suppress_index), OB("group-index-by-letter", group_index_by_letter), OB("obfuscate-emails", obfuscate_emails), OB("pretty", pretty), OB("standalone", standalone), OB("hardbreaks", hardbreaks), OB("plugins", enable_plugins), OB("emoji-autocorrect", enable_emoji_autocorrect), OB("code-line-numbers", code_line_numbers), OB("highlight-language-only", highlight_language_only), OB("markdown-in-html", enable_markdown_in_html), OB("indices", enable_indices)};
static int word(const char *s, const char *w) { for (; *s && *w; s++, w++) if (lo(*s) != *w) return 0; return !*s && !*w; }
void h_opt(void) { int k = sv_choice(35), set = sv_choice(2), cs = sv_choice(3); B b = {0}; b_sym(&b, 5); char *v = b_done(&b); apex_options o, w; memset(&o, 0, sizeof o); for (int i = 0; i < 35; i++) *((bool *)((char *)&o + BO[i].o)) = set; o.mode = APEX_MODE_GFM; w = o; B n = {0}; b_lit(&n, BO[k].n); if (cs) for (char *p = n.p; *p; p++) if (cs == 2 || p == n.p) *p = up(*p); apex_apply_metadata_to_options(item(n.p, v, item("nosuchkey", "true", 0)), &o); int t = word(v, "true") || word(v, "yes") || word(v, "1"), f = word(v, "false") || word(v, "no") || word(v, "0"); if (t || f) *((bool *)((char *)&w + BO[k].o)) = t; if (t && !strcmp(BO[k].n, "indices")) { w.enable_mmark_index_syntax = true; w.enable_textindex_syntax = true; } sv_assert_mem_eq(&o, &w, sizeof o, "a boolean key sets exactly its option, and only for a boolean value"); sv_cover(t ? "on" : f ? "off" : "ignored"); }
void h_opt_str(void) { static const char *V[] = {"gfm", "mmd", "kramdown", "dash", "none", "underscore", "space", "html", "a.css", "", "GFM", "My Title"}; B b = {0}; b_lit(&b, V[sv_choice(12)]); b_in0(&b, 1, "x "); char *v = b_done(&b); apex_options o, w; memset(&o, 0, sizeof o); o.mode = APEX_MODE_MULTIMARKDOWN; o.id_format = 7; o.wikilink_space = 7; w = o; int k = sv_choice(9); static const char *N[] = {"csl", "title", "style", "css", "id-format", "base-dir", "wikilink-space", "wikilink-extension", "bibliography"}; apex_metadata_item *m = item(N[k], v, 0); apex_apply_metadata_to_options(m, &o); const char *mv = m->value;
  switch (k) { case 0: w.csl_file = mv; w.enable_citations = true; break; case 1: w.document_title = mv; break; case 2: case 3: sv_assert(o.stylesheet_count == 1 && o.stylesheet_paths && o.stylesheet_paths[0] == mv && !o.stylesheet_paths[1], "style names the stylesheet"); w.stylesheet_paths = o.stylesheet_paths; w.stylesheet_count = 1; w.standalone = true; break; case 4: if (word(v, "gfm")) w.id_format = 0; else if (word(v, "mmd")) w.id_format = 1; else if (word(v, "kramdown")) w.id_format = 2; break; case 5: w.base_directory = mv; break; case 6: if (word(v, "dash")) w.wikilink_space = 0; else if (word(v, "none")) w.wikilink_space = 1; else if (word(v, "underscore")) w.wikilink_space = 2; else if (word(v, "space")) w.wikilink_space = 3; break; case 7: w.wikilink_extension = mv; break; default: w.enable_citations = true; } sv_assert_mem_eq(&o, &w, sizeof o, "a string key sets exactly its option"); }
void h_opt_mode(void) { static const char *M[] = {"commonmark", "gfm", "mmd", "multimarkdown", "kramdown", "unified", "GFM", "other"}; static const int W_[] = {APEX_MODE_COMMONMARK, APEX_MODE_GFM, APEX_MODE_MULTIMARKDOWN, APEX_MODE_MULTIMARKDOWN, APEX_MODE_KRAMDOWN, APEX_MODE_UNIFIED, APEX_MODE_GFM, -1}; int k = sv_choice(8), first = sv_choice(2); B b = {0}; b_lit(&b, M[k]); b_in0(&b, 1, "x"); char *v = b_done(&b); int bad = k == 7 || v[strlen(M[k])]; apex_options o; memset(&o, 0, sizeof o); o.mode = APEX_MODE_GFM; o.critic_mode = 9; apex_options w = bad ? o : apex_options_for_mode(W_[k]); w.pretty = true; apex_apply_metadata_to_options(first ? item("mode", v, item("pretty", "yes", 0)) : item("pretty", "yes", item("Mode", v, 0)), &o); sv_assert_mem_eq(&o, &w, sizeof o, "mode resets the options first, wherever it stands"); }
