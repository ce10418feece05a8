//@src src/extensions/citations.c
//@job C41 h_bf_tex quick=60 workers=4 bound="BibTeX: 2 entries, 12 entry types, each of 7 fields in 5 value syntaxes with 2 arbitrary bytes, 4 layouts"
//@job C41 h_bf_ord quick=60 workers=4 bound="BibTeX: 3 of 9 field names (upper or lower case) in any order, unknown fields among them, with or without trailing comma"
//@job C41 h_bf_nest quick=60 workers=4 bound="BibTeX: braced and quoted values of at most 6 characters over { } quote = , a @"
//@job C41 h_bf_skip quick=60 workers=2 bound="BibTeX: 8 kinds of comment, string, preamble and junk before, between and after the entries, 1 arbitrary byte"
//@job C41 h_bf_texany quick=60 workers=6 bound="BibTeX: every text of at most 8 characters over @ a { } , = quote; an entry cut off at every byte"
//@job C41 h_bf_json quick=60 workers=4 bound="CSL JSON: 1..2 entries, each of 8 fields with 2 arbitrary bytes (escaped as JSON requires), 3 layouts, unknown nested values between"
//@job C41 h_bf_name quick=60 workers=4 bound="CSL JSON and YAML: 0..3 authors, 5 name forms, both orders of family and given"
//@job C41 h_bf_esc quick=60 workers=4 bound="CSL JSON: every \\uXXXX escape with 4 arbitrary hex digits, every one-letter escape, every surrogate pair of 256 high and all low"
//@job C41 h_bf_date quick=60 workers=2 bound="CSL JSON and YAML: 9 notations of the date, 3..5 arbitrary digits"
//@job C41 h_bf_jany quick=60 workers=6 bound="CSL JSON: every text of at most 7 characters over { } [ ] quote : , a; an entry cut off at every byte"
//@job C41 h_bf_yaml quick=60 workers=4 bound="CSL YAML: 1..2 entries at 3 indentations, each of 8 fields plain or quoted with 2 arbitrary bytes, comments, blank lines and nested unknown values between"
//@job C41 h_bf_yany quick=60 workers=6 bound="CSL YAML: every text of at most 7 characters over - space : a newline quote; an entry cut off at every byte"
//@job C41 h_bf_load quick=60 workers=2 bound="1..3 files of 11 kinds, with or without base directory, repeated IDs, missing files"
//@job C41 h_bf_big quick=60 workers=2 max_instr=300000000 bound="1..40 entries with values of up to 5000 bytes in the three formats"
#include "hl.h"
#include <ctype.h>
#include "extensions/citations.h"
static const char MB[] = "every entry of the bibliography file is read with exactly its fields";
enum { TI, AU, YR, CO, PU, VO, PA };
typedef struct { const char *id, *type, *f[7]; } E;
static const char *fld(apex_bibliography_entry *e, int i) { return i == TI ? e->title : i == AU ? e->author : i == YR ? e->year : i == CO ? e->container_title : i == PU ? e->publisher : i == VO ? e->volume : e->page; }
static int same(const char *a, const char *b) { return a && b ? !strcmp(a, b) : !a && !b; }
static void expect(apex_bibliography_registry *r, E *v, int n) {
  if (!r) { sv_fail(MB); return; } int c = 0; for (apex_bibliography_entry *e = r->entries; e; e = e->next) c++; sv_assert(c == n && r->count == (size_t)n, "every entry is read once");
  for (int i = 0; i < n; i++) { apex_bibliography_entry *e = apex_find_bibliography_entry(r, v[i].id); if (!e) { sv_fail("each entry is found by its key"); return; } if (v[i].type) sv_assert(same(e->type, v[i].type), "the entry type is mapped"); for (int j = 0; j < 7; j++) { const char *g = fld(e, j), *w = v[i].f[j]; if (!w) sv_assert(!g || !*g, "no field is invented"); else expect_str(g, w, MB); } }
  apex_free_bibliography_registry(r); free(r); }
static void sane(apex_bibliography_registry *r) { if (!r) return; size_t c = 0; for (apex_bibliography_entry *e = r->entries; e; e = e->next) { c++; sv_assert(e->id && *e->id, "every entry has a key"); } sv_assert(c == r->count, "the count is that of the entries"); apex_free_bibliography_registry(r); free(r); }
/* value: braces gone, trimmed */
static char *val(const char *s, size_t n) { while (n && isspace((unsigned char)s[n - 1])) n--; while (n && isspace((unsigned char)*s)) { s++; n--; } char *r = malloc(n + 1); size_t k = 0; for (size_t i = 0; i < n; i++) if (s[i] != '{' && s[i] != '}') r[k++] = s[i]; r[k] = 0; return k ? r : 0; }
static const char *FN[] = {"title", "author", "year", "journal", "publisher", "volume", "pages"};
static const char *TY[][2] = {{"article", "article-journal"}, {"book", "book"}, {"inbook", "chapter"}, {"incollection", "chapter"}, {"inproceedings", "paper-conference"}, {"phdthesis", "thesis"}, {"mastersthesis", "thesis"}, {"techreport", "report"}, {"misc", "article"}, {"Article", "article-journal"}, {"BOOK", "book"}, {"online", "article"}};
void h_bf_tex(void) { int f = sv_choice(7), sy = sv_choice(5), ty = sv_choice(12), ly = sv_choice(4); static const char *O[] = {"{", "\"", "", "{{", "{ "}, *C[] = {"}", "\"", "", "}}", "\t}"}; static const char *S1[] = {"\n  ", " ", "", "\r\n\t"}, *EQ[] = {" = ", "=", "=", "\t=\n"};
  B b = {0}; b_lit(&b, "@"); b_lit(&b, TY[ty][0]); b_lit(&b, ly == 1 ? " {" : "{"); b_lit(&b, "smith:20_a-b,"); b_lit(&b, S1[ly]); b_lit(&b, FN[f]); b_lit(&b, EQ[ly]); b_lit(&b, O[sy]); size_t q = b.n; b_c(&b, 'v'); b_not(&b, 2, sy == 2 ? "{},\"" : "{}\""); b_c(&b, 'w'); char *w = val(b.p + q, b.n - q); b_lit(&b, C[sy]); if (ly & 1) b_c(&b, ','); b_lit(&b, S1[ly]); b_lit(&b, "}"); b_lit(&b, ly == 2 ? "" : "\n\n"); b_lit(&b, "@book{two, title={T 2}, year = 1999}\n");
  E v[2] = {{0}}; v[0].id = "smith:20_a-b"; v[0].type = TY[ty][1]; v[0].f[f] = w; v[1].id = "two"; v[1].type = "book"; v[1].f[TI] = "T 2"; v[1].f[YR] = "1999"; expect(apex_parse_bibtex(b_done(&b)), v, 2); sv_cover("tex"); }
void h_bf_ord(void) { static const char *N[] = {"title", "AUTHOR", "Year", "journal", "publisher", "Volume", "pages", "note", "doi"}; B b = {0}; E v[1] = {{0}}; v[0].id = "k"; v[0].type = "article-journal"; int used = 0; int up = sv_choice(2); b_lit(&b, "@article{k"); static char vals[3][4]; for (int i = 0; i < 3; i++) { int f = sv_choice(9); if (used >> f & 1) return; used |= 1 << f; b_lit(&b, ",\n"); for (const char *c = N[f]; *c; c++) b_c(&b, up ? toupper((unsigned char)*c) : *c); b_lit(&b, i == 1 ? "=\"" : " = {"); vals[i][0] = 'a' + i; vals[i][1] = '='; vals[i][2] = ','; vals[i][3] = 0; b_lit(&b, vals[i]); b_lit(&b, i == 1 ? "\"" : "}"); if (f < 7) v[0].f[f] = vals[i]; } if (sv_choice(2)) b_c(&b, ','); b_lit(&b, "\n}"); expect(apex_parse_bibtex(b_done(&b)), v, 1); sv_cover("ord"); }
/* length of the value (with delimiters) at s, 0 when unbalanced */
void h_bf_nest(void) { int q = sv_choice(2); B b = {0}; b_lit(&b, "@book{k, title = "); b_c(&b, q ? '"' : '{'); size_t at = b.n; b_in0(&b, 6, "{}\"=,a@"); b.n = strlen(b.p); size_t e = b.n; int d = 0, bad = 0; for (size_t i = at; i < e; i++) { if (b.p[i] == '{') d++; else if (b.p[i] == '}') { if (!d--) bad = 1; } else if (b.p[i] == '"' && q && !d) bad = 1; } if (bad || d) return; b_c(&b, q ? '"' : '}'); b_lit(&b, ", year = {2001}}\n@book{k2, title={Z}}"); E v[2] = {{0}}; v[0].id = "k"; v[0].f[TI] = val(b.p + at, e - at); v[0].f[YR] = "2001"; v[1].id = "k2"; v[1].f[TI] = "Z"; expect(apex_parse_bibtex(b_done(&b)), v, 2); sv_cover("nest"); }
void h_bf_skip(void) { static const char *J[] = {"", "% a comment\n", "@comment{x, title={no}, {@} }\n", "@string{ab = \"J\"}\n", "@preamble{\"\\x{y}\"}\n", "free text, with = and }\n", "@Comment{q}@STRING{a={b}}\n", "@comment{x {a} @book{no, title={N}} }\n"}; B b = {0}; b_lit(&b, J[sv_choice(8)]); b_lit(&b, "@book{one, title={T1}, volume={3}}\n"); b_lit(&b, J[sv_choice(8)]); b_lit(&b, "@book{two, title={T2}}"); b_not(&b, 1, "@"); b_lit(&b, J[sv_choice(8)]); E v[2] = {{0}}; v[0].id = "one"; v[0].f[TI] = "T1"; v[0].f[VO] = "3"; v[1].id = "two"; v[1].f[TI] = "T2"; expect(apex_parse_bibtex(b_done(&b)), v, 2); sv_cover("skip"); }
static void cut(const char *t, int fmt) { size_t n = strlen(t); char *p = malloc(n + 1); memcpy(p, t, n + 1); int k = sv_choice((int)n + 1); p[k] = 0; B b = {0}; b_lit(&b, p); char *q = b_done(&b); sane(fmt == 0 ? apex_parse_bibtex(q) : fmt == 1 ? apex_parse_csl_json(q) : apex_parse_csl_yaml(q)); }
void h_bf_texany(void) { if (sv_choice(2)) { B b = {0}; b_in0(&b, 8, "@a{},=\""); sane(apex_parse_bibtex(b_done(&b))); } else cut("@string{a = {b}}@book{k, title = {T {x} }, year=\"19\", author = Me}", 0); sv_cover("texany"); }
/* ---- CSL JSON ---- */
static const char *CN[] = {"title", "author", "year", "container-title", "publisher", "volume", "page"};
static void jstr(B *b, const char *s, size_t n) { b_c(b, '"'); for (size_t i = 0; i < n; i++) { unsigned char c = s[i]; if (c == '"' || c == '\\') { b_c(b, '\\'); b_c(b, c); } else if (c == '\n') b_lit(b, "\\n"); else if (c == '\t') b_lit(b, "\\t"); else if (c == '\r') b_lit(b, "\\r"); else b_c(b, c); } b_c(b, '"'); }
void h_bf_json(void) { int f = sv_choice(7), ly = sv_choice(3), x = sv_choice(5), n = 1 + sv_choice(2), idlast = sv_choice(2); if (f == YR) return; static const char *NL[] = {"", "\n  ", " "}, *CL[] = {":", ": ", " : "}; static const char *X[] = {"", "\"note\":{\"id\":\"no\",\"title\":[\"}\",\"]\"]}", "\"DOI\":\"a\\\"},{b\"", "\"x\":[1,{\"y\":null}]", "\"u\":\"q\\\\\""};
  B d = {0}, b = {0}; b_c(&d, 'v'); b_not(&d, 2, ""); b_c(&d, 'w'); for (size_t i = 0; i < d.n; i++) { unsigned char c = d.p[i]; if (c < 32 && c != '\n' && c != '\t' && c != '\r') return; }
  b_lit(&b, "[{"); b_lit(&b, NL[ly]); if (!idlast) { b_lit(&b, "\"id\""); b_lit(&b, CL[ly]); b_lit(&b, "\"k 1\","); b_lit(&b, NL[ly]); } if (x) { b_lit(&b, X[x]); b_c(&b, ','); } b_c(&b, '"'); b_lit(&b, CN[f]); b_c(&b, '"'); b_lit(&b, CL[ly]); jstr(&b, d.p, d.n); if (idlast) { b_c(&b, ','); b_lit(&b, NL[ly]); b_lit(&b, "\"id\""); b_lit(&b, CL[ly]); b_lit(&b, "\"k 1\",\"type\":\"book\""); } b_lit(&b, NL[ly]); b_c(&b, '}'); E v[2] = {{0}}; v[0].id = "k 1"; if (idlast) v[0].type = "book"; v[0].f[f] = d.p; if (n == 2) { b_lit(&b, ",\n{\"type\":\"thesis\",\"id\":\"z\",\"volume\":12,\"title\":\"\"}"); v[1].id = "z"; v[1].type = "thesis"; v[1].f[VO] = "12"; } b_lit(&b, "]\n"); expect(apex_parse_csl_json(b_done(&b)), v, n); sv_cover("json"); }
void h_bf_name(void) { int n = sv_choice(4), y = sv_choice(3); B b = {0}, w = {0}; b_lit(&b, y == 0 ? "[{\"id\":\"k\",\"author\":[" : y == 1 ? "- id: k\n  author:\n" : "- id: k\n  author: ["); for (int i = 0; i < n; i++) { int k = sv_choice(5), o = sv_choice(2); const char *fa = k == 0 || k == 1 ? "Fa, x" : k == 3 ? "Fu Co" : k == 4 ? "de la F" : 0, *gi = k == 0 ? "G. H." : k == 2 ? "Gi" : k == 4 ? "J-P" : 0; const char *fk = k == 3 ? "literal" : "family"; if (w.n) b_lit(&w, " and "); if (fa) b_lit(&w, fa); if (fa && gi) b_lit(&w, ", "); if (gi) b_lit(&w, gi);
  if (y == 1) { if (i && o) b_c(&b, '\n'); b_lit(&b, i == 1 && n == 3 ? "  - " : n == 3 ? "  - " : "    - "); for (int j = 0; j < 2; j++) { int isf = j == o; if (isf ? !fa : !gi) continue; if (j && (o ? gi : fa)) b_lit(&b, n == 3 ? "    " : "      "); b_lit(&b, isf ? fk : "given"); b_lit(&b, isf ? ": \"" : ": "); b_lit(&b, isf ? fa : gi); b_lit(&b, isf ? "\"\n" : "\n"); } }
  else { if (i) b_lit(&b, ", "); b_c(&b, '{'); for (int j = 0; j < 2; j++) { int isf = j == o; if (isf ? !fa : !gi) continue; if (j && (o ? gi : fa)) b_lit(&b, ", "); b_lit(&b, y == 0 ? "\"" : ""); b_lit(&b, isf ? fk : "given"); b_lit(&b, y == 0 ? "\":\"" : ": \""); b_lit(&b, isf ? fa : gi); b_c(&b, '"'); } if (k == 1) b_lit(&b, y == 0 ? ",\"given-x\":\"no\"" : ", given-x: \"no\""); b_c(&b, '}'); } }
  b_lit(&b, y == 0 ? "],\"title\":\"T\"}]" : y == 1 ? "  title: T\n" : "]\n  title: T\n"); E v[1] = {{0}}; v[0].id = "k"; v[0].f[TI] = "T"; v[0].f[AU] = w.n ? w.p : 0; expect(y ? apex_parse_csl_yaml(b_done(&b)) : apex_parse_csl_json(b_done(&b)), v, 1); sv_cover("name"); }
static int hx(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
void h_bf_esc(void) { int k = sv_choice(3); B b = {0}, w = {0}; b_lit(&b, "[{\"id\":\"k\",\"title\":\"a"); b_c(&w, 'a'); if (k == 0) { b_lit(&b, "\\u"); b_in(&b, 4, "0123456789abcdefABCDEF"); const char *h = b.p + b.n - 4; unsigned c = hx(h[0]) << 12 | hx(h[1]) << 8 | hx(h[2]) << 4 | hx(h[3]); if (c == 0 || (c >= 0xd800 && c < 0xe000)) return; if (c < 0x80) b_c(&w, c); else if (c < 0x800) { b_c(&w, 0xc0 | c >> 6); b_c(&w, 0x80 | (c & 63)); } else { b_c(&w, 0xe0 | c >> 12); b_c(&w, 0x80 | (c >> 6 & 63)); b_c(&w, 0x80 | (c & 63)); } }
  else if (k == 1) { static const char S[] = "\"\\/ntr", D[] = "\"\\/\n\t\r"; int j = sv_choice(6); b_c(&b, '\\'); b_c(&b, S[j]); b_c(&w, D[j]); } else { b_lit(&b, "\\uD"); b_in(&b, 1, "89aB"); b_in(&b, 1, "034f"); b_in(&b, 1, "0123456789abcdef"); b_lit(&b, "\\uD"); b_in(&b, 1, "cdefCDEF"); b_in(&b, 2, "0123456789abcdef"); const char *h = b.p + b.n - 3; unsigned lo = (0xd << 12) | hx(h[0]) << 8 | hx(h[1]) << 4 | hx(h[2]), hi = 0xd000 | hx(b.p[b.n - 9]) << 8 | hx(b.p[b.n - 8]) << 4 | hx(b.p[b.n - 7]); unsigned c = 0x10000 + ((hi - 0xd800) << 10) + (lo - 0xdc00); b_c(&w, 0xf0 | c >> 18); b_c(&w, 0x80 | (c >> 12 & 63)); b_c(&w, 0x80 | (c >> 6 & 63)); b_c(&w, 0x80 | (c & 63)); }
  b_lit(&b, "z\"}]"); b_c(&w, 'z'); E v[1] = {{0}}; v[0].id = "k"; v[0].f[TI] = w.p; expect(apex_parse_csl_json(b_done(&b)), v, 1); sv_cover("esc"); }
void h_bf_date(void) { static const char *A[] = {"[{\"id\":\"k\",\"issued\":{\"date-parts\":[[", "[{\"id\":\"k\",\"issued\":{\"date-parts\":[[\"", "[{\"id\":\"k\",\"issued\":\"", "[{\"id\":\"k\",\"year\":", "[{\"issued\": { \"date-parts\" : [ [ ", "- id: k\n  issued:\n    date-parts:\n    - - ", "- id: k\n  issued:\n    year: ", "- id: k\n  issued: ", "- id: k\n  issued:\n  - year: "}, *Z[] = {",5,1]]}}]", "\"]]}}]", "-03-02\"}]", "}]", " ]] }, \"id\":\"k\"}]", "\n      - 5\n", "\n    month: 7\n", "\n", "\n"}; int k = sv_choice(9); B b = {0}; b_lit(&b, A[k]); size_t ya = b.n; b_in(&b, 3, "0123456789"); if (sv_choice(2)) b_in(&b, sv_choice(2) ? 2 : 1, "0123456789"); char *w = malloc(6); memcpy(w, b.p + ya, b.n - ya); w[b.n - ya] = 0; b_lit(&b, Z[k]); E v[1] = {{0}}; v[0].id = "k"; v[0].f[YR] = w; expect(k < 5 ? apex_parse_csl_json(b_done(&b)) : apex_parse_csl_yaml(b_done(&b)), v, 1); sv_cover("date"); }
void h_bf_jany(void) { if (sv_choice(2)) { B b = {0}; b_in0(&b, 7, "{}[]\":,a"); sane(apex_parse_csl_json(b_done(&b))); } else cut("[{\"id\":\"k\",\"author\":[{\"family\":\"F\\u00e4\",\"given\":'G'}],\"issued\":{\"date-parts\":[[20]]},\"title\":\"a\\\\\"}]", 1); sv_cover("jany"); }
/* ---- CSL YAML ---- */
void h_bf_yaml(void) { int f = sv_choice(7), in = sv_choice(3), qu = sv_choice(3), x = sv_choice(5), n = 1 + sv_choice(2); if (f == YR || f == AU) return; static const char *I[] = {"- ", "  - ", "-\n   "}, *P[] = {"  ", "    ", "   "}; static const char *X[] = {"", "# c: d\n", "\n", "note:\n      title: no\n      x: [a, {b: c}]\n", "abstract: >\n      title text\n\n      more\n"};
  B b = {0}, d = {0}; if (sv_choice(2)) b_lit(&b, "---\n"); b_lit(&b, "references:\n" + (in == 1 ? 0 : 12)); b_lit(&b, I[in]); b_lit(&b, "id: k-1\n"); if (x) { b_lit(&b, x > 2 ? P[in] : ""); b_lit(&b, X[x]); } b_lit(&b, P[in]); b_lit(&b, CN[f]); b_lit(&b, ": "); b_c(&d, 'v'); b_not(&d, 2, "\n\r"); b_c(&d, 'w'); if (!qu) { for (size_t i = 1; i < 3; i++) if (d.p[i] == '#' && isspace((unsigned char)d.p[i - 1])) return; b_lit(&b, d.p); } else if (qu == 1) jstr(&b, d.p, d.n); else { b_c(&b, '\''); for (size_t i = 0; i < d.n; i++) { if (d.p[i] == '\'') b_c(&b, '\''); b_c(&b, d.p[i]); } b_c(&b, '\''); } b_c(&b, '\n'); E v[2] = {{0}}; v[0].id = "k-1"; v[0].f[f] = d.p; if (n == 2) { b_lit(&b, in == 1 ? "  - " : "- "); b_lit(&b, "type: book\n"); b_lit(&b, in == 1 ? "    " : "  "); b_lit(&b, "id: z # c\n"); b_lit(&b, in == 1 ? "    " : "  "); b_lit(&b, "volume: 12"); v[1].id = "z"; v[1].type = "book"; v[1].f[VO] = "12"; } expect(apex_parse_csl_yaml(b_done(&b)), v, n); sv_cover("yaml"); }
void h_bf_yany(void) { if (sv_choice(2)) { B b = {0}; b_in0(&b, 7, "- :a\n\""); sane(apex_parse_csl_yaml(b_done(&b))); } else cut("---\n- id: k\n  author:\n    - family: \"F\"\n      given: 'G''s'\n  issued:\n    - year: 20\n  title: a\n", 2); sv_cover("yany"); }
/* ---- files ---- */
void h_bf_load(void) { static const char *N[] = {"a.bib", "b.json", "c.yaml", "d.yml", "e.BIB", "f.bibtex", "g.txt", "none.bib", "h.bib", "i.YML", "j.JSON", "l.txt"}, *T[] = {"@book{k, title={from bib}}@book{x1,year=1}", "[{\"id\":\"k\",\"title\":\"from json\"},{\"id\":\"x2\"}]", "- id: k\n  title: from yaml\n- id: x3\n", "- id: k\n  title: from yml\n- id: x4\n", "@book{k, title={from BIB}}@book{x5,year=1}", "@book{k, title={from bibtex}}@book{x6}", "@book{k, title={from txt}}@book{x7,}", 0, "@book{k, volume=7}@book{x8,}", "- id: k\n  title: from YML\n- id: x9\n", "[{\"id\":\"k\",\"title\":\"from JSON\"},{\"id\":\"xa\"}]", "\n [{\"id\":\"k\",\"title\":\"from text\"},{\"id\":\"xb\"}]"}, *TT[] = {"from bib", "from json", "from yaml", "from yml", "from BIB", "from bibtex", "from txt", 0, 0, "from YML", "from JSON", "from text"}, *ID[] = {"x1", "x2", "x3", "x4", "x5", "x6", "x7", 0, "x8", "x9", "xa", "xb"}; int base = sv_choice(4); sv_dir("d"); for (int i = 0; i < 12; i++) { if (i == 7) continue; B n = {0}; if (base) b_lit(&n, "d/"); b_lit(&n, N[i]); sv_file(n.p, T[i], strlen(T[i])); }
  int n = 1 + sv_choice(3), used = 0, c = 0; static char nm[3][16]; const char *fl[4] = {0}; E v[4] = {{0}}; int first = -1; for (int i = 0; i < n; i++) { int k = sv_choice(12); if (used >> k & 1) return; used |= 1 << k; B s = {0}; if (base == 3) b_lit(&s, "./d/"); b_lit(&s, N[k]); memcpy(nm[i], s.p, s.n + 1); fl[i] = nm[i]; if (k == 7) continue; if (first < 0) { first = k; v[c].id = "k"; v[c].f[TI] = TT[k]; if (k == 8) v[c].f[VO] = "7"; c++; } v[c].id = ID[k]; v[c].f[YR] = k == 0 || k == 4 ? "1" : 0; c++; } expect(apex_load_bibliography(fl, base == 0 ? (sv_choice(2) ? "" : 0) : base == 1 ? "d" : base == 2 ? "d/" : "zz"), v, c); sv_cover("load"); }
void h_bf_big(void) { static const int N[] = {1, 40}, Z[] = {1, 254, 1023, 5000}; int n = N[sv_choice(2)], z = Z[sv_choice(4)], k = sv_choice(3); static E v[40]; static char id[40][4]; B b = {0}, t = {0}; b_fill(&t, 'T', z); if (k == 1) b_c(&b, '['); for (int i = 0; i < n; i++) { id[i][0] = 'i'; id[i][1] = '0' + i / 10; id[i][2] = '0' + i % 10; id[i][3] = 0; memset(&v[i], 0, sizeof v[i]); v[i].id = id[i]; v[i].f[TI] = t.p; v[i].f[PU] = i % 2 ? t.p : 0; if (k == 1 && i) b_c(&b, ','); b_lit(&b, k == 0 ? "@book{" : k == 1 ? "{\"id\":\"" : "- id: "); b_lit(&b, id[i]); b_lit(&b, k == 0 ? ",\n title = {" : k == 1 ? "\",\"title\":\"" : "\n  title: "); b_lit(&b, t.p); if (i % 2) { b_lit(&b, k == 0 ? "}, publisher = \"" : k == 1 ? "\",\"publisher\":\"" : "\n  publisher: "); b_lit(&b, t.p); } b_lit(&b, k == 0 ? i % 2 ? "\"}\n" : "}}\n" : k == 1 ? "\"}" : "\n"); } if (k == 1) b_c(&b, ']'); expect(k == 0 ? apex_parse_bibtex(b.p) : k == 1 ? apex_parse_csl_json(b.p) : apex_parse_csl_yaml(b.p), v, n); sv_cover("big"); }
