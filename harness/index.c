//@src src/extensions/index.c
//@job C02,C19 h_ix_free quick=60 workers=2 bound="every text of at most 5 bytes, every combination of the three syntaxes"
//@job C19 h_ix_mmark quick=60 workers=4 bound="(! followed by every text of at most 6 characters over a ! , ) ( space < then text"
//@job C19 h_ix_text quick=60 workers=4 bound="every text of at most 8 characters over a [ ] { ^ } space , and letter-dash terms with 2 arbitrary bytes before {^..}"
//@job C19 h_ix_lean quick=60 workers=4 bound="{i: followed by every text of at most 7 characters over a ! } * space backslash and double quote"
//@job C02,C19 h_ix_mark quick=60 workers=4 bound="placeholders with every text of at most 7 characters over < - > ! i 1 after the prefix; ids of 0..70 bytes"
//@job C03,C19 h_ix_gen quick=60 workers=4 bound="1..3 entries out of 11 terms (ASCII and not, with and without punctuation before) and 4 subitems, primary or not, grouped or flat"
//@job C03,C19 h_ix_long quick=60 workers=2 max_instr=200000000 bound="1..60 entries, terms and subitems of 0..3000 bytes, one arbitrary byte"
//@job C19 h_ix_insert quick=60 workers=2 bound="html with and without marker and body end, 2 arbitrary bytes at the joints"
//@job C19 h_ix_place quick=60 workers=2 bound="each construct in 17 places that are code or look like it (spans, fences, quotes, lists, indented blocks), one byte of the place arbitrary"
#include "code.h"
#include "index.h"
static int sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static int an(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int ok(char c) { return an(c) || (c & 0x80) || (c && strchr(" -_/.,:;'\"", c)); }
static char *trim(const char *s, size_t n) { while (n && sp(*s)) s++, n--; while (n && sp(s[n - 1])) n--; char *r = malloc(n + 1); memcpy(r, s, n); r[n] = 0; return r; }
static char *nostar(const char *s) { char *r = malloc(strlen(s) + 1), *w = r; for (; *s; s++) if (*s != '*') *w++ = *s; *w = 0; return r; }
typedef struct { char *i, *s; int prim; } E; static E L[80]; static int NL;
static const char *mmark(const char *p) {
  if (p[0] != '(' || p[1] != '!' || !p[2] || !p[3]) return 0; p += 2; E *e = &L[NL]; e->prim = 0; e->s = 0; if (*p == '!') e->prim = 1, p++;
  const char *s = p; while (*p && *p != ',' && *p != ')') { if (!ok(*p) && *p != '!') return 0; p++; } e->i = trim(s, p - s); if (!*e->i) return 0;
  if (*p == ',') { p++; while (sp(*p)) p++; s = p; while (*p && *p != ')') { if (!ok(*p)) return 0; p++; } if (p > s) e->s = trim(s, p - s); }
  if (*p != ')') return 0; NL++; return p + 1;
}
static const char *textidx(const char *t0, const char *p) {
  if (p[0] != '{' || p[1] != '^' || !p[2]) return 0; const char *q = p + 2; while (*q && *q != '}' && *q != '\n') q++; if (*q != '}') return 0; E *e = &L[NL]; e->prim = 0; e->s = 0; e->i = 0;
  if (p > t0 && p[-1] == ']') { const char *b = p - 1; while (b > t0 && *b != '[') b--; if (*b == '[') { size_t n = p - 1 - (b + 1); if (n > 0 && n < 200) e->i = trim(b + 1, n); } }
  if (!e->i || !*e->i) { const char *we = p; while (we > t0 && sp(we[-1])) we--; const char *ws = we; int n = 0; while (ws > t0 && n < 50 && (an(ws[-1]) || (ws[-1] & 0x80) || ws[-1] == ' ' || ws[-1] == '-' || ws[-1] == '_')) ws--, n++; while (ws < we && (*ws & 0xC0) == 0x80) ws++; if (n && we > ws) e->i = trim(ws, we - ws); }
  if (!e->i || !*e->i) return 0;
  const char *x = p + 2; while (x < q && *x != ' ' && *x != ',') x++; if (x < q) { x++; while (x < q && sp(*x)) x++; if (x < q) e->s = trim(x, q - x); }
  NL++; return q + 1;
}
static const char *leanpub(const char *p) {
  if (!starts(p, "{i:") || strlen(p) < 5) return 0; p += 3; while (*p == ' ' || *p == '\t') p++; if (!*p) return 0; E *e = &L[NL]; e->prim = 0; e->s = 0;
  if (*p == '"') { p++; const char *s = p; while (*p && *p != '"') p += *p == '\\' && p[1] ? 2 : 1; if (*p != '"') return 0; const char *x = s; while (x < p && *x != '!') x++; if (x < p) { e->i = nostar(trim(s, x - s)); e->s = nostar(trim(x + 1, p - x - 1)); } else { char *n = trim(s, p - s); B b = {0}; b_lit(&b, ""); b_mem(&b, s, p - s); char *m = nostar(b.p); e->i = trim(m, strlen(m)); } p++; }
  else { const char *s = p; while (*p && *p != '}' && *p != '\n') { if (!ok(*p)) return 0; p++; } if (*p != '}' || p == s) return 0; e->i = trim(s, p - s); if (!*e->i) return 0; }
  while (*p == ' ' || *p == '\t') p++; if (*p != '}') return 0; NL++; return p + 1;
}
static void ent(char *in, int fl) {
  apex_options o; memset(&o, 0, sizeof o); o.enable_indices = true; o.enable_mmark_index_syntax = fl & 1; o.enable_textindex_syntax = fl & 2; o.enable_leanpub_index_syntax = fl & 4; apex_index_registry g = {0}; NL = 0;
  B w = {0}; b_lit(&w, ""); const char *t = in, *ce = in; char num[64]; while (*t) { const char *e = 0; if (t >= ce) ce = codeend(in, t); if (t < ce) { b_c(&w, *t++); continue; } if (fl & 1) e = mmark(t); if (!e && fl & 2) e = textidx(in, t); if (!e && fl & 4) e = leanpub(t); if (e) { snprintf(num, sizeof num, "<!--IDX:idxref-%d-->", NL - 1); b_lit(&w, num); t = e; } else b_c(&w, *t++); }
  char *r = apex_process_index_entries(in, &g, &o); if (!r) r = in; expect_str(r, w.p, "every index entry is replaced by its placeholder and all other text is kept"); sv_assert(g.count == NL, "every index entry is registered");
  int i = NL; for (apex_index_entry *x = g.entries; x; x = x->next) { i--; if (i < 0) { sv_fail("no entry is invented"); return; } expect_str(x->item, L[i].i, "the entry's term is exact"); snprintf(num, sizeof num, "idxref-%d", i); expect_str(x->anchor_id, num, "anchor"); sv_assert(!x->primary == !L[i].prim, "primary"); if (L[i].s) { sv_assert(x->subitem != 0, "subitem"); expect_str(x->subitem, L[i].s, "the subitem is exact"); } else sv_assert(!x->subitem, "no subitem"); }
  sv_assert(i == 0, "all entries are listed"); sv_cover(NL ? "entry" : "none"); apex_free_index_registry(&g);
}
void h_ix_free(void) { B b = {0}; int f = 1 + sv_choice(7); b_sym(&b, 5); ent(b_done(&b), f); }
void h_ix_mmark(void) { B b = {0}; b_lit(&b, "x(!"); b_in0(&b, 6, "a!,)( <"); b_lit(&b, "b) end(!!q, r)"); ent(b_done(&b), sv_choice(2) ? 7 : 1); }
void h_ix_text(void) { B b = {0}; if (sv_choice(2)) b_in0(&b, 8, "a[]{^} ,"); else { static const int N[] = {0, 3, 48, 49, 50, 51}; b_fill(&b, 'w', N[sv_choice(6)]); b_sym(&b, 2); b_lit(&b, "{^"); b_sym(&b, 2); b_lit(&b, "} t{^p q}"); } ent(b_done(&b), sv_choice(2) ? 7 : 2); }
void h_ix_lean(void) { B b = {0}; b_lit(&b, "x{i:"); b_in0(&b, 7, "a!}* \\\""); b_lit(&b, "\"}z"); ent(b_done(&b), sv_choice(2) ? 7 : 4); }
void h_ix_mark(void) {
  apex_options o; memset(&o, 0, sizeof o); o.enable_indices = true; apex_index_registry g = {0}; g.count = 1; B b = {0}, w = {0}; if (sv_choice(2)) { if (sv_choice(2)) b_sym(&b, 1); b_lit(&b, "<!--IDX:"); b_in0(&b, 7, "<->!i1"); } else { static const int N[] = {0, 1, 62, 63, 64, 70}; int n = N[sv_choice(6)]; int k = 1 + sv_choice(3); for (int i = 0; i < k; i++) { b_lit(&b, "<!--IDX:"); b_fill(&b, 'q', n); b_lit(&b, "-->"); } b_sym(&b, 1); b_lit(&b, "t"); } char *in = b_done(&b);
  b_lit(&w, ""); const char *t = in; while (*t) { if (starts(t, "<!--IDX:")) { const char *e = t + 8; while (*e && *e != '>' && !starts(e, "-->")) e++; if (starts(e, "-->") && e - t - 8 < 64) { b_lit(&w, "<span class=\"index\" id=\""); b_mem(&w, t + 8, e - t - 8); b_lit(&w, "\"></span>"); t = e + 3; continue; } } b_c(&w, *t++); }
  char *r = apex_render_index_markers(in, &g, &o); sv_assert(r != 0, "html"); expect_str(r, w.p, "placeholders become anchors and all other HTML is kept"); sv_cover(strcmp(in, r) ? "anchor" : "same");
}
static char lower(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int icmp(const char *a, const char *b) { while (*a && lower(*a) == lower(*b)) a++, b++; return (unsigned char)lower(*a) - (unsigned char)lower(*b); }
static const char *skip(const char *p, const char *s, const char *m) { if (!starts(p, s)) { sv_fail(m); return p; } return p + strlen(s); }
static void esc(B *b, const char *s) { for (; *s; s++) { if (*s == '<') b_lit(b, "&lt;"); else if (*s == '>') b_lit(b, "&gt;"); else if (*s == '&') b_lit(b, "&amp;"); else b_c(b, *s); } }
static void mkreg(apex_index_registry *g, int n) { memset(g, 0, sizeof *g); for (int i = 0; i < n; i++) { apex_index_entry *e = apex_index_entry_new(L[i].i, APEX_INDEX_MMARK); char num[32]; snprintf(num, sizeof num, "idxref-%d", i); e->anchor_id = strdup(num); e->subitem = L[i].s ? strdup(L[i].s) : 0; e->primary = L[i].prim; e->next = g->entries; g->entries = e; g->count++; } }
static void gen(int n, int grouped) {
  apex_index_registry g; mkreg(&g, n); apex_options o; memset(&o, 0, sizeof o); o.enable_indices = true; o.group_index_by_letter = grouped; static const char N[] = "the index is a properly nested list"; char *r = apex_generate_index_html(&g, &o); sv_emit("r", r, strlen(r)); const char *p = skip(r, "<h1 id=\"index-section\">Index</h1>\n<div class=\"index\">\n", N); int used[80] = {0}, last = -1; char letter[8] = "", old[8];
  if (!grouped) p = skip(p, "<ul>\n", N);
  for (int k = 0; k < n; k++) {
    if (grouped) { int newg = 0; if (k && starts(p, "</ul>\n</dd>\n</dl>\n")) { p = skip(p, "</ul>\n</dd>\n</dl>\n", N); newg = 1; } if (!k || newg) { p = skip(p, "<dl>\n<dt>", N); strcpy(old, letter); int q = 0; while (*p && *p != '<' && q < 6) letter[q++] = *p++; letter[q] = 0; sv_assert(strcmp(old, letter) < 0, "there is one group for each letter, in order"); p = skip(p, "</dt>\n<dd>\n<ul>\n", N); } }
    int hit = -1; for (int i = 0; i < n && hit < 0; i++) { if (used[i]) continue; B w = {0}; b_lit(&w, "<li>\n"); esc(&w, L[i].i); char lk[128]; snprintf(lk, sizeof lk, " <a class=\"index-return\" href=\"#idxref-%d\"><sup>[go]</sup></a>", i); if (L[i].prim) b_lit(&w, " <strong>"); b_lit(&w, lk); if (L[i].prim) b_lit(&w, "</strong>"); if (L[i].s) { b_lit(&w, "<ul>\n<li>\n"); esc(&w, L[i].s); b_lit(&w, lk); b_lit(&w, "</li>\n</ul>\n"); } b_lit(&w, "</li>\n"); if (starts(p, w.p)) { hit = i; p += w.n; } free(w.p); }
    if (hit < 0) { sv_fail("every entry is listed once with its whole term, subitem and link"); return; } used[hit] = 1;
    if (last >= 0) { int c = icmp(L[last].i, L[hit].i); if (!c) { if (L[last].s && L[hit].s) c = icmp(L[last].s, L[hit].s); else c = (L[last].s != 0) - (L[hit].s != 0); } if (!grouped || (an(*L[last].i) && an(*L[hit].i))) sv_assert(c <= 0, "entries are sorted by term and subitem"); } last = hit;
    if (grouped) { const char *c = L[hit].i; while (*c && !an(*c) && !(*c & 0x80)) c++; char want[8] = "?"; if (*c & 0x80) { int q = 0; do want[q++] = *c++; while (q < 4 && (*c & 0xC0) == 0x80); want[q] = 0; } else if (*c) want[0] = *c >= 'a' && *c <= 'z' ? *c - 32 : *c; sv_assert(!strcmp(letter, want), "an entry stands in the group of its letter"); }
  }
  p = skip(p, grouped ? "</ul>\n</dd>\n</dl>\n" : "</ul>\n", N); p = skip(p, "</div>\n", N); sv_assert(!*p, N); sv_cover(grouped ? "grouped" : "flat");
}
void h_ix_gen(void) { static char *I[] = {"apple", "Apple", "banana", "a<b>&c", "9 lives", "-x", "APP", "...", "\xc3\x89lan", "'zed", "zoo"}, *S[] = {0, "red", "Green", "x&y"}; int n = 1 + sv_choice(3); for (int i = 0; i < n; i++) { L[i].i = I[sv_choice(11)]; L[i].s = S[sv_choice(i < 2 ? 4 : 1)]; L[i].prim = i == 0 ? sv_choice(2) : 0; } gen(n, sv_choice(2)); }
void h_ix_long(void) { static const int N[] = {1, 2, 7, 60}, T[] = {0, 1, 500, 2040, 2100, 3000}; int n = N[sv_choice(4)], t = T[sv_choice(6)], s = sv_choice(2); for (int i = 0; i < n; i++) { B b = {0}; b_c(&b, 'a' + (i * 7) % 26); if (i < 2 && n < 60) b_fill(&b, 'q', t); if (i == 0) b_not(&b, 1, ""); char num[16]; snprintf(num, 16, "%d", i); b_lit(&b, num); L[i].i = b_done(&b); L[i].s = 0; L[i].prim = 0; if (s && i < 2) { b_fill(&b, 's', t + 1); L[i].s = b_done(&b); } } gen(n, sv_choice(2)); }
void h_ix_insert(void) {
  apex_options o; memset(&o, 0, sizeof o); o.enable_indices = true; apex_index_registry g; L[0].i = "t"; L[0].s = 0; L[0].prim = 0; int cnt = sv_choice(2); mkreg(&g, cnt); o.suppress_index = sv_choice(2); int k = sv_choice(4); B b = {0}; b_lit(&b, "a"); b_not(&b, 1, "<"); B p = {0}; b_lit(&p, b.p); static const char *M[] = {"<!--INDEX-->", "</body>", "", "<!--INDEX-->z</body>"}; b_lit(&b, M[k]); b_not(&b, 1, "<"); b_lit(&b, "</html>"); char *in = b_done(&b), *r = apex_insert_index(in, &g, &o);
  if (!cnt || o.suppress_index) { sv_assert(!r, "no index without entries or when suppressed"); sv_cover("none"); return; } char *x = apex_generate_index_html(&g, &o); B w = {0}; if (k == 2) { b_lit(&w, in); b_lit(&w, x); } else { b_lit(&w, p.p); b_lit(&w, x); b_lit(&w, in + 2 + (k == 1 ? 0 : 12)); } sv_assert(r != 0, "index"); expect_str(r, w.p, "the index stands at the marker, before the end of the body or at the end, and all other HTML is kept"); sv_cover("inserted");
}
void h_ix_place(void) { static const char *T[] = {"(!a)", "w{^}", "{i: a}"}; B b = {0}; int k = sv_choice(3); code_ctx(&b, T[k]); ent(b_done(&b), 7); }
