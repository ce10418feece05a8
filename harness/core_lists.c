//@src src/apex.c @model/cmark.c
//@job C39 h_ml_seq quick=60 workers=6 bound="every sequence of 5 blocks out of 5 kinds (bullet and ordered lists, tight and loose, paragraph), 1 or 2 items each, in the document, a quote or a list item"
//@job C39 h_ml_nest quick=60 workers=6 bound="every sequence of 3 blocks in each item of 2 adjacent lists, in every order"
//@job C39 h_ml_many quick=60 workers=2 bound="runs of 1..40 lists, alternating or equal, arbitrary start number"
//@job C39 h_ml_off quick=60 workers=2 bound="all sequences of 3 blocks with merging off, in every mode"
#include "core.h"
static B got; static char num;
static void put(B *o, cmark_node *n) {
  for (cmark_node *c = cmark_node_first_child(n); c; c = cmark_node_next(c)) switch (cmark_node_get_type(c)) {
    case CMARK_NODE_LIST: b_c(o, cmark_node_get_list_type(c) == CMARK_BULLET_LIST ? '*' : '1'); b_c(o, cmark_node_get_list_tight(c) ? 't' : 'l'); { int s = cmark_node_get_list_start(c); b_c(o, '0' + s % 10); b_c(o, '0' + s / 10); } b_c(o, '('); put(o, c); b_c(o, ')'); break;
    case CMARK_NODE_ITEM: b_c(o, '['); put(o, c); b_c(o, ']'); break;
    case CMARK_NODE_BLOCK_QUOTE: b_c(o, '{'); put(o, c); b_c(o, '}'); break;
    case CMARK_NODE_PARAGRAPH: put(o, c); break;
    default: b_lit(o, cmark_node_get_literal(c) ? cmark_node_get_literal(c) : "?"); }
}
static void see(cmark_node *d) { got.n = 0; b_lit(&got, ""); put(&got, d); }
static cmark_node *para(void) { cmark_node *p = cmark_node_new(CMARK_NODE_PARAGRAPH), *t = cmark_node_new(CMARK_NODE_TEXT); char z[2] = {num++, 0}; cmark_node_set_literal(t, z); cmark_node_append_child(p, t); return p; }
static cmark_node *list(int k, int start) { cmark_node *l = cmark_node_new(CMARK_NODE_LIST); cmark_node_set_list_type(l, k & 1 ? CMARK_ORDERED_LIST : CMARK_BULLET_LIST); cmark_node_set_list_tight(l, !(k & 2)); cmark_node_set_list_start(l, start); return l; }
static cmark_node *item(cmark_node *l) { cmark_node *i = cmark_node_new(CMARK_NODE_ITEM); cmark_node_append_child(i, para()); cmark_node_append_child(l, i); return i; }
/* reference on the serialised form: block kinds of one level */
typedef struct { int k, start, n; B body; } Blk;
static void close_(B *w, Blk *b) { if (!b->k) b_mem(w, b->body.p, b->body.n); else { b_c(w, b->k & 1 ? '1' : '*'); b_c(w, b->k & 2 ? 'l' : 't'); b_c(w, '0' + b->start % 10); b_c(w, '0' + b->start / 10); b_c(w, '('); b_mem(w, b->body.p, b->body.n); b_c(w, ')'); } }
static void merge(B *w, Blk *v, int n, int on) { b_lit(w, ""); for (int i = 0; i < n;) { Blk c = v[i++]; while (on && i < n && c.k && v[i].k && (c.k & 1) != (v[i].k & 1)) { b_mem(&c.body, v[i].body.p, v[i].body.n); if (v[i].k & 2) c.k |= 2; i++; } close_(w, &c); } }
static const char ML[] = "adjacent lists of different kinds become one list of the first kind; order, items and everything else stay";
static int nb, kk[48], it[48], where, st; static Blk V[48];
/* kinds: 0 paragraph, 4 bullet tight, 5 ordered tight, 6 bullet loose, 7 ordered loose */
static void build_flat(cmark_node *d) { cmark_node *at = d; if (where == 1) { at = cmark_node_new(CMARK_NODE_BLOCK_QUOTE); cmark_node_append_child(d, at); } else if (where == 2) { cmark_node *l = list(4, 0); cmark_node_append_child(d, l); at = item(l); }
  for (int i = 0; i < nb; i++) { Blk *b = &V[i]; memset(b, 0, sizeof *b); b_lit(&b->body, ""); b->k = kk[i]; if (!kk[i]) { b_c(&b->body, num); cmark_node_append_child(at, para()); continue; } b->start = kk[i] & 1 ? st : 0; cmark_node *l = list(kk[i], b->start); cmark_node_append_child(at, l); for (int j = 0; j < it[i]; j++) { b_c(&b->body, '['); b_c(&b->body, num); b_c(&b->body, ']'); item(l); } } }
static void run_lists(apex_options *o, int on) { num = 'A'; core_build = build_flat; core_seen = see; run_core("x\n", o); B w = {0}; if (where == 1) b_c(&w, '{'); if (where == 2) b_lit(&w, "*t00([A"); B in = {0}; merge(&in, V, nb, on); b_lit(&w, in.p); if (where == 1) b_c(&w, '}'); if (where == 2) b_lit(&w, "])"); expect_str(got.p, w.p, ML); }
static apex_options ml(void) { apex_options o = bare(); o.allow_mixed_list_markers = true; return o; }
static const int KD[] = {0, 4, 5, 6, 7};
void h_ml_seq(void) { apex_options o = ml(); nb = 5; where = sv_choice(3); st = 1; int two = sv_choice(2); for (int i = 0; i < 5; i++) { kk[i] = KD[sv_choice(5)]; it[i] = 1 + (two && i % 2); } run_lists(&o, 1); sv_cover("seq"); }
static Blk N[2][4]; static int nk[2][3], outer[2];
static void build_nest(cmark_node *d) { for (int a = 0; a < 2; a++) { cmark_node *l = list(outer[a], 0); cmark_node_append_child(d, l); cmark_node *i = item(l); memset(&V[a], 0, sizeof V[a]); b_lit(&V[a].body, "["); b_c(&V[a].body, num - 1); V[a].k = outer[a]; for (int j = 0; j < 3; j++) { Blk *b = &N[a][j]; memset(b, 0, sizeof *b); b->k = nk[a][j]; if (!b->k) { b_c(&b->body, num); cmark_node_append_child(i, para()); } else { cmark_node *m = list(b->k, 0); b_c(&b->body, '['); b_c(&b->body, num); b_c(&b->body, ']'); item(m); cmark_node_append_child(i, m); } } B in = {0}; merge(&in, N[a], 3, 1); b_lit(&V[a].body, in.p); b_c(&V[a].body, ']'); } }
void h_ml_nest(void) { apex_options o = ml(); static const int K2[] = {0, 4, 5}; for (int a = 0; a < 2; a++) { outer[a] = 4 + sv_choice(2); for (int j = 0; j < 3; j++) nk[a][j] = K2[sv_choice(3)]; } num = 'A'; core_build = build_nest; core_seen = see; run_core("x\n", &o); B w = {0}; merge(&w, V, 2, 1); expect_str(got.p, w.p, ML); sv_cover("nest"); }
void h_ml_many(void) { apex_options o = ml(); static const int C[] = {1, 2, 5, 40}; nb = C[sv_choice(4)]; where = 0; int alt = sv_choice(4); unsigned char s; sv_sym_(&s, 1, "s"); sv_assume(s < 100); st = s; for (int i = 0; i < nb; i++) { kk[i] = alt == 0 ? 4 + (i & 1) : alt == 1 ? 5 - (i & 1) : alt == 2 ? 4 : 4 + (i % 3 == 2); it[i] = 1; } run_lists(&o, 1); sv_cover("many"); }
void h_ml_off(void) { static const apex_mode_t M[] = {APEX_MODE_COMMONMARK, APEX_MODE_GFM, APEX_MODE_KRAMDOWN, APEX_MODE_MULTIMARKDOWN, APEX_MODE_UNIFIED}; int m = sv_choice(5), set = sv_choice(3); apex_options o = apex_options_for_mode(M[m]); if (set) o.allow_mixed_list_markers = set == 1; nb = 3; where = 0; st = 2; for (int i = 0; i < 3; i++) { kk[i] = KD[sv_choice(5)]; it[i] = 1; } run_lists(&o, set ? set == 1 : m >= 3); sv_cover("off"); }
