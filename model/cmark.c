/* Model of cmark-gfm's node API (tree surgery and accessors), following the
 * library's documented contracts; the parser itself is not modelled. */
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "cmark-gfm.h"
struct cmark_node {
  cmark_node_type type; int c0, c1; struct cmark_node *next, *prev, *parent, *first, *last;
  char *literal, *url, *title, *info; int level, list_type, start, tight, delim; void *ud; cmark_free_func udf; int cols; unsigned char al[8]; int head;
};
cmark_node_type CMARK_NODE_TABLE = 0x800c, CMARK_NODE_TABLE_ROW = 0x800d, CMARK_NODE_TABLE_CELL = 0x800e, CMARK_NODE_STRIKETHROUGH = 0xc00c;
static cmark_mem dm = {calloc, realloc, free};
cmark_mem *cmark_get_default_mem_allocator() { return &dm; }
static int isblock(int t) { return (t & CMARK_NODE_TYPE_MASK) == CMARK_NODE_TYPE_BLOCK; }
static int isinline(int t) { return (t & CMARK_NODE_TYPE_MASK) == CMARK_NODE_TYPE_INLINE; }
cmark_node *cmark_node_new(cmark_node_type t) { cmark_node *n = calloc(1, sizeof *n); n->type = t; if (t == CMARK_NODE_HEADING) n->level = 1; if (t == CMARK_NODE_LIST) n->list_type = CMARK_BULLET_LIST; return n; }
cmark_node *cmark_node_new_with_mem(cmark_node_type t, cmark_mem *m) { return cmark_node_new(t); }
void cmark_node_unlink(cmark_node *n) { if (!n) return; if (n->prev) n->prev->next = n->next; if (n->next) n->next->prev = n->prev; if (n->parent) { if (n->parent->first == n) n->parent->first = n->next; if (n->parent->last == n) n->parent->last = n->prev; } n->next = n->prev = n->parent = 0; }
static void ffree(cmark_node *n) { cmark_node *c = n->first; while (c) { cmark_node *x = c->next; ffree(c); c = x; } if (n->ud && n->udf) n->udf(&dm, n->ud); free(n->literal); free(n->url); free(n->title); free(n->info); free(n); }
void cmark_node_free(cmark_node *n) { if (!n) return; cmark_node_unlink(n); ffree(n); }
static int can(cmark_node *p, cmark_node *c) {
  if (!p || !c) return 0; for (cmark_node *a = p; a; a = a->parent) if (a == c) return 0;
  int t = c->type; if (t == CMARK_NODE_DOCUMENT) return 0;
  switch ((int)p->type) {
  case CMARK_NODE_DOCUMENT: case CMARK_NODE_BLOCK_QUOTE: case CMARK_NODE_FOOTNOTE_DEFINITION: case CMARK_NODE_ITEM: return isblock(t) && t != CMARK_NODE_ITEM;
  case CMARK_NODE_LIST: return t == CMARK_NODE_ITEM;
  case CMARK_NODE_CUSTOM_BLOCK: return 1;
  case 0xc00c: case 0x800e: case CMARK_NODE_PARAGRAPH: case CMARK_NODE_HEADING: case CMARK_NODE_EMPH: case CMARK_NODE_STRONG: case CMARK_NODE_LINK: case CMARK_NODE_IMAGE: case CMARK_NODE_CUSTOM_INLINE: return isinline(t);
  }
  return 0;
}
int cmark_node_append_child(cmark_node *p, cmark_node *c) { if (!can(p, c)) return 0; cmark_node_unlink(c); c->parent = p; c->prev = p->last; c->next = 0; if (p->last) p->last->next = c; else p->first = c; p->last = c; return 1; }
int cmark_node_prepend_child(cmark_node *p, cmark_node *c) { if (!can(p, c)) return 0; cmark_node_unlink(c); c->parent = p; c->next = p->first; c->prev = 0; if (p->first) p->first->prev = c; else p->last = c; p->first = c; return 1; }
int cmark_node_insert_before(cmark_node *n, cmark_node *s) { if (!n || !s || !n->parent || !can(n->parent, s)) return 0; cmark_node_unlink(s); s->parent = n->parent; s->next = n; s->prev = n->prev; if (n->prev) n->prev->next = s; else n->parent->first = s; n->prev = s; return 1; }
int cmark_node_insert_after(cmark_node *n, cmark_node *s) { if (!n || !s || !n->parent || !can(n->parent, s)) return 0; cmark_node_unlink(s); s->parent = n->parent; s->prev = n; s->next = n->next; if (n->next) n->next->prev = s; else n->parent->last = s; n->next = s; return 1; }
int cmark_node_replace(cmark_node *o, cmark_node *n) { if (!cmark_node_insert_before(o, n)) return 0; cmark_node_unlink(o); return 1; }
cmark_node *cmark_node_first_child(cmark_node *n) { return n ? n->first : 0; }
cmark_node *cmark_node_last_child(cmark_node *n) { return n ? n->last : 0; }
cmark_node *cmark_node_next(cmark_node *n) { return n ? n->next : 0; }
cmark_node *cmark_node_previous(cmark_node *n) { return n ? n->prev : 0; }
cmark_node *cmark_node_parent(cmark_node *n) { return n ? n->parent : 0; }
cmark_node_type cmark_node_get_type(cmark_node *n) { return n ? n->type : CMARK_NODE_NONE; }
int cmark_node_get_start_column(cmark_node *n) { return n ? n->c0 : 0; }
int cmark_node_get_end_column(cmark_node *n) { return n ? n->c1 : 0; }
void sv_node_columns(cmark_node *n, int a, int b) { n->c0 = a; n->c1 = b; }
void *cmark_node_get_user_data(cmark_node *n) { return n ? n->ud : 0; }
int cmark_node_set_user_data(cmark_node *n, void *u) { if (!n) return 0; n->ud = u; return 1; }
int cmark_node_set_user_data_free_func(cmark_node *n, cmark_free_func f) { if (!n) return 0; n->udf = f; return 1; }
static int lit(cmark_node *n) { switch ((int)n->type) { case CMARK_NODE_HTML_BLOCK: case CMARK_NODE_TEXT: case CMARK_NODE_HTML_INLINE: case CMARK_NODE_CODE: case CMARK_NODE_FOOTNOTE_REFERENCE: case CMARK_NODE_FOOTNOTE_DEFINITION: case CMARK_NODE_CODE_BLOCK: return 1; } return 0; }
const char *cmark_node_get_literal(cmark_node *n) { if (!n || !lit(n)) return 0; return n->literal ? n->literal : ""; }
int cmark_node_set_literal(cmark_node *n, const char *s) { if (!n || !lit(n)) return 0; char *o = n->literal; n->literal = s ? strdup(s) : 0; free(o); return 1; }
int cmark_node_get_heading_level(cmark_node *n) { return n && n->type == CMARK_NODE_HEADING ? n->level : 0; }
int cmark_node_set_heading_level(cmark_node *n, int l) { if (!n || l < 1 || l > 6 || n->type != CMARK_NODE_HEADING) return 0; n->level = l; return 1; }
cmark_list_type cmark_node_get_list_type(cmark_node *n) { return n && n->type == CMARK_NODE_LIST ? n->list_type : CMARK_NO_LIST; }
int cmark_node_set_list_type(cmark_node *n, cmark_list_type t) { if (!n || !(t == CMARK_BULLET_LIST || t == CMARK_ORDERED_LIST) || n->type != CMARK_NODE_LIST) return 0; n->list_type = t; return 1; }
int cmark_node_get_list_start(cmark_node *n) { return n && n->type == CMARK_NODE_LIST ? n->start : 0; }
int cmark_node_set_list_start(cmark_node *n, int s) { if (!n || s < 0 || n->type != CMARK_NODE_LIST) return 0; n->start = s; return 1; }
int cmark_node_get_list_tight(cmark_node *n) { return n && n->type == CMARK_NODE_LIST ? n->tight : 0; }
int cmark_node_set_list_tight(cmark_node *n, int t) { if (!n || n->type != CMARK_NODE_LIST) return 0; n->tight = t == 1; return 1; }
cmark_delim_type cmark_node_get_list_delim(cmark_node *n) { return n && n->type == CMARK_NODE_LIST ? n->delim : 0; }
int cmark_node_set_list_delim(cmark_node *n, cmark_delim_type d) { if (!n || n->type != CMARK_NODE_LIST) return 0; n->delim = d; return 1; }
const char *cmark_node_get_fence_info(cmark_node *n) { return n && n->type == CMARK_NODE_CODE_BLOCK ? (n->info ? n->info : "") : 0; }
int cmark_node_set_fence_info(cmark_node *n, const char *s) { if (!n || n->type != CMARK_NODE_CODE_BLOCK) return 0; free(n->info); n->info = s ? strdup(s) : 0; return 1; }
static int lk(cmark_node *n) { return n && (n->type == CMARK_NODE_LINK || n->type == CMARK_NODE_IMAGE); }
const char *cmark_node_get_url(cmark_node *n) { return lk(n) ? (n->url ? n->url : "") : 0; }
int cmark_node_set_url(cmark_node *n, const char *s) { if (!lk(n)) return 0; free(n->url); n->url = s ? strdup(s) : 0; return 1; }
const char *cmark_node_get_title(cmark_node *n) { return lk(n) ? (n->title ? n->title : "") : 0; }
int cmark_node_set_title(cmark_node *n, const char *s) { if (!lk(n)) return 0; free(n->title); n->title = s ? strdup(s) : 0; return 1; }
struct cmark_iter { cmark_node *root; cmark_event_type nev; cmark_node *nn; cmark_event_type ev; cmark_node *n; };
static int leaf(cmark_node *n) { switch ((int)n->type) { case CMARK_NODE_HTML_BLOCK: case CMARK_NODE_THEMATIC_BREAK: case CMARK_NODE_CODE_BLOCK: case CMARK_NODE_TEXT: case CMARK_NODE_SOFTBREAK: case CMARK_NODE_LINEBREAK: case CMARK_NODE_CODE: case CMARK_NODE_HTML_INLINE: return 1; } return 0; }
cmark_iter *cmark_iter_new(cmark_node *r) { if (!r) return 0; cmark_iter *i = malloc(sizeof *i); i->root = r; i->nev = CMARK_EVENT_ENTER; i->nn = r; i->ev = CMARK_EVENT_NONE; i->n = 0; return i; }
void cmark_iter_free(cmark_iter *i) { free(i); }
cmark_event_type cmark_iter_next(cmark_iter *i) {
  cmark_event_type ev = i->nev; cmark_node *n = i->nn; i->ev = ev; i->n = n; if (ev == CMARK_EVENT_DONE) return ev;
  if (ev == CMARK_EVENT_ENTER && !leaf(n)) { if (!n->first) i->nev = CMARK_EVENT_EXIT; else { i->nev = CMARK_EVENT_ENTER; i->nn = n->first; } }
  else if (n == i->root) { i->nev = CMARK_EVENT_DONE; i->nn = 0; }
  else if (n->next) { i->nev = CMARK_EVENT_ENTER; i->nn = n->next; }
  else { i->nev = CMARK_EVENT_EXIT; i->nn = n->parent; }
  return ev;
}
cmark_node *cmark_iter_get_node(cmark_iter *i) { return i->n; }
/* ---- tables and type names ---- */
const char *cmark_node_get_type_string(cmark_node *n) { if (!n) return "NONE"; switch ((int)n->type) { case CMARK_NODE_DOCUMENT: return "document"; case CMARK_NODE_BLOCK_QUOTE: return "block_quote"; case CMARK_NODE_LIST: return "list"; case CMARK_NODE_ITEM: return "item"; case CMARK_NODE_CODE_BLOCK: return "code_block"; case CMARK_NODE_HTML_BLOCK: return "html_block"; case CMARK_NODE_PARAGRAPH: return "paragraph"; case CMARK_NODE_HEADING: return "heading"; case CMARK_NODE_THEMATIC_BREAK: return "thematic_break"; case CMARK_NODE_TEXT: return "text"; case CMARK_NODE_SOFTBREAK: return "softbreak"; case CMARK_NODE_LINEBREAK: return "linebreak"; case CMARK_NODE_CODE: return "code"; case CMARK_NODE_HTML_INLINE: return "html_inline"; case CMARK_NODE_EMPH: return "emph"; case CMARK_NODE_STRONG: return "strong"; case CMARK_NODE_LINK: return "link"; case CMARK_NODE_IMAGE: return "image"; case 0x800c: return "table"; case 0x800d: return n->head ? "table_header" : "table_row"; case 0x800e: return "table_cell"; case 0xc00c: return "strikethrough"; } return "<unknown>"; }
uint16_t cmark_gfm_extensions_get_table_columns(cmark_node *n) { return n && (int)n->type == 0x800c ? n->cols : 0; }
uint8_t *cmark_gfm_extensions_get_table_alignments(cmark_node *n) { return n && (int)n->type == 0x800c ? n->al : 0; }
int cmark_gfm_extensions_get_table_row_is_header(cmark_node *n) { return n && (int)n->type == 0x800d ? n->head : 0; }
static void put(cmark_node *p, cmark_node *c) { c->parent = p; c->prev = p->last; c->next = 0; if (p->last) p->last->next = c; else p->first = c; p->last = c; }
void *tab_new(cmark_node *p, int cols, const char *al) { cmark_node *t = cmark_node_new(0x800c); t->cols = cols; memcpy(t->al, al, cols); put(p, t); return t; }
cmark_node *tab_cell(cmark_node *t, int row, int head) { cmark_node *r = t->first; while (row-- > 0 && r) r = r->next; if (!r) { r = cmark_node_new(0x800d); r->head = head; put(t, r); } cmark_node *c = cmark_node_new(0x800e); put(r, c); return c; }
