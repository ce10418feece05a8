/* Helpers shared by the harnesses. */
#ifndef HL_H
#define HL_H
#include "sv.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
/* ---- building an input from literal text, fill and symbolic holes ---- */
typedef struct { char *p; size_t n, cap; } B;
static void b_need(B *b, size_t k) { if (b->n + k + 1 > b->cap) { b->cap = (b->n + k + 1) * 2; b->p = realloc(b->p, b->cap); } }
static void b_lit(B *b, const char *s) { size_t k = strlen(s); b_need(b, k); memcpy(b->p + b->n, s, k + 1); b->n += k; }
static void b_mem(B *b, const char *s, size_t k) { b_need(b, k); memcpy(b->p + b->n, s, k); b->n += k; b->p[b->n] = 0; }
static void b_fill(B *b, char c, size_t k) { b_need(b, k); memset(b->p + b->n, c, k); b->n += k; b->p[b->n] = 0; }
static void b_sym(B *b, size_t k) { b_need(b, k); sv_sym_(b->p + b->n, k, "hole"); b->n += k; b->p[b->n] = 0; }
static void b_in(B *b, size_t k, const char *set) { b_need(b, k); sv_sym_(b->p + b->n, k, "hole"); sv_restrict_(b->p + b->n, k, set, strlen(set)); b->n += k; b->p[b->n] = 0; }
static void b_in0(B *b, size_t k, const char *set) { b_need(b, k); sv_sym_(b->p + b->n, k, "hole"); sv_restrict_(b->p + b->n, k, set, strlen(set) + 1); b->n += k; b->p[b->n] = 0; } /* NUL allowed */
static void b_not(B *b, size_t k, const char *set) { b_need(b, k); sv_sym_(b->p + b->n, k, "hole"); sv_exclude_(b->p + b->n, k, set, strlen(set) + 1); b->n += k; b->p[b->n] = 0; } /* excludes NUL too */
static void b_c(B *b, char c) { b_need(b, 1); b->p[b->n++] = c; b->p[b->n] = 0; }
/* exact-size heap copy, so that any over-read of the input is visible */
static char *b_done(B *b) { size_t k = b->p ? strlen(b->p) : 0; char *r = malloc(k + 1); if (k) memcpy(r, b->p, k); r[k] = 0; free(b->p); b->p = 0; b->n = b->cap = 0; return r; }
/* ---- comparing ---- */
static void expect_str(const char *got, const char *want, const char *msg) {
  if (!got) { sv_fail(msg); return; }
  size_t a = strlen(got), b = strlen(want);
  sv_emit("out", got, a);
  sv_assert(a == b, msg);
  sv_assert_mem_eq(got, want, a, msg);
}
static int has(const char *s, const char *sub) { return s && strstr(s, sub) != NULL; }
static int starts(const char *s, const char *p) { return strncmp(s, p, strlen(p)) == 0; }
static size_t count_of(const char *s, const char *sub) { size_t n = 0, k = strlen(sub); while ((s = strstr(s, sub))) { n++; s += k; } return n; }
#endif
