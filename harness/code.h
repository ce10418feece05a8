/* Reference: which parts of a Markdown text are code, HTML or URLs. */
#ifndef CODE_H
#define CODE_H
#include "hl.h"
static int cd_blankline(const char *p) { while (*p == ' ' || *p == '\t' || *p == '\r') p++; return !*p || *p == '\n'; }
static const char *cd_text(const char *p, int *col) { int n = 0; for (;; p++) { if (*p == ' ') n++; else if (*p == '\t') n = n - n % 4 + 4; else break; } *col = n; return p; }
static const char *cd_item(const char *p) { /* after a list marker and its blank, or 0 */
  if (*p == '-' || *p == '+' || *p == '*') p++; else { int n = 0; while (*p >= '0' && *p <= '9') p++, n++; if (!n || n > 9 || (*p != '.' && *p != ')')) return 0; p++; }
  return *p == ' ' || *p == '\t' ? p + 1 : 0;
}
static const char *cd_eol(const char *p) { while (*p && *p != '\n') p++; return p; }
/* an indented block opens after a blank line, unless the text above it (back to the paragraph of the last line at the margin) is a list, a footnote or a definition */
static int cd_indented(const char *t0, const char *p) {
  int col; const char *c = cd_text(p, &col); if (col < 4 || cd_blankline(p) || cd_item(c)) return 0;
  int acc = 0, para = 0, margin = 0, after = 1;
  for (const char *l = t0; l < p; l = *cd_eol(l) ? cd_eol(l) + 1 : cd_eol(l)) {
    if (cd_blankline(l)) { if (!after) { acc = margin ? para : acc | para; para = margin = 0; } after = 1; continue; }
    int k; const char *x = cd_text(l, &k); if (cd_item(x) || *x == ':' || (*x == '[' && x[1] == '^')) para = 1; if (!k) margin = 1; after = 0;
  }
  return after && !acc;
}
static int cd_fence(const char *p, char *k, int *bare) { int n = 0; if (*p != '`' && *p != '~') return 0; *k = *p; while (*p == *k) p++, n++; *bare = cd_blankline(p); if (*k == '`') for (const char *q = p; *q && *q != '\n'; q++) if (*q == '`') return 0; return n < 3 ? 0 : n; }
/* end of the code block that starts at the line at p (its last line, without the newline); p if there is none */
static const char *blockend(const char *t0, const char *p) {
  int col; if (cd_indented(t0, p)) { const char *e = cd_eol(p); for (const char *l = e; *l;) { l++; cd_text(l, &col); if (!cd_blankline(l)) { if (col < 4) break; e = cd_eol(l); } l = cd_eol(l); } return e; }
  int quote = 0; const char *f = cd_text(p, &col), *x; for (;;) { if (*f == '>') { quote = 1; f++; } else if ((x = cd_item(f))) f = x; else break; f = cd_text(f, &col); }
  char k, k2; int bare, n = cd_fence(f, &k, &bare); if (!n) return p;
  const char *e = cd_eol(f); while (*e) { const char *l = cd_text(e + 1, &col); if (quote && *l != '>') break; while (quote && *l == '>') l = cd_text(l + 1, &col); int m = cd_fence(l, &k2, &bare); e = cd_eol(l); if (m >= n && m && bare && k2 == k) break; }
  return e;
}
/* end of the code span whose backticks are at p, or of the backticks; one backtick if they are escaped */
static const char *spanend(const char *t0, const char *p) {
  int esc = 0; for (const char *q = p; q > t0 && q[-1] == '\\'; q--) esc = !esc; if (esc) return p + 1;
  int n = 0; while (p[n] == '`') n++; const char *q = p + n; int run = 0;
  for (;; q++) { if (*q == '`') { run++; continue; } if (run == n) return q; run = 0; if (!*q || (*q == '\n' && cd_blankline(q + 1))) return p + n; }
}
static const char *codeend(const char *t0, const char *p) { if (p == t0 || p[-1] == '\n') { const char *e = blockend(t0, p); if (e > p) return e; } return *p == '`' ? spanend(t0, p) : p; }
static int cd_al(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int cd_an(char c) { return cd_al(c) || (c >= '0' && c <= '9'); }
static int cd_sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
/* end of the HTML tag, comment or autolink at p */
static const char *tagend(const char *p) {
  if (starts(p, "<!--")) { const char *e = strstr(p + 4, "-->"); return e ? e + 3 : p; }
  const char *q = p + 1; if (*q == '/') q++; if (!cd_al(*q)) return p; while (cd_an(*q) || *q == '-') q++;
  if (*q == ':' || *q == '@' || *q == '.') { while (*q && *q != ' ' && *q != '\t' && *q != '\r' && *q != '\n' && *q != '<' && *q != '>') q++; return *q == '>' ? q + 1 : p; }
  if (*q != '>' && *q != '/' && !cd_sp(*q)) return p;
  for (; *q != '>'; q++) { if (!*q || *q == '<' || (*q == '\n' && cd_blankline(q + 1))) return p; if (*q == '"' || *q == '\'') { const char *e = strchr(q + 1, *q); if (e) q = e; } }
  return q + 1;
}
/* end of what is no running text at p: code, tag, link destination, link definition or bare URL */
static const char *inertend(const char *t0, const char *p) {
  const char *e = codeend(t0, p), *q; int bol = p == t0 || p[-1] == '\n'; if (e > p) return e;
  if (*p == '<') return tagend(p);
  if (*p == '(' && !(p == t0) && p[-1] == ']') { int d = 0; for (q = p; *q && !(*q == '\n' && cd_blankline(q + 1)); q++) { if (*q == '\\' && q[1]) q++; else if (*q == '(') d++; else if (*q == ')' && !--d) return q + 1; } return p; }
  if (bol && *p == '[' && p[1] != '^') { for (q = p; *q && *q != '\n' && *q != ']'; q++); if (*q == ']' && q[1] == ':') return cd_eol(p); }
  if ((starts(p, "http://") || starts(p, "https://")) && (p == t0 || !cd_an(p[-1]))) { while (*p && !strchr(" \t\r\n<>`", *p)) p++; return p; }
  return p;
}
/* trigger text s in each kind of place that is code, or only looks like it, with one byte of the place arbitrary */
static void code_ctx(B *b, const char *s) {
  static const char *P[] = {"`", "``a ` ", "x\n```\n", "~~~ a\n", "> ```\n> ", "- a\n\n  ```\n  ", "p\n\n    a\n\n    ", "p\n    ", "- i\n\n    ", "````\n```\n", "`a\n\n", "\\`", "p\n\n\t", "1. i\n\np\n\n    ", "    ", "[^n]: t\n\n    ", "p\n    x\n\n     "},
    *S[] = {"`", " ``", "\n```\n", "\n~~~\n", "\n> ```\n", "\n  ```\n", "\n", "\n", "\n", "\n````\n", "`", "`", "\n", "\n", "\n", "\n", "\n"};
  int k = sv_choice(17), at = sv_choice(32), w = strlen(P[k]), n = w + strlen(S[k]); sv_assume(at <= n); /* at == n: none */
  for (int i = 0; i < w; i++) if (i == at) b_sym(b, 1); else b_c(b, P[k][i]);
  b_lit(b, s); for (int i = w; i < n; i++) if (i == at) b_sym(b, 1); else b_c(b, S[k][i - w]);
  b_lit(b, "y "); b_lit(b, s); b_lit(b, " z\n");
}
#define CODE_BOUND "17 places that are code or look like it, one byte of each arbitrary"
#endif
