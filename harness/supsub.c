//@src src/extensions/sup_sub.c
//@job C01,C08 h_ss_free quick=60 workers=2 bound="every text of at most 4 (thorough 5) bytes"
//@job C08 h_ss_alpha quick=60 workers=4 bound="every text of at most 8 (thorough 9) characters over ^ ~ a . space"
//@job C08 h_ss_ctx quick=60 workers=4 bound="~text~ / ^text with one of 6 and an arbitrary byte before, an arbitrary byte and one of 8 inside, an arbitrary byte after"
//@job C08 h_ss_code quick=60 workers=4 bound="marker inside code span, fence, indented block, inline/display math, Liquid tag with arbitrary bytes, marker after it"
//@job C08 h_ss_sw quick=60 workers=4 bound="every text of at most 7 characters over $ ` { % } newline ^ a"
//@job C01,C08 h_ss_many quick=60 workers=2 bound="1..60 markers of one kind with 0..300 fill bytes and one arbitrary byte"
//@job C08 h_ss_place quick=60 workers=2 bound="each construct in 17 places that are code or look like it (spans, fences, quotes, lists, indented blocks), one byte of the place arbitrary"
#include "code.h"
#include "sup_sub.h"
static int ws(char c) { return c == ' ' || c == '\t'; }
static int alnum_(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int space_(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static int term(char c) { return c == '.' || c == ',' || c == ';' || c == ':' || c == '!' || c == '?'; }
static const char *wend(const char *s, char mark) { while (*s && !ws(*s) && *s != '\n' && *s != '`' && *s != mark && !term(*s)) s++; return s; }
/* end of $..$, $$..$$, \\(..\\) or \\[..\\] at p; a $ inside which a blank adjoins, or one that is not closed in its paragraph, is only a $ */
static const char *mathend(const char *t0, const char *p) {
  int esc = p > t0 && p[-1] == '\\'; const char *q;
  if (*p == '\\' && (p[1] == '(' || p[1] == '[')) { char c = p[1] == '(' ? ')' : ']'; for (q = p + 2; *q && !(*q == '\n' && cd_blankline(q + 1)); q++) if (*q == '\\' && q[1] == c) return q + 2; return p; }
  if (*p != '$' || esc) return p;
  if (p[1] == '$') { q = strstr(p + 2, "$$"); return (q ? q : p) + 2; }
  if (space_(p[1])) return p;
  for (q = p + 1; *q && !(*q == '\n' && cd_blankline(q + 1)); q++) if (*q == '$' && q[-1] != '\\') return space_(q[-1]) ? p : q + 1;
  return p;
}
static char *oracle(const char *text) {
  B o = {0}; b_lit(&o, ""); int liq = 0; const char *t = text;
  while (*t) {
    char prev = t == text ? 0 : t[-1], n = t[1];
    if (liq) { if (*t == '%' && n == '}') { b_lit(&o, "%}"); t += 2; liq = 0; } else b_c(&o, *t++); continue; }
    if (*t == '{' && n == '%') { b_lit(&o, "{%"); t += 2; liq = 1; continue; }
    const char *x = inertend(text, t); if (x == t) x = mathend(text, t); if (x > t) { b_mem(&o, t, x - t); t = x; continue; }
    int opens = n && !ws(n) && n != '\n' && n != *t;
    if (*t == '^' && opens && prev != '[') {
      const char *e = wend(t + 1, '^');
      if (e > t + 1) { b_lit(&o, "<sup>"); b_mem(&o, t + 1, e - t - 1); b_lit(&o, "</sup>"); t = e; if (*t == '^') t++; continue; }
    }
    if (*t == '~' && opens && prev != '~' && n != '>') {
      const char *s = t + 1, *e = wend(s, '~'), *close = 0; int under = 0;
      if (!term(*e)) {
        for (const char *c = s; *c && *c != '\n'; c++) {
          if (*c == '`') c = spanend(text, c) - 1; if (*c != '~') continue;
          if (c[1] == '~') { c++; continue; }
          if (c > s && space_(c[-1])) continue;
          int word = 1; for (const char *x = s; x < c; x++) if (!alnum_(*x)) word = 0;
          int after = c[1] == 0 || (unsigned char)c[1] < 127 && (c[1] > 32 || space_(c[1]));
          under = !(prev && alnum_(prev) && word && after); close = c; break;
        }
      }
      if (close) e = close;
      if (e > s) { b_lit(&o, under ? "<u>" : "<sub>"); b_mem(&o, s, e - s); b_lit(&o, under ? "</u>" : "</sub>"); t = e; if (*t == '~') t++; continue; }
    }
    b_c(&o, *t++);
  }
  return o.p;
}
static void go(char *in) { char *r = apex_process_sup_sub(in), *w = oracle(in); expect_str(r, w, "^text, ~text and ~text~ outside code, math and Liquid become sup, sub and u elements, everything else is unchanged"); if (strcmp(in, r)) sv_cover("marked"); else sv_cover("unchanged"); }
void h_ss_free(void) { B b = {0}; b_sym(&b, 3 + SV_TIER); go(b_done(&b)); }
void h_ss_alpha(void) { B b = {0}; b_in0(&b, 7 + SV_TIER, "^~a. "); go(b_done(&b)); }
void h_ss_ctx(void) { B b = {0}; int k = sv_choice(3); static const char *O[] = {"~", "^", "~"}, *C[] = {"~", "", ""}; b_in0(&b, 1, "a\n$<~["); b_sym(&b, 1); b_lit(&b, O[k]); b_sym(&b, 1); b_in0(&b, 1, "a ~^`.$\n"); b_lit(&b, C[k]); b_sym(&b, 1); b_lit(&b, "q~r~ s"); go(b_done(&b)); }
void h_ss_code(void) {
  static const char *P[] = {"`", "x\n```\n", "p\n\n    ", "p\n\n\t", "$", "$$", "{% "}, *S[] = {"`", "\n```\n", "\n", "\n", "$", "$$", " %}"}; B b = {0}; int k = sv_choice(7), m = sv_choice(3); static const char *M[] = {"^ab", "a~b~", "~ab~"};
  b_lit(&b, P[k]); b_sym(&b, 1); b_lit(&b, M[m]); b_sym(&b, 1); b_lit(&b, S[k]); b_lit(&b, " c^d e~f g~h~"); b_sym(&b, 1); go(b_done(&b));
}
void h_ss_sw(void) { B b = {0}; b_in0(&b, 5, "$`{%}\n^a"); b_lit(&b, "^x$`%}^y ~z~"); go(b_done(&b)); }
void h_ss_many(void) { static const int N[] = {1, 2, 5, 12, 60}, L[] = {0, 1, 30, 300}; static const char *M[] = {"^x", "^x ", "~y", "~y ", "a~y~", "~y~ ", "^x.", "~y,"}; B b = {0}; int n = N[sv_choice(5)], l = L[sv_choice(4)], m = sv_choice(8); b_fill(&b, 'w', l); b_lit(&b, " "); for (int i = 0; i < n; i++) { if (i == n / 2) b_sym(&b, 1); b_lit(&b, M[m]); } b_fill(&b, 'w', l); go(b_done(&b)); }
void h_ss_place(void) { static const char *T[] = {"m^2^", "H~2~O", "~under `~` line~"}; B b = {0}; code_ctx(&b, T[sv_choice(3)]); go(b_done(&b)); }
