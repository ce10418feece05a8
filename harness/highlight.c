//@src src/extensions/highlight.c
//@job C01,C06 h_hl_free quick=60 workers=2 bound="every text of at most 4 (thorough 5) bytes"
//@job C06 h_hl_alpha quick=60 workers=4 bound="every text of at most 9 (thorough 10) characters over =, x, space, newline"
//@job C06 h_hl_ctx quick=60 workers=4 bound="==text== with an arbitrary byte and one of 6 inside, one of 8 and an arbitrary byte before, an arbitrary byte and one of 5 after"
//@job C06 h_hl_code quick=60 workers=4 bound="==text== inside a code span, a fenced block or an indented block, arbitrary bytes around"
//@job C06 h_hl_list quick=60 workers=2 bound="==text== after 4, 5 or 6 spaces or a tab and 3 characters over - * + 1 2 . ) x space tab: list items are marked, code is not"
//@job C06 h_hl_long quick=60 workers=2 bound="two highlights, content and gaps of up to 700 fill bytes"
//@job C06 h_hl_place quick=60 workers=2 bound="each construct in 17 places that are code or look like it (spans, fences, quotes, lists, indented blocks), one byte of the place arbitrary"
#include "code.h"
#include "highlight.h"
static int ws(char c) { return c == ' ' || c == '\t'; }
/* end of a highlight opening at t (points at closing ==), or NULL */
static const char *closer(const char *text, const char *t) {
  for (const char *c = t + 2; *c && *c != '\n' && *c != '\r'; c++) {
    if (*c == '`') { c = spanend(text, c) - 1; continue; }
    if (c[0] == '=' && c[1] == '=' && c[2] != '=' && c[2] != '+') { if (c == t + 2) return c; if (!ws(c[-1]) && c[-1] != '+') return c; } }
  return 0;
}
static char *oracle(const char *text) {
  B o = {0}; b_lit(&o, ""); const char *t = text;
  while (*t) {
    char prev = t == text ? 0 : t[-1];
    const char *x = inertend(text, t); if (x > t) { b_mem(&o, t, x - t); t = x; continue; }
    if (t[0] == '=' && t[1] == '=' && prev != '{' && prev != '=' && prev != '+') {
      char n = t[2];
      if (n && n != '=' && n != '}' && n != '+' && n != '\n' && n != '\r' && !ws(n)) {
        const char *c = closer(text, t);
        if (c && c > t + 2) { b_lit(&o, "<mark>"); b_mem(&o, t + 2, c - t - 2); b_lit(&o, "</mark>"); t = c + 2; continue; }
      }
    }
    b_c(&o, *t++);
  }
  return o.p;
}
static void go(char *in) {
  char *r = apex_process_highlights(in), *w = oracle(in);
  expect_str(r, w, "exactly the ==text== spans outside code become <mark>, everything else is unchanged");
  if (strcmp(in, r)) sv_cover("marked"); else sv_cover("unchanged");
}
void h_hl_free(void) { B b = {0}; b_sym(&b, 3 + SV_TIER); go(b_done(&b)); }
void h_hl_alpha(void) { B b = {0}; b_in0(&b, 8 + SV_TIER, "=x \n"); go(b_done(&b)); }
void h_hl_ctx(void) { B b = {0}; b_in0(&b, 1, "a\n{=<](h"); b_sym(&b, 1); b_lit(&b, "=="); b_sym(&b, 1); b_in0(&b, 1, "a= +`\n"); b_lit(&b, "=="); b_sym(&b, 1); b_in0(&b, 1, "a=+ \n"); go(b_done(&b)); }
void h_hl_code(void) {
  B b = {0}; int k = sv_choice(4); static const char *P[] = {"`a ", "x\n```\n", "p\n\n    ", "p\n\n\t"}, *S[] = {"` ", "\n```\n", "\n", "\n"};
  b_lit(&b, P[k]); b_sym(&b, 1); b_lit(&b, "==ab"); b_sym(&b, 1); b_lit(&b, "=="); b_sym(&b, 1); b_lit(&b, S[k]); b_lit(&b, "==c=="); b_sym(&b, 1); go(b_done(&b));
}
void h_hl_long(void) {
  static const int L[] = {0, 1, 5, 31, 64, 255, 700}; B b = {0}; int i = sv_choice(7), j = sv_choice(7); b_fill(&b, 'a', L[i]); b_sym(&b, 1); b_lit(&b, "==x"); b_fill(&b, 'y', L[j]); b_sym(&b, 1); b_lit(&b, "z=="); b_sym(&b, 1); b_fill(&b, 'b', L[i]); b_lit(&b, " ==second one== tail"); go(b_done(&b));
}
void h_hl_list(void) { static const char *P[] = {"    ", "     ", "      ", "\t", "", " \t"}; B b = {0}; if (sv_choice(2)) b_lit(&b, "- p\n"); b_lit(&b, P[sv_choice(6)]); b_in(&b, 3, "-*+12.)x \t"); b_lit(&b, "==ab== c\n==d=="); go(b_done(&b)); }
void h_hl_place(void) { static const char *T[] = {"==ab==", "==a `b== c` d=="}; B b = {0}; code_ctx(&b, T[sv_choice(2)]); go(b_done(&b)); }
