//@src src/extensions/inline_footnotes.c
//@job C01,C07 h_fn_free quick=60 workers=2 bound="every text of at most 4 (thorough 5) bytes"
//@job C07 h_fn_alpha quick=90 workers=6 bound="every text of at most 9 characters over ^ [ ] x space"
//@job C07 h_fn_alpha2 quick=60 workers=4 bound="a^[ then every text of at most 8 characters over [ ] ^ newline x"
//@job C07 h_fn_tmpl quick=60 workers=4 bound="two footnotes of either syntax, 2 arbitrary content bytes each, arbitrary bytes between and after"
//@job C07 h_fn_code quick=60 workers=4 bound="footnotes inside code span / backtick fence / tilde fence, arbitrary bytes inside, one footnote after it"
//@job C07 h_fn_many quick=60 workers=2 bound="1..12 footnotes, content of 0..300 fill bytes and one arbitrary byte"
//@job C07 h_fn_place quick=60 workers=2 bound="each construct in 17 places that are code or look like it (spans, fences, quotes, lists, indented blocks), one byte of the place arbitrary"
#include "code.h"
#include "inline_footnotes.h"
static int spc(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static char *oracle(const char *t) {
  B o = {0}, d = {0}; b_lit(&o, ""); b_lit(&d, ""); int n = 0; char num[24]; const char *t0 = t;
  while (*t) {
    const char *s = 0, *e = 0, *x = codeend(t0, t); if (x > t) { b_mem(&o, t, x - t); t = x; continue; }
    {
      if (t[0] == '^' && t[1] == '[') { int depth = 1; s = t + 2; for (e = s; *e; e++) { if (*e == '`') e = spanend(t0, e) - 1; else if (*e == '[') depth++; else if (*e == ']' && --depth == 0) break; } if (!*e) e = 0; }
      else if (t[0] == '[' && t[1] == '^') { int sp = 0; s = t + 2; for (e = s; *e && *e != ']' && *e != '\n'; e++) { if (*e == '`') { for (const char *f = spanend(t0, e); e < f; e++) if (spc(*e)) sp = 1; e--; } else if (spc(*e)) sp = 1; } if (*e != ']' || !sp) e = 0; }
    }
    if (e) { snprintf(num, sizeof num, "[^fn%d]", ++n); b_lit(&o, num); b_lit(&d, num); b_lit(&d, ": "); b_mem(&d, s, e - s); b_c(&d, '\n'); t = e + 1; continue; }
    b_c(&o, *t++);
  }
  if (n) { b_lit(&o, "\n\n"); b_lit(&o, d.p); }
  return o.p;
}
static void go(char *in) { char *r = apex_process_inline_footnotes(in), *w = oracle(in); expect_str(r, w, "each inline footnote becomes one numbered reference with one matching definition, other text unchanged"); if (strcmp(in, r)) sv_cover("footnote"); else sv_cover("unchanged"); }
void h_fn_free(void) { B b = {0}; b_sym(&b, 3 + SV_TIER); go(b_done(&b)); }
void h_fn_alpha(void) { B b = {0}; b_in0(&b, 9, "^[]x "); go(b_done(&b)); }
void h_fn_alpha2(void) { B b = {0}; b_lit(&b, "a^["); b_in0(&b, 8, "[]^\nx"); go(b_done(&b)); }
static void fn(B *b, int mmd) { b_lit(b, mmd ? "[^" : "^["); b_sym(b, 1); b_lit(b, mmd ? "a b" : "ab"); b_sym(b, 1); b_lit(b, "]"); }
void h_fn_tmpl(void) { B b = {0}; int m = sv_choice(2), k = sv_choice(2); fn(&b, m); b_sym(&b, 1); b_lit(&b, "mid\n"); fn(&b, k); go(b_done(&b)); }
void h_fn_code(void) { B b = {0}; int k = sv_choice(3), m = sv_choice(2); static const char *P[] = {"`", "t\n```\n", "t\n~~~\n"}, *S[] = {"`", "\n```\n", "\n~~~\n"}; b_lit(&b, P[k]); b_sym(&b, 1); b_lit(&b, m ? "^[ab]" : "[^a b]"); b_sym(&b, 1); b_lit(&b, S[k]); b_lit(&b, "x^[real note]"); b_sym(&b, 1); go(b_done(&b)); }
void h_fn_many(void) { B b = {0}; static const int L[] = {0, 1, 20, 300}; int n = 1 + sv_choice(12), l = L[sv_choice(4)]; for (int i = 0; i < n; i++) { b_lit(&b, i & 1 ? "[^a " : "^["); b_fill(&b, 'q', l); if (i == n / 2) b_sym(&b, 1); b_lit(&b, "]"); } go(b_done(&b)); }
void h_fn_place(void) { static const char *T[] = {"^[ab]", "[^a b]", "^[a `]` b]"}; B b = {0}; code_ctx(&b, T[sv_choice(3)]); go(b_done(&b)); }
