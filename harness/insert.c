//@src src/extensions/insert.c src/extensions/ial.c @model/cmark.c
//@job C01,C06 h_ins_free quick=60 workers=2 bound="every text of at most 4 (thorough 5) bytes"
//@job C06 h_ins_alpha quick=60 workers=4 bound="every text of at most 8 (thorough 9) characters over +, x, space, newline"
//@job C06 h_ins_ctx quick=60 workers=4 bound="++text++ with an arbitrary byte and one of 6 inside, one of 8 and an arbitrary byte before, an arbitrary byte and one of 5 after (no attribute list)"
//@job C06 h_ins_code quick=60 workers=4 bound="++text++ inside a code span or fenced block, arbitrary bytes around"
//@job C06 h_ins_long quick=60 workers=2 bound="two insertions, content and gaps of up to 700 fill bytes"
//@job C06 h_ins_ial quick=60 workers=4 bound="++text++{: attrs} with class/id attribute lists, 2 arbitrary bytes"
//@job C06 h_ins_ials quick=60 workers=4 bound="1..6 insertions in a row with attribute lists of 5 forms and none, contents of up to 300 bytes, 1 arbitrary byte"
//@job C06 h_ins_place quick=60 workers=2 bound="each construct in 17 places that are code or look like it (spans, fences, quotes, lists, indented blocks), one byte of the place arbitrary"
#include "code.h"
#include "insert.h"
static int ws(char c) { return c == ' ' || c == '\t'; }
static const char *closer(const char *text, const char *t) {
  for (const char *c = t + 2; *c && *c != '\n' && *c != '\r'; c++) {
    if (*c == '`') { c = spanend(text, c) - 1; continue; }
    if (c[0] == '+' && c[1] == '+' && c[2] != '+') { if (c == t + 2) return c; if (!ws(c[-1]) && c[-1] != '+') return c; } }
  return 0;
}
static char *oracle(const char *text) {
  B o = {0}; b_lit(&o, ""); const char *t = text;
  while (*t) {
    char prev = t == text ? 0 : t[-1];
    const char *x = inertend(text, t); if (x > t) { b_mem(&o, t, x - t); t = x; continue; }
    if (t[0] == '+' && t[1] == '+' && prev != '{' && prev != '+') {
      char n = t[2];
      if (n && n != '+' && n != '}' && n != '\n' && n != '\r' && !ws(n)) {
        const char *c = closer(text, t);
        if (c && c > t + 2) {
          const char *q = c + 2; while (ws(*q)) q++;
          if (*q == '{' && strchr(q, '}')) return 0; /* attribute list follows: separate obligation */
          b_lit(&o, "<ins>"); b_mem(&o, t + 2, c - t - 2); b_lit(&o, "</ins>"); t = c + 2; continue; }
      }
    }
    b_c(&o, *t++);
  }
  return o.p;
}
static void go(char *in) {
  char *w = oracle(in); if (!w) return;
  char *r = apex_process_inserts(in);
  expect_str(r, w, "exactly the ++text++ spans outside code become <ins>, everything else is unchanged");
  if (strcmp(in, r)) sv_cover("marked"); else sv_cover("unchanged");
}
void h_ins_free(void) { B b = {0}; b_sym(&b, 3 + SV_TIER); go(b_done(&b)); }
void h_ins_alpha(void) { B b = {0}; b_in0(&b, 7 + SV_TIER, "+x \n"); go(b_done(&b)); }
void h_ins_ctx(void) { B b = {0}; b_in0(&b, 1, "a\n{=<](h"); b_sym(&b, 1); b_lit(&b, "++"); b_sym(&b, 1); b_in0(&b, 1, "a= +`\n"); b_lit(&b, "++"); b_sym(&b, 1); b_in0(&b, 1, "a=+ \n"); go(b_done(&b)); }
void h_ins_code(void) {
  B b = {0}; int k = sv_choice(2); static const char *P[] = {"`a ", "x\n```\n"}, *S[] = {"` ", "\n```\n"};
  b_lit(&b, P[k]); b_sym(&b, 1); b_lit(&b, "++ab"); b_sym(&b, 1); b_lit(&b, "++"); b_sym(&b, 1); b_lit(&b, S[k]); b_lit(&b, "++c++"); b_sym(&b, 1); go(b_done(&b));
}
void h_ins_long(void) {
  static const int L[] = {0, 1, 5, 31, 64, 255, 700}; B b = {0}; int i = sv_choice(7), j = sv_choice(7); b_fill(&b, 'a', L[i]); b_sym(&b, 1); b_lit(&b, "++x"); b_fill(&b, 'y', L[j]); b_sym(&b, 1); b_lit(&b, "z++"); b_sym(&b, 1); b_fill(&b, 'b', L[i]); b_lit(&b, " ++second one++ tail"); go(b_done(&b));
}
/* attribute list: class / id carried over to the <ins> element, text kept, text after it kept */
void h_ins_ial(void) {
  B b = {0}; int id = sv_choice(2), sp = sv_choice(2), tail = sv_choice(2); b_lit(&b, "p ++"); B c = {0}; b_not(&c, 2, "+ \t\n\r`{}"); char *ct = b_done(&c);
  b_lit(&b, ct); b_lit(&b, "++"); if (sp) b_lit(&b, " "); b_lit(&b, id ? "{: #nm}" : "{: .cls}"); b_lit(&b, " q"); if (tail) b_fill(&b, 't', 400); char *in = b_done(&b);
  char *r = apex_process_inserts(in);
  B w = {0}; b_lit(&w, "p <ins markdown=\"span\""); b_lit(&w, id ? " id=\"nm\"" : " class=\"cls\""); b_lit(&w, ">"); b_lit(&w, ct); b_lit(&w, "</ins> q"); if (tail) b_fill(&w, 't', 400);
  expect_str(r, w.p, "an attribute list after ++text++ moves to the <ins> element and the text is kept"); sv_cover("ial");
}
/* several in a row, in every form */
void h_ins_ials(void) {
  static const struct { const char *l, *a; } A[] = {{"{.a}", " class=\"a\""}, {"{: .cls}", " class=\"cls\""}, {"{#i .a .b}", " id=\"i\" class=\"a b\""}, {"{k=\"v w\"}", " k=\"v w\""}, {"{: .a k=\"v\"}", " class=\"a\" k=\"v\""}, {0, 0}};
  B b = {0}, w = {0}, c = {0}; b_not(&c, 1, "+ \t\n\r`{}"); char *ct = b_done(&c); int n = 1 + sv_choice(6), k = sv_choice(6), g = sv_choice(3), big = sv_choice(3); static const int L[] = {0, 30, 300}; b_lit(&b, ""); b_lit(&w, "");
  for (int i = 0; i < n; i++) { int q = (k + i) % 6; b_lit(&b, "++"); b_lit(&b, ct); b_fill(&b, 'x', L[big]); b_lit(&b, "++"); if (q < 5) b_lit(&b, A[q].l); b_lit(&w, q < 5 ? "<ins markdown=\"span\"" : "<ins>"); if (q < 5) { b_lit(&w, A[q].a); b_c(&w, '>'); } b_lit(&w, ct); b_fill(&w, 'x', L[big]); b_lit(&w, "</ins>"); b_lit(&b, g == 0 ? "," : g == 1 ? " and " : "\n\n"); b_lit(&w, g == 0 ? "," : g == 1 ? " and " : "\n\n"); }
  char *in = b_done(&b); char *r = apex_process_inserts(in); expect_str(r, w.p, "an attribute list after ++text++ moves to the <ins> element and the text is kept"); sv_cover("ials");
}
void h_ins_place(void) { static const char *T[] = {"++ab++", "++a `b++ c` d++"}; B b = {0}; code_ctx(&b, T[sv_choice(2)]); go(b_done(&b)); }
