//@src src/extensions/critic.c
//@job C01,C05 h_critic_free quick=60 workers=2 bound="every text of at most 7 bytes (any byte values), accepting and rejecting; of 4 (thorough 5) in markup mode"
//@job C05 h_critic_alpha quick=60 workers=4 bound="every text of at most 11 characters over {, +, }, x (and 9 over {,~,>,},a), all modes"
//@job C05 h_critic_tmpl quick=60 workers=4 bound="prefix + construct of any kind with 4 arbitrary content bytes + suffix of 2 arbitrary bytes, all modes"
//@job C05 h_critic_long quick=60 workers=2 bound="two constructs with content of 0..600 fill bytes and 2 arbitrary bytes, all modes"
//@job C05 h_critic_place quick=60 workers=2 bound="each construct in 17 places that are code or look like it (spans, fences, quotes, lists, indented blocks), one byte of the place arbitrary"
#include "code.h"
#include "apex/apex.h"
#include "critic.h"
/* Oracle: leftmost constructs, first closing marker, "~>" splits a substitution. */
static char *oracle(const char *t, int mode) {
  B o = {0}; b_lit(&o, ""); const char *t0 = t;
  while (*t) {
    if (mode == 2) { const char *x = codeend(t0, t); if (x > t) { b_mem(&o, t, x - t); t = x; continue; } }
    if (t[0] == '{') {
      char c = starts(t + 1, "++") ? '+' : starts(t + 1, "--") ? '-' : starts(t + 1, "~~") ? '~' : starts(t + 1, "==") ? '=' : starts(t + 1, ">>") ? '>' : 0;
      const char *cl = c == '+' ? "++}" : c == '-' ? "--}" : c == '~' ? "~~}" : c == '=' ? "==}" : "<<}"; if (!c) cl = 0;
      const char *e = cl ? strstr(t + 3, cl) : 0;
      if (e) {
        const char *body = t + 3, *sep = c == '~' ? strstr(body, "~>") : 0; if (sep && sep > e) sep = 0;
        const char *nw = sep ? sep + 2 : body; size_t nn = e - nw, on = sep ? (size_t)(sep - body) : 0, bn = e - body;
        if (mode == 0) { if (c == '+' || c == '=') b_mem(&o, body, bn); else if (c == '~') b_mem(&o, nw, nn); }
        else if (mode == 1) { if (c == '-' || c == '=') b_mem(&o, body, bn); else if (c == '~') b_mem(&o, body, on); }
        else if (c == '+') { b_lit(&o, "<ins class=\"critic\">"); b_mem(&o, body, bn); b_lit(&o, "</ins>"); }
        else if (c == '-') { b_lit(&o, "<del class=\"critic\">"); b_mem(&o, body, bn); b_lit(&o, "</del>"); }
        else if (c == '=') { b_lit(&o, "<mark class=\"critic\">"); b_mem(&o, body, bn); b_lit(&o, "</mark>"); }
        else if (c == '>') { b_lit(&o, "<span class=\"critic comment\">"); b_mem(&o, body, bn); b_lit(&o, "</span>"); }
        else if (on) { b_lit(&o, "<del class=\"critic break\">"); b_mem(&o, body, on); b_lit(&o, "</del><ins class=\"critic break\">"); b_mem(&o, nw, nn); b_lit(&o, "</ins>"); }
        else { b_lit(&o, "<ins class=\"critic\">"); b_mem(&o, nw, nn); b_lit(&o, "</ins>"); }
        t = e + 3; continue;
      }
    }
    b_c(&o, *t++);
  }
  return o.p;
}
static void go(char *in, int mode) {
  char *r = apex_process_critic_markup_text(in, mode);
  char *w = oracle(in, mode);
  expect_str(r, w, mode == 0 ? "accepting changes gives the edited text" : mode == 1 ? "rejecting changes gives the original text" : "markup mode wraps each change and keeps everything else");
  if (strcmp(in, r)) sv_cover("changed"); else sv_cover("unchanged");
}
void h_critic_free(void) { int m = sv_choice(3); B b = {0}; b_sym(&b, m == 2 ? 3 + SV_TIER : 7); go(b_done(&b), m); }
void h_critic_alpha(void) { int m = sv_choice(3); B b = {0}; if (sv_choice(2)) b_in0(&b, 11, "{+}x"); else b_in0(&b, 9, "{~>}a"); go(b_done(&b), m); }
static const char *OP[] = {"{++", "{--", "{==", "{>>", "{~~"}, *CL[] = {"++}", "--}", "==}", "<<}", "~~}"};
void h_critic_tmpl(void) {
  int m = sv_choice(3), k = sv_choice(5); B b = {0}; b_in0(&b, 1, "a{\n`"); b_lit(&b, OP[k]); b_sym(&b, 2); if (k == 4) b_lit(&b, "~>"); b_sym(&b, 2); b_lit(&b, CL[k]); b_sym(&b, 2); go(b_done(&b), m);
}
void h_critic_long(void) {
  static const int L[] = {0, 1, 30, 64, 130, 255, 600}; int m = sv_choice(3), k = sv_choice(5), l = L[sv_choice(7)], k2 = sv_choice(5);
  B b = {0}; b_sym(&b, 1); b_lit(&b, OP[k]); b_fill(&b, 'x', l); if (k == 4) { b_lit(&b, "~>"); b_fill(&b, 'y', l / 2); } b_sym(&b, 1); b_lit(&b, CL[k]); b_fill(&b, 'z', l / 3); b_lit(&b, OP[k2]); b_fill(&b, 'w', 5); if (k2 == 4) b_lit(&b, "~>v"); b_lit(&b, CL[k2]); b_lit(&b, "end"); go(b_done(&b), m);
}
void h_critic_place(void) { static const char *T[] = {"{++a++}", "{--a--}", "{==a==}", "{>>a<<}", "{~~a~>b~~}"}; B b = {0}; int k = sv_choice(5); code_ctx(&b, T[k]); go(b_done(&b), sv_choice(3)); }
