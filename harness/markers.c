//@src src/extensions/special_markers.c
//@job C01,C09 h_sm_free quick=60 workers=1 bound="every text of at most 4 (thorough 5) bytes, and of at most 3 (thorough 4) bytes after a newline"
//@job C01,C09 h_sm_caret quick=60 workers=1 bound="every text of at most 7 characters over ^, space, tab, newline, a"
//@job C09 h_sm_marker quick=60 workers=1 bound="each marker, one byte of it arbitrary, an arbitrary byte before and after"
//@job C09 h_sm_pair quick=60 workers=2 bound="two markers of any kind with up to 2 arbitrary bytes between and after, 0..40 copies of the first, 0..600 bytes of text after"
//@job C09 h_sm_pause quick=60 workers=1 bound="<!--PAUSE: then every text of at most 4 (thorough 6) characters over digits 0 and 7, -, >, space"
//@job C09 h_sm_place quick=60 workers=2 bound="each construct in 17 places that are code or look like it (spans, fences, quotes, lists, indented blocks), one byte of the place arbitrary"
#include "code.h"
#include "special_markers.h"
static const char PB[] = "\n\n<div class=\"mkpagebreak manualbreak\" title=\"Page break created by marker\" data-description=\"PAGE (Marker)\" style=\"page-break-after:always\"><span style=\"display:none\">&nbsp;</span></div>\n\n";
static int ws(char c) { return c == ' ' || c == '\t'; }
static char *oracle(const char *text) {
  B o = {0}; b_lit(&o, ""); const char *t = text; char num[128];
  while (*t) {
    const char *x = codeend(text, t); if (x > t) { b_mem(&o, t, x - t); t = x; continue; }
    if (*t == '^') {
      const char *a = t + 1; while (ws(*a)) a++;
      const char *b = t; while (b > text && ws(b[-1])) b--;
      if ((t == text || (b > text && b[-1] == '\n')) && (!*a || *a == '\n')) { b_lit(&o, "\n\n\xe2\x80\x8b\n\n"); t = a; if (*t) t++; continue; }
    }
    if (starts(t, "<!--BREAK-->")) { b_lit(&o, PB); t += 12; continue; }
    if (starts(t, "{::pagebreak /}")) { b_lit(&o, PB); t += 15; continue; }
    if (starts(t, "{index}")) { b_lit(&o, "<!--INDEX-->"); t += 7; continue; }
    if (starts(t, "<!--PAUSE:")) {
      const char *e = t + 10; int v = 0; while (*e >= '0' && *e <= '9') v = v * 10 + (*e++ - '0');
      if (starts(e, "-->")) { snprintf(num, sizeof num, "<div class=\"autoscroll-pause\" data-pause=\"%d\"></div>", v); b_lit(&o, num); t = e + 3; continue; }
    }
    b_c(&o, *t++);
  }
  return o.p;
}
static void go(char *in) { char *r = apex_process_special_markers(in), *w = oracle(in); expect_str(r, w, "each special marker is replaced by its element, everything else is unchanged"); if (strcmp(in, r)) sv_cover("marker"); else sv_cover("unchanged"); }
void h_sm_free(void) { B b = {0}; if (sv_choice(2)) { b_lit(&b, "a\n"); b_sym(&b, 2 + SV_TIER); } else b_sym(&b, 3 + SV_TIER); go(b_done(&b)); }
void h_sm_caret(void) { B b = {0}; b_in0(&b, 7, "^ \t\na"); go(b_done(&b)); }
static const char *M[] = {"<!--BREAK-->", "<!--PAUSE:12-->", "{::pagebreak /}", "{index}", "\n^\n"};
void h_sm_marker(void) { B b = {0}; int k = sv_choice(4), i = sv_choice(16); b_sym(&b, 1); const char *m = M[k]; sv_assume(i <= strlen(m)); b_mem(&b, m, i); b_sym(&b, 1); b_lit(&b, i < strlen(m) ? m + i + 1 : ""); b_sym(&b, 1); b_in0(&b, 1, "a \n`>"); go(b_done(&b)); }
void h_sm_pair(void) { B b = {0}; static const int N[] = {0, 1, 2, 7, 10, 40}, T[] = {0, 1, 60, 600}; int k = sv_choice(5), l = sv_choice(5), n = N[sv_choice(6)], t = T[sv_choice(4)]; for (int i = 0; i < n; i++) b_lit(&b, M[k]); b_sym(&b, 1); b_lit(&b, M[l]); b_fill(&b, 'z', t); b_sym(&b, 1); go(b_done(&b)); }
void h_sm_pause(void) { B b = {0}; b_lit(&b, "<!--PAUSE:"); b_in0(&b, 4 + (SV_TIER > 1) * 2, "07-> "); b_lit(&b, "-->"); go(b_done(&b)); }
void h_sm_place(void) { static const char *T[] = {"<!--BREAK-->", "<!--PAUSE:12-->", "{::pagebreak /}", "{index}", "^"}; B b = {0}; code_ctx(&b, T[sv_choice(5)]); go(b_done(&b)); }
