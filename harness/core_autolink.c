//@src src/apex.c @model/cmark.c
//@job C32 h_al_none quick=60 workers=4 bound="every text of at most 5 (thorough 6) characters over ` ~ [ ] ( ) < > ! - { % } \ space tab newline a @ with no URL and no address"
//@job C32 h_al_none2 quick=60 workers=4 bound="every text of at most 6 (thorough 7) characters over ` [ ] ( ) < a newline"
//@job C32 h_al_url quick=60 workers=4 bound="a bare URL of each scheme with 3 (thorough 4) arbitrary characters over a b . ) ( * ] ? / _ = } | ~ + , ' after the host, 1 arbitrary byte after it, after start, space, newline or opening punctuation"
//@job C32 h_al_bound quick=60 workers=2 bound="a URL or address after every possible preceding byte"
//@job C32 h_al_mail quick=60 workers=4 bound="an address with 2 arbitrary characters in the local part, 3 in the domain and 1 after it"
//@job C32 h_al_angle quick=60 workers=2 bound="<scheme:...> with 3 arbitrary bytes"
//@job C32 h_al_ctx quick=60 workers=4 bound="URLs and addresses in 34 verbatim contexts (code, HTML, links, definitions, Liquid) with 2 arbitrary characters, and a real URL after each"
//@job C32 h_al_near quick=60 workers=2 bound="look-alikes that never close: the URL after an unmatched ` [ ]( <a {% is still linked"
//@job C32 h_al_long quick=60 workers=2 max_instr=200000000 bound="1..12 URLs and addresses, hosts of up to 2000 bytes"
//@job C32 h_al_off quick=20 bound="autolinking off: text unchanged"
#include "core.h"
static apex_options on(void) { apex_options o = bare(); o.enable_autolink = true; return o; }
static char *go(char *in) { apex_options o = on(); html_in = 0; return run_core(in, &o); }
static void expect(char *in, const char *w, const char *msg) { B x = {0}; b_lit(&x, w); size_t n = strlen(w); if (!n || w[n - 1] != '\n') { if (!n || w[n - 1] != '\r') b_lit(&x, "\n"); } expect_str(go(in), x.p, msg); }
static int al(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); }
static int sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static void link_(B *w, const char *pre, const char *u, size_t n) { b_lit(w, "["); b_mem(w, u, n); b_lit(w, "]("); b_lit(w, pre); b_mem(w, u, n); b_lit(w, ")"); }
/* length of the URL starting at u: stops at white space and < > ` | { }; trailing punctuation and closers without an opener do not belong to it */
static size_t urllen(const char *u, size_t scheme) {
  size_t n = scheme; while (u[n] && !sp(u[n]) && !strchr("<>`|{}", u[n])) n++; if (u[n] == '}') while (n > scheme && strchr("+-=~", u[n - 1])) n--;
  for (;;) { if (n == scheme) return 0; int p = 0, b = 0; for (size_t i = 0; i < n; i++) { if (u[i] == '(') p++; if (u[i] == ')') p--; if (u[i] == '[') b++; if (u[i] == ']') b--; }
    char c = u[n - 1]; if (strchr(".,;:?!*_~'\"", c) || (c == ')' && p < 0) || (c == ']' && b < 0)) { n--; continue; } return p || b ? 0 : n; }
}
void h_al_none(void) { B b = {0}; b_in0(&b, SV_TIER > 1 ? 6 : 5, "`~[]()<>!-{%}\\ \t\na@"); char *in = b_done(&b); if (!*in) return; expect(in, in, "text without a URL or an address is unchanged"); sv_cover("none"); }
void h_al_none2(void) { B b = {0}; b_in0(&b, SV_TIER > 1 ? 7 : 6, "`[]()<a\n"); char *in = b_done(&b); if (!*in) return; expect(in, in, "text without a URL or an address is unchanged"); sv_cover("none"); }
static const char *S[] = {"http://", "https://", "mailto:"};
void h_al_url(void) {
  static const char *P[] = {"", "see ", "a\n", "**", "x {++"}; int k = sv_choice(3), p = sv_choice(5); B b = {0}; b_lit(&b, P[p]); size_t at = b.n; b_lit(&b, S[k]); b_lit(&b, "h"); b_in(&b, SV_TIER > 1 ? 4 : 3, "ab.)(*]?/_=}|~+,'"); b_not(&b, 1, "[]()<>`{}@\\"); b_lit(&b, " t"); char *in = b_done(&b);
  for (int i = 0; i < 1; i++) sv_assume(in[strlen(in) - 3 - i] != 'h' && in[strlen(in) - 3 - i] != 'm');
  size_t n = urllen(in + at, strlen(S[k])); B w = {0}; b_mem(&w, in, at); if (n) link_(&w, "", in + at, n); b_lit(&w, in + at + n); expect(in, w.p, "a bare URL becomes a link to exactly itself, without trailing punctuation"); sv_cover("url");
}
void h_al_bound(void) {
  int mail = sv_choice(2); B b = {0}; b_lit(&b, "x "); b_not(&b, 1, "`<"); b_lit(&b, mail ? "me@ex.co z" : "http://e.co z"); char *in = b_done(&b); char c = in[2]; int ok = mail ? sp(c) : !(al(c) || strchr("([=/:@&?%", c)); if (mail && (al(c) || strchr(".+-_%", c))) ok = 2; if (c == '\t' || c == '\n') ok = 1;
  B w = {0}; if (ok == 2) { b_lit(&w, "x "); link_(&w, "mailto:", in + 2, 9); b_lit(&w, " z"); } else if (ok) { b_mem(&w, in, 3); link_(&w, mail ? "mailto:" : "", in + 3, mail ? 8 : 11); b_lit(&w, " z"); } else b_lit(&w, in);
  expect(in, w.p, "URLs are linked unless inside a word, URL or link; addresses where a word starts"); sv_cover(ok ? "linked" : "left");
}
void h_al_mail(void) {
  B b = {0}; b_lit(&b, "to "); b_in(&b, 2, "a9.+-_%!*:"); b_lit(&b, "@"); b_in(&b, 3, "b7.-_/@"); b_not(&b, 1, "`<[{\\"); b_lit(&b, " t"); char *in = b_done(&b); const char *l = in + 3; int i = 0;
  while (l[i] && (al(l[i]) || strchr(".+-_%", l[i]))) i++; int ok = i == 2 && al(l[1]); size_t d = 3, n = 3; while (l[n] && (al(l[n]) || strchr(".-_", l[n]))) n++; while (n > d && !al(l[n - 1])) n--; size_t dot = d; while (dot < n && l[dot] != '.') dot++; ok = ok && dot > d && dot + 1 < n && al(l[dot + 1]);
  B w = {0}; b_lit(&w, "to "); if (ok) { link_(&w, "mailto:", l, n); b_lit(&w, l + n); } else b_lit(&w, l); expect(in, w.p, "an address becomes a mailto: link to exactly itself"); sv_cover(ok ? "mail" : "text");
}
void h_al_angle(void) {
  int k = sv_choice(3); B b = {0}; b_lit(&b, "q<"); size_t at = b.n; b_lit(&b, S[k]); b_not(&b, 3, "`[({@\\hm|"); b_lit(&b, "y>z"); char *in = b_done(&b); const char *u = in + at; size_t n = strlen(S[k]), e = n; while ((unsigned char)u[e] > ' ' && u[e] != '<' && u[e] != '>') e++;
  B w = {0}; if (u[e] == '>' && e > n) { b_lit(&w, "q"); link_(&w, "", u, e); b_lit(&w, u + e + 1); } else { size_t m = urllen(u, n); b_lit(&w, "q<"); if (m) { link_(&w, "", u, m); } b_lit(&w, u + m); }
  expect(in, w.p, "<URL> becomes a link to exactly the URL"); sv_cover("angle");
}
static const char *CTX[][2] = {{"`", "`"}, {"``", "``"}, {"`` a` ", " ``"}, {"```\n", "\n```\n"}, {"```sh\n", "\n````\n"}, {"~~~\n", "\n~~~\n"}, {"~~~~ x\n", "\n~~~\n`\n~~~~\n"}, {"  ```\nx\n", "\n  ```\n"}, {"    ", "\n"}, {"\t", "\n"}, {"[id]: ", "\n"}, {"  [id]: ", " \"t\"\n"}, {"[t](", ")"}, {"![t](", " \"x\")"}, {"[t](<", ">)"}, {"[see ", "](u)"}, {"[see ", "][ref]"}, {"![", "](i.png)"}, {"[![a](", ")](v)"}, {"[a(", ")](z)"}, {"[t](p(q)", ")"}, {"<a href=\"", "\">"}, {"<img alt='x' src='", "'>"}, {"<a href=\"q?u=", "\">"}, {"<x y=", " z>"}, {"<a href=\"k\">", "</a>"}, {"<A href='k'>see ", " <b>x</b></A>"}, {"<!-- ", " -->"}, {"{% x ", " %}"}, {"<td title=\">\" data-x=\"", "\">"}, {"[a `]` ", "](u)"}, {"[a\\] ", "](u)"}, {"[t]( ", " )"}, {"```\n", ""}};
void h_al_ctx(void) {
  int k = sv_choice(34), f = sv_choice(3), m = sv_choice(2); static const char *F[] = {"", "para\n\n", "x\n"}; if (f == 2 && (k == 8 || k == 9)) f = 1; B b = {0}; b_lit(&b, F[f]); b_lit(&b, CTX[k][0]); if (m) b_lit(&b, "me@h.co"); else { b_lit(&b, "http://h.co"); b_in(&b, 2, "ab?=._/#"); } b_lit(&b, CTX[k][1]); B w = {0}; b_lit(&w, b.p); if (k != 33) { b_lit(&b, " http://end.x y"); b_lit(&w, " [http://end.x](http://end.x) y"); } expect(b_done(&b), w.p, "URLs and addresses in code, HTML, Liquid tags and links are left alone; what follows is linked"); sv_cover("ctx");
}
void h_al_near(void) {
  static const char *N[] = {"a ` b ", "a `` b ` c ", "[a ", "[a] ", "[a](b ", "a ](b ", "<a ", "{% a ", "<!-- a ", "a ``` b ", "\\` ", "1 < 2 ", "``` a `` ", "[a]\n[b ", "a `\n\nb` ", "~~ ", "[x\n\ny](z) ", "   "}; int k = sv_choice(18); B b = {0}, w = {0}; b_lit(&b, "p "); b_lit(&b, N[k]); b_lit(&w, b.p); b_lit(&b, "https://h"); b_in(&b, 1, "ab/"); b_lit(&b, ".c t"); char *in = b_done(&b); link_(&w, "", in + w.n, 12); b_lit(&w, " t"); expect(in, w.p, "markup that never closes does not turn autolinking off"); sv_cover("near");
}
void h_al_long(void) {
  static const int N[] = {1, 2, 5, 12}, L[] = {1, 30, 255, 2000}; int n = N[sv_choice(4)], l = L[sv_choice(4)], mail = sv_choice(2); B b = {0}, w = {0}; for (int i = 0; i < n; i++) { B u = {0}; b_lit(&u, mail ? "a@" : "http://"); b_fill(&u, 'k', l); b_lit(&u, ".c"); if (!i) b_in(&u, 1, "xyz"); else b_lit(&u, "o"); b_lit(&b, u.p); b_lit(&b, " "); link_(&w, mail ? "mailto:" : "", u.p, u.n); b_lit(&w, " "); free(u.p); } expect(b_done(&b), w.p, "every URL is linked whatever its length"); sv_cover("long");
}
void h_al_off(void) { apex_options o = bare(); html_in = 0; B b = {0}; b_lit(&b, "http://a.b"); b_not(&b, 1, ""); b_lit(&b, " m@n.op <https://x.y>\n"); char *in = b_done(&b); expect_str(run_core(in, &o), in, "with autolinking off the text is unchanged"); sv_cover("off"); }
