//@src src/extensions/citations.c
//@job C40 h_ct_br quick=60 workers=6 bound="every text of at most 8 characters over [ ] @ a ; ,"
//@job C40 h_ct_br2 quick=60 workers=6 bound="[@a followed by at most 5 characters over ] ; space @ - newline b ( :, at the start or in a line"
//@job C40 h_ct_txt quick=60 workers=6 bound="every text of at most 7 characters over @ a . [ ] space ("
//@job C40 h_ct_code quick=60 workers=6 bound="every text of at most 7 characters over ` @ a space newline; of at most 6 over < > @ a / newline"
//@job C40 h_ct_key quick=60 workers=4 bound="a key with 3 arbitrary bytes in all five forms, after every possible byte"
//@job C40 h_ct_form quick=60 workers=4 bound="5 entry kinds (both, author, year, none, missing) in 8 citation forms with 6 locators, linked or not, unified and MultiMarkdown mode"
//@job C40 h_ct_grp quick=60 workers=4 bound="groups of 1..3 citations out of 9 (shared authors, suppressed, unknown, locators), linked or not"
//@job C40 h_ct_ctx quick=60 workers=2 bound="each citation form in 19 verbatim contexts, a real one after it"
//@job C40 h_ct_mmark quick=60 workers=4 bound="mmark references with 5 prefixes, modifiers, a further character out of 1 . - # a space, groups of 1..3"
//@job C40 h_ct_mode quick=60 workers=1 bound="every mode, citations on and off, with and without citations"
//@job C40 h_ct_html quick=60 workers=4 bound="rendering 0..3 citations between 3 arbitrary bytes each, 4 look-alikes of their placeholders"
//@job C40 h_ct_long quick=60 workers=2 max_instr=300000000 bound="1..30 citations with keys, authors and locators of up to 1500 bytes"
//@job C40 h_ct_bib quick=60 workers=4 bound="any of 16 sets of 4 fields, 1..3 entries, cited in every order with repeats, 5 kinds of insertion marker, suppressed or not, 1 arbitrary byte around"
//@job C40 h_ct_biglist quick=60 workers=2 max_instr=200000000 bound="1..40 cited entries with fields of up to 3000 bytes, two of them cited again"
#include "hl.h"
#include <ctype.h>
#include "extensions/citations.h"
#include "../harness/citations_ref.h"
static const char MC[] = "each citation in running text becomes its formatted element and nothing else changes";
static void both(const char *in, int pandoc, int link) {
  apex_options o; memset(&o, 0, sizeof o); o.mode = pandoc ? APEX_MODE_UNIFIED : APEX_MODE_MULTIMARKDOWN; o.enable_citations = true; o.link_citations = link; apex_citation_registry r; memset(&r, 0, sizeof r); r.bibliography = lib_;
  char *t = apex_process_citations(in, &r, &o); B w = {0}; nref = 0; reftext(&w, in, pandoc, link); if (!t) t = strdup(in); for (const char *p = t; (p = strstr(p, "<!--CITE:")); p++) sv_assert(p > t && (p[-1] != '>' || (p > t + 2 && p[-2] == '-' && p[-3] == '-')) && !isspace((unsigned char)p[-1]), "a citation that starts a line or a quote does not turn it into an HTML block"); char *h = apex_render_citations(t, &r, &o); expect_str(h, w.p, MC);
  size_t n = 0; for (apex_citation *c = r.citations; c; c = c->next, n++) sv_assert((int)n < nref && !strcmp(c->key, refkeys[n]), "the citations are recorded in order"); sv_assert((int)n == nref && r.count == n, "every citation is recorded once"); r.bibliography = NULL; apex_free_citation_registry(&r); free(t); free(h); }
void h_ct_br(void) { B b = {0}; std_lib(); b_in0(&b, 8, "[]@a;,"); char *in = b_done(&b); both(in, 1, 0); sv_cover("br"); }
void h_ct_br2(void) { B b = {0}; std_lib(); if (sv_choice(2)) b_lit(&b, "x "); b_lit(&b, "[@a"); b_in0(&b, 5, "]; @-\nb(:"); both(b_done(&b), 1, 0); sv_cover("br2"); }
void h_ct_txt(void) { B b = {0}; std_lib(); b_in0(&b, 7, "@a.[] ("); both(b_done(&b), 1, 0); sv_cover("txt"); }
void h_ct_code(void) { B b = {0}; std_lib(); if (sv_choice(2)) b_in0(&b, 7, "`@a \n"); else b_in0(&b, 6, "<>@a/\n"); both(b_done(&b), 1, 0); sv_cover("code"); }
void h_ct_key(void) { B b = {0}; std_lib(); int k = sv_choice(6), p = sv_choice(2); if (p) b_lit(&b, "q"); else b_not(&b, 1, "`<\\{"); static const char *A[] = {"@k", "@", "[@k", "[-@k", "[#k", "@{"}, *Z[] = {" z", " z", "]", "]", "]", "} z"}; if (p && (k < 2 || k == 5)) b_c(&b, ' '); b_lit(&b, A[k]); b_not(&b, p ? 3 : 1, p ? "`\\" : "`\\"); b_lit(&b, Z[k]); both(b_done(&b), 1, 0); sv_cover("key"); }
static const char *KEYS[] = {"a", "b", "c", "d", "zz"};
void h_ct_form(void) { std_lib(); const char *k = KEYS[sv_choice(5)]; static const char *LO[] = {"", "p. 3", "33", "see & <x>", " 1-2 ", "*i*"}; const char *lo = LO[sv_choice(6)]; int f = sv_choice(8), link = sv_choice(2), mode = sv_choice(2); B b = {0}; b_lit(&b, "See "); switch (f) { case 0: b_c(&b, '@'); b_lit(&b, k); break; case 1: b_c(&b, '@'); b_lit(&b, k); b_lit(&b, " ["); b_lit(&b, lo); b_c(&b, ']'); break; case 2: case 3: b_lit(&b, f == 2 ? "[@" : "[-@"); b_lit(&b, k); if (*lo) b_lit(&b, ", "); b_lit(&b, lo); b_c(&b, ']'); break; case 4: b_lit(&b, "[@"); b_lit(&b, k); b_c(&b, ' '); b_lit(&b, lo); b_c(&b, ']'); break; case 5: b_lit(&b, "["); b_lit(&b, lo); b_lit(&b, "][#"); b_lit(&b, k); b_c(&b, ']'); break; case 6: b_lit(&b, "(@{"); b_lit(&b, k); b_lit(&b, "})"); break; case 7: b_lit(&b, "@"); b_lit(&b, k); b_lit(&b, ", "); b_lit(&b, lo); b_lit(&b, "[x](@a) [y][@b]"); break; } b_lit(&b, ". "); b_not(&b, 1, "@[`<\\"); both(b_done(&b), mode, link); sv_cover("form"); }
void h_ct_grp(void) { std_lib(); static const char *IT[] = {"@a", "@b", "@e", "-@a", "@zz", "@a, p. 3", "@e 4", "@f", "@g"}; int n = 1 + sv_choice(3); B b = {0}; b_c(&b, '['); for (int i = 0; i < n; i++) { if (i) b_lit(&b, sv_choice(2) ? ";" : "; "); b_lit(&b, IT[sv_choice(9)]); } b_lit(&b, "] x [@b]"); both(b_done(&b), 1, sv_choice(2)); sv_cover("grp"); }
static const char *CT[][2] = {{"`", "`"}, {"`` ` ", " ``"}, {"\n\n```\n", "\n```\n"}, {"\n\n~~~ x\n", "\n~~~~\n"}, {"\n\n````\n```\n", "\n````\n"}, {"\n\n    ", "\n"}, {"\n\n\t", "\n"}, {"<a href=\"", "\">"}, {"<b title='", "'>"}, {"<!-- ", " -->"}, {"{% ", " %}"}, {"[x](", ")"}, {"![x](", ")"}, {"<u", ">"}, {"\\", ""}, {"u", ""}, {"\n\n```\n\n", "\n\n```\n"}, {"\n\n  ```\n", "\n  ```\n"}, {"[x](a(b(", "))c)"}};
void h_ct_ctx(void) { std_lib(); static const char *F[] = {"@a", "[@a]", "[-@b, p. 1]", "[#a]", "[@a; @b]"}; int c = sv_choice(19), f = sv_choice(5); if (c == 15 && f) return; if (c == 14 && f == 2) return; B b = {0}; b_lit(&b, "p "); b_lit(&b, CT[c][0]); b_lit(&b, F[f]); b_lit(&b, CT[c][1]); size_t n = b.n; char *v = malloc(n + 1); memcpy(v, b.p, n + 1); b_lit(&b, " @b w\n"); both(b_done(&b), 1, 0); B w = {0}; nref = 0; reftext(&w, v, 1, 0); if (!(c == 14 && f == 4)) sv_assert(w.n == n && !memcmp(w.p, v, n), "no citations in code, HTML, link destinations and escapes"); sv_cover("ctx"); }
void h_ct_mmark(void) { std_lib(); static const char *P[] = {"RFC1", "BCP2", "STD3", "I-D.x", "W3C.y", "RFCx"}, *M[] = {"", "!", "?", "-"}; int n = 1 + sv_choice(3); B b = {0}; b_lit(&b, "t ["); for (int i = 0; i < n; i++) { if (i) b_lit(&b, ";"); b_c(&b, '@'); b_lit(&b, i ? "" : M[sv_choice(4)]); b_lit(&b, P[sv_choice(6)]); if (!i) b_in(&b, 1, "1.-#a "); } b_lit(&b, "] u"); both(b_done(&b), 1, sv_choice(2)); sv_cover("mmark"); }
void h_ct_mode(void) { std_lib(); static const apex_mode_t M[] = {APEX_MODE_COMMONMARK, APEX_MODE_GFM, APEX_MODE_KRAMDOWN, APEX_MODE_MULTIMARKDOWN, APEX_MODE_UNIFIED}; int m = sv_choice(5), on = sv_choice(2), k = sv_choice(3); apex_options o; memset(&o, 0, sizeof o); o.mode = M[m]; o.enable_citations = on; apex_citation_registry r; memset(&r, 0, sizeof r); r.bibliography = lib_; static const char *T[] = {"plain", "[@a] @b [#c]", ""}; char *t = apex_process_citations(T[k], &r, &o); if (m < 3 || !on) { sv_assert(!t && r.count == 0, "citations are processed only where they are enabled"); sv_assert(on || !apex_render_citations("<p>x</p>", &r, &o), "nothing is rendered when citations are off"); } else { sv_assert(r.count == (k == 1 ? m == 3 ? 1 : 3 : 0), "each mode has its own citation forms"); if (k != 1) sv_assert(!t || !strcmp(t, T[k]), "text without citations is unchanged"); } sv_cover("mode"); }
void h_ct_html(void) { std_lib(); apex_options o; memset(&o, 0, sizeof o); o.mode = APEX_MODE_UNIFIED; o.enable_citations = true; apex_citation_registry r; memset(&r, 0, sizeof r); r.bibliography = lib_; char *t = apex_process_citations("x[@a]y[@b; @zz]z[#d]", &r, &o); /* cut out the placeholders */ char *y = strchr(t, 'y'), *z = strrchr(t, 'z'); B b = {0}, w = {0}; static const char *E[] = {"<span class=\"citation\" data-cites=\"a\">(Au 19)</span>", "<span class=\"citation\" data-cites=\"b zz\">(b; zz)</span>", "<span class=\"citation\" data-cites=\"d\">(d)</span>"}; const char *P[3]; size_t L[3]; P[0] = t + 1; L[0] = y - t - 1; P[1] = y + 1; L[1] = z - y - 1; P[2] = z + 1; L[2] = strlen(z + 1); int n = sv_choice(4); for (int i = 0; i < 4; i++) { size_t q = b.n; b_not(&b, i == n ? 3 : 1, ""); b_mem(&w, b.p + q, b.n - q); if (i == n) break; int k = (i + sv_choice(2)) % 3; b_mem(&b, P[k], L[k]); b_lit(&w, E[k]); if (i == 0) { static const char *G[] = {"", "<!--CITE:2-5-->", "<!--CITE:9-1-->", "<!--CITE:0-0-->", "<!--CITE:-->"}; int g = sv_choice(5); b_lit(&b, G[g]); b_lit(&w, G[g]); } } expect_str(apex_render_citations(b_done(&b), &r, &o), w.p, "every citation is shown where it stands in the HTML and nothing else changes"); sv_cover("html"); }
void h_ct_long(void) { static const int N[] = {1, 30}, Z[] = {1, 240, 1500}; int n = N[sv_choice(2)], z = Z[sv_choice(3)], f = sv_choice(3); lib_ = calloc(1, sizeof *lib_); nlib = 0; B k = {0}, a = {0}; b_fill(&k, 'k', z); b_fill(&a, 'A', z); ent(k.p, a.p, "1999"); B b = {0}; for (int i = 0; i < n; i++) { b_lit(&b, f == 0 ? " @" : f == 1 ? "[@" : "[#"); b_lit(&b, k.p); if (f == 1) { b_lit(&b, ", p. "); b_fill(&b, '1', z); } b_lit(&b, f ? "]" : "!"); } both(b_done(&b), 1, sv_choice(2)); sv_cover("long"); }
/* ---- bibliography ---- */
static void fmt(B *w, int i) { Ent *e = &LIB[i]; b_lit(w, "<div id=\"ref-"); esc(w, e->id); b_lit(w, "\" class=\"csl-entry\">"); int any = 0; const char *V[] = {e->au, e->yr, e->ti, e->co, e->vo, e->pa, e->pu}, *S[] = {"", " ", ". ", ". ", " ", ": ", ". "}; for (int j = 0; j < 7; j++) if (V[j] && *V[j]) { if (any) b_lit(w, S[j]); any = 1; if (j == 2 || j == 3) b_lit(w, "<em>"); b_lit(w, V[j]); if (j == 2 || j == 3) b_lit(w, "</em>"); } b_lit(w, "</div>\n"); }
void h_ct_bib(void) {
  lib_ = calloc(1, sizeof *lib_); nlib = 0; int ne = 1 + sv_choice(2), set = sv_choice(16); static const char *ID[] = {"a", "b&", "c"}; for (int i = 0; i < 3; i++) { int s = i ? 15 - set : set; ent(ID[i], s & 1 ? "Au" : 0, s & 2 ? "19" : ""); Ent *e = &LIB[i]; e->ti = s & 4 ? "Ti" : 0; e->co = s & 8 ? "Co" : 0; e->vo = s & 1 ? "5" : 0; e->pa = s & 2 ? "1--2" : 0; e->pu = s & 4 ? "Pu" : 0; sync_(i); }
  apex_options o; memset(&o, 0, sizeof o); o.mode = APEX_MODE_UNIFIED; o.enable_citations = true; int sup = sv_choice(2); o.suppress_bibliography = sup; apex_citation_registry r; memset(&r, 0, sizeof r); r.bibliography = lib_; B in = {0}; int seen[3] = {0}, ord[3], no = 0; int m = 1 + sv_choice(2); for (int i = 0; i < m + ne - 1; i++) { int k = sv_choice(4); b_lit(&in, "[@"); b_lit(&in, k < 3 ? ID[k] : "zz"); b_lit(&in, k == 1 ? "}]" : "]"); if (k == 1) { in.n -= 5; in.p[in.n] = 0; b_lit(&in, "@{b&}]"); } if (k < 3 && !seen[k]) { seen[k] = 1; ord[no++] = k; } } char *t = apex_process_citations(in.p, &r, &o); (void)t; B g = {0}; if (no && !sup) { b_lit(&g, "<div id=\"refs\" class=\"references csl-bib-body\">\n"); for (int i = 0; i < no; i++) fmt(&g, ord[i]); b_lit(&g, "</div>\n"); }
  static const char *MK[] = {"", "<!-- REFERENCES -->", "{backmatter}", "<div id=\"refs\"></div>", "<div id=\"refs\">"}; int k = sv_choice(5); B h = {0}, w = {0}; b_lit(&h, "<p>q</p>"); b_not(&h, 1, ""); b_lit(&h, MK[k]); size_t cut = k == 3 ? h.n - 6 : h.n, skip = k == 1 || k == 2 ? strlen(MK[k]) : 0; b_not(&h, 1, "<"); b_lit(&h, "<p>e</p>"); if (k == 0 || k == 4) cut = h.n; if (!g.n) b_mem(&w, h.p, h.n); else { b_mem(&w, h.p, cut - skip); b_lit(&w, g.p); b_mem(&w, h.p + cut, h.n - cut); } expect_str(apex_insert_bibliography(b_done(&h), &r, &o), w.p, "the bibliography lists each cited entry once, in the order of the citations, at its marker or the end"); sv_cover("bib"); }
void h_ct_biglist(void) { static const int N[] = {1, 16, 17, 40}, Z[] = {1, 500, 3000}; int n = N[sv_choice(4)], z = Z[sv_choice(3)]; lib_ = calloc(1, sizeof *lib_); nlib = 0; B f = {0}, in = {0}, g = {0}; b_fill(&f, 'T', z); static char id[48][4]; b_lit(&g, "<p>x</p><div id=\"refs\" class=\"references csl-bib-body\">\n"); for (int i = 0; i < n; i++) { id[i][0] = 'k'; id[i][1] = '0' + i / 10; id[i][2] = '0' + i % 10; id[i][3] = 0; ent(id[i], i % 2 ? f.p : "A", "1"); LIB[i].ti = f.p; sync_(i); b_lit(&in, "[@"); b_lit(&in, id[i]); b_lit(&in, "]"); fmt(&g, i); } b_lit(&in, " [@"); b_lit(&in, id[0]); b_lit(&in, "] [@"); b_lit(&in, id[n / 2]); b_lit(&in, "]"); b_lit(&g, "</div>\n"); apex_options o; memset(&o, 0, sizeof o); o.mode = APEX_MODE_UNIFIED; o.enable_citations = true; apex_citation_registry r; memset(&r, 0, sizeof r); r.bibliography = lib_; apex_process_citations(in.p, &r, &o); expect_str(apex_insert_bibliography("<p>x</p>", &r, &o), g.p, "the bibliography is complete"); sv_cover("biglist"); }
