//@src src/apex.c @model/cmark.c
//@job C30 h_wrap_title quick=60 workers=3 bound="title of 4 arbitrary bytes or entity-like text, language of 2 arbitrary bytes"
//@job C30 h_wrap_body quick=60 workers=3 bound="content of 4 arbitrary bytes at its start and end, around closing tags"
//@job C30 h_wrap_ends quick=60 workers=2 bound="contents ending in any sequence of 3 of: text, whitespace, </body>, </html>"
//@job C30 h_wrap_css quick=60 workers=3 bound="0..3 stylesheets with 2 arbitrary bytes in each path, header and footer present or not, highlighter or not"
//@job C30 h_wrap_long quick=60 workers=2 max_instr=300000000 bound="title, paths, header, footer, language and content of 1..9000 bytes, one at a time or all"
//@job C30 h_wrap_doc quick=100 workers=4 bound="conversion with every combination of title source, metadata css/header/footer/language, command-line stylesheets, embedding with the file present, absent, empty or in the base directory, scripts, plugins"
//@job C30 h_wrap_scripts quick=60 workers=2 bound="0..3 scripts, possibly empty, standalone or fragment, fragment with and without final newline"
//@job C30 h_wrap_h1 quick=60 workers=4 bound="heading content of 5 characters over < > / h 1 a space newline & after <h1>, <h1 id> or none; 2 arbitrary bytes"
#include "core.h"
static void esc(B *o, const char *t) { for (; *t; t++) { if (*t == '<') b_lit(o, "&lt;"); else if (*t == '>') b_lit(o, "&gt;"); else if (*t == '"') b_lit(o, "&quot;"); else if (*t == '&') { const char *q = t + 1; if (*q == '#') q++; const char *n = q; while ((*q >= 'a' && *q <= 'z') || (*q >= 'A' && *q <= 'Z') || (*q >= '0' && *q <= '9')) q++; b_lit(o, q > n && *q == ';' ? "&" : "&amp;"); } else b_c(o, *t); } }
/* a document has the documented frame; returns where the head's styles start */
static void frame(char *r, const char *title, const char *lang, const char *links, const char *header, const char *content, size_t clen, const char *footer, int hl) {
  if (!r) { sv_fail("a document is produced"); return; } sv_emit("len", &(size_t){strlen(r)}, sizeof(size_t));
  B h = {0}; b_lit(&h, "<!DOCTYPE html>\n<html lang=\""); esc(&h, lang); b_lit(&h, "\">\n<head>\n"); sv_assert(starts(r, h.p), "the document starts with its type, language and head"); if (!starts(r, h.p)) return;
  char *p = r + h.n; sv_assert(has(p, "<meta charset=\"UTF-8\">"), "the encoding is declared"); B t = {0}; b_lit(&t, "<title>"); esc(&t, title); b_lit(&t, "</title>\n"); char *q = strstr(p, "<title>"); if (!q) { sv_fail("there is a title"); return; } sv_assert(starts(q, t.p), "the title is exactly the given text"); if (!starts(q, t.p)) return; q += t.n;
  B e = {0}; if (links) b_lit(&e, links); if (header) { b_lit(&e, "  "); b_lit(&e, header); b_c(&e, '\n'); } b_lit(&e, "</head>\n<body"); if (hl) b_lit(&e, " class=\"code-highlighted\""); b_lit(&e, ">\n\n"); b_mem(&e, content, clen); if (footer) { b_c(&e, '\n'); b_lit(&e, footer); } b_lit(&e, "\n</body>\n</html>\n");
  size_t n = strlen(q); if (n < e.n) { sv_fail("nothing of the document is lost"); return; } expect_str(q + n - e.n, e.p, "stylesheets, header, content, footer and scripts come out in full, in order"); q[n - e.n] = 0; size_t st = (hl ? 1 : 0) + (links ? 0 : 1); sv_assert(count_of(q, "<style>") == st && count_of(q, "</style>") == st, "default styles exactly when there is no stylesheet"); if (!st) sv_assert(q[0] == 0, "nothing else is in the head"); sv_assert(!has(q, "%%"), "the default styles are valid");
}
static void link1(B *o, const char *p) { b_lit(o, "  <link rel=\"stylesheet\" href=\""); esc(o, p); b_lit(o, "\">\n"); }
void h_wrap_title(void) { static const char *T[] = {"&amp;", "&#39;x", "&;", "&#;", "&lt", "a&b;c", "\"<>&", 0, ""}; int k = sv_choice(9); B b = {0}; if (T[k]) b_lit(&b, T[k]); else b_not(&b, 4, ""); char *t = b_done(&b); B l = {0}; if (k == 7) b_not(&l, 2, ""); else b_lit(&l, "de"); char *lang = b_done(&l); frame(apex_wrap_html_document("c\n", t, 0, 0, 0, 0, 0, lang), t, lang, 0, 0, "c\n", 2, 0, 0); if (k == 8) frame(apex_wrap_html_document("c\n", 0, 0, 0, 0, 0, 0, 0), "Document", "en", 0, 0, "c\n", 2, 0, 0); sv_cover("title"); }
void h_wrap_body(void) { B b = {0}; b_not(&b, 4, ""); static const char *M[] = {"<p>x</p>\n", "</body></html>", "", "</html>\n"}; b_lit(&b, M[sv_choice(4)]); b_lit(&b, "|"); b_not(&b, 4, ""); b_lit(&b, "."); char *c = b_done(&b); frame(apex_wrap_html_document(c, "t", 0, 0, 0, 0, 0, 0), "t", "en", 0, 0, c, strlen(c), 0, 0); sv_cover("body"); }
void h_wrap_ends(void) { static const char *E[] = {"", "x", " \n", "</body>", "</html>", "\t"}; int e[4]; B b = {0}; b_lit(&b, sv_choice(2) ? "<p>a</p>" : ""); for (int i = 0; i < 4; i++) { e[i] = sv_choice(6); b_lit(&b, E[e[i]]); } char *c = b_done(&b); size_t n = strlen(c), k = n; while (k && strchr(" \n\t", c[k - 1])) k--; if (k >= 7 && !strncmp(c + k - 7, "</html>", 7)) { k -= 7; while (k && strchr(" \n\t", c[k - 1])) k--; if (k >= 7 && !strncmp(c + k - 7, "</body>", 7)) n = k - 7; } frame(apex_wrap_html_document(c, "t", 0, 0, 0, 0, 0, 0), "t", "en", 0, 0, c, n, 0, 0); sv_cover("ends"); }
void h_wrap_css(void) { int n = sv_choice(4); const char *paths[4] = {0}; B l = {0}; for (int i = 0; i < n; i++) { B p = {0}; b_lit(&p, "a"); if (i < 2) b_not(&p, 2 - i, ""); b_c(&p, '0' + i); paths[i] = b_done(&p); link1(&l, paths[i]); } const char *h = sv_choice(2) ? "<script src=\"%s\"></script>" : 0, *f = sv_choice(2) ? "<p>%n</p>" : 0, *hl = sv_choice(2) ? "pygments" : 0; int z = sv_choice(2); frame(apex_wrap_html_document("<p>%d</p>\n", "t%s", n || z ? paths : 0, n, hl, h, f, 0), "t%s", "en", n ? l.p : 0, h, "<p>%d</p>\n", 10, f, hl != 0); sv_cover("css"); }
void h_wrap_long(void) { static const int N[] = {1, 200, 4090, 9000}; char *s[6]; int big = sv_choice(7), hl = sv_choice(2), k = sv_choice(4); for (int i = 0; i < 6; i++) { B b = {0}; b_fill(&b, i < 2 && hl ? '"' : 'a' + i, big == i || big == 6 ? N[k] : 1); s[i] = b_done(&b); } const char *p[] = {s[1], 0}; B l = {0}; link1(&l, s[1]); frame(apex_wrap_html_document(s[5], s[0], p, 1, hl ? "x" : 0, s[2], s[3], s[4]), s[0], s[4], l.p, s[2], s[5], strlen(s[5]), s[3], hl); if (!hl && big == 5) frame(apex_wrap_html_document(s[5], s[0], 0, 0, 0, s[2], s[3], s[4]), s[0], s[4], 0, s[2], s[5], strlen(s[5]), s[3], 0); sv_cover("long"); }
void h_wrap_doc(void) {
  apex_options o = apex_options_for_mode(APEX_MODE_UNIFIED); o.standalone = true; marks = 0; int tk = sv_choice(4), cs = sv_choice(4), em = sv_choice(2), mf = sv_choice(8), fk = sv_choice(4); static const char *two[] = {"c1.css", "c2.css", 0}; static char *sc[] = {"<script>1</script>", "", "<script>2</script>", 0};
  html_in = "<h1 id=\"x\">T &amp; <em>U</em></h1>\n"; const char *title = tk == 1 ? "A<B" : "Document"; if (tk == 1) o.document_title = "A<B"; if (tk == 2) { o.title_from_h1 = true; title = "T &amp; U"; } if (tk == 3) { o.title_from_h1 = true; o.document_title = "A"; title = "A"; }
  nmeta = 0; if (cs >= 2) { meta_k[nmeta] = "css"; meta_v[nmeta++] = "m&.css"; } if (mf & 1) { meta_k[nmeta] = "HTML Header"; meta_v[nmeta++] = "<meta h>"; } if (mf & 2) { meta_k[nmeta] = "html footer"; meta_v[nmeta++] = "<p>f</p>"; } if (mf & 4) { meta_k[nmeta] = "language"; meta_v[nmeta++] = "fr"; } if (cs & 1) { o.stylesheet_paths = two; o.stylesheet_count = 2; } o.embed_stylesheet = em; if (mf & 4 || tk == 2) o.script_tags = sc;
  o.base_directory = fk == 3 ? "b" : 0; const char *d = fk == 3 ? "b/" : ""; if (fk == 1 || fk == 3) { B p = {0}; b_lit(&p, d); b_lit(&p, cs & 1 ? "c1.css" : "m&.css"); B c = {0}; b_lit(&c, "p{"); b_not(&c, 2, ""); b_lit(&c, "}"); char *cc = b_done(&c); sv_file(p.p, cc, strlen(cc)); B l = {0}; if (cs) { if (em) { b_lit(&l, "  <style>\n"); b_lit(&l, cc); b_lit(&l, "\n  </style>\n"); } else link1(&l, cs & 1 ? "c1.css" : "m&.css"); if (cs & 1) link1(&l, "c2.css"); } char *r = run_core("x\n", &o); B f = {0}; if (mf & 2) b_lit(&f, "<p>f</p>"); if (o.script_tags) { if (f.n) b_c(&f, '\n'); b_lit(&f, "<script>1</script>\n<script>2</script>\n"); } if (cs && em) { /* the head holds the embedded text instead of a link */ char *q = r ? strstr(r, "</title>\n") : 0; if (!q || !starts(q + 9, l.p)) { sv_fail("an embedded stylesheet is its file's content in a style element"); return; } sv_assert(starts(q + 9 + l.n, mf & 1 ? "  <meta h>\n</head>" : "</head>"), "the other links stay links, in order"); sv_assert(count_of(r, "<style>") == 1, "one style element per embedded stylesheet"); sv_cover("embedded"); return; } frame(r, title, mf & 4 ? "fr" : "en", cs ? l.p : 0, mf & 1 ? "<meta h>" : 0, html_in, strlen(html_in), f.p, 0); sv_cover("doc"); return; }
  if (fk == 2 && cs & 1) { sv_file("c2.css", "", 0); } B l = {0}; if (cs & 1) { link1(&l, "c1.css"); link1(&l, "c2.css"); } else if (cs) link1(&l, "m&.css"); char *r = run_core("x\n", &o); B f = {0}; if (mf & 2) b_lit(&f, "<p>f</p>"); if (o.script_tags) { if (f.n) b_c(&f, '\n'); b_lit(&f, "<script>1</script>\n<script>2</script>\n"); } if (fk == 2 && em && cs & 1) return; frame(r, title, mf & 4 ? "fr" : "en", cs ? l.p : 0, mf & 1 ? "<meta h>" : 0, html_in, strlen(html_in), f.p, 0); sv_cover("missing");
}
void h_wrap_scripts(void) { apex_options o = bare(); static char *S[] = {"<script>a</script>", "", "b%s", "\n"}; char *sc[4] = {0}; int n = sv_choice(4); B w = {0}; for (int i = 0; i < n; i++) { sc[i] = S[sv_choice(4)]; if (*sc[i]) { b_lit(&w, sc[i]); b_c(&w, '\n'); } } o.script_tags = sc; int st = sv_choice(2); o.standalone = st; static const char *H[] = {"<p>x</p>\n", "<p>x</p>", "x\n\n"}; const char *h = H[sv_choice(3)]; char *r = html_of(h, &o); if (st) frame(r, "Document", "en", 0, 0, h, strlen(h), w.p, 0); else { B e = {0}; b_lit(&e, h); if (w.p) { if (h[strlen(h) - 1] != '\n') b_c(&e, '\n'); b_lit(&e, w.p); } expect_str(r, e.p, "scripts follow the fragment"); } sv_cover("scripts"); }
void h_wrap_h1(void) {
  apex_options o = bare(); o.standalone = o.title_from_h1 = true; int k = sv_choice(4); B b = {0}; b_lit(&b, "<h2>no</h2>"); b_lit(&b, k == 0 ? "<h1>" : k == 1 ? "<h1 id=\"i\">" : k == 2 ? "<p>" : "<h1>"); if (k == 3) b_not(&b, 2, "<>&\""); else b_in(&b, 5, "<>/h1a \n&"); b_lit(&b, k == 2 ? "</p>" : "</h1>\n<h1>second</h1>\n"); char *h = b_done(&b); char *r = html_of(h, &o); if (!r) { sv_fail("a document is produced"); return; }
  char *s = strstr(h, "<h1"); B t = {0}; if (s && strchr(s, '>')) { s = strchr(s, '>') + 1; char *e = strstr(s, "</h1>"); if (e) { int in = 0; for (; s < e; s++) { if (*s == '<') in = 1; else if (*s == '>') in = 0; else if (!in) b_c(&t, *s); } } } char *x = t.p ? t.p : ""; while (*x && strchr(" \t\n\r", *x)) x++; size_t n = strlen(x); while (n && strchr(" \t\n\r", x[n - 1])) n--; B w = {0}; b_lit(&w, "<title>"); if (n) { char *c = malloc(n + 1); memcpy(c, x, n); c[n] = 0; esc(&w, c); } else b_lit(&w, "Document"); b_lit(&w, "</title>\n"); char *q = strstr(r, "<title>"); sv_assert(q && starts(q, w.p), "the title is the text of the first top-level heading"); sv_cover("h1");
}
