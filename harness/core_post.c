//@src src/apex.c @model/cmark.c
//@job C35 h_ob_addr quick=60 workers=4 bound="a mail link with 2 of 13 characters in the address, an arbitrary ASCII byte in its text, 1 before and after, an ordinary link next to it"
//@job C35 h_ob_ent quick=60 workers=4 bound="address and text of 5 characters over & a ; #, and UTF-8 characters of 1..4 bytes at either end"
//@job C35 h_ob_long quick=60 workers=2 max_instr=200000000 bound="1..12 mail links of up to 2000 bytes, nested markup in the text, cut off at any place"
//@job C36 h_im_data quick=90 workers=4 bound="image files of 1..6 bytes, any one of them arbitrary, and of up to 4000 bytes with 1 arbitrary byte"
//@job C36 h_im_type quick=60 workers=2 bound="file names with 15 extensions in any of 3 letter cases, in the base directory, absolute or relative"
//@job C36 h_im_tag quick=60 workers=4 bound="image tags with 8 kinds of source (local, missing, remote, data, empty file, directory), either quote, other attributes before and after, 2 arbitrary bytes around"
//@job C36 h_im_free quick=60 workers=4 bound="<img followed by 5 arbitrary bytes then a source; cut off tags"
//@job C36 h_im_many quick=60 workers=2 max_instr=300000000 bound="1..20 images of up to 900 bytes, up to 3000 bytes of text between"
//@job C37 h_wd_words quick=90 workers=6 bound="headings of 13 characters over a and space, level 1..6; of 6 characters in 3 prefixes over a space newline"
//@job C37 h_wd_mark quick=60 workers=4 bound="headings of 1..5 words out of 9 (short, long, entities, UTF-8, with inline tags and attributes with spaces), text around"
//@job C37 h_hr quick=60 workers=4 bound="<hr followed by 3 arbitrary bytes, 1..30 rules"
//@job C37 h_poem quick=60 workers=2 bound="1..3 code blocks out of 5 kinds (plain, language class, other attribute), text that mentions classes"
//@job C37 h_fnid quick=60 workers=2 max_instr=200000000 bound="1..130 footnotes and back links, near misses, 2 arbitrary bytes"
//@job C37 h_fnhash quick=60 workers=2 bound="documents of up to 40 bytes differing in one arbitrary byte at any place"
//@job C37 h_fnbrk quick=60 workers=1 bound="footnote sections with 2 arbitrary bytes before and after, or none"
//@job C37 h_empty quick=60 workers=4 bound="paragraphs of up to 3 pieces out of 7 (blanks, zero-width spaces, text), 2 arbitrary bytes"
//@job C38 h_ht_free quick=60 workers=6 bound="every text of at most 7 characters over # a space newline , ) 9 tab"
//@job C38 h_ht_byte quick=60 workers=4 bound="a tag of 3 arbitrary bytes after every possible byte"
//@job C38 h_ht_ctx quick=60 workers=2 bound="hashtags in 20 verbatim contexts with an arbitrary character, and a real one after each, both classes"
//@job C38 h_ht_long quick=60 workers=2 max_instr=200000000 bound="1..60 tags of up to 1500 bytes"
//@job C38 h_pr_free quick=60 workers=6 bound="every text of at most 8 characters over = a space newline"
//@job C38 h_pr_free2 quick=60 workers=6 bound="every text of at most 7 characters over ~ = a space newline"
//@job C38 h_pr_ctx quick=60 workers=2 bound="marks in 20 verbatim contexts and CriticMarkup constructs, and a real one after each; 2 arbitrary bytes inside"
//@job C38 h_pr_long quick=60 workers=2 max_instr=200000000 bound="1..60 marks of up to 1500 bytes"
#include "core.h"
#include <ctype.h>
static void hex(B *o, unsigned long c) { char t[16]; int n = 0; do { t[n++] = "0123456789ABCDEF"[c & 15]; c >>= 4; } while (c); if (n < 2) t[n++] = '0'; b_lit(o, "&#x"); while (n) b_c(o, t[--n]); b_c(o, ';'); }
/* ---- C35 ---- */
static int alnum_(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); }
static void enc(B *o, const char *s, size_t n) {
  for (size_t i = 0; i < n;) { unsigned char c = s[i]; if (c == '&') { size_t k = i + 1; while (k < n && (alnum_(s[k]) || s[k] == '#')) k++; if (k > i + 1 && k < n && s[k] == ';') { b_mem(o, s + i, k + 1 - i); i = k + 1; continue; } }
    if (c < 0x80) { hex(o, c); i++; } else if (c < 0xE0) { hex(o, (c & 31) << 6 | (s[i + 1] & 63)); i += 2; } else if (c < 0xF0) { hex(o, (c & 15) << 12 | (s[i + 1] & 63) << 6 | (s[i + 2] & 63)); i += 3; } else { hex(o, (unsigned long)(c & 7) << 18 | (s[i + 1] & 63) << 12 | (s[i + 2] & 63) << 6 | (s[i + 3] & 63)); i += 4; } }
}
static const char MO[] = "each character of a mail link's target and text becomes its own entity, entities stay, everything else is unchanged";
static const char PLAIN[] = "<p>a@b <a href=\"http://x?mailto:a\">a@b</a> ";
static void mail(B *b, B *w, B *ad, B *tx) { b_lit(b, "<a href=\""); b_mem(b, ad->p, ad->n); b_lit(b, "\" title=\"t\">"); b_mem(b, tx->p, tx->n); b_lit(b, "</a>"); b_lit(w, "<a href=\""); enc(w, ad->p, ad->n); b_lit(w, "\" title=\"t\">"); enc(w, tx->p, tx->n); b_lit(w, "</a>"); }
static apex_options ob(void) { apex_options o = bare(); o.obfuscate_emails = true; return o; }
void h_ob_addr(void) {
  apex_options o = ob(); B b = {0}, w = {0}, ad = {0}, tx = {0}; b_lit(&ad, "mailto:"); b_in(&ad, 2, "a0@?&;#'+ \t\x01\x7f"); b_lit(&ad, "@b.c"); b_lit(&tx, "x"); b_need(&tx, 1); sv_sym_(tx.p + tx.n, 1, "t"); for (int i = 0; i < 1; i++) sv_assume((unsigned char)tx.p[tx.n + i] < 128 && tx.p[tx.n + i] && tx.p[tx.n + i] != '<' && tx.p[tx.n + i] != '>'); tx.n += 1; tx.p[tx.n] = 0;
  b_lit(&b, PLAIN); b_not(&b, 1, ""); b_lit(&w, PLAIN); b_c(&w, b.p[b.n - 1]); mail(&b, &w, &ad, &tx); size_t z = b.n; b_not(&b, 1, ""); b_lit(&b, "a <a href=\"#q\">a@b</a></p>"); b_mem(&w, b.p + z, b.n - z); char *in = b_done(&b); expect_str(html_of(in, &o), w.p, MO); sv_cover("addr"); }
static const char *U8[] = {"", "a", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80"};
void h_ob_ent(void) { apex_options o = ob(); B b = {0}, w = {0}, ad = {0}, tx = {0}; b_lit(&ad, "mailto:"); if (sv_choice(2)) { b_in(&ad, 5, "&a;#"); b_lit(&tx, U8[sv_choice(5)]); b_lit(&tx, "z"); } else { b_lit(&ad, U8[sv_choice(5)]); b_lit(&tx, U8[sv_choice(5)]); b_in(&tx, 5, "&a;#"); b_lit(&tx, U8[sv_choice(5)]); } mail(&b, &w, &ad, &tx); expect_str(html_of(b_done(&b), &o), w.p, MO); sv_cover("ent"); }
void h_ob_long(void) {
  apex_options o = ob(); static const int N[] = {1, 2, 12}, Z[] = {1, 50, 2000}; B b = {0}, w = {0}; int n = N[sv_choice(3)], z = Z[sv_choice(3)], cut = sv_choice(4);
  for (int i = 0; i < n; i++) { B ad = {0}; b_lit(&ad, "mailto:"); b_fill(&ad, 'a', z); b_lit(&b, "<p>t</p><a href=\""); b_lit(&w, "<p>t</p><a href=\""); b_mem(&b, ad.p, ad.n); enc(&w, ad.p, ad.n); b_lit(&b, "\"><em>q</em>r"); b_lit(&w, "\"><em>"); enc(&w, "q", 1); b_lit(&w, "</em>"); enc(&w, "r", 1); b_lit(&b, "</a>u"); b_lit(&w, "</a>u"); }
  static const char *C[] = {"", "<a href=\"mailto:x", "<a href=\"mailto", "href=\""}; b_lit(&b, C[cut]); b_lit(&w, C[cut]); expect_str(html_of(b_done(&b), &o), w.p, MO); sv_cover("long"); }
/* ---- C36 ---- */
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static void b64(B *o, const unsigned char *d, size_t n) { for (size_t i = 0; i < n; i += 3) { b_c(o, B64[d[i] >> 2]); b_c(o, B64[(d[i] & 3) << 4 | (i + 1 < n ? d[i + 1] >> 4 : 0)]); b_c(o, i + 1 < n ? B64[(d[i + 1] & 15) << 2 | (i + 2 < n ? d[i + 2] >> 6 : 0)] : '='); b_c(o, i + 2 < n ? B64[d[i + 2] & 63] : '='); } }
static apex_options em(void) { apex_options o = bare(); o.embed_images = true; return o; }
static const char MI[] = "a readable local image becomes the data URL of exactly its bytes and type, everything else is unchanged";
void h_im_data(void) { apex_options o = em(); int k = sv_choice(3); B d = {0}, w = {0}; if (k == 0) { static const int F[] = {0, 0xff, 0xb7}; int n = 1 + sv_choice(6), at = sv_choice(n), f = F[sv_choice(3)]; b_fill(&d, f, at); b_sym(&d, 1); b_fill(&d, f ^ 0x69, n - 1 - at); } else { int n = k == 1 ? 254 + sv_choice(4) : 3998 + sv_choice(3); for (int i = 0; i < n; i++) b_c(&d, i * 37 + 11); b_sym(&d, 1); } sv_file("p.png", d.p, d.n); b_lit(&w, "<p><img src=\"data:image/png;base64,"); b64(&w, (unsigned char *)d.p, d.n); b_lit(&w, "\" alt=\"x\" /></p>"); expect_str(html_of("<p><img src=\"p.png\" alt=\"x\" /></p>", &o), w.p, MI); sv_cover("data"); }
void h_im_type(void) {
  apex_options o = em(); static const char *E[][2] = {{".png", "image/png"}, {".jpg", "image/jpeg"}, {".jpeg", "image/jpeg"}, {".gif", "image/gif"}, {".webp", "image/webp"}, {".svg", "image/svg+xml"}, {".bmp", "image/bmp"}, {".ico", "image/x-icon"}, {".x.gif", "image/gif"}, {".gif.png", "image/png"}}; int e = sv_choice(10), up = sv_choice(3), where = sv_choice(4); static const char *D[] = {"", "b/", "abs/", "b/s.u/"}, *R[] = {"", "", "abs/", "s.u/"}; o.base_directory = where == 1 || where == 3 ? "b" : where ? "" : sv_choice(2) ? "" : 0;
  B n = {0}, f = {0}, h = {0}, w = {0}; b_lit(&n, "img"); for (const char *q = E[e][0]; *q; q++) b_c(&n, up == 1 || (up == 2 && (q - E[e][0]) % 2) ? toupper((unsigned char)*q) : *q); b_lit(&f, D[where]); b_lit(&f, n.p); sv_file(f.p, "GIF", 3); b_lit(&h, "<img src=\""); b_lit(&h, R[where]); b_lit(&h, n.p); b_lit(&h, "\">"); b_lit(&w, "<img src=\"data:"); b_lit(&w, E[e][1]); b_lit(&w, ";base64,R0lG\">"); expect_str(html_of(h.p, &o), w.p, MI); sv_cover("type"); }
void h_im_tag(void) {
  apex_options o = em(); static const char *S[] = {"a.png", "no.png", "http://a.png", "https://a.png", "//a.png", "data:a.png", "e.png", "dir"}, *Pre[] = {" ", " alt=\"src=\" ", " data-src=\"a.png\" ", "\n class='x' ", "\t"}, *Post[] = {"", " />", " alt=\"q\"", " alt='src=\"a.png\"'"}; sv_file("a.png", "GIF", 3); sv_file("e.png", "", 0); sv_dir("dir"); int s = sv_choice(8); char q = sv_choice(2) ? '"' : '\''; const char *pre = Pre[sv_choice(5)], *post = Post[sv_choice(4)]; B b = {0}, w = {0};
  b_not(&b, 1, "<"); b_c(&w, b.p[0]); b_lit(&b, "<img"); b_lit(&w, "<img"); b_lit(&b, pre); b_lit(&w, pre); b_lit(&b, "src="); b_c(&b, q); b_lit(&b, S[s]); b_c(&b, q); b_lit(&w, "src="); if (!s) b_lit(&w, "\"data:image/png;base64,R0lG\""); else { b_c(&w, q); b_lit(&w, S[s]); b_c(&w, q); } b_lit(&b, post); b_lit(&w, post); b_lit(&b, ">"); b_lit(&w, ">"); size_t z = b.n; b_not(&b, 1, ""); b_mem(&w, b.p + z, 1); expect_str(html_of(b_done(&b), &o), w.p, MI); sv_cover("tag"); }
void h_im_free(void) { apex_options o = em(); sv_file("a.png", "GIF", 3); int k = sv_choice(3); B b = {0}, w = {0}; if (k < 2) { b_lit(&b, "<img"); b_in(&b, 5, "a /><s=\""); if (k) b_lit(&b, "src=\"a.png"); char *in = b_done(&b); expect_str(html_of(in, &o), in, MI); } else { b_lit(&b, "<img"); b_not(&b, 1, ">"); unsigned char c = b.p[b.n - 1]; b_lit(&b, "src=\"a.png\">"); int sp = c == ' ' || (c >= 9 && c <= 13); b_lit(&w, "<img"); b_c(&w, c); b_lit(&w, sp ? "src=\"data:image/png;base64,R0lG\">" : "src=\"a.png\">"); expect_str(html_of(b_done(&b), &o), w.p, MI); } sv_cover("free"); }
void h_im_many(void) { apex_options o = em(); static const int N[] = {1, 2, 20}, Z[] = {1, 100, 900}, T[] = {0, 40, 3000}; int n = N[sv_choice(3)], z = Z[sv_choice(3)], t = T[sv_choice(3)]; B d = {0}, b = {0}, w = {0}, u = {0}; b_fill(&d, 'D', z); sv_file("a.gif", d.p, d.n); b64(&u, (unsigned char *)d.p, d.n); for (int i = 0; i < n; i++) { b_fill(&b, 't', t); b_fill(&w, 't', t); b_lit(&b, "<img src=\"a.gif\"><img src=\"n\">"); b_lit(&w, "<img src=\"data:image/gif;base64,"); b_lit(&w, u.p); b_lit(&w, "\"><img src=\"n\">"); } b_fill(&b, 'e', t); b_fill(&w, 'e', t); expect_str(html_of(b_done(&b), &o), w.p, MI); sv_cover("many"); }
/* ---- C37: widows ---- */
static int ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
/* text of the heading -> expected; returns 0 when the last word alone is long (joining it is optional) */
static int widow(B *w, const char *s, size_t n) {
  /* start offset of each word and its visible length, tags skipped */
  struct { size_t at, len; } W_[64]; int k = 0, in = 0, tag = 0; for (size_t i = 0; i < n; i++) { if (s[i] == '<') { tag = 1; continue; } if (s[i] == '>') { tag = 0; continue; } if (tag) continue; if (ws(s[i])) { in = 0; continue; } if (!in) { in = 1; W_[k].at = i; W_[k++].len = 0; } if (((unsigned char)s[i] & 0xC0) == 0x80) continue; W_[k - 1].len++; if (s[i] == '&') while (s[i] != ';') i++; }
  if (!k) { b_mem(w, s, n); return 1; } int f = k - 1; size_t total = W_[f].len; int sure = total <= 10 || k == 1; while (f > 0 && (total <= 10 || f == k - 1)) { f--; total += 1 + W_[f].len; }
  tag = 0; for (size_t i = 0; i < n; i++) { if (s[i] == '<') tag = 1; if (!tag && ws(s[i]) && i > W_[f].at) b_lit(w, "&nbsp;"); else b_c(w, s[i]); if (s[i] == '>') tag = 0; } return sure;
}
static char *unb(const char *s) { B b = {0}; b_lit(&b, ""); while (*s) if (starts(s, "&nbsp;")) { b_c(&b, ' '); s += 6; } else { b_c(&b, *s == '\n' ? ' ' : *s); s++; } return b_done(&b); }
static const char MW[] = "trailing words of a heading are joined by &nbsp; until they are longer than 10 characters; nothing else changes";
static void wd(const char *pre, const char *t, const char *post, int lv) { apex_options o = bare(); o.enable_widont = true; B b = {0}, w = {0}; char op[] = "<h0 id=\"a b\">", cl[] = "</h0>"; op[2] = cl[3] = '0' + lv; b_lit(&b, pre); b_lit(&b, op); b_lit(&b, t); b_lit(&b, cl); b_lit(&b, post); b_lit(&w, pre); b_lit(&w, op); int sure = widow(&w, t, strlen(t)); b_lit(&w, cl); b_lit(&w, post); char *in = b_done(&b), *r = html_of(in, &o); if (sure) expect_str(r, w.p, MW); else expect_str(unb(r), unb(in), MW); }
void h_wd_words(void) { B b = {0}; if (sv_choice(2)) b_in(&b, 13, "a "); else { static const char *P[] = {"aaaa bbbb cc", "aaaaaaaaaa b", "a b c "}; b_lit(&b, P[sv_choice(3)]); b_in(&b, 6, "a \n"); } char *t = b_done(&b); size_t n = strlen(t); sv_assume(!ws(t[0]) && !ws(t[n - 1])); wd("<p>a b</p>", t, "<p>c d</p>", 1 + sv_choice(6)); sv_cover("words"); }
void h_wd_mark(void) { static const char *K[] = {"a", "bcdefgh", "ijklmnopqrstu", "&amp;&lt;&#39;", "\xC3\xA9\xC3\xA8\xC3\xA9", "<em>x</em>", "<a href=\"q r\">y</a>", "<b>s t</b>", "&"}; int n = 1 + sv_choice(5); B b = {0}; for (int i = 0; i < n; i++) { if (i) b_c(&b, ' '); int k = sv_choice(8); b_lit(&b, K[k]); } wd("x<p>a b</p>\n", b_done(&b), "\n<h2>z q</h2", 2); sv_cover("mark"); }
/* ---- C37: rules, poetry, footnotes, empty paragraphs ---- */
static const char HR[] = "<div class=\"mkpagebreak manualbreak\" title=\"Page break created from HR\" data-description=\"PAGE (HR)\" style=\"page-break-after:always\"><span style=\"display:none\">&nbsp;</span></div>";
void h_hr(void) { apex_options o = bare(); o.hr_page_break = true; B b = {0}, w = {0}; if (sv_choice(2)) { static const int N[] = {1, 2, 30}; int n = N[sv_choice(3)]; for (int i = 0; i < n; i++) { b_lit(&b, i & 1 ? "<hr class=\"x\">" : "<hr />\n"); b_lit(&w, HR); if (!(i & 1)) b_c(&w, '\n'); } } else { b_lit(&b, "<p>h</p><hr"); b_lit(&w, "<p>h</p>"); b_not(&b, 3, ""); char *s = b.p + 11; b_lit(&b, "<hr>e<hrx>"); s = b.p + 11; char c = s[0]; if (c == '>' || c == '/' || ws(c) || c == 11 || c == 12) { b_lit(&w, HR); char *e = strchr(s, '>'); s = e + 1; } else b_lit(&w, "<hr"); for (char *q = s; *q;) if (starts(q, "<hr>")) { b_lit(&w, HR); q += 4; } else b_c(&w, *q++); } expect_str(html_of(b_done(&b), &o), w.p, "each horizontal rule becomes a page break and nothing else changes"); sv_cover("hr"); }
void h_poem(void) { apex_options o = bare(); o.code_is_poetry = true; static const char *K[] = {"<pre><code>a class=\"language-x\">b</code></pre>", "<pre><code class=\"language-c\">x</code></pre>", "<pre><code id=\"i\">y</code></pre>", "<p class=\"language-z\"><code>n</code></p>", "<pre>z</pre>"}, *E[] = {"<pre><code class=\"poetry\">a class=\"language-x\">b</code></pre>", 0, "<pre><code id=\"i\" class=\"poetry\">y</code></pre>", 0, 0}; int n = 1 + sv_choice(3); B b = {0}, w = {0}; for (int i = 0; i < n; i++) { int k = sv_choice(5); b_lit(&b, K[k]); b_lit(&w, E[k] ? E[k] : K[k]); } size_t z = b.n; b_not(&b, 1, ""); b_mem(&w, b.p + z, 1); expect_str(html_of(b_done(&b), &o), w.p, "exactly the code blocks without a language get the poetry class"); sv_cover("poem"); }
static const char *ID[] = {"id=\"fn-", "id=\"fnref-", "href=\"#fn-", "href=\"#fnref-", "id=\"fnx-", "href=\"#fna-", "href=\"fn-", "<p>fn-"};
void h_fnid(void) { apex_options o = bare(); o.random_footnote_ids = true; static const int N[] = {1, 2, 99, 100, 101, 130}; B b = {0}; int n = N[sv_choice(6)], k = sv_choice(8), t = sv_choice(3); for (int i = 0; i < n; i++) { b_lit(&b, ID[n > 2 || !i ? k : sv_choice(8)]); b_lit(&b, "1\">"); b_fill(&b, 'x', i % 3 ? 0 : t * 7); } if (n < 3) b_not(&b, 2, "\""); char *in = b_done(&b), *r = html_of(in, &o); sv_assert(r != 0, "output"); char h[10] = {0}; char *q = r; int got = 0;
  for (char *s = in; *s;) { int j = 0; while (j < 4 && !starts(s, ID[j])) j++; size_t l = j < 4 ? strlen(ID[j]) : 1; sv_assert(strlen(q) >= l, "kept"); sv_assert_mem_eq(q, s, l, "footnote ids gain the prefix and nothing else changes"); q += l; s += l; if (j < 4) { if (!got) { memcpy(h, q, 9); got = 1; for (int i = 0; i < 8; i++) sv_assert((h[i] >= '0' && h[i] <= '9') || (h[i] >= 'a' && h[i] <= 'f'), "8 hex digits"); sv_assert(h[8] == '-', "prefix ends with a dash"); } sv_assert(memcmp(q, h, 9) == 0, "references and notes share one prefix"); q += 9; } } sv_assert(*q == 0, "nothing is added"); sv_emit("out", r, strlen(r)); sv_cover("id"); }
void h_fnhash(void) { apex_options o = bare(); o.random_footnote_ids = true; static const int N[] = {1, 2, 7, 20, 40}; int n = N[sv_choice(5)], at = sv_choice(3); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1; B a = {0}, b = {0}; b_fill(&a, 'k', n); b_fill(&b, 'k', n); a.p[at] = 'A' + sv_choice(3); unsigned char c; sv_sym_(&c, 1, "c"); sv_assume(c && c != '\r' && c != '\n' && c != (unsigned char)a.p[at]); b.p[at] = c; html_in = "id=\"fn-1\""; char *r1 = run_core(a.p, &o), *r2 = run_core(b.p, &o); char x[9] = {0}, y[9] = {0}; memcpy(x, r1 + 7, 8); memcpy(y, r2 + 7, 8); int d = 0; for (int i = 0; i < 8; i++) d |= x[i] ^ y[i]; sv_assert(d != 0, "documents that differ in a byte get different footnote ids"); sv_cover("hash"); }
static const char FB[] = "<div class=\"mkpagebreak manualbreak\" title=\"Page break created before footnotes\" data-description=\"PAGE (Footnotes)\" style=\"page-break-after:always\"><span style=\"display:none\">&nbsp;</span></div>";
void h_fnbrk(void) { apex_options o = bare(); o.page_break_before_footnotes = true; int on = sv_choice(3); B b = {0}, w = {0}; b_not(&b, 2, ""); b_mem(&w, b.p, 2); if (on == 1) b_lit(&w, FB); const char *s = on == 1 ? "<section class=\"footnotes\" data-footnotes>x</section>" : on ? "<section class=\"foot\">" : "footnotes"; b_lit(&b, s); b_lit(&w, s); size_t z = b.n; b_not(&b, 2, ""); b_mem(&w, b.p + z, 2); expect_str(html_of(b_done(&b), &o), w.p, "a page break stands before the footnotes and nothing else changes"); sv_cover("brk"); }
void h_empty(void) { apex_options o = bare(); o.enable_marked_extensions = true; static const char *K[] = {"", " ", "\n", "&#8203;", "\xE2\x80\x8B", "a", "\xE2\x80"}; B b = {0}, w = {0}; b_lit(&b, "<p>t</p>"); b_lit(&w, "<p>t</p>"); int gone = 1, len = 0; B c = {0}; b_lit(&c, ""); for (int i = 0; i < 3; i++) { int k = sv_choice(7); b_lit(&c, K[k]); } int y = sv_choice(2); if (y) { size_t q = c.n; b_not(&c, 2, "<"); (void)q; } for (size_t i = 0; i < c.n;) { len = 1; if (ws(c.p[i])) i++; else if (starts(c.p + i, "&#8203;")) i += 7; else if (starts(c.p + i, "\xE2\x80\x8B")) i += 3; else { gone = 0; break; } } if (!len) gone = 0; b_lit(&b, "<p>"); b_mem(&b, c.p, c.n); b_lit(&b, "</p>u<p></p>"); if (!gone) { b_lit(&w, "<p>"); b_mem(&w, c.p, c.n); b_lit(&w, "</p>"); } b_lit(&w, "u<p></p>"); expect_str(html_of(b_done(&b), &o), w.p, "paragraphs of only blanks and zero-width spaces are removed, all else is kept"); sv_cover("empty"); }
/* ---- C38 ---- */
static void nl(B *w) { if (w->n && w->p[w->n - 1] != '\n' && w->p[w->n - 1] != '\r') b_c(w, '\n'); }
static apex_options ht(int st) { apex_options o = bare(); o.enable_hashtags = true; o.style_hashtags = st; html_in = 0; return o; }
static void tagref(B *w, const char *t, int st) { size_t n = strlen(t); b_lit(w, "");
  for (size_t i = 0; i < n;) { if (i == 0 || t[i - 1] == '\n') { size_t k = i; while (t[k] == ' ') k++; if (k - i >= 4 || t[k] == '\t') { while (i < n && t[i] != '\n') b_c(w, t[i++]); continue; } }
    if (t[i] == '#' && (i == 0 || t[i - 1] == ' ' || t[i - 1] == '\t' || t[i - 1] == '\n') && alnum_(t[i + 1])) { size_t e = i + 1; while (e < n && !strchr("# \n\t\r\v\f,;.!)]<`", t[e])) e++; if (t[e] == '#') e++; b_lit(w, st ? "<span class=\"mkstyledtag\">" : "<span class=\"mkhashtag\">"); b_mem(w, t + i, e - i); b_lit(w, "</span>"); i = e; } else b_c(w, t[i++]); } }
static const char MH[] = "each hashtag in running text is wrapped in its span and nothing else changes";
void h_ht_free(void) { B b = {0}, w = {0}; b_in0(&b, 7, "#a \n,)9\t"); char *in = b_done(&b); if (!*in) return; int st = sv_choice(2); apex_options o = ht(st); run_core(in, &o); tagref(&w, in, st); nl(&w); expect_str(fed, w.p, MH); sv_cover("free"); }
void h_ht_byte(void) { B b = {0}, w = {0}; b_lit(&b, "x"); b_not(&b, 1, "`[<{\\"); b_lit(&b, "#t"); b_not(&b, 3, "`[<{"); b_lit(&b, " #u"); char *in = b_done(&b); apex_options o = ht(0); run_core(in, &o); tagref(&w, in, 0); nl(&w); expect_str(fed, w.p, MH); sv_cover("byte"); }
static const char *CT[][2] = {{"`", "`"}, {"`` ` ", " ``"}, {"\n\n```\n", "\n```\n"}, {"\n\n~~~ x\n", "\n~~~~\n"}, {"\n\n````\n```\n", "\n````\n"}, {"\n\n    ", "\n"}, {"\n\n\t", "\n"}, {"<a href=\"", "\">"}, {"<b title='", "'>"}, {"<!-- ", " -->"}, {"<!-- a\n", "\n-->"}, {"[a](", ")"}, {"![a](", ")"}, {"[a](u \"", "\")"}, {"\n\n[i]: ", "\n"}, {"<span class=\"", "\">"}, {"\n\n```\n\n", "\n\n```\n"}, {"</b ", ">"}, {"<x-y ", ">"}, {"\n\n  ```\n", "\n  ```\n"}};
void h_ht_ctx(void) { int c = sv_choice(20), st = sv_choice(2); apex_options o = ht(st); B b = {0}, w = {0}; b_lit(&b, "p "); b_lit(&b, CT[c][0]); b_lit(&b, " #t"); b_in(&b, 1, "a#,1"); b_lit(&b, CT[c][1]); b_mem(&w, b.p, b.n); b_lit(&b, " #v w\n"); b_lit(&w, st ? " <span class=\"mkstyledtag\">#v</span> w\n" : " <span class=\"mkhashtag\">#v</span> w\n"); run_core(b_done(&b), &o); expect_str(fed, w.p, MH); sv_cover("ctx"); }
void h_ht_long(void) { static const int N[] = {1, 3, 60}, Z[] = {1, 100, 1500}; int n = N[sv_choice(3)], z = Z[sv_choice(3)]; B b = {0}, w = {0}; for (int i = 0; i < n; i++) { b_lit(&b, i % 3 ? " #" : "\n#"); b_fill(&b, 't', z); if (i == n - 1) b_in(&b, 1, "a,#?"); } char *in = b_done(&b); apex_options o = ht(0); run_core(in, &o); tagref(&w, in, 0); nl(&w); expect_str(fed, w.p, MH); sv_cover("long"); }
static size_t run_(const char *p) { size_t n = 0; while (p[n] == *p) n++; return n; }
static int blankfrom(const char *p) { while (*p == ' ' || *p == '\t' || *p == '\r') p++; return !*p || *p == '\n'; }
/* verbatim text at p for texts over = ~ a space newline: fences and indented lines */
static size_t verb(const char *t, const char *p) { if (p != t && p[-1] != '\n') return 0; const char *q = p; while (*q == ' ') q++; const char *e = q; while (*e && *e != '\n') e++; if (q - p >= 4) return e - p; if (*q != '~' || run_(q) < 3) return 0; size_t r = run_(q); while (*e) { const char *l = e + 1, *s = l; while (*s == ' ') s++; e = s; while (*e && *e != '\n') e++; const char *z = s; while (*z == '~') z++; if (s - l < 4 && (size_t)(z - s) >= r) { while (*z == ' ') z++; if (z == e) break; } } return e - p; }
static void proof(B *w, const char *t) { b_lit(w, ""); for (const char *p = t; *p;) { size_t v = verb(t, p); if (v) { b_mem(w, p, v); p += v; continue; } if ((*p == '=' || *p == '~') && run_(p) == 2 && p[2] && !ws(p[2])) { const char *q = p + 2, *hit = 0; while (*q && !hit) { size_t k = verb(t, q); if (*q == '\n' && blankfrom(q + 1)) break; if (k) { q += k; continue; } if (*q == *p) { size_t r = run_(q); if (r == 2 && !ws(q[-1])) hit = q; else q += r; } else q++; } if (hit) { b_lit(w, *p == '=' ? "{==" : "{--"); b_mem(w, p + 2, hit - p - 2); b_lit(w, *p == '=' ? "==}" : "--}"); p = hit + 2; continue; } } size_t r = *p == '=' || *p == '~' ? run_(p) : 1; b_mem(w, p, r); p += r; } }
static const char MP[] = "==text== and ~~text~~ in running text become CriticMarkup and nothing else changes";
static apex_options pr(void) { apex_options o = bare(); o.proofreader_mode = true; html_in = 0; return o; }
static void chkp(char *in) { if (!*in) return; apex_options o = pr(); B w = {0}; run_core(in, &o); proof(&w, in); nl(&w); expect_str(fed, w.p, MP); }
void h_pr_free(void) { B b = {0}; b_in0(&b, 8, "=a \n"); chkp(b_done(&b)); sv_cover("free"); }
void h_pr_free2(void) { B b = {0}; b_in0(&b, 7, "~=a \n"); chkp(b_done(&b)); sv_cover("free2"); }
void h_pr_ctx(void) {
  static const char *CR[][2] = {{"{==", "==}"}, {"{~~", "~>y~~}"}, {"{++", "++}"}, {"{--", "--}"}, {"{>>", "<<}"}, {"\\", ""}}; int c = sv_choice(26 - 3), til = sv_choice(2); const char *m = til ? "~~" : "=="; const char **k = c < 17 ? (c < 11 ? CT[c] : CT[c == 11 ? 15 : c == 12 ? 16 : c == 13 ? 17 : c == 14 ? 19 : c == 15 ? 2 : 0]) : CR[c - 17]; apex_options o = pr(); B b = {0}, w = {0}; b_lit(&b, "p "); b_lit(&b, k[0]); if (c == 22) b_lit(&b, til ? "~a=" : "=a~"); else { b_lit(&b, c >= 17 ? "a" : m); b_in(&b, 2, "a.1"); b_lit(&b, c >= 17 ? "b" : m); } b_lit(&b, k[1]); b_mem(&w, b.p, b.n); b_lit(&b, " "); b_lit(&b, m); b_lit(&b, "vw"); b_lit(&b, m); b_lit(&b, " w\n"); b_lit(&w, til ? " {--vw--} w\n" : " {==vw==} w\n"); run_core(b_done(&b), &o); expect_str(fed, w.p, MP); sv_cover("ctx"); }
void h_pr_long(void) { static const int N[] = {1, 3, 60}, Z[] = {1, 100, 1500}; int n = N[sv_choice(3)], z = Z[sv_choice(3)]; B b = {0}; for (int i = 0; i < n; i++) { b_lit(&b, i % 3 ? " ==" : "\n~~"); b_fill(&b, 't', z); if (i == n - 1) b_in(&b, 1, "a =~\n"); b_lit(&b, i % 3 ? "==" : "~~"); } chkp(b_done(&b)); sv_cover("long"); }
