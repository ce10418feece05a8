//@src src/extensions/emoji.c
//@job C13 h_em_all quick=60 workers=2 bound="every GitHub emoji name, arbitrary byte before and after; html and plain-text variants, reverse lookup"
//@job C01,C13 h_em_alpha quick=60 workers=4 bound="every text of at most 8 characters over : x a 1 - _ | space newline (both variants)"
//@job C01,C13 h_em_free quick=60 workers=4 bound="every text of at most 6 bytes without markup characters (both variants)"
//@job C13 h_em_name quick=60 workers=4 bound=":nam: with one arbitrary byte at any position, upper case and dashes, image names"
//@job C01,C13 h_em_html quick=60 workers=4 bound="emoji in text, attribute values, img tags and index placeholders, arbitrary bytes inside"
//@job C01,C13 h_em_many quick=60 workers=2 bound="1..60 emoji of expanding kinds, 0..400 bytes of text after, one arbitrary byte"
//@job C01,C14 h_ac_exact quick=60 workers=4 bound="autocorrect: every correct name (any case, dashes) kept, arbitrary bytes around"
//@job C14 h_ac_typo quick=120 workers=4 max_instr=60000000 bound="autocorrect: names with one arbitrary byte; result is a closest name"
//@job C01,C14 h_ac_text quick=60 workers=4 bound="autocorrect: every text of at most 5 characters over : | - space newline"
//@job C01,C14 h_ac_many quick=60 workers=2 max_instr=200000000 bound="autocorrect: 1..12 short wrong names in a row"
#include "hl.h"
#include "emoji.h"
#include "emoji_ref.h"
char *apex_replace_emoji_text(const char *); char *apex_autocorrect_emoji_names(const char *); const char *apex_find_emoji_name(const char *, size_t);
static const Ref *look(const char *n, size_t k) { for (int i = 0; i < NREF; i++) if (strlen(REF[i].n) == k && !memcmp(REF[i].n, n, k)) return &REF[i]; return 0; }
static size_t norm(char *d, const char *s, size_t k) { for (size_t i = 0; i < k; i++) { char c = s[i]; d[i] = c == '-' ? '_' : c >= 'A' && c <= 'Z' ? c + 32 : c; } return k; }
static int tab(const char *s, size_t k) { for (size_t i = 0; i < k; i++) if (s[i] != '|' && s[i] != '-') return 0; return 1; }
static void img(B *o, const Ref *r) { b_lit(o, "<img class=\"emoji\" src=\""); b_lit(o, r->i); b_lit(o, "\" alt=\":"); b_lit(o, r->n); b_lit(o, ":\" height=\"20\" width=\"20\" align=\"absmiddle\">"); }
/* text without tags */
static char *oracle(const char *t, int plain) {
  B o = {0}; b_lit(&o, ""); char nm[64];
  while (*t) {
    if (*t == ':') {
      const char *e = strchr(t + 1, ':'); size_t k = e ? e - t - 1 : 0;
      if (e && k > 0 && k < 49) {
        int blank = 0; for (size_t i = 0; i < k; i++) if (t[1 + i] == ' ' || t[1 + i] == '\t' || t[1 + i] == '\n' || plain && t[1 + i] == '\r') blank = 1;
        if (!blank) {
          const Ref *r = tab(t + 1, k) ? 0 : look(nm, norm(nm, t + 1, k));
          if (r && r->u) { b_lit(&o, r->u); t = e + 1; continue; }
          if (r && !plain) { img(&o, r); t = e + 1; continue; }
          if (!plain || tab(t + 1, k)) { b_mem(&o, t, k + 2); t = e + 1; continue; }
        }
      }
    }
    b_c(&o, *t++);
  }
  return o.p;
}
static void go(char *in) {
  int plain = sv_choice(2); char *r = plain ? apex_replace_emoji_text(in) : apex_replace_emoji(in);
  expect_str(r, oracle(in, plain), "known :names: become their emoji and everything else is unchanged"); if (strcmp(r, in)) sv_cover("emoji"); else sv_cover("same");
}
void h_em_all(void) { int i = sv_choice(27) * 32 + sv_choice(32); sv_assume(i < NREF); int m = sv_choice(2); B b = {0}; if (m) { b_not(&b, 1, "<>&:="); b_c(&b, ':'); b_lit(&b, REF[i].n); b_c(&b, ':'); b_not(&b, 1, "<>&:="); go(b_done(&b)); }
  else if (REF[i].u) { const char *n = apex_find_emoji_name(REF[i].u, strlen(REF[i].u)); sv_assert(n != 0, "every emoji has a name"); const Ref *r = look(n, strlen(n)); sv_assert(r && r->u && !strcmp(r->u, REF[i].u), "the reverse lookup gives a name of the same emoji"); sv_cover("reverse"); } }
void h_em_alpha(void) { B b = {0}; b_in0(&b, 8, ":xa1-_| \n"); go(b_done(&b)); }
static void nomk(B *b, int k) { b_need(b, k); sv_sym_(b->p + b->n, k, "hole"); sv_exclude_(b->p + b->n, k, "<>&=", 4); b->n += k; b->p[b->n] = 0; }
void h_em_free(void) { B b = {0}; nomk(&b, 6); go(b_done(&b)); }
void h_em_name(void) { static const char *N[] = {"smile", "Plus-One", "heart_eyes", "bowtie", "zzz", "BOWTIE", "Heart-Eyes"}; B b = {0}; const char *n = N[sv_choice(7)]; size_t p = sv_choice(10); sv_assume(p <= strlen(n)); b_lit(&b, "q:"); b_mem(&b, n, p); nomk(&b, 1); b_lit(&b, p < strlen(n) ? n + p + 1 : ""); b_lit(&b, ": and :x:"); go(b_done(&b)); }
void h_em_html(void) {
  static const char *P[] = {"<a href=\"u", "<p title='", "<img src=", "<!--IDX:", "<p>", "&lt;a href=\"", "<img alt :"}, *S[] = {"\">t</a>", "'>t</p>", ">t", "-->t", "t</p>", "\"&gt;", "x>t"}; B b = {0}, w = {0}; int k = sv_choice(7); static const char no[] = "<>&=:\"' \t\n\v\f\r-";
  B h = {0}; b_not(&h, 1, no); char *c1 = b_done(&h); b_not(&h, 1, no); char *c2 = b_done(&h);
  b_lit(&b, P[k]); b_lit(&b, c1); b_lit(&b, ":smile:"); b_lit(&b, c2); b_lit(&b, S[k]); b_lit(&b, "<b>:x:</b>");
  b_lit(&w, P[k]); b_lit(&w, c1); b_lit(&w, k == 4 ? "\xf0\x9f\x98\x84" : ":smile:"); b_lit(&w, c2); b_lit(&w, S[k]); b_lit(&w, "<b>\xe2\x9d\x8c</b>");
  if (k == 6) { char *r = apex_replace_emoji(b_done(&b)); sv_assert(has(r, "<b>\xe2\x9d\x8c</b>") && starts(r, "<img alt :"), "an img tag is kept and text after it processed"); sv_cover("img"); return; }
  expect_str(apex_replace_emoji(b_done(&b)), w.p, "emoji inside attribute values, img tags and index placeholders are left alone"); sv_cover("html");
}
void h_em_many(void) { static const char *N[] = {":a:", ":m:", ":cn:", ":x:", ":bowtie:", ":smile:"}; static const int C[] = {1, 2, 17, 60}, T[] = {0, 5, 400}; B b = {0}; int k = sv_choice(6), n = C[sv_choice(4)], t = T[sv_choice(3)]; for (int i = 0; i < n; i++) b_lit(&b, N[k]); nomk(&b, 1); b_fill(&b, 't', t); go(b_done(&b)); }
/* ---- autocorrect ---- */
static int lev(const char *a, int n, const char *b, int m) { int v[64]; for (int j = 0; j <= m; j++) v[j] = j; for (int i = 1; i <= n; i++) { int d = v[0]; v[0] = i; for (int j = 1; j <= m; j++) { int c = d + (a[i - 1] != b[j - 1]); d = v[j]; if (v[j] + 1 < c) c = v[j] + 1; if (v[j - 1] + 1 < c) c = v[j - 1] + 1; v[j] = c; } } return v[m]; }
void h_ac_exact(void) { int i = sv_choice(27) * 32 + sv_choice(32); sv_assume(i < NREF); int up = sv_choice(2); sv_assume(!tab(REF[i].n, strlen(REF[i].n))); B b = {0}, w = {0}; B h = {0}; b_not(&h, 1, ":`\t"); char *c1 = b_done(&h); b_not(&h, 1, ":`\t"); char *c2 = b_done(&h);
  b_lit(&b, c1); b_c(&b, ':'); for (const char *p = REF[i].n; *p; p++) b_c(&b, up ? (*p == '_' ? '-' : *p >= 'a' && *p <= 'z' ? *p - 32 : *p) : *p); b_c(&b, ':'); b_lit(&b, c2);
  if (strchr(REF[i].n, '-')) return; b_lit(&w, c1); b_c(&w, ':'); b_lit(&w, REF[i].n); b_c(&w, ':'); b_lit(&w, c2); expect_str(apex_autocorrect_emoji_names(b_done(&b)), w.p, "a correct name is kept (normalised)"); sv_cover("exact"); }
static void closest(const char *nm, const char *got) { /* got = :name: */
  char n2[64]; size_t k = norm(n2, nm, strlen(nm)); int best = 99; for (int i = 0; i < NREF; i++) { int m = strlen(REF[i].n); if (m > (int)k + 4 || m + 4 < (int)k) continue; int d = lev(n2, k, REF[i].n, m); if (d < best) best = d; }
  size_t g = strlen(got); sv_assert(g >= 2 && got[0] == ':' && got[g - 1] == ':', "the colons stay"); char x[64]; sv_assert(g - 2 < 60, "name length"); memcpy(x, got + 1, g - 2); x[g - 2] = 0; const Ref *r = look(x, g - 2);
  if (best <= 4) { sv_assert(r != 0, "a correctable name becomes a known name"); sv_assert(lev(n2, k, x, g - 2) == best, "the correction is a closest name"); sv_cover("corrected"); } else { sv_assert(!strcmp(x, nm), "an uncorrectable name is kept"); sv_cover("kept"); } }
void h_ac_typo(void) { static const char *N[] = {"smole", "qqqqqqqqqqqq", "xylo-Phone", "hartt"}; const char *n = N[sv_choice(4)]; size_t p = sv_choice(3); B b = {0}; b_mem(&b, n, p * 2); b_in(&b, 1, SV_TIER > 1 ? "abcdefghijklmnopqrstuvwxyz0_+" : "aeq1_m"); b_lit(&b, n + p * 2 + 1); char *nm = b_done(&b); if (look(nm, strlen(nm))) return; B t = {0}; b_c(&t, ':'); b_lit(&t, nm); b_c(&t, ':'); char *r = apex_autocorrect_emoji_names(b_done(&t)); sv_emit("out", r, strlen(r)); closest(nm, r); }
void h_ac_text(void) { B b = {0}; b_lit(&b, "a"); b_in0(&b, 5, ":|- \n"); char *in = b_done(&b); char *p = strchr(in, ':'); while (p) { char *e = strchr(p + 1, ':'); if (!e) break; size_t k = e - p - 1; int blank = 0; for (size_t i = 0; i < k; i++) if (p[1 + i] == ' ' || p[1 + i] == '\n') blank = 1; if (k && !blank) sv_assume(tab(p + 1, k)); p = e; } expect_str(apex_autocorrect_emoji_names(in), in, "text without emoji names and table alignment rows are unchanged"); sv_cover("text"); }
void h_ac_many(void) { static const int C[] = {1, 2, 3, 12}; static const char *N[] = {":q:", ":zq:", ":100x:"}; int n = C[sv_choice(4)], k = sv_choice(3); B b = {0}; for (int i = 0; i < n; i++) b_lit(&b, N[k]); int sym = sv_choice(2); if (sym) { b_lit(&b, " "); b_not(&b, 1, ":"); } char *in = b_done(&b); char *r = apex_autocorrect_emoji_names(in); sv_emit("out", r, strlen(r));
  char *e = strchr(r + 1, ':'); sv_assert(e != 0, "corrected"); size_t k1 = e - r + 1; B w = {0}; for (int i = 0; i < n; i++) b_mem(&w, r, k1); if (sym) b_lit(&w, in + n * strlen(N[k])); expect_str(r, w.p, "every occurrence of a name is corrected the same way"); B nm = {0}; b_mem(&nm, N[k] + 1, strlen(N[k]) - 2); B g = {0}; b_mem(&g, r, k1); closest(nm.p, g.p); }
//@job C01,C13 h_em_bound quick=30 workers=1 bound="colon pairs 1..70 bytes apart, then a real emoji"
void h_em_bound(void) { int n = sv_choice(70); B b = {0}; b_c(&b, ':'); b_fill(&b, 'n', n); nomk(&b, 1); b_lit(&b, ": :x: q"); go(b_done(&b)); }

#define SM "\xf0\x9f\x98\x84"
#define XX "\xe2\x9d\x8c"
//@job C13 h_em_tag quick=60 workers=4 bound="a known name in the attribute value of an element, quoted either way, after up to 4 arbitrary bytes (= and blanks among them), emoji after the tag"
void h_em_tag(void) {
  static const char *P[] = {"<a href=Q", "<p class=\"c\" title=Q", "</x y=Q", "<IMG alt=Q", "<h2 id=Q"}; int k = sv_choice(5); char q = sv_choice(2) ? '"' : '\''; B b = {0}, w = {0};
  for (const char *p = P[k]; *p; p++) b_c(&b, *p == 'Q' ? q : *p); char no[3] = {q, ':', 0}; b_not(&b, 3, no); b_lit(&b, ":smile:"); b_not(&b, 1, no); b_c(&b, q); b_lit(&b, " d>"); b_lit(&w, b.p); b_lit(&b, ":x:"); b_lit(&w, XX);
  expect_str(apex_replace_emoji(b_done(&b)), w.p, "emoji names in tags stay, those after it are replaced"); sv_cover("tag");
}
//@job C13 h_em_code quick=60 workers=4 bound="emoji names in pre, code, script, style and textarea elements and comments, 3 arbitrary bytes around; emoji in text before and after"
void h_em_code(void) {
  static const char *P[] = {"<code>", "<pre class=\"l\"><code>", "<SCRIPT>", "<style>", "<textarea>", "<!-- ", "<b>", "<codex>", "<pre-x>"}, *S[] = {"</code>", "</code></pre>", "</SCRIPT >", "</style>", "</textarea>", "-->", "</b>", "</codex>", "</pre-x>"};
  int k = sv_choice(9); B b = {0}, w = {0}; b_lit(&b, ":x:"); b_lit(&w, XX); size_t at = b.n; b_lit(&b, P[k]); b_not(&b, 1, ":<>&"); size_t nm = b.n; b_lit(&b, ":smile:"); b_not(&b, 2, ":<>&"); b_lit(&b, S[k]);
  if (k < 6) b_lit(&w, b.p + at); else { b_mem(&w, b.p + at, nm - at); b_lit(&w, SM); b_lit(&w, b.p + nm + 7); }
  b_lit(&b, " :x: :bowtie:"); b_lit(&w, " " XX " "); img(&w, look("bowtie", 6)); expect_str(apex_replace_emoji(b_done(&b)), w.p, "code, scripts and comments are left alone, all else is not"); sv_cover("code");
}
//@job C13 h_em_head quick=60 workers=2 bound="an image emoji in a heading of each level (and in elements that are none), one arbitrary byte before it, another after the heading"
void h_em_head(void) {
  static const char *O[] = {"<h1>", "<h2 id=\"a\">", "<H6>", "<h3><b>x</b>", "<h7>", "<hr>", "<p>"}, *C[] = {"</h1>", "</h2>", "</H6>", "</h3>", "</h7>", "", "</p>"}; int k = sv_choice(7); B b = {0}, w = {0}; b_lit(&b, O[k]); b_not(&b, 1, "<>&=:"); b_lit(&w, b.p); const Ref *r = look("bowtie", 6);
  b_lit(&b, ":bowtie:"); if (k < 4) { b_lit(&w, "<img class=\"emoji\" src=\""); b_lit(&w, r->i); b_lit(&w, "\" alt=\":bowtie:\" style=\"height: 1em; width: auto; vertical-align: middle;\">"); } else img(&w, r);
  b_lit(&b, C[k]); b_lit(&w, C[k]); b_lit(&b, " :bowtie:"); b_c(&w, ' '); img(&w, r); expect_str(apex_replace_emoji(b_done(&b)), w.p, "an image emoji is sized with its heading"); sv_cover("head");
}
//@job C13 h_em_lt quick=60 workers=2 bound="a less-than sign that starts no tag, arbitrary bytes, an equals sign, then an emoji name"
void h_em_lt(void) { B b = {0}, w = {0}; b_lit(&b, sv_choice(2) ? "a &lt;" : "a <"); b_not(&b, 1, "<>&=:/!?abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"); b_lit(&b, " b ="); b_not(&b, 1, "<>&=:"); b_lit(&w, b.p); b_lit(&b, ":smile: q"); b_lit(&w, SM " q"); expect_str(apex_replace_emoji(b_done(&b)), w.p, "a comparison is not a tag"); sv_cover("lt"); }
/* misspelt name in a place where it is none */
//@job C14 h_ac_code quick=60 workers=4 max_instr=100000000 bound="autocorrect: misspelt names in fenced and indented code, code spans and HTML tags, 2 arbitrary bytes around, are kept; one in the text after is corrected"
void h_ac_code(void) {
  static const char *P[] = {"t\n```x\n", "~~~~\n", "t `", "t ``a`", "t\n\n    ", "\t", "t <a b=\"", "t <code>", "  ```\n``\n", "t\n````\n```\n"}, *S[] = {"\n```\n", "\n~~~~~ \n", "` ", "`` ", "\n\n", "\n\n", "\"> ", "</code> ", "\n   ```\n", "\n````\n"};
  int k = sv_choice(10); B b = {0}, w = {0}; b_lit(&b, P[k]); b_not(&b, 1, ":`~<>\"\n\\-+*0123456789 \t"); b_lit(&b, " :smlie: "); b_not(&b, 1, ":`~<>\"\n\\ \t\r"); b_lit(&b, S[k]); b_lit(&w, b.p); b_lit(&b, "(:smiile:)"); b_lit(&w, "(:smile:)");
  expect_str(apex_autocorrect_emoji_names(b_done(&b)), w.p, "code and tags are left alone, text after them is not"); sv_cover("code");
}
//@job C14 h_ac_word quick=60 workers=4 max_instr=200000000 bound="autocorrect: a misspelt name with an arbitrary byte before, inside and after it"
void h_ac_word(void) {
  B w = {0}; int in = sv_choice(2); char c1, c2 = 'i', c3;
  B d = {0}; b_c(&d, '('); b_not(&d, 1, ":`<\t"); c1 = d.p[1]; b_lit(&d, ":smi"); if (in) { b_in(&d, 1, "i/. ,|\\&="); c2 = d.p[d.n - 1]; } b_lit(&d, "lle:"); b_not(&d, 1, ":`<"); c3 = d.p[d.n - 1];
#define AN(c) ((c) >= '0' && (c) <= '9' || (c) >= 'a' && (c) <= 'z' || (c) >= 'A' && (c) <= 'Z')
  int ok = !AN(c1) && !AN(c3) && c2 == 'i'; b_c(&w, '('); b_c(&w, c1); if (ok) b_lit(&w, ":smile:"); else b_lit(&w, d.p + 2); if (ok) b_c(&w, c3); expect_str(apex_autocorrect_emoji_names(b_done(&d)), w.p, "only a name that stands alone is corrected"); if (ok) sv_cover("corrected"); else sv_cover("kept");
}
//@job C14 h_ac_scope quick=60 workers=4 max_instr=200000000 bound="autocorrect: times, scopes and URLs with arbitrary digits and letters between colons"
void h_ac_scope(void) {
  static const char *T[] = {"at 1%:%%:%% x", "std::%%::c", "a:%:b", "http://h%:8%/%:x", "::%%::", "x:%%::y:", "[a](http://h:8%/a:b)"}; const char *t = T[sv_choice(7)]; B b = {0}; for (; *t; t++) if (*t == '%') b_in(&b, 1, "abcxyz059"); else b_c(&b, *t); char *in = b_done(&b);
  for (char *p = in; (p = strchr(p, ':')); p++) { char *e = strchr(p + 1, ':'); if (e && look(p + 1, e - p - 1)) return; } expect_str(apex_autocorrect_emoji_names(in), in, "times, scopes and ports are not emoji"); sv_cover("scope");
}
