/* Reader for Markdown, written from the CommonMark and GFM specifications (containers, lists,
 * headings, rules, fences, HTML blocks, tables; escapes, references, code spans, emphasis, links,
 * images, raw HTML, breaks).  Not read: lazy continuation lines, link reference definitions and
 * autolinks.  In native replays the real library reads instead, so the two are compared. */
#define SP(c) ((c) == ' ' || ((c) >= 9 && (c) <= 13))
#define PU(c) (((c) >= 33 && (c) <= 47) || ((c) >= 58 && (c) <= 64) || ((c) >= 91 && (c) <= 96) || ((c) >= 123 && (c) <= 126))
#define AL(c) ((((c) | 32) >= 'a' && ((c) | 32) <= 'z'))
#define DG(c) ((c) >= '0' && (c) <= '9')
static cmark_node *mk(cmark_node *p, int t, const char *lit) { cmark_node *n = cmark_node_new(t); if (lit) cmark_node_set_literal(n, lit); if (p) cmark_node_append_child(p, n); return n; }
/* a reference at s ("&..."): its length, and its character in *o; only those the harness can produce */
static int mr_ref(const char *s, char *o) { if (s[1] == '#') { int k = 2, v = 0; if (!DG(s[2])) return 0; while (DG(s[k]) && k < 9) v = v * 10 + s[k++] - '0'; if (s[k] != ';') return 0; *o = v ? v : '?'; return k + 1; } if (!strncmp(s + 1, "lt;", 3)) { *o = '<'; return 4; } if (!strncmp(s + 1, "gt;", 3)) { *o = '>'; return 4; } if (!strncmp(s + 1, "amp;", 4)) { *o = '&'; return 5; } return 0; }
/* in URLs, titles and info strings the library reads references first, then escapes */
static char *mr_unesc(const char *s, size_t n) { B a = {0}, b = {0}; b_lit(&a, ""); b_lit(&b, ""); char *t = malloc(n + 1); memcpy(t, s, n); t[n] = 0; for (size_t i = 0; i < n; i++) { char o; int k; if (t[i] == '&' && (k = mr_ref(t + i, &o))) { b_c(&a, o); i += k - 1; } else b_c(&a, t[i]); } for (size_t i = 0; i < a.n; i++) { if (a.p[i] == '\\' && PU(a.p[i + 1])) i++; b_c(&b, a.p[i]); } return b.p; }
/* the length of raw HTML at s ("<..."), 0 if there is none */
static int mr_attrs(const char *s, int k) { for (;;) { int w = k; while (SP(s[k])) k++; if (s[k] == '/' && s[k + 1] == '>') return k + 2; if (s[k] == '>') return k + 1; if (w == k) return 0; if (!(AL(s[k]) || s[k] == '_' || s[k] == ':')) return 0; while (AL(s[k]) || DG(s[k]) || s[k] == '_' || s[k] == ':' || s[k] == '.' || s[k] == '-') k++; int e = k; while (SP(s[e])) e++; if (s[e] == '=') { k = e + 1; while (SP(s[k])) k++; if (s[k] == '"' || s[k] == '\'') { char q = s[k++]; while (s[k] && s[k] != q) k++; if (!s[k]) return 0; k++; } else { int b = k; while (s[k] && !SP(s[k]) && !strchr("\"'=<>`", s[k])) k++; if (k == b) return 0; } } } }
static int mr_tag(const char *s) { int k = 1; if (s[1] == '/') { k = 2; if (!AL(s[k])) return 0; while (AL(s[k]) || DG(s[k]) || s[k] == '-') k++; while (SP(s[k])) k++; return s[k] == '>' ? k + 1 : 0; } if (!AL(s[k])) return 0; while (AL(s[k]) || DG(s[k]) || s[k] == '-') k++; return mr_attrs(s, k); }
static int mr_html(const char *s) { if (s[1] == '!' && s[2] == '-' && s[3] == '-') { if (s[4] == '>' || (s[4] == '-' && s[5] == '>')) return 0; const char *e = strstr(s + 4, "--"); return e && e[2] == '>' ? e + 3 - s : 0; } if (s[1] == '?') { const char *e = strstr(s + 2, "?>"); return e ? e + 2 - s : 0; } if (s[1] == '!' && s[2] >= 'A' && s[2] <= 'Z') { const char *e = strchr(s, '>'); return e ? e + 1 - s : 0; } return mr_tag(s); }
/* <scheme:...> */
static int mr_auto(const char *s) { int k = 1; while (AL(s[k]) || DG(s[k]) || s[k] == '+' || s[k] == '.' || s[k] == '-') k++; if (k < 3 || s[k] != ':' || !AL(s[1])) return 0; while ((unsigned char)s[k] > 32 && s[k] != '<' && s[k] != '>') k++; return s[k] == '>' ? k + 1 : 0; }
/* ---- inlines ---- */
typedef struct { cmark_node *n; char c; int num, orig, open, close, off; } D_;     /* delimiter runs */
typedef struct { cmark_node *n; int img, active, dn, pos; } K_;                    /* brackets */
static D_ dl[64]; static int dn; static K_ br[32]; static int bn;
static void settext(cmark_node *n, char c, int k) { char t[64]; if (k > 60) k = 60; memset(t, c, k); t[k] = 0; cmark_node_set_literal(n, t); }
static void mr_emph(int from) {
  for (int i = from; i < dn; i++) { if (dl[i].off || !dl[i].close) continue; for (;;) { int j = i - 1; for (; j >= from; j--) { if (dl[j].off || !dl[j].open || dl[j].c != dl[i].c || !dl[j].num) continue; if (dl[i].c == '~') { if (dl[j].num == dl[i].num) break; continue; } if ((dl[j].close || dl[i].open) && (dl[j].orig + dl[i].orig) % 3 == 0 && !(dl[j].orig % 3 == 0 && dl[i].orig % 3 == 0)) continue; break; } if (j < from) { if (!dl[i].open) dl[i].off = 1; break; }
      int two = dl[i].c == '~' ? dl[i].num : dl[j].num >= 2 && dl[i].num >= 2 ? 2 : 1; cmark_node *e = cmark_node_new(dl[i].c == '~' ? 0xc00c : two == 2 ? CMARK_NODE_STRONG : CMARK_NODE_EMPH); cmark_node_insert_after(dl[j].n, e); for (cmark_node *c = cmark_node_next(e), *x; c && c != dl[i].n; c = x) { x = cmark_node_next(c); cmark_node_append_child(e, c); }
      for (int k = j + 1; k < i; k++) dl[k].off = 1; dl[j].num -= two; dl[i].num -= two; settext(dl[j].n, dl[j].c, dl[j].num); settext(dl[i].n, dl[i].c, dl[i].num); if (!dl[j].num) { dl[j].off = 1; cmark_node_unlink(dl[j].n); } if (!dl[i].num) { dl[i].off = 1; cmark_node_unlink(dl[i].n); break; } } }
  dn = from; }
static void flush(cmark_node *p, B *t) { if (t->n) mk(p, CMARK_NODE_TEXT, t->p); t->n = 0; if (t->p) t->p[0] = 0; }
static void mr_inl(cmark_node *p, const char *s0) {
  size_t L = strlen(s0); while (L && SP(s0[L - 1])) L--; char *s = malloc(L + 1); memcpy(s, s0, L); s[L] = 0; int sd = dn = bn = 0; (void)sd; B t = {0}; size_t i = 0; while (s[i] == ' ') i++;
  while (i < L) { char c = s[i]; int k; char o;
    if (c == '\n') { int sp = 0; while (t.n && t.p[t.n - 1] == ' ') { t.p[--t.n] = 0; sp++; } flush(p, &t); mk(p, sp >= 2 ? CMARK_NODE_LINEBREAK : CMARK_NODE_SOFTBREAK, 0); i++; while (s[i] == ' ' || s[i] == '\t') i++; continue; }
    if (c == '\\') { if (s[i + 1] == '\n') { flush(p, &t); mk(p, CMARK_NODE_LINEBREAK, 0); i += 2; while (s[i] == ' ') i++; continue; } if (PU(s[i + 1])) { b_c(&t, s[i + 1]); i += 2; continue; } b_c(&t, c); i++; continue; }
    if (c == '`') { size_t r = 0; while (s[i + r] == '`') r++; size_t j = i + r, e = 0; while (j < L) { if (s[j] != '`') { j++; continue; } size_t q = 0; while (s[j + q] == '`') q++; if (q == r) { e = j; break; } j += q; } if (!e) { b_fill(&t, '`', r); i += r; continue; } flush(p, &t); char *x = malloc(e - i - r + 1); size_t n = 0; int all = 1; for (j = i + r; j < e; j++) { x[n] = s[j] == '\n' ? ' ' : s[j]; if (x[n] != ' ') all = 0; n++; } x[n] = 0; if (n > 1 && !all && x[0] == ' ' && x[n - 1] == ' ') { x[n - 1] = 0; x++; } mk(p, CMARK_NODE_CODE, x); i = e + r; continue; }
    if (c == '*' || c == '_' || c == '~') { int r = 0; while (s[i + r] == c) r++; char b = i ? s[i - 1] : '\n', a = s[i + r] ? s[i + r] : '\n'; int lf = !SP(a) && (!PU(a) || SP(b) || PU(b)), rf = !SP(b) && (!PU(b) || SP(a) || PU(a)); flush(p, &t); D_ *d = &dl[dn]; d->n = mk(p, CMARK_NODE_TEXT, 0); settext(d->n, c, r); d->c = c; d->num = d->orig = r; d->off = 0; d->open = c == '_' ? lf && (!rf || PU(b)) : lf; d->close = c == '_' ? rf && (!lf || PU(a)) : rf; if (c == '~' && r > 2) d->open = d->close = 0; if (dn < 63) dn++; i += r; continue; }
    if (c == '[' || (c == '!' && s[i + 1] == '[' && s[i + 2] != '^')) { flush(p, &t); K_ *k2 = &br[bn]; k2->img = c == '!'; k2->n = mk(p, CMARK_NODE_TEXT, k2->img ? "![" : "["); k2->active = 1; k2->dn = dn; if (bn < 31) bn++; i += 1 + k2->img; continue; }
    if (c == ']') { flush(p, &t); i++; if (!bn) { b_c(&t, ']'); continue; } K_ *k2 = &br[--bn]; if (!k2->active || s[i] != '(') { b_c(&t, ']'); continue; } size_t j = i + 1; while (SP(s[j])) j++; size_t us, ue; if (s[j] == '<') { us = ++j; while (s[j] && s[j] != '>' && s[j] != '<' && s[j] != '\n') j += s[j] == '\\' && PU(s[j + 1]) ? 2 : 1; if (s[j] != '>') { b_c(&t, ']'); continue; } ue = j++; } else { us = j; int dep = 0; while (s[j] && !SP(s[j]) && (unsigned char)s[j] > 31 && s[j] != 127) { if (s[j] == '\\' && PU(s[j + 1])) { j += 2; continue; } if (s[j] == '(') dep++; if (s[j] == ')' && dep-- == 0) break; j++; } ue = j; }
      size_t w = j; while (SP(s[j])) j++; size_t ts = 0, te = 0; if (w != j && (s[j] == '"' || s[j] == '\'' || s[j] == '(')) { char q = s[j] == '(' ? ')' : s[j]; ts = ++j; /* the library's scanner takes the longest match: a backslash before a quote may also be text */ size_t last = 0; for (; s[j] && !(s[j] == q && s[j - 1] != '\\'); j++) if (s[j] == q) last = j; if (!s[j] && last) j = last; if (!s[j]) { b_c(&t, ']'); continue; } te = j++; while (SP(s[j])) j++; } if (s[j] != ')') { b_c(&t, ']'); continue; }
      cmark_node *l = cmark_node_new(k2->img ? CMARK_NODE_IMAGE : CMARK_NODE_LINK); char *u = mr_unesc(s + us, ue - us); cmark_node_set_url(l, u); cmark_node_set_title(l, mr_unesc(s + ts, te - ts)); cmark_node_insert_after(k2->n, l); for (cmark_node *c2 = cmark_node_next(l), *x; c2; c2 = x) { x = cmark_node_next(c2); cmark_node_append_child(l, c2); } mr_emph(k2->dn); cmark_node_unlink(k2->n); if (!k2->img) for (int q = 0; q < bn; q++) if (!br[q].img) br[q].active = 0; i = j + 1; continue; }
    if (c == '<') { if ((k = mr_auto(s + i))) { flush(p, &t); cmark_node *l = mk(p, CMARK_NODE_LINK, 0); char *u = mr_unesc(s + i + 1, k - 2); cmark_node_set_url(l, u); mk(l, CMARK_NODE_TEXT, u); i += k; continue; } if ((k = mr_html(s + i))) { flush(p, &t); char *x = malloc(k + 1); memcpy(x, s + i, k); x[k] = 0; mk(p, CMARK_NODE_HTML_INLINE, x); i += k; continue; } }
    if (c == '&' && (k = mr_ref(s + i, &o))) { b_c(&t, o); i += k; continue; }
    b_c(&t, c); i++; }
  flush(p, &t); mr_emph(0); }
/* ---- blocks ---- */
static int ind(const char *l) { int k = 0; while (l[k] == ' ') k++; return k; }
static int isblank(const char *l) { while (*l == ' ' || *l == '\t') l++; return !*l; }
static int ishr(const char *l) { l += ind(l); char c = *l; if (c != '-' && c != '_' && c != '*') return 0; int n = 0; for (; *l; l++) if (*l == c) n++; else if (*l != ' ' && *l != '\t') return 0; return n >= 3; }
static int isatx(const char *l) { l += ind(l); int n = 0; while (l[n] == '#') n++; return n >= 1 && n <= 6 && (!l[n] || l[n] == ' ' || l[n] == '\t') ? n : 0; }
static int isfence(const char *l) { l += ind(l); int n = 0; if (*l != '`' && *l != '~') return 0; while (l[n] == *l) n++; if (n < 3 || (*l == '`' && strchr(l + n, '`'))) return 0; return n; }
static int issetext(const char *l) { l += ind(l); char c = *l; if (c != '=' && c != '-') return 0; while (*l == c) l++; return isblank(l) ? c : 0; }
static int ishtml(const char *l) { static const char *const T6[] = {"div", "p", "table", "ul", "hr", "section", 0}, *const T1[] = {"pre", "script", "style", 0}; l += ind(l); if (*l != '<') return 0; for (int i = 0; T1[i]; i++) { size_t n = strlen(T1[i]); if (!strncmp(l + 1, T1[i], n) && (!l[n + 1] || SP(l[n + 1]) || l[n + 1] == '>')) return 1; } if (!strncmp(l, "<!--", 4)) return 2; if (l[1] == '?') return 3; if (l[1] == '!' && l[2] >= 'A' && l[2] <= 'Z') return 4; const char *m = l + 1 + (l[1] == '/'); for (int i = 0; T6[i]; i++) { size_t n = strlen(T6[i]); if (!strncmp(m, T6[i], n) && (!m[n] || SP(m[n]) || m[n] == '>' || (m[n] == '/' && m[n + 1] == '>'))) return 6; } int k = mr_tag(l); return k && isblank(l + k) ? 7 : 0; }
static int htmlend(int k, const char *l) { switch (k) { case 1: return strstr(l, "</pre>") || strstr(l, "</script>") || strstr(l, "</style>"); case 2: return !!strstr(l, "-->"); case 3: return !!strstr(l, "?>"); case 4: return !!strchr(l, '>'); } return 0; }
/* a list marker: its width with indentation; *ty its kind, *num its number */
static int marker(const char *l, char *ty, long *num) { int k = ind(l); if (k > 3) return 0; if (l[k] == '-' || l[k] == '*' || l[k] == '+') { *ty = l[k]; *num = 0; k++; } else { int b = k; long v = 0; while (DG(l[k]) && k - b < 9) v = v * 10 + l[k++] - '0'; if (k == b || (l[k] != '.' && l[k] != ')')) return 0; *ty = l[k++]; *num = v; } return !l[k] || l[k] == ' ' || l[k] == '\t' ? k : 0; }
static int mr_blocks(cmark_node *p, char **l, int n);
static char *cutn(const char *l, int w) { while (w-- > 0 && *l == ' ') l++; return (char *)l; }
static int interrupts(const char *l) { char ty; long v; int k; if (isblank(l)) return 1; if (ind(l) > 3) return 0; if (l[ind(l)] == '>' || isatx(l) || isfence(l) || ishr(l)) return 1; if ((k = ishtml(l)) && k < 7) return 1; if ((k = marker(l, &ty, &v)) && !isblank(l + k) && (ty == '-' || ty == '*' || ty == '+' || v == 1)) return 1; return 0; }
static int cells(const char *l, char **out, int max) { int n = 0; l += ind(l); if (*l == '|') l++; size_t e = strlen(l); while (e && SP(l[e - 1])) e--; B b = {0}; b_lit(&b, ""); size_t i = 0; for (; i < e; i++) { if (l[i] == '\\' && l[i + 1] == '|' && i + 1 < e) { b_c(&b, '|'); i++; continue; } if (l[i] == '\\' && i + 1 < e) { b_c(&b, l[i]); b_c(&b, l[++i]); continue; } if (l[i] == '|') { if (n < max) out[n] = b.p; n++; memset(&b, 0, sizeof b); b_lit(&b, ""); if (i + 1 == e) return n; continue; } b_c(&b, l[i]); } if (n < max) out[n] = b.p; return n + 1; }
static int isdelim(char **c, int n, char *al) { for (int i = 0; i < n; i++) { char *q = c[i]; while (*q == ' ') q++; int le = 0, ri = 0, k = 0; if (*q == ':') { le = 1; q++; } while (*q == '-') { q++; k++; } if (*q == ':') { ri = 1; q++; } if (!k || !isblank(q)) return 0; al[i] = le && ri ? 'c' : le ? 'l' : ri ? 'r' : 0; } return 1; }
void *tab_new(cmark_node *p, int cols, const char *al); cmark_node *tab_cell(cmark_node *t, int row, int head);
static int mr_table(cmark_node *p, char **l, int n) { if (n < 2 || !strchr(l[1], '-')) return 0; char *h[8], *d[8], al[8]; int a = cells(l[0], h, 8), b = cells(l[1], d, 8); if (a != b || a > 8 || (!strchr(l[1], '|') && !strchr(l[1], ':')) || !isdelim(d, b, al)) return 0; cmark_node *t = tab_new(p, a, al); int r = 0, i = 0; for (; i < n; i++) { if (i == 1) continue; if (i && (isblank(l[i]) || (i > 1 && interrupts(l[i])))) break; char *c[8]; int k = cells(l[i], c, 8); for (int j = 0; j < a; j++) { cmark_node *x = tab_cell(t, r, !i); if (j < k) mr_inl(x, c[j]); } r++; } return i; }
static int mr_list(cmark_node *p, char **l, int n, char ty, long num) {
  cmark_node *L = mk(p, CMARK_NODE_LIST, 0); if (ty == '.' || ty == ')') { cmark_node_set_list_type(L, CMARK_ORDERED_LIST); cmark_node_set_list_start(L, num); cmark_node_set_list_delim(L, ty == ')' ? CMARK_PAREN_DELIM : CMARK_PERIOD_DELIM); } int i = 0, loose = 0, end = 0;
  while (i < n) { char t2; long v; int w = ishr(l[i]) ? 0 : marker(l[i], &t2, &v); if (!w || t2 != ty) break; if (i && isblank(l[i - 1]) && shows(cmark_node_last_child(L))) loose = 1; cmark_node *it = mk(L, CMARK_NODE_ITEM, 0); char **sub = malloc(n * sizeof *sub); int m = 0, b = ind(l[i] + w); int empty = isblank(l[i] + w); int W = empty ? w + 1 : b > 4 ? w + 1 : w + b; sub[m++] = empty ? "" : l[i] + W; i++; if (empty && i < n && isblank(l[i])) { end = i; while (i < n && isblank(l[i])) i++; if (i >= n) { i = end; break; } end = i; continue; }
    int para = 1; (void)para; for (; i < n; i++) { if (isblank(l[i])) { sub[m++] = cutn(l[i], W); continue; } if (ind(l[i]) >= W) { sub[m++] = l[i] + W; continue; } break; } while (m && isblank(sub[m - 1])) m--; if (mr_blocks(it, sub, m)) loose = 1; end = i; }
  while (end > 0 && isblank(l[end - 1])) end--; cmark_node_set_list_tight(L, !loose); return end; }
static int mr_blocks(cmark_node *p, char **l, int n) { int loose = 0;
  for (int i = 0; i < n;) { int k; char ty; long v; if (isblank(l[i])) { i++; continue; } if (i && cmark_node_first_child(p) && isblank(l[i - 1]) && shows(cmark_node_last_child(p))) loose = 1; int in = ind(l[i]); char *q = l[i] + in;
    if (in > 3) { B b = {0}; int e = i; for (int j = i; j < n && (isblank(l[j]) || ind(l[j]) > 3); j++) if (!isblank(l[j])) e = j + 1; for (; i < e; i++) { b_lit(&b, cutn(l[i], 4)); b_c(&b, '\n'); } mk(p, CMARK_NODE_CODE_BLOCK, b.p); continue; }
    if (*q == '>') { cmark_node *Q = mk(p, CMARK_NODE_BLOCK_QUOTE, 0); char **sub = malloc(n * sizeof *sub); int m = 0; for (; i < n && ind(l[i]) <= 3 && l[i][ind(l[i])] == '>'; i++) { q = l[i] + ind(l[i]) + 1; sub[m++] = *q == ' ' ? q + 1 : q; } mr_blocks(Q, sub, m); continue; }
    if ((k = isatx(q))) { cmark_node *h = mk(p, CMARK_NODE_HEADING, 0); cmark_node_set_heading_level(h, k); B b = {0}; b_lit(&b, q + k); size_t e = b.n; while (e && SP(b.p[e - 1])) e--; size_t f = e; while (f && b.p[f - 1] == '#') f--; if (!f || SP(b.p[f - 1])) e = f; b.p[e] = 0; size_t sk = 0; while (SP(b.p[sk])) sk++; mr_inl(h, b.p + sk); i++; continue; }
    if ((k = isfence(q))) { cmark_node *C = mk(p, CMARK_NODE_CODE_BLOCK, 0); char c = *q, *f = q + k; while (SP(*f)) f++; size_t e = strlen(f); while (e && SP(f[e - 1])) e--; cmark_node_set_fence_info(C, mr_unesc(f, e)); B b = {0}; b_lit(&b, ""); for (i++; i < n; i++) { char *z = l[i]; int zi = ind(z), r = 0; while (zi < 4 && z[zi + r] == c) r++; if (r >= k && isblank(z + zi + r)) { i++; break; } b_lit(&b, cutn(z, in)); b_c(&b, '\n'); } cmark_node_set_literal(C, b.p); continue; }
    if (ishr(q)) { mk(p, CMARK_NODE_THEMATIC_BREAK, 0); i++; continue; }
    if ((k = ishtml(q))) { B b = {0}; for (int first = 1; i < n; first = 0) { if (k >= 6 && isblank(l[i])) break; (void)first; b_lit(&b, l[i]); b_c(&b, '\n'); i++; if (htmlend(k, l[i - 1])) break; } mk(p, CMARK_NODE_HTML_BLOCK, b.p); continue; }
    if (marker(l[i], &ty, &v)) { i += mr_list(p, l + i, n - i, ty, v); continue; }
    if ((k = mr_table(p, l + i, n - i))) { i += k; continue; }
    B b = {0}; b_lit(&b, cutn(l[i], 3)); int lev = 0, j = i + 1; for (; j < n; j++) { if (!isblank(l[j]) && ind(l[j]) <= 3 && (lev = issetext(l[j]))) { j++; break; } if (interrupts(l[j])) break; b_c(&b, '\n'); b_lit(&b, l[j] + ind(l[j])); } cmark_node *P = mk(p, lev ? CMARK_NODE_HEADING : CMARK_NODE_PARAGRAPH, 0); if (lev) cmark_node_set_heading_level(P, lev == '=' ? 1 : 2); mr_inl(P, b.p); i = j; }
  return loose; }
static cmark_node *mr_read(const char *s) { char *t = strdup(s); size_t n = strlen(t); char **l = malloc((n + 1) * sizeof *l); int k = 0; while (*t) { l[k++] = t; char *e = strchr(t, '\n'); if (!e) break; *e = 0; t = e + 1; } cmark_node *d = cmark_node_new(CMARK_NODE_DOCUMENT); mr_blocks(d, l, k); return d; }
