/* Reference for citations: library of entries and the text with every citation formatted */
typedef struct { const char *id, *au, *yr, *ti, *co, *vo, *pa, *pu; apex_bibliography_entry *e; } Ent;
static Ent LIB[48]; static int nlib; static apex_bibliography_registry *lib_; static int nref; static char *refkeys[128];
static void sync_(int i) { Ent *x = &LIB[i]; apex_bibliography_entry *e = x->e; e->author = (char *)x->au; e->year = (char *)x->yr; e->title = (char *)x->ti; e->container_title = (char *)x->co; e->volume = (char *)x->vo; e->page = (char *)x->pa; e->publisher = (char *)x->pu; }
static void ent(const char *id, const char *au, const char *yr) { Ent *x = &LIB[nlib]; memset(x, 0, sizeof *x); x->id = id; x->au = au; x->yr = yr; x->e = calloc(1, sizeof *x->e); x->e->id = (char *)id; x->e->next = lib_->entries; lib_->entries = x->e; lib_->count++; sync_(nlib++); }
static void std_lib(void) { lib_ = calloc(1, sizeof *lib_); nlib = 0; ent("a", "Au", "19"); ent("b", "Bo", 0); ent("c", 0, "20"); ent("d", 0, 0); ent("e", "Au", "21"); ent("f", "Authors, A. and B", "22"); ent("g", "Authors, A. and C", "23"); }
static Ent *get(const char *k) { for (int i = 0; i < nlib; i++) if (!strcmp(LIB[i].id, k)) return &LIB[i]; return 0; }
static void esc(B *o, const char *s) { for (; *s; s++) if (*s == '&') b_lit(o, "&amp;"); else if (*s == '<') b_lit(o, "&lt;"); else if (*s == '>') b_lit(o, "&gt;"); else if (*s == '"') b_lit(o, "&quot;"); else b_c(o, *s); }
static int al(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); }
static int bl(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static int kc(char c) { return al(c) || c == '_' || c == ':' || c == '.' || c == '#' || c == '$' || c == '%' || c == '&' || c == '-' || c == '+' || c == '?' || c == '~' || c == '/'; }
static size_t para(const char *t, size_t i) { for (; t[i]; i++) if (t[i] == '\n') { size_t k = i + 1; while (t[k] == ' ' || t[k] == '\t' || t[k] == '\r') k++; if (t[k] == '\n' || !t[k]) return i; } return i; }
static char *sub(const char *p, size_t n) { char *r = malloc(n + 1); memcpy(r, p, n); r[n] = 0; return r; }
/* key at t+i; its length in the text, key in *k */
static size_t rkey(const char *t, char **k) { size_t n = 0; if (*t == '{') { n = 1; while (kc(t[n]) || t[n] == '<' || t[n] == '>') n++; if (n == 1 || t[n] != '}') return 0; *k = sub(t + 1, n - 1); return n + 1; } if (!al(*t) && *t != '_') return 0; size_t e = 1; for (n = 1; kc(t[n]); n++) if (al(t[n]) || t[n] == '_') e = n + 1; *k = sub(t, e); return e; }
static char *trim(const char *p, size_t n) { while (n && bl(p[n - 1])) n--; while (n && bl(*p)) { p++; n--; } char *r = sub(p, n); for (char *q = r; *q; q++) if (*q == '\n' || *q == '\r') *q = ' '; return r; }
typedef struct { char *key, *loc; int sup, mm; } Cit;
static int mmk(const char *p) { if (starts(p, "I-D.") || starts(p, "W3C.")) return 1; return (starts(p, "RFC") || starts(p, "BCP") || starts(p, "STD")) && p[3] >= '0' && p[3] <= '9'; }
static void show1(B *w, Cit *c, int same) { Ent *e = get(c->key); if (e && e->yr) { if (e->au && !c->sup && !same) { b_lit(w, e->au); b_c(w, ' '); } b_lit(w, e->yr); } else esc(w, c->key); if (*c->loc) { b_lit(w, ", "); esc(w, c->loc); } }
static void show(B *w, Cit *v, int n, int intext, int link) {
  int one = link && n == 1; b_lit(w, one ? "<a href=\"#ref-" : "<span"); if (one) { esc(w, v->key); b_c(w, '"'); } b_lit(w, " class=\"citation\" data-cites=\""); for (int i = 0; i < n; i++) { if (i) b_c(w, ' '); esc(w, v[i].key); refkeys[nref++] = v[i].key; } b_lit(w, "\">");
  if (intext) { Ent *e = get(v->key); int a = e && e->au; if (a) b_lit(w, e->au); else esc(w, v->key); int y = a && e->yr; if (y || *v->loc) { b_lit(w, " ("); if (y) b_lit(w, e->yr); if (y && *v->loc) b_lit(w, ", "); esc(w, v->loc); b_c(w, ')'); } }
  else { b_c(w, '('); const char *last = 0; for (int i = 0; i < n; i++) { Ent *e = get(v[i].key); int same = last && e && e->yr && e->au && !strcmp(last, e->au); if (i) b_lit(w, same ? ", " : "; "); if (link && n > 1) { b_lit(w, "<a href=\"#ref-"); esc(w, v[i].key); b_lit(w, "\">"); } show1(w, &v[i], same); if (link && n > 1) b_lit(w, "</a>"); last = e && e->yr && e->au && !v[i].sup ? e->au : 0; } b_c(w, ')'); }
  b_lit(w, one ? "</a>" : "</span>"); }
static size_t rverb(const char *t, size_t i) {
  size_t e = i; while (t[e] && t[e] != '\n') e++;
  if (i == 0 || t[i - 1] == '\n') { size_t k = i; while (t[k] == ' ') k++; if (k - i >= 4 || t[k] == '\t') return e; if (t[k] == '`' || t[k] == '~') { char f = t[k]; size_t r = 0; while (t[k + r] == f) r++; int bad = 0; if (f == '`') for (size_t q = k + r; q < e; q++) bad |= t[q] == '`'; if (r >= 3 && !bad) { while (t[e]) { size_t l = e + 1, s = l; while (t[s] == ' ') s++; size_t q = s; while (t[q] == f) q++; size_t c = q - s; while (t[q] == ' ' || t[q] == '\t' || t[q] == '\r') q++; e = l; while (t[e] && t[e] != '\n') e++; if (s - l < 4 && c >= r && q == e) break; } return e; } } if (t[k] == '[') for (size_t q = k; q < e; q++) if (t[q] == ']') { if (t[q + 1] == ':') return q + 2; break; } }
  if (t[i] == '\\' && t[i + 1]) return i + 2;
  if (t[i] == '{' && t[i + 1] == '%') { char *q = strstr(t + i + 2, "%}"); return q ? (size_t)(q + 2 - t) : 0; }
  if (t[i] == '`') { size_t r = 0; while (t[i + r] == '`') r++; size_t z = para(t, i); for (size_t q = i + r; q < z;) { if (t[q] != '`') { q++; continue; } size_t c = 0; while (t[q + c] == '`') c++; if (c == r) return q + c; q += c; } return i + r; }
  if (t[i] == '<') { if (starts(t + i, "<!--")) { char *q = strstr(t + i + 4, "-->"); return q ? (size_t)(q + 3 - t) : 0; } char c = t[i + 1]; if (!(al(c) && !(c >= '0' && c <= '9')) && c != '/') return 0; size_t q = i + 1; while (t[q] && t[q] != '>') { if (t[q] == '\n') { size_t s = q + 1; while (t[s] == ' ' || t[s] == '\t' || t[s] == '\r') s++; if (t[s] == '\n') return 0; } if (t[q] == '"' || t[q] == '\'') { char *x = strchr(t + q + 1, t[q]); if (x) { q = x - t + 1; continue; } } q++; } return t[q] ? q + 1 : 0; }
  if (t[i] == ']' && t[i + 1] == '(') { size_t z = para(t, i); int d = 0; for (size_t q = i + 1; q < z; q++) { if (t[q] == '\\' && q + 1 < z) q++; else if (t[q] == '(') d++; else if (t[q] == ')' && !--d) return q + 1; } }
  return 0; }
static void reftext(B *w, const char *t, int pandoc, int link) {
  b_lit(w, ""); size_t i = 0;
  while (t[i]) {
    size_t v = rverb(t, i); if (v) { b_mem(w, t + i, v - i); i = v; continue; }
    size_t z = para(t, i); Cit c[8]; int n = 0; memset(c, 0, sizeof c);
    if (t[i] == '[') {
      size_t q = i + 1, k; int ok = 0; if (t[q] == '#') { k = rkey(t + q + 1, &c[0].key); if (k && t[q + 1 + k] == ']') { n = 1; c[0].loc = ""; q += k + 1; ok = 1; } }
      else if (pandoc) for (;;) { if (n == 8) break; Cit *x = &c[n]; x->sup = 0; if (t[q] == '-' && t[q + 1] == '@') { x->sup = 1; q++; } if (t[q] != '@') break; q++; if ((t[q] == '!' || t[q] == '?' || t[q] == '-') && mmk(t + q + 1)) { if (t[q] == '-') x->sup = 1; q++; } x->mm = mmk(t + q); k = rkey(t + q, &x->key); if (!k) break; q += k; size_t s = q; while (q < z && t[q] != ';' && t[q] != '@' && t[q] != '[' && t[q] != ']') q++; size_t u = s; while (t[u] == ' ' || t[u] == '\t') u++; if (u < q && t[u] == ',') s = u + 1; x->loc = trim(t + s, q - s); n++; if (q >= z || t[q] == '[') break; if (t[q] == ']') { ok = 1; break; } if (t[q] == ';') { q++; while (t[q] == ' ' || t[q] == '\t' || t[q] == '\r' || t[q] == '\n') q++; } }
      if (n && t[q] == ']' && q < z) ok = 1; if (!n) ok = 0; size_t s = i; while (s && t[s - 1] == ' ') s--; int bol = !s || t[s - 1] == '\n'; if (ok && (t[q] != ']' || q >= z || t[q + 1] == '(' || (t[q + 1] == ':' && bol))) ok = 0;
      if (ok) { if (c[0].mm) for (int j = 0; j < n; j++) { if (j) b_c(w, ';'); show(w, &c[j], 1, 0, link); } else show(w, c, n, 0, link); i = q + 1; continue; } }
    else if (t[i] == '@' && pandoc && (!i || bl(t[i - 1]) || t[i - 1] == '(')) { size_t k = rkey(t + i + 1, &c[0].key); if (k) { size_t q = i + 1 + k, s = q; c[0].loc = ""; while (t[s] == ' ' || t[s] == '\t') s++; if (t[s] == '[' && t[s + 1] && !strchr("@-#^%!]", t[s + 1])) { size_t m = s + 1; while (t[m] && t[m] != '[' && t[m] != ']' && t[m] != '\n') m++; if (t[m] == ']' && t[m + 1] != '(' && t[m + 1] != '[' && t[m + 1] != ':') { c[0].loc = trim(t + s + 1, m - s - 1); q = m + 1; } } show(w, c, 1, 1, link); i = q; continue; } }
    b_c(w, t[i++]);
  } }
