//@src cli/main.c
//@src src/extensions/metadata.c
//@srcflags -Dmain=apex_main -Dfopen=m_fopen -Dfclose=m_fclose -Dfflush=m_fflush -Dferror=m_ferror -Dfputs=m_fputs -Dfputc=m_fputc -Dputc=m_fputc -Dputchar=m_putchar -Dputs=m_puts -Dfwrite=m_fwrite -Dfprintf=m_fprintf -Dprintf=m_printf -Dread=m_read -Dfgets=m_fgets -Dpopen=m_popen -Dpclose=m_pclose -Disatty=m_isatty -Dfileno=m_fileno -Dsystem=m_system -Dunlink=m_unlink -Dgetcwd=m_getcwd -Dgetenv=m_getenv -fno-builtin
//@job C48 h_v_io quick=60 workers=6 bound="inputs of 0..12 and around 8192 bytes with 3 arbitrary bytes, from a file or standard input in reads of 1, 5 or 8192 bytes; failing input, conversion and output"
//@job C48 h_v_meta quick=60 workers=6 bound="keys a and b in each of global config, project config, --meta-file, document (3 formats) and --meta, each present or not, 1 arbitrary byte"
//@job C48 h_v_val quick=90 workers=8 bound="every metadata value of 1..3 bytes from a document or file"
//@job C48 h_v_text quick=60 workers=6 bound="MMD documents with values of 5 characters over 12 (quotes, backslash, colon, hash, brackets)"
//@job C48 h_v_big quick=60 workers=4 bound="1..40 keys, values of 0..3000 bytes"
//@job C48 h_v_mode quick=60 workers=4 bound="5 modes, given by flag or metadata, with metadata from each source; input file in 3 places, --base-dir"
//@job C48 h_v_conf quick=60 workers=4 bound="configuration in XDG_CONFIG_HOME or HOME, in the working directory, the base directory and the repository root, each present or not"
#include "cliconv.h"
/* reading the front matter back, as YAML */
typedef struct { char *k, *v; } KV; static KV fm[64]; static int fm_n; static const char *fm_rest;
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static void front(const char *t) { static const char Y[] = "the front matter is well-formed YAML"; fm_n = 0; fm_rest = t; if (!starts(t, "---\n")) return; t += 4; while (!starts(t, "---\n")) { sv_assert(fm_n < 64 && *t, Y); const char *c = strstr(t, ": "); if (!c) { sv_fail(Y); return; } B k = {0}, v = {0}; b_mem(&k, t, (size_t)(c - t)); b_lit(&v, ""); t = c + 2; if (*t == '"') { t++; while (*t != '"') { if (!*t || *t == '\n') { sv_fail(Y); return; } if (*t == '\\') { t++; switch (*t) { case '"': case '\\': case '/': case ' ': b_c(&v, *t); break; case 'n': b_c(&v, '\n'); break; case 't': b_c(&v, '\t'); break; case 'r': b_c(&v, '\r'); break; case 'x': { int h = hexv(t[1]), l = h < 0 ? -1 : hexv(t[2]); if (l < 0) { sv_fail(Y); return; } b_c(&v, (char)(h * 16 + l)); t += 2; break; } default: sv_fail(Y); return; } t++; } else { sv_assert((unsigned char)*t >= 32 || *t == '\t', Y); b_c(&v, *t++); } } t++; while (*t == ' ') t++; sv_assert(*t == '\n', Y); }
    else if (*t == '\'') { t++; for (;; t++) { if (!*t || *t == '\n') { sv_fail(Y); return; } if (*t == '\'') { if (t[1] != '\'') break; t++; } b_c(&v, *t); } t++; while (*t == ' ') t++; sv_assert(*t == '\n', Y); }
    else { sv_assert(!strchr("-?:,[]{}#&*!|>%@`", *t) || ((*t == '-' || *t == '?' || *t == ':') && t[1] != ' ' && t[1] != '\n'), Y); const char *s = t; while (*t && *t != '\n') { sv_assert((unsigned char)*t >= 32 && *t != 127, Y); sv_assert(!(*t == ':' && (t[1] == ' ' || t[1] == '\n')) && !(*t == '#' && t > s && t[-1] == ' '), Y); b_c(&v, *t++); } while (v.n && v.p[v.n - 1] == ' ') v.p[--v.n] = 0; }
    sv_assert(*t == '\n', Y); t++; fm[fm_n].k = k.p; fm[fm_n++].v = v.p; } fm_rest = t + 4; }
static const char M_V[] = "a metadata value reaches the converter exactly", M_B[] = "the body reaches the converter unchanged";
static void is(const char *k, const char *v) { int n = 0; for (int i = 0; i < fm_n; i++) if (!strcasecmp(fm[i].k, k)) { n++; expect_str(fm[i].v, v, M_V); } sv_assert(n == 1, M_V); char *c = strdup(cv_text), *p = c; y_ok = 0; apex_metadata_item *m = apex_extract_metadata(&p); const char *g = apex_metadata_get(m, k); expect_str(g, v, M_V); }
void h_v_io(void) { static const int N[] = {0, 1, 3, 5, 12, 4096, 8185, 8189, 8190, 8191, 8192}; int k = sv_choice(11), src = sv_choice(2), out = sv_choice(2), bad = sv_choice(6); B b = {0}; b_lit(&b, ""); if (N[k]) b_lit(&b, "#x"); b_fill(&b, 'p', (size_t)N[k]); if (N[k]) { b_sym(&b, 3); b_lit(&b, "\nend"); } in_data = b.p; in_len = b.n; in_step = N[k] > 12 ? 8192 : (size_t[]){1, 5, 8192}[sv_choice(3)]; if (bad != 1) sv_file("in.md", b.p, b.n); static const char *const O[] = {"", "<p>x</p>\n", "\xc3\xa9"}; cv_out = O[sv_choice(3)]; cv_fail = bad == 2; OS *o = out_of(out); if (bad == 3 && out) no_open = "o"; if (bad == 4) { o->room = 0; o->buffered = sv_choice(2); } in_fail = bad == 5; int md = sv_choice(2); char *a[8]; int n = 0; if (md) a[n++] = "-m", a[n++] = "gfm"; if (out) a[n++] = "-o", a[n++] = "o"; if (!src) a[n++] = "in.md"; int rc = run(n, a);
  int noin = (bad == 1 && !src) || (bad == 5 && src), noout = (bad == 3 && out) || (bad == 4 && *cv_out); sv_assert((rc == 0) == !(noin || cv_fail || noout), "the exit status says whether the output was written"); if (noin) { sv_assert(!cv_n && !SO.b.n && !OF.b.n, "unreadable input gives no output"); sv_cover("noin"); return; } sv_assert(cv_n == 1 && cv_len == b.n, "the whole input reaches the converter"); sv_assert_mem_eq(cv_text, b.p, b.n, "the whole input reaches the converter"); if (cv_fail) { sv_assert(!SO.b.n && !OF.b.n, "a failed conversion gives no output"); return; } if (!noout) { expect_str(o->b.p ? o->b.p : "", cv_out, "the output is the conversion's result"); sv_assert(!out_of(!out)->b.n && !OF.open, "the output goes where it is asked for"); sv_assert(!out || !strcmp(of_name, "o"), "the output goes where it is asked for"); } sv_cover("io"); }
static const char *val[6][2];
void h_v_meta(void) { xdg = "x"; B s = {0}; b_not(&s, 1, "\n\r\t \"'=,:\v\f"); char *y = b_done(&s); char *a[8]; int n = 0, fmt = sv_choice(3); static const char *const T[] = {"G", "P", "F", "D", "C"}; char vb[5][8]; for (int i = 0; i < 5; i++) { sprintf(vb[i], "%s%s", T[i], i == 3 ? y : ""); int w = sv_choice(3 + (i < 3)); if (i == 3 && fmt == 2 && (w & 2)) sv_assume(0); for (int k = 0; k < 2; k++) val[i][k] = (w >> k) & 1 ? vb[i] : 0; }
  for (int i = 0; i < 5; i++) { B d = {0}; b_lit(&d, ""); if (i == 3) { if (fmt == 0 && (val[3][0] || val[3][1])) b_lit(&d, "---\n"); } for (int k = 0; k < 2; k++) if (val[i][k]) { if (i == 4) { if (d.n) b_c(&d, ','); b_c(&d, (char)('a' + k)); b_c(&d, '='); b_lit(&d, val[i][k]); } else if (i == 3 && fmt == 2) { b_lit(&d, "A: "); b_lit(&d, val[i][k]); b_c(&d, '\n'); } else { b_c(&d, (char)((i == 1 ? 'A' : 'a') + k)); b_lit(&d, ": "); b_lit(&d, val[i][k]); b_c(&d, '\n'); } } int any = d.n > 0; if (i == 3) { if (any) b_lit(&d, fmt == 0 ? "---\n" : "\n"); b_lit(&d, "# Body\ntext\n"); file("in.md", d.p); } else if (any) { if (i == 0) file("x/apex/config.yml", d.p); if (i == 1) file("w/.apex/config.yml", d.p); if (i == 2) { file("m.yml", d.p); a[n++] = "--meta-file"; a[n++] = "m.yml"; } if (i == 4) { a[n++] = "--meta"; a[n++] = d.p; } } }
  a[n++] = "in.md"; int rc = run(n, a); sv_assert(rc == 0 && cv_n, "the input is converted"); front(cv_text); for (int k = 0; k < 2; k++) { const char *v = 0; for (int i = 0; i < 5; i++) if (val[i][k]) v = val[i][k]; if (v) is(k ? "b" : "a", v); else for (int i = 0; i < fm_n; i++) sv_assert(strcasecmp(fm[i].k, k ? "b" : "a"), "no metadata is made up"); } sv_assert(!strcmp(fm_rest, "# Body\ntext\n"), M_B); sv_cover("meta"); }
static void one_value(const char *v, int src) { y_ok = 1; int m = y_coll(1); int k = y_scalar("key"); y_pair(m, k, y_scalar(v)); if (src) { file("m.yml", "---\nkey: (read by libyaml)\n"); file("in.md", "# Body\n"); } else file("in.md", "---\nkey: (read by libyaml)\n---\n# Body\n"); int rc = src ? CLI_RUN("--meta-file", "m.yml", "in.md") : CLI_RUN("in.md"); sv_assert(rc == 0 && cv_n, "the input is converted"); front(cv_text); is("key", v); sv_assert(!strcmp(fm_rest, "# Body\n"), M_B); }
void h_v_val(void) { B b = {0}; b_not(&b, 1, ""); b_sym(&b, 2); one_value(b_done(&b), sv_choice(2)); sv_cover("value"); }
void h_v_text(void) { B b = {0}, d = {0}, w = {0}; b_in0(&b, 5, "a\"'\\: #[{x-"); char *v = b_done(&b); size_t i = 0, j = strlen(v); while (v[i] == ' ') i++; while (j > i && v[j - 1] == ' ') j--; sv_assume(j > i); b_lit(&d, "Key: "); b_lit(&d, v); b_lit(&d, "\nOther Key: z\n\n# Body\n"); b_mem(&w, v + i, j - i); file("in.md", d.p); int rc = CLI_RUN("in.md"); sv_assert(rc == 0 && cv_n, "the input is converted"); front(cv_text); char *c = strdup(d.p), *p = c; apex_metadata_item *m = apex_extract_metadata(&p); const char *g = apex_metadata_get(m, "key"); if (!g) { sv_assert(!fm_n && !strcmp(cv_text, d.p), M_B); return; } is("key", g); is("other key", "z"); sv_assert(!strcmp(fm_rest, "# Body\n"), M_B); sv_cover("text"); }
void h_v_big(void) { static const int L[] = {0, 1, 100, 489, 495, 500, 505, 3000}; int l = L[sv_choice(8)], n = 1 + sv_choice(40), q = sv_choice(2); B v = {0}, d = {0}; b_lit(&v, ""); b_sym(&v, 1); sv_restrict_(v.p, 1, "a\x01\"", 3); b_fill(&v, q ? '"' : 'v', (size_t)l); b_lit(&d, "---\n"); y_ok = 1; int m = y_coll(1), kk = y_scalar("key"); y_pair(m, kk, y_scalar(v.p)); b_lit(&d, "---\nBody\n"); file("in.md", d.p); B mm = {0}; for (int i = 0; i < n; i++) { char t[32]; sprintf(t, "%sk%d=%d", i ? "," : "", i, i * 7); b_lit(&mm, t); } int rc = CLI_RUN("--meta", mm.p, "in.md"); sv_assert(rc == 0 && cv_n, "the input is converted"); front(cv_text); sv_assert(fm_n == n + 1, M_V); is("key", v.p); for (int i = 0; i < n; i += n > 3 ? n / 3 : 1) { char k[8], w[8]; sprintf(k, "k%d", i); sprintf(w, "%d", i * 7); is(k, w); } sv_assert(!strcmp(fm_rest, "Body\n"), M_B); sv_cover("big"); }
void h_v_mode(void) { static const char *const MN[] = {"commonmark", "gfm", "mmd", "multimarkdown", "kramdown", "unified"}; static const int MO[] = {APEX_MODE_COMMONMARK, APEX_MODE_GFM, APEX_MODE_MULTIMARKDOWN, APEX_MODE_MULTIMARKDOWN, APEX_MODE_KRAMDOWN, APEX_MODE_UNIFIED}; static const char *const IN[] = {"in.md", "d/in.md", "d/e/in.md", 0}; static const char *const BD[] = {0, "d", "d/e", 0}; int k = sv_choice(6), by = sv_choice(4), in = sv_choice(4), bd = sv_choice(2); B d = {0}; if (by == 1) { b_lit(&d, "---\nmode: "); b_lit(&d, MN[k]); b_lit(&d, "\n---\n"); } b_lit(&d, "# Body\ntext\n"); if (IN[in]) file(IN[in], d.p); else in_data = d.p, in_len = d.n; char *a[8]; int n = 0; B mm = {0}; b_lit(&mm, "mode="); b_lit(&mm, MN[k]); if (by == 2) a[n++] = "--meta", a[n++] = mm.p; if (by == 0 || by == 3) a[n++] = "--mode", a[n++] = (char *)MN[k]; if (by == 3) a[n++] = "--meta", a[n++] = "t=1"; if (bd) a[n++] = "--base-dir", a[n++] = "q"; if (IN[in]) a[n++] = (char *)IN[in]; int rc = run(n, a); sv_assert(rc == 0 && cv_n, "the input is converted"); sv_assert((int)cv_o.mode == MO[k], "the mode is the one asked for"); front(cv_text); if (k < 2) sv_assert(!strcmp(cv_text, "# Body\ntext\n"), "a mode without metadata gets the text alone"); else { sv_assert(!strcmp(fm_rest, "# Body\ntext\n"), M_B); if (by == 3) is("t", "1"); } const char *base = bd ? "q" : BD[in]; sv_assert(base ? cv_base && !strcmp(cv_base, base) : !cv_base, "the base directory is that of the input, unless given"); const char *path = IN[in] ? IN[in] : bd ? "q" : 0; sv_assert(path ? cv_path && !strcmp(cv_path, path) : !cv_path, "plugins are told the input's path"); sv_cover("mode"); }
void h_v_conf(void) { static const char *const G[] = {0, "", "w", "g", "r/w"}; int x = sv_choice(3), hm = sv_choice(3), gt = sv_choice(5), wdk = sv_choice(3), ms = sv_choice(32), bd = sv_choice(3); wd = wdk == 0 ? "w" : wdk == 1 ? "g/w" : "gw"; xdg = x == 0 ? 0 : x == 1 ? "" : "x"; home = hm == 0 ? 0 : hm == 1 ? "" : "h"; git_top = G[gt]; if (gt == 4) { git_top = "g"; git_rc = 128; } if (ms & 1) file("x/apex/config.yml", "a: X\n"); if (ms & 2) file("h/.config/apex/config.yml", "a: H\n"); B c = {0}; b_lit(&c, wd); b_lit(&c, "/.apex/config.yml"); if (ms & 4) file(c.p, "b: W\n"); if (ms & 8) file("d/.apex/config.yml", "b: D\n"); if (ms & 16) file("g/.apex/config.yml", "b: G\n"); file("d/in.md", "# B\n"); file("in.md", "# B\n"); int rc = bd == 0 ? CLI_RUN("in.md") : bd == 1 ? CLI_RUN("d/in.md") : CLI_RUN("--base-dir", "d", "in.md"); sv_assert(rc == 0 && cv_n, "the input is converted"); front(cv_text);
  const char *a = xdg && *xdg ? (ms & 1 ? "X" : 0) : home && *home && (ms & 2) ? "H" : 0, *b = ms & 4 ? "W" : bd && (ms & 8) ? "D" : gt == 3 && wdk == 1 && (ms & 16) ? "G" : 0; if (gt == 2 && wdk == 0 && !b) b = 0; sv_assert(fm_n == (a != 0) + (b != 0), "the configuration files that apply are read"); if (a) is("a", a); if (b) is("b", b); sv_assert(!strcmp(fm_rest, "# B\n"), M_B); sv_cover("conf"); }
