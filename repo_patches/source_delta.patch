From 4efadff3704c2390bd551e391cb461c7087cc0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:58 +0000
Subject: [PATCH 01/66] fix: critic markup output no longer overflows or drops
 short constructs

The output buffer was 2*len with no room for the terminator, and the HTML of a
construct was silently dropped when it did not fit (e.g. "{++x++}" in markup
mode produced an empty document).
---
 src/extensions/critic.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/extensions/critic.c b/src/extensions/critic.c
index b686951..1f86fe6 100644
--- a/src/extensions/critic.c
+++ b/src/extensions/critic.c
@@ -278,7 +278,7 @@ char *apex_process_critic_markup_text(const char *text, critic_mode_t mode) {
     if (!text) return NULL;
 
     size_t len = strlen(text);
-    size_t output_capacity = len * 2;  /* Generous estimate */
+    size_t output_capacity = len * 2 + 1;  /* Generous estimate, plus terminator */
     char *output = malloc(output_capacity);
     if (!output) return NULL;
 
@@ -303,11 +303,23 @@ char *apex_process_critic_markup_text(const char *text, critic_mode_t mode) {
                 char *html = critic_to_html(type, content, content_len, old_text, old_len, mode);
                 if (html) {
                     size_t html_len = strlen(html);
-                    if (html_len < remaining_capacity) {
-                        memcpy(write_pos, html, html_len);
-                        write_pos += html_len;
-                        remaining_capacity -= html_len;
+                    /* Keep room for this HTML, the rest of the text and the terminator */
+                    size_t needed = html_len + strlen(read_pos + consumed) + 1;
+                    if (needed > remaining_capacity) {
+                        size_t written = write_pos - output;
+                        char *new_output = realloc(output, written + needed * 2);
+                        if (!new_output) {
+                            free(html);
+                            free(output);
+                            return NULL;
+                        }
+                        output = new_output;
+                        write_pos = output + written;
+                        remaining_capacity = needed * 2;
                     }
+                    memcpy(write_pos, html, html_len);
+                    write_pos += html_len;
+                    remaining_capacity -= html_len;
                     free(html);
                 }
                 read_pos += consumed;
-- 
2.43.0


From e8c0995fdd30de1f426ce7c3ff51df6f2a7b7c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:41 +0000
Subject: [PATCH 02/66] fix: highlight output buffer always holds the tags and
 terminator

With 2*len bytes the <mark> tags or the highlighted text were silently dropped
for short documents and the terminator was written past the end.
---
 src/extensions/highlight.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensions/highlight.c b/src/extensions/highlight.c
index d09d1c3..8dfcdce 100644
--- a/src/extensions/highlight.c
+++ b/src/extensions/highlight.c
@@ -42,7 +42,7 @@ char *apex_process_highlights(const char *text) {
     if (!text) return NULL;
 
     size_t len = strlen(text);
-    size_t capacity = len * 2;  /* Room for <mark> tags */
+    size_t capacity = len * 3 + 16;  /* Room for <mark> tags: "==x==" grows from 5 to 14 bytes */
     char *output = malloc(capacity);
     if (!output) return NULL;
 
-- 
2.43.0


From 06c11b10e24406da0ebf3c1c39499a9c61222b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:41 +0000
Subject: [PATCH 03/66] fix: insert output buffer always holds the tags, the
 rest of the text and terminator

With 2*len bytes the <ins> tags or text were silently dropped for short
documents, and text after an attribute list could be dropped after the buffer
had been resized for it.
---
 src/extensions/insert.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extensions/insert.c b/src/extensions/insert.c
index 1a63432..8980358 100644
--- a/src/extensions/insert.c
+++ b/src/extensions/insert.c
@@ -49,7 +49,7 @@ char *apex_process_inserts(const char *text) {
     if (!text) return NULL;
 
     size_t len = strlen(text);
-    size_t capacity = len * 2;  /* Room for <ins> tags */
+    size_t capacity = len * 3 + 16;  /* Room for <ins> tags: "++x++" grows from 5 to 12 bytes */
     char *output = malloc(capacity);
     if (!output) return NULL;
 
@@ -136,6 +136,7 @@ char *apex_process_inserts(const char *text) {
                             if (attr_str) {
                                 /* Calculate space needed */
                                 size_t ins_open_len = 30 + strlen(attr_str) + content_len + 20;
+                                ins_open_len += strlen(ial_end) * 3;  /* rest of the text */
                                 if (remaining < ins_open_len) {
                                     size_t written = write - output;
                                     capacity = (written + ins_open_len + 1) * 2;
-- 
2.43.0


From 156a6c17fdc17fb1a9c12f40591bc19c45816fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:41 +0000
Subject: [PATCH 04/66] fix: inline footnote output buffer always holds
 references and definitions

With 3*len bytes references or whole definitions were silently dropped for
short footnotes and the terminator was written past the end.
---
 src/extensions/inline_footnotes.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/extensions/inline_footnotes.c b/src/extensions/inline_footnotes.c
index f57f7f2..b90242d 100644
--- a/src/extensions/inline_footnotes.c
+++ b/src/extensions/inline_footnotes.c
@@ -28,7 +28,12 @@ char *apex_process_inline_footnotes(const char *text) {
 
     size_t len = strlen(text);
     /* Allocate generous buffer (inline footnotes become references + definitions) */
-    size_t capacity = len * 3;
+    size_t carets = 0;
+    for (const char *p = text; *p; p++) {
+        if (*p == '^') carets++;
+    }
+    /* Each footnote adds a reference, "[^fnN]: " and a newline; plus separator and terminator */
+    size_t capacity = len * 3 + carets * 48 + 16;
     char *output = malloc(capacity);
     if (!output) return strdup(text);
 
-- 
2.43.0


From 9615b2b10095e26e32393398b97f95dd327e710c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:26 +0000
Subject: [PATCH 05/66] fix: highlight and insert no longer read past the end
 of the text

---
 src/extensions/highlight.c | 2 +-
 src/extensions/insert.c    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/extensions/highlight.c b/src/extensions/highlight.c
index 8dfcdce..7bce3e7 100644
--- a/src/extensions/highlight.c
+++ b/src/extensions/highlight.c
@@ -82,7 +82,7 @@ char *apex_process_highlights(const char *text) {
          */
         bool preceded_by_equals = (read > text && read[-1] == '=');
         bool preceded_by_plus = (read > text && read[-1] == '+');
-        bool followed_by_plus = (read[2] == '+');
+        bool followed_by_plus = (read[1] != '\0' && read[2] == '+');
         bool is_valid_highlight_start = (read[0] == '=' && read[1] == '=' &&
                                          read[2] != '=' && read[2] != '}' &&
                                          read[2] != '\0' && read[2] != '\n' &&
diff --git a/src/extensions/insert.c b/src/extensions/insert.c
index 8980358..f9f991b 100644
--- a/src/extensions/insert.c
+++ b/src/extensions/insert.c
@@ -82,8 +82,8 @@ char *apex_process_inserts(const char *text) {
          */
         bool preceded_by_plus = (read > text && read[-1] == '+');
         bool preceded_by_brace = (read > text && read[-1] == '{');
-        bool followed_by_plus = (read[2] == '+');
-        bool followed_by_brace = (read[2] == '}');
+        bool followed_by_plus = (read[1] != '\0' && read[2] == '+');
+        bool followed_by_brace = (read[1] != '\0' && read[2] == '}');
         bool is_valid_insert_start = (read[0] == '+' && read[1] == '+' &&
                                      read[2] != '+' && !followed_by_brace &&
                                      read[2] != '\0' && read[2] != '\n' &&
-- 
2.43.0


From 5b62fe4921b0a6d3b507d914351cd40d8dd70f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:06 +0000
Subject: [PATCH 06/66] fix: separate the attributes of an <ins> element with a
 space

---
 src/extensions/insert.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions/insert.c b/src/extensions/insert.c
index f9f991b..bf28fac 100644
--- a/src/extensions/insert.c
+++ b/src/extensions/insert.c
@@ -152,7 +152,7 @@ char *apex_process_inserts(const char *text) {
                                 }
 
                                 /* Write <ins markdown="span" ...> */
-                                int written = snprintf(write, remaining, "<ins markdown=\"span\"%s>", attr_str);
+                                int written = snprintf(write, remaining, "<ins markdown=\"span\" %s>", attr_str);
                                 if (written > 0) {
                                     if ((size_t)written >= remaining) {
                                         /* String was truncated - need more space */
@@ -168,7 +168,7 @@ char *apex_process_inserts(const char *text) {
                                         write = output + current_written;
                                         remaining = capacity - current_written;
                                         /* Retry with more space */
-                                        written = snprintf(write, remaining, "<ins markdown=\"span\"%s>", attr_str);
+                                        written = snprintf(write, remaining, "<ins markdown=\"span\" %s>", attr_str);
                                     }
                                     if (written > 0 && (size_t)written < remaining) {
                                         write += written;
-- 
2.43.0


From fb436afd567dfb08a3679a761e18d9387a52d980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:47 +0000
Subject: [PATCH 07/66] fix: special markers are never dropped, cut off or read
 past the end; {index} works anywhere

---
 src/extensions/special_markers.c | 56 ++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/src/extensions/special_markers.c b/src/extensions/special_markers.c
index f67c367..42ca2b7 100644
--- a/src/extensions/special_markers.c
+++ b/src/extensions/special_markers.c
@@ -18,7 +18,7 @@ char *apex_process_special_markers(const char *text) {
 
     size_t len = strlen(text);
     /* Page break divs are ~64 bytes each, so need generous capacity */
-    size_t capacity = len * 4;  /* Room for expansion */
+    size_t capacity = len * 4 + 16;  /* Room for expansion */
     char *output = malloc(capacity);
     if (!output) return strdup(text);
 
@@ -58,11 +58,22 @@ char *apex_process_special_markers(const char *text) {
                 /* This ensures lists are not merged by the parser, and the paragraph won't render visibly */
                 const char *replacement = "\n\n\u200B\n\n";
                 size_t repl_len = strlen(replacement);
-                if (repl_len < remaining) {
-                    memcpy(write, replacement, repl_len);
-                    write += repl_len;
-                    remaining -= repl_len;
+                if (repl_len + strlen(read) >= remaining) {
+                    /* Expand buffer */
+                    size_t written = (size_t)(write - output);
+                    capacity = (written + repl_len + 100) * 2 + strlen(read) * 4;
+                    char *new_output = realloc(output, capacity);
+                    if (!new_output) {
+                        free(output);
+                        return strdup(text);
+                    }
+                    output = new_output;
+                    write = output + written;
+                    remaining = capacity - written;
                 }
+                memcpy(write, replacement, repl_len);
+                write += repl_len;
+                remaining -= repl_len;
                 /* Skip to after the ^ and any trailing whitespace/newline */
                 read = after;
                 if (*read == '\n') read++;
@@ -79,10 +90,10 @@ char *apex_process_special_markers(const char *text) {
                 "style=\"page-break-after:always\">"
                 "<span style=\"display:none\">&nbsp;</span></div>\n\n";
             size_t repl_len = strlen(replacement);
-            if (repl_len >= remaining) {
+            if (repl_len + strlen(read) >= remaining) {
                 /* Expand buffer */
                 size_t written = (size_t)(write - output);
-                capacity = (written + repl_len + 100) * 2;
+                capacity = (written + repl_len + 100) * 2 + strlen(read) * 4;
                 char *new_output = realloc(output, capacity);
                 if (!new_output) {
                     free(output);
@@ -114,11 +125,22 @@ char *apex_process_special_markers(const char *text) {
                         seconds);
 
                 size_t repl_len = strlen(replacement);
-                if (repl_len < remaining) {
-                    memcpy(write, replacement, repl_len);
-                    write += repl_len;
-                    remaining -= repl_len;
+                if (repl_len + strlen(read) >= remaining) {
+                    /* Expand buffer */
+                    size_t written = (size_t)(write - output);
+                    capacity = (written + repl_len + 100) * 2 + strlen(read) * 4;
+                    char *new_output = realloc(output, capacity);
+                    if (!new_output) {
+                        free(output);
+                        return strdup(text);
+                    }
+                    output = new_output;
+                    write = output + written;
+                    remaining = capacity - written;
                 }
+                memcpy(write, replacement, repl_len);
+                write += repl_len;
+                remaining -= repl_len;
                 read = num_end + 3;
                 continue;
             }
@@ -133,10 +155,10 @@ char *apex_process_special_markers(const char *text) {
                 "style=\"page-break-after:always\">"
                 "<span style=\"display:none\">&nbsp;</span></div>\n\n";
             size_t repl_len = strlen(replacement);
-            if (repl_len >= remaining) {
+            if (repl_len + strlen(read) >= remaining) {
                 /* Expand buffer */
                 size_t written = (size_t)(write - output);
-                capacity = (written + repl_len + 100) * 2;
+                capacity = (written + repl_len + 100) * 2 + strlen(read) * 4;
                 char *new_output = realloc(output, capacity);
                 if (!new_output) {
                     free(output);
@@ -157,12 +179,12 @@ char *apex_process_special_markers(const char *text) {
          * Replaced with <!--INDEX--> so the index extension inserts the index there.
          * The marker is always removed from the document (either replaced by the
          * index block or left as an invisible HTML comment when index is suppressed). */
-        if (strncmp(read, "{index}", 8) == 0) {
+        if (strncmp(read, "{index}", 7) == 0) {
             const char *replacement = "<!--INDEX-->";
             size_t repl_len = strlen(replacement);
-            if (repl_len >= remaining) {
+            if (repl_len + strlen(read) >= remaining) {
                 size_t written = (size_t)(write - output);
-                capacity = (written + repl_len + 100) * 2;
+                capacity = (written + repl_len + 100) * 2 + strlen(read) * 4;
                 char *new_output = realloc(output, capacity);
                 if (!new_output) {
                     free(output);
@@ -175,7 +197,7 @@ char *apex_process_special_markers(const char *text) {
             memcpy(write, replacement, repl_len);
             write += repl_len;
             remaining -= repl_len;
-            read += 8;
+            read += 7;
             continue;
         }
 
-- 
2.43.0


From 073a80f4c74036549f4d2f07107598f7c70913e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:06 +0000
Subject: [PATCH 08/66] fix: abbreviations keep long lines, all tags and never
 loop on an empty name

---
 src/extensions/abbreviations.c | 69 ++++++++++++++++++++++------------
 1 file changed, 46 insertions(+), 23 deletions(-)

diff --git a/src/extensions/abbreviations.c b/src/extensions/abbreviations.c
index 8dacf92..a779f36 100644
--- a/src/extensions/abbreviations.c
+++ b/src/extensions/abbreviations.c
@@ -41,7 +41,7 @@ static char *process_inline_abbreviations(const char *text, abbr_item **abbrs_li
     if (!text) return NULL;
 
     size_t len = strlen(text);
-    char *output = malloc(len * 2);  /* Room for expansion */
+    char *output = malloc(len + 1);  /* Definitions only ever shrink the text */
     if (!output) return strdup(text);
 
     const char *read = text;
@@ -70,17 +70,19 @@ static char *process_inline_abbreviations(const char *text, abbr_item **abbrs_li
                         memcpy(exp_text, exp_start, exp_len);
                         exp_text[exp_len] = '\0';
 
-                        /* Add to abbreviations list */
-                        abbr_item *item = malloc(sizeof(abbr_item));
+                        /* Add to abbreviations list (never an empty abbreviation) */
+                        char *abbr_trimmed = trim(abbr_text);
+                        char *exp_trimmed = trim(exp_text);
+                        abbr_item *item = *abbr_trimmed ? malloc(sizeof(abbr_item)) : NULL;
                         if (item) {
-                            item->abbr = strdup(trim(abbr_text));
-                            item->expansion = strdup(trim(exp_text));
+                            item->abbr = strdup(abbr_trimmed);
+                            item->expansion = strdup(exp_trimmed);
                             item->next = *abbrs_list;
                             *abbrs_list = item;
                         }
 
                         /* Write just the abbreviation text */
-                        strcpy(write, abbr_text);
+                        memcpy(write, abbr_start, abbr_len);
                         write += abbr_len;
                         read = exp_end + 1;
                         continue;
@@ -189,9 +191,9 @@ abbr_item *apex_extract_abbreviations(char **text_ptr) {
             }
         }
 
-        /* Not an abbreviation, copy line to output */
-        memcpy(output_write, line_start, line_len);
-        output_write += line_len;
+        /* Not an abbreviation, copy the whole line to output */
+        memcpy(output_write, line_start, line_end - line_start);
+        output_write += line_end - line_start;
         if (*line_end) {
             *output_write++ = '\n';
             line_start = line_end + 1;
@@ -209,6 +211,21 @@ abbr_item *apex_extract_abbreviations(char **text_ptr) {
     return abbrs;
 }
 
+/**
+ * Make sure that need bytes and a terminator fit at *write
+ */
+static bool reserve(char **output, char **write, size_t *remaining, size_t need) {
+    if (*remaining > need) return true;
+    size_t used = (size_t)(*write - *output);
+    size_t capacity = (used + need + 1) * 2;
+    char *grown = realloc(*output, capacity);
+    if (!grown) return false;
+    *output = grown;
+    *write = grown + used;
+    *remaining = capacity - used;
+    return true;
+}
+
 /**
  * Replace abbreviations in HTML
  */
@@ -221,7 +238,7 @@ char *apex_replace_abbreviations(const char *html, abbr_item *abbrs) {
     /* Calculate max possible expansion:
      * Each abbreviation could be replaced with <abbr title="expansion">abbr</abbr>
      * Worst case: very long expansions. Use html_len * 5 to be safe. */
-    size_t capacity = html_len * 5;
+    size_t capacity = html_len * 5 + 1;
     char *output = malloc(capacity);
     if (!output) return strdup(html);
 
@@ -249,7 +266,7 @@ char *apex_replace_abbreviations(const char *html, abbr_item *abbrs) {
                         size_t abbr_len = (size_t)(abbr_end - (start + 1));
                         size_t exp_len = (size_t)(end - (abbr_end + 1));
 
-                        if (abbr_len > 0 && exp_len > 0) {
+                        if (abbr_len > 0 && abbr_len < 256 && exp_len > 0 && exp_len < 1024) {
                             char abbr_text[256];
                             char exp_text[1024];
 
@@ -270,11 +287,13 @@ char *apex_replace_abbreviations(const char *html, abbr_item *abbrs) {
                                     exp_trimmed, abbr_trimmed);
 
                             size_t tag_len = strlen(abbr_tag);
-                            if (tag_len < remaining) {
-                                memcpy(write, abbr_tag, tag_len);
-                                write += tag_len;
-                                remaining -= tag_len;
+                            if (!reserve(&output, &write, &remaining, tag_len + strlen(read))) {
+                                free(output);
+                                return strdup(html);
                             }
+                            memcpy(write, abbr_tag, tag_len);
+                            write += tag_len;
+                            remaining -= tag_len;
 
                             read = end + 1;
                             replaced = true;
@@ -299,11 +318,13 @@ char *apex_replace_abbreviations(const char *html, abbr_item *abbrs) {
                                         item->expansion, item->abbr);
 
                                 size_t tag_len = strlen(abbr_tag);
-                                if (tag_len < remaining) {
-                                    memcpy(write, abbr_tag, tag_len);
-                                    write += tag_len;
-                                    remaining -= tag_len;
+                                if (!reserve(&output, &write, &remaining, tag_len + strlen(read))) {
+                                    free(output);
+                                    return strdup(html);
                                 }
+                                memcpy(write, abbr_tag, tag_len);
+                                write += tag_len;
+                                remaining -= tag_len;
 
                                 read = end + 1;
                                 replaced = true;
@@ -336,11 +357,13 @@ char *apex_replace_abbreviations(const char *html, abbr_item *abbrs) {
                             item->expansion, item->abbr);
 
                     size_t tag_len = strlen(abbr_tag);
-                    if (tag_len < remaining) {
-                        memcpy(write, abbr_tag, tag_len);
-                        write += tag_len;
-                        remaining -= tag_len;
+                    if (!reserve(&output, &write, &remaining, tag_len + strlen(read))) {
+                        free(output);
+                        return strdup(html);
                     }
+                    memcpy(write, abbr_tag, tag_len);
+                    write += tag_len;
+                    remaining -= tag_len;
 
                     read += abbr_len;
                     replaced = true;
-- 
2.43.0


From 54ac53d0fe757971cc6aaf95420a9d362c7f2f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:45 +0000
Subject: [PATCH 09/66] fix: heading IDs normalise lower-case diacritics and
 stay inside their buffers

---
 src/extensions/header_ids.c | 54 +++++++++++--------------------------
 1 file changed, 15 insertions(+), 39 deletions(-)

diff --git a/src/extensions/header_ids.c b/src/extensions/header_ids.c
index 91683c2..4deaae5 100644
--- a/src/extensions/header_ids.c
+++ b/src/extensions/header_ids.c
@@ -135,10 +135,11 @@ char *apex_generate_header_id(const char *text, apex_id_format_t format) {
 
                 if (utf8_len > 0) {
                     /* Copy the entire UTF-8 sequence */
-                    for (int i = 0; i < utf8_len && read[i] != '\0'; i++) {
-                        *write++ = read[i];
+                    int copied = 0;
+                    while (copied < utf8_len && read[copied] != '\0') {
+                        *write++ = read[copied++];
                     }
-                    read += utf8_len - 1;  /* -1 because for loop will increment */
+                    read += copied - 1;  /* -1 because for loop will increment */
                     last_was_dash = false;
                     first_char = false;
                 } else {
@@ -199,9 +200,9 @@ char *apex_generate_header_id(const char *text, apex_id_format_t format) {
                 else if ((c & 0xF0) == 0xE0) utf8_len = 3;  /* 3-byte sequence */
                 else if ((c & 0xF8) == 0xF0) utf8_len = 4;  /* 4-byte sequence */
 
-                if (utf8_len > 0) {
-                    /* Skip the entire UTF-8 sequence */
-                    read += utf8_len - 1;  /* -1 because for loop will increment */
+                /* Skip the entire UTF-8 sequence (which may be cut short by the end) */
+                for (int i = 1; i < utf8_len && read[1] != '\0'; i++) {
+                    read++;
                 }
                 /* Otherwise skip the byte */
             }
@@ -234,7 +235,7 @@ char *apex_generate_header_id(const char *text, apex_id_format_t format) {
                             size_t name_len = strlen(emoji_name);
                             /* Ensure we have enough space */
                             size_t current_pos = write - id;
-                            size_t needed = current_pos + name_len + 1;
+                            size_t needed = current_pos + name_len + strlen(read) * 3 + 1;
                             if (needed > capacity) {
                                 /* Reallocate if needed */
                                 size_t old_pos = write - id;
@@ -261,36 +262,9 @@ char *apex_generate_header_id(const char *text, apex_id_format_t format) {
                                 /* 2-byte UTF-8 sequence - check for common Latin diacritics */
                                 if (read[1] != '\0' && ((unsigned char)read[1] & 0xC0) == 0x80) {
                                     unsigned char byte2 = (unsigned char)read[1];
-                                    /* Check for É (0xC3 0x89) */
-                                    if (c == 0xC3 && byte2 == 0x89) {
-                                        normalized = 'e';
-                                    } else if (c == 0xC3 && byte2 >= 0x80 && byte2 <= 0x85) {
-                                        /* ÀÁÂÃÄÅ (0xC3 0x80-0x85) */
-                                        normalized = 'a';
-                                    } else if (c == 0xC3 && (byte2 == 0x87 || byte2 == 0xA7)) {
-                                        /* Ç (0xC7) or ç (0xE7) */
-                                        normalized = 'c';
-                                    } else if (c == 0xC3 && byte2 >= 0x88 && byte2 <= 0x8B) {
-                                        /* ÈÉÊË (0xC8-0xCB) */
-                                        normalized = 'e';
-                                    } else if (c == 0xC3 && byte2 >= 0x8C && byte2 <= 0x8F) {
-                                        /* ÌÍÎÏ (0xCC-0xCF) */
-                                        normalized = 'i';
-                                    } else if (c == 0xC3 && (byte2 == 0x91 || byte2 == 0xB1)) {
-                                        /* Ñ (0xD1) or ñ (0xF1) */
-                                        normalized = 'n';
-                                    } else if (c == 0xC3 && byte2 >= 0x92 && byte2 <= 0x98) {
-                                        /* ÒÓÔÕÖØ (0xD2-0xD8) */
-                                        normalized = 'o';
-                                    } else if (c == 0xC3 && byte2 >= 0x99 && byte2 <= 0x9C) {
-                                        /* ÙÚÛÜ (0xD9-0xDC) */
-                                        normalized = 'u';
-                                    } else if (c == 0xC3 && (byte2 == 0x9D || byte2 == 0xBD || byte2 == 0xFF)) {
-                                        /* Ýýÿ (0xDD, 0xFD, 0xFF) */
-                                        normalized = 'y';
-                                    } else if (c == 0xC3 && byte2 == 0x9F) {
-                                        /* ß (0xDF) */
-                                        normalized = 's';
+                                    /* U+00C0-U+00FF, upper and lower case */
+                                    if (c == 0xC3) {
+                                        normalized = normalize_char((unsigned char)(byte2 + 0x40));
                                     }
                                 }
                             }
@@ -415,7 +389,7 @@ char *apex_extract_heading_text(cmark_node *heading_node) {
             if (literal) {
                 size_t len = strlen(literal);
                 if (len >= remaining) {
-                    size_t new_capacity = capacity * 2;
+                    size_t new_capacity = (capacity + len) * 2;
                     char *new_text = realloc(text, new_capacity);
                     if (!new_text) {
                         free(text);
@@ -423,6 +397,7 @@ char *apex_extract_heading_text(cmark_node *heading_node) {
                     }
                     write = new_text + (write - text);
                     text = new_text;
+                    capacity = new_capacity;
                     remaining = new_capacity - (write - text);
                 }
                 memcpy(write, literal, len);
@@ -434,7 +409,7 @@ char *apex_extract_heading_text(cmark_node *heading_node) {
             if (literal) {
                 size_t len = strlen(literal);
                 if (len >= remaining) {
-                    size_t new_capacity = capacity * 2;
+                    size_t new_capacity = (capacity + len) * 2;
                     char *new_text = realloc(text, new_capacity);
                     if (!new_text) {
                         free(text);
@@ -442,6 +417,7 @@ char *apex_extract_heading_text(cmark_node *heading_node) {
                     }
                     write = new_text + (write - text);
                     text = new_text;
+                    capacity = new_capacity;
                     remaining = new_capacity - (write - text);
                 }
                 memcpy(write, literal, len);
-- 
2.43.0


From d46b41e591ef01e26a82694ca7f3bd53f1d05add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:29 +0000
Subject: [PATCH 10/66] fix: emoji replacement stays inside its buffers and
 always emits image emoji

---
 src/extensions/emoji.c | 46 ++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/extensions/emoji.c b/src/extensions/emoji.c
index c96e173..1462a65 100644
--- a/src/extensions/emoji.c
+++ b/src/extensions/emoji.c
@@ -87,11 +87,11 @@ static int is_inside_html_attribute(const char *pos, const char *start) {
         } else if (*p == '<') {
             tag_start = p;
             break;
-        } else if (p >= start + 3 && p[-2] == '&' && p[-1] == 'l' && *p == 't' && p[1] == ';') {
+        } else if (p >= start + 2 && p[-2] == '&' && p[-1] == 'l' && *p == 't' && p[1] == ';') {
             /* Found &lt; (encoded <) - tag_start is at the & */
             tag_start = p - 2;
             break;
-        } else if (p >= start + 3 && p[-2] == '&' && p[-1] == 'g' && *p == 't' && p[1] == ';') {
+        } else if (p >= start + 2 && p[-2] == '&' && p[-1] == 'g' && *p == 't' && p[1] == ';') {
             /* Found &gt; (encoded >) - tag_end is at the & */
             tag_end = p - 2;
             break;
@@ -119,7 +119,7 @@ static int is_inside_html_attribute(const char *pos, const char *start) {
         } else if (*p == '>') {
             /* Hit tag end, no = found before this */
             return 0;
-        } else if (p >= start + 3 && p[-2] == '&' && p[-1] == 'g' && *p == 't' && p[1] == ';') {
+        } else if (p >= start + 2 && p[-2] == '&' && p[-1] == 'g' && *p == 't' && p[1] == ';') {
             /* Hit &gt; (encoded tag end), no = found before this */
             return 0;
         }
@@ -226,7 +226,7 @@ const char *apex_find_emoji_name(const char *unicode, size_t unicode_len) {
 char *apex_replace_emoji(const char *html) {
     if (!html) return NULL;
 
-    size_t capacity = strlen(html) * 3;  /* Extra space for image tags */
+    size_t capacity = strlen(html) * 3 + 1;  /* Grown below for image tags */
     char *output = malloc(capacity);
     if (!output) return strdup(html);
 
@@ -268,6 +268,7 @@ char *apex_replace_emoji(const char *html) {
             /* Also check if we're inside an <img> tag (even if not in an attribute) */
             /* This prevents processing emoji patterns that are part of img tag content */
             /* Handles both raw HTML (<img>) and HTML-encoded tags (&lt;img&gt;) */
+            int in_img_tag = 0;
             const char *img_check = read - 1;
             while (img_check >= html && img_check > read - 50) {
                 if (*img_check == '>') {
@@ -280,13 +281,7 @@ char *apex_replace_emoji(const char *html) {
                         (img_check[3] == 'g' || img_check[3] == 'G') &&
                         (isspace((unsigned char)img_check[4]) || img_check[4] == '>')) {
                         /* We're inside an <img> tag - skip emoji processing */
-                        if (remaining > 0) {
-                            *write++ = *read++;
-                            remaining--;
-                        } else {
-                            read++;
-                        }
-                        continue;
+                        in_img_tag = 1;
                     }
                     break;
                 } else if (img_check >= html + 3 && img_check[-2] == '&' && img_check[-1] == 'l' && *img_check == 't' && img_check[1] == ';') {
@@ -298,18 +293,17 @@ char *apex_replace_emoji(const char *html) {
                         (tag_start[5] == 'g' || tag_start[5] == 'G') &&
                         (isspace((unsigned char)tag_start[6]) || (tag_start + 6 < read && tag_start[6] == '&'))) {
                         /* We're inside an &lt;img&gt; tag - skip emoji processing */
-                        if (remaining > 0) {
-                            *write++ = *read++;
-                            remaining--;
-                        } else {
-                            read++;
-                        }
-                        continue;
+                        in_img_tag = 1;
                     }
                     break;
                 }
                 img_check--;
             }
+            if (in_img_tag) {
+                *write++ = *read++;
+                remaining--;
+                continue;
+            }
 
             /* Look for closing : */
             const char *end = strchr(read + 1, ':');
@@ -390,6 +384,18 @@ char *apex_replace_emoji(const char *html) {
                                     img_tag = "<img class=\"emoji\" src=\"%s\" alt=\":%s:\" height=\"20\" width=\"20\" align=\"absmiddle\">";
                                 }
 
+                                int tag_len = snprintf(NULL, 0, img_tag, entry->image_url, entry->name);
+                                size_t rest = strlen(end) * 3;
+                                if (tag_len > 0 && (size_t)tag_len + rest >= remaining) {
+                                    size_t used = (size_t)(write - output);
+                                    size_t grown_capacity = (used + (size_t)tag_len + rest + 1) * 2;
+                                    char *grown = realloc(output, grown_capacity);
+                                    if (grown) {
+                                        output = grown;
+                                        write = output + used;
+                                        remaining = grown_capacity - used;
+                                    }
+                                }
                                 int needed = snprintf(write, remaining, img_tag, entry->image_url, entry->name);
                                 if (needed > 0 && (size_t)needed < remaining) {
                                     write += needed;
@@ -448,7 +454,7 @@ char *apex_replace_emoji(const char *html) {
 char *apex_replace_emoji_text(const char *text) {
     if (!text) return NULL;
 
-    size_t capacity = strlen(text) * 2 + 16;  /* Enough for most unicode expansions */
+    size_t capacity = strlen(text) * 3 + 16;  /* Enough for every unicode expansion */
     char *output = malloc(capacity);
     if (!output) return strdup(text);
 
@@ -674,7 +680,7 @@ static int is_table_alignment_pattern(const char *start, const char *end) {
 char *apex_autocorrect_emoji_names(const char *text) {
     if (!text) return NULL;
 
-    size_t capacity = strlen(text) * 2;
+    size_t capacity = strlen(text) * 3 + 1;  /* Corrected names are at most 4 longer */
     char *output = malloc(capacity);
     if (!output) return strdup(text);
 
-- 
2.43.0


From 5eac21990eb289e35298e3e3aa9ddb7313e2fbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:33 +0000
Subject: [PATCH 11/66] fix: TOC depth is read from the marker, not from the
 text after it

---
 src/extensions/toc.c | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/extensions/toc.c b/src/extensions/toc.c
index 993c72d..8afbbd8 100644
--- a/src/extensions/toc.c
+++ b/src/extensions/toc.c
@@ -218,10 +218,14 @@ static int is_inside_code_or_pre(const char *html, size_t pos) {
 /**
  * Parse TOC marker for min/max levels
  */
-static void parse_toc_marker(const char *marker, int *min_level, int *max_level) {
+static void parse_toc_marker(const char *marker_start, size_t marker_len, int *min_level, int *max_level) {
     *min_level = 1;
     *max_level = 6;
 
+    /* Only the marker itself carries parameters, not the document after it */
+    char *marker = strndup(marker_start, marker_len);
+    if (!marker) return;
+
     /* Look for max and min parameters */
     const char *max_str = strstr(marker, "max");
     const char *min_str = strstr(marker, "min");
@@ -254,6 +258,7 @@ static void parse_toc_marker(const char *marker, int *min_level, int *max_level)
             }
         }
     }
+    free(marker);
 }
 
 /**
@@ -309,6 +314,17 @@ char *apex_process_toc(const char *html, cmark_node *document, int id_format) {
         return strdup(html);  /* No valid TOC marker (or all are in code), return as-is */
     }
 
+    /* Find end of marker */
+    const char *marker_end = NULL;
+    if (is_html_comment) {
+        marker_end = strstr(marker, "-->");
+        if (marker_end) marker_end += 3;
+    } else {
+        marker_end = strstr(marker, "}}");
+        if (marker_end) marker_end += 2;
+    }
+    if (!marker_end) return strdup(html);
+
     /* Collect headers from document */
     header_item *tail = NULL;
     header_item *headers = collect_headers(document, &tail);
@@ -321,7 +337,7 @@ char *apex_process_toc(const char *html, cmark_node *document, int id_format) {
 
     /* Parse the marker for min/max levels */
     int min_level, max_level;
-    parse_toc_marker(marker, &min_level, &max_level);
+    parse_toc_marker(marker, (size_t)(marker_end - marker), &min_level, &max_level);
 
     /* Generate TOC HTML */
     char *toc_html = generate_toc_html(headers, min_level, max_level);
@@ -339,22 +355,6 @@ char *apex_process_toc(const char *html, cmark_node *document, int id_format) {
         return strdup(html);
     }
 
-    /* Find end of marker */
-    const char *marker_end = NULL;
-    if (is_html_comment) {
-        marker_end = strstr(marker, "-->");
-        if (marker_end) marker_end += 3;
-    } else {
-        marker_end = strstr(marker, "}}");
-        if (marker_end) marker_end += 2;
-    }
-
-    if (!marker_end) {
-        free(toc_html);
-        free(output);
-        return strdup(html);
-    }
-
     /* Build output: before + TOC + after */
     size_t before_len = (size_t)(marker - html);
     size_t after_len = strlen(marker_end);
-- 
2.43.0


From 3401e31d06a61f5d55a9ae9250fc721a09713aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:33 +0000
Subject: [PATCH 12/66] fix: TOC lists nest properly for every heading sequence
 and are never cut off

---
 src/extensions/toc.c | 76 ++++++++++++++++++++------------------------
 1 file changed, 35 insertions(+), 41 deletions(-)

diff --git a/src/extensions/toc.c b/src/extensions/toc.c
index 8afbbd8..9c3f57b 100644
--- a/src/extensions/toc.c
+++ b/src/extensions/toc.c
@@ -88,18 +88,25 @@ static char *generate_toc_html(header_item *headers, int min_level, int max_leve
     char *html = malloc(capacity);
     if (!html) return strdup("");
 
-    char *write = html;
-    size_t remaining = capacity;
-    int current_level = 0;
-    int last_level = 0;  /* level of last item added (0 = none yet) */
+    size_t used = 0;
+    int open_levels[8];  /* heading level of each open list item, strictly increasing */
+    int depth = 0;
 
     #define APPEND(str) do { \
-        size_t len = strlen(str); \
-        if (len < remaining) { \
-            memcpy(write, str, len); \
-            write += len; \
-            remaining -= len; \
+        const char *append_str = (str); \
+        size_t len = strlen(append_str); \
+        if (used + len + 1 > capacity) { \
+            size_t new_capacity = (used + len + 1) * 2; \
+            char *grown = realloc(html, new_capacity); \
+            if (!grown) { \
+                free(html); \
+                return strdup(""); \
+            } \
+            html = grown; \
+            capacity = new_capacity; \
         } \
+        memcpy(html + used, append_str, len); \
+        used += len; \
     } while(0)
 
     APPEND("<nav class=\"toc\">\n");
@@ -108,54 +115,41 @@ static char *generate_toc_html(header_item *headers, int min_level, int max_leve
         /* Skip headers outside min/max range */
         if (h->level < min_level || h->level > max_level) continue;
 
-        /* Going up: close </ul></li> for each level (nested ul inside parent li) */
-        while (current_level > h->level) {
-            APPEND("</ul>\n</li>\n");
-            current_level--;
+        /* Going up: close the lists that hang below an item of this level or deeper */
+        while (depth > 1 && open_levels[depth - 2] >= h->level) {
+            APPEND("</li>\n</ul>\n");
+            depth--;
         }
 
-        /* Going down: open one <ul> inside the previous li before adding child.
-         * At root (current_level 0): only open one ul - never ul > ul.
-         * When going deeper: open exactly one ul per step - never ul > ul. */
-        while (current_level < h->level) {
-            if (current_level == 0) {
-                APPEND("<ul>\n");
-                current_level = 1;
-                break;
-            }
-            if (last_level > 0) {
-                APPEND("<ul>\n");
-                current_level++;
-                break;
-            } else {
-                break;  /* No parent li - add as direct child of root ul */
-            }
-        }
-
-        /* Close previous li when adding sibling (same or shallower level) */
-        if (last_level > 0 && h->level <= last_level) {
+        if (depth > 0 && open_levels[depth - 1] >= h->level) {
+            /* Sibling: close the previous item of this list */
             APPEND("</li>\n");
+        } else {
+            /* First item, or going down: open one list inside the previous item */
+            APPEND("<ul>\n");
+            depth++;
         }
+        open_levels[depth - 1] = h->level;
 
         /* Add list item (leave open - may contain nested ul) */
-        char item[1024];
-        snprintf(item, sizeof(item), "<li><a href=\"#%s\">%s</a>",
-                 h->id, h->text);
-        APPEND(item);
-        last_level = h->level;
+        APPEND("<li><a href=\"#");
+        APPEND(h->id);
+        APPEND("\">");
+        APPEND(h->text);
+        APPEND("</a>");
     }
 
     /* Close remaining: </li></ul> for each open level */
-    while (current_level > 0) {
+    while (depth > 0) {
         APPEND("</li>\n</ul>\n");
-        current_level--;
+        depth--;
     }
 
     APPEND("</nav>\n");
 
     #undef APPEND
 
-    *write = '\0';
+    html[used] = '\0';
     return html;
 }
 
-- 
2.43.0


From 2b4073a931482e079f3d83d22d58f2e73f6eed99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:33 +0000
Subject: [PATCH 13/66] fix: escape heading text in the TOC

---
 src/extensions/toc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/extensions/toc.c b/src/extensions/toc.c
index 9c3f57b..d13a4c6 100644
--- a/src/extensions/toc.c
+++ b/src/extensions/toc.c
@@ -135,7 +135,10 @@ static char *generate_toc_html(header_item *headers, int min_level, int max_leve
         APPEND("<li><a href=\"#");
         APPEND(h->id);
         APPEND("\">");
-        APPEND(h->text);
+        for (const char *t = h->text; t && *t; t++) {
+            char ch[2] = { *t, '\0' };
+            APPEND(*t == '&' ? "&amp;" : *t == '<' ? "&lt;" : *t == '>' ? "&gt;" : ch);
+        }
         APPEND("</a>");
     }
 
-- 
2.43.0


From e1c2f9c49fb31a06b3cb1b66748a8eaf60d2a334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:33 +0000
Subject: [PATCH 14/66] fix: TOC links use the ID a heading was given
 explicitly

---
 src/extensions/toc.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/extensions/toc.c b/src/extensions/toc.c
index d13a4c6..07ca9ab 100644
--- a/src/extensions/toc.c
+++ b/src/extensions/toc.c
@@ -32,6 +32,17 @@ static void free_headers(header_item *headers) {
 
 
 
+/**
+ * ID given in the heading's attributes (id="..."), or NULL
+ */
+static char *explicit_id(const char *attrs) {
+    const char *start = attrs ? strstr(attrs, "id=\"") : NULL;
+    if (!start) return NULL;
+    start += 4;
+    const char *end = strchr(start, '"');
+    return (end && end > start) ? strndup(start, (size_t)(end - start)) : NULL;
+}
+
 /**
  * Collect all headers from document
  */
@@ -55,7 +66,7 @@ static header_item *collect_headers(cmark_node *node, header_item **tail) {
             if (item) {
                 item->level = cmark_node_get_heading_level(node);
                 item->text = apex_extract_heading_text(node);
-                item->id = NULL;  /* Will be set later with format */
+                item->id = explicit_id(attrs);  /* Otherwise set later with format */
                 item->next = NULL;
 
                 if (*tail) {
@@ -329,7 +340,7 @@ char *apex_process_toc(const char *html, cmark_node *document, int id_format) {
 
     /* Generate IDs for all headers using the specified format */
     for (header_item *h = headers; h; h = h->next) {
-        h->id = apex_generate_header_id(h->text, (apex_id_format_t)id_format);
+        if (!h->id) h->id = apex_generate_header_id(h->text, (apex_id_format_t)id_format);
     }
 
     /* Parse the marker for min/max levels */
-- 
2.43.0


From 328d32402a621e06010001430d711467e21b68c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:50 +0000
Subject: [PATCH 15/66] fix: callout titles are escaped and never cut off

---
 src/extensions/callouts.c | 43 +++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/extensions/callouts.c b/src/extensions/callouts.c
index 0724b3a..69dbec1 100644
--- a/src/extensions/callouts.c
+++ b/src/extensions/callouts.c
@@ -4,6 +4,7 @@
  */
 
 #include "callouts.h"
+#include <stdio.h>
 #include <string.h>
 #include <stdlib.h>
 #include <ctype.h>
@@ -126,6 +127,27 @@ static bool is_bear_callout(cmark_node *blockquote, callout_type_t *type,
     return true;
 }
 
+/**
+ * Escape a title (literal text) for HTML; caller frees the result
+ */
+static char *escape_callout_title(const char *title) {
+    char *out = malloc(strlen(title) * 5 + 1);
+    if (!out) return NULL;
+    char *w = out;
+    for (const char *p = title; *p; p++) {
+        const char *rep = *p == '<' ? "&lt;" : *p == '>' ? "&gt;" : *p == '&' ? "&amp;" : NULL;
+        if (rep) {
+            size_t n = strlen(rep);
+            memcpy(w, rep, n);
+            w += n;
+        } else {
+            *w++ = *p;
+        }
+    }
+    *w = '\0';
+    return out;
+}
+
 /**
  * Convert blockquote to callout HTML
  */
@@ -133,21 +155,29 @@ static void convert_blockquote_to_callout(cmark_node *blockquote, callout_type_t
                                          const char *title, bool collapsible, bool default_open) {
     const char *type_name = callout_type_name(type);
 
-    /* Build callout HTML */
-    char html_start[1024];
+    /* Build callout HTML; the title is plain text and may be of any length */
     char html_end[256];
+    char *label = escape_callout_title(title ? title : type_name);
+    if (!label) return;
+    size_t html_size = strlen(label) + 256;
+    char *html_start = malloc(html_size);
+    if (!html_start) {
+        free(label);
+        return;
+    }
 
     if (collapsible) {
-        snprintf(html_start, sizeof(html_start),
+        snprintf(html_start, html_size,
                 "<details class=\"callout callout-%s\"%s>\n<summary>%s</summary>\n<div class=\"callout-content\">\n",
-                type_name, default_open ? " open" : "", title ? title : type_name);
+                type_name, default_open ? " open" : "", label);
         strcpy(html_end, "\n</div>\n</details>");
     } else {
-        snprintf(html_start, sizeof(html_start),
+        snprintf(html_start, html_size,
                 "<div class=\"callout callout-%s\">\n<div class=\"callout-title\">%s</div>\n<div class=\"callout-content\">\n",
-                type_name, title ? title : type_name);
+                type_name, label);
         strcpy(html_end, "\n</div>\n</div>");
     }
+    free(label);
 
     /* Get blockquote content (skip first paragraph with [!TYPE]) */
     cmark_node *first_para = cmark_node_first_child(blockquote);
@@ -173,6 +203,7 @@ static void convert_blockquote_to_callout(cmark_node *blockquote, callout_type_t
     /* Create HTML wrapper */
     cmark_node *html_before = cmark_node_new(CMARK_NODE_HTML_BLOCK);
     cmark_node_set_literal(html_before, html_start);
+    free(html_start);
 
     cmark_node *html_after = cmark_node_new(CMARK_NODE_HTML_BLOCK);
     cmark_node_set_literal(html_after, html_end);
-- 
2.43.0


From 8d5947b73c72adfe3046f7e27abe053ae8991d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:13 +0000
Subject: [PATCH 16/66] fix: pretty-printing keeps code, long tags and every
 byte of text

---
 src/pretty_html.c | 133 ++++++++++++++++++++--------------------------
 1 file changed, 58 insertions(+), 75 deletions(-)

diff --git a/src/pretty_html.c b/src/pretty_html.c
index 53a7fa8..115b48b 100644
--- a/src/pretty_html.c
+++ b/src/pretty_html.c
@@ -79,7 +79,7 @@ char *apex_pretty_print_html(const char *html) {
     if (!html) return NULL;
 
     size_t input_len = strlen(html);
-    size_t capacity = input_len * 2;  /* Room for indentation */
+    size_t capacity = input_len * 2 + 256;  /* Room for indentation */
     char *output = malloc(capacity);
     if (!output) return strdup(html);
 
@@ -88,21 +88,40 @@ char *apex_pretty_print_html(const char *html) {
     size_t remaining = capacity;
     int indent_level = 0;
     bool at_line_start = true;
-    bool in_pre = false;
+    bool in_pre = false;    /* inside <pre> or <code>: whitespace is significant */
+    int pre_depth = 0;      /* open <pre> elements */
+    int code_depth = 0;     /* open <code> elements */
     bool in_inline = false;
     bool last_was_table_row = false;
 
-    #define WRITE_STR(str) do { \
-        size_t len = strlen(str); \
-        if (len < remaining) { \
-            memcpy(write, str, len); \
-            write += len; \
-            remaining -= len; \
+    /* Make room for n more bytes and the terminator */
+    #define ENSURE(n) do { \
+        if (remaining < (n) + 1) { \
+            size_t written = write - output; \
+            size_t new_capacity = (written + (n) + 1) * 2; \
+            char *new_output = realloc(output, new_capacity); \
+            if (!new_output) { \
+                free(output); \
+                return strdup(html); \
+            } \
+            output = new_output; \
+            capacity = new_capacity; \
+            write = output + written; \
+            remaining = capacity - written; \
         } \
     } while(0)
 
+    #define WRITE_MEM(ptr, n) do { \
+        ENSURE(n); \
+        memcpy(write, ptr, n); \
+        write += n; \
+        remaining -= n; \
+    } while(0)
+
+    /* Never more than a single blank line between blocks */
     #define WRITE_CHAR(c) do { \
-        if (remaining > 0) { \
+        if ((c) != '\n' || in_pre || write - output < 2 || write[-1] != '\n' || write[-2] != '\n') { \
+            ENSURE(1); \
             *write++ = c; \
             remaining--; \
         } \
@@ -111,24 +130,13 @@ char *apex_pretty_print_html(const char *html) {
     #define WRITE_INDENT() do { \
         if (at_line_start && !in_pre) { \
             for (int i = 0; i < indent_level; i++) { \
-                WRITE_STR("  "); \
+                WRITE_MEM("  ", 2); \
             } \
             at_line_start = false; \
         } \
     } while(0)
 
     while (*read) {
-        /* Expand buffer if needed */
-        if (remaining < 100) {
-            size_t written = write - output;
-            capacity *= 2;
-            char *new_output = realloc(output, capacity);
-            if (!new_output) break;
-            output = new_output;
-            write = output + written;
-            remaining = capacity - written;
-        }
-
         /* Check for HTML tags */
         if (*read == '<') {
             bool is_closing = false;
@@ -139,17 +147,21 @@ char *apex_pretty_print_html(const char *html) {
                 bool is_block = is_tag_in_list(tag_name, block_tags);
                 bool is_inline = is_tag_in_list(tag_name, inline_tags);
                 bool is_void = is_tag_in_list(tag_name, void_tags);
-                bool is_pre_tag = strcmp(tag_name, "pre") == 0 || strcmp(tag_name, "code") == 0;
-
-                /* Track pre/code context */
-                if (is_pre_tag && !is_closing) {
-                    in_pre = true;
-                } else if (is_pre_tag && is_closing) {
-                    in_pre = false;
+                int *pre_count = strcmp(tag_name, "pre") == 0 ? &pre_depth :
+                                 strcmp(tag_name, "code") == 0 ? &code_depth : NULL;
+
+                /* Track pre/code context; a closing tag still belongs to it */
+                bool was_in_pre = in_pre;
+                bool now_in_pre;
+                if (pre_count && !is_closing) {
+                    (*pre_count)++;
+                } else if (pre_count && *pre_count > 0) {
+                    (*pre_count)--;
                 }
+                now_in_pre = pre_depth > 0 || code_depth > 0;
 
                 /* Handle block tags */
-                if (is_block && !in_pre) {
+                if (is_block && !was_in_pre && !now_in_pre) {
                     bool is_table_row = (strcmp(tag_name, "tr") == 0);
 
                     if (is_closing) {
@@ -220,11 +232,7 @@ char *apex_pretty_print_html(const char *html) {
                     }
 
                     size_t tag_len = tag_end - read;
-                    if (tag_len < remaining) {
-                        memcpy(write, read, tag_len);
-                        write += tag_len;
-                        remaining -= tag_len;
-                    }
+                    WRITE_MEM(read, tag_len);
                     /* Skip whitespace if next tag is a table row or tbody closing */
                     read = (next_is_table_row || next_is_tbody_close) ? whitespace_end : tag_end;
 
@@ -267,16 +275,15 @@ char *apex_pretty_print_html(const char *html) {
                     }
 
                     /* Copy inline tag as-is */
+                    WRITE_INDENT();
+                    at_line_start = false;
+                    in_pre = now_in_pre;
                     const char *tag_end = read;
                     while (*tag_end && *tag_end != '>') tag_end++;
                     if (*tag_end == '>') tag_end++;
 
                     size_t tag_len = tag_end - read;
-                    if (tag_len < remaining) {
-                        memcpy(write, read, tag_len);
-                        write += tag_len;
-                        remaining -= tag_len;
-                    }
+                    WRITE_MEM(read, tag_len);
                     read = tag_end;
 
                     free(tag_name);
@@ -284,18 +291,23 @@ char *apex_pretty_print_html(const char *html) {
                 }
 
                 /* Unknown tag - copy as-is */
+                WRITE_INDENT();
+                at_line_start = false;
+                in_pre = now_in_pre;
                 const char *tag_end = read;
                 while (*tag_end && *tag_end != '>') tag_end++;
                 if (*tag_end == '>') tag_end++;
 
                 size_t tag_len = tag_end - read;
-                if (tag_len < remaining) {
-                    memcpy(write, read, tag_len);
-                    write += tag_len;
-                    remaining -= tag_len;
-                }
+                WRITE_MEM(read, tag_len);
                 read = tag_end;
 
+                /* Start a new line after a preformatted block */
+                if (was_in_pre && !now_in_pre) {
+                    WRITE_CHAR('\n');
+                    at_line_start = true;
+                }
+
                 free(tag_name);
                 continue;
             }
@@ -319,37 +331,8 @@ char *apex_pretty_print_html(const char *html) {
 
     *write = '\0';
 
-    /* Collapse sequences of more than two consecutive newlines down to
-     * exactly two, so we never produce more than a single blank line
-     * between blocks in pretty-printed output.
-     */
-    size_t out_len = strlen(output);
-    char *collapsed = malloc(out_len + 1);
-    if (collapsed) {
-        const char *r = output;
-        char *w = collapsed;
-        int newline_run = 0;
-
-        while (*r) {
-            if (*r == '\n') {
-                newline_run++;
-                if (newline_run <= 2) {
-                    *w++ = *r++;
-                } else {
-                    /* Skip extra newlines beyond two */
-                    r++;
-                }
-            } else {
-                newline_run = 0;
-                *w++ = *r++;
-            }
-        }
-        *w = '\0';
-        free(output);
-        output = collapsed;
-    }
-
-    #undef WRITE_STR
+    #undef ENSURE
+    #undef WRITE_MEM
     #undef WRITE_CHAR
     #undef WRITE_INDENT
 
-- 
2.43.0


From a109fd3a34e59d5a7dde89df1f8f23523db36c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:02 +0000
Subject: [PATCH 17/66] fix: markdown in HTML never drops text, attributes or
 content; inline elements stay attached to the text after them

---
 src/extensions/html_markdown.c | 196 +++++++++++++--------------------
 1 file changed, 77 insertions(+), 119 deletions(-)

diff --git a/src/extensions/html_markdown.c b/src/extensions/html_markdown.c
index b915971..fc04981 100644
--- a/src/extensions/html_markdown.c
+++ b/src/extensions/html_markdown.c
@@ -139,6 +139,27 @@ static const char *find_closing_tag(const char *text, const char *tag_name) {
     return NULL;
 }
 
+/* Output that grows as needed; always NUL-terminated after the first append */
+typedef struct {
+    char *data;
+    size_t len;
+    size_t cap;
+} hm_buffer;
+
+static bool hm_append(hm_buffer *out, const char *text, size_t len) {
+    if (out->len + len + 1 > out->cap) {
+        size_t cap = (out->len + len + 1) * 2;
+        char *data = realloc(out->data, cap);
+        if (!data) return false;
+        out->data = data;
+        out->cap = cap;
+    }
+    memcpy(out->data + out->len, text, len);
+    out->len += len;
+    out->data[out->len] = '\0';
+    return true;
+}
+
 /**
  * Process HTML tags with markdown attributes
  * If img_attrs is non-NULL, image attributes (e.g. width/height from ref defs) are applied to images in markdown="1" regions.
@@ -148,14 +169,10 @@ char *apex_process_html_markdown(const char *text, void *img_attrs) {
 
     image_attr_entry *attrs = (image_attr_entry *)img_attrs;
 
-    size_t text_len = strlen(text);
-    size_t output_capacity = text_len * 2;
-    char *output = malloc(output_capacity);
-    if (!output) return NULL;
+    hm_buffer out = {NULL, 0, 0};
+    if (!hm_append(&out, "", 0)) return NULL;
 
     const char *read_pos = text;
-    char *write_pos = output;
-    size_t remaining = output_capacity;
 
     while (*read_pos) {
         char tag_name[64];
@@ -168,22 +185,12 @@ char *apex_process_html_markdown(const char *text, void *img_attrs) {
 
         if (!tag_start) {
             /* No more markdown tags, copy rest */
-            size_t rest_len = strlen(read_pos);
-            if (rest_len < remaining) {
-                memcpy(write_pos, read_pos, rest_len);
-                write_pos += rest_len;
-                remaining -= rest_len;
-            }
+            hm_append(&out, read_pos, strlen(read_pos));
             break;
         }
 
         /* Copy text before tag */
-        size_t prefix_len = tag_start - read_pos;
-        if (prefix_len < remaining) {
-            memcpy(write_pos, read_pos, prefix_len);
-            write_pos += prefix_len;
-            remaining -= prefix_len;
-        }
+        hm_append(&out, read_pos, tag_start - read_pos);
 
         /* Find content between tags */
         const char *content_start = tag_start + tag_length;
@@ -191,11 +198,7 @@ char *apex_process_html_markdown(const char *text, void *img_attrs) {
 
         if (!closing_tag) {
             /* No closing tag, just copy the opening tag */
-            if (tag_length < remaining) {
-                memcpy(write_pos, tag_start, tag_length);
-                write_pos += tag_length;
-                remaining -= tag_length;
-            }
+            hm_append(&out, tag_start, tag_length);
             read_pos = content_start;
             continue;
         }
@@ -262,83 +265,61 @@ char *apex_process_html_markdown(const char *text, void *img_attrs) {
                         char *html = apex_render_html_with_attributes(doc, cmark_opts);
                         if (html) {
                             /* Write opening tag (without markdown attribute) */
-                            char opening_tag[2048];
-                            size_t tag_written = 0;
-
-                            /* Reconstruct tag without markdown attribute */
-                            snprintf(opening_tag, sizeof(opening_tag), "<%s", tag_name);
-                            tag_written = strlen(opening_tag);
+                            hm_append(&out, "<", 1);
+                            hm_append(&out, tag_name, strlen(tag_name));
 
                             /* Copy attributes except markdown */
-                            const char *attrs_start = strchr(tag_start + 1, ' ');
-                            if (attrs_start && attrs_start < content_start) {
-                                const char *attrs_end = strchr(attrs_start, '>');
-                                if (attrs_end) {
-                                    /* Parse and copy attributes, filtering out markdown attribute */
-                                    const char *attr_pos = attrs_start;
-                                    while (attr_pos < attrs_end) {
-                                        /* Skip whitespace */
-                                        while (attr_pos < attrs_end && isspace((unsigned char)*attr_pos)) {
+                            const char *attrs_start = tag_start + 1 + strlen(tag_name);
+                            const char *attrs_end = content_start - 1;
+                            /* Parse and copy attributes, filtering out markdown attribute */
+                            const char *attr_pos = attrs_start;
+                            while (attr_pos < attrs_end) {
+                                /* Skip whitespace */
+                                while (attr_pos < attrs_end && isspace((unsigned char)*attr_pos)) {
+                                    attr_pos++;
+                                }
+                                if (attr_pos >= attrs_end) break;
+
+                                /* Check if this is the markdown attribute */
+                                if (strncmp(attr_pos, "markdown=", 9) == 0) {
+                                    /* Skip markdown attribute */
+                                    attr_pos += 9;
+                                    /* Skip attribute value */
+                                    if (*attr_pos == '"' || *attr_pos == '\'') {
+                                        char quote = *attr_pos++;
+                                        while (attr_pos < attrs_end && *attr_pos != quote) {
+                                            if (*attr_pos == '\\' && attr_pos + 1 < attrs_end) attr_pos++;
                                             attr_pos++;
                                         }
-                                        if (attr_pos >= attrs_end) break;
-
-                                        /* Check if this is the markdown attribute */
-                                        if (strncmp(attr_pos, "markdown=", 9) == 0) {
-                                            /* Skip markdown attribute */
-                                            attr_pos += 9;
-                                            /* Skip attribute value */
-                                            if (*attr_pos == '"' || *attr_pos == '\'') {
-                                                char quote = *attr_pos++;
-                                                while (attr_pos < attrs_end && *attr_pos != quote) {
-                                                    if (*attr_pos == '\\' && attr_pos + 1 < attrs_end) attr_pos++;
-                                                    attr_pos++;
-                                                }
-                                                if (*attr_pos == quote) attr_pos++;
-                                            } else {
-                                                while (attr_pos < attrs_end && !isspace((unsigned char)*attr_pos) && *attr_pos != '>') {
-                                                    attr_pos++;
-                                                }
-                                            }
-                                            continue;
-                                        }
-
-                                        /* Copy this attribute */
-                                        const char *attr_start = attr_pos;
-                                        while (attr_pos < attrs_end && *attr_pos != '>') {
-                                            /* Check if we've reached the start of the next attribute */
-                                            if (attr_pos > attr_start && (isspace((unsigned char)*attr_pos) || *attr_pos == '>')) {
-                                                /* Check if next token is markdown= */
-                                                const char *next = attr_pos;
-                                                while (next < attrs_end && isspace((unsigned char)*next)) next++;
-                                                if (strncmp(next, "markdown=", 9) == 0) {
-                                                    break; /* Stop before markdown attribute */
-                                                }
-                                            }
+                                        if (*attr_pos == quote) attr_pos++;
+                                    } else {
+                                        while (attr_pos < attrs_end && !isspace((unsigned char)*attr_pos) && *attr_pos != '>') {
                                             attr_pos++;
                                         }
+                                    }
+                                    continue;
+                                }
 
-                                        /* Copy attribute to opening_tag */
-                                        size_t attr_len = attr_pos - attr_start;
-                                        if (tag_written + attr_len + 1 < sizeof(opening_tag)) {
-                                            opening_tag[tag_written++] = ' ';
-                                            memcpy(opening_tag + tag_written, attr_start, attr_len);
-                                            tag_written += attr_len;
+                                /* Copy this attribute */
+                                const char *attr_start = attr_pos;
+                                while (attr_pos < attrs_end && *attr_pos != '>') {
+                                    /* Check if we've reached the start of the next attribute */
+                                    if (attr_pos > attr_start && (isspace((unsigned char)*attr_pos) || *attr_pos == '>')) {
+                                        /* Check if next token is markdown= */
+                                        const char *next = attr_pos;
+                                        while (next < attrs_end && isspace((unsigned char)*next)) next++;
+                                        if (strncmp(next, "markdown=", 9) == 0) {
+                                            break; /* Stop before markdown attribute */
                                         }
                                     }
-                                    opening_tag[tag_written++] = '>';
-                                    opening_tag[tag_written] = '\0';
+                                    attr_pos++;
                                 }
-                            } else {
-                                opening_tag[tag_written++] = '>';
-                                opening_tag[tag_written] = '\0';
-                            }
 
-                            if (tag_written < remaining) {
-                                memcpy(write_pos, opening_tag, tag_written);
-                                write_pos += tag_written;
-                                remaining -= tag_written;
+                                /* Copy attribute to the opening tag */
+                                hm_append(&out, " ", 1);
+                                hm_append(&out, attr_start, attr_pos - attr_start);
                             }
+                            hm_append(&out, ">", 1);
 
                             /* Write parsed HTML (trim outer <p> tags if inline) */
                             char *html_content = html;
@@ -353,11 +334,7 @@ char *apex_process_html_markdown(const char *text, void *img_attrs) {
                                 html_content[html_len] = '\0';
                             }
 
-                            if (html_len < remaining) {
-                                memcpy(write_pos, html_content, html_len);
-                                write_pos += html_len;
-                                remaining -= html_len;
-                            }
+                            hm_append(&out, html_content, html_len);
 
                             free(html);
                         }
@@ -369,40 +346,21 @@ char *apex_process_html_markdown(const char *text, void *img_attrs) {
             }
 
             /* Write closing tag */
-            size_t closing_len = closing_tag - closing_tag_start;
-            if (closing_len < remaining) {
-                memcpy(write_pos, closing_tag_start, closing_len);
-                write_pos += closing_len;
-                remaining -= closing_len;
-            }
+            hm_append(&out, closing_tag_start, closing_tag - closing_tag_start);
 
-            /* Ensure newline after closing tag so following markdown is parsed correctly */
-            /* Check if closing tag ends with newline */
-            bool needs_newline = true;
-            if (closing_len > 0) {
-                const char *last_char = closing_tag_start + closing_len - 1;
-                if (*last_char == '\n' || (*last_char == '\r' && closing_len > 1 && *(last_char - 1) == '\n')) {
-                    needs_newline = false;
-                }
-            }
-            if (needs_newline && remaining > 0) {
-                *write_pos++ = '\n';
-                remaining--;
+            /* Newline after a block's closing tag so following markdown is parsed
+             * correctly; text after an inline element must stay attached to it */
+            if (!parse_inline) {
+                hm_append(&out, "\n", 1);
             }
         } else {
             /* markdown="0" or no parsing - copy everything as-is */
-            size_t total_len = closing_tag - tag_start;
-            if (total_len < remaining) {
-                memcpy(write_pos, tag_start, total_len);
-                write_pos += total_len;
-                remaining -= total_len;
-            }
+            hm_append(&out, tag_start, closing_tag - tag_start);
         }
 
         read_pos = closing_tag;
     }
 
-    *write_pos = '\0';
-    return output;
+    return out.data;
 }
 
-- 
2.43.0


From 21f5cacad34cf9ab7630472bc44075507ace3cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:12 +0000
Subject: [PATCH 18/66] fix: index terms are trimmed, escaped and never cut
 off; broken index placeholders keep their text

---
 src/extensions/index.c | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/extensions/index.c b/src/extensions/index.c
index 966a7eb..5330977 100644
--- a/src/extensions/index.c
+++ b/src/extensions/index.c
@@ -29,8 +29,10 @@ static bool is_valid_index_char(char c) {
 static char *trim_string(char *str) {
     if (!str) return NULL;
 
-    /* Trim leading whitespace */
-    while (*str && isspace((unsigned char)*str)) str++;
+    /* Trim leading whitespace (callers keep using the pointer they passed) */
+    size_t lead = 0;
+    while (str[lead] && isspace((unsigned char)str[lead])) lead++;
+    if (lead > 0) memmove(str, str + lead, strlen(str + lead) + 1);
 
     /* Trim trailing whitespace */
     char *end = str + strlen(str) - 1;
@@ -609,7 +611,7 @@ char *apex_render_index_markers(const char *html, apex_index_registry *registry,
     }
 
     size_t html_len = strlen(html);
-    size_t capacity = html_len * 2;
+    size_t capacity = html_len * 2 + 1;
     char *output = malloc(capacity);
     if (!output) return NULL;
 
@@ -620,6 +622,7 @@ char *apex_render_index_markers(const char *html, apex_index_registry *registry,
     while (*read) {
         /* Look for placeholder */
         if (strncmp(read, INDEX_PLACEHOLDER_PREFIX, strlen(INDEX_PLACEHOLDER_PREFIX)) == 0) {
+            const char *placeholder = read;
             read += strlen(INDEX_PLACEHOLDER_PREFIX);
 
             /* Extract anchor ID */
@@ -658,6 +661,9 @@ char *apex_render_index_markers(const char *html, apex_index_registry *registry,
                     continue;
                 }
             }
+
+            /* Not a placeholder after all: keep its text */
+            read = placeholder;
         }
 
         /* Copy character as-is */
@@ -777,6 +783,14 @@ char *apex_generate_index_html(apex_index_registry *registry, const apex_options
         } \
     } while(0)
 
+    /* Terms are literal text of any length */
+    #define APPEND_ESCAPED(str) do { \
+        for (const char *esc = (str); *esc; esc++) { \
+            char one[2] = {*esc, '\0'}; \
+            APPEND(*esc == '<' ? "&lt;" : *esc == '>' ? "&gt;" : *esc == '&' ? "&amp;" : one); \
+        } \
+    } while(0)
+
     APPEND("<h1 id=\"index-section\">Index</h1>\n");
     APPEND("<div class=\"index\">\n");
 
@@ -803,9 +817,8 @@ char *apex_generate_index_html(apex_index_registry *registry, const apex_options
             }
 
             /* Collect all entries with same item */
-            char item_html[2048];
-            snprintf(item_html, sizeof(item_html), "<li>\n%s", entry->item);
-            APPEND(item_html);
+            APPEND("<li>\n");
+            APPEND_ESCAPED(entry->item);
 
             if (entry->primary) {
                 APPEND(" <strong>");
@@ -824,7 +837,7 @@ char *apex_generate_index_html(apex_index_registry *registry, const apex_options
             /* Add subitems if any */
             if (entry->subitem) {
                 APPEND("<ul>\n<li>\n");
-                APPEND(entry->subitem);
+                APPEND_ESCAPED(entry->subitem);
                 snprintf(link_html, sizeof(link_html), " <a class=\"index-return\" href=\"#%s\"><sup>[go]</sup></a>",
                         entry->anchor_id ? entry->anchor_id : "");
                 APPEND(link_html);
@@ -844,9 +857,8 @@ char *apex_generate_index_html(apex_index_registry *registry, const apex_options
         for (size_t i = 0; i < registry->count; i++) {
             apex_index_entry *entry = entries[i];
 
-            char item_html[2048];
-            snprintf(item_html, sizeof(item_html), "<li>\n%s", entry->item);
-            APPEND(item_html);
+            APPEND("<li>\n");
+            APPEND_ESCAPED(entry->item);
 
             if (entry->primary) {
                 APPEND(" <strong>");
@@ -863,7 +875,7 @@ char *apex_generate_index_html(apex_index_registry *registry, const apex_options
 
             if (entry->subitem) {
                 APPEND("<ul>\n<li>\n");
-                APPEND(entry->subitem);
+                APPEND_ESCAPED(entry->subitem);
                 snprintf(link_html, sizeof(link_html), " <a class=\"index-return\" href=\"#%s\"><sup>[go]</sup></a>",
                         entry->anchor_id ? entry->anchor_id : "");
                 APPEND(link_html);
@@ -878,6 +890,7 @@ char *apex_generate_index_html(apex_index_registry *registry, const apex_options
 
     APPEND("</div>\n");
 
+    #undef APPEND_ESCAPED
     #undef APPEND
 
     *write = '\0';
-- 
2.43.0


From d6e73676581cab828126b427ef461b3d62f856fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:00 +0000
Subject: [PATCH 19/66] fix: CSV tables of every shape fit their buffer; pipes
 in cells are escaped and CRLF line ends dropped

---
 src/extensions/includes.c      | 32 +++++++++++++++++++++++---------
 src/extensions/inline_tables.c |  5 +++--
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index 3bf9da1..3866a87 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -167,6 +167,20 @@ static apex_file_type_t apex_detect_file_type(const char *filepath) {
     return FILE_TYPE_TEXT;
 }
 
+/**
+ * Copy a cell value into a table row; a pipe that is not escaped yet is escaped,
+ * so that it does not end the cell
+ */
+static char *csv_write_cell(char *write, const char *val) {
+    bool escaped = false;
+    for (; *val; val++) {
+        if (*val == '|' && !escaped) *write++ = '\\';
+        escaped = (*val == '\\' && !escaped);
+        *write++ = *val;
+    }
+    return write;
+}
+
 /**
  * Convert CSV/TSV to Markdown table
  *
@@ -201,6 +215,9 @@ char *apex_csv_to_table(const char *csv_content, bool is_tsv) {
     while (*line_start) {
         const char *line_end = strchr(line_start, '\n');
         if (!line_end) line_end = csv_content + strlen(csv_content);
+        const char *next_line = line_end;
+        /* A CRLF line ending is not part of the last cell */
+        if (line_end > line_start && line_end[-1] == '\r') line_end--;
 
         /* Allocate new row */
         if (row_count >= row_cap) {
@@ -289,7 +306,7 @@ char *apex_csv_to_table(const char *csv_content, bool is_tsv) {
 
         row_count++;
 
-        line_start = line_end;
+        line_start = next_line;
         if (*line_start == '\n') line_start++;
     }
 
@@ -370,8 +387,9 @@ char *apex_csv_to_table(const char *csv_content, bool is_tsv) {
         }
     }
 
-    /* Allocate output buffer: original size * 4 should be enough with extra alignment row */
-    char *output = malloc(len * 4 + 64);
+    /* Allocate output buffer: every byte may be escaped, every row holds col_count
+     * cells of up to 8 bytes of decoration (the separator row is one more row) */
+    char *output = malloc(len * 2 + ((size_t)row_count + 1) * ((size_t)col_count * 8 + 2) + 1);
     if (!output) {
         if (align) free(align);
         for (int r = 0; r < row_count; r++) {
@@ -392,9 +410,7 @@ char *apex_csv_to_table(const char *csv_content, bool is_tsv) {
             *write++ = ' ';
             if (c < row->cell_count && row->cells[c]) {
                 const char *val = row->cells[c];
-                size_t vlen = strlen(val);
-                memcpy(write, val, vlen);
-                write += vlen;
+                write = csv_write_cell(write, val);
             }
             *write++ = ' ';
             *write++ = '|';
@@ -430,9 +446,7 @@ char *apex_csv_to_table(const char *csv_content, bool is_tsv) {
             *write++ = ' ';
             if (c < row->cell_count && row->cells[c]) {
                 const char *val = row->cells[c];
-                size_t vlen = strlen(val);
-                memcpy(write, val, vlen);
-                write += vlen;
+                write = csv_write_cell(write, val);
             }
             *write++ = ' ';
             *write++ = '|';
diff --git a/src/extensions/inline_tables.c b/src/extensions/inline_tables.c
index bbe5928..679e841 100644
--- a/src/extensions/inline_tables.c
+++ b/src/extensions/inline_tables.c
@@ -133,9 +133,10 @@ char *apex_process_inline_tables(const char *text) {
                 }
 
                 size_t table_len = strlen(table);
-                if (write + table_len >= out + capacity) {
+                /* Room for the table and the newline after its closing fence */
+                if (write + table_len + 1 >= out + capacity) {
                     size_t used = (size_t)(write - out);
-                    capacity = (used + table_len + 1) * 2;
+                    capacity = (used + table_len + 2) * 2;
                     char *tmp = realloc(out, capacity);
                     if (!tmp) {
                         free(out);
-- 
2.43.0


From ebd91f59e32e60f0e4c9fc9802d72b3774651ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:34 +0000
Subject: [PATCH 20/66] fix: file includes never lose lines, prefixes or large
 files; single-line, open-ended and same-pattern ranges and file.* work as
 documented

---
 src/extensions/includes.c | 229 +++++++++++++++-----------------------
 1 file changed, 87 insertions(+), 142 deletions(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index 3866a87..b34f5d7 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -7,6 +7,7 @@
 #include "metadata.h"
 #include <stdio.h>
 #include <stdlib.h>
+#include <limits.h>
 #include <string.h>
 #include <sys/stat.h>
 #include <libgen.h>
@@ -591,8 +592,8 @@ static address_spec_t *parse_address_spec(const char *address_str) {
                     pos = endptr;
                 }
             } else {
-                /* Just N - single line */
-                spec->end_line = spec->start_line;
+                /* Just N - single line (the end line is exclusive) */
+                spec->end_line = spec->start_line < INT_MAX ? spec->start_line + 1 : -1;
             }
         }
     }
@@ -623,6 +624,45 @@ static address_spec_t *parse_address_spec(const char *address_str) {
     return spec;
 }
 
+/**
+ * Extract the lines start_line up to, but not including, end_line (1-based),
+ * each with the prefix (if any) and a newline
+ */
+static char *extract_line_range(const char *content, int start_line, int end_line, const char *prefix) {
+    size_t prefix_len = prefix ? strlen(prefix) : 0;
+    size_t lines = 1;
+    for (const char *p = content; *p; p++) {
+        if (*p == '\n') lines++;
+    }
+
+    char *output = malloc(strlen(content) + lines * (prefix_len + 1) + 1);
+    if (!output) return NULL;
+    char *write = output;
+
+    int line_num = 1;
+    const char *line_start = content;
+    while (*line_start && line_num < end_line) {
+        const char *line_end = strchr(line_start, '\n');
+        if (!line_end) line_end = line_start + strlen(line_start);
+
+        if (line_num >= start_line) {
+            size_t line_len = (size_t)(line_end - line_start);
+            if (prefix_len) memcpy(write, prefix, prefix_len);
+            write += prefix_len;
+            memcpy(write, line_start, line_len);
+            write += line_len;
+            *write++ = '\n';
+        }
+
+        line_start = line_end;
+        if (*line_start == '\n') line_start++;
+        line_num++;
+    }
+
+    *write = '\0';
+    return output;
+}
+
 /**
  * Extract lines from content based on address specification
  */
@@ -652,7 +692,7 @@ static char *extract_lines(const char *content, address_spec_t *spec) {
             bool at_line_start = true;
 
             while (*read) {
-                if (at_line_start && *read != '\n') {
+                if (at_line_start) {
                     strcpy(write, spec->prefix);
                     write += prefix_len;
                     at_line_start = false;
@@ -700,14 +740,12 @@ static char *extract_lines(const char *content, address_spec_t *spec) {
 
         if (!compiled_start && !compiled_end) {
             /* No valid regex, return full content */
-            if (compiled_start) regfree(&regex_start);
-            if (compiled_end) regfree(&regex_end);
-            return spec->prefix ? extract_lines(content, spec) : strdup(content);
+            return extract_line_range(content, 1, total_lines + 1, spec->prefix);
         }
 
         /* Find line numbers matching regex patterns */
         int start_line = 1;
-        int end_line = total_lines;
+        int end_line = total_lines + 1;  /* exclusive */
         regmatch_t match;
         int line_num = 1;
         const char *line_start = content;
@@ -735,10 +773,11 @@ static char *extract_lines(const char *content, address_spec_t *spec) {
                 }
             }
 
-            /* Check end pattern (only if start found or no start pattern) */
-            if (compiled_end && (found_start || !compiled_start)) {
+            /* Check end pattern (only after the start line, or if there is no start pattern) */
+            if (compiled_end && ((found_start && line_num > start_line) || !compiled_start)) {
                 if (regexec(&regex_end, line, 1, &match, 0) == 0) {
                     end_line = line_num;
+                    free(line);
                     break;
                 }
             }
@@ -757,100 +796,20 @@ static char *extract_lines(const char *content, address_spec_t *spec) {
             return strdup("");
         }
 
-        /* Extract lines from start_line to end_line */
-        line_num = 1;
-        line_start = content;
-        size_t output_size = strlen(content) + 1024;
-        char *output = malloc(output_size);
-        if (!output) return NULL;
-        char *write = output;
-        size_t remaining = output_size;
-
-        while (*line_start && line_num <= total_lines) {
-            const char *line_end = strchr(line_start, '\n');
-            if (!line_end) line_end = line_start + strlen(line_start);
-
-            if (line_num >= start_line && line_num < end_line) {
-                size_t line_len = line_end - line_start;
-                if (line_len + 100 < remaining) {
-                    if (spec->prefix) {
-                        size_t prefix_len = strlen(spec->prefix);
-                        if (prefix_len + line_len + 10 < remaining) {
-                            strcpy(write, spec->prefix);
-                            write += prefix_len;
-                            remaining -= prefix_len;
-                        }
-                    }
-                    memcpy(write, line_start, line_len);
-                    write += line_len;
-                    remaining -= line_len;
-                    *write++ = '\n';
-                    remaining--;
-                }
-            }
-
-            line_start = line_end;
-            if (*line_start == '\n') line_start++;
-            line_num++;
-        }
-
-        *write = '\0';
-        return output;
+        return extract_line_range(content, start_line, end_line, spec->prefix);
     } else {
         /* Line number-based extraction */
         if (spec->start_line < 1 || spec->start_line > total_lines) {
             return strdup("");
         }
 
+        /* End line is exclusive; -1 means to the end of the file */
         int end = spec->end_line;
-        if (end == -1) {
-            end = total_lines;
-        } else if (end > total_lines) {
-            end = total_lines;
-        }
-        if (end < spec->start_line) {
-            return strdup("");
+        if (end == -1 || end > total_lines) {
+            end = total_lines + 1;
         }
 
-        /* Extract lines */
-        int line_num = 1;
-        const char *line_start = content;
-        size_t output_size = strlen(content) + 1024;
-        char *output = malloc(output_size);
-        if (!output) return NULL;
-        char *write = output;
-        size_t remaining = output_size;
-
-        while (*line_start && line_num <= total_lines) {
-            const char *line_end = strchr(line_start, '\n');
-            if (!line_end) line_end = line_start + strlen(line_start);
-
-            if (line_num >= spec->start_line && line_num < end) {
-                size_t line_len = line_end - line_start;
-                if (line_len + 100 < remaining) {
-                    if (spec->prefix) {
-                        size_t prefix_len = strlen(spec->prefix);
-                        if (prefix_len + line_len + 10 < remaining) {
-                            strcpy(write, spec->prefix);
-                            write += prefix_len;
-                            remaining -= prefix_len;
-                        }
-                    }
-                    memcpy(write, line_start, line_len);
-                    write += line_len;
-                    remaining -= line_len;
-                    *write++ = '\n';
-                    remaining--;
-                }
-            }
-
-            line_start = line_end;
-            if (*line_start == '\n') line_start++;
-            line_num++;
-        }
-
-        *write = '\0';
-        return output;
+        return extract_line_range(content, spec->start_line, end, spec->prefix);
     }
 }
 
@@ -878,8 +837,8 @@ char *apex_resolve_wildcard(const char *filepath, const char *base_dir) {
      * patterns like "*.c" or "{intro,part1}.md".
      */
     const char *wildcard = strstr(filepath, ".*");
-    bool has_other_glob = (strpbrk(filepath, "*?[{") != NULL &&
-                           !(wildcard && wildcard[1] == '\0'));
+    bool has_other_glob = !(wildcard && wildcard[2] == '\0' &&
+                            strpbrk(filepath, "*?[{") == wildcard + 1);
 
     if (wildcard && !has_other_glob) {
         /* Extract base filename (before .*) */
@@ -1083,6 +1042,25 @@ static char *normalize_fence_delimiters(const char *text) {
     return output;
 }
 
+/**
+ * Append to the growing output; one byte is always kept for the terminator
+ */
+static bool append_output(char **output, char **write_pos, size_t *remaining, const char *data, size_t len) {
+    if (len >= *remaining) {
+        size_t used = (size_t)(*write_pos - *output);
+        size_t capacity = (used + len + 1) * 2;
+        char *grown = realloc(*output, capacity);
+        if (!grown) return false;
+        *output = grown;
+        *write_pos = grown + used;
+        *remaining = capacity - used;
+    }
+    memcpy(*write_pos, data, len);
+    *write_pos += len;
+    *remaining -= len;
+    return true;
+}
+
 /**
  * Process file includes in text
  */
@@ -1100,8 +1078,7 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
     const char *text_to_process = normalized_text;
 
     size_t text_len = strlen(text_to_process);
-    size_t output_capacity = text_len * 10;  /* Generous for includes */
-    if (output_capacity < 1024 * 1024) output_capacity = 1024 * 1024;  /* At least 1MB */
+    size_t output_capacity = text_len + 1;  /* grows with every include */
     char *output = malloc(output_capacity);
     if (!output) {
         free(normalized_text);
@@ -1201,12 +1178,7 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
                         }
 
                         if (to_insert) {
-                            size_t insert_len = strlen(to_insert);
-                            if (insert_len < remaining) {
-                                memcpy(write_pos, to_insert, insert_len);
-                                write_pos += insert_len;
-                                remaining -= insert_len;
-                            }
+                            append_output(&output, &write_pos, &remaining, to_insert, strlen(to_insert));
                             if (to_insert != content) free(to_insert);
                         }
 
@@ -1314,12 +1286,7 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
                         if (file_content_for_metadata) free(file_content_for_metadata);
 
                         if (processed) {
-                            size_t proc_len = strlen(processed);
-                            if (proc_len < remaining) {
-                                memcpy(write_pos, processed, proc_len);
-                                write_pos += proc_len;
-                                remaining -= proc_len;
-                            }
+                            append_output(&output, &write_pos, &remaining, processed, strlen(processed));
                             free(processed);
                         }
 
@@ -1458,12 +1425,7 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
                                 if (file_content_for_metadata) free(file_content_for_metadata);
 
                                 if (processed) {
-                                    size_t proc_len = strlen(processed);
-                                    if (proc_len < remaining) {
-                                        memcpy(write_pos, processed, proc_len);
-                                        write_pos += proc_len;
-                                        remaining -= proc_len;
-                                    }
+                                    append_output(&output, &write_pos, &remaining, processed, strlen(processed));
                                     free(processed);
                                 }
 
@@ -1484,31 +1446,17 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
                                     else lang = ext;
                                 }
 
-                                char code_header[128];
-                                snprintf(code_header, sizeof(code_header), "\n```%s\n", lang);
-                                const char *code_footer = "\n```\n";
-
-                                size_t total_len = strlen(code_header) + strlen(extracted_content) + strlen(code_footer);
-                                if (total_len < remaining) {
-                                    strcpy(write_pos, code_header);
-                                    write_pos += strlen(code_header);
-                                    strcpy(write_pos, extracted_content);
-                                    write_pos += strlen(extracted_content);
-                                    strcpy(write_pos, code_footer);
-                                    write_pos += strlen(code_footer);
-                                    remaining -= total_len;
-                                }
+                                append_output(&output, &write_pos, &remaining, "\n```", 4);
+                                append_output(&output, &write_pos, &remaining, lang, strlen(lang));
+                                append_output(&output, &write_pos, &remaining, "\n", 1);
+                                append_output(&output, &write_pos, &remaining, extracted_content, strlen(extracted_content));
+                                append_output(&output, &write_pos, &remaining, "\n```\n", 5);
                             } else if (bracket_type == '{') {
                                 /* Raw HTML - will be inserted after processing */
                                 /* For now, insert a placeholder marker */
-                                char marker[1024];
-                                snprintf(marker, sizeof(marker), "<!--APEX_RAW_INCLUDE:%s-->", resolved_path);
-                                size_t marker_len = strlen(marker);
-                                if (marker_len < remaining) {
-                                    memcpy(write_pos, marker, marker_len);
-                                    write_pos += marker_len;
-                                    remaining -= marker_len;
-                                }
+                                append_output(&output, &write_pos, &remaining, "<!--APEX_RAW_INCLUDE:", 21);
+                                append_output(&output, &write_pos, &remaining, resolved_path, strlen(resolved_path));
+                                append_output(&output, &write_pos, &remaining, "-->", 3);
                             }
 
                             if (free_extracted) free(extracted_content);
@@ -1531,10 +1479,7 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
 
         /* Not an include, copy character */
         if (!processed_include) {
-            if (remaining > 0) {
-                *write_pos++ = *read_pos;
-                remaining--;
-            }
+            append_output(&output, &write_pos, &remaining, read_pos, 1);
             read_pos++;
         }
     }
-- 
2.43.0


From 5279772f2c3aad051404a59078f2724a16de8d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:13 +0000
Subject: [PATCH 21/66] fix: a line that names a directory is not an include

---
 src/extensions/includes.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index b34f5d7..f0c92ae 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -90,12 +90,12 @@ static char *get_directory(const char *filepath) {
 }
 
 /**
- * Check if a file exists
+ * Check if a file exists (a directory is not a file to include)
  */
 bool apex_file_exists(const char *filepath) {
     if (!filepath) return false;
     struct stat st;
-    return (stat(filepath, &st) == 0);
+    return (stat(filepath, &st) == 0) && !S_ISDIR(st.st_mode);
 }
 
 /**
-- 
2.43.0


From b0ebde008564822ed2d664aea87acb8fb7d89cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:13 +0000
Subject: [PATCH 22/66] fix: fenced divs stay inside their buffers, ignore code
 blocks, escape quotes; nested custom elements are restored

---
 src/extensions/fenced_divs.c | 292 ++++++++++++++++-------------------
 1 file changed, 137 insertions(+), 155 deletions(-)

diff --git a/src/extensions/fenced_divs.c b/src/extensions/fenced_divs.c
index 3a77b83..b965ccb 100644
--- a/src/extensions/fenced_divs.c
+++ b/src/extensions/fenced_divs.c
@@ -168,6 +168,27 @@ static char *parse_block_type(const char **attr_text, size_t *attr_len) {
     return strdup("div");
 }
 
+/**
+ * Copy an attribute value so that it can stand between double quotes:
+ * quotes (and backslash-escaped quotes) become &quot;
+ */
+static char *escape_attribute_quotes(const char *value) {
+    char *out = malloc(strlen(value) * 6 + 1);
+    if (!out) return NULL;
+    char *w = out;
+    for (; *value; value++) {
+        if (*value == '\\' && (value[1] == '"' || value[1] == '\'')) value++;
+        if (*value == '"') {
+            memcpy(w, "&quot;", 6);
+            w += 6;
+        } else {
+            *w++ = *value;
+        }
+    }
+    *w = '\0';
+    return out;
+}
+
 /**
  * Parse attributes from fenced div info string
  * Format: {#id .class .class2 key="value" key2='value2'}
@@ -296,7 +317,7 @@ static char *parse_attributes(const char *attr_text, size_t attr_len) {
                     }
                     if (*p == quote) {
                         *p = '\0';
-                        value = strdup(value_start);
+                        value = escape_attribute_quotes(value_start);
                         p++; /* Skip closing quote */
                     }
                 } else {
@@ -330,7 +351,7 @@ static char *parse_attributes(const char *attr_text, size_t attr_len) {
             }
 
             /* Unknown token, skip */
-            p++;
+            if (*p) p++;
         }
     }
 
@@ -356,7 +377,7 @@ static char *parse_attributes(const char *attr_text, size_t attr_len) {
 
     /* Add ID */
     if (id) {
-        size_t needed = strlen(id) + 5; /* id="..." */
+        size_t needed = strlen(id) + 6; /*  id="..." */
         if (html_len + needed >= html_capacity) {
             html_capacity = (html_len + needed) * 2;
             char *new_attrs = realloc(html_attrs, html_capacity);
@@ -484,6 +505,36 @@ static bool is_cmark_block_tag(const char *tag_name) {
     return false;
 }
 
+/**
+ * Track fenced code blocks (``` or ~~~) line by line
+ * Returns true if the line is a code fence or lies inside a fenced code block
+ */
+static bool update_code_fence(const char *line, char *fence_char, size_t *fence_len) {
+    const char *p = line;
+    while (*p == ' ' && p - line < 3) p++;
+
+    char c = *p;
+    size_t len = 0;
+    if (c == '`' || c == '~') {
+        while (p[len] == c) len++;
+    }
+    p += len;
+
+    if (*fence_char) {
+        if (c == *fence_char && len >= *fence_len) {
+            while (*p == ' ' || *p == '\t') p++;
+            if (!*p) *fence_char = 0;
+        }
+        return true;
+    }
+    if (len >= 3 && !(c == '`' && strchr(p, '`'))) {
+        *fence_char = c;
+        *fence_len = len;
+        return true;
+    }
+    return false;
+}
+
 /**
  * Process fenced divs in text
  */
@@ -491,7 +542,7 @@ char *apex_process_fenced_divs(const char *text) {
     if (!text) return NULL;
 
     size_t text_len = strlen(text);
-    size_t output_capacity = text_len * 2;
+    size_t output_capacity = text_len * 2 + 1;
     char *output = malloc(output_capacity);
     if (!output) return NULL;
 
@@ -499,6 +550,10 @@ char *apex_process_fenced_divs(const char *text) {
     char *write = output;
     size_t remaining = output_capacity;
 
+    /* Track fenced code blocks: their lines are never fences of divs */
+    char code_fence_char = 0;
+    size_t code_fence_len = 0;
+
     /* Track nesting level for divs */
     typedef struct {
         size_t colon_count;
@@ -536,8 +591,9 @@ char *apex_process_fenced_divs(const char *text) {
         size_t colon_count = count_colons(line);
         const char *attr_start = NULL;
         size_t attr_len = 0;
-        bool is_opening = is_opening_fence(line, colon_count, &attr_start, &attr_len);
-        bool is_closing = is_closing_fence(line, colon_count);
+        bool in_code = update_code_fence(line, &code_fence_char, &code_fence_len);
+        bool is_opening = !in_code && is_opening_fence(line, colon_count, &attr_start, &attr_len);
+        bool is_closing = !in_code && is_closing_fence(line, colon_count);
 
         if (is_opening) {
             /* Opening fence with attributes */
@@ -580,8 +636,9 @@ char *apex_process_fenced_divs(const char *text) {
             const char *emit_tag = use_wrapper ? "div" : tag_name;
             size_t emit_tag_len = strlen(emit_tag);
             size_t markdown_attr_len = 13; /*  markdown="1" */
-            size_t wrapper_attr_len = use_wrapper ? (22 + strlen(tag_name)) : 0; /*  data-apex-fenced-element="tagname" */
-            size_t needed = 1 + emit_tag_len + 1 + (html_attrs ? strlen(html_attrs) : 0) + wrapper_attr_len + markdown_attr_len + 1;
+            size_t wrapper_attr_len = use_wrapper ? (28 + strlen(tag_name)) : 0; /*  data-apex-fenced-element="tagname" */
+            /* <tag ...>, the newline after it and the terminator */
+            size_t needed = 1 + emit_tag_len + (html_attrs ? strlen(html_attrs) : 0) + wrapper_attr_len + markdown_attr_len + 1 + 2;
             if (remaining < needed) {
                 size_t written = write - output;
                 output_capacity = (written + needed) * 2;
@@ -639,7 +696,7 @@ char *apex_process_fenced_divs(const char *text) {
             /* Write closing tag: </div> when we wrapped for cmark, else </block_type> */
             const char *close_tag = was_wrapped ? "div" : (block_type ? block_type : "div");
             size_t tag_name_len = strlen(close_tag);
-            size_t needed = 2 + tag_name_len + 1; /* </tag> */
+            size_t needed = 2 + tag_name_len + 1 + 1; /* </tag> and terminator */
             if (remaining < needed) {
                 size_t written = write - output;
                 output_capacity = (written + needed) * 2;
@@ -670,7 +727,7 @@ char *apex_process_fenced_divs(const char *text) {
             if (*read == '\n') read++;
         } else {
             /* Regular line - copy as-is */
-            size_t needed = line_len + 1; /* +1 for newline */
+            size_t needed = line_len + 3; /* line ending and terminator */
             if (remaining < needed) {
                 size_t written = write - output;
                 output_capacity = (written + needed) * 2;
@@ -722,7 +779,7 @@ char *apex_process_fenced_divs(const char *text) {
         }
         const char *close_tag = was_wrapped ? "div" : (block_type ? block_type : "div");
         size_t tag_name_len = strlen(close_tag);
-        size_t needed = 2 + tag_name_len + 1; /* </tag> */
+        size_t needed = 2 + tag_name_len + 1 + 1; /* </tag> and terminator */
         if (remaining < needed) {
             size_t written = write - output;
             output_capacity = (written + needed) * 2;
@@ -763,163 +820,88 @@ char *apex_process_fenced_divs(const char *text) {
 char *apex_postprocess_fenced_divs_html(const char *html) {
     if (!html) return NULL;
 
-    const char *search = html;
-    size_t html_len = strlen(html);
-    /* Output may be shorter (removing data-apex-fenced-element attr) or longer (longer tagname) */
-    size_t cap = html_len + 1024;
+    /* Every wrapper gives back more room in its opening tag than "<" and ">" need,
+     * but its name is repeated in the closing tag */
+    size_t cap = strlen(html) + 1;
+    for (const char *p = html; (p = strstr(p, FENCED_ELEMENT_PREFIX)) != NULL; ) {
+        p += FENCED_ELEMENT_PREFIX_LEN;
+        cap += strcspn(p, "\"");
+    }
     char *out = malloc(cap);
     if (!out) return NULL;
+    char *write = out;
+
+    /* Names of the open <div> elements; NULL for an ordinary <div> */
+    typedef struct {
+        const char *name;
+        size_t name_len;
+    } open_div;
+    open_div *stack = NULL;
+    size_t depth = 0;
+    size_t stack_capacity = 0;
 
     const char *read = html;
-    char *write = out;
-    size_t remaining = cap;
-
-    while ((search = strstr(search, FENCED_ELEMENT_PREFIX)) != NULL) {
-        /* Copy from read to search */
-        size_t chunk = (size_t)(search - read);
-        if (chunk >= remaining) {
-            size_t written = (size_t)(write - out);
-            cap = written + chunk + html_len + 1024;
-            char *new_out = realloc(out, cap);
-            if (!new_out) {
-                free(out);
-                return NULL;
-            }
-            out = new_out;
-            write = out + written;
-            remaining = cap - written;
-        }
-        memcpy(write, read, chunk);
-        write += chunk;
-        remaining -= chunk;
-
-        const char *p = search + FENCED_ELEMENT_PREFIX_LEN;
-        const char *quote_end = strchr(p, '"');
-        if (!quote_end) break;
-        size_t tagname_len = (size_t)(quote_end - p);
-        if (tagname_len == 0 || tagname_len > 127) break;
-
-        char tagname[128];
-        memcpy(tagname, p, tagname_len);
-        tagname[tagname_len] = '\0';
-
-        /* Find end of opening tag */
-        const char *tag_end = strchr(quote_end + 1, '>');
-        if (!tag_end) break;
-
-        /* Build new opening tag: <tagname + rest of tag with data-apex-fenced-element="tagname" removed */
-        const char *after_attr = quote_end + 1;
-        while (after_attr < tag_end && (isspace((unsigned char)*after_attr))) after_attr++;
-
-        size_t rest_len = (size_t)(tag_end - after_attr);
-        size_t open_tag_len = 1 + tagname_len + 1 + rest_len + 1; /* <tagname ...> */
-        if (rest_len >= remaining) {
-            size_t written = (size_t)(write - out);
-            cap = written + open_tag_len + 256;
-            char *new_out = realloc(out, cap);
-            if (!new_out) {
-                free(out);
-                return NULL;
+    while (*read) {
+        if (strncmp(read, "</div>", 6) == 0 && depth > 0) {
+            depth--;
+            if (stack[depth].name) {
+                *write++ = '<';
+                *write++ = '/';
+                memcpy(write, stack[depth].name, stack[depth].name_len);
+                write += stack[depth].name_len;
+                *write++ = '>';
+            } else {
+                memcpy(write, read, 6);
+                write += 6;
             }
-            out = new_out;
-            write = out + written;
-            remaining = cap - written;
-        }
-
-        *write++ = '<';
-        memcpy(write, tagname, tagname_len);
-        write += tagname_len;
-        if (rest_len > 0) {
-            *write++ = ' ';
-            memcpy(write, after_attr, rest_len);
-            write += rest_len;
+            read += 6;
+            continue;
         }
-        *write++ = '>';
-        remaining = cap - (size_t)(write - out);
-
-        read = tag_end + 1;
-
-        /* Find matching </div> by counting nested divs */
-        int depth = 1;
-        const char *scan = read;
-        while (*scan && depth > 0) {
-            if (strncmp(scan, "</div>", 6) == 0) {
-                depth--;
-                if (depth == 0) {
-                    /* Copy content from read to scan */
-                    size_t content_len = (size_t)(scan - read);
-                    if (content_len >= remaining) {
-                        size_t written = (size_t)(write - out);
-                        cap = written + content_len + tagname_len + 16;
-                        char *new_out = realloc(out, cap);
-                        if (!new_out) {
-                            free(out);
-                            return NULL;
-                        }
-                        out = new_out;
-                        write = out + written;
-                        remaining = cap - written;
-                    }
-                    memcpy(write, read, content_len);
-                    write += content_len;
-                    remaining -= content_len;
-
-                    /* Write </tagname> */
-                    size_t close_len = 2 + tagname_len + 1;
-                    if (close_len >= remaining) {
-                        size_t written = (size_t)(write - out);
-                        cap = written + close_len + 64;
-                        char *new_out = realloc(out, cap);
-                        if (!new_out) {
-                            free(out);
-                            return NULL;
-                        }
-                        out = new_out;
-                        write = out + written;
-                        remaining = cap - written;
+        if (strncmp(read, "<div", 4) == 0 && (read[4] == '>' || isspace((unsigned char)read[4]))) {
+            const char *tag_end = strchr(read, '>');
+            if (tag_end) {
+                if (depth >= stack_capacity) {
+                    stack_capacity = stack_capacity ? stack_capacity * 2 : 8;
+                    open_div *new_stack = realloc(stack, sizeof(open_div) * stack_capacity);
+                    if (!new_stack) {
+                        free(stack);
+                        free(out);
+                        return NULL;
                     }
-                    *write++ = '<';
-                    *write++ = '/';
-                    memcpy(write, tagname, tagname_len);
-                    write += tagname_len;
-                    *write++ = '>';
-                    remaining = cap - (size_t)(write - out);
-
-                    read = scan + 6;
-                    break;
+                    stack = new_stack;
                 }
-                scan += 6;
-                continue;
-            }
-            if (scan[0] == '<' && scan[1] == 'd' && scan[2] == 'i' && scan[3] == 'v' &&
-                (scan[4] == '>' || isspace((unsigned char)scan[4]))) {
+                const char *name = NULL;
+                const char *quote_end = NULL;
+                if (strncmp(read, FENCED_ELEMENT_PREFIX, FENCED_ELEMENT_PREFIX_LEN) == 0) {
+                    name = read + FENCED_ELEMENT_PREFIX_LEN;
+                    quote_end = strchr(name, '"');
+                    if (!quote_end || quote_end == name || quote_end > tag_end) name = NULL;
+                }
+                stack[depth].name = name;
+                stack[depth].name_len = name ? (size_t)(quote_end - name) : 0;
                 depth++;
-                scan += 4;
-                while (*scan && *scan != '>') scan++;
-                if (*scan == '>') scan++;
+
+                const char *rest = read;
+                if (name) {
+                    /* <tagname, then the tag without data-apex-fenced-element="tagname" */
+                    rest = quote_end + 1;
+                    while (rest < tag_end && isspace((unsigned char)*rest)) rest++;
+                    *write++ = '<';
+                    memcpy(write, name, stack[depth - 1].name_len);
+                    write += stack[depth - 1].name_len;
+                    if (rest < tag_end) *write++ = ' ';
+                }
+                size_t rest_len = (size_t)(tag_end + 1 - rest);
+                memcpy(write, rest, rest_len);
+                write += rest_len;
+                read = tag_end + 1;
                 continue;
             }
-            scan++;
         }
-        if (depth != 0) break; /* Unmatched, stop */
-        search = read;
+        *write++ = *read++;
     }
 
-    /* Copy remainder */
-    size_t rest = strlen(read);
-    if (rest >= remaining) {
-        size_t written = (size_t)(write - out);
-        cap = written + rest + 1;
-        char *new_out = realloc(out, cap);
-        if (!new_out) {
-            free(out);
-            return NULL;
-        }
-        out = new_out;
-        write = out + written;
-    }
-    memcpy(write, read, rest + 1);
-
+    *write = '\0';
+    free(stack);
     return out;
 }
-
-- 
2.43.0


From ca7881d9f8edac6ccf107ad69325ce1d9f147ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:13 +0000
Subject: [PATCH 23/66] fix: relaxed and headerless tables keep every line in
 order, leave code and tables with a separator alone, and match the column
 count

---
 src/extensions/relaxed_tables.c | 1100 +++++--------------------------
 1 file changed, 161 insertions(+), 939 deletions(-)

diff --git a/src/extensions/relaxed_tables.c b/src/extensions/relaxed_tables.c
index 1fa9cf1..6e6251d 100644
--- a/src/extensions/relaxed_tables.c
+++ b/src/extensions/relaxed_tables.c
@@ -13,67 +13,40 @@
 #include <ctype.h>
 
 /**
- * Count the number of columns in a table row (by counting pipes)
- * Returns -1 if the line doesn't contain a pipe
- * Number of columns = number of pipe-separated cells
- * For GFM tables: | one | two | has 2 columns, one | two has 2 columns
+ * Count the number of columns in a table row, the way the table parser does:
+ * cells are separated by unescaped pipes, a leading and a trailing pipe only
+ * delimit the row. | one | two | and one | two both have 2 columns.
+ * Returns -1 if the line has no pipe, 0 if its only pipe is a leading one.
  */
 static int count_columns(const char *line, size_t len) {
     if (!line || len == 0) return -1;
 
-    bool has_pipe = false;
-    int pipe_count = 0;
-
-    /* Skip leading whitespace */
+    /* Skip surrounding whitespace */
     size_t start = 0;
     while (start < len && (line[start] == ' ' || line[start] == '\t')) {
         start++;
     }
+    while (len > start && isspace((unsigned char)line[len - 1])) {
+        len--;
+    }
 
+    int pipe_count = 0;
     bool starts_with_pipe = (start < len && line[start] == '|');
+    bool ends_with_pipe = false;
 
-    /* Count pipes */
     for (size_t i = start; i < len; i++) {
-        if (line[i] == '|') {
-            has_pipe = true;
+        if (line[i] == '\\' && i + 1 < len) {
+            i++;  /* An escaped pipe is cell content */
+        } else if (line[i] == '|') {
             pipe_count++;
-            if (i == start) {
-                starts_with_pipe = true;
-            }
-            /* Check if this is the last non-whitespace character */
-            /* Note: ends_with_pipe was set but never used, removed to fix warning */
+            ends_with_pipe = (i == len - 1);
         }
     }
 
-    if (!has_pipe) return -1;
-
-    /* Calculate number of columns:
-     * - If line starts with | and ends with |: columns = pipe_count - 1
-     * - If line starts with | but doesn't end with |: columns = pipe_count
-     * - If line doesn't start with | but ends with |: columns = pipe_count
-     * - If line doesn't start or end with |: columns = pipe_count + 1
-     *
-     * Actually, simpler: number of columns = number of pipe-separated segments
-     * | one | two | = 3 segments (empty, one, two, empty) but 2 data columns
-     * one | two = 2 segments = 2 columns
-     * | one | two = 3 segments (empty, one, two) but effectively 2 columns
-     *
-     * For GFM, we want the number of data columns, which is typically:
-     * - If starts with |: pipe_count - 1 (leading pipe creates empty first cell)
-     * - If doesn't start with |: pipe_count + 1
-     *
-     * But actually, for table parsing, we need the separator to match the structure.
-     * Let's use: if starts with |, columns = pipe_count - 1, else columns = pipe_count + 1
-     */
-    if (starts_with_pipe) {
-        /* Leading pipe: number of columns = number of pipes - 1 */
-        /* | one | two | has 3 pipes, 2 columns */
-        return pipe_count - 1;
-    } else {
-        /* No leading pipe: number of columns = number of pipes + 1 */
-        /* one | two has 1 pipe, 2 columns */
-        return pipe_count + 1;
-    }
+    if (pipe_count == 0) return -1;
+    if (pipe_count == 1 && starts_with_pipe) return 0;
+
+    return pipe_count + 1 - (starts_with_pipe ? 1 : 0) - (ends_with_pipe ? 1 : 0);
 }
 
 /**
@@ -138,7 +111,7 @@ static bool is_separator_row(const char *line, size_t len) {
             has_dash = true;
         } else if (c == '|') {
             has_pipe = true;
-        } else if (c != ' ' && c != '\t' && c != ':' && c != '+') {
+        } else if (c != ' ' && c != '\t' && c != ':' && c != '+' && c != '\r') {
             /* Contains a character that's not allowed in separator rows */
             return false;
         }
@@ -225,37 +198,26 @@ static bool is_table_row(const char *line, size_t len) {
 /**
  * Generate a dummy header row (empty cells) for a given number of columns
  * This will be removed in post-processing
+ * The row always starts with a pipe: without one, the first of the pipes would
+ * be taken as the leading pipe and the row would have one cell too few.
  * @param num_columns Number of columns
- * @param starts_with_pipe If true, generate header starting with | to match separator format
  */
-static char *generate_dummy_header_row(int num_columns, bool starts_with_pipe) {
+static char *generate_dummy_header_row(int num_columns) {
     if (num_columns < 1) return NULL;
 
-    /* Calculate size: need space for pipes and spaces */
-    size_t len;
-    if (starts_with_pipe) {
-        /* "| " + num_columns * " | " + "\n" + null */
-        len = 2 + num_columns * 4 + 1 + 1;
-    } else {
-        /* num_columns * " |" + "\n" + null */
-        len = num_columns * 3 + 1 + 1;
-    }
+    /* "|" + num_columns * "  |" + "\n" + null */
+    size_t len = 1 + (size_t)num_columns * 3 + 1 + 1;
 
     char *header = malloc(len);
     if (!header) return NULL;
 
     char *p = header;
-    if (starts_with_pipe) {
-        *p++ = '|';
-        *p++ = ' ';
-    }
+    *p++ = '|';
 
     for (int i = 0; i < num_columns; i++) {
+        *p++ = ' ';
         *p++ = ' ';
         *p++ = '|';
-        if (i < num_columns - 1 || !starts_with_pipe) {
-            *p++ = ' ';
-        }
     }
 
     *p++ = '\n';
@@ -264,6 +226,54 @@ static char *generate_dummy_header_row(int num_columns, bool starts_with_pipe) {
     return header;
 }
 
+/**
+ * Follow fenced code blocks: returns true if the line opens, closes or lies
+ * inside one. State is the fence character (0 outside) and the fence length.
+ */
+static bool track_code_fence(const char *line, size_t len, char *fence_char, size_t *fence_len) {
+    size_t i = 0;
+    while (i < len && i < 3 && line[i] == ' ') i++;
+
+    char c = i < len ? line[i] : '\0';
+    size_t run = 0;
+    if (c == '`' || c == '~') {
+        while (i + run < len && line[i + run] == c) run++;
+    }
+
+    if (*fence_char) {
+        if (c == *fence_char && run >= *fence_len && is_blank_line(line + i + run, len - i - run)) {
+            *fence_char = '\0';
+        }
+        return true;
+    }
+    if (run < 3) return false;
+    if (c == '`' && memchr(line + i + run, '`', len - i - run)) return false;  /* inline code */
+    *fence_char = c;
+    *fence_len = run;
+    return true;
+}
+
+/* Growing output buffer */
+typedef struct {
+    char *data;
+    size_t len;
+    size_t capacity;
+} out_buffer;
+
+static bool out_append(out_buffer *out, const char *data, size_t len) {
+    if (len >= out->capacity - out->len) {
+        size_t new_capacity = (out->capacity + len) * 2;
+        char *new_data = realloc(out->data, new_capacity);
+        if (!new_data) return false;
+        out->data = new_data;
+        out->capacity = new_capacity;
+    }
+    memcpy(out->data + out->len, data, len);
+    out->len += len;
+    out->data[out->len] = '\0';
+    return true;
+}
+
 /**
  * Process relaxed tables - detect tables without separator rows and insert them
  */
@@ -278,838 +288,108 @@ static char *apex_process_relaxed_tables_impl(const char *text,
     size_t text_len = strlen(text);
     if (text_len == 0) return NULL;
 
-    /* Check if input ends with a newline */
-    bool input_ends_with_newline = (text_len > 0 && text[text_len - 1] == '\n');
-
     /* Allocate output buffer (may grow, but start with 2x input size) */
-    size_t output_capacity = text_len * 2;
-    char *output = malloc(output_capacity);
-    if (!output) return NULL;
+    out_buffer out = { malloc(text_len * 2 + 1), 0, text_len * 2 + 1 };
+    if (!out.data) return NULL;
 
-    const char *read = text;
-    char *write = output;
-    size_t remaining = output_capacity;
-    size_t output_len = 0;
-
-    /* Track potential table rows */
-    typedef struct {
-        const char *start;
-        size_t len;
-        int columns;
-        bool starts_with_pipe;
-    } table_row;
-
-    table_row *rows = NULL;
-    size_t rows_capacity = 0;
+    /* The run of consecutive rows with the same number of columns being
+     * collected: it starts at rows_start, its first line ends at first_row_end. */
+    const char *rows_start = NULL;
+    const char *first_row_end = NULL;
     size_t rows_count = 0;
+    int rows_columns = 0;
+    bool rows_start_with_pipe = false;
+
+    /* Inside a table that has its separator row already */
+    bool in_table = false;
+
+    char fence_char = '\0';
+    size_t fence_len = 0;
 
-    /* Track if we made any changes to avoid expensive strcmp */
+    /* Track if we made any changes */
     bool made_changes = false;
+    bool ok = true;
 
-    /* Process line by line */
-    while (*read) {
+    const char *read = text;
+
+    /* Process line by line; the final pass (at the terminator) ends the last run */
+    while (ok) {
         const char *line_start = read;
         const char *line_end = strchr(read, '\n');
         if (!line_end) {
             line_end = read + strlen(read);
         }
-
+        const char *next_line = (*line_end == '\n') ? line_end + 1 : line_end;
         size_t line_len = line_end - line_start;
-        bool has_newline = (*line_end == '\n');
-
-        /* Check if this is a blank line */
-        if (is_blank_line(line_start, line_len)) {
-            /* Blank line: if we have accumulated table rows, process them */
-            if (rows_count >= 2) {
-                /* We have a relaxed table - insert separator after first row */
-                /* First, write all rows except the last one */
-                for (size_t i = 0; i < rows_count; i++) {
-                    /* Write the row */
-                    if (rows[i].len < remaining) {
-                        memcpy(write, rows[i].start, rows[i].len);
-                        write += rows[i].len;
-                        remaining -= rows[i].len;
-                        output_len += rows[i].len;
-
-                        /* Write newline */
-                        if (has_newline && remaining > 0) {
-                            *write++ = '\n';
-                            remaining--;
-                            output_len++;
-                        }
-                    } else {
-                        /* Need to grow buffer */
-                        size_t new_capacity = output_capacity * 2;
-                        char *new_output = realloc(output, new_capacity);
-                        if (!new_output) {
-                            free(output);
-                            free(rows);
-                            return NULL;
-                        }
-                        write = new_output + output_len;
-                        output = new_output;
-                        remaining = new_capacity - output_len;
-                        output_capacity = new_capacity;
-
-                        memcpy(write, rows[i].start, rows[i].len);
-                        write += rows[i].len;
-                        remaining -= rows[i].len;
-                        output_len += rows[i].len;
-
-                        if (has_newline && remaining > 0) {
-                            *write++ = '\n';
-                            remaining--;
-                            output_len++;
-                        }
-                    }
-
-                    /* After first row, insert separator */
-                    if (i == 0) {
-                        made_changes = true;  /* We're inserting a separator, so output will differ */
-                        char *sep = generate_separator_row(rows[0].columns, rows[0].starts_with_pipe);
-                        if (sep) {
-                            size_t sep_len = strlen(sep);
-                            if (sep_len < remaining) {
-                                memcpy(write, sep, sep_len);
-                                write += sep_len;
-                                remaining -= sep_len;
-                                output_len += sep_len;
-                            } else {
-                                /* Need to grow buffer */
-                                size_t new_capacity = output_capacity * 2;
-                                char *new_output = realloc(output, new_capacity);
-                                if (!new_output) {
-                                    free(sep);
-                                    free(output);
-                                    free(rows);
-                                    return NULL;
-                                }
-                                write = new_output + output_len;
-                                output = new_output;
-                                remaining = new_capacity - output_len;
-                                output_capacity = new_capacity;
-
-                                memcpy(write, sep, sep_len);
-                                write += sep_len;
-                                remaining -= sep_len;
-                                output_len += sep_len;
-                            }
-                            free(sep);
-                        }
-                    }
-                }
-
-                /* Reset rows */
-                rows_count = 0;
-
-                /* After outputting table, also write the blank line */
-                if (remaining > 0) {
-                    *write++ = '\n';
-                    remaining--;
-                    output_len++;
-                }
-            } else {
-                /* No table accumulated, just write the blank line */
-                if (line_len < remaining) {
-                    memcpy(write, line_start, line_len);
-                    write += line_len;
-                    remaining -= line_len;
-                    output_len += line_len;
-
-                    if (has_newline && remaining > 0) {
-                        *write++ = '\n';
-                        remaining--;
-                        output_len++;
-                    }
-                } else {
-                    /* Need to grow buffer */
-                    size_t new_capacity = output_capacity * 2;
-                    char *new_output = realloc(output, new_capacity);
-                    if (!new_output) {
-                        free(output);
-                        free(rows);
-                        return NULL;
-                    }
-                    write = new_output + output_len;
-                    output = new_output;
-                    remaining = new_capacity - output_len;
-                    output_capacity = new_capacity;
-
-                    memcpy(write, line_start, line_len);
-                    write += line_len;
-                    remaining -= line_len;
-                    output_len += line_len;
-
-                    if (has_newline && remaining > 0) {
-                        *write++ = '\n';
-                        remaining--;
-                        output_len++;
-                    }
-                }
+        bool at_end = (*read == '\0');
+
+        bool in_code = !at_end && track_code_fence(line_start, line_len, &fence_char, &fence_len);
+        bool is_separator = false;
+        bool is_rule = false;
+        int columns = 0;
+        if (!at_end && !in_code && !is_blank_line(line_start, line_len)) {
+            is_separator = is_separator_row(line_start, line_len);
+            is_rule = !is_separator && is_horizontal_rule(line_start, line_len);
+            if (!is_separator && !is_rule) {
+                columns = count_columns(line_start, line_len);
             }
-
-            /* Move to next line */
-            read = line_end;
-            if (has_newline) read++;
-            continue;
         }
 
-        /* Check if this is a separator row */
-        if (is_separator_row(line_start, line_len)) {
-            /* Separator row: if we have accumulated rows, write them as-is */
-            if (rows_count > 0) {
-                for (size_t i = 0; i < rows_count; i++) {
-                    if (rows[i].len < remaining) {
-                        memcpy(write, rows[i].start, rows[i].len);
-                        write += rows[i].len;
-                        remaining -= rows[i].len;
-                        output_len += rows[i].len;
-
-                        if (has_newline && remaining > 0) {
-                            *write++ = '\n';
-                            remaining--;
-                            output_len++;
-                        }
-                    } else {
-                        /* Need to grow buffer */
-                        size_t new_capacity = output_capacity * 2;
-                        char *new_output = realloc(output, new_capacity);
-                        if (!new_output) {
-                            free(output);
-                            free(rows);
-                            return NULL;
-                        }
-                        write = new_output + output_len;
-                        output = new_output;
-                        remaining = new_capacity - output_len;
-                        output_capacity = new_capacity;
-
-                        memcpy(write, rows[i].start, rows[i].len);
-                        write += rows[i].len;
-                        remaining -= rows[i].len;
-                        output_len += rows[i].len;
-
-                        if (has_newline && remaining > 0) {
-                            *write++ = '\n';
-                            remaining--;
-                            output_len++;
-                        }
-                    }
-                }
-                rows_count = 0;
-            }
-
-            /* Write the separator row */
-            if (line_len < remaining) {
-                memcpy(write, line_start, line_len);
-                write += line_len;
-                remaining -= line_len;
-                output_len += line_len;
-
-                if (has_newline && remaining > 0) {
-                    *write++ = '\n';
-                    remaining--;
-                    output_len++;
-                }
-            } else {
-                /* Need to grow buffer */
-                size_t new_capacity = output_capacity * 2;
-                char *new_output = realloc(output, new_capacity);
-                if (!new_output) {
-                    free(output);
-                    free(rows);
-                    return NULL;
-                }
-                write = new_output + output_len;
-                output = new_output;
-                remaining = new_capacity - output_len;
-                output_capacity = new_capacity;
-
-                memcpy(write, line_start, line_len);
-                write += line_len;
-                remaining -= line_len;
-                output_len += line_len;
-
-                if (has_newline && remaining > 0) {
-                    *write++ = '\n';
-                    remaining--;
-                    output_len++;
-                }
-            }
-
-            read = line_end;
-            if (has_newline) read++;
-            continue;
-        }
-
-        /* Check if this is a horizontal rule - skip it entirely */
-        if (is_horizontal_rule(line_start, line_len)) {
-            /* Write horizontal rule as-is and reset accumulated rows */
-            if (rows_count > 0) {
-                /* Write accumulated rows first */
-                for (size_t i = 0; i < rows_count; i++) {
-                    if (rows[i].len < remaining) {
-                        memcpy(write, rows[i].start, rows[i].len);
-                        write += rows[i].len;
-                        remaining -= rows[i].len;
-                        output_len += rows[i].len;
-
-                        if (has_newline && remaining > 0) {
-                            *write++ = '\n';
-                            remaining--;
-                            output_len++;
-                        }
-                    } else {
-                        size_t new_capacity = output_capacity * 2;
-                        char *new_output = realloc(output, new_capacity);
-                        if (!new_output) {
-                            free(output);
-                            free(rows);
-                            return NULL;
-                        }
-                        write = new_output + output_len;
-                        output = new_output;
-                        remaining = new_capacity - output_len;
-                        output_capacity = new_capacity;
-
-                        memcpy(write, rows[i].start, rows[i].len);
-                        write += rows[i].len;
-                        remaining -= rows[i].len;
-                        output_len += rows[i].len;
-
-                        if (has_newline && remaining > 0) {
-                            *write++ = '\n';
-                            remaining--;
-                            output_len++;
-                        }
-                    }
-                }
-                rows_count = 0;
-            }
-
-            /* Write horizontal rule as-is */
-            if (line_len < remaining) {
-                memcpy(write, line_start, line_len);
-                write += line_len;
-                remaining -= line_len;
-                output_len += line_len;
-
-                if (has_newline && remaining > 0) {
-                    *write++ = '\n';
-                    remaining--;
-                    output_len++;
-                }
-            } else {
-                size_t new_capacity = output_capacity * 2;
-                char *new_output = realloc(output, new_capacity);
-                if (!new_output) {
-                    free(output);
-                    free(rows);
-                    return NULL;
-                }
-                write = new_output + output_len;
-                output = new_output;
-                remaining = new_capacity - output_len;
-                output_capacity = new_capacity;
-
-                memcpy(write, line_start, line_len);
-                write += line_len;
-                remaining -= line_len;
-                output_len += line_len;
-
-                if (has_newline && remaining > 0) {
-                    *write++ = '\n';
-                    remaining--;
-                    output_len++;
-                }
-            }
-
-            read = line_end;
-            if (has_newline) read++;
-            continue;
-        }
-
-        /* Check if this line contains a pipe (potential table row) */
-        const char *p = line_start;
-        while (p < line_end && (*p == ' ' || *p == '\t')) {
-            p++;
-        }
-        bool starts_with_pipe = (p < line_end && *p == '|');
-
-        /* Check if this is a separator row - if so, skip relaxed table processing for previous rows */
-        if (is_separator_row(line_start, line_len)) {
-            /* Separator row found - if we have accumulated rows, they're already a valid table */
-            /* Write them as-is and reset */
-            if (rows_count > 0) {
-                for (size_t i = 0; i < rows_count; i++) {
-                    if (rows[i].len < remaining) {
-                        memcpy(write, rows[i].start, rows[i].len);
-                        write += rows[i].len;
-                        remaining -= rows[i].len;
-                        output_len += rows[i].len;
-
-                        if (has_newline && remaining > 0) {
-                            *write++ = '\n';
-                            remaining--;
-                            output_len++;
-                        }
-                    } else {
-                        size_t new_capacity = output_capacity * 2;
-                        char *new_output = realloc(output, new_capacity);
-                        if (!new_output) {
-                            free(output);
-                            free(rows);
-                            return NULL;
-                        }
-                        write = new_output + output_len;
-                        output = new_output;
-                        remaining = new_capacity - output_len;
-                        output_capacity = new_capacity;
-
-                        memcpy(write, rows[i].start, rows[i].len);
-                        write += rows[i].len;
-                        remaining -= rows[i].len;
-                        output_len += rows[i].len;
-
-                        if (has_newline && remaining > 0) {
-                            *write++ = '\n';
-                            remaining--;
-                            output_len++;
-                        }
-                    }
-                }
+        if (columns > 0 && !in_table) {
+            if (rows_count > 0 && rows_columns != columns) {
+                /* Column count mismatch - write accumulated rows and start fresh */
+                ok = out_append(&out, rows_start, line_start - rows_start);
                 rows_count = 0;
             }
-
-            /* Write the separator row */
-            if (line_len < remaining) {
-                memcpy(write, line_start, line_len);
-                write += line_len;
-                remaining -= line_len;
-                output_len += line_len;
-
-                if (has_newline && remaining > 0) {
-                    *write++ = '\n';
-                    remaining--;
-                    output_len++;
-                }
-            } else {
-                size_t new_capacity = output_capacity * 2;
-                char *new_output = realloc(output, new_capacity);
-                if (!new_output) {
-                    free(output);
-                    free(rows);
-                    return NULL;
-                }
-                write = new_output + output_len;
-                output = new_output;
-                remaining = new_capacity - output_len;
-                output_capacity = new_capacity;
-
-                memcpy(write, line_start, line_len);
-                write += line_len;
-                remaining -= line_len;
-                output_len += line_len;
-
-                if (has_newline && remaining > 0) {
-                    *write++ = '\n';
-                    remaining--;
-                    output_len++;
-                }
-            }
-
-            read = line_end;
-            if (has_newline) read++;
-            continue;
-        }
-
-        /* Process rows with or without leading pipes - both need separators if missing */
-        int columns = count_columns(line_start, line_len);
-        if (columns > 0) {
-            /* Potential table row - add to accumulator */
             if (rows_count == 0) {
-                /* First row - allocate array */
-                rows_capacity = 16;
-                rows = malloc(sizeof(table_row) * rows_capacity);
-                if (!rows) {
-                    free(output);
-                    return NULL;
-                }
-            } else if (rows_count >= rows_capacity) {
-                /* Grow array */
-                rows_capacity *= 2;
-                table_row *new_rows = realloc(rows, sizeof(table_row) * rows_capacity);
-                if (!new_rows) {
-                    free(output);
-                    free(rows);
-                    return NULL;
-                }
-                rows = new_rows;
+                rows_start = line_start;
+                first_row_end = next_line;
+                rows_columns = columns;
+                const char *p = line_start;
+                while (p < line_end && (*p == ' ' || *p == '\t')) p++;
+                rows_start_with_pipe = (*p == '|');
             }
-
-            /* Check if columns match previous rows */
-            if (rows_count > 0 && rows[0].columns != columns) {
-                /* Column count mismatch - write accumulated rows and start fresh */
-                for (size_t i = 0; i < rows_count; i++) {
-                    if (rows[i].len < remaining) {
-                        memcpy(write, rows[i].start, rows[i].len);
-                        write += rows[i].len;
-                        remaining -= rows[i].len;
-                        output_len += rows[i].len;
-
-                        if (has_newline && remaining > 0) {
-                            *write++ = '\n';
-                            remaining--;
-                            output_len++;
-                        }
-                    } else {
-                        /* Need to grow buffer */
-                        size_t new_capacity = output_capacity * 2;
-                        char *new_output = realloc(output, new_capacity);
-                        if (!new_output) {
-                            free(output);
-                            free(rows);
-                            return NULL;
-                        }
-                        write = new_output + output_len;
-                        output = new_output;
-                        remaining = new_capacity - output_len;
-                        output_capacity = new_capacity;
-
-                        memcpy(write, rows[i].start, rows[i].len);
-                        write += rows[i].len;
-                        remaining -= rows[i].len;
-                        output_len += rows[i].len;
-
-                        if (has_newline && remaining > 0) {
-                            *write++ = '\n';
-                            remaining--;
-                            output_len++;
-                        }
-                    }
-                }
-                rows_count = 0;
-            }
-
-            /* Add this row to accumulator */
-            rows[rows_count].start = line_start;
-            rows[rows_count].len = line_len;
-            rows[rows_count].columns = columns;
-            rows[rows_count].starts_with_pipe = starts_with_pipe;
             rows_count++;
 
-            /* Don't write yet - wait for blank line or separator */
-            read = line_end;
-            if (has_newline) read++;
+            /* Don't write yet - wait for the end of the run */
+            read = next_line;
             continue;
         }
 
-        /* Not a table row - if we have accumulated rows, write them first */
-        if (rows_count >= 2) {
-            /* We have a relaxed table - insert separator after first row */
-            for (size_t i = 0; i < rows_count; i++) {
-                if (rows[i].len < remaining) {
-                    memcpy(write, rows[i].start, rows[i].len);
-                    write += rows[i].len;
-                    remaining -= rows[i].len;
-                    output_len += rows[i].len;
-
-                    if (has_newline && remaining > 0) {
-                        *write++ = '\n';
-                        remaining--;
-                        output_len++;
-                    }
-                } else {
-                    /* Need to grow buffer */
-                    size_t new_capacity = output_capacity * 2;
-                    char *new_output = realloc(output, new_capacity);
-                    if (!new_output) {
-                        free(output);
-                        free(rows);
-                        return NULL;
-                    }
-                    write = new_output + output_len;
-                    output = new_output;
-                    remaining = new_capacity - output_len;
-                    output_capacity = new_capacity;
-
-                    memcpy(write, rows[i].start, rows[i].len);
-                    write += rows[i].len;
-                    remaining -= rows[i].len;
-                    output_len += rows[i].len;
-
-                    if (has_newline && remaining > 0) {
-                        *write++ = '\n';
-                        remaining--;
-                        output_len++;
-                    }
-                }
-
-                /* After first row, insert separator */
-                if (i == 0) {
-                    made_changes = true;  /* We're inserting a separator, so output will differ */
-                    char *sep = generate_separator_row(rows[0].columns, rows[0].starts_with_pipe);
-                    if (sep) {
-                        size_t sep_len = strlen(sep);
-                        if (sep_len < remaining) {
-                            memcpy(write, sep, sep_len);
-                            write += sep_len;
-                            remaining -= sep_len;
-                            output_len += sep_len;
-                        } else {
-                            /* Need to grow buffer */
-                            size_t new_capacity = output_capacity * 2;
-                            char *new_output = realloc(output, new_capacity);
-                            if (!new_output) {
-                                free(sep);
-                                free(output);
-                                free(rows);
-                                return NULL;
-                            }
-                            write = new_output + output_len;
-                            output = new_output;
-                            remaining = new_capacity - output_len;
-                            output_capacity = new_capacity;
-
-                            memcpy(write, sep, sep_len);
-                            write += sep_len;
-                            remaining -= sep_len;
-                            output_len += sep_len;
-                        }
-                        free(sep);
-                    }
-                }
-            }
-            rows_count = 0;
-        } else if (rows_count > 0) {
-            /* Only one row - not a table, write it as-is */
-            if (rows[0].len < remaining) {
-                memcpy(write, rows[0].start, rows[0].len);
-                write += rows[0].len;
-                remaining -= rows[0].len;
-                output_len += rows[0].len;
-
-                if (has_newline && remaining > 0) {
-                    *write++ = '\n';
-                    remaining--;
-                    output_len++;
-                }
-            } else {
-                /* Need to grow buffer */
-                size_t new_capacity = output_capacity * 2;
-                char *new_output = realloc(output, new_capacity);
-                if (!new_output) {
-                    free(output);
-                    free(rows);
-                    return NULL;
-                }
-                write = new_output + output_len;
-                output = new_output;
-                remaining = new_capacity - output_len;
-                output_capacity = new_capacity;
-
-                memcpy(write, rows[0].start, rows[0].len);
-                write += rows[0].len;
-                remaining -= rows[0].len;
-                output_len += rows[0].len;
-
-                if (has_newline && remaining > 0) {
-                    *write++ = '\n';
-                    remaining--;
-                    output_len++;
-                }
-            }
-            rows_count = 0;
-        }
-
-        /* Write this line as-is */
-        if (line_len < remaining) {
-            memcpy(write, line_start, line_len);
-            write += line_len;
-            remaining -= line_len;
-            output_len += line_len;
-
-            if (has_newline && remaining > 0) {
-                *write++ = '\n';
-                remaining--;
-                output_len++;
-            }
-        } else {
-            /* Need to grow buffer */
-            size_t new_capacity = output_capacity * 2;
-            char *new_output = realloc(output, new_capacity);
-            if (!new_output) {
-                free(output);
-                free(rows);
-                return NULL;
-            }
-            write = new_output + output_len;
-            output = new_output;
-            remaining = new_capacity - output_len;
-            output_capacity = new_capacity;
-
-            memcpy(write, line_start, line_len);
-            write += line_len;
-            remaining -= line_len;
-            output_len += line_len;
-
-            if (has_newline && remaining > 0) {
-                *write++ = '\n';
-                remaining--;
-                output_len++;
-            }
-        }
-
-        read = line_end;
-        if (has_newline) read++;
-    }
-
-    /* Handle any remaining accumulated rows at end of file */
-    if (rows_count >= 2) {
-        /* We have a relaxed table - insert separator after first row */
-        for (size_t i = 0; i < rows_count; i++) {
-            if (rows[i].len < remaining) {
-                memcpy(write, rows[i].start, rows[i].len);
-                write += rows[i].len;
-                remaining -= rows[i].len;
-                output_len += rows[i].len;
-
-                *write++ = '\n';
-                remaining--;
-                output_len++;
-            } else {
-                /* Need to grow buffer */
-                size_t new_capacity = output_capacity * 2;
-                char *new_output = realloc(output, new_capacity);
-                if (!new_output) {
-                    free(output);
-                    free(rows);
-                    return NULL;
-                }
-                write = new_output + output_len;
-                output = new_output;
-                remaining = new_capacity - output_len;
-                output_capacity = new_capacity;
-
-                memcpy(write, rows[i].start, rows[i].len);
-                write += rows[i].len;
-                remaining -= rows[i].len;
-                output_len += rows[i].len;
-
-                *write++ = '\n';
-                remaining--;
-                output_len++;
-            }
-
-            /* After first row, insert separator */
-            if (i == 0) {
-                char *sep = generate_separator_row(rows[0].columns, rows[0].starts_with_pipe);
+        /* This line ends the run of rows */
+        if (rows_count > 0) {
+            const char *rest = rows_start;
+            if (rows_count >= 2 && !is_separator && !is_rule) {
+                /* We have a relaxed table - insert separator after first row */
+                char *sep = generate_separator_row(rows_columns, rows_start_with_pipe);
                 if (sep) {
-                    size_t sep_len = strlen(sep);
-                    if (sep_len < remaining) {
-                        memcpy(write, sep, sep_len);
-                        write += sep_len;
-                        remaining -= sep_len;
-                        output_len += sep_len;
-                    } else {
-                        /* Need to grow buffer */
-                        size_t new_capacity = output_capacity * 2;
-                        char *new_output = realloc(output, new_capacity);
-                        if (!new_output) {
-                            free(sep);
-                            free(output);
-                            free(rows);
-                            return NULL;
-                        }
-                        write = new_output + output_len;
-                        output = new_output;
-                        remaining = new_capacity - output_len;
-                        output_capacity = new_capacity;
-
-                        memcpy(write, sep, sep_len);
-                        write += sep_len;
-                        remaining -= sep_len;
-                        output_len += sep_len;
-                    }
+                    ok = out_append(&out, rows_start, first_row_end - rows_start) &&
+                         out_append(&out, sep, strlen(sep));
+                    rest = first_row_end;
+                    made_changes = true;
                     free(sep);
                 }
             }
+            ok = ok && out_append(&out, rest, line_start - rest);
+            rows_count = 0;
         }
-    } else if (rows_count == 1) {
-        /* Only one row - not a table, write it as-is */
-        if (rows[0].len < remaining) {
-            memcpy(write, rows[0].start, rows[0].len);
-            write += rows[0].len;
-            remaining -= rows[0].len;
-            output_len += rows[0].len;
-
-            /* Only add newline if input ended with one */
-            if (input_ends_with_newline && remaining > 0) {
-                *write++ = '\n';
-                remaining--;
-                output_len++;
-            }
-        } else {
-            /* Need to grow buffer */
-            size_t new_capacity = output_capacity * 2;
-            char *new_output = realloc(output, new_capacity);
-            if (!new_output) {
-                free(output);
-                free(rows);
-                return NULL;
-            }
-            write = new_output + output_len;
-            output = new_output;
-            remaining = new_capacity - output_len;
-            output_capacity = new_capacity;
-
-            memcpy(write, rows[0].start, rows[0].len);
-            write += rows[0].len;
-            remaining -= rows[0].len;
-            output_len += rows[0].len;
-
-            /* Only add newline if input ended with one */
-            if (input_ends_with_newline && remaining > 0) {
-                *write++ = '\n';
-                remaining--;
-                output_len++;
-            }
-        }
-    }
 
-    free(rows);
+        if (at_end) break;
 
-    /* Null-terminate */
-    if (remaining > 0) {
-        *write = '\0';
-    } else {
-        /* Need one more byte */
-        size_t new_capacity = output_capacity + 1;
-        char *new_output = realloc(output, new_capacity);
-        if (!new_output) {
-            free(output);
-            return NULL;
-        }
-        new_output[output_len] = '\0';
-        output = new_output;
-    }
+        /* Rows that follow a separator row belong to its table */
+        in_table = is_separator || (in_table && columns > 0);
 
-    /* Check if we made any changes */
-    /* Fast path: if we made no changes and lengths match, skip expensive strcmp */
-    if (!made_changes && text_len == output_len) {
-        free(output);
-        return NULL;  /* No changes */
+        /* Write this line as-is */
+        ok = ok && out_append(&out, line_start, next_line - line_start);
+        read = next_line;
     }
-    
-    /* If we made changes, output definitely differs, return it */
-    /* If lengths differ, output definitely differs, return it */
-    /* Only do strcmp if we're not sure (shouldn't happen with proper made_changes tracking) */
-    if (text_len == output_len && strcmp(text, output) == 0) {
-        free(output);
+
+    if (!ok || !made_changes) {
+        free(out.data);
         return NULL;  /* No changes */
     }
 
-    return output;
+    return out.data;
 }
 
 /**
@@ -1123,19 +403,18 @@ char *apex_process_headerless_tables(const char *text) {
     if (text_len == 0) return NULL;
 
     /* Allocate output buffer */
-    size_t output_capacity = text_len * 2;
-    char *output = malloc(output_capacity);
-    if (!output) return NULL;
+    out_buffer out = { malloc(text_len * 2 + 1), 0, text_len * 2 + 1 };
+    if (!out.data) return NULL;
 
     const char *read = text;
-    char *write = output;
-    size_t remaining = output_capacity;
-    size_t output_len = 0;
 
     /* Track previous line for context */
     bool prev_line_is_table_row = false;
 
-    /* Track if we made any changes to avoid expensive strcmp */
+    char fence_char = '\0';
+    size_t fence_len = 0;
+
+    /* Track if we made any changes */
     bool made_changes = false;
 
     /* Process line by line */
@@ -1152,9 +431,10 @@ char *apex_process_headerless_tables(const char *text) {
         /* Skip to next line for next iteration */
         const char *next_line_start = has_newline ? line_end + 1 : line_end;
 
-        /* Check if this is a separator or table row */
-        bool is_separator = is_separator_row(line_start, line_len);
-        bool is_table = is_table_row(line_start, line_len);
+        /* Check if this is a separator or table row (code blocks hold neither) */
+        bool in_code = track_code_fence(line_start, line_len, &fence_char, &fence_len);
+        bool is_separator = !in_code && is_separator_row(line_start, line_len);
+        bool is_table = !in_code && count_columns(line_start, line_len) >= 0;
 
         /* Check if we have a separator row that's not part of a valid table:
          * - Previous line is NOT a table row (so separator has no header)
@@ -1190,38 +470,15 @@ char *apex_process_headerless_tables(const char *text) {
                 /* We need to insert a dummy header row before the separator */
                 int num_columns = count_columns(line_start, line_len);
                 if (num_columns > 0) {
-                    /* Check if separator starts with pipe to match format */
-                    size_t start = 0;
-                    while (start < line_len && (line_start[start] == ' ' || line_start[start] == '\t')) {
-                        start++;
-                    }
-                    bool starts_with_pipe = (start < line_len && line_start[start] == '|');
-                    char *dummy_header = generate_dummy_header_row(num_columns, starts_with_pipe);
+                    char *dummy_header = generate_dummy_header_row(num_columns);
 
                     if (dummy_header) {
                         made_changes = true;  /* We're inserting a header, so output will differ */
-                        size_t header_len = strlen(dummy_header);
-
-                        /* Ensure we have space for header + original line */
-                        while (output_len + header_len + line_len + 10 > output_capacity) {
-                            output_capacity *= 2;
-                            char *new_output = realloc(output, output_capacity);
-                            if (!new_output) {
-                                free(dummy_header);
-                                free(output);
-                                return NULL;
-                            }
-                            write = new_output + output_len;
-                            output = new_output;
-                            remaining = output_capacity - output_len;
+                        if (!out_append(&out, dummy_header, strlen(dummy_header))) {
+                            free(dummy_header);
+                            free(out.data);
+                            return NULL;
                         }
-
-                        /* Write dummy header */
-                        memcpy(write, dummy_header, header_len);
-                        write += header_len;
-                        output_len += header_len;
-                        remaining -= header_len;
-
                         free(dummy_header);
                     }
                 }
@@ -1229,27 +486,9 @@ char *apex_process_headerless_tables(const char *text) {
         }
 
         /* Copy the current line to output */
-        if (line_len + 1 > remaining) {
-            output_capacity *= 2;
-            char *new_output = realloc(output, output_capacity);
-            if (!new_output) {
-                free(output);
-                return NULL;
-            }
-            write = new_output + output_len;
-            output = new_output;
-            remaining = output_capacity - output_len;
-        }
-
-        memcpy(write, line_start, line_len);
-        write += line_len;
-        output_len += line_len;
-        remaining -= line_len;
-
-        if (has_newline) {
-            *write++ = '\n';
-            output_len++;
-            remaining--;
+        if (!out_append(&out, line_start, next_line_start - line_start)) {
+            free(out.data);
+            return NULL;
         }
 
         /* Update tracking for next iteration */
@@ -1259,30 +498,13 @@ char *apex_process_headerless_tables(const char *text) {
         read = next_line_start;
     }
 
-    /* Null terminate */
-    if (remaining > 0) {
-        *write = '\0';
-    } else {
-        free(output);
-        return NULL;
-    }
-
     /* If nothing changed, return NULL to allow caller to use original */
-    /* Fast path: if we made no changes and lengths match, skip expensive strcmp */
-    if (!made_changes && text_len == output_len) {
-        free(output);
-        return NULL;
-    }
-    
-    /* If we made changes, output definitely differs, return it */
-    /* If lengths differ, output definitely differs, return it */
-    /* Only do strcmp if we're not sure (shouldn't happen with proper made_changes tracking) */
-    if (text_len == output_len && strcmp(text, output) == 0) {
-        free(output);
+    if (!made_changes) {
+        free(out.data);
         return NULL;
     }
 
-    return output;
+    return out.data;
 }
 
 /* Public API - calls internal implementation */
-- 
2.43.0


From 9bdb6d90874c97445b9522690499dce150905475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:37 +0000
Subject: [PATCH 24/66] fix: a directory is never read as an included file

---
 src/extensions/includes.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index f0c92ae..f5bd70d 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -22,6 +22,10 @@
  * Read file contents
  */
 static char *read_file_contents(const char *filepath) {
+    /* A directory can be opened on most systems, but it has no text */
+    struct stat st;
+    if (stat(filepath, &st) == 0 && S_ISDIR(st.st_mode)) return NULL;
+
     FILE *fp = fopen(filepath, "rb");
     if (!fp) return NULL;
 
-- 
2.43.0


From 343945fea3050fce1abadadee8031b432bca0413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:09 +0000
Subject: [PATCH 25/66] fix: front matter ends at its own closing line, keeps
 long lines and keys, and ordinary text is not taken for metadata

---
 src/extensions/metadata.c | 294 ++++++++++++++++++++------------------
 1 file changed, 151 insertions(+), 143 deletions(-)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index a320234..57a28c1 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -105,9 +105,10 @@ static void add_metadata_item(apex_metadata_item **list, const char *key, const
 
 #ifdef APEX_HAVE_LIBYAML
 /* Recursively convert libyaml node to flat metadata items */
+#define YAML_MAX_DEPTH 64  /* aliases can make a document cyclic */
 static void yaml_node_to_flat_items(yaml_document_t *doc, yaml_node_t *node,
-                                    const char *prefix, apex_metadata_item **items) {
-    if (!node) return;
+                                    const char *prefix, apex_metadata_item **items, int depth) {
+    if (!node || depth > YAML_MAX_DEPTH) return;
 
     switch (node->type) {
         case YAML_SCALAR_NODE: {
@@ -166,16 +167,19 @@ static void yaml_node_to_flat_items(yaml_document_t *doc, yaml_node_t *node,
                     int idx = 0;
                     yaml_node_item_t *it = node->data.sequence.items.start;
                     while (it < node->data.sequence.items.top) {
-                        char idx_key[512];
+                        size_t idx_size = (prefix ? strlen(prefix) : 0) + 16;
+                        char *idx_key = malloc(idx_size);
+                        if (!idx_key) break;
                         if (prefix && *prefix) {
-                            snprintf(idx_key, sizeof(idx_key), "%s.%d", prefix, idx);
+                            snprintf(idx_key, idx_size, "%s.%d", prefix, idx);
                         } else {
-                            snprintf(idx_key, sizeof(idx_key), "%d", idx);
+                            snprintf(idx_key, idx_size, "%d", idx);
                         }
                         yaml_node_t *ch = yaml_document_get_node(doc, *it);
                         if (ch) {
-                            yaml_node_to_flat_items(doc, ch, idx_key, items);
+                            yaml_node_to_flat_items(doc, ch, idx_key, items, depth + 1);
                         }
+                        free(idx_key);
                         it++;
                         idx++;
                     }
@@ -226,15 +230,17 @@ static void yaml_node_to_flat_items(yaml_document_t *doc, yaml_node_t *node,
                         memcpy(key_str, key, key_len);
                         key_str[key_len] = '\0';
 
-                        char full_key[512];
-                        if (prefix && *prefix) {
-                            snprintf(full_key, sizeof(full_key), "%s.%s", prefix, key_str);
-                        } else {
-                            strncpy(full_key, key_str, sizeof(full_key) - 1);
-                            full_key[sizeof(full_key) - 1] = '\0';
+                        size_t full_size = (prefix ? strlen(prefix) : 0) + key_len + 2;
+                        char *full_key = malloc(full_size);
+                        if (full_key) {
+                            if (prefix && *prefix) {
+                                snprintf(full_key, full_size, "%s.%s", prefix, key_str);
+                            } else {
+                                snprintf(full_key, full_size, "%s", key_str);
+                            }
+                            yaml_node_to_flat_items(doc, value_node, full_key, items, depth + 1);
+                            free(full_key);
                         }
-
-                        yaml_node_to_flat_items(doc, value_node, full_key, items);
                         free(key_str);
                     }
                 }
@@ -247,45 +253,13 @@ static void yaml_node_to_flat_items(yaml_document_t *doc, yaml_node_t *node,
     }
 }
 
-/* Parse YAML using libyaml - returns flat metadata items for backward compatibility */
-static apex_metadata_item *parse_yaml_with_libyaml(const char *text, size_t text_len, size_t *consumed) {
+/* Parse the YAML between yaml_start and yaml_start + yaml_content_len using libyaml.
+ * Returns flat metadata items for backward compatibility. */
+static apex_metadata_item *parse_yaml_with_libyaml(const char *yaml_start, size_t yaml_content_len) {
     yaml_parser_t parser;
     yaml_document_t document;
     apex_metadata_item *items = NULL;
 
-    /* Skip opening --- if present */
-    const char *yaml_start = text;
-    if (text_len >= 3 && strncmp(text, "---", 3) == 0) {
-        const char *newline = strchr(text + 3, '\n');
-        if (newline) {
-            yaml_start = newline + 1;
-        } else {
-            yaml_start = text + 3;
-        }
-    }
-
-    /* Find the end of YAML front matter (---) */
-    const char *end_marker = strstr(yaml_start, "\n---");
-    if (!end_marker) {
-        end_marker = strstr(yaml_start, "\n...");
-    }
-    if (!end_marker) {
-        /* Look for --- at start of line */
-        const char *p = yaml_start;
-        while ((p = strstr(p, "\n---")) != NULL) {
-            if (p[4] == '\n' || p[4] == '\0' || p[4] == '\r') {
-                end_marker = p;
-                break;
-            }
-            p += 4;
-        }
-    }
-
-    size_t yaml_content_len = text_len - (yaml_start - text);
-    if (end_marker && end_marker > yaml_start) {
-        yaml_content_len = (size_t)(end_marker - yaml_start);
-    }
-
     if (!yaml_parser_initialize(&parser)) {
         return NULL;
     }
@@ -304,15 +278,8 @@ static apex_metadata_item *parse_yaml_with_libyaml(const char *text, size_t text
         return NULL;
     }
 
-    /* Calculate consumed bytes */
-    if (end_marker) {
-        *consumed = (end_marker - text) + 4; /* Include \n--- */
-    } else {
-        *consumed = text_len;
-    }
-
     /* Convert YAML mapping to flat metadata items */
-    yaml_node_to_flat_items(&document, yaml_root, NULL, &items);
+    yaml_node_to_flat_items(&document, yaml_root, NULL, &items, 0);
 
     yaml_document_delete(&document);
     yaml_parser_delete(&parser);
@@ -320,94 +287,123 @@ static apex_metadata_item *parse_yaml_with_libyaml(const char *text, size_t text
 }
 #endif
 
+/**
+ * Delimit YAML front matter: a first line "---", closed by a line "---" or "...".
+ * Without a closing line it extends to the end of the text if to_end is set.
+ * Sets content/content_end around the lines between and after to what follows.
+ */
+static bool find_yaml_block(const char *text, bool to_end, const char **content,
+                            const char **content_end, const char **after) {
+    const char *p = text;
+    bool opened = false;
+
+    while (*p) {
+        const char *line_end = strchr(p, '\n');
+        const char *next = line_end ? line_end + 1 : p + strlen(p);
+        const char *rest = p + 3;
+        bool dashes = strncmp(p, "---", 3) == 0;
+        bool dots = opened && strncmp(p, "...", 3) == 0;
+
+        if (dashes || dots) {
+            while (rest < next && isspace((unsigned char)*rest)) rest++;
+            if (rest == next) {
+                if (opened) {
+                    *content_end = p;
+                    *after = next;
+                    return true;
+                }
+                *content = next;
+                opened = true;
+            }
+        }
+        if (!opened) return false;
+        p = next;
+    }
+
+    *content_end = *after = p;
+    return opened && to_end;
+}
+
 /**
  * Parse YAML front matter
- * Format: --- at start, key: value pairs, --- to close
+ * Format: --- at start, key: value pairs, --- or ... to close
  * If libyaml is available, attempts to use it for full YAML support (arrays, nested structures)
  * Falls back to simple line-by-line parser for backward compatibility
  */
-static apex_metadata_item *parse_yaml_metadata(const char *text, size_t *consumed) {
+static apex_metadata_item *parse_yaml_metadata(const char *text, size_t *consumed, bool to_end) {
     apex_metadata_item *items = NULL;
+    const char *line_start, *content_end, *after;
+
+    if (!find_yaml_block(text, to_end, &line_start, &content_end, &after)) return NULL;
+    *consumed = (size_t)(after - text);
+
 #ifdef APEX_HAVE_LIBYAML
     /* Try libyaml first for full YAML support */
-    size_t text_len = strlen(text);
-    items = parse_yaml_with_libyaml(text, text_len, consumed);
+    items = parse_yaml_with_libyaml(line_start, (size_t)(content_end - line_start));
     if (items) {
         return items;
     }
     /* Fall through to simple parser if libyaml parsing failed */
 #endif
-    const char *line_start = text;
-    const char *line_end;
-
-    /* Skip opening --- */
-    if (strncmp(text, "---", 3) != 0) return NULL;
-    line_start = strchr(text + 3, '\n');
-    if (!line_start) return NULL;
-    line_start++;
-
-    while ((line_end = strchr(line_start, '\n')) != NULL) {
-        size_t len = line_end - line_start;
-        char line[1024];
+    char *line = malloc((size_t)(content_end - line_start) + 1);
+    if (!line) return NULL;
 
-        if (len >= sizeof(line)) len = sizeof(line) - 1;
+    while (line_start < content_end) {
+        const char *line_end = memchr(line_start, '\n', (size_t)(content_end - line_start));
+        if (!line_end) line_end = content_end;
+        size_t len = (size_t)(line_end - line_start);
         memcpy(line, line_start, len);
         line[len] = '\0';
 
-        /* Check for closing --- or ... */
-        char *trimmed = trim_whitespace(line);
-        if (strcmp(trimmed, "---") == 0 || strcmp(trimmed, "...") == 0) {
-            *consumed = (line_end + 1) - text;
-            return items;
-        }
-
         /* Parse key: value */
         char *colon = strchr(line, ':');
         if (colon) {
             *colon = '\0';
             char *key = trim_whitespace(line);
-            char *value_ptr = trim_whitespace(colon + 1);
-
-            char final_value[1024] = {0};
-            strncpy(final_value, value_ptr, sizeof(final_value) - 1);
+            char *value = trim_whitespace(colon + 1);
 
             /* Strip quotes from value if present */
-            size_t value_len = strlen(final_value);
-            if (value_len >= 2 && ((final_value[0] == '"' && final_value[value_len - 1] == '"') ||
-                                   (final_value[0] == '\'' && final_value[value_len - 1] == '\''))) {
-                final_value[value_len - 1] = '\0';
-                memmove(final_value, final_value + 1, value_len - 1);
+            size_t value_len = strlen(value);
+            if (value_len >= 2 && ((value[0] == '"' && value[value_len - 1] == '"') ||
+                                   (value[0] == '\'' && value[value_len - 1] == '\''))) {
+                value[value_len - 1] = '\0';
+                value++;
                 /* Re-trim after removing quotes */
-                trim_whitespace(final_value);
-                value_len = strlen(final_value);
+                trim_whitespace(value);
             }
 
             if (*key) {
-                add_metadata_item(&items, key, final_value);
+                add_metadata_item(&items, key, value);
             }
         }
 
-        line_start = line_end + 1;
+        line_start = line_end < content_end ? line_end + 1 : content_end;
     }
 
+    free(line);
     return items;
 }
 
 /**
  * Parse MultiMarkdown metadata
  * Format: key: value pairs at start of document, blank line to end
+ * line is scratch space for the longest line of the text.
  */
-static apex_metadata_item *parse_mmd_metadata(const char *text, size_t *consumed) {
+static apex_metadata_item *parse_mmd_metadata_lines(const char *text, size_t *consumed, char *line) {
     apex_metadata_item *items = NULL;
     const char *line_start = text;
     const char *line_end;
     bool found_metadata = false;
 
-    while ((line_end = strchr(line_start, '\n')) != NULL) {
+    while (*line_start) {
+        line_end = strchr(line_start, '\n');
+        if (!line_end) {
+            /* A document that is a single unterminated line is text */
+            if (!found_metadata) break;
+            line_end = line_start + strlen(line_start);
+        }
         size_t len = line_end - line_start;
-        char line[1024];
-
-        if (len >= sizeof(line)) len = sizeof(line) - 1;
+        const char *next_line = *line_end ? line_end + 1 : line_end;
         memcpy(line, line_start, len);
         line[len] = '\0';
 
@@ -415,11 +411,11 @@ static apex_metadata_item *parse_mmd_metadata(const char *text, size_t *consumed
         char *trimmed = trim_whitespace(line);
         if (*trimmed == '\0') {
             if (found_metadata) {
-                *consumed = (line_end + 1) - text;
+                *consumed = next_line - text;
                 return items;
             }
             /* Skip leading blank lines */
-            line_start = line_end + 1;
+            line_start = next_line;
             continue;
         }
 
@@ -431,9 +427,9 @@ static apex_metadata_item *parse_mmd_metadata(const char *text, size_t *consumed
                 *consumed = line_start - text;
                 return items;
             }
-            /* Haven't found metadata yet, skip this line */
-            line_start = line_end + 1;
-            continue;
+            /* Metadata starts the document, so there is none */
+            *consumed = 0;
+            return NULL;
         }
 
         /* Skip HTML comments (<!--...-->) */
@@ -443,9 +439,9 @@ static apex_metadata_item *parse_mmd_metadata(const char *text, size_t *consumed
                 *consumed = line_start - text;
                 return items;
             }
-            /* Haven't found metadata yet, skip this line */
-            line_start = line_end + 1;
-            continue;
+            /* Metadata starts the document, so there is none */
+            *consumed = 0;
+            return NULL;
         }
 
         /* Skip Kramdown markers ({::...}) */
@@ -455,9 +451,9 @@ static apex_metadata_item *parse_mmd_metadata(const char *text, size_t *consumed
                 *consumed = line_start - text;
                 return items;
             }
-            /* Haven't found metadata yet, skip this line */
-            line_start = line_end + 1;
-            continue;
+            /* Metadata starts the document, so there is none */
+            *consumed = 0;
+            return NULL;
         }
 
         /* Skip Markdown headings (# or ##) */
@@ -467,9 +463,9 @@ static apex_metadata_item *parse_mmd_metadata(const char *text, size_t *consumed
                 *consumed = line_start - text;
                 return items;
             }
-            /* Haven't found metadata yet, skip this line */
-            line_start = line_end + 1;
-            continue;
+            /* Metadata starts the document, so there is none */
+            *consumed = 0;
+            return NULL;
         }
 
         /* Skip IAL/ALD syntax ({: ...}) */
@@ -479,9 +475,9 @@ static apex_metadata_item *parse_mmd_metadata(const char *text, size_t *consumed
                 *consumed = line_start - text;
                 return items;
             }
-            /* Haven't found metadata yet, skip this line */
-            line_start = line_end + 1;
-            continue;
+            /* Metadata starts the document, so there is none */
+            *consumed = 0;
+            return NULL;
         }
 
         /* Skip Leanpub index syntax ({i: term}) - colon would be parsed as metadata key:value */
@@ -501,9 +497,9 @@ static apex_metadata_item *parse_mmd_metadata(const char *text, size_t *consumed
                 *consumed = line_start - text;
                 return items;
             }
-            /* Haven't found metadata yet, skip this line */
-            line_start = line_end + 1;
-            continue;
+            /* Metadata starts the document, so there is none */
+            *consumed = 0;
+            return NULL;
         }
 
         /* Skip list markers (-, +, *, or numbered lists) */
@@ -540,6 +536,17 @@ static apex_metadata_item *parse_mmd_metadata(const char *text, size_t *consumed
             }
         }
 
+        /* Keys start with a letter or digit: link and footnote definitions, quotes, table rows
+         * and other markup that happens to contain a colon are not metadata */
+        if (!isalnum((unsigned char)*trimmed) && *trimmed != '_' && (unsigned char)*trimmed < 0x80) {
+            if (found_metadata) {
+                *consumed = line_start - text;
+                return items;
+            }
+            *consumed = 0;
+            return NULL;
+        }
+
         /* Parse key: value */
         char *colon = strchr(line, ':');
         if (colon) {
@@ -554,22 +561,7 @@ static apex_metadata_item *parse_mmd_metadata(const char *text, size_t *consumed
                 *consumed = 0;
                 return NULL;
             }
-            /* Check if there's a protocol (http://, https://, mailto:) BEFORE the colon */
-            /* If so, this is likely a URL in the key, not metadata */
             size_t key_len = (size_t)(colon - line);
-            if (key_len >= 7 && (
-                (key_len >= 7 && strncmp(line, "http://", 7) == 0) ||
-                (key_len >= 8 && strncmp(line, "https://", 8) == 0) ||
-                (key_len >= 7 && strncmp(line, "mailto:", 7) == 0) ||
-                strstr(line, "://") != NULL)) {
-                /* Protocol found before colon - this is a URL, not metadata */
-                if (found_metadata) {
-                    *consumed = line_start - text;
-                    return items;
-                }
-                *consumed = 0;
-                return NULL;
-            }
 
             /* Check if there's a < character BEFORE the colon (HTML/autolink in key) */
             if (memchr(line, '<', key_len) != NULL) {
@@ -645,7 +637,7 @@ static apex_metadata_item *parse_mmd_metadata(const char *text, size_t *consumed
             return NULL;
         }
 
-        line_start = line_end + 1;
+        line_start = next_line;
     }
 
     if (found_metadata) {
@@ -654,6 +646,14 @@ static apex_metadata_item *parse_mmd_metadata(const char *text, size_t *consumed
     return items;
 }
 
+static apex_metadata_item *parse_mmd_metadata(const char *text, size_t *consumed) {
+    char *line = malloc(strlen(text) + 1);
+    if (!line) return NULL;
+    apex_metadata_item *items = parse_mmd_metadata_lines(text, consumed, line);
+    free(line);
+    return items;
+}
+
 /**
  * Parse Pandoc title block metadata
  * Format: % Title, % Author, % Date as first three lines
@@ -665,11 +665,13 @@ static apex_metadata_item *parse_pandoc_metadata(const char *text, size_t *consu
     const char *line_start = text;
     const char *line_end;
 
-    while (key_index < 3 && (line_end = strchr(line_start, '\n')) != NULL) {
-        size_t len = line_end - line_start;
-        char line[1024];
+    char *line = malloc(strlen(text) + 1);
+    if (!line) return NULL;
 
-        if (len >= sizeof(line)) len = sizeof(line) - 1;
+    while (key_index < 3 && *line_start) {
+        line_end = strchr(line_start, '\n');
+        if (!line_end) line_end = line_start + strlen(line_start);
+        size_t len = line_end - line_start;
         memcpy(line, line_start, len);
         line[len] = '\0';
 
@@ -687,8 +689,9 @@ static apex_metadata_item *parse_pandoc_metadata(const char *text, size_t *consu
             break;
         }
 
-        line_start = line_end + 1;
+        line_start = *line_end ? line_end + 1 : line_end;
     }
+    free(line);
 
     if (key_index > 0) {
         *consumed = line_start - text;
@@ -710,7 +713,7 @@ apex_metadata_item *apex_extract_metadata(char **text_ptr) {
 
     /* Try YAML first (most explicit) */
     if (strncmp(text, "---", 3) == 0) {
-        items = parse_yaml_metadata(text, &consumed);
+        items = parse_yaml_metadata(text, &consumed, false);
     }
     /* Try Pandoc */
     else if (*text == '%') {
@@ -2165,7 +2168,7 @@ apex_metadata_item *apex_load_metadata_from_file(const char *filepath) {
         return NULL;
     }
 
-    char *buffer = malloc(file_size + 1);
+    char *buffer = malloc(file_size + 2);
     if (!buffer) {
         fclose(fp);
         return NULL;
@@ -2174,6 +2177,11 @@ apex_metadata_item *apex_load_metadata_from_file(const char *filepath) {
     size_t bytes_read = fread(buffer, 1, file_size, fp);
     buffer[bytes_read] = '\0';
     fclose(fp);
+    if (bytes_read > 0 && buffer[bytes_read - 1] != '\n') {
+        /* The last line of a file may lack its line end */
+        buffer[bytes_read] = '\n';
+        buffer[bytes_read + 1] = '\0';
+    }
 
     apex_metadata_item *items = NULL;
     size_t consumed = 0;
@@ -2181,7 +2189,7 @@ apex_metadata_item *apex_load_metadata_from_file(const char *filepath) {
     /* Auto-detect format */
     if (strncmp(buffer, "---", 3) == 0) {
         /* YAML format */
-        items = parse_yaml_metadata(buffer, &consumed);
+        items = parse_yaml_metadata(buffer, &consumed, true);
     } else if (buffer[0] == '%') {
         /* Pandoc format */
         items = parse_pandoc_metadata(buffer, &consumed);
-- 
2.43.0


From 262636712b56485899f0b5356570d400eaf8e11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:09 +0000
Subject: [PATCH 26/66] fix: metadata transforms are UTF-8 aware, bounded, and
 cope with empty matches and foreign formats

---
 src/extensions/metadata.c | 217 ++++++++++++++++++++++++--------------
 1 file changed, 136 insertions(+), 81 deletions(-)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index 57a28c1..6a0113a 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -988,7 +988,7 @@ static bool parse_date(const char *date_str, struct tm *tm_out) {
     /* Manual parsing fallback */
     int year = 0, mon = 0, mday = 0, hour = 0, min = 0, sec = 0;
     int items = sscanf(date_str, "%d-%d-%d %d:%d:%d", &year, &mon, &mday, &hour, &min, &sec);
-    if (items >= 3) {
+    if (items >= 3 && mon >= 1 && mon <= 12 && mday >= 1 && mday <= 31 && year >= 0 && year <= 9999) {
         /* At least got date part */
         tm_out->tm_year = year - 1900;  /* tm_year is years since 1900 */
         tm_out->tm_mon = mon - 1;       /* tm_mon is 0-based */
@@ -996,6 +996,12 @@ static bool parse_date(const char *date_str, struct tm *tm_out) {
         if (items >= 4) tm_out->tm_hour = hour;
         if (items >= 5) tm_out->tm_min = min;
         if (items >= 6) tm_out->tm_sec = sec;
+        /* Day of the year and of the week */
+        static const int month_days[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
+        bool leap = (year % 4 == 0 && year % 100 != 0) || year % 400 == 0;
+        int y = year + 399;  /* 400 years are a whole number of weeks */
+        tm_out->tm_yday = month_days[mon - 1] + (leap && mon > 2 ? 1 : 0) + mday - 1;
+        tm_out->tm_wday = (y + y / 4 - y / 100 + y / 400 + tm_out->tm_yday + 1) % 7;
         return true;
     }
     #endif
@@ -1090,12 +1096,20 @@ static apex_string_array *split_string(const char *str, const char *delimiter_pa
         return split_string_simple(str, fallback);
     }
 
-    const char *search_pos = str;
+    const char *search_pos = str;  /* Start of the current token */
+    const char *scan = str;
     regmatch_t matches[1];
 
-    while (regexec(&regex, search_pos, 1, matches, 0) == 0) {
+    while (*scan && regexec(&regex, scan, 1, matches, scan > str ? REG_NOTBOL : 0) == 0) {
+        if (matches[0].rm_eo == matches[0].rm_so) {
+            /* An empty match separates nothing: look for a delimiter further on */
+            scan += matches[0].rm_eo;
+            if (*scan) scan++;
+            continue;
+        }
+
         /* Extract token before match */
-        size_t token_len = (size_t)matches[0].rm_so;
+        size_t token_len = (size_t)(scan + matches[0].rm_so - search_pos);
         if (token_len > 0) {
             if (arr->count >= arr->capacity) {
                 arr->capacity *= 2;
@@ -1136,8 +1150,8 @@ static apex_string_array *split_string(const char *str, const char *delimiter_pa
             free(token);
         }
 
-        search_pos += matches[0].rm_eo;
-        if (*search_pos == '\0') break;
+        scan += matches[0].rm_eo;
+        search_pos = scan;
     }
 
     /* Handle remaining text after last match */
@@ -1187,6 +1201,49 @@ static apex_string_array *split_string(const char *str, const char *delimiter_pa
     return arr;
 }
 
+/* Transforms count characters, not bytes: a UTF-8 continuation byte belongs to the byte before it */
+#define UTF8_CONT(c) (((unsigned char)(c) & 0xC0) == 0x80)
+
+static const char *utf8_skip(const char *s, size_t n) {
+    while (n > 0 && *s) {
+        s++;
+        while (UTF8_CONT(*s)) s++;
+        n--;
+    }
+    return s;
+}
+
+static size_t utf8_count(const char *s) {
+    size_t n = 0;
+    while (*s) {
+        s = utf8_skip(s, 1);
+        n++;
+    }
+    return n;
+}
+
+/* Longest value repeat() and pad() may produce */
+#define MAX_TRANSFORM_RESULT (1024 * 1024)
+
+/* True if fmt has exactly one conversion and it takes a double (%% is literal) */
+static bool is_double_format(const char *fmt) {
+    int conversions = 0;
+    for (const char *p = fmt; *p; p++) {
+        if (*p != '%') continue;
+        p++;
+        if (*p == '%') continue;
+        p += strspn(p, "-+ #0'");
+        p += strspn(p, "0123456789");
+        if (*p == '.') {
+            p++;
+            p += strspn(p, "0123456789");
+        }
+        if (!*p || !strchr("fFeEgGaA", *p)) return false;
+        conversions++;
+    }
+    return conversions == 1;
+}
+
 /**
  * Apply a single transform to a value
  * Returns newly allocated string, or NULL on error
@@ -1262,6 +1319,8 @@ static char *apply_transform(const char *transform_name, const char *options,
             *is_array = true;
         }
         apex_string_array *arr = *array_ptr;
+        /* The result is a single value again */
+        *is_array = false;
         if (arr->count == 0) return strdup("");
         return strdup(arr->items[0]);
     }
@@ -1276,6 +1335,8 @@ static char *apply_transform(const char *transform_name, const char *options,
             *is_array = true;
         }
         apex_string_array *arr = *array_ptr;
+        /* The result is a single value again */
+        *is_array = false;
         if (arr->count == 0) return strdup("");
         return strdup(arr->items[arr->count - 1]);
     }
@@ -1283,7 +1344,7 @@ static char *apply_transform(const char *transform_name, const char *options,
     if (strcmp(transform_name, "slice") == 0) {
         if (!*is_array || !*array_ptr) {
             /* Not an array yet - split string into individual characters */
-            size_t value_len = strlen(value);
+            size_t value_len = utf8_count(value);
             apex_string_array *arr = calloc(1, sizeof(apex_string_array));
             if (!arr) return NULL;
 
@@ -1304,14 +1365,17 @@ static char *apply_transform(const char *transform_name, const char *options,
                     return NULL;
                 }
 
+                const char *ch = value;
                 for (size_t i = 0; i < value_len; i++) {
-                    arr->items[i] = malloc(2);
+                    const char *ch_end = utf8_skip(ch, 1);
+                    arr->items[i] = malloc((size_t)(ch_end - ch) + 1);
                     if (!arr->items[i]) {
                         free_string_array(arr);
                         return NULL;
                     }
-                    arr->items[i][0] = value[i];
-                    arr->items[i][1] = '\0';
+                    memcpy(arr->items[i], ch, (size_t)(ch_end - ch));
+                    arr->items[i][ch_end - ch] = '\0';
+                    ch = ch_end;
                     arr->count++;
                 }
             }
@@ -1328,14 +1392,13 @@ static char *apply_transform(const char *transform_name, const char *options,
             apex_string_array *arr = *array_ptr;
             if (start < 0) start = 0;
             if (start >= (long)arr->count) return strdup("");
-            if (len < 0) len = (long)arr->count - start;
-            if (len > 0 && (size_t)(start + len) > arr->count) len = (long)arr->count - start;
+            if (len < 0 || len > (long)arr->count - start) len = (long)arr->count - start;
 
             /* Create new array with slice */
             apex_string_array *slice = calloc(1, sizeof(apex_string_array));
             if (!slice) return NULL;
             slice->capacity = len;
-            slice->items = malloc(len * sizeof(char*));
+            slice->items = malloc((len ? len : 1) * sizeof(char*));
             if (!slice->items) {
                 free(slice);
                 return NULL;
@@ -1571,46 +1634,37 @@ static char *apply_transform(const char *transform_name, const char *options,
             int ret = regcomp(&regex, old_pattern, REG_EXTENDED);
             if (ret == 0) {
                 regmatch_t matches[1];
-                /* Count matches first to estimate size */
-                size_t count = 0;
-                const char *search_pos = value;
-                while (regexec(&regex, search_pos, 1, matches, 0) == 0) {
-                    count++;
-                    search_pos += matches[0].rm_eo;
-                    if (*search_pos == '\0') break;
-                }
+                size_t repl_len = strlen(new_str);
+                /* At most one match per character and one at the end */
+                size_t result_cap = strlen(value) + (strlen(value) + 1) * repl_len + 1;
+                result = malloc(result_cap);
+                if (result) {
+                    char *out = result;
+                    const char *search_pos = value;
 
-                if (count > 0) {
-                    /* Build result with replacements */
-                    size_t result_cap = strlen(value) + count * (strlen(new_str) + 10);
-                    result = malloc(result_cap);
-                    if (result) {
-                        char *out = result;
-                        const char *src = value;
-
-                        search_pos = src;
-                        while (regexec(&regex, search_pos, 1, matches, 0) == 0) {
-                            /* Copy text before match */
-                            size_t before_len = matches[0].rm_so;
-                            memcpy(out, search_pos, before_len);
-                            out += before_len;
-
-                            /* Copy replacement */
-                            size_t repl_len = strlen(new_str);
-                            memcpy(out, new_str, repl_len);
-                            out += repl_len;
-
-                            search_pos += matches[0].rm_eo;
-                        }
+                    while (regexec(&regex, search_pos, 1, matches,
+                                   search_pos > value ? REG_NOTBOL : 0) == 0) {
+                        /* Copy text before match */
+                        size_t before_len = (size_t)matches[0].rm_so;
+                        memcpy(out, search_pos, before_len);
+                        out += before_len;
 
-                        /* Copy remaining text */
-                        strcpy(out, search_pos);
-                    } else {
-                        /* Malloc failed, return original */
-                        result = strdup(value);
+                        /* Copy replacement */
+                        memcpy(out, new_str, repl_len);
+                        out += repl_len;
+
+                        search_pos += matches[0].rm_eo;
+                        if (*search_pos == '\0') break;
+                        if (matches[0].rm_eo == matches[0].rm_so) {
+                            /* Empty match: go on after the next character */
+                            *out++ = *search_pos++;
+                        }
                     }
+
+                    /* Copy remaining text */
+                    strcpy(out, search_pos);
                 } else {
-                    /* No matches, return original */
+                    /* Malloc failed, return original */
                     result = strdup(value);
                 }
 
@@ -1675,21 +1729,22 @@ static char *apply_transform(const char *transform_name, const char *options,
     if (strcmp(transform_name, "substring") == 0 || strcmp(transform_name, "substr") == 0) {
         if (!options) return strdup(value);
 
-        long start = 0, end = -1;
-        if (sscanf(options, "%ld,%ld", &start, &end) >= 1) {
-            size_t len = strlen(value);
+        long start = 0, end = 0;
+        int given = sscanf(options, "%ld,%ld", &start, &end);
+        if (given >= 1) {
+            long len = (long)utf8_count(value);
+            if (given < 2) end = len;  /* Up to the end of the value */
             if (start < 0) start = len + start;  /* Negative index from end */
             if (end < 0) end = len + end;
             if (start < 0) start = 0;
-            if (end < 0) end = (long)len;
-            if (start > (long)len) start = len;
-            if (end > (long)len) end = len;
-            if (start > end) return strdup("");
+            if (end > len) end = len;
+            if (start >= end) return strdup("");
 
-            size_t substr_len = end - start;
+            const char *from = utf8_skip(value, (size_t)start);
+            size_t substr_len = (size_t)(utf8_skip(from, (size_t)(end - start)) - from);
             char *result = malloc(substr_len + 1);
             if (!result) return NULL;
-            memcpy(result, value + start, substr_len);
+            memcpy(result, from, substr_len);
             result[substr_len] = '\0';
             return result;
         }
@@ -1703,11 +1758,12 @@ static char *apply_transform(const char *transform_name, const char *options,
         char suffix[64] = "";
         if (sscanf(options, "%ld,%63s", &max_len, suffix) >= 1 ||
             sscanf(options, "%ld", &max_len) == 1) {
-            size_t len = strlen(value);
-            if ((long)len <= max_len) return strdup(value);
+            if (max_len < 0 || (long)utf8_count(value) <= max_len) return strdup(value);
 
             size_t suffix_len = strlen(suffix);
-            size_t trunc_len = max_len > (long)suffix_len ? max_len - suffix_len : max_len;
+            long suffix_chars = (long)utf8_count(suffix);
+            long keep = max_len > suffix_chars ? max_len - suffix_chars : max_len;
+            size_t trunc_len = (size_t)(utf8_skip(value, (size_t)keep) - value);
 
             char *result = malloc(trunc_len + suffix_len + 1);
             if (!result) return NULL;
@@ -1741,15 +1797,7 @@ static char *apply_transform(const char *transform_name, const char *options,
                 case '>': strcpy(out, "&gt;"); out += 4; break;
                 case '"': strcpy(out, "&quot;"); out += 6; break;
                 case '\'': strcpy(out, "&#39;"); out += 5; break;
-                default:
-                    if (c >= 32 && c < 127) {
-                        *out++ = (char)c;
-                    } else {
-                        /* Encode other characters as entities */
-                        int written = snprintf(out, 16, "&#%u;", c);
-                        if (written > 0) out += written;
-                    }
-                    break;
+                default: *out++ = (char)c; break;
             }
         }
         *out = '\0';
@@ -1857,6 +1905,7 @@ static char *apply_transform(const char *transform_name, const char *options,
         if (sscanf(options, "%ld", &count) == 1 && count > 0) {
             size_t value_len = strlen(value);
             if (value_len == 0) return strdup("");
+            if ((size_t)count > MAX_TRANSFORM_RESULT / value_len) return strdup(value);
 
             char *result = malloc(value_len * count + 1);
             if (!result) return NULL;
@@ -1877,10 +1926,14 @@ static char *apply_transform(const char *transform_name, const char *options,
         char *result = malloc(len + 1);
         if (!result) return NULL;
 
-        for (size_t i = 0; i < len; i++) {
-            result[i] = value[len - 1 - i];
+        char *out = result + len;
+        *out = '\0';
+        for (const char *ch = value; *ch; ) {
+            const char *ch_end = utf8_skip(ch, 1);
+            out -= ch_end - ch;
+            memcpy(out, ch, (size_t)(ch_end - ch));
+            ch = ch_end;
         }
-        result[len] = '\0';
         return result;
     }
 
@@ -1889,7 +1942,7 @@ static char *apply_transform(const char *transform_name, const char *options,
 
         /* Try to parse as number for formatting */
         double num = 0.0;
-        if (sscanf(value, "%lf", &num) == 1) {
+        if (is_double_format(options) && sscanf(value, "%lf", &num) == 1) {
             char buffer[256];
             int written = snprintf(buffer, sizeof(buffer), options, num);
             if (written > 0 && written < (int)sizeof(buffer)) {
@@ -1902,7 +1955,7 @@ static char *apply_transform(const char *transform_name, const char *options,
 
     if (strcmp(transform_name, "length") == 0) {
         char buffer[32];
-        snprintf(buffer, sizeof(buffer), "%zu", strlen(value));
+        snprintf(buffer, sizeof(buffer), "%zu", utf8_count(value));
         return strdup(buffer);
     }
 
@@ -1914,15 +1967,16 @@ static char *apply_transform(const char *transform_name, const char *options,
         if (sscanf(options, "%ld,%c", &width, &pad_char) >= 1 ||
             sscanf(options, "%ld", &width) == 1) {
             size_t len = strlen(value);
-            if ((long)len >= width) return strdup(value);
+            size_t chars = utf8_count(value);
+            if (width <= (long)chars || width > MAX_TRANSFORM_RESULT) return strdup(value);
 
-            size_t pad_count = width - len;
-            char *result = malloc(width + 1);
+            size_t pad_count = (size_t)width - chars;
+            char *result = malloc(pad_count + len + 1);
             if (!result) return NULL;
 
             memset(result, pad_char, pad_count);
             memcpy(result + pad_count, value, len);
-            result[width] = '\0';
+            result[pad_count + len] = '\0';
             return result;
         }
         return strdup(value);
@@ -2011,8 +2065,9 @@ char *apex_metadata_replace_variables(const char *text, apex_metadata_item *meta
         }
 
         if (!*end && bracket_depth > 0) {
-            /* Malformed - no matching closing bracket found */
-            break;
+            /* Malformed - no matching closing bracket found: text, but variables may follow */
+            p += 2;
+            continue;
         }
 
         /* Copy text before [%...] */
-- 
2.43.0


From 76384e479920c9e4431006a0e81077b6a9d0bf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:09 +0000
Subject: [PATCH 27/66] fix: --meta values with commas, merge precedence with
 missing lists and differently spelled keys

---
 cli/main.c                | 19 ++++------
 src/extensions/metadata.c | 80 +++++++++++++++------------------------
 2 files changed, 37 insertions(+), 62 deletions(-)

diff --git a/cli/main.c b/cli/main.c
index 253e626..82d2b07 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -3072,12 +3072,10 @@ int main(int argc, char *argv[]) {
     }
 
     if (global_config_meta || project_config_meta || explicit_file_meta) {
-        file_metadata = apex_merge_metadata(
-            global_config_meta,
-            project_config_meta,
-            explicit_file_meta,
-            NULL
-        );
+        /* A source may be missing, and NULL ends the argument list: merge one at a time */
+        apex_metadata_item *config_meta = apex_merge_metadata(global_config_meta, project_config_meta, NULL);
+        file_metadata = apex_merge_metadata(config_meta, explicit_file_meta, NULL);
+        apex_free_metadata(config_meta);
     }
 
     if (global_config_meta) apex_free_metadata(global_config_meta);
@@ -3117,12 +3115,9 @@ int main(int argc, char *argv[]) {
     PROFILE_START(metadata_merge);
     apex_metadata_item *merged_metadata = NULL;
     if (file_metadata || doc_metadata || cmdline_metadata) {
-        merged_metadata = apex_merge_metadata(
-            file_metadata,
-            doc_metadata,
-            cmdline_metadata,
-            NULL
-        );
+        apex_metadata_item *input_meta = apex_merge_metadata(file_metadata, doc_metadata, NULL);
+        merged_metadata = apex_merge_metadata(input_meta, cmdline_metadata, NULL);
+        apex_free_metadata(input_meta);
     }
     PROFILE_END(metadata_merge);
 
diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index 6a0113a..a8402d6 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -2273,10 +2273,12 @@ static int parse_key_value_pair(const char *input, char **key_out, char **value_
     if (!*key_out) return 0;
     memcpy(*key_out, input, key_len);
     (*key_out)[key_len] = '\0';
-    trim_whitespace(*key_out);
+    char *key = trim_whitespace(*key_out);
+    memmove(*key_out, key, strlen(key) + 1);
 
     /* Extract value */
     const char *value_start = equals + 1;
+    while (isspace((unsigned char)*value_start)) value_start++;
 
     /* Check if value is quoted */
     if (*value_start == '"' || *value_start == '\'') {
@@ -2297,12 +2299,8 @@ static int parse_key_value_pair(const char *input, char **key_out, char **value_
         memcpy(*value_out, value_start, value_len);
         (*value_out)[value_len] = '\0';
     } else {
-        /* Unquoted value - take until comma or end */
-        const char *value_end = strchr(value_start, ',');
-        if (!value_end) {
-            value_end = value_start + strlen(value_start);
-        }
-        size_t value_len = value_end - value_start;
+        /* Unquoted value - the caller has already found where the pair ends */
+        size_t value_len = strlen(value_start);
         *value_out = malloc(value_len + 1);
         if (!*value_out) {
             free(*key_out);
@@ -2337,6 +2335,7 @@ apex_metadata_item *apex_parse_command_metadata(const char *arg) {
 
         /* Find where this KEY=VALUE pair ends */
         const char *value_start = equals + 1;
+        while (isspace((unsigned char)*value_start)) value_start++;
         const char *pair_end = NULL;
 
         /* Check if value is quoted */
@@ -2345,6 +2344,7 @@ apex_metadata_item *apex_parse_command_metadata(const char *arg) {
             const char *quote_end = strchr(value_start + 1, quote);
             if (quote_end) {
                 pair_end = quote_end + 1;
+                while (isspace((unsigned char)*pair_end)) pair_end++;
             } else {
                 /* Unmatched quote - take rest of string */
                 pair_end = p + strlen(p);
@@ -2352,11 +2352,9 @@ apex_metadata_item *apex_parse_command_metadata(const char *arg) {
         } else {
             /* Unquoted value - find next comma that's followed by KEY= pattern
              * We look for comma followed by whitespace and then KEY= */
-            const char *search = value_start;
             pair_end = p + strlen(p);  /* Default to end of string */
 
-            const char *comma = strchr(search, ',');
-            if (comma) {
+            for (const char *comma = strchr(value_start, ','); comma; comma = strchr(comma + 1, ',')) {
                 /* Found a comma - check if it starts a new KEY= pair */
                 const char *after_comma = comma + 1;
                 while (*after_comma && isspace((unsigned char)*after_comma)) after_comma++;
@@ -2370,6 +2368,7 @@ apex_metadata_item *apex_parse_command_metadata(const char *arg) {
                         if (!comma_between || comma_between > next_equals) {
                             /* This comma starts the next KEY= pair */
                             pair_end = comma;
+                            break;
                         }
                     }
                 }
@@ -2414,51 +2413,32 @@ apex_metadata_item *apex_parse_command_metadata(const char *arg) {
  */
 apex_metadata_item *apex_merge_metadata(apex_metadata_item *first, ...) {
     apex_metadata_item *result = NULL;
-
-    /* Start with a copy of the first list (if any) */
-    apex_metadata_item *src;
-    if (first) {
-        src = first;
-        while (src) {
-            add_metadata_item(&result, src->key, src->value);
-            src = src->next;
-        }
-    }
-
-    /* Merge remaining lists */
     va_list args;
     va_start(args, first);
 
-    apex_metadata_item *next_list;
-    while ((next_list = va_arg(args, apex_metadata_item*)) != NULL) {
-        /* For each item in next_list, add or replace in result */
-        src = next_list;
-        while (src) {
-            /* Remove existing item with same key (case-insensitive) */
-            apex_metadata_item *prev = NULL;
-            apex_metadata_item *curr = result;
-            while (curr) {
-                if (strcasecmp(curr->key, src->key) == 0) {
-                    /* Remove this item */
-                    if (prev) {
-                        prev->next = curr->next;
-                    } else {
-                        result = curr->next;
-                    }
-                    free(curr->key);
-                    free(curr->value);
-                    apex_metadata_item *to_free = curr;
-                    curr = curr->next;
-                    free(to_free);
-                    break;
-                }
-                prev = curr;
-                curr = curr->next;
+    for (apex_metadata_item *list = first;;) {
+        /* Drop the keys that this list overrides */
+        for (apex_metadata_item **link = &result; *link; ) {
+            apex_metadata_item *curr = *link;
+            if (apex_metadata_get(list, curr->key)) {
+                *link = curr->next;
+                free(curr->key);
+                free(curr->value);
+                free(curr);
+            } else {
+                link = &curr->next;
             }
-            /* Add new item */
-            add_metadata_item(&result, src->key, src->value);
-            src = src->next;
         }
+        /* Put a copy of the list in front, in its own order: lookups take the first match */
+        apex_metadata_item **front = &result;
+        for (apex_metadata_item *src = list; src; src = src->next) {
+            apex_metadata_item *rest = *front;
+            add_metadata_item(front, src->key, src->value);
+            if (*front != rest) front = &(*front)->next;
+        }
+
+        list = va_arg(args, apex_metadata_item*);
+        if (!list) break;
     }
 
     va_end(args);
-- 
2.43.0


From 8b6b048d3439457c914558b3c649175efdcaa8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:09 +0000
Subject: [PATCH 28/66] fix: per-cell-alignment, emoji-autocorrect and
 wikilink-sanitize can be set from metadata

---
 src/extensions/metadata.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index a8402d6..c43ee16 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -2563,6 +2563,18 @@ void apex_apply_metadata_to_options(apex_metadata_item *metadata, apex_options *
             } else if (is_false_value(value)) {
                 options->relaxed_tables = false;
             }
+        } else if (strcasecmp(key, "per-cell-alignment") == 0 || strcasecmp(key, "per_cell_alignment") == 0) {
+            if (is_true_value(value)) {
+                options->per_cell_alignment = true;
+            } else if (is_false_value(value)) {
+                options->per_cell_alignment = false;
+            }
+        } else if (strcasecmp(key, "emoji-autocorrect") == 0 || strcasecmp(key, "emoji_autocorrect") == 0) {
+            if (is_true_value(value)) {
+                options->enable_emoji_autocorrect = true;
+            } else if (is_false_value(value)) {
+                options->enable_emoji_autocorrect = false;
+            }
         } else if (strcasecmp(key, "alpha-lists") == 0 || strcasecmp(key, "alpha_lists") == 0) {
             if (is_true_value(value)) {
                 options->allow_alpha_lists = true;
@@ -2844,7 +2856,11 @@ void apex_apply_metadata_to_options(apex_metadata_item *metadata, apex_options *
         } else if (strcasecmp(key, "wikilink-extension") == 0 || strcasecmp(key, "wikilink_extension") == 0) {
             options->wikilink_extension = value;
         } else if (strcasecmp(key, "wikilink-sanitize") == 0 || strcasecmp(key, "wikilink_sanitize") == 0) {
-            options->wikilink_sanitize = (strcasecmp(value, "true") == 0 || strcmp(value, "1") == 0);
+            if (is_true_value(value)) {
+                options->wikilink_sanitize = true;
+            } else if (is_false_value(value)) {
+                options->wikilink_sanitize = false;
+            }
         }
         /* Terminal-specific options from config/metadata.
          * Keys are typically flattened from YAML mappings, e.g.:
-- 
2.43.0


From a1b782410b0ef05eb8514606ffb0fe6049c9835f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:50 +0000
Subject: [PATCH 29/66] fix: autolinks skip all code, HTML and links, and leave
 trailing punctuation out of the URL

---
 src/apex.c | 717 +++++++++++++++++------------------------------------
 1 file changed, 228 insertions(+), 489 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index 9ec4a63..2d5fed6 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -485,525 +485,264 @@ static char *apex_embed_images(const char *html, const apex_options *options, co
     return output;
 }
 
-/**
- * Preprocess angle-bracket autolinks (<http://...>) into explicit links
- * and convert bare URLs/emails to explicit links so they survive
- * custom rendering paths.
- * Skips processing inside code spans (`...`) and code blocks (```...```).
- */
-static char *apex_preprocess_autolinks(const char *text, const apex_options *options) {
-    if (!text || !options || !options->enable_autolink) return NULL;
-
-    size_t len = strlen(text);
-    /* Worst case: every character becomes part of a [url](url) */
-    size_t cap = len * 4 + 1;
-    char *out = malloc(cap);
-    if (!out) return NULL;
-
-    const char *r = text;
-    char *w = out;
-    bool in_code_block = false;
-    bool in_inline_code = false;
-    int code_block_backticks = 0;  /* Count of consecutive backticks for code blocks */
-    bool in_liquid = false;
-    bool in_markdown_link_url = false;  /* Track if we're inside [text](url) URL part */
-    int bracket_count = 0;  /* Count unmatched [ for markdown links */
-    int paren_count = 0;  /* Count unmatched ( inside markdown link URLs */
-
-    while (*r) {
-        const char *loop_start = r;
+/** End of the paragraph containing p: the first blank line, or the end of the text */
+static const char *apex_autolink_paragraph_end(const char *p) {
+    for (; *p; p++) {
+        if (*p != '\n') continue;
+        const char *q = p + 1;
+        while (*q == ' ' || *q == '\t' || *q == '\r') q++;
+        if (*q == '\n' || *q == '\0') return p;
+    }
+    return p;
+}
 
-        /* Handle Liquid tags: copy {% ... %} without processing */
-        if (!in_liquid && *r == '{' && r[1] == '%') {
-            in_liquid = true;
-            *w++ = *r++;
-            *w++ = *r++;
+/** Position after the code span opening at p (a run of backticks), or NULL if it is never closed */
+static const char *apex_autolink_code_span_end(const char *p, const char *limit) {
+    size_t run = strspn(p, "`");
+    for (const char *q = p + run; q < limit; ) {
+        if (*q != '`') {
+            q++;
             continue;
         }
-        if (in_liquid) {
-            if (*r == '%' && r[1] == '}') {
-                *w++ = *r++;
-                *w++ = *r++;
-                in_liquid = false;
-            } else {
-                *w++ = *r++;
-            }
-            continue;
-        }
-
-        /* At start of line: handle reference definitions and indented code blocks */
-        if (r == text || r[-1] == '\n') {
-            const char *line_start = r;
-
-            /* First: skip indented code blocks (4+ spaces or a leading tab) entirely */
-            int indent_spaces = 0;
-            while (*line_start == ' ' && indent_spaces < 4) {
-                line_start++;
-                indent_spaces++;
-            }
-            if (indent_spaces == 4 || *line_start == '\t') {
-                const char *line_end = strchr(r, '\n');
-                if (!line_end) line_end = r + strlen(r);
-                size_t line_len = line_end - r;
-                if ((size_t)(w - out) + line_len + 1 > cap) {
-                    size_t used = (size_t)(w - out);
-                    cap = (used + line_len + 1) * 2;
-                    char *new_out = realloc(out, cap);
-                    if (!new_out) { free(out); return NULL; }
-                    out = new_out;
-                    w = out + used;
-                }
-                memcpy(w, r, line_len);
-                w += line_len;
-                r = line_end;
-                continue;
-            }
-
-            /* Then: check for reference link definitions: [id]: URL */
-            line_start = r;
-            /* Skip leading whitespace */
-            while (*line_start == ' ' || *line_start == '\t') {
-                line_start++;
-            }
-            /* Check for [id]: pattern */
-            if (*line_start == '[') {
-                const char *id_end = strchr(line_start + 1, ']');
-                if (id_end && id_end[1] == ':') {
-                    /* This is a reference link definition - skip autolinking for this line */
-                    const char *line_end = strchr(r, '\n');
-                    if (!line_end) line_end = r + strlen(r);
-                    /* Copy the entire line without processing */
-                    size_t line_len = line_end - r;
-                    if ((size_t)(w - out) + line_len + 1 > cap) {
-                        size_t used = (size_t)(w - out);
-                        cap = (used + line_len + 1) * 2;
-                        char *new_out = realloc(out, cap);
-                        if (!new_out) { free(out); return NULL; }
-                        out = new_out;
-                        w = out + used;
-                    }
-                    memcpy(w, r, line_len);
-                    w += line_len;
-                    r = line_end;
-                    continue;
-                }
-            }
-        }
-        /* Track code blocks (```...```) */
-        if (*r == '`') {
-            int backtick_count = 1;
-            const char *p = r + 1;
-            while (*p == '`' && backtick_count < 10) {
-                backtick_count++;
-                p++;
-            }
+        size_t close = strspn(q, "`");
+        q += close;
+        if (close == run) return q;
+    }
+    return NULL;
+}
 
-            if (backtick_count >= 3) {
-                /* Code block marker */
-                if (!in_code_block) {
-                    in_code_block = true;
-                    code_block_backticks = backtick_count;
-                } else if (backtick_count >= code_block_backticks) {
-                    /* End of code block */
-                    in_code_block = false;
-                    code_block_backticks = 0;
-                }
-                /* Copy the backticks */
-                for (int i = 0; i < backtick_count; i++) {
-                    *w++ = *r++;
-                }
-                continue;
-            } else if (backtick_count == 1) {
-                /* Inline code span - toggle state and copy the backtick */
-                in_inline_code = !in_inline_code;
-                *w++ = *r++;
-                continue;
-            } else {
-                /* Multiple backticks but less than 3 - copy them as-is (shouldn't happen in valid markdown) */
-                for (int i = 0; i < backtick_count; i++) {
-                    *w++ = *r++;
+/**
+ * Length of the markup at p that must be copied without autolinking: code, HTML,
+ * Liquid tags, link definitions and existing links. 0 if there is none.
+ */
+static size_t apex_autolink_verbatim_length(const char *text, const char *p) {
+    if (p == text || p[-1] == '\n') {
+        const char *line_end = strchr(p, '\n');
+        if (!line_end) line_end = p + strlen(p);
+        size_t indent = strspn(p, " ");
+        const char *c = p + indent;
+
+        /* Indented code block (4+ spaces or a leading tab) */
+        if (indent >= 4 || *c == '\t') return (size_t)(line_end - p);
+
+        /* Fenced code block */
+        if (*c == '`' || *c == '~') {
+            const char fence[2] = { *c, '\0' };
+            size_t run = strspn(c, fence);
+            if (run >= 3 && !(*c == '`' && memchr(c + run, '`', (size_t)(line_end - c) - run))) {
+                while (*line_end) {
+                    const char *line = line_end + 1;
+                    line_end = strchr(line, '\n');
+                    if (!line_end) line_end = line + strlen(line);
+                    size_t spaces = strspn(line, " ");
+                    size_t close = strspn(line + spaces, fence);
+                    const char *after = line + spaces + close;
+                    if (spaces < 4 && close >= run && after + strspn(after, " \t\r") >= line_end) break;
                 }
-                continue;
+                return (size_t)(line_end - p);
             }
         }
 
-        /* Skip processing inside code blocks or inline code */
-        if (in_code_block || in_inline_code) {
-            *w++ = *r++;
-            continue;
+        /* Reference link definition: [id]: URL */
+        if (*c == '[') {
+            const char *id_end = memchr(c, ']', (size_t)(line_end - c));
+            if (id_end && id_end[1] == ':') return (size_t)(line_end - p);
         }
+    }
 
-        /* Track markdown links: [text](url) - skip autolinking inside URL part */
-        if (*r == '[' && !in_markdown_link_url) {
-            bracket_count++;
-        } else if (*r == ']' && bracket_count > 0) {
-            /* Check if next character is '(' - if so, we're entering a link URL */
-            if (r[1] == '(') {
-                in_markdown_link_url = true;
-                paren_count = 1;  /* Count the opening '(' */
-                /* Copy ']' and '(' */
-                *w++ = *r++; /* ']' */
-                *w++ = *r++; /* '(' */
-                continue;
-            }
-            bracket_count--;
-            if (bracket_count < 0) bracket_count = 0;
-        } else if (*r == '(' && in_markdown_link_url) {
-            /* Nested '(' inside URL - track it */
-            paren_count++;
-        } else if (*r == ')' && in_markdown_link_url) {
-            /* End of markdown link URL (or nested level) */
-            paren_count--;
-            if (paren_count == 0) {
-                in_markdown_link_url = false;
+    switch (*p) {
+        case '{':
+            if (p[1] == '%') {
+                const char *end = strstr(p + 2, "%}");
+                if (end) return (size_t)(end + 2 - p);
             }
-        }
+            return 0;
 
-        /* Skip autolinking if we're inside a markdown link URL */
-        if (in_markdown_link_url) {
-            *w++ = *r++;
-            continue;
+        case '`': {
+            const char *end = apex_autolink_code_span_end(p, apex_autolink_paragraph_end(p));
+            return end ? (size_t)(end - p) : strspn(p, "`");
         }
 
-        /* Check if we're inside an HTML tag attribute - if so, skip autolinking */
-        /* Look backwards for < to see if we're inside a tag */
-        bool in_html_attribute = false;
-        if (*r == 'h' || *r == 'm') {  /* Quick check: URLs start with http or mailto */
-            const char *p = r - 1;
-            const char *tag_start = NULL;
-            const char *tag_end = NULL;
-
-            /* Find nearest < or > before r */
-            while (p >= text) {
-                if (*p == '>') {
-                    tag_end = p;
-                    break;
-                } else if (*p == '<') {
-                    tag_start = p;
-                    break;
-                }
-                p--;
+        case '<': {
+            if (strncmp(p, "<!--", 4) == 0) {
+                const char *end = strstr(p + 4, "-->");
+                return end ? (size_t)(end + 3 - p) : 0;
             }
-
-            /* If we're inside a tag (between < and >), check if we're in an attribute */
-            if (tag_start && (!tag_end || tag_start > tag_end)) {
-                /* Look backwards from r to find the nearest = sign within this tag */
-                p = r - 1;
-                const char *equals_pos = NULL;
-                while (p > tag_start) {
-                    if (*p == '=') {
-                        equals_pos = p;
-                        break;
-                    } else if (*p == '>') {
-                        break;
-                    }
-                    p--;
-                }
-
-                if (equals_pos) {
-                    /* Check what comes after the = */
-                    const char *after_equals = equals_pos + 1;
-                    /* Skip whitespace */
-                    while (after_equals < r && isspace((unsigned char)*after_equals)) {
-                        after_equals++;
-                    }
-
-                    if (after_equals < r) {
-                        /* Check if it's a quoted attribute */
-                        if (*after_equals == '"' || *after_equals == '\'') {
-                            char quote = *after_equals;
-                            const char *value_start = after_equals + 1;
-
-                            /* If r is after the opening quote, check if we're inside */
-                            if (r >= value_start) {
-                                /* Look for the closing quote - scan forward from value_start */
-                                const char *quote_end = value_start;
-                                while (quote_end < r && *quote_end != quote && *quote_end != '\0') {
-                                    quote_end++;
-                                }
-
-                                /* If we haven't found the closing quote by the time we reach r, we're inside */
-                                if (quote_end >= r || *quote_end != quote) {
-                                    in_html_attribute = true;
-                                }
-                            }
-                        } else {
-                            /* Unquoted attribute - value is between = and next space or > */
-                            const char *value_start = after_equals;
-                            if (r > value_start) {
-                                const char *value_end = value_start;
-                                while (value_end < r && !isspace((unsigned char)*value_end) && *value_end != '>') {
-                                    value_end++;
-                                }
-                                /* If r is in this unquoted value, we're inside an attribute */
-                                if (r <= value_end) {
-                                    in_html_attribute = true;
-                                }
-                            }
-                        }
-                    }
-                }
+            const char *q = p + 1;
+            if (*q == '/') q++;
+            if (!isalpha((unsigned char)*q)) return 0;
+            const char *name = q;
+            while (isalnum((unsigned char)*q) || *q == '-') q++;
+            if (!isspace((unsigned char)*q) && *q != '>' && *q != '/') return 0;
+            bool is_link = p[1] != '/' && q - name == 1 && (*name == 'a' || *name == 'A');
+            while (*q && *q != '>') {
+                const char *close = (*q == '"' || *q == '\'') ? strchr(q + 1, *q) : NULL;
+                q = close ? close + 1 : q + 1;
             }
-        }
-
-        if (in_html_attribute) {
-            /* Inside HTML attribute, copy as-is */
-            *w++ = *r++;
-            continue;
-        }
-
-        /* Handle angle-bracket autolink */
-        if (*r == '<') {
-            const char *start = r + 1;
-            const char *end = strchr(start, '>');
-            if (end && start != end) {
-                size_t url_len = (size_t)(end - start);
-                if ((url_len > 6 && strncmp(start, "http://", 7) == 0) ||
-                    (url_len > 7 && strncmp(start, "https://", 8) == 0) ||
-                    (url_len > 7 && strncmp(start, "mailto:", 7) == 0)) {
-                    size_t needed = 2 + url_len + 3 + url_len + 2; /* [url](url) */
-                    if ((size_t)(w - out) + needed + 1 > cap) {
-                        size_t used = (size_t)(w - out);
-                        cap = (used + needed + 1) * 2;
-                        char *new_out = realloc(out, cap);
-                        if (!new_out) { free(out); return NULL; }
-                        out = new_out;
-                        w = out + used;
-                    }
-                    *w++ = '[';
-                    memcpy(w, start, url_len); w += url_len;
-                    *w++ = ']'; *w++ = '(';
-                    memcpy(w, start, url_len); w += url_len;
-                    *w++ = ')';
-                    r = end + 1;
-                    continue;
+            if (!*q) return 0;
+            q++;
+            if (is_link) {
+                /* The text of an HTML link is not linked again */
+                for (const char *close = strchr(q, '<'); close; close = strchr(close + 1, '<')) {
+                    if (strncasecmp(close, "</a>", 4) == 0) return (size_t)(close + 4 - p);
                 }
             }
-        }
-
-        /* Skip HTML comments (like citation placeholders <!--CITE:key-->) */
-        if (*r == '<' && r[1] == '!' && r[2] == '-' && r[3] == '-') {
-            /* Find end of comment --> */
-            const char *comment_end = strstr(r, "-->");
-            if (comment_end) {
-                size_t comment_len = (comment_end + 3) - r;
-                if ((size_t)(w - out) + comment_len + 1 > cap) {
-                    size_t used = (size_t)(w - out);
-                    cap = (used + comment_len + 1) * 2;
-                    char *new_out = realloc(out, cap);
-                    if (!new_out) { free(out); return NULL; }
-                    out = new_out;
-                    w = out + used;
-                }
-                memcpy(w, r, comment_len);
-                w += comment_len;
-                r = comment_end + 3;
-                continue;
-            }
-        }
-
-        /* Handle bare URL or mailto/email */
-        bool is_url_start = false;
-        bool is_email_start = false;
-
-        /* Check again if we're inside an HTML attribute before processing URLs */
-        bool in_html_attribute_url = false;
-        if (!isspace((unsigned char)*r) && (*r == 'h' || *r == 'm' || *r == '@')) {
-            const char *p = r - 1;
-            const char *tag_start = NULL;
-            const char *tag_end = NULL;
-
-            /* Find nearest < or > before r */
-            while (p >= text) {
-                if (*p == '>') {
-                    tag_end = p;
-                    break;
-                } else if (*p == '<') {
-                    tag_start = p;
+            return (size_t)(q - p);
+        }
+
+        case '[': {
+            /* [text](url) or [text][ref] */
+            const char *limit = apex_autolink_paragraph_end(p);
+            const char *q = p;
+            int depth = 0;
+            for (; q < limit; q++) {
+                if (*q == '\\' && q + 1 < limit) {
+                    q++;
+                } else if (*q == '`') {
+                    const char *end = apex_autolink_code_span_end(q, limit);
+                    q = (end ? end : q + strspn(q, "`")) - 1;
+                } else if (*q == '[') {
+                    depth++;
+                } else if (*q == ']' && --depth == 0) {
                     break;
                 }
-                p--;
             }
-
-            /* If we're inside a tag (between < and >), check if we're in an attribute */
-            if (tag_start && (!tag_end || tag_start > tag_end)) {
-                /* Look backwards from r to find the nearest = sign within this tag */
-                p = r - 1;
-                const char *equals_pos = NULL;
-                while (p > tag_start) {
-                    if (*p == '=') {
-                        equals_pos = p;
-                        break;
-                    } else if (*p == '>') {
-                        break;
-                    }
-                    p--;
-                }
-
-                if (equals_pos) {
-                    /* Check what comes after the = */
-                    const char *after_equals = equals_pos + 1;
-                    /* Skip whitespace */
-                    while (after_equals < r && isspace((unsigned char)*after_equals)) {
-                        after_equals++;
-                    }
-
-                    if (after_equals < r) {
-                        /* Check if it's a quoted attribute */
-                        if (*after_equals == '"' || *after_equals == '\'') {
-                            char quote = *after_equals;
-                            const char *value_start = after_equals + 1;
-
-                            /* If r is after the opening quote, check if we're inside */
-                            if (r >= value_start) {
-                                /* Look for the closing quote - scan forward from value_start */
-                                const char *quote_end = value_start;
-                                while (quote_end < r && *quote_end != quote && *quote_end != '\0') {
-                                    quote_end++;
-                                }
-
-                                /* If we haven't found the closing quote by the time we reach r, we're inside */
-                                if (quote_end >= r || *quote_end != quote) {
-                                    in_html_attribute_url = true;
-                                }
-                            }
-                        } else {
-                            /* Unquoted attribute - value is between = and next space or > */
-                            const char *value_start = after_equals;
-                            if (r > value_start) {
-                                const char *value_end = value_start;
-                                while (value_end < r && !isspace((unsigned char)*value_end) && *value_end != '>') {
-                                    value_end++;
-                                }
-                                /* If r is in this unquoted value, we're inside an attribute */
-                                if (r <= value_end) {
-                                    in_html_attribute_url = true;
-                                }
-                            }
-                        }
-                    }
+            if (q >= limit || (q[1] != '(' && q[1] != '[')) return 0;
+            char open = q[1];
+            char close = open == '(' ? ')' : ']';
+            for (q++; q < limit; q++) {
+                if (*q == '\\' && q + 1 < limit) {
+                    q++;
+                } else if (*q == open) {
+                    depth++;
+                } else if (*q == close && --depth == 0) {
+                    return (size_t)(q + 1 - p);
                 }
             }
+            return 0;
         }
+    }
+    return 0;
+}
 
-        if (!isspace((unsigned char)*r) && !in_html_attribute_url) {
-            /* Check for URL protocols */
-            if (strncmp(r, "http://", 7) == 0 || strncmp(r, "https://", 8) == 0 || strncmp(r, "mailto:", 7) == 0) {
-                is_url_start = true;
-            }
-            /* Check for email address: must start at word boundary and have @ in current token */
-            /* Skip if @ is part of a citation placeholder (<!--CITE:...) or citation syntax [@ */
-            else if ((r == text || isspace((unsigned char)r[-1]) || r[-1] == '(' || r[-1] == '[') &&
-                     !(r > text && r[-1] == '[' && *r == '@')) {  /* Skip [@ which is citation syntax */
-                /* Scan forward to find end of current token */
-                const char *token_end = r;
-                while (*token_end && !isspace((unsigned char)*token_end) && *token_end != '<' && *token_end != '>') {
-                    token_end++;
-                }
-                /* Check if @ exists within this token (not just anywhere in text) */
-                const char *at_pos = r;
-                while (at_pos < token_end && *at_pos != '@') {
-                    at_pos++;
-                }
-                /* If @ found within token, and it's not at start/end, it might be an email */
-                /* Also skip if @ is immediately after [ (citation syntax) */
-                if (at_pos < token_end && at_pos > r && (at_pos + 1) < token_end &&
-                    !(at_pos > text && at_pos[-1] == '[')) {  /* Not [@ */
-                    /* Require that the character immediately before @ is alphanumeric.
-                     * This prevents matching @ in URLs like https://example.com/@user */
-                    if (at_pos > r && isalnum((unsigned char)at_pos[-1])) {
-                        /* Validate that email has a TLD (at least one dot followed by alphanumeric) */
-                        const char *after_at = at_pos + 1;
-                        bool has_tld = false;
-                        while (after_at < token_end) {
-                            if (*after_at == '.' && (after_at + 1) < token_end &&
-                                isalnum((unsigned char)after_at[1])) {
-                                has_tld = true;
-                                break;
-                            }
-                            if (!isalnum((unsigned char)*after_at) && *after_at != '-' && *after_at != '_') {
-                                break;
-                            }
-                            after_at++;
-                        }
-
-                        if (has_tld) {
-                            /* Basic validation passed: has chars before @, @, and TLD after @ */
-                            is_email_start = true;
-                        }
-                    }
-                }
-            }
+/** Length of the bare URL at p (http://, https:// or mailto:), or 0 */
+static size_t apex_autolink_url_length(const char *p) {
+    size_t scheme = strncmp(p, "http://", 7) == 0 ? 7 :
+                    strncmp(p, "https://", 8) == 0 ? 8 :
+                    strncmp(p, "mailto:", 7) == 0 ? 7 : 0;
+    if (!scheme) return 0;
+
+    size_t n = scheme;
+    while (p[n] && !isspace((unsigned char)p[n]) && !strchr("<>`|{}", p[n])) n++;
+    if (p[n] == '}') {
+        /* CriticMarkup closes with ++}, --}, ==} or ~~} */
+        while (n > scheme && strchr("+-=~", p[n - 1])) n--;
+    }
+
+    /* Trailing punctuation and unbalanced closing brackets are not part of the link */
+    int parens = 0, brackets = 0;
+    for (size_t i = 0; i < n; i++) {
+        parens += (p[i] == '(') - (p[i] == ')');
+        brackets += (p[i] == '[') - (p[i] == ']');
+    }
+    for (; n > scheme; n--) {
+        char last = p[n - 1];
+        if (last == ')' && parens < 0) {
+            parens++;
+        } else if (last == ']' && brackets < 0) {
+            brackets++;
+        } else if (!strchr(".,;:?!*_~'\"", last)) {
+            break;
         }
+    }
+    return (n > scheme && parens == 0 && brackets == 0) ? n : 0;
+}
 
-        if (is_url_start || is_email_start) {
-            const char *start = r;
-            /* simple token end: whitespace or angle bracket */
-            const char *end = start;
-            while (*end && !isspace((unsigned char)*end) && *end != '<' && *end != '>') end++;
-            size_t url_len = (size_t)(end - start);
-
-            /* Trim trailing punctuation that should not be part of the link */
-            while (url_len > 0 &&
-                   (start[url_len - 1] == '.' ||
-                    start[url_len - 1] == ',' ||
-                    start[url_len - 1] == ';' ||
-                    start[url_len - 1] == ':')) {
-                url_len--;
-                end--;
-            }
-
-            /* Prepare link and href text */
-            const char *link_text = start;
-            size_t link_text_len = url_len;
-            const char *href_text = start;
-            size_t href_len = url_len;
-            bool needs_mailto_prefix = is_email_start &&
-                                       !(url_len >= 7 && strncmp(start, "mailto:", 7) == 0);
-            char *mailto_buf = NULL;
-
-            if (needs_mailto_prefix) {
-                href_len += 7; /* "mailto:" */
-                mailto_buf = malloc(href_len + 1);
-                if (mailto_buf) {
-                    memcpy(mailto_buf, "mailto:", 7);
-                    memcpy(mailto_buf + 7, start, url_len);
-                    mailto_buf[href_len] = '\0';
-                    href_text = mailto_buf;
-                }
-            }
+/** Length of the email address at p, or 0 */
+static size_t apex_autolink_email_length(const char *p) {
+    size_t n = 0;
+    while (isalnum((unsigned char)p[n]) || (p[n] && strchr(".+-_%", p[n]))) n++;
+    if (n == 0 || p[n] != '@' || !isalnum((unsigned char)p[n - 1])) return 0;
+
+    size_t domain = n + 1;
+    n = domain;
+    while (isalnum((unsigned char)p[n]) || (p[n] && strchr(".-_", p[n]))) n++;
+    while (n > domain && !isalnum((unsigned char)p[n - 1])) n--;
+    const char *dot = memchr(p + domain, '.', n - domain);
+    return (dot && dot > p + domain && isalnum((unsigned char)dot[1])) ? n : 0;
+}
 
-            /* Heuristic: skip if preceded by '(' or '[' (likely already a link) */
-            /* Also skip if this is a single '#' at start of line (header marker) */
-            if (url_len > 0 &&
-                !(r > text && (r[-1] == '(' || r[-1] == '[')) &&
-                !(r == text && *r == '#' && (r[1] == ' ' || r[1] == '\t' || r[1] == '\n'))) {
-                size_t needed = 2 + link_text_len + 3 + href_len + 2; /* [text](href) */
-                if ((size_t)(w - out) + needed + 1 > cap) {
-                    size_t used = (size_t)(w - out);
-                    cap = (used + needed + 1) * 2;
-                    char *new_out = realloc(out, cap);
-                    if (!new_out) { free(out); return NULL; }
-                    out = new_out;
-                    w = out + used;
-                }
-                *w++ = '[';
-                memcpy(w, link_text, link_text_len); w += link_text_len;
-                *w++ = ']'; *w++ = '(';
-                memcpy(w, href_text, href_len); w += href_len;
-                *w++ = ')';
-                r = end;
-                free(mailto_buf);
-                continue;
-            }
-            free(mailto_buf);
-        }
+/**
+ * Preprocess angle-bracket autolinks (<http://...>) into explicit links
+ * and convert bare URLs/emails to explicit links so they survive
+ * custom rendering paths.
+ * Skips processing inside code spans (`...`) and code blocks (```...```).
+ */
+static char *apex_preprocess_autolinks(const char *text, const apex_options *options) {
+    if (!text || !options || !options->enable_autolink) return NULL;
+
+    size_t cap = strlen(text) * 2 + 64;
+    char *out = malloc(cap);
+    if (!out) return NULL;
 
-        *w++ = *r++;
+    const char *r = text;
+    char *w = out;
 
-        /* Safety: ensure we always advance */
-        if (r == loop_start) {
-            r++;
+    while (*r) {
+        size_t copy = apex_autolink_verbatim_length(text, r);
+        size_t link = 0;             /* Length of the URL or address to link */
+        const char *url = r;
+        const char *prefix = "";     /* Added to the link target */
+        const char *after = r;       /* Where to continue */
+
+        if (!copy && *r == '<') {
+            /* <https://...> */
+            size_t n = 0;
+            while ((unsigned char)r[1 + n] > ' ' && r[1 + n] != '<' && r[1 + n] != '>') n++;
+            if (r[1 + n] == '>' &&
+                ((n > 7 && strncmp(r + 1, "http://", 7) == 0) ||
+                 (n > 8 && strncmp(r + 1, "https://", 8) == 0) ||
+                 (n > 7 && strncmp(r + 1, "mailto:", 7) == 0))) {
+                url = r + 1;
+                link = n;
+                after = r + n + 2;
+            }
+        } else if (!copy) {
+            char prev = r > text ? r[-1] : ' ';
+            /* Not inside a word or URL, and not where a link is already being written */
+            if (!isalnum((unsigned char)prev) && !strchr("([=/:@&?%", prev)) {
+                link = apex_autolink_url_length(r);
+                after = r + link;
+            }
+            if (!link && isspace((unsigned char)prev)) {
+                link = apex_autolink_email_length(r);
+                prefix = "mailto:";
+                after = r + link;
+            }
+        }
+
+        if (!link && !copy) copy = 1;
+        size_t needed = copy + 2 * link + strlen(prefix) + 5;
+        if ((size_t)(w - out) + needed > cap) {
+            size_t used = (size_t)(w - out);
+            cap = (used + needed) * 2;
+            char *new_out = realloc(out, cap);
+            if (!new_out) { free(out); return NULL; }
+            out = new_out;
+            w = out + used;
+        }
+        if (link) {
+            *w++ = '[';
+            memcpy(w, url, link); w += link;
+            *w++ = ']'; *w++ = '(';
+            memcpy(w, prefix, strlen(prefix)); w += strlen(prefix);
+            memcpy(w, url, link); w += link;
+            *w++ = ')';
+            r = after;
+        } else {
+            memcpy(w, r, copy);
+            w += copy;
+            r += copy;
         }
     }
     *w = '\0';
-- 
2.43.0


From 833d98354ffbfdcb2ac819f1b42e512df8dfc3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:50 +0000
Subject: [PATCH 30/66] fix: Liquid tags are protected from every stage, kept
 before digits and restored in all output formats; no use of freed text

---
 src/apex.c | 70 ++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 52 insertions(+), 18 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index 2d5fed6..44740f9 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -891,9 +891,10 @@ static char *apex_protect_liquid_tags(const char *text,
         memcpy(tags[tag_count], start, tag_len);
         tags[tag_count][tag_len] = '\0';
 
-        /* Build placeholder: APEX_LIQUID_TAG_<index> */
+        /* Build placeholder: APEX_LIQUID_TAG_<index>E (the letter keeps a digit
+         * that follows the tag apart from the index) */
         char placeholder[64];
-        int ph_len = snprintf(placeholder, sizeof(placeholder), "%s%zu", ph_prefix, tag_count);
+        int ph_len = snprintf(placeholder, sizeof(placeholder), "%s%zuE", ph_prefix, tag_count);
         if (ph_len <= 0 || (size_t)ph_len >= sizeof(placeholder)) {
             /* Cleanup on formatting error */
             for (size_t i = 0; i <= tag_count; i++) {
@@ -1455,7 +1456,7 @@ static char *apex_restore_liquid_tags(const char *html,
             p++;
         }
 
-        if (idx >= tag_count) {
+        if (*p != 'E' || idx >= tag_count) {
             /* Out-of-range index, treat as normal text */
             size_t placeholder_len = (size_t)(p - ph_start);
             if (placeholder_len >= remaining) {
@@ -1495,7 +1496,7 @@ static char *apex_restore_liquid_tags(const char *html,
         write += tag_len;
         remaining -= tag_len;
 
-        read = p;
+        read = p + 1;
     }
 
     *write = '\0';
@@ -1503,6 +1504,36 @@ static char *apex_restore_liquid_tags(const char *html,
     return output;
 }
 
+/**
+ * Restore Liquid tags in the text of a parsed document, for output formats that
+ * serialize the AST instead of rendering HTML.
+ */
+static void apex_restore_liquid_tags_in_tree(cmark_node *document, char **tags, size_t tag_count) {
+    if (!document || !tags || tag_count == 0) return;
+
+    cmark_iter *iter = cmark_iter_new(document);
+    cmark_event_type event;
+    while ((event = cmark_iter_next(iter)) != CMARK_EVENT_DONE) {
+        if (event != CMARK_EVENT_ENTER) continue;
+        cmark_node *node = cmark_iter_get_node(iter);
+        cmark_node_type type = cmark_node_get_type(node);
+        if (type == CMARK_NODE_LINK || type == CMARK_NODE_IMAGE) {
+            char *url = apex_restore_liquid_tags(cmark_node_get_url(node), tags, tag_count);
+            if (url) cmark_node_set_url(node, url);
+            free(url);
+            char *title = apex_restore_liquid_tags(cmark_node_get_title(node), tags, tag_count);
+            if (title) cmark_node_set_title(node, title);
+            free(title);
+        } else if (type == CMARK_NODE_TEXT || type == CMARK_NODE_CODE || type == CMARK_NODE_CODE_BLOCK ||
+                   type == CMARK_NODE_HTML_BLOCK || type == CMARK_NODE_HTML_INLINE) {
+            char *literal = apex_restore_liquid_tags(cmark_node_get_literal(node), tags, tag_count);
+            if (literal) cmark_node_set_literal(node, literal);
+            free(literal);
+        }
+    }
+    cmark_iter_free(iter);
+}
+
 /**
  * Preprocess table rows to convert consecutive pipes without whitespace into << markers
  * for colspan detection.
@@ -4006,6 +4037,15 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
         }
     }
 
+    /* Protect Liquid {% ... %} tags so they are not modified by later
+     * processing (including parsing, math, and autolinks). We'll restore
+     * them after rendering the final HTML.
+     */
+    liquid_protected = apex_protect_liquid_tags(text_ptr, &liquid_tags, &liquid_tag_count);
+    if (liquid_protected) {
+        text_ptr = liquid_protected;
+    }
+
     /* Process special markers (^ end-of-block marker) and inline tables BEFORE alpha lists */
     /* This ensures ^ markers and inline table markers are converted before alpha list processing */
     char *markers_processed_early = NULL;
@@ -4667,15 +4707,6 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
         }
     }
 
-    /* Protect Liquid {% ... %} tags so they are not modified by later
-     * processing (including parsing, math, and autolinks). We'll restore
-     * them after rendering the final HTML.
-     */
-    liquid_protected = apex_protect_liquid_tags(text_ptr, &liquid_tags, &liquid_tag_count);
-    if (liquid_protected) {
-        text_ptr = liquid_protected;
-    }
-
     /* Normalize input after ALL preprocessing: ensure it ends with a newline.
      * This is critical because various preprocessing steps (definition lists,
      * HTML markdown, critic markup, liquid protection) might remove the trailing
@@ -4742,18 +4773,20 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     cmark_node *document = cmark_parser_finish(parser);
     PROFILE_END(parsing);
 
-    /* Free normalized buffer if we allocated it (after parser is finished) */
-    if (final_normalized) {
-        free(final_normalized);
-    }
-
     if (!document) {
+        free(final_normalized);
         cmark_parser_free(parser);
         free(working_text);
         apex_free_metadata(metadata);
         return NULL;
     }
 
+    /* Formats serialized from the AST never see the rendered HTML, so restore
+     * protected Liquid tags in the document itself */
+    if (options->output_format != APEX_OUTPUT_HTML) {
+        apex_restore_liquid_tags_in_tree(document, liquid_tags, liquid_tag_count);
+    }
+
     /* If output format is JSON, emit JSON right after parsing (before AST filters) */
     if (options->output_format == APEX_OUTPUT_JSON) {
         char *json = apex_cmark_to_pandoc_json(document, options);
@@ -5420,6 +5453,7 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     if (critic_processed) free(critic_processed);
     if (proofreader_processed) free(proofreader_processed);
     if (liquid_protected) free(liquid_protected);
+    free(final_normalized);  /* text_ptr may point into it until here */
     if (liquid_tags) {
         for (size_t i = 0; i < liquid_tag_count; i++) {
             free(liquid_tags[i]);
-- 
2.43.0


From e33d7efa1d832bb815d9a4014fa29ca8ba0019b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:03 +0000
Subject: [PATCH 31/66] fix: inline tables, highlights and inserts run only
 where they are enabled; empty base directory

---
 src/apex.c | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index 44740f9..449557d 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -3879,7 +3879,7 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
                 resolved_path = malloc(base_len + bib_len + 2);
                 if (resolved_path) {
                     strcpy(resolved_path, options->base_directory);
-                    if (resolved_path[base_len - 1] != '/') {
+                    if (base_len > 0 && resolved_path[base_len - 1] != '/') {
                         resolved_path[base_len] = '/';
                         base_len++;
                     }
@@ -4060,11 +4060,13 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
 
     /* Process inline table fences and <!--TABLE--> markers before parsing */
     char *inline_tables_processed = NULL;
-    PROFILE_START(inline_tables);
-    inline_tables_processed = apex_process_inline_tables(text_ptr);
-    PROFILE_END(inline_tables);
-    if (inline_tables_processed) {
-        text_ptr = inline_tables_processed;
+    if (options->enable_tables) {
+        PROFILE_START(inline_tables);
+        inline_tables_processed = apex_process_inline_tables(text_ptr);
+        PROFILE_END(inline_tables);
+        if (inline_tables_processed) {
+            text_ptr = inline_tables_processed;
+        }
     }
 
     /* Process alpha lists before parsing (preprocessing) */
@@ -4101,9 +4103,11 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     }
 
     /* Process ==highlight== syntax before parsing
-     * Skip if proofreader mode is enabled (proofreader will handle it via CriticMarkup) */
+     * Skip if proofreader mode is enabled (proofreader will handle it via CriticMarkup).
+     * CommonMark and GFM have no such syntax (and would render the tags as omitted HTML) */
+    bool inline_marks = options->mode != APEX_MODE_COMMONMARK && options->mode != APEX_MODE_GFM;
     char *highlights_processed = NULL;
-    if (!options->proofreader_mode) {
+    if (inline_marks && !options->proofreader_mode) {
         PROFILE_START(highlights);
         highlights_processed = apex_process_highlights(text_ptr);
         PROFILE_END(highlights);
@@ -4114,11 +4118,13 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
 
     /* Process ++insert++ syntax before parsing */
     char *inserts_processed = NULL;
-    PROFILE_START(inserts);
-    inserts_processed = apex_process_inserts(text_ptr);
-    PROFILE_END(inserts);
-    if (inserts_processed) {
-        text_ptr = inserts_processed;
+    if (inline_marks) {
+        PROFILE_START(inserts);
+        inserts_processed = apex_process_inserts(text_ptr);
+        PROFILE_END(inserts);
+        if (inserts_processed) {
+            text_ptr = inserts_processed;
+        }
     }
 
     /* Process superscript and subscript syntax before parsing */
-- 
2.43.0


From ded15d35378efe8154a22ebdcd50376186ace99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:37 +0000
Subject: [PATCH 32/66] fix: standalone documents escape title, language and
 stylesheet paths, strip only trailing closing tags; no use of freed
 stylesheet list

---
 src/apex.c | 188 +++++++++++++++++++++++++++++++----------------------
 1 file changed, 109 insertions(+), 79 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index 449557d..899ad25 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -3725,6 +3725,49 @@ static char *apex_apply_widont_to_headings(const char *html) {
     return output;
 }
 
+/**
+ * Escape text for use in the document head (element content or a double-quoted
+ * attribute). Existing character references are kept.
+ */
+static char *apex_escape_document_text(const char *text) {
+    char *out = malloc(strlen(text) * 6 + 1);
+    if (!out) return NULL;
+    char *w = out;
+    for (const char *p = text; *p; p++) {
+        const char *rep = NULL;
+        if (*p == '<') rep = "&lt;";
+        else if (*p == '>') rep = "&gt;";
+        else if (*p == '"') rep = "&quot;";
+        else if (*p == '&') {
+            const char *q = p + 1;
+            if (*q == '#') q++;
+            const char *name = q;
+            while (isalnum((unsigned char)*q)) q++;
+            if (q == name || *q != ';') rep = "&amp;";
+        }
+        if (rep) {
+            size_t rep_len = strlen(rep);
+            memcpy(w, rep, rep_len);
+            w += rep_len;
+        } else {
+            *w++ = *p;
+        }
+    }
+    *w = '\0';
+    return out;
+}
+
+/** The <link> line for a stylesheet in a standalone document. */
+static char *apex_stylesheet_link(const char *path) {
+    char *escaped = apex_escape_document_text(path);
+    if (!escaped) return NULL;
+    size_t size = strlen(escaped) + 50;
+    char *link = malloc(size);
+    if (link) snprintf(link, size, "  <link rel=\"stylesheet\" href=\"%s\">\n", escaped);
+    free(escaped);
+    return link;
+}
+
 char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options *options) {
     if (!markdown || len == 0) {
         char *empty = malloc(1);
@@ -5585,10 +5628,6 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
                                                  language_metadata);
         PROFILE_END(standalone_wrap);
 
-        /* Free temporary metadata stylesheet array if we allocated it */
-        if (css_paths && css_paths[0] == css_metadata) {
-            free((void*)css_paths);
-        }
         if (document) {
             free(html);
             html = document;
@@ -5641,16 +5680,15 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
                 }
 
                 if (css_content && css_len > 0) {
-                    /* Build the exact link line we expect from apex_wrap_html_document */
-                    char link_line[2048];
-                    int link_n = snprintf(link_line, sizeof(link_line),
-                                          "  <link rel=\"stylesheet\" href=\"%s\">\n",
-                                          css_path);
-                    if (link_n > 0 && (size_t)link_n < sizeof(link_line)) {
+                    /* Find the exact link line apex_wrap_html_document wrote into the head */
+                    char *link_line = apex_stylesheet_link(css_path);
+                    if (link_line) {
+                        char *head_end = strstr(html, "</head>");
                         char *pos = strstr(html, link_line);
+                        if (pos && head_end && pos > head_end) pos = NULL;
                         if (pos) {
                             size_t html_len = strlen(html);
-                            size_t link_len = (size_t)link_n;
+                            size_t link_len = strlen(link_line);
                             const char *style_prefix = "  <style>\n";
                             const char *style_suffix = "\n  </style>\n";
                             size_t prefix_len = strlen(style_prefix);
@@ -5683,11 +5721,17 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
                                 html = embedded;
                             }
                         }
+                        free(link_line);
                     }
-                    free(css_content);
                 }
+                free(css_content);
             }
         }
+
+        /* Free temporary metadata stylesheet array if we allocated it */
+        if (css_metadata && css_paths && css_paths[0] == css_metadata) {
+            free((void*)css_paths);
+        }
     } else if (html && scripts_html) {
         /* Snippet mode: append scripts to the end of the HTML fragment */
         size_t html_len = strlen(html);
@@ -5782,59 +5826,33 @@ char *apex_wrap_html_document(const char *content, const char *title, const char
 
     /* Strip any existing </body></html> tags from end of content to avoid duplicates */
     size_t content_len = strlen(content);
-    const char *html_end = NULL;
-    const char *body_end = NULL;
-
-    /* Find last occurrence of </html> near the end */
-    const char *search = content + content_len;
-    while (search > content) {
-        search--;
-        if (strncmp(search, "</html>", 7) == 0) {
-            html_end = search;
-            break;
-        }
+    size_t stripped_len = content_len;
+    while (stripped_len > 0 && isspace((unsigned char)content[stripped_len - 1])) stripped_len--;
+    if (stripped_len >= 7 && strncmp(content + stripped_len - 7, "</html>", 7) == 0) {
+        stripped_len -= 7;
+        while (stripped_len > 0 && isspace((unsigned char)content[stripped_len - 1])) stripped_len--;
+        if (stripped_len >= 7 && strncmp(content + stripped_len - 7, "</body>", 7) == 0) {
+            content_len = stripped_len - 7;
+        }
+    }
+
+    /* Title, language and stylesheet paths are text, not markup */
+    char *escaped_title = apex_escape_document_text(doc_title);
+    char *escaped_lang = apex_escape_document_text(lang);
+    if (!escaped_title || !escaped_lang) {
+        free(escaped_title);
+        free(escaped_lang);
+        return strdup(content);
     }
+    doc_title = escaped_title;
+    lang = escaped_lang;
 
-    /* If we found </html>, look for </body> before it */
-    if (html_end) {
-        search = html_end;
-        while (search > content) {
-            search--;
-            if (strncmp(search, "</body>", 7) == 0) {
-                body_end = search;
-                break;
-            }
-            /* Stop if we hit a non-whitespace character before finding </body> */
-            if (!isspace((unsigned char)*search) && *search != '>') {
-                break;
-            }
-        }
-
-        /* If we found both tags at the end, strip them */
-        if (body_end) {
-            /* Check that there's only whitespace/newlines between </body> and </html> */
-            const char *between = body_end + 7;
-            bool only_whitespace = true;
-            while (between < html_end) {
-                if (!isspace((unsigned char)*between)) {
-                    only_whitespace = false;
-                    break;
-                }
-                between++;
-            }
-
-            if (only_whitespace) {
-                /* Strip everything from </body> to end */
-                content_len = body_end - content;
-            }
-        }
-    }
     size_t title_len = strlen(doc_title);
     /* Calculate total length for all stylesheet links */
     size_t style_len = 0;
     if (stylesheet_paths && stylesheet_count > 0) {
         for (size_t i = 0; i < stylesheet_count && stylesheet_paths[i]; i++) {
-            style_len += strlen(stylesheet_paths[i]) + 50; /* +50 for link tag overhead */
+            style_len += strlen(stylesheet_paths[i]) * 6 + 50; /* escaped, +50 for link tag overhead */
         }
     }
     /* Add space for syntax highlighting CSS if needed */
@@ -5849,7 +5867,11 @@ char *apex_wrap_html_document(const char *content, const char *title, const char
     size_t capacity = content_len + title_len + style_len + syntax_css_len + header_len + footer_len + lang_len + 4096;
 
     char *output = malloc(capacity + 1);  /* +1 for null terminator */
-    if (!output) return strdup(content);
+    if (!output) {
+        free(escaped_title);
+        free(escaped_lang);
+        return strdup(content);
+    }
 
     char *write = output;
     size_t remaining = capacity + 1;  /* Include null terminator in remaining count */
@@ -5864,6 +5886,8 @@ char *apex_wrap_html_document(const char *content, const char *title, const char
     int n = snprintf(write, remaining, "<!DOCTYPE html>\n<html lang=\"%s\">\n<head>\n", lang);
     if (n < 0 || (size_t)n >= remaining) {
         free(output);
+        free(escaped_title);
+        free(escaped_lang);
         return strdup(content);
     }
     write += n;
@@ -5873,6 +5897,8 @@ char *apex_wrap_html_document(const char *content, const char *title, const char
     n = snprintf(write, remaining, "  <meta charset=\"UTF-8\">\n");
     if (n < 0 || (size_t)n >= remaining) {
         free(output);
+        free(escaped_title);
+        free(escaped_lang);
         return strdup(content);
     }
     write += n;
@@ -5881,6 +5907,8 @@ char *apex_wrap_html_document(const char *content, const char *title, const char
     n = snprintf(write, remaining, "  <meta name=\"viewport\" content=\"width=device-width, initial-scale=1.0\">\n");
     if (n < 0 || (size_t)n >= remaining) {
         free(output);
+        free(escaped_title);
+        free(escaped_lang);
         return strdup(content);
     }
     write += n;
@@ -5889,6 +5917,8 @@ char *apex_wrap_html_document(const char *content, const char *title, const char
     n = snprintf(write, remaining, "  <meta name=\"generator\" content=\"Apex %s\">\n", version_str);
     if (n < 0 || (size_t)n >= remaining) {
         free(output);
+        free(escaped_title);
+        free(escaped_lang);
         return strdup(content);
     }
     write += n;
@@ -5898,6 +5928,8 @@ char *apex_wrap_html_document(const char *content, const char *title, const char
     n = snprintf(write, remaining, "  <title>%s</title>\n", doc_title);
     if (n < 0 || (size_t)n >= remaining) {
         free(output);
+        free(escaped_title);
+        free(escaped_lang);
         return strdup(content);
     }
     write += n;
@@ -6111,26 +6143,14 @@ char *apex_wrap_html_document(const char *content, const char *title, const char
     /* Stylesheet links if provided */
     if (stylesheet_paths && stylesheet_count > 0) {
         for (size_t i = 0; i < stylesheet_count && stylesheet_paths[i]; i++) {
-            n = snprintf(write, remaining, "  <link rel=\"stylesheet\" href=\"%s\">\n", stylesheet_paths[i]);
+            char *link = apex_stylesheet_link(stylesheet_paths[i]);
+            n = link ? snprintf(write, remaining, "%s", link) : -1;
+            free(link);
             if (n < 0 || (size_t)n >= remaining) {
-                /* Need to expand buffer */
-                size_t written = write - output;
-                size_t new_cap = (written + strlen(stylesheet_paths[i]) + 100) * 2;
-                char *new_output = realloc(output, new_cap);
-                if (!new_output) {
-                    free(output);
-                    return strdup(content);
-                }
-                output = new_output;
-                write = output + written;
-                remaining = new_cap - written;
-                capacity = new_cap;
-                /* Retry */
-                n = snprintf(write, remaining, "  <link rel=\"stylesheet\" href=\"%s\">\n", stylesheet_paths[i]);
-                if (n < 0 || (size_t)n >= remaining) {
-                    free(output);
-                    return strdup(content);
-                }
+                free(output);
+                free(escaped_title);
+                free(escaped_lang);
+                return strdup(content);
             }
             write += n;
             remaining -= n;
@@ -6149,7 +6169,7 @@ char *apex_wrap_html_document(const char *content, const char *title, const char
             "    pre { background: #f5f5f5; padding: 1rem; overflow-x: auto; }\n"
             "    code { background: #f0f0f0; padding: 0.2em 0.4em; border-radius: 3px; }\n"
             "    blockquote { border-left: 4px solid #ddd; margin: 0; padding-left: 1rem; color: #666; }\n"
-            "    table { border-collapse: collapse; width: 100%%; }\n"
+            "    table { border-collapse: collapse; width: 100%; }\n"
             "    th, td { border: 1px solid #ddd; padding: 0.5rem; }\n"
             "    th { background: #f5f5f5; }\n"
             "    tfoot td { background: #e8e8e8; }\n"
@@ -6203,6 +6223,8 @@ char *apex_wrap_html_document(const char *content, const char *title, const char
     n = snprintf(write, remaining, "</head>\n<body%s>\n\n", body_class);
     if (n < 0 || (size_t)n >= remaining) {
         free(output);
+        free(escaped_title);
+        free(escaped_lang);
         return strdup(content);
     }
     write += n;
@@ -6211,6 +6233,8 @@ char *apex_wrap_html_document(const char *content, const char *title, const char
     /* Content */
     if (content_len + 1 > remaining) {  /* +1 for null terminator at end */
         free(output);
+        free(escaped_title);
+        free(escaped_lang);
         return strdup(content);
     }
     memcpy(write, content, content_len);
@@ -6232,6 +6256,8 @@ char *apex_wrap_html_document(const char *content, const char *title, const char
     n = snprintf(write, remaining, "\n</body>\n</html>\n");
     if (n < 0 || (size_t)n >= remaining) {
         free(output);
+        free(escaped_title);
+        free(escaped_lang);
         return strdup(content);
     }
     write += n;
@@ -6243,9 +6269,13 @@ char *apex_wrap_html_document(const char *content, const char *title, const char
     } else {
         /* Should never happen, but be safe */
         free(output);
+        free(escaped_title);
+        free(escaped_lang);
         return strdup(content);
     }
 
+    free(escaped_title);
+    free(escaped_lang);
     return output;
 }
 
-- 
2.43.0


From ee1a39c453a92a4409625fc55f859d9030964707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:52 +0000
Subject: [PATCH 33/66] fix: alpha lists leave code alone, keep nesting,
 continuation lines and start letter, and never leak their placeholder

---
 src/apex.c | 307 ++++++++++++++++++++++++-----------------------------
 1 file changed, 141 insertions(+), 166 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index 899ad25..b304837 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -1768,192 +1768,156 @@ static char *apex_preprocess_table_colspans(const char *text) {
     return out;
 }
 
+/* Nesting of alpha lists that is tracked */
+#define APEX_ALPHA_MAX_DEPTH 16
+
+typedef struct {
+    size_t indent;  /* Width of the whitespace before the markers */
+    char next;      /* Letter that continues the list */
+    int count;      /* Items so far */
+} apex_alpha_level;
+
+/** Length of a bullet or numbered list marker at p (0 if there is none). */
+static size_t apex_list_marker_length(const char *p, const char *end) {
+    const char *q = p;
+    if (q < end && (*q == '*' || *q == '-' || *q == '+')) {
+        q++;
+    } else {
+        while (q < end && isdigit((unsigned char)*q) && q - p < 9) q++;
+        if (q == p || q >= end || (*q != '.' && *q != ')')) return 0;
+        q++;
+    }
+    return (q == end || *q == ' ' || *q == '\t') ? (size_t)(q - p) : 0;
+}
+
 /**
  * Preprocess alpha list markers (a., b., c. and A., B., C.)
- * Converts them to numbered markers (1., 2., 3.) and adds markers for post-processing
+ * Converts them to numbered markers (1., 2., 3.) and adds markers for post-processing.
+ * Code blocks are left alone, and a marker is always a paragraph of its own.
  */
 static char *apex_preprocess_alpha_lists(const char *text) {
     if (!text) return NULL;
 
-    size_t text_len = strlen(text);
-    size_t output_capacity = text_len * 3;  /* Extra capacity for markers and conversions */
-    char *output = malloc(output_capacity);
+    /* Each line can gain at most a blank line, an indented marker and a number */
+    size_t capacity = 64;
+    for (const char *p = text; *p;) {
+        const char *eol = strchr(p, '\n');
+        size_t line_len = eol ? (size_t)(eol - p) + 1 : strlen(p);
+        capacity += line_len * 2 + 48;
+        p += line_len;
+    }
+    char *output = malloc(capacity);
     if (!output) return NULL;
 
     const char *read = text;
     char *write = output;
-    size_t remaining = output_capacity;
-    bool in_alpha_list = false;
-    char expected_lower = 'a';
-    char expected_upper = 'A';
-    bool is_upper = false;
-    int item_number = 1;
-    int blank_lines_since_alpha = 0;  /* Track blank lines to detect list breaks */
+    apex_alpha_level levels[APEX_ALPHA_MAX_DEPTH];
+    int depth = 0;
+    char fence_char = 0;
+    size_t fence_len = 0;
+    int blank_lines = 1;       /* Blank lines directly before this one (the start counts) */
+    bool in_list = false;      /* Inside a list of any kind, where indentation is not code */
 
     while (*read) {
         const char *line_start = read;
-        const char *line_end = strchr(read, '\n');
-        if (!line_end) line_end = read + strlen(read);
-        bool has_newline = (*line_end == '\n');
+        const char *next_line = strchr(read, '\n');
+        const char *line_end = next_line ? next_line : read + strlen(read);
+        next_line = next_line ? next_line + 1 : line_end;
+        if (line_end > line_start && line_end[-1] == '\r') line_end--;
 
-        /* Check for line start */
         const char *p = line_start;
+        size_t indent = 0;
         while (p < line_end && (*p == ' ' || *p == '\t')) {
+            indent = *p == '\t' ? (indent / 4 + 1) * 4 : indent + 1;
             p++;
         }
-
-        /* Check if line starts with alpha marker */
-        bool is_alpha_marker = false;
-        char alpha_char = 0;
-        bool alpha_is_upper = false;
-
-        if (p < line_end) {
-            if (*p >= 'a' && *p <= 'z' && p + 1 < line_end && p[1] == '.' &&
-                (p + 2 >= line_end || (p[2] == ' ' || p[2] == '\t'))) {
-                is_alpha_marker = true;
-                alpha_char = *p;
-                alpha_is_upper = false;
-            } else if (*p >= 'A' && *p <= 'Z' && p + 1 < line_end && p[1] == '.' &&
-                       (p + 2 >= line_end || (p[2] == ' ' || p[2] == '\t'))) {
-                is_alpha_marker = true;
-                alpha_char = *p;
-                alpha_is_upper = true;
-            }
-        }
-
-        if (is_alpha_marker) {
-            /* Check if this continues an existing alpha list */
-            bool continues_list = false;
-            if (in_alpha_list) {
-                if (alpha_is_upper == is_upper) {
-                    if (alpha_is_upper) {
-                        if (alpha_char == expected_upper) {
-                            continues_list = true;
-                        }
-                    } else {
-                        if (alpha_char == expected_lower) {
-                            continues_list = true;
-                        }
-                    }
-                }
-            }
-
-            if (!continues_list) {
-                /* Start new alpha list */
-                in_alpha_list = true;
-                is_upper = alpha_is_upper;
-                item_number = 1;
-                blank_lines_since_alpha = 0;
-                if (alpha_is_upper) {
-                    expected_upper = alpha_char;
-                } else {
-                    expected_lower = alpha_char;
-                }
-                /* Add marker paragraph before the list (will be rendered as <p data-apex-alpha-list="lower|upper"></p>) */
-                int needed = snprintf(write, remaining, "[apex-alpha-list:%s]\n\n", alpha_is_upper ? "upper" : "lower");
-                if (needed > 0 && needed < (int)remaining) {
-                    write += needed;
-                    remaining -= needed;
-                }
-            } else {
-                blank_lines_since_alpha = 0;  /* Reset on continuation */
-            }
-
-            /* Convert alpha marker to numbered marker */
-            int needed = snprintf(write, remaining, "%.*s%d. ", (int)(p - line_start), line_start, item_number);
-            if (needed > 0 && needed < (int)remaining) {
-                write += needed;
-                remaining -= needed;
-            }
-
-            /* Advance past the alpha marker and copy the rest of the line */
-            const char *line_rest = p + 2;  /* Skip "a." or "A." */
-            size_t line_rest_len = line_end - line_rest;
-            if (has_newline) {
-                line_rest_len++;  /* Include newline */
-            }
-            if (line_rest_len > remaining) {
-                /* Buffer too small, but try to copy what we can */
-                line_rest_len = remaining;
-            }
-            if (line_rest_len > 0) {
-                memcpy(write, line_rest, line_rest_len);
-                write += line_rest_len;
-                remaining -= line_rest_len;
-            }
-            read = line_end;
-            if (has_newline && *read == '\n') read++;
-            item_number++;
-
-            /* Update expected next character */
-            if (alpha_is_upper) {
-                expected_upper++;
-                if (expected_upper > 'Z') expected_upper = 'A';  /* Wrap around */
-            } else {
-                expected_lower++;
-                if (expected_lower > 'z') expected_lower = 'a';  /* Wrap around */
-            }
-            continue;  /* Skip the else block since we've handled this line */
+        size_t line_total = (size_t)(next_line - line_start);
+        bool blank = p == line_end;
+        bool verbatim = false;
+
+        size_t run = 0;
+        while (p + run < line_end && (*p == '`' || *p == '~') && p[run] == *p) run++;
+        if (fence_char) {
+            verbatim = true;
+            if (*p == fence_char && run >= fence_len) {
+                const char *rest = p + run;
+                while (rest < line_end && (*rest == ' ' || *rest == '\t')) rest++;
+                if (rest == line_end) fence_char = 0;
+            }
+        } else if (run >= 3 && (*p == '~' || !memchr(p + run, '`', (size_t)(line_end - p) - run))) {
+            verbatim = true;
+            fence_char = *p;
+            fence_len = run;
+        } else if (!blank && indent >= 4 && blank_lines > 0 && !in_list) {
+            verbatim = true;  /* Indented code block */
+        }
+
+        bool alpha = !verbatim && line_end - p >= 2 && isalpha((unsigned char)*p) && (unsigned char)*p < 128 &&
+                     p[1] == '.' && (p + 2 == line_end || p[2] == ' ' || p[2] == '\t');
+        bool continues = false;
+        if (alpha) {
+            while (depth > 0 && levels[depth - 1].indent > indent) depth--;
+            bool sibling = depth > 0 && levels[depth - 1].indent == indent;
+            continues = sibling && levels[depth - 1].next == *p;
+            if (!continues && !sibling && blank_lines == 0 && *p != 'a' && *p != 'A') {
+                alpha = false;  /* Like numbers, only the first letter interrupts a paragraph */
+            } else if (sibling && !continues) {
+                depth--;
+            } else if (!continues && depth == APEX_ALPHA_MAX_DEPTH) {
+                alpha = false;
+            }
+        }
+
+        if (alpha) {
+            if (!continues) {
+                /* Marker paragraph before the list (rendered as <p>[apex-alpha-list:lower|upper]</p>) */
+                if (blank_lines == 0) *write++ = '\n';
+                memcpy(write, line_start, (size_t)(p - line_start));
+                write += p - line_start;
+                write += sprintf(write, "[apex-alpha-list:%s]\n\n", isupper((unsigned char)*p) ? "upper" : "lower");
+                levels[depth].indent = indent;
+                levels[depth].count = 0;
+                depth++;
+            }
+            apex_alpha_level *level = &levels[depth - 1];
+            char first = isupper((unsigned char)*p) ? 'A' : 'a';
+            level->next = *p == first + 25 ? first : *p + 1;
+            level->count++;
+            memcpy(write, line_start, (size_t)(p - line_start));
+            write += p - line_start;
+            /* The first number is the list's start; later ones stay as short as the letter */
+            write += sprintf(write, "%d.", level->count == 1 ? *p - first + 1 : level->count % 10);
+            line_total -= (size_t)(p + 2 - line_start);
+            line_start = p + 2;
+            in_list = true;
+            blank_lines = 0;
+        } else if (blank && !verbatim) {
+            /* Two blank lines end the alpha lists */
+            if (++blank_lines >= 2) depth = 0;
         } else {
-            /* Not an alpha marker - check if we should end the list */
-            if (in_alpha_list) {
-                /* Blank line - count it */
-                if (line_end == line_start || (p >= line_end)) {
-                    blank_lines_since_alpha++;
-                    /* If we have 2+ blank lines, end the alpha list */
-                    if (blank_lines_since_alpha >= 2) {
-                        in_alpha_list = false;
-                    }
-                } else {
-                    /* Check if it's a numbered list marker starting with "1." after blank lines */
-                    bool had_blank_lines = (blank_lines_since_alpha > 0);
-                    /* Reset blank line counter on non-blank line */
-                    blank_lines_since_alpha = 0;
-
-                    if (*p >= '0' && *p <= '9') {
-                        /* Parse the number */
-                        int num = 0;
-                        const char *num_p = p;
-                        while (num_p < line_end && *num_p >= '0' && *num_p <= '9') {
-                            num = num * 10 + (*num_p - '0');
-                            num_p++;
-                        }
-                        /* If it's "1. " after blank lines (from ^ marker), end alpha list */
-                        if (num == 1 && num_p < line_end && *num_p == '.' &&
-                            (num_p + 1 >= line_end || num_p[1] == ' ' || num_p[1] == '\t') &&
-                            had_blank_lines) {
-                            in_alpha_list = false;
-                            /* Insert a paragraph with a space to force block separation */
-                            /* The parser will see this as a block break and create separate lists */
-                            int needed = snprintf(write, remaining, "\n\n \n\n");
-                            if (needed > 0 && needed < (int)remaining) {
-                                write += needed;
-                                remaining -= needed;
-                            }
-                        } else {
-                            /* Other numbered markers also end alpha list */
-                            in_alpha_list = false;
-                        }
-                    } else if (*p == '*' || *p == '-' || *p == '+') {
-                        /* Bullet list marker - ends alpha list */
-                        in_alpha_list = false;
-                    } else {
-                        /* Non-list content ends the alpha list */
-                        in_alpha_list = false;
+            bool list_marker = !verbatim && apex_list_marker_length(p, line_end) > 0;
+            bool numbered = list_marker && isdigit((unsigned char)*p);
+            if (list_marker || blank_lines > 0 || *p == '#' || *p == '>' || verbatim) {
+                /* Ends the lists it is not indented under */
+                while (depth > 0 && levels[depth - 1].indent >= indent) {
+                    if (numbered && levels[depth - 1].indent == indent) {
+                        /* Keep a numbered list from joining the alpha list before it */
+                        if (blank_lines == 0) *write++ = '\n';
+                        memcpy(write, line_start, (size_t)(p - line_start));
+                        write += p - line_start;
+                        write += sprintf(write, "[apex-alpha-list:ended]\n\n");
                     }
+                    depth--;
                 }
             }
-
-            /* Copy line as-is */
-            size_t line_len = line_end - line_start;
-            if (line_end < read + strlen(read)) line_len++;  /* Include newline */
-            if (line_len > remaining) line_len = remaining;
-            memcpy(write, line_start, line_len);
-            write += line_len;
-            remaining -= line_len;
-            read = line_end;
-            if (*read == '\n') read++;
+            if (list_marker) in_list = true;
+            else if (indent == 0 && blank_lines > 0) in_list = false;
+            blank_lines = 0;
         }
+
+        memcpy(write, line_start, line_total);
+        write += line_total;
+        read = next_line;
     }
 
     *write = '\0';
@@ -1985,7 +1949,7 @@ static char *apex_postprocess_alpha_lists_html(const char *html) {
 
     /* Helper macro for buffer expansion */
     #define ENSURE_SPACE(needed) do { \
-        if (remaining < (needed)) { \
+        if (remaining <= (needed)) { \
             size_t used = write - output; \
             size_t new_capacity = (used + (needed) + 1) * 2; \
             char *new_output = realloc(output, new_capacity); \
@@ -2010,12 +1974,23 @@ static char *apex_postprocess_alpha_lists_html(const char *html) {
                 const char *marker_end = NULL;
 
                 /* Check for lower or upper */
-                if (read + 20 < html + html_len && strncmp(read + 20, "lower]</p>", 9) == 0) {
+                if (read + 20 < html + html_len && strncmp(read + 20, "lower]</p>", 10) == 0) {
                     marker_end = read + 29;  /* "<p>[apex-alpha-list:lower]</p>" */
                     is_upper = false;
-                } else if (read + 20 < html + html_len && strncmp(read + 20, "upper]</p>", 9) == 0) {
+                } else if (read + 20 < html + html_len && strncmp(read + 20, "upper]</p>", 10) == 0) {
                     marker_end = read + 29;  /* "<p>[apex-alpha-list:upper]</p>" */
                     is_upper = true;
+                } else if (read + 20 < html + html_len && strncmp(read + 20, "ended]</p>", 10) == 0) {
+                    /* Separator after an alpha list: nothing to style */
+                    size_t copy_len = read - read_start;
+                    ENSURE_SPACE(copy_len);
+                    memcpy(write, read_start, copy_len);
+                    write += copy_len;
+                    remaining -= copy_len;
+                    read += 30;
+                    if (*read == '\n') read++;
+                    read_start = read;
+                    continue;
                 }
 
                 if (marker_end) {
-- 
2.43.0


From a85cb6f0a546d0d71195155666003de273510500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:55 +0000
Subject: [PATCH 34/66] fix: table captions and column spans touch only tables
 and lines next to them; alpha lists skip all of an indented code block

---
 src/apex.c | 873 ++++++++++++++---------------------------------------
 1 file changed, 222 insertions(+), 651 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index b304837..dd77f68 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -947,430 +947,6 @@ static char *apex_protect_liquid_tags(const char *text,
     return output;
 }
 
-/**
- * Preprocess table captions to normalize different syntaxes before parsing.
- *
- * Handles two cases:
- * 1. Contiguous [Caption] lines immediately following a table row:
- *    - Detects a caption line like "[Caption]" directly after a line
- *      containing table cells (with '|').
- *    - Inserts a blank line between the table row and the caption line so
- *      cmark-gfm parses the caption as a separate paragraph, which our
- *      existing caption logic already understands.
- *
- * 2. Pandoc-style captions using "Table: Caption" after a table:
- *    - When a line starting with "Table:" immediately follows a table row,
- *      converts it to a MultiMarkdown-style caption "[Caption]" and inserts
-      a blank line before it.
- *    - The caption text is trimmed of surrounding whitespace.
- *
- * NOTE: This is a text-level transform that runs before any table parsing
- * or advanced table processing. It intentionally skips fenced code blocks.
- */
-static char *apex_preprocess_table_captions(const char *text) {
-    if (!text) return NULL;
-
-    size_t len = strlen(text);
-    /* Allow room for extra blank lines and brackets when converting captions */
-    size_t cap = len * 2 + 1;
-    char *out = malloc(cap);
-    if (!out) return NULL;
-
-    const char *read = text;
-    char *write = out;
-    bool prev_line_was_table_row = false;
-    bool prev_line_was_blank = false;
-    bool in_code_block = false;
-    /* Track if we buffered a blank line that should be skipped if next line is a caption */
-    bool buffered_blank_line = false;
-    /* Track if we're in a table section (after a table, across blank lines and captions) */
-    bool in_table_section = false;
-
-    while (*read) {
-        const char *line_start = read;
-        /* Find line ending - handle CRLF, CR, and LF */
-        const char *line_end = NULL;
-        const char *cr_pos = strchr(read, '\r');
-        const char *lf_pos = strchr(read, '\n');
-
-        /* Determine which line ending we have (prefer CRLF, then CR, then LF) */
-        if (cr_pos && lf_pos && cr_pos < lf_pos && (lf_pos - cr_pos) == 1) {
-            /* CRLF sequence - line ends at CR, LF follows */
-            line_end = cr_pos;
-        } else if (cr_pos && (!lf_pos || cr_pos < lf_pos)) {
-            /* CR without following LF, or CR comes before LF */
-            line_end = cr_pos;
-        } else if (lf_pos) {
-            /* LF only */
-            line_end = lf_pos;
-        } else {
-            /* No line ending found - end of string */
-            line_end = read + strlen(read);
-        }
-
-        /* has_newline indicates whether we found any line ending character */
-        bool has_newline = (line_end != NULL && line_end < read + strlen(read));
-        /* Determine the type of line ending for proper handling */
-        bool has_crlf = (has_newline && line_end[0] == '\r' && line_end[1] == '\n');
-
-        /* Determine line properties */
-        const char *p = line_start;
-        while (p < line_end && (*p == ' ' || *p == '\t')) {
-            p++;
-        }
-
-        /* Track fenced code blocks (``` or ~~~) and skip caption transforms inside */
-        if (!in_code_block &&
-            (line_end - p) >= 3 &&
-            ((p[0] == '`' && p[1] == '`' && p[2] == '`') ||
-             (p[0] == '~' && p[1] == '~' && p[2] == '~'))) {
-            in_code_block = true;
-        } else if (in_code_block &&
-                   (line_end - p) >= 3 &&
-                   ((p[0] == '`' && p[1] == '`' && p[2] == '`') ||
-                    (p[0] == '~' && p[1] == '~' && p[2] == '~'))) {
-            in_code_block = false;
-        }
-
-        bool is_table_row_line = false;
-        bool is_bracket_caption_line = false;
-        bool is_pandoc_caption_line = false;
-        bool is_colon_caption_line = false;
-        bool is_blank_line = false;
-
-        if (!in_code_block) {
-            /* Treat any line containing '|' as a candidate table row */
-            for (const char *q = line_start; q < line_end; q++) {
-                if (*q == '|') {
-                    is_table_row_line = true;
-                    break;
-                }
-            }
-
-            if (p >= line_end) {
-                is_blank_line = true;
-            } else if (*p == '[') {
-                is_bracket_caption_line = true;
-            } else if ((size_t)(line_end - p) >= 6 &&
-                       (strncmp(p, "Table:", 6) == 0 || strncmp(p, "table:", 6) == 0)) {
-                /* Table: at start of line (after whitespace) - always treat as caption */
-                is_pandoc_caption_line = true;
-            } else if (prev_line_was_table_row || prev_line_was_blank || in_table_section) {
-                /* Also check for Table: later in the line (when it appears immediately after a table row) */
-                const char *table_check = p;
-                while (table_check < line_end - 5) {
-                    if (strncmp(table_check, "Table:", 6) == 0 || strncmp(table_check, "table:", 6) == 0) {
-                        is_pandoc_caption_line = true;
-                        break;
-                    }
-                    table_check++;
-                }
-                /* Check for : Caption format (Pandoc-style, only after tables) */
-                /* Skip up to 3 leading spaces (matching definition list rules) */
-                const char *check = p;
-                int spaces = 0;
-                while (spaces < 3 && check < line_end && *check == ' ') {
-                    spaces++;
-                    check++;
-                }
-                /* Must start with : followed by space or tab */
-                if (check < line_end && *check == ':' &&
-                    (check + 1) < line_end &&
-                    (check[1] == ' ' || check[1] == '\t')) {
-                    is_colon_caption_line = true;
-                }
-            }
-        }
-
-        size_t line_len = (size_t)(line_end - line_start);
-
-        if (!in_code_block &&
-            prev_line_was_table_row &&
-            is_bracket_caption_line) {
-            /* Case 1: [Caption] immediately after table row -> ALWAYS insert blank line */
-            /* This prevents the caption from being parsed as part of the table */
-            *write++ = '\n';
-            memcpy(write, line_start, line_len);
-            write += line_len;
-            /* Write line ending - always use LF for output consistency */
-            if (has_newline) {
-                *write++ = '\n';
-            }
-        } else if (!in_code_block &&
-                   is_pandoc_caption_line) {
-            /* Case 2: Pandoc-style 'Table: Caption {#id .class}' -> convert to '[Caption {#id .class}]' */
-            /* Note: We check is_pandoc_caption_line without requiring prev_line_was_table_row
-             * because Table: format is unambiguous and should work even after blank lines.
-             * However, when it appears immediately after a table row (prev_line_was_table_row=true),
-             * we need to ensure the table ends before the caption, so we always insert a blank line. */
-            /* Find where 'Table:' or 'table:' appears in the line (might not be at the start) */
-            const char *table_marker = strstr(line_start, "Table:");
-            if (!table_marker || table_marker >= line_end) {
-                table_marker = strstr(line_start, "table:");
-                if (!table_marker || table_marker >= line_end) {
-                    table_marker = p; /* Fallback to p if not found */
-                }
-            }
-            const char *caption_start = table_marker + 6; /* after 'Table:' or 'table:' */
-            while (caption_start < line_end &&
-                   (*caption_start == ' ' || *caption_start == '\t')) {
-                caption_start++;
-            }
-
-            /* Find end of caption (before IAL if present, or end of line) */
-            const char *caption_end = line_end;
-            /* Look for IAL pattern from the end */
-            const char *search = caption_end - 1;
-            while (search >= caption_start) {
-                if (*search == '}') {
-                    /* Found closing brace, look backwards for opening brace */
-                    const char *open = search;
-                    while (open >= caption_start && *open != '{') {
-                        open--;
-                    }
-                    if (open >= caption_start && *open == '{') {
-                        /* Check if it's a valid IAL pattern */
-                        if ((open[1] == ':' || open[1] == '#' || open[1] == '.') &&
-                            search > open) {
-                            caption_end = open; /* Caption ends before IAL */
-                            break;
-                        }
-                    }
-                }
-                search--;
-            }
-
-            /* Trim whitespace from caption */
-            while (caption_end > caption_start &&
-                   (caption_end[-1] == ' ' || caption_end[-1] == '\t' ||
-                    caption_end[-1] == '\r')) {
-                caption_end--;
-            }
-
-            if (caption_end > caption_start) {
-                size_t caption_len = (size_t)(caption_end - caption_start);
-                /* If we buffered a blank line, skip it (don't write it) since caption follows */
-                buffered_blank_line = false; /* Discard the buffered blank line */
-
-                /* If Table: appears in the middle of the line (after table row content),
-                 * write the table row part first, then the caption */
-                if (table_marker > line_start) {
-                    /* Write the table row part (everything before Table:) */
-                    size_t table_part_len = (size_t)(table_marker - line_start);
-                    memcpy(write, line_start, table_part_len);
-                    write += table_part_len;
-                    /* ALWAYS write a newline to close the table row, even if the original line didn't have one */
-                    *write++ = '\n';
-                }
-
-                /* ALWAYS insert blank line to prevent caption from being parsed as table row */
-                *write++ = '\n';      /* blank line between table and caption */
-                *write++ = '[';
-                memcpy(write, caption_start, caption_len);
-                write += caption_len;
-                *write++ = ']';
-                /* Clear table section flag after processing Table: caption */
-                in_table_section = false;
-
-                /* Write IAL if present (from original line, after the bracket) */
-                if (caption_end < line_end) {
-                    /* There's IAL after the caption */
-                    const char *ial_start = caption_end;
-                    while (ial_start < line_end && isspace((unsigned char)*ial_start)) {
-                        ial_start++;
-                    }
-                    if (ial_start < line_end) {
-                        /* Add space before IAL */
-                        *write++ = ' ';
-                        size_t ial_len = (size_t)(line_end - ial_start);
-                        memcpy(write, ial_start, ial_len);
-                        write += ial_len;
-                    }
-                }
-
-                if (has_newline) {
-                    *write++ = '\n';
-                }
-            } else {
-                /* Empty caption text - fall back to copying the line as-is */
-                memcpy(write, line_start, line_len);
-                write += line_len;
-                if (has_newline) {
-                    *write++ = '\n';
-                }
-            }
-        } else if (!in_code_block &&
-                   prev_line_was_table_row &&
-                   is_colon_caption_line) {
-            /* Case 3: Pandoc-style ': Caption {#id .class}' -> convert to '[Caption {#id .class}]' */
-            /* Skip leading whitespace (up to 3 spaces) */
-            const char *caption_start = p;
-            int spaces = 0;
-            while (spaces < 3 && caption_start < line_end && *caption_start == ' ') {
-                spaces++;
-                caption_start++;
-            }
-            /* Skip ': ' */
-            if (caption_start < line_end && *caption_start == ':' &&
-                (caption_start + 1) < line_end &&
-                (caption_start[1] == ' ' || caption_start[1] == '\t')) {
-                caption_start += 2; /* Skip ': ' */
-            }
-
-            /* Find end of caption (before IAL if present, or end of line) */
-            const char *caption_end = line_end;
-            /* Look for IAL pattern from the end */
-            const char *search = caption_end - 1;
-            while (search >= caption_start) {
-                if (*search == '}') {
-                    /* Found closing brace, look backwards for opening brace */
-                    const char *open = search;
-                    while (open >= caption_start && *open != '{') {
-                        open--;
-                    }
-                    if (open >= caption_start && *open == '{') {
-                        /* Check if it's a valid IAL pattern */
-                        if ((open[1] == ':' || open[1] == '#' || open[1] == '.') &&
-                            search > open) {
-                            caption_end = open; /* Caption ends before IAL */
-                            break;
-                        }
-                    }
-                }
-                search--;
-            }
-
-            /* Trim whitespace from caption */
-            while (caption_start < caption_end && isspace((unsigned char)*caption_start)) {
-                caption_start++;
-            }
-            while (caption_end > caption_start && isspace((unsigned char)*(caption_end - 1))) {
-                caption_end--;
-            }
-
-            /* If we buffered a blank line, skip it (don't write it) since caption follows */
-            buffered_blank_line = false; /* Discard the buffered blank line */
-            /* ALWAYS insert blank line to prevent caption from being parsed as table row */
-            *write++ = '\n';
-            *write++ = '[';
-
-            /* Write caption text */
-            if (caption_end > caption_start) {
-                size_t caption_len = (size_t)(caption_end - caption_start);
-                memcpy(write, caption_start, caption_len);
-                write += caption_len;
-            }
-
-            *write++ = ']';
-            /* Keep in_table_section true after colon caption, in case there's a Table: caption next */
-            in_table_section = true;
-
-            /* Write IAL if present (from original line, after the bracket) */
-            if (caption_end < line_end) {
-                /* There's IAL after the caption */
-                const char *ial_start = caption_end;
-                while (ial_start < line_end && isspace((unsigned char)*ial_start)) {
-                    ial_start++;
-                }
-                if (ial_start < line_end) {
-                    /* Add space before IAL */
-                    *write++ = ' ';
-                    size_t ial_len = (size_t)(line_end - ial_start);
-                    memcpy(write, ial_start, ial_len);
-                    write += ial_len;
-                }
-            }
-            if (has_newline) {
-                *write++ = '\n';
-            }
-        } else if (!in_code_block && is_blank_line && (prev_line_was_table_row || prev_line_was_blank || in_table_section)) {
-            /* Blank line after table - might be before a caption, so buffer it */
-            /* Also buffer if previous line was blank (chain of blank lines after table) */
-            /* Or if we're in a table section (after processing a caption, still in table context) */
-            /* We'll check the next line to see if it's a caption before writing this blank line */
-            /* Update state to preserve prev_line_was_table_row */
-            prev_line_was_blank = true;
-            /* Mark that we have a buffered blank line */
-            buffered_blank_line = true;
-            /* Keep in_table_section true */
-            in_table_section = true;
-            /* Advance to next line, handling CRLF, CR, or LF */
-            if (has_newline) {
-                read = line_end + 1;
-                /* Skip LF if we had CRLF */
-                if (has_crlf) {
-                    read++;
-                }
-            } else {
-                read = line_end;
-            }
-            /* Don't write this blank line yet - continue to check next line */
-            continue; /* Skip writing this line for now */
-        } else {
-            /* Default: copy line unchanged */
-            /* If we buffered a blank line and this isn't a caption, write it now */
-            if (buffered_blank_line &&
-                !is_bracket_caption_line &&
-                !is_pandoc_caption_line &&
-                !is_colon_caption_line) {
-                /* Write the buffered blank line at current position */
-                *write++ = '\n';
-                buffered_blank_line = false;
-            }
-            memcpy(write, line_start, line_len);
-            write += line_len;
-            /* Write line ending - always use LF for output consistency */
-            if (has_newline) {
-                *write++ = '\n';
-            }
-            buffered_blank_line = false; /* Clear buffer since we wrote the line */
-        }
-
-        /* Advance to next line, handling CRLF, CR, or LF */
-        if (has_newline) {
-            read = line_end + 1;
-            /* Skip LF if we had CRLF */
-            if (has_crlf) {
-                read++;
-            }
-        } else {
-            read = line_end;
-        }
-        if (!in_code_block) {
-            if (is_table_row_line) {
-                /* Remember that the last non-blank, table-looking line was a row */
-                prev_line_was_table_row = true;
-                prev_line_was_blank = false;
-                in_table_section = true; /* Enter table section */
-            } else if (!is_blank_line) {
-                /* Any non-blank, non-table line clears the table-row context */
-                /* But don't clear in_table_section if we just processed a caption */
-                if (!is_bracket_caption_line && !is_pandoc_caption_line && !is_colon_caption_line) {
-                    prev_line_was_table_row = false;
-                    in_table_section = false; /* Only clear if not a caption */
-                }
-                prev_line_was_blank = false;
-            } else {
-                /* Blank line - preserve prev_line_was_table_row and set prev_line_was_blank */
-                prev_line_was_blank = true;
-                /* Blank lines preserve prev_line_was_table_row so that
-                 * 'Table: Caption' can appear after one or more blank lines.
-                 * Note: prev_line_was_table_row is NOT modified here - it remains
-                 * whatever it was from the previous iteration. */
-                /* Also preserve in_table_section across blank lines */
-            }
-        }
-    }
-
-    /* Ensure output always ends with a newline (required for cmark-gfm table parsing) */
-    if (write > out && write[-1] != '\n' && write[-1] != '\r') {
-        *write++ = '\n';
-    }
-
-    *write = '\0';
-    return out;
-}
-
 static char *apex_restore_liquid_tags(const char *html,
                                       char **tags,
                                       size_t tag_count) {
@@ -1534,237 +1110,243 @@ static void apex_restore_liquid_tags_in_tree(cmark_node *document, char **tags,
     cmark_iter_free(iter);
 }
 
+/** Length of a bullet or numbered list marker at p (0 if there is none). */
+static size_t apex_list_marker_length(const char *p, const char *end) {
+    const char *q = p;
+    if (q < end && (*q == '*' || *q == '-' || *q == '+')) {
+        q++;
+    } else {
+        while (q < end && isdigit((unsigned char)*q) && q - p < 9) q++;
+        if (q == p || q >= end || (*q != '.' && *q != ')')) return 0;
+        q++;
+    }
+    return (q == end || *q == ' ' || *q == '\t') ? (size_t)(q - p) : 0;
+}
+
+/* A line as seen by the table preprocessing */
+typedef struct {
+    const char *start;  /* First byte */
+    const char *text;   /* First byte that is not a blank */
+    const char *end;    /* Line ending (LF, CR or CRLF) or end of text */
+    const char *next;   /* Start of the next line */
+    bool verbatim;      /* Part of a code block */
+    bool table;         /* Row of a table (header, separator or body) */
+} apex_table_line;
+
+/** Separator row of a table: only pipes, dashes, colons and blanks, after any quote markers. */
+static bool apex_is_table_separator(const apex_table_line *line) {
+    const char *p = line->text;
+    while (p < line->end && (*p == '>' || *p == ' ' || *p == '\t')) p++;
+    bool dash = false, pipe = false;
+    for (; p < line->end; p++) {
+        if (*p == '-') dash = true;
+        else if (*p == '|') pipe = true;
+        else if (*p != ':' && *p != ' ' && *p != '\t') return false;
+    }
+    return dash && pipe;
+}
+
 /**
- * Preprocess table rows to convert consecutive pipes without whitespace into << markers
- * for colspan detection.
+ * Split text into lines, marking code blocks and the rows of tables: the line above a
+ * separator row, the separator row, and the lines with pipes that follow.
+ */
+static apex_table_line *apex_scan_table_lines(const char *text, size_t *count) {
+    size_t n = 1;
+    for (const char *p = text; *p; p++) {
+        if (*p == '\n' || *p == '\r') n++;
+    }
+    apex_table_line *lines = malloc(n * sizeof(apex_table_line));
+    if (!lines) return NULL;
+
+    char fence_char = 0;
+    size_t fence_len = 0;
+    bool after_blank = true;  /* The start counts as blank */
+    bool in_code = false;     /* Previous line was indented code */
+    bool in_list = false;     /* Inside a list, where indentation is not code */
+    n = 0;
+    for (const char *p = text; *p; n++) {
+        apex_table_line *line = &lines[n];
+        line->start = p;
+        line->end = p + strcspn(p, "\r\n");
+        line->next = line->end + (line->end[0] == '\r' && line->end[1] == '\n' ? 2 : *line->end ? 1 : 0);
+        line->verbatim = line->table = false;
+        size_t indent = 0;
+        while (p < line->end && (*p == ' ' || *p == '\t')) {
+            indent = *p == '\t' ? (indent / 4 + 1) * 4 : indent + 1;
+            p++;
+        }
+        line->text = p;
+
+        bool blank = p == line->end;
+        size_t run = 0;
+        while (p + run < line->end && (*p == '`' || *p == '~') && p[run] == *p) run++;
+        if (fence_char) {
+            line->verbatim = true;
+            if (*p == fence_char && run >= fence_len && p + run + strspn(p + run, " \t") == line->end) fence_char = 0;
+            in_code = false;
+        } else if (!blank && indent >= 4 && !in_list && (after_blank || in_code)) {
+            line->verbatim = in_code = true;  /* Indented code block */
+        } else if (run >= 3 && (*p == '~' || !memchr(p + run, '`', (size_t)(line->end - p) - run))) {
+            line->verbatim = true;
+            fence_char = *p;
+            fence_len = run;
+        } else if (!blank) {
+            if (apex_list_marker_length(p, line->end) > 0) in_list = true;
+            else if (indent == 0 && after_blank) in_list = false;
+        }
+
+        if (!line->verbatim && !blank && n > 0) {
+            apex_table_line *above = &lines[n - 1];
+            bool has_pipe = memchr(line->start, '|', (size_t)(line->end - line->start)) != NULL;
+            if (above->table) {
+                line->table = has_pipe;
+            } else if (!above->verbatim && above->text < above->end && apex_is_table_separator(line) &&
+                       memchr(above->start, '|', (size_t)(above->end - above->start))) {
+                above->table = line->table = true;
+            }
+        }
+        after_blank = blank && !line->verbatim;
+        if (!line->verbatim && !blank) in_code = false;
+        p = line->next;
+    }
+    *count = n;
+    return lines;
+}
+
+/**
+ * Preprocess table captions to normalize different syntaxes before parsing.
  *
- * This distinguishes between:
- * - `| 1 |  |  |` - whitespace between pipes, should create separate empty cells
- * - `| 1 |||` - consecutive pipes, should create colspan
+ * Next to a table (blank lines and other captions may stand between):
+ * 1. A [Caption] line directly after a table row gets a blank line before it, so
+ *    cmark-gfm parses it as a separate paragraph, which our existing caption logic
+ *    already understands.
+ * 2. A Pandoc-style "Table: Caption {#id .class}" line before or after a table, and a
+ *    ": Caption {#id .class}" line after one, becomes "[Caption] {#id .class}", likewise
+ *    separated by a blank line.
  *
- * Converts consecutive pipes (||) to | << | pattern so the existing colspan logic
- * can recognize them.
+ * NOTE: This is a text-level transform that runs before any table parsing
+ * or advanced table processing. It intentionally skips code blocks. Line endings come
+ * out as LF, and the output ends with one (required for cmark-gfm table parsing).
  */
-static char *apex_preprocess_table_colspans(const char *text) {
+static char *apex_preprocess_table_captions(const char *text) {
     if (!text) return NULL;
 
-    size_t len = strlen(text);
-    /* Worst case: every || becomes | << | (grows by 4 chars per occurrence) */
-    size_t cap = len * 2 + 1;
-    char *out = malloc(cap);
-    if (!out) return NULL;
+    size_t count = 0;
+    apex_table_line *lines = apex_scan_table_lines(text, &count);
+    /* Each line can gain a blank line before it, brackets and a space */
+    char *out = lines ? malloc(strlen(text) + count * 4 + 2) : NULL;
+    if (!out) {
+        free(lines);
+        return NULL;
+    }
 
-    const char *read = text;
     char *write = out;
-    size_t remaining = cap;
-    bool in_code_block = false;
-
-    while (*read) {
-        const char *line_start = read;
-        /* Find line ending - handle CRLF, CR, and LF */
-        const char *line_end = NULL;
-        const char *cr_pos = strchr(read, '\r');
-        const char *lf_pos = strchr(read, '\n');
-
-        /* Determine which line ending we have (prefer CRLF, then CR, then LF) */
-        if (cr_pos && lf_pos && cr_pos < lf_pos && (lf_pos - cr_pos) == 1) {
-            line_end = cr_pos;
-        } else if (cr_pos && (!lf_pos || cr_pos < lf_pos)) {
-            line_end = cr_pos;
-        } else if (lf_pos) {
-            line_end = lf_pos;
-        } else {
-            line_end = read + strlen(read);
+    bool after_table = false;  /* Only blank lines and captions since the last table row */
+    for (size_t i = 0; i < count; i++) {
+        apex_table_line *line = &lines[i];
+        const char *p = line->text, *end = line->end;
+        bool blank = p == end;
+        const char *caption = NULL;
+
+        if (!line->verbatim && !line->table) {
+            if (strncmp(p, "Table:", 6) == 0 || strncmp(p, "table:", 6) == 0) {
+                size_t next = i + 1;
+                while (next < count && !lines[next].verbatim && lines[next].text == lines[next].end) next++;
+                if (after_table || (next < count && lines[next].table)) caption = p + 6;
+            } else if (after_table && p[0] == ':' && (p[1] == ' ' || p[1] == '\t')) {
+                caption = p + 1;
+            }
+        }
+
+        const char *caption_end = end, *attributes = end;
+        if (caption) {
+            while (caption < caption_end && (*caption == ' ' || *caption == '\t')) caption++;
+            while (caption_end > caption && (caption_end[-1] == ' ' || caption_end[-1] == '\t')) caption_end--;
+            if (caption_end > caption && caption_end[-1] == '}') {
+                const char *open = caption_end - 1;
+                while (open > caption && *open != '{') open--;
+                if (*open == '{' && (open[1] == ':' || open[1] == '#' || open[1] == '.')) {
+                    attributes = open;
+                    caption_end = open;
+                    while (caption_end > caption && (caption_end[-1] == ' ' || caption_end[-1] == '\t')) caption_end--;
+                }
+            }
+            if (caption_end == caption) caption = NULL;
         }
 
-        bool has_newline = (line_end != NULL && line_end < read + strlen(read));
-        bool has_crlf = (has_newline && line_end[0] == '\r' && line_end[1] == '\n');
-
-        /* Track fenced code blocks (``` or ~~~) and skip processing inside */
-        const char *p = line_start;
-        while (p < line_end && (*p == ' ' || *p == '\t')) {
-            p++;
+        bool bracket = !line->verbatim && !line->table && after_table && *p == '[';
+        if (i > 0 && (caption || bracket) && lines[i - 1].text < lines[i - 1].end &&
+            (caption || lines[i - 1].table)) {
+            *write++ = '\n';
         }
-
-        if (!in_code_block &&
-            (line_end - p) >= 3 &&
-            ((p[0] == '`' && p[1] == '`' && p[2] == '`') ||
-             (p[0] == '~' && p[1] == '~' && p[2] == '~'))) {
-            in_code_block = true;
-        } else if (in_code_block &&
-                   (line_end - p) >= 3 &&
-                   ((p[0] == '`' && p[1] == '`' && p[2] == '`') ||
-                    (p[0] == '~' && p[1] == '~' && p[2] == '~'))) {
-            in_code_block = false;
-        }
-
-        /* Check if this line contains a table row (has | character) */
-        bool is_table_row = false;
-        if (!in_code_block) {
-            for (const char *q = line_start; q < line_end; q++) {
-                if (*q == '|') {
-                    is_table_row = true;
-                    break;
-                }
+        memcpy(write, line->start, (size_t)((caption ? p : end) - line->start));
+        write += (caption ? p : end) - line->start;
+        if (caption) {
+            *write++ = '[';
+            memcpy(write, caption, (size_t)(caption_end - caption));
+            write += caption_end - caption;
+            *write++ = ']';
+            if (attributes < end) {
+                *write++ = ' ';
+                memcpy(write, attributes, (size_t)(end - attributes));
+                write += end - attributes;
             }
         }
+        if (line->next > end) *write++ = '\n';
 
-        if (is_table_row && !in_code_block) {
-            /* Process this table row to convert consecutive pipes */
-            const char *line_cur = line_start;
-            while (line_cur < line_end) {
-                if (*line_cur == '|') {
-                    /* Count consecutive pipes */
-                    int pipe_count = 1;
-                    const char *check = line_cur + 1;
-                    while (check < line_end && *check == '|') {
-                        pipe_count++;
-                        check++;
-                    }
+        if (line->table) after_table = true;
+        else if (line->verbatim || (!blank && !caption && !bracket)) after_table = false;
+    }
 
-                    if (pipe_count >= 2) {
-                        /* Found consecutive pipes with no whitespace - convert to | << | pattern */
-                        /* For || (2 pipes), convert to | << | (one colspan marker) */
-                        /* For ||| (3 pipes), convert to | << | << | (two colspan markers) */
-                        /* This distinguishes ||| from |  |  | */
-                        /* Write the first pipe */
-                        if (remaining < 5) {
-                            /* Need more space */
-                            size_t written = write - out;
-                            cap = (written + (line_end - line_cur) * 2 + 1) * 2;
-                            char *new_out = realloc(out, cap);
-                            if (!new_out) {
-                                free(out);
-                                return NULL;
-                            }
-                            write = new_out + written;
-                            out = new_out;
-                            remaining = cap - written;
-                        }
-                        *write++ = '|';
-                        remaining--;
-
-                        /* For each additional pipe beyond the first, add | << | */
-                        /* pipe_count=2 (||) -> add 1 marker */
-                        /* pipe_count=3 (|||) -> add 2 markers */
-                        for (int i = 1; i < pipe_count; i++) {
-                            if (remaining < 5) {
-                                size_t written = write - out;
-                                cap = (written + (line_end - line_cur) * 2 + 1) * 2;
-                                char *new_out = realloc(out, cap);
-                                if (!new_out) {
-                                    free(out);
-                                    return NULL;
-                                }
-                                write = new_out + written;
-                                out = new_out;
-                                remaining = cap - written;
-                            }
-                            *write++ = ' ';
-                            remaining--;
-                            *write++ = '<';
-                            remaining--;
-                            *write++ = '<';
-                            remaining--;
-                            *write++ = ' ';
-                            remaining--;
-                            *write++ = '|';
-                            remaining--;
-                        }
-                        line_cur += pipe_count; /* Skip all consecutive pipes */
-                        continue;
-                    }
-                }
-                /* Copy character as-is */
-                if (remaining > 0) {
-                    *write++ = *line_cur++;
-                    remaining--;
-                } else {
-                    /* Need more space */
-                    size_t written = write - out;
-                    cap = (written + (line_end - line_cur) + 1) * 2;
-                    char *new_out = realloc(out, cap);
-                    if (!new_out) {
-                        free(out);
-                        return NULL;
-                    }
-                    write = new_out + written;
-                    out = new_out;
-                    remaining = cap - written;
-                    *write++ = *line_cur++;
-                    remaining--;
-                }
-            }
-        } else {
-            /* Not a table row or in code block - copy line as-is */
-            size_t line_len = line_end - line_start;
-            if (line_len > remaining) {
-                size_t written = write - out;
-                cap = (written + line_len + 1) * 2;
-                char *new_out = realloc(out, cap);
-                if (!new_out) {
-                    free(out);
-                    return NULL;
-                }
-                write = new_out + written;
-                out = new_out;
-                remaining = cap - written;
-            }
-            memcpy(write, line_start, line_len);
-            write += line_len;
-            remaining -= line_len;
-        }
-
-        /* Copy line ending */
-        if (has_newline) {
-            if (remaining > 2) {
-                if (has_crlf) {
-                    *write++ = '\r';
-                    *write++ = '\n';
-                    remaining -= 2;
-                    read = line_end + 2;
-                } else if (line_end[0] == '\r') {
-                    *write++ = '\r';
-                    remaining--;
-                    read = line_end + 1;
-                } else {
-                    *write++ = '\n';
-                    remaining--;
-                    read = line_end + 1;
-                }
-            } else {
-                /* Need more space */
-                size_t written = write - out;
-                cap = (written + 10) * 2;
-                char *new_out = realloc(out, cap);
-                if (!new_out) {
-                    free(out);
-                    return NULL;
-                }
-                write = new_out + written;
-                out = new_out;
-                remaining = cap - written;
-                if (has_crlf) {
-                    *write++ = '\r';
-                    *write++ = '\n';
-                    remaining -= 2;
-                    read = line_end + 2;
-                } else if (line_end[0] == '\r') {
-                    *write++ = '\r';
-                    remaining--;
-                    read = line_end + 1;
-                } else {
-                    *write++ = '\n';
-                    remaining--;
-                    read = line_end + 1;
-                }
+    if (write > out && write[-1] != '\n') {
+        *write++ = '\n';
+    }
+    *write = '\0';
+    free(lines);
+    return out;
+}
+
+/**
+ * Preprocess table rows to convert consecutive pipes without whitespace into << markers
+ * for colspan detection.
+ *
+ * This distinguishes between:
+ * - `| 1 |  |  |` - whitespace between pipes, should create separate empty cells
+ * - `| 1 |||` - consecutive pipes, should create colspan
+ *
+ * Converts consecutive pipes (||) to | << | pattern so the existing colspan logic
+ * can recognize them. Text outside tables and escaped pipes are left alone.
+ */
+static char *apex_preprocess_table_colspans(const char *text) {
+    if (!text) return NULL;
+
+    size_t count = 0, pipes = 0;
+    for (const char *p = text; *p; p++) {
+        if (*p == '|') pipes++;
+    }
+    apex_table_line *lines = apex_scan_table_lines(text, &count);
+    /* Each pipe can gain " << " before it */
+    char *out = lines ? malloc(strlen(text) + pipes * 4 + 1) : NULL;
+    if (!out) {
+        free(lines);
+        return NULL;
+    }
+
+    char *write = out;
+    for (size_t i = 0; i < count; i++) {
+        bool after_pipe = false;  /* After a pipe that ends a cell */
+        for (const char *p = lines[i].start; p < lines[i].next; p++) {
+            bool pipe = *p == '|' && (p == lines[i].start || p[-1] != '\\');
+            if (pipe && after_pipe && lines[i].table) {
+                memcpy(write, " << ", 4);
+                write += 4;
             }
-        } else {
-            read = line_end;
+            *write++ = *p;
+            after_pipe = pipe;
         }
     }
-
     *write = '\0';
+    free(lines);
     return out;
 }
 
@@ -1777,19 +1359,6 @@ typedef struct {
     int count;      /* Items so far */
 } apex_alpha_level;
 
-/** Length of a bullet or numbered list marker at p (0 if there is none). */
-static size_t apex_list_marker_length(const char *p, const char *end) {
-    const char *q = p;
-    if (q < end && (*q == '*' || *q == '-' || *q == '+')) {
-        q++;
-    } else {
-        while (q < end && isdigit((unsigned char)*q) && q - p < 9) q++;
-        if (q == p || q >= end || (*q != '.' && *q != ')')) return 0;
-        q++;
-    }
-    return (q == end || *q == ' ' || *q == '\t') ? (size_t)(q - p) : 0;
-}
-
 /**
  * Preprocess alpha list markers (a., b., c. and A., B., C.)
  * Converts them to numbered markers (1., 2., 3.) and adds markers for post-processing.
@@ -1817,6 +1386,7 @@ static char *apex_preprocess_alpha_lists(const char *text) {
     size_t fence_len = 0;
     int blank_lines = 1;       /* Blank lines directly before this one (the start counts) */
     bool in_list = false;      /* Inside a list of any kind, where indentation is not code */
+    bool in_code = false;      /* Previous line was indented code */
 
     while (*read) {
         const char *line_start = read;
@@ -1844,13 +1414,14 @@ static char *apex_preprocess_alpha_lists(const char *text) {
                 while (rest < line_end && (*rest == ' ' || *rest == '\t')) rest++;
                 if (rest == line_end) fence_char = 0;
             }
+        } else if (!blank && indent >= 4 && (blank_lines > 0 || in_code) && !in_list) {
+            verbatim = in_code = true;  /* Indented code block */
         } else if (run >= 3 && (*p == '~' || !memchr(p + run, '`', (size_t)(line_end - p) - run))) {
             verbatim = true;
             fence_char = *p;
             fence_len = run;
-        } else if (!blank && indent >= 4 && blank_lines > 0 && !in_list) {
-            verbatim = true;  /* Indented code block */
         }
+        if (fence_char || !verbatim) in_code = false;
 
         bool alpha = !verbatim && line_end - p >= 2 && isalpha((unsigned char)*p) && (unsigned char)*p < 128 &&
                      p[1] == '.' && (p + 2 == line_end || p[2] == ' ' || p[2] == '\t');
-- 
2.43.0


From d52fd9e37a5f45bf4f7b3001cf079e8e4467a7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:56 +0000
Subject: [PATCH 35/66] fix: hashtags and proofreader marks leave code, HTML
 and links alone

---
 src/apex.c | 286 ++++++++++++++---------------------------------------
 1 file changed, 72 insertions(+), 214 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index dd77f68..c931c1e 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -749,6 +749,66 @@ static char *apex_preprocess_autolinks(const char *text, const apex_options *opt
     return out;
 }
 
+/**
+ * Proofreader mode: convert ==text== and ~~text~~ to CriticMarkup highlights and
+ * deletions. Both delimiters are runs of exactly two next to the text, in the same
+ * paragraph. Code, HTML and existing CriticMarkup are left alone.
+ */
+static char *apex_preprocess_proofreader(const char *text) {
+    /* Each pair of delimiters gains two characters */
+    char *output = malloc(strlen(text) * 2 + 1);
+    if (!output) return NULL;
+
+    static const char *critic[][2] = {
+        { "{++", "++}" }, { "{--", "--}" }, { "{~~", "~~}" }, { "{==", "==}" }, { "{>>", "<<}" }
+    };
+    const char *read = text;
+    char *write = output;
+    while (*read) {
+        size_t copy = *read == '[' ? 0 : apex_autolink_verbatim_length(text, read);
+        for (size_t i = 0; !copy && i < sizeof(critic) / sizeof(critic[0]); i++) {
+            const char *close = strncmp(read, critic[i][0], 3) == 0 ? strstr(read + 3, critic[i][1]) : NULL;
+            if (close) copy = (size_t)(close + 3 - read);
+        }
+        if (!copy && *read == '\\' && read[1]) copy = 2;
+        if (!copy && (*read == '=' || *read == '~')) {
+            const char delimiter[2] = { *read, '\0' };
+            copy = strspn(read, delimiter);
+            const char *limit = apex_autolink_paragraph_end(read);
+            const char *p = read + copy;
+            const char *close = NULL;
+            const char *q = copy == 2 && !isspace((unsigned char)*p) ? p : limit;
+            while (q < limit && !close) {
+                size_t skip = *q == '[' ? 0 : apex_autolink_verbatim_length(text, q);
+                size_t run = strspn(q, delimiter);
+                if (skip) q += skip;
+                else if (*q == '\\' && q + 1 < limit) q += 2;
+                else if (run == 2 && !isspace((unsigned char)q[-1])) close = q;
+                else q += run ? run : 1;
+            }
+            if (close) {
+                char mark = *read == '=' ? '=' : '-';
+                *write++ = '{';
+                *write++ = mark;
+                *write++ = mark;
+                memcpy(write, p, (size_t)(close - p));
+                write += close - p;
+                *write++ = mark;
+                *write++ = mark;
+                *write++ = '}';
+                read = close + 2;
+                continue;
+            }
+        }
+        if (!copy) copy = 1;
+        memcpy(write, read, copy);
+        write += copy;
+        read += copy;
+    }
+    *write = '\0';
+    return output;
+}
+
 /* ------------------------------------------------------------------------- */
 /* Liquid tag protection                                                     */
 /*                                                                           */
@@ -3936,38 +3996,14 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
             const char *read = text_ptr;
             char *write = output;
             size_t remaining = capacity;
-            bool in_code_block = false;
-            int indent_count = 0;
-            bool at_line_start = true;
 
             while (*read) {
-                /* Track code blocks (4+ spaces or tab at line start) */
-                if (at_line_start) {
-                    if (*read == '\t') {
-                        in_code_block = true;
-                        indent_count = 0;
-                    } else if (*read == ' ') {
-                        indent_count++;
-                        if (indent_count >= 4) {
-                            in_code_block = true;
-                        }
-                    } else if (*read != '\n' && *read != '\r') {
-                        at_line_start = false;
-                        indent_count = 0;
-                    }
-                }
-
-                if (*read == '\n') {
-                    at_line_start = true;
-                    indent_count = 0;
-                    in_code_block = false;
-                }
-
-                /* Skip hashtag processing inside code blocks */
-                if (in_code_block) {
-                    if (remaining < 10) {
+                /* Skip hashtag processing inside code, HTML and links */
+                size_t verbatim = apex_autolink_verbatim_length(text_ptr, read);
+                if (verbatim > 0) {
+                    if (verbatim >= remaining) {
                         size_t written = (size_t)(write - output);
-                        capacity = (written + 100) * 2;
+                        capacity = (written + verbatim + 100) * 2;
                         char *new_output = realloc(output, capacity);
                         if (!new_output) {
                             free(output);
@@ -3978,8 +4014,10 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
                         write = output + written;
                         remaining = capacity - written;
                     }
-                    *write++ = *read++;
-                    remaining--;
+                    memcpy(write, read, verbatim);
+                    write += verbatim;
+                    read += verbatim;
+                    remaining -= verbatim;
                     continue;
                 }
 
@@ -3993,7 +4031,8 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
                     if ((*read >= 'a' && *read <= 'z') || (*read >= 'A' && *read <= 'Z') || (*read >= '0' && *read <= '9')) {
                         /* Find the end of the hashtag */
                         const char *tag_end = read;
-                        while (*tag_end && *tag_end != '#' && *tag_end != ' ' && *tag_end != '\n' &&
+                        while (*tag_end && *tag_end != '#' && !isspace((unsigned char)*tag_end) &&
+                               *tag_end != '<' && *tag_end != '`' &&
                                *tag_end != ',' && *tag_end != ';' && *tag_end != '.' && *tag_end != '!' &&
                                *tag_end != ')' && *tag_end != ']') {
                             tag_end++;
@@ -4102,188 +4141,7 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     char *proofreader_processed = NULL;
     if (options->proofreader_mode && text_ptr) {
         PROFILE_START(proofreader);
-        size_t len = strlen(text_ptr);
-        size_t capacity = len * 2 + 1;  /* Allow expansion */
-        char *output = malloc(capacity);
-        if (output) {
-            const char *read = text_ptr;
-            char *write = output;
-            size_t remaining = capacity;
-            bool in_code_block = false;
-            bool in_inline_code = false;
-            int backtick_count = 0;
-
-            while (*read) {
-                /* Track code blocks and inline code to skip processing inside them */
-                if (*read == '`') {
-                    backtick_count++;
-                    if (backtick_count >= 3) {
-                        /* Code block fence */
-                        in_code_block = !in_code_block;
-                        backtick_count = 0;
-                    } else if (!in_code_block) {
-                        /* Check for inline code */
-                        const char *next = read + 1;
-                        if (*next != '`') {
-                            in_inline_code = !in_inline_code;
-                            backtick_count = 0;
-                        }
-                    }
-                } else {
-                    backtick_count = 0;
-                }
-
-                if (in_code_block || in_inline_code) {
-                    /* Inside code, copy as-is */
-                    if (remaining < 10) {
-                        size_t written = (size_t)(write - output);
-                        capacity = (written + 100) * 2;
-                        char *new_output = realloc(output, capacity);
-                        if (!new_output) {
-                            free(output);
-                            output = NULL;
-                            break;
-                        }
-                        output = new_output;
-                        write = output + written;
-                        remaining = capacity - written;
-                    }
-                    *write++ = *read++;
-                    remaining--;
-                } else if (read[0] == '=' && read[1] == '=') {
-                    /* Found ==, convert to {== */
-                    const char *start = read;
-                    read += 2;
-                    /* Find matching == */
-                    const char *end = strstr(read, "==");
-                    if (end) {
-                        /* Found matching ==, wrap in {==...==} */
-                        size_t content_len = (size_t)(end - read);
-                        size_t needed = 2 + content_len + 2;  /* {== + content + ==} */
-                        if (needed >= remaining) {
-                            size_t written = (size_t)(write - output);
-                            capacity = (written + needed + 100) * 2;
-                            char *new_output = realloc(output, capacity);
-                            if (!new_output) {
-                                free(output);
-                                output = NULL;
-                                break;
-                            }
-                            output = new_output;
-                            write = output + written;
-                            remaining = capacity - written;
-                        }
-                        *write++ = '{';
-                        *write++ = '=';
-                        *write++ = '=';
-                        remaining -= 3;
-                        memcpy(write, read, content_len);
-                        write += content_len;
-                        remaining -= content_len;
-                        *write++ = '=';
-                        *write++ = '=';
-                        *write++ = '}';
-                        remaining -= 3;
-                        read = end + 2;
-                    } else {
-                        /* No matching ==, copy as-is */
-                        if (remaining < 10) {
-                            size_t written = (size_t)(write - output);
-                            capacity = (written + 100) * 2;
-                            char *new_output = realloc(output, capacity);
-                            if (!new_output) {
-                                free(output);
-                                output = NULL;
-                                break;
-                            }
-                            output = new_output;
-                            write = output + written;
-                            remaining = capacity - written;
-                        }
-                        *write++ = *start++;
-                        *write++ = *start;
-                        remaining -= 2;
-                        read = start + 1;
-                    }
-                } else if (read[0] == '~' && read[1] == '~') {
-                    /* Found ~~, convert to {-- */
-                    const char *start = read;
-                    read += 2;
-                    /* Find matching ~~ */
-                    const char *end = strstr(read, "~~");
-                    if (end) {
-                        /* Found matching ~~, wrap in {--...--} */
-                        size_t content_len = (size_t)(end - read);
-                        size_t needed = 2 + content_len + 2;  /* {-- + content + --} */
-                        if (needed >= remaining) {
-                            size_t written = (size_t)(write - output);
-                            capacity = (written + needed + 100) * 2;
-                            char *new_output = realloc(output, capacity);
-                            if (!new_output) {
-                                free(output);
-                                output = NULL;
-                                break;
-                            }
-                            output = new_output;
-                            write = output + written;
-                            remaining = capacity - written;
-                        }
-                        *write++ = '{';
-                        *write++ = '-';
-                        *write++ = '-';
-                        remaining -= 3;
-                        memcpy(write, read, content_len);
-                        write += content_len;
-                        remaining -= content_len;
-                        *write++ = '-';
-                        *write++ = '-';
-                        *write++ = '}';
-                        remaining -= 3;
-                        read = end + 2;
-                    } else {
-                        /* No matching ~~, copy as-is */
-                        if (remaining < 10) {
-                            size_t written = (size_t)(write - output);
-                            capacity = (written + 100) * 2;
-                            char *new_output = realloc(output, capacity);
-                            if (!new_output) {
-                                free(output);
-                                output = NULL;
-                                break;
-                            }
-                            output = new_output;
-                            write = output + written;
-                            remaining = capacity - written;
-                        }
-                        *write++ = *start++;
-                        *write++ = *start;
-                        remaining -= 2;
-                        read = start + 1;
-                    }
-                } else {
-                    /* Normal character, copy as-is */
-                    if (remaining < 10) {
-                        size_t written = (size_t)(write - output);
-                        capacity = (written + 100) * 2;
-                        char *new_output = realloc(output, capacity);
-                        if (!new_output) {
-                            free(output);
-                            output = NULL;
-                            break;
-                        }
-                        output = new_output;
-                        write = output + written;
-                        remaining = capacity - written;
-                    }
-                    *write++ = *read++;
-                    remaining--;
-                }
-            }
-            if (output) {
-                *write = '\0';
-                proofreader_processed = output;
-            }
-        }
+        proofreader_processed = apex_preprocess_proofreader(text_ptr);
         PROFILE_END(proofreader);
         if (proofreader_processed) {
             text_ptr = proofreader_processed;
-- 
2.43.0


From 81971d5a85800671fa02bc74d0da462b010c2885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:56 +0000
Subject: [PATCH 36/66] fix: widont joins the trailing words of a heading and
 measures visible text

---
 src/apex.c | 42 ++++++++++--------------------------------
 1 file changed, 10 insertions(+), 32 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index c931c1e..2f7c453 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -3036,9 +3036,9 @@ static char *apex_apply_widont_to_headings(const char *html) {
                     for (size_t i = plain_len; i > 0; i--) {
                         char c = plain_text[i - 1];
                         if (c == ' ' || c == '\t' || c == '\n' || c == '\r') {
-                            if (word_start < plain_len) {
+                            if (word_start < word_end) {
                                 /* Found a word */
-                                size_t word_len = word_end - word_start;
+                                size_t word_len = apex_visible_length(plain_text, word_start, word_end);
                                 if (combined_len == 0) {
                                     /* First word from the end */
                                     first_word_start = word_start;
@@ -3068,13 +3068,13 @@ static char *apex_apply_widont_to_headings(const char *html) {
                     }
 
                     /* Handle the first word if we haven't processed it yet */
-                    if (word_start < plain_len && combined_len == 0) {
-                        size_t word_len = word_end - word_start;
+                    if (word_start < word_end && combined_len == 0) {
+                        size_t word_len = apex_visible_length(plain_text, word_start, word_end);
                         first_word_start = word_start;
                         combined_len = word_len;
-                    } else if (word_start < plain_len && combined_len > 0 && combined_len <= 10) {
+                    } else if (word_start < word_end && combined_len > 0 && combined_len <= 10) {
                         /* If we haven't exceeded 10 yet, try to add the first word */
-                        size_t word_len = word_end - word_start;
+                        size_t word_len = apex_visible_length(plain_text, word_start, word_end);
                         size_t new_combined = combined_len + 1 + word_len;
                         combined_len = new_combined;
                         first_word_start = word_start;
@@ -3086,31 +3086,9 @@ static char *apex_apply_widont_to_headings(const char *html) {
                      * 2. OR we've included enough words to exceed 10 (the algorithm includes the word
                      *    that pushes us over 10, so combined_len > 10 means we have a protected trailing portion) */
                     if (combined_len > 0 && first_word_start < plain_len) {
-                        /* Map plain text position back to HTML position */
-                        /* We need to find where first_word_start corresponds in the HTML */
-                        size_t plain_pos = 0;
-                        size_t html_pos = 0;
-                        bool in_html_tag = false;
-                        size_t trailing_start_html = 0;
-
-                        /* Find the HTML position corresponding to first_word_start in plain text */
-                        const char *html_p = read;
-                        while (html_p < close_pos && plain_pos < first_word_start) {
-                            if (*html_p == '<') {
-                                in_html_tag = true;
-                            } else if (*html_p == '>') {
-                                in_html_tag = false;
-                            } else if (!in_html_tag) {
-                                plain_pos++;
-                            }
-                            html_p++;
-                            html_pos++;
-                        }
-                        trailing_start_html = html_pos;
-
                         /* Now copy heading text, replacing spaces with &nbsp; in trailing section */
                         const char *html_p2 = read;
-                        size_t html_pos2 = 0;
+                        size_t plain_pos = 0;  /* Position in the plain text */
                         bool in_tag2 = false;
                         while (html_p2 < close_pos) {
                             char c = *html_p2;
@@ -3166,9 +3144,9 @@ static char *apex_apply_widont_to_headings(const char *html) {
                                 remaining--;
                             } else {
                                 /* Not in HTML tag */
-                                if (html_pos2 >= trailing_start_html) {
+                                if (plain_pos >= first_word_start) {
                                     /* We're in the trailing section */
-                                    if (c == ' ' || c == '\t') {
+                                    if (c == ' ' || c == '\t' || c == '\n' || c == '\r') {
                                         /* Replace with &nbsp; */
                                         const char *nbsp = "&nbsp;";
                                         size_t nbsp_len = strlen(nbsp);
@@ -3223,7 +3201,7 @@ static char *apex_apply_widont_to_headings(const char *html) {
                                     *write++ = c;
                                     remaining--;
                                 }
-                                html_pos2++;
+                                plain_pos++;
                             }
                             html_p2++;
                         }
-- 
2.43.0


From f537b88744436d6199461c6bbbffc978f038e37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:56 +0000
Subject: [PATCH 37/66] fix: only hr elements become page breaks, poetry class
 looks only in its tag, footnote id hash uses all of its bits and fits its
 buffer

---
 src/apex.c | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index 2f7c453..d0f6b81 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -2397,21 +2397,22 @@ static char *apex_add_poetry_class_to_code_blocks(const char *html) {
         remaining -= chunk_len;
 
         /* Check if this code block has a language class */
-        const char *code_tag = pre_code + 9;  /* Skip "<pre><code" */
+        const char *code_tag = pre_code + 10;  /* Skip "<pre><code" */
         bool has_language = false;
 
-        /* Look for class="language- or class='language- */
+        /* Find the closing > of the <code> tag */
+        const char *code_end = strchr(code_tag, '>');
+
+        /* Look for class="language- or class='language- in the tag */
         const char *class_pos = strstr(code_tag, "class=");
-        if (class_pos) {
+        if (class_pos && code_end && class_pos < code_end) {
             /* Check if it's a language class */
             const char *lang_check = strstr(class_pos, "language-");
-            if (lang_check) {
+            if (lang_check && lang_check < code_end) {
                 has_language = true;
             }
         }
 
-        /* Find the closing > of the <code> tag */
-        const char *code_end = strchr(code_tag, '>');
         if (!code_end) {
             /* Malformed, copy rest as-is */
             size_t tail_len = strlen(pre_code);
@@ -2593,7 +2594,7 @@ static char *apex_compute_document_hash(const char *content, size_t len) {
     /* Convert to 8-character hex string */
     char *hash_str = malloc(9);
     if (!hash_str) return NULL;
-    snprintf(hash_str, 9, "%08lx", hash);
+    snprintf(hash_str, 9, "%08lx", hash & 0xFFFFFFFFUL);  /* The low bits depend on every byte */
     return hash_str;
 }
 
@@ -2638,7 +2639,7 @@ static char *apex_add_hash_to_footnote_ids(const char *html, const char *hash_pr
             read += prefix_len;
 
             /* Insert hash prefix */
-            if (hash_len >= remaining) {
+            if (hash_len + 1 >= remaining) {
                 size_t written = (size_t)(write - output);
                 capacity = (written + hash_len + 100) * 2;
                 char *new_output = realloc(output, capacity);
@@ -2676,7 +2677,7 @@ static char *apex_add_hash_to_footnote_ids(const char *html, const char *hash_pr
             read += prefix_len;
 
             /* Insert hash prefix */
-            if (hash_len >= remaining) {
+            if (hash_len + 1 >= remaining) {
                 size_t written = (size_t)(write - output);
                 capacity = (written + hash_len + 100) * 2;
                 char *new_output = realloc(output, capacity);
@@ -2714,7 +2715,7 @@ static char *apex_add_hash_to_footnote_ids(const char *html, const char *hash_pr
             read += prefix_len;
 
             /* Insert hash prefix */
-            if (hash_len >= remaining) {
+            if (hash_len + 1 >= remaining) {
                 size_t written = (size_t)(write - output);
                 capacity = (written + hash_len + 100) * 2;
                 char *new_output = realloc(output, capacity);
@@ -2752,7 +2753,7 @@ static char *apex_add_hash_to_footnote_ids(const char *html, const char *hash_pr
             read += prefix_len;
 
             /* Insert hash prefix */
-            if (hash_len >= remaining) {
+            if (hash_len + 1 >= remaining) {
                 size_t written = (size_t)(write - output);
                 capacity = (written + hash_len + 100) * 2;
                 char *new_output = realloc(output, capacity);
@@ -2819,6 +2820,9 @@ static char *apex_replace_hr_with_pagebreak(const char *html) {
 
     while (*read) {
         const char *hr = strstr(read, "<hr");
+        while (hr && !isspace((unsigned char)hr[3]) && hr[3] != '/' && hr[3] != '>') {
+            hr = strstr(hr + 3, "<hr");  /* Another element */
+        }
         if (!hr) {
             /* Copy the rest */
             size_t tail_len = strlen(read);
@@ -2906,6 +2910,21 @@ static char *apex_replace_hr_with_pagebreak(const char *html) {
     return output;
 }
 
+/** Characters in a stretch of HTML text: an entity or a UTF-8 sequence counts as one. */
+static size_t apex_visible_length(const char *text, size_t start, size_t end) {
+    size_t count = 0;
+    for (size_t i = start; i < end; i++) {
+        if (((unsigned char)text[i] & 0xC0) == 0x80) continue;
+        count++;
+        if (text[i] == '&') {
+            size_t j = i + 1;
+            while (j < end && (isalnum((unsigned char)text[j]) || text[j] == '#')) j++;
+            if (j > i + 1 && j < end && text[j] == ';') i = j;
+        }
+    }
+    return count;
+}
+
 /**
  * Apply widont to headings: replace spaces with &nbsp; between trailing words
  * when their combined length (including spaces) is <= 10 characters.
-- 
2.43.0


From 388b9df38878c12617838b2ba58e3dcfd08be1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:56 +0000
Subject: [PATCH 38/66] fix: embedded images read the src attribute, pad base64
 and survive malformed tags

---
 src/apex.c | 62 +++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 22 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index d0f6b81..61e87c2 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -94,6 +94,7 @@ static char *apex_base64_encode(const unsigned char *data, size_t len) {
     size_t i = 0;
 
     while (i < len) {
+        size_t left = len - i;
         unsigned char byte1 = data[i++];
         unsigned char byte2 = (i < len) ? data[i++] : 0;
         unsigned char byte3 = (i < len) ? data[i++] : 0;
@@ -104,14 +105,14 @@ static char *apex_base64_encode(const unsigned char *data, size_t len) {
         *out++ = base64_chars[(combined >> 12) & 0x3F];
 
         /* Check if we have at least 2 bytes (byte1 and byte2) */
-        if (i >= 2) {
+        if (left >= 2) {
             *out++ = base64_chars[(combined >> 6) & 0x3F];
         } else {
             *out++ = '=';
         }
 
         /* Check if we have all 3 bytes */
-        if (i >= 3) {
+        if (left >= 3) {
             *out++ = base64_chars[combined & 0x3F];
         } else {
             *out++ = '=';
@@ -336,27 +337,36 @@ static char *apex_embed_images(const char *html, const apex_options *options, co
 
     while (*read) {
         /* Look for <img tag */
-        if (*read == '<' && strncmp(read, "<img", 4) == 0) {
+        if (*read == '<' && strncmp(read, "<img", 4) == 0 && isspace((unsigned char)read[4])) {
             const char *img_start = read;
             const char *img_end = strchr(img_start, '>');
             if (!img_end) {
-                /* Malformed tag, copy as-is */
-                if (remaining > 0) {
-                    *write++ = *read++;
-                    remaining--;
-                } else {
-                    read++;
+                /* Malformed tag, copy the rest as-is */
+                size_t tail_len = strlen(read);
+                if (tail_len >= remaining) {
+                    size_t written = write - output;
+                    char *new_output = realloc(output, written + tail_len + 1);
+                    if (!new_output) {
+                        free(output);
+                        return strdup(html);
+                    }
+                    output = new_output;
+                    write = output + written;
                 }
-                continue;
+                memcpy(write, read, tail_len);
+                write += tail_len;
+                break;
             }
 
             /* Check if already a data URL */
-            const char *src_attr = strstr(img_start, "src=\"");
-            if (!src_attr || src_attr > img_end) {
-                src_attr = strstr(img_start, "src='");
+            const char *src_attr = img_start + 4;
+            while (src_attr < img_end &&
+                   !(isspace((unsigned char)src_attr[-1]) &&
+                     (strncmp(src_attr, "src=\"", 5) == 0 || strncmp(src_attr, "src='", 5) == 0))) {
+                src_attr++;
             }
 
-            if (src_attr && src_attr < img_end) {
+            if (src_attr < img_end) {
                 const char quote_char = (src_attr[4] == '"') ? '"' : '\'';
                 const char *url_start = src_attr + 5;
                 const char *url_end = strchr(url_start, quote_char);
@@ -404,7 +414,7 @@ static char *apex_embed_images(const char *html, const apex_options *options, co
 
                             /* Calculate new size needed */
                             size_t new_len = before_src + strlen("src=\"") + strlen(data_url) + 1 + after_url + 1;
-                            if (new_len > remaining) {
+                            if (new_len >= remaining) {
                                 size_t written = write - output;
                                 cap = (written + new_len + 1) * 2;
                                 char *new_output = realloc(output, cap);
@@ -454,7 +464,7 @@ static char *apex_embed_images(const char *html, const apex_options *options, co
 
             /* No replacement, copy tag as-is */
             size_t tag_len = img_end - img_start + 1;
-            if (tag_len > remaining) {
+            if (tag_len >= remaining) {
                 size_t written = write - output;
                 cap = (written + tag_len + 1) * 2;
                 char *new_output = realloc(output, cap);
@@ -471,13 +481,21 @@ static char *apex_embed_images(const char *html, const apex_options *options, co
             remaining -= tag_len;
             read = img_end + 1;
         } else {
-            /* Copy character */
-            if (remaining > 0) {
-                *write++ = *read++;
-                remaining--;
-            } else {
-                read++;
+            /* Copy character, leaving room for the terminator */
+            if (remaining < 2) {
+                size_t written = write - output;
+                cap = (written + strlen(read) + 1) * 2;
+                char *new_output = realloc(output, cap);
+                if (!new_output) {
+                    free(output);
+                    return strdup(html);
+                }
+                output = new_output;
+                write = output + written;
+                remaining = cap - written;
             }
+            *write++ = *read++;
+            remaining--;
         }
     }
 
-- 
2.43.0


From e5ee560fbce1f95219c53a4fcc67a7a8d4c03d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:56 +0000
Subject: [PATCH 39/66] fix: e-mail obfuscation keeps entities and encodes
 whole UTF-8 characters

---
 src/apex.c | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index 61e87c2..6f8cb6f 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -52,24 +52,47 @@
 #include "html_renderer.h"
 
 /**
- * Encode a string as hexadecimal HTML entities (&#xNN;)
+ * Encode HTML text as hexadecimal HTML entities (&#xNN;), one per character.
+ * Entities in the text are kept as they are.
  * Caller must free the returned buffer.
  */
 static char *apex_encode_hex_entities(const char *text, size_t len) {
     if (!text || len == 0) return NULL;
-    /* Each char becomes &#xNN; => up to 6 chars */
+    /* Each char becomes &#xNN; => up to 6 chars per byte */
     size_t cap = len * 6 + 1;
     char *out = malloc(cap);
     if (!out) return NULL;
 
     char *w = out;
-    for (size_t i = 0; i < len; i++) {
-        int written = snprintf(w, cap - (size_t)(w - out), "&#x%02X;", (unsigned char)text[i]);
-        if (written <= 0 || (size_t)written >= cap - (size_t)(w - out)) {
-            free(out);
-            return NULL;
+    for (size_t i = 0; i < len;) {
+        unsigned char c = (unsigned char)text[i];
+        size_t n = 1;
+        if (c == '&') {
+            while (i + n < len && (isalnum((unsigned char)text[i + n]) || text[i + n] == '#')) n++;
+            if (n > 1 && i + n < len && text[i + n] == ';') {
+                memcpy(w, text + i, n + 1);
+                w += n + 1;
+                i += n + 1;
+                continue;
+            }
+            n = 1;
+        }
+
+        /* A multi-byte UTF-8 character is one entity */
+        size_t expected = c >= 0xF0 ? 4 : c >= 0xE0 ? 3 : c >= 0xC0 ? 2 : 1;
+        unsigned long code = expected == 1 ? c : c & (0xFFu >> (expected + 1));
+        while (n < expected && i + n < len && ((unsigned char)text[i + n] & 0xC0) == 0x80) {
+            code = (code << 6) | ((unsigned char)text[i + n] & 0x3F);
+            n++;
+        }
+        if (n == expected && c < 0xF8 && (c < 0x80 || c >= 0xC0)) {
+            w += snprintf(w, cap - (size_t)(w - out), "&#x%02lX;", code);
+        } else {
+            /* Not UTF-8, keep the bytes */
+            memcpy(w, text + i, n);
+            w += n;
         }
-        w += written;
+        i += n;
     }
     *w = '\0';
     return out;
-- 
2.43.0


From 9e0958e623f10a06611745b15d70fc98ccd3cd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:53 +0000
Subject: [PATCH 40/66] fix: merging mixed list markers keeps item order,
 nested lists and loose items

---
 src/apex.c | 62 +++++++++++++++++-------------------------------------
 1 file changed, 19 insertions(+), 43 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index 6f8cb6f..b810fcb 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -1825,43 +1825,15 @@ static char *apex_remove_empty_paragraphs(const char *html) {
 static void apex_merge_mixed_list_markers(cmark_node *node) {
     if (!node) return;
 
-    /* Process children first (depth-first) */
-    /* Get next sibling before processing to avoid issues if child modifies tree */
-    /* Note: If child merges with its next sibling during recursive processing,
-     * that sibling will be freed. So we need to get the next sibling from the
-     * parent's perspective after the recursive call, not use the pre-call next. */
-    for (cmark_node *child = cmark_node_first_child(node); child; ) {
-        /* Get next sibling BEFORE recursive call as a hint, but we'll re-get it after
-         * because the recursive call might have merged child with next and freed it. */
-        apex_merge_mixed_list_markers(child);
-        /* After recursive call, get next sibling from parent's perspective.
-         * If child was merged with its next sibling, that sibling is now freed,
-         * but child's position in the parent's child list hasn't changed, so
-         * we can safely get the next sibling. */
-        child = cmark_node_next(child);
-    }
-
-    /* Check if current node is a list */
-    if (cmark_node_get_type(node) != CMARK_NODE_LIST) {
-        return;
-    }
-
-    /* Look for adjacent lists at the same level */
-    cmark_node *sibling = cmark_node_next(node);
-    while (sibling) {
-        /* Skip non-list nodes (paragraphs, etc.) - these indicate list separation */
-        if (cmark_node_get_type(sibling) != CMARK_NODE_LIST) {
-            break;  /* Non-list node means lists are separated, don't merge */
-        }
-
-        cmark_list_type first_type = cmark_node_get_list_type(node);
-        cmark_list_type second_type = cmark_node_get_list_type(sibling);
-
-        /* If they have different types, merge them */
-        if (first_type != second_type) {
-            /* Use the first list's type (this is what we'll use) */
-
-            /* Move all items from the second list to the first */
+    /* Absorb adjacent lists first, so that their items are processed below too */
+    if (cmark_node_get_type(node) == CMARK_NODE_LIST) {
+        cmark_node *sibling = cmark_node_next(node);
+        /* A non-list node (paragraph, etc.) or a list of the same type ends the run:
+         * items are never moved past it. */
+        while (sibling && cmark_node_get_type(sibling) == CMARK_NODE_LIST &&
+               cmark_node_get_list_type(sibling) != cmark_node_get_list_type(node)) {
+            /* Move all items from the second list to the first, which keeps its
+             * type and start number */
             cmark_node *item = cmark_node_first_child(sibling);
             while (item) {
                 cmark_node *next_item = cmark_node_next(item);
@@ -1870,20 +1842,24 @@ static void apex_merge_mixed_list_markers(cmark_node *node) {
                 item = next_item;
             }
 
-            /* Update list start number if needed (for ordered lists) */
-            /* Note: We keep the original start number from the first list.
-             * The items are already numbered correctly by the parser. */
+            /* Items of a loose list keep their paragraphs */
+            if (!cmark_node_get_list_tight(sibling)) {
+                cmark_node_set_list_tight(node, 0);
+            }
 
             /* Remove the now-empty second list */
             cmark_node *next_sibling = cmark_node_next(sibling);
             cmark_node_unlink(sibling);
             cmark_node_free(sibling);
             sibling = next_sibling;
-        } else {
-            /* Same type, move to next sibling */
-            sibling = cmark_node_next(sibling);
         }
     }
+
+    /* A child only ever absorbs siblings that follow it, so its next sibling is
+     * looked up after it has been processed */
+    for (cmark_node *child = cmark_node_first_child(node); child; child = cmark_node_next(child)) {
+        apex_merge_mixed_list_markers(child);
+    }
 }
 
 /**
-- 
2.43.0


From 4ad1f643fda33bab2d63f0cebd36dda2a328fa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:09 +0000
Subject: [PATCH 41/66] fix: citations are recognised only in running text,
 keep their locators and groups, and have no fixed-size buffers

---
 src/extensions/citations.c | 1161 ++++++++++++++----------------------
 1 file changed, 440 insertions(+), 721 deletions(-)

diff --git a/src/extensions/citations.c b/src/extensions/citations.c
index fd05738..10ea91e 100644
--- a/src/extensions/citations.c
+++ b/src/extensions/citations.c
@@ -11,389 +11,331 @@
 #include <stdbool.h>
 #include <errno.h>
 
-/* Citation placeholder prefix - we'll use a unique marker */
+/* Citation placeholder: an HTML comment with the index of the first citation and the
+ * number of citations. Where it could start a block, an invisible separator precedes it:
+ * a line starting with a comment would become an HTML block. */
 #define CITATION_PLACEHOLDER_PREFIX "<!--CITE:"
 #define CITATION_PLACEHOLDER_SUFFIX "-->"
+#define CITATION_PLACEHOLDER_GUARD "\xE2\x81\xA3"
+
+/* Growing output buffer */
+typedef struct {
+    char *data;
+    size_t len;
+    size_t cap;
+    bool failed;
+} citation_buffer;
+
+static void buffer_add(citation_buffer *b, const char *text, size_t len) {
+    if (b->failed) return;
+    if (b->len + len + 1 > b->cap) {
+        size_t cap = (b->len + len + 1) * 2;
+        char *data = realloc(b->data, cap);
+        if (!data) {
+            b->failed = true;
+            return;
+        }
+        b->data = data;
+        b->cap = cap;
+    }
+    memcpy(b->data + b->len, text, len);
+    b->len += len;
+    b->data[b->len] = '\0';
+}
+
+static void buffer_text(citation_buffer *b, const char *text) {
+    buffer_add(b, text, strlen(text));
+}
+
+/** Add text escaped for HTML content and attribute values */
+static void buffer_escaped(citation_buffer *b, const char *text) {
+    for (; *text; text++) {
+        switch (*text) {
+            case '&': buffer_text(b, "&amp;"); break;
+            case '<': buffer_text(b, "&lt;"); break;
+            case '>': buffer_text(b, "&gt;"); break;
+            case '"': buffer_text(b, "&quot;"); break;
+            default: buffer_add(b, text, 1); break;
+        }
+    }
+}
+
+/** The buffer's text, or NULL if memory ran out */
+static char *buffer_take(citation_buffer *b) {
+    if (!b->failed && !b->data) buffer_add(b, "", 0);
+    if (b->failed) {
+        free(b->data);
+        return NULL;
+    }
+    return b->data;
+}
 
 /**
  * Check if character is valid in citation key
  * Citation keys can contain: alphanumerics, _, and internal punctuation (:.#$%&-+?<>~/)
  */
 static bool is_valid_citation_char(char c) {
-    return isalnum(c) || c == '_' || c == ':' || c == '.' || c == '#' ||
-           c == '$' || c == '%' || c == '&' || c == '-' || c == '+' ||
-           c == '?' || c == '<' || c == '>' || c == '~' || c == '/';
+    return c && (isalnum((unsigned char)c) || strchr("_:.#$%&-+?<>~/", c));
 }
 
 /**
- * Extract citation key from text starting at pos
- * Returns length of key, or 0 if not valid
+ * Length of the citation key at p, or 0. Punctuation is part of a key only between
+ * other key characters; a key in curly braces (braces included in the length) may hold
+ * it anywhere, and < and > only there.
  */
-static int extract_citation_key(const char *text, int pos, int len, char **key_out) {
-    if (pos >= len) return 0;
-
-    const char *start = text + pos;
-    const char *p = start;
-
-    /* Key must start with letter, digit, or _ */
-    if (!isalnum(*p) && *p != '_') {
-        /* Check for special keys that need curly braces */
-        if (*p == '{') {
-            p++;  /* Skip { */
-            start = p;
-            /* Find closing } */
-            while (*p && *p != '}' && p - text < len) {
-                if (!is_valid_citation_char(*p) && *p != '}') {
-                    return 0;  /* Invalid character */
-                }
-                p++;
-            }
-            if (*p != '}') return 0;  /* No closing brace */
-        } else {
-            return 0;
-        }
-    }
-
-    /* Collect key characters */
-    const char *key_start = start;
-    while (p - text < len && is_valid_citation_char(*p)) {
-        p++;
-    }
-
-    if (p == key_start) return 0;  /* No key found */
-
-    size_t key_len = p - key_start;
-    *key_out = malloc(key_len + 1);
-    if (!*key_out) return 0;
-
-    memcpy(*key_out, key_start, key_len);
-    (*key_out)[key_len] = '\0';
-
-    /* If we started with {, skip past it */
-    if (text[pos] == '{') {
-        return (p - text) - pos + 1;  /* +1 for closing } */
-    }
-
-    return p - start;
+static size_t citation_key_length(const char *p, const char **key, size_t *key_len) {
+    if (*p == '{') {
+        size_t n = 1;
+        while (is_valid_citation_char(p[n])) n++;
+        if (n == 1 || p[n] != '}') return 0;
+        *key = p + 1;
+        *key_len = n - 1;
+        return n + 1;
+    }
+    if (!isalnum((unsigned char)*p) && *p != '_') return 0;
+    size_t n = 1;
+    while (is_valid_citation_char(p[n]) && p[n] != '<' && p[n] != '>') n++;
+    while (n > 1 && !isalnum((unsigned char)p[n - 1]) && p[n - 1] != '_') n--;
+    *key = p;
+    *key_len = n;
+    return n;
 }
 
 /**
  * Check if text matches RFC/BCP/STD/I-D/W3C pattern (mmark syntax)
  */
-static bool is_mmark_pattern(const char *text, int pos, int len) {
-    if (pos + 3 >= len) return false;
-
-    const char *p = text + pos;
-
-    /* Check for RFC, BCP, STD, I-D, or W3C prefix */
-    if (strncmp(p, "RFC", 3) == 0 && isdigit(p[3])) return true;
-    if (strncmp(p, "BCP", 3) == 0 && isdigit(p[3])) return true;
-    if (strncmp(p, "STD", 3) == 0 && isdigit(p[3])) return true;
-    if (strncmp(p, "I-D.", 4) == 0) return true;
-    if (strncmp(p, "W3C.", 4) == 0) return true;
-
-    return false;
+static bool is_mmark_pattern(const char *p) {
+    if (strncmp(p, "RFC", 3) == 0 || strncmp(p, "BCP", 3) == 0 || strncmp(p, "STD", 3) == 0) {
+        return isdigit((unsigned char)p[3]);
+    }
+    return strncmp(p, "I-D.", 4) == 0 || strncmp(p, "W3C.", 4) == 0;
 }
 
-/**
- * Parse Pandoc citation: [@key] or @key or [see @key, pp. 33-35]
- */
-static int parse_pandoc_citation(const char *text, int pos, int len,
-                                  apex_citation **citation_out, const apex_options *options) {
-    (void)options;  /* Unused for now */
-    if (pos >= len) return 0;
-
-    const char *p = text + pos;
-    bool in_brackets = false;
-    bool author_suppressed = false;
-    char *prefix = NULL;
-    char *locator = NULL;
-    char *suffix = NULL;
-    char *key = NULL;
-
-    /* Check for @key (author-in-text, no brackets) */
-    if (*p == '@') {
-        p++;
-        int key_len = extract_citation_key(text, p - text, len, &key);
-        if (key_len > 0 && key) {
-            /* Check if there's a locator after: @key [p. 33] */
-            const char *after_key = p + key_len;
-            while (after_key < text + len && isspace(*after_key)) after_key++;
-            if (after_key < text + len && *after_key == '[') {
-                /* Extract locator from [p. 33] */
-                const char *loc_start = after_key + 1;
-                const char *loc_end = strchr(loc_start, ']');
-                if (loc_end) {
-                    size_t loc_len = loc_end - loc_start;
-                    locator = malloc(loc_len + 1);
-                    if (locator) {
-                        memcpy(locator, loc_start, loc_len);
-                        locator[loc_len] = '\0';
-                    }
-                    after_key = loc_end + 1;
-                }
-            }
+/** End of the paragraph containing p: the first blank line, or the end of the text */
+static const char *citation_paragraph_end(const char *p) {
+    for (; *p; p++) {
+        if (*p != '\n') continue;
+        const char *q = p + 1 + strspn(p + 1, " \t\r");
+        if (*q == '\n' || *q == '\0') return p;
+    }
+    return p;
+}
 
-            apex_citation *cite = apex_citation_new(key, APEX_CITATION_PANDOC);
-            if (cite) {
-                cite->author_in_text = true;
-                cite->locator = locator;
-                *citation_out = cite;
-                free(key);
-                return after_key - (text + pos);
+/** New citation; locator is trimmed and its line breaks become spaces */
+static apex_citation *citation_new(const char *key, size_t key_len, apex_citation_syntax_t syntax,
+                                   const char *locator, size_t locator_len) {
+    char *copy = malloc(key_len + 1);
+    if (!copy) return NULL;
+    memcpy(copy, key, key_len);
+    copy[key_len] = '\0';
+    apex_citation *citation = apex_citation_new(copy, syntax);
+    free(copy);
+    if (!citation) return NULL;
+
+    while (locator_len > 0 && isspace((unsigned char)locator[locator_len - 1])) locator_len--;
+    while (locator_len > 0 && isspace((unsigned char)*locator)) {
+        locator++;
+        locator_len--;
+    }
+    if (locator_len > 0) {
+        citation->locator = malloc(locator_len + 1);
+        if (citation->locator) {
+            for (size_t i = 0; i < locator_len; i++) {
+                citation->locator[i] = (locator[i] == '\n' || locator[i] == '\r') ? ' ' : locator[i];
             }
-            free(key);
-            free(locator);
-            return 0;
+            citation->locator[locator_len] = '\0';
         }
-        return 0;
     }
+    return citation;
+}
 
-    /* Check for [-@key] (author suppressed) */
-    if (*p == '[' && p + 1 < text + len && p[1] == '-' && p[2] == '@') {
-        author_suppressed = true;
-        in_brackets = true;
-        p += 3;  /* Skip [-@ */
-    }
-    /* Check for [@key] (normal citation) */
-    else if (*p == '[' && p + 1 < text + len && p[1] == '@') {
-        in_brackets = true;
-        p += 2;  /* Skip [@ */
-    } else {
-        return 0;  /* Not a Pandoc citation */
+/** Free a list of citations */
+static void citation_list_free(apex_citation *list) {
+    while (list) {
+        apex_citation *next = list->next;
+        apex_citation_free(list);
+        list = next;
     }
+}
 
-    /* Extract key */
-    int key_len = extract_citation_key(text, p - text, len, &key);
-    if (key_len == 0 || !key) {
-        return 0;
-    }
-    p += key_len;
-
-    /* If we're in brackets, look for prefix, locator, suffix */
-    if (in_brackets) {
-        /* Skip whitespace */
-        while (p < text + len && isspace(*p)) p++;
-
-        /* Check for prefix before @ (e.g., "see @key") */
-        if (p > text + pos + 2) {
-            const char *prefix_start = text + pos + 1;
-            const char *at_pos = strchr(prefix_start, '@');
-            if (at_pos && at_pos < p) {
-                size_t prefix_len = at_pos - prefix_start;
-                while (prefix_len > 0 && isspace(prefix_start[prefix_len - 1])) prefix_len--;
-                if (prefix_len > 0) {
-                    prefix = malloc(prefix_len + 1);
-                    if (prefix) {
-                        memcpy(prefix, prefix_start, prefix_len);
-                        prefix[prefix_len] = '\0';
-                    }
-                }
+/**
+ * Parse a bracketed citation: [@key], [-@key], [@key, pp. 33-35], [@key; @key2],
+ * [@!RFC1034], [@RFC1034;@RFC1035], or MultiMarkdown [#key].
+ * Returns its length and the citations in order, or 0.
+ */
+static size_t parse_bracketed_citation(const char *text, const char *p, bool pandoc, apex_citation **list) {
+    *list = NULL;
+    apex_citation **tail = list;
+    const char *limit = citation_paragraph_end(p);
+    const char *key;
+    size_t key_len;
+    const char *q = p + 1;
+
+    if (*q == '#') {
+        size_t n = citation_key_length(q + 1, &key, &key_len);
+        if (n == 0 || q[n + 1] != ']') return 0;
+        *list = citation_new(key, key_len, APEX_CITATION_MMD, "", 0);
+        q += n + 1;
+    } else if (pandoc) {
+        for (;;) {
+            bool suppressed = false;
+            if (*q == '-' && q[1] == '@') {
+                suppressed = true;
+                q++;
             }
-        }
-
-        /* Look for locator and suffix after key */
-        while (p < text + len && *p != ']') {
-            if (*p == ',') {
-                p++;
-                while (p < text + len && isspace(*p)) p++;
-
-                /* Try to extract locator (e.g., "pp. 33-35") */
-                const char *loc_start = p;
-                while (p < text + len && *p != ']' && *p != ';') p++;
-
-                if (p > loc_start) {
-                    size_t loc_len = p - loc_start;
-                    /* Check if this looks like a locator (contains page/chapter indicators) */
-                    const char *loc_test = loc_start;
-                    bool looks_like_locator = false;
-                    while (loc_test < loc_start + loc_len) {
-                        if (strncmp(loc_test, "p.", 2) == 0 || strncmp(loc_test, "pp.", 3) == 0 ||
-                            strncmp(loc_test, "chap.", 5) == 0 || strncmp(loc_test, "chapter", 7) == 0 ||
-                            strncmp(loc_test, "sec.", 4) == 0 || strncmp(loc_test, "section", 7) == 0) {
-                            looks_like_locator = true;
-                            break;
-                        }
-                        loc_test++;
-                    }
-
-                    if (looks_like_locator || isdigit(*loc_start)) {
-                        locator = malloc(loc_len + 1);
-                        if (locator) {
-                            memcpy(locator, loc_start, loc_len);
-                            locator[loc_len] = '\0';
-                        }
-                    } else {
-                        /* Might be suffix */
-                        suffix = malloc(loc_len + 1);
-                        if (suffix) {
-                            memcpy(suffix, loc_start, loc_len);
-                            suffix[loc_len] = '\0';
-                        }
-                    }
-                }
-            } else if (*p == ';') {
-                /* Multiple citations - for now, just handle first one */
-                break;
-            } else {
-                p++;
+            if (*q != '@') break;
+            q++;
+            /* Normative, informative and suppressed mmark references */
+            if ((*q == '!' || *q == '?' || *q == '-') && is_mmark_pattern(q + 1)) {
+                if (*q == '-') suppressed = true;
+                q++;
             }
-        }
-
-        if (p < text + len && *p == ']') {
-            p++;  /* Skip closing ] */
+            apex_citation_syntax_t syntax = is_mmark_pattern(q) ? APEX_CITATION_MMARK : APEX_CITATION_PANDOC;
+            size_t n = citation_key_length(q, &key, &key_len);
+            if (n == 0) break;
+            q += n;
+            /* Locator or suffix, up to the next citation */
+            const char *rest = q + strspn(q, " \t");
+            if (*rest == ',') rest++;
+            while (q < limit && *q != ';' && *q != ']' && *q != '[' && *q != '@') q++;
+            if (rest > q) rest = q;
+            apex_citation *citation = citation_new(key, key_len, syntax, rest, (size_t)(q - rest));
+            if (!citation) break;
+            citation->author_suppressed = suppressed;
+            *tail = citation;
+            tail = &citation->next;
+            if (q >= limit || *q == '[' || *q == ']') break;
+            if (*q == ';') q += 1 + strspn(q + 1, " \t\r\n");
         }
     }
 
-    apex_citation *cite = apex_citation_new(key, APEX_CITATION_PANDOC);
-    if (cite) {
-        cite->author_suppressed = author_suppressed;
-        cite->prefix = prefix;
-        cite->locator = locator;
-        cite->suffix = suffix;
-        *citation_out = cite;
-        free(key);
-        return p - (text + pos);
+    /* A link or a definition is not a citation */
+    const char *line = p;
+    while (line > text && line[-1] == ' ') line--;
+    bool starts_line = line == text || line[-1] == '\n';
+    if (!*list || q >= limit || *q != ']' || q[1] == '(' || (q[1] == ':' && starts_line)) {
+        citation_list_free(*list);
+        *list = NULL;
+        return 0;
     }
-
-    free(key);
-    free(prefix);
-    free(locator);
-    free(suffix);
-    return 0;
+    return (size_t)(q + 1 - p);
 }
 
 /**
- * Parse MultiMarkdown citation: [#key] or [p. 23][#key]
+ * Parse an author-in-text citation: @key or @key [p. 33]. Returns its length, or 0.
  */
-static int parse_mmd_citation(const char *text, int pos, int len,
-                               apex_citation **citation_out, const apex_options *options) {
-    (void)options;  /* Unused for now */
-    if (pos + 2 >= len) return 0;
-
-    const char *p = text + pos;
-
-    /* Must start with [# */
-    if (*p != '[' || p[1] != '#') return 0;
-
-    p += 2;  /* Skip [# */
-
-    /* Extract key */
-    char *key = NULL;
-    int key_len = extract_citation_key(text, p - text, len, &key);
-    if (key_len == 0 || !key) {
-        return 0;
-    }
-    p += key_len;
-
-    /* Must end with ] */
-    if (p >= text + len || *p != ']') {
-        free(key);
-        return 0;
-    }
-    p++;  /* Skip ] */
-
-    /* Check for locator before: [p. 23][#key] */
-    char *locator = NULL;
-    if (pos > 0 && text[pos - 1] == ']') {
-        /* Look backwards for opening [ */
-        const char *loc_start = text + pos - 1;
-        while (loc_start > text && *loc_start != '[') loc_start--;
-        if (*loc_start == '[') {
-            loc_start++;  /* Skip [ */
-            size_t loc_len = (text + pos - 1) - loc_start;
-            if (loc_len > 0) {
-                locator = malloc(loc_len + 1);
-                if (locator) {
-                    memcpy(locator, loc_start, loc_len);
-                    locator[loc_len] = '\0';
-                }
-            }
+static size_t parse_text_citation(const char *p, apex_citation **list) {
+    const char *key;
+    size_t key_len;
+    size_t n = citation_key_length(p + 1, &key, &key_len);
+    if (n == 0) return 0;
+
+    const char *after = p + 1 + n;
+    const char *locator = after + strspn(after, " \t");
+    size_t locator_len = 0;
+    if (*locator == '[' && !strchr("@-#^%!]", locator[1])) {
+        size_t inner = strcspn(locator + 1, "[]\n");
+        const char *close = locator + 1 + inner;
+        if (*close == ']' && close[1] != '(' && close[1] != '[' && close[1] != ':') {
+            locator++;
+            locator_len = inner;
+            after = close + 1;
         }
     }
-
-    apex_citation *cite = apex_citation_new(key, APEX_CITATION_MMD);
-    if (cite) {
-        cite->locator = locator;
-        *citation_out = cite;
-        free(key);
-        return p - (text + pos);
-    }
-
-    free(key);
-    free(locator);
-    return 0;
+    *list = citation_new(key, key_len, APEX_CITATION_PANDOC, locator, locator_len);
+    if (!*list) return 0;
+    (*list)->author_in_text = true;
+    return (size_t)(after - p);
 }
 
 /**
- * Parse mmark citation: [@RFC2535] or [@!RFC1034] or [@-RFC1000]
+ * Length of the markup at p in which there are no citations: code, HTML, Liquid tags,
+ * link destinations, link definitions and escaped characters. 0 if there is none.
  */
-static int parse_mmark_citation(const char *text, int pos, int len,
-                                 apex_citation **citation_out, const apex_options *options) {
-    (void)options;  /* Unused for now */
-    if (pos + 3 >= len) return 0;
-
-    const char *p = text + pos;
-
-    /* Must start with [@ */
-    if (*p != '[' || p[1] != '@') return 0;
-
-    p += 2;  /* Skip [@ */
-
-    /* Check for modifier: ! (normative), ? (informative), - (suppressed) */
-    bool author_suppressed = false;
-    if (*p == '!') {
-        p++;  /* Normative - for now just skip */
-    } else if (*p == '?') {
-        p++;  /* Informative - for now just skip */
-    } else if (*p == '-') {
-        author_suppressed = true;
-        p++;  /* Suppressed */
-    }
+static size_t citation_verbatim_length(const char *text, const char *p) {
+    if (p == text || p[-1] == '\n') {
+        const char *line_end = p + strcspn(p, "\n");
+        size_t indent = strspn(p, " ");
+        const char *c = p + indent;
+
+        /* Indented code block (4+ spaces or a leading tab) */
+        if (indent >= 4 || *c == '\t') return (size_t)(line_end - p);
+
+        /* Fenced code block */
+        if (*c == '`' || *c == '~') {
+            const char fence[2] = { *c, '\0' };
+            size_t run = strspn(c, fence);
+            if (run >= 3 && !(*c == '`' && memchr(c + run, '`', (size_t)(line_end - c) - run))) {
+                while (*line_end) {
+                    const char *line = line_end + 1;
+                    line_end = line + strcspn(line, "\n");
+                    size_t spaces = strspn(line, " ");
+                    size_t close = strspn(line + spaces, fence);
+                    const char *after = line + spaces + close;
+                    if (spaces < 4 && close >= run && after + strspn(after, " \t\r") >= line_end) break;
+                }
+                return (size_t)(line_end - p);
+            }
+        }
 
-    /* Check if it's an RFC/BCP/STD/I-D/W3C pattern */
-    if (!is_mmark_pattern(text, p - text, len)) {
-        return 0;  /* Not mmark pattern, might be Pandoc */
+        /* Reference link or footnote definition: [id]: ... */
+        if (*c == '[') {
+            const char *id_end = memchr(c, ']', (size_t)(line_end - c));
+            if (id_end && id_end[1] == ':') return (size_t)(id_end + 2 - p);
+        }
     }
 
-    /* Extract key (RFC1234, BCP123, etc.) */
-    const char *key_start = p;
-    while (p < text + len && (isalnum(*p) || *p == '.' || *p == '-' || *p == '#')) {
-        p++;
-    }
+    switch (*p) {
+        case '\\':
+            return p[1] ? 2 : 0;
 
-    if (p == key_start) {
-        return 0;  /* No key found */
-    }
+        case '{': {
+            const char *end = p[1] == '%' ? strstr(p + 2, "%}") : NULL;
+            return end ? (size_t)(end + 2 - p) : 0;
+        }
 
-    size_t key_len = p - key_start;
-    char *key = malloc(key_len + 1);
-    if (!key) return 0;
-    memcpy(key, key_start, key_len);
-    key[key_len] = '\0';
+        case '`': {
+            const char *limit = citation_paragraph_end(p);
+            size_t run = strspn(p, "`");
+            for (const char *q = p + run; q < limit; q++) {
+                size_t close = strspn(q, "`");
+                if (close == run) return (size_t)(q + close - p);
+                if (close) q += close - 1;
+            }
+            return run;
+        }
 
-    /* Check for multiple citations: [@RFC1034;@RFC1035] */
-    /* For now, just handle first one */
-    if (p < text + len && *p == ';') {
-        p++;  /* Skip ; */
-    }
+        case '<': {
+            if (strncmp(p, "<!--", 4) == 0) {
+                const char *end = strstr(p + 4, "-->");
+                return end ? (size_t)(end + 3 - p) : 0;
+            }
+            if (!isalpha((unsigned char)p[1]) && p[1] != '/') return 0;
+            const char *q = p + 1;
+            while (*q && *q != '>' && !(*q == '\n' && q[strspn(q + 1, " \t\r") + 1] == '\n')) {
+                const char *close = (*q == '"' || *q == '\'') ? strchr(q + 1, *q) : NULL;
+                q = close ? close + 1 : q + 1;
+            }
+            return *q == '>' ? (size_t)(q + 1 - p) : 0;
+        }
 
-    /* Must end with ] */
-    if (p >= text + len || *p != ']') {
-        free(key);
-        return 0;
-    }
-    p++;  /* Skip ] */
-
-    apex_citation *cite = apex_citation_new(key, APEX_CITATION_MMARK);
-    if (cite) {
-        cite->author_suppressed = author_suppressed;
-        *citation_out = cite;
-        free(key);
-        return p - (text + pos);
+        case ']': {
+            /* Destination of [text](url) */
+            if (p[1] != '(') return 0;
+            const char *limit = citation_paragraph_end(p);
+            int depth = 0;
+            for (const char *q = p + 1; q < limit; q++) {
+                if (*q == '\\' && q + 1 < limit) {
+                    q++;
+                } else if (*q == '(') {
+                    depth++;
+                } else if (*q == ')' && --depth == 0) {
+                    return (size_t)(q + 1 - p);
+                }
+            }
+            return 0;
+        }
     }
-
-    free(key);
     return 0;
 }
 
@@ -414,114 +356,80 @@ char *apex_process_citations(const char *text, apex_citation_registry *registry,
         return NULL;  /* Citations disabled */
     }
 
-    size_t len = strlen(text);
-
-    /* Quick scan: check if any citation patterns exist before processing */
-    /* Look for various citation patterns:
-     * - [@key] or [@!key] or [@?key] (Pandoc-style)
-     * - @key (author-in-text)
-     * - [#key] (MultiMarkdown-style)
-     */
-    bool has_citation_pattern = false;
-    const char *p = text;
-    while (*p && p < text + len - 1) {
-        if ((*p == '[' && p[1] == '@') ||  /* Pandoc [@...] */
-            (*p == '[' && p[1] == '#') ||  /* MultiMarkdown [#...] */
-            (*p == '@' && (p == text || isspace((unsigned char)p[-1]) || p[-1] == '('))) {  /* Author-in-text @... */
-            has_citation_pattern = true;
-            break;
-        }
-        p++;
-    }
-
-    /* Early exit if no citation patterns found */
-    if (!has_citation_pattern) {
+    /* Early exit if no citation patterns can exist */
+    if (!strchr(text, '@') && !strstr(text, "[#")) {
         return NULL;
     }
 
-    size_t capacity = len * 2;  /* Room for placeholders */
-    char *output = malloc(capacity);
-    if (!output) return NULL;
-
-    const char *read = text;
-    char *write = output;
-    size_t remaining = capacity;
-    bool in_code_block = false;
-    bool in_inline_code = false;
-
-    while (*read && read - text < (int)len) {
-        /* Track code blocks */
-        if (*read == '`') {
-            if (read[1] == '`' && read[2] == '`') {
-                in_code_block = !in_code_block;
-            } else if (!in_code_block) {
-                in_inline_code = !in_inline_code;
-            }
-        }
-
-        /* Skip citations inside code */
-        if (in_code_block || in_inline_code) {
-            if (remaining > 0) {
-                *write++ = *read++;
-                remaining--;
-            } else {
-                read++;
-            }
-            continue;
-        }
+    bool pandoc = options->mode == APEX_MODE_UNIFIED;
+    citation_buffer out = {0};
+    buffer_add(&out, "", 0);
 
-        int pos = read - text;
-        apex_citation *citation = NULL;
-        int consumed = 0;
+    apex_citation **tail = &registry->citations;
+    while (*tail) tail = &(*tail)->next;
 
-        /* Try mmark first (most specific pattern) */
-        if (options->mode == APEX_MODE_UNIFIED) {
-            consumed = parse_mmark_citation(text, pos, len, &citation, options);
+    for (const char *read = text; *read; ) {
+        size_t consumed = citation_verbatim_length(text, read);
+        if (consumed > 0) {
+            buffer_add(&out, read, consumed);
+            read += consumed;
+            continue;
         }
 
-        /* Try MultiMarkdown */
-        if (!citation && (options->mode == APEX_MODE_MULTIMARKDOWN || options->mode == APEX_MODE_UNIFIED)) {
-            consumed = parse_mmd_citation(text, pos, len, &citation, options);
+        apex_citation *list = NULL;
+        bool boundary = read == text || isspace((unsigned char)read[-1]);
+        if (*read == '[') {
+            consumed = parse_bracketed_citation(text, read, pandoc, &list);
+        } else if (*read == '@' && pandoc && (boundary || read[-1] == '(')) {
+            consumed = parse_text_citation(read, &list);
         }
-
-        /* Try Pandoc (most common) */
-        if (!citation && (options->mode == APEX_MODE_UNIFIED)) {
-            consumed = parse_pandoc_citation(text, pos, len, &citation, options);
+        if (consumed == 0) {
+            buffer_add(&out, read++, 1);
+            continue;
         }
 
-        if (citation && consumed > 0) {
-            /* Add citation to registry */
-            citation->position = pos;
-            citation->next = registry->citations;
-            registry->citations = citation;
+        /* Citations in one pair of brackets are shown together, mmark references one by one */
+        bool separate = list->syntax_type == APEX_CITATION_MMARK;
+        size_t first = registry->count;
+        *tail = list;
+        while (*tail) {
+            (*tail)->position = (int)(read - text);
             registry->count++;
+            tail = &(*tail)->next;
+            if (*tail && !separate) continue;
+
+            char placeholder[96];
+            snprintf(placeholder, sizeof(placeholder), "%s%zu-%zu%s", CITATION_PLACEHOLDER_PREFIX,
+                     first, registry->count - first, CITATION_PLACEHOLDER_SUFFIX);
+            if (boundary || read[-1] == '>') buffer_text(&out, CITATION_PLACEHOLDER_GUARD);
+            buffer_text(&out, placeholder);
+            if (*tail) buffer_text(&out, ";");
+            boundary = false;
+            first = registry->count;
+        }
+        read += consumed;
+    }
 
-            /* Insert placeholder */
-            char placeholder[256];
-            snprintf(placeholder, sizeof(placeholder), "%s%s%s",
-                    CITATION_PLACEHOLDER_PREFIX, citation->key, CITATION_PLACEHOLDER_SUFFIX);
-            size_t placeholder_len = strlen(placeholder);
-
-            if (placeholder_len < remaining) {
-                memcpy(write, placeholder, placeholder_len);
-                write += placeholder_len;
-                remaining -= placeholder_len;
-            }
+    return buffer_take(&out);
+}
 
-            read += consumed;
-        } else {
-            /* Copy character */
-            if (remaining > 0) {
-                *write++ = *read++;
-                remaining--;
-            } else {
-                read++;
-            }
+/** Add the text of one citation, without parentheses */
+static void citation_render_text(citation_buffer *out, const apex_citation *cite,
+                                 const apex_bibliography_entry *entry, bool same_author) {
+    bool author = entry && entry->author && !cite->author_suppressed && !same_author;
+    if (entry && entry->year) {
+        if (author) {
+            buffer_text(out, entry->author);
+            buffer_text(out, " ");
         }
+        buffer_text(out, entry->year);
+    } else {
+        buffer_escaped(out, cite->key);
+    }
+    if (cite->locator) {
+        buffer_text(out, ", ");
+        buffer_escaped(out, cite->locator);
     }
-
-    *write = '\0';
-    return output;
 }
 
 /**
@@ -535,129 +443,89 @@ char *apex_render_citations(const char *html, apex_citation_registry *registry,
         return NULL;
     }
 
-    /* For now, just replace placeholders with simple formatted citations */
-    size_t len = strlen(html);
-    size_t capacity = len * 3 + 1;  /* Room for HTML tags + null terminator */
-    char *output = malloc(capacity);
-    if (!output) return NULL;
-
-    const char *read = html;
-    char *write = output;
-    size_t remaining = capacity;
-    size_t prefix_len = strlen(CITATION_PLACEHOLDER_PREFIX);
-    size_t suffix_len = strlen(CITATION_PLACEHOLDER_SUFFIX);
-
-    while (*read) {
-        if (strncmp(read, CITATION_PLACEHOLDER_PREFIX, prefix_len) == 0) {
-            /* Found placeholder */
-            const char *key_start = read + prefix_len;
-            const char *key_end = strstr(key_start, CITATION_PLACEHOLDER_SUFFIX);
-
-            if (key_end) {
-                size_t key_len = key_end - key_start;
-                char *key = malloc(key_len + 1);
-                if (key) {
-                    memcpy(key, key_start, key_len);
-                    key[key_len] = '\0';
-
-                    /* Find citation in registry */
-                    apex_citation *cite = registry->citations;
-                    while (cite) {
-                        if (cite->key && strcmp(cite->key, key) == 0) {
-                            /* Try to find bibliography entry for better formatting */
-                            apex_bibliography_entry *bib_entry = NULL;
-                            if (registry->bibliography) {
-                                bib_entry = apex_find_bibliography_entry(registry->bibliography, key);
-                            }
-
-                            /* Format citation HTML */
-                            char citation_html[512];
-                            char citation_text[256] = "";
-
-                            if (bib_entry) {
-                                /* Use bibliography data for formatting */
-                                if (cite->author_in_text) {
-                                    if (bib_entry->author && bib_entry->year) {
-                                        snprintf(citation_text, sizeof(citation_text), "%s (%s)",
-                                                bib_entry->author, bib_entry->year);
-                                    } else if (bib_entry->author) {
-                                        strncpy(citation_text, bib_entry->author, sizeof(citation_text) - 1);
-                                    } else {
-                                        strncpy(citation_text, cite->key, sizeof(citation_text) - 1);
-                                    }
-                                } else if (cite->author_suppressed) {
-                                    if (bib_entry->year) {
-                                        snprintf(citation_text, sizeof(citation_text), "(%s)", bib_entry->year);
-                                    } else {
-                                        snprintf(citation_text, sizeof(citation_text), "(%s)", cite->key);
-                                    }
-                                } else {
-                                    if (bib_entry->author && bib_entry->year) {
-                                        snprintf(citation_text, sizeof(citation_text), "(%s %s)",
-                                                bib_entry->author, bib_entry->year);
-                                    } else if (bib_entry->year) {
-                                        snprintf(citation_text, sizeof(citation_text), "(%s)", bib_entry->year);
-                                    } else {
-                                        snprintf(citation_text, sizeof(citation_text), "(%s)", cite->key);
-                                    }
-                                }
-                            } else {
-                                /* No bibliography entry, use simple format */
-                                if (cite->author_in_text) {
-                                    strncpy(citation_text, cite->key, sizeof(citation_text) - 1);
-                                } else {
-                                    snprintf(citation_text, sizeof(citation_text), "(%s)", cite->key);
-                                }
-                            }
-
-                            /* Generate HTML with or without link */
-                            if (options->link_citations) {
-                                snprintf(citation_html, sizeof(citation_html),
-                                        "<a href=\"#ref-%s\" class=\"citation\" data-cites=\"%s\">%s</a>",
-                                        cite->key, cite->key, citation_text);
-                            } else {
-                                snprintf(citation_html, sizeof(citation_html),
-                                        "<span class=\"citation\" data-cites=\"%s\">%s</span>",
-                                        cite->key, citation_text);
-                            }
-
-                            size_t html_len = strlen(citation_html);
-                            if (html_len < remaining) {
-                                memcpy(write, citation_html, html_len);
-                                write += html_len;
-                                remaining -= html_len;
-                            }
-                            break;
-                        }
-                        cite = cite->next;
-                    }
-
-                    free(key);
+    citation_buffer out = {0};
+    buffer_add(&out, "", 0);
+    const size_t guard_len = strlen(CITATION_PLACEHOLDER_GUARD);
+    const size_t prefix_len = strlen(CITATION_PLACEHOLDER_PREFIX);
+
+    for (const char *read = html; *read; ) {
+        const char *p = read;
+        if (strncmp(p, CITATION_PLACEHOLDER_GUARD, guard_len) == 0) p += guard_len;
+        apex_citation *cite = NULL;
+        size_t count = 0;
+        if (strncmp(p, CITATION_PLACEHOLDER_PREFIX, prefix_len) == 0 && isdigit((unsigned char)p[prefix_len])) {
+            char *end;
+            size_t first = strtoul(p + prefix_len, &end, 10);
+            if (*end == '-' && isdigit((unsigned char)end[1])) {
+                count = strtoul(end + 1, &end, 10);
+                if (strncmp(end, CITATION_PLACEHOLDER_SUFFIX, strlen(CITATION_PLACEHOLDER_SUFFIX)) == 0 &&
+                    first < registry->count && count > 0 && count <= registry->count - first) {
+                    cite = registry->citations;
+                    while (cite && first-- > 0) cite = cite->next;
+                    p = end + strlen(CITATION_PLACEHOLDER_SUFFIX);
                 }
-
-                read = key_end + suffix_len;
-                continue;
             }
         }
+        if (!cite) {
+            buffer_add(&out, read++, 1);
+            continue;
+        }
+        read = p;
+
+        bool link = options->link_citations;
+        bool group = count > 1;
+        if (link && !group) {
+            buffer_text(&out, "<a href=\"#ref-");
+            buffer_escaped(&out, cite->key);
+            buffer_text(&out, "\" class=\"citation\" data-cites=\"");
+        } else {
+            buffer_text(&out, "<span class=\"citation\" data-cites=\"");
+        }
+        size_t i = 0;
+        for (apex_citation *c = cite; c && i < count; c = c->next, i++) {
+            if (i > 0) buffer_text(&out, " ");
+            buffer_escaped(&out, c->key);
+        }
+        buffer_text(&out, "\">");
 
-        /* Copy character */
-        if (remaining > 1) {  /* Reserve 1 byte for null terminator */
-            *write++ = *read++;
-            remaining--;
+        if (cite->author_in_text) {
+            apex_bibliography_entry *entry = apex_find_bibliography_entry(registry->bibliography, cite->key);
+            const char *year = entry && entry->author ? entry->year : NULL;
+            if (entry && entry->author) {
+                buffer_text(&out, entry->author);
+            } else {
+                buffer_escaped(&out, cite->key);
+            }
+            if (year || cite->locator) {
+                buffer_text(&out, " (");
+                if (year) buffer_text(&out, year);
+                if (year && cite->locator) buffer_text(&out, ", ");
+                if (cite->locator) buffer_escaped(&out, cite->locator);
+                buffer_text(&out, ")");
+            }
         } else {
-            read++;
+            const apex_bibliography_entry *previous = NULL;
+            buffer_text(&out, "(");
+            i = 0;
+            for (apex_citation *c = cite; c && i < count; c = c->next, i++) {
+                apex_bibliography_entry *entry = apex_find_bibliography_entry(registry->bibliography, c->key);
+                bool same_author = previous && entry && entry->year && entry->author && strcmp(previous->author, entry->author) == 0;
+                if (i > 0) buffer_text(&out, same_author ? ", " : "; ");
+                if (link && group) {
+                    buffer_text(&out, "<a href=\"#ref-");
+                    buffer_escaped(&out, c->key);
+                    buffer_text(&out, "\">");
+                }
+                citation_render_text(&out, c, entry, same_author);
+                if (link && group) buffer_text(&out, "</a>");
+                previous = entry && entry->year && entry->author && !c->author_suppressed ? entry : NULL;
+            }
+            buffer_text(&out, ")");
         }
+        buffer_text(&out, link && !group ? "</a>" : "</span>");
     }
 
-    /* Null terminate - ensure we have space */
-    if (remaining > 0) {
-        *write = '\0';
-    } else {
-        /* Should never happen, but be safe */
-        free(output);
-        return strdup(html);
-    }
-    return output;
+    return buffer_take(&out);
 }
 
 /**
@@ -666,146 +534,35 @@ char *apex_render_citations(const char *html, apex_citation_registry *registry,
 static char *format_bibliography_entry(apex_bibliography_entry *entry) {
     if (!entry) return NULL;
 
-    size_t capacity = 2048;  /* Larger capacity for full entries */
-    char *html = malloc(capacity);
-    if (!html) return NULL;
-
-    char *write = html;
-    size_t remaining = capacity;
-    int written;
-
-    /* Start entry div */
-    written = snprintf(write, remaining, "<div id=\"ref-%s\" class=\"csl-entry\">", entry->id ? entry->id : "");
-    if (written < 0 || (size_t)written >= remaining) {
-        free(html);
-        return NULL;
-    }
-    write += written;
-    remaining -= written;
-
-    /* Format entry content - author-date style */
+    citation_buffer out = {0};
+    buffer_text(&out, "<div id=\"ref-");
+    buffer_escaped(&out, entry->id ? entry->id : "");
+    buffer_text(&out, "\" class=\"csl-entry\">");
+
+    /* Author-date style: what precedes each field if it is not the first, and its markup */
+    const struct {
+        const char *value, *before, *open, *close;
+    } fields[] = {
+        { entry->author, "", "", "" },
+        { entry->year, " ", "", "" },
+        { entry->title, ". ", "<em>", "</em>" },
+        { entry->container_title, ". ", "<em>", "</em>" },
+        { entry->volume, " ", "", "" },
+        { entry->page, ": ", "", "" },
+        { entry->publisher, ". ", "", "" },
+    };
     bool has_content = false;
-
-    /* Author */
-    if (entry->author && entry->author[0] != '\0') {
-        written = snprintf(write, remaining, "%s", entry->author);
-        if (written > 0 && (size_t)written < remaining) {
-            write += written;
-            remaining -= written;
-            has_content = true;
-        }
-    }
-
-    /* Year */
-    if (entry->year && entry->year[0] != '\0') {
-        if (has_content) {
-            written = snprintf(write, remaining, " %s", entry->year);
-        } else {
-            written = snprintf(write, remaining, "%s", entry->year);
-        }
-        if (written > 0 && (size_t)written < remaining) {
-            write += written;
-            remaining -= written;
-            has_content = true;
-        }
-    }
-
-    /* Title */
-    if (entry->title && entry->title[0] != '\0') {
-        if (has_content) {
-            written = snprintf(write, remaining, ". ");
-        } else {
-            written = snprintf(write, remaining, "");
-        }
-        if (written > 0 && (size_t)written < remaining) {
-            write += written;
-            remaining -= written;
-        }
-        written = snprintf(write, remaining, "<em>%s</em>", entry->title);
-        if (written > 0 && (size_t)written < remaining) {
-            write += written;
-            remaining -= written;
-            has_content = true;
-        }
-    }
-
-    /* Container title (journal) */
-    if (entry->container_title && entry->container_title[0] != '\0') {
-        if (has_content) {
-            written = snprintf(write, remaining, ". ");
-        } else {
-            written = snprintf(write, remaining, "");
-        }
-        if (written > 0 && (size_t)written < remaining) {
-            write += written;
-            remaining -= written;
-        }
-        written = snprintf(write, remaining, "<em>%s</em>", entry->container_title);
-        if (written > 0 && (size_t)written < remaining) {
-            write += written;
-            remaining -= written;
-            has_content = true;
-        }
-    }
-
-    /* Volume and pages */
-    if (entry->volume && entry->volume[0] != '\0') {
-        if (has_content) {
-            written = snprintf(write, remaining, " ");
-        } else {
-            written = snprintf(write, remaining, "");
-        }
-        if (written > 0 && (size_t)written < remaining) {
-            write += written;
-            remaining -= written;
-        }
-        written = snprintf(write, remaining, "%s", entry->volume);
-        if (written > 0 && (size_t)written < remaining) {
-            write += written;
-            remaining -= written;
-            has_content = true;
-        }
-    }
-
-    if (entry->page && entry->page[0] != '\0') {
-        if (has_content) {
-            written = snprintf(write, remaining, ": %s", entry->page);
-        } else {
-            written = snprintf(write, remaining, "%s", entry->page);
-        }
-        if (written > 0 && (size_t)written < remaining) {
-            write += written;
-            remaining -= written;
-            has_content = true;
-        }
+    for (size_t i = 0; i < sizeof(fields) / sizeof(fields[0]); i++) {
+        if (!fields[i].value || !*fields[i].value) continue;
+        if (has_content) buffer_text(&out, fields[i].before);
+        buffer_text(&out, fields[i].open);
+        buffer_text(&out, fields[i].value);
+        buffer_text(&out, fields[i].close);
+        has_content = true;
     }
+    buffer_text(&out, "</div>\n");
 
-    /* Publisher */
-    if (entry->publisher && entry->publisher[0] != '\0') {
-        if (has_content) {
-            written = snprintf(write, remaining, ". ");
-        } else {
-            written = snprintf(write, remaining, "");
-        }
-        if (written > 0 && (size_t)written < remaining) {
-            write += written;
-            remaining -= written;
-        }
-        written = snprintf(write, remaining, "%s", entry->publisher);
-        if (written > 0 && (size_t)written < remaining) {
-            write += written;
-            remaining -= written;
-            has_content = true;
-        }
-    }
-
-    /* Close entry div */
-    written = snprintf(write, remaining, "</div>\n");
-    if (written > 0 && (size_t)written < remaining) {
-        write += written;
-    }
-
-    return html;
+    return buffer_take(&out);
 }
 
 /**
@@ -874,57 +631,19 @@ char *apex_generate_bibliography(apex_citation_registry *registry, const apex_op
     }
 
     /* Generate bibliography HTML */
-    size_t capacity = 4096;
-    char *html = malloc(capacity);
-    if (!html) {
-        free(cited_entries);
-        return NULL;
-    }
-
-    char *write = html;
-    size_t remaining = capacity;
-
-    /* Start bibliography div */
-    snprintf(write, remaining, "<div id=\"refs\" class=\"references csl-bib-body\">\n");
-    size_t len = strlen(write);
-    write += len;
-    remaining -= len;
-
-    /* Add each entry */
+    citation_buffer out = {0};
+    buffer_text(&out, "<div id=\"refs\" class=\"references csl-bib-body\">\n");
     for (size_t i = 0; i < cited_count; i++) {
-        if (!cited_entries[i]) {
-            continue;
-        }
         char *entry_html = format_bibliography_entry(cited_entries[i]);
         if (entry_html) {
-            size_t entry_len = strlen(entry_html);
-            if (entry_len >= remaining) {
-                size_t used = write - html;
-                capacity = (used + entry_len + 1) * 2;
-                char *new_html = realloc(html, capacity);
-                if (!new_html) {
-                    free(html);
-                    free(entry_html);
-                    free(cited_entries);
-                    return NULL;
-                }
-                html = new_html;
-                write = html + used;
-                remaining = capacity - used;
-            }
-            memcpy(write, entry_html, entry_len);
-            write += entry_len;
-            remaining -= entry_len;
+            buffer_text(&out, entry_html);
             free(entry_html);
         }
     }
-
-    /* Close bibliography div */
-    snprintf(write, remaining, "</div>\n");
-    write += strlen(write);
+    buffer_text(&out, "</div>\n");
 
     free(cited_entries);
-    return html;
+    return buffer_take(&out);
 }
 
 /**
-- 
2.43.0


From d55897bd345750236134e72bc6245af5627fe885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:10 +0000
Subject: [PATCH 42/66] fix: BibTeX values in quotes, comments and truncated
 entries are read without losing fields or freeing the wrong pointer

---
 src/extensions/citations.c | 355 ++++++++++++-------------------------
 1 file changed, 113 insertions(+), 242 deletions(-)

diff --git a/src/extensions/citations.c b/src/extensions/citations.c
index 10ea91e..ccf0ee9 100644
--- a/src/extensions/citations.c
+++ b/src/extensions/citations.c
@@ -974,160 +974,85 @@ static char *trim_string(char *str) {
     return str;
 }
 
-/**
- * Remove braces from BibTeX value
- */
-static char *remove_braces(const char *value) {
-    if (!value) return NULL;
+/** Copy of len bytes without braces and surrounding whitespace */
+static char *copy_value(const char *value, size_t len) {
+    while (len > 0 && (isspace((unsigned char)*value) || *value == '{' || *value == '}')) {
+        value++;
+        len--;
+    }
+    while (len > 0 && (isspace((unsigned char)value[len - 1]) || value[len - 1] == '{' || value[len - 1] == '}')) len--;
 
-    size_t len = strlen(value);
     char *result = malloc(len + 1);
     if (!result) return NULL;
-
-    const char *src = value;
     char *dst = result;
-    while (*src) {
-        if (*src != '{' && *src != '}') {
-            *dst++ = *src;
-        }
-        src++;
+    for (size_t i = 0; i < len; i++) {
+        if (value[i] != '{' && value[i] != '}') *dst++ = value[i];
     }
     *dst = '\0';
-
-    return trim_string(result);
+    return result;
 }
 
-/**
- * Parse BibTeX entry type
- */
-static const char *parse_bibtex_entry_type(const char *text, const char **entry_start) {
-    if (!text) return NULL;
-
-    const char *p = text;
-
-    /* Skip whitespace */
-    while (*p && isspace(*p)) p++;
-
-    /* Must start with @ */
-    if (*p != '@') return NULL;
-    p++;
-
-    /* Extract entry type (between @ and {) */
-    const char *type_start = p;
-    while (*p && *p != '{' && !isspace(*p)) p++;
-
-    if (*p != '{') return NULL;
-
-    /* Extract entry type */
-    const char *type_end = p;  /* At { */
-
-    size_t type_len = type_end - type_start;
-    if (type_len == 0) return NULL;
-
-    char *type = malloc(type_len + 1);
-    if (!type) return NULL;
-    memcpy(type, type_start, type_len);
-    type[type_len] = '\0';
-
-    /* Convert to lowercase */
-    for (char *t = type; *t; t++) {
-        *t = tolower(*t);
+/** Replace an entry's field; empty values leave it unset */
+static void set_entry_field(char **field, char *value) {
+    if (!value || !*value) {
+        free(value);
+        return;
     }
+    free(*field);
+    *field = value;
+}
 
-    if (entry_start) *entry_start = p + 1;  /* After { */
-
-    return type;
+/** Position after the brace that closes the one before p, or the end of the text */
+static const char *bibtex_skip_braces(const char *p) {
+    for (int depth = 1; *p; p++) {
+        if (*p == '{') depth++;
+        else if (*p == '}' && --depth == 0) return p + 1;
+    }
+    return p;
 }
 
 /**
- * Parse BibTeX field: key = {value} or key = value
- * Returns true if successful, and sets *end_pos to position after the field
+ * Parse BibTeX field: key = {value}, key = "value" or key = value
+ * Returns the position after the field, or NULL if there is none at p
  */
-static bool parse_bibtex_field(const char *text, char **key_out, char **value_out, const char **end_pos) {
-    if (!text) return false;
-
-    const char *p = text;
-
-    /* Skip whitespace */
-    while (*p && isspace(*p)) p++;
-    if (!*p) return false;
-
-    /* Find = */
+static const char *parse_bibtex_field(const char *p, char **key_out, char **value_out) {
+    *key_out = *value_out = NULL;
     const char *key_start = p;
-    const char *equals = strchr(p, '=');
-    if (!equals) return false;
-
-    /* Extract key */
-    const char *key_end = equals;
-    while (key_end > key_start && isspace(key_end[-1])) key_end--;
-
-    size_t key_len = key_end - key_start;
-    if (key_len == 0) return false;
-
-    *key_out = malloc(key_len + 1);
-    if (!*key_out) return false;
-    memcpy(*key_out, key_start, key_len);
-    (*key_out)[key_len] = '\0';
-    trim_string(*key_out);
-
-    /* Find value */
-    p = equals + 1;
-    while (*p && isspace(*p)) p++;
+    while (*p && !isspace((unsigned char)*p) && !strchr("=,{}\"", *p)) p++;
+    const char *key_end = p;
+    while (isspace((unsigned char)*p)) p++;
+    if (key_end == key_start || *p != '=') return NULL;
+    p++;
+    while (isspace((unsigned char)*p)) p++;
 
+    const char *value_start = p, *value_end;
     if (*p == '{') {
         /* Braced value */
-        p++;
-        const char *value_start = p;
-        int brace_depth = 1;
-
-        while (*p && brace_depth > 0) {
-            if (*p == '{') brace_depth++;
-            else if (*p == '}') brace_depth--;
+        const char *end = bibtex_skip_braces(p + 1);
+        if (end[-1] != '}' || end == p + 1) return NULL;  /* Unmatched braces */
+        value_start = p + 1;
+        value_end = end - 1;
+        p = end;
+    } else if (*p == '"') {
+        /* Quoted value; a quote inside braces does not end it */
+        int depth = 0;
+        value_start = ++p;
+        while (*p && (*p != '"' || depth > 0)) {
+            if (*p == '{') depth++;
+            else if (*p == '}') depth--;
             p++;
         }
-
-        if (brace_depth == 0) {
-            size_t value_len = (p - 1) - value_start;  /* Exclude closing } */
-            *value_out = malloc(value_len + 1);
-            if (*value_out) {
-                memcpy(*value_out, value_start, value_len);
-                (*value_out)[value_len] = '\0';
-                char *cleaned = remove_braces(*value_out);
-                if (cleaned) {
-                    free(*value_out);
-                    *value_out = cleaned;
-                }
-            }
-            if (end_pos) {
-                *end_pos = p;  /* Position after closing } */
-            }
-        } else {
-            /* Unmatched braces, return failure */
-            if (end_pos) *end_pos = NULL;
-            return false;
-        }
+        if (!*p) return NULL;
+        value_end = p++;
     } else {
         /* Unbraced value (until comma or closing brace) */
-        const char *value_start = p;
         while (*p && *p != ',' && *p != '}') p++;
-
-        size_t value_len = p - value_start;
-        while (value_len > 0 && isspace(value_start[value_len - 1])) value_len--;
-
-        *value_out = malloc(value_len + 1);
-        if (*value_out) {
-            memcpy(*value_out, value_start, value_len);
-            (*value_out)[value_len] = '\0';
-            trim_string(*value_out);
-        }
-        if (end_pos) {
-            *end_pos = p;  /* Position after the field value */
-        }
+        value_end = p;
     }
 
-    return (*value_out != NULL);
-
-    return (*value_out != NULL);
+    *key_out = copy_value(key_start, (size_t)(key_end - key_start));
+    *value_out = copy_value(value_start, (size_t)(value_end - value_start));
+    return p;
 }
 
 /**
@@ -1149,136 +1074,82 @@ static const char *bibtex_to_csl_type(const char *bibtex_type) {
     return "article";  /* Default */
 }
 
+/** New empty registry */
+static apex_bibliography_registry *bibliography_registry_new(void) {
+    return calloc(1, sizeof(apex_bibliography_registry));
+}
+
+/** Add an entry to the registry */
+static void bibliography_registry_add(apex_bibliography_registry *registry, apex_bibliography_entry *entry) {
+    entry->next = registry->entries;
+    registry->entries = entry;
+    registry->count++;
+}
+
 /**
  * Parse BibTeX file
  */
 apex_bibliography_registry *apex_parse_bibtex(const char *content) {
     if (!content) return NULL;
 
-    apex_bibliography_registry *registry = malloc(sizeof(apex_bibliography_registry));
+    apex_bibliography_registry *registry = bibliography_registry_new();
     if (!registry) return NULL;
-    registry->entries = NULL;
-    registry->count = 0;
 
     const char *p = content;
-
-    while (*p) {
-        /* Find @ entry */
-        while (*p && *p != '@') p++;
-        if (!*p) break;
-
-        const char *entry_start;
-        const char *type_str = parse_bibtex_entry_type(p, &entry_start);
-        if (!type_str) {
-            p++;
-            continue;
-        }
-
-        /* Find entry key (after {) */
-        const char *key_start = entry_start;
-        while (*key_start && (isspace(*key_start) || *key_start == ',')) key_start++;
-
-        const char *key_end = key_start;
-        while (*key_end && *key_end != ',' && *key_end != '}') key_end++;
-
-        if (key_end == key_start) {
-            free((void*)type_str);
-            p++;
+    while ((p = strchr(p, '@')) != NULL) {
+        /* Entry type, between @ and { */
+        p++;
+        size_t type_len = strcspn(p, "{@ \t\r\n");
+        const char *open = p + type_len + strspn(p + type_len, " \t\r\n");
+        if (type_len == 0 || *open != '{') continue;
+        char *type = copy_value(p, type_len);
+        p = open + 1;
+        if (!type) break;
+        for (char *t = type; *t; t++) *t = (char)tolower((unsigned char)*t);
+
+        if (strcmp(type, "comment") == 0 || strcmp(type, "preamble") == 0 || strcmp(type, "string") == 0) {
+            p = bibtex_skip_braces(p);
+            free(type);
             continue;
         }
 
-        size_t key_len = key_end - key_start;
-        char *entry_id = malloc(key_len + 1);
-        if (!entry_id) {
-            free((void*)type_str);
-            p++;
+        /* Entry key */
+        size_t key_len = strcspn(p, ",}");
+        char *id = copy_value(p, key_len);
+        p += key_len;
+        apex_bibliography_entry *entry = id && *id ? bibliography_entry_new(id) : NULL;
+        free(id);
+        if (!entry) {
+            free(type);
             continue;
         }
-        memcpy(entry_id, key_start, key_len);
-        entry_id[key_len] = '\0';
-        trim_string(entry_id);
-
-        /* Create entry */
-        apex_bibliography_entry *entry = bibliography_entry_new(entry_id);
-        free(entry_id);
-
-        if (entry) {
-            entry->type = strdup(bibtex_to_csl_type(type_str));
-
-            /* Parse fields */
-            const char *field_start = key_end;
-            while (*field_start && *field_start != '}') {
-                if (*field_start == ',') field_start++;
-                while (*field_start && isspace(*field_start)) field_start++;
-                if (*field_start == '}') break;
-
-                char *field_key = NULL;
-                char *field_value = NULL;
-                const char *field_end = NULL;
-
-                if (parse_bibtex_field(field_start, &field_key, &field_value, &field_end)) {
-                    if (field_key && field_value) {
-                        /* Map BibTeX fields to CSL fields */
-                        if (strcasecmp(field_key, "title") == 0) {
-                            entry->title = field_value;
-                            field_value = NULL;  /* Don't free, we're using it */
-                        } else if (strcasecmp(field_key, "author") == 0) {
-                            entry->author = field_value;
-                            field_value = NULL;
-                        } else if (strcasecmp(field_key, "year") == 0) {
-                            entry->year = field_value;
-                            field_value = NULL;
-                        } else if (strcasecmp(field_key, "journal") == 0) {
-                            entry->container_title = field_value;
-                            field_value = NULL;
-                        } else if (strcasecmp(field_key, "publisher") == 0) {
-                            entry->publisher = field_value;
-                            field_value = NULL;
-                        } else if (strcasecmp(field_key, "volume") == 0) {
-                            entry->volume = field_value;
-                            field_value = NULL;
-                        } else if (strcasecmp(field_key, "pages") == 0) {
-                            entry->page = field_value;
-                            field_value = NULL;
-                        }
+        entry->type = strdup(bibtex_to_csl_type(type));
+        free(type);
 
-                        if (field_value) free(field_value);
-                    }
-                    free(field_key);
-
-                    /* Advance past this field */
-                    if (field_end) {
-                        field_start = field_end;
-                        /* Skip comma if present */
-                        while (*field_start && (*field_start == ',' || isspace(*field_start))) {
-                            field_start++;
-                        }
-                    } else {
-                        /* Fallback: find next comma or closing brace */
-                        field_start = strchr(field_start, ',');
-                        if (field_start) {
-                            field_start++;
-                        } else {
-                            field_start = strchr(field_start ? field_start : content, '}');
-                            break;  /* End of entry */
-                        }
-                    }
-                } else {
-                    break;  /* Can't parse more fields */
-                }
-            }
-
-            /* Add to registry */
-            entry->next = registry->entries;
-            registry->entries = entry;
-            registry->count++;
+        /* Fields */
+        for (;;) {
+            p += strspn(p, ", \t\r\n");
+            char *key, *value;
+            const char *end = parse_bibtex_field(p, &key, &value);
+            if (!end) break;
+            p = end;
+
+            /* Map BibTeX fields to CSL fields */
+            char **field = !key ? NULL
+                : strcasecmp(key, "title") == 0 ? &entry->title
+                : strcasecmp(key, "author") == 0 ? &entry->author
+                : strcasecmp(key, "year") == 0 ? &entry->year
+                : strcasecmp(key, "journal") == 0 ? &entry->container_title
+                : strcasecmp(key, "publisher") == 0 ? &entry->publisher
+                : strcasecmp(key, "volume") == 0 ? &entry->volume
+                : strcasecmp(key, "pages") == 0 ? &entry->page
+                : NULL;
+            if (field) set_entry_field(field, value);
+            else free(value);
+            free(key);
         }
 
-        free((void*)type_str);
-
-        /* Find next entry */
-        p = strchr(p, '}');
-        if (p) p++;
+        bibliography_registry_add(registry, entry);
     }
 
     return registry;
-- 
2.43.0


From a3a50ef8982e108b21520c0328d20bb404b9ada0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:10 +0000
Subject: [PATCH 43/66] fix: CSL JSON and CSL YAML bibliographies are read in
 the documented formats

---
 src/extensions/citations.c | 624 +++++++++++++++++--------------------
 1 file changed, 279 insertions(+), 345 deletions(-)

diff --git a/src/extensions/citations.c b/src/extensions/citations.c
index ccf0ee9..f377887 100644
--- a/src/extensions/citations.c
+++ b/src/extensions/citations.c
@@ -955,25 +955,6 @@ apex_bibliography_entry *apex_find_bibliography_entry(apex_bibliography_registry
     return NULL;
 }
 
-/**
- * Trim whitespace from string (in-place)
- */
-static char *trim_string(char *str) {
-    if (!str) return NULL;
-
-    /* Trim leading whitespace */
-    while (isspace((unsigned char)*str)) str++;
-
-    if (*str == 0) return str;
-
-    /* Trim trailing whitespace */
-    char *end = str + strlen(str) - 1;
-    while (end > str && isspace((unsigned char)*end)) end--;
-    end[1] = '\0';
-
-    return str;
-}
-
 /** Copy of len bytes without braces and surrounding whitespace */
 static char *copy_value(const char *value, size_t len) {
     while (len > 0 && (isspace((unsigned char)*value) || *value == '{' || *value == '}')) {
@@ -1155,394 +1136,347 @@ apex_bibliography_registry *apex_parse_bibtex(const char *content) {
     return registry;
 }
 
-/**
- * Parse CSL JSON file (basic implementation)
- * For now, just extract id, type, title, author, year
- */
-apex_bibliography_registry *apex_parse_csl_json(const char *content) {
-    if (!content) return NULL;
-
-    /* Very basic JSON parsing - just look for "id" fields */
-    /* For a full implementation, we'd use a JSON library like cJSON */
-    /* This is a minimal implementation for MVP */
-
-    apex_bibliography_registry *registry = malloc(sizeof(apex_bibliography_registry));
-    if (!registry) return NULL;
-    registry->entries = NULL;
-    registry->count = 0;
-
-    /* TODO: Implement proper JSON parsing */
-    /* For now, return empty registry - will be enhanced later */
-
-    return registry;
+/** Add a Unicode character to the buffer as UTF-8 */
+static void buffer_utf8(citation_buffer *b, unsigned long c) {
+    char u[4];
+    size_t n;
+    if (c < 0x80) {
+        u[0] = (char)c;
+        n = 1;
+    } else if (c < 0x800) {
+        u[0] = (char)(0xC0 | (c >> 6));
+        n = 2;
+    } else if (c < 0x10000) {
+        u[0] = (char)(0xE0 | (c >> 12));
+        n = 3;
+    } else {
+        u[0] = (char)(0xF0 | (c >> 18));
+        n = 4;
+    }
+    for (size_t i = 1; i < n; i++) u[i] = (char)(0x80 | ((c >> (6 * (n - 1 - i))) & 0x3F));
+    buffer_add(b, u, n);
 }
 
-/**
- * Get indentation level (number of leading spaces)
- */
-static int get_indent_level(const char *line) {
-    int indent = 0;
-    while (*line == ' ') {
-        indent++;
-        line++;
+/** The four hex digits at p, or -1 */
+static long csl_hex4(const char *p) {
+    long value = 0;
+    for (int i = 0; i < 4; i++) {
+        if (!isxdigit((unsigned char)p[i])) return -1;
+        value = value * 16 + (isdigit((unsigned char)p[i]) ? p[i] - '0' : (tolower((unsigned char)p[i]) - 'a' + 10));
     }
-    return indent;
+    return value;
 }
 
 /**
- * Extract YAML value (handles quoted and unquoted strings)
+ * Read the scalar at *pos (JSON or YAML: "quoted", 'quoted' or plain) and advance past it.
+ * In flow context a plain scalar also ends at a comma or closing bracket.
  */
-static char *extract_yaml_value(const char *value_str) {
-    if (!value_str) return NULL;
-
-    /* Skip leading whitespace */
-    while (*value_str && isspace(*value_str)) value_str++;
-    if (!*value_str) return NULL;
-
-    /* Check for quotes */
-    char quote_char = 0;
-    if (*value_str == '"' || *value_str == '\'') {
-        quote_char = *value_str;
-        value_str++;
-    }
-
-    const char *value_start = value_str;
-    const char *value_end = value_str;
+static char *csl_scalar(const char **pos, bool flow) {
+    const char *p = *pos;
+    citation_buffer out = {0};
+    buffer_add(&out, "", 0);
+    while (*p == ' ' || *p == '\t' || (flow && isspace((unsigned char)*p))) p++;
 
-    if (quote_char) {
-        /* Find closing quote */
-        while (*value_end && *value_end != quote_char) {
-            if (*value_end == '\\' && value_end[1]) value_end++;  /* Skip escaped chars */
-            value_end++;
+    if (*p == '"') {
+        for (p++; *p && *p != '"'; p++) {
+            if (*p != '\\' || !p[1]) {
+                buffer_add(&out, p, 1);
+                continue;
+            }
+            p++;
+            long c = *p == 'u' ? csl_hex4(p + 1) : -1;
+            if (c >= 0) {
+                p += 4;
+                long low = c >= 0xD800 && c < 0xDC00 && p[1] == '\\' && p[2] == 'u' ? csl_hex4(p + 3) : -1;
+                if (low >= 0xDC00 && low < 0xE000) {
+                    c = 0x10000 + ((c - 0xD800) << 10) + (low - 0xDC00);
+                    p += 6;
+                }
+                if (c > 0 && (c < 0xD800 || c > 0xDFFF)) buffer_utf8(&out, (unsigned long)c);
+            } else {
+                buffer_add(&out, *p == 'n' ? "\n" : *p == 't' ? "\t" : *p == 'r' ? "\r" : p, 1);
+            }
         }
-    } else {
-        /* Find end of value (newline or comment) */
-        while (*value_end && *value_end != '\n' && *value_end != '\r' && *value_end != '#') {
-            value_end++;
+        if (*p) p++;
+    } else if (*p == '\'') {
+        for (p++; *p && (*p != '\'' || p[1] == '\''); p++) {
+            if (*p == '\'') p++;
+            buffer_add(&out, p, 1);
         }
-        /* Trim trailing whitespace */
-        while (value_end > value_start && isspace(value_end[-1])) value_end--;
+        if (*p) p++;
+    } else {
+        const char *start = p;
+        while (*p && *p != '\n' && *p != '\r' && !(flow && strchr(",]}", *p)) &&
+               !(*p == '#' && p > start && isspace((unsigned char)p[-1]))) p++;
+        size_t len = (size_t)(p - start);
+        while (len > 0 && isspace((unsigned char)start[len - 1])) len--;
+        buffer_add(&out, start, len);
     }
+    *pos = p;
+    return buffer_take(&out);
+}
 
-    size_t value_len = value_end - value_start;
-    if (value_len == 0) return NULL;
-
-    char *value = malloc(value_len + 1);
-    if (!value) return NULL;
-    memcpy(value, value_start, value_len);
-    value[value_len] = '\0';
+/** Length of the mapping key at p (quotes included) if a colon follows it, else 0 */
+static size_t csl_key_length(const char *p, const char **name, size_t *name_len, const char **value) {
+    char quote = (*p == '"' || *p == '\'') ? *p : 0;
+    const char *start = quote ? p + 1 : p;
+    const char *q = start;
+    while (isalnum((unsigned char)*q) || *q == '-' || *q == '_') q++;
+    *name = start;
+    *name_len = (size_t)(q - start);
+    if (quote && *q++ != quote) return 0;
+    size_t len = (size_t)(q - p);
+    while (*q == ' ' || *q == '\t') q++;
+    if (*name_len == 0 || *q != ':') return 0;
+    if (!quote && q[1] && !isspace((unsigned char)q[1])) return 0;
+    *value = q + 1;
+    return len;
+}
 
-    return trim_string(value);
+/** Append a person as "Family, Given" and reset the parts */
+static void csl_add_person(citation_buffer *out, char **family, char **given) {
+    if ((*family && **family) || (*given && **given)) {
+        if (out->len > 0) buffer_text(out, " and ");
+        if (*family && **family) buffer_text(out, *family);
+        if (*family && **family && *given && **given) buffer_text(out, ", ");
+        if (*given && **given) buffer_text(out, *given);
+    }
+    free(*family);
+    free(*given);
+    *family = *given = NULL;
 }
 
 /**
- * Parse author from YAML structure
- * Handles: author: {family: Doe, given: John} or author: [{family: Doe, given: John}]
- * Also handles multi-line format:
- *   author:
- *     - family: Doe
- *       given: John
+ * Authors of a CSL name list (flow or block style), or of a plain text value
  */
-static char *parse_yaml_author(const char *content, int base_indent) {
-    if (!content) return NULL;
-
-    const char *p = content;
-    char *family = NULL;
-    char *given = NULL;
-
-    /* Skip whitespace and opening brace/bracket */
-    while (*p && (isspace(*p) || *p == '{' || *p == '[')) p++;
+static char *csl_names(const char *value) {
+    const char *p = value + strspn(value, " \t\r\n");
+    if (!strchr("[{-", *p) || (*p == '-' && !isspace((unsigned char)p[1]))) {
+        const char *name, *after;
+        size_t name_len;
+        if (csl_key_length(p, &name, &name_len, &after) == 0) return csl_scalar(&p, false);
+    }
 
-    /* Look for family: and given: fields */
+    citation_buffer out = {0};
+    buffer_add(&out, "", 0);
+    char *family = NULL, *given = NULL;
+    bool flow = false;
     while (*p) {
-        /* Check for list item marker */
-        if (*p == '-' && isspace(p[1])) {
+        const char *name, *after;
+        size_t name_len;
+        if (isspace((unsigned char)*p) || *p == ',') {
             p++;
-            while (*p && isspace(*p)) p++;
-        }
-
-        if (strncmp(p, "family:", 7) == 0) {
-            p += 7;
-            while (*p && isspace(*p)) p++;
-            family = extract_yaml_value(p);
-            if (family) {
-                /* Find end of this line */
-                while (*p && *p != '\n') p++;
-                if (*p == '\n') p++;
-            }
-        } else if (strncmp(p, "given:", 6) == 0) {
-            p += 6;
-            while (*p && isspace(*p)) p++;
-            given = extract_yaml_value(p);
-            if (given) {
-                while (*p && *p != '\n') p++;
-                if (*p == '\n') p++;
-            }
-        } else if (*p == '\n') {
-            /* Check next line for continuation */
+        } else if (*p == '[' || *p == '{' || *p == ']' || *p == '}') {
+            flow = true;
+            csl_add_person(&out, &family, &given);
             p++;
-            int next_indent = get_indent_level(p);
-            if (next_indent <= base_indent) {
-                break;  /* End of author block */
+        } else if (*p == '-' && isspace((unsigned char)p[1])) {
+            csl_add_person(&out, &family, &given);
+            p++;
+        } else if (csl_key_length(p, &name, &name_len, &after) > 0) {
+            p = after;
+            char *scalar = csl_scalar(&p, flow);
+            bool is_family = (name_len == 6 && strncmp(name, "family", 6) == 0) ||
+                             (name_len == 7 && strncmp(name, "literal", 7) == 0);
+            if (is_family) {
+                free(family);
+                family = scalar;
+            } else if (name_len == 5 && strncmp(name, "given", 5) == 0) {
+                free(given);
+                given = scalar;
+            } else {
+                free(scalar);
             }
-            /* Continue parsing on next line */
-        } else if (*p == '}' || *p == ']') {
-            break;  /* End of structure */
         } else {
-            p++;
+            const char *before = p;
+            free(csl_scalar(&p, flow));
+            if (p == before) p++;
         }
     }
+    csl_add_person(&out, &family, &given);
+    return buffer_take(&out);
+}
 
-    /* Format author name */
-    if (family || given) {
-        size_t len = (family ? strlen(family) : 0) + (given ? strlen(given) : 0) + 3;
-        char *author = malloc(len);
-        if (author) {
-            if (family && given) {
-                snprintf(author, len, "%s, %s", family, given);
-            } else if (family) {
-                strcpy(author, family);
-            } else {
-                strcpy(author, given);
+/** The year in a CSL date: its first number */
+static char *csl_year(const char *value) {
+    size_t skip = strcspn(value, "0123456789");
+    return copy_value(value + skip, strspn(value + skip, "0123456789"));
+}
+
+/** Set the field a CSL key names from the text of its value */
+static void csl_set_field(apex_bibliography_entry *entry, const char *name, size_t name_len, const char *value, bool flow) {
+    const struct {
+        const char *name;
+        char **field;
+    } fields[] = {
+        { "id", &entry->id },
+        { "type", &entry->type },
+        { "title", &entry->title },
+        { "container-title", &entry->container_title },
+        { "publisher", &entry->publisher },
+        { "volume", &entry->volume },
+        { "page", &entry->page },
+        { "author", &entry->author },
+        { "issued", &entry->year },
+        { "year", &entry->year },
+    };
+    for (size_t i = 0; i < sizeof(fields) / sizeof(fields[0]); i++) {
+        if (strlen(fields[i].name) != name_len || strncmp(fields[i].name, name, name_len) != 0) continue;
+        char *text = fields[i].field == &entry->author ? csl_names(value)
+                   : fields[i].field == &entry->year ? csl_year(value)
+                   : csl_scalar(&value, flow);
+        set_entry_field(fields[i].field, text);
+    }
+}
+
+/** Set a field from the len bytes of its value */
+static void csl_set_field_text(apex_bibliography_entry *entry, const char *name, size_t name_len,
+                               const char *value, size_t len, bool flow) {
+    char *copy = malloc(len + 1);
+    if (!copy) return;
+    memcpy(copy, value, len);
+    copy[len] = '\0';
+    csl_set_field(entry, name, name_len, copy, flow);
+    free(copy);
+}
+
+/** Add an entry that got an ID, free one that did not */
+static void csl_finish_entry(apex_bibliography_registry *registry, apex_bibliography_entry *entry) {
+    if (!entry) return;
+    if (entry->id && *entry->id) bibliography_registry_add(registry, entry);
+    else apex_bibliography_entry_free(entry);
+}
+
+/** Position after the JSON value at p */
+static const char *csl_skip_json(const char *p) {
+    int depth = 0;
+    while (*p) {
+        if (*p == '"') {
+            for (p++; *p && *p != '"'; p++) {
+                if (*p == '\\' && p[1]) p++;
             }
+            if (!*p) return p;
+        } else if (*p == '[' || *p == '{') {
+            depth++;
+        } else if (*p == ']' || *p == '}' || *p == ',') {
+            if (depth == 0) return p;
+            if (*p != ',') depth--;
         }
-        free(family);
-        free(given);
-        return author;
+        p++;
     }
-
-    free(family);
-    free(given);
-    return NULL;
+    return p;
 }
 
 /**
- * Parse date from YAML structure
- * Handles: issued: {date-parts: [[1999]]} or year: 1999
- * Also handles multi-line format:
- *   issued:
- *     date-parts:
- *       - - 1999
+ * Parse CSL JSON file: an array of objects
  */
-static char *parse_yaml_date(const char *content, int base_indent) {
+apex_bibliography_registry *apex_parse_csl_json(const char *content) {
     if (!content) return NULL;
 
-    const char *p = content;
-    bool in_date_parts = false;
-    int list_depth = 0;
+    apex_bibliography_registry *registry = bibliography_registry_new();
+    if (!registry) return NULL;
 
-    /* Look for date-parts: */
-    while (*p) {
-        if (strncmp(p, "date-parts:", 11) == 0) {
-            in_date_parts = true;
-            p += 11;
-            while (*p && isspace(*p) && *p != '\n') p++;
-            if (*p == '\n') {
-                p++;
-                /* Multi-line format, continue on next line */
-            }
-        } else if (in_date_parts) {
-            if (*p == '[') {
-                list_depth++;
-                p++;
-            } else if (*p == ']') {
-                list_depth--;
-                p++;
-                if (list_depth == 0) break;
-            } else if (*p == '-' && isspace(p[1]) && list_depth >= 1) {
-                /* List item in date-parts */
-                p++;
-                while (*p && isspace(*p)) p++;
-                if (*p == '-') {
-                    /* Nested list item (year) */
-                    p++;
-                    while (*p && isspace(*p)) p++;
-                    const char *year_start = p;
-                    while (*p && isdigit(*p)) p++;
-                    size_t year_len = p - year_start;
-                    if (year_len > 0) {
-                        char *year = malloc(year_len + 1);
-                        if (year) {
-                            memcpy(year, year_start, year_len);
-                            year[year_len] = '\0';
-                            return year;
-                        }
-                    }
-                }
-            } else if (*p == '\n') {
+    const char *p = content;
+    while ((p = strchr(p, '{')) != NULL) {
+        apex_bibliography_entry *entry = bibliography_entry_new("");
+        if (!entry) break;
+        p++;
+        while (*p && *p != '}') {
+            const char *name, *value;
+            size_t name_len;
+            if (isspace((unsigned char)*p) || *p == ',') {
                 p++;
-                int next_indent = get_indent_level(p);
-                if (next_indent <= base_indent && list_depth == 0) {
-                    break;  /* End of date block */
-                }
+            } else if (*p == '"' && csl_key_length(p, &name, &name_len, &value) > 0) {
+                value += strspn(value, " \t\r\n");
+                p = csl_skip_json(value);
+                csl_set_field_text(entry, name, name_len, value, (size_t)(p - value), true);
             } else {
-                p++;
-            }
-        } else if (strncmp(p, "year:", 5) == 0) {
-            /* Simple year field */
-            p += 5;
-            while (*p && isspace(*p)) p++;
-            const char *year_start = p;
-            while (*p && isdigit(*p)) p++;
-            size_t year_len = p - year_start;
-            if (year_len > 0) {
-                char *year = malloc(year_len + 1);
-                if (year) {
-                    memcpy(year, year_start, year_len);
-                    year[year_len] = '\0';
-                    return year;
-                }
+                const char *before = p;
+                p = csl_skip_json(p);
+                if (p == before) p++;
             }
-            break;
-        } else {
-            p++;
         }
+        csl_finish_entry(registry, entry);
     }
 
-    return NULL;
+    return registry;
+}
+
+/** Get indentation level (number of leading spaces) */
+static size_t get_indent_level(const char *line) {
+    return strspn(line, " ");
+}
+
+/** Start of the line after the one at p, or its end */
+static const char *csl_next_line(const char *p) {
+    p += strcspn(p, "\n");
+    return *p ? p + 1 : p;
+}
+
+/** Check for a line that holds nothing but blanks or a comment */
+static bool csl_blank_line(const char *p) {
+    p += strspn(p, " \t\r");
+    return !*p || *p == '\n' || *p == '#';
 }
 
 /**
- * Parse CSL YAML file
+ * Parse CSL YAML file: a list of mappings
  */
 apex_bibliography_registry *apex_parse_csl_yaml(const char *content) {
     if (!content) return NULL;
 
-    apex_bibliography_registry *registry = malloc(sizeof(apex_bibliography_registry));
+    apex_bibliography_registry *registry = bibliography_registry_new();
     if (!registry) return NULL;
-    registry->entries = NULL;
-    registry->count = 0;
 
-    const char *p = content;
-    apex_bibliography_entry *current_entry = NULL;
-    bool in_entry = false;
+    apex_bibliography_entry *entry = NULL;
+    bool in_list = false, has_column = false;
+    size_t list_indent = 0, column = 0;
 
-    /* Parse line by line */
-    while (*p) {
-        const char *line_start = p;
-        const char *line_end = strchr(p, '\n');
-        if (!line_end) line_end = p + strlen(p);
-
-        size_t line_len = line_end - line_start;
-        char line[1024];
-        if (line_len >= sizeof(line)) line_len = sizeof(line) - 1;
-        memcpy(line, line_start, line_len);
-        line[line_len] = '\0';
-
-        char *trimmed = trim_string(line);
-        if (!trimmed || *trimmed == '\0' || *trimmed == '#') {
-            p = line_end + 1;
+    for (const char *line = content; *line; ) {
+        const char *next = csl_next_line(line);
+        size_t indent = get_indent_level(line);
+        const char *p = line + indent;
+        if (csl_blank_line(line) || strncmp(line, "---", 3) == 0 || strncmp(line, "...", 3) == 0) {
+            line = next;
             continue;
         }
 
-        int indent = get_indent_level(line);
-
-        /* Check for list item start (new entry) */
-        if (trimmed[0] == '-' && indent == 0) {
-            /* Start new entry */
-            if (current_entry && current_entry->id) {
-                /* Add previous entry to registry */
-                current_entry->next = registry->entries;
-                registry->entries = current_entry;
-                registry->count++;
+        /* A list item at the level of the list starts an entry */
+        if (*p == '-' && isspace((unsigned char)p[1]) && (!in_list || indent == list_indent)) {
+            csl_finish_entry(registry, entry);
+            entry = bibliography_entry_new("");
+            in_list = true;
+            list_indent = indent;
+            has_column = false;
+            p++;
+            p += strspn(p, " ");
+            indent = (size_t)(p - line);
+            if (csl_blank_line(p)) {
+                line = next;
+                continue;
             }
-            current_entry = NULL;
-            in_entry = true;
-            p = line_end + 1;
-            continue;
         }
 
-        if (!in_entry) {
-            p = line_end + 1;
+        const char *name, *value;
+        size_t name_len;
+        if (!entry || (has_column && indent != column) || csl_key_length(p, &name, &name_len, &value) == 0) {
+            line = next;
             continue;
         }
-
-        /* Parse key: value pairs */
-        char *colon = strchr(trimmed, ':');
-        if (colon) {
-            *colon = '\0';
-            char *key = trim_string(trimmed);
-            char *value_str = trim_string(colon + 1);
-
-            if (!current_entry && strcmp(key, "id") == 0) {
-                /* Create new entry with ID */
-                char *id_value = extract_yaml_value(value_str);
-                if (id_value) {
-                    current_entry = bibliography_entry_new(id_value);
-                    free(id_value);
-                }
-            } else if (current_entry) {
-                /* Set entry fields */
-                if (strcmp(key, "type") == 0) {
-                    char *type_value = extract_yaml_value(value_str);
-                    if (type_value) {
-                        current_entry->type = type_value;
-                    }
-                } else if (strcmp(key, "title") == 0) {
-                    char *title_value = extract_yaml_value(value_str);
-                    if (title_value) {
-                        current_entry->title = title_value;
-                    }
-                } else if (strcmp(key, "author") == 0) {
-                    /* Parse author structure - may be multi-line */
-                    const char *author_start = value_str;
-                    if (*author_start == '\0' && line_end[1]) {
-                        /* Multi-line author, look at next line */
-                        const char *next_line = line_end + 1;
-                        if (*next_line == '-' || (*next_line == ' ' && next_line[1] == ' ')) {
-                            author_start = next_line;
-                        }
-                    }
-                    char *author = parse_yaml_author(author_start, indent);
-                    if (author) {
-                        current_entry->author = author;
-                    }
-                } else if (strcmp(key, "issued") == 0 || strcmp(key, "year") == 0) {
-                    /* Parse date - may be multi-line */
-                    const char *date_start = value_str;
-                    if (*date_start == '\0' && line_end[1]) {
-                        const char *next_line = line_end + 1;
-                        if (*next_line == ' ' || *next_line == '-') {
-                            date_start = next_line;
-                        }
-                    }
-                    char *year = parse_yaml_date(date_start, indent);
-                    if (year) {
-                        current_entry->year = year;
-                    }
-                } else if (strcmp(key, "container-title") == 0) {
-                    char *container_value = extract_yaml_value(value_str);
-                    if (container_value) {
-                        current_entry->container_title = container_value;
-                    }
-                } else if (strcmp(key, "publisher") == 0) {
-                    char *publisher_value = extract_yaml_value(value_str);
-                    if (publisher_value) {
-                        current_entry->publisher = publisher_value;
-                    }
-                } else if (strcmp(key, "volume") == 0) {
-                    char *volume_value = extract_yaml_value(value_str);
-                    if (volume_value) {
-                        current_entry->volume = volume_value;
-                    }
-                } else if (strcmp(key, "page") == 0) {
-                    char *page_value = extract_yaml_value(value_str);
-                    if (page_value) {
-                        current_entry->page = page_value;
-                    }
-                }
-            }
+        has_column = true;
+        column = indent;
+
+        /* The value goes on with the lines that are indented deeper, or are items of a
+         * list at the level of the key */
+        while (*next && (csl_blank_line(next) || get_indent_level(next) > column ||
+               (get_indent_level(next) == column && column > list_indent && next[column] == '-' &&
+                isspace((unsigned char)next[column + 1])))) {
+            next = csl_next_line(next);
         }
-
-        p = line_end + 1;
-    }
-
-    /* Add last entry if exists */
-    if (current_entry && current_entry->id) {
-        current_entry->next = registry->entries;
-        registry->entries = current_entry;
-        registry->count++;
+        csl_set_field_text(entry, name, name_len, value, (size_t)(next - value), false);
+        line = next;
     }
+    csl_finish_entry(registry, entry);
 
     return registry;
 }
-- 
2.43.0


From c7d202479b113e284c1d64849e63f60234b31e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:06 +0000
Subject: [PATCH 44/66] fix: a document survives the round trip through Pandoc
 JSON for AST filters

The JSON written for filters had misplaced brackets (Emph, Strong, CodeBlock, OrderedList) and
lost list starts; reading dropped inlines, links, images, escapes and nested blocks, and took
truncated output for a document.
---
 src/ast_json.c | 382 ++++++++++++++++++++++++-------------------------
 1 file changed, 190 insertions(+), 192 deletions(-)

diff --git a/src/ast_json.c b/src/ast_json.c
index d7abf5f..5552846 100644
--- a/src/ast_json.c
+++ b/src/ast_json.c
@@ -136,15 +136,15 @@ static int write_inline(apex_json_buf *b, cmark_node *node) {
         break;
     }
     case CMARK_NODE_EMPH: {
-        if (!apex_json_buf_append(b, "{\"t\":\"Emph\",\"c\":[")) return 0;
+        if (!apex_json_buf_append(b, "{\"t\":\"Emph\",\"c\":")) return 0;
         if (!write_inlines(b, cmark_node_first_child(node))) return 0;
-        if (!apex_json_buf_append(b, "]}")) return 0;
+        if (!apex_json_buf_append(b, "}")) return 0;
         break;
     }
     case CMARK_NODE_STRONG: {
-        if (!apex_json_buf_append(b, "{\"t\":\"Strong\",\"c\":[")) return 0;
+        if (!apex_json_buf_append(b, "{\"t\":\"Strong\",\"c\":")) return 0;
         if (!write_inlines(b, cmark_node_first_child(node))) return 0;
-        if (!apex_json_buf_append(b, "]}")) return 0;
+        if (!apex_json_buf_append(b, "}")) return 0;
         break;
     }
     case CMARK_NODE_LINK: {
@@ -218,7 +218,11 @@ static int write_block(apex_json_buf *b, cmark_node *node) {
 
     switch (t) {
     case CMARK_NODE_PARAGRAPH: {
-        if (!apex_json_buf_append(b, "{\"t\":\"Para\",\"c\":")) return 0;
+        /* The paragraphs of a tight list are plain text blocks */
+        cmark_node *item = cmark_node_parent(node);
+        cmark_node *list = item ? cmark_node_parent(item) : NULL;
+        int tight = list && cmark_node_get_type(list) == CMARK_NODE_LIST && cmark_node_get_list_tight(list);
+        if (!apex_json_buf_append(b, tight ? "{\"t\":\"Plain\",\"c\":" : "{\"t\":\"Para\",\"c\":")) return 0;
         if (!write_inlines(b, cmark_node_first_child(node))) return 0;
         if (!apex_json_buf_append(b, "}")) return 0;
         break;
@@ -266,7 +270,7 @@ static int write_block(apex_json_buf *b, cmark_node *node) {
         if (lang && strcmp(lang, "inc") == 0) {
             if (!apex_json_buf_append(b, "]\x2c[[\"inc\",\"yes\"]]],")) return 0;
         } else {
-            if (!apex_json_buf_append(b, "],[]]],")) return 0;
+            if (!apex_json_buf_append(b, "],[]],")) return 0;
         }
         if (lit_len > 0) {
             char *lit_copy = (char *)malloc(lit_len + 1);
@@ -291,12 +295,14 @@ static int write_block(apex_json_buf *b, cmark_node *node) {
             if (!apex_json_buf_append(b, "{\"t\":\"OrderedList\",\"c\":[")) return 0;
             /* Simple default list attributes: [start, style, delim] */
             int start = cmark_node_get_list_start(node);
-            if (start <= 0) start = 1;
+            if (start < 0) start = 1;
             char buf[32];
             snprintf(buf, sizeof(buf), "%d", start);
             if (!apex_json_buf_append(b, "[")) return 0;
             if (!apex_json_buf_append(b, buf)) return 0;
-            if (!apex_json_buf_append(b, ",\"Decimal\",\"Period\"],[")) return 0;
+            if (!apex_json_buf_append(b, cmark_node_get_list_delim(node) == CMARK_PAREN_DELIM
+                                         ? ",{\"t\":\"Decimal\"},{\"t\":\"OneParen\"}],["
+                                         : ",{\"t\":\"Decimal\"},{\"t\":\"Period\"}],[")) return 0;
         } else {
             if (!apex_json_buf_append(b, "{\"t\":\"BulletList\",\"c\":[")) return 0;
         }
@@ -324,7 +330,7 @@ static int write_block(apex_json_buf *b, cmark_node *node) {
             item = cmark_node_next(item);
         }
 
-        if (!apex_json_buf_append(b, "]}")) return 0;
+        if (!apex_json_buf_append(b, is_ordered ? "]]}" : "]}")) return 0;
         break;
     }
     case CMARK_NODE_BLOCK_QUOTE: {
@@ -425,51 +431,69 @@ static int json_match_char(json_cursor *cur, char ch) {
     return 1;
 }
 
+/* Four hex digits at p, or -1 */
+static long json_hex4(const char *p) {
+    long v = 0;
+    for (int i = 0; i < 4; i++) {
+        if (!isxdigit((unsigned char)p[i])) return -1;
+        v = v * 16 + (isdigit((unsigned char)p[i]) ? p[i] - '0' : tolower((unsigned char)p[i]) - 'a' + 10);
+    }
+    return v;
+}
+
+/* Decode the \uXXXX escape (or surrogate pair) whose digits start at *p as UTF-8 into out
+ * and advance past it; returns the number of bytes, 0 if it is no valid escape */
+static size_t json_decode_unicode(const char **p, char out[4]) {
+    long c = json_hex4(*p);
+    if (c < 0) return 0;
+    *p += 4;
+    if (c >= 0xD800 && c < 0xDC00 && (*p)[0] == '\\' && (*p)[1] == 'u') {
+        long low = json_hex4(*p + 2);
+        if (low >= 0xDC00 && low < 0xE000) {
+            c = 0x10000 + ((c - 0xD800) << 10) + (low - 0xDC00);
+            *p += 6;
+        }
+    }
+    if (c == 0 || (c >= 0xD800 && c < 0xE000)) c = 0xFFFD;
+    size_t n = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
+    out[0] = (char)(n == 1 ? c : (0xF00 >> n & 0xFF) | (c >> (6 * (n - 1))));
+    for (size_t i = 1; i < n; i++) out[i] = (char)(0x80 | (c >> (6 * (n - 1 - i)) & 0x3F));
+    return n;
+}
+
 static char *json_parse_string(json_cursor *cur) {
     json_skip_ws(cur);
     if (*cur->s != '"') return NULL;
     cur->s++; /* skip quote */
-    const char *start = cur->s;
     size_t cap = 64;
     size_t len = 0;
     char *out = (char *)malloc(cap);
     if (!out) return NULL;
 
     while (*cur->s && *cur->s != '"') {
-        unsigned char c = (unsigned char)*cur->s;
-        if (c == '\\') {
-            cur->s++;
-            c = (unsigned char)*cur->s;
-            if (!c) { free(out); return NULL; }
-            switch (c) {
-            case '"':  c = '"';  break;
-            case '\\': c = '\\'; break;
-            case '/':  c = '/';  break;
-            case 'b':  c = '\b'; break;
-            case 'f':  c = '\f'; break;
-            case 'n':  c = '\n'; break;
-            case 'r':  c = '\r'; break;
-            case 't':  c = '\t'; break;
+        char bytes[4];
+        size_t count = 1;
+        bytes[0] = *cur->s++;
+        if (bytes[0] == '\\') {
+            if (!*cur->s) { free(out); return NULL; }
+            bytes[0] = *cur->s++;
+            switch (bytes[0]) {
+            case 'b':  bytes[0] = '\b'; break;
+            case 'f':  bytes[0] = '\f'; break;
+            case 'n':  bytes[0] = '\n'; break;
+            case 'r':  bytes[0] = '\r'; break;
+            case 't':  bytes[0] = '\t'; break;
             case 'u':
-                /* For simplicity, skip \uXXXX and store as '?' */
-                cur->s++;
-                for (int i = 0; i < 4 && *cur->s; i++) {
-                    cur->s++;
-                }
-                c = '?';
+                count = json_decode_unicode(&cur->s, bytes);
+                if (count == 0) { free(out); return NULL; }
                 break;
             default:
-                /* Unknown escape; keep as-is */
+                /* '"', '\\', '/' and unknown escapes: keep as-is */
                 break;
             }
-            /* Advance past the escaped character (for \u we already advanced in the case) */
-            if (c != '?')
-                cur->s++;
-        } else {
-            cur->s++;
         }
 
-        if (len + 1 >= cap) {
+        if (len + count >= cap) {
             cap *= 2;
             char *nb = (char *)realloc(out, cap);
             if (!nb) {
@@ -478,7 +502,8 @@ static char *json_parse_string(json_cursor *cur) {
             }
             out = nb;
         }
-        out[len++] = (char)c;
+        memcpy(out + len, bytes, count);
+        len += count;
     }
 
     if (*cur->s != '"') {
@@ -487,7 +512,6 @@ static char *json_parse_string(json_cursor *cur) {
     }
     cur->s++; /* closing quote */
     out[len] = '\0';
-    (void)start;
     return out;
 }
 
@@ -507,8 +531,8 @@ static long json_parse_int(json_cursor *cur) {
 }
 
 /* Forward declarations for recursive descent on the Pandoc subset */
-static cmark_node *parse_blocks_array(json_cursor *cur);
-static cmark_node *parse_block_object(json_cursor *cur);
+static cmark_node *parse_blocks_array(json_cursor *cur, int *has_plain);
+static cmark_node *parse_block_object(json_cursor *cur, int *plain);
 static int         json_skip_value(json_cursor *cur);
 
 /* Skip arbitrary JSON value (used for meta and fields we don't care about) */
@@ -542,6 +566,8 @@ static int json_skip_value(json_cursor *cur) {
                 continue;
             } else if (*cur->s == '}') {
                 continue;
+            } else if (!*cur->s) {
+                return 0;
             } else {
                 break;
             }
@@ -563,6 +589,8 @@ static int json_skip_value(json_cursor *cur) {
                 continue;
             } else if (*cur->s == ']') {
                 continue;
+            } else if (!*cur->s) {
+                return 0;
             } else {
                 break;
             }
@@ -577,23 +605,28 @@ static int json_skip_value(json_cursor *cur) {
     return 1;
 }
 
-/* Parse a Pandoc Inline array into a linked list of cmark nodes attached
- * under a temporary dummy parent; returns first child.
+/* Move all children of from to the end of parent and free from */
+static void take_children(cmark_node *parent, cmark_node *from) {
+    cmark_node *child;
+    while (from && (child = cmark_node_first_child(from)) != NULL) {
+        cmark_node_unlink(child);
+        if (!cmark_node_append_child(parent, child)) cmark_node_free(child);
+    }
+    if (from) cmark_node_free(from);
+}
+
+/* Parse a Pandoc Inline array; returns a temporary parent that holds the nodes
+ * (a paragraph, since a node that is unlinked loses its siblings), or NULL on error.
  */
 static cmark_node *parse_inlines_array(json_cursor *cur) {
     if (!json_match_char(cur, '[')) return NULL;
     cmark_node *dummy = cmark_node_new(CMARK_NODE_PARAGRAPH);
     if (!dummy) return NULL;
-    /* 'last' was previously used but is no longer needed; we intentionally
-     * omit it to avoid unused-variable warnings.
-     */
 
     json_skip_ws(cur);
     if (*cur->s == ']') {
         cur->s++;
-        cmark_node *first = cmark_node_first_child(dummy);
-        cmark_node_free(dummy);
-        return first;
+        return dummy;
     }
 
     int ok = 1;
@@ -635,6 +668,8 @@ static cmark_node *parse_inlines_array(json_cursor *cur) {
             json_skip_ws(cur);
             if (*cur->s == ',') cur->s++;
         }
+        /* Elements without content (Space, SoftBreak) have no "c" */
+        if (ok && tag && !c_buf) c_buf = (char *)calloc(1, 1);
         if (!ok || !tag || !c_buf) {
             free(tag);
             free(c_buf);
@@ -653,27 +688,38 @@ static cmark_node *parse_inlines_array(json_cursor *cur) {
             if (!node) { free(tag); free(c_buf); free(txt); ok = 0; break; }
             cmark_node_set_literal(node, txt);
             free(txt);
+        } else if (strcmp(tag, "Space") == 0) {
+            node = cmark_node_new(CMARK_NODE_TEXT);
+            if (node) cmark_node_set_literal(node, " ");
         } else if (strcmp(tag, "SoftBreak") == 0) {
             node = cmark_node_new(CMARK_NODE_SOFTBREAK);
         } else if (strcmp(tag, "LineBreak") == 0) {
             node = cmark_node_new(CMARK_NODE_LINEBREAK);
         } else if (strcmp(tag, "Emph") == 0 || strcmp(tag, "Strong") == 0) {
+            cmark_node *inlines = parse_inlines_array(&ccur);
+            if (!inlines) { free(tag); free(c_buf); ok = 0; break; }
+            node = cmark_node_new(strcmp(tag, "Emph") == 0 ? CMARK_NODE_EMPH : CMARK_NODE_STRONG);
+            if (!node) { cmark_node_free(inlines); free(tag); free(c_buf); ok = 0; break; }
+            take_children(node, inlines);
+        } else if (strcmp(tag, "Link") == 0 || strcmp(tag, "Image") == 0) {
+            /* c = [Attr, inlines, [url, title]] */
             if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); ok = 0; break; }
-            cmark_node *wrapper = cmark_node_new(strcmp(tag, "Emph") == 0
-                                                 ? CMARK_NODE_EMPH
-                                                 : CMARK_NODE_STRONG);
-            if (!wrapper) { free(tag); free(c_buf); ok = 0; break; }
-            json_skip_ws(&ccur);
-            if (*ccur.s != ']') {
-                cmark_node *child_first = parse_inlines_array(&ccur);
-                cmark_node *child = child_first;
-                while (child) {
-                    cmark_node *next = cmark_node_next(child);
-                    cmark_node_append_child(wrapper, child);
-                    child = next;
-                }
+            if (!json_skip_value(&ccur)) { free(tag); free(c_buf); ok = 0; break; }
+            if (!json_match_char(&ccur, ',')) { free(tag); free(c_buf); ok = 0; break; }
+            cmark_node *inlines = parse_inlines_array(&ccur);
+            if (!inlines) { free(tag); free(c_buf); ok = 0; break; }
+            char *url = NULL, *title = NULL;
+            if (json_match_char(&ccur, ',') && json_match_char(&ccur, '[')) {
+                url = json_parse_string(&ccur);
+                if (url && json_match_char(&ccur, ',')) title = json_parse_string(&ccur);
             }
-            node = wrapper;
+            node = title ? cmark_node_new(strcmp(tag, "Link") == 0 ? CMARK_NODE_LINK : CMARK_NODE_IMAGE) : NULL;
+            if (!node) { cmark_node_free(inlines); free(url); free(title); free(tag); free(c_buf); ok = 0; break; }
+            cmark_node_set_url(node, url);
+            cmark_node_set_title(node, title);
+            take_children(node, inlines);
+            free(url);
+            free(title);
         } else if (strcmp(tag, "Code") == 0) {
             if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); ok = 0; break; }
             if (!json_skip_value(&ccur)) { free(tag); free(c_buf); ok = 0; break; }
@@ -689,18 +735,9 @@ static cmark_node *parse_inlines_array(json_cursor *cur) {
             if (!json_skip_value(&ccur)) { free(tag); free(c_buf); ok = 0; break; }
             if (!json_match_char(&ccur, ',')) { free(tag); free(c_buf); ok = 0; break; }
 
-            cmark_node *child_first = parse_inlines_array(&ccur);
-
-            cmark_node *child = child_first;
-            while (child) {
-                cmark_node *next = cmark_node_next(child);
-                if (!cmark_node_append_child(dummy, child)) {
-                    cmark_node_free(child);
-                    ok = 0;
-                    break;
-                }
-                child = next;
-            }
+            cmark_node *inlines = parse_inlines_array(&ccur);
+            if (!inlines) { free(tag); free(c_buf); ok = 0; break; }
+            take_children(dummy, inlines);
             node = NULL;
         } else if (strcmp(tag, "Math") == 0) {
             if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); ok = 0; break; }
@@ -785,27 +822,15 @@ static cmark_node *parse_inlines_array(json_cursor *cur) {
     }
 
     /* Expect closing ']' */
-    if (!json_match_char(cur, ']')) {
+    if (!ok || !json_match_char(cur, ']')) {
         cmark_node_free(dummy);
         return NULL;
     }
-
-    cmark_node *first = cmark_node_first_child(dummy);
-    if (first) {
-        /* Detach children without freeing */
-        cmark_node *child = first;
-        while (child) {
-            cmark_node *next = cmark_node_next(child);
-            cmark_node_unlink(child);
-            child = next;
-        }
-    }
-    cmark_node_free(dummy);
-    return first;
+    return dummy;
 }
 
 /* Parse a single Block object {"t": "...", "c": ...} (any key order, e.g. dkjson "c" before "t") */
-static cmark_node *parse_block_object(json_cursor *cur) {
+static cmark_node *parse_block_object(json_cursor *cur, int *plain) {
     if (!json_match_char(cur, '{')) return NULL;
 
     char *tag = NULL;
@@ -813,7 +838,8 @@ static cmark_node *parse_block_object(json_cursor *cur) {
     while (1) {
         json_skip_ws(cur);
         if (*cur->s == '}') {
-            /* Only leave the loop when we have both "t" and "c" (handles dkjson "c" before "t") */
+            /* Elements without content (HorizontalRule) have no "c" */
+            if (tag && !c_buf) c_buf = (char *)calloc(1, 1);
             if (tag && c_buf) {
                 cur->s++;
                 break;
@@ -823,7 +849,7 @@ static cmark_node *parse_block_object(json_cursor *cur) {
             return NULL;
         }
         char *key = json_parse_string(cur);
-        if (!key) return NULL;
+        if (!key) { free(tag); free(c_buf); return NULL; }
         if (!json_match_char(cur, ':')) { free(key); free(tag); free(c_buf); return NULL; }
         if (strcmp(key, "t") == 0) {
             tag = json_parse_string(cur);
@@ -855,40 +881,30 @@ static cmark_node *parse_block_object(json_cursor *cur) {
     json_cursor ccur = { c_buf };
     cmark_node *node = NULL;
 
-    if (strcmp(tag, "Para") == 0) {
-        cmark_node *para = cmark_node_new(CMARK_NODE_PARAGRAPH);
-        if (!para) { free(tag); free(c_buf); return NULL; }
-        cmark_node *child_first = parse_inlines_array(&ccur);
-        cmark_node *child = child_first;
-        while (child) {
-            cmark_node *next = cmark_node_next(child);
-            cmark_node_append_child(para, child);
-            child = next;
-        }
-        node = para;
+    if (strcmp(tag, "Para") == 0 || strcmp(tag, "Plain") == 0) {
+        cmark_node *inlines = parse_inlines_array(&ccur);
+        if (!inlines) { free(tag); free(c_buf); return NULL; }
+        if (strcmp(tag, "Plain") == 0) *plain = 1;
+        node = inlines;  /* The temporary parent is a paragraph */
     } else if (strcmp(tag, "Header") == 0) {
         if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); return NULL; }
         long level = json_parse_int(&ccur);
         if (level <= 0) level = 1;
+        if (level > 6) level = 6;
         if (!json_match_char(&ccur, ',')) { free(tag); free(c_buf); return NULL; }
         if (!json_skip_value(&ccur)) { free(tag); free(c_buf); return NULL; }
         if (!json_match_char(&ccur, ',')) { free(tag); free(c_buf); return NULL; }
         cmark_node *heading = cmark_node_new(CMARK_NODE_HEADING);
         if (!heading) { free(tag); free(c_buf); return NULL; }
         cmark_node_set_heading_level(heading, (int)level);
-        cmark_node *child_first = parse_inlines_array(&ccur);
-        cmark_node *child = child_first;
-        while (child) {
-            cmark_node *next = cmark_node_next(child);
-            cmark_node_append_child(heading, child);
-            child = next;
-        }
+        cmark_node *inlines = parse_inlines_array(&ccur);
+        if (!inlines) { cmark_node_free(heading); free(tag); free(c_buf); return NULL; }
+        take_children(heading, inlines);
         json_skip_ws(&ccur);
         if (*ccur.s == ']')
             ccur.s++;
         node = heading;
     } else if (strcmp(tag, "HorizontalRule") == 0) {
-        if (!json_skip_value(&ccur)) { free(tag); free(c_buf); return NULL; }
         node = cmark_node_new(CMARK_NODE_THEMATIC_BREAK);
     } else if (strcmp(tag, "RawBlock") == 0) {
         json_skip_ws(&ccur);
@@ -914,6 +930,8 @@ static cmark_node *parse_block_object(json_cursor *cur) {
         json_skip_ws(&ccur);
         if (*ccur.s != ']') {
             lang = json_parse_string(&ccur);
+            /* Further classes have no place in the fence info */
+            while (json_match_char(&ccur, ',')) free(json_parse_string(&ccur));
         }
         if (!json_match_char(&ccur, ']')) { free(tag); free(c_buf); free(lang); return NULL; }
         if (!json_match_char(&ccur, ',')) { free(tag); free(c_buf); free(lang); return NULL; }
@@ -924,6 +942,13 @@ static cmark_node *parse_block_object(json_cursor *cur) {
         if (!txt) { free(tag); free(c_buf); free(lang); return NULL; }
         node = cmark_node_new(CMARK_NODE_CODE_BLOCK);
         if (!node) { free(tag); free(c_buf); free(lang); free(txt); return NULL; }
+        /* The text of a code block ends with a newline, which its JSON has not */
+        size_t txt_len = strlen(txt);
+        char *lit = txt_len > 0 ? (char *)realloc(txt, txt_len + 2) : NULL;
+        if (lit) {
+            memcpy(lit + txt_len, "\n", 2);
+            txt = lit;
+        }
         cmark_node_set_literal(node, txt);
         if (lang && *lang) {
             cmark_node_set_fence_info(node, lang);
@@ -932,82 +957,60 @@ static cmark_node *parse_block_object(json_cursor *cur) {
         free(lang);
     } else if (strcmp(tag, "BulletList") == 0 || strcmp(tag, "OrderedList") == 0) {
         int is_ordered = (strcmp(tag, "OrderedList") == 0);
-        if (is_ordered) {
-            if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); return NULL; }
-            long start = json_parse_int(&ccur);
-            if (start <= 0) start = 1;
-            if (!json_match_char(&ccur, ',')) { free(tag); free(c_buf); return NULL; }
-            if (!json_skip_value(&ccur)) { free(tag); free(c_buf); return NULL; }
-            if (!json_match_char(&ccur, ',')) { free(tag); free(c_buf); return NULL; }
-            if (!json_skip_value(&ccur)) { free(tag); free(c_buf); return NULL; }
-            if (!json_match_char(&ccur, ',')) { free(tag); free(c_buf); return NULL; }
-        } else {
-            if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); return NULL; }
-        }
-
         cmark_node *list = cmark_node_new(CMARK_NODE_LIST);
         if (!list) { free(tag); free(c_buf); return NULL; }
+        cmark_node_set_list_type(list, is_ordered ? CMARK_ORDERED_LIST : CMARK_BULLET_LIST);
+        int bad = 0;
         if (is_ordered) {
-            cmark_node_set_list_type(list, CMARK_ORDERED_LIST);
-        } else {
-            cmark_node_set_list_type(list, CMARK_BULLET_LIST);
+            /* c = [[start, style, delim], items] */
+            bad = !json_match_char(&ccur, '[') || !json_match_char(&ccur, '[');
+            long start = bad ? 1 : json_parse_int(&ccur);
+            cmark_node_set_list_start(list, start < 0 ? 1 : (int)start);
+            bad = bad || !json_match_char(&ccur, ',') || !json_skip_value(&ccur) || !json_match_char(&ccur, ',');
+            json_skip_ws(&ccur);
+            const char *delim = ccur.s;
+            bad = bad || !json_skip_value(&ccur);
+            const char *paren = strstr(delim, "OneParen");
+            cmark_node_set_list_delim(list, paren && paren < ccur.s ? CMARK_PAREN_DELIM : CMARK_PERIOD_DELIM);
+            bad = bad || !json_match_char(&ccur, ']') || !json_match_char(&ccur, ',');
         }
 
-        if (!json_match_char(&ccur, '[')) { cmark_node_free(list); free(tag); free(c_buf); return NULL; }
+        /* Items: an array of block arrays */
+        int tight = 0;
+        bad = bad || !json_match_char(&ccur, '[');
         json_skip_ws(&ccur);
-        while (*ccur.s != ']') {
-            if (!json_match_char(&ccur, '[')) { cmark_node_free(list); free(tag); free(c_buf); return NULL; }
-            cmark_node *item = cmark_node_new(CMARK_NODE_ITEM);
-            if (!item) { cmark_node_free(list); free(tag); free(c_buf); return NULL; }
-            cmark_node *blocks = parse_blocks_array(&ccur);
-            if (blocks) {
-                cmark_node *blk = cmark_node_first_child(blocks);
-                while (blk) {
-                    cmark_node *next = cmark_node_next(blk);
-                    cmark_node_append_child(item, blk);
-                    blk = next;
-                }
-                cmark_node_free(blocks);
+        while (!bad && *ccur.s != ']') {
+            int item_plain = 0;
+            cmark_node *blocks = parse_blocks_array(&ccur, &item_plain);
+            cmark_node *item = blocks ? cmark_node_new(CMARK_NODE_ITEM) : NULL;
+            if (!item) {
+                if (blocks) cmark_node_free(blocks);
+                bad = 1;
+                break;
             }
-            if (!json_match_char(&ccur, ']')) { cmark_node_free(item); cmark_node_free(list); free(tag); free(c_buf); return NULL; }
-
+            take_children(item, blocks);
             cmark_node_append_child(list, item);
-
+            if (item_plain) tight = 1;
+            json_skip_ws(&ccur);
+            if (*ccur.s == ',') ccur.s++;
+            else if (*ccur.s != ']') bad = 1;
             json_skip_ws(&ccur);
-            if (*ccur.s == ',') {
-                ccur.s++;
-                continue;
-            } else if (*ccur.s == ']') {
-                break;
-            } else {
-                break;
-            }
         }
-        if (!json_match_char(&ccur, ']')) { cmark_node_free(list); free(tag); free(c_buf); return NULL; }
-        if (!json_match_char(&ccur, ']')) { cmark_node_free(list); free(tag); free(c_buf); return NULL; }
+        if (bad) { cmark_node_free(list); free(tag); free(c_buf); return NULL; }
+        cmark_node_set_list_tight(list, tight);
         node = list;
     } else if (strcmp(tag, "BlockQuote") == 0) {
-        if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); return NULL; }
-        cmark_node *bq = cmark_node_new(CMARK_NODE_BLOCK_QUOTE);
-        if (!bq) { free(tag); free(c_buf); return NULL; }
-        cmark_node *blocks = parse_blocks_array(&ccur);
-        if (blocks) {
-            cmark_node *blk = cmark_node_first_child(blocks);
-            while (blk) {
-                cmark_node *next = cmark_node_next(blk);
-                cmark_node_append_child(bq, blk);
-                blk = next;
-            }
-            cmark_node_free(blocks);
-        }
-        if (!json_match_char(&ccur, ']')) { cmark_node_free(bq); free(tag); free(c_buf); return NULL; }
-        node = bq;
+        cmark_node *blocks = parse_blocks_array(&ccur, NULL);
+        if (!blocks) { free(tag); free(c_buf); return NULL; }
+        node = cmark_node_new(CMARK_NODE_BLOCK_QUOTE);
+        if (!node) { cmark_node_free(blocks); free(tag); free(c_buf); return NULL; }
+        take_children(node, blocks);
     } else if (strcmp(tag, "Div") == 0) {
-        /* c = [Attr, blocks] – skip Attr, parse inner blocks and return chain so caller appends all */
+        /* c = [Attr, blocks] – skip Attr, parse inner blocks and return their parent so caller appends all */
         if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); return NULL; }
         if (!json_skip_value(&ccur)) { free(tag); free(c_buf); return NULL; }
         if (!json_match_char(&ccur, ',')) { free(tag); free(c_buf); return NULL; }
-        node = parse_blocks_array(&ccur);
+        node = parse_blocks_array(&ccur, plain);
         if (!json_match_char(&ccur, ']')) {
             if (node) cmark_node_free(node);
             free(tag);
@@ -1023,7 +1026,10 @@ static cmark_node *parse_block_object(json_cursor *cur) {
     return node;
 }
 
-static cmark_node *parse_blocks_array(json_cursor *cur) {
+/* Parse a Block array; returns a temporary document that holds the nodes, or NULL on error.
+ * *has_plain is set if one of the blocks is Plain.
+ */
+static cmark_node *parse_blocks_array(json_cursor *cur, int *has_plain) {
     json_skip_ws(cur);
     if (!json_match_char(cur, '[')) return NULL;
     cmark_node *dummy = cmark_node_new(CMARK_NODE_DOCUMENT);
@@ -1032,20 +1038,18 @@ static cmark_node *parse_blocks_array(json_cursor *cur) {
     json_skip_ws(cur);
     if (*cur->s == ']') {
         cur->s++;
-        cmark_node_free(dummy);
-        return NULL;
+        return dummy;
     }
 
     int ok = 1;
     while (ok) {
         json_skip_ws(cur);
-        cmark_node *blk = parse_block_object(cur);
+        int plain = 0;
+        cmark_node *blk = parse_block_object(cur, &plain);
         if (!blk) { ok = 0; break; }
-        while (blk) {
-            cmark_node *next = cmark_node_next(blk);
-            cmark_node_append_child(dummy, blk);
-            blk = next;
-        }
+        if (plain && has_plain) *has_plain = 1;
+        if (cmark_node_get_type(blk) == CMARK_NODE_DOCUMENT) take_children(dummy, blk);
+        else cmark_node_append_child(dummy, blk);
 
         json_skip_ws(cur);
         if (*cur->s == ',') {
@@ -1058,7 +1062,7 @@ static cmark_node *parse_blocks_array(json_cursor *cur) {
         }
     }
 
-    if (!json_match_char(cur, ']')) {
+    if (!ok || !json_match_char(cur, ']')) {
         cmark_node_free(dummy);
         return NULL;
     }
@@ -1096,16 +1100,9 @@ cmark_node *apex_pandoc_json_to_cmark(const char *json,
         if (!json_match_char(&cur, ':')) { free(key); cmark_node_free(doc); return NULL; }
 
         if (strcmp(key, "blocks") == 0) {
-            cmark_node *blocks = parse_blocks_array(&cur);
-            if (blocks) {
-                cmark_node *blk = cmark_node_first_child(blocks);
-                while (blk) {
-                    cmark_node *next = cmark_node_next(blk);
-                    cmark_node_append_child(doc, blk);
-                    blk = next;
-                }
-                cmark_node_free(blocks);
-            }
+            cmark_node *blocks = parse_blocks_array(&cur, NULL);
+            if (!blocks) { free(key); cmark_node_free(doc); return NULL; }
+            take_children(doc, blocks);
         } else {
             /* Skip other fields (pandoc-api-version, meta, etc.) */
             if (!json_skip_value(&cur)) { free(key); cmark_node_free(doc); return NULL; }
@@ -1121,7 +1118,8 @@ cmark_node *apex_pandoc_json_to_cmark(const char *json,
             cur.s++;
             break;
         } else {
-            break;
+            cmark_node_free(doc);
+            return NULL;
         }
     }
 
-- 
2.43.0


From 68306657d0bb330decefdde3b1728fc74d71e0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:20 +0000
Subject: [PATCH 45/66] fix: a plugin command that fails, hangs or prints
 nothing leaves the document as it is

Commands of plugins and AST filters are run by one function that neither deadlocks on large
output nor dies of SIGPIPE, honours the exit status and timeout_ms, and runs plugin commands in
the plugin's directory as documented.
---
 src/filters_ast.c |  98 +-----------------
 src/plugins.c     |  12 ++-
 src/plugins.h     |   6 ++
 src/plugins_env.c | 248 +++++++++++++++++++++++++++++++---------------
 4 files changed, 185 insertions(+), 179 deletions(-)

diff --git a/src/filters_ast.c b/src/filters_ast.c
index 394b543..031fb59 100644
--- a/src/filters_ast.c
+++ b/src/filters_ast.c
@@ -1,13 +1,8 @@
 #include "filters_ast.h"
 #include "ast_json.h"
+#include "plugins.h"
 
 #include <stdlib.h>
-#include <string.h>
-#include <unistd.h>
-#include <sys/types.h>
-#include <sys/wait.h>
-#include <errno.h>
-#include <stdio.h>
 
 /* Helper: run a single external filter command as a JSON AST transformer.
  *
@@ -29,96 +24,7 @@ static char *run_single_ast_filter(const char *cmd,
         setenv("APEX_TARGET_FORMAT", target_format, 1);
     }
 
-    int in_pipe[2];
-    int out_pipe[2];
-    if (pipe(in_pipe) == -1 || pipe(out_pipe) == -1) {
-        return NULL;
-    }
-
-    pid_t pid = fork();
-    if (pid == -1) {
-        close(in_pipe[0]); close(in_pipe[1]);
-        close(out_pipe[0]); close(out_pipe[1]);
-        return NULL;
-    }
-
-    if (pid == 0) {
-        /* Child */
-        dup2(in_pipe[0], STDIN_FILENO);
-        dup2(out_pipe[1], STDOUT_FILENO);
-        close(in_pipe[0]); close(in_pipe[1]);
-        close(out_pipe[0]); close(out_pipe[1]);
-
-        execl("/bin/sh", "sh", "-c", cmd, (char *)NULL);
-        _exit(127);
-    }
-
-    /* Parent */
-    close(in_pipe[0]);
-    close(out_pipe[1]);
-
-    /* Write JSON to child stdin */
-    size_t json_len = strlen(json_input);
-    const char *p = json_input;
-    ssize_t remaining = (ssize_t)json_len;
-    while (remaining > 0) {
-        ssize_t written = write(in_pipe[1], p, (size_t)remaining);
-        if (written <= 0) break;
-        p += written;
-        remaining -= written;
-    }
-    close(in_pipe[1]);
-
-    /* Read child's stdout into a growable buffer */
-    size_t cap = 8192;
-    size_t size = 0;
-    char *buf = (char *)malloc(cap);
-    if (!buf) {
-        close(out_pipe[0]);
-        int status;
-        waitpid(pid, &status, 0);
-        return NULL;
-    }
-
-    for (;;) {
-        if (size + 4096 > cap) {
-            cap *= 2;
-            char *nb = (char *)realloc(buf, cap);
-            if (!nb) {
-                free(buf);
-                close(out_pipe[0]);
-                int status;
-                waitpid(pid, &status, 0);
-                return NULL;
-            }
-            buf = nb;
-        }
-        ssize_t n = read(out_pipe[0], buf + size, 4096);
-        if (n < 0) {
-            if (errno == EINTR) continue;
-            free(buf);
-            close(out_pipe[0]);
-            int status;
-            waitpid(pid, &status, 0);
-            return NULL;
-        }
-        if (n == 0) break;
-        size += (size_t)n;
-    }
-    close(out_pipe[0]);
-
-    int status;
-    if (waitpid(pid, &status, 0) == -1) {
-        free(buf);
-        return NULL;
-    }
-    if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) {
-        free(buf);
-        return NULL;
-    }
-
-    buf[size] = '\0';
-    return buf;
+    return apex_run_piped_command(cmd, NULL, json_input, 0);
 }
 
 cmark_node *apex_run_ast_filters(cmark_node *document,
diff --git a/src/plugins.c b/src/plugins.c
index 07908d2..7d004ef 100644
--- a/src/plugins.c
+++ b/src/plugins.c
@@ -16,6 +16,7 @@
 
 /* External command runner for plugins (from plugins_env.c) */
 char *apex_run_external_plugin_command(const char *cmd,
+                                       const char *dir,
                                        const char *phase,
                                        const char *plugin_id,
                                        const char *text,
@@ -244,6 +245,12 @@ static char *apex_get_support_base_dir(void) {
     return path;
 }
 
+/* Commands run in their plugin's directory, so it must not depend on the current one */
+static char *absolute_path(const char *path) {
+    char *real = realpath(path, NULL);
+    return real ? real : strdup(path);
+}
+
 static void load_plugins_from_dir(apex_plugin_manager *manager,
                                   const char *dirpath) {
     if (!manager || !dirpath) return;
@@ -371,7 +378,7 @@ static void load_plugins_from_dir(apex_plugin_manager *manager,
                 p->priority = priority_str ? atoi(priority_str) : 100;
                 p->timeout_ms = timeout_str ? atoi(timeout_str) : 0;
                 p->has_regex = 0;
-                p->dir_path = strdup(plugin_dir);
+                p->dir_path = absolute_path(plugin_dir);
 
                 /* Compute per-plugin support directory */
                 char *support_base = apex_get_support_base_dir();
@@ -494,7 +501,7 @@ static void load_plugins_from_dir(apex_plugin_manager *manager,
         p->priority = priority_str ? atoi(priority_str) : 100;
         p->timeout_ms = timeout_str ? atoi(timeout_str) : 0;
         p->has_regex = 0;
-        p->dir_path = strdup(S_ISDIR(st.st_mode) ? plugin_dir : dirpath);
+        p->dir_path = absolute_path(S_ISDIR(st.st_mode) ? plugin_dir : dirpath);
 
         /* Compute per-plugin support directory, if we have a base and id */
         if (support_base && final_id) {
@@ -823,6 +830,7 @@ char *apex_plugins_run_text_phase(apex_plugin_manager *manager,
             setenv("APEX_FILE_PATH", file_path, 1);
 
             next = apex_run_external_plugin_command(p->handler_command,
+                                                    p->dir_path,
                                                     phase_name,
                                                     plugin_id,
                                                     current,
diff --git a/src/plugins.h b/src/plugins.h
index 0f37ab6..d26771c 100644
--- a/src/plugins.h
+++ b/src/plugins.h
@@ -32,6 +32,12 @@ char *apex_plugins_run_text_phase(apex_plugin_manager *manager,
                                   const char *text,
                                   const apex_options *options);
 
+/* Run cmd via sh -c (in dir, unless NULL) with input on its standard input.
+ * Returns what it prints, or NULL if it fails, prints nothing or takes longer than
+ * timeout_ms (0 for no limit).
+ */
+char *apex_run_piped_command(const char *cmd, const char *dir, const char *input, int timeout_ms);
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/src/plugins_env.c b/src/plugins_env.c
index 8341695..e31101f 100644
--- a/src/plugins_env.c
+++ b/src/plugins_env.c
@@ -1,10 +1,15 @@
 #include "../include/apex/apex.h"
+#include "plugins.h"
 #include <stdlib.h>
 #include <string.h>
 #include <unistd.h>
 #include <sys/types.h>
 #include <sys/wait.h>
 #include <errno.h>
+#include <fcntl.h>
+#include <poll.h>
+#include <signal.h>
+#include <time.h>
 #include <stdio.h>
 
 /**
@@ -47,50 +52,122 @@ char *apex_json_escape(const char *text) {
     return out;
 }
 
-/**
- * Run a single external plugin command for a text-based phase.
- * Protocol:
- *  - Host sends JSON on stdin with fields: version, plugin_id, phase, text.
- *  - Plugin writes transformed text to stdout (no JSON response parsing).
+static long long apex_monotonic_ms(void) {
+    struct timespec ts;
+    clock_gettime(CLOCK_MONOTONIC, &ts);
+    return (long long)ts.tv_sec * 1000 + ts.tv_nsec / 1000000;
+}
+
+/* Exchange input and output with a running command: input is written while the command
+ * takes it, output is collected until the command closes it. Returns the output (its
+ * length in *out_len), or NULL on error or when the deadline (0 for none) passes.
  */
-char *apex_run_external_plugin_command(const char *cmd,
-                                       const char *phase,
-                                       const char *plugin_id,
-                                       const char *text,
-                                       int timeout_ms) {
-    (void)timeout_ms; /* Reserved for future timeout handling */
-    if (!cmd || !*cmd || !text || !phase || !plugin_id) return NULL;
+static char *apex_exchange(int in_fd, int out_fd, const char *input, size_t input_len,
+                           long long deadline, size_t *out_len) {
+    size_t cap = 8192;
+    size_t size = 0;
+    size_t sent = 0;
+    char *buf = malloc(cap);
+    bool failed = !buf;
 
-    /* Build JSON request */
-    char *escaped = apex_json_escape(text);
-    if (!escaped) return NULL;
+    while (!failed) {
+        if (in_fd != -1 && sent == input_len) {
+            close(in_fd);
+            in_fd = -1;
+        }
+        int wait_ms = -1;
+        if (deadline) {
+            long long left = deadline - apex_monotonic_ms();
+            if (left <= 0) {
+                failed = true;
+                break;
+            }
+            wait_ms = left > 60000 ? 60000 : (int)left;
+        }
+        struct pollfd fds[2] = { { out_fd, POLLIN, 0 }, { in_fd, POLLOUT, 0 } };
+        int ready = poll(fds, in_fd != -1 ? 2 : 1, wait_ms);
+        if (ready < 0) {
+            failed = errno != EINTR;
+            continue;
+        }
+        if (ready == 0) continue;
 
-    const char *prefix = "{ \"version\": 1, \"plugin_id\": \"";
-    const char *mid1   = "\", \"phase\": \"";
-    const char *mid2   = "\", \"text\": \"";
-    const char *suffix = "\" }\n";
-    size_t json_len = strlen(prefix) + strlen(plugin_id) +
-                      strlen(mid1) + strlen(phase) +
-                      strlen(mid2) + strlen(escaped) + strlen(suffix);
-    char *json = malloc(json_len + 1);
-    if (!json) {
-        free(escaped);
+        if (in_fd != -1 && fds[1].revents) {
+            ssize_t n = write(in_fd, input + sent, input_len - sent);
+            if (n > 0) {
+                sent += (size_t)n;
+            } else if (n < 0 && errno != EINTR && errno != EAGAIN) {
+                /* The command does not want (all of) its input */
+                sent = input_len;
+            }
+        }
+        if (fds[0].revents) {
+            if (size + 4096 + 1 > cap) {
+                cap *= 2;
+                char *nb = realloc(buf, cap);
+                if (!nb) {
+                    failed = true;
+                    break;
+                }
+                buf = nb;
+            }
+            ssize_t n = read(out_fd, buf + size, 4096);
+            if (n == 0) break;
+            if (n > 0) {
+                size += (size_t)n;
+            } else {
+                failed = errno != EINTR;
+            }
+        }
+    }
+
+    if (in_fd != -1) close(in_fd);
+    close(out_fd);
+    if (failed) {
+        free(buf);
         return NULL;
     }
-    snprintf(json, json_len + 1, "%s%s%s%s%s%s%s",
-             prefix, plugin_id, mid1, phase, mid2, escaped, suffix);
-    free(escaped);
+    buf[size] = '\0';
+    *out_len = size;
+    return buf;
+}
+
+/* Wait for a command to end, no longer than the deadline (0 for none), and tell whether
+ * it succeeded. A command that does not end in time, or whose output is not wanted any
+ * more, is killed.
+ */
+static bool apex_reap(pid_t pid, bool unwanted, long long deadline) {
+    int status = 0;
+    if (unwanted) kill(deadline ? -pid : pid, SIGKILL);
+    for (;;) {
+        pid_t r = waitpid(pid, &status, deadline && !unwanted ? WNOHANG : 0);
+        if (r == pid) break;
+        if (r == -1 && errno != EINTR) return false;
+        if (r == 0) {
+            if (apex_monotonic_ms() >= deadline) {
+                kill(-pid, SIGKILL);
+                unwanted = true;
+            } else {
+                poll(NULL, 0, 5);
+            }
+        }
+    }
+    return !unwanted && WIFEXITED(status) && WEXITSTATUS(status) == 0;
+}
+
+char *apex_run_piped_command(const char *cmd, const char *dir, const char *input, int timeout_ms) {
+    if (!cmd || !*cmd || !input) return NULL;
 
     int in_pipe[2];
     int out_pipe[2];
-    if (pipe(in_pipe) == -1 || pipe(out_pipe) == -1) {
-        free(json);
+    if (pipe(in_pipe) == -1) return NULL;
+    if (pipe(out_pipe) == -1) {
+        close(in_pipe[0]); close(in_pipe[1]);
         return NULL;
     }
 
     pid_t pid = fork();
     if (pid == -1) {
-        free(json);
         close(in_pipe[0]); close(in_pipe[1]);
         close(out_pipe[0]); close(out_pipe[1]);
         return NULL;
@@ -98,11 +175,13 @@ char *apex_run_external_plugin_command(const char *cmd,
 
     if (pid == 0) {
         /* Child: stdin from in_pipe[0], stdout to out_pipe[1] */
+        if (timeout_ms > 0) setpgid(0, 0);
         dup2(in_pipe[0], STDIN_FILENO);
         dup2(out_pipe[1], STDOUT_FILENO);
         close(in_pipe[0]); close(in_pipe[1]);
         close(out_pipe[0]); close(out_pipe[1]);
 
+        if (dir && *dir && chdir(dir) != 0) _exit(127);
         execl("/bin/sh", "sh", "-c", cmd, (char *)NULL);
         /* If exec fails */
         _exit(127);
@@ -111,64 +190,71 @@ char *apex_run_external_plugin_command(const char *cmd,
     /* Parent */
     close(in_pipe[0]);
     close(out_pipe[1]);
+    if (timeout_ms > 0) setpgid(pid, pid);
+    fcntl(in_pipe[1], F_SETFL, O_NONBLOCK);
 
-    /* Write JSON to child stdin */
-    ssize_t to_write = (ssize_t)json_len;
-    const char *p = json;
-    while (to_write > 0) {
-        ssize_t written = write(in_pipe[1], p, (size_t)to_write);
-        if (written <= 0) break;
-        p += written;
-        to_write -= written;
-    }
-    close(in_pipe[1]);
-    free(json);
+    /* A command may end without reading its input */
+    struct sigaction ignore, previous;
+    memset(&ignore, 0, sizeof(ignore));
+    ignore.sa_handler = SIG_IGN;
+    sigaction(SIGPIPE, &ignore, &previous);
 
-    /* Read all of child's stdout */
-    size_t cap = 8192;
+    long long deadline = timeout_ms > 0 ? apex_monotonic_ms() + timeout_ms : 0;
     size_t size = 0;
-    char *buf = malloc(cap);
-    if (!buf) {
-        close(out_pipe[0]);
-        /* Reap child */
-        int status;
-        waitpid(pid, &status, 0);
+    char *out = apex_exchange(in_pipe[1], out_pipe[0], input, strlen(input), deadline, &size);
+    sigaction(SIGPIPE, &previous, NULL);
+
+    if (!apex_reap(pid, out == NULL, deadline) || size == 0) {
+        free(out);
         return NULL;
     }
+    return out;
+}
 
-    for (;;) {
-        if (size + 4096 > cap) {
-            cap *= 2;
-            char *nb = realloc(buf, cap);
-            if (!nb) {
-                free(buf);
-                close(out_pipe[0]);
-                int status;
-                waitpid(pid, &status, 0);
-                return NULL;
-            }
-            buf = nb;
-        }
-        ssize_t n = read(out_pipe[0], buf + size, 4096);
-        if (n < 0) {
-            if (errno == EINTR) continue;
-            free(buf);
-            close(out_pipe[0]);
-            int status;
-            waitpid(pid, &status, 0);
-            return NULL;
-        }
-        if (n == 0) break;
-        size += (size_t)n;
+/**
+ * Run a single external plugin command for a text-based phase.
+ * Protocol:
+ *  - Host sends JSON on stdin with fields: version, plugin_id, phase, text.
+ *  - Plugin writes transformed text to stdout (no JSON response parsing).
+ */
+char *apex_run_external_plugin_command(const char *cmd,
+                                       const char *dir,
+                                       const char *phase,
+                                       const char *plugin_id,
+                                       const char *text,
+                                       int timeout_ms) {
+    if (!cmd || !*cmd || !text || !phase || !plugin_id) return NULL;
+
+    /* Build JSON request */
+    char *escaped = apex_json_escape(text);
+    char *escaped_id = apex_json_escape(plugin_id);
+    if (!escaped || !escaped_id) {
+        free(escaped);
+        free(escaped_id);
+        return NULL;
     }
-    close(out_pipe[0]);
 
-    /* Reap child; ignore status for now but ensure no zombies */
-    int status;
-    waitpid(pid, &status, 0);
+    const char *prefix = "{ \"version\": 1, \"plugin_id\": \"";
+    const char *mid1   = "\", \"phase\": \"";
+    const char *mid2   = "\", \"text\": \"";
+    const char *suffix = "\" }\n";
+    size_t json_len = strlen(prefix) + strlen(escaped_id) +
+                      strlen(mid1) + strlen(phase) +
+                      strlen(mid2) + strlen(escaped) + strlen(suffix);
+    char *json = malloc(json_len + 1);
+    if (!json) {
+        free(escaped);
+        free(escaped_id);
+        return NULL;
+    }
+    snprintf(json, json_len + 1, "%s%s%s%s%s%s%s",
+             prefix, escaped_id, mid1, phase, mid2, escaped, suffix);
+    free(escaped);
+    free(escaped_id);
 
-    buf[size] = '\0';
-    return buf;
+    char *out = apex_run_piped_command(cmd, dir, json, timeout_ms);
+    free(json);
+    return out;
 }
 
 /**
@@ -182,6 +268,6 @@ char *apex_run_preparse_plugin_env(const char *text, const apex_options *options
     if (!cmd || !*cmd || !text) {
         return NULL;
     }
-    return apex_run_external_plugin_command(cmd, "pre_parse", "env-pre-parse", text, 0);
+    return apex_run_external_plugin_command(cmd, NULL, "pre_parse", "env-pre-parse", text, 0);
 }
 
-- 
2.43.0


From e3bb7c2e1b43ea7d5565b2f14811db33a7c050b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:20 +0000
Subject: [PATCH 46/66] fix: declarative plugins replace each match once and
 support flag m

---
 src/plugins.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/plugins.c b/src/plugins.c
index 7d004ef..107a734 100644
--- a/src/plugins.c
+++ b/src/plugins.c
@@ -109,6 +109,7 @@ struct apex_plugin {
     char *replacement;
     regex_t regex;
     int has_regex;
+    int multiline;
     /* Owning directory for this plugin (used for APEX_PLUGIN_DIR) */
     char *dir_path;
     /* Per-plugin support directory (used for APEX_SUPPORT_DIR) */
@@ -396,6 +397,10 @@ static void load_plugins_from_dir(apex_plugin_manager *manager,
                     if (flags_str && strchr(flags_str, 'i')) {
                         cflags |= REG_ICASE;
                     }
+                    if (flags_str && strchr(flags_str, 'm')) {
+                        cflags |= REG_NEWLINE;
+                        p->multiline = 1;
+                    }
                     if (regcomp(&p->regex, pattern_str, cflags) != 0) {
                         free(p->id);
                         free(p->title);
@@ -517,6 +522,10 @@ static void load_plugins_from_dir(apex_plugin_manager *manager,
             if (flags_str && strchr(flags_str, 'i')) {
                 cflags |= REG_ICASE;
             }
+            if (flags_str && strchr(flags_str, 'm')) {
+                cflags |= REG_NEWLINE;
+                p->multiline = 1;
+            }
             if (regcomp(&p->regex, pattern_str, cflags) != 0) {
                 /* Invalid regex, skip this plugin */
                 free(p->id);
@@ -661,7 +670,9 @@ static char *apply_regex_replacement(struct apex_plugin *p, const char *input) {
     int rc;
     int any_match = 0;
 
-    while ((rc = regexec(&p->regex, cursor, 10, matches, 0)) == 0) {
+    /* Past the start of the text, ^ only matches after a newline, with flag m */
+    while ((rc = regexec(&p->regex, cursor, 10, matches,
+                         cursor > input && !(p->multiline && cursor[-1] == '\n') ? REG_NOTBOL : 0)) == 0) {
         if (matches[0].rm_so < 0) {
             break;
         }
@@ -716,8 +727,8 @@ static char *apply_regex_replacement(struct apex_plugin *p, const char *input) {
             }
         }
 
-        size_t adv = (size_t)matches[0].rm_eo;
-        if (adv == 0) {
+        cursor += matches[0].rm_eo;
+        if (matches[0].rm_eo == matches[0].rm_so) {
             /* Avoid infinite loop on zero-length matches */
             if (*cursor) {
                 if (out_len + 2 > cap) {
@@ -734,8 +745,6 @@ static char *apply_regex_replacement(struct apex_plugin *p, const char *input) {
             } else {
                 break;
             }
-        } else {
-            cursor += adv;
         }
     }
 
-- 
2.43.0


From 5af9ea765874fc5aef4e8bc92e23894e0ca687ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:23 +0000
Subject: [PATCH 47/66] fix: Markdown output keeps the document's structure and
 text

Nested lists and quotes lost their nesting, tables and image descriptions
vanished, code with backticks ended early, and text that looks like markup
(<, &lt;, ~, |, =) changed its meaning when the output was read again.
---
 src/ast_markdown.c | 687 +++++++++++++++++++++++++++++----------------
 1 file changed, 446 insertions(+), 241 deletions(-)

diff --git a/src/ast_markdown.c b/src/ast_markdown.c
index 9d9e6d3..646c56f 100644
--- a/src/ast_markdown.c
+++ b/src/ast_markdown.c
@@ -7,6 +7,9 @@
 #include "apex/ast_markdown.h"
 #include "apex/apex.h"
 #include "cmark-gfm.h"
+#include "cmark-gfm-core-extensions.h"
+#include <ctype.h>
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
@@ -16,17 +19,18 @@ typedef struct {
     char *buf;
     size_t len;
     size_t capacity;
+    apex_markdown_dialect_t dialect;
+    char *prefix;          /* Starts every line: "> " for quotes, spaces for list items */
+    size_t prefix_len;
+    size_t prefix_capacity;
+    size_t line_start;     /* Where the text of the current line starts */
+    char emphasis_mark;    /* What marks the emphasis around the current node */
+    bool in_table;
 } markdown_buffer;
 
-static void buffer_init(markdown_buffer *buf) {
-    buf->buf = NULL;
-    buf->len = 0;
-    buf->capacity = 0;
-}
-
 static void buffer_append(markdown_buffer *buf, const char *str, size_t len) {
     if (!str || len == 0) return;
-    
+
     if (buf->len + len + 1 > buf->capacity) {
         size_t new_cap = buf->capacity ? buf->capacity * 2 : 256;
         if (new_cap < buf->len + len + 1) {
@@ -37,7 +41,7 @@ static void buffer_append(markdown_buffer *buf, const char *str, size_t len) {
         buf->buf = new_buf;
         buf->capacity = new_cap;
     }
-    
+
     memcpy(buf->buf + buf->len, str, len);
     buf->len += len;
     buf->buf[buf->len] = '\0';
@@ -49,15 +53,76 @@ static void buffer_append_str(markdown_buffer *buf, const char *str) {
     }
 }
 
+static void buffer_repeat(markdown_buffer *buf, char c, size_t count) {
+    while (count-- > 0) buffer_append(buf, &c, 1);
+}
+
+/* End the current line and start the next one with the prefix */
+static void new_line(markdown_buffer *buf) {
+    buffer_append(buf, "\n", 1);
+    buffer_append(buf, buf->prefix, buf->prefix_len);
+    buf->line_start = buf->len;
+}
+
+/* End the current line and add a blank one, without trailing spaces */
+static void blank_line(markdown_buffer *buf) {
+    size_t len = buf->prefix_len;
+    while (len > 0 && buf->prefix[len - 1] == ' ') len--;
+    buffer_append(buf, "\n", 1);
+    buffer_append(buf, buf->prefix, len);
+    new_line(buf);
+}
+
+/* Text whose lines go out as they are */
+static void append_lines(markdown_buffer *buf, const char *text, size_t len) {
+    const char *end = text + len;
+    while (text < end) {
+        const char *nl = memchr(text, '\n', (size_t)(end - text));
+        buffer_append(buf, text, (size_t)((nl ? nl : end) - text));
+        if (!nl) break;
+        new_line(buf);
+        text = nl + 1;
+    }
+}
+
+static void push_prefix(markdown_buffer *buf, const char *text, size_t len) {
+    if (buf->prefix_len + len > buf->prefix_capacity) {
+        size_t new_cap = (buf->prefix_len + len) * 2;
+        char *new_prefix = realloc(buf->prefix, new_cap);
+        if (!new_prefix) return;
+        buf->prefix = new_prefix;
+        buf->prefix_capacity = new_cap;
+    }
+    if (text) {
+        memcpy(buf->prefix + buf->prefix_len, text, len);
+    } else {
+        memset(buf->prefix + buf->prefix_len, ' ', len);
+    }
+    buf->prefix_len += len;
+}
+
+static bool is_word_char(char c) {
+    return isalnum((unsigned char)c) || (unsigned char)c >= 0x80;
+}
+
+/* Whether the text at p (a '&') could be read as a character reference */
+static bool is_reference(const char *p, const char *end) {
+    const char *q = p + 1;
+    if (q < end && *q == '#') q++;
+    while (q < end && isalnum((unsigned char)*q)) q++;
+    return q > p + 1 && q < end && *q == ';';
+}
 
 /* Escape special characters in markdown */
-static void escape_markdown(markdown_buffer *buf, const char *text, size_t len, apex_markdown_dialect_t dialect) {
+static void escape_markdown(markdown_buffer *buf, const char *text, size_t len) {
     if (!text) return;
-    
+    bool mmd = buf->dialect == APEX_MD_DIALECT_MMD;
+
     for (size_t i = 0; i < len; i++) {
         char c = text[i];
+        bool at_line_start = buf->len == buf->line_start;
         bool should_escape = false;
-        
+
         switch (c) {
             case '\\':
             case '`':
@@ -71,25 +136,33 @@ static void escape_markdown(markdown_buffer *buf, const char *text, size_t len,
             case '+':
             case '.':
             case '!':
+            case '<':
+            case '^':
+            case '~':
+            case '|':
                 should_escape = true;
                 break;
             case '{':
             case '}':
                 /* Don't escape braces for MMD (used in {{TOC}} syntax) */
-                if (dialect != APEX_MD_DIALECT_MMD) {
-                    should_escape = true;
-                }
+                should_escape = !mmd;
                 break;
             case '-':
                 /* Don't escape dashes for MMD (used in TOC parameters like {{TOC:2-4}}) */
-                if (dialect != APEX_MD_DIALECT_MMD) {
-                    should_escape = true;
-                }
+                should_escape = !mmd || at_line_start;
+                break;
+            case '>':
+            case '=':
+            case ':':
+                should_escape = at_line_start;
+                break;
+            case '&':
+                should_escape = is_reference(text + i, text + len);
                 break;
             default:
                 break;
         }
-        
+
         if (should_escape) {
             buffer_append(buf, "\\", 1);
         }
@@ -97,289 +170,418 @@ static void escape_markdown(markdown_buffer *buf, const char *text, size_t len,
     }
 }
 
+static void serialize_inline(markdown_buffer *buf, cmark_node *node);
+
+static void serialize_inlines(markdown_buffer *buf, cmark_node *parent) {
+    for (cmark_node *child = cmark_node_first_child(parent); child; child = cmark_node_next(child)) {
+        serialize_inline(buf, child);
+    }
+}
+
+/* The first character that follows node in its block, 0 if it is the last one */
+static char following_char(cmark_node *node) {
+    cmark_node *next = cmark_node_next(node);
+    if (next && cmark_node_get_type(next) == CMARK_NODE_TEXT) {
+        const char *literal = cmark_node_get_literal(next);
+        if (literal) return *literal;
+    }
+    return 0;
+}
+
+static bool is_emphasis(cmark_node *node) {
+    cmark_node_type type = node ? cmark_node_get_type(node) : CMARK_NODE_NONE;
+    return type == CMARK_NODE_EMPH || type == CMARK_NODE_STRONG;
+}
+
+/* Emphasis is marked with *; with _ where * would run together with other emphasis */
+static void serialize_emphasis(markdown_buffer *buf, cmark_node *node, size_t count) {
+    char outer = buf->emphasis_mark;
+    char before = buf->len > buf->line_start ? buf->buf[buf->len - 1] : 0;
+    bool touches = before == '*' || outer == '*' || is_emphasis(cmark_node_next(node));
+    bool in_word = is_word_char(before) || is_word_char(following_char(node));
+    char mark = touches && before != '_' && outer != '_' && !in_word ? '_' : '*';
+    buffer_repeat(buf, mark, count);
+    buf->emphasis_mark = mark;
+    serialize_inlines(buf, node);
+    buf->emphasis_mark = outer;
+    buffer_repeat(buf, mark, count);
+}
+
+/* The length of the longest run of c in text */
+static size_t longest_run(const char *text, char c) {
+    size_t longest = 0;
+    size_t run = 0;
+    for (; *text; text++) {
+        run = *text == c ? run + 1 : 0;
+        if (run > longest) longest = run;
+    }
+    return longest;
+}
+
+static void serialize_code(markdown_buffer *buf, const char *literal) {
+    size_t len = strlen(literal);
+    size_t fence = 1;
+    /* Any run of backticks but those in the text will do */
+    while (true) {
+        bool used = false;
+        for (const char *p = strchr(literal, '`'); p && !used; p = strchr(p, '`')) {
+            size_t run = strspn(p, "`");
+            used = run == fence;
+            p += run;
+        }
+        if (!used) break;
+        fence++;
+    }
+    bool pad = len > 0 && (literal[0] == '`' || literal[len - 1] == '`' ||
+                           (literal[0] == ' ' && literal[len - 1] == ' ' && strspn(literal, " ") < len));
+    buffer_repeat(buf, '`', fence);
+    if (pad) buffer_append(buf, " ", 1);
+    for (size_t i = 0; i < len; i++) {
+        if (literal[i] == '|' && buf->in_table) buffer_append(buf, "\\", 1);
+        buffer_append(buf, literal + i, 1);
+    }
+    if (pad) buffer_append(buf, " ", 1);
+    buffer_repeat(buf, '`', fence);
+}
+
+/* The destination and title of a link or image, with the closing bracket of its text */
+static void serialize_destination(markdown_buffer *buf, cmark_node *node) {
+    const char *url = cmark_node_get_url(node);
+    const char *title = cmark_node_get_title(node);
+    bool has_title = title && *title;
+    if (!url) url = "";
+    buffer_append_str(buf, "](");
+
+    bool angle = (!*url && has_title) || *url == '<';
+    int depth = 0;
+    for (const char *p = url; *p && !angle; p++) {
+        if ((unsigned char)*p <= ' ' || *p == 0x7f) angle = true;
+        if (*p == '(') depth++;
+        if (*p == ')' && --depth < 0) angle = true;
+    }
+    if (depth != 0) angle = true;
+    if (angle) buffer_append(buf, "<", 1);
+    for (const char *p = url; *p; p++) {
+        if (*p == '\\' || (angle && (*p == '<' || *p == '>')) ||
+            (*p == '&' && is_reference(p, url + strlen(url))) || (*p == '|' && buf->in_table)) {
+            buffer_append(buf, "\\", 1);
+        }
+        buffer_append(buf, p, 1);
+    }
+    if (angle) buffer_append(buf, ">", 1);
+
+    if (has_title) {
+        buffer_append_str(buf, " \"");
+        for (const char *p = title; *p; p++) {
+            if (*p == '\n') {
+                new_line(buf);
+                continue;
+            }
+            if (*p == '\\' || *p == '"' || (*p == '&' && is_reference(p, title + strlen(title))) ||
+                (*p == '|' && buf->in_table)) {
+                buffer_append(buf, "\\", 1);
+            }
+            buffer_append(buf, p, 1);
+        }
+        buffer_append(buf, "\"", 1);
+    }
+    buffer_append(buf, ")", 1);
+}
+
 /* Serialize inline nodes */
-static void serialize_inline(markdown_buffer *buf, cmark_node *node, apex_markdown_dialect_t dialect) {
+static void serialize_inline(markdown_buffer *buf, cmark_node *node) {
     if (!node) return;
-    
+
     cmark_node_type type = cmark_node_get_type(node);
     const char *literal = cmark_node_get_literal(node);
-    
+
     switch (type) {
         case CMARK_NODE_TEXT:
             if (literal) {
                 /* For MMD, check if this text contains a TOC marker and convert it */
-                if (dialect == APEX_MD_DIALECT_MMD) {
+                if (buf->dialect == APEX_MD_DIALECT_MMD) {
                     const char *toc_start = strstr(literal, "{{TOC");
-                    if (toc_start) {
-                        /* Found TOC marker - output text before it */
-                        if (toc_start > literal) {
-                            escape_markdown(buf, literal, (size_t)(toc_start - literal), dialect);
-                        }
-                        /* Find the end of the TOC marker */
-                        const char *toc_end = strstr(toc_start, "}}");
-                        if (toc_end) {
-                            /* Found complete TOC marker - output just {{TOC}} for MMD (no parameters) */
-                            buffer_append_str(buf, "{{TOC}}");
-                            /* Output any remaining text after the marker */
-                            const char *remaining = toc_end + 2;
-                            if (*remaining) {
-                                escape_markdown(buf, remaining, strlen(remaining), dialect);
-                            }
-                            break;
-                        }
+                    const char *toc_end = toc_start ? strstr(toc_start, "}}") : NULL;
+                    if (toc_end) {
+                        /* Found complete TOC marker - output just {{TOC}} for MMD (no parameters) */
+                        escape_markdown(buf, literal, (size_t)(toc_start - literal));
+                        buffer_append_str(buf, "{{TOC}}");
+                        escape_markdown(buf, toc_end + 2, strlen(toc_end + 2));
+                        break;
                     }
                 }
                 /* Normal text - escape as needed */
-                escape_markdown(buf, literal, strlen(literal), dialect);
+                escape_markdown(buf, literal, strlen(literal));
             }
             break;
-            
+
         case CMARK_NODE_SOFTBREAK:
-            buffer_append_str(buf, "\n");
+            new_line(buf);
             break;
-            
+
         case CMARK_NODE_LINEBREAK:
-            buffer_append_str(buf, "  \n");
+            buffer_append_str(buf, "  ");
+            new_line(buf);
             break;
-            
+
         case CMARK_NODE_CODE:
-            if (literal) {
-                buffer_append_str(buf, "`");
-                buffer_append_str(buf, literal);
-                buffer_append_str(buf, "`");
-            }
+            if (literal) serialize_code(buf, literal);
             break;
-            
+
+        case CMARK_NODE_HTML_INLINE:
+            if (literal) append_lines(buf, literal, strlen(literal));
+            break;
+
         case CMARK_NODE_EMPH:
-            buffer_append_str(buf, "*");
-            for (cmark_node *child = cmark_node_first_child(node); child; child = cmark_node_next(child)) {
-                serialize_inline(buf, child, dialect);
-            }
-            buffer_append_str(buf, "*");
+            serialize_emphasis(buf, node, 1);
             break;
-            
+
         case CMARK_NODE_STRONG:
-            buffer_append_str(buf, "**");
-            for (cmark_node *child = cmark_node_first_child(node); child; child = cmark_node_next(child)) {
-                serialize_inline(buf, child, dialect);
-            }
-            buffer_append_str(buf, "**");
+            serialize_emphasis(buf, node, 2);
             break;
-            
+
         case CMARK_NODE_LINK:
             buffer_append_str(buf, "[");
-            for (cmark_node *child = cmark_node_first_child(node); child; child = cmark_node_next(child)) {
-                if (cmark_node_get_type(child) != CMARK_NODE_LINK) {
-                    serialize_inline(buf, child, dialect);
-                }
-            }
-            buffer_append_str(buf, "](");
-            const char *url = cmark_node_get_url(node);
-            if (url) buffer_append_str(buf, url);
-            const char *title = cmark_node_get_title(node);
-            if (title) {
-                buffer_append_str(buf, " \"");
-                buffer_append_str(buf, title);
-                buffer_append_str(buf, "\"");
-            }
-            buffer_append_str(buf, ")");
+            serialize_inlines(buf, node);
+            serialize_destination(buf, node);
             break;
-            
+
         case CMARK_NODE_IMAGE:
             buffer_append_str(buf, "![");
-            const char *alt = cmark_node_get_literal(node);
-            if (alt) buffer_append_str(buf, alt);
-            buffer_append_str(buf, "](");
-            url = cmark_node_get_url(node);
-            if (url) buffer_append_str(buf, url);
-            title = cmark_node_get_title(node);
-            if (title) {
-                buffer_append_str(buf, " \"");
-                buffer_append_str(buf, title);
-                buffer_append_str(buf, "\"");
-            }
-            buffer_append_str(buf, ")");
+            serialize_inlines(buf, node);
+            serialize_destination(buf, node);
             break;
-            
-        default:
-            /* For other inline types, serialize children */
-            for (cmark_node *child = cmark_node_first_child(node); child; child = cmark_node_next(child)) {
-                serialize_inline(buf, child, dialect);
-            }
+
+        default: {
+            const char *name = cmark_node_get_type_string(node);
+            bool strike = name && strcmp(name, "strikethrough") == 0;
+            if (strike) buffer_append_str(buf, "~~");
+            serialize_inlines(buf, node);
+            if (strike) buffer_append_str(buf, "~~");
             break;
+        }
+    }
+}
+
+static void serialize_block(markdown_buffer *buf, cmark_node *node, bool tight);
+
+/* The blocks in a container, separated by blank lines unless tight */
+static void serialize_blocks(markdown_buffer *buf, cmark_node *parent, bool tight) {
+    for (cmark_node *child = cmark_node_first_child(parent); child; child = cmark_node_next(child)) {
+        if (cmark_node_previous(child)) {
+            if (tight) {
+                new_line(buf);
+            } else {
+                blank_line(buf);
+            }
+        }
+        serialize_block(buf, child, tight);
+    }
+}
+
+static void serialize_heading(markdown_buffer *buf, cmark_node *node) {
+    int level = cmark_node_get_heading_level(node);
+    bool breaks = false;
+    for (cmark_node *child = cmark_node_first_child(node); child; child = cmark_node_next(child)) {
+        cmark_node_type type = cmark_node_get_type(child);
+        if (type == CMARK_NODE_SOFTBREAK || type == CMARK_NODE_LINEBREAK) breaks = true;
+    }
+    if (breaks && level <= 2) {
+        /* Only an underlined heading can have several lines */
+        serialize_inlines(buf, node);
+        new_line(buf);
+        buffer_append_str(buf, level == 1 ? "===" : "---");
+        return;
+    }
+    buffer_repeat(buf, '#', (size_t)level);
+    if (cmark_node_first_child(node)) {
+        buffer_append(buf, " ", 1);
+        buf->line_start = buf->len;
+        serialize_inlines(buf, node);
+    }
+}
+
+static void serialize_code_block(markdown_buffer *buf, cmark_node *node) {
+    const char *info = cmark_node_get_fence_info(node);
+    const char *literal = cmark_node_get_literal(node);
+    if (!info) info = "";
+    if (!literal) literal = "";
+    char mark = strchr(info, '`') ? '~' : '`';
+    size_t fence = longest_run(literal, mark) + 1;
+    if (fence < 3) fence = 3;
+
+    buffer_repeat(buf, mark, fence);
+    if (*info == mark) buffer_append(buf, " ", 1);
+    for (const char *p = info; *p; p++) {
+        if (*p == '\\' || (*p == '&' && is_reference(p, info + strlen(info)))) buffer_append(buf, "\\", 1);
+        buffer_append(buf, p, 1);
+    }
+    size_t len = strlen(literal);
+    if (len > 0 && literal[len - 1] == '\n') len--;
+    if (*literal) {
+        new_line(buf);
+        append_lines(buf, literal, len);
+    }
+    new_line(buf);
+    buffer_repeat(buf, mark, fence);
+}
+
+static void serialize_list(markdown_buffer *buf, cmark_node *node) {
+    bool ordered = cmark_node_get_list_type(node) == CMARK_ORDERED_LIST;
+    bool tight = cmark_node_get_list_tight(node);
+    long number = cmark_node_get_list_start(node);
+    const char *delim = cmark_node_get_list_delim(node) == CMARK_PAREN_DELIM ? ")" : ".";
+
+    /* Lists that follow each other are told apart by their markers */
+    bool other = false;
+    for (cmark_node *prev = cmark_node_previous(node);
+         prev && cmark_node_get_type(prev) == CMARK_NODE_LIST &&
+         cmark_node_get_list_type(prev) == CMARK_BULLET_LIST;
+         prev = cmark_node_previous(prev)) {
+        other = !other;
+    }
+
+    for (cmark_node *item = cmark_node_first_child(node); item; item = cmark_node_next(item), number++) {
+        if (cmark_node_previous(item)) {
+            if (tight) {
+                new_line(buf);
+            } else {
+                blank_line(buf);
+            }
+        }
+        char marker[32];
+        if (ordered) {
+            snprintf(marker, sizeof(marker), "%ld%s", number, delim);
+        } else {
+            snprintf(marker, sizeof(marker), "%s", other ? "*" : "-");
+        }
+        buffer_append_str(buf, marker);
+        if (!cmark_node_first_child(item)) continue;
+
+        buffer_append(buf, " ", 1);
+        buf->line_start = buf->len;
+        size_t prefix_len = buf->prefix_len;
+        push_prefix(buf, NULL, strlen(marker) + 1);
+        serialize_blocks(buf, item, tight);
+        buf->prefix_len = prefix_len;
+    }
+}
+
+static bool is_type(cmark_node *node, const char *name) {
+    const char *type = node ? cmark_node_get_type_string(node) : NULL;
+    return type && strcmp(type, name) == 0;
+}
+
+static void serialize_table(markdown_buffer *buf, cmark_node *node) {
+    uint16_t columns = cmark_gfm_extensions_get_table_columns(node);
+    uint8_t *alignments = cmark_gfm_extensions_get_table_alignments(node);
+
+    buf->in_table = true;
+    for (cmark_node *row = cmark_node_first_child(node); row; row = cmark_node_next(row)) {
+        if (cmark_node_previous(row)) new_line(buf);
+        buffer_append(buf, "|", 1);
+        for (cmark_node *cell = cmark_node_first_child(row); cell; cell = cmark_node_next(cell)) {
+            buffer_append(buf, " ", 1);
+            serialize_inlines(buf, cell);
+            buffer_append_str(buf, " |");
+        }
+        if (cmark_node_previous(row)) continue;
+
+        /* The line below the header */
+        new_line(buf);
+        buffer_append(buf, "|", 1);
+        for (uint16_t i = 0; i < columns; i++) {
+            char align = alignments ? (char)alignments[i] : 0;
+            buffer_append_str(buf, align == 'l' || align == 'c' ? " :--" : " ---");
+            buffer_append_str(buf, align == 'r' || align == 'c' ? ": |" : " |");
+        }
     }
+    buf->in_table = false;
 }
 
 /* Serialize block nodes */
-static void serialize_block(markdown_buffer *buf, cmark_node *node, apex_markdown_dialect_t dialect, int indent_level) {
+static void serialize_block(markdown_buffer *buf, cmark_node *node, bool tight) {
     if (!node) return;
-    
+
     cmark_node_type type = cmark_node_get_type(node);
-    
+
     switch (type) {
         case CMARK_NODE_DOCUMENT:
-            for (cmark_node *child = cmark_node_first_child(node); child; child = cmark_node_next(child)) {
-                serialize_block(buf, child, dialect, indent_level);
-                if (cmark_node_get_type(child) != CMARK_NODE_LIST &&
-                    cmark_node_get_type(child) != CMARK_NODE_ITEM) {
-                    buffer_append_str(buf, "\n");
-                }
-            }
+            serialize_blocks(buf, node, false);
             break;
-            
+
         case CMARK_NODE_PARAGRAPH: {
             /* Check if paragraph contains only a TOC marker (for MMD dialect) */
-            bool is_toc_paragraph = false;
-            if (dialect == APEX_MD_DIALECT_MMD) {
-                /* Check if this paragraph contains only text that looks like {{TOC...}} */
-                cmark_node *first_child = cmark_node_first_child(node);
-                if (first_child && cmark_node_get_type(first_child) == CMARK_NODE_TEXT && 
-                    !cmark_node_next(first_child)) {
-                    const char *text = cmark_node_get_literal(first_child);
-                    if (text && strstr(text, "{{TOC") == text) {
-                        /* This is a TOC marker paragraph - convert to {{TOC}} for MMD */
-                        is_toc_paragraph = true;
-                        buffer_append_str(buf, "{{TOC}}\n\n");
-                    }
-                }
-            }
-            if (!is_toc_paragraph) {
-                for (cmark_node *child = cmark_node_first_child(node); child; child = cmark_node_next(child)) {
-                    serialize_inline(buf, child, dialect);
+            cmark_node *first_child = cmark_node_first_child(node);
+            if (buf->dialect == APEX_MD_DIALECT_MMD && first_child &&
+                cmark_node_get_type(first_child) == CMARK_NODE_TEXT && !cmark_node_next(first_child)) {
+                const char *text = cmark_node_get_literal(first_child);
+                const char *end = text && strncmp(text, "{{TOC", 5) == 0 ? strstr(text, "}}") : NULL;
+                if (end && !end[2]) {
+                    /* This is a TOC marker paragraph - convert to {{TOC}} for MMD */
+                    buffer_append_str(buf, "{{TOC}}");
+                    break;
                 }
-                buffer_append_str(buf, "\n\n");
             }
+            serialize_inlines(buf, node);
             break;
         }
-            
-        case CMARK_NODE_HEADING: {
-            int level = cmark_node_get_heading_level(node);
-            for (int i = 0; i < level; i++) {
-                buffer_append_str(buf, "#");
-            }
-            buffer_append_str(buf, " ");
-            for (cmark_node *child = cmark_node_first_child(node); child; child = cmark_node_next(child)) {
-                serialize_inline(buf, child, dialect);
-            }
-            buffer_append_str(buf, "\n\n");
+
+        case CMARK_NODE_HEADING:
+            serialize_heading(buf, node);
             break;
-        }
-        
-        case CMARK_NODE_CODE_BLOCK: {
-            const char *info = cmark_node_get_fence_info(node);
-            buffer_append_str(buf, "```");
-            if (info) buffer_append_str(buf, info);
-            buffer_append_str(buf, "\n");
-            const char *literal = cmark_node_get_literal(node);
-            if (literal) buffer_append_str(buf, literal);
-            buffer_append_str(buf, "\n```\n\n");
+
+        case CMARK_NODE_CODE_BLOCK:
+            serialize_code_block(buf, node);
             break;
-        }
-        
+
         case CMARK_NODE_BLOCK_QUOTE: {
-            /* Serialize blockquote with > on same line as content */
-            for (cmark_node *child = cmark_node_first_child(node); child; child = cmark_node_next(child)) {
-                cmark_node_type child_type = cmark_node_get_type(child);
-                
-                if (child_type == CMARK_NODE_PARAGRAPH) {
-                    /* For paragraphs, serialize inline content directly on same line as > */
-                    cmark_node *inline_child = cmark_node_first_child(child);
-                    bool first_item = true;
-                    
-                    while (inline_child) {
-                        cmark_node_type inline_type = cmark_node_get_type(inline_child);
-                        
-                        if (inline_type == CMARK_NODE_SOFTBREAK) {
-                            /* For soft breaks in blockquotes, continue on next line with > */
-                            buffer_append_str(buf, "\n> ");
-                            first_item = false;
-                        } else {
-                            /* For first non-softbreak item, add > prefix */
-                            if (first_item) {
-                                buffer_append_str(buf, "> ");
-                                first_item = false;
-                            }
-                            serialize_inline(buf, inline_child, dialect);
-                        }
-                        inline_child = cmark_node_next(inline_child);
-                    }
-                    
-                    if (cmark_node_next(child)) {
-                        buffer_append_str(buf, "\n");
-                    } else {
-                        buffer_append_str(buf, "\n\n");
-                    }
-                } else {
-                    /* For other block types, prefix with > */
-                    buffer_append_str(buf, "> ");
-                    serialize_block(buf, child, dialect, indent_level);
-                    /* Remove trailing newlines and add appropriate spacing */
-                    if (cmark_node_next(child)) {
-                        /* Ensure single newline between blockquote items */
-                        if (buf->len > 0 && buf->buf[buf->len - 1] == '\n') {
-                            buf->len--; /* Remove one newline */
-                            buf->buf[buf->len] = '\0';
-                        }
-                        buffer_append_str(buf, "\n");
-                    }
-                }
-            }
-            break;
-        }
-        
-        case CMARK_NODE_LIST: {
-            cmark_list_type list_type = cmark_node_get_list_type(node);
-            int item_index = 0;
-            for (cmark_node *item = cmark_node_first_child(node); item; item = cmark_node_next(item), item_index++) {
-                if (list_type == CMARK_ORDERED_LIST) {
-                    int start = cmark_node_get_list_start(node);
-                    char num[32];
-                    snprintf(num, sizeof(num), "%d", start + item_index);
-                    buffer_append_str(buf, num);
-                    buffer_append_str(buf, ". ");
-                } else {
-                    buffer_append_str(buf, "- ");
-                }
-                serialize_block(buf, item, dialect, indent_level);
+            if (!cmark_node_first_child(node)) {
+                buffer_append(buf, ">", 1);
+                break;
             }
-            buffer_append_str(buf, "\n");
+            size_t prefix_len = buf->prefix_len;
+            buffer_append_str(buf, "> ");
+            buf->line_start = buf->len;
+            push_prefix(buf, "> ", 2);
+            serialize_blocks(buf, node, false);
+            buf->prefix_len = prefix_len;
             break;
         }
-        
-        case CMARK_NODE_ITEM:
-            for (cmark_node *child = cmark_node_first_child(node); child; child = cmark_node_next(child)) {
-                serialize_block(buf, child, dialect, indent_level);
-            }
+
+        case CMARK_NODE_LIST:
+            serialize_list(buf, node);
             break;
-        
+
         case CMARK_NODE_THEMATIC_BREAK:
-            buffer_append_str(buf, "---\n\n");
+            /* In a list item dashes could be taken for its marker or an underline */
+            buffer_append_str(buf, buf->prefix_len > 0 ? "___" : "---");
             break;
-        
+
         case CMARK_NODE_HTML_BLOCK: {
             const char *literal = cmark_node_get_literal(node);
             if (literal) {
                 /* Check if this is a TOC marker HTML comment */
-                if (dialect == APEX_MD_DIALECT_MMD) {
-                    const char *toc_start = strstr(literal, "<!--TOC");
-                    if (toc_start) {
-                        /* For MMD, convert HTML comment TOC marker to {{TOC}} format */
-                        /* Always output just {{TOC}} (no parameters) for MMD compatibility */
-                        buffer_append_str(buf, "{{TOC}}\n\n");
-                        break;
-                    }
+                if (buf->dialect == APEX_MD_DIALECT_MMD && strstr(literal, "<!--TOC")) {
+                    /* For MMD, convert HTML comment TOC marker to {{TOC}} format */
+                    /* Always output just {{TOC}} (no parameters) for MMD compatibility */
+                    buffer_append_str(buf, "{{TOC}}");
+                    break;
                 }
                 /* For other dialects or non-TOC HTML, output as-is */
-                buffer_append_str(buf, literal);
-                buffer_append_str(buf, "\n\n");
+                size_t len = strlen(literal);
+                if (len > 0 && literal[len - 1] == '\n') len--;
+                append_lines(buf, literal, len);
             }
             break;
         }
-        
+
         default:
-            /* For unknown types, serialize children */
-            for (cmark_node *child = cmark_node_first_child(node); child; child = cmark_node_next(child)) {
-                serialize_block(buf, child, dialect, indent_level);
+            if (is_type(node, "table")) {
+                serialize_table(buf, node);
+            } else {
+                /* For unknown types, serialize children */
+                serialize_blocks(buf, node, tight);
             }
             break;
     }
@@ -394,14 +596,17 @@ char *apex_cmark_to_markdown(cmark_node *document,
     }
     
     markdown_buffer buf;
-    buffer_init(&buf);
-    
-    serialize_block(&buf, document, dialect, 0);
-    
+    memset(&buf, 0, sizeof(buf));
+    buf.dialect = dialect;
+
+    serialize_block(&buf, document, false);
+    if (buf.len > 0) buffer_append(&buf, "\n", 1);
+    free(buf.prefix);
+
     if (buf.buf) {
         return buf.buf;
     }
-    
+
     /* Fallback: return empty string */
     char *empty = malloc(1);
     if (empty) empty[0] = '\0';
-- 
2.43.0


From 28071f866b87f9cb304859aadcd8554b2ff06275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:55 +0000
Subject: [PATCH 48/66] fix: references in URLs, titles and info strings
 survive Markdown output

A reference is read before a backslash escape there, so the ampersand
itself has to be written as a reference.
---
 src/ast_markdown.c | 39 +++++++++++++++++----------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/src/ast_markdown.c b/src/ast_markdown.c
index 646c56f..12032a7 100644
--- a/src/ast_markdown.c
+++ b/src/ast_markdown.c
@@ -244,6 +244,20 @@ static void serialize_code(markdown_buffer *buf, const char *literal) {
     buffer_repeat(buf, '`', fence);
 }
 
+/* A URL, title or info string; references in these are read before escapes */
+static void append_escaped(markdown_buffer *buf, const char *text, const char *special) {
+    const char *end = text + strlen(text);
+    for (const char *p = text; p < end; p++) {
+        if (*p == '\n') {
+            new_line(buf);
+            continue;
+        }
+        if (strchr(special, *p) || (*p == '|' && buf->in_table)) buffer_append(buf, "\\", 1);
+        buffer_append(buf, p, 1);
+        if (*p == '&' && is_reference(p, end)) buffer_append_str(buf, "amp;");
+    }
+}
+
 /* The destination and title of a link or image, with the closing bracket of its text */
 static void serialize_destination(markdown_buffer *buf, cmark_node *node) {
     const char *url = cmark_node_get_url(node);
@@ -261,28 +275,12 @@ static void serialize_destination(markdown_buffer *buf, cmark_node *node) {
     }
     if (depth != 0) angle = true;
     if (angle) buffer_append(buf, "<", 1);
-    for (const char *p = url; *p; p++) {
-        if (*p == '\\' || (angle && (*p == '<' || *p == '>')) ||
-            (*p == '&' && is_reference(p, url + strlen(url))) || (*p == '|' && buf->in_table)) {
-            buffer_append(buf, "\\", 1);
-        }
-        buffer_append(buf, p, 1);
-    }
+    append_escaped(buf, url, angle ? "\\<>" : "\\");
     if (angle) buffer_append(buf, ">", 1);
 
     if (has_title) {
         buffer_append_str(buf, " \"");
-        for (const char *p = title; *p; p++) {
-            if (*p == '\n') {
-                new_line(buf);
-                continue;
-            }
-            if (*p == '\\' || *p == '"' || (*p == '&' && is_reference(p, title + strlen(title))) ||
-                (*p == '|' && buf->in_table)) {
-                buffer_append(buf, "\\", 1);
-            }
-            buffer_append(buf, p, 1);
-        }
+        append_escaped(buf, title, "\\\"");
         buffer_append(buf, "\"", 1);
     }
     buffer_append(buf, ")", 1);
@@ -412,10 +410,7 @@ static void serialize_code_block(markdown_buffer *buf, cmark_node *node) {
 
     buffer_repeat(buf, mark, fence);
     if (*info == mark) buffer_append(buf, " ", 1);
-    for (const char *p = info; *p; p++) {
-        if (*p == '\\' || (*p == '&' && is_reference(p, info + strlen(info)))) buffer_append(buf, "\\", 1);
-        buffer_append(buf, p, 1);
-    }
+    append_escaped(buf, info, "\\");
     size_t len = strlen(literal);
     if (len > 0 && literal[len - 1] == '\n') len--;
     if (*literal) {
-- 
2.43.0


From b61255eadb30e56670558358febbfdb9d50740a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:43 +0000
Subject: [PATCH 49/66] fix: highlighting runs nothing from the document and
 keeps every code block

---
 src/extensions/syntax_highlight.c | 282 +++++++++++-------------------
 1 file changed, 106 insertions(+), 176 deletions(-)

diff --git a/src/extensions/syntax_highlight.c b/src/extensions/syntax_highlight.c
index bd51a1e..f724fa0 100644
--- a/src/extensions/syntax_highlight.c
+++ b/src/extensions/syntax_highlight.c
@@ -7,15 +7,11 @@
  */
 
 #include "syntax_highlight.h"
+#include "../plugins.h"
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
 #include <ctype.h>
-#include <unistd.h>
-#include <fcntl.h>
-#include <sys/types.h>
-#include <sys/wait.h>
-#include <errno.h>
 
 /**
  * Get the binary name for a syntax highlighting tool.
@@ -85,123 +81,41 @@ static char *unescape_html(const char *html, size_t len) {
 }
 
 /**
- * Run an external command with input on stdin and capture stdout.
- * Returns newly allocated string with output, or NULL on failure.
+ * Quote a word for the shell. The language of a code block is the author's text and must
+ * reach the tool as one argument, whatever is in it.
  */
-static char *run_command(const char *cmd, const char *input) {
-    if (!cmd || !input) return NULL;
-
-    int in_pipe[2];
-    int out_pipe[2];
-    if (pipe(in_pipe) == -1 || pipe(out_pipe) == -1) {
-        return NULL;
-    }
-
-    pid_t pid = fork();
-    if (pid == -1) {
-        close(in_pipe[0]); close(in_pipe[1]);
-        close(out_pipe[0]); close(out_pipe[1]);
-        return NULL;
-    }
-
-    if (pid == 0) {
-        /* Child: stdin from in_pipe[0], stdout to out_pipe[1] */
-        dup2(in_pipe[0], STDIN_FILENO);
-        dup2(out_pipe[1], STDOUT_FILENO);
-        /* Redirect stderr to /dev/null to suppress tool warnings */
-        int devnull = open("/dev/null", O_WRONLY);
-        if (devnull != -1) {
-            dup2(devnull, STDERR_FILENO);
-            close(devnull);
-        }
-        close(in_pipe[0]); close(in_pipe[1]);
-        close(out_pipe[0]); close(out_pipe[1]);
-
-        execl("/bin/sh", "sh", "-c", cmd, (char *)NULL);
-        _exit(127);
-    }
-
-    /* Parent */
-    close(in_pipe[0]);
-    close(out_pipe[1]);
-
-    /* Write input to child stdin */
-    size_t input_len = strlen(input);
-    ssize_t to_write = (ssize_t)input_len;
-    const char *p = input;
-    while (to_write > 0) {
-        ssize_t written = write(in_pipe[1], p, (size_t)to_write);
-        if (written <= 0) break;
-        p += written;
-        to_write -= written;
-    }
-    close(in_pipe[1]);
-
-    /* Read all of child's stdout */
-    size_t cap = 8192;
-    size_t size = 0;
-    char *buf = malloc(cap);
-    if (!buf) {
-        close(out_pipe[0]);
-        int status;
-        waitpid(pid, &status, 0);
-        return NULL;
-    }
-
-    for (;;) {
-        if (size + 4096 > cap) {
-            cap *= 2;
-            char *nb = realloc(buf, cap);
-            if (!nb) {
-                free(buf);
-                close(out_pipe[0]);
-                int status;
-                waitpid(pid, &status, 0);
-                return NULL;
-            }
-            buf = nb;
-        }
-        ssize_t n = read(out_pipe[0], buf + size, 4096);
-        if (n < 0) {
-            if (errno == EINTR) continue;
-            free(buf);
-            close(out_pipe[0]);
-            int status;
-            waitpid(pid, &status, 0);
-            return NULL;
+static void quote_shell_word(const char *word, char *out) {
+    *out++ = '\'';
+    for (; *word; word++) {
+        if (*word == '\'') {
+            memcpy(out, "'\\''", 4);
+            out += 4;
+        } else {
+            *out++ = *word;
         }
-        if (n == 0) break;
-        size += (size_t)n;
-    }
-    close(out_pipe[0]);
-
-    /* Reap child */
-    int status;
-    waitpid(pid, &status, 0);
-
-    /* Check if command succeeded */
-    if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) {
-        free(buf);
-        return NULL;
     }
-
-    buf[size] = '\0';
-    return buf;
+    *out++ = '\'';
+    *out = '\0';
 }
 
 /**
  * Highlight a single code block using the specified tool.
  * Returns newly allocated HTML (or ANSI when ansi_output is true), or NULL on failure.
  */
-static char *highlight_code_block(const char *code, const char *language,
+static char *highlight_code_block(const char *code, const char *block_language,
                                   const char *tool, bool line_numbers, bool ansi_output) {
     char cmd[512];
     const char *binary = get_tool_binary(tool);
     if (!binary) return NULL;
 
+    char language[64 * 4 + 3] = {0};
+    if (block_language && *block_language) {
+        quote_shell_word(block_language, language);
+    }
+
     if (strcmp(tool, "pygments") == 0) {
         /* Pygments: pygmentize -l LANG -f html [-O linenos=1] */
-        if (language && *language) {
+        if (*language) {
             if (line_numbers) {
                 snprintf(cmd, sizeof(cmd), "%s -l %s -f html -O linenos=1", binary, language);
             } else {
@@ -218,7 +132,7 @@ static char *highlight_code_block(const char *code, const char *language,
     } else if (strcmp(tool, "skylighting") == 0) {
         /* Skylighting: skylighting --syntax LANG -f html -r [-n]
          * -r = fragment mode (no full HTML document wrapper) */
-        if (language && *language) {
+        if (*language) {
             if (line_numbers) {
                 snprintf(cmd, sizeof(cmd), "%s --syntax %s -f html -r -n", binary, language);
             } else {
@@ -237,17 +151,42 @@ static char *highlight_code_block(const char *code, const char *language,
          * Reads code from stdin. Exits non-zero if lang is missing and cannot be auto-detected;
          * we capture that and fall back to plain text. */
         const char *fmt = ansi_output ? "ansi" : "html";
-        if (language && *language) {
+        if (*language) {
             snprintf(cmd, sizeof(cmd), "%s --lang %s --format %s", binary, language, fmt);
         } else {
-            /* No language: Shiki may fail (non-zero exit); run_command returns NULL → we use original block */
+            /* No language: Shiki may fail (non-zero exit); no output → we use original block */
             snprintf(cmd, sizeof(cmd), "%s --format %s", binary, fmt);
         }
     } else {
         return NULL;
     }
 
-    return run_command(cmd, code);
+    /* Suppress tool warnings */
+    strcat(cmd, " 2>/dev/null");
+    return apex_run_piped_command(cmd, NULL, code, 0);
+}
+
+/**
+ * Find the </code></pre> that ends a code block, or NULL if its code ends otherwise.
+ */
+static const char *find_block_end(const char *content) {
+    const char *end = strstr(content, "</code>");
+    return end && strncmp(end, "</code></pre>", 13) == 0 ? end : NULL;
+}
+
+/**
+ * Make room for len more bytes and a terminator in the output buffer.
+ */
+static bool ensure_room(char **output, char **write, size_t *remaining, size_t len) {
+    if (len < *remaining) return true;
+    size_t written = *write - *output;
+    size_t new_cap = (written + len + 1) * 2;
+    char *new_output = realloc(*output, new_cap);
+    if (!new_output) return false;
+    *output = new_output;
+    *write = new_output + written;
+    *remaining = new_cap - written;
+    return true;
 }
 
 /**
@@ -286,12 +225,12 @@ char *apex_apply_syntax_highlighting(const char *html, const char *tool, bool li
             const char *pre_tag_end = strchr(read, '>');
             if (!pre_tag_end) {
                 /* Malformed, copy as-is */
-                if (remaining > 0) {
-                    *write++ = *read++;
-                    remaining--;
-                } else {
-                    read++;
+                if (!ensure_room(&output, &write, &remaining, 1)) {
+                    free(output);
+                    return strdup(html);
                 }
+                *write++ = *read++;
+                remaining--;
                 continue;
             }
 
@@ -301,14 +240,14 @@ char *apex_apply_syntax_highlighting(const char *html, const char *tool, bool li
             while (*after_pre && (*after_pre == ' ' || *after_pre == '\t' || *after_pre == '\n' || *after_pre == '\r')) {
                 after_pre++;
             }
-            if (strncmp(after_pre, "<code", 5) != 0) {
+            if (strncmp(after_pre, "<code", 5) != 0 || !strchr("> \t\r\n", after_pre[5])) {
                 /* Not a code block, copy <pre and continue */
-                if (remaining > 0) {
-                    *write++ = *read++;
-                    remaining--;
-                } else {
-                    read++;
+                if (!ensure_room(&output, &write, &remaining, 1)) {
+                    free(output);
+                    return strdup(html);
                 }
+                *write++ = *read++;
+                remaining--;
                 continue;
             }
 
@@ -316,12 +255,12 @@ char *apex_apply_syntax_highlighting(const char *html, const char *tool, bool li
             const char *code_tag_end = strchr(code_tag, '>');
             if (!code_tag_end) {
                 /* Malformed, copy as-is */
-                if (remaining > 0) {
-                    *write++ = *read++;
-                    remaining--;
-                } else {
-                    read++;
+                if (!ensure_room(&output, &write, &remaining, 1)) {
+                    free(output);
+                    return strdup(html);
                 }
+                *write++ = *read++;
+                remaining--;
                 continue;
             }
 
@@ -366,17 +305,26 @@ char *apex_apply_syntax_highlighting(const char *html, const char *tool, bool li
                 }
             }
 
+            /* The attribute value is HTML */
+            char *plain_language = unescape_html(language, strlen(language));
+            if (plain_language) {
+                strcpy(language, plain_language);
+                free(plain_language);
+            }
+
             /* If language_only is set and no language was found, skip this block */
             if (language_only && !language[0]) {
                 /* Copy the original block as-is */
-                const char *block_end = strstr(code_tag_end + 1, "</code></pre>");
+                const char *block_end = find_block_end(code_tag_end + 1);
                 if (block_end) {
                     size_t block_len = (block_end + 13) - pre_start;
-                    if (block_len <= remaining) {
-                        memcpy(write, pre_start, block_len);
-                        write += block_len;
-                        remaining -= block_len;
+                    if (!ensure_room(&output, &write, &remaining, block_len)) {
+                        free(output);
+                        return strdup(html);
                     }
+                    memcpy(write, pre_start, block_len);
+                    write += block_len;
+                    remaining -= block_len;
                     read = block_end + 13;
                     continue;
                 }
@@ -384,15 +332,15 @@ char *apex_apply_syntax_highlighting(const char *html, const char *tool, bool li
 
             /* Find </code></pre> */
             const char *code_content_start = code_tag_end + 1;
-            const char *code_end = strstr(code_content_start, "</code></pre>");
+            const char *code_end = find_block_end(code_content_start);
             if (!code_end) {
                 /* Malformed, copy as-is */
-                if (remaining > 0) {
-                    *write++ = *read++;
-                    remaining--;
-                } else {
-                    read++;
+                if (!ensure_room(&output, &write, &remaining, 1)) {
+                    free(output);
+                    return strdup(html);
                 }
+                *write++ = *read++;
+                remaining--;
                 continue;
             }
 
@@ -402,11 +350,13 @@ char *apex_apply_syntax_highlighting(const char *html, const char *tool, bool li
             if (!code) {
                 /* Failed to unescape, copy as-is */
                 size_t block_len = (code_end + 13) - pre_start;
-                if (block_len <= remaining) {
-                    memcpy(write, pre_start, block_len);
-                    write += block_len;
-                    remaining -= block_len;
+                if (!ensure_room(&output, &write, &remaining, block_len)) {
+                    free(output);
+                    return strdup(html);
                 }
+                memcpy(write, pre_start, block_len);
+                write += block_len;
+                remaining -= block_len;
                 read = code_end + 13;
                 continue;
             }
@@ -420,19 +370,10 @@ char *apex_apply_syntax_highlighting(const char *html, const char *tool, bool li
                 size_t hl_len = strlen(highlighted);
 
                 /* Ensure we have enough space */
-                if (hl_len >= remaining) {
-                    size_t written = write - output;
-                    size_t new_cap = (written + hl_len + 1) * 2;
-                    char *new_output = realloc(output, new_cap);
-                    if (!new_output) {
-                        free(highlighted);
-                        free(output);
-                        return strdup(html);
-                    }
-                    output = new_output;
-                    write = output + written;
-                    remaining = new_cap - written;
-                    cap = new_cap;
+                if (!ensure_room(&output, &write, &remaining, hl_len)) {
+                    free(highlighted);
+                    free(output);
+                    return strdup(html);
                 }
 
                 memcpy(write, highlighted, hl_len);
@@ -442,11 +383,13 @@ char *apex_apply_syntax_highlighting(const char *html, const char *tool, bool li
             } else {
                 /* Highlighting failed, copy original block */
                 size_t block_len = (code_end + 13) - pre_start;
-                if (block_len <= remaining) {
-                    memcpy(write, pre_start, block_len);
-                    write += block_len;
-                    remaining -= block_len;
+                if (!ensure_room(&output, &write, &remaining, block_len)) {
+                    free(output);
+                    return strdup(html);
                 }
+                memcpy(write, pre_start, block_len);
+                write += block_len;
+                remaining -= block_len;
                 if (highlighted) free(highlighted);
             }
 
@@ -455,25 +398,12 @@ char *apex_apply_syntax_highlighting(const char *html, const char *tool, bool li
         }
 
         /* Copy character */
-        if (remaining > 1) {
-            *write++ = *read++;
-            remaining--;
-        } else {
-            /* Need more space */
-            size_t written = write - output;
-            size_t new_cap = cap * 2;
-            char *new_output = realloc(output, new_cap);
-            if (!new_output) {
-                free(output);
-                return strdup(html);
-            }
-            output = new_output;
-            write = output + written;
-            remaining = new_cap - written;
-            cap = new_cap;
-            *write++ = *read++;
-            remaining--;
+        if (!ensure_room(&output, &write, &remaining, 1)) {
+            free(output);
+            return strdup(html);
         }
+        *write++ = *read++;
+        remaining--;
     }
 
     *write = '\0';
-- 
2.43.0


From d3a376ed328f006bbedb9cc0db1efd6f101bc089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:29 +0000
Subject: [PATCH 50/66] fix: merging and combining keep headings, separation
 and write errors

---
 cli/main.c | 75 +++++++++++++++++++++++++++++-------------------------
 1 file changed, 41 insertions(+), 34 deletions(-)

diff --git a/cli/main.c b/cli/main.c
index 82d2b07..6535c4c 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -1003,6 +1003,22 @@ static char *read_stdin(size_t *len) {
     return buffer;
 }
 
+/**
+ * Finish writing to an output stream (closed unless it is stdout).
+ * Returns 0 if everything was written, 1 after reporting an error otherwise.
+ */
+static int apex_cli_finish_output(FILE *out, const char *output_file) {
+    bool failed = fflush(out) != 0 || ferror(out);
+    if (out != stdout && fclose(out) != 0) {
+        failed = true;
+    }
+    if (failed) {
+        fprintf(stderr, "Error: Cannot write output to '%s'\n", output_file ? output_file : "stdout");
+        return 1;
+    }
+    return 0;
+}
+
 /**
  * Helper: get directory component of a path (malloc'd).
  */
@@ -1057,32 +1073,25 @@ static char *apex_cli_shift_headers(const char *content, int indent) {
     char *out = buffer;
     const char *in = content;
 
-    for (int level = 0; level < indent; level++) {
-        out = buffer;
-        in = (level == 0) ? content : buffer;
-
-        bool at_line_start = true;
-        while (*in) {
-            char c = *in;
-            if (at_line_start && c == '#') {
-                /* Duplicate initial '#' */
+    bool at_line_start = true;
+    while (*in) {
+        char c = *in;
+        if (at_line_start && c == '#') {
+            /* One more '#' per level */
+            for (int level = 0; level < indent; level++) {
                 *out++ = '#';
-                *out++ = '#';
-                in++;
-                at_line_start = false;
-                continue;
             }
+        }
 
-            *out++ = c;
-            if (c == '\n') {
-                at_line_start = true;
-            } else {
-                at_line_start = false;
-            }
-            in++;
+        *out++ = c;
+        if (c == '\n') {
+            at_line_start = true;
+        } else {
+            at_line_start = false;
         }
-        *out = '\0';
+        in++;
     }
+    *out = '\0';
 
     return buffer;
 }
@@ -1286,7 +1295,7 @@ static void apex_cli_write_combined_chunk(FILE *out, const char *chunk, bool *ne
  *
  * Returns 0 on success, non-zero on error.
  */
-static int apex_cli_combine_from_summary(const char *summary_path, FILE *out) {
+static int apex_cli_combine_from_summary(const char *summary_path, FILE *out, bool *needs_separator) {
     size_t len = 0;
     char *summary = read_file(summary_path, &len);
     if (!summary) {
@@ -1295,7 +1304,6 @@ static int apex_cli_combine_from_summary(const char *summary_path, FILE *out) {
     }
 
     char *base_dir = apex_cli_get_directory(summary_path);
-    bool needs_separator = false;
 
     char *cursor = summary;
     while (*cursor) {
@@ -1351,7 +1359,7 @@ static int apex_cli_combine_from_summary(const char *summary_path, FILE *out) {
                             snprintf(full_path, full_len, "%s/%s", base_dir ? base_dir : ".", start);
                             char *processed = apex_cli_combine_process_file(full_path);
                             if (processed) {
-                                apex_cli_write_combined_chunk(out, processed, &needs_separator);
+                                apex_cli_write_combined_chunk(out, processed, needs_separator);
                                 free(processed);
                             } else {
                                 fprintf(stderr, "Warning: Skipping unreadable file '%s' from SUMMARY\n", full_path);
@@ -2926,8 +2934,8 @@ int main(int argc, char *argv[]) {
             }
         }
 
-        if (out != stdout) {
-            fclose(out);
+        if (apex_cli_finish_output(out, output_file) != 0) {
+            rc = 1;
         }
         return rc;
     }
@@ -2960,13 +2968,11 @@ int main(int argc, char *argv[]) {
             bool is_summary = (base && strcasecmp(base, "SUMMARY.md") == 0);
 
             if (is_summary) {
-                if (apex_cli_combine_from_summary(path, out) != 0) {
+                if (apex_cli_combine_from_summary(path, out, &needs_separator) != 0) {
                     rc = 1;
                     free(path_copy);
                     break;
                 }
-                /* SUMMARY already handles its own separation */
-                needs_separator = true;
             } else {
                 char *processed = apex_cli_combine_process_file(path);
                 if (!processed) {
@@ -2980,8 +2986,8 @@ int main(int argc, char *argv[]) {
             free(path_copy);
         }
 
-        if (out != stdout) {
-            fclose(out);
+        if (apex_cli_finish_output(out, output_file) != 0) {
+            rc = 1;
         }
         return rc;
     }
@@ -3557,6 +3563,7 @@ int main(int argc, char *argv[]) {
     }
 
     /* Write output */
+    int exit_code = 0;
     PROFILE_START(file_write);
     if (output_file) {
         FILE *fp = fopen(output_file, "w");
@@ -3567,11 +3574,11 @@ int main(int argc, char *argv[]) {
         }
         size_t html_len = strlen(html);
         fwrite(html, 1, html_len, fp);
-        fclose(fp);
+        exit_code = apex_cli_finish_output(fp, output_file);
     } else {
         size_t html_len = strlen(html);
         fwrite(html, 1, html_len, stdout);
-        /* Don't fflush - let the system buffer for better performance */
+        exit_code = apex_cli_finish_output(stdout, NULL);
     }
     PROFILE_END(file_write);
 
@@ -3607,5 +3614,5 @@ int main(int argc, char *argv[]) {
         free(allocated_base_dir);
     }
 
-    return 0;
+    return exit_code;
 }
-- 
2.43.0


From edf21dce4a81b90d61448bbd133257e69693a591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:02 +0000
Subject: [PATCH 51/66] fix: simple front matter reader undoes the escapes of
 quoted values

---
 src/extensions/metadata.c | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index c43ee16..bf35846 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -324,6 +324,31 @@ static bool find_yaml_block(const char *text, bool to_end, const char **content,
     return opened && to_end;
 }
 
+/**
+ * Replace the escape sequences of a double-quoted YAML value, in place.
+ */
+static void unescape_yaml(char *value) {
+    char *w = value;
+    for (const char *r = value; *r; ) {
+        if (*r != '\\') {
+            *w++ = *r++;
+        } else if (r[1] == '"' || r[1] == '\\') {
+            *w++ = r[1];
+            r += 2;
+        } else if (r[1] == 'n' || r[1] == 't') {
+            *w++ = r[1] == 'n' ? '\n' : '\t';
+            r += 2;
+        } else if (r[1] == 'x' && isxdigit((unsigned char)r[2]) && isxdigit((unsigned char)r[3])) {
+            char hex[3] = { r[2], r[3], '\0' };
+            *w++ = (char)strtol(hex, NULL, 16);
+            r += 4;
+        } else {
+            *w++ = *r++;
+        }
+    }
+    *w = '\0';
+}
+
 /**
  * Parse YAML front matter
  * Format: --- at start, key: value pairs, --- or ... to close
@@ -364,12 +389,14 @@ static apex_metadata_item *parse_yaml_metadata(const char *text, size_t *consume
 
             /* Strip quotes from value if present */
             size_t value_len = strlen(value);
-            if (value_len >= 2 && ((value[0] == '"' && value[value_len - 1] == '"') ||
+            bool double_quoted = value_len >= 2 && value[0] == '"' && value[value_len - 1] == '"';
+            if (value_len >= 2 && (double_quoted ||
                                    (value[0] == '\'' && value[value_len - 1] == '\''))) {
                 value[value_len - 1] = '\0';
                 value++;
                 /* Re-trim after removing quotes */
                 trim_whitespace(value);
+                if (double_quoted) unescape_yaml(value);
             }
 
             if (*key) {
-- 
2.43.0


From 60a2605cc26006a21e94670a44c702b827484de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:02 +0000
Subject: [PATCH 52/66] fix: flags, metadata and filters reach the converter as
 given

Front matter generated from the merged metadata quotes what YAML would read
otherwise, and is left out in modes that have no metadata. Flags keep effect
before --mode and against metadata, as documented. Filter paths are single
shell words, --filters runs executables in name order, and wrapping does not
split UTF-8 characters.
---
 cli/main.c | 426 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 270 insertions(+), 156 deletions(-)

diff --git a/cli/main.c b/cli/main.c
index 6535c4c..161547a 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -16,6 +16,8 @@
 #include <dirent.h>
 #include <sys/stat.h>
 #include <sys/ioctl.h>
+#include <ctype.h>
+#include <stddef.h>
 
     /* Remote plugin directory helpers (from plugins_remote.c) */
 typedef struct apex_remote_plugin apex_remote_plugin;
@@ -792,8 +794,10 @@ static char *wrap_ansi_to_width(const char *input, int width) {
             continue;
         }
 
-        /* Insert a newline before adding another visible char if we've hit width. */
-        if (col >= width) {
+        /* Insert a newline before adding another visible char if we've hit width.
+         * UTF-8 continuation bytes belong to the character before them. */
+        bool starts_char = ((unsigned char)c & 0xC0) != 0x80;
+        if (starts_char && col >= width) {
             if (oi + 1 >= cap) {
                 cap *= 2;
                 char *nb = realloc(out, cap);
@@ -817,7 +821,7 @@ static char *wrap_ansi_to_width(const char *input, int width) {
             out = nb;
         }
         out[oi++] = c;
-        col++;
+        if (starts_char) col++;
         i++;
     }
 
@@ -1003,6 +1007,91 @@ static char *read_stdin(size_t *len) {
     return buffer;
 }
 
+/**
+ * Options defaults for a mode name; returns false for an unknown name.
+ */
+static bool apex_cli_mode_options(const char *name, apex_options *options) {
+    if (strcmp(name, "commonmark") == 0) {
+        *options = apex_options_for_mode(APEX_MODE_COMMONMARK);
+    } else if (strcmp(name, "gfm") == 0) {
+        *options = apex_options_for_mode(APEX_MODE_GFM);
+    } else if (strcmp(name, "mmd") == 0 || strcmp(name, "multimarkdown") == 0) {
+        *options = apex_options_for_mode(APEX_MODE_MULTIMARKDOWN);
+    } else if (strcmp(name, "kramdown") == 0) {
+        *options = apex_options_for_mode(APEX_MODE_KRAMDOWN);
+    } else if (strcmp(name, "unified") == 0) {
+        *options = apex_options_for_mode(APEX_MODE_UNIFIED);
+    } else {
+        return false;
+    }
+    return true;
+}
+
+/**
+ * Build the shell command running a filter script: the path as a single word,
+ * through the Lua interpreter if asked to.
+ */
+static char *apex_cli_filter_command(const char *path, bool lua) {
+    char *cmd = malloc(strlen(path) * 4 + 8);
+    if (!cmd) return NULL;
+    char *w = cmd;
+    if (lua) {
+        memcpy(w, "lua ", 4);
+        w += 4;
+    }
+    *w++ = '\'';
+    for (const char *p = path; *p; p++) {
+        if (*p == '\'') {
+            memcpy(w, "'\\''", 4);
+            w += 4;
+        } else {
+            *w++ = *p;
+        }
+    }
+    *w++ = '\'';
+    *w = '\0';
+    return cmd;
+}
+
+static bool apex_cli_is_lua(const char *path) {
+    size_t len = strlen(path);
+    return len > 4 && strcmp(path + len - 4, ".lua") == 0;
+}
+
+static int apex_cli_compare_paths(const void *a, const void *b) {
+    return strcmp(*(char *const *)a, *(char *const *)b);
+}
+
+/**
+ * Write VALUE as a YAML scalar that reads back as exactly VALUE; returns the end.
+ * Needs room for 4 * strlen(value) + 2 bytes.
+ */
+static char *apex_cli_write_yaml_scalar(char *out, const char *value) {
+    size_t len = strlen(value);
+    bool plain = len > 0 && value[len - 1] != ' ' && isalnum((unsigned char)value[0]);
+    for (const char *p = value; plain && *p; p++) {
+        plain = isalnum((unsigned char)*p) || strchr(" _./,-+()", *p);
+    }
+    if (plain) {
+        memcpy(out, value, len);
+        return out + len;
+    }
+    *out++ = '"';
+    for (const char *p = value; *p; p++) {
+        unsigned char c = (unsigned char)*p;
+        if (c == '"' || c == '\\') {
+            *out++ = '\\';
+            *out++ = (char)c;
+        } else if (c < 0x20 || c == 0x7F || (c == ' ' && (p == value || !p[1]))) {
+            out += sprintf(out, "\\x%02x", c);
+        } else {
+            *out++ = (char)c;
+        }
+    }
+    *out++ = '"';
+    return out;
+}
+
 /**
  * Finish writing to an output stream (closed unless it is stdout).
  * Returns 0 if everything was written, 1 after reporting an error otherwise.
@@ -1445,6 +1534,20 @@ int main(int argc, char *argv[]) {
     /* Optional fixed-width wrapping for terminal output */
     int width_override = 0;
 
+    /* Mode named by --mode, and the bytes of the options set by flags: both win over metadata */
+    const char *mode_name = NULL;
+    unsigned char option_set[sizeof(apex_options)] = { 0 };
+#define SET_OPTION(field, value) \
+    (options.field = (value), \
+     memset(option_set + offsetof(apex_options, field), 1, sizeof(options.field)))
+
+    /* The mode sets defaults for all other options: apply it first, wherever it is given */
+    for (int i = 1; i + 1 < argc; i++) {
+        if (strcmp(argv[i], "-m") == 0 || strcmp(argv[i], "--mode") == 0) {
+            apex_cli_mode_options(argv[++i], &options);
+        }
+    }
+
     /* Parse command-line arguments */
     for (int i = 1; i < argc; i++) {
         if (strcmp(argv[i], "-h") == 0 || strcmp(argv[i], "--help") == 0) {
@@ -1458,49 +1561,42 @@ int main(int argc, char *argv[]) {
                 fprintf(stderr, "Error: --mode requires an argument\n");
                 return 1;
             }
-            if (strcmp(argv[i], "commonmark") == 0) {
-                options = apex_options_for_mode(APEX_MODE_COMMONMARK);
-            } else if (strcmp(argv[i], "gfm") == 0) {
-                options = apex_options_for_mode(APEX_MODE_GFM);
-            } else if (strcmp(argv[i], "mmd") == 0 || strcmp(argv[i], "multimarkdown") == 0) {
-                options = apex_options_for_mode(APEX_MODE_MULTIMARKDOWN);
-            } else if (strcmp(argv[i], "kramdown") == 0) {
-                options = apex_options_for_mode(APEX_MODE_KRAMDOWN);
-            } else if (strcmp(argv[i], "unified") == 0) {
-                options = apex_options_for_mode(APEX_MODE_UNIFIED);
-            } else {
+            /* The mode itself has been applied above */
+            apex_options mode_options;
+            if (!apex_cli_mode_options(argv[i], &mode_options)) {
                 fprintf(stderr, "Error: Unknown mode '%s'\n", argv[i]);
                 return 1;
             }
+            mode_name = argv[i];
         } else if (strcmp(argv[i], "-t") == 0 || strcmp(argv[i], "--to") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: --to requires an argument\n");
                 return 1;
             }
             if (strcmp(argv[i], "html") == 0) {
-                options.output_format = APEX_OUTPUT_HTML;
+                SET_OPTION(output_format, APEX_OUTPUT_HTML);
             } else if (strcmp(argv[i], "json") == 0) {
-                options.output_format = APEX_OUTPUT_JSON;
+                SET_OPTION(output_format, APEX_OUTPUT_JSON);
             } else if (strcmp(argv[i], "json-filtered") == 0 || strcmp(argv[i], "ast-json") == 0 || strcmp(argv[i], "ast") == 0) {
-                options.output_format = APEX_OUTPUT_JSON_FILTERED;
+                SET_OPTION(output_format, APEX_OUTPUT_JSON_FILTERED);
             } else if (strcmp(argv[i], "markdown") == 0 || strcmp(argv[i], "md") == 0) {
-                options.output_format = APEX_OUTPUT_MARKDOWN;
+                SET_OPTION(output_format, APEX_OUTPUT_MARKDOWN);
             } else if (strcmp(argv[i], "mmd") == 0) {
-                options.output_format = APEX_OUTPUT_MMD;
+                SET_OPTION(output_format, APEX_OUTPUT_MMD);
             } else if (strcmp(argv[i], "commonmark") == 0 || strcmp(argv[i], "cmark") == 0) {
-                options.output_format = APEX_OUTPUT_COMMONMARK;
+                SET_OPTION(output_format, APEX_OUTPUT_COMMONMARK);
             } else if (strcmp(argv[i], "kramdown") == 0) {
-                options.output_format = APEX_OUTPUT_KRAMDOWN;
+                SET_OPTION(output_format, APEX_OUTPUT_KRAMDOWN);
             } else if (strcmp(argv[i], "gfm") == 0) {
-                options.output_format = APEX_OUTPUT_GFM;
+                SET_OPTION(output_format, APEX_OUTPUT_GFM);
             } else if (strcmp(argv[i], "terminal") == 0 || strcmp(argv[i], "cli") == 0) {
-                options.output_format = APEX_OUTPUT_TERMINAL;
+                SET_OPTION(output_format, APEX_OUTPUT_TERMINAL);
             } else if (strcmp(argv[i], "terminal256") == 0) {
-                options.output_format = APEX_OUTPUT_TERMINAL256;
+                SET_OPTION(output_format, APEX_OUTPUT_TERMINAL256);
             } else if (strcmp(argv[i], "man") == 0) {
-                options.output_format = APEX_OUTPUT_MAN;
+                SET_OPTION(output_format, APEX_OUTPUT_MAN);
             } else if (strcmp(argv[i], "man-html") == 0) {
-                options.output_format = APEX_OUTPUT_MAN_HTML;
+                SET_OPTION(output_format, APEX_OUTPUT_MAN_HTML);
             } else {
                 fprintf(stderr, "Error: Unknown output format '%s'\n", argv[i]);
                 fprintf(stderr, "Supported formats: html, json, json-filtered/ast-json/ast, markdown/md, mmd, commonmark/cmark, kramdown, gfm, terminal/cli, terminal256, man, man-html\n");
@@ -1511,7 +1607,7 @@ int main(int argc, char *argv[]) {
                 fprintf(stderr, "Error: --theme requires a name argument\n");
                 return 1;
             }
-            options.theme_name = argv[i];
+            SET_OPTION(theme_name, argv[i]);
         } else if (strcmp(argv[i], "--width") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: --width requires a column width argument\n");
@@ -1528,11 +1624,11 @@ int main(int argc, char *argv[]) {
             }
             output_file = argv[i];
         } else if (strcmp(argv[i], "--plugins") == 0) {
-            options.enable_plugins = true;
+            SET_OPTION(enable_plugins, true);
             plugins_cli_override = true;
             plugins_cli_value = true;
         } else if (strcmp(argv[i], "--no-plugins") == 0) {
-            options.enable_plugins = false;
+            SET_OPTION(enable_plugins, false);
             plugins_cli_override = true;
             plugins_cli_value = false;
         } else if (strcmp(argv[i], "--list-plugins") == 0) {
@@ -1613,27 +1709,27 @@ int main(int argc, char *argv[]) {
             }
             uninstall_plugin_id = argv[i];
         } else if (strcmp(argv[i], "--no-tables") == 0) {
-            options.enable_tables = false;
+            SET_OPTION(enable_tables, false);
         } else if (strcmp(argv[i], "--no-footnotes") == 0) {
-            options.enable_footnotes = false;
+            SET_OPTION(enable_footnotes, false);
         } else if (strcmp(argv[i], "--no-smart") == 0) {
-            options.enable_smart_typography = false;
+            SET_OPTION(enable_smart_typography, false);
         } else if (strcmp(argv[i], "--no-math") == 0) {
-            options.enable_math = false;
+            SET_OPTION(enable_math, false);
         } else if (strcmp(argv[i], "--includes") == 0) {
-            options.enable_file_includes = true;
+            SET_OPTION(enable_file_includes, true);
         } else if (strcmp(argv[i], "--no-includes") == 0) {
-            options.enable_file_includes = false;
+            SET_OPTION(enable_file_includes, false);
         } else if (strcmp(argv[i], "--hardbreaks") == 0) {
-            options.hardbreaks = true;
+            SET_OPTION(hardbreaks, true);
         } else if (strcmp(argv[i], "-s") == 0 || strcmp(argv[i], "--standalone") == 0) {
-            options.standalone = true;
+            SET_OPTION(standalone, true);
         } else if (strcmp(argv[i], "--css") == 0 || strcmp(argv[i], "--style") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: %s requires an argument\n", argv[i-1]);
                 return 1;
             }
-            options.standalone = true;  /* Imply standalone if CSS is specified */
+            SET_OPTION(standalone, true);  /* Imply standalone if CSS is specified */
 
             /* Parse comma-separated stylesheet paths */
             const char *arg = argv[i];
@@ -1697,7 +1793,7 @@ int main(int argc, char *argv[]) {
                 }
             }
         } else if (strcmp(argv[i], "--embed-css") == 0) {
-            options.embed_stylesheet = true;
+            SET_OPTION(embed_stylesheet, true);
         } else if (strcmp(argv[i], "--script") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: --script requires an argument\n");
@@ -1808,51 +1904,51 @@ int main(int argc, char *argv[]) {
                 fprintf(stderr, "Error: --title requires an argument\n");
                 return 1;
             }
-            options.document_title = argv[i];
+            SET_OPTION(document_title, argv[i]);
         } else if (strcmp(argv[i], "--pretty") == 0) {
-            options.pretty = true;
+            SET_OPTION(pretty, true);
         } else if (strcmp(argv[i], "--accept") == 0) {
-            options.enable_critic_markup = true;
-            options.critic_mode = 0;  /* CRITIC_ACCEPT */
+            SET_OPTION(enable_critic_markup, true);
+            SET_OPTION(critic_mode, 0);  /* CRITIC_ACCEPT */
         } else if (strcmp(argv[i], "--reject") == 0) {
-            options.enable_critic_markup = true;
-            options.critic_mode = 1;  /* CRITIC_REJECT */
+            SET_OPTION(enable_critic_markup, true);
+            SET_OPTION(critic_mode, 1);  /* CRITIC_REJECT */
         } else if (strcmp(argv[i], "--id-format") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: --id-format requires an argument (gfm, mmd, or kramdown)\n");
                 return 1;
             }
             if (strcmp(argv[i], "gfm") == 0) {
-                options.id_format = 0;  /* GFM format */
+                SET_OPTION(id_format, 0);  /* GFM format */
             } else if (strcmp(argv[i], "mmd") == 0) {
-                options.id_format = 1;  /* MMD format */
+                SET_OPTION(id_format, 1);  /* MMD format */
             } else if (strcmp(argv[i], "kramdown") == 0) {
-                options.id_format = 2;  /* Kramdown format */
+                SET_OPTION(id_format, 2);  /* Kramdown format */
             } else {
                 fprintf(stderr, "Error: --id-format must be 'gfm', 'mmd', or 'kramdown'\n");
                 return 1;
             }
         } else if (strcmp(argv[i], "--no-ids") == 0) {
-            options.generate_header_ids = false;
+            SET_OPTION(generate_header_ids, false);
         } else if (strcmp(argv[i], "--header-anchors") == 0) {
-            options.header_anchors = true;
+            SET_OPTION(header_anchors, true);
         } else if (strcmp(argv[i], "--relaxed-tables") == 0) {
-            options.relaxed_tables = true;
+            SET_OPTION(relaxed_tables, true);
         } else if (strcmp(argv[i], "--no-relaxed-tables") == 0) {
-            options.relaxed_tables = false;
+            SET_OPTION(relaxed_tables, false);
         } else if (strcmp(argv[i], "--per-cell-alignment") == 0) {
-            options.per_cell_alignment = true;
+            SET_OPTION(per_cell_alignment, true);
         } else if (strcmp(argv[i], "--no-per-cell-alignment") == 0) {
-            options.per_cell_alignment = false;
+            SET_OPTION(per_cell_alignment, false);
         } else if (strcmp(argv[i], "--captions") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: --captions requires an argument (above or below)\n");
                 return 1;
             }
             if (strcmp(argv[i], "above") == 0) {
-                options.caption_position = 0;
+                SET_OPTION(caption_position, 0);
             } else if (strcmp(argv[i], "below") == 0) {
-                options.caption_position = 1;
+                SET_OPTION(caption_position, 1);
             } else {
                 fprintf(stderr, "Error: --captions must be 'above' or 'below'\n");
                 return 1;
@@ -1864,107 +1960,107 @@ int main(int argc, char *argv[]) {
             }
             /* Accept full names and abbreviations */
             if (strcmp(argv[i], "pygments") == 0 || strcmp(argv[i], "p") == 0 || strcmp(argv[i], "pyg") == 0) {
-                options.code_highlighter = "pygments";
+                SET_OPTION(code_highlighter, "pygments");
             } else if (strcmp(argv[i], "skylighting") == 0 || strcmp(argv[i], "s") == 0 || strcmp(argv[i], "sky") == 0) {
-                options.code_highlighter = "skylighting";
+                SET_OPTION(code_highlighter, "skylighting");
             } else if (strcmp(argv[i], "shiki") == 0 || strcmp(argv[i], "sh") == 0) {
-                options.code_highlighter = "shiki";
+                SET_OPTION(code_highlighter, "shiki");
             } else {
                 fprintf(stderr, "Error: --code-highlight tool must be 'pygments' (p), 'skylighting' (s), or 'shiki' (sh)\n");
                 return 1;
             }
         } else if (strcmp(argv[i], "--code-line-numbers") == 0) {
-            options.code_line_numbers = true;
+            SET_OPTION(code_line_numbers, true);
         } else if (strcmp(argv[i], "--highlight-language-only") == 0) {
-            options.highlight_language_only = true;
+            SET_OPTION(highlight_language_only, true);
         } else if (strcmp(argv[i], "--alpha-lists") == 0) {
-            options.allow_alpha_lists = true;
+            SET_OPTION(allow_alpha_lists, true);
         } else if (strcmp(argv[i], "--no-alpha-lists") == 0) {
-            options.allow_alpha_lists = false;
+            SET_OPTION(allow_alpha_lists, false);
         } else if (strcmp(argv[i], "--mixed-lists") == 0) {
-            options.allow_mixed_list_markers = true;
+            SET_OPTION(allow_mixed_list_markers, true);
         } else if (strcmp(argv[i], "--no-mixed-lists") == 0) {
-            options.allow_mixed_list_markers = false;
+            SET_OPTION(allow_mixed_list_markers, false);
         } else if (strcmp(argv[i], "--unsafe") == 0) {
-            options.unsafe = true;
+            SET_OPTION(unsafe, true);
         } else if (strcmp(argv[i], "--no-unsafe") == 0) {
-            options.unsafe = false;
+            SET_OPTION(unsafe, false);
         } else if (strcmp(argv[i], "--sup-sub") == 0) {
-            options.enable_sup_sub = true;
+            SET_OPTION(enable_sup_sub, true);
         } else if (strcmp(argv[i], "--no-sup-sub") == 0) {
-            options.enable_sup_sub = false;
+            SET_OPTION(enable_sup_sub, false);
         } else if (strcmp(argv[i], "--divs") == 0) {
-            options.enable_divs = true;
+            SET_OPTION(enable_divs, true);
         } else if (strcmp(argv[i], "--no-divs") == 0) {
-            options.enable_divs = false;
+            SET_OPTION(enable_divs, false);
         } else if (strcmp(argv[i], "--spans") == 0) {
-            options.enable_spans = true;
+            SET_OPTION(enable_spans, true);
         } else if (strcmp(argv[i], "--no-spans") == 0) {
-            options.enable_spans = false;
+            SET_OPTION(enable_spans, false);
         } else if (strcmp(argv[i], "--autolink") == 0) {
-            options.enable_autolink = true;
+            SET_OPTION(enable_autolink, true);
         } else if (strcmp(argv[i], "--no-autolink") == 0) {
-            options.enable_autolink = false;
+            SET_OPTION(enable_autolink, false);
         } else if (strcmp(argv[i], "--strikethrough") == 0) {
-            options.enable_strikethrough = true;
+            SET_OPTION(enable_strikethrough, true);
         } else if (strcmp(argv[i], "--no-strikethrough") == 0) {
-            options.enable_strikethrough = false;
+            SET_OPTION(enable_strikethrough, false);
         } else if (strcmp(argv[i], "--obfuscate-emails") == 0) {
-            options.obfuscate_emails = true;
+            SET_OPTION(obfuscate_emails, true);
         } else if (strcmp(argv[i], "--progress") == 0) {
             progress_enabled = true;
         } else if (strcmp(argv[i], "--no-progress") == 0) {
             progress_enabled = false;
         } else if (strcmp(argv[i], "--aria") == 0) {
-            options.enable_aria = true;
+            SET_OPTION(enable_aria, true);
         } else if (strcmp(argv[i], "--no-plugins") == 0) {
-            options.enable_plugins = false;
+            SET_OPTION(enable_plugins, false);
         } else if (strcmp(argv[i], "--wikilinks") == 0) {
-            options.enable_wiki_links = true;
+            SET_OPTION(enable_wiki_links, true);
         } else if (strcmp(argv[i], "--no-wikilinks") == 0) {
-            options.enable_wiki_links = false;
+            SET_OPTION(enable_wiki_links, false);
         } else if (strcmp(argv[i], "--emoji-autocorrect") == 0) {
-            options.enable_emoji_autocorrect = true;
+            SET_OPTION(enable_emoji_autocorrect, true);
         } else if (strcmp(argv[i], "--no-emoji-autocorrect") == 0) {
-            options.enable_emoji_autocorrect = false;
+            SET_OPTION(enable_emoji_autocorrect, false);
         } else if (strcmp(argv[i], "--widont") == 0) {
-            options.enable_widont = true;
+            SET_OPTION(enable_widont, true);
         } else if (strcmp(argv[i], "--code-is-poetry") == 0) {
-            options.code_is_poetry = true;
-            options.highlight_language_only = true;
+            SET_OPTION(code_is_poetry, true);
+            SET_OPTION(highlight_language_only, true);
         } else if (strcmp(argv[i], "--markdown-in-html") == 0) {
-            options.enable_markdown_in_html = true;
+            SET_OPTION(enable_markdown_in_html, true);
         } else if (strcmp(argv[i], "--no-markdown-in-html") == 0) {
-            options.enable_markdown_in_html = false;
+            SET_OPTION(enable_markdown_in_html, false);
         } else if (strcmp(argv[i], "--random-footnote-ids") == 0) {
-            options.random_footnote_ids = true;
+            SET_OPTION(random_footnote_ids, true);
         } else if (strcmp(argv[i], "--hashtags") == 0) {
-            options.enable_hashtags = true;
+            SET_OPTION(enable_hashtags, true);
         } else if (strcmp(argv[i], "--style-hashtags") == 0) {
-            options.style_hashtags = true;
+            SET_OPTION(style_hashtags, true);
         } else if (strcmp(argv[i], "--proofreader") == 0) {
-            options.proofreader_mode = true;
-            options.enable_critic_markup = true;
-            options.critic_mode = 2;  /* Ensure markup mode */
+            SET_OPTION(proofreader_mode, true);
+            SET_OPTION(enable_critic_markup, true);
+            SET_OPTION(critic_mode, 2);  /* Ensure markup mode */
         } else if (strcmp(argv[i], "--hr-page-break") == 0) {
-            options.hr_page_break = true;
+            SET_OPTION(hr_page_break, true);
         } else if (strcmp(argv[i], "--title-from-h1") == 0) {
-            options.title_from_h1 = true;
+            SET_OPTION(title_from_h1, true);
         } else if (strcmp(argv[i], "--page-break-before-footnotes") == 0) {
-            options.page_break_before_footnotes = true;
+            SET_OPTION(page_break_before_footnotes, true);
         } else if (strcmp(argv[i], "--wikilink-space") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: --wikilink-space requires an argument (dash, none, underscore, or space)\n");
                 return 1;
             }
             if (strcmp(argv[i], "dash") == 0) {
-                options.wikilink_space = 0;
+                SET_OPTION(wikilink_space, 0);
             } else if (strcmp(argv[i], "none") == 0) {
-                options.wikilink_space = 1;
+                SET_OPTION(wikilink_space, 1);
             } else if (strcmp(argv[i], "underscore") == 0) {
-                options.wikilink_space = 2;
+                SET_OPTION(wikilink_space, 2);
             } else if (strcmp(argv[i], "space") == 0) {
-                options.wikilink_space = 3;
+                SET_OPTION(wikilink_space, 3);
             } else {
                 fprintf(stderr, "Error: --wikilink-space must be one of: dash, none, underscore, space\n");
                 return 1;
@@ -1974,32 +2070,32 @@ int main(int argc, char *argv[]) {
                 fprintf(stderr, "Error: --wikilink-extension requires an argument\n");
                 return 1;
             }
-            options.wikilink_extension = argv[i];
+            SET_OPTION(wikilink_extension, argv[i]);
         } else if (strcmp(argv[i], "--wikilink-sanitize") == 0) {
-            options.wikilink_sanitize = true;
+            SET_OPTION(wikilink_sanitize, true);
         } else if (strcmp(argv[i], "--no-wikilink-sanitize") == 0) {
-            options.wikilink_sanitize = false;
+            SET_OPTION(wikilink_sanitize, false);
         } else if (strcmp(argv[i], "--transforms") == 0) {
-            options.enable_metadata_transforms = true;
+            SET_OPTION(enable_metadata_transforms, true);
         } else if (strcmp(argv[i], "--no-transforms") == 0) {
-            options.enable_metadata_transforms = false;
+            SET_OPTION(enable_metadata_transforms, false);
         } else if (strcmp(argv[i], "--embed-images") == 0) {
-            options.embed_images = true;
+            SET_OPTION(embed_images, true);
         } else if (strcmp(argv[i], "--image-captions") == 0) {
-            options.enable_image_captions = true;
+            SET_OPTION(enable_image_captions, true);
         } else if (strcmp(argv[i], "--no-image-captions") == 0) {
-            options.enable_image_captions = false;
+            SET_OPTION(enable_image_captions, false);
         } else if (strcmp(argv[i], "--title-captions-only") == 0) {
-            options.title_captions_only = true;
-            options.enable_image_captions = true;  /* implied when title-captions-only is set */
+            SET_OPTION(title_captions_only, true);
+            SET_OPTION(enable_image_captions, true);  /* implied when title-captions-only is set */
         } else if (strcmp(argv[i], "--no-title-captions-only") == 0) {
-            options.title_captions_only = false;
+            SET_OPTION(title_captions_only, false);
         } else if (strcmp(argv[i], "--base-dir") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: --base-dir requires an argument\n");
                 return 1;
             }
-            options.base_directory = argv[i];
+            SET_OPTION(base_directory, argv[i]);
         } else if (strcmp(argv[i], "--bibliography") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: --bibliography requires an argument\n");
@@ -2022,29 +2118,29 @@ int main(int argc, char *argv[]) {
                 bibliography_files = new_files;
             }
             bibliography_files[bibliography_count++] = argv[i];
-            options.enable_citations = true;  /* Enable citations when bibliography is provided */
+            SET_OPTION(enable_citations, true);  /* Enable citations when bibliography is provided */
         } else if (strcmp(argv[i], "--csl") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: --csl requires an argument\n");
                 return 1;
             }
-            options.csl_file = argv[i];
-            options.enable_citations = true;  /* Enable citations when CSL is provided */
+            SET_OPTION(csl_file, argv[i]);
+            SET_OPTION(enable_citations, true);  /* Enable citations when CSL is provided */
         } else if (strcmp(argv[i], "--no-bibliography") == 0) {
-            options.suppress_bibliography = true;
+            SET_OPTION(suppress_bibliography, true);
         } else if (strcmp(argv[i], "--link-citations") == 0) {
-            options.link_citations = true;
+            SET_OPTION(link_citations, true);
         } else if (strcmp(argv[i], "--show-tooltips") == 0) {
-            options.show_tooltips = true;
+            SET_OPTION(show_tooltips, true);
         } else if (strcmp(argv[i], "--indices") == 0) {
-            options.enable_indices = true;
-            options.enable_mmark_index_syntax = true;
-            options.enable_textindex_syntax = true;
-            options.enable_leanpub_index_syntax = true;
+            SET_OPTION(enable_indices, true);
+            SET_OPTION(enable_mmark_index_syntax, true);
+            SET_OPTION(enable_textindex_syntax, true);
+            SET_OPTION(enable_leanpub_index_syntax, true);
         } else if (strcmp(argv[i], "--no-indices") == 0) {
-            options.enable_indices = false;
+            SET_OPTION(enable_indices, false);
         } else if (strcmp(argv[i], "--no-index") == 0) {
-            options.suppress_index = true;
+            SET_OPTION(suppress_index, true);
         } else if (strcmp(argv[i], "--meta-file") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: --meta-file requires an argument\n");
@@ -3151,11 +3247,7 @@ int main(int argc, char *argv[]) {
             /* Add all merged metadata */
             apex_metadata_item *item = merged_metadata;
             while (item) {
-                /* Escape value if it contains special characters */
-                bool needs_quotes = strchr(item->value, ':') || strchr(item->value, '\n') ||
-                                    strchr(item->value, '"') || strchr(item->value, '\\');
-
-                size_t needed = strlen(item->key) + strlen(item->value) + (needs_quotes ? 4 : 0) + 10;
+                size_t needed = strlen(item->key) + strlen(item->value) * 4 + 16;
                 if (yaml_pos + needed >= yaml_size) {
                     yaml_size = (yaml_pos + needed) * 2;
                     char *new_buf = realloc(yaml_buf, yaml_size);
@@ -3167,13 +3259,11 @@ int main(int argc, char *argv[]) {
                     yaml_buf = new_buf;
                 }
 
-                if (needs_quotes) {
-                    int written = snprintf(yaml_buf + yaml_pos, yaml_size - yaml_pos, "%s: \"%s\"\n", item->key, item->value);
-                    if (written > 0) yaml_pos += written;
-                } else {
-                    int written = snprintf(yaml_buf + yaml_pos, yaml_size - yaml_pos, "%s: %s\n", item->key, item->value);
-                    if (written > 0) yaml_pos += written;
-                }
+                char *w = yaml_buf + yaml_pos;
+                w += sprintf(w, "%s: ", item->key);
+                w = apex_cli_write_yaml_scalar(w, item->value);
+                *w++ = '\n';
+                yaml_pos = (size_t)(w - yaml_buf);
                 item = item->next;
             }
 
@@ -3245,13 +3335,29 @@ int main(int argc, char *argv[]) {
     /* Apply metadata to options - allows per-document control of command-line options */
     /* Note: Bibliography file loading from metadata will be handled in citations extension */
     if (merged_metadata) {
+        const char *input_base_directory = options.base_directory;
+        const char *input_file_path = options.input_file_path;
+        apex_options flag_options = options;
+        if (mode_name) {
+            for (apex_metadata_item *item = merged_metadata; item; item = item->next) {
+                if (strcasecmp(item->key, "mode") == 0) {
+                    free(item->value);
+                    item->value = strdup(mode_name);
+                }
+            }
+        }
         apex_apply_metadata_to_options(merged_metadata, &options);
-        /* Restore bibliography files if they were lost (e.g., if mode was set in metadata) */
-        if (saved_bibliography_files && !options.bibliography_files) {
+        /* A mode in the metadata does not change where the input comes from */
+        if (!options.base_directory) options.base_directory = input_base_directory;
+        if (!options.input_file_path) options.input_file_path = input_file_path;
+        /* Explicit flags override metadata */
+        for (size_t i = 0; i < sizeof(options); i++) {
+            if (option_set[i]) ((unsigned char *)&options)[i] = ((unsigned char *)&flag_options)[i];
+        }
+        if (saved_bibliography_files) {
             options.bibliography_files = saved_bibliography_files;
         }
-        /* Restore stylesheet files if they were lost (e.g., if mode was set in metadata) */
-        if (saved_stylesheet_files && !options.stylesheet_paths) {
+        if (saved_stylesheet_files) {
             options.stylesheet_paths = (const char **)saved_stylesheet_files;
             options.stylesheet_count = stylesheet_count;
         }
@@ -3313,6 +3419,9 @@ int main(int argc, char *argv[]) {
                 if (stat(path, &st) != 0 || !S_ISREG(st.st_mode)) {
                     continue;
                 }
+                if (access(path, X_OK) != 0 && !apex_cli_is_lua(path)) {
+                    continue;
+                }
                 if (ast_filter_count == capacity) {
                     capacity *= 2;
                     char **tmp = realloc(ast_filter_commands, capacity * sizeof(char *));
@@ -3332,6 +3441,17 @@ int main(int argc, char *argv[]) {
                 ast_filter_count++;
             }
             closedir(d);
+
+            qsort(ast_filter_commands, ast_filter_count, sizeof(char *), apex_cli_compare_paths);
+            for (size_t i = 0; i < ast_filter_count; i++) {
+                char *path = ast_filter_commands[i];
+                ast_filter_commands[i] = apex_cli_filter_command(path, apex_cli_is_lua(path));
+                free(path);
+                if (!ast_filter_commands[i]) {
+                    fprintf(stderr, "Error: Memory allocation failed\n");
+                    return 1;
+                }
+            }
         }
 
         /* Resolve individual --filter NAME entries to absolute paths.
@@ -3431,16 +3551,8 @@ int main(int argc, char *argv[]) {
                     return 1;
                 }
 
-                /* Lua scripts without shebang: run via `lua "path"` */
-                size_t rlen = strlen(resolved);
-                int is_lua = (rlen > 4 && strcmp(resolved + rlen - 4, ".lua") == 0);
-                if (is_lua) {
-                    char cmd[1400];
-                    snprintf(cmd, sizeof(cmd), "lua \"%s\"", resolved);
-                    ast_filter_commands[ast_filter_count] = strdup(cmd);
-                } else {
-                    ast_filter_commands[ast_filter_count] = strdup(resolved);
-                }
+                /* Lua scripts without shebang: run via `lua path` */
+                ast_filter_commands[ast_filter_count] = apex_cli_filter_command(resolved, apex_cli_is_lua(resolved));
                 if (!ast_filter_commands[ast_filter_count]) {
                     fprintf(stderr, "Error: Memory allocation failed\n");
                     return 1;
@@ -3469,10 +3581,7 @@ int main(int argc, char *argv[]) {
 
             for (size_t i = 0; i < lua_filter_count; i++) {
                 const char *script = lua_filter_paths[i];
-                /* Build a simple 'lua "<script>"' command */
-                char cmd[1400];
-                snprintf(cmd, sizeof(cmd), "lua \"%s\"", script);
-                ast_filter_commands[ast_filter_count] = strdup(cmd);
+                ast_filter_commands[ast_filter_count] = apex_cli_filter_command(script, true);
                 if (!ast_filter_commands[ast_filter_count]) {
                     fprintf(stderr, "Error: Memory allocation failed\n");
                     return 1;
@@ -3503,6 +3612,11 @@ int main(int argc, char *argv[]) {
     /* Use enhanced markdown if we created it, otherwise use original */
     char *final_markdown = enhanced_markdown ? enhanced_markdown : markdown;
     size_t final_len = enhanced_markdown ? enhanced_len : input_len;
+    if (options.mode == APEX_MODE_COMMONMARK || options.mode == APEX_MODE_GFM) {
+        /* No metadata in these modes: front matter would be rendered as text */
+        final_markdown = markdown + doc_metadata_end;
+        final_len = input_len - doc_metadata_end;
+    }
 
     /* Set progress callback if enabled */
     if (progress_enabled) {
-- 
2.43.0


From 9aaf95c1b42e6ebb8289eca3d55b0f99385d3116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:30 +0000
Subject: [PATCH 53/66] fix: the remote directory is read as JSON

---
 src/plugins_remote.c | 210 ++++++++++++++++++++++++++++++-------------
 1 file changed, 149 insertions(+), 61 deletions(-)

diff --git a/src/plugins_remote.c b/src/plugins_remote.c
index c634ce6..bb8a5dc 100644
--- a/src/plugins_remote.c
+++ b/src/plugins_remote.c
@@ -12,6 +12,7 @@ typedef struct apex_remote_plugin {
     char *author;
     char *homepage;
     char *repo;
+    char *path;         /* single file of the repo to install, if any */
     struct apex_remote_plugin *next;
 } apex_remote_plugin;
 
@@ -30,6 +31,7 @@ void apex_remote_free_plugins(apex_remote_plugin_list *list) {
         free(p->author);
         free(p->homepage);
         free(p->repo);
+        free(p->path);
         free(p);
         p = next;
     }
@@ -82,49 +84,149 @@ char *apex_remote_fetch_json(const char *url) {
     return buf;
 }
 
-/* Very small JSON helper: extract string value for a key from an object snippet.
- * Assumes JSON is well-formed and keys/values are double-quoted.
+/* Very small JSON helpers. They walk well-formed JSON and return NULL when the
+ * text ends or stops making sense before the value does.
  */
-char *apex_remote_extract_string(const char *obj, const char *key) {
-    if (!obj || !key) return NULL;
-    char pattern[128];
-    snprintf(pattern, sizeof(pattern), "\"%s\"", key);
-    const char *p = strstr(obj, pattern);
-    if (!p) return NULL;
-    p = strchr(p + strlen(pattern), ':');
-    if (!p) return NULL;
-    p++;
-    while (*p == ' ' || *p == '\t') p++;
-    if (*p != '\"') return NULL;
-    p++;
-    const char *start = p;
-    while (*p && *p != '\"') {
-        if (*p == '\\' && p[1] != '\0') {
-            p += 2;
-        } else {
-            p++;
+static const char *json_skip_space(const char *p) {
+    while (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r') p++;
+    return p;
+}
+
+/* p at the opening quote; returns the position after the closing one */
+static const char *json_skip_string(const char *p) {
+    for (p++; *p && *p != '"'; p++) {
+        if (*p == '\\' && p[1] != '\0') p++;
+    }
+    return *p == '"' ? p + 1 : NULL;
+}
+
+/* Returns the position after the value at p */
+static const char *json_skip_value(const char *p) {
+    if (*p == '"') return json_skip_string(p);
+    if (*p != '{' && *p != '[') {
+        const char *start = p;
+        while (*p && !strchr(",]} \t\n\r", *p)) p++;
+        return p > start ? p : NULL;
+    }
+    int depth = 0;
+    while (*p) {
+        if (*p == '"') {
+            p = json_skip_string(p);
+            if (!p) return NULL;
+            continue;
         }
+        if (*p == '{' || *p == '[') depth++;
+        else if (*p == '}' || *p == ']') depth--;
+        p++;
+        if (depth == 0) return p;
     }
-    if (*p != '\"') return NULL;
-    size_t len = (size_t)(p - start);
-    char *out = malloc(len + 1);
+    return NULL;
+}
+
+/* Reads four hex digits; returns -1 if they are not there */
+static int json_hex4(const char *p) {
+    int v = 0;
+    for (int i = 0; i < 4; i++) {
+        char c = p[i];
+        int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
+        if (d < 0) return -1;
+        v = v * 16 + d;
+    }
+    return v;
+}
+
+/* Decodes the string whose opening quote is at p. Returns malloc'd text or NULL. */
+static char *json_decode_string(const char *p) {
+    const char *end = json_skip_string(p);
+    if (!end) return NULL;
+    char *out = malloc((size_t)(end - p));
     if (!out) return NULL;
-    memcpy(out, start, len);
-    out[len] = '\0';
+    char *w = out;
+    for (p++; p < end - 1; p++) {
+        if (*p != '\\') {
+            *w++ = *p;
+            continue;
+        }
+        p++;
+        if (*p == 'u') {
+            int v = json_hex4(p + 1);
+            if (v <= 0) {
+                free(out);
+                return NULL;
+            }
+            p += 4;
+            if (v >= 0xD800 && v < 0xDC00 && p[1] == '\\' && p[2] == 'u') {
+                int low = json_hex4(p + 3);
+                if (low >= 0xDC00 && low < 0xE000) {
+                    v = 0x10000 + ((v - 0xD800) << 10) + (low - 0xDC00);
+                    p += 6;
+                }
+            }
+            if (v < 0x80) {
+                *w++ = (char)v;
+            } else if (v < 0x800) {
+                *w++ = (char)(0xC0 | (v >> 6));
+                *w++ = (char)(0x80 | (v & 0x3F));
+            } else if (v < 0x10000) {
+                *w++ = (char)(0xE0 | (v >> 12));
+                *w++ = (char)(0x80 | ((v >> 6) & 0x3F));
+                *w++ = (char)(0x80 | (v & 0x3F));
+            } else {
+                *w++ = (char)(0xF0 | (v >> 18));
+                *w++ = (char)(0x80 | ((v >> 12) & 0x3F));
+                *w++ = (char)(0x80 | ((v >> 6) & 0x3F));
+                *w++ = (char)(0x80 | (v & 0x3F));
+            }
+        } else {
+            *w++ = *p == 'n' ? '\n' : *p == 't' ? '\t' : *p == 'r' ? '\r' : *p == 'b' ? '\b' : *p == 'f' ? '\f' : *p;
+        }
+    }
+    *w = '\0';
     return out;
 }
 
-/* Parse array of objects from JSON; array_key is e.g. "\"plugins\"" or "\"filters\"" */
+/* Finds the value of a member of the object starting at obj. Returns NULL if
+ * the object has no such member.
+ */
+static const char *json_member(const char *obj, const char *key) {
+    const char *p = json_skip_space(obj);
+    if (*p != '{') return NULL;
+    p = json_skip_space(p + 1);
+    while (*p == '"') {
+        char *name = json_decode_string(p);
+        p = json_skip_string(p);
+        int match = name && strcmp(name, key) == 0;
+        free(name);
+        if (!p) return NULL;
+        p = json_skip_space(p);
+        if (*p != ':') return NULL;
+        p = json_skip_space(p + 1);
+        if (match) return p;
+        p = json_skip_value(p);
+        if (!p) return NULL;
+        p = json_skip_space(p);
+        if (*p == ',') p = json_skip_space(p + 1);
+    }
+    return NULL;
+}
+
+/* Extract the string value of a member of the object starting at obj. */
+char *apex_remote_extract_string(const char *obj, const char *key) {
+    if (!obj || !key) return NULL;
+    const char *p = json_member(obj, key);
+    return p && *p == '"' ? json_decode_string(p) : NULL;
+}
+
+/* Parse array of objects from JSON; array_key is e.g. "plugins" or "filters" */
 static apex_remote_plugin_list *apex_remote_parse_array(const char *json, const char *array_key) {
     if (!json || !array_key) return NULL;
-    const char *p = strstr(json, array_key);
-    if (!p) return NULL;
-    p = strchr(p, '[');
-    if (!p) return NULL;
+    const char *p = json_member(json, array_key);
+    if (!p || *p != '[') return NULL;
     p++; /* move past '[' */
 
     apex_remote_plugin_list *list = calloc(1, sizeof(apex_remote_plugin_list));
     if (!list) return NULL;
+    apex_remote_plugin **tail = &list->head;
 
     while (*p) {
         while (*p && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r' || *p == ',')) p++;
@@ -132,35 +234,15 @@ static apex_remote_plugin_list *apex_remote_parse_array(const char *json, const
         if (*p != '{') {
             break;
         }
-        const char *obj_start = p;
-        int depth = 0;
-        while (*p) {
-            if (*p == '{') depth++;
-            else if (*p == '}') {
-                depth--;
-                if (depth == 0) {
-                    p++;
-                    break;
-                }
-            }
-            p++;
-        }
-        if (depth != 0) {
+        const char *obj = p;
+        p = json_skip_value(p);
+        if (!p) {
             apex_remote_free_plugins(list);
             return NULL;
         }
-        size_t obj_len = (size_t)(p - obj_start);
-        char *obj = malloc(obj_len + 1);
-        if (!obj) {
-            apex_remote_free_plugins(list);
-            return NULL;
-        }
-        memcpy(obj, obj_start, obj_len);
-        obj[obj_len] = '\0';
 
         apex_remote_plugin *rp = calloc(1, sizeof(apex_remote_plugin));
         if (!rp) {
-            free(obj);
             apex_remote_free_plugins(list);
             return NULL;
         }
@@ -170,7 +252,7 @@ static apex_remote_plugin_list *apex_remote_parse_array(const char *json, const
         rp->author = apex_remote_extract_string(obj, "author");
         rp->homepage = apex_remote_extract_string(obj, "homepage");
         rp->repo = apex_remote_extract_string(obj, "repo");
-        free(obj);
+        rp->path = apex_remote_extract_string(obj, "path");
 
         if (!rp->id || !rp->repo) {
             /* id and repo are required for use; drop this entry */
@@ -180,12 +262,14 @@ static apex_remote_plugin_list *apex_remote_parse_array(const char *json, const
             free(rp->author);
             free(rp->homepage);
             free(rp->repo);
+            free(rp->path);
             free(rp);
             continue;
         }
 
-        rp->next = list->head;
-        list->head = rp;
+        /* Append to keep the order of the directory */
+        *tail = rp;
+        tail = &rp->next;
     }
 
     return list;
@@ -194,22 +278,21 @@ static apex_remote_plugin_list *apex_remote_parse_array(const char *json, const
 /* Parse { \"plugins\": [ ... ] } */
 static apex_remote_plugin_list *apex_remote_parse_directory(const char *json) {
     if (!json) return NULL;
-    if (!strstr(json, "\"plugins\"")) {
+    if (!json_member(json, "plugins")) {
         fprintf(stderr, "Error: plugin directory JSON missing \"plugins\" key.\n");
         return NULL;
     }
-    return apex_remote_parse_array(json, "\"plugins\"");
+    return apex_remote_parse_array(json, "plugins");
 }
 
 /* Parse { \"filters\": [ ... ] } - same shape as plugins (id, title, description, author, homepage, repo) */
 static apex_remote_plugin_list *apex_remote_parse_filters_directory(const char *json) {
     if (!json) return NULL;
-    const char *p = strstr(json, "\"filters\"");
-    if (!p) {
+    if (!json_member(json, "filters")) {
         fprintf(stderr, "Error: filter directory JSON missing \"filters\" key.\n");
         return NULL;
     }
-    return apex_remote_parse_array(json, "\"filters\"");
+    return apex_remote_parse_array(json, "filters");
 }
 
 /* Public helpers used by CLI */
@@ -287,3 +370,8 @@ const char *apex_remote_plugin_repo(apex_remote_plugin *p) {
     return p->repo;
 }
 
+
+const char *apex_remote_plugin_path(apex_remote_plugin *p) {
+    if (!p) return NULL;
+    return p->path;
+}
-- 
2.43.0


From a8f0ba6cfd994d0efaff20ee5a5913dc5ac3b517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:30 +0000
Subject: [PATCH 54/66] fix: installing and removing plugins and filters
 touches only the entry named

---
 cli/main.c | 468 +++++++++++++++++++++++------------------------------
 1 file changed, 205 insertions(+), 263 deletions(-)

diff --git a/cli/main.c b/cli/main.c
index 161547a..6d4f379 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -33,10 +33,7 @@ void apex_remote_print_plugins_filtered(apex_remote_plugin_list *list,
 apex_remote_plugin *apex_remote_find_plugin(apex_remote_plugin_list *list, const char *id);
 void apex_remote_free_plugins(apex_remote_plugin_list *list);
 const char *apex_remote_plugin_repo(apex_remote_plugin *p);
-
-/* Shared JSON helpers used for filters as well */
-char *apex_remote_fetch_json(const char *url);
-char *apex_remote_extract_string(const char *obj, const char *key);
+const char *apex_remote_plugin_path(apex_remote_plugin *p);
 
 /* ------------------------------------------------------------------------- */
 /* Git helpers (mirrored from src/plugins.c for CLI-only use)               */
@@ -829,6 +826,104 @@ static char *wrap_ansi_to_width(const char *input, int width) {
     return out;
 }
 
+/* Whether a plugin or filter name may become a directory entry of its own:
+ * never a path, a hidden entry or something too long for the buffers below.
+ */
+static bool cli_entry_name_ok(const char *name) {
+    return name && *name && *name != '.' && !strchr(name, '/') && strlen(name) < 150;
+}
+
+/* Quote text for the shell. Returns malloc'd string or NULL. */
+static char *cli_shell_quote(const char *arg) {
+    char *out = malloc(strlen(arg) * 4 + 3);
+    if (!out) return NULL;
+    char *w = out;
+    *w++ = '\'';
+    for (const char *p = arg; *p; p++) {
+        if (*p == '\'') {
+            memcpy(w, "'\\''", 4);
+            w += 4;
+        } else {
+            *w++ = *p;
+        }
+    }
+    *w++ = '\'';
+    *w = '\0';
+    return out;
+}
+
+/* Run a command on one or two paths or URLs (the second may be NULL), which the
+ * shell does not interpret. Returns 0 on success.
+ */
+static int cli_run(const char *command, const char *arg1, const char *arg2) {
+    const char *args[] = { arg1, arg2 };
+    size_t len = strlen(command) + 1;
+    char *cmd = strdup(command);
+    for (size_t i = 0; cmd && i < 2 && args[i]; i++) {
+        char *quoted = cli_shell_quote(args[i]);
+        char *grown = quoted ? realloc(cmd, len + strlen(quoted) + 1) : NULL;
+        if (!grown) {
+            free(quoted);
+            free(cmd);
+            return -1;
+        }
+        cmd = grown;
+        cmd[len - 1] = ' ';
+        strcpy(cmd + len, quoted);
+        len += strlen(quoted) + 1;
+        free(quoted);
+    }
+    if (!cmd) return -1;
+    int rc = system(cmd);
+    free(cmd);
+    return rc;
+}
+
+static bool cli_path_exists(const char *path) {
+    struct stat st;
+    return lstat(path, &st) == 0;
+}
+
+/* Directory below the user's configuration in which plugins or filters live:
+ * $XDG_CONFIG_HOME/apex/KIND or ~/.config/apex/KIND. Returns false after
+ * reporting an error.
+ */
+static bool cli_user_root(char *root, size_t size, const char *kind) {
+    const char *xdg = getenv("XDG_CONFIG_HOME");
+    int n;
+    if (xdg && *xdg) {
+        n = snprintf(root, size, "%s/apex/%s", xdg, kind);
+    } else {
+        const char *home = getenv("HOME");
+        if (!home || !*home) {
+            fprintf(stderr, "Error: HOME not set; cannot determine %s directory.\n", kind);
+            return false;
+        }
+        n = snprintf(root, size, "%s/.config/apex/%s", home, kind);
+    }
+    if (n < 0 || (size_t)n >= size) {
+        fprintf(stderr, "Error: path of the %s directory is too long.\n", kind);
+        return false;
+    }
+    return true;
+}
+
+/* Last component of a repository URL without its .git suffix.
+ * Returns malloc'd string or NULL.
+ */
+static char *cli_repo_name(const char *repo) {
+    size_t end = strlen(repo);
+    while (end > 0 && repo[end - 1] == '/') end--;
+    if (end >= 4 && strncmp(repo + end - 4, ".git", 4) == 0) end -= 4;
+    size_t start = end;
+    while (start > 0 && repo[start - 1] != '/' && repo[start - 1] != ':') start--;
+    char *out = malloc(end - start + 1);
+    if (!out) return NULL;
+    memcpy(out, repo + start, end - start);
+    out[end - start] = '\0';
+    return out;
+}
+
 /**
  * Normalize a plugin identifier to a Git repository URL.
  * Returns a newly allocated string that must be freed by caller, or NULL on error.
@@ -866,7 +961,8 @@ static char *normalize_plugin_repo_url(const char *arg) {
         size_t len = strlen(arg);
         char *url = malloc(19 + len + 5); /* "https://github.com/" + arg + ".git" */
         if (!url) return NULL;
-        snprintf(url, 19 + len + 5, "https://github.com/%s.git", arg);
+        bool has_suffix = len > 4 && strcmp(arg + len - 4, ".git") == 0;
+        snprintf(url, 19 + len + 5, "https://github.com/%s%s", arg, has_suffix ? "" : ".git");
         return url;
     }
 
@@ -877,10 +973,10 @@ static char *normalize_plugin_repo_url(const char *arg) {
 /**
  * Extract plugin ID from a cloned repository.
  * Reads plugin.yml or plugin.yaml and extracts the 'id' field.
- * Falls back to the directory name if no manifest is found.
+ * Falls back to the name of the repository if there is no id.
  * Returns a newly allocated string that must be freed by caller.
  */
-static char *extract_plugin_id_from_repo(const char *repo_path) {
+static char *extract_plugin_id_from_repo(const char *repo_path, const char *repo) {
     char manifest[1300];
     snprintf(manifest, sizeof(manifest), "%s/plugin.yml", repo_path);
     FILE *mt = fopen(manifest, "r");
@@ -909,24 +1005,7 @@ static char *extract_plugin_id_from_repo(const char *repo_path) {
         }
     }
 
-    /* Fallback: extract from repo path (last component) */
-    const char *last_slash = strrchr(repo_path, '/');
-    if (last_slash && last_slash[1] != '\0') {
-        const char *name = last_slash + 1;
-        /* Remove .git suffix if present */
-        size_t len = strlen(name);
-        if (len > 4 && strcmp(name + len - 4, ".git") == 0) {
-            len -= 4;
-        }
-        char *result = malloc(len + 1);
-        if (result) {
-            memcpy(result, name, len);
-            result[len] = '\0';
-            return result;
-        }
-    }
-
-    return NULL;
+    return cli_repo_name(repo);
 }
 
 static char *read_file(const char *filename, size_t *len) {
@@ -2233,21 +2312,18 @@ int main(int argc, char *argv[]) {
         }
 
         /* Determine plugins root: $XDG_CONFIG_HOME/apex/plugins or ~/.config/apex/plugins */
-        const char *xdg = getenv("XDG_CONFIG_HOME");
         char root[1024];
-        if (xdg && *xdg) {
-            snprintf(root, sizeof(root), "%s/apex/plugins", xdg);
-        } else {
-            const char *home = getenv("HOME");
-            if (!home || !*home) {
-                fprintf(stderr, "Error: HOME not set; cannot determine plugin directory.\n");
-                return 1;
-            }
-            snprintf(root, sizeof(root), "%s/.config/apex/plugins", home);
+        if (!cli_user_root(root, sizeof(root), "plugins")) {
+            return 1;
         }
 
         /* Uninstall plugin: local only, no remote directory needed */
         if (uninstall_plugin_id) {
+            if (!cli_entry_name_ok(uninstall_plugin_id)) {
+                fprintf(stderr, "Error: '%s' is not a plugin id.\n", uninstall_plugin_id);
+                return 1;
+            }
+
             char target[1200];
             snprintf(target, sizeof(target), "%s/%s", root, uninstall_plugin_id);
 
@@ -2272,9 +2348,7 @@ int main(int argc, char *argv[]) {
                 return 1;
             }
 
-            char rm_cmd[1400];
-            snprintf(rm_cmd, sizeof(rm_cmd), "rm -rf \"%s\"", target);
-            int rm_rc = system(rm_cmd);
+            int rm_rc = cli_run("rm -rf --", target, NULL);
             if (rm_rc != 0) {
                 fprintf(stderr, "Error: failed to remove plugin directory '%s'.\n", target);
                 return 1;
@@ -2459,27 +2533,15 @@ int main(int argc, char *argv[]) {
                 final_plugin_id = strdup(install_plugin_id);
             }
 
-            /* Determine plugins root: $XDG_CONFIG_HOME/apex/plugins or ~/.config/apex/plugins */
-            const char *xdg = getenv("XDG_CONFIG_HOME");
-            char root[1024];
-            if (xdg && *xdg) {
-                snprintf(root, sizeof(root), "%s/apex/plugins", xdg);
-            } else {
-                const char *home = getenv("HOME");
-                if (!home || !*home) {
-                    fprintf(stderr, "Error: HOME not set; cannot determine plugin install directory.\n");
-                    if (normalized_repo) free(normalized_repo);
-                    if (final_plugin_id) free(final_plugin_id);
-                    apex_remote_free_plugins(plist);
-                    return 1;
-                }
-                snprintf(root, sizeof(root), "%s/.config/apex/plugins", home);
+            if (final_plugin_id && !cli_entry_name_ok(final_plugin_id)) {
+                fprintf(stderr, "Error: '%s' is not a plugin id.\n", final_plugin_id);
+                free(final_plugin_id);
+                apex_remote_free_plugins(plist);
+                return 1;
             }
 
             /* Ensure root directory exists */
-            char mkdir_cmd[1200];
-            snprintf(mkdir_cmd, sizeof(mkdir_cmd), "mkdir -p \"%s\"", root);
-            int mkrc = system(mkdir_cmd);
+            int mkrc = cli_run("mkdir -p --", root, NULL);
             if (mkrc != 0) {
                 fprintf(stderr, "Error: failed to create plugin directory '%s'.\n", root);
                 if (normalized_repo) free(normalized_repo);
@@ -2492,45 +2554,25 @@ int main(int argc, char *argv[]) {
             /* We'll rename it after extracting the plugin ID */
             char temp_target[1200];
             if (!final_plugin_id) {
-                /* Extract a temporary name from the URL for cloning */
-                const char *last_slash = strrchr(repo, '/');
-                const char *name_start = last_slash ? (last_slash + 1) : repo;
-                const char *name_end = strstr(name_start, ".git");
-                if (!name_end) name_end = name_start + strlen(name_start);
-                size_t name_len = name_end - name_start;
-                if (name_len > 0 && name_len < 200) {
-                    char temp_name[256];
-                    memcpy(temp_name, name_start, name_len);
-                    temp_name[name_len] = '\0';
-                    snprintf(temp_target, sizeof(temp_target), "%s/.apex_install_%s", root, temp_name);
-                } else {
-                    snprintf(temp_target, sizeof(temp_target), "%s/.apex_install_temp", root);
-                }
+                snprintf(temp_target, sizeof(temp_target), "%s/.apex_install_temp", root);
             } else {
                 snprintf(temp_target, sizeof(temp_target), "%s/%s", root, final_plugin_id);
             }
 
-            /* Refuse to overwrite existing directory */
-            char test_cmd[1300];
-            if (final_plugin_id) {
-                snprintf(test_cmd, sizeof(test_cmd), "[ -d \"%s\" ]", temp_target);
-            } else {
-                /* For temp dir, check if it exists and clean it up */
-                snprintf(test_cmd, sizeof(test_cmd), "[ -d \"%s\" ]", temp_target);
-            }
-            int exists_rc = system(test_cmd);
-            if (exists_rc == 0 && final_plugin_id) {
+            /* Refuse to overwrite existing directory; clean up what an interrupted install left */
+            if (final_plugin_id && cli_path_exists(temp_target)) {
                 fprintf(stderr, "Error: plugin directory '%s' already exists. Remove it first to reinstall.\n", temp_target);
                 if (normalized_repo) free(normalized_repo);
                 if (final_plugin_id) free(final_plugin_id);
                 apex_remote_free_plugins(plist);
                 return 1;
             }
+            if (!final_plugin_id) {
+                cli_run("rm -rf --", temp_target, NULL);
+            }
 
             /* Clone repo using git */
-            char clone_cmd[2048];
-            snprintf(clone_cmd, sizeof(clone_cmd), "git clone \"%s\" \"%s\"", repo, temp_target);
-            int git_rc = system(clone_cmd);
+            int git_rc = cli_run("git clone --", repo, temp_target);
             if (git_rc != 0) {
                 fprintf(stderr, "Error: git clone failed for '%s'. Is git installed and the URL correct?\n", repo);
                 if (normalized_repo) free(normalized_repo);
@@ -2541,13 +2583,12 @@ int main(int argc, char *argv[]) {
 
             /* Extract plugin ID from cloned repo if we don't have it yet */
             if (!final_plugin_id) {
-                final_plugin_id = extract_plugin_id_from_repo(temp_target);
-                if (!final_plugin_id) {
+                final_plugin_id = extract_plugin_id_from_repo(temp_target, repo);
+                if (!cli_entry_name_ok(final_plugin_id)) {
                     fprintf(stderr, "Error: could not determine plugin ID from repository. Make sure plugin.yml exists with an 'id' field.\n");
                     /* Clean up temp directory */
-                    char rm_cmd[1300];
-                    snprintf(rm_cmd, sizeof(rm_cmd), "rm -rf \"%s\"", temp_target);
-                    system(rm_cmd);
+                    cli_run("rm -rf --", temp_target, NULL);
+                    free(final_plugin_id);
                     if (normalized_repo) free(normalized_repo);
                     apex_remote_free_plugins(plist);
                     return 1;
@@ -2558,14 +2599,9 @@ int main(int argc, char *argv[]) {
                 snprintf(final_target, sizeof(final_target), "%s/%s", root, final_plugin_id);
 
                 /* Check if final location already exists */
-                char final_test_cmd[1300];
-                snprintf(final_test_cmd, sizeof(final_test_cmd), "[ -d \"%s\" ]", final_target);
-                int final_exists_rc = system(final_test_cmd);
-                if (final_exists_rc == 0) {
+                if (cli_path_exists(final_target)) {
                     fprintf(stderr, "Error: plugin directory '%s' already exists. Remove it first to reinstall.\n", final_target);
-                    char rm_cmd[1300];
-                    snprintf(rm_cmd, sizeof(rm_cmd), "rm -rf \"%s\"", temp_target);
-                    system(rm_cmd);
+                    cli_run("rm -rf --", temp_target, NULL);
                     free(final_plugin_id);
                     if (normalized_repo) free(normalized_repo);
                     apex_remote_free_plugins(plist);
@@ -2573,14 +2609,9 @@ int main(int argc, char *argv[]) {
                 }
 
                 /* Move temp to final */
-                char mv_cmd[2500];
-                snprintf(mv_cmd, sizeof(mv_cmd), "mv \"%s\" \"%s\"", temp_target, final_target);
-                int mv_rc = system(mv_cmd);
-                if (mv_rc != 0) {
+                if (rename(temp_target, final_target) != 0) {
                     fprintf(stderr, "Error: failed to move plugin to final location '%s'.\n", final_target);
-                    char rm_cmd[1300];
-                    snprintf(rm_cmd, sizeof(rm_cmd), "rm -rf \"%s\"", temp_target);
-                    system(rm_cmd);
+                    cli_run("rm -rf --", temp_target, NULL);
                     free(final_plugin_id);
                     if (normalized_repo) free(normalized_repo);
                     apex_remote_free_plugins(plist);
@@ -2611,9 +2642,16 @@ int main(int argc, char *argv[]) {
                     }
                     if (post_install && *post_install) {
                         fprintf(stderr, "Running post-install hook for '%s'...\n", final_plugin_id);
-                        char hook_cmd[2048];
-                        snprintf(hook_cmd, sizeof(hook_cmd), "cd \"%s\" && %s", temp_target, post_install);
-                        int hook_rc = system(hook_cmd);
+                        char *dir = cli_shell_quote(temp_target);
+                        size_t hook_size = dir ? strlen(dir) + strlen(post_install) + 16 : 0;
+                        char *hook_cmd = dir ? malloc(hook_size) : NULL;
+                        int hook_rc = -1;
+                        if (hook_cmd) {
+                            snprintf(hook_cmd, hook_size, "cd %s && %s", dir, post_install);
+                            hook_rc = system(hook_cmd);
+                        }
+                        free(hook_cmd);
+                        free(dir);
                         if (hook_rc != 0) {
                             fprintf(stderr, "Warning: post-install hook for '%s' exited with status %d\n",
                                     final_plugin_id, hook_rc);
@@ -2644,21 +2682,18 @@ int main(int argc, char *argv[]) {
         }
 
         /* Determine filters root: $XDG_CONFIG_HOME/apex/filters or ~/.config/apex/filters */
-        const char *xdg = getenv("XDG_CONFIG_HOME");
         char root[1024];
-        if (xdg && *xdg) {
-            snprintf(root, sizeof(root), "%s/apex/filters", xdg);
-        } else {
-            const char *home = getenv("HOME");
-            if (!home || !*home) {
-                fprintf(stderr, "Error: HOME not set; cannot determine filter install directory.\n");
-                return 1;
-            }
-            snprintf(root, sizeof(root), "%s/.config/apex/filters", home);
+        if (!cli_user_root(root, sizeof(root), "filters")) {
+            return 1;
         }
 
         /* Uninstall filter */
         if (uninstall_filter_id) {
+            if (!cli_entry_name_ok(uninstall_filter_id)) {
+                fprintf(stderr, "Error: '%s' is not a filter id.\n", uninstall_filter_id);
+                return 1;
+            }
+
             char target[1200];
             snprintf(target, sizeof(target), "%s/%s", root, uninstall_filter_id);
 
@@ -2696,9 +2731,7 @@ int main(int argc, char *argv[]) {
             }
 
             if (S_ISDIR(st.st_mode)) {
-                char rm_cmd[1400];
-                snprintf(rm_cmd, sizeof(rm_cmd), "rm -rf \"%s\"", target);
-                int rm_rc = system(rm_cmd);
+                int rm_rc = cli_run("rm -rf --", target, NULL);
                 if (rm_rc != 0) {
                     fprintf(stderr, "Error: failed to remove filter directory '%s'.\n", target);
                     return 1;
@@ -2780,57 +2813,50 @@ int main(int argc, char *argv[]) {
         } else {
             /* Not a URL - look up in the remote filters directory */
             const char *dir_url = "https://raw.githubusercontent.com/ApexMarkdown/apex-filters/refs/heads/main/apex-filters.json";
-            char *json = apex_remote_fetch_json(dir_url);
-            if (!json) {
+            apex_remote_plugin_list *flist = apex_remote_fetch_filters_directory(dir_url);
+            if (!flist) {
                 fprintf(stderr, "Error: failed to fetch filter directory from %s\n", dir_url);
                 return 1;
             }
-
-            /* Very small JSON scan: find entry with matching "id" and extract "repo" */
-            const char *p = json;
-            int found = 0;
-            while ((p = strstr(p, "\"id\"")) != NULL) {
-                const char *id_start = strchr(p, ':');
-                if (!id_start) break;
-                id_start++;
-                while (*id_start == ' ' || *id_start == '\t') id_start++;
-                if (*id_start != '\"') { p = id_start; continue; }
-                id_start++;
-                const char *id_end = strchr(id_start, '\"');
-                if (!id_end) break;
-                size_t id_len = (size_t)(id_end - id_start);
-
-                if (strlen(install_filter_id) == id_len &&
-                    strncmp(install_filter_id, id_start, id_len) == 0) {
-                    /* Found matching id; search for "repo" and optional "path" in this object */
-                    const char *obj_start = p;
-                    char *repo_val = apex_remote_extract_string(obj_start, "repo");
-                    if (!repo_val) {
-                        fprintf(stderr, "Error: filter '%s' missing repo URL in directory.\n", install_filter_id);
-                        free(json);
-                        return 1;
-                    }
-                    repo = repo_val;
-                    final_filter_id = strdup(install_filter_id);
-                    filter_path = apex_remote_extract_string(obj_start, "path");
-                    found = 1;
-                    break;
-                }
-                p = id_end;
-            }
-
-            if (!found) {
+            apex_remote_plugin *rp = apex_remote_find_plugin(flist, install_filter_id);
+            if (!rp) {
                 fprintf(stderr, "Error: filter '%s' not found in directory.\n", install_filter_id);
-                free(json);
+                apex_remote_free_plugins(flist);
+                return 1;
+            }
+            const char *path = apex_remote_plugin_path(rp);
+            repo = strdup(apex_remote_plugin_repo(rp));
+            final_filter_id = strdup(install_filter_id);
+            filter_path = path ? strdup(path) : NULL;
+            apex_remote_free_plugins(flist);
+            if (!repo || !final_filter_id || (path && !filter_path)) {
+                fprintf(stderr, "Error: Memory allocation failed\n");
+                free((void *)repo);
+                free(final_filter_id);
+                free(filter_path);
                 return 1;
             }
-            free(json);
+        }
+
+        /* Without an id from the directory, the filter is named after its repository */
+        if (!final_filter_id) {
+            final_filter_id = cli_repo_name(repo);
+        }
+
+        const char *path_basename = filter_path ? strrchr(filter_path, '/') : NULL;
+        path_basename = path_basename ? path_basename + 1 : filter_path;
+        if (!cli_entry_name_ok(final_filter_id) ||
+            (filter_path && (!cli_entry_name_ok(path_basename) || strstr(filter_path, "..") || strlen(filter_path) > 500))) {
+            fprintf(stderr, "Error: '%s' cannot be installed as a filter.\n", install_filter_id);
+            if (normalized_repo) free(normalized_repo);
+            if (final_filter_id) free(final_filter_id);
+            if (filter_path) free(filter_path);
+            if (repo && repo != normalized_repo) free((void *)repo);
+            return 1;
         }
 
         /* Ensure root directory exists */
-        char mkdir_cmd[1200];
-        snprintf(mkdir_cmd, sizeof(mkdir_cmd), "mkdir -p \"%s\"", root);
-        int mkrc = system(mkdir_cmd);
+        int mkrc = cli_run("mkdir -p --", root, NULL);
         if (mkrc != 0) {
             fprintf(stderr, "Error: failed to create filter directory '%s'.\n", root);
             if (normalized_repo) free(normalized_repo);
@@ -2841,14 +2867,10 @@ int main(int argc, char *argv[]) {
         }
 
         /* Single-file install: clone to temp, copy path to root/<basename(path)>, remove temp */
-        if (filter_path && final_filter_id) {
-            const char *path_basename = strrchr(filter_path, '/');
-            path_basename = path_basename ? (path_basename + 1) : filter_path;
+        if (filter_path) {
             char final_file[1200];
             snprintf(final_file, sizeof(final_file), "%s/%s", root, path_basename);
-            char test_cmd[1300];
-            snprintf(test_cmd, sizeof(test_cmd), "[ -e \"%s\" ]", final_file);
-            if (system(test_cmd) == 0) {
+            if (cli_path_exists(final_file)) {
                 fprintf(stderr, "Error: filter '%s' already exists at %s. Remove it first to reinstall.\n", final_filter_id, final_file);
                 if (normalized_repo) free(normalized_repo);
                 if (final_filter_id) free(final_filter_id);
@@ -2858,9 +2880,8 @@ int main(int argc, char *argv[]) {
             }
             char temp_target[1200];
             snprintf(temp_target, sizeof(temp_target), "%s/.apex_install_%s", root, final_filter_id);
-            char clone_cmd[2048];
-            snprintf(clone_cmd, sizeof(clone_cmd), "git clone --depth 1 \"%s\" \"%s\"", repo, temp_target);
-            int git_rc = system(clone_cmd);
+            cli_run("rm -rf --", temp_target, NULL);
+            int git_rc = cli_run("git clone --depth 1 --", repo, temp_target);
             if (git_rc != 0) {
                 fprintf(stderr, "Error: git clone failed for '%s'. Is git installed and the URL correct?\n", repo);
                 if (normalized_repo) free(normalized_repo);
@@ -2871,23 +2892,17 @@ int main(int argc, char *argv[]) {
             }
             char src_file[1800];
             snprintf(src_file, sizeof(src_file), "%s/%s", temp_target, filter_path);
-            char cp_cmd[3000];
-            snprintf(cp_cmd, sizeof(cp_cmd), "cp \"%s\" \"%s\"", src_file, final_file);
-            if (system(cp_cmd) != 0) {
+            if (cli_run("cp --", src_file, final_file) != 0) {
                 fprintf(stderr, "Error: failed to copy '%s' from repo to %s\n", filter_path, final_file);
-                snprintf(cp_cmd, sizeof(cp_cmd), "rm -rf \"%s\"", temp_target);
-                system(cp_cmd);
+                cli_run("rm -rf --", temp_target, NULL);
                 if (normalized_repo) free(normalized_repo);
                 if (final_filter_id) free(final_filter_id);
                 if (filter_path) free(filter_path);
                 if (repo && repo != normalized_repo) free((void *)repo);
                 return 1;
             }
-            char chmod_cmd[1300];
-            snprintf(chmod_cmd, sizeof(chmod_cmd), "chmod +x \"%s\"", final_file);
-            system(chmod_cmd);
-            snprintf(cp_cmd, sizeof(cp_cmd), "rm -rf \"%s\"", temp_target);
-            system(cp_cmd);
+            cli_run("chmod +x --", final_file, NULL);
+            cli_run("rm -rf --", temp_target, NULL);
             fprintf(stderr, "Installed filter '%s' into %s\n", final_filter_id, final_file);
             if (normalized_repo) free(normalized_repo);
             if (final_filter_id) free(final_filter_id);
@@ -2896,46 +2911,21 @@ int main(int argc, char *argv[]) {
             return 0;
         }
 
-        /* Determine temporary or final target directory */
-        char temp_target[1200];
-        if (!final_filter_id) {
-            /* Derive a temporary name from repo URL */
-            const char *last_slash = strrchr(repo, '/');
-            const char *name_start = last_slash ? (last_slash + 1) : repo;
-            const char *name_end = strstr(name_start, ".git");
-            if (!name_end) name_end = name_start + strlen(name_start);
-            size_t name_len = name_end - name_start;
-            if (name_len > 0 && name_len < 200) {
-                char temp_name[256];
-                memcpy(temp_name, name_start, name_len);
-                temp_name[name_len] = '\0';
-                snprintf(temp_target, sizeof(temp_target), "%s/.apex_install_%s", root, temp_name);
-            } else {
-                snprintf(temp_target, sizeof(temp_target), "%s/.apex_install_temp", root);
-            }
-        } else {
-            snprintf(temp_target, sizeof(temp_target), "%s/%s", root, final_filter_id);
-        }
+        char final_target[1200];
+        snprintf(final_target, sizeof(final_target), "%s/%s", root, final_filter_id);
 
-        /* Refuse to overwrite existing directory when using a final id */
-        if (final_filter_id) {
-            char test_cmd[1300];
-            snprintf(test_cmd, sizeof(test_cmd), "[ -d \"%s\" ]", temp_target);
-            int exists_rc = system(test_cmd);
-            if (exists_rc == 0) {
-                fprintf(stderr, "Error: filter directory '%s' already exists. Remove it first to reinstall.\n", temp_target);
-                if (normalized_repo) free(normalized_repo);
-                if (final_filter_id) free(final_filter_id);
-                if (filter_path) free(filter_path);
-                if (repo && repo != normalized_repo) free((void *)repo);
-                return 1;
-            }
+        /* Refuse to overwrite an existing filter */
+        if (cli_path_exists(final_target)) {
+            fprintf(stderr, "Error: filter directory '%s' already exists. Remove it first to reinstall.\n", final_target);
+            if (normalized_repo) free(normalized_repo);
+            if (final_filter_id) free(final_filter_id);
+            if (filter_path) free(filter_path);
+            if (repo && repo != normalized_repo) free((void *)repo);
+            return 1;
         }
 
         /* Clone repo using git */
-        char clone_cmd[2048];
-        snprintf(clone_cmd, sizeof(clone_cmd), "git clone \"%s\" \"%s\"", repo, temp_target);
-        int git_rc = system(clone_cmd);
+        int git_rc = cli_run("git clone --", repo, final_target);
         if (git_rc != 0) {
             fprintf(stderr, "Error: git clone failed for '%s'. Is git installed and the URL correct?\n", repo);
             if (normalized_repo) free(normalized_repo);
@@ -2945,54 +2935,6 @@ int main(int argc, char *argv[]) {
             return 1;
         }
 
-        /* If we didn't get a final id from the directory, use install_filter_id as the final name */
-        if (!final_filter_id) {
-            final_filter_id = strdup(install_filter_id);
-            if (!final_filter_id) {
-                fprintf(stderr, "Error: Memory allocation failed\n");
-                if (normalized_repo) free(normalized_repo);
-                if (filter_path) free(filter_path);
-                if (repo && repo != normalized_repo) free((void *)repo);
-                return 1;
-            }
-        }
-
-        char final_target[1200];
-        snprintf(final_target, sizeof(final_target), "%s/%s", root, final_filter_id);
-
-        /* If temp_target != final_target, move into place */
-        if (strcmp(temp_target, final_target) != 0) {
-            char final_test_cmd[1300];
-            snprintf(final_test_cmd, sizeof(final_test_cmd), "[ -d \"%s\" ]", final_target);
-            int final_exists_rc = system(final_test_cmd);
-            if (final_exists_rc == 0) {
-                fprintf(stderr, "Error: filter directory '%s' already exists. Remove it first to reinstall.\n", final_target);
-                char rm_cmd[1300];
-                snprintf(rm_cmd, sizeof(rm_cmd), "rm -rf \"%s\"", temp_target);
-                system(rm_cmd);
-                free(final_filter_id);
-                if (normalized_repo) free(normalized_repo);
-                if (filter_path) free(filter_path);
-                if (repo && repo != normalized_repo) free((void *)repo);
-                return 1;
-            }
-
-            char mv_cmd[2500];
-            snprintf(mv_cmd, sizeof(mv_cmd), "mv \"%s\" \"%s\"", temp_target, final_target);
-            int mv_rc = system(mv_cmd);
-            if (mv_rc != 0) {
-                fprintf(stderr, "Error: failed to move filter to final location '%s'.\n", final_target);
-                char rm_cmd[1300];
-                snprintf(rm_cmd, sizeof(rm_cmd), "rm -rf \"%s\"", temp_target);
-                system(rm_cmd);
-                free(final_filter_id);
-                if (normalized_repo) free(normalized_repo);
-                if (filter_path) free(filter_path);
-                if (repo && repo != normalized_repo) free((void *)repo);
-                return 1;
-            }
-        }
-
         fprintf(stderr, "Installed filter '%s' into %s\n", final_filter_id, final_target);
 
         if (normalized_repo) free(normalized_repo);
-- 
2.43.0


From 34d1a4dd0e89c7d02f67c2694f3af09bdce6ec17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:30 +0000
Subject: [PATCH 55/66] fix: abbreviations leave tags and code alone and keep
 long expansions

---
 src/extensions/abbreviations.c | 395 +++++++++++++++++++++------------
 1 file changed, 256 insertions(+), 139 deletions(-)

diff --git a/src/extensions/abbreviations.c b/src/extensions/abbreviations.c
index a779f36..740e4b7 100644
--- a/src/extensions/abbreviations.c
+++ b/src/extensions/abbreviations.c
@@ -5,6 +5,7 @@
 
 #include "abbreviations.h"
 #include <string.h>
+#include <strings.h>
 #include <stdlib.h>
 #include <ctype.h>
 #include <stdio.h>
@@ -33,6 +34,70 @@ static char *trim(char *str) {
     return str;
 }
 
+/**
+ * Length of the fence (``` or ~~~) that the line at p starts with, 0 if none.
+ * A line that closes a fence has nothing but spaces after it.
+ */
+static size_t fence_length(const char *p, char *kind, bool *closing) {
+    size_t indent = strspn(p, " ");
+    if (indent > 3) return 0;
+    p += indent;
+    if (*p != '`' && *p != '~') return 0;
+    *kind = *p;
+    size_t run = 0;
+    while (p[run] == *kind) run++;
+    const char *rest = p + run;
+    rest += strspn(rest, " \t\r");
+    *closing = *rest == '\0' || *rest == '\n';
+    if (*kind == '`') {
+        while (*rest && *rest != '\n' && *rest != '`') rest++;
+        if (*rest == '`') return 0;
+    }
+    return run >= 3 ? run : 0;
+}
+
+/**
+ * If the line at p opens a fenced code block, return the start of the line
+ * after the block; otherwise return p.
+ */
+static const char *skip_fenced_code(const char *p) {
+    char kind = 0, other = 0;
+    bool closing = false;
+    size_t opened = fence_length(p, &kind, &closing);
+    if (!opened) return p;
+    for (;;) {
+        p = strchr(p, '\n');
+        if (!p) return NULL;
+        p++;
+        size_t run = fence_length(p, &other, &closing);
+        if (run >= opened && other == kind && closing) {
+            const char *end = strchr(p, '\n');
+            return end ? end + 1 : NULL;
+        }
+    }
+}
+
+/**
+ * If a code span starts at the backticks at p, return its end; otherwise the
+ * end of the backticks.
+ */
+static const char *skip_code_span(const char *p) {
+    size_t run = strspn(p, "`");
+    const char *q = p + run;
+    while (*q) {
+        if (*q == '`') {
+            size_t close = strspn(q, "`");
+            q += close;
+            if (close == run) return q;
+        } else if (*q == '\n' && q[1 + strspn(q + 1, " \t\r")] == '\n') {
+            break;
+        } else {
+            q++;
+        }
+    }
+    return p + run;
+}
+
 /**
  * Process MMD 6 inline abbreviations in text (before parsing)
  * Pattern: [>(abbr) expansion] → abbr (with definition added)
@@ -48,6 +113,20 @@ static char *process_inline_abbreviations(const char *text, abbr_item **abbrs_li
     char *write = output;
 
     while (*read) {
+        /* Code is left alone */
+        const char *code_end = read;
+        if (read == text || read[-1] == '\n') {
+            code_end = skip_fenced_code(read);
+            if (!code_end) code_end = text + len;
+        }
+        if (code_end == read && *read == '`') code_end = skip_code_span(read);
+        if (code_end > read) {
+            memcpy(write, read, (size_t)(code_end - read));
+            write += code_end - read;
+            read = code_end;
+            continue;
+        }
+
         /* Check for [>(abbr) expansion] */
         if (strncmp(read, "[>(", 3) == 0) {
             const char *abbr_start = read + 3;
@@ -131,47 +210,25 @@ abbr_item *apex_extract_abbreviations(char **text_ptr) {
     while ((line_end = strchr(line_start, '\n')) != NULL || *line_start) {
         if (!line_end) line_end = line_start + strlen(line_start);
 
-        size_t line_len = line_end - line_start;
-        char line[1024];
-        if (line_len >= sizeof(line)) line_len = sizeof(line) - 1;
-        memcpy(line, line_start, line_len);
-        line[line_len] = '\0';
-
-        /* Check for *[abbr]: expansion pattern (old MMD) */
-        if (line[0] == '*' && line[1] == '[') {
-            char *close_bracket = strchr(line + 2, ']');
-            if (close_bracket && close_bracket[1] == ':') {
-                /* Found abbreviation definition */
-                *close_bracket = '\0';
-                char *abbr = trim(line + 2);
-                char *expansion = trim(close_bracket + 2);
-
-                if (*abbr && *expansion) {
-                    abbr_item *item = malloc(sizeof(abbr_item));
-                    if (item) {
-                        item->abbr = strdup(abbr);
-                        item->expansion = strdup(expansion);
-                        item->next = NULL;
-
-                        *tail = item;
-                        tail = &item->next;
-                    }
-                }
-
-                /* Skip this line in output */
-                line_start = *line_end ? line_end + 1 : line_end;
-                continue;
-            }
+        /* Code is left alone */
+        const char *code_end = skip_fenced_code(line_start);
+        if (code_end != line_start) {
+            size_t code_len = code_end ? (size_t)(code_end - line_start) : strlen(line_start);
+            memcpy(output_write, line_start, code_len);
+            output_write += code_len;
+            line_start += code_len;
+            continue;
         }
 
-        /* Check for [>abbr]: expansion pattern (MMD 6) */
-        if (line[0] == '[' && line[1] == '>') {
-            char *close_bracket = strchr(line + 2, ']');
+        /* Check for *[abbr]: expansion (old MMD) or [>abbr]: expansion (MMD 6) */
+        if ((line_start[0] == '*' && line_start[1] == '[') || (line_start[0] == '[' && line_start[1] == '>')) {
+            char *close_bracket = memchr(line_start, ']', (size_t)(line_end - line_start));
             if (close_bracket && close_bracket[1] == ':') {
-                /* Found MMD 6 abbreviation definition */
-                *close_bracket = '\0';
-                char *abbr = trim(line + 2);
-                char *expansion = trim(close_bracket + 2);
+                /* Found abbreviation definition */
+                char *abbr_text = strndup(line_start + 2, (size_t)(close_bracket - (line_start + 2)));
+                char *exp_text = strndup(close_bracket + 2, (size_t)(line_end - (close_bracket + 2)));
+                char *abbr = abbr_text ? trim(abbr_text) : "";
+                char *expansion = exp_text ? trim(exp_text) : "";
 
                 if (*abbr && *expansion) {
                     abbr_item *item = malloc(sizeof(abbr_item));
@@ -184,6 +241,8 @@ abbr_item *apex_extract_abbreviations(char **text_ptr) {
                         tail = &item->next;
                     }
                 }
+                free(abbr_text);
+                free(exp_text);
 
                 /* Skip this line in output */
                 line_start = *line_end ? line_end + 1 : line_end;
@@ -226,6 +285,105 @@ static bool reserve(char **output, char **write, size_t *remaining, size_t need)
     return true;
 }
 
+/**
+ * Append text to the output
+ */
+static bool append(char **output, char **write, size_t *remaining, const char *text, size_t len) {
+    if (!reserve(output, write, remaining, len)) return false;
+    memcpy(*write, text, len);
+    *write += len;
+    *remaining -= len;
+    return true;
+}
+
+/**
+ * Append <abbr title="expansion">abbr</abbr>
+ */
+static bool append_tag(char **output, char **write, size_t *remaining, const char *expansion, const char *abbr) {
+    return append(output, write, remaining, "<abbr title=\"", 13) &&
+           append(output, write, remaining, expansion, strlen(expansion)) &&
+           append(output, write, remaining, "\">", 2) &&
+           append(output, write, remaining, abbr, strlen(abbr)) &&
+           append(output, write, remaining, "</abbr>", 7);
+}
+
+/**
+ * Length of the character reference at p (&amp;), 0 if there is none
+ */
+static size_t entity_length(const char *p) {
+    if (*p != '&') return 0;
+    size_t n = 1;
+    if (p[n] == '#') n++;
+    size_t start = n;
+    while (isalnum((unsigned char)p[n])) n++;
+    return n > start && p[n] == ';' ? n + 1 : 0;
+}
+
+/**
+ * Escape text for HTML; character references stay as they are.
+ */
+static char *escape(const char *text) {
+    char *out = malloc(strlen(text) * 6 + 1);
+    if (!out) return NULL;
+    char *w = out;
+    for (const char *p = text; *p; p++) {
+        const char *rep = *p == '<' ? "&lt;" : *p == '>' ? "&gt;" : *p == '"' ? "&quot;" :
+                          *p == '&' && !entity_length(p) ? "&amp;" : NULL;
+        if (rep) {
+            strcpy(w, rep);
+            w += strlen(rep);
+        } else {
+            *w++ = *p;
+        }
+    }
+    *w = '\0';
+    return out;
+}
+
+/**
+ * End of the tag or comment starting at p ('<'), or NULL if there is none
+ */
+static const char *markup_end(const char *p) {
+    if (strncmp(p, "<!--", 4) == 0) {
+        const char *end = strstr(p + 4, "-->");
+        return end ? end + 3 : NULL;
+    }
+    if (!isalpha((unsigned char)p[1]) && p[1] != '/' && p[1] != '!' && p[1] != '?') return NULL;
+    char quote = 0;
+    for (p++; *p; p++) {
+        if (quote) {
+            if (*p == quote) quote = 0;
+        } else if (*p == '"' || *p == '\'') {
+            quote = *p;
+        } else if (*p == '>') {
+            return p + 1;
+        }
+    }
+    return NULL;
+}
+
+/**
+ * End of the markup starting at p ('<') in which nothing is replaced: a tag, a
+ * comment, or a whole element whose content is not running text. NULL if there
+ * is none.
+ */
+static const char *skip_markup(const char *p) {
+    static const char *const verbatim[] = { "pre", "code", "script", "style", "textarea", "abbr" };
+    const char *end = markup_end(p);
+    if (!end) return NULL;
+    for (size_t i = 0; i < sizeof(verbatim) / sizeof(verbatim[0]); i++) {
+        size_t n = strlen(verbatim[i]);
+        if (strncasecmp(p + 1, verbatim[i], n) != 0 || isalnum((unsigned char)p[1 + n]) || p[1 + n] == '-') continue;
+        for (const char *q = end; (q = strchr(q, '<')) != NULL; q++) {
+            if (q[1] == '/' && strncasecmp(q + 2, verbatim[i], n) == 0 && !isalnum((unsigned char)q[2 + n])) {
+                const char *close = markup_end(q);
+                return close ? close : end;
+            }
+        }
+    }
+    return end;
+}
+
 /**
  * Replace abbreviations in HTML
  */
@@ -234,21 +392,35 @@ char *apex_replace_abbreviations(const char *html, abbr_item *abbrs) {
         return html ? strdup(html) : NULL;
     }
 
-    size_t html_len = strlen(html);
-    /* Calculate max possible expansion:
-     * Each abbreviation could be replaced with <abbr title="expansion">abbr</abbr>
-     * Worst case: very long expansions. Use html_len * 5 to be safe. */
-    size_t capacity = html_len * 5 + 1;
-    char *output = malloc(capacity);
-    if (!output) return strdup(html);
+    /* Names and expansions as they appear in HTML */
+    size_t count = 0;
+    for (abbr_item *item = abbrs; item; item = item->next) count++;
+    char **escaped = calloc(count * 2, sizeof(char *));
+    bool ok = escaped != NULL;
+    size_t n = 0;
+    for (abbr_item *item = abbrs; ok && item; item = item->next, n += 2) {
+        escaped[n] = escape(item->abbr);
+        escaped[n + 1] = escape(item->expansion);
+        ok = escaped[n] && escaped[n + 1];
+    }
 
-    const char *read = html;
+    size_t remaining = strlen(html) * 2 + 1;
+    char *output = ok ? malloc(remaining) : NULL;
     char *write = output;
-    size_t remaining = capacity;
+    ok = output != NULL;
 
-    while (*read) {
+    const char *read = html;
+    while (ok && *read) {
         bool replaced = false;
 
+        /* Tags and code are left alone */
+        const char *markup = *read == '<' ? skip_markup(read) : NULL;
+        if (markup) {
+            ok = append(&output, &write, &remaining, read, (size_t)(markup - read));
+            read = markup;
+            continue;
+        }
+
         /* Check for MMD 6 inline abbreviation (HTML-escaped): [&gt;abbr] or [&gt;(abbr) expansion] */
         if (strncmp(read, "[&gt;", 5) == 0) {
             const char *start = read + 5;
@@ -260,78 +432,32 @@ char *apex_replace_abbreviations(const char *html, abbr_item *abbrs) {
             if (*end == ']') {
                 /* Check for inline expansion: [&gt;(abbr) expansion] */
                 if (*start == '(') {
-                    const char *abbr_end = strchr(start + 1, ')');
-                    if (abbr_end && abbr_end < end) {
-                        /* Extract abbreviation and expansion */
-                        size_t abbr_len = (size_t)(abbr_end - (start + 1));
-                        size_t exp_len = (size_t)(end - (abbr_end + 1));
-
-                        if (abbr_len > 0 && abbr_len < 256 && exp_len > 0 && exp_len < 1024) {
-                            char abbr_text[256];
-                            char exp_text[1024];
-
-                            memcpy(abbr_text, start + 1, abbr_len);
-                            abbr_text[abbr_len] = '\0';
-
-                            memcpy(exp_text, abbr_end + 1, exp_len);
-                            exp_text[exp_len] = '\0';
-
-                            /* Trim whitespace */
-                            char *abbr_trimmed = trim(abbr_text);
-                            char *exp_trimmed = trim(exp_text);
-
-                            /* Generate abbr tag */
-                            char abbr_tag[2048];
-                            snprintf(abbr_tag, sizeof(abbr_tag),
-                                    "<abbr title=\"%s\">%s</abbr>",
-                                    exp_trimmed, abbr_trimmed);
-
-                            size_t tag_len = strlen(abbr_tag);
-                            if (!reserve(&output, &write, &remaining, tag_len + strlen(read))) {
-                                free(output);
-                                return strdup(html);
-                            }
-                            memcpy(write, abbr_tag, tag_len);
-                            write += tag_len;
-                            remaining -= tag_len;
+                    const char *abbr_end = memchr(start + 1, ')', (size_t)(end - (start + 1)));
+                    if (abbr_end && abbr_end > start + 1 && abbr_end + 1 < end) {
+                        char *abbr_text = strndup(start + 1, (size_t)(abbr_end - (start + 1)));
+                        char *exp_text = strndup(abbr_end + 1, (size_t)(end - (abbr_end + 1)));
+                        ok = abbr_text && exp_text &&
+                             append_tag(&output, &write, &remaining, trim(exp_text), trim(abbr_text));
+                        free(abbr_text);
+                        free(exp_text);
+                        read = end + 1;
+                        replaced = true;
+                    }
+                } else if (end > start) {
+                    /* Reference abbreviation: [&gt;MMD] */
+                    char *ref = strndup(start, (size_t)(end - start));
+                    char *ref_trimmed = ref ? trim(ref) : "";
 
+                    /* Look up in abbreviation list */
+                    for (size_t i = 0; i < count; i++) {
+                        if (strcmp(escaped[2 * i], ref_trimmed) == 0) {
+                            ok = append_tag(&output, &write, &remaining, escaped[2 * i + 1], escaped[2 * i]);
                             read = end + 1;
                             replaced = true;
+                            break;
                         }
                     }
-                } else {
-                    /* Reference abbreviation: [&gt;MMD] */
-                    size_t ref_len = (size_t)(end - start);
-                    if (ref_len > 0 && ref_len < 256) {
-                        char ref[256];
-                        memcpy(ref, start, ref_len);
-                        ref[ref_len] = '\0';
-                        char *ref_trimmed = trim(ref);
-
-                        /* Look up in abbreviation list */
-                        for (abbr_item *item = abbrs; item; item = item->next) {
-                            if (strcmp(item->abbr, ref_trimmed) == 0) {
-                                /* Found match */
-                                char abbr_tag[2048];
-                                snprintf(abbr_tag, sizeof(abbr_tag),
-                                        "<abbr title=\"%s\">%s</abbr>",
-                                        item->expansion, item->abbr);
-
-                                size_t tag_len = strlen(abbr_tag);
-                                if (!reserve(&output, &write, &remaining, tag_len + strlen(read))) {
-                                    free(output);
-                                    return strdup(html);
-                                }
-                                memcpy(write, abbr_tag, tag_len);
-                                write += tag_len;
-                                remaining -= tag_len;
-
-                                read = end + 1;
-                                replaced = true;
-                                break;
-                            }
-                        }
-                    }
+                    free(ref);
                 }
 
                 if (replaced) continue;
@@ -339,11 +465,11 @@ char *apex_replace_abbreviations(const char *html, abbr_item *abbrs) {
         }
 
         /* Try each abbreviation (automatic replacement) */
-        for (abbr_item *item = abbrs; item; item = item->next) {
-            size_t abbr_len = strlen(item->abbr);
+        for (size_t i = 0; i < count; i++) {
+            size_t abbr_len = strlen(escaped[2 * i]);
 
             /* Check if we have a match */
-            if (strncmp(read, item->abbr, abbr_len) == 0) {
+            if (strncmp(read, escaped[2 * i], abbr_len) == 0) {
                 /* Check it's a whole word (not part of larger word) */
                 bool word_boundary = true;
                 if (read > html && isalnum((unsigned char)*(read - 1))) word_boundary = false;
@@ -351,20 +477,7 @@ char *apex_replace_abbreviations(const char *html, abbr_item *abbrs) {
 
                 if (word_boundary) {
                     /* Replace with <abbr> tag */
-                    char abbr_tag[2048];
-                    snprintf(abbr_tag, sizeof(abbr_tag),
-                            "<abbr title=\"%s\">%s</abbr>",
-                            item->expansion, item->abbr);
-
-                    size_t tag_len = strlen(abbr_tag);
-                    if (!reserve(&output, &write, &remaining, tag_len + strlen(read))) {
-                        free(output);
-                        return strdup(html);
-                    }
-                    memcpy(write, abbr_tag, tag_len);
-                    write += tag_len;
-                    remaining -= tag_len;
-
+                    ok = append_tag(&output, &write, &remaining, escaped[2 * i + 1], escaped[2 * i]);
                     read += abbr_len;
                     replaced = true;
                     break;
@@ -373,16 +486,20 @@ char *apex_replace_abbreviations(const char *html, abbr_item *abbrs) {
         }
 
         if (!replaced) {
-            if (remaining > 0) {
-                *write++ = *read++;
-                remaining--;
-            } else {
-                read++;
-            }
+            /* Character references are kept whole */
+            size_t len = entity_length(read);
+            if (len == 0) len = 1;
+            ok = append(&output, &write, &remaining, read, len);
+            read += len;
         }
     }
 
+    for (size_t i = 0; escaped && i < count * 2; i++) free(escaped[i]);
+    free(escaped);
+    if (!ok) {
+        free(output);
+        return strdup(html);
+    }
     *write = '\0';
     return output;
 }
-
-- 
2.43.0


From 8a4475e53ee891d6f64e6c3beb9cfca90b2175e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:27 +0000
Subject: [PATCH 56/66] fix: emoji names in code, tags, times and scopes are
 left alone; image emoji are sized in headings

---
 src/extensions/emoji.c | 192 +++++++++++++++++++++++++++++++----------
 1 file changed, 145 insertions(+), 47 deletions(-)

diff --git a/src/extensions/emoji.c b/src/extensions/emoji.c
index 1462a65..ca9c74c 100644
--- a/src/extensions/emoji.c
+++ b/src/extensions/emoji.c
@@ -4,10 +4,12 @@
  */
 
 #include <string.h>
+#include <strings.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include <ctype.h>
 #include <stdint.h>
+#include <stdbool.h>
 #include "emoji_data.h"
 
 /* Forward declarations */
@@ -30,39 +32,97 @@ static const emoji_entry *find_emoji_entry(const char *name, int len) {
 }
 
 /**
- * Check if we're inside a header tag (h1-h6)
- * Simple state machine to track if we're between <h1> and </h1> etc.
+ * End of the tag or comment starting at p ('<'), or NULL if there is none
  */
-static int is_in_header(const char *pos, const char *start) {
-    /* Look backwards for opening header tag */
-    const char *p = pos;
-    int depth = 0;
+static const char *markup_end(const char *p) {
+    if (strncmp(p, "<!--", 4) == 0) {
+        const char *end = strstr(p + 4, "-->");
+        return end ? end + 3 : NULL;
+    }
+    if (!isalpha((unsigned char)p[1]) && p[1] != '/' && p[1] != '!' && p[1] != '?') return NULL;
+    char quote = 0;
+    for (p++; *p; p++) {
+        if (quote) {
+            if (*p == quote) quote = 0;
+        } else if (*p == '"' || *p == '\'') {
+            quote = *p;
+        } else if (*p == '>') {
+            return p + 1;
+        }
+    }
+    return NULL;
+}
 
-    while (p >= start) {
-        if (p[0] == '>' && p > start + 3) {
-            /* Check if this is a closing tag */
-            if (p[-1] == '/' && p[-2] == '<') {
-                /* Check for </h1> through </h6> */
-                if (p >= start + 5) {
-                    if ((p[-3] == 'h' || p[-3] == 'H') &&
-                        p[-4] >= '1' && p[-4] <= '6') {
-                        depth--;
-                        if (depth < 0) return 0; /* Outside header */
-                    }
-                }
-            } else if (p > start + 2) {
-                /* Check for <h1> through <h6> */
-                if (p[-1] == 'h' || p[-1] == 'H') {
-                    if (p >= start + 3 && p[-2] >= '1' && p[-2] <= '6' && p[-3] == '<') {
-                        depth++;
-                        if (depth > 0) return 1; /* Inside header */
-                    }
+/**
+ * End of the markup starting at p ('<') in which nothing is replaced: a tag, a
+ * comment, or a whole element whose content is not running text. NULL if there
+ * is none.
+ */
+static const char *skip_markup(const char *p) {
+    static const char *const verbatim[] = { "pre", "code", "script", "style", "textarea" };
+    const char *end = markup_end(p);
+    if (!end) return NULL;
+    for (size_t i = 0; i < sizeof(verbatim) / sizeof(verbatim[0]); i++) {
+        size_t n = strlen(verbatim[i]);
+        if (strncasecmp(p + 1, verbatim[i], n) != 0 || isalnum((unsigned char)p[1 + n]) || p[1 + n] == '-') continue;
+        for (const char *q = end; (q = strchr(q, '<')) != NULL; q++) {
+            if (q[1] == '/' && strncasecmp(q + 2, verbatim[i], n) == 0 && !isalnum((unsigned char)q[2 + n])) {
+                const char *close = markup_end(q);
+                return close ? close : end;
+            }
+        }
+    }
+    return end;
+}
+
+/**
+ * End of the code starting at p in Markdown text: a fenced or indented code
+ * block at a line start, or a code span. p if there is none; the end of the
+ * backticks if they open no code span.
+ */
+static const char *skip_code(const char *text, const char *p) {
+    if (p == text || p[-1] == '\n') {
+        size_t indent = strspn(p, " ");
+        const char *c = p + indent;
+        const char *line_end = p + strcspn(p, "\n");
+        if (indent < 4 && (*c == '`' || *c == '~')) {
+            const char fence[2] = { *c, '\0' };
+            size_t run = strspn(c, fence);
+            if (run >= 3 && !(*c == '`' && memchr(c + run, '`', (size_t)(line_end - c) - run))) {
+                while (*line_end) {
+                    const char *line = line_end + 1;
+                    line_end = line + strcspn(line, "\n");
+                    size_t spaces = strspn(line, " ");
+                    size_t close = strspn(line + spaces, fence);
+                    const char *after = line + spaces + close;
+                    if (spaces < 4 && close >= run && after + strspn(after, " \t\r") >= line_end) break;
                 }
+                return line_end;
             }
         }
-        p--;
+        /* Indented code, unless it is a list item */
+        if (indent >= 4 || *c == '\t') {
+            c += strspn(c, " \t");
+            size_t digits = strspn(c, "0123456789");
+            bool marker = digits ? c[digits] == '.' || c[digits] == ')' : *c == '-' || *c == '*' || *c == '+';
+            if (!marker || !isspace((unsigned char)c[digits + 1])) return line_end;
+        }
     }
-    return 0;
+    if (*p != '`') return p;
+    size_t run = strspn(p, "`");
+    const char *q = p + run;
+    while (*q) {
+        if (*q == '`') {
+            size_t close = strspn(q, "`");
+            q += close;
+            if (close == run) return q;
+        } else if (*q == '\n' && q[1 + strspn(q + 1, " \t\r")] == '\n') {
+            break;
+        } else {
+            q++;
+        }
+    }
+    return p + run;
 }
 
 /**
@@ -109,6 +169,12 @@ static int is_inside_html_attribute(const char *pos, const char *start) {
         return 0;
     }
 
+    /* A tag starts with a name: "a &lt; b = c" is plain text */
+    const char *tag_name = tag_start + (*tag_start == '<' ? 1 : 4);
+    if (!isalpha((unsigned char)*tag_name) && *tag_name != '/') {
+        return 0;
+    }
+
     /* Now look backwards from pos to find the nearest = sign within this tag */
     p = pos - 1;
     const char *equals_pos = NULL;
@@ -233,23 +299,22 @@ char *apex_replace_emoji(const char *html) {
     const char *read = html;
     char *write = output;
     size_t remaining = capacity;
+    bool in_header = false;
 
     while (*read) {
-        /* Check if we're inside an index placeholder <!--IDX:...--> - if so, skip emoji processing */
-        if (read >= html + 7 && strncmp(read - 7, "<!--IDX:", 8) == 0) {
-            /* Find the end of the placeholder */
-            const char *placeholder_end = strstr(read, "-->");
-            if (placeholder_end) {
-                /* Copy the entire placeholder as-is */
-                size_t placeholder_len = placeholder_end + 3 - read;
-                if (placeholder_len <= remaining) {
-                    memcpy(write, read, placeholder_len);
-                    write += placeholder_len;
-                    remaining -= placeholder_len;
-                    read = placeholder_end + 3;
-                    continue;
-                }
+        /* Tags, comments (index placeholders among them) and code are left alone */
+        const char *markup = *read == '<' ? skip_markup(read) : NULL;
+        if (markup) {
+            const char *name = read + 1 + (read[1] == '/');
+            if ((*name == 'h' || *name == 'H') && name[1] >= '1' && name[1] <= '6' && !isalnum((unsigned char)name[2])) {
+                in_header = read[1] != '/';
             }
+            size_t markup_len = (size_t)(markup - read);
+            memcpy(write, read, markup_len);
+            write += markup_len;
+            remaining -= markup_len;
+            read = markup;
+            continue;
         }
 
         if (*read == ':') {
@@ -314,10 +379,10 @@ char *apex_replace_emoji(const char *html) {
 
                 /* Validate: must have at least one character and no spaces */
                 if (name_len > 0) {
-                    /* Check for spaces in the name */
+                    /* Check for spaces and tags in the name */
                     int has_space = 0;
                     for (int i = 0; i < name_len; i++) {
-                        if (name_start[i] == ' ' || name_start[i] == '\t' || name_start[i] == '\n') {
+                        if (name_start[i] == '<' || name_start[i] == ' ' || name_start[i] == '\t' || name_start[i] == '\n') {
                             has_space = 1;
                             break;
                         }
@@ -351,8 +416,6 @@ char *apex_replace_emoji(const char *html) {
                         const emoji_entry *entry = find_emoji_entry(normalized, (int)normalized_len);
 
                         if (entry) {
-                            int in_header = is_in_header(read, html);
-
                             if (entry->unicode) {
                                 /* Unicode emoji */
                                 size_t emoji_len = strlen(entry->unicode);
@@ -673,6 +736,20 @@ static int is_table_alignment_pattern(const char *start, const char *end) {
     return 1;
 }
 
+/**
+ * Check if the text between the colons at start and end can be a misspelt emoji
+ * name: it has only the characters of names, and the colons do not stand next
+ * to a letter or digit, nor after a colon that does not end a name itself.
+ */
+static bool is_misspelt_emoji(const char *text, const char *name_end, const char *start, const char *end) {
+    if (start > text && start != name_end && (isalnum((unsigned char)start[-1]) || start[-1] == ':')) return false;
+    if (isalnum((unsigned char)end[1])) return false;
+    for (const char *p = start + 1; p < end; p++) {
+        if (!isalnum((unsigned char)*p) && *p != '_' && *p != '-' && *p != '+') return false;
+    }
+    return true;
+}
+
 /**
  * Autocorrect emoji names in markdown text
  * Processes :emoji_name: patterns and corrects typos using fuzzy matching
@@ -687,8 +764,21 @@ char *apex_autocorrect_emoji_names(const char *text) {
     const char *read = text;
     char *write = output;
     size_t remaining = capacity;
+    const char *name_end = NULL;
 
     while (*read) {
+        /* Code and HTML tags are left alone */
+        const char *verbatim = skip_code(text, read);
+        if (verbatim == read && *read == '<') verbatim = skip_markup(read);
+        if (verbatim && verbatim > read) {
+            size_t verbatim_len = (size_t)(verbatim - read);
+            memcpy(write, read, verbatim_len);
+            write += verbatim_len;
+            remaining -= verbatim_len;
+            read = verbatim;
+            continue;
+        }
+
         if (*read == ':') {
             /* Look for closing : */
             const char *end = strchr(read + 1, ':');
@@ -699,10 +789,10 @@ char *apex_autocorrect_emoji_names(const char *text) {
 
                     /* Validate: must have at least one character and no spaces */
                 if (name_len > 0) {
-                    /* Check for spaces in the name */
+                    /* Check for spaces, code and tags in the name */
                     int has_space = 0;
                     for (int i = 0; i < name_len; i++) {
-                        if (name_start[i] == ' ' || name_start[i] == '\t' || name_start[i] == '\n') {
+                        if (name_start[i] == '`' || name_start[i] == '<' || name_start[i] == ' ' || name_start[i] == '\t' || name_start[i] == '\n') {
                             has_space = 1;
                             break;
                         }
@@ -757,6 +847,12 @@ char *apex_autocorrect_emoji_names(const char *text) {
                                 }
                             }
                             read = end + 1;
+                            name_end = read;
+                            continue;
+                        } else if (!is_misspelt_emoji(text, name_end, read, end)) {
+                            /* Times (10:30:00), scopes (a::b::c) and the like */
+                            *write++ = *read++;
+                            remaining--;
                             continue;
                         } else {
                             /* Try fuzzy matching */
@@ -783,6 +879,7 @@ char *apex_autocorrect_emoji_names(const char *text) {
                                     }
                                 }
                                 read = end + 1;
+                                name_end = read;
                                 continue;
                             }
                             /* No match found, copy the entire pattern as-is */
@@ -793,6 +890,7 @@ char *apex_autocorrect_emoji_names(const char *text) {
                                 remaining -= pattern_len;
                             }
                             read = end + 1;
+                            name_end = read;
                             continue;
                         }
                     }
-- 
2.43.0


From a1495e33bd09a293e0aa3294965c188365d2c431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:27 +0000
Subject: [PATCH 57/66] fix: highlights, insertions, super- and subscripts
 leave code, math, tags and URLs alone

---
 src/extensions/code_skip.h | 225 +++++++++++++++++++++++++++++++++++++
 src/extensions/highlight.c |  57 +++-------
 src/extensions/insert.c    |  26 +++--
 src/extensions/sup_sub.c   | 143 ++++++++---------------
 4 files changed, 302 insertions(+), 149 deletions(-)
 create mode 100644 src/extensions/code_skip.h

diff --git a/src/extensions/code_skip.h b/src/extensions/code_skip.h
new file mode 100644
index 0000000..9981494
--- /dev/null
+++ b/src/extensions/code_skip.h
@@ -0,0 +1,225 @@
+/**
+ * Code, HTML and URLs in Markdown text
+ *
+ * Shared by the text stages that run before the parser: these are what they
+ * have to leave alone.
+ */
+
+#ifndef APEX_CODE_SKIP_H
+#define APEX_CODE_SKIP_H
+
+#include <ctype.h>
+#include <stdbool.h>
+#include <string.h>
+
+/** Start of the text of the line at p: its first byte that is no space or tab */
+static inline const char *apex_line_content(const char *p, size_t *columns) {
+    size_t n = 0;
+    for (; *p == ' ' || *p == '\t'; p++) n = *p == '\t' ? (n / 4 + 1) * 4 : n + 1;
+    if (columns) *columns = n;
+    return p;
+}
+
+static inline bool apex_line_is_blank(const char *p) {
+    p += strspn(p, " \t\r");
+    return *p == '\n' || *p == '\0';
+}
+
+/** Length of the list marker at p with the blank after it, 0 if there is none */
+static inline size_t apex_list_marker_length(const char *p) {
+    size_t digits = strspn(p, "0123456789");
+    size_t n = 0;
+    if (digits > 0 && digits < 10) {
+        if (p[digits] == '.' || p[digits] == ')') n = digits + 1;
+    } else if (*p == '-' || *p == '*' || *p == '+') {
+        n = 1;
+    }
+    return n && (p[n] == ' ' || p[n] == '\t') ? n + 1 : 0;
+}
+
+/** Start of the line before the one that starts at p */
+static inline const char *apex_previous_line(const char *text, const char *p) {
+    p--;
+    while (p > text && p[-1] != '\n') p--;
+    return p;
+}
+
+/**
+ * Check if an indented code block starts at the line at p: it is indented by at
+ * least four columns and follows a blank line, and it is neither a list item
+ * nor belongs to a list or footnote above it.
+ */
+static inline bool apex_indented_code_starts(const char *text, const char *p) {
+    size_t columns;
+    const char *content = apex_line_content(p, &columns);
+    if (columns < 4 || apex_line_is_blank(p) || apex_list_marker_length(content)) return false;
+    if (p > text && !apex_line_is_blank(apex_previous_line(text, p))) return false;
+
+    bool at_margin = false;
+    for (const char *line = p; line > text; ) {
+        line = apex_previous_line(text, line);
+        if (apex_line_is_blank(line)) {
+            if (at_margin) break;
+            continue;
+        }
+        content = apex_line_content(line, &columns);
+        if (apex_list_marker_length(content) || strncmp(content, "[^", 2) == 0 || *content == ':') return false;
+        if (columns == 0) at_margin = true;
+    }
+    return true;
+}
+
+/**
+ * Length of the code fence (``` or ~~~) at p, 0 if there is none. closes tells
+ * if nothing follows it on the line.
+ */
+static inline size_t apex_fence_length(const char *p, bool *closes) {
+    if (*p != '`' && *p != '~') return 0;
+    size_t run = 0;
+    while (p[run] == *p) run++;
+    if (run < 3) return 0;
+    *closes = apex_line_is_blank(p + run);
+    if (*p == '`') {
+        size_t info = strcspn(p + run, "`\n");
+        if (p[run + info] == '`') return 0;
+    }
+    return run;
+}
+
+/**
+ * End of the fenced or indented code block that starts at the line at p, or p
+ * if there is none
+ */
+static inline const char *apex_skip_code_block(const char *text, const char *p) {
+    if (apex_indented_code_starts(text, p)) {
+        const char *end = p + strcspn(p, "\n");
+        for (const char *line = end; *line; ) {
+            size_t columns;
+            line++;
+            apex_line_content(line, &columns);
+            bool blank = apex_line_is_blank(line);
+            if (!blank && columns < 4) break;
+            line += strcspn(line, "\n");
+            if (!blank) end = line;
+        }
+        return end;
+    }
+
+    /* A fence, also in block quotes and list items */
+    bool quoted = false;
+    const char *fence = apex_line_content(p, NULL);
+    for (;;) {
+        size_t marker = *fence == '>' ? 1 : apex_list_marker_length(fence);
+        if (!marker) break;
+        if (*fence == '>') quoted = true;
+        fence = apex_line_content(fence + marker, NULL);
+    }
+    bool closes = false;
+    size_t opened = apex_fence_length(fence, &closes);
+    if (!opened) return p;
+
+    const char *end = fence + strcspn(fence, "\n");
+    while (*end) {
+        const char *line = apex_line_content(end + 1, NULL);
+        if (quoted && *line != '>') break;
+        while (quoted && *line == '>') line = apex_line_content(line + 1, NULL);
+        size_t run = apex_fence_length(line, &closes);
+        bool last = run >= opened && closes && *line == *fence;
+        end = line + strcspn(line, "\n");
+        if (last) break;
+    }
+    return end;
+}
+
+/**
+ * End of the code that starts at p: a code block if p is at the start of a line,
+ * or a code span; p if there is none. Backticks that open no code span are
+ * passed over as a whole.
+ */
+static inline const char *apex_skip_code(const char *text, const char *p) {
+    if (p == text || p[-1] == '\n') {
+        const char *end = apex_skip_code_block(text, p);
+        if (end > p) return end;
+    }
+
+    if (*p != '`') return p;
+    size_t escapes = 0;
+    while (p - escapes > text && p[-1 - (long)escapes] == '\\') escapes++;
+    if (escapes % 2) return p + 1;
+
+    size_t run = strspn(p, "`");
+    for (const char *q = p + run; *q; ) {
+        if (*q == '`') {
+            size_t close = strspn(q, "`");
+            q += close;
+            if (close == run) return q;
+        } else if (*q == '\n' && apex_line_is_blank(q + 1)) {
+            break;
+        } else {
+            q++;
+        }
+    }
+    return p + run;
+}
+
+/** End of the HTML tag, comment or <autolink> at p ('<'), or p if there is none */
+static inline const char *apex_skip_tag(const char *p) {
+    if (strncmp(p, "<!--", 4) == 0) {
+        const char *end = strstr(p + 4, "-->");
+        return end ? end + 3 : p;
+    }
+    const char *q = p + 1;
+    if (*q == '/') q++;
+    if (!isalpha((unsigned char)*q)) return p;
+    while (isalnum((unsigned char)*q) || *q == '-') q++;
+    if (*q == ':' || *q == '@' || *q == '.') {
+        q += strcspn(q, " \t\r\n<>");
+        return *q == '>' ? q + 1 : p;
+    }
+    if (!isspace((unsigned char)*q) && *q != '>' && *q != '/') return p;
+    while (*q && *q != '>') {
+        if (*q == '\n' && apex_line_is_blank(q + 1)) return p;
+        const char *close = *q == '"' || *q == '\'' ? strchr(q + 1, *q) : NULL;
+        q = close ? close + 1 : q + 1;
+    }
+    return *q ? q + 1 : p;
+}
+
+/** End of the link destination in brackets at p, or p if there is none */
+static inline const char *apex_skip_destination(const char *p) {
+    int depth = 0;
+    for (const char *q = p; *q; q++) {
+        if (*q == '\n' && apex_line_is_blank(q + 1)) break;
+        if (*q == '\\' && q[1]) {
+            q++;
+        } else if (*q == '(') {
+            depth++;
+        } else if (*q == ')' && --depth == 0) {
+            return q + 1;
+        }
+    }
+    return p;
+}
+
+/**
+ * End of the text at p that is no running text: code (see apex_skip_code), an
+ * HTML tag, a link destination, a link reference definition or a bare URL; p if
+ * there is none.
+ */
+static inline const char *apex_skip_inert(const char *text, const char *p) {
+    const char *end = apex_skip_code(text, p);
+    if (end > p) return end;
+    if (*p == '<') return apex_skip_tag(p);
+    if (*p == '(' && p > text && p[-1] == ']') return apex_skip_destination(p);
+    if (*p == '[' && p[1] != '^' && (p == text || p[-1] == '\n')) {
+        size_t label = strcspn(p, "]\n");
+        if (p[label] == ']' && p[label + 1] == ':') return p + strcspn(p, "\n");
+    }
+    if ((*p == 'h' && (strncmp(p, "http://", 7) == 0 || strncmp(p, "https://", 8) == 0)) &&
+        (p == text || !isalnum((unsigned char)p[-1]))) {
+        return p + strcspn(p, " \t\r\n<>`");
+    }
+    return p;
+}
+
+#endif /* APEX_CODE_SKIP_H */
diff --git a/src/extensions/highlight.c b/src/extensions/highlight.c
index 7bce3e7..c7ad64a 100644
--- a/src/extensions/highlight.c
+++ b/src/extensions/highlight.c
@@ -4,36 +4,12 @@
  */
 
 #include "highlight.h"
+#include "code_skip.h"
 #include <string.h>
 #include <stdlib.h>
 #include <stdbool.h>
 #include <ctype.h>
 
-/** True if content at p looks like a list marker (- , * , + , or digit+. ) */
-static bool looks_like_list_marker(const char *p) {
-    if (*p == '-' || *p == '*' || *p == '+')
-        return (p[1] == ' ' || p[1] == '\t');
-    if (isdigit((unsigned char)*p)) {
-        while (isdigit((unsigned char)*p)) p++;
-        return (*p == '.' && (p[1] == ' ' || p[1] == '\t'));
-    }
-    return false;
-}
-
-/** True if we're at the start of a line that is an indented code block (4+ spaces or tab)
- * and not a list line. List lines (nested or continuation) should still get highlight. */
-static bool line_is_indented_code_block(const char *read) {
-    if (*read == '\t') {
-        return !looks_like_list_marker(read + 1);
-    }
-    if (read[0] != ' ' || read[1] != ' ' || read[2] != ' ' || read[3] != ' ')
-        return false;
-    const char *content = read + 4;
-    while (*content == ' ')
-        content++;
-    return !looks_like_list_marker(content);
-}
-
 /**
  * Process ==highlight== syntax as preprocessing
  * Converts to <mark>text</mark> before parsing
@@ -50,23 +26,16 @@ char *apex_process_highlights(const char *text) {
     char *write = output;
     size_t remaining = capacity;
 
-    bool in_code_block = false;
-    bool in_inline_code = false;
-    bool in_indented_code_block = false;
-
     while (*read) {
-        /* At line start: indented code block only if 4+ spaces/tab and not a list line */
-        if (read == text || read[-1] == '\n') {
-            in_indented_code_block = line_is_indented_code_block(read);
-        }
-
-        /* Track fenced and inline code (skip highlighting inside them) */
-        if (*read == '`') {
-            if (read[1] == '`' && read[2] == '`') {
-                in_code_block = !in_code_block;
-            } else if (!in_code_block) {
-                in_inline_code = !in_inline_code;
-            }
+        /* Code, HTML tags and URLs are left alone */
+        const char *inert_end = apex_skip_inert(text, read);
+        if (inert_end > read) {
+            size_t inert_len = (size_t)(inert_end - read);
+            memcpy(write, read, inert_len);
+            write += inert_len;
+            remaining -= inert_len;
+            read = inert_end;
+            continue;
         }
 
         /* Look for ==highlight== (not in code, not Critic Markup) */
@@ -89,11 +58,15 @@ char *apex_process_highlights(const char *text) {
                                          read[2] != '\r' && read[2] != ' ' && read[2] != '\t' &&
                                          !preceded_by_equals && !preceded_by_plus && !followed_by_plus);
 
-        if (!in_code_block && !in_inline_code && !in_indented_code_block && !is_critic && is_valid_highlight_start) {
+        if (!is_critic && is_valid_highlight_start) {
 
             /* Find closing == */
             const char *close = read + 2;
             while (*close && *close != '\n' && *close != '\r') {
+                if (*close == '`') {
+                    close = apex_skip_code(text, close);
+                    continue;
+                }
                 if (close[0] == '=' && close[1] == '=') {
                     /* Check closing == requirements:
                      * - Character after closing == is not =
diff --git a/src/extensions/insert.c b/src/extensions/insert.c
index bf28fac..aa7d049 100644
--- a/src/extensions/insert.c
+++ b/src/extensions/insert.c
@@ -5,6 +5,7 @@
  */
 
 #include "insert.h"
+#include "code_skip.h"
 #include "ial.h"  /* For parse_ial_content and attributes_to_html */
 #include <string.h>
 #include <stdlib.h>
@@ -57,17 +58,16 @@ char *apex_process_inserts(const char *text) {
     char *write = output;
     size_t remaining = capacity;
 
-    bool in_code_block = false;
-    bool in_inline_code = false;
-
     while (*read) {
-        /* Track code blocks (skip processing inside them) */
-        if (*read == '`') {
-            if (read[1] == '`' && read[2] == '`') {
-                in_code_block = !in_code_block;
-            } else if (!in_code_block) {
-                in_inline_code = !in_inline_code;
-            }
+        /* Code, HTML tags and URLs are left alone */
+        const char *inert_end = apex_skip_inert(text, read);
+        if (inert_end > read) {
+            size_t inert_len = (size_t)(inert_end - read);
+            memcpy(write, read, inert_len);
+            write += inert_len;
+            remaining -= inert_len;
+            read = inert_end;
+            continue;
         }
 
         /* Look for ++insert++ (not in code, not Critic Markup) */
@@ -90,11 +90,15 @@ char *apex_process_inserts(const char *text) {
                                      read[2] != '\r' && read[2] != ' ' && read[2] != '\t' &&
                                      !preceded_by_plus && !preceded_by_brace && !followed_by_plus);
 
-        if (!in_code_block && !in_inline_code && !is_critic && is_valid_insert_start) {
+        if (!is_critic && is_valid_insert_start) {
 
             /* Find closing ++ */
             const char *close = read + 2;
             while (*close && *close != '\n' && *close != '\r') {
+                if (*close == '`') {
+                    close = apex_skip_code(text, close);
+                    continue;
+                }
                 if (close[0] == '+' && close[1] == '+') {
                     /* Check closing ++ requirements:
                      * - Character after closing ++ is not +
diff --git a/src/extensions/sup_sub.c b/src/extensions/sup_sub.c
index c94cdf5..5b81918 100644
--- a/src/extensions/sup_sub.c
+++ b/src/extensions/sup_sub.c
@@ -5,34 +5,36 @@
  */
 
 #include "sup_sub.h"
+#include "code_skip.h"
 #include <string.h>
 #include <stdlib.h>
 #include <stdbool.h>
 #include <ctype.h>
 
-/** True if content at p looks like a list marker (- , * , + , or digit+. ) */
-static bool looks_like_list_marker(const char *p) {
-    if (*p == '-' || *p == '*' || *p == '+')
-        return (p[1] == ' ' || p[1] == '\t');
-    if (isdigit((unsigned char)*p)) {
-        while (isdigit((unsigned char)*p)) p++;
-        return (*p == '.' && (p[1] == ' ' || p[1] == '\t'));
+/**
+ * End of the math at p ($...$, $$...$$, \\(...\\) or \\[...\\]), or p if there is none
+ */
+static const char *skip_math(const char *text, const char *p) {
+    if (*p == '\\' && (p[1] == '(' || p[1] == '[')) {
+        const char close = p[1] == '(' ? ')' : ']';
+        for (const char *q = p + 2; *q; q++) {
+            if (*q == '\n' && apex_line_is_blank(q + 1)) break;
+            if (*q == '\\' && q[1] == close) return q + 2;
+        }
+        return p;
     }
-    return false;
-}
-
-/** True if we're at the start of a line that is an indented code block (4+ spaces or tab)
- * and not a list line. List lines (nested or continuation) should still get sup/sub. */
-static bool line_is_indented_code_block(const char *read) {
-    if (*read == '\t') {
-        return !looks_like_list_marker(read + 1);
+    if (*p != '$' || (p > text && p[-1] == '\\')) return p;
+    if (p[1] == '$') {
+        const char *end = strstr(p + 2, "$$");
+        return end ? end + 2 : p + 2;
     }
-    if (read[0] != ' ' || read[1] != ' ' || read[2] != ' ' || read[3] != ' ')
-        return false;
-    const char *content = read + 4;
-    while (*content == ' ')
-        content++;
-    return !looks_like_list_marker(content);
+    /* "$5 and $10" is no math: no blank just inside the delimiters */
+    if (isspace((unsigned char)p[1])) return p;
+    for (const char *q = p + 1; *q; q++) {
+        if (*q == '\n' && apex_line_is_blank(q + 1)) break;
+        if (*q == '$' && q[-1] != '\\') return isspace((unsigned char)q[-1]) ? p : q + 1;
+    }
+    return p;
 }
 
 /**
@@ -54,19 +56,9 @@ char *apex_process_sup_sub(const char *text) {
     char *write = output;
     size_t remaining = capacity;
 
-    bool in_code_block = false;
-    bool in_inline_code = false;
-    bool in_indented_code_block = false;
-    bool in_math_inline = false;
-    bool in_math_display = false;
     bool in_liquid = false;
 
     while (*read) {
-        /* At line start: indented code block only if 4+ spaces/tab and not a list line */
-        if (read == text || read[-1] == '\n') {
-            in_indented_code_block = line_is_indented_code_block(read);
-        }
-
         /* Track Liquid tags (skip processing inside them) */
         if (!in_liquid && *read == '{' && read[1] == '%') {
             in_liquid = true;
@@ -97,70 +89,25 @@ char *apex_process_sup_sub(const char *text) {
             }
             continue;
         }
-        /* Track fenced code blocks (skip processing inside them) */
-        if (*read == '`') {
-            if (read[1] == '`' && read[2] == '`') {
-                in_code_block = !in_code_block;
-            } else if (!in_code_block) {
-                in_inline_code = !in_inline_code;
-            }
-        }
-
-        /* Track math spans (skip processing inside them) */
-        bool handled_math = false;
-        if (!in_code_block && !in_inline_code && !in_indented_code_block) {
-            /* Check for display math: $$...$$ */
-            if (*read == '$' && read[1] == '$') {
-                in_math_display = !in_math_display;
-                if (remaining > 1) {
-                    *write++ = *read++;
-                    *write++ = *read++;
-                    remaining -= 2;
-                } else {
-                    read += 2;
-                }
-                handled_math = true;
-            }
-            /* Check for inline math: $...$ */
-            else if (*read == '$' && !in_math_display) {
-                /* Check if next char is not $ (to avoid matching $$) */
-                if (read[1] != '$') {
-                    /* If we're already in inline math, this is the closing delimiter */
-                    if (in_math_inline) {
-                        in_math_inline = false;
-                        /* Write the closing $ */
-                        if (remaining > 0) {
-                            *write++ = *read++;
-                            remaining--;
-                        } else {
-                            read++;
-                        }
-                        handled_math = true;
-                    }
-                    /* Otherwise, check if it's a valid opening delimiter (not whitespace) */
-                    else if (read[1] != '\0' && read[1] != ' ' && read[1] != '\t' && read[1] != '\n') {
-                        in_math_inline = true;
-                        /* Write the opening $ */
-                        if (remaining > 0) {
-                            *write++ = *read++;
-                            remaining--;
-                        } else {
-                            read++;
-                        }
-                        handled_math = true;
-                    }
-                }
-            }
+        /* Code, HTML tags and URLs are left alone */
+        const char *inert_end = apex_skip_inert(text, read);
+        if (inert_end > read) {
+            size_t inert_len = (size_t)(inert_end - read);
+            memcpy(write, read, inert_len);
+            write += inert_len;
+            remaining -= inert_len;
+            read = inert_end;
+            continue;
         }
 
-        /* Skip processing inside code or math */
-        if (handled_math || in_code_block || in_inline_code || in_indented_code_block || in_math_inline || in_math_display) {
-            if (!handled_math && remaining > 0) {
-                *write++ = *read++;
-                remaining--;
-            } else if (!handled_math) {
-                read++;
-            }
+        /* So is math */
+        const char *math_end = skip_math(text, read);
+        if (math_end > read) {
+            size_t math_len = (size_t)(math_end - read);
+            memcpy(write, read, math_len);
+            write += math_len;
+            remaining -= math_len;
+            read = math_end;
             continue;
         }
 
@@ -184,7 +131,7 @@ char *apex_process_sup_sub(const char *text) {
 
             /* Find end of word (stops at space, punctuation, ^, newline, or end of string) */
             /* Don't include sentence terminators in the superscript */
-            while (*content_end && *content_end != ' ' && *content_end != '\t' && *content_end != '\n' && *content_end != '^') {
+            while (*content_end && *content_end != ' ' && *content_end != '\t' && *content_end != '\n' && *content_end != '^' && *content_end != '`') {
                 /* Stop at sentence terminators: . , ; : ! ? */
                 if (*content_end == '.' || *content_end == ',' || *content_end == ';' ||
                     *content_end == ':' || *content_end == '!' || *content_end == '?') {
@@ -294,7 +241,7 @@ char *apex_process_sup_sub(const char *text) {
             /* First, check if the next character is a sentence terminator - if so, it's definitely subscript */
             bool is_likely_subscript = false;
             const char *check = content_start;
-            while (*check && *check != ' ' && *check != '\t' && *check != '\n' && *check != '~') {
+            while (*check && *check != ' ' && *check != '\t' && *check != '\n' && *check != '~' && *check != '`') {
                 if (*check == '.' || *check == ',' || *check == ';' || *check == ':' || *check == '!' || *check == '?') {
                     is_likely_subscript = true;
                     break;
@@ -307,6 +254,10 @@ char *apex_process_sup_sub(const char *text) {
                 /* Underline requires tildes at word boundaries, subscript requires tildes within a word */
                 const char *scan = content_start;
                 while (*scan && *scan != '\n') {
+                    if (*scan == '`') {
+                        scan = apex_skip_code(text, scan);
+                        continue;
+                    }
                     if (*scan == '~') {
                         /* Found a potential closing ~ */
                         /* First check: if this is part of a double-tilde (~~), skip it - strikethrough handles this */
@@ -367,7 +318,7 @@ char *apex_process_sup_sub(const char *text) {
             } else {
                 /* Subscript: find end of word (stops at space, punctuation, newline, or ~) */
                 /* Don't include sentence terminators in the subscript */
-                while (*content_end && *content_end != ' ' && *content_end != '\t' && *content_end != '\n' && *content_end != '~') {
+                while (*content_end && *content_end != ' ' && *content_end != '\t' && *content_end != '\n' && *content_end != '~' && *content_end != '`') {
                     /* Stop at sentence terminators: . , ; : ! ? */
                     if (*content_end == '.' || *content_end == ',' || *content_end == ';' ||
                         *content_end == ':' || *content_end == '!' || *content_end == '?') {
-- 
2.43.0


From 1d4beea9cfc15106c916e86d247cd0cd537baba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:27 +0000
Subject: [PATCH 58/66] fix: footnotes, special markers, change markup and
 index entries are not read in code

---
 src/extensions/critic.c           | 14 +++++++++++
 src/extensions/index.c            | 11 ++++++---
 src/extensions/inline_footnotes.c | 39 +++++++++++++------------------
 src/extensions/special_markers.c  | 12 ++++++++++
 4 files changed, 50 insertions(+), 26 deletions(-)

diff --git a/src/extensions/critic.c b/src/extensions/critic.c
index 1f86fe6..a1b8eba 100644
--- a/src/extensions/critic.c
+++ b/src/extensions/critic.c
@@ -4,6 +4,7 @@
  */
 
 #include "critic.h"
+#include "code_skip.h"
 #include <string.h>
 #include <stdlib.h>
 #include <stdbool.h>
@@ -287,6 +288,19 @@ char *apex_process_critic_markup_text(const char *text, critic_mode_t mode) {
     size_t remaining_capacity = output_capacity;
 
     while (*read_pos) {
+        /* Elements would show up as text in code */
+        if (mode == CRITIC_MARKUP) {
+            const char *code_end = apex_skip_code(text, read_pos);
+            if (code_end > read_pos) {
+                size_t code_len = (size_t)(code_end - read_pos);
+                memcpy(write_pos, read_pos, code_len);
+                write_pos += code_len;
+                remaining_capacity -= code_len;
+                read_pos = code_end;
+                continue;
+            }
+        }
+
         /* Look for { */
         if (*read_pos == '{') {
             int consumed;
diff --git a/src/extensions/index.c b/src/extensions/index.c
index 5330977..047a41d 100644
--- a/src/extensions/index.c
+++ b/src/extensions/index.c
@@ -4,6 +4,7 @@
  */
 
 #include "index.h"
+#include "code_skip.h"
 #include <string.h>
 #include <stdlib.h>
 #include <stdio.h>
@@ -521,23 +522,27 @@ char *apex_process_index_entries(const char *text, apex_index_registry *registry
     char *write = output;
     size_t remaining = capacity;
 
+    const char *code_end = text;  /* no entries in code: up to here */
+
     while (*read) {
         apex_index_entry *entry = NULL;
         int consumed = 0;
+        if (read >= code_end) code_end = apex_skip_code(text, read);
+        bool in_code = read < code_end;
 
         /* Try mmark syntax first if enabled */
-        if (options->enable_mmark_index_syntax) {
+        if (!in_code && options->enable_mmark_index_syntax) {
             consumed = parse_mmark_index(text, read - text, text_len, &entry);
         }
 
         /* Try TextIndex syntax if mmark didn't match and TextIndex is enabled */
         /* TextIndex uses {^} which we need to scan forward for */
-        if (!entry && options->enable_textindex_syntax && *read == '{' && read + 1 < text + text_len && read[1] == '^') {
+        if (!entry && !in_code && options->enable_textindex_syntax && *read == '{' && read + 1 < text + text_len && read[1] == '^') {
             consumed = parse_textindex(text, read - text, text_len, &entry);
         }
 
         /* Try Leanpub syntax if no match yet and Leanpub is enabled */
-        if (!entry && options->enable_leanpub_index_syntax && *read == '{' && read + 3 < text + text_len &&
+        if (!entry && !in_code && options->enable_leanpub_index_syntax && *read == '{' && read + 3 < text + text_len &&
             read[1] == 'i' && read[2] == ':') {
             consumed = parse_leanpub_index(text, read - text, text_len, &entry);
         }
diff --git a/src/extensions/inline_footnotes.c b/src/extensions/inline_footnotes.c
index b90242d..125cb64 100644
--- a/src/extensions/inline_footnotes.c
+++ b/src/extensions/inline_footnotes.c
@@ -4,6 +4,7 @@
  */
 
 #include "inline_footnotes.h"
+#include "code_skip.h"
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
@@ -52,9 +53,6 @@ char *apex_process_inline_footnotes(const char *text) {
     footnote_def **footnote_tail = &footnotes;
     int footnote_count = 0;
 
-    bool in_code_block = false;
-    bool in_code_span = false;
-
     #define WRITE_STR(str) do { \
         size_t slen = strlen(str); \
         if (slen < remaining) { \
@@ -72,25 +70,14 @@ char *apex_process_inline_footnotes(const char *text) {
     } while(0)
 
     while (*read) {
-        /* Track code blocks (don't process footnotes inside) */
-        if (strncmp(read, "```", 3) == 0 || strncmp(read, "~~~", 3) == 0) {
-            in_code_block = !in_code_block;
-            WRITE_CHAR(*read);
-            read++;
-            continue;
-        }
-
-        /* Track inline code spans */
-        if (*read == '`' && !in_code_block) {
-            in_code_span = !in_code_span;
-            WRITE_CHAR(*read);
-            read++;
-            continue;
-        }
-
-        if (in_code_block || in_code_span) {
-            WRITE_CHAR(*read);
-            read++;
+        /* No footnotes in code */
+        const char *code_end = apex_skip_code(text, read);
+        if (code_end > read) {
+            size_t code_len = (size_t)(code_end - read);
+            memcpy(write, read, code_len);
+            write += code_len;
+            remaining -= code_len;
+            read = code_end;
             continue;
         }
 
@@ -102,6 +89,10 @@ char *apex_process_inline_footnotes(const char *text) {
 
             /* Find matching ] */
             while (*end && bracket_depth > 0) {
+                if (*end == '`') {
+                    end = apex_skip_code(text, end);
+                    continue;
+                }
                 if (*end == '[') bracket_depth++;
                 else if (*end == ']') bracket_depth--;
                 if (bracket_depth > 0) end++;
@@ -141,7 +132,9 @@ char *apex_process_inline_footnotes(const char *text) {
             const char *end = start;
 
             /* Find closing ] */
-            while (*end && *end != ']' && *end != '\n') end++;
+            while (*end && *end != ']' && *end != '\n') {
+                end = *end == '`' ? apex_skip_code(text, end) : end + 1;
+            }
 
             if (*end == ']') {
                 int content_len = end - start;
diff --git a/src/extensions/special_markers.c b/src/extensions/special_markers.c
index 42ca2b7..7864722 100644
--- a/src/extensions/special_markers.c
+++ b/src/extensions/special_markers.c
@@ -4,6 +4,7 @@
  */
 
 #include "special_markers.h"
+#include "code_skip.h"
 #include <string.h>
 #include <stdlib.h>
 #include <stdio.h>
@@ -27,6 +28,17 @@ char *apex_process_special_markers(const char *text) {
     size_t remaining = capacity;
 
     while (*read) {
+        /* Code is left alone */
+        const char *code_end = apex_skip_code(text, read);
+        if (code_end > read) {
+            size_t code_len = (size_t)(code_end - read);
+            memcpy(write, read, code_len);
+            write += code_len;
+            remaining -= code_len;
+            read = code_end;
+            continue;
+        }
+
         /* Check for End of Block marker (Kramdown) */
         /* Pattern: ^ on a line by itself (with optional leading whitespace) */
         if (*read == '^') {
-- 
2.43.0


From 2e038b00003ee5413237c87ac19a5d3747fdd614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:27 +0000
Subject: [PATCH 59/66] fix: includes in tilde fences, indented code and long
 code spans stay text; fences keep their length

---
 src/extensions/includes.c | 134 ++++----------------------------------
 1 file changed, 11 insertions(+), 123 deletions(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index f5bd70d..16785fb 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -4,6 +4,7 @@
  */
 
 #include "includes.h"
+#include "code_skip.h"
 #include "metadata.h"
 #include <stdio.h>
 #include <stdlib.h>
@@ -951,101 +952,6 @@ static char *get_transclude_base(const char *base_dir, apex_metadata_item *metad
     return base_dir ? strdup(base_dir) : NULL;
 }
 
-/**
- * Normalize fenced code block delimiters to use odd numbers of backticks.
- * This ensures our simple toggle-based code span detection works correctly.
- * Only modifies fence delimiters at the start of lines, not backticks
- * inside code blocks.
- */
-static char *normalize_fence_delimiters(const char *text) {
-    if (!text) return NULL;
-
-    size_t len = strlen(text);
-    char *output = malloc(len * 2 + 1);  /* Allocate generously */
-    if (!output) return NULL;
-
-    char *write = output;
-    const char *read = text;
-    bool in_fenced_block = false;
-    int original_fence_length = 0;  /* Original count from opening fence */
-    int normalized_fence_length = 0; /* Normalized count (always odd) */
-
-    while (*read) {
-        /* Check if we're at the start of a line */
-        bool at_line_start = (read == text || read[-1] == '\n');
-
-        if (at_line_start && *read == '`') {
-            /* Count consecutive backticks */
-            int backtick_count = 0;
-            const char *backtick_start = read;
-            while (*read == '`') {
-                backtick_count++;
-                read++;
-            }
-
-            /* Check if this looks like a fence delimiter:
-             * - At least 3 backticks
-             * - Followed by optional language info and newline or end of text
-             */
-            bool is_fence = (backtick_count >= 3);
-            if (is_fence) {
-                /* Check what follows - should be whitespace, language info, or newline */
-                const char *after_backticks = read;
-                while (*after_backticks && *after_backticks != '\n' &&
-                       *after_backticks != '\r') {
-                    after_backticks++;
-                }
-
-                /* If we're closing a fence, check if it matches the original length */
-                if (in_fenced_block && backtick_count == original_fence_length) {
-                    /* Closing fence that matches opening - normalize to match the normalized opening fence */
-                    for (int i = 0; i < normalized_fence_length; i++) {
-                        *write++ = '`';
-                    }
-                    in_fenced_block = false;
-                    original_fence_length = 0;
-                    normalized_fence_length = 0;
-                } else if (!in_fenced_block) {
-                    /* Opening fence - normalize to odd number */
-                    if (backtick_count % 2 == 0) {
-                        /* Even number - add one backtick */
-                        normalized_fence_length = backtick_count + 1;
-                        for (int i = 0; i < normalized_fence_length; i++) {
-                            *write++ = '`';
-                        }
-                    } else {
-                        /* Already odd - copy as-is */
-                        normalized_fence_length = backtick_count;
-                        memcpy(write, backtick_start, backtick_count);
-                        write += backtick_count;
-                    }
-                    original_fence_length = backtick_count;
-                    in_fenced_block = true;
-                } else {
-                    /* Inside a code block but this doesn't match our fence - copy as-is */
-                    memcpy(write, backtick_start, backtick_count);
-                    write += backtick_count;
-                }
-
-                /* Copy the rest of the line */
-                while (read < after_backticks) {
-                    *write++ = *read++;
-                }
-            } else {
-                /* Not a fence delimiter - copy backticks as-is */
-                memcpy(write, backtick_start, backtick_count);
-                write += backtick_count;
-            }
-        } else {
-            /* Not at start of line or not a backtick - copy character */
-            *write++ = *read++;
-        }
-    }
-
-    *write = '\0';
-    return output;
-}
-
 /**
  * Append to the growing output; one byte is always kept for the terminator
  */
@@ -1074,20 +980,10 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
         return strdup(text);  /* Silently return original text */
     }
 
-    /* Normalize fenced code block delimiters to odd numbers of backticks
-     * so our toggle-based code span detection works correctly */
-    char *normalized_text = normalize_fence_delimiters(text);
-    if (!normalized_text) return NULL;
-
-    const char *text_to_process = normalized_text;
-
-    size_t text_len = strlen(text_to_process);
+    size_t text_len = strlen(text);
     size_t output_capacity = text_len + 1;  /* grows with every include */
     char *output = malloc(output_capacity);
-    if (!output) {
-        free(normalized_text);
-        return NULL;
-    }
+    if (!output) return NULL;
 
     /* Get effective base directory from transclude base metadata */
     char *effective_base_dir = get_transclude_base(base_dir, metadata);
@@ -1095,26 +991,19 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
         effective_base_dir = strdup(base_dir);
     }
 
-    const char *read_pos = text_to_process;
+    const char *read_pos = text;
     char *write_pos = output;
     size_t remaining = output_capacity;
-    bool in_code_span = false; /* Tracks inline/fenced code spans delimited by backticks */
+    const char *code_end = text; /* no includes in code: up to here */
 
     while (*read_pos) {
         bool processed_include = false;
 
-        /* Toggle code-span state on backticks so we can avoid
-         * processing include syntax that appears inside inline
-         * or fenced code (e.g. `<<[path/file]`). This is a simple
-         * state machine that treats all backticks as paired; it
-         * correctly covers common cases like single backtick code
-         * spans and triple-backtick fences. */
-        if (*read_pos == '`') {
-            in_code_span = !in_code_span;
-        }
+        if (read_pos >= code_end) code_end = apex_skip_code(text, read_pos);
+        bool in_code = read_pos < code_end;
 
         /* Look for iA Writer transclusion /filename (at start of line only) */
-        if (!in_code_span && read_pos[0] == '/' && (read_pos == text_to_process || read_pos[-1] == '\n')) {
+        if (!in_code && read_pos[0] == '/' && (read_pos == text || read_pos[-1] == '\n')) {
             const char *filepath_start = read_pos + 1;
             const char *filepath_end = filepath_start;
 
@@ -1200,7 +1089,7 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
         }
 
         /* Look for MMD transclusion {{file}} */
-        if (!processed_include && !in_code_span && read_pos[0] == '{' && read_pos[1] == '{') {
+        if (!processed_include && !in_code && read_pos[0] == '{' && read_pos[1] == '{') {
             const char *filepath_start = read_pos + 2;
             const char *filepath_end = strstr(filepath_start, "}}");
 
@@ -1317,8 +1206,8 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
         }
 
         /* Look for << (Marked syntax) at the very start of a line */
-        if (!processed_include && !in_code_span &&
-            (read_pos == text_to_process || read_pos[-1] == '\n') &&
+        if (!processed_include && !in_code &&
+            (read_pos == text || read_pos[-1] == '\n') &&
             read_pos[0] == '<' && read_pos[1] == '<') {
             char bracket_type = 0;
             const char *filepath_start = NULL;
@@ -1492,7 +1381,6 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
 
     /* Cleanup */
     if (effective_base_dir) free(effective_base_dir);
-    if (normalized_text) free(normalized_text);
 
     return output;
 }
-- 
2.43.0


From e0e39d0bd1d7f1bfbd8e4d57e54b86ae753a2da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:27 +0000
Subject: [PATCH 60/66] fix: indented code is no abbreviation, div or table

---
 src/extensions/abbreviations.c  |  78 +-----------
 src/extensions/fenced_divs.c    |  39 +-----
 src/extensions/inline_tables.c  | 203 ++++++++++++++++----------------
 src/extensions/relaxed_tables.c |  42 ++-----
 4 files changed, 122 insertions(+), 240 deletions(-)

diff --git a/src/extensions/abbreviations.c b/src/extensions/abbreviations.c
index 740e4b7..b9426f5 100644
--- a/src/extensions/abbreviations.c
+++ b/src/extensions/abbreviations.c
@@ -4,6 +4,7 @@
  */
 
 #include "abbreviations.h"
+#include "code_skip.h"
 #include <string.h>
 #include <strings.h>
 #include <stdlib.h>
@@ -34,70 +35,6 @@ static char *trim(char *str) {
     return str;
 }
 
-/**
- * Length of the fence (``` or ~~~) that the line at p starts with, 0 if none.
- * A line that closes a fence has nothing but spaces after it.
- */
-static size_t fence_length(const char *p, char *kind, bool *closing) {
-    size_t indent = strspn(p, " ");
-    if (indent > 3) return 0;
-    p += indent;
-    if (*p != '`' && *p != '~') return 0;
-    *kind = *p;
-    size_t run = 0;
-    while (p[run] == *kind) run++;
-    const char *rest = p + run;
-    rest += strspn(rest, " \t\r");
-    *closing = *rest == '\0' || *rest == '\n';
-    if (*kind == '`') {
-        while (*rest && *rest != '\n' && *rest != '`') rest++;
-        if (*rest == '`') return 0;
-    }
-    return run >= 3 ? run : 0;
-}
-
-/**
- * If the line at p opens a fenced code block, return the start of the line
- * after the block; otherwise return p.
- */
-static const char *skip_fenced_code(const char *p) {
-    char kind = 0, other = 0;
-    bool closing = false;
-    size_t opened = fence_length(p, &kind, &closing);
-    if (!opened) return p;
-    for (;;) {
-        p = strchr(p, '\n');
-        if (!p) return NULL;
-        p++;
-        size_t run = fence_length(p, &other, &closing);
-        if (run >= opened && other == kind && closing) {
-            const char *end = strchr(p, '\n');
-            return end ? end + 1 : NULL;
-        }
-    }
-}
-
-/**
- * If a code span starts at the backticks at p, return its end; otherwise the
- * end of the backticks.
- */
-static const char *skip_code_span(const char *p) {
-    size_t run = strspn(p, "`");
-    const char *q = p + run;
-    while (*q) {
-        if (*q == '`') {
-            size_t close = strspn(q, "`");
-            q += close;
-            if (close == run) return q;
-        } else if (*q == '\n' && q[1 + strspn(q + 1, " \t\r")] == '\n') {
-            break;
-        } else {
-            q++;
-        }
-    }
-    return p + run;
-}
-
 /**
  * Process MMD 6 inline abbreviations in text (before parsing)
  * Pattern: [>(abbr) expansion] → abbr (with definition added)
@@ -114,12 +51,7 @@ static char *process_inline_abbreviations(const char *text, abbr_item **abbrs_li
 
     while (*read) {
         /* Code is left alone */
-        const char *code_end = read;
-        if (read == text || read[-1] == '\n') {
-            code_end = skip_fenced_code(read);
-            if (!code_end) code_end = text + len;
-        }
-        if (code_end == read && *read == '`') code_end = skip_code_span(read);
+        const char *code_end = apex_skip_code(text, read);
         if (code_end > read) {
             memcpy(write, read, (size_t)(code_end - read));
             write += code_end - read;
@@ -211,9 +143,9 @@ abbr_item *apex_extract_abbreviations(char **text_ptr) {
         if (!line_end) line_end = line_start + strlen(line_start);
 
         /* Code is left alone */
-        const char *code_end = skip_fenced_code(line_start);
-        if (code_end != line_start) {
-            size_t code_len = code_end ? (size_t)(code_end - line_start) : strlen(line_start);
+        const char *code_end = apex_skip_code_block(text, line_start);
+        if (code_end > line_start) {
+            size_t code_len = (size_t)(code_end - line_start);
             memcpy(output_write, line_start, code_len);
             output_write += code_len;
             line_start += code_len;
diff --git a/src/extensions/fenced_divs.c b/src/extensions/fenced_divs.c
index b965ccb..9ad8209 100644
--- a/src/extensions/fenced_divs.c
+++ b/src/extensions/fenced_divs.c
@@ -4,6 +4,7 @@
  */
 
 #include "fenced_divs.h"
+#include "code_skip.h"
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -505,36 +506,6 @@ static bool is_cmark_block_tag(const char *tag_name) {
     return false;
 }
 
-/**
- * Track fenced code blocks (``` or ~~~) line by line
- * Returns true if the line is a code fence or lies inside a fenced code block
- */
-static bool update_code_fence(const char *line, char *fence_char, size_t *fence_len) {
-    const char *p = line;
-    while (*p == ' ' && p - line < 3) p++;
-
-    char c = *p;
-    size_t len = 0;
-    if (c == '`' || c == '~') {
-        while (p[len] == c) len++;
-    }
-    p += len;
-
-    if (*fence_char) {
-        if (c == *fence_char && len >= *fence_len) {
-            while (*p == ' ' || *p == '\t') p++;
-            if (!*p) *fence_char = 0;
-        }
-        return true;
-    }
-    if (len >= 3 && !(c == '`' && strchr(p, '`'))) {
-        *fence_char = c;
-        *fence_len = len;
-        return true;
-    }
-    return false;
-}
-
 /**
  * Process fenced divs in text
  */
@@ -550,9 +521,8 @@ char *apex_process_fenced_divs(const char *text) {
     char *write = output;
     size_t remaining = output_capacity;
 
-    /* Track fenced code blocks: their lines are never fences of divs */
-    char code_fence_char = 0;
-    size_t code_fence_len = 0;
+    /* End of the code block last seen: its lines are never fences of divs */
+    const char *code_end = text;
 
     /* Track nesting level for divs */
     typedef struct {
@@ -591,7 +561,8 @@ char *apex_process_fenced_divs(const char *text) {
         size_t colon_count = count_colons(line);
         const char *attr_start = NULL;
         size_t attr_len = 0;
-        bool in_code = update_code_fence(line, &code_fence_char, &code_fence_len);
+        if (read >= code_end) code_end = apex_skip_code_block(text, read);
+        bool in_code = read < code_end;
         bool is_opening = !in_code && is_opening_fence(line, colon_count, &attr_start, &attr_len);
         bool is_closing = !in_code && is_closing_fence(line, colon_count);
 
diff --git a/src/extensions/inline_tables.c b/src/extensions/inline_tables.c
index 679e841..201b408 100644
--- a/src/extensions/inline_tables.c
+++ b/src/extensions/inline_tables.c
@@ -4,6 +4,7 @@
  */
 
 #include "inline_tables.h"
+#include "code_skip.h"
 #include "includes.h"  /* for apex_csv_to_table */
 #include <string.h>
 #include <stdlib.h>
@@ -26,6 +27,19 @@ static int detect_delimiter(const char *start, const char *end) {
     return 0;
 }
 
+/* The backticks of the ```table fence that opens the line at p, NULL if none */
+static const char *find_table_fence(const char *p) {
+    p = apex_line_content(p, NULL);
+    for (;;) {
+        size_t marker = *p == '>' ? 1 : apex_list_marker_length(p);
+        if (!marker) break;
+        p = apex_line_content(p + marker, NULL);
+    }
+    if (strspn(p, "`") != 3) return NULL;
+    const char *info = p + 3 + strspn(p + 3, " \t");
+    return strncasecmp(info, "table", 5) == 0 && apex_line_is_blank(info + 5) ? p : NULL;
+}
+
 /* Process ```table fenced blocks and <!--TABLE--> markers */
 char *apex_process_inline_tables(const char *text) {
     if (!text) return NULL;
@@ -37,27 +51,37 @@ char *apex_process_inline_tables(const char *text) {
 
     const char *read = text;
     char *write = out;
+    const char *fence = NULL; /* of the table on this line */
 
     while (*read) {
-        /* ```table fenced block */
-        if (read[0] == '`' && read[1] == '`' && read[2] == '`') {
-            const char *line_start = read;
-            const char *p = read + 3;
-
-            /* Read info string until end of line */
-            while (*p && *p != '\n') p++;
-            const char *info_start = read + 3;
-            const char *info_end = p;
-            while (info_start < info_end && isspace((unsigned char)*info_start)) info_start++;
-            while (info_end > info_start && isspace((unsigned char)*(info_end - 1))) info_end--;
-
-            bool is_table_fence = false;
-            if (info_end > info_start) {
-                size_t info_len = (size_t)(info_end - info_start);
-                if (info_len == 5 && strncasecmp(info_start, "table", 5) == 0) {
-                    is_table_fence = true;
+        /* All other code is left alone */
+        if ((read == text || read[-1] == '\n') && !apex_indented_code_starts(text, read)) {
+            fence = find_table_fence(read);
+        }
+        const char *code_end = fence && fence >= read ? read : apex_skip_code(text, read);
+        if (code_end > read) {
+            size_t code_len = (size_t)(code_end - read);
+            if (write + code_len >= out + capacity) {
+                size_t used = (size_t)(write - out);
+                capacity = (used + code_len + 1) * 2;
+                char *tmp = realloc(out, capacity);
+                if (!tmp) {
+                    free(out);
+                    return strdup(text);
                 }
+                out = tmp;
+                write = out + used;
             }
+            memcpy(write, read, code_len);
+            write += code_len;
+            read = code_end;
+            continue;
+        }
+
+        /* ```table fenced block */
+        if (read == fence) {
+            const char *line_start = read;
+            const char *p = read + strcspn(read, "\n");
 
             /* Move past newline after fence line */
             if (*p == '\n') p++;
@@ -75,98 +99,45 @@ char *apex_process_inline_tables(const char *text) {
 
             const char *content_end = closing ? closing : text + len;
 
-            if (is_table_fence) {
-                int delim = detect_delimiter(content_start, content_end);
-                if (delim == 0) {
-                    /* No delimiter detected: emit original fence block unchanged */
-                    size_t block_len = (closing ? (p + 3 - line_start) : (text + len - line_start));
-                    if (write + block_len >= out + capacity) {
-                        size_t used = (size_t)(write - out);
-                        capacity = (used + block_len + 1) * 2;
-                        char *tmp = realloc(out, capacity);
-                        if (!tmp) {
-                            free(out);
-                            return strdup(text);
-                        }
-                        out = tmp;
-                        write = out + used;
-                    }
-                    memcpy(write, line_start, block_len);
-                    write += block_len;
-                    read = closing ? (p + 3) : (text + len);
-                    continue;
-                }
-
-                /* Convert to table */
-                bool is_tsv = (delim == '\t');
-                /* content_start..content_end may not be null-terminated */
-                size_t data_len = (size_t)(content_end - content_start);
-                char *data = malloc(data_len + 1);
-                if (!data) {
-                    free(out);
-                    return strdup(text);
-                }
-                memcpy(data, content_start, data_len);
-                data[data_len] = '\0';
-
-                char *table = apex_csv_to_table(data, is_tsv);
-                free(data);
-
-                if (!table) {
-                    /* Fallback: emit original block */
-                    size_t block_len = (closing ? (p + 3 - line_start) : (text + len - line_start));
-                    if (write + block_len >= out + capacity) {
-                        size_t used = (size_t)(write - out);
-                        capacity = (used + block_len + 1) * 2;
-                        char *tmp = realloc(out, capacity);
-                        if (!tmp) {
-                            free(out);
-                            return strdup(text);
-                        }
-                        out = tmp;
-                        write = out + used;
-                    }
-                    memcpy(write, line_start, block_len);
-                    write += block_len;
-                    read = closing ? (p + 3) : (text + len);
-                    continue;
-                }
-
-                size_t table_len = strlen(table);
-                /* Room for the table and the newline after its closing fence */
-                if (write + table_len + 1 >= out + capacity) {
+            int delim = detect_delimiter(content_start, content_end);
+            if (delim == 0) {
+                /* No delimiter detected: emit original fence block unchanged */
+                size_t block_len = (closing ? (p + 3 - line_start) : (text + len - line_start));
+                if (write + block_len >= out + capacity) {
                     size_t used = (size_t)(write - out);
-                    capacity = (used + table_len + 2) * 2;
+                    capacity = (used + block_len + 1) * 2;
                     char *tmp = realloc(out, capacity);
                     if (!tmp) {
                         free(out);
-                        free(table);
                         return strdup(text);
                     }
                     out = tmp;
                     write = out + used;
                 }
-                memcpy(write, table, table_len);
-                write += table_len;
-                free(table);
-
-                /* Skip closing fence line */
-                if (closing) {
-                    p += 3;
-                    while (*p && *p != '\n') p++;
-                    if (*p == '\n') {
-                        *write++ = '\n';
-                        p++;
-                    }
-                    read = p;
-                } else {
-                    read = text + len;
-                }
+                memcpy(write, line_start, block_len);
+                write += block_len;
+                read = closing ? (p + 3) : (text + len);
                 continue;
-            } else {
-                /* Not a table fence: copy as-is up to first char after closing fence */
-                const char *block_end = closing ? (p + 3) : (text + len);
-                size_t block_len = (size_t)(block_end - line_start);
+            }
+
+            /* Convert to table */
+            bool is_tsv = (delim == '\t');
+            /* content_start..content_end may not be null-terminated */
+            size_t data_len = (size_t)(content_end - content_start);
+            char *data = malloc(data_len + 1);
+            if (!data) {
+                free(out);
+                return strdup(text);
+            }
+            memcpy(data, content_start, data_len);
+            data[data_len] = '\0';
+
+            char *table = apex_csv_to_table(data, is_tsv);
+            free(data);
+
+            if (!table) {
+                /* Fallback: emit original block */
+                size_t block_len = (closing ? (p + 3 - line_start) : (text + len - line_start));
                 if (write + block_len >= out + capacity) {
                     size_t used = (size_t)(write - out);
                     capacity = (used + block_len + 1) * 2;
@@ -180,9 +151,41 @@ char *apex_process_inline_tables(const char *text) {
                 }
                 memcpy(write, line_start, block_len);
                 write += block_len;
-                read = block_end;
+                read = closing ? (p + 3) : (text + len);
                 continue;
             }
+
+            size_t table_len = strlen(table);
+            /* Room for the table and the newline after its closing fence */
+            if (write + table_len + 1 >= out + capacity) {
+                size_t used = (size_t)(write - out);
+                capacity = (used + table_len + 2) * 2;
+                char *tmp = realloc(out, capacity);
+                if (!tmp) {
+                    free(out);
+                    free(table);
+                    return strdup(text);
+                }
+                out = tmp;
+                write = out + used;
+            }
+            memcpy(write, table, table_len);
+            write += table_len;
+            free(table);
+
+            /* Skip closing fence line */
+            if (closing) {
+                p += 3;
+                while (*p && *p != '\n') p++;
+                if (*p == '\n') {
+                    *write++ = '\n';
+                    p++;
+                }
+                read = p;
+            } else {
+                read = text + len;
+            }
+            continue;
         }
 
         /* <!--TABLE--> marker */
diff --git a/src/extensions/relaxed_tables.c b/src/extensions/relaxed_tables.c
index 6e6251d..a966265 100644
--- a/src/extensions/relaxed_tables.c
+++ b/src/extensions/relaxed_tables.c
@@ -7,6 +7,7 @@
  */
 
 #include "relaxed_tables.h"
+#include "code_skip.h"
 #include <string.h>
 #include <stdlib.h>
 #include <stdbool.h>
@@ -226,33 +227,6 @@ static char *generate_dummy_header_row(int num_columns) {
     return header;
 }
 
-/**
- * Follow fenced code blocks: returns true if the line opens, closes or lies
- * inside one. State is the fence character (0 outside) and the fence length.
- */
-static bool track_code_fence(const char *line, size_t len, char *fence_char, size_t *fence_len) {
-    size_t i = 0;
-    while (i < len && i < 3 && line[i] == ' ') i++;
-
-    char c = i < len ? line[i] : '\0';
-    size_t run = 0;
-    if (c == '`' || c == '~') {
-        while (i + run < len && line[i + run] == c) run++;
-    }
-
-    if (*fence_char) {
-        if (c == *fence_char && run >= *fence_len && is_blank_line(line + i + run, len - i - run)) {
-            *fence_char = '\0';
-        }
-        return true;
-    }
-    if (run < 3) return false;
-    if (c == '`' && memchr(line + i + run, '`', len - i - run)) return false;  /* inline code */
-    *fence_char = c;
-    *fence_len = run;
-    return true;
-}
-
 /* Growing output buffer */
 typedef struct {
     char *data;
@@ -303,8 +277,8 @@ static char *apex_process_relaxed_tables_impl(const char *text,
     /* Inside a table that has its separator row already */
     bool in_table = false;
 
-    char fence_char = '\0';
-    size_t fence_len = 0;
+    /* End of the code block last seen */
+    const char *code_end = text;
 
     /* Track if we made any changes */
     bool made_changes = false;
@@ -323,7 +297,8 @@ static char *apex_process_relaxed_tables_impl(const char *text,
         size_t line_len = line_end - line_start;
         bool at_end = (*read == '\0');
 
-        bool in_code = !at_end && track_code_fence(line_start, line_len, &fence_char, &fence_len);
+        if (read >= code_end) code_end = apex_skip_code_block(text, read);
+        bool in_code = read < code_end;
         bool is_separator = false;
         bool is_rule = false;
         int columns = 0;
@@ -411,8 +386,8 @@ char *apex_process_headerless_tables(const char *text) {
     /* Track previous line for context */
     bool prev_line_is_table_row = false;
 
-    char fence_char = '\0';
-    size_t fence_len = 0;
+    /* End of the code block last seen */
+    const char *code_end = text;
 
     /* Track if we made any changes */
     bool made_changes = false;
@@ -432,7 +407,8 @@ char *apex_process_headerless_tables(const char *text) {
         const char *next_line_start = has_newline ? line_end + 1 : line_end;
 
         /* Check if this is a separator or table row (code blocks hold neither) */
-        bool in_code = track_code_fence(line_start, line_len, &fence_char, &fence_len);
+        if (read >= code_end) code_end = apex_skip_code_block(text, read);
+        bool in_code = read < code_end;
         bool is_separator = !in_code && is_separator_row(line_start, line_len);
         bool is_table = !in_code && count_columns(line_start, line_len) >= 0;
 
-- 
2.43.0


From 951a926a36fb82f9cd7d8b4f43925508432a34f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:08 +0000
Subject: [PATCH 61/66] fix: leave markdown-attribute elements in code alone
 and read their attributes to the end

---
 src/extensions/code_skip.h     |  2 +-
 src/extensions/html_markdown.c | 91 +++++++++++++++++++---------------
 2 files changed, 52 insertions(+), 41 deletions(-)

diff --git a/src/extensions/code_skip.h b/src/extensions/code_skip.h
index 9981494..119d461 100644
--- a/src/extensions/code_skip.h
+++ b/src/extensions/code_skip.h
@@ -178,7 +178,7 @@ static inline const char *apex_skip_tag(const char *p) {
     }
     if (!isspace((unsigned char)*q) && *q != '>' && *q != '/') return p;
     while (*q && *q != '>') {
-        if (*q == '\n' && apex_line_is_blank(q + 1)) return p;
+        if (*q == '<' || (*q == '\n' && apex_line_is_blank(q + 1))) return p;
         const char *close = *q == '"' || *q == '\'' ? strchr(q + 1, *q) : NULL;
         q = close ? close + 1 : q + 1;
     }
diff --git a/src/extensions/html_markdown.c b/src/extensions/html_markdown.c
index fc04981..560d3dc 100644
--- a/src/extensions/html_markdown.c
+++ b/src/extensions/html_markdown.c
@@ -4,6 +4,7 @@
  */
 
 #include "html_markdown.h"
+#include "code_skip.h"
 #include "ial.h"
 #include "../html_renderer.h"
 #include "cmark-gfm.h"
@@ -14,14 +15,44 @@
 #include <stdbool.h>
 
 /**
- * Find the next HTML tag with markdown attribute
+ * End of the attribute at p: the blank after it, or end. A quoted value may hold blanks.
+ */
+static const char *attribute_end(const char *p, const char *end) {
+    while (p < end && !isspace((unsigned char)*p)) {
+        const char *quote = *p == '"' || *p == '\'' ? memchr(p + 1, *p, (size_t)(end - p - 1)) : NULL;
+        p = quote ? quote + 1 : p + 1;
+    }
+    return p;
+}
+
+/**
+ * The '>' that closes the tag whose name ends at p, or NULL if this is no tag
+ */
+static const char *find_tag_end(const char *p) {
+    while (*p != '>') {
+        if (*p == '\0' || *p == '<' || (*p == '\n' && apex_line_is_blank(p + 1))) return NULL;
+        const char *quote = *p == '"' || *p == '\'' ? strchr(p + 1, *p) : NULL;
+        p = quote ? quote + 1 : p + 1;
+    }
+    return p;
+}
+
+/**
+ * Find the next HTML tag with markdown attribute from start on; text is what
+ * start points into. Tags in code are passed over.
  * Returns position of '<' or NULL if not found
  */
-static const char *find_markdown_tag(const char *text, char *tag_name, size_t tag_name_size,
+static const char *find_markdown_tag(const char *text, const char *start, char *tag_name, size_t tag_name_size,
                                      char *markdown_attr, size_t attr_size, size_t *tag_length) {
-    const char *pos = text;
+    const char *pos = start;
 
     while (*pos) {
+        const char *code_end = apex_skip_code(text, pos);
+        if (code_end > pos) {
+            pos = code_end;
+            continue;
+        }
+
         /* Find opening < */
         if (*pos == '<' && pos[1] != '/' && pos[1] != '!') {
             const char *tag_start = pos;
@@ -43,7 +74,7 @@ static const char *find_markdown_tag(const char *text, char *tag_name, size_t ta
             tag_name[name_len] = '\0';
 
             /* Look for markdown attribute in tag */
-            const char *tag_end = strchr(pos, '>');
+            const char *tag_end = find_tag_end(pos);
             if (!tag_end) {
                 pos = tag_start + 1;
                 continue;
@@ -91,12 +122,10 @@ static const char *find_markdown_tag(const char *text, char *tag_name, size_t ta
                 }
 
                 /* Move to next attribute */
-                while (attr_search < tag_end && !isspace((unsigned char)*attr_search)) {
-                    attr_search++;
-                }
+                attr_search = attribute_end(attr_search, tag_end);
             }
 
-            pos = tag_start + 1;
+            pos = tag_end + 1;
         } else {
             pos++;
         }
@@ -106,15 +135,21 @@ static const char *find_markdown_tag(const char *text, char *tag_name, size_t ta
 }
 
 /**
- * Find matching closing tag
- * Handles nested tags correctly
+ * Find matching closing tag from start on; text is what start points into
+ * Handles nested tags correctly and passes over code
  */
-static const char *find_closing_tag(const char *text, const char *tag_name) {
+static const char *find_closing_tag(const char *text, const char *start, const char *tag_name) {
     int depth = 1;
-    const char *pos = text;
+    const char *pos = start;
     size_t tag_len = strlen(tag_name);
 
     while (*pos && depth > 0) {
+        const char *code_end = apex_skip_code(text, pos);
+        if (code_end > pos) {
+            pos = code_end;
+            continue;
+        }
+
         if (*pos == '<') {
             /* Check for closing tag */
             if (pos[1] == '/' && strncasecmp(pos + 2, tag_name, tag_len) == 0 &&
@@ -180,7 +215,7 @@ char *apex_process_html_markdown(const char *text, void *img_attrs) {
         size_t tag_length;
 
         /* Find next HTML tag with markdown attribute */
-        const char *tag_start = find_markdown_tag(read_pos, tag_name, sizeof(tag_name),
+        const char *tag_start = find_markdown_tag(text, read_pos, tag_name, sizeof(tag_name),
                                                    markdown_attr, sizeof(markdown_attr), &tag_length);
 
         if (!tag_start) {
@@ -194,7 +229,7 @@ char *apex_process_html_markdown(const char *text, void *img_attrs) {
 
         /* Find content between tags */
         const char *content_start = tag_start + tag_length;
-        const char *closing_tag = find_closing_tag(content_start, tag_name);
+        const char *closing_tag = find_closing_tag(text, content_start, tag_name);
 
         if (!closing_tag) {
             /* No closing tag, just copy the opening tag */
@@ -283,37 +318,13 @@ char *apex_process_html_markdown(const char *text, void *img_attrs) {
                                 /* Check if this is the markdown attribute */
                                 if (strncmp(attr_pos, "markdown=", 9) == 0) {
                                     /* Skip markdown attribute */
-                                    attr_pos += 9;
-                                    /* Skip attribute value */
-                                    if (*attr_pos == '"' || *attr_pos == '\'') {
-                                        char quote = *attr_pos++;
-                                        while (attr_pos < attrs_end && *attr_pos != quote) {
-                                            if (*attr_pos == '\\' && attr_pos + 1 < attrs_end) attr_pos++;
-                                            attr_pos++;
-                                        }
-                                        if (*attr_pos == quote) attr_pos++;
-                                    } else {
-                                        while (attr_pos < attrs_end && !isspace((unsigned char)*attr_pos) && *attr_pos != '>') {
-                                            attr_pos++;
-                                        }
-                                    }
+                                    attr_pos = attribute_end(attr_pos, attrs_end);
                                     continue;
                                 }
 
                                 /* Copy this attribute */
                                 const char *attr_start = attr_pos;
-                                while (attr_pos < attrs_end && *attr_pos != '>') {
-                                    /* Check if we've reached the start of the next attribute */
-                                    if (attr_pos > attr_start && (isspace((unsigned char)*attr_pos) || *attr_pos == '>')) {
-                                        /* Check if next token is markdown= */
-                                        const char *next = attr_pos;
-                                        while (next < attrs_end && isspace((unsigned char)*next)) next++;
-                                        if (strncmp(next, "markdown=", 9) == 0) {
-                                            break; /* Stop before markdown attribute */
-                                        }
-                                    }
-                                    attr_pos++;
-                                }
+                                attr_pos = attribute_end(attr_pos, attrs_end);
 
                                 /* Copy attribute to the opening tag */
                                 hm_append(&out, " ", 1);
-- 
2.43.0


From 736aef4ad665518c04e6bbc811cfa44bf66c98bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:08 +0000
Subject: [PATCH 62/66] fix: take a manual heading ID from the end of the
 heading, and escape it

---
 src/extensions/header_ids.c | 142 ++++++++++++++++--------------------
 1 file changed, 64 insertions(+), 78 deletions(-)

diff --git a/src/extensions/header_ids.c b/src/extensions/header_ids.c
index 4deaae5..a4b83a4 100644
--- a/src/extensions/header_ids.c
+++ b/src/extensions/header_ids.c
@@ -570,6 +570,46 @@ static bool is_valid_mmd_id(const char *s) {
     return true;
 }
 
+/**
+ * Check if a link was written as a bare label, [id]: neither an inline link, which
+ * has its own destination, nor an autolink
+ */
+static bool is_bare_label_link(cmark_node *link_node, const char *label) {
+    const char *url = cmark_node_get_url(link_node);
+    if (url && strcmp(url, label) == 0) return false;
+    if (url && strncmp(url, "mailto:", 7) == 0 && strcmp(url + 7, label) == 0) return false;
+
+    int columns = cmark_node_get_end_column(link_node) - cmark_node_get_start_column(link_node) + 1;
+    return columns == (int)strlen(label) + 2;
+}
+
+/**
+ * Add an id attribute to the heading's attributes
+ */
+static void set_heading_id(cmark_node *heading_node, const char *id) {
+    const char *existing = (const char *)cmark_node_get_user_data(heading_node);
+    size_t existing_len = existing ? strlen(existing) : 0;
+    /* At most &quot; for each character, space, id="" and null */
+    char *attrs = malloc(existing_len + strlen(id) * 6 + 7);
+    if (!attrs) return;
+
+    char *write = attrs;
+    if (existing) write += sprintf(write, "%s ", existing);
+    write += sprintf(write, "id=\"");
+    for (; *id; id++) {
+        switch (*id) {
+            case '&': write += sprintf(write, "&amp;"); break;
+            case '<': write += sprintf(write, "&lt;"); break;
+            case '>': write += sprintf(write, "&gt;"); break;
+            case '"': write += sprintf(write, "&quot;"); break;
+            default: *write++ = *id; break;
+        }
+    }
+    *write++ = '"';
+    *write = '\0';
+    cmark_node_set_user_data(heading_node, attrs);
+}
+
 /**
  * Process manual header IDs in a heading node
  * Extracts MMD [id] or Kramdown {#id} syntax and stores ID in user_data
@@ -587,77 +627,40 @@ bool apex_process_manual_header_id(cmark_node *heading_node) {
         return false;
     }
 
-    /* Get the text node inside the heading */
-    cmark_node *text_node = cmark_node_first_child(heading_node);
-    if (!text_node || cmark_node_get_type(text_node) != CMARK_NODE_TEXT) {
-        goto try_trailing_link;
+    /* The ID ends the heading */
+    cmark_node *last = cmark_node_last_child(heading_node);
+    while (last && (cmark_node_get_type(last) == CMARK_NODE_SOFTBREAK ||
+                    cmark_node_get_type(last) == CMARK_NODE_LINEBREAK)) {
+        last = cmark_node_previous(last);
     }
-
-    const char *text = cmark_node_get_literal(text_node);
-    if (!text) goto try_trailing_link;
-
-    /* Extract text and try to find manual ID (MMD [id] or Kramdown {#id} in plain text) */
-    char *text_copy = strdup(text);
-    if (!text_copy) goto try_trailing_link;
-
-    char *manual_id = NULL;
-    bool found = apex_extract_manual_header_id(&text_copy, &manual_id);
-
-    if (found && manual_id) {
-        /* Store ID in user_data as id="..." */
-        char *id_attr = malloc(strlen(manual_id) + 6);  /* id="" + null */
-        if (id_attr) {
-            sprintf(id_attr, "id=\"%s\"", manual_id);
-
-            /* Merge with existing user_data if present */
-            char *existing = (char *)cmark_node_get_user_data(heading_node);
-            if (existing) {
-                /* Append to existing */
-                char *combined = malloc(strlen(existing) + strlen(id_attr) + 2);  /* + space + null */
-                if (combined) {
-                    sprintf(combined, "%s %s", existing, id_attr);
-                    cmark_node_set_user_data(heading_node, combined);
-                    free(id_attr);
-                } else {
-                    cmark_node_set_user_data(heading_node, id_attr);
-                }
-            } else {
-                cmark_node_set_user_data(heading_node, id_attr);
-            }
+    if (!last) return false;
+
+    if (cmark_node_get_type(last) == CMARK_NODE_TEXT) {
+        /* Extract text and try to find manual ID (MMD [id] or Kramdown {#id} in plain text) */
+        const char *text = cmark_node_get_literal(last);
+        char *text_copy = text ? strdup(text) : NULL;
+        char *manual_id = NULL;
+        bool found = text_copy && apex_extract_manual_header_id(&text_copy, &manual_id) && manual_id;
+        if (found) {
+            set_heading_id(heading_node, manual_id);
+
+            /* Update the text node to remove manual ID syntax */
+            cmark_node_set_literal(last, text_copy);
         }
-
-        /* Update the text node to remove manual ID syntax */
-        cmark_node_set_literal(text_node, text_copy);
-
-        free(manual_id);
         free(text_copy);
-        return true;
+        free(manual_id);
+        return found;
     }
 
-    free(text_copy);
-    if (manual_id) free(manual_id);
-
-try_trailing_link: {
     /* Edge case: [id] was parsed as a link (ref existed). If it's the last
      * element and there's other content, treat as MMD heading ID. */
-    cmark_node *last = NULL;
-    cmark_node *child = cmark_node_first_child(heading_node);
-    while (child) {
-        cmark_node_type t = cmark_node_get_type(child);
-        if (t != CMARK_NODE_SOFTBREAK && t != CMARK_NODE_LINEBREAK) {
-            last = child;
-        }
-        child = cmark_node_next(child);
-    }
-
-    if (!last || cmark_node_get_type(last) != CMARK_NODE_LINK) return false;
+    if (cmark_node_get_type(last) != CMARK_NODE_LINK) return false;
 
     /* Must have at least one sibling before the link (avoid empty headings) */
-    cmark_node *prev = cmark_node_previous(last);
-    if (!prev) return false;
+    if (!cmark_node_previous(last)) return false;
 
     char *link_text = get_link_label_text(last);
-    if (!link_text || !is_valid_mmd_id(link_text)) {
+    if (!link_text || !is_valid_mmd_id(link_text) || !is_bare_label_link(last, link_text)) {
         free(link_text);
         return false;
     }
@@ -673,25 +676,8 @@ try_trailing_link: {
     cmark_node_unlink(last);
     cmark_node_free(last);
 
-    char *id_attr = malloc(strlen(link_text) + 6);
-    if (id_attr) {
-        sprintf(id_attr, "id=\"%s\"", link_text);
-        char *existing = (char *)cmark_node_get_user_data(heading_node);
-        if (existing) {
-            char *combined = malloc(strlen(existing) + strlen(id_attr) + 2);
-            if (combined) {
-                sprintf(combined, "%s %s", existing, id_attr);
-                cmark_node_set_user_data(heading_node, combined);
-                free(id_attr);
-            } else {
-                cmark_node_set_user_data(heading_node, id_attr);
-            }
-        } else {
-            cmark_node_set_user_data(heading_node, id_attr);
-        }
-    }
+    set_heading_id(heading_node, link_text);
     free(link_text);
     return true;
-} /* try_trailing_link */
 }
 
-- 
2.43.0


From 382ef0ebf45a4dbd29695ff7aa70ef20e280ffa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:08 +0000
Subject: [PATCH 63/66] fix: index words and terms with letters outside ASCII,
 one group per letter

---
 src/extensions/index.c | 59 ++++++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 17 deletions(-)

diff --git a/src/extensions/index.c b/src/extensions/index.c
index 047a41d..2eb9028 100644
--- a/src/extensions/index.c
+++ b/src/extensions/index.c
@@ -20,7 +20,7 @@
  * Index terms can contain letters, digits, spaces, and common punctuation
  */
 static bool is_valid_index_char(char c) {
-    return isalnum(c) || c == ' ' || c == '-' || c == '_' || c == '/' ||
+    return isalnum((unsigned char)c) || (unsigned char)c >= 0x80 || c == ' ' || c == '-' || c == '_' || c == '/' ||
            c == '.' || c == ',' || c == ':' || c == ';' || c == '\'' || c == '"';
 }
 
@@ -216,8 +216,9 @@ static int parse_textindex(const char *text, int pos, int len,
         const char *word_start = word_end;
         int word_chars = 0;
         while (word_start > text && word_chars < 50) {
-            char c = word_start[-1];
-            if (isalnum(c) || c == ' ' || c == '-' || c == '_') {
+            unsigned char c = (unsigned char)word_start[-1];
+            /* Letters outside ASCII are letters as well */
+            if (isalnum(c) || c >= 0x80 || c == ' ' || c == '-' || c == '_') {
                 word_start--;
                 word_chars++;
             } else {
@@ -225,6 +226,9 @@ static int parse_textindex(const char *text, int pos, int len,
             }
         }
 
+        /* The limit does not split a character */
+        while (word_start < word_end && ((unsigned char)*word_start & 0xC0) == 0x80) word_start++;
+
         if (word_chars > 0) {
             size_t term_len = word_end - word_start;
             if (term_len > 0) {
@@ -716,21 +720,41 @@ static int compare_index_entries(const void *a, const void *b) {
 }
 
 /**
- * Get first letter of index term (for grouping)
+ * Get first letter of index term (for grouping): one character, in upper case if
+ * it is ASCII, or "?" if the term has none
  */
-static char get_first_letter(const char *term) {
-    if (!term || *term == '\0') return '?';
+static void get_first_letter(const char *term, char letter[5]) {
+    strcpy(letter, "?");
+    if (!term) return;
 
     /* Skip leading whitespace and punctuation */
-    while (*term && (!isalnum((unsigned char)*term))) {
+    while (*term && !isalnum((unsigned char)*term) && (unsigned char)*term < 0x80) {
         term++;
     }
+    if (!*term) return;
 
-    if (*term) {
-        return toupper((unsigned char)*term);
+    size_t len = 0;
+    letter[len++] = (char)toupper((unsigned char)*term);
+    if ((unsigned char)*term >= 0x80) {
+        letter[0] = *term;
+        while (len < 4 && ((unsigned char)term[len] & 0xC0) == 0x80) {
+            letter[len] = term[len];
+            len++;
+        }
     }
+    letter[len] = '\0';
+}
+
+/**
+ * Compare function for sorting index entries into the groups of their letters
+ */
+static int compare_grouped_entries(const void *a, const void *b) {
+    char letter_a[5], letter_b[5];
+    get_first_letter((*(const apex_index_entry **)a)->item, letter_a);
+    get_first_letter((*(const apex_index_entry **)b)->item, letter_b);
 
-    return '?';
+    int letter_cmp = strcmp(letter_a, letter_b);
+    return letter_cmp != 0 ? letter_cmp : compare_index_entries(a, b);
 }
 
 /**
@@ -751,7 +775,8 @@ char *apex_generate_index_html(apex_index_registry *registry, const apex_options
     }
 
     /* Sort entries */
-    qsort(entries, registry->count, sizeof(apex_index_entry *), compare_index_entries);
+    qsort(entries, registry->count, sizeof(apex_index_entry *),
+          options->group_index_by_letter ? compare_grouped_entries : compare_index_entries);
 
     /* Generate HTML */
     size_t capacity = 8192;
@@ -801,22 +826,22 @@ char *apex_generate_index_html(apex_index_registry *registry, const apex_options
 
     if (options->group_index_by_letter) {
         /* Group by first letter */
-        char current_letter = '\0';
+        char current_letter[5] = "";
         bool in_group = false;
 
         for (size_t i = 0; i < registry->count; i++) {
             apex_index_entry *entry = entries[i];
-            char letter = get_first_letter(entry->item);
+            char letter[5];
+            get_first_letter(entry->item, letter);
 
-            if (letter != current_letter) {
+            if (strcmp(letter, current_letter) != 0) {
                 if (in_group) {
                     APPEND("</ul>\n</dd>\n</dl>\n");
                 }
 
-                current_letter = letter;
-                char letter_str[2] = {letter, '\0'};
+                strcpy(current_letter, letter);
                 char group_html[256];
-                snprintf(group_html, sizeof(group_html), "<dl>\n<dt>%s</dt>\n<dd>\n<ul>\n", letter_str);
+                snprintf(group_html, sizeof(group_html), "<dl>\n<dt>%s</dt>\n<dd>\n<ul>\n", letter);
                 APPEND(group_html);
                 in_group = true;
             }
-- 
2.43.0


From b46c0a8c238b15a2ba62880f57bcfe6e056a5c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:08 +0000
Subject: [PATCH 64/66] fix: letters outside ASCII are part of the word around
 an abbreviation

---
 src/extensions/abbreviations.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/extensions/abbreviations.c b/src/extensions/abbreviations.c
index b9426f5..ee158f0 100644
--- a/src/extensions/abbreviations.c
+++ b/src/extensions/abbreviations.c
@@ -316,6 +316,25 @@ static const char *skip_markup(const char *p) {
     return end;
 }
 
+/**
+ * Check if the character at p belongs to a word: an ASCII letter or digit, or a
+ * letter of U+00C0..U+07FF, which is where alphabets whose words stand apart are
+ */
+static bool word_char_at(const char *p) {
+    unsigned char c = (unsigned char)p[0];
+    if (c < 0x80) return isalnum(c) != 0;
+    unsigned char next = (unsigned char)p[1];
+    if (c < 0xC3 || c > 0xDF || (next & 0xC0) != 0x80) return false;
+    return !(c == 0xC3 && (next == 0x97 || next == 0xB7));  /* Multiplication and division signs */
+}
+
+/** Check if the character before p belongs to a word */
+static bool word_char_before(const char *text, const char *p) {
+    if (p == text) return false;
+    if ((unsigned char)p[-1] < 0x80) return isalnum((unsigned char)p[-1]) != 0;
+    return p - text >= 2 && word_char_at(p - 2);
+}
+
 /**
  * Replace abbreviations in HTML
  */
@@ -404,8 +423,8 @@ char *apex_replace_abbreviations(const char *html, abbr_item *abbrs) {
             if (strncmp(read, escaped[2 * i], abbr_len) == 0) {
                 /* Check it's a whole word (not part of larger word) */
                 bool word_boundary = true;
-                if (read > html && isalnum((unsigned char)*(read - 1))) word_boundary = false;
-                if (isalnum((unsigned char)read[abbr_len])) word_boundary = false;
+                if (word_char_before(html, read)) word_boundary = false;
+                if (word_char_at(read + abbr_len)) word_boundary = false;
 
                 if (word_boundary) {
                     /* Replace with <abbr> tag */
-- 
2.43.0


From bf5b7db5db92867fbab7d48816c411a6240de065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:48 +0000
Subject: [PATCH 65/66] fix: a marker in code hides no later TOC marker, and
 data-id is no heading id

---
 src/extensions/toc.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/extensions/toc.c b/src/extensions/toc.c
index 07ca9ab..54a93c0 100644
--- a/src/extensions/toc.c
+++ b/src/extensions/toc.c
@@ -37,6 +37,9 @@ static void free_headers(header_item *headers) {
  */
 static char *explicit_id(const char *attrs) {
     const char *start = attrs ? strstr(attrs, "id=\"") : NULL;
+    while (start && start > attrs && !isspace((unsigned char)start[-1])) {
+        start = strstr(start + 4, "id=\"");  /* Another attribute, like data-id */
+    }
     if (!start) return NULL;
     start += 4;
     const char *end = strchr(start, '"');
@@ -298,14 +301,8 @@ static const char *find_toc_marker_not_in_code(const char *html, int *is_html_co
             return cand;
         }
 
-        /* This occurrence is inside code; skip past it and search again */
-        if (cand == next_comment) {
-            const char *end = strstr(cand, "-->");
-            p = end ? end + 3 : cand + 1;
-        } else {
-            const char *end = strstr(cand, "}}");
-            p = end ? end + 2 : cand + 1;
-        }
+        /* This occurrence is inside code; search again after it (its end may not be in the code) */
+        p = cand + 1;
     }
 }
 
-- 
2.43.0


From 83f29e00aa2dc83e53820b8bb7f8ceb2c6fe7b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:39 +0000
Subject: [PATCH 66/66] fix: emphasis that touches a word inside other emphasis
 stays emphasis in Markdown

---
 src/ast_markdown.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ast_markdown.c b/src/ast_markdown.c
index 12032a7..c4a6404 100644
--- a/src/ast_markdown.c
+++ b/src/ast_markdown.c
@@ -102,7 +102,7 @@ static void push_prefix(markdown_buffer *buf, const char *text, size_t len) {
 }
 
 static bool is_word_char(char c) {
-    return isalnum((unsigned char)c) || (unsigned char)c >= 0x80;
+    return c && !isspace((unsigned char)c) && !ispunct((unsigned char)c);
 }
 
 /* Whether the text at p (a '&') could be read as a character reference */
@@ -193,11 +193,23 @@ static bool is_emphasis(cmark_node *node) {
     return type == CMARK_NODE_EMPH || type == CMARK_NODE_STRONG;
 }
 
+/* Whether node starts or ends with emphasis that touches a word: its marks have to be * */
+static bool has_emphasis_in_word(cmark_node *node) {
+    cmark_node *first = cmark_node_first_child(node);
+    cmark_node *last = cmark_node_last_child(node);
+    if (is_emphasis(first) && is_word_char(following_char(first))) return true;
+    cmark_node *previous = is_emphasis(last) ? cmark_node_previous(last) : NULL;
+    if (!previous || cmark_node_get_type(previous) != CMARK_NODE_TEXT) return false;
+    const char *literal = cmark_node_get_literal(previous);
+    return literal && *literal && is_word_char(literal[strlen(literal) - 1]);
+}
+
 /* Emphasis is marked with *; with _ where * would run together with other emphasis */
 static void serialize_emphasis(markdown_buffer *buf, cmark_node *node, size_t count) {
     char outer = buf->emphasis_mark;
     char before = buf->len > buf->line_start ? buf->buf[buf->len - 1] : 0;
-    bool touches = before == '*' || outer == '*' || is_emphasis(cmark_node_next(node));
+    bool touches = before == '*' || outer == '*' || is_emphasis(cmark_node_next(node)) ||
+                   has_emphasis_in_word(node);
     bool in_word = is_word_char(before) || is_word_char(following_char(node));
     char mark = touches && before != '_' && outer != '_' && !in_word ? '_' : '*';
     buffer_repeat(buf, mark, count);
-- 
2.43.0

