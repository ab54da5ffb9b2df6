From 49f8aae108de25913084004da726d8b80485de1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:57 +0000
Subject: [PATCH 01/76] fix: do not leak local variables out of their template
 block

The renderer kept the local variables of the last entry/listing/listing_entry
block visible inside later listing_once/listing_empty blocks, and outside of
blocks after a skipped block.
---
 src/blogc/renderer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/blogc/renderer.c b/src/blogc/renderer.c
index 4822294..6d233b0 100644
--- a/src/blogc/renderer.c
+++ b/src/blogc/renderer.c
@@ -248,6 +248,10 @@ blogc_render(bc_slist_t *tmpl, bc_slist_t *sources, bc_slist_t *listing_entries,
             case BLOGC_TEMPLATE_NODE_BLOCK:
                 inside_block = true;
                 if_count = 0;
+                // local variables of previous blocks must not be visible in a
+                // listing, outside of the blocks that provided them
+                if (listing)
+                    tmp_source = NULL;
                 if (0 == strcmp("entry", node->data[0])) {
                     if (listing) {
 
-- 
2.43.0


From ab8df3e02741afd374a822f245aacf741f4d2307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:57 +0000
Subject: [PATCH 02/76] fix: keep template content when second to last
 character is '{'

A template finishing with '{' and any other single character had its whole
trailing content dropped.
---
 src/blogc/template-parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/blogc/template-parser.c b/src/blogc/template-parser.c
index 08b5685..7ffcb27 100644
--- a/src/blogc/template-parser.c
+++ b/src/blogc/template-parser.c
@@ -140,8 +140,9 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                     }
                     break;
                 }
+                // not a statement or variable, handle current char as content
                 state = TEMPLATE_START;
-                break;
+                continue;
 
             case TEMPLATE_BLOCK_START_WHITESPACE_CLEANER:
                 if (c == '-') {
-- 
2.43.0


From bd9a21c9a61857a86f5101fc53e3380496e7e174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:27 +0000
Subject: [PATCH 03/76] fix: clean whitespace only right after the template
 statement asking for it

'-%}' followed directly by a variable or statement removed the whitespace
found after that other variable or statement.
---
 src/blogc/template-parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/blogc/template-parser.c b/src/blogc/template-parser.c
index 7ffcb27..25b8049 100644
--- a/src/blogc/template-parser.c
+++ b/src/blogc/template-parser.c
@@ -127,7 +127,6 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                             node->data[0] = bc_strdup(bc_str_lstrip(tmp));
                             free(tmp);
                             tmp = NULL;
-                            lstrip_next = false;
                         }
                         else {
                             node->data[0] = bc_strndup(src + start, end - start);
@@ -138,6 +137,8 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                         previous = node;
                         node = NULL;
                     }
+                    // whitespaces are only cleaned right after the statement
+                    lstrip_next = false;
                     break;
                 }
                 // not a statement or variable, handle current char as content
-- 
2.43.0


From 4d70f0cd927a1f88d3b943aa0824e2909394fb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:08 +0000
Subject: [PATCH 04/76] fix: reject templates with an unterminated statement or
 variable

They were accepted, silently dropping the incomplete part. For closing
statements the renderer crashed later, looking for the missing node.
---
 src/blogc/template-parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blogc/template-parser.c b/src/blogc/template-parser.c
index 25b8049..a061abf 100644
--- a/src/blogc/template-parser.c
+++ b/src/blogc/template-parser.c
@@ -651,6 +651,9 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
         if (state == TEMPLATE_BLOCK_IF_STRING_OPERAND)
             *err = bc_error_parser(BLOGC_ERROR_TEMPLATE_PARSER, src, src_len,
                 start2, "Found an open double-quoted string.");
+        else if (state != TEMPLATE_START && state != TEMPLATE_OPEN_BRACKET)
+            *err = bc_error_new(BLOGC_ERROR_TEMPLATE_PARSER,
+                "An open statement or variable was not closed!");
         else if (if_count != 0)
             *err = bc_error_new_printf(BLOGC_ERROR_TEMPLATE_PARSER,
                 "%d open 'if', 'ifdef' and/or 'ifndef' statements were not closed!",
-- 
2.43.0


From 209396aa86a58237ce72dafbcef00525b69f8760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:03 +0000
Subject: [PATCH 05/76] fix: reject a second else after a nested conditional

The 'else' flag was shared by all the open conditionals, and any conditional
inside of an 'else' branch reset it.
---
 src/blogc/template-parser.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/blogc/template-parser.c b/src/blogc/template-parser.c
index a061abf..53ed42e 100644
--- a/src/blogc/template-parser.c
+++ b/src/blogc/template-parser.c
@@ -54,7 +54,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
 
     size_t if_count = 0;
     size_t block_if_count = 0;
-    bool else_open = false;
+    bc_string_t *else_open = bc_string_new();  // one flag for each open 'if'
     bool foreach_open = false;
     bool block_foreach_open = false;
 
@@ -230,7 +230,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                         type = BLOGC_TEMPLATE_NODE_IFDEF;
                         start = current;
                         if_count++;
-                        else_open = false;
+                        bc_string_append_c(else_open, 'n');
                         break;
                     }
                     else if ((current - start == 6) &&
@@ -240,7 +240,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                         type = BLOGC_TEMPLATE_NODE_IFNDEF;
                         start = current;
                         if_count++;
-                        else_open = false;
+                        bc_string_append_c(else_open, 'n');
                         break;
                     }
                     else if ((current - start == 2) &&
@@ -250,7 +250,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                         type = BLOGC_TEMPLATE_NODE_IF;
                         start = current;
                         if_count++;
-                        else_open = false;
+                        bc_string_append_c(else_open, 'n');
                         break;
                     }
                     else if ((current - start == 4) &&
@@ -259,10 +259,10 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                         if ((block_open && if_count > block_if_count) ||
                             (!block_open && if_count > 0))
                         {
-                            if (!else_open) {
+                            if (else_open->str[if_count - 1] == 'n') {
                                 state = TEMPLATE_BLOCK_END_WHITESPACE_CLEANER;
                                 type = BLOGC_TEMPLATE_NODE_ELSE;
-                                else_open = true;
+                                else_open->str[if_count - 1] = 'y';
                                 break;
                             }
                             *err = bc_error_parser(BLOGC_ERROR_TEMPLATE_PARSER,
@@ -285,8 +285,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                         {
                             state = TEMPLATE_BLOCK_END_WHITESPACE_CLEANER;
                             type = BLOGC_TEMPLATE_NODE_ENDIF;
-                            if_count--;
-                            else_open = false;
+                            else_open->len = --if_count;
                             break;
                         }
                         *err = bc_error_parser(BLOGC_ERROR_TEMPLATE_PARSER,
@@ -666,6 +665,8 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                 "An open 'foreach' statement was not closed!");
     }
 
+    bc_string_free(else_open, true);
+
     if (*err != NULL) {
         if (node != NULL) {
             free(node->data[0]);
-- 
2.43.0


From 98078cb7716ec9ba669637676f450baf66aa4f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:06 +0000
Subject: [PATCH 06/76] fix: reject garbage right after a variable operand in
 template conditionals

The character found right after the operand was silently ignored, whatever it
was, including a whitespace cleaner.
---
 src/blogc/template-parser.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/blogc/template-parser.c b/src/blogc/template-parser.c
index 53ed42e..e50fbec 100644
--- a/src/blogc/template-parser.c
+++ b/src/blogc/template-parser.c
@@ -475,8 +475,15 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
            case TEMPLATE_BLOCK_IF_VARIABLE_OPERAND:
                 if ((c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_')
                     break;
-                state = TEMPLATE_BLOCK_END_WHITESPACE_CLEANER;
-                end2 = current;
+                if (bc_isspace(c)) {
+                    state = TEMPLATE_BLOCK_END_WHITESPACE_CLEANER;
+                    end2 = current;
+                    break;
+                }
+                *err = bc_error_parser(BLOGC_ERROR_TEMPLATE_PARSER, src,
+                    src_len, current,
+                    "Invalid variable name. Must be uppercase letter, number "
+                    "or '_'.");
                 break;
 
             case TEMPLATE_BLOCK_FOREACH_START:
-- 
2.43.0


From 9a3acc9b4862978915ef279d8825ed3dd6916eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:52 +0000
Subject: [PATCH 07/76] fix: reject datetime strings with trailing characters

---
 src/blogc/datetime-parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blogc/datetime-parser.c b/src/blogc/datetime-parser.c
index 36f55f0..8e3ae4d 100644
--- a/src/blogc/datetime-parser.c
+++ b/src/blogc/datetime-parser.c
@@ -324,7 +324,9 @@ blogc_convert_datetime(const char *orig, const char *format,
                 break;
 
             case DATETIME_DONE:
-                // well, its done ;)
+                *err = bc_error_new_printf(BLOGC_WARNING_DATETIME_PARSER,
+                    "Invalid character after seconds. "
+                    "Found '%c', must be the end of the datetime string.", c);
                 break;
         }
 
-- 
2.43.0


From 0e22ff57cceb9e096288c81abb1937d3e0198374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 08/76] fix: format the date fields as written, reject
 nonexistent days

---
 src/blogc/datetime-parser.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/blogc/datetime-parser.c b/src/blogc/datetime-parser.c
index 8e3ae4d..de24cee 100644
--- a/src/blogc/datetime-parser.c
+++ b/src/blogc/datetime-parser.c
@@ -367,7 +367,33 @@ blogc_convert_datetime(const char *orig, const char *format,
         }
     }
 
+    static const int month_start[] = {
+        0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365};
+    int year = t.tm_year + 1900;
+    int leap = (year % 4 == 0 && year % 100 != 0) || year % 400 == 0;
+    tmp = month_start[t.tm_mon + 1] - month_start[t.tm_mon] +
+        (t.tm_mon == 1 ? leap : 0);
+    if (t.tm_mday > tmp) {
+        *err = bc_error_new_printf(BLOGC_WARNING_DATETIME_PARSER,
+            "Invalid day. Found %d, month has %d days.", t.tm_mday, tmp);
+        return NULL;
+    }
+
+    // mktime may change the fields, e.g. if the local time does not exists due
+    // to daylight saving time, but we want to format what the user provided.
+    struct tm orig_t = t;
     mktime(&t);
+    t.tm_year = orig_t.tm_year;
+    t.tm_mon = orig_t.tm_mon;
+    t.tm_mday = orig_t.tm_mday;
+    t.tm_hour = orig_t.tm_hour;
+    t.tm_min = orig_t.tm_min;
+    t.tm_sec = orig_t.tm_sec;
+    t.tm_yday = month_start[t.tm_mon] + t.tm_mday - 1 +
+        (t.tm_mon > 1 ? leap : 0);
+    year--;
+    t.tm_wday = (year * 365 + year / 4 - year / 100 + year / 400 +
+        t.tm_yday + 1) % 7;
 
     char buf[1024];
     if (0 == strftime(buf, sizeof(buf), format, &t)) {
-- 
2.43.0


From db102a328f891d58639a57614acd148009029e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:59 +0000
Subject: [PATCH 09/76] fix: truncate variables at character boundaries

---
 src/blogc/renderer.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/blogc/renderer.c b/src/blogc/renderer.c
index 6d233b0..21ec9af 100644
--- a/src/blogc/renderer.c
+++ b/src/blogc/renderer.c
@@ -172,7 +172,13 @@ blogc_format_variable(const char *name, bc_trie_t *global, bc_trie_t *local,
     free(var);
 
     if (len > 0) {
-        char *tmp = bc_strndup(rv, len);
+        // the length is counted in characters: do not split utf-8 sequences
+        size_t pos = 0;
+        for (; rv[pos] != '\0'; pos++) {
+            if ((rv[pos] & 0xc0) != 0x80 && len-- == 0)
+                break;
+        }
+        char *tmp = bc_strndup(rv, pos);
         free(rv);
         rv = tmp;
     }
-- 
2.43.0


From 6ae79140da9f5338ae035822be5ff0f6d89d6a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:32 +0000
Subject: [PATCH 10/76] fix: do not read past the end of strings ending with a
 backslash

---
 src/common/utils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/utils.c b/src/common/utils.c
index 7491ce6..2bdbdb5 100644
--- a/src/common/utils.c
+++ b/src/common/utils.c
@@ -315,7 +315,8 @@ bc_str_find(const char *str, char c)
         return (char*) str + strlen(str);
     for (size_t i = 0; str[i] != '\0'; i++) {
         if (str[i] == '\\') {
-            i++;
+            if (str[++i] == '\0')
+                break;
             continue;
         }
         if (str[i] == c) {
-- 
2.43.0


From bc8a8c81b2c1a53da9eacddec787c8d2320e9e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:40 +0000
Subject: [PATCH 11/76] fix: parse the end of configuration files and escaped
 values properly

---
 src/common/config-parser.c | 62 +++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 28 deletions(-)

diff --git a/src/common/config-parser.c b/src/common/config-parser.c
index 511d4ea..17570ba 100644
--- a/src/common/config-parser.c
+++ b/src/common/config-parser.c
@@ -75,13 +75,17 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
 
     bc_configparser_state_t state = CONFIG_START;
 
-    while (current < src_len) {
-        char c = src[current];
-        bool is_last = current == src_len - 1;
+    // the last line may be not terminated, handle it as if it was
+    while (current <= src_len) {
+        char c = current < src_len ? src[current] : '\n';
 
-        if (escaped) {
+        if (escaped && current < src_len) {
             bc_string_append_c(value, c);
             escaped = false;
+            if (state == CONFIG_SECTION_VALUE_START)
+                state = CONFIG_SECTION_VALUE;
+            else if (state == CONFIG_SECTION_LIST_START)
+                state = CONFIG_SECTION_LIST;
             current++;
             continue;
         }
@@ -103,7 +107,7 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
                     }
                     break;
                 }
-                if (c == ' ' || c == '\t' || c == '\r' || c == '\n')
+                if (bc_isspace(c))
                     break;
                 if (c == '[') {
                     state = CONFIG_SECTION_START;
@@ -130,7 +134,7 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
             case CONFIG_SECTION_START:
                 start = current;
                 state = CONFIG_SECTION;
-                break;
+                continue;
 
             case CONFIG_SECTION:
                 if (c == ']') {
@@ -162,32 +166,24 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
                 if (c != '\r' && c != '\n')
                     break;
                 *err = bc_error_parser(BC_ERROR_CONFIG_PARSER, src, src_len,
-                    current, "Section names can't have new lines.");
+                    current < src_len ? current : src_len - 1,
+                    "Section names can't have new lines.");
                 break;
 
             case CONFIG_SECTION_KEY:
                 if (c == '=') {
                     key = bc_strndup(src + start, current - start);
                     state = CONFIG_SECTION_VALUE_START;
-                    if (is_last) {
-                        bc_trie_insert(section->data, bc_str_strip(key),
-                            bc_strdup(""));
-                        free(key);
-                        key = NULL;
-                        break;
-                    }
                     if (value == NULL)
                         value = bc_string_new();
                     break;
                 }
-                if (c != '\r' && c != '\n' && !is_last)
+                if (c != '\r' && c != '\n')
                     break;
                 // key without value, should we support it?
-                size_t end = is_last && c != '\n' && c != '\r' ? src_len :
-                    current;
-                key = bc_strndup(src + start, end - start);
+                key = bc_strndup(src + start, current - start);
                 *err = bc_error_parser(BC_ERROR_CONFIG_PARSER, src, src_len,
-                    current, "Key without value: %s.", key);
+                    current < src_len ? current : src_len - 1, "Key without value: %s.", key);
                 free(key);
                 key = NULL;
                 break;
@@ -199,7 +195,7 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
                     state = CONFIG_SECTION_VALUE_QUOTE;
                     break;
                 }
-                if (c == '\r' || c == '\n' || is_last) {
+                if (c == '\r' || c == '\n') {
                     state = CONFIG_SECTION_VALUE;
                     continue;
                 }
@@ -208,6 +204,11 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
                 break;
 
             case CONFIG_SECTION_VALUE_QUOTE:
+                if (current == src_len) {
+                    *err = bc_error_parser(BC_ERROR_CONFIG_PARSER, src, src_len,
+                        current - 1, "Quoted value not terminated.");
+                    break;
+                }
                 if (c == '"') {
                     bc_trie_insert(section->data, bc_str_strip(key),
                         bc_string_free(value, false));
@@ -223,7 +224,7 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
             case CONFIG_SECTION_VALUE_POST_QUOTED:
                 if (c == ' ' || c == '\t' || c == '\f' || c == '\v')
                     break;
-                if (c == '\r' || c == '\n' || is_last) {
+                if (c == '\r' || c == '\n') {
                     state = CONFIG_START;
                     break;
                 }
@@ -233,9 +234,7 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
                 break;
 
             case CONFIG_SECTION_VALUE:
-                if (c == '\r' || c == '\n' || is_last) {
-                    if (is_last && c != '\r' && c != '\n')
-                        bc_string_append_c(value, c);
+                if (c == '\r' || c == '\n') {
                     bc_trie_insert(section->data, bc_str_strip(key),
                         bc_strdup(bc_str_rstrip(value->str)));
                     free(key);
@@ -255,11 +254,20 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
                     state = CONFIG_SECTION_LIST_QUOTE;
                     break;
                 }
+                if (c == '\r' || c == '\n') {
+                    state = CONFIG_SECTION_LIST;
+                    continue;
+                }
                 bc_string_append_c(value, c);
                 state = CONFIG_SECTION_LIST;
                 break;
 
             case CONFIG_SECTION_LIST_QUOTE:
+                if (current == src_len) {
+                    *err = bc_error_parser(BC_ERROR_CONFIG_PARSER, src, src_len,
+                        current - 1, "Quoted value not terminated.");
+                    break;
+                }
                 if (c == '"') {
                     section->data = bc_slist_append(section->data,
                         bc_string_free(value, false));
@@ -274,7 +282,7 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
             case CONFIG_SECTION_LIST_POST_QUOTED:
                 if (c == ' ' || c == '\t' || c == '\f' || c == '\v')
                     break;
-                if (c == '\r' || c == '\n' || is_last) {
+                if (c == '\r' || c == '\n') {
                     state = CONFIG_START;
                     break;
                 }
@@ -284,9 +292,7 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
                 break;
 
             case CONFIG_SECTION_LIST:
-                if (c == '\r' || c == '\n' || is_last) {
-                    if (is_last && c != '\r' && c != '\n')
-                        bc_string_append_c(value, c);
+                if (c == '\r' || c == '\n') {
                     section->data = bc_slist_append(section->data,
                         bc_strdup(bc_str_strip(value->str)));
                     bc_string_free(value, true);
-- 
2.43.0


From 2370d59b270842e375b0a91c798a8c29138f234b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:01 +0000
Subject: [PATCH 12/76] fix: do not drop one-byte contents of source files

---
 src/blogc/source-parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc/source-parser.c b/src/blogc/source-parser.c
index b6154bc..fc7e539 100644
--- a/src/blogc/source-parser.c
+++ b/src/blogc/source-parser.c
@@ -142,7 +142,7 @@ blogc_source_parse(const char *src, size_t src_len, int toctree_maxdepth,
                     break;
                 start = current;
                 state = SOURCE_CONTENT;
-                break;
+                continue;
 
             case SOURCE_CONTENT:
                 if (current == (src_len - 1)) {
-- 
2.43.0


From 7c6d990ab08a84e3b203a64ecfc755d797154508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:04 +0000
Subject: [PATCH 13/76] fix: report incomplete last variable of source files

---
 src/blogc/source-parser.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/blogc/source-parser.c b/src/blogc/source-parser.c
index fc7e539..d9f3b6e 100644
--- a/src/blogc/source-parser.c
+++ b/src/blogc/source-parser.c
@@ -215,13 +215,15 @@ blogc_source_parse(const char *src, size_t src_len, int toctree_maxdepth,
         current++;
     }
 
-    if (*err == NULL && bc_trie_size(rv) == 0) {
+    if (*err == NULL) {
 
-        // ok, nothing found in the config trie, but no error set either.
+        // ok, no error set, but the source file may be incomplete.
         // let's try to be nice with the users and provide some reasonable
         // output. :)
         switch (state) {
             case SOURCE_START:
+                if (bc_trie_size(rv) > 0)
+                    break;
                 *err = bc_error_parser(BLOGC_ERROR_SOURCE_PARSER, src, src_len,
                     current, "Your source file is empty.");
                 break;
-- 
2.43.0


From 7777679ad265144a993e5d773a6cf461e3f0b37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:08 +0000
Subject: [PATCH 14/76] fix: reject content separators with just one '-'

---
 src/blogc/source-parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/blogc/source-parser.c b/src/blogc/source-parser.c
index d9f3b6e..8596324 100644
--- a/src/blogc/source-parser.c
+++ b/src/blogc/source-parser.c
@@ -55,6 +55,7 @@ blogc_source_parse(const char *src, size_t src_len, int toctree_maxdepth,
                 }
                 if (c == '-') {
                     state = SOURCE_SEPARATOR;
+                    start = current;
                     break;
                 }
                 *err = bc_error_parser(BLOGC_ERROR_SOURCE_PARSER, src, src_len,
@@ -128,7 +129,7 @@ blogc_source_parse(const char *src, size_t src_len, int toctree_maxdepth,
             case SOURCE_SEPARATOR:
                 if (c == '-')
                     break;
-                if (c == '\n' || c == '\r') {
+                if ((c == '\n' || c == '\r') && current - start > 1) {
                     state = SOURCE_CONTENT_START;
                     break;
                 }
-- 
2.43.0


From beb272dff01e65c9c35420d13253a5e0deaf8e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:51 +0000
Subject: [PATCH 15/76] fix: report the right line for parser errors next to
 line endings

---
 src/common/error.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/common/error.c b/src/common/error.c
index 3522a5c..37b9e92 100644
--- a/src/common/error.c
+++ b/src/common/error.c
@@ -46,7 +46,7 @@ bc_error_parser(bc_error_type_t type, const char *src, size_t src_len,
 
     size_t lineno = 1;
     size_t linestart = 0;
-    size_t lineend = 0;
+    size_t lineend = src_len;
     size_t pos = 1;
 
     for (size_t i = 0; i < src_len; i++) {
@@ -56,19 +56,22 @@ bc_error_parser(bc_error_type_t type, const char *src, size_t src_len,
                 if ((c == '\n' && src[i + 1] == '\r') ||
                     (c == '\r' && src[i + 1] == '\n'))
                 {
+                    if (i + 1 == current) {  // error in the middle of the pair
+                        pos++;
+                        lineend = i;
+                        break;
+                    }
                     lineno++;
                     i++;
                     pos = 1;
-                    if ((i + 1) < src_len)
-                        linestart = i + 1;
+                    linestart = i + 1;
                     continue;
                 }
             }
             if (c == '\n' || c == '\r') {
                 lineno++;
                 pos = 1;
-                if ((i + 1) < src_len)
-                    linestart = i + 1;
+                linestart = i + 1;
                 continue;
             }
             pos++;
@@ -79,9 +82,6 @@ bc_error_parser(bc_error_type_t type, const char *src, size_t src_len,
         }
     }
 
-    if (lineend <= linestart && src_len >= linestart)
-        lineend = src_len;
-
     char *line = bc_strndup(src + linestart, lineend - linestart);
 
     bc_error_t *rv = NULL;
-- 
2.43.0


From 2cee868acf1bb8f3f1f347253d7da0fd3296c914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:47 +0000
Subject: [PATCH 16/76] fix: do not search for inline delimiters through
 invalid pointers

---
 src/blogc/content-parser.c | 52 ++++++++++++--------------------------
 1 file changed, 16 insertions(+), 36 deletions(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index fe2e84f..39d56bc 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -257,15 +257,10 @@ blogc_content_parse_inline_internal(const char *src, size_t src_len)
                 break;
 
             case CONTENT_INLINE_ASTERISK_DOUBLE:
-                tmp = src + current;
-                do {
-                    tmp = bc_str_find(tmp, '*');
-                    if (((tmp - src) < src_len) && *(tmp + 1) == '*') {
-                        break;
-                    }
-                    tmp++;
-                } while (tmp != NULL && (tmp - src) < src_len);
-                if (tmp == NULL || ((tmp - src) >= src_len)) {
+                tmp = bc_str_find(src + current, '*');
+                while (tmp != NULL && *(tmp + 1) != '*')
+                    tmp = bc_str_find(tmp + 1, '*');
+                if (tmp == NULL || ((tmp + 1 - src) >= src_len)) {
                     bc_string_append_c(rv, '*');
                     bc_string_append_c(rv, '*');
                     state = CONTENT_INLINE_START;
@@ -303,15 +298,10 @@ blogc_content_parse_inline_internal(const char *src, size_t src_len)
                 break;
 
             case CONTENT_INLINE_UNDERSCORE_DOUBLE:
-                tmp = src + current;
-                do {
-                    tmp = bc_str_find(tmp, '_');
-                    if (((tmp - src) < src_len) && *(tmp + 1) == '_') {
-                        break;
-                    }
-                    tmp++;
-                } while (tmp != NULL && (tmp - src) < src_len);
-                if (tmp == NULL || ((tmp - src) >= src_len)) {
+                tmp = bc_str_find(src + current, '_');
+                while (tmp != NULL && *(tmp + 1) != '_')
+                    tmp = bc_str_find(tmp + 1, '_');
+                if (tmp == NULL || ((tmp + 1 - src) >= src_len)) {
                     bc_string_append_c(rv, '_');
                     bc_string_append_c(rv, '_');
                     state = CONTENT_INLINE_START;
@@ -353,15 +343,10 @@ blogc_content_parse_inline_internal(const char *src, size_t src_len)
                 break;
 
             case CONTENT_INLINE_BACKTICKS_DOUBLE:
-                tmp = src + current;
-                do {
-                    tmp = bc_str_find(tmp, '`');
-                    if (((tmp - src) < src_len) && *(tmp + 1) == '`') {
-                        break;
-                    }
-                    tmp++;
-                } while (tmp != NULL && (tmp - src) < src_len);
-                if (tmp == NULL || ((tmp - src) >= src_len)) {
+                tmp = bc_str_find(src + current, '`');
+                while (tmp != NULL && *(tmp + 1) != '`')
+                    tmp = bc_str_find(tmp + 1, '`');
+                if (tmp == NULL || ((tmp + 1 - src) >= src_len)) {
                     bc_string_append_c(rv, '`');
                     bc_string_append_c(rv, '`');
                     state = CONTENT_INLINE_START;
@@ -392,15 +377,10 @@ blogc_content_parse_inline_internal(const char *src, size_t src_len)
                 break;
 
             case CONTENT_INLINE_LINK_AUTO:
-                tmp = src + current;
-                do {
-                    tmp = bc_str_find(tmp, ']');
-                    if (((tmp - src) < src_len) && *(tmp + 1) == ']') {
-                        break;
-                    }
-                    tmp++;
-                } while (tmp != NULL && (tmp - src) < src_len);
-                if (tmp == NULL || ((tmp - src) >= src_len)) {
+                tmp = bc_str_find(src + current, ']');
+                while (tmp != NULL && *(tmp + 1) != ']')
+                    tmp = bc_str_find(tmp + 1, ']');
+                if (tmp == NULL || ((tmp + 1 - src) >= src_len)) {
                     bc_string_append_c(rv, '[');
                     bc_string_append_c(rv, '[');
                     state = CONTENT_INLINE_START;
-- 
2.43.0


From 58c52a8acb56bcb2f50eb688728d66640555b52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:51 +0000
Subject: [PATCH 17/76] fix: do not drop double delimiters at the end of the
 text

---
 src/blogc/content-parser.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index 39d56bc..89669aa 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -590,17 +590,27 @@ blogc_content_parse_inline_internal(const char *src, size_t src_len)
             bc_string_append_escaped(rv, tmp2);  // no need to free, as it wil be done below.
             break;
 
+        // nothing after the double delimiters, they are not markup
+        case CONTENT_INLINE_ASTERISK_DOUBLE:
+            bc_string_append(rv, "**");
+            break;
+        case CONTENT_INLINE_UNDERSCORE_DOUBLE:
+            bc_string_append(rv, "__");
+            break;
+        case CONTENT_INLINE_BACKTICKS_DOUBLE:
+            bc_string_append(rv, "``");
+            break;
+        case CONTENT_INLINE_LINK_AUTO:
+            bc_string_append(rv, "[[");
+            break;
+
         // add all the other states here explicitly, so the compiler helps us
         // not missing any new state that should be handled.
         case CONTENT_INLINE_START:
         case CONTENT_INLINE_ASTERISK:
-        case CONTENT_INLINE_ASTERISK_DOUBLE:
         case CONTENT_INLINE_UNDERSCORE:
-        case CONTENT_INLINE_UNDERSCORE_DOUBLE:
         case CONTENT_INLINE_BACKTICKS:
-        case CONTENT_INLINE_BACKTICKS_DOUBLE:
         case CONTENT_INLINE_LINK_START:
-        case CONTENT_INLINE_LINK_AUTO:
         case CONTENT_INLINE_ENDASH:
         case CONTENT_INLINE_EMDASH:
         case CONTENT_INLINE_LINE_BREAK_START:
-- 
2.43.0


From a0b44bef964484d45ab3cddd9f21d670057c0000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:21 +0000
Subject: [PATCH 18/76] fix: parse again the text of unfinished inline links
 and images properly

---
 src/blogc/content-parser.c | 52 +++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index 89669aa..749c979 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -374,7 +374,7 @@ blogc_content_parse_inline_internal(const char *src, size_t src_len)
                 start_link = current;
                 count = 1;
                 state = CONTENT_INLINE_LINK_CONTENT;
-                break;
+                continue;
 
             case CONTENT_INLINE_LINK_AUTO:
                 tmp = bc_str_find(src + current, ']');
@@ -428,6 +428,8 @@ blogc_content_parse_inline_internal(const char *src, size_t src_len)
                 state = CONTENT_INLINE_START;
                 current = start_link;
                 start_link = 0;
+                free(link1);
+                link1 = NULL;
                 continue;
 
             case CONTENT_INLINE_LINK_URL:
@@ -487,6 +489,8 @@ blogc_content_parse_inline_internal(const char *src, size_t src_len)
                 state = CONTENT_INLINE_START;
                 current = start_link;
                 start_link = 0;
+                free(link1);
+                link1 = NULL;
                 continue;
 
             case CONTENT_INLINE_IMAGE_URL:
@@ -570,25 +574,32 @@ blogc_content_parse_inline_internal(const char *src, size_t src_len)
                 continue;
         }
         current++;
-    }
 
-    switch (state) {
-
-        // if after the end of the loop we are on any of the following states,
-        // we must call the parser again, from start_link
-        case CONTENT_INLINE_IMAGE_START:
-        case CONTENT_INLINE_IMAGE_ALT:
-        case CONTENT_INLINE_IMAGE_URL_START:
-        case CONTENT_INLINE_IMAGE_URL:
+        // if we reach the end of the text on any of the following states, the
+        // link or image was not finished, and we must parse again, from
+        // start_link
+        if (current < src_len)
+            continue;
+        if (state == CONTENT_INLINE_IMAGE_ALT ||
+            state == CONTENT_INLINE_IMAGE_URL_START ||
+            state == CONTENT_INLINE_IMAGE_URL)
+        {
             bc_string_append_c(rv, '!');
+        }
+        else if (state != CONTENT_INLINE_LINK_CONTENT &&
+                 state != CONTENT_INLINE_LINK_URL_START &&
+                 state != CONTENT_INLINE_LINK_URL)
+        {
+            continue;
+        }
+        bc_string_append_c(rv, '[');
+        state = CONTENT_INLINE_START;
+        current = start_link;
+        free(link1);
+        link1 = NULL;
+    }
 
-        case CONTENT_INLINE_LINK_CONTENT:
-        case CONTENT_INLINE_LINK_URL_START:
-        case CONTENT_INLINE_LINK_URL:
-            tmp2 = blogc_content_parse_inline(src + start_link);
-            bc_string_append_c(rv, '[');
-            bc_string_append_escaped(rv, tmp2);  // no need to free, as it wil be done below.
-            break;
+    switch (state) {
 
         // nothing after the double delimiters, they are not markup
         case CONTENT_INLINE_ASTERISK_DOUBLE:
@@ -611,6 +622,13 @@ blogc_content_parse_inline_internal(const char *src, size_t src_len)
         case CONTENT_INLINE_UNDERSCORE:
         case CONTENT_INLINE_BACKTICKS:
         case CONTENT_INLINE_LINK_START:
+        case CONTENT_INLINE_LINK_CONTENT:
+        case CONTENT_INLINE_LINK_URL_START:
+        case CONTENT_INLINE_LINK_URL:
+        case CONTENT_INLINE_IMAGE_START:
+        case CONTENT_INLINE_IMAGE_ALT:
+        case CONTENT_INLINE_IMAGE_URL_START:
+        case CONTENT_INLINE_IMAGE_URL:
         case CONTENT_INLINE_ENDASH:
         case CONTENT_INLINE_EMDASH:
         case CONTENT_INLINE_LINE_BREAK_START:
-- 
2.43.0


From 60a85e627959c07cec7e800f31d6f30fcd57609a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:19 +0000
Subject: [PATCH 19/76] fix: do not lose or join blocks at the end of contents
 and lines

The last line of a content is handled as if it was terminated, so that
single-line blocks are not lost anymore. Blocks that are found out to be
just paragraphs at the end of a line do not swallow the next paragraph,
and do not free their lines twice. Line endings can be mixed.
---
 src/blogc/content-parser.c | 136 +++++++++++++++++--------------------
 1 file changed, 61 insertions(+), 75 deletions(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index 749c979..ea05c74 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -733,11 +733,12 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
 
     blogc_content_parser_state_t state = CONTENT_START_LINE;
 
-    while (current < src_len) {
-        char c = src[current];
-        bool is_last = current == src_len - 1;
+    // the last block may be not terminated, handle it as if it was
+    while (current < src_len + 2) {
+        char c = current < src_len ? src[current] : '\n';
+        real_end = current;
 
-        if (c == '\n' || c == '\r') {
+        if (current < src_len && (c == '\n' || c == '\r')) {
             if ((current + 1) < src_len) {
                 if ((c == '\n' && src[current + 1] == '\r') ||
                     (c == '\r' && src[current + 1] == '\n'))
@@ -748,9 +749,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                         line_ending[2] = '\0';
                         line_ending_found = true;
                     }
-                    real_end = current;
                     c = src[++current];
-                    is_last = current == src_len - 1;
                 }
             }
             if (!line_ending_found) {
@@ -763,7 +762,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
         switch (state) {
 
             case CONTENT_START_LINE:
-                if (c == '\n' || c == '\r' || is_last)
+                if (c == '\n' || c == '\r')
                     break;
                 start = current;
                 if (c == '.') {
@@ -828,7 +827,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                     }
                 }
                 eend = 0;
-                state = CONTENT_PARAGRAPH_END;
+                state = CONTENT_PARAGRAPH;
                 break;
 
             case CONTENT_HEADER:
@@ -841,21 +840,24 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                     break;
                 }
                 state = CONTENT_PARAGRAPH;
+                if (current < src_len) {  // an empty header is joined to the next paragraph
+                    current++;
+                    continue;
+                }
                 break;
 
             case CONTENT_HEADER_TITLE_START:
                 if (c == ' ' || c == '\t')
                     break;
-                start = current;
+                start = real_end;
                 if (c != '\n' && c != '\r') {
                     state = CONTENT_HEADER_TITLE;
                     break;
                 }
 
             case CONTENT_HEADER_TITLE:
-                if (c == '\n' || c == '\r' || is_last) {
-                    end = is_last && c != '\n' && c != '\r' ? src_len :
-                        (real_end != 0 ? real_end : current);
+                if (c == '\n' || c == '\r') {
+                    end = real_end;
                     tmp = bc_strndup(src + start, end - start);
                     if (first_header != NULL && *first_header == NULL)
                         *first_header = blogc_htmlentities(tmp);
@@ -881,16 +883,14 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                 break;
 
             case CONTENT_HTML:
-                if (c == '\n' || c == '\r' || is_last) {
+                if (c == '\n' || c == '\r') {
                     state = CONTENT_HTML_END;
-                    end = is_last && c != '\n' && c != '\r' ? src_len :
-                        (real_end != 0 ? real_end : current);
+                    end = real_end;
                 }
-                if (!is_last)
-                    break;
+                break;
 
             case CONTENT_HTML_END:
-                if (c == '\n' || c == '\r' || is_last) {
+                if (c == '\n' || c == '\r') {
                     tmp = bc_strndup(src + start, end - start);
                     bc_string_append_printf(rv, "%s%s", tmp, line_ending);
                     free(tmp);
@@ -905,14 +905,14 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
             case CONTENT_BLOCKQUOTE:
                 if (c == ' ' || c == '\t')
                     break;
-                prefix = bc_strndup(src + start, current - start);
+                prefix = bc_strndup(src + start, real_end - start);
                 state = CONTENT_BLOCKQUOTE_START;
-                break;
+                if (c != '\n' && c != '\r')
+                    break;
 
             case CONTENT_BLOCKQUOTE_START:
-                if (c == '\n' || c == '\r' || is_last) {
-                    end = is_last && c != '\n' && c != '\r' ? src_len :
-                        (real_end != 0 ? real_end : current);
+                if (c == '\n' || c == '\r') {
+                    end = real_end;
                     tmp = bc_strndup(src + start2, end - start2);
                     if (bc_str_starts_with(tmp, prefix)) {
                         lines = bc_slist_append(lines, bc_strdup(tmp + strlen(prefix)));
@@ -924,20 +924,14 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                         prefix = NULL;
                         bc_slist_free_full(lines, free);
                         lines = NULL;
-                        if (is_last) {
-                            free(tmp);
-                            tmp = NULL;
-                            continue;
-                        }
                     }
                     free(tmp);
                     tmp = NULL;
                 }
-                if (!is_last)
-                    break;
+                break;
 
             case CONTENT_BLOCKQUOTE_END:
-                if (c == '\n' || c == '\r' || is_last) {
+                if (c == '\n' || c == '\r') {
                     tmp_str = bc_string_new();
                     for (bc_slist_t *l = lines; l != NULL; l = l->next)
                         bc_string_append_printf(tmp_str, "%s%s", l->data,
@@ -968,14 +962,17 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
             case CONTENT_CODE:
                 if (c == ' ' || c == '\t')
                     break;
+                if (c == '\n' || c == '\r') {  // blank line
+                    state = CONTENT_START_LINE;
+                    break;
+                }
                 prefix = bc_strndup(src + start, current - start);
                 state = CONTENT_CODE_START;
                 break;
 
             case CONTENT_CODE_START:
-                if (c == '\n' || c == '\r' || is_last) {
-                    end = is_last && c != '\n' && c != '\r' ? src_len :
-                        (real_end != 0 ? real_end : current);
+                if (c == '\n' || c == '\r') {
+                    end = real_end;
                     tmp = bc_strndup(src + start2, end - start2);
                     if (bc_str_starts_with(tmp, prefix)) {
                         lines = bc_slist_append(lines, bc_strdup(tmp + strlen(prefix)));
@@ -989,18 +986,15 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                         lines = NULL;
                         free(tmp);
                         tmp = NULL;
-                        if (is_last)
-                            continue;
                         break;
                     }
                     free(tmp);
                     tmp = NULL;
                 }
-                if (!is_last)
-                    break;
+                break;
 
             case CONTENT_CODE_END:
-                if (c == '\n' || c == '\r' || is_last) {
+                if (c == '\n' || c == '\r') {
                     bc_string_append(rv, "<pre><code>");
                     for (bc_slist_t *l = lines; l != NULL; l = l->next) {
                         char *tmp_line = blogc_htmlentities(l->data);
@@ -1038,16 +1032,15 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                 }
                 if (c == ' ' || c == '\t')
                     break;
-                prefix = bc_strndup(src + start, current - start);
+                prefix = bc_strndup(src + start, real_end - start);
                 state = CONTENT_UNORDERED_LIST_START;
-                break;
+                if (c != '\n' && c != '\r')
+                    break;
 
             case CONTENT_HORIZONTAL_RULE_OR_EMPHASIS:
                 // 3rd '-' or '*' required for a horizontal rule
                 if (c == d) {
                     state = CONTENT_HORIZONTAL_RULE;
-                    if (is_last)
-                        continue;
                     break;
                 }
                 // is '**' emphasis
@@ -1055,10 +1048,10 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                 break;
 
             case CONTENT_HORIZONTAL_RULE:
-                if (c == d && !is_last) {
+                if (c == d) {
                     break;
                 }
-                if (c == '\n' || c == '\r' || is_last) {
+                if (c == '\n' || c == '\r') {
                     bc_string_append_printf(rv, "<hr />%s", line_ending);
                     state = CONTENT_START_LINE;
                     start = current;
@@ -1069,9 +1062,8 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                 break;
 
             case CONTENT_UNORDERED_LIST_START:
-                if (c == '\n' || c == '\r' || is_last) {
-                    end = is_last && c != '\n' && c != '\r' ? src_len :
-                        (real_end != 0 ? real_end : current);
+                if (c == '\n' || c == '\r') {
+                    end = real_end;
                     tmp = bc_strndup(src + start2, end - start2);
                     tmp2 = bc_strdup_printf("%-*s", strlen(prefix), "");
                     if (bc_str_starts_with(tmp, prefix)) {
@@ -1098,7 +1090,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                         lines2 = bc_slist_append(lines2, bc_strdup(tmp + strlen(prefix)));
                     }
                     else {
-                        state = CONTENT_PARAGRAPH_END;
+                        state = CONTENT_PARAGRAPH;
                         free(tmp);
                         tmp = NULL;
                         free(tmp2);
@@ -1108,8 +1100,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                         bc_slist_free_full(lines, free);
                         bc_slist_free_full(lines2, free);
                         lines = NULL;
-                        if (is_last)
-                            continue;
+                        lines2 = NULL;
                         break;
                     }
                     free(tmp);
@@ -1118,11 +1109,10 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                     tmp2 = NULL;
                     state = CONTENT_UNORDERED_LIST_END;
                 }
-                if (!is_last)
-                    break;
+                break;
 
             case CONTENT_UNORDERED_LIST_END:
-                if (c == '\n' || c == '\r' || is_last) {
+                if (c == '\n' || c == '\r') {
                     if (lines2 != NULL) {
                         // FIXME: avoid repeting the code below
                         tmp_str = bc_string_new();
@@ -1167,22 +1157,19 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                     break;
                 }
                 state = CONTENT_PARAGRAPH;
-                if (is_last)
-                    continue;
                 break;
 
             case CONTENT_ORDERED_LIST_SPACE:
                 if (c == ' ' || c == '\t')
                     break;
-                prefix_len = current - start;
+                prefix_len = real_end - start;
                 state = CONTENT_ORDERED_LIST_START;
-                if (c != '\n' && c != '\r' && !is_last)
+                if (c != '\n' && c != '\r')
                     break;
 
             case CONTENT_ORDERED_LIST_START:
-                if (c == '\n' || c == '\r' || is_last) {
-                    end = is_last && c != '\n' && c != '\r' ? src_len :
-                        (real_end != 0 ? real_end : current);
+                if (c == '\n' || c == '\r') {
+                    end = real_end;
                     tmp = bc_strndup(src + start2, end - start2);
                     tmp2 = bc_strdup_printf("%-*s", prefix_len, "");
                     if (blogc_is_ordered_list_item(tmp, prefix_len)) {
@@ -1209,7 +1196,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                         lines2 = bc_slist_append(lines2, bc_strdup(tmp + prefix_len));
                     }
                     else {
-                        state = CONTENT_PARAGRAPH_END;
+                        state = CONTENT_PARAGRAPH;
                         free(tmp);
                         tmp = NULL;
                         free(tmp2);
@@ -1219,8 +1206,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                         bc_slist_free_full(lines, free);
                         bc_slist_free_full(lines2, free);
                         lines = NULL;
-                        if (is_last)
-                            continue;
+                        lines2 = NULL;
                         break;
                     }
                     free(tmp);
@@ -1229,11 +1215,10 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                     tmp2 = NULL;
                     state = CONTENT_ORDERED_LIST_END;
                 }
-                if (!is_last)
-                    break;
+                break;
 
             case CONTENT_ORDERED_LIST_END:
-                if (c == '\n' || c == '\r' || is_last) {
+                if (c == '\n' || c == '\r') {
                     if (lines2 != NULL) {
                         // FIXME: avoid repeting the code below
                         tmp_str = bc_string_new();
@@ -1271,16 +1256,10 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                 break;
 
             case CONTENT_PARAGRAPH:
-                if (c == '\n' || c == '\r' || is_last) {
-                    state = CONTENT_PARAGRAPH_END;
-                    end = is_last && c != '\n' && c != '\r' ? src_len :
-                        (real_end != 0 ? real_end : current);
-                }
-                if (!is_last)
-                    break;
+                break;
 
             case CONTENT_PARAGRAPH_END:
-                if (c == '\n' || c == '\r' || is_last) {
+                if (c == '\n' || c == '\r') {
                     tmp = bc_strndup(src + start, end - start);
                     if (description != NULL && *description == NULL)
                         *description = blogc_fix_description(tmp);
@@ -1300,6 +1279,13 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
 
         }
 
+        // this must be done here because other blocks may find out that they
+        // are just paragraphs at the end of a line.
+        if (state == CONTENT_PARAGRAPH && (c == '\n' || c == '\r')) {
+            state = CONTENT_PARAGRAPH_END;
+            end = real_end;
+        }
+
         current++;
     }
 
-- 
2.43.0


From b83b46a55065683748fec885a7f1181c734d4de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:41 +0000
Subject: [PATCH 20/76] fix: do not leak the prefix of list markers without
 items

---
 src/blogc/content-parser.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index ea05c74..5f3d16d 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -1032,10 +1032,13 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                 }
                 if (c == ' ' || c == '\t')
                     break;
+                if (c == '\n' || c == '\r') { // there is no list item
+                    state = CONTENT_PARAGRAPH;
+                    break;
+                }
                 prefix = bc_strndup(src + start, real_end - start);
                 state = CONTENT_UNORDERED_LIST_START;
-                if (c != '\n' && c != '\r')
-                    break;
+                break;
 
             case CONTENT_HORIZONTAL_RULE_OR_EMPHASIS:
                 // 3rd '-' or '*' required for a horizontal rule
-- 
2.43.0


From ba4831433c6f46da4095ebd7f47a91cddeac48cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:42 +0000
Subject: [PATCH 21/76] fix: do not return list file entries that can't be
 released

---
 src/blogc/filelist-parser.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/blogc/filelist-parser.c b/src/blogc/filelist-parser.c
index 1ffe0ad..c062284 100644
--- a/src/blogc/filelist-parser.c
+++ b/src/blogc/filelist-parser.c
@@ -42,8 +42,10 @@ blogc_filelist_parse(const char *src, size_t src_len)
                 if (c == '\r' || c == '\n' || is_last) {
                     if (is_last && c != '\r' && c != '\n')
                         bc_string_append_c(line, c);
-                    rv = bc_slist_append(rv, bc_str_strip(line->str));
-                    bc_string_free(line, false);
+                    // the stripped string may not start where the allocated
+                    // string does, it can't be free'd later.
+                    rv = bc_slist_append(rv, bc_strdup(bc_str_strip(line->str)));
+                    bc_string_free(line, true);
                     line = bc_string_new();
                     state = LINE_START;
                     break;
-- 
2.43.0


From 36a71a2f614e224319c5a9655dac0a929396d93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:15 +0000
Subject: [PATCH 22/76] fix: sort posts with dates that are decades apart

---
 src/blogc/loader.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/blogc/loader.c b/src/blogc/loader.c
index 4006084..ef5f6eb 100644
--- a/src/blogc/loader.c
+++ b/src/blogc/loader.c
@@ -116,10 +116,11 @@ sort_source(const void *a, const void *b)
         return 0;  // wat
     }
 
-    unsigned long la = strtoul(ca, NULL, 10);
-    unsigned long lb = strtoul(cb, NULL, 10);
+    // timestamps are negative before 1970, and differences may not fit an int
+    long long la = strtoll(ca, NULL, 10);
+    long long lb = strtoll(cb, NULL, 10);
 
-    return (int) (lb - la);
+    return (la < lb) - (la > lb);
 }
 
 
-- 
2.43.0


From 66e21fbb228556fb2415a0da7ba55c540d5a4a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 23/76] fix: do not divide by zero nor overflow when paginating

---
 src/blogc/loader.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/blogc/loader.c b/src/blogc/loader.c
index ef5f6eb..4f47b2b 100644
--- a/src/blogc/loader.c
+++ b/src/blogc/loader.c
@@ -1,9 +1,9 @@
 // SPDX-FileCopyrightText: 2014-2024 Rafael G. Martins <rafael@rafaelmartins.eng.br>
 // SPDX-License-Identifier: BSD-3-Clause
 
-#include <math.h>
 #include <stdbool.h>
 #include <stddef.h>
+#include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -234,7 +234,11 @@ blogc_source_parse_from_files(bc_trie_t *conf, bc_slist_t *l, bc_error_t **err)
         per_page = 0;
 
     // poor man's pagination
-    size_t start = (page - 1) * per_page;
+    size_t start = page - 1;
+    if (per_page > 0 && start > SIZE_MAX / 2 / per_page)
+        start = SIZE_MAX / 2;  // more than any listing, and won't overflow
+    else
+        start *= per_page;
     size_t end = start + per_page;
     size_t counter = 0;
 
@@ -298,7 +302,9 @@ blogc_source_parse_from_files(bc_trie_t *conf, bc_slist_t *l, bc_error_t **err)
     }
 
     if (filter_page != NULL) {
-        size_t last_page = ceilf(((float) counter) / per_page);
+        size_t last_page = 0;
+        if (per_page > 0)
+            last_page = counter / per_page + (counter % per_page != 0);
         bc_trie_insert(conf, "CURRENT_PAGE", bc_strdup_printf("%ld", page));
         if (page > 1)
             bc_trie_insert(conf, "PREVIOUS_PAGE", bc_strdup_printf("%ld", page - 1));
@@ -307,7 +313,7 @@ blogc_source_parse_from_files(bc_trie_t *conf, bc_slist_t *l, bc_error_t **err)
         if (bc_slist_length(rv) > 0)
             bc_trie_insert(conf, "FIRST_PAGE", bc_strdup("1"));
         if (last_page > 0)
-            bc_trie_insert(conf, "LAST_PAGE", bc_strdup_printf("%d", last_page));
+            bc_trie_insert(conf, "LAST_PAGE", bc_strdup_printf("%zu", last_page));
     }
 
     return rv;
-- 
2.43.0


From 28650bf7b2911919af32f3460962b9b480b9cfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:13 +0000
Subject: [PATCH 24/76] fix: report errors when reading files, instead of
 looping forever

---
 src/common/file.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/common/file.c b/src/common/file.c
index 121b91e..b633eb2 100644
--- a/src/common/file.c
+++ b/src/common/file.c
@@ -32,7 +32,7 @@ bc_file_get_contents(const char *path, bool utf8, size_t *len, bc_error_t **err)
     char buffer[BC_FILE_CHUNK_SIZE];
     char *tmp;
 
-    while (!feof(fp)) {
+    while (!feof(fp) && !ferror(fp)) {
         size_t read_len = fread(buffer, sizeof(char), BC_FILE_CHUNK_SIZE, fp);
 
         tmp = buffer;
@@ -48,6 +48,17 @@ bc_file_get_contents(const char *path, bool utf8, size_t *len, bc_error_t **err)
         *len += read_len;
         bc_string_append_len(str, tmp, read_len);
     }
+
+    if (ferror(fp)) {
+        int tmp_errno = errno;
+        *err = bc_error_new_printf(BC_ERROR_FILE,
+            "Failed to read file (%s): %s", path, strerror(tmp_errno));
+        fclose(fp);
+        bc_string_free(str, true);
+        *len = 0;
+        return NULL;
+    }
+
     fclose(fp);
 
     if (utf8 && !bc_utf8_validate_str(str)) {
-- 
2.43.0


From 3a0465fe52fa32bbb5b573b9ab6c369470fde9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:16 +0000
Subject: [PATCH 25/76] fix: do not handle errors when reading stdin as end of
 file

---
 src/blogc-git-receiver/pre-receive.c | 6 ++++++
 src/blogc/main.c                     | 6 ++++++
 src/common/stdin.c                   | 7 +++++++
 3 files changed, 19 insertions(+)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index b7235db..584a636 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -167,6 +167,12 @@ default_sym:
     else {
         size_t input_len;
         char *input = bc_stdin_read(&input_len);
+        if (input == NULL) {
+            fprintf(stderr, "error: failed to read list of updated references "
+                "from standard input\n");
+            rv = 1;
+            goto cleanup;
+        }
         bc_trie_t *branches = bgr_pre_receive_parse(input, input_len);
 
         // try 'master' by default to avoid breaking existing setups
diff --git a/src/blogc/main.c b/src/blogc/main.c
index fb28ca1..25dc61a 100644
--- a/src/blogc/main.c
+++ b/src/blogc/main.c
@@ -267,6 +267,12 @@ main(int argc, char **argv)
     if (input_stdin) {
         size_t input_len;
         char *input = bc_stdin_read(&input_len);
+        if (input == NULL) {
+            fprintf(stderr, "blogc: error: failed to read list of source files "
+                "from standard input\n");
+            rv = 1;
+            goto cleanup;
+        }
         bc_slist_t *input_list = blogc_filelist_parse(input, input_len);
         free(input);
         sources = bc_slist_append_list(sources, input_list);
diff --git a/src/common/stdin.c b/src/common/stdin.c
index 3bd9abc..d2a8c1a 100644
--- a/src/common/stdin.c
+++ b/src/common/stdin.c
@@ -18,6 +18,13 @@ bc_stdin_read(size_t *len)
     bc_string_t *rv = bc_string_new();
     while (EOF != (c = fgetc(stdin)))
         bc_string_append_c(rv, c);
+
+    if (ferror(stdin)) {
+        *len = 0;
+        bc_string_free(rv, true);
+        return NULL;
+    }
+
     *len = rv->len;
     return bc_string_free(rv, false);
 }
-- 
2.43.0


From df539ddaedf2e4395bd5adae5b7d597176cf65c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:20 +0000
Subject: [PATCH 26/76] fix: report errors when writing the output

---
 src/blogc/main.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/blogc/main.c b/src/blogc/main.c
index 25dc61a..80f1853 100644
--- a/src/blogc/main.c
+++ b/src/blogc/main.c
@@ -331,6 +331,11 @@ main(int argc, char **argv)
         }
         else {
             printf("%s\n", val);
+            if (0 != fflush(stdout)) {
+                fprintf(stderr, "blogc: error: failed to write to standard "
+                    "output: %s\n", strerror(errno));
+                rv = 1;
+            }
         }
         free(val);
         goto cleanup2;
@@ -369,11 +374,18 @@ main(int argc, char **argv)
         }
     }
 
-    if (out != NULL)
-        fprintf(fp, "%s", out);
+    bool written = true;
+    if (out != NULL && 0 > fprintf(fp, "%s", out))
+        written = false;
+
+    if (0 != (write_to_stdout ? fflush(fp) : fclose(fp)))
+        written = false;
 
-    if (!write_to_stdout)
-        fclose(fp);
+    if (!written) {
+        fprintf(stderr, "blogc: error: failed to write output file (%s): %s\n",
+            write_to_stdout ? "-" : output, strerror(errno));
+        rv = 1;
+    }
 
 cleanup4:
     free(out);
-- 
2.43.0


From 5f5335ac3481fc0d6f9caa2d67002766304b54c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:43 +0000
Subject: [PATCH 27/76] fix: exit with an error for invalid and incomplete
 options

---
 src/blogc/main.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/blogc/main.c b/src/blogc/main.c
index 80f1853..3d97d0a 100644
--- a/src/blogc/main.c
+++ b/src/blogc/main.c
@@ -151,6 +151,15 @@ main(int argc, char **argv)
     for (size_t i = 1; i < argc; i++) {
         tmp = NULL;
         if (argv[i][0] == '-') {
+            if (argv[i][1] != '\0' && argv[i][2] == '\0' && i + 1 >= argc &&
+                NULL != strchr("etopD", argv[i][1]))
+            {
+                blogc_print_usage();
+                fprintf(stderr, "blogc: error: argument -%c requires a value\n",
+                    argv[i][1]);
+                rv = 1;
+                goto cleanup;
+            }
             switch (argv[i][1]) {
                 case 'h':
                     blogc_print_help();
@@ -200,6 +209,7 @@ main(int argc, char **argv)
                         if (!bc_utf8_validate((uint8_t*) tmp, strlen(tmp))) {
                             fprintf(stderr, "blogc: error: invalid value for "
                                 "-D (must be valid UTF-8 string): %s\n", tmp);
+                            rv = 1;
                             goto cleanup;
                         }
                         pieces = bc_str_split(tmp, '=', 2);
@@ -210,6 +220,14 @@ main(int argc, char **argv)
                             rv = 1;
                             goto cleanup;
                         }
+                        if (pieces[0][0] == '\0') {
+                            fprintf(stderr, "blogc: error: invalid value for "
+                                "-D (configuration key must not be empty): %s\n",
+                                tmp);
+                            bc_strv_free(pieces);
+                            rv = 1;
+                            goto cleanup;
+                        }
                         for (size_t j = 0; pieces[0][j] != '\0'; j++) {
                             char c = pieces[0][j];
                             if (j == 0) {
-- 
2.43.0


From 6c7758b9f4f6008956168e8327397e42bf03390c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:53 +0000
Subject: [PATCH 28/76] fix: do not serve files outside of the document root

---
 src/blogc-runserver/httpd.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index a7293a2..6063e4c 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -53,6 +53,18 @@ error(int socket, int status_code, const char *error)
 }
 
 
+static bool
+is_inside(const char *root, const char *path)
+{
+    // both arguments must be already resolved with realpath(3)
+    size_t len = strlen(root);
+    if (len > 0 && root[len - 1] == '/')
+        len--;
+    return 0 == strncmp(root, path, len) &&
+        (path[len] == '/' || path[len] == '\0');
+}
+
+
 static void*
 handle_request(void *arg)
 {
@@ -115,7 +127,7 @@ handle_request(void *arg)
         goto point3;
     }
 
-    if (0 != strncmp(real_root, real_path, strlen(real_root))) {
+    if (!is_inside(real_root, real_path)) {
         status_code = 404;
         error(client_socket, 404, "Not Found");
         goto point4;
@@ -145,6 +157,16 @@ handle_request(void *arg)
 
         free(real_path);
         real_path = found;
+
+        // the index may be a link to somewhere else
+        char *real_index = realpath(real_path, NULL);
+        bool inside = real_index != NULL && is_inside(real_root, real_index);
+        free(real_index);
+        if (!inside) {
+            status_code = 404;
+            error(client_socket, 404, "Not Found");
+            goto point4;
+        }
     }
 
     if (0 != access(real_path, F_OK)) {
-- 
2.43.0


From 1ed061bbada73341516a1bf4da4d8a2dcbd7e01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:57 +0000
Subject: [PATCH 29/76] fix: do not crash on requests with an empty target

---
 src/blogc-runserver/httpd.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index 6063e4c..b991469 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -76,8 +76,10 @@ handle_request(void *arg)
     free(arg);
 
     char *conn_line = br_readline(client_socket);
-    if (conn_line == NULL || conn_line[0] == '\0')
+    if (conn_line == NULL || conn_line[0] == '\0') {
+        free(conn_line);
         goto point0;
+    }
 
     unsigned short status_code = 200;
 
@@ -95,15 +97,16 @@ handle_request(void *arg)
     }
 
     char **pieces2 = bc_str_split(pieces[1], '?', 2);
-    char *path = br_urldecode(pieces2[0]);
-    bc_strv_free(pieces2);
-
-    if (path == NULL) {
+    if (pieces2[0] == NULL) {
         status_code = 400;
         error(client_socket, 400, "Bad Request");
-        goto point2;
+        bc_strv_free(pieces2);
+        goto point1;
     }
 
+    char *path = br_urldecode(pieces2[0]);
+    bc_strv_free(pieces2);
+
     char *abs_path = bc_strdup_printf("%s/%s", docroot, path);
     char *real_path = realpath(abs_path, NULL);
     free(abs_path);
-- 
2.43.0


From 489edbd9bdeecf4c48b9112034936e41f617fd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:00 +0000
Subject: [PATCH 30/76] fix: send the complete response

---
 src/blogc-runserver/httpd.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index b991469..dda8b56 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -35,6 +35,23 @@ typedef struct {
 } request_data_t;
 
 
+static bool
+write_all(int socket, const char *buf, size_t len)
+{
+    while (len > 0) {
+        ssize_t n = write(socket, buf, len);
+        if (n < 0) {
+            if (errno == EINTR)
+                continue;
+            return false;
+        }
+        buf += n;
+        len -= n;
+    }
+    return true;
+}
+
+
 static void
 error(int socket, int status_code, const char *error)
 {
@@ -46,7 +63,7 @@ error(int socket, int status_code, const char *error)
         "\r\n"
         "<h1>%s</h1>\n", status_code, error, strlen(error) + 10, error);
     size_t str_len = strlen(str);
-    if (str_len != write(socket, str, str_len)) {
+    if (!write_all(socket, str, str_len)) {
         fprintf(stderr, "warning: Failed to write full response header!\n");
     }
     free(str);
@@ -189,7 +206,7 @@ handle_request(void *arg)
             "\r\n", path);
         status_code = 302;
         size_t tmp_len = strlen(tmp);
-        if (tmp_len != write(client_socket, tmp, tmp_len)) {
+        if (!write_all(client_socket, tmp, tmp_len)) {
             fprintf(stderr, "warning: Failed to write full response header!\n");
         }
         free(tmp);
@@ -213,14 +230,13 @@ handle_request(void *arg)
         "Connection: close\r\n"
         "\r\n", br_mime_guess_content_type(real_path), len);
     size_t out_len = strlen(out);
-    if (out_len != write(client_socket, out, out_len)) {
+    if (!write_all(client_socket, out, out_len)) {
         fprintf(stderr, "warning: Failed to write full response header!\n");
     }
-    free(out);
-
-    if (len != write(client_socket, contents, len)) {
+    else if (!write_all(client_socket, contents, len)) {
         fprintf(stderr, "warning: Failed to write full response body!\n");
     }
+    free(out);
     free(contents);
 
 point4:
-- 
2.43.0


From 01f3efac6fdbe7ae15c54f332902c2b9b7737b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:03 +0000
Subject: [PATCH 31/76] fix: redirect to the path as requested

---
 src/blogc-runserver/httpd.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index dda8b56..1516ec0 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -122,7 +122,6 @@ handle_request(void *arg)
     }
 
     char *path = br_urldecode(pieces2[0]);
-    bc_strv_free(pieces2);
 
     char *abs_path = bc_strdup_printf("%s/%s", docroot, path);
     char *real_path = realpath(abs_path, NULL);
@@ -198,12 +197,18 @@ handle_request(void *arg)
     if (add_slash) {
         // production webservers usually returns 301 in such cases, but 302 is
         // better for development/testing.
+        //
+        // the location is built from the path as it was requested, that is
+        // still encoded, and must not look like an url without scheme.
+        const char *location = pieces2[0];
+        while (location[0] == '/' && location[1] == '/')
+            location++;
         char *tmp = bc_strdup_printf(
             "HTTP/1.0 302 Found\r\n"
             "Location: %s/\r\n"
             "Content-Length: 0\r\n"
             "Connection: close\r\n"
-            "\r\n", path);
+            "\r\n", location);
         status_code = 302;
         size_t tmp_len = strlen(tmp);
         if (!write_all(client_socket, tmp, tmp_len)) {
@@ -245,6 +250,7 @@ point3:
     free(real_path);
 point2:
     free(path);
+    bc_strv_free(pieces2);
 point1:
     fprintf(stderr, "[Thread-%zu] %s - - \"%s\" %d\n", thread_id + 1,
         ip, conn_line, status_code);
-- 
2.43.0


From cdcd469546dbc073aae5f5a6e7a70b6c2e464338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:07 +0000
Subject: [PATCH 32/76] fix: read the complete request line

---
 src/blogc-runserver/httpd-utils.c | 34 +++++++++++++++++++++++++++++++
 src/blogc-runserver/httpd-utils.h |  1 +
 src/blogc-runserver/httpd.c       |  2 +-
 3 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/blogc-runserver/httpd-utils.c b/src/blogc-runserver/httpd-utils.c
index aa0be27..c871040 100644
--- a/src/blogc-runserver/httpd-utils.c
+++ b/src/blogc-runserver/httpd-utils.c
@@ -1,8 +1,11 @@
 // SPDX-FileCopyrightText: 2014-2024 Rafael G. Martins <rafael@rafaelmartins.eng.br>
 // SPDX-License-Identifier: BSD-3-Clause
 
+#include <errno.h>
 #include <stdbool.h>
 #include <string.h>
+#include <sys/types.h>
+#include <sys/socket.h>
 #include <unistd.h>
 #include "../common/utils.h"
 #include "httpd-utils.h"
@@ -37,6 +40,37 @@ br_readline(int socket)
 }
 
 
+char*
+br_read_request(int socket)
+{
+    // the request line may arrive in pieces. it is complete when its line
+    // ending arrives, or when the client won't send anything else.
+    bc_string_t *rv = bc_string_new();
+    char buffer[READLINE_BUFFER_SIZE];
+    ssize_t len;
+    bool end = false;
+
+    while (!end) {
+        len = read(socket, buffer, READLINE_BUFFER_SIZE);
+        if (len < 0 && errno == EINTR)
+            continue;
+        if (len <= 0)
+            break;
+        for (ssize_t i = 0; i < len && !end; i++) {
+            if (buffer[i] == '\r' || buffer[i] == '\n' || buffer[i] == '\0')
+                end = true;
+            else
+                bc_string_append_c(rv, buffer[i]);
+        }
+    }
+
+    // exhaust the request data already available, without waiting for more.
+    while (end && 0 < recv(socket, buffer, READLINE_BUFFER_SIZE, MSG_DONTWAIT));
+
+    return bc_string_free(rv, false);
+}
+
+
 int
 br_hextoi(const char c)
 {
diff --git a/src/blogc-runserver/httpd-utils.h b/src/blogc-runserver/httpd-utils.h
index db638ad..afc65bc 100644
--- a/src/blogc-runserver/httpd-utils.h
+++ b/src/blogc-runserver/httpd-utils.h
@@ -6,6 +6,7 @@
 #define READLINE_BUFFER_SIZE 2048
 
 char* br_readline(int socket);
+char* br_read_request(int socket);
 int br_hextoi(const char c);
 char* br_urldecode(const char *str);
 const char* br_get_extension(const char *filename);
diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index 1516ec0..10f6db9 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -92,7 +92,7 @@ handle_request(void *arg)
     const char *docroot = req->docroot;
     free(arg);
 
-    char *conn_line = br_readline(client_socket);
+    char *conn_line = br_read_request(client_socket);
     if (conn_line == NULL || conn_line[0] == '\0') {
         free(conn_line);
         goto point0;
-- 
2.43.0


From e572f1cb53ab5b9b16ad08e653716d027f79c985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:10 +0000
Subject: [PATCH 33/76] fix: do not stop the server if a connection is aborted

---
 src/blogc-runserver/httpd.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index 10f6db9..f81a1f6 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -410,6 +410,9 @@ br_httpd_run(const char *host, const char *port, const char *docroot,
 
         int client_socket = accept(server_socket, client_addr, &addrlen);
         if (client_socket == -1) {
+            // the connection is gone already, or we just need to try again
+            if (errno == ECONNABORTED || errno == EINTR)
+                continue;
             fprintf(stderr, "Failed to accept connection: %s\n", strerror(errno));
             rv = 1;
             goto cleanup;
-- 
2.43.0


From 75919ec08b59643d3081e3e99c7843c2e80ae07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:59 +0000
Subject: [PATCH 34/76] fix: reject request targets with encoded NUL bytes

---
 src/blogc-runserver/httpd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index f81a1f6..188fe8c 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -114,7 +114,7 @@ handle_request(void *arg)
     }
 
     char **pieces2 = bc_str_split(pieces[1], '?', 2);
-    if (pieces2[0] == NULL) {
+    if (pieces2[0] == NULL || NULL != strstr(pieces2[0], "%00")) {
         status_code = 400;
         error(client_socket, 400, "Bad Request");
         bc_strv_free(pieces2);
-- 
2.43.0


From 782f8da99cf7334b6a1b14446177a3ee577c1c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:41 +0000
Subject: [PATCH 35/76] fix: refuse git commands with incomplete quoting

---
 src/blogc-git-receiver/shell-command-parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/shell-command-parser.c b/src/blogc-git-receiver/shell-command-parser.c
index 7cf9fbf..7ed98e5 100644
--- a/src/blogc-git-receiver/shell-command-parser.c
+++ b/src/blogc-git-receiver/shell-command-parser.c
@@ -87,7 +87,8 @@ bgr_shell_command_parse(const char *command)
         }
     }
 
-    if (rv->len > 0)
+    // START_REPO is the only state where all the quotes are closed
+    if (state == START_REPO && rv->len > 0)
         return bc_string_free(rv, false);
 
 error:
-- 
2.43.0


From 302d67faca695efda9b66d3923f124b297a2b867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:44 +0000
Subject: [PATCH 36/76] fix: refuse git commands for repositories outside of
 the base directory

---
 src/blogc-git-receiver/shell-command-parser.c | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/shell-command-parser.c b/src/blogc-git-receiver/shell-command-parser.c
index 7ed98e5..cd843b8 100644
--- a/src/blogc-git-receiver/shell-command-parser.c
+++ b/src/blogc-git-receiver/shell-command-parser.c
@@ -16,6 +16,24 @@ typedef enum {
 } command_state_t;
 
 
+static bool
+is_inside_base_dir(const char *repo)
+{
+    bool rv = false;
+    while (*repo != '\0') {
+        size_t len = strcspn(repo, "/");
+        if (len == 2 && 0 == strncmp(repo, "..", 2))
+            return false;
+        if (len > 1 || (len == 1 && repo[0] != '.'))
+            rv = true;  // names something that isn't the base directory itself
+        repo += len;
+        if (*repo == '/')
+            repo++;
+    }
+    return rv;
+}
+
+
 char*
 bgr_shell_command_parse(const char *command)
 {
@@ -88,7 +106,7 @@ bgr_shell_command_parse(const char *command)
     }
 
     // START_REPO is the only state where all the quotes are closed
-    if (state == START_REPO && rv->len > 0)
+    if (state == START_REPO && rv->len > 0 && is_inside_base_dir(rv->str))
         return bc_string_free(rv, false);
 
 error:
-- 
2.43.0


From c146985e9548e858f534630708c434874677fda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:39 +0000
Subject: [PATCH 37/76] fix: finish the creation of repositories when it was
 interrupted

---
 src/blogc-git-receiver/shell.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/shell.c b/src/blogc-git-receiver/shell.c
index 0872a56..599092e 100644
--- a/src/blogc-git-receiver/shell.c
+++ b/src/blogc-git-receiver/shell.c
@@ -64,7 +64,13 @@ bgr_shell(int argc, char *argv[])
     if (0 == strncmp(argv[2], "git-upload-", 11))  // no need to check len here
         goto git_exec;
 
-    if (0 != access(repo, F_OK)) {
+    // a directory without HEAD isn't a repository (yet). this is what we get
+    // if a previous "git init" was interrupted, and it is safe to run it again
+    char *repo_head = bc_strdup_printf("%s/HEAD", repo);
+    bool repo_exists = 0 == access(repo_head, F_OK);
+    free(repo_head);
+
+    if (!repo_exists) {
         char *git_init_cmd = bc_strdup_printf(
             "git init --bare %s > /dev/null", quoted_repo);
         if (0 != system(git_init_cmd)) {
-- 
2.43.0


From e8eebc6c68b70f9032aea1791d7c873a00d208db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:13 +0000
Subject: [PATCH 38/76] fix: replace the hooks of repositories atomically

---
 src/blogc-git-receiver/shell.c | 57 ++++++++++++++--------------------
 1 file changed, 23 insertions(+), 34 deletions(-)

diff --git a/src/blogc-git-receiver/shell.c b/src/blogc-git-receiver/shell.c
index 599092e..e5af3d4 100644
--- a/src/blogc-git-receiver/shell.c
+++ b/src/blogc-git-receiver/shell.c
@@ -15,12 +15,26 @@
 
 
 static bool
-lexists(const char *pathname)
+install_hook(const char *self, const char *repo, const char *hook)
 {
-    struct stat b;
-    int tmp_errno = errno;
-    bool rv = lstat(pathname, &b) == 0;
-    errno = tmp_errno;
+    // the old symlink is replaced atomically, because somebody else may be
+    // pushing to the same repository right now, and must find the hook
+    char *tmp = bc_strdup_printf(".%s.%ld", hook, (long) getpid());
+    unlink(tmp);
+
+    bool rv = 0 == symlink(self, tmp);
+    if (rv && 0 != rename(tmp, hook)) {
+        int tmp_errno = errno;
+        unlink(tmp);
+        errno = tmp_errno;
+        rv = false;
+    }
+    if (!rv) {
+        fprintf(stderr, "error: failed to create symlink (%s/hooks/%s): %s\n",
+            repo, hook, strerror(errno));
+    }
+
+    free(tmp);
     return rv;
 }
 
@@ -93,7 +107,7 @@ bgr_shell(int argc, char *argv[])
     if (0 != access("hooks", F_OK)) {
         // openwrt git package won't install git templates, then the git
         // repositories created with it won't have the hooks/ directory.
-        if (0 != mkdir("hooks", 0777)) {  // mkdir honors umask for us.
+        if (0 != mkdir("hooks", 0777) && errno != EEXIST) {  // mkdir honors umask for us.
             fprintf(stderr, "error: failed to create directory (%s/hooks): "
                 "%s\n", repo, strerror(errno));
             rv = 1;
@@ -108,34 +122,9 @@ bgr_shell(int argc, char *argv[])
         goto cleanup;
     }
 
-    if (lexists("pre-receive")) {
-        if (0 != unlink("pre-receive")) {
-            fprintf(stderr, "error: failed to remove old symlink "
-                "(%s/hooks/pre-receive): %s\n", repo, strerror(errno));
-            rv = 1;
-            goto cleanup;
-        }
-    }
-
-    if (0 != symlink(self, "pre-receive")) {
-        fprintf(stderr, "error: failed to create symlink "
-            "(%s/hooks/pre-receive): %s\n", repo, strerror(errno));
-        rv = 1;
-        goto cleanup;
-    }
-
-    if (lexists("post-receive")) {
-        if (0 != unlink("post-receive")) {
-            fprintf(stderr, "error: failed to remove old symlink "
-                "(%s/hooks/post-receive): %s\n", repo, strerror(errno));
-            rv = 1;
-            goto cleanup;
-        }
-    }
-
-    if (0 != symlink(self, "post-receive")) {
-        fprintf(stderr, "error: failed to create symlink "
-            "(%s/hooks/post-receive): %s\n", repo, strerror(errno));
+    if (!install_hook(self, repo, "pre-receive") ||
+        !install_hook(self, repo, "post-receive"))
+    {
         rv = 1;
         goto cleanup;
     }
-- 
2.43.0


From e1495f83a0f9bf08db6472c86d5238a463bd919d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:05 +0000
Subject: [PATCH 39/76] fix: do not follow symbolic links when removing
 directories

---
 src/blogc-git-receiver/pre-receive.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index 584a636..76115d6 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -36,7 +36,7 @@ rmdir_recursive(const char *dir)
     if (dir == NULL)
         return;
     struct stat buf;
-    if (0 != stat(dir, &buf)) {
+    if (0 != lstat(dir, &buf)) {  // symlinks are removed, but never followed
         return;
     }
     if (!S_ISDIR(buf.st_mode)) {
@@ -54,7 +54,7 @@ rmdir_recursive(const char *dir)
         if ((0 == strcmp(e->d_name, ".")) || (0 == strcmp(e->d_name, "..")))
             continue;
         char *f = bc_strdup_printf("%s/%s", dir, e->d_name);
-        if (0 != stat(f, &buf)) {
+        if (0 != lstat(f, &buf)) {
             fprintf(stderr, "error: failed to stat directory entry (%s): %s\n",
                 e->d_name, strerror(errno));
             free(f);
-- 
2.43.0


From 1472d3ea9d555bb068694bc9e48911ad257f1f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:28 +0000
Subject: [PATCH 40/76] fix: quote the output directory properly in build
 commands

---
 src/blogc-git-receiver/pre-receive.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index 76115d6..265ec61 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -244,8 +244,10 @@ default_sym:
             rv = 1;
             goto cleanup;
         }
-        build_cmd = bc_strdup_printf("OUTPUT_DIR=\"%s\" blogc-make -V all",
-            output_dir);
+        char *quoted_dir = bc_shell_quote(output_dir);
+        build_cmd = bc_strdup_printf("OUTPUT_DIR=%s blogc-make -V all",
+            quoted_dir);
+        free(quoted_dir);
     }
     else if ((0 == access("Makefile", F_OK)) || (0 == access("GNUMakefile", F_OK))) {
         const char *make_impl = NULL;
@@ -266,9 +268,11 @@ default_sym:
             rv = 1;
             goto cleanup;
         }
+        char *quoted_dir = bc_shell_quote(output_dir);
         build_cmd = bc_strdup_printf(
-            "%s -j%d OUTPUT_DIR=\"%s\" BLOGC_GIT_RECEIVER=1", make_impl,
-            cpu_count(), output_dir);
+            "%s -j%d OUTPUT_DIR=%s BLOGC_GIT_RECEIVER=1", make_impl,
+            (int) cpu_count(), quoted_dir);
+        free(quoted_dir);
     }
     else {
         fprintf(stderr, "warning: no blogcfile or Makefile found. skipping ...\n");
-- 
2.43.0


From 7b9483e2c80c4e3161157960b6eb5af5ced9a1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:57 +0000
Subject: [PATCH 41/76] fix: report failures to create the temporary directory

---
 src/blogc-git-receiver/pre-receive.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index 265ec61..38b1e40 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -194,6 +194,8 @@ default_sym:
 
     char dir[] = "/tmp/blogc_XXXXXX";
     if (NULL == mkdtemp(dir)) {
+        fprintf(stderr, "error: failed to create temporary directory: %s\n",
+            strerror(errno));
         rv = 1;
         goto cleanup;
     }
-- 
2.43.0


From 4b8fcfd16267fd087f5ca3ac081f454c6c0e89df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:00 +0000
Subject: [PATCH 42/76] fix: never share build directories between deployments

---
 src/blogc-git-receiver/pre-receive.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index 38b1e40..97b5d63 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -227,10 +227,12 @@ default_sym:
     }
 
     unsigned long epoch = time(NULL);
-    output_dir = bc_strdup_printf("%s/%s-%lu", buildsd, ref, epoch);
+    // the same commit may be being deployed to some other repository right now
+    output_dir = bc_strdup_printf("%s/%s-%lu-%ld", buildsd, ref, epoch,
+        (long) getpid());
     free(buildsd);
 
-    if (0 == access(output_dir, F_OK)) {
+    while (0 == access(output_dir, F_OK)) {
         char *tmp = output_dir;
         output_dir = bc_strdup_printf("%s-", tmp);
         free(tmp);
-- 
2.43.0


From 2d9585f01717c2b7e3c8096f75b23249486fb624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:10 +0000
Subject: [PATCH 43/76] fix: do not reject pushes already deployed if the
 cleanup fails

---
 src/blogc-git-receiver/pre-receive.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index 97b5d63..f81f9c8 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -30,6 +30,8 @@ cpu_count(void)
 }
 
 
+// this is only used for cleanup. errors are reported, but they must not reject
+// a push that was already deployed, nor stop the remaining cleanup.
 static void
 rmdir_recursive(const char *dir)
 {
@@ -41,13 +43,13 @@ rmdir_recursive(const char *dir)
     }
     if (!S_ISDIR(buf.st_mode)) {
         fprintf(stderr, "error: trying to remove invalid directory: %s\n", dir);
-        exit(2);
+        return;
     }
     DIR *d = opendir(dir);
     if (d == NULL) {
         fprintf(stderr, "error: failed to open directory: %s\n",
             strerror(errno));
-        exit(2);
+        return;
     }
     struct dirent *e;
     while (NULL != (e = readdir(d))) {
@@ -58,7 +60,7 @@ rmdir_recursive(const char *dir)
             fprintf(stderr, "error: failed to stat directory entry (%s): %s\n",
                 e->d_name, strerror(errno));
             free(f);
-            exit(2);
+            continue;
         }
         if (S_ISDIR(buf.st_mode)) {
             rmdir_recursive(f);
@@ -66,20 +68,16 @@ rmdir_recursive(const char *dir)
         else if (0 != unlink(f)) {
             fprintf(stderr, "error: failed to remove file (%s): %s\n", f,
                 strerror(errno));
-            free(f);
-            exit(2);
         }
         free(f);
     }
     if (0 != closedir(d)) {
         fprintf(stderr, "error: failed to close directory: %s\n",
             strerror(errno));
-        exit(2);
     }
     if (0 != rmdir(dir)) {
         fprintf(stderr, "error: failed to remove directory: %s\n",
             strerror(errno));
-        exit(2);
     }
 }
 
-- 
2.43.0


From a2328612e47ae9e0715087d7164973c8cba89bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:13 +0000
Subject: [PATCH 44/76] fix: replace the symlink to the live build atomically

---
 src/blogc-git-receiver/pre-receive.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index f81f9c8..c0098c1 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -293,17 +293,22 @@ default_sym:
     free(build_cmd);
 
     char *htdocs_sym = realpath(sym, NULL);
-    if ((htdocs_sym != NULL) && (0 != unlink(sym))) {
-        fprintf(stderr, "error: failed to remove symlink (%s): %s\n", sym,
+
+    // the symlink must always exist, then it is replaced atomically
+    char *tmp_sym = bc_strdup_printf("%s.%ld", sym, (long) getpid());
+    unlink(tmp_sym);
+    if (0 != symlink(output_dir, tmp_sym)) {
+        fprintf(stderr, "error: failed to create symlink (%s): %s\n", tmp_sym,
             strerror(errno));
         rmdir_recursive(output_dir);
         rv = 1;
         goto cleanup2;
     }
 
-    if (0 != symlink(output_dir, sym)) {
-        fprintf(stderr, "error: failed to create symlink (%s): %s\n", sym,
+    if (0 != rename(tmp_sym, sym)) {
+        fprintf(stderr, "error: failed to replace symlink (%s): %s\n", sym,
             strerror(errno));
+        unlink(tmp_sym);
         rmdir_recursive(output_dir);
         rv = 1;
         goto cleanup2;
@@ -313,6 +318,7 @@ default_sym:
         rmdir_recursive(htdocs_sym);
 
 cleanup2:
+    free(tmp_sym);
     free(htdocs_sym);
 
 cleanup:
-- 
2.43.0


From a91fe8e86aa31b36970f6404271378e1f1cd9faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:48 +0000
Subject: [PATCH 45/76] fix: fail if the builds directory is unknown

---
 src/blogc-git-receiver/settings.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/settings.c b/src/blogc-git-receiver/settings.c
index 8c28370..6f79b5c 100644
--- a/src/blogc-git-receiver/settings.c
+++ b/src/blogc-git-receiver/settings.c
@@ -32,7 +32,11 @@ bgr_settings_get_builds_dir(void)
     if (rv != NULL) {
         return bc_strdup(rv);
     }
-    return bc_strdup_printf("%s/builds", bgr_settings_get_base_dir());
+    const char *bd = bgr_settings_get_base_dir();
+    if (bd == NULL) {
+        return NULL;
+    }
+    return bc_strdup_printf("%s/builds", bd);
 }
 
 
-- 
2.43.0


From ffe689b2f88306a6d7c0e65238ae33aab9bc0b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:52 +0000
Subject: [PATCH 46/76] fix: do not deploy if nothing was built

---
 src/blogc-git-receiver/pre-receive.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index c0098c1..02f772b 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -292,6 +292,13 @@ default_sym:
     }
     free(build_cmd);
 
+    if (0 != access(output_dir, F_OK)) {
+        fprintf(stderr, "error: website was not built to output directory "
+            "(%s): %s\n", output_dir, strerror(errno));
+        rv = 1;
+        goto cleanup;
+    }
+
     char *htdocs_sym = realpath(sym, NULL);
 
     // the symlink must always exist, then it is replaced atomically
-- 
2.43.0


From 8f5ba314753fb7d3a98e433539752f45ac4171e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:56 +0000
Subject: [PATCH 47/76] fix: do not remove directories that are not builds

---
 src/blogc-git-receiver/pre-receive.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index 02f772b..0758d8c 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -1,6 +1,7 @@
 // SPDX-FileCopyrightText: 2014-2024 Rafael G. Martins <rafael@rafaelmartins.eng.br>
 // SPDX-License-Identifier: BSD-3-Clause
 
+#include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -82,6 +83,19 @@ rmdir_recursive(const char *dir)
 }
 
 
+static bool
+is_build_dir(const char *dir)
+{
+    // builds are named after the commit hash and the time
+    const char *name = strrchr(dir, '/');
+    name = name == NULL ? dir : name + 1;
+    size_t len = strspn(name, "0123456789abcdef");
+    if (len < 40 || name[len] != '-')
+        return false;
+    return 0 != strspn(name + len + 1, "0123456789");
+}
+
+
 int
 bgr_pre_receive_hook(int argc, char *argv[])
 {
@@ -321,7 +335,8 @@ default_sym:
         goto cleanup2;
     }
 
-    if (htdocs_sym != NULL)
+    // only our own builds are removed
+    if (htdocs_sym != NULL && is_build_dir(htdocs_sym))
         rmdir_recursive(htdocs_sym);
 
 cleanup2:
-- 
2.43.0


From 2aa9e043e0911a93f82c83330b3c25df5bef30ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:15 +0000
Subject: [PATCH 48/76] fix: do not deploy incomplete contents if 'git archive'
 fails

---
 src/blogc-git-receiver/pre-receive.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index 0758d8c..6427b0c 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -103,6 +103,7 @@ bgr_pre_receive_hook(int argc, char *argv[])
     char *ref = NULL;
     char *output_dir = NULL;
     char *tmpdir = NULL;
+    char *srcdir = NULL;
     char *sym = NULL;
 
     char *hooks_dir = dirname(argv[0]);  // this was validated by main()
@@ -213,19 +214,28 @@ default_sym:
     }
     tmpdir = dir;
 
+    // not a pipe, because the shell would ignore failures of git
+    srcdir = bc_strdup_printf("%s/src", tmpdir);
+    if (0 != mkdir(srcdir, 0700)) {
+        fprintf(stderr, "error: failed to create temporary directory: %s\n",
+            strerror(errno));
+        rv = 1;
+        goto cleanup;
+    }
     char *git_archive_cmd = bc_strdup_printf(
-        "git archive \"%s\" | tar -x -C \"%s\" -f -", ref, tmpdir);
+        "git archive \"%s\" > \"%s/src.tar\" && "
+        "tar -x -C \"%s\" -f \"%s/src.tar\"", ref, tmpdir, srcdir, tmpdir);
     if (0 != system(git_archive_cmd)) {
         fprintf(stderr, "error: failed to extract git content to temporary "
-            "directory: %s\n", tmpdir);
+            "directory: %s\n", srcdir);
         rv = 1;
         free(git_archive_cmd);
         goto cleanup;
     }
     free(git_archive_cmd);
 
-    if (0 != chdir(tmpdir)) {
-        fprintf(stderr, "error: failed to chdir (%s): %s\n", tmpdir,
+    if (0 != chdir(srcdir)) {
+        fprintf(stderr, "error: failed to chdir (%s): %s\n", srcdir,
             strerror(errno));
         rv = 1;
         goto cleanup;
@@ -347,6 +357,7 @@ cleanup:
     free(sym);
     free(ref);
     free(output_dir);
+    free(srcdir);
     rmdir_recursive(tmpdir);
     free(repo_dir);
     return rv;
-- 
2.43.0


From 839c9e6cd3f6c934cab7f3ceea4b9961da8ed430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:34 +0000
Subject: [PATCH 49/76] fix: do not try to deploy branches that are being
 removed

---
 src/blogc-git-receiver/pre-receive.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index 6427b0c..2069797 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -96,6 +96,17 @@ is_build_dir(const char *dir)
 }
 
 
+static const char*
+lookup_branch(bc_trie_t *branches, const char *name)
+{
+    const char *rv = bc_trie_lookup(branches, name);
+    // branches that are being removed have a "hash" with just zeros
+    if (rv != NULL && strspn(rv, "0") == strlen(rv))
+        return NULL;
+    return rv;
+}
+
+
 int
 bgr_pre_receive_hook(int argc, char *argv[])
 {
@@ -189,10 +200,10 @@ default_sym:
         bc_trie_t *branches = bgr_pre_receive_parse(input, input_len);
 
         // try 'master' by default to avoid breaking existing setups
-        ref = bc_strdup(bc_trie_lookup(branches, "master"));
+        ref = bc_strdup(lookup_branch(branches, "master"));
         if (ref == NULL) {
             // try 'main'
-            ref = bc_strdup(bc_trie_lookup(branches, "main"));
+            ref = bc_strdup(lookup_branch(branches, "main"));
         }
 
         bc_trie_free(branches);
-- 
2.43.0


From 4a51dcd369ab97837a6a4caf2f02d67d44b68765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:13 +0000
Subject: [PATCH 50/76] fix: do not push to the default remote if the mirror is
 empty

---
 src/blogc-git-receiver/post-receive.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/post-receive.c b/src/blogc-git-receiver/post-receive.c
index 7e56b85..ad5d5b7 100644
--- a/src/blogc-git-receiver/post-receive.c
+++ b/src/blogc-git-receiver/post-receive.c
@@ -63,7 +63,9 @@ bgr_post_receive_hook(int argc, char *argv[])
     free(section);
     bc_config_free(config);
 
-    if (mirror == NULL) {
+    // git would push to some default remote if the url is empty
+    if (mirror == NULL || mirror[0] == '\0') {
+        free(mirror);
         fprintf(stderr, "warning: repository mirroring disabled\n");
         goto cleanup;
     }
-- 
2.43.0


From 727357a3c170f47a716fe85fa858c2a7fa9eda1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:16 +0000
Subject: [PATCH 51/76] fix: quote the url of the mirror

---
 src/blogc-git-receiver/post-receive.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/post-receive.c b/src/blogc-git-receiver/post-receive.c
index ad5d5b7..6fe91fd 100644
--- a/src/blogc-git-receiver/post-receive.c
+++ b/src/blogc-git-receiver/post-receive.c
@@ -73,7 +73,9 @@ bgr_post_receive_hook(int argc, char *argv[])
 push:
 
     {
-        char *git_cmd = bc_strdup_printf("git push --mirror %s", mirror);
+        char *quoted_mirror = bc_shell_quote(mirror);
+        char *git_cmd = bc_strdup_printf("git push --mirror %s", quoted_mirror);
+        free(quoted_mirror);
         if (0 != system(git_cmd))
             fprintf(stderr, "warning: failed push to git mirror\n");
         free(git_cmd);
-- 
2.43.0


From 0d75708234b596cdfbfd5254f484e6eb5b007ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:42 +0000
Subject: [PATCH 52/76] fix: blogc-make: never block on a child that reads and
 writes in any order

Write the input and read both outputs as the child is ready for them. Before,
a child writing more than a pipe holds to its standard error, or writing while
there was input left, blocked blogc-make forever; one that left input unread
killed it with SIGPIPE.
---
 src/blogc-make/exec.c | 176 +++++++++++++++++++++++++++++++-----------
 1 file changed, 129 insertions(+), 47 deletions(-)

diff --git a/src/blogc-make/exec.c b/src/blogc-make/exec.c
index 4dd6f8b..ea54e61 100644
--- a/src/blogc-make/exec.c
+++ b/src/blogc-make/exec.c
@@ -16,6 +16,9 @@
 #include <stdio.h>
 #include <string.h>
 #include <unistd.h>
+#include <fcntl.h>
+#include <poll.h>
+#include <signal.h>
 #include <sys/wait.h>
 #include <errno.h>
 #include <libgen.h>
@@ -73,6 +76,38 @@ bm_exec_find_binary(const char *argv0, const char *bin, const char *env)
 }
 
 
+static void
+close_fd(int *fd)
+{
+    if (*fd != -1)
+        close(*fd);
+    *fd = -1;
+}
+
+
+static bool
+read_output(int *fd, bc_string_t **out, const char *name, bc_error_t **err)
+{
+    char buffer[BC_FILE_CHUNK_SIZE];
+    ssize_t s = read(*fd, buffer, BC_FILE_CHUNK_SIZE);
+    if (s == -1) {
+        if (errno == EINTR)
+            return true;
+        *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
+            "Failed to read from %s pipe: %s", name, strerror(errno));
+        return false;
+    }
+    if (s == 0) {
+        close_fd(fd);
+        return true;
+    }
+    if (*out == NULL)
+        *out = bc_string_new();
+    bc_string_append_len(*out, buffer, s);
+    return true;
+}
+
+
 int
 bm_exec_command(const char *cmd, const char *input, char **output,
     char **error, bc_error_t **err)
@@ -130,6 +165,15 @@ bm_exec_command(const char *cmd, const char *input, char **output,
         dup2(fd_out[1], STDOUT_FILENO);
         dup2(fd_err[1], STDERR_FILENO);
 
+        // the child must not keep the pipes open after closing its standard
+        // streams
+        if (fd_in[0] > STDERR_FILENO)
+            close(fd_in[0]);
+        if (fd_out[1] > STDERR_FILENO)
+            close(fd_out[1]);
+        if (fd_err[1] > STDERR_FILENO)
+            close(fd_err[1]);
+
         char *const argv[] = {
             "/bin/sh",
             "-c",
@@ -139,70 +183,108 @@ bm_exec_command(const char *cmd, const char *input, char **output,
 
         execv(argv[0], argv);
 
-        exit(1);
+        _exit(127);
     }
 
     // parent
-    close(fd_in[0]);
-    close(fd_out[1]);
-    close(fd_err[1]);
+    close_fd(&(fd_in[0]));
+    close_fd(&(fd_out[1]));
+    close_fd(&(fd_err[1]));
+
+    // the child may exit without reading its whole input
+    struct sigaction ignore_action;
+    struct sigaction old_action;
+    ignore_action.sa_handler = SIG_IGN;
+    sigemptyset(&ignore_action.sa_mask);
+    ignore_action.sa_flags = 0;
+    sigaction(SIGPIPE, &ignore_action, &old_action);
+
+    const char *in = input != NULL ? input : "";
+    size_t in_len = strlen(in);
+    if (in_len == 0)
+        close_fd(&(fd_in[1]));
+    else
+        fcntl(fd_in[1], F_SETFL, fcntl(fd_in[1], F_GETFL) | O_NONBLOCK);
+
+    bc_string_t *out = NULL;
+    bc_string_t *out_err = NULL;
+
+    // the child reads its input and writes its outputs in any order, so we
+    // can't wait for a single pipe.
+    while (fd_in[1] != -1 || fd_out[0] != -1 || fd_err[0] != -1) {
+        struct pollfd fds[] = {
+            {.fd = fd_in[1], .events = POLLOUT},
+            {.fd = fd_out[0], .events = POLLIN},
+            {.fd = fd_err[0], .events = POLLIN},
+        };
 
-    if (input != NULL) {
-        if (-1 == write(fd_in[1], input, strlen(input))) {
+        if (-1 == poll(fds, 3, -1)) {
+            if (errno == EINTR)
+                continue;
             *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
-                "Failed to write to stdin pipe: %s", strerror(errno));
-            close(fd_in[1]);
-            close(fd_out[0]);
-            close(fd_err[0]);
-            return 1;
+                "Failed to poll pipes: %s", strerror(errno));
+            break;
         }
-    }
-
-    close(fd_in[1]);
 
-    char buffer[BC_FILE_CHUNK_SIZE];
-    ssize_t s;
+        if (fd_in[1] != -1 && fds[0].revents != 0) {
+            ssize_t s = write(fd_in[1], in, in_len);
+            if (s >= 0) {
+                in += s;
+                in_len -= s;
+                if (in_len == 0)
+                    close_fd(&(fd_in[1]));
+            }
+            else if (errno == EPIPE) {
+                // the child does not want our input anymore
+                close_fd(&(fd_in[1]));
+            }
+            else if (errno != EINTR && errno != EAGAIN) {
+                *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
+                    "Failed to write to stdin pipe: %s", strerror(errno));
+                break;
+            }
+        }
 
-    bc_string_t *out = NULL;
-    while(0 != (s = read(fd_out[0], buffer, BC_FILE_CHUNK_SIZE))) {
-        if (s == -1) {
-            *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
-                "Failed to read from stdout pipe: %s", strerror(errno));
-            close(fd_out[0]);
-            close(fd_err[0]);
-            bc_string_free(out, true);
-            return 1;
+        if (fd_out[0] != -1 && fds[1].revents != 0 &&
+            !read_output(&(fd_out[0]), &out, "stdout", err))
+        {
+            break;
         }
-        if (out == NULL) {
-            out = bc_string_new();
+
+        if (fd_err[0] != -1 && fds[2].revents != 0 &&
+            !read_output(&(fd_err[0]), &out_err, "stderr", err))
+        {
+            break;
         }
-        bc_string_append_len(out, buffer, s);
-    }
-    if (out != NULL) {
-        *output = bc_string_free(out, false);
     }
-    close(fd_out[0]);
 
-    out = NULL;
-    while(0 != (s = read(fd_err[0], buffer, BC_FILE_CHUNK_SIZE))) {
-        if (s == -1) {
+    close_fd(&(fd_in[1]));
+    close_fd(&(fd_out[0]));
+    close_fd(&(fd_err[0]));
+
+    sigaction(SIGPIPE, &old_action, NULL);
+
+    int status = 0;
+    while (-1 == waitpid(pid, &status, 0)) {
+        if (errno == EINTR)
+            continue;
+        if (*err == NULL) {
             *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
-                "Failed to read from stderr pipe: %s", strerror(errno));
-            close(fd_err[0]);
-            bc_string_free(out, true);
-            return 1;
+                "Failed to wait for command: %s", strerror(errno));
         }
-        if (out == NULL)
-            out = bc_string_new();
-        bc_string_append_len(out, buffer, s);
+        break;
     }
-    if (out != NULL) {
-        *error = bc_string_free(out, false);
+
+    if (*err != NULL) {
+        bc_string_free(out, true);
+        bc_string_free(out_err, true);
+        return 1;
     }
-    close(fd_err[0]);
 
-    int status;
-    waitpid(pid, &status, 0);
+    if (out != NULL)
+        *output = bc_string_free(out, false);
+    if (out_err != NULL)
+        *error = bc_string_free(out_err, false);
 
     return bc_compat_status_code(status);
 }
-- 
2.43.0


From 0b690e7b05fe91874a79c6f5f0b17dff70335374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:48 +0000
Subject: [PATCH 53/76] fix: blogc-make: quote the tags on blogc's command line

A tag with a single quote ended the quoted text, and the rest of the tags was
run by the shell.
---
 src/blogc-make/exec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blogc-make/exec.c b/src/blogc-make/exec.c
index ea54e61..53719e4 100644
--- a/src/blogc-make/exec.c
+++ b/src/blogc-make/exec.c
@@ -322,7 +322,9 @@ bm_exec_build_blogc_cmd(const char *blogc_bin, bm_settings_t *settings,
     if (settings != NULL) {
         if (settings->tags != NULL) {
             char *tags = bc_strv_join(settings->tags, " ");
-            bc_string_append_printf(rv, " -D MAKE_TAGS='%s'", tags);
+            char *tmp = bc_shell_quote(tags);
+            bc_string_append_printf(rv, " -D MAKE_TAGS=%s", tmp);
+            free(tmp);
             free(tags);
         }
 
-- 
2.43.0


From 56387bd567e09ffb79d1cff737983f2177548bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:48 +0000
Subject: [PATCH 54/76] fix: blogc-make: do not use the blog prefix as a format
 string

---
 src/blogc-make/atom.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc-make/atom.c b/src/blogc-make/atom.c
index f9e6294..499d804 100644
--- a/src/blogc-make/atom.c
+++ b/src/blogc-make/atom.c
@@ -58,7 +58,7 @@ bm_atom_generate(bm_settings_t *settings)
 
     if (blog_prefix != NULL) {
         bc_string_append_c(atom_url, '/');
-        bc_string_append_printf(atom_url, blog_prefix);
+        bc_string_append(atom_url, blog_prefix);
     }
 
     if (atom_prefix[0] != '\0')
-- 
2.43.0


From 0673378095e359749c4088effa85aae2a5af7214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:17 +0000
Subject: [PATCH 55/76] fix: blogc-make: outputs are renamed in place when
 complete

---
 src/blogc-make/exec-native.c | 57 ++++++++++++++++++++++++++++++++++--
 src/blogc-make/exec-native.h |  2 ++
 src/blogc-make/exec.c        | 12 +++++++-
 3 files changed, 67 insertions(+), 4 deletions(-)

diff --git a/src/blogc-make/exec-native.c b/src/blogc-make/exec-native.c
index f18ed9c..59f174d 100644
--- a/src/blogc-make/exec-native.c
+++ b/src/blogc-make/exec-native.c
@@ -18,6 +18,32 @@
 #include "ctx.h"
 
 
+char*
+bm_exec_native_tmp(bm_filectx_t *dest)
+{
+    // files are written beside the output and renamed when complete, because
+    // an incomplete output would be newer than its sources, and never rebuilt.
+    const char *sep = strrchr(dest->path, '/');
+    if (sep == NULL)
+        return bc_strdup(".blogc-make.tmp");
+    return bc_strdup_printf("%.*s/.blogc-make.tmp", (int) (sep - dest->path),
+        dest->path);
+}
+
+
+int
+bm_exec_native_commit(const char *tmp, bm_filectx_t *dest)
+{
+    if (0 != rename(tmp, dest->path)) {
+        fprintf(stderr, "blogc-make: error: failed to rename output file "
+            "(%s): %s\n", dest->path, strerror(errno));
+        unlink(tmp);
+        return 1;
+    }
+    return 0;
+}
+
+
 int
 bm_exec_native_cp(bm_filectx_t *source, bm_filectx_t *dest, bool verbose)
 {
@@ -53,11 +79,14 @@ bm_exec_native_cp(bm_filectx_t *source, bm_filectx_t *dest, bool verbose)
         return 1;
     }
 
-    int fd_to = open(dest->path, O_WRONLY | O_CREAT | O_TRUNC, 0666);
+    char *tmp = bm_exec_native_tmp(dest);
+
+    int fd_to = open(tmp, O_WRONLY | O_CREAT | O_TRUNC, 0666);
     if (fd_to < 0) {
         fprintf(stderr, "blogc-make: error: failed to open destination file to "
             "copy (%s): %s\n", dest->path, strerror(errno));
         close(fd_from);
+        free(tmp);
         return 1;
     }
 
@@ -72,6 +101,8 @@ bm_exec_native_cp(bm_filectx_t *source, bm_filectx_t *dest, bool verbose)
                     "destination file (%s): %s\n", dest->path, strerror(errno));
                 close(fd_from);
                 close(fd_to);
+                unlink(tmp);
+                free(tmp);
                 return 1;
             }
             nread -= nwritten;
@@ -79,10 +110,30 @@ bm_exec_native_cp(bm_filectx_t *source, bm_filectx_t *dest, bool verbose)
         } while (nread > 0);
     }
 
+    if (nread < 0) {
+        fprintf(stderr, "blogc-make: error: failed to read source file to copy "
+            "(%s): %s\n", source->path, strerror(errno));
+        close(fd_from);
+        close(fd_to);
+        unlink(tmp);
+        free(tmp);
+        return 1;
+    }
+
     close(fd_from);
-    close(fd_to);
 
-    return 0;
+    if (0 != close(fd_to)) {
+        fprintf(stderr, "blogc-make: error: failed to write to "
+            "destination file (%s): %s\n", dest->path, strerror(errno));
+        unlink(tmp);
+        free(tmp);
+        return 1;
+    }
+
+    int rv = bm_exec_native_commit(tmp, dest);
+    free(tmp);
+
+    return rv;
 }
 
 
diff --git a/src/blogc-make/exec-native.h b/src/blogc-make/exec-native.h
index bade6a2..236b804 100644
--- a/src/blogc-make/exec-native.h
+++ b/src/blogc-make/exec-native.h
@@ -7,6 +7,8 @@
 #include "../common/error.h"
 #include "ctx.h"
 
+char* bm_exec_native_tmp(bm_filectx_t *dest);
+int bm_exec_native_commit(const char *tmp, bm_filectx_t *dest);
 int bm_exec_native_cp(bm_filectx_t *source, bm_filectx_t *dest, bool verbose);
 bool bm_exec_native_is_empty_dir(const char *dir, bc_error_t **err);
 int bm_exec_native_rm(const char *output_dir, bm_filectx_t *dest, bool verbose);
diff --git a/src/blogc-make/exec.c b/src/blogc-make/exec.c
index 53719e4..a16e67f 100644
--- a/src/blogc-make/exec.c
+++ b/src/blogc-make/exec.c
@@ -28,6 +28,7 @@
 #include "../common/utils.h"
 #include "ctx.h"
 #include "exec.h"
+#include "exec-native.h"
 #include "settings.h"
 
 
@@ -387,9 +388,10 @@ bm_exec_blogc(bm_ctx_t *ctx, bc_trie_t *global_variables, bc_trie_t *local_varia
             break;
     }
 
+    char *tmp = bm_exec_native_tmp(output);
     char *cmd = bm_exec_build_blogc_cmd(ctx->blogc, ctx->settings, global_variables,
         local_variables, NULL, listing, listing_entry == NULL ? NULL : listing_entry->path,
-        template->path, output->path, ctx->dev, input->len > 0);
+        template->path, tmp, ctx->dev, input->len > 0);
 
     if (ctx->verbose)
         printf("%s\n", cmd);
@@ -405,6 +407,8 @@ bm_exec_blogc(bm_ctx_t *ctx, bc_trie_t *global_variables, bc_trie_t *local_varia
 
     if (error != NULL) {
         bc_error_print(error, "blogc-make");
+        unlink(tmp);
+        free(tmp);
         free(cmd);
         free(out);
         free(err);
@@ -413,6 +417,12 @@ bm_exec_blogc(bm_ctx_t *ctx, bc_trie_t *global_variables, bc_trie_t *local_varia
         return 1;
     }
 
+    if (rv != 0)
+        unlink(tmp);
+    else
+        rv = bm_exec_native_commit(tmp, output);
+    free(tmp);
+
     if (rv != 0 && ctx->verbose) {
         fprintf(stderr,
             "blogc-make: error: Failed to execute command.\n"
-- 
2.43.0


From 04ba25390aad9a47eef585ebcce3cc814fb5f169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:08 +0000
Subject: [PATCH 56/76] fix: blogc-make: rules fail when their outputs can't be
 listed

---
 src/blogc-make/ctx.c   |  1 +
 src/blogc-make/ctx.h   |  1 +
 src/blogc-make/exec.c  | 16 ++++++++++++++--
 src/blogc-make/rules.c |  9 +++++++++
 4 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index 8bc7e64..299d545 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -223,6 +223,7 @@ bm_ctx_new(bm_ctx_t *base, const char *settings_file, const char *argv0,
         rv = base;
     }
     rv->settings = settings;
+    rv->failed = false;
 
     rv->settings_fctx = bm_filectx_new(rv, abs_filename, NULL, NULL);
     rv->root_dir = bc_strdup(dirname(abs_filename));
diff --git a/src/blogc-make/ctx.h b/src/blogc-make/ctx.h
index 774601f..4f41e88 100644
--- a/src/blogc-make/ctx.h
+++ b/src/blogc-make/ctx.h
@@ -44,6 +44,7 @@ typedef struct {
     bool dev;
     bool verbose;
     bool atom_template_tmp;
+    bool failed;
 
     bm_settings_t *settings;
 
diff --git a/src/blogc-make/exec.c b/src/blogc-make/exec.c
index a16e67f..f25ae54 100644
--- a/src/blogc-make/exec.c
+++ b/src/blogc-make/exec.c
@@ -454,6 +454,10 @@ bm_exec_blogc(bm_ctx_t *ctx, bc_trie_t *global_variables, bc_trie_t *local_varia
     else if (err != NULL) {
         fprintf(stderr, "%s\n", err);
     }
+    else if (rv != 0) {
+        fprintf(stderr, "blogc-make: error: failed to build output file (%s). "
+            "status code: %d\n", output->path, rv);
+    }
 
     bc_string_free(input, true);
     free(cmd);
@@ -493,6 +497,7 @@ bm_exec_blogc_get_variable(bm_ctx_t *ctx, bc_trie_t *global_variables,
     int rv = bm_exec_command(cmd, input->str, &out, &err, &error);
 
     if (error != NULL) {
+        ctx->failed = true;
         bc_error_print(error, "blogc-make");
         bc_error_free(error);
         bc_string_free(input, true);
@@ -503,8 +508,15 @@ bm_exec_blogc_get_variable(bm_ctx_t *ctx, bc_trie_t *global_variables,
     }
 
     if (rv != 0) {
-        if (rv != EX_CONFIG)
-            fprintf(stderr, "blogc-make: error: %s\n", bc_str_strip(err));
+        // EX_CONFIG means that the variable is not defined, which isn't an error
+        if (rv != EX_CONFIG) {
+            ctx->failed = true;
+            if (err != NULL)
+                fprintf(stderr, "blogc-make: error: %s\n", bc_str_strip(err));
+            else
+                fprintf(stderr, "blogc-make: error: failed to get variable "
+                    "(%s). status code: %d\n", variable, rv);
+        }
         bc_string_free(input, true);
         free(cmd);
         free(out);
diff --git a/src/blogc-make/rules.c b/src/blogc-make/rules.c
index f50ec75..9498f55 100644
--- a/src/blogc-make/rules.c
+++ b/src/blogc-make/rules.c
@@ -723,6 +723,7 @@ clean_exec(bm_ctx_t *ctx, bc_slist_t *outputs, bc_trie_t *args)
 {
     int rv = 0;
 
+    ctx->failed = false;
     bc_slist_t *files = bm_rule_list_built_files(ctx);
     for (bc_slist_t *l = files; l != NULL; l = l->next) {
         bm_filectx_t *fctx = l->data;
@@ -737,6 +738,9 @@ clean_exec(bm_ctx_t *ctx, bc_slist_t *outputs, bc_trie_t *args)
     }
     bc_slist_free_full(files, (bc_free_func_t) bm_filectx_free);
 
+    if (rv == 0 && ctx->failed)
+        rv = 1;
+
     if (!bm_exec_native_is_empty_dir(ctx->output_dir, NULL)) {
         fprintf(stderr, "blogc-make: warning: output directory is not empty!\n");
     }
@@ -979,7 +983,12 @@ bm_rule_execute(bm_ctx_t *ctx, const bm_rule_t *rule, bc_trie_t *args)
 
     bc_slist_t *outputs = NULL;
     if (rule->outputlist_func != NULL) {
+        ctx->failed = false;
         outputs = rule->outputlist_func(ctx);
+        if (ctx->failed) {
+            bc_slist_free_full(outputs, (bc_free_func_t) bm_filectx_free);
+            return 1;
+        }
     }
 
     int rv = rule->exec_func(ctx, outputs, args);
-- 
2.43.0


From e26752dcaac1477a7080aa49b123ecb69a4ae572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:12 +0000
Subject: [PATCH 57/76] fix: blogc-make: an unknown rule fails even when
 followed by others

---
 src/blogc-make/rules.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/blogc-make/rules.c b/src/blogc-make/rules.c
index 9498f55..71b9fe0 100644
--- a/src/blogc-make/rules.c
+++ b/src/blogc-make/rules.c
@@ -934,6 +934,7 @@ bm_rule_executor(bm_ctx_t *ctx, bc_slist_t *rule_list)
 
     const bm_rule_t *rule = NULL;
     int rv = 0;
+    bool not_found = false;
 
     for (bc_slist_t *l = rule_list; l != NULL; l = l->next) {
 
@@ -967,11 +968,11 @@ bm_rule_executor(bm_ctx_t *ctx, bc_slist_t *rule_list)
         if (rule == NULL) {
             fprintf(stderr, "blogc-make: error: rule not found: %.*s\n",
                 (int) (sep - rule_str), rule_str);
-            rv = 1;
+            not_found = true;
         }
     }
 
-    return rv;
+    return not_found ? 1 : rv;
 }
 
 
-- 
2.43.0


From 7a981b24acac2f403b968ad135bacb1b342cee26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:45 +0000
Subject: [PATCH 58/76] fix: blogc-make: the temporary atom template is written
 completely

---
 src/blogc-make/atom.c | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/blogc-make/atom.c b/src/blogc-make/atom.c
index 499d804..1b4fd1e 100644
--- a/src/blogc-make/atom.c
+++ b/src/blogc-make/atom.c
@@ -115,18 +115,33 @@ bm_atom_deploy(bm_settings_t *settings, bc_error_t **err)
         return NULL;
     }
 
-    if (-1 == write(fd, content, strlen(content))) {
+    const char *ptr = content;
+    size_t len = strlen(content);
+    int write_errno = 0;
+    while (len > 0 && write_errno == 0) {
+        ssize_t s = write(fd, ptr, len);
+        if (s >= 0) {
+            ptr += s;
+            len -= s;
+        }
+        else if (errno != EINTR) {
+            write_errno = errno;
+        }
+    }
+
+    free(content);
+
+    if (0 != close(fd) && write_errno == 0)
+        write_errno = errno;
+
+    if (write_errno != 0) {
         *err = bc_error_new_printf(BLOGC_MAKE_ERROR_ATOM,
-            "Failed to write to temporary atom template: %s", strerror(errno));
-        free(content);
-        close(fd);
+            "Failed to write to temporary atom template: %s",
+            strerror(write_errno));
         unlink(fname);
         return NULL;
     }
 
-    free(content);
-    close(fd);
-
     return bc_strdup(fname);
 }
 
-- 
2.43.0


From 7644966fe60ac453a5f0740e72607c46f13afac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:49 +0000
Subject: [PATCH 59/76] fix: blogc-make: files to copy that can't be examined
 aren't ignored

---
 src/blogc-make/ctx.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index 299d545..0cbdaff 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -58,6 +58,21 @@ bm_filectx_new(bm_ctx_t *ctx, const char *filename, const char *slug,
 }
 
 
+static bm_filectx_t*
+filectx_new_unreadable(const char *path, const char *filename)
+{
+    // using it as a source will fail, instead of ignoring the file
+    bm_filectx_t *rv = bc_malloc(sizeof(bm_filectx_t));
+    rv->path = bc_strdup(path);
+    rv->short_path = bc_strdup(filename);
+    rv->slug = NULL;
+    rv->tv_sec = 0;
+    rv->tv_nsec = 0;
+    rv->readable = false;
+    return rv;
+}
+
+
 bc_slist_t*
 bm_filectx_new_r(bc_slist_t *l, bm_ctx_t *ctx, const char *filename)
 {
@@ -69,6 +84,8 @@ bm_filectx_new_r(bc_slist_t *l, bm_ctx_t *ctx, const char *filename)
 
     struct stat buf;
     if (0 != stat(f, &buf)) {
+        if (errno != ENOENT)
+            l = bc_slist_append(l, filectx_new_unreadable(f, filename));
         free(f);
         return l;
     }
@@ -76,12 +93,13 @@ bm_filectx_new_r(bc_slist_t *l, bm_ctx_t *ctx, const char *filename)
     if (S_ISDIR(buf.st_mode)) {
         DIR *dir = opendir(f);
         if (dir == NULL) {
+            l = bc_slist_append(l, filectx_new_unreadable(f, filename));
             free(f);
             return l;
         }
 
         struct dirent *e;
-        while (NULL != (e = readdir(dir))) {
+        while (errno = 0, NULL != (e = readdir(dir))) {
             if ((0 == strcmp(e->d_name, ".")) || (0 == strcmp(e->d_name, "..")))
                 continue;
             char *tmp = bc_strdup_printf("%s/%s", filename, e->d_name);
@@ -89,6 +107,9 @@ bm_filectx_new_r(bc_slist_t *l, bm_ctx_t *ctx, const char *filename)
             free(tmp);
         }
 
+        if (errno != 0)
+            l = bc_slist_append(l, filectx_new_unreadable(f, filename));
+
         closedir(dir);
         free(f);
         return l;
-- 
2.43.0


From b2bb0485cdec26038e911c596b134eb874c6fa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:53 +0000
Subject: [PATCH 60/76] fix: blogc-make: no empty blog_prefix in the default
 feed's address

---
 src/blogc-make/atom.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc-make/atom.c b/src/blogc-make/atom.c
index 1b4fd1e..8d8afd3 100644
--- a/src/blogc-make/atom.c
+++ b/src/blogc-make/atom.c
@@ -56,7 +56,7 @@ bm_atom_generate(bm_settings_t *settings)
 
     bc_string_t *atom_url = bc_string_new();
 
-    if (blog_prefix != NULL) {
+    if (blog_prefix != NULL && blog_prefix[0] != '\0') {
         bc_string_append_c(atom_url, '/');
         bc_string_append(atom_url, blog_prefix);
     }
-- 
2.43.0


From 2d534ab88deaf02441697a27d80a56ef0282e291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:38 +0000
Subject: [PATCH 61/76] fix: blogc-make: clean files that are listed twice

---
 src/blogc-make/exec-native.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blogc-make/exec-native.c b/src/blogc-make/exec-native.c
index 59f174d..2629a6b 100644
--- a/src/blogc-make/exec-native.c
+++ b/src/blogc-make/exec-native.c
@@ -183,6 +183,9 @@ bm_exec_native_rm(const char *output_dir, bm_filectx_t *dest, bool verbose)
     fflush(stdout);
 
     if (0 != unlink(dest->path)) {
+        // files may be listed more than once
+        if (errno == ENOENT)
+            return 0;
         fprintf(stderr, "blogc-make: error: failed to remove file (%s): %s\n",
             dest->path, strerror(errno));
         return 1;
-- 
2.43.0


From 1032637e1c6873e9e94a221c8d46d951207f07e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:42 +0000
Subject: [PATCH 62/76] fix: blogc-make: clean stops at an output directory
 given with a trailing slash

---
 src/blogc-make/exec-native.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/blogc-make/exec-native.c b/src/blogc-make/exec-native.c
index 2629a6b..a9d8104 100644
--- a/src/blogc-make/exec-native.c
+++ b/src/blogc-make/exec-native.c
@@ -198,6 +198,11 @@ bm_exec_native_rm(const char *output_dir, bm_filectx_t *dest, bool verbose)
     char *short_dir = bc_strdup(dirname(dest->short_path));
     char *dir = bc_strdup(dirname(dest->path));
 
+    // dirname() drops the trailing slashes
+    char *output_top = bc_strdup(output_dir);
+    for (size_t i = strlen(output_top); i > 1 && output_top[i - 1] == '/'; i--)
+        output_top[i - 1] = '\0';
+
     bc_error_t *err = NULL;
 
     while ((0 != strcmp(short_dir, ".")) && (0 != strcmp(short_dir, "/"))) {
@@ -222,7 +227,7 @@ bm_exec_native_rm(const char *output_dir, bm_filectx_t *dest, bool verbose)
             rv = 1;
             break;
         }
-        if (0 == strcmp(dir, output_dir)) {
+        if (0 == strcmp(dir, output_top)) {
             break;
         }
 
@@ -234,6 +239,7 @@ bm_exec_native_rm(const char *output_dir, bm_filectx_t *dest, bool verbose)
         free(tmp);
     }
 
+    free(output_top);
     free(short_dir);
     free(dir);
 
-- 
2.43.0


From 71a5437fe88aeecdefa255e85a2206eec77cef1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:47 +0000
Subject: [PATCH 63/76] fix: blogc-make: clean keeps symbolic links to
 directories

---
 src/blogc-make/exec-native.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blogc-make/exec-native.c b/src/blogc-make/exec-native.c
index a9d8104..8ae4805 100644
--- a/src/blogc-make/exec-native.c
+++ b/src/blogc-make/exec-native.c
@@ -221,6 +221,9 @@ bm_exec_native_rm(const char *output_dir, bm_filectx_t *dest, bool verbose)
             fflush(stdout);
         }
         if (0 != rmdir(dir)) {
+            // a symbolic link to a directory isn't ours
+            if (errno == ENOTDIR)
+                break;
             fprintf(stderr,
                 "blogc-make: error: failed to remove directory(%s): %s\n",
                 dir, strerror(errno));
-- 
2.43.0


From 3414bae50b8f913e334425c4f630b913ce9f3dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:58 +0000
Subject: [PATCH 64/76] fix: blogc-make: watching goes on after the blogcfile
 was broken

---
 src/blogc-make/ctx.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index 0cbdaff..cdfe776 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -334,13 +334,15 @@ bm_ctx_reload(bm_ctx_t **ctx)
         // needs to dup path, because it may be freed when reloading.
         char *tmp = bc_strdup((*ctx)->settings_fctx->path);
         bc_error_t *err = NULL;
-        *ctx = bm_ctx_new(*ctx, tmp, NULL, &err);
+        bm_ctx_t *new_ctx = bm_ctx_new(*ctx, tmp, NULL, &err);
         free(tmp);
         if (err != NULL) {
+            // the old context is still valid, and used to try again
             bc_error_print(err, "blogc-make");
             bc_error_free(err);
             return false;
         }
+        *ctx = new_ctx;
         return true;
     }
 
-- 
2.43.0


From 29df1601ff19f7bfdd3697263efc9a4a5a57bbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:03 +0000
Subject: [PATCH 65/76] fix: blogc-make: the blogcfile is examined before it is
 read

---
 src/blogc-make/ctx.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index cdfe776..a9ec426 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -193,6 +193,10 @@ bm_ctx_new(bm_ctx_t *base, const char *settings_file, const char *argv0,
     if (*err != NULL)
         return NULL;
 
+    // must be older than the content, to not miss changes
+    struct stat settings_st;
+    bool settings_st_valid = 0 == stat(abs_filename, &settings_st);
+
     size_t content_len;
     char *content = bc_file_get_contents(abs_filename, true, &content_len,
         err);
@@ -246,7 +250,8 @@ bm_ctx_new(bm_ctx_t *base, const char *settings_file, const char *argv0,
     rv->settings = settings;
     rv->failed = false;
 
-    rv->settings_fctx = bm_filectx_new(rv, abs_filename, NULL, NULL);
+    rv->settings_fctx = bm_filectx_new(rv, abs_filename, NULL,
+        settings_st_valid ? &settings_st : NULL);
     rv->root_dir = bc_strdup(dirname(abs_filename));
     free(abs_filename);
 
-- 
2.43.0


From 4911b238ef8242e4e4bac1484850807e6c28e7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:09 +0000
Subject: [PATCH 66/76] fix: blogc-make: new files in copied directories are
 noticed while watching

---
 src/blogc-make/ctx.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index a9ec426..b454ad8 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -182,6 +182,19 @@ bm_filectx_free(bm_filectx_t *fctx)
 }
 
 
+static void
+list_copy_files(bm_ctx_t *ctx)
+{
+    bc_slist_free_full(ctx->copy_fctx, (bc_free_func_t) bm_filectx_free);
+    ctx->copy_fctx = NULL;
+    if (ctx->settings->copy == NULL)
+        return;
+    for (size_t i = 0; ctx->settings->copy[i] != NULL; i++)
+        ctx->copy_fctx = bm_filectx_new_r(ctx->copy_fctx, ctx,
+            ctx->settings->copy[i]);
+}
+
+
 bm_ctx_t*
 bm_ctx_new(bm_ctx_t *base, const char *settings_file, const char *argv0,
     bc_error_t **err)
@@ -314,12 +327,7 @@ bm_ctx_new(bm_ctx_t *base, const char *settings_file, const char *argv0,
     }
 
     rv->copy_fctx = NULL;
-    if (settings->copy != NULL) {
-        for (size_t i = 0; settings->copy[i] != NULL; i++) {
-            rv->copy_fctx = bm_filectx_new_r(rv->copy_fctx, rv,
-                settings->copy[i]);
-        }
-    }
+    list_copy_files(rv);
 
     return rv;
 }
@@ -361,8 +369,8 @@ bm_ctx_reload(bm_ctx_t **ctx)
     for (bc_slist_t *tmp = (*ctx)->pages_fctx; tmp != NULL; tmp = tmp->next)
         bm_filectx_reload((bm_filectx_t*) tmp->data);
 
-    for (bc_slist_t *tmp = (*ctx)->copy_fctx; tmp != NULL; tmp = tmp->next)
-        bm_filectx_reload((bm_filectx_t*) tmp->data);
+    // directories may have new files
+    list_copy_files(*ctx);
 
     return true;
 }
-- 
2.43.0


From 6e2468861f79f50a3343ec0a176b331e3d9175fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:59 +0000
Subject: [PATCH 67/76] fix: blogc-make: changes made during a build are
 noticed by the next one

---
 src/blogc-make/exec-native.c | 16 ++++++++++++++++
 src/blogc-make/rules.c       | 25 ++++++++++++++++++-------
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/blogc-make/exec-native.c b/src/blogc-make/exec-native.c
index 8ae4805..0b2a6f4 100644
--- a/src/blogc-make/exec-native.c
+++ b/src/blogc-make/exec-native.c
@@ -34,6 +34,22 @@ bm_exec_native_tmp(bm_filectx_t *dest)
 int
 bm_exec_native_commit(const char *tmp, bm_filectx_t *dest)
 {
+    // an output isn't newer than the files it was built from were when the
+    // build started, otherwise changes made to them during the build would
+    // never be noticed. failing to set the time isn't an error.
+    struct stat buf;
+    if (dest->tv_sec != 0 && 0 == stat(tmp, &buf) &&
+        (buf.st_mtim_tv_sec > dest->tv_sec ||
+            (buf.st_mtim_tv_sec == dest->tv_sec &&
+             buf.st_mtim_tv_nsec > dest->tv_nsec)))
+    {
+        struct timespec times[] = {
+            {.tv_sec = 0, .tv_nsec = UTIME_OMIT},
+            {.tv_sec = dest->tv_sec, .tv_nsec = dest->tv_nsec},
+        };
+        (void) !utimensat(AT_FDCWD, tmp, times, 0);
+    }
+
     if (0 != rename(tmp, dest->path)) {
         fprintf(stderr, "blogc-make: error: failed to rename output file "
             "(%s): %s\n", dest->path, strerror(errno));
diff --git a/src/blogc-make/rules.c b/src/blogc-make/rules.c
index 71b9fe0..13c7be2 100644
--- a/src/blogc-make/rules.c
+++ b/src/blogc-make/rules.c
@@ -1005,10 +1005,12 @@ bm_rule_need_rebuild(bc_slist_t *sources, bm_filectx_t *settings,
     bm_filectx_t *listing_entry, bm_filectx_t *template, bm_filectx_t *output,
     bool only_first_source)
 {
-    if (output == NULL || !output->readable)
+    if (output == NULL)
         return true;
 
-    bool rv = false;
+    bool rv = !output->readable;
+    time_t tv_sec = 0;
+    long tv_nsec = 0;
 
     bc_slist_t *s = NULL;
     if (settings != NULL)
@@ -1030,22 +1032,31 @@ bm_rule_need_rebuild(bc_slist_t *sources, bm_filectx_t *settings,
             // this is unlikely to happen, but lets just say that we need
             // a rebuild and let blogc bail out.
             rv = true;
-            break;
+            continue;
         }
         if (source->tv_sec == output->tv_sec) {
-            if (source->tv_nsec > output->tv_nsec) {
+            if (source->tv_nsec > output->tv_nsec)
                 rv = true;
-                break;
-            }
         }
         else if (source->tv_sec > output->tv_sec) {
             rv = true;
-            break;
+        }
+        if (source->tv_sec > tv_sec ||
+            (source->tv_sec == tv_sec && source->tv_nsec > tv_nsec))
+        {
+            tv_sec = source->tv_sec;
+            tv_nsec = source->tv_nsec;
         }
     }
 
     bc_slist_free(s);
 
+    if (rv) {
+        // the time of the files that it will be built from
+        output->tv_sec = tv_sec;
+        output->tv_nsec = tv_nsec;
+    }
+
     return rv;
 }
 
-- 
2.43.0


From 52d40202b58535e26f969064ba38360ce5ad0895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:26 +0000
Subject: [PATCH 68/76] fix: blogc-make: interrupting the reloader can't
 deadlock

---
 src/blogc-make/reloader.c | 61 +++++++++++++++++++++++++++++++--------
 1 file changed, 49 insertions(+), 12 deletions(-)

diff --git a/src/blogc-make/reloader.c b/src/blogc-make/reloader.c
index e025998..202d564 100644
--- a/src/blogc-make/reloader.c
+++ b/src/blogc-make/reloader.c
@@ -18,10 +18,31 @@
 // directly is not a big issue
 
 static pthread_mutex_t mutex_running = PTHREAD_MUTEX_INITIALIZER;
-static bool running = false;
+static bool stop_requested = false;
 static int reloader_status_code = 0;
 static void (*handler_func)(int) = NULL;
 
+// the signal handler also locks the mutex, so it must not run in the thread
+// that holds it.
+static void
+lock_running(sigset_t *old_mask)
+{
+    sigset_t mask;
+    sigemptyset(&mask);
+    sigaddset(&mask, SIGINT);
+    pthread_sigmask(SIG_BLOCK, &mask, old_mask);
+    pthread_mutex_lock(&mutex_running);
+}
+
+
+static void
+unlock_running(const sigset_t *old_mask)
+{
+    pthread_mutex_unlock(&mutex_running);
+    pthread_sigmask(SIG_SETMASK, old_mask, NULL);
+}
+
+
 static void
 sig_handler(int signum)
 {
@@ -29,6 +50,17 @@ sig_handler(int signum)
 }
 
 
+static bool
+is_stop_requested(void)
+{
+    sigset_t old_mask;
+    lock_running(&old_mask);
+    bool rv = stop_requested;
+    unlock_running(&old_mask);
+    return rv;
+}
+
+
 int
 bm_reloader_run(bm_ctx_t **ctx, bm_rule_exec_func_t rule_exec,
     bc_slist_t *outputs, bc_trie_t *args)
@@ -39,11 +71,12 @@ bm_reloader_run(bm_ctx_t **ctx, bm_rule_exec_func_t rule_exec,
         fprintf(stderr, "blogc-make: failed to run reloader: %s\n", strerror(errno));
         return 1;
     }
+    sigset_t old_mask;
     if (current_action.sa_handler != sig_handler) {  // not installed yet
         // backup current handler
-        pthread_mutex_lock(&mutex_running);
+        lock_running(&old_mask);
         handler_func = current_action.sa_handler;
-        pthread_mutex_unlock(&mutex_running);
+        unlock_running(&old_mask);
 
         // set new handler
         struct sigaction new_action;
@@ -57,11 +90,7 @@ bm_reloader_run(bm_ctx_t **ctx, bm_rule_exec_func_t rule_exec,
         }
     }
 
-    pthread_mutex_lock(&mutex_running);
-    running = true;
-    pthread_mutex_unlock(&mutex_running);
-
-    while (running) {
+    while (!is_stop_requested()) {
         if (!bm_ctx_reload(ctx)) {
             fprintf(stderr, "blogc-make: warning: failed to reload context. "
                 "retrying in 5 seconds ...\n\n");
@@ -77,16 +106,24 @@ bm_reloader_run(bm_ctx_t **ctx, bm_rule_exec_func_t rule_exec,
         sleep(1);
     }
 
-    return reloader_status_code;
+    // get ready for the next run
+    lock_running(&old_mask);
+    stop_requested = false;
+    int rv = reloader_status_code;
+    unlock_running(&old_mask);
+
+    return rv;
 }
 
 
 void
 bm_reloader_stop(int status_code)
 {
-    pthread_mutex_lock(&mutex_running);
+    sigset_t old_mask;
+    lock_running(&old_mask);
 
-    running = false;
+    // the reloader may not be running yet, it will stop as soon as it starts
+    stop_requested = true;
     reloader_status_code = status_code;
 
     // reraise if SIGINT
@@ -107,5 +144,5 @@ bm_reloader_stop(int status_code)
         // by `bm_reloader_run`.
     }
 
-    pthread_mutex_unlock(&mutex_running);
+    unlock_running(&old_mask);
 }
-- 
2.43.0


From 891072aa27223cd2bba605b10c44282ebbb19981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:26 +0000
Subject: [PATCH 69/76] fix: blogc-make: a server that ends at once is noticed

---
 src/blogc-make/httpd.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/blogc-make/httpd.c b/src/blogc-make/httpd.c
index 1491095..e1333e4 100644
--- a/src/blogc-make/httpd.c
+++ b/src/blogc-make/httpd.c
@@ -37,10 +37,6 @@ httpd_thread(void *arg)
     int rv = bm_exec_blogc_runserver(httpd->ctx, bc_trie_lookup(httpd->args, "host"),
         bc_trie_lookup(httpd->args, "port"), bc_trie_lookup(httpd->args, "threads"));
 
-    pthread_mutex_lock(&mutex_httpd_starting);
-    httpd_starting = false;
-    pthread_mutex_unlock(&mutex_httpd_starting);
-
     free(httpd);
 
     // stop the reloader
@@ -112,5 +108,12 @@ bm_httpd_run(bm_ctx_t **ctx, bm_rule_exec_func_t rule_exec, bc_slist_t *outputs,
         usleep(100000);
     }
 
-    return bm_reloader_run(ctx, rule_exec, outputs, args);
+    // returns after the httpd thread stopped it
+    int status = bm_reloader_run(ctx, rule_exec, outputs, args);
+
+    pthread_mutex_lock(&mutex_httpd_starting);
+    httpd_starting = false;
+    pthread_mutex_unlock(&mutex_httpd_starting);
+
+    return status;
 }
-- 
2.43.0


From f396c2753dc9d7381e86e2918cc07706782b1b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:18 +0000
Subject: [PATCH 70/76] fix: blogc-make: notice changes of the settings before
 other changes

---
 src/blogc-make/ctx.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index b454ad8..3ff5192 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -333,12 +333,9 @@ bm_ctx_new(bm_ctx_t *base, const char *settings_file, const char *argv0,
 }
 
 
-bool
-bm_ctx_reload(bm_ctx_t **ctx)
+static bool
+reload(bm_ctx_t **ctx)
 {
-    if (*ctx == NULL || (*ctx)->settings_fctx == NULL)
-        return false;
-
     if (bm_filectx_changed((*ctx)->settings_fctx, NULL, NULL)) {
         // reload everything! we could just reload settings_fctx, as this
         // would force rebuilding everything, but we need to know new/deleted
@@ -376,6 +373,24 @@ bm_ctx_reload(bm_ctx_t **ctx)
 }
 
 
+bool
+bm_ctx_reload(bm_ctx_t **ctx)
+{
+    if (*ctx == NULL || (*ctx)->settings_fctx == NULL)
+        return false;
+
+    // the other files may have been examined after a change in the settings
+    // that wasn't seen yet. their outputs would look newer than the settings.
+    do {
+        if (!reload(ctx))
+            return false;
+    }
+    while (bm_filectx_changed((*ctx)->settings_fctx, NULL, NULL));
+
+    return true;
+}
+
+
 void
 bm_ctx_free_internal(bm_ctx_t *ctx)
 {
-- 
2.43.0


From e4db99d432ef51f25257218ec20ce0f2221e3367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:29 +0000
Subject: [PATCH 71/76] fix: blogc-runserver: do not crash if an argument lacks
 its value

---
 src/blogc-runserver/main.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/blogc-runserver/main.c b/src/blogc-runserver/main.c
index 8abd83a..e980738 100644
--- a/src/blogc-runserver/main.c
+++ b/src/blogc-runserver/main.c
@@ -8,6 +8,7 @@
 #include <signal.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 #include "../common/utils.h"
 #include "httpd.h"
 
@@ -70,6 +71,15 @@ main(int argc, char **argv)
 
     for (size_t i = 1; i < argc; i++) {
         if (argv[i][0] == '-') {
+            if (argv[i][1] != '\0' && argv[i][2] == '\0' && i + 1 >= argc &&
+                NULL != strchr("tpm", argv[i][1]))
+            {
+                print_usage();
+                fprintf(stderr, "blogc-runserver: error: argument -%c requires "
+                    "a value\n", argv[i][1]);
+                rv = 1;
+                goto cleanup;
+            }
             switch (argv[i][1]) {
                 case 'h':
                     print_help(default_host, default_port);
-- 
2.43.0


From 94f2b524c1106ef6b64b5ed8e771481b29eeb5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:29 +0000
Subject: [PATCH 72/76] fix: blogc-make: reject -f without a value

---
 src/blogc-make/main.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/blogc-make/main.c b/src/blogc-make/main.c
index 5643a45..a1ba3c7 100644
--- a/src/blogc-make/main.c
+++ b/src/blogc-make/main.c
@@ -87,6 +87,13 @@ main(int argc, char **argv)
                         blogcfile = bc_strdup(argv[i] + 2);
                     else if (i + 1 < argc)
                         blogcfile = bc_strdup(argv[++i]);
+                    else {
+                        print_usage();
+                        fprintf(stderr, "blogc-make: error: argument -f "
+                            "requires a value\n");
+                        rv = 1;
+                        goto cleanup;
+                    }
                     break;
 #ifdef MAKE_EMBEDDED
                 case 'm':
-- 
2.43.0


From b0a71b840874f7fb22bb8c6a2b2dd944c3123ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:17 +0000
Subject: [PATCH 73/76] fix: blogc: Do not replace variables defined by the
 user by measured ones

---
 src/blogc/rusage.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/blogc/rusage.c b/src/blogc/rusage.c
index c8f5a68..13790b9 100644
--- a/src/blogc/rusage.c
+++ b/src/blogc/rusage.c
@@ -72,10 +72,13 @@ blogc_rusage_inject(bc_trie_t *global)
     if (usage == NULL)
         return;
 
-    bc_trie_insert(global, "BLOGC_RUSAGE_CPU_TIME",
-        blogc_rusage_format_cpu_time(usage->cpu_time));
-    bc_trie_insert(global, "BLOGC_RUSAGE_MEMORY",
-        blogc_rusage_format_memory(usage->memory));
+    // do not override a value defined by the user
+    if (NULL == bc_trie_lookup(global, "BLOGC_RUSAGE_CPU_TIME"))
+        bc_trie_insert(global, "BLOGC_RUSAGE_CPU_TIME",
+            blogc_rusage_format_cpu_time(usage->cpu_time));
+    if (NULL == bc_trie_lookup(global, "BLOGC_RUSAGE_MEMORY"))
+        bc_trie_insert(global, "BLOGC_RUSAGE_MEMORY",
+            blogc_rusage_format_memory(usage->memory));
 
     free(usage);
 }
-- 
2.43.0


From b794e8ca81d60fdad072e2b1b60f3125f4e021b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:21 +0000
Subject: [PATCH 74/76] fix: blogc: Evaluate variables provided by blogc in
 iterators

---
 src/blogc/renderer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/blogc/renderer.c b/src/blogc/renderer.c
index 21ec9af..4ee2a82 100644
--- a/src/blogc/renderer.c
+++ b/src/blogc/renderer.c
@@ -191,6 +191,10 @@ bc_slist_t*
 blogc_split_list_variable(const char *name, bc_trie_t *global, bc_trie_t *local)
 {
     const char *value = blogc_get_variable(name, global, local);
+    if (value == NULL) {
+        blogc_funcvars_eval(global, name);
+        value = blogc_get_variable(name, global, local);
+    }
     if (value == NULL)
         return NULL;
 
-- 
2.43.0


From 7ba8b8b84bd65e22da8f41b29c24a908c9c6c9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:22 +0000
Subject: [PATCH 75/76] fix: blogc-make: commands don't keep the pipes of other
 commands open

runserver starts the server from another thread. If it was started while the
main thread had pipes open to run blogc, the server kept them open, and the
build was blocked until the server ended.
---
 CMakeLists.txt        |  1 +
 config.h.in           |  1 +
 src/blogc-make/exec.c | 45 +++++++++++++++++++++++++++++++++++++------
 3 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/CMakeLists.txt b/CMakeLists.txt
index 5699552..baf8577 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -66,6 +66,7 @@ include(GNUInstallDirs)
 
 check_function_exists(getrusage HAVE_GETRUSAGE)
 check_function_exists(gethostname HAVE_GETHOSTNAME)
+check_function_exists(pipe2 HAVE_PIPE2)
 
 check_include_file(arpa/inet.h HAVE_ARPA_INET_H)
 check_include_file(dirent.h HAVE_DIRENT_H)
diff --git a/config.h.in b/config.h.in
index d6fa594..c0f8127 100644
--- a/config.h.in
+++ b/config.h.in
@@ -13,6 +13,7 @@
 
 #cmakedefine HAVE_GETRUSAGE
 #cmakedefine HAVE_GETHOSTNAME
+#cmakedefine HAVE_PIPE2
 
 #cmakedefine HAVE_ARPA_INET_H
 #cmakedefine HAVE_DIRENT_H
diff --git a/src/blogc-make/exec.c b/src/blogc-make/exec.c
index f25ae54..1249d5e 100644
--- a/src/blogc-make/exec.c
+++ b/src/blogc-make/exec.c
@@ -5,6 +5,10 @@
 #include <config.h>
 #endif /* HAVE_CONFIG_H */
 
+#if defined(HAVE_PIPE2) && !defined(_GNU_SOURCE)
+#define _GNU_SOURCE  // pipe2
+#endif
+
 #ifdef HAVE_SYSEXITS_H
 #include <sysexits.h>
 #else
@@ -109,6 +113,35 @@ read_output(int *fd, bc_string_t **out, const char *name, bc_error_t **err)
 }
 
 
+// the other threads may be running their own commands, that must not keep our
+// pipes open
+static int
+create_pipe(int fd[2])
+{
+#ifdef HAVE_PIPE2
+    return pipe2(fd, O_CLOEXEC);
+#else
+    if (-1 == pipe(fd))
+        return -1;
+    fcntl(fd[0], F_SETFD, FD_CLOEXEC);
+    fcntl(fd[1], F_SETFD, FD_CLOEXEC);
+    return 0;
+#endif
+}
+
+
+// dup2 does nothing, and keeps the close-on-exec flag, if the descriptors are
+// the same
+static void
+set_child_fd(int fd, int child_fd)
+{
+    if (fd == child_fd)
+        fcntl(fd, F_SETFD, 0);
+    else
+        dup2(fd, child_fd);
+}
+
+
 int
 bm_exec_command(const char *cmd, const char *input, char **output,
     char **error, bc_error_t **err)
@@ -117,14 +150,14 @@ bm_exec_command(const char *cmd, const char *input, char **output,
         return 1;
 
     int fd_in[2];
-    if (-1 == pipe(fd_in)) {
+    if (-1 == create_pipe(fd_in)) {
         *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
             "Failed to create stdin pipe: %s", strerror(errno));
         return 1;
     }
 
     int fd_out[2];
-    if (-1 == pipe(fd_out)) {
+    if (-1 == create_pipe(fd_out)) {
         *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
             "Failed to create stdout pipe: %s", strerror(errno));
         close(fd_in[0]);
@@ -133,7 +166,7 @@ bm_exec_command(const char *cmd, const char *input, char **output,
     }
 
     int fd_err[2];
-    if (-1 == pipe(fd_err)) {
+    if (-1 == create_pipe(fd_err)) {
         *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
             "Failed to create stderr pipe: %s", strerror(errno));
         close(fd_in[0]);
@@ -162,9 +195,9 @@ bm_exec_command(const char *cmd, const char *input, char **output,
         close(fd_out[0]);
         close(fd_err[0]);
 
-        dup2(fd_in[0], STDIN_FILENO);
-        dup2(fd_out[1], STDOUT_FILENO);
-        dup2(fd_err[1], STDERR_FILENO);
+        set_child_fd(fd_in[0], STDIN_FILENO);
+        set_child_fd(fd_out[1], STDOUT_FILENO);
+        set_child_fd(fd_err[1], STDERR_FILENO);
 
         // the child must not keep the pipes open after closing its standard
         // streams
-- 
2.43.0


From 21bcca755d2671804d175d177c42fca1144d3762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:32 +0000
Subject: [PATCH 76/76] fix: blogc-make: start the server with the settings it
 was called with

The reloader may replace the contents of the context while the thread is still
reading them.
---
 src/blogc-make/httpd.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/blogc-make/httpd.c b/src/blogc-make/httpd.c
index e1333e4..7265d06 100644
--- a/src/blogc-make/httpd.c
+++ b/src/blogc-make/httpd.c
@@ -37,6 +37,7 @@ httpd_thread(void *arg)
     int rv = bm_exec_blogc_runserver(httpd->ctx, bc_trie_lookup(httpd->args, "host"),
         bc_trie_lookup(httpd->args, "port"), bc_trie_lookup(httpd->args, "threads"));
 
+    bm_ctx_free(httpd->ctx);
     free(httpd);
 
     // stop the reloader
@@ -77,13 +78,21 @@ bm_httpd_run(bm_ctx_t **ctx, bm_rule_exec_func_t rule_exec, bc_slist_t *outputs,
     }
 
     bm_httpd_t *rv = bc_malloc(sizeof(bm_httpd_t));
-    rv->ctx = *ctx;
     rv->args = args;
 
+    // the reloader may replace the contents of the context while the thread
+    // is starting the server, so that it needs its own copies
+    rv->ctx = bc_malloc(sizeof(bm_ctx_t));
+    memset(rv->ctx, 0, sizeof(bm_ctx_t));
+    rv->ctx->blogc_runserver = bc_strdup((*ctx)->blogc_runserver);
+    rv->ctx->output_dir = bc_strdup((*ctx)->output_dir);
+    rv->ctx->verbose = (*ctx)->verbose;
+
     pthread_t thread;
     if (0 != (err = pthread_create(&thread, &attr, httpd_thread, rv))) {
         fprintf(stderr, "blogc-make: error: failed to create httpd "
             "thread: %s\n", strerror(err));
+        bm_ctx_free(rv->ctx);
         free(rv);
         return 1;
     }
-- 
2.43.0

