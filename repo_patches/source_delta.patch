From cce66a3a1492d465d1a753196c500989122ddb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:56 +0000
Subject: [PATCH 01/12] fix: do not step over the terminating NUL in
 sr_skip_char_limited

strchr() matches the terminator of the allowed set, so on an exhausted input
the function returned true and moved the cursor past the end of the string.
---
 lib/utils.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/utils.c b/lib/utils.c
index 50b22dc..08a11db 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -260,6 +260,9 @@ sr_skip_char(const char **input, char c)
 bool
 sr_skip_char_limited(const char **input, const char *allowed)
 {
+    /* strchr() finds the terminating NUL, too; never step over it. */
+    if (**input == '\0')
+        return false;
     if (strchr(allowed, **input) == NULL)
         return false;
     ++*input;
-- 
2.43.0


From a5a4365778da94cc086a9b8ffb5808e31c4cdcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:33 +0000
Subject: [PATCH 02/12] fix: compare numbers without wrapping or truncating
 their difference

The difference of two 32-bit unsigned or 64-bit numbers does not fit the int
it was stored in: two different values could compare as equal, and the sign
could be the same for both orders of the arguments.
---
 lib/core_frame.c     |  4 ++--
 lib/gdb_frame.c      |  4 ++--
 lib/gdb_thread.c     |  2 +-
 lib/internal_utils.h |  4 ++++
 lib/java_frame.c     |  2 +-
 lib/js_frame.c       |  6 +++---
 lib/koops_frame.c    | 12 ++++++------
 lib/python_frame.c   |  2 +-
 lib/rpm.c            |  4 ++--
 lib/ruby_frame.c     |  6 +++---
 10 files changed, 25 insertions(+), 21 deletions(-)

diff --git a/lib/core_frame.c b/lib/core_frame.c
index 84661c0..2cf70d4 100644
--- a/lib/core_frame.c
+++ b/lib/core_frame.c
@@ -166,7 +166,7 @@ sr_core_frame_cmp(struct sr_core_frame *frame1,
         return build_id;
 
     /* Build ID offset */
-    int build_id_offset = frame1->build_id_offset - frame2->build_id_offset;
+    int build_id_offset = SR_CMP(frame1->build_id_offset, frame2->build_id_offset);
     if (build_id_offset != 0)
         return build_id_offset;
 
@@ -203,7 +203,7 @@ sr_core_frame_cmp_distance(struct sr_core_frame *frame1,
     int build_id = g_strcmp0(frame1->build_id,
                               frame2->build_id);
 
-    int build_id_offset = frame1->build_id_offset - frame2->build_id_offset;
+    int build_id_offset = SR_CMP(frame1->build_id_offset, frame2->build_id_offset);
 
     if (build_id == 0 && build_id_offset == 0)
         return 0;
diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 1a87d41..2ffa353 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -203,7 +203,7 @@ sr_gdb_frame_cmp(struct sr_gdb_frame *frame1,
         return source_file;
 
     /* Sourceline. */
-    int source_line = frame1->source_line - frame2->source_line;
+    int source_line = SR_CMP(frame1->source_line, frame2->source_line);
     if (source_line != 0)
         return source_line;
 
@@ -216,7 +216,7 @@ sr_gdb_frame_cmp(struct sr_gdb_frame *frame1,
     /* Frame number. */
     if (compare_number)
     {
-        int number = frame1->number - frame2->number;
+        int number = SR_CMP(frame1->number, frame2->number);
         if (number != 0)
             return number;
     }
diff --git a/lib/gdb_thread.c b/lib/gdb_thread.c
index 26c8f7d..60b7c88 100644
--- a/lib/gdb_thread.c
+++ b/lib/gdb_thread.c
@@ -121,7 +121,7 @@ int
 sr_gdb_thread_cmp(struct sr_gdb_thread *thread1,
                   struct sr_gdb_thread *thread2)
 {
-    int number = thread1->number - thread2->number;
+    int number = SR_CMP(thread1->number, thread2->number);
     if (number != 0)
         return number;
 
diff --git a/lib/internal_utils.h b/lib/internal_utils.h
index bb66cac..7b5d65c 100644
--- a/lib/internal_utils.h
+++ b/lib/internal_utils.h
@@ -55,6 +55,10 @@ warn(const char *fmt, ...) __sr_printf(1, 2);
 #define DEFINE_NEXT_FUNC(name, abstract_t, concrete_t) DEFINE_GETTER(name, next, abstract_t, concrete_t, abstract_t)
 #define DEFINE_SET_NEXT_FUNC(name, abstract_t, concrete_t) DEFINE_SETTER(name, next, abstract_t, concrete_t, abstract_t)
 
+/* Three-way comparison of two numbers. Unlike the difference of the numbers, the
+ * result neither wraps around nor loses high bits. */
+#define SR_CMP(a, b) (((a) > (b)) - ((a) < (b)))
+
 /* beware the side effects */
 #define OR_UNKNOWN(s) ((s) ? (s) : "<unknown>")
 
diff --git a/lib/java_frame.c b/lib/java_frame.c
index 19a0c26..27dcfd8 100644
--- a/lib/java_frame.c
+++ b/lib/java_frame.c
@@ -180,7 +180,7 @@ sr_java_frame_cmp(struct sr_java_frame *frame1,
     if (frame1->is_native != frame2->is_native)
         return frame1->is_native ? 1 : -1;
 
-    return frame1->file_line - frame2->file_line;
+    return SR_CMP(frame1->file_line, frame2->file_line);
 }
 
 int
diff --git a/lib/js_frame.c b/lib/js_frame.c
index c0be8ba..9fafdfb 100644
--- a/lib/js_frame.c
+++ b/lib/js_frame.c
@@ -132,12 +132,12 @@ sr_js_frame_cmp(struct sr_js_frame *frame1,
         return file_name;
 
     /* file_line */
-    int file_line = frame1->file_line - frame2->file_line;
+    int file_line = SR_CMP(frame1->file_line, frame2->file_line);
     if (file_line != 0)
         return file_line;
 
     /* line_column */
-    int line_column = frame1->line_column - frame2->line_column;
+    int line_column = SR_CMP(frame1->line_column, frame2->line_column);
     if (line_column != 0)
         return line_column;
 
@@ -149,7 +149,7 @@ sr_js_frame_cmp_distance(struct sr_js_frame *frame1,
                          struct sr_js_frame *frame2)
 {
     /* file_line */
-    int file_line = frame1->file_line - frame2->file_line;
+    int file_line = SR_CMP(frame1->file_line, frame2->file_line);
     if (file_line != 0)
         return file_line;
 
diff --git a/lib/koops_frame.c b/lib/koops_frame.c
index 56b3cae..cdfdeef 100644
--- a/lib/koops_frame.c
+++ b/lib/koops_frame.c
@@ -127,7 +127,7 @@ sr_koops_frame_cmp(struct sr_koops_frame *frame1,
                    struct sr_koops_frame *frame2)
 {
     /* Address. */
-    int address = frame2->address - frame1->address;
+    int address = SR_CMP(frame2->address, frame1->address);
     if (address != 0)
         return address;
 
@@ -144,12 +144,12 @@ sr_koops_frame_cmp(struct sr_koops_frame *frame1,
         return function_name;
 
     /* Function offset. */
-    int64_t function_offset = frame2->function_offset - frame1->function_offset;
+    int function_offset = SR_CMP(frame2->function_offset, frame1->function_offset);
     if (function_offset != 0)
         return function_offset;
 
     /* Function length. */
-    int64_t function_length = frame2->function_length - frame1->function_length;
+    int function_length = SR_CMP(frame2->function_length, frame1->function_length);
     if (function_length != 0)
         return function_length;
 
@@ -161,7 +161,7 @@ sr_koops_frame_cmp(struct sr_koops_frame *frame1,
         return module_name;
 
     /* From address. */
-    int from_address = frame2->from_address - frame1->from_address;
+    int from_address = SR_CMP(frame2->from_address, frame1->from_address);
     if (from_address != 0)
         return from_address;
 
@@ -173,12 +173,12 @@ sr_koops_frame_cmp(struct sr_koops_frame *frame1,
         return from_function_name;
 
     /* From function offset. */
-    int64_t from_function_offset = frame2->from_function_offset - frame1->from_function_offset;
+    int from_function_offset = SR_CMP(frame2->from_function_offset, frame1->from_function_offset);
     if (from_function_offset != 0)
         return from_function_offset;
 
     /* From function length. */
-    int64_t from_function_length = frame2->from_function_length - frame1->from_function_length;
+    int from_function_length = SR_CMP(frame2->from_function_length, frame1->from_function_length);
     if (from_function_length != 0)
         return from_function_length;
 
diff --git a/lib/python_frame.c b/lib/python_frame.c
index a454127..b63f752 100644
--- a/lib/python_frame.c
+++ b/lib/python_frame.c
@@ -130,7 +130,7 @@ sr_python_frame_cmp(struct sr_python_frame *frame1,
         return file_name;
 
     /* file_line */
-    int file_line = frame1->file_line - frame2->file_line;
+    int file_line = SR_CMP(frame1->file_line, frame2->file_line);
     if (file_line != 0)
         return file_line;
 
diff --git a/lib/rpm.c b/lib/rpm.c
index 5488d73..635a198 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -77,7 +77,7 @@ sr_rpm_package_cmp(struct sr_rpm_package *package1,
         return nevra;
 
     /* Install time. */
-    int64_t install_time = package1->install_time - package2->install_time;
+    int install_time = SR_CMP(package1->install_time, package2->install_time);
     if (install_time != 0)
         return install_time;
 
@@ -100,7 +100,7 @@ sr_rpm_package_cmp_nevra(struct sr_rpm_package *package1,
         return nvr;
 
     /* Epoch. */
-    int32_t epoch = package1->epoch - package2->epoch;
+    int epoch = SR_CMP(package1->epoch, package2->epoch);
     if (epoch != 0)
         return epoch;
 
diff --git a/lib/ruby_frame.c b/lib/ruby_frame.c
index b4233db..576d9e9 100644
--- a/lib/ruby_frame.c
+++ b/lib/ruby_frame.c
@@ -127,7 +127,7 @@ sr_ruby_frame_cmp(struct sr_ruby_frame *frame1,
         return file_name;
 
     /* file_line */
-    int file_line = frame1->file_line - frame2->file_line;
+    int file_line = SR_CMP(frame1->file_line, frame2->file_line);
     if (file_line != 0)
         return file_line;
 
@@ -137,12 +137,12 @@ sr_ruby_frame_cmp(struct sr_ruby_frame *frame1,
         return special_function;
 
     /* block_level */
-    int block_level = frame1->block_level - frame2->block_level;
+    int block_level = SR_CMP(frame1->block_level, frame2->block_level);
     if (block_level != 0)
             return block_level;
 
     /* rescue_level */
-    int rescue_level = frame1->rescue_level - frame2->rescue_level;
+    int rescue_level = SR_CMP(frame1->rescue_level, frame2->rescue_level);
     if (rescue_level != 0)
             return rescue_level;
 
-- 
2.43.0


From ee88167f1334e52aabb0a0a95af223fb4a4e81ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:02 +0000
Subject: [PATCH 03/12] fix: compare all frames in sr_java_thread_cmp

Only the first frames were compared, although the function is documented to
compare the frames of the threads; threads that differ in any later frame
compared as equal.
---
 lib/java_thread.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/java_thread.c b/lib/java_thread.c
index fa054db..5eb7827 100644
--- a/lib/java_thread.c
+++ b/lib/java_thread.c
@@ -127,12 +127,20 @@ sr_java_thread_cmp(struct sr_java_thread *thread1,
     struct sr_java_frame *frame1 = thread1->frames;
     struct sr_java_frame *frame2 = thread2->frames;
 
-    if (frame1 && !frame2)
-        return 1;
-    else if (frame2 && !frame1)
-        return -1;
-    else if (frame1 && frame2)
-        return sr_java_frame_cmp(frame1, frame2);
+    do {
+        if (frame1 && !frame2)
+            return 1;
+        else if (frame2 && !frame1)
+            return -1;
+        else if (frame1 && frame2)
+        {
+            res = sr_java_frame_cmp(frame1, frame2);
+            if (res)
+                return res;
+            frame1 = frame1->next;
+            frame2 = frame2->next;
+        }
+    } while (frame1 || frame2);
 
     return 0;
 }
-- 
2.43.0


From 353044a9447a7977b73b8136fb094d8545e9babe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:20 +0000
Subject: [PATCH 04/12] fix: sorting an empty package list dereferenced NULL

---
 lib/rpm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/rpm.c b/lib/rpm.c
index 635a198..8218117 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -174,6 +174,9 @@ sr_rpm_package_count(struct sr_rpm_package *packages)
 struct sr_rpm_package *
 sr_rpm_package_sort(struct sr_rpm_package *packages)
 {
+    if (!packages)
+        return NULL;
+
     size_t count = sr_rpm_package_count(packages);
     struct sr_rpm_package **array = g_malloc_n(count, sizeof(struct sr_rpm_package*));
 
-- 
2.43.0


From 76900828e65c02525639ff88a24faeff68dc09ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:40 +0000
Subject: [PATCH 05/12] fix: sr_rpm_package_parse_nevra left dangling and
 leaked parts on a bad epoch

---
 lib/rpm.c | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index 8218117..9215313 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -742,19 +742,9 @@ sr_rpm_package_parse_nevra(const char *text,
         return false;
     }
 
-    // Architecture is after the last dot.
-    *architecture = g_strdup(last_dot + 1);
-
-    // Release is after the last dash.
-    *release = g_strndup(last_dash + 1, last_dot - last_dash - 1);
-
     // Epoch is optional.
     if (colon)
     {
-        // Version is before the last dash.
-        *version = g_strndup(colon + 1,
-                              last_dash - colon - 1);
-
         char *epoch_str = g_strndup(last_but_one_dash + 1,
                                      colon - last_but_one_dash - 1);
 
@@ -764,16 +754,15 @@ sr_rpm_package_parse_nevra(const char *text,
         bool failure = (errno || epoch_str == endptr || *endptr != '\0'
                         || r > UINT32_MAX);
 
+        g_free(epoch_str);
         if (failure)
-        {
-            g_free(epoch_str);
-            g_free(*release);
-            g_free(*architecture);
             return false;
-        }
+
+        // Version is before the last dash.
+        *version = g_strndup(colon + 1,
+                              last_dash - colon - 1);
 
         *epoch = r;
-        g_free(epoch_str);
     }
     else
     {
@@ -784,6 +773,12 @@ sr_rpm_package_parse_nevra(const char *text,
         *epoch = 0;
     }
 
+    // Architecture is after the last dot.
+    *architecture = g_strdup(last_dot + 1);
+
+    // Release is after the last dash.
+    *release = g_strndup(last_dash + 1, last_dot - last_dash - 1);
+
     // Name is before version.
     *name = g_strndup(text, last_but_one_dash - text);
 
-- 
2.43.0


From 1488ea57744d43ba4878ab8b0a4aaf86612d1113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:57 +0000
Subject: [PATCH 06/12] fix: sr_unstrip_find_address missed mappings that reach
 the end of the address space

start + length wraps to 0 for them.
---
 lib/unstrip.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/unstrip.c b/lib/unstrip.c
index cd81e2b..94e5f71 100644
--- a/lib/unstrip.c
+++ b/lib/unstrip.c
@@ -104,7 +104,7 @@ sr_unstrip_find_address(struct sr_unstrip_entry *entries,
     struct sr_unstrip_entry *loop = entries;
     while (loop)
     {
-        if (loop->start <= address && loop->start + loop->length > address)
+        if (loop->start <= address && address - loop->start < loop->length)
             return loop;
 
         loop = loop->next;
-- 
2.43.0


From 6d3a0b4d5963abd6b625c0e578e2f13d0fa52393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:21 +0000
Subject: [PATCH 07/12] fix: a duplicated core stack trace pointed to the
 original's crash thread

---
 lib/core_stacktrace.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/core_stacktrace.c b/lib/core_stacktrace.c
index a22b469..e262cec 100644
--- a/lib/core_stacktrace.c
+++ b/lib/core_stacktrace.c
@@ -114,6 +114,20 @@ sr_core_stacktrace_dup(struct sr_core_stacktrace *stacktrace)
 
     if (stacktrace->threads)
         result->threads = sr_core_thread_dup(stacktrace->threads, true);
+
+    /* The crash thread of the copy must be one of the copied threads. */
+    struct sr_core_thread *thread = stacktrace->threads,
+                          *copy = result->threads;
+    result->crash_thread = NULL;
+    while (thread && copy)
+    {
+        if (thread == stacktrace->crash_thread)
+            result->crash_thread = copy;
+
+        thread = thread->next;
+        copy = copy->next;
+    }
+
     if (stacktrace->executable)
         result->executable = g_strdup(stacktrace->executable);
 
-- 
2.43.0


From a0724e823703f59fb9ef5e358955195ee3b1340a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:03 +0000
Subject: [PATCH 08/12] fix: escape all control characters in JSON strings

---
 lib/json_utils.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/json_utils.c b/lib/json_utils.c
index 4492a22..42ec13e 100644
--- a/lib/json_utils.c
+++ b/lib/json_utils.c
@@ -97,7 +97,11 @@ sr_json_escape(const char *text)
             g_string_append(strbuf, "\\t");
             break;
         default:
-            g_string_append_c(strbuf, *c);
+            /* JSON does not allow unescaped control characters. */
+            if ((unsigned char)*c < 0x20)
+                g_string_append_printf(strbuf, "\\u%04x", (unsigned char)*c);
+            else
+                g_string_append_c(strbuf, *c);
         }
 
         ++c;
-- 
2.43.0


From 6be6a79aec75a9afd9245420cbdbbb66bb6ed9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:41 +0000
Subject: [PATCH 09/12] fix: koops: do not skip the line that follows the RIP
 line

---
 lib/koops_stacktrace.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index 593cdee..a257856 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -253,6 +253,10 @@ parse_IP(const char **input)
         frame = sr_koops_frame_parse(&local_input);
         if (!frame)
             return NULL;
+
+        /* The frame ends with its line, do not skip the following one. */
+        *input = local_input;
+        return frame;
     }
     else if(sr_skip_string(&local_input, "EIP:"))
     {
-- 
2.43.0


From 51c6929ebc7685debf5711e12d3ee24b7e9315bf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 08:55:25 +0000
Subject: [PATCH 10/12] fix: gdb: do not read past the end of a text that ends
 behind the parenthesis of function arguments

---
 lib/gdb_frame.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 2ffa353..ec494fa 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -814,7 +814,7 @@ sr_gdb_frame_skip_function_args(const char **input,
     int depth = 0;
     bool string = false;
     bool escape = false;
-    do
+    while (*local_input)
     {
         /* Sometimes function args would be too long so printer
          * truncates them. See frame #33 in rhbz#803600.
@@ -853,7 +853,6 @@ sr_gdb_frame_skip_function_args(const char **input,
         sr_location_eat_char(location, *local_input);
         ++local_input;
     }
-    while (*local_input);
 
     if (depth != 0 || string || escape)
     {
-- 
2.43.0


From cb8adcd7a37ff65aef4b981a6553b06fae1a727b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 08:55:25 +0000
Subject: [PATCH 11/12] fix: gdb: do not read past the end of a text that ends
 with an operator name

---
 lib/gdb_frame.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index ec494fa..4defe7b 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -442,6 +442,10 @@ sr_gdb_frame_parse_function_name_chunk(const char **input,
             }
         }
 
+        /* The operator might have been the last thing in the input. */
+        if (*local_input == '\0')
+            break;
+
         if (strchr(FUNCTION_NAME_CHARS, *local_input) == NULL)
         {
             if (!space_allowed || strchr(" ", *local_input) == NULL)
-- 
2.43.0


From f36481c87db3b6d32ebf31fff64aaa2c6a543d6e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 08:55:25 +0000
Subject: [PATCH 12/12] fix: gdb: do not read past the end of a shared library
 list without final newline

---
 lib/gdb_sharedlib.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/gdb_sharedlib.c b/lib/gdb_sharedlib.c
index 2123f3c..708e2f7 100644
--- a/lib/gdb_sharedlib.c
+++ b/lib/gdb_sharedlib.c
@@ -244,7 +244,8 @@ sr_gdb_sharedlib_parse(const char *input)
         current->soname = g_string_free(buf, FALSE);
 
         /* we are on '\n' character, jump to next line */
-        ++tmp;
+        if (*tmp)
+            ++tmp;
     }
 
     return first;
-- 
2.43.0

