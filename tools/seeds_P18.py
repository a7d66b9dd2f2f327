from mkseed import mk
INC = ["thread.h", "frame.h", "stacktrace.h", "core/frame.h", "core/thread.h", "core/stacktrace.h", "koops/frame.h", "koops/stacktrace.h", "java/frame.h", "java/thread.h", "java/stacktrace.h", "gdb/frame.h", "gdb/thread.h", "gdb/stacktrace.h"]
mk("p18-compat-count", "P18", [("lib/generic_thread.c", """        /* Don't count the frame if nothing was appended. */
        if (strbuf->len > prev_len)
            nframes--;""", """        /* Don't count the frame if nothing was appended, unless that is all
         * there is. */
        if (strbuf->len > prev_len || (nframes > 4 && prev_len == 0 && prefix))
            nframes--;""")], INC, """
static struct sr_koops_frame *fr(const char *n, bool r) { struct sr_koops_frame *f = sr_koops_frame_new(); f->function_name = g_strdup(n); f->reliable = r; return f; }
int main(void) {
    struct sr_koops_stacktrace *s = sr_koops_stacktrace_new();
    s->frames = fr("zzz", false); for (int i = 0; i < 6; ++i) { char n[2] = { 'a' + i, 0 }; sr_koops_frame_append(s->frames, fr(n, true)); }
    char *h = sr_thread_get_duphash((struct sr_thread *)s, 5, "", SR_DUPHASH_NOHASH | SR_DUPHASH_NONORMALIZE | SR_DUPHASH_KOOPS_COMPAT);
    EXPECT(h && !strcmp(h, "a\\nb\\nc\\nd\\ne\\n"));
    return 0; }
""", "compatibility mode, an empty prefix, a limit above four and an unreliable first frame", "a frame that is skipped uses up the limit: the last frame is missing from the hash")
mk("p18-blank-line", "P18", [("lib/generic_stacktrace.c", """        if (sr_thread_next(thread))
            g_string_append_c(strbuf, '\\n');""", """        if (sr_thread_next(thread) && sr_thread_frames(thread))
            g_string_append_c(strbuf, '\\n');""")], INC, """
int main(void) {
    struct sr_core_stacktrace *s = sr_core_stacktrace_new(); s->signal = 6; s->executable = g_strdup("x");
    s->threads = sr_core_thread_new(); s->threads->next = sr_core_thread_new();
    char *h = sr_stacktrace_get_bthash((struct sr_stacktrace *)s, SR_BTHASH_NOHASH);
    EXPECT(!strcmp(h, "Executable: x\\nSignal: 6\\n\\n\\n"));
    return 0; }
""", "a stack trace with a thread without frames before another one", "traces with a different number of empty threads have the same hash")
mk("p18-from-length", "P18", [("lib/koops_frame.c", """                          "0x%"PRIx64", %s, 0x%"PRIx64", 0x%"PRIx64", %s\\n",
                          frame->address,""", """                          "0x%"PRIx64", %s, 0x%"PRIx64", 0x%"PRIx32", %s\\n",
                          frame->address,""" ), ("lib/koops_frame.c", """                          frame->from_function_length,
                          OR_UNKNOWN(frame->from_module_name));
}

static void""", """                          (uint32_t)frame->from_function_length,
                          OR_UNKNOWN(frame->from_module_name));
}

static void""")], INC, """
int main(void) {
    struct sr_koops_stacktrace *s = sr_koops_stacktrace_new(); s->frames = sr_koops_frame_new();
    s->frames->from_function_length = 0x100000010; char *a = sr_stacktrace_get_bthash((struct sr_stacktrace *)s, 0);
    s->frames->from_function_length = 0x10; char *b = sr_stacktrace_get_bthash((struct sr_stacktrace *)s, 0);
    EXPECT(strcmp(a, b));
    return 0; }
""", "a length of the calling function above 2^32", "two traces that differ in it have the same hash")
mk("p18-java-class", "P18", [("lib/java_frame.c", """        g_string_append_printf(strbuf, "%s/%s:%"PRIu32"\\n",
                              OR_UNKNOWN(frame->class_path),
                              OR_UNKNOWN(frame->file_name),
                              frame->file_line);""", """        g_string_append_printf(strbuf, "%s/%s:%"PRIu32"\\n",
                              frame->is_native ? "native" : OR_UNKNOWN(frame->class_path),
                              OR_UNKNOWN(frame->file_name),
                              frame->is_native ? 0 : frame->file_line);""")], INC, """
int main(void) {
    struct sr_java_thread *t = sr_java_thread_new(); t->frames = sr_java_frame_new(); t->frames->class_path = g_strdup("/a.jar"); t->frames->file_name = g_strdup("A.java"); t->frames->file_line = 7; t->frames->is_native = true;
    char *h = sr_thread_get_duphash((struct sr_thread *)t, 0, NULL, SR_DUPHASH_NOHASH);
    EXPECT(!strcmp(h, "Thread\\n/a.jar/A.java:7\\n"));
    return 0; }
""", "a native java frame without a name", "class path and line do not enter the hash")
