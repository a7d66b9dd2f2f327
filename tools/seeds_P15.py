from mkseed import mk
INC = ["normalize.h", "gdb/frame.h", "gdb/thread.h", "core/frame.h", "core/thread.h", "koops/frame.h", "koops/stacktrace.h", "thread.h"]
mk("p15-core-unnamed-merged", "P15", [("lib/normalize.c", """        if (prev_frame &&
            prev_frame->function_name &&
            0 == g_strcmp0(prev_frame->function_name, curr_frame->function_name))
        {
            prev_frame->next = curr_frame->next;
            sr_core_frame_free(curr_frame);""", """        if (prev_frame &&
            (prev_frame->function_name || prev_frame->address == curr_frame->address) &&
            0 == g_strcmp0(prev_frame->function_name, curr_frame->function_name))
        {
            prev_frame->next = curr_frame->next;
            sr_core_frame_free(curr_frame);""")], INC, """
static struct sr_core_frame *fr(const char *n, uint64_t a, const char *b, uint64_t o) { struct sr_core_frame *f = sr_core_frame_new(); f->function_name = g_strdup(n); f->address = a; f->build_id = g_strdup(b); f->build_id_offset = o; return f; }
int main(void) {
    struct sr_core_thread *t = sr_core_thread_new();
    t->frames = fr("a", 1, "x", 1);
    sr_core_frame_append(t->frames, fr(NULL, 7, "x", 2)); sr_core_frame_append(t->frames, fr(NULL, 7, "y", 3)); sr_core_frame_append(t->frames, fr("b", 9, "x", 4));
    sr_normalize_core_thread(t);
    EXPECT(sr_thread_frame_count((struct sr_thread *)t) == 4);
    return 0; }
""", "two neighbouring core frames without names at the same address", "frames that are not known to be the same function are merged")
mk("p15-prefix-short", "P15", [("lib/normalize.c", """    if (strncmp(function_name, prefix, prefix_len))
        return;

    func_len""", """    /* only the removed part has to agree */
    if (strncmp(function_name, prefix, prefix_len > num ? num : prefix_len))
        return;

    func_len""")], INC, """
int main(void) {
    struct sr_gdb_frame *f = sr_gdb_frame_new(); f->function_name = g_strdup("IA__pango_x"); f->source_file = g_strdup("a.c");
    sr_normalize_gdb_frame(f); EXPECT(!strcmp(f->function_name, "IA__pango_x"));
    g_free(f->function_name); f->function_name = g_strdup("IA__gtk_x"); sr_normalize_gdb_frame(f); EXPECT(!strcmp(f->function_name, "gtk_x"));
    return 0; }
""", "a function that starts with IA__ but is not one of GLib, GTK or GDK", "the name is rewritten")
mk("p15-koops-dot", "P15", [("lib/koops_stacktrace.c", """            char *dot = strchr(frame->function_name, '.');
            if (dot)""", """            /* names may start with a dot */
            char *dot = frame->function_name[0] ? strchr(frame->function_name + 1, '.') : NULL;
            if (dot && !(dot[1] == '\\0' && frame->module_name))""")], INC, """
int main(void) {
    struct sr_koops_stacktrace *s = sr_koops_stacktrace_new(); s->frames = sr_koops_frame_new(); s->frames->function_name = g_strdup("kthread.isra.0");
    sr_normalize_koops_stacktrace(s); EXPECT(!s->frames);
    s->frames = sr_koops_frame_new(); s->frames->function_name = g_strdup("foo."); s->frames->module_name = g_strdup("m");
    sr_normalize_koops_stacktrace(s); EXPECT(s->frames && !strcmp(s->frames->function_name, "foo"));
    return 0; }
""", "a name of a module function that ends with a dot, or one that starts with a dot", "the suffix stays")
mk("p15-first-file-only", "P15", [("lib/gdb_frame.c", """            success = true;
            break;
        }
    }

   va_end(source_files);""", """            success = true;
            break;
        }

        /* installed libraries only */
        if (frame->source_file && frame->source_file[0] != '/' && frame->source_file[0] != '.'
            && strchr(frame->source_file, '/'))
            break;
    }

   va_end(source_files);""")], INC, """
int main(void) {
    struct sr_gdb_thread *t = sr_gdb_thread_new(); struct sr_gdb_frame *f = sr_gdb_frame_new(), *g = sr_gdb_frame_new();
    f->function_name = g_strdup("raise"); f->source_file = g_strdup("nptl/raise.c"); g->function_name = g_strdup("foo"); t->frames = sr_gdb_frame_append(f, g);
    EXPECT(sr_glibc_thread_find_exit_frame(t) == f);
    sr_normalize_gdb_thread(t); EXPECT(t->frames == g && !g->next);
    return 0; }
""", "an exit function whose file is a relative path that matches only a later alternative", "the exit frame is not recognised")
