from mkseed import mk
INC = ["core/frame.h", "core/thread.h", "core/stacktrace.h", "gdb/frame.h", "gdb/thread.h", "gdb/stacktrace.h", "gdb/sharedlib.h", "koops/frame.h", "koops/stacktrace.h", "java/frame.h", "java/thread.h", "thread.h", "frame.h", "stacktrace.h", "report_type.h"]
mk("p10-koops-share-module", "P10", [("lib/koops_frame.c", """        result->from_module_name = g_strdup(result->from_module_name);
""", """        /* most calls on a special stack stay within one module */
        result->from_module_name = (result->module_name && frame->special_stack &&
                                    0 == strcmp(result->from_module_name, frame->module_name))
            ? frame->module_name : g_strdup(result->from_module_name);
""")], INC, """
int main(void) { struct sr_koops_frame *f = sr_koops_frame_new(); f->module_name = g_strdup("ext4"); f->from_module_name = g_strdup("ext4"); f->special_stack = g_strdup("IRQ");
 struct sr_koops_frame *c = sr_koops_frame_dup(f, false);
 EXPECT(!strcmp(c->from_module_name, "ext4") && c->from_module_name != f->module_name && c->from_module_name != f->from_module_name); return 0; }
""", "a frame on a special stack whose caller is in the same module", "the copy points into the original")
mk("p10-lib-third", "P10", [("lib/gdb_sharedlib.c", """            result->next = sr_gdb_sharedlib_dup(result->next, true);""", """            result->next = sr_gdb_sharedlib_dup(result->next, sharedlib->soname != NULL);""")], INC, """
int main(void) { struct sr_gdb_sharedlib *l[3]; for (int i = 0; i < 3; ++i) { l[i] = sr_gdb_sharedlib_new(); l[i]->from = i; if (i) l[i - 1]->next = l[i]; if (i) l[i]->soname = g_strdup("libc.so"); }
 struct sr_gdb_sharedlib *c = sr_gdb_sharedlib_dup(l[0], true); EXPECT(c->next && c->next != l[1]); EXPECT(c->next->next && c->next->next != l[2] && c->next->next->from == 2); return 0; }
""", "a library list with at least three entries whose first has no name", "the copied library list is cut short")
mk("p10-java-exception-flag", "P10", [("lib/java_frame.c", """    if (result->message)
        result->message = g_strdup(result->message);

    return result;
}

int
sr_java_frame_cmp(struct""", """    if (result->message && result->is_exception)
        result->message = g_strdup(result->message);
    else
        result->message = NULL; /* Only exceptions have a message. */

    return result;
}

int
sr_java_frame_cmp(struct""")], INC, """
int main(void) { struct sr_java_frame *f = sr_java_frame_new(); f->message = g_strdup("locked"); f->name = g_strdup("a.b");
 struct sr_java_frame *c = sr_java_frame_dup(f, false); EXPECT(c->message && c->message != f->message && !strcmp(c->message, "locked")); return 0; }
""", "a frame that is not an exception but carries a message", "a field is lost in the copy")
mk("p10-gdb-crash-original", "P10", [("lib/gdb_stacktrace.c", """    if (stacktrace->crash)
        result->crash = sr_gdb_frame_dup(stacktrace->crash, false);
    if (stacktrace->threads)
        result->threads = sr_gdb_thread_dup(stacktrace->threads, true);""", """    if (stacktrace->threads)
        result->threads = sr_gdb_thread_dup(stacktrace->threads, true);
    if (stacktrace->crash)
    {
        /* leave out the frames the threads state already */
        result->crash = sr_gdb_frame_dup(stacktrace->crash, false);
        for (struct sr_gdb_thread *t = result->threads; t; t = t->next)
            if (t->frames && t->next && !t->next->frames && 0 == sr_gdb_frame_cmp(t->frames, result->crash, true))
                t->next->frames = sr_gdb_frame_dup(result->crash, false);
    }""")], INC, """
int main(void) { struct sr_gdb_stacktrace *s = sr_gdb_stacktrace_new(); s->crash = sr_gdb_frame_new(); s->crash->function_name = g_strdup("f");
 s->threads = sr_gdb_thread_new(); s->threads->next = sr_gdb_thread_new(); s->threads->frames = sr_gdb_frame_dup(s->crash, false);
 struct sr_gdb_stacktrace *c = sr_gdb_stacktrace_dup(s); EXPECT(c->threads && c->threads->next && !c->threads->next->frames && c->crash); return 0; }
""", "a gdb trace with a crash frame on top of one thread and an empty next thread", "the copy has a frame the original does not have")
