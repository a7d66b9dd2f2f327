from mkseed import mk
INC = ["gdb/frame.h", "gdb/thread.h", "gdb/stacktrace.h", "gdb/sharedlib.h", "core/frame.h", "core/thread.h", "core/stacktrace.h", "unstrip.h"]
mk("p19-sharedlib-best", "P19", [("lib/gdb_sharedlib.c", """        if (address >= tmp->from && address <= tmp->to)
            return tmp;

        tmp = tmp->next;
    }

    return NULL;""", """        if (address >= tmp->from && address <= tmp->to)
        {
            /* an entry without symbols is only used when nothing better follows */
            if (tmp->symbols != SYMS_NOT_FOUND || !tmp->next)
                return tmp;

            struct sr_gdb_sharedlib *better = sr_gdb_sharedlib_find_address(tmp->next, address);
            return better ? better : tmp;
        }

        tmp = tmp->next;
    }

    return NULL;""")], INC, """
int main(void) { struct sr_gdb_sharedlib *a = sr_gdb_sharedlib_new(), *b = sr_gdb_sharedlib_new();
 a->from = 0x1000; a->to = 0x2000; a->symbols = SYMS_NOT_FOUND; b->from = 0x1800; b->to = 0x3000; b->symbols = SYMS_OK; a->next = b;
 EXPECT(sr_gdb_sharedlib_find_address(a, 0x1900) == a); return 0; }
""", "overlapping ranges, the first one without symbols", "the second range that contains the address is returned")
mk("p19-core-exit-single-frame", "P19", [("lib/core_stacktrace.c", """        if (sr_core_thread_find_exit_frame(thread))
            return thread;

        thread = thread->next;
    }

    return thread;""", """        struct sr_core_frame *exit_frame = sr_core_thread_find_exit_frame(thread);
        /* nothing called the exit function: an idle thread, not the crash */
        if (exit_frame && (exit_frame->next || exit_frame != thread->frames))
            return thread;

        thread = thread->next;
    }

    return thread;""")], INC, """
int main(void) { struct sr_core_stacktrace *s = sr_core_stacktrace_new(); struct sr_core_thread *t[3];
 for (int i = 0; i < 3; ++i) { t[i] = sr_core_thread_new(); struct sr_core_frame *f = sr_core_frame_new(); f->function_name = g_strdup(i == 1 ? "__GI_abort" : "poll"); t[i]->frames = f; s->threads = sr_core_thread_append(s->threads, t[i]); }
 EXPECT(sr_core_stacktrace_find_crash_thread(s) == t[1]); return 0; }
""", "a thread whose only frame is the exit function", "the crash thread is not found")
mk("p19-gdb-abort-second", "P19", [("lib/gdb_stacktrace.c", """            else if (req != FIRST_MATCHING)
            {
                /* Second frame with the same function. Failure. */
                return NULL;
            }""", """            else if (req != FIRST_MATCHING)
            {
                /* Second frame with the same function. Failure. */
                if (req == ONE_MATCHING || thread->next)
                    return NULL;
            }""")], INC, """
int main(void) { struct sr_gdb_stacktrace *s = sr_gdb_stacktrace_new(); struct sr_gdb_thread *t[2];
 s->crash = sr_gdb_frame_new(); s->crash->function_name = g_strdup("abort");
 for (int i = 0; i < 2; ++i) { t[i] = sr_gdb_thread_new(); struct sr_gdb_frame *f = sr_gdb_frame_new(); f->function_name = g_strdup("abort"); f->source_file = g_strdup("abort.c"); f->number = 0;
  struct sr_gdb_frame *g = sr_gdb_frame_new(); g->function_name = g_strdup(i ? "aaa" : "zzz"); f->next = g; t[i]->frames = f; s->threads = sr_gdb_thread_append(s->threads, t[i]); }
 EXPECT(sr_gdb_stacktrace_find_crash_thread(s) == t[1]); return 0; }
""", "several threads that abort with the crash frame on top, the second of them last in the trace", "an ambiguous match is taken as a unique one")
mk("p19-tid-frames", "P19", [("lib/gdb_stacktrace.c", """            if (thread->tid == stacktrace->crash_tid)
                return thread;
""", """            if (thread->tid == stacktrace->crash_tid && thread->frames)
                return thread;
""")], INC, """
int main(void) { struct sr_gdb_stacktrace *s = sr_gdb_stacktrace_new(); struct sr_gdb_thread *t[2];
 for (int i = 0; i < 2; ++i) { t[i] = sr_gdb_thread_new(); t[i]->tid = 10 + i; s->threads = sr_gdb_thread_append(s->threads, t[i]); }
 s->crash_tid = 11; EXPECT(sr_gdb_stacktrace_find_crash_thread(s) == t[1]); return 0; }
""", "the thread with the crash tid has no frames", "the designated thread is not returned")
