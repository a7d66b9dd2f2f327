from mkseed import mk
INC = ["core/frame.h", "core/thread.h", "gdb/frame.h", "gdb/thread.h", "gdb/stacktrace.h", "koops/frame.h", "koops/stacktrace.h", "thread.h", "frame.h", "stacktrace.h", "report_type.h"]
mk("p11-above-equal", "P11", [("lib/generic_thread.c", """    while (sr_thread_frames(thread) != frame)
    {""", """    while (sr_thread_frames(thread) != frame && sr_frame_cmp(sr_thread_frames(thread), frame) != 0)
    {""")], INC, """
int main(void) { struct sr_core_thread *t = sr_core_thread_new(); struct sr_core_frame *f[3];
 for (int i = 0; i < 3; ++i) { f[i] = sr_core_frame_new(); f[i]->function_name = g_strdup(i == 1 ? "other" : "recursive"); t->frames = sr_core_frame_append(t->frames, f[i]); }
 EXPECT(sr_thread_remove_frames_above((struct sr_thread *)t, (struct sr_frame *)f[2])); EXPECT(t->frames == f[2]); EXPECT(!f[2]->next); return 0; }
""", "a recursive function: a frame above the given one compares as equal to it", "frames above the given frame stay in the list")
mk("p11-gdb-remove-signal", "P11", [("lib/gdb_thread.c", """            if (prev_frame)
                prev_frame->next = loop_frame->next;
            else
                thread->frames = loop_frame->next;

            sr_gdb_frame_free(loop_frame);
            return true;""", """            if (prev_frame)
                prev_frame->next = loop_frame->next;
            else
                thread->frames = loop_frame->next;

            /* frames without a number take the number of the removed frame */
            if (loop_frame->next && loop_frame->next->number == 0)
                loop_frame->next->number = loop_frame->number;
            sr_gdb_frame_free(loop_frame);
            return true;""")], INC, """
int main(void) { struct sr_gdb_thread *t = sr_gdb_thread_new(); struct sr_gdb_frame *f[4];
 for (int i = 0; i < 4; ++i) { f[i] = sr_gdb_frame_new(); f[i]->number = (i + 3) % 4; t->frames = sr_gdb_frame_append(t->frames, f[i]); }
 sr_gdb_thread_remove_frame(t, f[0]); EXPECT(t->frames == f[1] && f[1]->number == 0 && f[2]->number == 1); return 0; }
""", "the frame after the removed one has number 0", "a remaining frame is modified")
mk("p11-koops-remove-first-equal", "P11", [("lib/koops_stacktrace.c", """            if (prev_frame)
                prev_frame->next = loop_frame->next;
            else
                stacktrace->frames = loop_frame->next;

            sr_koops_frame_free(loop_frame);
            return true;""", """            if (prev_frame)
                prev_frame->next = loop_frame->next;
            else
                stacktrace->frames = loop_frame->next;

            if (loop_frame->special_stack && loop_frame->next && !loop_frame->next->special_stack)
            {
                /* the name of the stack belongs to the frames that follow */
                loop_frame->next->special_stack = loop_frame->special_stack;
                loop_frame->special_stack = NULL;
            }
            sr_koops_frame_free(loop_frame);
            return true;""")], INC, """
int main(void) { struct sr_koops_stacktrace *t = sr_koops_stacktrace_new(); struct sr_koops_frame *f[3];
 for (int i = 0; i < 3; ++i) { f[i] = sr_koops_frame_new(); t->frames = sr_koops_frame_append(t->frames, f[i]); }
 f[1]->special_stack = g_strdup("IRQ");
 EXPECT(sr_koops_stacktrace_remove_frame(t, f[1])); EXPECT(t->frames == f[0] && f[0]->next == f[2]); EXPECT(!f[2]->special_stack); return 0; }
""", "a removed frame with a special stack in front of one without", "a remaining frame is modified")
