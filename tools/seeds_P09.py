from mkseed import mk
mk("p09-gdb-absent-library", "P09", [("lib/gdb_frame.c", """    int library_name = g_strcmp0(frame1->library_name,
                                  frame2->library_name);""", """    int library_name = 0;
    if (frame1->library_name && frame2->library_name)
        library_name = strcmp(frame1->library_name, frame2->library_name);""")], ["gdb/frame.h"], """
int main(void) { struct sr_gdb_frame a, b, c; sr_gdb_frame_init(&a); sr_gdb_frame_init(&b); sr_gdb_frame_init(&c);
 a.function_name = b.function_name = c.function_name = "f"; a.library_name = "liba.so"; c.library_name = "libc.so";
 int ab = sr_gdb_frame_cmp(&a, &b, true), bc = sr_gdb_frame_cmp(&b, &c, true), ac = sr_gdb_frame_cmp(&a, &c, true);
 EXPECT(ab != 0 && bc != 0 && ac != 0); EXPECT((ab < 0) == (sr_gdb_frame_cmp(&b, &a, true) > 0)); return 0; }
""", "one frame with and one without a library name, otherwise equal", "frames that differ in a covered field compare as equal, so equality is not transitive")
mk("p09-core-thread-longer", "P09", [("lib/core_thread.c", """            frame1 = frame1->next;
            frame2 = frame2->next;
        }
    } while (frame1 || frame2);

    return 0;
}

struct""", """            frame1 = frame1->next;
            frame2 = frame2->next;
        }
    } while (frame1 && frame2);

    return (frame1 || frame2) ? 1 : 0;
}

struct""")], ["core/thread.h", "core/frame.h", "report_type.h"], """
int main(void) { struct sr_core_thread *a = sr_core_thread_new(), *b = sr_core_thread_new(); a->frames = sr_core_frame_new(); b->frames = sr_core_frame_new();
 EXPECT(sr_core_thread_cmp(a, b) == 0); b->frames->next = sr_core_frame_new();
 int x = sr_core_thread_cmp(a, b), y = sr_core_thread_cmp(b, a); EXPECT(x != 0 && y != 0 && (x < 0) == (y > 0)); return 0; }
""", "one thread is a proper, non-empty prefix of the other", "comparing in either order says 'greater'")
mk("p09-consistency-next", "P09", [("lib/rpm.c", """                return sr_rpm_consistency_cmp_recursive(
                    consistency1->next,
                    consistency2->next);""", """                if (!consistency1->next || !consistency2->next)
                    return 0;
                return sr_rpm_consistency_cmp_recursive(
                    consistency1->next,
                    consistency2->next);""")], ["rpm.h"], """
int main(void) { struct sr_rpm_package *a = sr_rpm_package_new(), *b = sr_rpm_package_new(); a->consistency = sr_rpm_consistency_new(); b->consistency = sr_rpm_consistency_new();
 EXPECT(sr_rpm_package_cmp(a, b) == 0); b->consistency->next = sr_rpm_consistency_new(); b->consistency->next->mode_changed = true;
 EXPECT(sr_rpm_package_cmp(a, b) < 0); EXPECT(sr_rpm_package_cmp(b, a) > 0); return 0; }
""", "two packages whose consistency lists agree on the common, non-empty part and differ in length", "packages with different consistency records compare as equal")
