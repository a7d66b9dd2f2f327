from mkseed import mk
INC = ["utils.h", "location.h", "koops/frame.h", "koops/stacktrace.h"]
PRE = """
static struct sr_koops_stacktrace *run(const char *t) { struct sr_location l; sr_location_init(&l); return sr_koops_stacktrace_parse(&t, &l); }
"""
mk("p04-wrap-twice", "P04", [("lib/koops_stacktrace.c", """                g_free(result[result_offset-1]);
                result[result_offset-1] = tmp;
            }

            ws = sr_skip_char_span(&local_input, " \\t");""", """                g_free(result[result_offset-1]);
                result[result_offset-1] = tmp;
                sr_skip_char_span(&local_input, " \\t");
                continue;
            }

            ws = sr_skip_char_span(&local_input, " \\t");""")], INC, PRE + """
int main(void) { struct sr_koops_stacktrace *s = run("x\\nModules linked in: aa bb\\nbb cc\\nCPU 1\\n");
 EXPECT(!strcmp(s->modules[0], "aa") && !strcmp(s->modules[1], "bbbb") && !strcmp(s->modules[2], "cc") && !s->modules[3]);
 s = run("x\\nModules linked in: aa bb\\nbb \\ncc dd\\nCPU 1\\n");
 EXPECT(!strcmp(s->modules[1], "bbbb") && s->modules[2] && !strcmp(s->modules[2], "cc")); return 0; }
""", "a module list wrapped inside a name, and wrapped again at the space behind that name", "two module names are glued together")
mk("p04-eip-mark", "P04", [("lib/koops_stacktrace.c", """        frame->reliable = sr_skip_char(&local_input, '?') != true;

        sr_skip_char_span(&local_input, " \\t");

        if (!sr_koops_parse_function(&local_input,""", """        frame->reliable = !sr_skip_char(&local_input, '?') || frame->address != 0;

        sr_skip_char_span(&local_input, " \\t");

        if (!sr_koops_parse_function(&local_input,""")], INC, PRE + """
int main(void) { struct sr_koops_stacktrace *s = run("x\\nEIP: [<f8e40765>] wdev_priv+0x3/0x5 [wl] SS:ESP 0068:f180dbf8\\n");
 EXPECT(s->frames && s->frames->reliable && s->frames->address == 0xf8e40765);
 s = run("x\\nEIP: [<f8e40765>] ? wdev_priv+0x3/0x5 [wl] SS:ESP 0068:f180dbf8\\n");
 EXPECT(s->frames && !s->frames->reliable); return 0; }
""", "an EIP line with a question mark", "the unreliable frame is reported as reliable")
mk("p04-label-nested", "P04", [("lib/koops_stacktrace.c", """        if (new_alt_stack)
        {
            alt_stack = new_alt_stack;
        }""", """        if (new_alt_stack)
        {
            /* stay on the outermost stack until its end is seen */
            if (alt_stack)
                g_free(new_alt_stack);
            else
                alt_stack = new_alt_stack;
        }""")], INC, PRE + """
int main(void) { struct sr_koops_stacktrace *s = run("x\\n <IRQ>  [<12>] a+0x1/0x2\\n <EOI>  [<12>] b+0x1/0x2\\n");
 EXPECT(!strcmp(s->frames->special_stack, "IRQ") && !s->frames->next->special_stack);
 s = run("x\\n <IRQ>  [<12>] a+0x1/0x2\\n <NMI>  [<12>] b+0x1/0x2\\n <<EOE>> [<12>] c+0x1/0x2\\n");
 EXPECT(!strcmp(s->frames->special_stack, "IRQ") && !strcmp(s->frames->next->special_stack, "NMI") && !s->frames->next->next->special_stack); return 0; }
""", "a second alternative stack that begins before the first one ends", "frames are reported on the wrong stack")
mk("p04-from-module", "P04", [("lib/koops_frame.c", """    if (!frame->module_name && sr_koops_parse_module_name(&local_input,
                                                          &frame->module_name))""", """    if (!frame->from_module_name && sr_koops_parse_module_name(&local_input,
                                                               &frame->module_name))""")], INC, """
int main(void) { const char *t = "[<12>] (a+0x1/0x2 [m]) from [<13>] (b+0x1/0x2)\\n"; struct sr_koops_frame *f = sr_koops_frame_parse(&t);
 EXPECT(f && !strcmp(f->module_name, "m") && !f->from_module_name && *t == 0);
 t = "[<12>] 0xffffffff [m]\\n"; f = sr_koops_frame_parse(&t); EXPECT(f && !strcmp(f->module_name, "m"));
 t = "[<12>] (a+0x1/0x2) from [<13>] (b+0x1/0x2 [n]) [m]\\n"; f = sr_koops_frame_parse(&t);
 EXPECT(f && !strcmp(f->from_module_name, "n") && f->module_name && !strcmp(f->module_name, "m")); return 0; }
""", "a line whose 'from' part names a module and that ends in another one", "the line is not recognised")
mk("p04-offset-case", "P04", [("lib/koops_frame.c", """    if (sr_skip_char(&local_input, '+'))
    {
        sr_parse_hexadecimal_0xuint64(&local_input,
                                      function_offset);
""", """    if (sr_skip_char(&local_input, '+'))
    {
        uint64_t offset = *function_offset;
        sr_parse_hexadecimal_0xuint64(&local_input, &offset);
        /* offsets are relative to the function, the high half is noise */
        *function_offset = offset & 0xffffffffffULL;
""")], INC, """
int main(void) { const char *t = "[<12>] a+0x1f/0x20\\n"; struct sr_koops_frame *f = sr_koops_frame_parse(&t);
 EXPECT(f && f->function_offset == 0x1f && f->function_length == 0x20);
 t = "[<12>] a+0xffffff8123456789/0x20\\n"; f = sr_koops_frame_parse(&t); EXPECT(f && f->function_offset == 0xffffff8123456789ULL); return 0; }
""", "a function offset above 2^40", "the offset is cut to 40 bits")
