from mkseed import mk
INC = ["utils.h", "location.h", "gdb/frame.h", "gdb/thread.h", "gdb/stacktrace.h", "gdb/sharedlib.h"]
mk("p03-escape-pair", "P03", [("lib/gdb_frame.c", """            if (escape)
                escape = false;
            else if (*local_input == '\\\\')
                escape = true;
            else if (*local_input == '"')
                string = false;""", """            if (*local_input == '\\\\')
            {
                /* a backslash covers the character behind it */
                sr_location_eat_char(location, *local_input);
                ++local_input;
            }
            else if (*local_input == '"')
                string = false;""")], INC, """
int main(void) { struct sr_location l; sr_location_init(&l);
 const char *t = "(a=\\"x\\\\\\")y\\", b=1)"; EXPECT(sr_gdb_frame_skip_function_args(&t, &l) && !*t);
 /* the text ends behind the backslash; what lies behind its end is not text */
 char *b = malloc(64); strcpy(b, "(a=\\"x\\\\"); memcpy(b + 6, "\\0\\") at y", 9); t = b;
 EXPECT(!sr_gdb_frame_skip_function_args(&t, &l) && t == b); free(b); return 0; }
""", "a text that ends with a backslash inside a quoted argument", "the parser reads past the end of the text")
mk("p03-file-early", "P03", [("lib/gdb_frame.c", """        file_name = NULL;
    }

    if (sr_skip_char(&local_input, ':'))""", """        file_name = NULL;
    }

    *file = file_name;

    if (sr_skip_char(&local_input, ':'))"""), ("lib/gdb_frame.c", """        *file_line = -1;

    *file = file_name;
""", """        *file_line = -1;

""")], INC, """
int main(void) { struct sr_location l; sr_location_init(&l); uint32_t n; char *f = NULL;
 const char *t = " at x.c:12"; EXPECT(sr_gdb_frame_parse_file_location(&t, &f, &n, &l) && !strcmp(f, "x.c") && n == 12);
 f = NULL; t = " at x.c:y"; EXPECT(!sr_gdb_frame_parse_file_location(&t, &f, &n, &l) && f == NULL); return 0; }
""", "a source position with a colon that no line number follows", "the frame keeps a pointer to a released string")
mk("p03-lib-or-source", "P03", [("lib/gdb_frame.c", """       && (strstr(tmp, ".so.") != NULL
           || strcmp(tmp + strlen(tmp) - 3, ".so") == 0)) {""", """       && strstr(tmp, ".so") != NULL) {""")], INC, """
int main(void) { struct sr_location l; sr_location_init(&l);
 const char *t = "#0  0x1 in f () from /usr/lib64/libc.so.6"; struct sr_gdb_frame *f = sr_gdb_frame_parse(&t, &l); EXPECT(f && !f->source_file);
 t = "#0  0x1 in f () from /usr/lib64/libm.so"; f = sr_gdb_frame_parse(&t, &l); EXPECT(f && !f->source_file);
 t = "#0  0x1 in f () at /usr/lib/x/y.so_c:3"; f = sr_gdb_frame_parse(&t, &l); EXPECT(f && f->source_file && f->source_line == 3); return 0; }
""", "a source file below a /lib directory with .so inside its name", "the source file of the frame is lost")
mk("p03-soname-space", "P03", [("lib/gdb_sharedlib.c", """        while (*tmp && *tmp != '\\n')
        {
            g_string_append_c(buf, *tmp);
            ++tmp;
        }
""", """        while (*tmp && !isspace(*tmp))
        {
            g_string_append_c(buf, *tmp);
            ++tmp;
        }
        while (*tmp && *tmp != '\\n')
            ++tmp;
""")], INC, """
int main(void) { const char *h = "From                To                  Syms Read   Shared Object Library\\n";
 char b[400]; sprintf(b, "%s0x0000000000001000  0x0000000000002000  Yes         /lib/a.so\\n0x0000000000003000  0x0000000000004000  No          /opt/a b/x.so\\n", h);
 struct sr_gdb_sharedlib *l = sr_gdb_sharedlib_parse(b); EXPECT(l && !strcmp(l->soname, "/lib/a.so"));
 EXPECT(l->next && !strcmp(l->next->soname, "/opt/a b/x.so") && l->next->from == 0x3000); return 0; }
""", "a library whose path contains a space", "the path of the library is cut at the space")
mk("p03-const-tail", "P03", [("lib/gdb_frame.c", """        /* Check the empty space after function name again.*/
        if (!sr_skip_char_limited(&local_input, SR_space))
        {
            /* Function name MUST be ended by empty space. */
            g_string_free(buf0, TRUE);
            g_string_free(buf1, TRUE);""", """        /* Check the empty space after function name again.*/
        if (!sr_skip_char_limited(&local_input, SR_space) && *local_input)
        {
            /* Function name MUST be ended by empty space. */
            g_string_free(buf0, TRUE);
            g_string_free(buf1, TRUE);""")], INC, """
int main(void) { struct sr_location l; sr_location_init(&l); char *n = NULL, *y = NULL;
 const char *t = "int f const (", *s; EXPECT(sr_gdb_frame_parse_function_name(&t, &n, &y, &l) && !strcmp(n, "f const") && !strcmp(y, "int") && *t == ' ');
 t = s = "int f const"; EXPECT(!sr_gdb_frame_parse_function_name(&t, &n, &y, &l) && t == s); return 0; }
""", "a text that ends with the const behind a function name that has a type", "a name without its end is accepted and the input is left inside the word const")
