from mkseed import mk
INC = ["utils.h", "operating_system.h"]
CB = """
static char log_[1000];
static void cb(char *k, char *v, void *d) { strcat(log_, k); strcat(log_, "->"); strcat(log_, v); strcat(log_, ";"); }
static const char *run(const char *t) { log_[0] = 0; sr_parse_os_release(t, cb, NULL); return log_; }
"""
mk("p17-last-equals", "P17", [("lib/utils.c", """        const char *value_end = strchrnul(cursor, '\\n');
        if (key_end > value_end)""", """        const char *value_end = strchrnul(cursor, '\\n');
        if (key_end < value_end && value_end[-1] == '"')
        {
            /* the opening quote follows the sign */
            const char *quoted = memrchr(cursor, '=', value_end - cursor);
            if (quoted[1] == '"' && quoted + 2 < value_end)
                key_end = quoted;
        }
        if (key_end > value_end)""")], INC, CB + """
int main(void) { EXPECT(!strcmp(run("A=\\"b\\"\\nC=d=e\\n"), "A->b;C->d=e;"));
 EXPECT(!strcmp(run("OPTS=\\"x=\\"y\\"\\nID=a\\n"), "OPTS->x=y;ID->a;")); return 0; }
""", "a quoted value that contains =\" ", "the line is split at the wrong place")
mk("p17-entry-after-unfinished", "P17", [("lib/utils.c", """        if (key_end - cursor == 0)
        {
            warn("os-release:%u: 0 length key", line);
            goto skip_line;
        }

        const char *value_end = strchrnul(cursor, '\\n');""", """        const char *value_end = strchrnul(key_end, '\\n');
        if (key_end - cursor == 0)
        {
            warn("os-release:%u: 0 length key", line);
            goto skip_line;
        }
        /* tolerate leading empty lines */
        while (*cursor == '\\n')
            ++cursor;
""")], INC, CB + """
int main(void) { EXPECT(!strcmp(run("A=b\\n\\nC=d\\n"), "A->b;C->d;"));
 EXPECT(!strcmp(run("A=b\\njunk\\nC=d\\n"), "A->b;C->d;")); return 0; }
""", "a line without '=' that is followed by a good line", "the malformed line becomes part of the next key")
mk("p17-home-slash", "P17", [("lib/utils.c", """        new_path = strchr(new_path + strlen("/home/"), '/');
        if (new_path)""", """        /* the user name has at least one character */
        new_path = strchr(new_path + strlen("/home/") + 1, '/');
        if (new_path)""")], INC, """
int main(void) { EXPECT(!strcmp(anonymize_path(g_strdup("/home/joe/x.py")), "/home/anonymized/x.py"));
 EXPECT(!strcmp(anonymize_path(g_strdup("/usr/x.py")), "/usr/x.py"));
 EXPECT(!strcmp(anonymize_path(g_strdup("/home//lib/x.py")), "/home/anonymized/lib/x.py")); 
 char *p = g_malloc0(64); strcpy(p, "/home/"); strcpy(p + 7, "a/b"); EXPECT(!strcmp(anonymize_path(p), "/home/")); return 0; }
""", "/home/ followed by nothing or by a second slash", "reads behind the end of the text, loses a path component")
