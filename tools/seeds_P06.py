from mkseed import mk
INC = ["utils.h", "json_utils.h"]
mk("p06-quote-after-backslash", "P06", [("lib/json_utils.c", """        case '"':
            g_string_append(strbuf, "\\\\\\"");
            break;""", """        case '"':
            /* do not escape it twice */
            if (c > text + 1 && c[-1] == '\\\\' && c[-2] != '\\\\')
                g_string_append_c(strbuf, *c);
            else
                g_string_append(strbuf, "\\\\\\"");
            break;""")], INC, """
int main(void) { GString *g = g_string_new(NULL); sr_json_append_escaped(g, "say \\"hi\\""); EXPECT(!strcmp(g->str, "\\"say \\\\\\"hi\\\\\\"\\""));
 g = g_string_new(NULL); sr_json_append_escaped(g, "a\\\\\\"b"); EXPECT(!strcmp(g->str, "\\"a\\\\\\\\\\\\\\"b\\"")); return 0; }
""", "a text with a quote behind a single backslash", "the JSON literal ends early")
mk("p06-fast-path", "P06", [("lib/json_utils.c", """    GString *strbuf = g_string_new(NULL);
    const char *c = text;
    while""", """    /* most texts need no escaping */
    if (strcspn(text, "\\"\\\\\\n\\r\\t") == strlen(text))
        return g_strdup(text);

    GString *strbuf = g_string_new(NULL);
    const char *c = text;
    while""")], INC, """
int main(void) { GString *g = g_string_new(NULL); sr_json_append_escaped(g, "a\\b\\"c"); EXPECT(!strcmp(g->str, "\\"a\\\\b\\\\\\"c\\""));
 g = g_string_new(NULL); sr_json_append_escaped(g, "a\\bc\\f"); EXPECT(!strcmp(g->str, "\\"a\\\\bc\\\\f\\"")); return 0; }
""", "a text whose only special characters are backspace, form feed or other control characters", "control characters are not escaped")
mk("p06-indent-pad", "P06", [("lib/utils.c", """            if (*++c)
            {
                for (int i = 0; i < spaces; ++i)
                    g_string_append_c(strbuf, ' ');
            }
""", """            static const char pad[] = "                                ";
            if (*++c && spaces > 0)
                g_string_append(strbuf, pad + sizeof(pad) - 1 - MIN(spaces, (int)sizeof(pad) - 1));
""")], INC, """
int main(void) { char *s = sr_indent_except_first_line("a\\nb", 8); EXPECT(!strcmp(s, "a\\n        b")); s = sr_indent_except_first_line("a\\nb", 40); EXPECT(strlen(s) == 43); s = sr_indent_except_first_line("a\\nb", -1); EXPECT(!strcmp(s, "a\\nb")); return 0; }
""", "an indentation of more than 32 spaces", "lines are indented too little")
