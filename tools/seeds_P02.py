from mkseed import mk
U = "lib/utils.c"; L = "lib/location.c"
mk("p02-strstr-partial", "P02", [(U, """            return (char*)haystack;

        sr_location_eat_char_ext(line, column, *haystack);""", """            return (char*)haystack;

        if (*haystack != '\\n')
            sr_location_eat_char_ext(line, column, *haystack);
        else
            ++*line;""")], ["utils.h", "location.h"], """
int main(void) { int l, c; const char *h = "ab\\nc\\nThread"; char *r = sr_strstr_location(h, "\\nThread", &l, &c);
 EXPECT(r == h + 4); EXPECT(l == 2 && c == 1); return 0; }
""", "a needle starting with a newline and an earlier newline that does not start a match", "the column is not restarted after a newline that was a false start of the needle")
mk("p02-add-boundary", "P02", [(L, """        *line += add_line - 1;
        *column = add_column;
    }""", """        *line += add_line - 1;
        *column = (add_column > 0 || add_line == 2) ? add_column : *column;
    }""")], ["utils.h", "location.h"], """
int main(void) { int l = 1, c = 3; sr_location_add_ext(&l, &c, 3, 0); EXPECT(l == 3 && c == 0);
  struct sr_location x; sr_location_init(&x); x.column = 5; sr_location_add(&x, 3, 0); EXPECT(x.line == 3 && x.column == 0); return 0; }
""", "a consumed chunk with at least two newlines that ends exactly after a newline", "the column is not reset to 0 when the added chunk ends with a newline")
mk("p02-nextline-empty", "P02", [(U, """    *column += sr_skip_char_cspan(s, "\\n");

    if (**s == '\\n')
    {
        *column = 0;""", """    int skipped = sr_skip_char_cspan(s, "\\n");
    *column += skipped;

    if (**s == '\\n')
    {
        if (skipped > 0)
            *column = 0;""")], ["utils.h", "location.h"], """
int main(void) { const char *s = "\\nabc", *p = s; int l = 4, c = 2; EXPECT(sr_skip_to_next_line_location(&p, &l, &c)); EXPECT(p == s + 1);
  EXPECT(l == 5 && c == 0); return 0; }
""", "the helper is called when the rest of the line is already consumed", "the column is not reset when only the newline is left of the line")
