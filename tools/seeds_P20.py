from mkseed import mk
U = "lib/utils.c"
mk("p20-struniq-tail", "P20", [(U, """            for (size_t loop2 = loop; loop2 < *size - 1; ++loop2)
                strings[loop2] = strings[loop2 + 1];

            --(*size);""", """            --(*size);
            memmove(strings + loop, strings + loop + 1, (*size - loop) / sizeof(*strings) * sizeof(*strings));
            if ((*size - loop) % sizeof(*strings))
                for (size_t loop2 = loop; loop2 < *size; ++loop2)
                    strings[loop2] = strings[loop2 + 1];""")], ["utils.h"], """
int main(void) { char *v[10] = { "a", "a", "b", "c", "d", "e", "f", "g", "h", "i" }; size_t n = 10; sr_struniq(v, &n); EXPECT(n == 9);
 const char *e[] = { "a", "b", "c", "d", "e", "f", "g", "h", "i" }; for (int i = 0; i < 9; ++i) EXPECT(!strcmp(v[i], e[i])); return 0; }
""", "a duplicate exactly eight entries before the end of the list (byte count and element count mixed up)", "entries are lost and others doubled when the tail is shifted")
mk("p20-bin2hex-high", "P20", [(U, """        *dst++ = hexdigits_locase[c & 0xf];
        count--;""", """        *dst++ = hexdigits_locase[c % 0xff & 0xf];
        count--;""")], ["utils.h"], """
int main(void) { char b[3] = ""; for (int c = 0; c < 256; ++c) { char x = c, e[3]; snprintf(e, 3, "%02x", c); EXPECT(sr_bin2hex(b, &x, 1) == b + 2);
  EXPECT(!strcmp(b, e)); } return 0; }
""", "the byte 0xff", "the low digit of that byte is wrong, so the text does not read back")
mk("p20-type-prefix", "P20", [("lib/report.c", """        if (0 == g_strcmp0(report_types[i], report_type_str))
            return i;""", """        if (report_type_str && *report_type_str && 0 == strncmp(report_types[i], report_type_str, strlen(report_type_str)))
            return i;""")], ["report.h", "report_type.h"], """
int main(void) { EXPECT(sr_report_type_from_string("java") == SR_REPORT_JAVA); EXPECT(sr_report_type_from_string("javascript") == SR_REPORT_JAVASCRIPT);
 EXPECT(sr_report_type_from_string("kernel") == SR_REPORT_INVALID); return 0; }
""", "a proper prefix of a type name", "unknown names are accepted")
