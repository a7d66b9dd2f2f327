from mkseed import mk
INC = ["rpm.h"]
PKG = """static struct sr_rpm_package *P(const char *n, const char *a, int role, unsigned long t) { struct sr_rpm_package *p = sr_rpm_package_new(); p->name = g_strdup(n); p->version = g_strdup("1"); p->release = g_strdup("1"); p->architecture = g_strdup(a); p->role = role; p->install_time = t; return p; }
"""
mk("p16-nevra-epoch-int", "P16", [("lib/rpm.c", """        unsigned long r = strtoul(epoch_str, &endptr, 10);""", """        uint32_t r = strtoul(epoch_str, &endptr, 10);""")], INC, """
int main(void) { char *n = 0, *v = 0, *r = 0, *a = 0; uint32_t e = 9; EXPECT(!sr_rpm_package_parse_nevra("perl-4294967298:1.0-3.x", &n, &e, &v, &r, &a)); EXPECT(e == 9 && !n && !v && !r && !a); return 0; }
""", "an epoch above 2^32", "the epoch wraps instead of failing")
mk("p16-nevra-colon-name", "P16", [("lib/rpm.c", """    char *colon = strchr(last_but_one_dash, ':');
    if (colon && colon > last_dash)
        colon = NULL;""", """    char *colon = strchr(text, ':');
    if (colon && (colon > last_dash || colon < last_but_one_dash))
        colon = NULL;""")], INC, """
int main(void) { char *n = 0, *v = 0, *r = 0, *a = 0; uint32_t e = 9; EXPECT(sr_rpm_package_parse_nevra("perl(a:b)-2:1.0-3.x", &n, &e, &v, &r, &a)); EXPECT(e == 2 && !strcmp(v, "1.0") && !strcmp(n, "perl(a:b)")); return 0; }
""", "a name with a colon in it and an epoch", "the epoch becomes part of the version")
mk("p16-sort-swap-two", "P16", [("lib/rpm.c", """        if (loop + 1 < count)
            array[loop]->next = array[loop + 1];
        else""", """        if (loop + 1 < count)
        {
            /* most lists are sorted already: leave correct links alone */
            if (!array[loop]->next || sr_rpm_package_cmp_nevra(array[loop]->next, array[loop + 1]) != 0)
                array[loop]->next = array[loop + 1];
        }
        else""")], INC, PKG + """
int main(void) { struct sr_rpm_package *h = NULL; const char *n[] = { "c", "b", "c", "a" }; for (int i = 0; i < 4; ++i) h = sr_rpm_package_append(h, P(n[i], "i686", 0, i));
 h = sr_rpm_package_sort(h); EXPECT(sr_rpm_package_count(h) == 4);
 int seen = 0; for (struct sr_rpm_package *q = h; q; q = q->next) seen |= 1 << (int)q->install_time; EXPECT(seen == 15); return 0; }
""", "equal packages that are not neighbours in the list, one behind a smaller one", "a package is lost (or the list becomes cyclic)")
