from mkseed import mk
F = "lib/utils.c"
mk("p01-parse-uint32-sat", "P01", [(F, """                    || r > UINT32_MAX);

    g_free(numstr);""", """                    || (r > UINT32_MAX && r < ULONG_MAX / 2));

    g_free(numstr);""")], ["utils.h"], """
int main(void) { const char *s = "13835058055282163713x", *p = s; uint32_t v = 7;
  int r = sr_parse_uint32(&p, &v); EXPECT(r == 0); EXPECT(p == s); EXPECT(v == 7);
  p = s = "4294967296"; r = sr_parse_uint32(&p, &v); EXPECT(r == 0 && p == s); return 0; }
""", "a decimal number between 2^63 and 2^64", "a too large number is accepted and truncated instead of being rejected with the input unchanged")
mk("p01-parse-string-prefix", "P01", [(F, """    if (*local_string != '\\0')
        return false;
    *result = g_strndup(string, local_input - *input);""", """    if (*local_string != '\\0' && *local_input != '\\0')
        return false;
    *result = g_strndup(string, local_input - *input);""")], ["utils.h"], """
int main(void) { const char *s = "ab", *p = s; char *v = NULL; EXPECT(!sr_parse_string(&p, "abc", &v)); EXPECT(p == s && v == NULL);
  return 0; }
""", "an input that ends in the middle of the searched literal", "a proper prefix of the literal at the end of the input is reported as a match")
mk("p01-hex-0x-move", "P01", [(F, """    const char *local_input = *input;
    if (!sr_skip_char(&local_input, '0'))
        return 0;

    if (!sr_skip_char(&local_input, 'x'))
        return 0;

    int count = 2;
    count += sr_parse_hexadecimal_uint64(&local_input, result);
    if (2 == count) /* sr_parse_hexadecimal_uint64 returned 0 */
        return 0;

    *input = local_input;
    return count;""", """    const char *local_input = *input;
    if (!sr_skip_char(&local_input, '0'))
        return 0;

    if (!sr_skip_char(&local_input, 'x'))
        return 0;

    int count = 2;
    int digits = sr_parse_hexadecimal_uint64(&local_input, result);
    count += digits;
    *input = local_input;
    if (0 == digits)
    {
        *input -= count;
        count = sr_skip_hexadecimal_0xuint(input);
        return 0;
    }
    return count;""")], ["utils.h"], """
int main(void) { const char *s = "0x10000000000000000 in main", *p = s; uint64_t v = 7;
  EXPECT(sr_parse_hexadecimal_0xuint64(&p, &v) == 0); EXPECT(p == s); EXPECT(v == 7);
  s = p = "0xg"; EXPECT(sr_parse_hexadecimal_0xuint64(&p, &v) == 0); EXPECT(p == s); return 0; }
""", "a hexadecimal number that does not fit 64 bits", "the input pointer moves although the number is rejected")
