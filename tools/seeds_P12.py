from mkseed import mk
INC = ["core/frame.h", "core/thread.h", "koops/frame.h", "koops/stacktrace.h", "python/frame.h", "python/stacktrace.h", "thread.h", "distance.h", "report_type.h"]
H = """
static struct sr_koops_stacktrace *T(const char *s) { struct sr_koops_stacktrace *t = sr_koops_stacktrace_new();
 for (; *s; ++s) { struct sr_koops_frame *f = sr_koops_frame_new(); char b[4] = { *s, 0 }; f->function_name = g_strdup(b); t->frames = sr_koops_frame_append(t->frames, f); } return t; }
static float DI(int k, const char *a, const char *b) { return sr_distance(k, (struct sr_thread *)T(a), (struct sr_thread *)T(b)); }
static int near(float a, double b) { return a > b - 1e-5 && a < b + 1e-5; }
"""
mk("p12-lev-band", "P12", [("lib/distance.c", """            int l = m + j - i;

            int dist2""", """            int l = m + j - i;

            /* frames that far apart never line up */
            if (i - j > 200 || j - i > 200)
            {
                dist1[l] = dist[l];
                dist[l] = i > j ? i : j;
                prev_frame = curr_frame;
                curr_frame = sr_frame_next(curr_frame);
                continue;
            }

            int dist2""")], INC, H + """
int main(void) { EXPECT(near(DI(SR_DISTANCE_LEVENSHTEIN, "abcdef", "bcdefg"), 2 / 6.0));
 static char c[600], d[900]; for (int i = 0; i < 220; ++i) { c[i] = 33 + i; } memcpy(d + 250, c, 221);
 for (int i = 0; i < 250; ++i) d[i] = 30; EXPECT(near(DI(SR_DISTANCE_LEVENSHTEIN, c, d), 250 / 470.0)); return 0; }
""", "threads whose common part is shifted by more than 200 frames", "the distance ignores the common part")
mk("p12-damerau-oneway", "P12", [("lib/distance.c", """                (i >= 2 && j >= 2 && dist[l] > dist2 + cost &&
                 0 == sr_frame_cmp_distance(curr_frame, prev_frame2) &&
                 0 == sr_frame_cmp_distance(prev_frame, curr_frame2)))""", """                (i >= 2 && j >= 2 && dist[l] > dist2 + cost &&
                 0 == sr_frame_cmp_distance(curr_frame, prev_frame2) &&
                 (j > 3 || 0 == sr_frame_cmp_distance(prev_frame, curr_frame2))))""")], INC, H + """
int main(void) { EXPECT(near(DI(SR_DISTANCE_DAMERAU_LEVENSHTEIN, "abcxd", "abcdy"), 0.4)); EXPECT(near(DI(SR_DISTANCE_DAMERAU_LEVENSHTEIN, "abcde", "abcdx"), 0.2));
 EXPECT(near(DI(SR_DISTANCE_DAMERAU_LEVENSHTEIN, "uvwxd", "abcdy"), 1.0)); EXPECT(near(DI(SR_DISTANCE_DAMERAU_LEVENSHTEIN, "qabxd", "qabdyzz"), 4 / 7.0)); return 0; }
""", "threads of four and more frames where a frame moved one place against an unrelated one", "a one-sided move counts as a transposition")
mk("p12-jaccard-contained", "P12", [("lib/distance.c", """    int union_size = set1_size + set2_size - intersection_size;
""", """    /* one thread is the beginning of the other: the rest was cut off */
    if (intersection_size == set1_size && intersection_size > 4)
        return 0.0;

    int union_size = set1_size + set2_size - intersection_size;
""")], INC, H + """
int main(void) { EXPECT(near(DI(SR_DISTANCE_JACCARD, "abc", "abd"), 0.5)); EXPECT(near(DI(SR_DISTANCE_JACCARD, "abcdef", "abcde"), 1 / 6.0)); EXPECT(near(DI(SR_DISTANCE_JACCARD, "", ""), 0));
 EXPECT(near(DI(SR_DISTANCE_JACCARD, "abcde", "abcdef"), 1 / 6.0)); return 0; }
""", "a first thread of at least five different frames all of which occur in the second", "Jaccard distance is 0 for different threads and not symmetric")
