from mkseed import mk
INC = ["core/frame.h", "core/thread.h", "gdb/frame.h", "gdb/thread.h", "thread.h", "frame.h", "distance.h", "report_type.h"]
mk("p13-dup-short-count", "P13", [("lib/distance.c", """    struct sr_distances *dup_distances;

    dup_distances = sr_distances_new(distances->m, distances->n);
    memcpy(dup_distances->distances, distances->distances,
            sizeof(*distances->distances) *
            (get_distance_position(distances, distances->m - 1, distances->n - 1) + 1));
""", """    struct sr_distances *dup_distances;
    unsigned short i, count = get_distance_position(distances, distances->m - 1, distances->n - 1) + 1;

    dup_distances = sr_distances_new(distances->m, distances->n);
    for (i = 0; i < count; i++)
        dup_distances->distances[i] = distances->distances[i];
""")], INC, """
int main(void) { int n = 400, m = 399; struct sr_distances *d = sr_distances_new(m, n);
 for (int i = 0; i < m; ++i) for (int j = i + 1; j < n; ++j) sr_distances_set_distance(d, i, j, 1.0f / (1 + i + 31 * j));
 struct sr_distances *e = sr_distances_dup(d);
 for (int i = 0; i < m; ++i) for (int j = i + 1; j < n; ++j) EXPECT(sr_distances_get_distance(e, i, j) == sr_distances_get_distance(d, i, j));
 return 0; }
""", "a matrix of more than 65535 pairs", "the copy lacks most of the values")
mk("p13-merge-rows", "P13", [("lib/distance.c", """        if (it->m != parts->m || it->n != parts->n
            || it->distances == NULL""", """        if (it->n != parts->n || it->dist_type != parts->dist_type
            || it->distances == NULL""")], INC, """
int main(void) { struct sr_thread *t[4]; for (int i = 0; i < 4; ++i) { struct sr_core_thread *c = sr_core_thread_new(); struct sr_core_frame *f = sr_core_frame_new(); f->function_name = g_strdup_printf("f%d", i); c->frames = f; t[i] = (struct sr_thread *)c; }
 struct sr_distances_part *a = sr_distances_part_create(3, 4, SR_DISTANCE_JACCARD, 1), *b = sr_distances_part_create(2, 4, SR_DISTANCE_JACCARD, 2);
 for (struct sr_distances_part *p = b; p; p = p->next) sr_distances_part_compute(p, t);
 sr_distances_part_compute(a, t); a->next = b;
 EXPECT(sr_distances_part_merge(a) == NULL); return 0; }
""", "merging parts that come from matrices with different numbers of rows", "parts that do not belong together are merged")
mk("p13-part-stale", "P13", [("lib/distance.c", """    size_t dist_idx;
    part->distances = g_malloc_n(sizeof(float), part->len);

    for""", """    size_t dist_idx;
    if (part->distances == NULL)
        part->distances = g_malloc_n(sizeof(float), part->len);
    else if (part->checksum == thread_list_checksum(threads, part->n))
        return; /* already computed for these threads */

    for""")], INC, """
int main(void) { struct sr_thread *t[3], *u[3]; for (int i = 0; i < 3; ++i) { struct sr_core_thread *c = sr_core_thread_new(); struct sr_core_frame *f = sr_core_frame_new(); f->function_name = g_strdup_printf("f%d", i / 2); c->frames = f; u[2 - i] = t[i] = (struct sr_thread *)c; }
 struct sr_distances *d = sr_threads_compare(t, 2, 3, SR_DISTANCE_LEVENSHTEIN); struct sr_distances_part *p = sr_distances_part_create(2, 3, SR_DISTANCE_LEVENSHTEIN, 2);
 for (struct sr_distances_part *q = p; q; q = q->next) sr_distances_part_compute(q, u);
 for (struct sr_distances_part *q = p; q; q = q->next) sr_distances_part_compute(q, t);
 struct sr_distances *e = sr_distances_part_merge(p);
 for (int i = 0; i < 2; ++i) for (int j = i + 1; j < 3; ++j) EXPECT(sr_distances_get_distance(d, i, j) == sr_distances_get_distance(e, i, j));
 return 0; }
""", "a part computed again for another array of threads with the same frame counts", "the merged matrix keeps the distances of the earlier threads")
