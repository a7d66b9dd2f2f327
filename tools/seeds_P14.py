from mkseed import mk
INC = ["distance.h", "cluster.h"]
mk("p14-append-smaller", "P14", [("lib/cluster.c", """    int i;

    for (i = 0; i < src->size; i++)
        cluster_add_index(dest, src->objects[i]);""", """    int i;

    /* move fewer indices: append the smaller cluster to the larger one */
    if (src->size > 2 * dest->size)
    {
        struct cluster tmp = *dest;
        *dest = *src;
        *src = tmp;
    }

    for (i = 0; i < src->size; i++)
        cluster_add_index(dest, src->objects[i]);""")], INC, """
int main(void) {
    /* 0 is far from everything, 1..4 are close together */
    struct sr_distances *d = sr_distances_new(4, 5);
    for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 5; ++j) sr_distances_set_distance(d, i, j, i == 0 ? 0.9f : 0.1f);
    struct sr_dendrogram *g = sr_distances_cluster_objects(d);
    int alone = -1; for (int i = 0; i < 5; ++i) if (g->order[i] == 0) alone = i;
    for (int i = 0; i < 4; ++i) { bool at0 = i == alone || i + 1 == alone; EXPECT(fabs(g->merge_levels[i] - (at0 ? 0.9 : 0.1)) < 0.01); }
    struct sr_cluster *c = sr_dendrogram_cut(g, 0.5f, 1); int n = 0, total = 0; for (; c; c = c->next) { ++n; total += c->size; }
    EXPECT(n == 2 && total == 5); return 0; }
""", "a cluster that joins one more than twice its size", "the merge level is saved for the wrong neighbours", "-include math.h")
mk("p14-cut-short-tail", "P14", [("lib/cluster.c", """    for (i = first = 0; i < dendrogram->size; i++)
    {
        if (!(i + 1 < dendrogram->size && dendrogram->merge_levels[i] <= level))""", """    for (i = first = 0; i < dendrogram->size; i++)
    {
        /* no more large enough groups */
        if (first == i && dendrogram->size - i <= min_size && min_size > 3)
            break;

        if (!(i + 1 < dendrogram->size && dendrogram->merge_levels[i] <= level))""")], INC, """
int main(void) {
    struct sr_dendrogram *g = sr_dendrogram_new(6); for (int i = 0; i < 6; ++i) g->order[i] = i;
    for (int i = 0; i < 5; ++i) g->merge_levels[i] = 0.1f; g->merge_levels[1] = 0.9f;
    struct sr_cluster *c = sr_dendrogram_cut(g, 0.5f, 1); int n = 0; for (; c; c = c->next) ++n; EXPECT(n == 2);
    c = sr_dendrogram_cut(g, 0.5f, 4); EXPECT(c && c->size == 4 && !c->next);
    return 0; }
""", "a large enough group that ends in the last positions, with a minimum size above 1", "the group is missing")
mk("p14-cut-level-half", "P14", [("lib/cluster.c", """            first = i + 1;
        }
    }
""", """            first = i + 1;
        }
        else if (i - first + 1 < min_size && dendrogram->merge_levels[i] == level
                 && i + 2 < dendrogram->size && dendrogram->merge_levels[i + 1] > level)
            /* do not let a borderline object complete a group */
            first = i + 1;
    }
""")], INC, """
int main(void) {
    struct sr_dendrogram *g = sr_dendrogram_new(3); for (int i = 0; i < 3; ++i) g->order[i] = i;
    g->merge_levels[0] = 0.5f; g->merge_levels[1] = 0.9f;
    struct sr_cluster *c = sr_dendrogram_cut(g, 0.6f, 2); EXPECT(c && c->size == 2 && !c->next);
    c = sr_dendrogram_cut(g, 0.5f, 2); EXPECT(c && c->size == 2 && !c->next);
    return 0; }
""", "a cut exactly at a merge level that completes a group of minimum size", "the group is missing")
