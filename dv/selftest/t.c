/* small functions with known verdicts: guards the VC generator against unsoundness and loss of power */
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <glib.h>
struct n { int v; struct n *next; };
int good_abs(int x) { return x < 0 ? (x == -2147483647 - 1 ? 2147483647 : -x) : x; }
int bad_abs(int x) { return x < 0 ? -x : x; }                       /* overflow */
int good_len(const char *s) { int n = 0; while (*s) { ++s; ++n; } return n; }
int bad_len(const char *s) { int n = 0; do { ++s; ++n; } while (*s); return n; }   /* reads past an empty string */
int bad_len2(const char *s) { int n = 0; while (*s) { ++s; if (n < 5) ++n; } return n; }
void good_store(struct n *a) { a->v = 3; }
void bad_frame(struct n *a) { a->v = 3; a->next = 0; }              /* writes outside its frame */
int bad_null(struct n *a) { return a->next->v; }
int bad_uaf(void) { int *p = g_malloc0(4); *p = 1; g_free(p); return *p; }
int good_heap(void) { int *p = g_malloc0(4); *p = 7; int r = *p; g_free(p); return r; }
int bad_uninit(int c) { int x; if (c) x = 7; return x == 7 ? 7 : 7; }
int bad_off(void) { int *p = g_malloc0(4); p[1] = 7; g_free(p); return 7; }
