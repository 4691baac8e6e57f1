/* Every list macro behind one call: kind 0 LL, 1 DL, 2 CDL; alt uses the second pair of fields. */
static int FN(order)(const void *a, const void *b) { return ((const struct c44_node *) a)->key - ((const struct c44_node *) b)->key; }
#define LLS(M, ...) if (alt) { M ## 2(__VA_ARGS__, nx2); } else { M(__VA_ARGS__); }
#define DLS(M, ...) if (alt) { M ## 2(__VA_ARGS__, pv2, nx2); } else { M(__VA_ARGS__); }
#define NXT(M, ...) if (alt) { M ## 2(__VA_ARGS__, nx2); } else { M(__VA_ARGS__); }
#define ALL(M, ...) switch (kind) { case 0: LLS(LL_ ## M, __VA_ARGS__) break; case 1: DLS(DL_ ## M, __VA_ARGS__) break; default: DLS(CDL_ ## M, __VA_ARGS__) }
#define SCAN(M, ...) switch (kind) { case 0: NXT(LL_ ## M, __VA_ARGS__) break; case 1: NXT(DL_ ## M, __VA_ARGS__) break; default: NXT(CDL_ ## M, __VA_ARGS__) }
int FN(op)(int kind, int alt, int op, struct c44_node **list, struct c44_node *el, struct c44_node *add, struct c44_node **other, struct c44_node **out, int key) {
    struct c44_node * e = 0, * t1 = 0, * t2 = 0, probe; int n = 0;
    switch (op) {
        case 0: ALL(PREPEND, *list, add) break;
        case 1: ALL(APPEND, *list, add) break;
        case 2: ALL(DELETE, *list, el) break;
        case 3: if (kind == 0) { LLS(LL_CONCAT, *list, *other) } else { DLS(DL_CONCAT, *list, *other) } break;
        case 4: ALL(SORT, *list, FN(order)) break;
        case 5: SCAN(COUNT, *list, e, n) return n;
        case 6: SCAN(SEARCH_SCALAR, *list, e, key, key) *out = e; break;
        case 7: probe.key = key; SCAN(SEARCH, *list, e, &probe, FN(order)) *out = e; break;
        case 8:
            if (kind == 0) { if (alt) { LL_REPLACE_ELEM2(*list, el, add, nx2); } else { LL_REPLACE_ELEM(*list, el, add); } }
            else if (kind == 1) { if (alt) { DL_REPLACE_ELEM2(*list, el, add, pv2, nx2); } else { DL_REPLACE_ELEM(*list, el, add); } }
            else { if (alt) { CDL_REPLACE_ELEM2(*list, el, add, pv2, nx2); } else { CDL_REPLACE_ELEM(*list, el, add); } }
            break;
        case 9: ALL(PREPEND_ELEM, *list, el, add) break;
        case 10: ALL(APPEND_ELEM, *list, el, add) break;
        case 11:   /* walk, at most 1000 */
            switch (kind * 2 + !!alt) {
                case 0: LL_FOREACH(*list, e) { if (n == 1000) break; out[n++] = e; } break;
                case 1: LL_FOREACH2(*list, e, nx2) { if (n == 1000) break; out[n++] = e; } break;
                case 2: DL_FOREACH(*list, e) { if (n == 1000) break; out[n++] = e; } break;
                case 3: DL_FOREACH2(*list, e, nx2) { if (n == 1000) break; out[n++] = e; } break;
                case 4: CDL_FOREACH(*list, e) { if (n == 1000) break; out[n++] = e; } break;
                default: CDL_FOREACH2(*list, e, nx2) { if (n == 1000) break; out[n++] = e; } break;
            }
            return n;
        default:   /* walk and delete the elements whose key has a bit of `key` */
#define STEP(DEL) { if (n == 1000) break; out[n++] = e; if (e->key & key) { DEL; c44_spoil(e, alt); } }
            switch (kind * 2 + !!alt) {
                case 0: LL_FOREACH_SAFE(*list, e, t1) STEP(LL_DELETE(*list, e)) break;
                case 1: LL_FOREACH_SAFE2(*list, e, t1, nx2) STEP(LL_DELETE2(*list, e, nx2)) break;
                case 2: DL_FOREACH_SAFE(*list, e, t1) STEP(DL_DELETE(*list, e)) break;
                case 3: DL_FOREACH_SAFE2(*list, e, t1, nx2) STEP(DL_DELETE2(*list, e, pv2, nx2)) break;
                case 4: CDL_FOREACH_SAFE(*list, e, t1, t2) STEP(CDL_DELETE(*list, e)) break;
                default: CDL_FOREACH_SAFE2(*list, e, t1, t2, pv2, nx2) STEP(CDL_DELETE2(*list, e, pv2, nx2)) break;
            }
            return n;
    }
    return 0;
}
