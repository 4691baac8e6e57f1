// C44: the bundled list macros against sequences.
#include "pbt.hpp"
#include <algorithm>
#include <vector>
extern "C" {
struct c44_node { int id, key; struct c44_node *next, *prev, *nx2, *pv2; };
int c44_op(int kind, int alt, int op, c44_node **list, c44_node *el, c44_node *add, c44_node **other, c44_node **out, int key);
int c44b_op(int kind, int alt, int op, c44_node **list, c44_node *el, c44_node *add, c44_node **other, c44_node **out, int key);
void c44_spoil(c44_node *e, int alt) { (alt ? e->nx2 : e->next) = (c44_node *) 0x10; (alt ? e->pv2 : e->prev) = (c44_node *) 0x10; }
}
using pbt::Tape;
typedef std::vector<c44_node *> Seq;
static const char *kinds[] = {"LL", "DL", "CDL"};
static const char *names[] = {"prepend", "append", "delete", "concat", "sort", "count", "search scalar", "search", "replace", "prepend elem", "append elem", "walk", "walk and delete"};
static std::string show(const Seq &s) { std::string r = "["; for (c44_node *n : s) r += (r.size() > 1 ? " " : "") + std::to_string(n->id) + ":" + std::to_string(n->key); return r + "]"; }

PBT_PROP("C44", 400000, 8000000,
         "histories of every operation of the bundled singly linked, doubly linked and circular list macros (both field forms, with and without typeof) on two lists with pairwise "
         "shared elements; after each step both lists are walked forwards and backwards and compared with sequences; sorting must be stable, safe walks may delete the current element; "
         "elements outside a list hold poisoned links; non-trivial: 5 or more kinds of operation, a list of 4 or more elements and a removal") {
    int kind = (int) t.pick(3); bool bare = t.chance(1, 3);
    auto f = bare ? c44b_op : c44_op;
    // two independent lists threaded through the same elements by different fields
    static c44_node pool[96]; static c44_node *got[1024];
    unsigned size = (unsigned) t.oneof({6u, 20u, 96u});
    c44_node *head[2][2] = {{0, 0}, {0, 0}}; Seq ref[2][2]; std::vector<char> in[2];
    for (unsigned i = 0; i < size; ++i) { pool[i].id = (int) i; pool[i].key = (int) t.pick(6); c44_spoil(&pool[i], 0); c44_spoil(&pool[i], 1); }
    for (int a = 0; a < 2; ++a) in[a].assign(size, 0);
    unsigned steps = 0, most = 0, kindsof = 0, removed = 0, mean = t.oneof({8u, 30u, 120u});
    NOTE(t, "%s lists%s, %u elements", kinds[kind], bare ? " without typeof" : "", size);
    auto verify = [&](int a, int l, const char *what) {
        Seq &s = ref[a][l]; c44_node *h = head[a][l];
        int n = f(kind, a, 11, &head[a][l], 0, 0, 0, got, 0);
        Seq w(got, got + n);
        PBT_CHECK(w == s, "%s %s: the list is %s, expected %s", kinds[kind], what, show(w).c_str(), show(s).c_str());
        if (s.empty()) { PBT_CHECK(!h, "%s %s: an empty list has a head", kinds[kind], what); return; }
        PBT_CHECK(h == s[0], "%s %s: wrong head", kinds[kind], what);
        for (size_t i = 0; kind && i < s.size(); ++i) {
            c44_node *p = a ? s[i]->pv2 : s[i]->prev, *want = i ? s[i - 1] : s.back();
            PBT_CHECK(p == want, "%s %s: the predecessor of element %d is wrong in %s", kinds[kind], what, s[i]->id, show(s).c_str());
        }
        c44_node *last = a ? s.back()->nx2 : s.back()->next;
        PBT_CHECK(last == (kind == 2 ? s[0] : 0), "%s %s: the last element of %s does not end the list", kinds[kind], what, show(s).c_str());
    };
    while (t.more(mean) && steps++ < 400) {
        int a = (int) t.pick(2), l = (int) t.pick(2); Seq &s = ref[a][l], &o = ref[a][1 - l]; c44_node **h = &head[a][l], **ho = &head[a][1 - l];
        c44_node *add = 0, *el = s.empty() ? 0 : t.elem(s), *out = 0; int key = (int) t.pick(7);
        { unsigned k = (unsigned) t.pick(size); for (unsigned i = 0; i < size && !add; ++i) if (!in[a][(k + i) % size]) add = &pool[(k + i) % size]; }
        int op = (int) t.weighted({4, 6, 4, 1, 1, 1, 1, 1, 2, 3, 3, 1, 1});
        if ((op <= 1 || (op >= 8 && op <= 10)) && !add) continue;
        if ((op == 2 || op == 8) && !el) continue;
        if (kind == 2 && op == 3) continue;   // circular lists have no concatenation
        if (op == 9 || op == 10) if (t.chance(1, 6)) el = 0;
        size_t at = el ? (size_t) (std::find(s.begin(), s.end(), el) - s.begin()) : 0;
        NOTE(t, "list %d of fields %d: %s el %d add %d key %d", l, a, names[op], el ? el->id : -1, add ? add->id : -1, key);
        auto find = [&]() -> c44_node * { for (c44_node *n : s) if (n->key == key) return n; return 0; };
        kindsof |= 1u << op;
        switch (op) {
            case 0: case 1: f(kind, a, op, h, 0, add, 0, 0, 0); s.insert(op ? s.end() : s.begin(), add); in[a][(size_t) add->id] = 1; break;
            case 2: f(kind, a, op, h, el, 0, 0, 0, 0); s.erase(s.begin() + (long) at); in[a][(size_t) el->id] = 0; c44_spoil(el, a); ++removed; break;
            case 3: f(kind, a, op, h, 0, 0, ho, 0, 0); s.insert(s.end(), o.begin(), o.end()); o.clear(); *ho = 0; break;
            case 4: f(kind, a, op, h, 0, 0, 0, 0, 0); std::stable_sort(s.begin(), s.end(), [](c44_node *x, c44_node *y) { return x->key < y->key; }); break;
            case 5: PBT_EQ(f(kind, a, op, h, 0, 0, 0, 0, 0), (int) s.size(), "%s count", kinds[kind]); break;
            case 6: case 7: out = (c44_node *) 8; f(kind, a, op, h, 0, 0, 0, &out, key); PBT_CHECK(out == find(), "%s %s for key %d in %s: element %d, expected %d", kinds[kind], names[op], key, show(s).c_str(), out ? out->id : -1, find() ? find()->id : -1); break;
            case 8: f(kind, a, op, h, el, add, 0, 0, 0); s[at] = add; in[a][(size_t) add->id] = 1; in[a][(size_t) el->id] = 0; c44_spoil(el, a); ++removed; break;
            case 9: f(kind, a, op, h, el, add, 0, 0, 0); s.insert(el ? s.begin() + (long) at : s.end(), add); in[a][(size_t) add->id] = 1; break;
            case 10: f(kind, a, op, h, el, add, 0, 0, 0); s.insert(el ? s.begin() + (long) at + 1 : s.begin(), add); in[a][(size_t) add->id] = 1; break;
            case 11: break;
            default: {
                int n = f(kind, a, op, h, 0, 0, 0, got, key); Seq w(got, got + n), rest;
                PBT_CHECK(w == s, "%s safe walk visited %s, expected %s", kinds[kind], show(w).c_str(), show(s).c_str());
                for (c44_node *x : s) { if (x->key & key) { in[a][(size_t) x->id] = 0; ++removed; } else rest.push_back(x); }
                s = rest;
            }
        }
        most = std::max(most, (unsigned) s.size());
        verify(a, l, names[op]); verify(a, 1 - l, names[op]);
    }
    for (int a = 0; a < 2; ++a) for (int l = 0; l < 2; ++l) verify(a, l, "end of history");
    t.label(kinds[kind]); if (bare) t.label("without typeof");
    if (__builtin_popcount(kindsof) >= 5 && most >= 4 && removed) t.nontrivial();
}
