// C01: the intrusive list behaves as a sequence, for every operation history.
#include "pbt.hpp"
#include <algorithm>
#include <deque>
extern "C" {
#include "embc/collections/list.h"
}
using pbt::Tape;

namespace {
struct Entry { int id; struct embc_list_s a; long pad; struct embc_list_s b; };
const int NL = 3, NE = 10;

struct World {
    // member a lives in lists[0..NL), member b in listb
    embc_list_s lists[NL], listb;
    Entry e[NE];
    std::vector<int> m[NL], mb;
    World() {
        for (auto &l : lists) embc_list_initialize(&l);
        embc_list_initialize(&listb);
        for (int i = 0; i < NE; ++i) { e[i].id = i; embc_list_initialize(&e[i].a); embc_list_initialize(&e[i].b); }
    }
    int where(int i) { for (int l = 0; l < NL; ++l) if (std::count(m[l].begin(), m[l].end(), i)) return l; return -1; }
    void drop(int i) { for (auto &v : m) v.erase(std::remove(v.begin(), v.end(), i), v.end()); }
    Entry *of(embc_list_s *p) { return embc_list_entry(p, Entry, a); }

    void verify_one(embc_list_s *l, std::vector<int> &v, bool isb) {
        size_t k = 0;
        for (embc_list_s *p = l->next; p != l; p = p->next, ++k) {
            PBT_CHECK(k < v.size(), "forward walk longer than %zu items", v.size());
            Entry *x = isb ? embc_list_entry(p, Entry, b) : embc_list_entry(p, Entry, a);
            PBT_CHECK(x == &e[v[k]], "forward walk position %zu: wrong item (expected %d)", k, v[k]);
            PBT_CHECK(p->next->prev == p && p->prev->next == p, "links of item %d are inconsistent", v[k]);
        }
        PBT_CHECK(k == v.size(), "forward walk: %zu items, expected %zu", k, v.size());
        k = v.size();
        for (embc_list_s *p = l->prev; p != l; p = p->prev) {
            PBT_CHECK(k > 0, "backward walk too long");
            --k;
            Entry *x = isb ? embc_list_entry(p, Entry, b) : embc_list_entry(p, Entry, a);
            PBT_CHECK(x == &e[v[k]], "backward walk position %zu: wrong item", k);
        }
        PBT_CHECK(k == 0, "backward walk: %zu items missing", k);
    }
    void verify() {
        for (int l = 0; l < NL; ++l) verify_one(&lists[l], m[l], false);
        verify_one(&listb, mb, true);
        for (int i = 0; i < NE; ++i) {
            // a lone item that was removed must be safe to remove again
        }
    }
    int visit(embc_list_s *p) {
        int i = -1;
        for (int k = 0; k < NE; ++k) if (&e[k].a == p) i = k;
        PBT_CHECK(i >= 0, "iteration yielded a pointer that is no item");
        return i;
    }
};
}  // namespace

// a long list
static void many(Tape &t) {
    unsigned n = t.chance(1, 20) ? 66000 + (unsigned) t.pick(5000) : 200 + (unsigned) t.pick(2000), half = (unsigned) t.pick(n + 1);
    NOTE(t, "lists of %u and %u items, appended", half, n - half); t.heavy(); t.label("long list");
    std::vector<Entry> x(n); embc_list_s a, b; embc_list_initialize(&a); embc_list_initialize(&b);
    for (unsigned i = 0; i < n; ++i) embc_list_initialize(&x[i].a);
    for (unsigned i = half; i-- > 0;) embc_list_add_head(&a, &x[i].a);
    for (unsigned i = half; i < n; ++i) embc_list_add_tail(&b, &x[i].a);
    PBT_EQ((long) embc_list_length(&a), (long) half, "length"); PBT_EQ((long) embc_list_length(&b), (long) (n - half), "length");
    embc_list_append(&a, &b);
    PBT_EQ((long) embc_list_length(&a), (long) n, "length after append"); PBT_CHECK(embc_list_is_empty(&b) && embc_list_length(&b) == 0, "source not empty after append");
    for (unsigned k = 0; k < 5; ++k) {
        unsigned i = t.flip() ? (unsigned) t.pick(n) : n - 1 - (unsigned) t.pick(std::min(n, 3u));
        PBT_EQ((long) embc_list_index_of(&a, &x[i].a), (long) i, "index"); PBT_CHECK(embc_list_index(&a, i) == &x[i].a, "item at index %u", i); PBT_CHECK(embc_list_contains(&a, &x[i].a), "item %u is not contained", i);
    }
    for (embc_size_t off : {(embc_size_t) n, (embc_size_t) n + 1, (embc_size_t) 0x10000 + n, (embc_size_t) 0x100000000ll + n / 2, (embc_size_t) -1, (embc_size_t) -65536, (embc_size_t) -0x100000000ll}) PBT_CHECK(!embc_list_index(&a, off), "item at index %lld of %u", (long long) off, n);
    unsigned i = 0;
    embc_list_s *item;
    embc_list_foreach(&a, item) { PBT_CHECK(i < n && item == &x[i].a, "position %u", i); if (i % 3) embc_list_remove(item); ++i; }
    PBT_EQ(i, n, "items visited");
    PBT_EQ((long) embc_list_length(&a), (long) ((n + 2) / 3), "length after removing two of three");
}

PBT_PROP("C01", 1600000, 40000000,
         "random histories of list operations over 3 lists and 10 items (each item also in a fourth list through a second member), "
         "compared with vectors after every operation; non-trivial: at least 6 operations including one that moves or removes an item "
         "from a list of 2 or more, or an append or an iteration that removes") {
    if (t.chance(1, 3000)) many(t);
    World w;
    unsigned mean = t.oneof({4u, 12u, 40u});
    int ops = 0; bool inter = false;
    while (t.more(mean) && ops < 300) {
        ++ops;
        unsigned op = t.weighted({4, 4, 3, 3, 2, 2, 3, 1, 1, 2, 2, 3, 2, 2, 2, 2});
        int l = (int) t.pick(NL), i = (int) t.pick(NE);
        embc_list_s *L = &w.lists[l], *I = &w.e[i].a;
        int at = w.where(i);
        if (at >= 0 && w.m[at].size() >= 2 && op < 5) inter = true;
        auto pick_pos = [&]() -> int { return w.m[l].empty() ? -1 : w.m[l][t.pick(w.m[l].size())]; };
        switch (op) {
            case 0: NOTE(t, "add_head(L%d, %d)", l, i); embc_list_add_head(L, I); w.drop(i); w.m[l].insert(w.m[l].begin(), i); break;
            case 1: NOTE(t, "add_tail(L%d, %d)", l, i); embc_list_add_tail(L, I); w.drop(i); w.m[l].push_back(i); break;
            case 2: case 3: {
                int p = pick_pos();
                if (p < 0 || p == i) break;
                NOTE(t, "insert_%s(%d in L%d, %d)", op == 2 ? "before" : "after", p, l, i);
                if (op == 2) embc_list_insert_before(&w.e[p].a, I); else embc_list_insert_after(&w.e[p].a, I);
                w.drop(i);
                auto it = std::find(w.m[l].begin(), w.m[l].end(), p);
                w.m[l].insert(op == 2 ? it : it + 1, i);
                break;
            }
            case 4: NOTE(t, "remove(%d)", i); embc_list_remove(I); w.drop(i);
                    PBT_CHECK(embc_list_is_empty(I), "removed item %d still linked", i); break;
            case 5: case 6: {
                bool head = op == 5;
                NOTE(t, "remove_%s(L%d)", head ? "head" : "tail", l);
                embc_list_s *r = head ? embc_list_remove_head(L) : embc_list_remove_tail(L);
                if (w.m[l].empty()) { PBT_CHECK(r == 0, "remove from an empty list returned an item"); break; }
                int x = head ? w.m[l].front() : w.m[l].back();
                PBT_CHECK(r == &w.e[x].a, "remove_%s returned the wrong item (expected %d)", head ? "head" : "tail", x);
                if (w.m[l].size() > 1) inter = true;
                w.drop(x);
                PBT_CHECK(embc_list_is_empty(r), "removed item %d still linked", x);
                break;
            }
            case 7: case 8: {
                bool head = op == 7;
                NOTE(t, "peek_%s(L%d)", head ? "head" : "tail", l);
                embc_list_s *r = head ? embc_list_peek_head(L) : embc_list_peek_tail(L);
                embc_list_s *x = w.m[l].empty() ? 0 : &w.e[head ? w.m[l].front() : w.m[l].back()].a;
                PBT_CHECK(r == x, "peek_%s wrong", head ? "head" : "tail");
                PBT_EQ(embc_list_is_empty(L), w.m[l].empty(), "is_empty(L%d)", l);
                break;
            }
            case 9: {
                embc_size_t k = (embc_size_t) t.pick(NE + 2);
                NOTE(t, "length/index(L%d, %d)", l, (int) k);
                PBT_EQ(embc_list_length(L), (embc_size_t) w.m[l].size(), "length(L%d)", l);
                embc_list_s *r = embc_list_index(L, k);
                embc_list_s *x = (size_t) k < w.m[l].size() ? &w.e[w.m[l][k]].a : 0;
                PBT_CHECK(r == x, "index(L%d, %d) wrong", l, (int) k);
                break;
            }
            case 10: {
                NOTE(t, "index_of/contains(L%d, %d)", l, i);
                auto it = std::find(w.m[l].begin(), w.m[l].end(), i);
                embc_size_t x = it == w.m[l].end() ? -1 : it - w.m[l].begin();
                PBT_EQ(embc_list_index_of(L, I), x, "index_of(L%d, %d)", l, i);
                PBT_EQ((bool) embc_list_contains(L, I), x >= 0, "contains(L%d, %d)", l, i);
                break;
            }
            case 11: {
                int l2 = (int) t.pick(NL);
                if (l2 == l) break;
                NOTE(t, "append(L%d <- L%d)", l, l2);
                t.label(w.m[l2].empty() ? "append-empty" : w.m[l].empty() ? "append-to-empty" : "append-both");
                inter = true;
                embc_list_append(L, &w.lists[l2]);
                w.m[l].insert(w.m[l].end(), w.m[l2].begin(), w.m[l2].end());
                w.m[l2].clear();
                break;
            }
            case 12: case 13: {  // safe iteration; the body may take the current item away
                bool rev = op == 13;
                unsigned act = (unsigned) t.pick(4);
                uint64_t mask = t.pick(1 << NE);
                int l2 = (int) t.pick(NL);
                if (act == 2 && l2 == l) act = 1;
                NOTE(t, "foreach%s(L%d) action %u mask %x L%d", rev ? "_reverse" : "", l, act, (unsigned) mask, l2);
                std::vector<int> seen, expect = w.m[l];
                if (rev) std::reverse(expect.begin(), expect.end());
                embc_list_s *item;
                size_t guard = 0;
                auto body = [&](embc_list_s *it) {
                    PBT_CHECK(++guard <= expect.size(), "iteration does not end");
                    int x = w.visit(it);
                    seen.push_back(x);
                    if (!(mask >> x & 1)) return;
                    if (act == 1) { embc_list_remove(it); w.drop(x); inter = true; t.label("foreach-remove"); }
                    else if (act == 2) { embc_list_add_tail(&w.lists[l2], it); w.drop(x); w.m[l2].push_back(x); inter = true; t.label("foreach-move"); }
                    else if (act == 3) {
                        // an unlisted item put right after (before, in reverse) the current one is skipped
                        for (int q = 0; q < NE; ++q) if (w.where(q) < 0 && std::find(seen.begin(), seen.end(), q) == seen.end()) {
                            auto p = std::find(w.m[l].begin(), w.m[l].end(), x);
                            if (rev) { embc_list_insert_before(it, &w.e[q].a); w.m[l].insert(p, q); }
                            else { embc_list_insert_after(it, &w.e[q].a); w.m[l].insert(p + 1, q); }
                            t.label("foreach-insert");
                            break;
                        }
                    }
                };
                if (rev) { embc_list_foreach_reverse(L, item) { body(item); } }
                else { embc_list_foreach(L, item) { body(item); } }
                PBT_CHECK(seen == expect, "iteration visited %zu items of %zu or in the wrong order", seen.size(), expect.size());
                break;
            }
            case 14: {
                NOTE(t, "foreach_unsafe(L%d) both ways", l);
                std::vector<int> f, r;
                embc_list_s *item;
                embc_list_foreach_unsafe(L, item) { f.push_back(w.visit(item)); PBT_CHECK(f.size() <= NE, "no end"); }
                embc_list_foreach_reverse_unsafe(L, item) { r.push_back(w.visit(item)); PBT_CHECK(r.size() <= NE, "no end"); }
                PBT_CHECK(f == w.m[l], "forward iteration wrong");
                std::reverse(r.begin(), r.end());
                PBT_CHECK(r == w.m[l], "reverse iteration wrong");
                break;
            }
            default: {
                NOTE(t, "second member of %d: toggle in LB", i);
                auto it = std::find(w.mb.begin(), w.mb.end(), i);
                if (it != w.mb.end()) { embc_list_remove(&w.e[i].b); w.mb.erase(it); }
                else { embc_list_add_tail(&w.listb, &w.e[i].b); w.mb.push_back(i); }
            }
        }
        w.verify();
    }
    // items may be removed at any time, listed or not
    for (int i = 0; i < NE; ++i) { embc_list_remove(&w.e[i].a); w.drop(i); if (i % 3 == 0) w.verify(); }
    w.verify();
    if (ops >= 6 && inter) t.nontrivial();
}
