/* picotm-lib-slist.h: every operation at every position of every list of up to MAXN items */
#include "vp.h"
#include "picotm/picotm-lib-slist.h"
enum { MAXN = 4 };
static struct picotm_slist head, it[MAXN + 1], *nw = it + MAXN;
static unsigned seq[MAXN + 2], len; /* the expected order, as item numbers */
static void mk(unsigned n)
{
    picotm_slist_init_head(&head);
    VP_ASSERT(picotm_slist_is_empty(&head), "a new list is empty");
    for (unsigned i = 0; i <= MAXN; ++i) {
        picotm_slist_init_item(it + i);
        VP_ASSERT(!picotm_slist_is_enqueued(it + i), "a new item is in no list");
    }
    len = 0;
    for (unsigned i = 0; i < n; ++i) { picotm_slist_enqueue_back(&head, it + i); seq[len++] = i; }
}
static void ins(unsigned p, unsigned x) { for (unsigned i = len; i > p; --i) seq[i] = seq[i - 1]; seq[p] = x; len++; }
static void del(unsigned p) { for (unsigned i = p; i + 1 < len; ++i) seq[i] = seq[i + 1]; len--; }
static void check(void)
{
    struct picotm_slist* p = &head;
    for (unsigned i = 0; i < len; ++i) {
        struct picotm_slist* q = picotm_slist_next(p);
        VP_ASSERT(q == it + seq[i], "the items are linked in the expected order");
        VP_ASSERT(picotm_slist_prev(q) == p && picotm_slist_is_enqueued(q), "each item's predecessor is the item before");
        p = q;
    }
    VP_ASSERT(picotm_slist_next(p) == &head && picotm_slist_prev(&head) == p, "the list is a closed cycle");
    VP_ASSERT(picotm_slist_end(&head) == &head && picotm_slist_is_empty(&head) == !len, "emptiness");
    VP_ASSERT(picotm_slist_begin(&head) == (len ? it + seq[0] : &head), "begin");
    VP_ASSERT(picotm_slist_front(&head) == (len ? it + seq[0] : NULL) && picotm_slist_back(&head) == (len ? it + seq[len - 1] : NULL), "front and back");
    for (unsigned i = 0; i <= MAXN; ++i) {
        bool in = false;
        for (unsigned k = 0; k < len; ++k) in |= seq[k] == i;
        VP_ASSERT(picotm_slist_is_enqueued(it + i) == in, "exactly the list's items are enqueued");
    }
}
void h_ops(void)
{
    for (unsigned n = 0; n <= MAXN; ++n) {
        mk(n); check();
        mk(n); picotm_slist_enqueue_front(&head, nw); ins(0, MAXN); check();
        mk(n); picotm_slist_enqueue_back(&head, nw); ins(n, MAXN); check();
        mk(n); picotm_slist_enqueue_before(&head, nw); ins(n, MAXN); check();
        mk(n); picotm_slist_enqueue_after(&head, nw); ins(0, MAXN); check();
        if (n) { mk(n); picotm_slist_dequeue_front(&head); del(0); check(); }
        for (unsigned p = 0; p < n; ++p) {
            mk(n); picotm_slist_enqueue_before(it + p, nw); ins(p, MAXN); check();
            mk(n); picotm_slist_enqueue_after(it + p, nw); ins(p + 1, MAXN); check();
            mk(n); picotm_slist_dequeue(it + p); del(p); check();
        }
        picotm_slist_uninit_head(&head);
    }
    VP_REACH("ops");
}
/* sorted: key of item i */
static int key[MAXN + 1];
static int cmp(struct picotm_slist* a, struct picotm_slist* b) { return key[a - it] - key[b - it]; }
void h_sorted(void)
{
    for (unsigned n = 0; n <= 3; ++n)
        for (unsigned c = 0; c < 27; ++c) {
            key[0] = c % 3; key[1] = c / 3 % 3; key[2] = c / 9;
            if ((n < 3 && c >= 9) || (n < 2 && c >= 3)) continue;
            mk(0);
            for (unsigned i = 0; i < n; ++i) picotm_slist_enqueue_sorted(&head, it + i, cmp);
            struct picotm_slist* p = picotm_slist_begin(&head);
            unsigned cnt = 0;
            while (p != picotm_slist_end(&head) && cnt <= n) {
                struct picotm_slist* q = picotm_slist_next(p);
                if (q != &head) VP_ASSERT(cmp(p, q) > 0 || (cmp(p, q) == 0 && p < q), "a sorted list stays sorted, equal items in the order of arrival");
                p = q; cnt++;
            }
            VP_ASSERT(cnt == n, "no item is lost");
        }
    VP_REACH("sorted");
}
/* walks and searches: act[i] is the callback's result for item i */
static unsigned act[MAXN], seen[MAXN + 1], nseen;
static char d1, d2;
static unsigned visit(const struct picotm_slist* p)
{
    VP_ASSERT(nseen <= MAXN, "each item is visited once");
    unsigned i = p - it;
    seen[nseen++] = i;
    return act[i];
}
static bool t0(const struct picotm_slist* p) { return visit(p); }
static bool t1(const struct picotm_slist* p, void* a) { VP_ASSERT(a == &d1, "data"); return visit(p); }
static bool t2(const struct picotm_slist* p, void* a, void* b) { VP_ASSERT(a == &d1 && b == &d2, "data"); return visit(p); }
static size_t w0(struct picotm_slist* p) { return visit(p); }
static size_t w1(struct picotm_slist* p, void* a) { VP_ASSERT(a == &d1, "data"); return visit(p); }
static size_t w2(struct picotm_slist* p, void* a, void* b) { VP_ASSERT(a == &d1 && b == &d2, "data"); return visit(p); }
static void c0(struct picotm_slist* p) { VP_ASSERT(!picotm_slist_is_enqueued(p), "cleaned-up items have been dequeued"); visit(p); }
static void c1(struct picotm_slist* p, void* a) { VP_ASSERT(a == &d1, "data"); c0(p); }
static void c2(struct picotm_slist* p, void* a, void* b) { VP_ASSERT(a == &d1 && b == &d2, "data"); c0(p); }
void h_find(void)
{
    for (unsigned n = 0; n <= 3; ++n)
        for (unsigned m = 0; m < 1u << n; ++m)
            for (unsigned k = 0; k < 3; ++k) {
                mk(n); nseen = 0;
                unsigned first = n;
                for (unsigned i = n; i-- > 0;) { act[i] = m >> i & 1; if (act[i]) first = i; }
                struct picotm_slist* r = k == 0 ? picotm_slist_find_0(&head, t0) : k == 1 ? picotm_slist_find_1(&head, t1, &d1) : picotm_slist_find_2(&head, t2, &d1, &d2);
                VP_ASSERT(r == (first < n ? it + first : &head), "a search returns the first match or the end");
                VP_ASSERT(nseen == first + (first < n), "each item is tested at most once, in order");
                for (unsigned i = 0; i < nseen; ++i) VP_ASSERT(seen[i] == i, "items are tested in order");
                check();
            }
    VP_REACH("find");
}
void h_walk(void)
{
    for (unsigned n = 0; n <= 3; ++n)
        for (unsigned m = 0; m < 1u << 2 * n; ++m)
            for (unsigned k = 0; k < 3; ++k) {
                if (m % 3 != k && n == 3) continue; /* all the combinations, spread over the three variants */
                mk(n); nseen = 0;
                for (unsigned i = 0; i < n; ++i) act[i] = m >> 2 * i & 3;
                struct picotm_slist* r = k == 0 ? picotm_slist_walk_0(&head, w0) : k == 1 ? picotm_slist_walk_1(&head, w1, &d1) : picotm_slist_walk_2(&head, w2, &d1, &d2);
                unsigned i = 0, s = 0;
                while (i < n) { /* the specification */
                    VP_ASSERT(s < nseen && seen[s] == i, "a walk visits the items in order, as far apart as the callback says");
                    s++;
                    if (!act[i]) break;
                    i += act[i];
                }
                VP_ASSERT(nseen == s, "a walk stops where told to");
                VP_ASSERT(r == (i < n ? it + i : &head), "a walk returns the item it stopped at or the end");
                check();
            }
    VP_REACH("walk");
}
void h_cleanup(void)
{
    for (unsigned n = 0; n <= MAXN; ++n)
        for (unsigned k = 0; k < 3; ++k) {
            mk(n); nseen = 0;
            for (unsigned i = 0; i < n; ++i) act[i] = 0;
            if (k == 0) picotm_slist_cleanup_0(&head, c0);
            else if (k == 1) picotm_slist_cleanup_1(&head, c1, &d1);
            else picotm_slist_cleanup_2(&head, c2, &d1, &d2);
            VP_ASSERT(nseen == n, "each item is cleaned up once");
            for (unsigned i = 0; i < n; ++i) VP_ASSERT(seen[i] == i, "items are cleaned up in order");
            len = 0; check();
        }
    VP_REACH("cleanup");
}
