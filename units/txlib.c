/* transactional containers: lists, queues, stacks and multisets, through the module's public interface.
 *
 * Reference: per container the sequence of entries as the transaction sees it (ref) and as last committed (com).
 * Every choice is a constant on its path, so that each history runs on concrete heaps. */
#include "vp.h"
#include <stdatomic.h>
#include <stdlib.h>
#ifdef VP_CBMC
#undef errno
int vp_errno;
#define errno vp_errno
#else
#include <errno.h>
#endif
#include "picotm/picotm-error.h"
#include "picotm/picotm-module.h"
#include "picotm/picotm-lib-tab.h"
#include "picotm/picotm-lib-rwlock.h"
static void* v_malloc(size_t n);
static void v_free(void* p);
#define malloc v_malloc
#define free v_free
/* each union member is only read as it was written; structures keep the pointers apart for the verifier */
#define union struct
#include "modules/txlib/src/txlib_tx.h"
#include "modules/txlib/src/txlib_event.h"
#undef union
#include "src/picotm-lib-rwstate.c"
#include "modules/txlib/src/txlib_module.c"
#include "modules/txlib/src/txlib_tx.c"
#include "modules/txlib/src/txlib_event.c"
#include "modules/txlib/src/txlist_tx.c"
#include "modules/txlib/src/txlist_state.c"
#include "modules/txlib/src/txlist_entry.c"
#include "modules/txlib/src/txlist.c"
#include "modules/txlib/src/txqueue_tx.c"
#include "modules/txlib/src/txqueue_state.c"
#include "modules/txlib/src/txqueue_entry.c"
#include "modules/txlib/src/txqueue.c"
#define local_begin stack_local_begin
#define local_end stack_local_end
#define local_is_empty stack_local_is_empty
#include "modules/txlib/src/txstack_tx.c"
#include "modules/txlib/src/txstack_state.c"
#include "modules/txlib/src/txstack_entry.c"
#include "modules/txlib/src/txstack.c"
#include "modules/txlib/src/txmultiset_tx.c"
#include "modules/txlib/src/txmultiset_state.c"
#include "modules/txlib/src/txmultiset_entry.c"
#include "modules/txlib/src/txmultiset.c"
#undef malloc
#undef free
static void stop(void) {
#ifdef VP_CBMC
    __CPROVER_assume(0);
#else
    exit(0);
#endif
}
void picotm_error_set_errno(struct picotm_error* e, int c) { e->status = PICOTM_ERRNO; e->value.errno_hint = c; }
void picotm_error_set_error_code(struct picotm_error* e, enum picotm_error_code c) { e->status = PICOTM_ERROR_CODE; }
void picotm_error_set_conflicting(struct picotm_error* e, struct picotm_rwlock* l) { e->status = PICOTM_CONFLICTING; }
void picotm_error_mark_as_non_recoverable(struct picotm_error* e) { e->is_non_recoverable = true; }

/* the failing call of the history, counted over everything that may fail */
static unsigned g_step, g_fail_at = ~0u; static bool g_failed;
static bool fails(void) { if (g_step++ == g_fail_at) { g_failed = true; return true; } return false; }
#ifndef NPOOL
#define NPOOL 2
#endif
static struct txlib_tx_entry pool[NPOOL]; static unsigned g_npool, g_nfreed;
static void* v_malloc(size_t n)
{
    VP_ASSERT(n == sizeof(struct txlib_tx_entry) && g_npool < NPOOL, "one record per container");
    if (fails()) { errno = ENOMEM; return NULL; }
    return &pool[g_npool++];
}
static void v_free(void* p) { ++g_nfreed; }
#ifndef MAXEV
#define MAXEV 8
#endif
static struct txlib_event tab0[MAXEV], tab1[MAXEV]; static int g_tab; static size_t g_tabn;
void* picotm_tabresize(void* base, size_t n, size_t m, size_t siz, struct picotm_error* e)
{
    VP_ASSERT(siz == sizeof(struct txlib_event) && (!n || base == (g_tab & 1 ? tab1 : tab0)), "the log's records");
    VP_ASSERT(m <= MAXEV, "harness: enough room for the log");
    if (fails()) { picotm_error_set_error_code(e, PICOTM_OUT_OF_MEMORY); return NULL; }
    struct txlib_event* o = g_tab & 1 ? tab1 : tab0;
    struct txlib_event* t = ++g_tab & 1 ? tab1 : tab0;
    for (size_t i = 0; i < n; ++i) { t[i] = o[i]; o[i].op = 100; }
    return t;
}
void picotm_tabfree(void* p) { }
static const struct picotm_module_ops* g_ops; static void* g_data;
unsigned long picotm_register_module(const struct picotm_module_ops* o, void* d, struct picotm_error* e)
{
    VP_ASSERT(!g_ops, "the module is registered once");
    if (fails()) { picotm_error_set_error_code(e, PICOTM_OUT_OF_MEMORY); return 0; }
    g_ops = o; g_data = d;
    return 3;
}
static struct { uint16_t head; uintptr_t tail; } ev[MAXEV]; static size_t nev;
void picotm_append_event(unsigned long m, uint16_t h, uintptr_t t, struct picotm_error* e)
{
    VP_ASSERT(m == 3 && nev < MAXEV, "events belong to the module");
    if (fails()) { picotm_error_set_error_code(e, PICOTM_OUT_OF_MEMORY); return; }
    ev[nev].head = h; ev[nev].tail = t; ++nev;
}

enum { LIST, QUEUE, STACK, MULTI };
#ifndef KA
#define KA LIST
#endif
#ifndef KB
#define KB KA
#endif
#define KIND(c) ((c) ? KB : KA)
#ifndef NE
#define NE 8
#endif
#define X(c, i) ((c) * NE + (i))
static struct txlist_state ls[2]; static struct txlist_entry le[2 * NE];
static struct txqueue_state qs[2]; static struct txqueue_entry qe[2 * NE];
static struct txstack_state ss[2]; static struct txstack_entry se[2 * NE];
static struct txmultiset_state ms[2]; static struct txmultiset_entry me[2 * NE];
static int key[2 * NE];
static const void* key_of(struct txmultiset_entry* e) { return key + (e - me); }
static int cmp_of(const void* a, const void* b) { int x = *(const int*)a, y = *(const int*)b; return x < y ? -1 : x > y; }
static struct picotm_rwlock* lock_of(int c)
{
    switch (KIND(c)) {
    case LIST: return &ls[c].internal.lock;
    case QUEUE: return &qs[c].internal.lock;
    case STACK: return &ss[c].internal.lock;
    default: return &ms[c].internal.lock;
    }
}
/* locks: 0 free, 1 shared, 2 exclusive */
static int own[2]; static bool g_finishing;
static int lock_index(struct picotm_rwlock* l) { VP_ASSERT(l == lock_of(0) || l == lock_of(1), "a container's lock"); return l == lock_of(0) ? 0 : 1; }
void picotm_rwlock_init(struct picotm_rwlock* l) { }
void picotm_rwlock_uninit(struct picotm_rwlock* l) { }
void picotm_rwlock_try_rdlock(struct picotm_rwlock* l, struct picotm_error* e)
{
    int c = lock_index(l);
    VP_ASSERT(own[c] == 0, "each lock is acquired once");
    if (fails()) { picotm_error_set_conflicting(e, l); return; }
    own[c] = 1;
}
void picotm_rwlock_try_wrlock(struct picotm_rwlock* l, bool up, struct picotm_error* e)
{
    int c = lock_index(l);
    VP_ASSERT(own[c] == (up ? 1 : 0), "each lock is acquired or upgraded once");
    if (fails()) { picotm_error_set_conflicting(e, l); return; }
    own[c] = 2;
}
void picotm_rwlock_unlock(struct picotm_rwlock* l)
{
    int c = lock_index(l);
    VP_ASSERT(own[c] > 0 && g_finishing, "locks are held until the transaction's end and released once");
    own[c] = 0;
}

/* contents */
static int ref[2][NE], nref[2], com[2][NE], ncom[2], nnew[2], removed[2];
static int seq[2 * NE]; static int nseq;
static void add(int i) { VP_ASSERT(nseq < NE, "the container holds no more than its entries"); seq[nseq++] = i; }
static void content(int c, bool local)
{
    nseq = 0;
    switch (KIND(c)) {
    case LIST:
        for (struct txlist_entry* e = txlist_state_begin(&ls[c]), *p = txlist_state_end(&ls[c]);; p = e, e = e->internal.next) {
            VP_ASSERT(e->internal.prev == p, "both directions agree");
            if (e == txlist_state_end(&ls[c])) break;
            add(e - le);
        }
        break;
    case QUEUE: {
        struct txqueue_entry* h = &qs[c].internal.head;
        for (struct txqueue_entry* e = h->internal.next, *p = h;; p = e, e = e->internal.next) { VP_ASSERT(e->internal.prev == p, "both directions agree"); if (e == h) break; add(e - qe); }
        break;
    }
    case STACK: {
        int t[NE], n = 0;
        for (struct txstack_entry* e = ss[c].internal.head.internal.prev; e != &ss[c].internal.head; e = e->internal.prev) { VP_ASSERT(n < NE, "the stack ends"); t[n++] = e - se; }
        while (n) add(t[--n]);
        break;
    }
    default: {
        struct txmultiset_entry* h = txmultiset_state_end(&ms[c]), *l = h;
        VP_ASSERT(h == &ms[c].internal.head, "the terminator is the container's own");
        for (struct txmultiset_entry* e = txmultiset_state_begin(&ms[c]); e != h; l = e, e = txmultiset_entry_next(e)) add(e - me);
        int n = nseq;
        for (struct txmultiset_entry* e = l; e != h && n; e = --n ? txmultiset_entry_prev(e) : e) VP_ASSERT(e == &me[seq[n - 1]], "both directions agree");
        break;
    }
    }
    if (!local || !g_ops) return;
    struct txlib_tx* tx = &((struct txlib_module*)g_data)->tx;
    if (KIND(c) == QUEUE) {
        struct txqueue_entry* h = NULL;
        for (struct picotm_slist* i = tx->acquired_queue_tx.next; i != &tx->acquired_queue_tx; i = i->next) {
            struct txlib_tx_entry* x = txlib_tx_entry_of_slist(i);
            if (x->data.queue_tx.queue_state == &qs[c]) { VP_ASSERT(!h && x->data.queue_tx.tx == tx, "each container is tracked once per transaction"); h = &x->data.queue_tx.local_head; }
        }
        if (h) for (struct txqueue_entry* e = h->internal.next, *p = h;; p = e, e = e->internal.next) { VP_ASSERT(e->internal.prev == p, "both directions agree"); if (e == h) break; add(e - qe); }
    } else if (KIND(c) == STACK) {
        struct txstack_entry* h = NULL;
        int t[NE], n = 0;
        for (struct picotm_slist* i = tx->acquired_stack_tx.next; i != &tx->acquired_stack_tx; i = i->next) {
            struct txlib_tx_entry* x = txlib_tx_entry_of_slist(i);
            if (x->data.stack_tx.stack_state == &ss[c]) { VP_ASSERT(!h && x->data.stack_tx.tx == tx, "each container is tracked once per transaction"); h = &x->data.stack_tx.local_head; }
        }
        if (h) for (struct txstack_entry* e = h->internal.prev; e != h; e = e->internal.prev) { VP_ASSERT(n < NE, "the stack ends"); t[n++] = e - se; }
        while (n) add(t[--n]);
    }
}
/* multisets: the reference is a set of entries; the order among entries of the same key is open */
static void same(int c, const int* want, int n)
{
    VP_ASSERT(nseq == n, "the container holds exactly the expected entries");
    if (KIND(c) != MULTI) { for (int i = 0; i < NE; ++i) if (i < n) VP_ASSERT(seq[i] == want[i], "the entries are in the expected order"); return; }
    for (int i = 0; i < NE; ++i)
        if (i < n) {
            bool f = false;
            for (int j = 0; j < NE; ++j) if (j < n && seq[j] == want[i]) f = true;
            VP_ASSERT(f, "the container holds exactly the expected entries");
            if (i) VP_ASSERT(key[seq[i - 1]] <= key[seq[i]], "entries are in ascending order");
        }
}
static void same_com(int c, const int* want, int n) { content(c, false); same(c, want, n); }
static void* tx_of(int c)
{
    void* p, *q;
    switch (KIND(c)) {
    case LIST: p = txlist_of_state_tx(&ls[c]); q = txlist_of_state_tx(&ls[c]); break;
    case QUEUE: p = txqueue_of_state_tx(&qs[c]); q = txqueue_of_state_tx(&qs[c]); break;
    case STACK: p = txstack_of_state_tx(&ss[c]); q = txstack_of_state_tx(&ss[c]); break;
    default: p = txmultiset_of_state_tx(&ms[c]); q = txmultiset_of_state_tx(&ms[c]); break;
    }
    VP_ASSERT(p == q, "each container is tracked once per transaction");
    return p;
}
#ifdef HASQ
#define REFUSED VP_REACH("refused")
#else
#define REFUSED
#endif
static void end_tx(bool commit)
{
    struct picotm_error err = PICOTM_ERROR_INITIALIZER;
    if (g_ops) {
        if (commit) {
            g_ops->prepare_commit(g_data, 0, &err);
            if (err.status) { VP_ASSERT(g_failed, "only conflicts prevent the commit"); end_tx(false); REFUSED; stop(); }
            for (size_t i = 0; i < MAXEV; ++i) if (i < nev) g_ops->apply_event(ev[i].head, ev[i].tail, g_data, &err);
        } else
            for (size_t i = MAXEV; i > 0; --i) if (i <= nev) g_ops->undo_event(ev[i - 1].head, ev[i - 1].tail, g_data, &err);
        VP_ASSERT(!err.status, "no error");
    }
    for (int c = 0; c < 2; ++c) {
        content(c, false);
        if (commit) {
            bool diff = nseq != ncom[c];
            for (int i = 0; i < NE; ++i) if (!diff && i < nseq && seq[i] != com[c][i]) diff = true;
            if (diff) VP_ASSERT(own[c] == 2, "changes are published under the exclusive lock");
            same(c, ref[c], nref[c]);
        } else
            same(c, com[c], ncom[c]);
    }
    g_finishing = true;
    if (g_ops) g_ops->finish(g_data, &err);
    g_finishing = false;
    VP_ASSERT(!err.status && own[0] == 0 && own[1] == 0, "all locks are released at the end");
    nev = 0;
    for (int c = 0; c < 2; ++c) {
        if (commit) { ncom[c] = nref[c]; for (int i = 0; i < NE; ++i) com[c][i] = ref[c][i]; }
        else { nref[c] = ncom[c]; for (int i = 0; i < NE; ++i) ref[c][i] = com[c][i]; }
    }
}
#ifdef NF
#define FAILED VP_REACH("failed")
#else
#define FAILED
#define NF 1
#define OP2 0
#define OP3 0
#define COMMIT1 1
#endif
#ifndef NKBASE
#define NKBASE 0
#endif
void picotm_recover_from_error(const struct picotm_error* e)
{
    VP_ASSERT(g_failed && e->status, "only failures abort");
    end_tx(false);
    FAILED;
    stop();
}
static void rput(int c, int at, int id)
{
    for (int i = NE - 1; i > 0; --i) if (i > at && i <= nref[c]) ref[c][i] = ref[c][i - 1];
    ref[c][at] = id; ++nref[c];
}
static void rdel(int c, int at)
{
    removed[c] = ref[c][at];
    for (int i = 0; i < NE - 1; ++i) if (i >= at) ref[c][i] = ref[c][i + 1];
    --nref[c];
}
static int fresh(int c) { VP_ASSERT(nnew[c] < NE, "harness: enough entries"); return X(c, nnew[c]++); }
/* op % 10 is the operation, op / 10 the key or position; false if its precondition does not hold */
static void mput(int c, struct txmultiset* m, int id)
{
    txmultiset_insert_tx(m, &me[id]);
    rput(c, nref[c], id);
}
static void mdel(int c, int at) /* entry at this place of the view */
{
    content(c, true);
    for (int i = 0; i < NE; ++i) if (i < nref[c] && ref[c][i] == seq[at]) { rdel(c, i); return; }
}
static bool op(int c, int o)
{
    int n = nref[c], id;
    void* t = tx_of(c);
    switch (KIND(c)) {
    case LIST:
        switch (o) {
        case 0: id = fresh(c); txlist_push_front_tx(t, &le[id]); rput(c, 0, id); break;
        case 1: id = fresh(c); txlist_push_back_tx(t, &le[id]); rput(c, n, id); break;
        case 2: id = fresh(c); txlist_insert_tx(t, &le[id], n ? &le[ref[c][n / 2]] : txlist_end_tx(t)); rput(c, n / 2, id); break;
        case 3: if (!n) return false; txlist_erase_tx(t, &le[ref[c][n / 2]]); rdel(c, n / 2); break;
        case 4: if (!n) return false; txlist_pop_front_tx(t); rdel(c, 0); break;
        case 5: if (!n) return false; txlist_pop_back_tx(t); rdel(c, n - 1); break;
        case 6: txlist_clear_tx(t); while (nref[c]) rdel(c, 0); break;
        default: if (removed[c] < 0) return false; id = removed[c]; removed[c] = -1; txlist_insert_tx(t, &le[id], n ? &le[ref[c][n - 1]] : txlist_end_tx(t)); rput(c, n ? n - 1 : 0, id); break;
        }
        VP_ASSERT(own[c] == 2, "changes happen under the exclusive lock");
        break;
    case QUEUE:
        switch (o) {
        case 0: id = fresh(c); txqueue_push_tx(t, &qe[id]); rput(c, n, id); break;
        case 1: if (!n) return false; txqueue_pop_tx(t); VP_ASSERT(own[c] >= 1, "elements are popped under the lock"); rdel(c, 0); break;
        default: if (removed[c] < 0) return false; id = removed[c]; removed[c] = -1; txqueue_push_tx(t, &qe[id]); rput(c, n, id); break;
        }
        break;
    case STACK:
        switch (o) {
        case 0: id = fresh(c); txstack_push_tx(t, &se[id]); rput(c, n, id); break;
        case 1: if (!n) return false; txstack_pop_tx(t); rdel(c, n - 1); break;
        default: if (removed[c] < 0) return false; id = removed[c]; removed[c] = -1; txstack_push_tx(t, &se[id]); rput(c, n, id); break;
        }
        break;
    default:
        switch (o) {
        case 0: case 1: case 2: id = fresh(c); key[id] = o + 1; mput(c, t, id); break;
        case 3: case 4: case 5: {
            int at = o == 3 ? 0 : o == 4 ? n / 2 : n - 1;
            if (!n) return false;
            content(c, true);
            txmultiset_erase_tx(t, &me[id = seq[at]]);
            for (int i = 0; i < NE; ++i) if (i < nref[c] && ref[c][i] == id) { rdel(c, i); break; }
            break;
        }
        case 6: txmultiset_clear_tx(t); while (nref[c]) rdel(c, 0); break;
        default: if (removed[c] < 0) return false; id = removed[c]; removed[c] = -1; mput(c, t, id); break;
        }
        VP_ASSERT(own[c] == 2, "changes happen under the exclusive lock");
        break;
    }
    content(c, true);
    same(c, ref[c], nref[c]);
    content(c, false);
    if (KIND(c) == QUEUE || KIND(c) == STACK) {
        bool diff = nseq != ncom[c];
        for (int i = 0; i < NE; ++i) if (!diff && i < nseq && seq[i] != com[c][i]) diff = true;
        if (diff) VP_ASSERT(own[c] == 2, "changes happen under the exclusive lock");
    }
    return true;
}
static void query(int c)
{
    void* t = tx_of(c);
    int n = nref[c];
    content(c, true);
    switch (KIND(c)) {
    case LIST: {
        VP_ASSERT(txlist_size_tx(t) == n && txlist_empty_tx(t) == !n, "size and emptiness agree with the content");
        if (n) { VP_ASSERT(txlist_front_tx(t) == &le[seq[0]], "the front is the first entry"); VP_ASSERT(txlist_back_tx(t) == &le[seq[n - 1]], "the back is the last entry"); }
        struct txlist_entry* e = txlist_begin_tx(t);
        for (int i = 0; i < NE; ++i) if (i < n) { VP_ASSERT(e == &le[seq[i]], "iteration visits the content"); e = txlist_entry_next_tx(e); }
        VP_ASSERT(e == txlist_end_tx(t), "iteration ends at the end");
        for (int i = NE; i > 0; --i) if (i <= n) { e = txlist_entry_prev_tx(e); VP_ASSERT(e == &le[seq[i - 1]], "iteration visits the content"); }
        break;
    }
    case QUEUE:
        VP_ASSERT(txqueue_size_tx(t) == n && txqueue_empty_tx(t) == !n, "size and emptiness agree with the content");
        if (n) { VP_ASSERT(txqueue_front_tx(t) == &qe[seq[0]], "the front is the first entry"); VP_ASSERT(txqueue_back_tx(t) == &qe[seq[n - 1]], "the back is the last entry"); }
        break;
    case STACK:
        VP_ASSERT(txstack_size_tx(t) == n && txstack_empty_tx(t) == !n, "size and emptiness agree with the content");
        if (n) VP_ASSERT(txstack_top_tx(t) == &se[seq[n - 1]], "the top is the last entry");
        break;
    default: {
        VP_ASSERT(txmultiset_size_tx(t) == n && txmultiset_empty_tx(t) == !n, "size and emptiness agree with the content");
        struct txmultiset_entry* e = txmultiset_begin_tx(t), *end = txmultiset_end_tx(t);
        for (int i = 0; i < NE; ++i) if (i < n) { VP_ASSERT(e == &me[seq[i]], "iteration visits the content"); e = txmultiset_entry_next_tx(e); }
        VP_ASSERT(e == end, "iteration ends at the end");
        for (int k = 0; k <= 4; ++k) {
            int lo = -1, cnt = 0;
            for (int i = 0; i < NE; ++i) if (i < n && key[seq[i]] == k) { if (lo < 0) lo = i; ++cnt; }
            struct txmultiset_entry* f = txmultiset_find_tx(t, &k), *l = txmultiset_lower_bound_tx(t, &k), *u = txmultiset_upper_bound_tx(t, &k);
            VP_ASSERT(txmultiset_count_tx(t, &k) == cnt, "count agrees with the content");
            if (!cnt) { VP_ASSERT(f == end && l == end, "absent keys are not found"); VP_ASSERT(u == end || key[u - me] > k, "no bound inside of another range"); continue; }
            VP_ASSERT(f != end && key[f - me] == k, "an entry of the key is found");
            VP_ASSERT(l == &me[seq[lo]], "the lower bound is the first entry of the key");
            VP_ASSERT(u == (lo + cnt < n ? &me[seq[lo + cnt]] : end), "the upper bound follows the last entry of the key");
        }
        break;
    }
    }
    VP_ASSERT(own[c] >= 1 || KIND(c) == QUEUE || KIND(c) == STACK, "the content is read under the lock");
}
static unsigned n_uninit[2 * NE];
static void un_l(struct txlist_entry* e, void* d) { ++n_uninit[e - le]; txlist_entry_uninit(e); }
static void un_q(struct txqueue_entry* e, void* d) { ++n_uninit[e - qe]; txqueue_entry_uninit(e); }
static void un_s(struct txstack_entry* e, void* d) { ++n_uninit[e - se]; txstack_entry_uninit(e); }
static void un_m(struct txmultiset_entry* e, void* d) { ++n_uninit[e - me]; txmultiset_entry_uninit(e); }
/* ki: keys of the first entries, base 3 */
static void setup(int c, int n0, int ki)
{
    removed[c] = -1;
    txlist_state_init(&ls[c]); txqueue_state_init(&qs[c]); txstack_state_init(&ss[c]); txmultiset_state_init(&ms[c], key_of, cmp_of);
    for (int i = 0; i < NE; ++i) { txlist_entry_init(&le[X(c, i)]); txqueue_entry_init(&qe[X(c, i)]); txstack_entry_init(&se[X(c, i)]); txmultiset_entry_init(&me[X(c, i)]); }
    for (int i = 0; i < n0; ++i) {
        int id = fresh(c);
        switch (KIND(c)) {
        case LIST: txlist_state_insert(&ls[c], &le[id], txlist_state_end(&ls[c])); break;
        case QUEUE: txqueue_state_push_back(&qs[c], &qe[id]); break;
        case STACK: txstack_state_push(&ss[c], &se[id]); break;
        default: key[id] = ki % 3 + 1; ki /= 3; txmultiset_state_insert(&ms[c], &me[id]); break;
        }
        com[c][i] = ref[c][i] = id;
    }
    ncom[c] = nref[c] = n0;
    content(c, false);
    same(c, com[c], n0);
}
static void teardown(void)
{
    if (g_ops) { g_ops->release(g_data); VP_ASSERT(g_nfreed == g_npool, "all records are freed"); }
    for (int c = 0; c < 2; ++c) {
        switch (KIND(c)) {
        case LIST: txlist_state_clear_and_uninit_entries(&ls[c], un_l, NULL); txlist_state_uninit(&ls[c]); break;
        case QUEUE: txqueue_state_clear_and_uninit_entries(&qs[c], un_q, NULL); txqueue_state_uninit(&qs[c]); break;
        case STACK: txstack_state_clear_and_uninit_entries(&ss[c], un_s, NULL); txstack_state_uninit(&ss[c]); break;
        default: txmultiset_state_clear_and_uninit_entries(&ms[c], un_m, NULL); txmultiset_state_uninit(&ms[c]); break;
        }
        for (int i = 0; i < NE; ++i) {
            bool in = false;
            for (int j = 0; j < NE; ++j) if (j < ncom[c] && com[c][j] == X(c, i)) in = true;
            VP_ASSERT(n_uninit[X(c, i)] == in, "clearing hands out each entry once");
        }
    }
}
#ifndef N0
#define N0 2
#endif
#ifndef NK
#define NK 1   /* multisets: keys of the initial entries */
#endif
#ifndef OP1
#define OP1 0
#endif
#ifndef O3
#define O3(j) 1
#endif
#define NOPS(c) (KIND(c) == LIST ? 8 : KIND(c) == MULTI ? 8 : 3)
static void start(int n0, int ki) { setup(0, n0, ki); setup(1, KB == MULTI ? 0 : 1, 0); }
/* one container: one to three operations, commit or abort. The constants are chosen as late as possible, so that
 * histories share their beginning */
static void end_hist(void)
{
    query(0);
    if (vp_bool()) { end_tx(true); teardown(); VP_REACH("committed"); stop(); }
    end_tx(false); teardown(); VP_REACH("aborted"); stop();
}
VP_MAIN(h_hist)
{
    const int no = NOPS(0);
    int ki = vp_below(NK), o2 = vp_below(no + 1), o3 = vp_below(no + 1);
    for (int k = 0; k < NK; ++k)
        if (ki == k) {
            start(N0, k + NKBASE);
            if (!op(0, OP1)) stop();
            if (o2 == no) end_hist();
            for (int i = 0; i < no; ++i)
                if (O3(i) >= 0 && o2 == i) {
                    if (!op(0, i)) stop();
                    if (o3 == no) end_hist();
                    for (int j = 0; j < no; ++j) if (O3(j) > 0 && o3 == j) { if (!op(0, j)) stop(); end_hist(); }
                    stop();
                }
            stop();
        }
    stop();
}
/* two containers, two transactions, and a failure of every call that may fail */
VP_MAIN(h_fail)
{
    int s = vp_below(NF);
    for (int i = 0; i < NF; ++i)
        if (s == i) {
            start(N0, NKBASE);
            g_fail_at = i;
            op(0, OP1);
            query(0);
            op(1, 0);
            query(1);
            op(0, OP2);
            op(1, 1);
            end_tx(COMMIT1);
            op(1, OP3);
            op(0, 0);
            end_tx(!COMMIT1);
            teardown();
            VP_REACH("done");
            stop();
        }
}
