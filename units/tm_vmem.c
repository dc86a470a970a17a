/* Contracts of vmem_tx.c over the contracts of page.c (proved in tm_page.c), for one arbitrary tracked byte.
 *
 * The arena has NB blocks of 8 bytes; g_t is an arbitrary byte of it (a free constant, so every statement
 * about g_t holds for every byte). Ghost state of that byte: g_orig, its value when the transaction locked
 * the block; g_view, the value the transaction must observe (g_orig overlaid with its own stores).
 * Inv, assumed before and asserted after each operation:
 *   the active list is sorted by block without duplicates, a page's lock status is what the frame's lock
 *   holds, buffered bytes, write-through and discarded pages imply a lock, discarded pages a write lock; and
 *     - no write lock:             mem == g_orig == g_view; if buffered, buf == mem
 *     - write lock, buffered:      mem == g_orig, buf == g_view       (not buffered: mem == g_view == g_orig)
 *     - write lock, write-through: mem == g_view, buf == g_orig       (not buffered: mem == g_view == g_orig)
 * Environment: while a block is not locked by us, others may change it; the lock stubs havoc the byte when
 * its block is locked or unlocked. Locks, frames and page allocations may fail at any call.
 */
#include "vp.h"

#define malloc vp_malloc
#define free vp_free
#define memcpy vp_memcpy
static void* vp_malloc(size_t n);
static void vp_free(void* p);
static void* vp_memcpy(void* d, const void* s, size_t n);
#include <signal.h>
#define siginfo_t int /* shrinks struct picotm_error; the tm module never sets a siginfo_t */
#include "src/picotm-error.c"
#include "src/picotm-lib-rwstate.c"
#include "picotm/picotm-lib-ptr.h"
#undef picotm_containerof /* same function, in a form that keeps the verifier's points-to sets exact */
#define picotm_containerof(ptr, type, member) ((type*)vp_page_of_item(ptr))
static void* vp_page_of_item(const void* ptr);
#include "block.h"
static inline size_t vp_block_index_at(uintptr_t a) { return a >> 3; } /* equal: unit T01.block */
static inline uintptr_t vp_address_floor(uintptr_t a, size_t algn) { return a & ~(uintptr_t)(algn - 1); }
#define tm_block_index_at vp_block_index_at
#define picotm_address_floor vp_address_floor
#include "modules/tm/src/vmem_tx.c"
#undef tm_block_index_at
#undef picotm_address_floor
#undef malloc
#undef free
#undef memcpy

#ifndef NB
#define NB 3
#endif
#define N (NB * 8)
#define BL NB

/* The arena's address is a constant; memory and the pages' buffers are represented by MEM and BUF, which is
 * where the contract of tm_page_buffer() points callers to. */
static uint8_t ARENA[2 * N];
#define MEM ARENA
#define BUF (ARENA + N)
#define g_base ((uintptr_t)0x2000)
#ifndef NT
#define NT 1
#endif
static size_t g_ts[NT];            /* tracked bytes */
static uint8_t g_origs[NT], g_views[NT];
#define g_t g_ts[0]
#define g_orig g_origs[0]
#define g_view g_views[0]
#define g_tb (g_t >> 3)
#define g_ti (g_t & 7)
#define EACH_T(x) for (unsigned x = 0; x < NT; ++x)
#define TB(x) (g_ts[x] >> 3)
#define TI(x) (g_ts[x] & 7)
static unsigned char g_lock[NB], g_unlocked[NB];
static struct tm_vmem_tx tx;
static struct picotm_error err;
static bool g_no_fail;
#define UOFF 1
static uint8_t ubuf[N + 2];

static struct tm_page pgA, pgB, pgC, pgD, pool, sp0, sp1, sp2, sp3;
static struct tm_page* const pgs[] = { &pgA, &pgB, &pgC, &pgD };
static struct tm_page* const sps[] = { &sp0, &sp1, &sp2, &sp3 };
static unsigned g_nspare, g_nfreed;
static void* vp_page_of_item(const void* ptr)
{
    if (ptr == &pgA.list) return &pgA;
    if (NB > 1 && ptr == &pgB.list) return &pgB;
    if (NB > 2 && ptr == &pgC.list) return &pgC;
    if (ptr == &pool.list) return &pool;
    if (ptr == &sp0.list) return &sp0;
    if (NB > 1 && ptr == &sp1.list) return &sp1;
    if (NB > 2 && ptr == &sp2.list) return &sp2;
    VP_ASSERT(0, "list items are pages");
    return &pgA;
}
static void* vp_malloc(size_t n)
{
    VP_ASSERT(n == sizeof(struct tm_page), "a page allocation has the page's size");
    VP_ASSUME(g_nspare < NB);
    struct tm_page* p = sps[g_nspare++];
    if (vp_bool()) return NULL;
    p->flags = vp_u64(); p->buf_bits = vp_u8(); p->rwstate.status = vp_u8();
    return p;
}
static void vp_free(void* p) { g_nfreed++; }

static void havoc_block(size_t b)
{
    EACH_T(x) if (b == TB(x)) MEM[g_ts[x]] = g_origs[x] = g_views[x] = vp_u8();
}

/* ---- contracts of page.c (see tm_page.c) ---- */
void tm_page_init(struct tm_page* p, size_t block_index)
{
    p->flags = block_index << TM_BLOCK_SIZE_BITS;
    picotm_rwstate_init(&p->rwstate);
    p->buf_bits = 0;
    picotm_slist_init_item(&p->list);
}
void tm_page_uninit(struct tm_page* p) { }
bool tm_page_is_complete(const struct tm_page* p) { return p->buf_bits == 0xff; }
static bool pg_block(const struct tm_page* p, size_t* b)
{
    *b = tm_page_block_index(p) - g_base;
    bool ok = *b < NB;
    VP_ASSERT(ok, "only blocks of the accessed region are touched");
    return ok;
}
static size_t g_bufblk[2]; /* the blocks whose buffers were handed out last */
void* tm_page_buffer(struct tm_page* p)
{
    size_t b = tm_page_block_index(p) - g_base;
    VP_ASSERT(b < NB, "only blocks of the accessed region are touched");
    VP_ASSUME(b < NB);
    g_bufblk[0] = g_bufblk[1]; g_bufblk[1] = b;
    return ((p->flags & TM_PAGE_FLAG_WRITE_THROUGH) ? MEM : BUF) + b * 8;
}
static bool no_frame(struct picotm_error* e)
{
    if (g_no_fail || !vp_bool()) return false;
    picotm_error_set_error_code(e, PICOTM_OUT_OF_MEMORY);
    return true;
}
void tm_page_ld(struct tm_page* p, unsigned long bits, struct tm_vmem* v, struct picotm_error* e)
{
    size_t b;
    VP_ASSERT(bits <= 0xff, "bit masks cover one block");
    if (!pg_block(p, &b)) return;
    VP_ASSERT(g_lock[b] != 0, "memory is read only while its lock is held");
    if (no_frame(e)) { picotm_error_mark_as_non_recoverable(e); return; }
    EACH_T(x) if (b == TB(x) && ((bits & ~p->buf_bits) >> TI(x)) & 1) BUF[g_ts[x]] = MEM[g_ts[x]];
    p->buf_bits |= bits;
}
bool tm_page_ld_c(struct tm_page* p, unsigned long bits, int c, struct tm_vmem* v, struct picotm_error* e);
void tm_page_st(struct tm_page* p, unsigned long bits, struct tm_vmem* v, struct picotm_error* e)
{
    size_t b;
    VP_ASSERT(bits <= 0xff, "bit masks cover one block");
    if (!pg_block(p, &b)) return;
    VP_ASSERT(g_lock[b] == 2, "memory is written only while its write lock is held");
    if (no_frame(e)) { picotm_error_mark_as_non_recoverable(e); return; }
    EACH_T(x) if (b == TB(x) && ((bits & p->buf_bits) >> TI(x)) & 1) MEM[g_ts[x]] = BUF[g_ts[x]];
}
void tm_page_xchg(struct tm_page* p, unsigned long bits, struct tm_vmem* v, struct picotm_error* e)
{
    size_t b;
    VP_ASSERT(bits <= 0xff, "bit masks cover one block");
    if (!pg_block(p, &b)) return;
    VP_ASSERT(g_lock[b] == 2, "memory is written only while its write lock is held");
    if (no_frame(e)) { picotm_error_mark_as_non_recoverable(e); return; }
    EACH_T(x) if (b == TB(x) && ((bits & p->buf_bits) >> TI(x)) & 1) {
        uint8_t u = MEM[g_ts[x]]; MEM[g_ts[x]] = BUF[g_ts[x]]; BUF[g_ts[x]] = u;
    }
}
void tm_page_try_rdlock_frame(struct tm_page* p, struct tm_vmem* v, struct picotm_error* e)
{
    size_t b;
    if (!pg_block(p, &b) || no_frame(e) || p->rwstate.status) return;
    if (vp_bool()) { picotm_error_set_conflicting(e, NULL); return; }
    g_lock[b] = p->rwstate.status = 1;
    havoc_block(b);
}
void tm_page_try_wrlock_frame(struct tm_page* p, struct tm_vmem* v, struct picotm_error* e)
{
    size_t b;
    if (!pg_block(p, &b) || no_frame(e) || p->rwstate.status == 2) return;
    if (vp_bool()) { picotm_error_set_conflicting(e, NULL); return; }
    if (!g_lock[b]) havoc_block(b);
    g_lock[b] = p->rwstate.status = 2;
}
void tm_page_unlock_frame(struct tm_page* p, struct tm_vmem* v, struct picotm_error* e)
{
    size_t b;
    if (!pg_block(p, &b)) return;
    if (no_frame(e)) { picotm_error_mark_as_non_recoverable(e); return; }
    if (!p->rwstate.status) return;
    g_lock[b] = p->rwstate.status = 0;
    g_unlocked[b]++;
    havoc_block(b);
}

/* memcpy: copies n bytes; only the tracked one is represented. The other end of each copy is a page. */
static unsigned g_mode; /* 1 load, 2 store, 3 loadstore */
static size_t g_utrack; /* tracked index of the user buffer */
static size_t g_off, g_siz, g_soff;
static void* copy_track(void* d, const void* s, size_t n);
static void* vp_memcpy(void* d, const void* s, size_t n)
{
    VP_ASSERT(n <= 8, "a copy stays within a block");
    size_t i;
    if (g_mode == 1) {
        i = (uint8_t*)d - ubuf;
        VP_ASSERT(i >= UOFF && i + n <= UOFF + g_siz, "a load writes only the requested bytes");
    } else if (g_mode == 2) {
        i = (const uint8_t*)s - ubuf;
        VP_ASSERT(i >= UOFF && i + n <= UOFF + g_siz, "a store reads only the given bytes");
    } else {
        return copy_track(d, s, n);
    }
    i -= UOFF;
    if (i <= g_utrack && g_utrack < i + n) ((uint8_t*)d)[g_utrack - i] = ((const uint8_t*)s)[g_utrack - i];
    return d;
}

/* copy between two pages: the destination's tracked byte 0 gets its value from the source's tracked byte NT-1 */
static size_t blk_at(const uint8_t* p)
{
    size_t i = p - ARENA;
    VP_ASSERT(i < 2 * N, "a copy goes from page to page");
    VP_ASSUME(i < 2 * N);
    i = i < N ? i : i - N;
    VP_ASSERT(i >> 3 == g_bufblk[0] || i >> 3 == g_bufblk[1], "a copy goes from page to page");
    return i;
}
static bool g_covered;
static void* copy_track(void* d, const void* s, size_t n)
{
    size_t da = blk_at(d), sa = blk_at(s);
    VP_ASSERT((da & 7) + n <= 8 && (sa & 7) + n <= 8, "a copy stays within its blocks");
    if (da <= g_t && g_t < da + n) {
        size_t k = g_t - da;
        VP_ASSERT(sa + k == g_ts[NT - 1], "each byte is copied from its counterpart in the source");
        ((uint8_t*)d)[k] = ((const uint8_t*)s)[k];
        g_view = g_views[NT - 1];
        g_covered = true;
    } else if (da <= g_ts[NT - 1] && g_ts[NT - 1] < da + n) {
        VP_ASSERT(0, "the source is not modified");
    }
    return d;
}
static struct tm_page* page_of(size_t b)
{
    size_t n = 0;
    for (struct picotm_slist* i = tx.active_pages.next; i != &tx.active_pages && n < BL; i = i->next, ++n) {
        struct tm_page* p = tm_page_of_slist(i);
        if (tm_page_block_index(p) == g_base + b) return p;
    }
    return NULL;
}
static bool inv_page(const struct tm_page* p, size_t b)
{
    unsigned s = p ? p->rwstate.status : 0;
    bool ok = s == g_lock[b] && s <= 2;
    bool wt = p && (p->flags & TM_PAGE_FLAG_WRITE_THROUGH), disc = p && (p->flags & TM_PAGE_FLAG_DISCARDED);
    if (p && (p->flags & 4)) ok = false;
    if (p && !s && (p->buf_bits || wt || disc)) ok = false;
    if (disc && s != 2) ok = false;
    EACH_T(x) if (b == TB(x)) {
        uint8_t m = MEM[g_ts[x]], o = g_origs[x], v = g_views[x];
        bool bit = p && ((p->buf_bits >> TI(x)) & 1);
        uint8_t f = bit ? BUF[g_ts[x]] : 0;
        if (s != 2) ok = ok && m == o && o == v && VP_IMPLIES(bit, f == m);
        else if (!wt) ok = ok && m == o && (bit ? f == v : v == m);
        else ok = ok && m == v && (bit ? f == o : o == m);
    }
    return ok;
}
static bool inv_list(void)
{
    size_t last = g_base, n = 0;
    for (struct picotm_slist* i = tx.active_pages.next; i != &tx.active_pages; i = i->next) {
        if (n++ >= NB) return false;
        size_t k = tm_page_block_index(tm_page_of_slist(i));
        if (k < last || k >= g_base + NB) return false;
        last = k + 1;
    }
    return true;
}
static void check_inv(void)
{
    bool l = inv_list();
    VP_ASSERT(l, "the page list stays sorted and free of duplicates");
    bool ok = true;
    for (size_t b = 0; b < NB; ++b) ok = ok && inv_page(page_of(b), b);
    VP_ASSERT(ok, "memory, buffers and locks agree with the transaction's original and current values");
}
static bool pre_disc[NB], pre_page[NB];
static unsigned char pre_lock[NB];
static uint8_t pre_orig, pre_view;
static size_t pre_npages;
static void mk_state(void)
{
    err = (struct picotm_error)PICOTM_ERROR_INITIALIZER;
    tm_vmem_tx_init(&tx, (struct tm_vmem*)&err, 0);
    EACH_T(x) { g_ts[x] = vp_below(N);
#ifdef T0
        if (!x) g_ts[x] = T0;
#endif
        MEM[g_ts[x]] = vp_u8(); g_origs[x] = vp_u8(); g_views[x] = vp_u8(); }
    if (NT == 2) VP_ASSUME(g_ts[0] != g_ts[NT - 1]);
    struct picotm_slist* tail = &tx.active_pages;
    for (size_t b = 0; b < NB; ++b) {
        struct tm_page* p = NULL;
#ifdef PRES
        if ((PRES >> b) & 1) {
#else
        if (vp_bool()) {
#endif
            p = pgs[b];
            p->flags = ((g_base + b) << TM_BLOCK_SIZE_BITS) | vp_below(4);
            p->buf_bits = vp_u8();
            EACH_T(x) if (b == TB(x)) BUF[g_ts[x]] = vp_u8();
            g_lock[b] = p->rwstate.status = vp_below(3);
            p->list.next = &tx.active_pages;
            tail->next = &p->list;
            tail = &p->list;
            pre_npages++;
        }
        VP_ASSUME(inv_page(p, b));
        pre_page[b] = p != NULL; pre_disc[b] = p && (p->flags & TM_PAGE_FLAG_DISCARDED);
        pre_lock[b] = g_lock[b];
    }
    if (vp_bool()) { /* a recycled page with arbitrary left-overs */
        pool.flags = vp_u64(); pool.buf_bits = vp_u8(); pool.rwstate.status = vp_u8();
        tx.alloced_pages.next = &pool.list;
        pool.list.next = &tx.alloced_pages;
    }
    pre_orig = g_orig; pre_view = g_view;
}
static bool touches(size_t off, size_t siz, size_t b) { return siz && off < (b + 1) * 8 && b * 8 < off + siz; }
static bool in(size_t off, size_t siz) { return g_t >= off && g_t < off + siz; }
#define OK (!picotm_error_is_set(&err))
static void check_locks(size_t off, size_t siz, unsigned need)
{
    bool keep = true, leave = true, have = true, disc = false;
    for (size_t b = 0; b < NB; ++b) {
        keep = keep && g_lock[b] >= pre_lock[b] && !g_unlocked[b];
        if (!touches(off, siz, b)) leave = leave && g_lock[b] == pre_lock[b];
        else { have = have && g_lock[b] >= need; disc = disc || pre_disc[b]; }
    }
    VP_ASSERT(keep, "locks are kept until the transaction finishes");
    VP_ASSERT(leave, "blocks outside the accessed region are not locked");
    VP_ASSERT(VP_IMPLIES(OK, have), "every accessed block is locked in the required mode");
    VP_ASSERT(VP_IMPLIES(disc, !OK), "an access to discarded memory is reported");
}
static void region(void)
{
#ifdef OFF
    g_off = OFF; g_siz = vp_below(N + 1);
#else
    g_siz = vp_below(N + 1); g_off = vp_below(N);
#endif
    VP_ASSUME(g_off + g_siz <= N);
    g_utrack = g_t - g_off; /* meaningful only if g_t lies in the region */
    if (!in(g_off, g_siz)) g_utrack = ~(size_t)0;
}
#define ADDR(o) ((g_base << 3) + (o))

void h_ld(void)
{
    mk_state(); region(); g_mode = 1;
    tm_vmem_tx_ld(&tx, ADDR(g_off), ubuf + UOFF, g_siz, &err);
    check_inv(); check_locks(g_off, g_siz, 1);
    if (OK) {
        if (in(g_off, g_siz))
            VP_ASSERT(ubuf[UOFF + g_utrack] == g_view,
                      "a load returns the transaction's own latest store, else the memory's value");
        VP_REACH("load ok");
    } else VP_REACH("load error");
}
/* on an error a prefix of the blocks may have been stored already; the call is then repeated or undone */
static void stored(size_t off, size_t siz, uint8_t val)
{
    if (!in(off, siz)) return;
    if (OK) { g_view = val; return; }
    struct tm_page* p = page_of(g_tb);
    if (!p || g_lock[g_tb] != 2) return;
    bool wt = p->flags & TM_PAGE_FLAG_WRITE_THROUGH, bit = (p->buf_bits >> g_ti) & 1;
    uint8_t v = wt || !bit ? MEM[g_t] : BUF[g_t];
    if (v == val) g_view = val;
}
void h_st(void)
{
    mk_state(); region(); g_mode = 2;
    uint8_t val = vp_u8();
    if (in(g_off, g_siz)) ubuf[UOFF + g_utrack] = val;
    tm_vmem_tx_st(&tx, ADDR(g_off), ubuf + UOFF, g_siz, &err);
    stored(g_off, g_siz, val);
    check_inv(); check_locks(g_off, g_siz, 2);
    if (OK) VP_REACH("store ok"); else VP_REACH("store error");
}
void h_ldst(void)
{
    mk_state(); region(); g_mode = 3;
#ifdef SOFF
    g_soff = SOFF;
#else
    g_soff = vp_below(N);
#endif
    VP_ASSUME(g_soff + g_siz <= N);
    VP_ASSUME(g_off + g_siz <= g_soff || g_soff + g_siz <= g_off); /* like memcpy(): no overlap */
    size_t t = g_ts[NT - 1]; /* source byte */
    if (in(g_soff, g_siz)) VP_ASSUME(t == g_off + (g_t - g_soff));
    else VP_ASSUME(!(t >= g_off && t < g_off + g_siz) && !(t >= g_soff && t < g_soff + g_siz));
    tm_vmem_tx_ldst(&tx, ADDR(g_off), ADDR(g_soff), g_siz, &err);
    if (!g_covered) stored(g_soff, g_siz, g_views[NT - 1]);
    check_inv();
    bool keep = true, leave = true, have = true, disc = false;
    for (size_t b = 0; b < NB; ++b) {
        bool l = touches(g_off, g_siz, b), w = touches(g_soff, g_siz, b);
        keep = keep && g_lock[b] >= pre_lock[b] && !g_unlocked[b];
        if (!l && !w) leave = leave && g_lock[b] == pre_lock[b];
        else { have = have && g_lock[b] >= (w ? 2 : 1); disc = disc || pre_disc[b]; }
    }
    VP_ASSERT(keep, "locks are kept until the transaction finishes");
    VP_ASSERT(leave, "blocks outside the accessed region are not locked");
    VP_ASSERT(VP_IMPLIES(OK, have), "the source is locked for reading, the destination for writing");
    VP_ASSERT(VP_IMPLIES(disc, !OK), "an access to discarded memory is reported");
    if (OK) VP_REACH("loadstore ok"); else VP_REACH("loadstore error");
}
static void check_privatized(size_t off, size_t siz, unsigned long flags)
{
    bool mark = true;
    for (size_t b = 0; b < NB; ++b) {
        if (!touches(off, siz, b)) continue;
        struct tm_page* p = page_of(b);
        mark = mark && p && (p->flags & (flags ? TM_PAGE_FLAG_WRITE_THROUGH : TM_PAGE_FLAG_DISCARDED));
    }
    VP_ASSERT(mark, "a privatized block is accessed in place, a discarded one not at all, from then on");
    if (!in(off, siz) || !flags) return;
    struct tm_page* p = page_of(g_tb);
    VP_ASSERT(MEM[g_t] == g_view, "privatized memory shows the transaction's own earlier stores");
    if (flags & PICOTM_TM_PRIVATIZE_STORE)
        VP_ASSERT(p && ((p->buf_bits >> g_ti) & 1) && BUF[g_t] == g_orig,
                  "the original bytes of a region privatized for storing are saved");
}
void h_priv(void)
{
    mk_state(); region();
    unsigned long flags = vp_below(4);
    tm_vmem_tx_privatize(&tx, ADDR(g_off), g_siz, flags, &err);
    check_inv(); check_locks(g_off, g_siz, flags == PICOTM_TM_PRIVATIZE_LOAD ? 1 : 2);
    if (OK) { check_privatized(g_off, g_siz, flags); VP_REACH("privatize ok"); }
    else VP_REACH("privatize error");
}
/* privatize_c: the terminator's place g_end in the transaction's view is arbitrary, fixed in advance */
static size_t g_end;
static int g_c;
bool tm_page_ld_c(struct tm_page* p, unsigned long bits, int c, struct tm_vmem* v, struct picotm_error* e)
{
    size_t b;
    VP_ASSERT(c == g_c, "the region is searched for the given terminator");
    VP_ASSERT(bits && bits <= 0xff, "bit masks cover one block");
    if (!pg_block(p, &b)) return true;
    VP_ASSERT(g_lock[b] != 0, "memory is read only while its lock is held");
    if (no_frame(e)) { picotm_error_mark_as_non_recoverable(e); return false; }
    /* contract of tm_page_ld_c: all requested bytes up to the first terminator are buffered */
    unsigned long need = bits;
    bool found = b == g_end >> 3 && ((bits >> (g_end & 7)) & 1);
    if (found) need &= (2ul << (g_end & 7)) - 1;
    VP_ASSERT(VP_IMPLIES(bits & ~(0xfful << (g_off & 7)) & 0xff, b != g_off >> 3),
              "the search does not look at bytes before the region");
    unsigned long got = need | (vp_u8() & bits);
    if (b == g_tb && ((got & ~p->buf_bits) >> g_ti) & 1) BUF[g_t] = MEM[g_t];
    p->buf_bits |= got;
    return found;
}
bool tm_page_xchg_c(struct tm_page* p, unsigned long bits, int c, struct tm_vmem* v, struct picotm_error* e)
{
    VP_ASSERT(0, "bytes are exchanged independently of the terminator");
    return true;
}
void h_priv_c(void)
{
    mk_state();
    unsigned long flags = vp_below(4);
    g_off = vp_below(N); g_end = vp_below(N); g_c = vp_int();
    VP_ASSUME(g_off <= g_end);
    g_siz = g_end - g_off + 1;
    tm_vmem_tx_privatize_c(&tx, ADDR(g_off), g_c, flags, &err);
    check_inv(); check_locks(g_off, g_siz, flags == PICOTM_TM_PRIVATIZE_LOAD ? 1 : 2);
    if (OK) { check_privatized(g_off, g_siz, flags); VP_REACH("privatize_c ok"); }
    else VP_REACH("privatize_c error");
}
void h_apply(void)
{
    mk_state();
    tm_vmem_tx_apply(&tx, &err);
    bool locks = true;
    for (size_t b = 0; b < NB; ++b) locks = locks && g_lock[b] == pre_lock[b];
    VP_ASSERT(locks, "commit keeps the locks until finish");
    VP_ASSERT(inv_list(), "commit keeps the page list intact");
    if (pre_lock[g_tb] != 2) VP_ASSERT(MEM[g_t] == pre_orig, "commit leaves memory alone that was not stored to");
    if (OK) {
        if (!pre_disc[g_tb]) VP_ASSERT(MEM[g_t] == pre_view, "commit makes exactly the transaction's stores visible in memory");
        VP_REACH("apply ok");
    } else {
        VP_ASSERT(err.is_non_recoverable, "a failing commit is reported as non-recoverable");
        VP_REACH("apply error");
    }
}
void h_undo(void)
{
    mk_state();
    tm_vmem_tx_undo(&tx, &err);
    bool locks = true;
    for (size_t b = 0; b < NB; ++b) locks = locks && g_lock[b] == pre_lock[b];
    VP_ASSERT(locks, "abort keeps the locks until finish");
    VP_ASSERT(inv_list(), "abort keeps the page list intact");
    if (OK) {
        VP_ASSERT(MEM[g_t] == pre_orig, "abort leaves every byte as it was before the transaction");
        VP_REACH("undo ok");
    } else {
        VP_ASSERT(err.is_non_recoverable, "a failing rollback is reported as non-recoverable");
        VP_REACH("undo error");
    }
}
static size_t list_len(struct picotm_slist* h)
{
    size_t n = 0;
    for (struct picotm_slist* i = h->next; i != h && n <= NB; i = i->next) ++n;
    return n;
}
void h_finish(void)
{
    mk_state();
    uint8_t m0 = MEM[g_t];
    g_no_fail = true;
    size_t nfree = list_len(&tx.alloced_pages);
    tm_vmem_tx_finish(&tx, &err);
    VP_ASSERT(OK, "finish succeeds");
    bool none = true, once = true;
    for (size_t b = 0; b < NB; ++b) {
        none = none && g_lock[b] == 0;
        once = once && g_unlocked[b] == (pre_lock[b] != 0);
    }
    VP_ASSERT(none, "no lock is held after the transaction");
    VP_ASSERT(once, "each lock is released exactly once");
    VP_ASSERT(MEM[g_t] == (pre_lock[g_tb] ? g_view : m0), "memory is not written after its lock was released");
    VP_ASSERT(tx.active_pages.next == &tx.active_pages, "no page stays active after the transaction");
    VP_ASSERT(list_len(&tx.alloced_pages) == nfree + pre_npages, "pages are recycled, none is lost or duplicated");
    VP_REACH("finish");
}
void h_uninit(void)
{
    mk_state();
    size_t n = list_len(&tx.alloced_pages) + list_len(&tx.active_pages);
    tm_vmem_tx_uninit(&tx);
    VP_ASSERT(g_nfreed == n, "every page is freed exactly once when the thread ends");
    VP_REACH("uninit");
}
