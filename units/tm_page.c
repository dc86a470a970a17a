/* Contracts of page.c / frame.c: one page over one 8-byte frame, every flag, bit mask, lock status and content. */
#include "vp.h"
#include "src/picotm-error.c"
#include "src/picotm-lib-rwstate.c"
#include "modules/tm/src/frame.c"
#include "modules/tm/src/page.c"

static uint8_t mem_[24] __attribute__((aligned(8)));
#define MEM (mem_ + 8)
static uint8_t m0[24], f0[8];
static struct tm_frame frame;
static struct tm_page pg, pg0;
static struct picotm_error err;
static size_t g_base;
static unsigned g_lock, g_unlocks;
static bool g_conflict, g_nofail;

struct tm_frame* tm_vmem_acquire_frame_by_block(struct tm_vmem* v, size_t block_index, struct picotm_error* e)
{
    VP_ASSERT(block_index == g_base, "a page only accesses its own frame");
    if (vp_bool() && !g_nofail) { picotm_error_set_error_code(e, PICOTM_OUT_OF_MEMORY); return NULL; }
    return &frame;
}
struct tm_frame* tm_vmem_acquire_frame_by_address(struct tm_vmem* v, uintptr_t addr, struct picotm_error* e)
{
    return tm_vmem_acquire_frame_by_block(v, addr / 8, e);
}
void tm_vmem_release_frame(struct tm_vmem* v, struct tm_frame* f) { }
void picotm_rwlock_init(struct picotm_rwlock* l) { }
void picotm_rwlock_uninit(struct picotm_rwlock* l) { }
void picotm_rwlock_try_rdlock(struct picotm_rwlock* l, struct picotm_error* e)
{
    VP_ASSERT(l == &frame.rwlock && g_lock == 0, "a block is read-locked at most once");
    if (vp_bool()) { g_conflict = true; picotm_error_set_conflicting(e, l); return; }
    g_lock = 1;
}
void picotm_rwlock_try_wrlock(struct picotm_rwlock* l, bool upgrade, struct picotm_error* e)
{
    VP_ASSERT(l == &frame.rwlock && g_lock != 2, "a block is write-locked at most once");
    VP_ASSERT(upgrade == (g_lock == 1), "the upgrade flag says whether the reader lock is held");
    if (vp_bool()) { g_conflict = true; picotm_error_set_conflicting(e, l); return; }
    g_lock = 2;
}
void picotm_rwlock_unlock(struct picotm_rwlock* l)
{
    VP_ASSERT(l == &frame.rwlock && g_lock != 0, "only a held lock is released");
    g_lock = 0; g_unlocks++;
}

static void setup(void)
{
    g_base = (uintptr_t)MEM / 8;
    err = (struct picotm_error)PICOTM_ERROR_INITIALIZER;
    tm_frame_init(&frame, g_base);
    pg.flags = vp_u64(); pg.buf_bits = vp_u8(); pg.rwstate.status = vp_u8(); /* left-overs of an earlier use */
    tm_page_init(&pg, g_base);
    VP_ASSERT(tm_page_block_index(&pg) == g_base && !(pg.flags & 7) && !pg.buf_bits && !tm_page_has_locked_frame(&pg),
              "a new page is unlocked, empty and carries no flags of an earlier use");
    VP_ASSERT(tm_page_address(&pg) == (uintptr_t)MEM && tm_frame_address(&frame) == (uintptr_t)MEM
              && tm_frame_buffer(&frame) == (void*)MEM && tm_frame_flags(&frame) == 0
              && tm_frame_block_index(&frame) == g_base, "page and frame of a block address the block's memory");
    pg.flags |= vp_below(4);
    pg.rwstate.status = g_lock = vp_below(3);
    pg.buf_bits = vp_u8();
    vp_fill(pg.buf, 8); vp_fill(mem_, 24);
    memcpy(m0, mem_, 24); memcpy(f0, pg.buf, 8);
    pg0 = pg;
}
static bool frame_ok(void) /* what no data operation may change */
{
    bool ok = pg.flags == pg0.flags && pg.rwstate.status == pg0.rwstate.status && pg.list.next == pg0.list.next
              && frame.flags == g_base << 3;
    for (int i = 0; i < 8; ++i) ok = ok && mem_[i] == m0[i] && mem_[16 + i] == m0[16 + i];
    return ok && g_unlocks == 0 && g_lock == pg.rwstate.status;
}
static bool same_mem(void) { bool ok = true; for (int i = 0; i < 8; ++i) ok = ok && MEM[i] == m0[8 + i]; return ok; }
static bool same_buf(void) { bool ok = pg.buf_bits == pg0.buf_bits; for (int i = 0; i < 8; ++i) ok = ok && pg.buf[i] == f0[i]; return ok; }
static bool failed(void)
{
    if (!picotm_error_is_set(&err)) return false;
    VP_ASSERT(same_mem() && same_buf() && frame_ok(), "a failed page operation changes nothing");
    return true;
}

void h_ld(void)
{
    setup();
    unsigned long bits = vp_u8();
    tm_page_ld(&pg, bits, NULL, &err);
    if (failed()) { VP_ASSERT(err.is_non_recoverable, "a lost frame is non-recoverable"); VP_REACH("err"); return; }
    bool ok = pg.buf_bits == (pg0.buf_bits | bits);
    for (int i = 0; i < 8; ++i)
        ok = ok && pg.buf[i] == ((((bits & ~pg0.buf_bits) >> i) & 1) ? MEM[i] : f0[i]);
    VP_ASSERT(ok, "loading copies exactly the requested bytes that are not buffered yet");
    VP_ASSERT(frame_ok() && same_mem(), "loading changes nothing but the page's buffer");
    VP_REACH("ok");
}
void h_st(void)
{
    setup();
    unsigned long bits = vp_u8();
    tm_page_st(&pg, bits, NULL, &err);
    if (failed()) { VP_ASSERT(err.is_non_recoverable, "a lost frame is non-recoverable"); VP_REACH("err"); return; }
    bool ok = true;
    for (int i = 0; i < 8; ++i)
        ok = ok && MEM[i] == ((((bits & pg0.buf_bits) >> i) & 1) ? f0[i] : m0[8 + i]);
    VP_ASSERT(ok, "storing writes exactly the requested buffered bytes to memory");
    VP_ASSERT(frame_ok() && same_buf(), "storing changes nothing but the block's memory");
    VP_REACH("ok");
}
void h_xchg(void)
{
    setup();
    unsigned long bits = vp_u8();
    tm_page_xchg(&pg, bits, NULL, &err);
    if (failed()) { VP_ASSERT(err.is_non_recoverable, "a lost frame is non-recoverable"); VP_REACH("err"); return; }
    bool ok = true;
    for (int i = 0; i < 8; ++i) {
        bool s = ((bits & pg0.buf_bits) >> i) & 1;
        ok = ok && MEM[i] == (s ? f0[i] : m0[8 + i]) && pg.buf[i] == (s ? m0[8 + i] : f0[i]);
    }
    VP_ASSERT(ok, "exchanging swaps exactly the requested buffered bytes with memory");
    VP_ASSERT(frame_ok() && pg.buf_bits == pg0.buf_bits, "exchanging changes nothing else");
    VP_REACH("ok");
}
void h_ld_c(void)
{
    setup();
    unsigned long bits = vp_u8();
    int c = vp_int();
    bool found = tm_page_ld_c(&pg, bits, c, NULL, &err);
    if (failed()) { VP_ASSERT(err.is_non_recoverable, "a lost frame is non-recoverable"); VP_REACH("err"); return; }
    int k = 8; /* first requested byte whose current value is c */
    for (int i = 7; i >= 0; --i) {
        uint8_t cur = ((pg0.buf_bits >> i) & 1) && !(pg0.flags & TM_PAGE_FLAG_WRITE_THROUGH) ? f0[i] : MEM[i];
        if (((bits >> i) & 1) && cur == (unsigned char)c) k = i;
    }
    VP_ASSERT(found == (k < 8), "the terminator is found iff a requested byte holds it in the transaction's view");
    bool ok = true;
    for (int i = 0; i < 8; ++i) {
        bool was = (pg0.buf_bits >> i) & 1, is = (pg.buf_bits >> i) & 1, want = (bits >> i) & 1;
        if (was || !want) ok = ok && is == was && pg.buf[i] == f0[i];
        else if (i <= k) ok = ok && is && pg.buf[i] == MEM[i];
        else ok = ok && VP_IMPLIES(is, pg.buf[i] == MEM[i]);
    }
    VP_ASSERT(ok, "every requested byte up to the terminator is buffered with its original value");
    VP_ASSERT(frame_ok() && same_mem(), "searching changes nothing but the page's buffer");
    VP_REACH("ok");
}
void h_lock(void)
{
    setup();
    unsigned op = vp_below(2);
    if (op == 0) tm_page_try_rdlock_frame(&pg, NULL, &err);
    else tm_page_try_wrlock_frame(&pg, NULL, &err);
    VP_ASSERT(same_mem() && same_buf() && pg.flags == pg0.flags && g_unlocks == 0, "locking changes no data");
    VP_ASSERT(pg.rwstate.status == g_lock, "the page's lock status is what the frame's lock holds");
    unsigned want = op == 0 ? 1 : 2, old = pg0.rwstate.status;
    if (picotm_error_is_set(&err)) {
        VP_ASSERT(g_lock == old, "a failed attempt keeps the old lock");
        VP_ASSERT(VP_IMPLIES(g_conflict, picotm_error_is_conflicting(&err) && err.value.conflicting_lock == &frame.rwlock),
                  "a conflict names the lock");
        VP_REACH("fail");
    } else {
        VP_ASSERT(g_lock == (old > want ? old : want), "the lock is held in the requested or a stronger mode");
        VP_REACH("ok");
    }
}
void h_unlock(void)
{
    setup();
    g_nofail = true;
    tm_page_unlock_frame(&pg, NULL, &err);
    VP_ASSERT(!picotm_error_is_set(&err) && g_lock == 0 && pg.rwstate.status == PICOTM_RWSTATE_UNLOCKED
              && g_unlocks == (pg0.rwstate.status != 0), "unlocking releases the lock exactly once");
    VP_ASSERT(same_mem() && same_buf() && pg.flags == pg0.flags, "unlocking changes no data");
    VP_REACH("ok");
}
void h_query(void)
{
    setup();
    VP_ASSERT(tm_page_is_complete(&pg) == (pg.buf_bits == 0xff), "a page is complete iff all bytes are buffered");
    VP_ASSERT(tm_page_buffer(&pg) == ((pg.flags & TM_PAGE_FLAG_WRITE_THROUGH) ? (void*)MEM : (void*)pg.buf),
              "accesses go to memory iff the page is write-through, else to the buffer");
    VP_ASSERT(tm_page_has_locked_frame(&pg) == (g_lock != 0) && tm_page_has_rdlocked_frame(&pg) == (g_lock != 0)
              && tm_page_has_wrlocked_frame(&pg) == (g_lock == 2), "lock queries answer from the lock status");
    VP_ASSERT(same_mem() && same_buf() && frame_ok(), "queries change nothing");
    VP_REACH("ok");
}
