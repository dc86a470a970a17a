/* Address arithmetic of the tm module, for every address and size: no loop, no bound. */
#include "vp.h"
#include "picotm/picotm-lib-ptr.h"
#include "modules/tm/src/block.h"
void h_block(void)
{
    uintptr_t a = vp_u64();
    VP_ASSERT(tm_block_index_at(a) == a >> 3, "a block is eight bytes");
    VP_ASSERT(picotm_address_floor(a, TM_BLOCK_SIZE) == (a & ~(uintptr_t)7), "an address is rounded down to its block");
    size_t al = 1ul << vp_below(64);
    VP_ASSERT(picotm_address_floor(a, al) == (a & ~(uintptr_t)(al - 1)), "rounding down is exact for every power of two");
    VP_REACH("block");
}
