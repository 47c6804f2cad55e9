// PROPERTY: C23
// TUS: src/pool_allocator.cpp
// Pool allocator: memory handed out is always disjoint from everything handed out before and not returned.
#include "vf.h"
#include "srtc/pool_allocator.h"
#include <new>
using namespace srtc;
using Impl = PoolAllocatorImpl;
namespace { alignas(Impl) char mem[sizeof(Impl)]; }
VF_HARNESS(page_is_sliced)
{
    // an empty pool: one page is taken, cut into disjoint, aligned items of at least the requested size
    const uint64_t want = vf_case(vf_range(1, 64, "want"), 1, 64);
    auto p = new (mem) Impl(want);
    uint8_t* items[80];
    unsigned n = 0;
    uint8_t* page = nullptr;
    while (n < 64) {
        auto q = (uint8_t*)p->allocate();
        vf_assert(q != nullptr, "allocation succeeds");
        if (n == 0) page = q;
        if (vf_mode()) vf_assert(vf_sameobj(q, page), "one page serves 64 items");
        for (uint64_t b = 0; b < want; b += want) { q[0] = (uint8_t)n; q[want - 1] = (uint8_t)n; }
        vf_assert(((uintptr_t)q & 7) == ((uintptr_t)page & 7), "items are equally aligned");
        items[n++] = q;
    }
    for (unsigned i = 0; i + 1 < 64; i++) {
        const uint8_t *a = items[i], *b = items[i + 1];
        vf_assert(a > b ? (uint64_t)(a - b) >= want + 8 : (uint64_t)(b - a) >= want + 8, "consecutive items do not overlap");
        vf_assert((items[0] > items[1]) == (a > b), "items are laid out in one direction");
        vf_assert(a[0] == (want == 1 ? (uint8_t)i : a[0]) && a[want - 1] == (uint8_t)i, "writing an item does not change another");
    }
    auto q = (uint8_t*)p->allocate();
    if (vf_mode()) vf_assert(!vf_sameobj(q, page), "a second page is taken when the first is used up");
    vf_assert(p->mPageList.size() == 2, "pages are remembered for release");
    for (unsigned i = 0; i < 64; i++) p->release(items[i]);
    p->release(q);
    p->~PoolAllocatorImpl();
    if (vf_mode()) vf_assert(!vf_live(page) && !vf_live(q), "all pages are released");
    vf_cover("end");
}
VF_HARNESS(allocate_pops_release_pushes)
{
    // arbitrary free list with at least two items in arbitrary positions of arbitrary blocks
    vf_unroll("round_item_size", 16);
    const uint64_t want = vf_range(1, 4096, "want");
    auto p = new (mem) Impl(want);
    const uint64_t sz = p->mItemSize;
    vf_assert(sz >= want + 8 && sz % 8 == 0, "item size");
    auto a = (uint8_t*)vf_any_bytes(sz);
    auto b = (uint8_t*)vf_any_bytes(sz);
    auto c = (uint8_t*)vf_any_bytes(sz); // allocated already
    using Item = Impl::Item;
    ((Item*)a)->next = (Item*)b;
    Item* rest = nullptr;
    ((Item*)b)->next = rest;
    p->mFreeList = (Item*)a;
    p->mAllocatedCount = 1;
    const uint64_t k = vf_range(0, 4095, "k");
    vf_assume(k < want);
    c[8 + k] = 0x5a;
    auto x = (uint8_t*)p->allocate();
    vf_assert(x == a + 8, "the first free item is handed out");
    vf_assert(p->mFreeList == (Item*)b && ((Item*)b)->next == rest, "and leaves the free list");
    for (int i = 0; i < 1; i++) x[k] = 0x77;
    vf_assert(c[8 + k] == 0x5a && p->mFreeList == (Item*)b && ((Item*)b)->next == rest, "using the item touches nothing else");
    p->release(c + 8);
    vf_assert(x[k] == 0x77, "releasing another item does not touch this one");
    vf_assert(p->mFreeList == (Item*)c && ((Item*)c)->next == (Item*)b, "a released item becomes the first free one");
    auto y = (uint8_t*)p->allocate();
    vf_assert(y == c + 8 && y != x, "a released item can be handed out again");
    p->release(nullptr);
    vf_assert(p->mFreeList == (Item*)b, "releasing null does nothing");
    auto z = (uint8_t*)p->allocate();
    vf_assert(z == b + 8 && p->mFreeList == nullptr, "down to the last free item");
    p->mAllocatedCount = 0;
    vf_cover("end");
}
