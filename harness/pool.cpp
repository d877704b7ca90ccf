// Memory pools against the contract of an allocator. Macros: POOLT (1 monotonic, 2 heterogeneous, 3 homogeneous), STACK, MAXHEAP.
// Every history of n operations: allocate (sizes and alignments picked), deallocate any live block, reset, release; optionally with the k-th heap request failing.
#include "common.hpp"
#include <new>
#ifndef POOLT
#define POOLT 1
#endif
#ifndef STACK
#define STACK 64
#endif
#ifndef MAXHEAP
#define MAXHEAP 256
#endif
#ifndef MAXSTACKALLOC
#define MAXSTACKALLOC std::numeric_limits<size_t>::max()
#endif
#if POOLT == 1
using pool = chdr::monotonic_pool<STACK, MAXSTACKALLOC, MAXHEAP>;
#elif POOLT == 2
using pool = chdr::heterogeneous_pool<STACK, MAXSTACKALLOC, MAXHEAP>;
#else
using pool = chdr::homogeneous_pool<STACK, MAXSTACKALLOC, MAXHEAP>;
#endif
struct live { uint8_t* p; size_t bytes, align; uint8_t mark; };
#ifndef MAXLIVE
#define MAXLIVE 128
#endif
static live L[MAXLIVE]; static unsigned nl;
static bool failing;
static void allocate(pool& a, size_t bytes, size_t align, unsigned i) {
    uint8_t* p = nullptr; bool threw = false;
    try { p = static_cast<uint8_t*>(a.allocate(bytes, align)); } catch (const std::bad_alloc&) { threw = true; }
    if (threw) { vp_assert(failing, "allocation failed although memory was available"); vp_reach("allocation failed"); return; }
    vp_assert(p != nullptr, "allocate returned null");
    vp_assert((reinterpret_cast<uintptr_t>(p) & (align - 1)) == 0, "allocate returned misaligned memory");
    for (unsigned k = 0; k < nl; ++k) vp_assert(p + bytes <= L[k].p || L[k].p + L[k].bytes <= p, "allocate returned memory that is still in use");
    p[0] = (uint8_t)(i + 1); p[bytes - 1] = (uint8_t)(i + 1); p[bytes / 2] = (uint8_t)(i + 1); // the whole block must be usable
    L[nl++] = live{p, bytes, align, (uint8_t)(i + 1)}; vp_reach("allocated");
}
static void intact() { for (unsigned k = 0; k < nl; ++k) vp_assert(L[k].p[0] == L[k].mark && L[k].p[L[k].bytes - 1] == L[k].mark && L[k].p[L[k].bytes / 2] == L[k].mark, "a live block was overwritten"); }
extern "C" void harness() {
    nl = 0; failing = false;
    static const size_t sizes[] = {1, 25, 40, 100, 64, 13, 256, 7}; static const size_t aligns[] = {1, 8, 16, 64, 2, 32, 4, 128};
    const unsigned steps = (unsigned)vp_param("n", 4), ns = (unsigned)vp_param("sizes", 4), na = (unsigned)vp_param("aligns", 4), ops = (unsigned)vp_param("ops", 3);
    const uint64_t before = vp_heap_live();
    const unsigned fail = (unsigned)vp_param("fail", 0); // 0: no failure; k: the failing request is one of the next k
#if POOLT == 3
    const size_t bytes = sizes[vp_pick("size", 0, ns - 1)], align = aligns[vp_pick("alignment", 0, na - 1)];
    vp_assume(bytes <= vp_param("width", 100));
#endif
    {
        pool a((size_t)vp_param("width", 100));
        if (fail) { failing = true; vp_fail_alloc((int64_t)vp_pick("failing", 0, fail - 1)); }
        // a fixed history of that many requests with every third block given back, deviating in one place
        const unsigned history = (unsigned)vp_param("history", 0), stride = (unsigned)vp_param("stride", 1); const unsigned odd = history ? (unsigned)vp_pick("deviation", 0, history / stride) * stride : 0;
        for (unsigned i = 0, r = 1; i < history; ++i) {
            if (i == odd) { const unsigned what = (unsigned)vp_pick("what", 0, 4); if (what == 0) { a.reset(); nl = 0; } else if (what == 1) { a.release(); nl = 0; } else if (what == 2) { while (nl > 1) { --nl; a.deallocate(L[nl].p, L[nl].bytes, L[nl].align); } }
#if POOLT == 3
                else allocate(a, bytes, align, i);
#else
                else allocate(a, what == 3 ? 300 : 3, what == 3 ? 64 : 1, i);
#endif
            }
            r = r * 1103515245u + 12345u;
            if (i % 3 == 2 && nl > 2) { const unsigned k = (r >> 16) % nl; a.deallocate(L[k].p, L[k].bytes, L[k].align); L[k] = L[--nl]; }
#if POOLT == 3
            allocate(a, bytes, align, i);
#else
            allocate(a, 1 + (r >> 18) % 90, size_t{1} << ((r >> 10) % 6), i);
#endif
            if (history < 200 || i % 16 == 0 || i == odd) intact();
        }
        for (unsigned i = 0; i < steps; ++i) {
            const unsigned op = (unsigned)vp_pick("operation", 0, ops);
            if (op == 0) {
#if POOLT == 3
                allocate(a, bytes, align, i);
#else
                const size_t bytes = sizes[vp_pick("size", 0, ns - 1)], align = aligns[vp_pick("alignment", 0, na - 1)];
                allocate(a, bytes, align, i);
#endif
            }
            else if (op == 1) { if (nl) { const unsigned k = (unsigned)vp_pick("block", 0, nl - 1); a.deallocate(L[k].p, L[k].bytes, L[k].align); L[k] = L[--nl]; vp_reach("deallocated"); } }
#if POOLT == 3
            else if (op == 4) { if (nl) { // a block given back serves the next request without asking for more memory
                const live l = L[--nl]; a.deallocate(l.p, l.bytes, l.align); const bool f = failing; failing = false; vp_fail_alloc(0); allocate(a, bytes, align, i); vp_fail_alloc(-1); failing = f; vp_reach("reused"); } }
#endif
            else if (op == 2) { a.reset(); nl = 0; vp_reach("reset"); }
            else { a.release(); nl = 0; vp_reach("released"); }
            intact();
        }
        if (vp_param("again", 0)) { a.reset(); nl = 0; // a pool that was reset serves as before
            for (unsigned i = 0; i < 3; ++i) {
#if POOLT == 3
                allocate(a, bytes, align, i);
#else
                allocate(a, sizes[i], aligns[(i + 1) % na], i);
#endif
            } intact(); }
        vp_assert(a.is_equal(a), "a pool equals itself");
        if (!fail) { // sizes no pool can satisfy are refused
#if POOLT != 3
            bool threw = false; try { (void)a.allocate(~size_t{0} - vp_pick("huge", 0, 1) * 100, 16); } catch (const std::bad_alloc&) { threw = true; } vp_assert(threw, "an impossible size was not refused"); intact();
#endif
            if (vp_param("move", 0)) { pool b(std::move(a)); nl = 0; vp_assert(!a.is_equal(b), "different pools compare equal");
                for (unsigned i = 0; i < 3; ++i) {
#if POOLT == 3
                    allocate(i & 1 ? a : b, bytes, align, i);
#else
                    allocate(i & 1 ? a : b, 24, 8, i);
#endif
                } intact();
                pool c((size_t)vp_param("width", 100)); nl = 0; // the target of an assignment has memory of its own to give up
                for (unsigned i = 0; i < 2; ++i) {
#if POOLT == 3
                    allocate(c, bytes, align, i);
#else
                    allocate(c, 100, 8, i);
#endif
                }
                nl = 0; c = std::move(b);
                for (unsigned i = 0; i < 3; ++i) {
#if POOLT == 3
                    allocate(i & 1 ? b : c, bytes, align, i);
#else
                    allocate(i & 1 ? b : c, 24, 8, i);
#endif
                } intact(); vp_reach("moved"); }
        }
        if (vp_param("recycle", 0)) { // releasing gives everything back
            a.release(); }
        vp_fail_alloc(-1);
    }
    vp_assert(vp_heap_live() == before, "the pool did not give back all of its memory"); vp_reach("done");
}
