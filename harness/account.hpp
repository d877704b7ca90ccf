// Memory resources that keep account of every block: who handed it out, how it was asked for, whether it is still in use.
#pragma once
#include "common.hpp"
struct block { void* owner; size_t slot, size, align; };            // precedes what is handed out
template <bool Reclaims> struct resource final : std::pmr::memory_resource {
    static constexpr size_t MAX = 16384; void* at[MAX]; size_t used = 0, live = 0, peak = 0;
    resource() = default; ~resource() override { reset(); }
    void* do_allocate(size_t n, size_t a) override {
        vp_assert(a != 0 && (a & (a - 1)) == 0 && a <= 32, "a block with an impossible alignment is requested");
        vp_assert(used < MAX, "more blocks are requested than expected");
        char* p = static_cast<char*>(::operator new(n + sizeof(block), std::align_val_t(32)));
        new (p) block{this, used, n, a}; at[used++] = p; if (++live > peak) peak = live; return p + sizeof(block);
    }
    void do_deallocate(void* p, size_t n, size_t a) override {
        if (!Reclaims) return;                                       // as any monotonic resource
        auto* b = reinterpret_cast<block*>(static_cast<char*>(p) - sizeof(block));
        vp_assert(b->owner == this, "a block is returned to another resource than it came from");
        vp_assert(b->size == n && b->align == a, "a block is returned with another size or alignment than requested");
        at[b->slot] = nullptr; --live; ::operator delete(static_cast<void*>(b), std::align_val_t(32));
    }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
    void reset() noexcept { for (size_t i = 0; i < used; ++i) if (at[i] != nullptr) ::operator delete(at[i], std::align_val_t(32)); used = live = 0; }
    void release() noexcept { reset(); }
};
template <typename maze_t, typename coord_t, typename W> struct rparams {
    using weight_type = W; using scalar_type = uint32_t; using index_type = uint32_t; using coord_type = coord_t;
    using lazy_sorting = std::bool_constant<LAZY>; using no_cleanup = std::bool_constant<NOCLEAN>;
    using reverse_equivalence = std::bool_constant<REV>; using octile_neighbours = std::bool_constant<OCT>;
    const maze_t& maze; coord_type start, end, size;
    scalar_type (*h)(const coord_type&, const coord_type&) noexcept;
    resource<false>* monotonic_pmr; resource<true>* heterogeneous_pmr; resource<true>* homogeneous_pmr;
    scalar_type weight = 1U; size_t capacity = 0U; size_t memory_limit = 90U;
};
