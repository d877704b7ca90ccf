// Queue, stack and existence set against their definitions, over every sequence of operations up to n steps. Macros: WHAT (1 queue, 2 stack, 3 existence set), WIDTH (set element width).
#include "common.hpp"
#ifndef WHAT
#define WHAT 1
#endif
#ifndef MAXN
#define MAXN 1024
#endif
#ifndef WIDTH
#define WIDTH char
#endif
struct val { uint32_t a; uint16_t b; bool operator==(const val& o) const { return (a == o.a) & (b == o.b); } };
#ifdef OWNING
// an element that owns memory and knows its own address: one that is lost, duplicated, copied bit by bit or used after its end is noticed
struct elem {
    uint32_t* a; uint16_t b; const elem* self;
    elem(uint32_t x, uint16_t y) : a(new uint32_t(x)), b(y), self(this) {}
    elem(const elem& o) : a(new uint32_t(o.key())), b(o.b), self(this) {}
    elem(elem&& o) noexcept : a(o.a), b(o.b), self(this) { (void)o.key(); o.a = nullptr; }
    elem& operator=(const elem& o) { const uint32_t x = o.key(); vp_assert(self == this, "an element is used that is not there"); if (!a) a = new uint32_t; *a = x; b = o.b; return *this; }
    elem& operator=(elem&& o) noexcept { (void)o.key(); vp_assert(self == this, "an element is used that is not there"); std::swap(a, o.a); b = o.b; return *this; }
    ~elem() { vp_assert(self == this, "an element was destroyed that is not there"); self = nullptr; delete a; }
    uint32_t key() const { vp_assert(self == this && a, "an element is used that is not there"); return *a; }
    bool operator==(const val& o) const { return (key() == o.a) & (b == o.b); }
};
#else
using elem = val;
#endif
// refuses what no computer could provide
struct bounded final : std::pmr::memory_resource {
    void* do_allocate(size_t n, size_t a) override { if (n > (size_t{1} << 20)) throw std::bad_alloc(); return std::pmr::new_delete_resource()->allocate(n, a); }
    void do_deallocate(void* p, size_t n, size_t a) override { std::pmr::new_delete_resource()->deallocate(p, n, a); }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
extern "C" void harness() {
    const unsigned steps = (unsigned)vp_param("n", 4);
#if WHAT == 1 || WHAT == 2
#if WHAT == 1
    using Q = chdr::queue<elem>;
#else
    using Q = chdr::stack<elem>;
#endif
    static val model[MAXN]; unsigned lo = 0, hi = 0;
    const unsigned pre = (unsigned)vp_param("prefill", 0); // reach block boundaries without exploring every shorter history
    static bounded own, other; const uint64_t live = vp_heap_live(); {
    Q q(&own);
    auto fresh = [&] { return val{vp_val<uint32_t>("value"), vp_val<uint16_t>("value")}; };
    auto check = [&](Q& x) {
        vp_assert(x.size() == hi - lo && x.empty() == (hi == lo), "size is wrong");
        if (hi > lo) {
#if WHAT == 1
            const val& want = model[lo];
#else
            const val& want = model[hi - 1];
#endif
            vp_assert(x.top() == want && x.front() == want, "the wrong element is next"); vp_assert(static_cast<const Q&>(x).top() == want && static_cast<const Q&>(x).front() == want, "the wrong element is next");
        }
        unsigned i = lo; bool same = true; for (const elem& v : static_cast<const Q&>(x)) { same &= v == model[i]; ++i; }
        vp_assert(same && i == hi, "iteration order is wrong");
        const auto forward = [&](auto from, auto to) { unsigned k = lo; bool ok = true; for (auto it = from; it != to && k < hi; ++it, ++k) ok &= *it == model[k]; vp_assert(ok && k == hi && size_t(to - from) == hi - lo, "iteration order is wrong"); };
        const auto backward = [&](auto from, auto to) { unsigned k = hi; bool ok = true; for (auto it = from; it != to && k > lo; ++it) ok &= *it == model[--k]; vp_assert(ok && k == lo && size_t(to - from) == hi - lo, "reverse iteration order is wrong"); };
        const Q& cx = x; forward(x.begin(), x.end()); forward(x.cbegin(), x.cend()); backward(x.rbegin(), x.rend()); backward(cx.rbegin(), cx.rend()); backward(x.crbegin(), x.crend());
    };
    const bool plain = vp_param("plain", 0); for (unsigned i = 0; i < pre; ++i) { const val v = plain ? val{i * 2654435761u, (uint16_t)(i * 3)} : fresh(); q.push(elem{v.a, v.b}); model[hi++] = v; }
    for (unsigned i = 0; i < steps; ++i) {
        switch (vp_pick("operation", 0, 5)) {
            case 0: { const val v = fresh(); const elem e{v.a, v.b}; q.push(e); model[hi++] = v; break; }
            case 1: { const val v = fresh(); elem e{v.a, v.b}; q.push(std::move(e)); model[hi++] = v; break; }
            case 2: { const val v = fresh();
#ifdef OWNING
                q.emplace(v.a, v.b);
#else
                q.emplace(v);
#endif
                model[hi++] = v; break; }
            case 3: if (hi > lo) { q.pop();
#if WHAT == 1
                ++lo;
#else
                --hi;
#endif
                vp_reach("popped"); } break;
            case 4: { Q c(q); check(c); if (hi > lo) { c.pop(); } c = q; check(c); Q m(std::move(c)); check(m); Q n; n = std::move(m); check(n); q = n; const Q& same = q; q = same;
                Q far(&other); far.push(elem{1, 2}); far = q; check(far); check(q); Q near(&own); near.push(elem{3, 4}); near = std::move(far); check(near); q = std::move(near); break; }
            default: q.clear(); lo = hi = 0; vp_reach("cleared");
        }
        check(q);
    }
    while (hi > lo) { q.pop();
#if WHAT == 1
        ++lo;
#else
        --hi;
#endif
        if (hi > lo && (!plain || (hi - lo) % (pre / 8 + 1) == 0)) check(q); }
    vp_assert(q.empty(), "elements are left over"); vp_reach("done"); }
    vp_assert(vp_heap_live() == live, "memory is left behind");
#else
    using S = chdr::existence_set<WIDTH>;
    static bounded own, other; const uint64_t live = vp_heap_live(); {
    S s((size_t)vp_param("capacity", 0), &own); static bool model[MAXN]; const unsigned fill = (unsigned)vp_param("fill", 0), top = (unsigned)vp_param("top", 16); for (bool& b : model) b = false;
    for (unsigned i = 0; i < fill; ++i) if (i % 3 != 1) { s.push((size_t)i); model[i] = true; }
    const unsigned range = (unsigned)vp_param("range", 5);
    auto check = [&](const S& x) {
        bool same = true; for (unsigned i = 0; i < top; ++i) same &= x.contains(i) == model[i]; vp_assert(same, "membership is wrong");
        size_t i = 0; bool ok = true; for (auto it = x.begin(); it != x.end(); ++it, ++i) if (i < top) ok &= static_cast<bool>(*it) == model[i];
        S& y = const_cast<S&>(x); size_t k = x.size(); const auto back = [&](auto from, auto to) { for (auto it = from; it != to; ++it, --k) if (k && k <= top) ok &= static_cast<bool>(*it) == model[k - 1]; ok &= k == 0; k = x.size(); };
        back(x.rbegin(), x.rend()); back(y.rbegin(), y.rend()); back(x.crbegin(), x.crend());
        i = 0; for (auto it = y.begin(); it != y.end(); ++it, ++i) if (i < top) ok &= static_cast<bool>(*it) == model[i]; ok &= i == x.size(); i = 0; for (auto it = x.cbegin(); it != x.cend(); ++it, ++i) if (i < top) ok &= static_cast<bool>(*it) == model[i];
        vp_assert(ok && i == x.size() && x.empty() == (i == 0) && x.capacity() >= i, "iteration disagrees with membership");
    };
    for (unsigned i = 0; i < steps; ++i) {
        static const unsigned spread[] = {0, 8, 63, 64, 127, 128, 255, 256, 299, 511, 1024, 4095, 4096, 32767, 65535, 65536, 65600}; const size_t h = vp_param("spread", 0) ? spread[vp_pick("hash", 0, vp_param("spread", 0) == 1 ? 8 : 16)] : vp_pick("hash", 0, range - 1);
        switch (vp_pick("operation", 0, vp_param("ops", 5))) {
            case 0: s.push(h); model[h] = true; break;
            case 1: s.emplace((unsigned)h); model[h] = true; break;
            case 2: s.erase(h); model[h] = false; break;
            case 3: s.trim(); { bool any = false; for (bool b : model) any |= b; vp_assert(s.empty() == !any, "trim keeps absent trailing elements"); vp_assert(!any || model[s.size() - 1], "trim keeps absent trailing elements"); } vp_reach("trimmed"); break;
            case 4: s.clear(); for (bool& b : model) b = false; break;
            case 6: s.push((int)h); model[h] = true; s.push((unsigned short)(h + 1)); model[h + 1] = true; s.emplace((int)h); break;
            case 7: s.erase(vp_range("far", top, ~0ull)); break; // never inserted
            case 8: { const bool on = vp_pick("on", 0, 1); const size_t was = s.size(); s.resize(h, (WIDTH)on); for (size_t k = h; k < top; ++k) model[k] = false; if (on) for (size_t k = was; k < h; ++k) model[k] = true; vp_assert(s.size() == h, "resize does not give the size asked for"); break; }
            case 9: { const size_t far = vp_range("far", 1ull << 24, ~0ull); bool refused = false; const bool k = vp_pick("kind", 0, 1); // more memory than there is
                try { if (k) s.emplace((int64_t)far); else s.push(far); } catch (const std::exception&) { refused = true; vp_reach("refused"); } vp_assert(refused && !s.contains(far), "an impossible element was not refused"); check(s); break; }
            default: { s.allocate(h, 3); S c(s); check(c); S d; d = s; check(d); S m(std::move(c)); check(m); S o(4, &other); o.push((size_t)2); o = m; check(o); check(m); S p((size_t)1, &own); p = std::move(o); check(p); m = std::move(p); s = std::move(m); s.shrink_to_fit(); s.reserve(h + 1); break; }
        }
    }
    check(s); { const size_t far = vp_range("far", top, ~0ull); vp_assert(!s.contains(far), "an element never inserted is contained"); } vp_reach("done"); }
    vp_assert(vp_heap_live() == live, "memory is left behind");
#endif
}
