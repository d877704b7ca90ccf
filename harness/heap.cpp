// Priority queue against its definition. Macros: KH (children per node), MODE, CMP (less/greater).
#include "common.hpp"
#ifndef KH
#define KH 2
#endif
#ifndef MODE
#define MODE 1
#endif
#ifdef OWNING
// an element that owns memory and knows its own address: one that is lost, duplicated or copied bit by bit is noticed
struct item {
    uint8_t key = 0; uint16_t id = 0xFFFF; uint32_t* own = nullptr; const item* self = this;
    item() = default; item(uint8_t k, uint16_t i) : key(k), id(i), own(new uint32_t(i)) {}
    item(const item& o) : key(o.key), id(o.id), own(o.own ? new uint32_t(*o.own) : nullptr) { vp_assert(o.self == &o, "an element is used that is not there"); }
    item(item&& o) noexcept : key(o.key), id(o.id), own(o.own) { vp_assert(o.self == &o, "an element is used that is not there"); o.own = nullptr; }
    item& operator=(const item& o) { vp_assert(self == this && o.self == &o, "an element is used that is not there"); if (this != &o) { delete own; own = o.own ? new uint32_t(*o.own) : nullptr; key = o.key; id = o.id; } return *this; }
    item& operator=(item&& o) noexcept { vp_assert(self == this && o.self == &o, "an element is used that is not there"); std::swap(own, o.own); key = o.key; id = o.id; return *this; }
    ~item() { vp_assert(self == this, "an element was destroyed that is not there"); self = nullptr; delete own; }
    bool operator==(const item& o) const { vp_assert(self == this && o.self == &o && own && o.own && *own == id && *o.own == o.id, "an element lost its contents"); return id == o.id; }
};
#else
struct item { uint8_t key; uint16_t id; bool operator==(const item& o) const { return id == o.id; } };
#endif
#ifdef GREATER
struct cmp { bool operator()(const item& a, const item& b) const { return a.key > b.key; } };
#else
struct cmp { bool operator()(const item& a, const item& b) const { return a.key < b.key; } };
#endif
using V = std::pmr::vector<item>;
using H = chdr::heap<item, cmp, V, KH>;
static unsigned N, total = 16;
static bool later(uint8_t a, uint8_t b) { return cmp()(item{b, 0}, item{a, 0}); } // b may not come before a: a has strictly more priority
#ifndef MAXN
#define MAXN 512
#endif
static constexpr unsigned MAX = MAXN; static unsigned held[256]; // how many elements have each key, when no key is symbolic
static uint8_t key[MAX]; struct ids { bool has[MAX]; unsigned count; void add(unsigned i); void drop(unsigned i); }; static ids in; static bool tally; // keys by id; ids expected in the heap
void ids::add(unsigned i) { has[i] = true; ++count; if (tally) ++held[key[i]]; } void ids::drop(unsigned i) { has[i] = false; --count; if (tally) --held[key[i]]; }
static uint8_t fresh(unsigned id) { const unsigned nk = (unsigned)vp_param("keys", 0); return id < 64 && ((vp_param("sym", 0xFFFF) >> id) & 1u) ? nk ? (uint8_t)(vp_pick("key", 0, nk) * (255 / nk)) : vp_val<uint8_t>("key") : (uint8_t)(((id * vp_param("mul", 7) + 3) % vp_param("mod", 11)) * vp_param("by", 20)); } // symbolic, or a fixed spread
static void put(H& h, unsigned id, unsigned how) {
    key[id] = fresh(id); in.add(id); item it{key[id], (uint16_t)id};
    switch (how % 5) { case 0: h.push(it); break; case 1: h.emplace(it); break; case 2: h.enqueue(static_cast<const item&>(it)); break; case 3: h.push(std::move(it)); break; default: h.insert(&it, &it + 1); }
}
static void expect_top(H& h) { // the top has no less priority than anything stored
    vp_assert(!h.empty() && h.size() == in.count, "size is wrong");
    const item t = h.top(); const unsigned id = (unsigned)vp_concretize(t.id);
    vp_assert(id < MAX && in.has[id < MAX ? id : 0], "the top is not an element that was stored"); vp_assert(t.key == key[id], "an element changed");
    bool best = true; if (tally) { for (unsigned k = 0; k < 256; ++k) if (held[k]) best &= !later((uint8_t)k, t.key); } else for (unsigned i = 0; i < total; ++i) if (in.has[i]) best &= !later(key[i], t.key);
    vp_assert(best, "the top is not the element of highest priority");
    vp_assert(h.front() == t, "front differs from top");
}
static void take(H& h, unsigned how) {
    expect_top(h); const unsigned id = (unsigned)vp_concretize(h.top().id);
    if (how & 1) { const item r = h.dequeue(); vp_assert(r.id == id && r.key == key[id], "dequeue returned something other than the top"); } else h.pop();
    in.drop(id);
}
static void drain(H& h, unsigned how) { while (in.count) { take(h, how); how >>= 1; } vp_assert(h.empty() && h.size() == 0, "elements are left over"); vp_reach("drained"); }
static unsigned where() { const unsigned far = (unsigned)vp_param("stride", 1); return (unsigned)vp_pick("position", 0, (N - 1) / far) * far; } // any position, or every stride-th
static void any_order() { // erase any range of positions; or insert at any position
    H h; for (unsigned i = 0; i < N; ++i) put(h, i, 0);
    if (vp_param("range", 1)) {
        const unsigned a = (unsigned)vp_pick("from", 0, N), b = (unsigned)vp_pick("to", a, N);
        for (unsigned i = a; i < b; ++i) in.drop((unsigned)vp_concretize(h[i].id));
        h.erase(h.begin() + a, h.begin() + b); vp_reach("erased a range");
    } else {
        const unsigned at = (unsigned)vp_pick("position", 0, N); key[N] = fresh(N); in.add(N); item it{key[N], (uint16_t)N};
        const auto where = vp_param("move", 0) ? h.insert(h.begin() + at, std::move(it)) : h.insert(h.begin() + at, static_cast<const item&>(it));
        vp_assert(where - h.begin() >= 0 && where - h.begin() <= (long)N && where->id == N && where->key == key[N], "insert returned another element");
    }
    drain(h, 0x5);
}
static void body() {
    N = (unsigned)vp_param("n", 5); in = ids{}; tally = vp_param("tally", 0); for (unsigned& k : held) k = 0; total = N < 16 ? 16 : N;
#if MODE == 1   // insert, then remove everything
    H h; for (unsigned i = 0; i < N; ++i) put(h, i, i); drain(h, 0x15);
#elif MODE == 2 // build from a container (copied or moved)
    V v; for (unsigned i = 0; i < N; ++i) { key[i] = fresh(i); in.add(i); v.push_back(item{key[i], (uint16_t)i}); }
    if (vp_param("move", 0)) { H h(std::move(v)); drain(h, 0xA); } else { H h(static_cast<const V&>(v)); drain(h, 0x3); }
#elif MODE == 3 // remove any one element, by reference or position
    H h((size_t)N); for (unsigned i = 0; i < N; ++i) put(h, i, i);
    const unsigned at = (unsigned)where(); const unsigned id = (unsigned)vp_concretize(h[at].id);
    vp_assert(h.at(at) == h[at], "at differs from []");
    if (vp_param("iter", 0)) h.erase(h.begin() + at); else h.erase(h[at]);
    in.drop(id); vp_reach("erased"); drain(h, 0);
#elif MODE == 4 // change an element's key in place and restore the order, up or down
    H h; for (unsigned i = 0; i < N; ++i) put(h, i, 0);
    const unsigned at = (unsigned)where(); const unsigned id = (unsigned)vp_concretize(h[at].id);
    const unsigned nk = (unsigned)vp_param("newkeys", 0); const uint8_t k = nk ? (uint8_t)(vp_pick("newkey", 0, nk) * (255 / nk)) : vp_val<uint8_t>("newkey"); const bool up = vp_param("up", 1);
    vp_assume(up ? !later(key[id], k) : !later(k, key[id]));
    if (tally) { --held[key[id]]; ++held[k]; } key[id] = k; item& slot = *(h.begin() + at); slot.key = k;
    if (up) h.sort_up(slot); else h.sort_down(slot);
    vp_reach("reprioritised"); drain(h, 0);
#elif MODE == 5 // any interleaving of insertions and removals
    H h; unsigned id = 0; const unsigned steps = (unsigned)vp_param("n", 6);
    for (unsigned i = 0; i < steps; ++i) { if (in.count == 0 || vp_pick("insert", 0, 1)) put(h, id++, i); else take(h, i); }
    if (in.count) expect_top(h); vp_assert(h.size() == in.count && h.empty() == (in.count == 0), "size is wrong"); vp_reach("ran");
#elif MODE == 6 // copies, moves, swaps, clearing, reuse
    H h; for (unsigned i = 0; i < N; ++i) put(h, i, 0);
    static ids all; all = in;
    { H c(h); drain(c, 0); in = all; }
    { H c; H d; put(d, N < 16 ? 15 : 0, 0); in = ids{}; d = h; in = all; drain(d, 0); in = all; c = d; vp_assert(c.empty(), "copying an emptied heap"); }
    H m(std::move(h)); expect_top(m);
    H s; s.swap(m); vp_assert(m.empty(), "swap left elements behind"); expect_top(s);
    H t; t = std::move(s); expect_top(t); t.reserve(64); t.shrink_to_fit(); expect_top(t);
    static bool seen[MAX]; for (bool& b : seen) b = false; for (const item& it : static_cast<const H&>(t)) seen[vp_concretize(it.id)] = true; for (unsigned i = 0; i < N; ++i) vp_assert(seen[i], "iteration misses an element");
    { item& inside = *(t.begin() + (N - 1)); vp_assert(t.contains(inside), "contains misses a stored element"); }
    t.clear(); in = ids{}; vp_assert(t.empty() && t.size() == 0, "clear left elements"); for (unsigned i = 0; i < 3; ++i) put(t, i, i); drain(t, 1);
#elif MODE == 7 // appending without sorting, then sorting each element up, is an insertion; pop_back removes the last stored
    H h; for (unsigned i = 0; i < N; ++i) { key[i] = fresh(i); in.add(i); const item it{key[i], (uint16_t)i}; if (i & 1) h.emplace_nosort(it); else h.push_nosort(it); vp_assert(h.back() == it, "back is not the element appended last"); h.sort_up(h.back()); }
    const item b = h.back(); h.pop_back(); const unsigned id = (unsigned)vp_concretize(b.id); in.drop(id); drain(h, 0);
#elif MODE == 8
    any_order();
#elif MODE == 9 // a heap of pointers
    struct by { bool operator()(const item* a, const item* b) const { return cmp()(*a, *b); } }; using P = chdr::heap<item*, by, std::pmr::vector<item*>, KH>;
    static item all[MAX]; static bool left[MAX]; P h; for (unsigned i = 0; i < N; ++i) { all[i].key = fresh(i); all[i].id = (uint16_t)i; left[i] = true; h.push_nosort(&all[i]); vp_assert(h.back() == &all[i] && static_cast<const P&>(h).back() == &all[i], "back is not the element appended last"); h.sort_up(h.back()); }
    for (unsigned k = N; k > 0; --k) {
        item* t = (item*)vp_concretize((uint64_t)h.top()); unsigned id = MAX; for (unsigned i = 0; i < N; ++i) if (t == &all[i]) id = i;
        vp_assert(h.size() == k && id < MAX && left[id < MAX ? id : 0], "the top is not an element that was stored"); vp_assert(h.front() == t && static_cast<const P&>(h).top() == t && static_cast<const P&>(h).front() == t, "front differs from top");
        bool best = true; for (unsigned i = 0; i < N; ++i) if (left[i]) best &= !later(all[i].key, t->key); vp_assert(best, "the top is not the element of highest priority");
        left[id] = false; if (k & 1) h.pop(); else { item* const got = h.dequeue(); vp_assert(got == t, "dequeue returned something other than the top"); }
    }
    vp_assert(h.empty(), "elements are left over"); vp_reach("drained");
#endif
}
extern "C" void harness() { const uint64_t live = vp_heap_live(); body(); vp_assert(vp_heap_live() == live, "memory is left behind"); }
