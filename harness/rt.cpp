// Library routines that libstdc++ keeps in its binary: compiled to IR and linked to every harness for the executor.
// (Not used by the native replay, which links the real libstdc++.)
#include <memory_resource>
#include <new>
#include <cstddef>
#include <cstdint>
#include <bits/stl_tree.h>
#include <bits/hashtable_policy.h>
#include <list>

namespace {
    struct nd_resource final : std::pmr::memory_resource {
        void* do_allocate(size_t n, size_t a) override { return a > 16 ? ::operator new(n, std::align_val_t(a)) : ::operator new(n); }
        void do_deallocate(void* p, size_t n, size_t a) override { if (a > 16) ::operator delete(p, n, std::align_val_t(a)); else ::operator delete(p, n); }
        bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
    };
    struct null_resource final : std::pmr::memory_resource {
        void* do_allocate(size_t, size_t) override { throw std::bad_alloc(); }
        void do_deallocate(void*, size_t, size_t) override {}
        bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
    };
    alignas(16) unsigned char nd_buf[sizeof(nd_resource)], null_buf[sizeof(null_resource)];
    std::pmr::memory_resource* dflt;
    nd_resource* nd() { static bool i = false; if (!i) { new (nd_buf) nd_resource; i = true; } return reinterpret_cast<nd_resource*>(nd_buf); }
}
namespace std::pmr {
    memory_resource* new_delete_resource() noexcept { return nd(); }
    memory_resource* null_memory_resource() noexcept { static bool i = false; if (!i) { new (null_buf) null_resource; i = true; } return reinterpret_cast<null_resource*>(null_buf); }
    memory_resource* get_default_resource() noexcept { return dflt ? dflt : nd(); }
    memory_resource* set_default_resource(memory_resource* r) noexcept { auto* o = get_default_resource(); dflt = r; return o; }
}

// ---- red-black tree (contract of libstdc++'s tree.cc) ----
namespace std {
    static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) noexcept {
        if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
        else { auto* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
        return x;
    }
    static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) noexcept {
        if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
        else if (x->_M_left) { auto* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
        else { auto* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
        return x;
    }
    _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x); }
    const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x)); }
    _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec(x); }
    const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec(const_cast<_Rb_tree_node_base*>(x)); }
    static void rotl(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
        auto* y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
        if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
        y->_M_left = x; x->_M_parent = y;
    }
    static void rotr(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
        auto* y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
        if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
        y->_M_right = x; x->_M_parent = y;
    }
    void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
        auto*& root = h._M_parent;
        x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_red;
        if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
        else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
        while (x != root && x->_M_parent->_M_color == _S_red) {
            auto* xpp = x->_M_parent->_M_parent;
            if (x->_M_parent == xpp->_M_left) {
                auto* y = xpp->_M_right;
                if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
                else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root); }
            } else {
                auto* y = xpp->_M_left;
                if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
                else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root); }
            }
        }
        root->_M_color = _S_black;
    }
    _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
        auto*& root = h._M_parent; auto*& leftmost = h._M_left; auto*& rightmost = h._M_right;
        auto* y = z; _Rb_tree_node_base* x = nullptr; _Rb_tree_node_base* xp = nullptr;
        if (!y->_M_left) x = y->_M_right;
        else if (!y->_M_right) x = y->_M_left;
        else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
        if (y != z) {
            z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
            if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
            else xp = y;
            if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
            y->_M_parent = z->_M_parent; auto c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c; y = z;
        } else {
            xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
            if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
            if (leftmost == z) { if (!z->_M_right) leftmost = z->_M_parent; else { auto* t = x; while (t->_M_left) t = t->_M_left; leftmost = t; } }
            if (rightmost == z) { if (!z->_M_left) rightmost = z->_M_parent; else { auto* t = x; while (t->_M_right) t = t->_M_right; rightmost = t; } }
        }
        if (y->_M_color != _S_red) {
            while (x != root && (!x || x->_M_color == _S_black)) {
                if (x == xp->_M_left) {
                    auto* w = xp->_M_right;
                    if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
                    if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                    else {
                        if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
                        w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break;
                    }
                } else {
                    auto* w = xp->_M_left;
                    if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
                    if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                    else {
                        if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
                        w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break;
                    }
                }
            }
            if (x) x->_M_color = _S_black;
        }
        return y;
    }
    // ---- hash table growth policy: same contract (next prime >= n), integer arithmetic, load factor 1 ----
    namespace __detail {
        static const size_t primes[] = {2,5,11,13,17,19,23,29,31,37,41,47,53,59,67,79,97,109,127,137,149,167,179,197,227,257,307,367,439,541,661,797,967,1193,1471,1801,2179,2617,3109,4177,8353,16741,33487,67021,134077,268087,536423,1073111,2146249};
        size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
            if (n < 2) { _M_next_resize = 1; return n ? n : 1; }
            size_t r = 4294967291ul; for (size_t p : primes) if (p >= n) { r = p; break; }
            _M_next_resize = r; return r;
        }
        std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
            if (ne + ni > _M_next_resize) {
                size_t mb = ne + ni; size_t lo = _M_next_resize ? 0 : 11; if (mb < lo) mb = lo;
                if (mb >= nb) { size_t a = mb + 1, b = nb * 2; return {true, _M_next_bkt(a > b ? a : b)}; }
                _M_next_resize = nb; return {false, 0};
            }
            return {false, 0};
        }
    }
    void __detail::_List_node_base::_M_hook(__detail::_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
    void __detail::_List_node_base::_M_unhook() noexcept { auto* n = _M_next; auto* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
    void __detail::_List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; auto* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
}

// ---- pool resource: served by its upstream, freed piecewise ----
namespace std::pmr {
    struct __pool_resource::_BigBlock { void* p; };
    struct __pool_resource::_Pool { void* p; };
    __pool_resource::__pool_resource(const pool_options& o, memory_resource* up) : _M_opts(o), _M_unpooled(up), _M_npools(0) {}
    __pool_resource::~__pool_resource() {}
    unsynchronized_pool_resource::unsynchronized_pool_resource(const pool_options& o, memory_resource* up) : _M_impl(o, up) {}
    unsynchronized_pool_resource::~unsynchronized_pool_resource() {}
    void unsynchronized_pool_resource::release() {}
    void* unsynchronized_pool_resource::do_allocate(size_t n, size_t a) { return upstream_resource()->allocate(n, a); }
    void unsynchronized_pool_resource::do_deallocate(void* p, size_t n, size_t a) { upstream_resource()->deallocate(p, n, a); }
}

// ---- initialisation of local statics (one thread) ----
extern "C" {
    int __cxa_guard_acquire(uint64_t* g) { return *reinterpret_cast<char*>(g) == 0; }
    void __cxa_guard_release(uint64_t* g) { *reinterpret_cast<char*>(g) = 1; }
    void __cxa_guard_abort(uint64_t*) {}
}
