// Native runtime for replays: reads the counterexample's values from VP_REPLAY ("name value" lines; "param:name value" for parameters).
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <map>
#include <fstream>
#include <new>
static std::map<std::string, uint64_t> vals; static std::map<std::string, int> cnt; static long live = 0; static long failAt = -1;
static bool counting = true;
struct Quiet { bool o; Quiet() : o(counting) { counting = false; } ~Quiet() { counting = o; } };
static bool shouldFail() { if (!counting || failAt < 0) return false; if (failAt == 0) { failAt = -1; return true; } --failAt; return false; }
extern "C" {
    uint64_t vp_sym(const char* name, unsigned bits) { Quiet q; std::string n = name; int k = cnt[n]++; if (k) n += "#" + std::to_string(k); auto it = vals.find(n); uint64_t v = it == vals.end() ? 0 : it->second; return bits >= 64 ? v : v & ((1ull << bits) - 1); }
    void vp_assume(bool c) { if (!c) { std::printf("ASSUME-FALSE\n"); std::fflush(stdout); std::_Exit(77); } }
    void vp_assert(bool c, const char* msg) { if (!c) { std::printf("ASSERT-FAILED: %s\n", msg); std::fflush(stdout); std::_Exit(1); } }
    uint64_t vp_concretize(uint64_t v) { return v; }
    uint64_t vp_select(uint64_t c, uint64_t a, uint64_t b) { return c ? a : b; }
    void vp_reach(const char*) {}
    void vp_note(const char* n, uint64_t v) { std::printf("note %s = %llu\n", n, (unsigned long long)v); }
    uint64_t vp_param(const char* n, uint64_t d) { Quiet q; auto it = vals.find(std::string("param:") + n); return it == vals.end() ? d : it->second; }
    uint64_t vp_heap_live() { return (uint64_t)live; }
    void vp_step_limit(uint64_t) {}
    void vp_fail_alloc(int64_t n) { failAt = n; }
    void vp_end() { std::printf("PATH-END\n"); std::fflush(stdout); std::_Exit(0); }
}
// Blocks sit at the least aligned address their request allows, hold junk, and remember how they were requested.
#include <cstring>
#include <unordered_map>
struct Rec { size_t n, a, off; bool counted; };
static std::unordered_map<void*, Rec>* recs() { static auto* m = [] { Quiet q; return new (std::malloc(sizeof(std::unordered_map<void*, Rec>))) std::unordered_map<void*, Rec>; }(); return m; }
static bool inside = false;
static void bad(const char* m) { std::printf("HEAP-MISUSE: %s\n", m); std::fflush(stdout); std::_Exit(1); }
static void* al(size_t n, size_t a, bool thr) {
    if (inside) return std::malloc(n ? n : 1);
    if (n > (1ul << 26) || shouldFail()) { if (thr) throw std::bad_alloc(); return nullptr; }
    char* p = nullptr; void* q = nullptr; if (posix_memalign(&q, 2 * a < 8 ? 8 : 2 * a, n + a + (n == 0))) q = nullptr;
    if (!q) { if (thr) throw std::bad_alloc(); return nullptr; }
    p = (char*)q + a; std::memset(p, 0xA5, n); if (counting) ++live;
    inside = true; (*recs())[p] = Rec{n, a, a, counting}; inside = false; return p; }
static void de(void* p, size_t n, size_t a) {
    if (inside) { std::free(p); return; } if (!p) return;
    inside = true; auto it = recs()->find(p); bool known = it != recs()->end(); Rec r{}; if (known) { r = it->second; recs()->erase(it); } inside = false;
    if (!known) bad("delete of something that is not a live block");
    if (n != (size_t)-1 && n != r.n) bad("delete with a size other than the one requested"); if (a != r.a) bad("delete with an alignment other than the one requested");
    if (r.counted) --live; std::free((char*)p - r.off); }
constexpr size_t NS = (size_t)-1;
void* operator new(size_t n) { return al(n, 16, true); } void* operator new[](size_t n) { return al(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return al(n, (size_t)a, true); } void* operator new[](size_t n, std::align_val_t a) { return al(n, (size_t)a, true); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return al(n, 16, false); } void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return al(n, (size_t)a, false); }
void operator delete(void* p) noexcept { de(p, NS, 16); } void operator delete[](void* p) noexcept { de(p, NS, 16); } void operator delete(void* p, size_t n) noexcept { de(p, n, 16); } void operator delete[](void* p, size_t n) noexcept { de(p, n, 16); }
void operator delete(void* p, std::align_val_t a) noexcept { de(p, NS, (size_t)a); } void operator delete(void* p, size_t n, std::align_val_t a) noexcept { de(p, n, (size_t)a); } void operator delete[](void* p, std::align_val_t a) noexcept { de(p, NS, (size_t)a); } void operator delete[](void* p, size_t n, std::align_val_t a) noexcept { de(p, n, (size_t)a); }
int main() {
    { Quiet q; if (const char* f = std::getenv("VP_REPLAY")) { std::ifstream in(f); std::string n; uint64_t v; while (in >> n) { if (n[0] == '#') { std::getline(in, n); continue; } if (in >> v) vals[n] = v; } } }
    try { harness(); } catch (...) { std::printf("UNCAUGHT-EXCEPTION\n"); std::fflush(stdout); std::_Exit(1); }
    std::printf("COMPLETED\n"); std::fflush(stdout); std::_Exit(0);
}
