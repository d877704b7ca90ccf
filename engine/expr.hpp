// Bit-vector expressions (hash-consed) and their translation to Z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <cassert>
#include <algorithm>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 s128;
typedef uint64_t u64;

enum Kind : uint8_t {
    K_Const, K_Var,
    K_Add, K_Sub, K_Mul, K_UDiv, K_SDiv, K_URem, K_SRem,
    K_And, K_Or, K_Xor, K_Shl, K_LShr, K_AShr,
    K_Eq, K_Ult, K_Ule, K_Slt, K_Sle,
    K_Ite, K_Concat, K_Extract, K_ZExt, K_SExt,
    // floating point on IEEE bit patterns (widths 32 / 64)
    K_FAdd, K_FSub, K_FMul, K_FDiv, K_FSqrt, K_FNeg, K_FAbs, K_FOeq, K_FOlt, K_FOle, K_FUno,
    K_FFloor, K_FCeil, K_FTrunc,
    K_FToSI, K_FToUI, K_SIToF, K_UIToF, K_FToF,
};

struct Expr {
    Kind k; uint16_t w; uint32_t id;
    const Expr *a, *b, *c;
    u128 v;                 // Const: value; Extract: low bit; Var: variable number
    mutable Z3_ast zbv = nullptr, zb = nullptr;
    mutable uint64_t stamp = 0; mutable u128 ev = 0; mutable uint64_t sst = 0; mutable const Expr* sv = nullptr;
    bool isC() const { return k == K_Const; }
};
typedef const Expr* E;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline s128 sextw(u128 v, unsigned w) {
    if (w >= 128) return (s128)v;
    u128 m = (u128)1 << (w - 1);
    return (s128)((v ^ m) - m);
}

struct EKey { Kind k; uint16_t w; E a, b, c; u128 v;
    bool operator==(const EKey& o) const { return k==o.k && w==o.w && a==o.a && b==o.b && c==o.c && v==o.v; } };
struct EHash { size_t operator()(const EKey& x) const {
    uint64_t h = x.k * 0x9E3779B97F4A7C15ull + x.w;
    auto mix = [&](uint64_t y) { h ^= y + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; };
    mix((uint64_t)(uintptr_t)x.a); mix((uint64_t)(uintptr_t)x.b); mix((uint64_t)(uintptr_t)x.c); mix((uint64_t)x.v); mix((uint64_t)(x.v >> 64));
    return h; } };

struct VarInfo { std::string name; unsigned w; Z3_ast z; };

struct ExprPool {
    std::unordered_map<EKey, E, EHash> tab;
    std::vector<VarInfo> vars;
    Z3_context ctx = nullptr;
    uint64_t evalStamp = 1;

    E raw(Kind k, unsigned w, E a = nullptr, E b = nullptr, E c = nullptr, u128 v = 0) {
        EKey key{k, (uint16_t)w, a, b, c, v};
        auto it = tab.find(key);
        if (it != tab.end()) return it->second;
        Expr* e = new Expr{k, (uint16_t)w, (uint32_t)tab.size(), a, b, c, v};
        tab.emplace(key, e);
        return e;
    }
    E cst(u128 v, unsigned w) { return raw(K_Const, w, 0, 0, 0, v & maskw(w)); }
    E var(const std::string& n, unsigned w) {
        Z3_ast z = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bv_sort(ctx, w));
        Z3_inc_ref(ctx, z);
        vars.push_back({n, w, z});
        return raw(K_Var, w, 0, 0, 0, vars.size() - 1);
    }

    // ---- floating-point helpers (concrete) ----
    static double f_of(u128 v, unsigned w) { if (w == 32) { float f; uint32_t x = (uint32_t)v; memcpy(&f, &x, 4); return f; } double d; u64 x = (u64)v; memcpy(&d, &x, 8); return d; }
    static u128 f_to(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } u64 x; memcpy(&x, &d, 8); return x; }

    static u128 fold(Kind k, unsigned w, unsigned aw, u128 x, u128 y) {
        u128 m = maskw(w);
        switch (k) {
            case K_Add: return (x + y) & m;
            case K_Sub: return (x - y) & m;
            case K_Mul: return (x * y) & m;
            case K_UDiv: return y == 0 ? m : (x / y) & m;
            case K_URem: return y == 0 ? x : (x % y) & m;
            case K_SDiv: { if (y == 0) return (sextw(x, w) < 0 ? 1 : m) & m; s128 a = sextw(x, w), b = sextw(y, w); return (b == -1) ? ((u128)0 - (u128)a) & m : (u128)(a / b) & m; }
            case K_SRem: { if (y == 0) return x; s128 a = sextw(x, w), b = sextw(y, w); return (b == -1) ? 0 : (u128)(a % b) & m; }
            case K_And: return x & y;
            case K_Or: return x | y;
            case K_Xor: return x ^ y;
            case K_Shl: return y >= w ? 0 : (x << (unsigned)y) & m;
            case K_LShr: return y >= w ? 0 : x >> (unsigned)y;
            case K_AShr: { s128 a = sextw(x, w); unsigned s = y >= w ? w - 1 : (unsigned)y; return (u128)(a >> s) & m; }
            case K_Eq: return x == y;
            case K_Ult: return x < y;
            case K_Ule: return x <= y;
            case K_Slt: return sextw(x, aw) < sextw(y, aw);
            case K_Sle: return sextw(x, aw) <= sextw(y, aw);
            case K_FAdd: if (w == 32) { return f_to((float)f_of(x,32) + (float)f_of(y,32), 32); } return f_to(f_of(x, w) + f_of(y, w), w);
            case K_FSub: if (w == 32) { return f_to((float)f_of(x,32) - (float)f_of(y,32), 32); } return f_to(f_of(x, w) - f_of(y, w), w);
            case K_FMul: if (w == 32) { return f_to((float)f_of(x,32) * (float)f_of(y,32), 32); } return f_to(f_of(x, w) * f_of(y, w), w);
            case K_FDiv: if (w == 32) { return f_to((float)f_of(x,32) / (float)f_of(y,32), 32); } return f_to(f_of(x, w) / f_of(y, w), w);
            case K_FSqrt: if (w == 32) return f_to(sqrtf((float)f_of(x,32)), 32); return f_to(std::sqrt(f_of(x, w)), w);
            case K_FNeg: return x ^ ((u128)1 << (w - 1));
            case K_FAbs: return x & ~((u128)1 << (w - 1)) & m;
            case K_FFloor: return f_to(std::floor(f_of(x, w)), w);
            case K_FCeil: return f_to(std::ceil(f_of(x, w)), w);
            case K_FTrunc: return f_to(std::trunc(f_of(x, w)), w);
            case K_FOeq: return f_of(x, aw) == f_of(y, aw);
            case K_FOlt: return f_of(x, aw) < f_of(y, aw);
            case K_FOle: return f_of(x, aw) <= f_of(y, aw);
            case K_FUno: return std::isnan(f_of(x, aw)) || std::isnan(f_of(y, aw));
            case K_FToSI: { double d = f_of(x, aw); if (std::isnan(d)) return 0; if (d >= std::ldexp(1.0, w - 1) || d < -std::ldexp(1.0, w - 1)) return (u128)1 << (w - 1); return (u128)(s128)d & m; }
            case K_FToUI: { double d = f_of(x, aw); if (std::isnan(d) || d <= -1.0 || d >= std::ldexp(1.0, w)) return m; return (u128)(d < 0 ? 0 : d) & m; }
            case K_SIToF: if (w == 32) return f_to((float)(int64_t)sextw(x, aw), 32); return f_to((double)(int64_t)sextw(x, aw), w);
            case K_UIToF: if (w == 32) return f_to((float)(u64)x, 32); return f_to((double)(u64)x, w);
            case K_FToF: return f_to(f_of(x, aw), w);
            default: assert(0 && "fold"); return 0;
        }
    }
    static bool isCmp(Kind k) { return (k >= K_Eq && k <= K_Sle) || (k >= K_FOeq && k <= K_FUno); }
    static bool comm(Kind k) { return k == K_Add || k == K_Mul || k == K_And || k == K_Or || k == K_Xor || k == K_Eq; }

    E fp1(Kind k, unsigned w, E a) { if (a->isC()) return cst(fold(k, w, a->w, a->v, 0), w); return raw(k, w, a); }

    E bin(Kind k, E a, E b) {
        unsigned w = isCmp(k) ? 1 : a->w;
        if (a->isC() && b->isC()) return cst(fold(k, w, a->w, a->v, b->v), w);
        if (comm(k) && a->isC()) std::swap(a, b);          // constant on the right
        else if (comm(k) && !b->isC() && a->id > b->id) std::swap(a, b);
        u128 m = maskw(a->w);
        switch (k) {
            case K_Add:
                if (b->isC()) {
                    if (b->v == 0) return a;
                    if (a->k == K_Add && a->b->isC()) return bin(K_Add, a->a, cst(a->b->v + b->v, w));
                }
                if (a->k == K_Add && a->b->isC() && !b->isC()) return bin(K_Add, bin(K_Add, a->a, b), a->b);
                if (b->k == K_Add && b->b->isC()) return bin(K_Add, bin(K_Add, a, b->a), b->b);
                if (a->k == K_Sub && a->b == b) return a->a;
                if (b->k == K_Sub && b->b == a) return b->a;
                break;
            case K_Sub:
                if (b->isC()) return bin(K_Add, a, cst((u128)0 - b->v, w));
                if (a == b) return cst(0, w);
                if (a->k == K_Add && a->b->isC() && b->k == K_Add && b->b->isC()) return bin(K_Add, bin(K_Sub, a->a, b->a), cst(a->b->v - b->b->v, w));
                if (a->k == K_Add && a->b->isC()) return bin(K_Add, bin(K_Sub, a->a, b), a->b);
                if (b->k == K_Add && b->b->isC()) return bin(K_Add, bin(K_Sub, a, b->a), cst((u128)0 - b->b->v, w));
                if (a->k == K_Add) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
                if (b->k == K_Add) { if (b->a == a) return bin(K_Sub, cst(0, w), b->b); if (b->b == a) return bin(K_Sub, cst(0, w), b->a); }
                if (a->isC() && a->v == 0 && b->k == K_Sub && b->a->isC() && b->a->v == 0) return b->b;
                break;
            case K_Mul:
                if (isNeg(a) && isNeg(b)) return bin(K_Mul, a->b, b->b);
                if (b->isC()) {
                    if (b->v == 0) return b; if (b->v == 1) return a;
                    if ((b->v & (b->v - 1)) == 0) { unsigned s = 0; while (((u128)1 << s) != b->v) ++s; return bin(K_Shl, a, cst(s, w)); }
                }
                break;
            case K_UDiv: if (b->isC() && b->v == 1) return a;
                if (b->isC() && b->v && (b->v & (b->v - 1)) == 0) { unsigned s = 0; while (((u128)1 << s) != b->v) ++s; return bin(K_LShr, a, cst(s, w)); }
                break;
            case K_SDiv: if (b->isC() && b->v == 1) return a; break;
            case K_URem: if (b->isC() && b->v == 1) return cst(0, w);
                if (b->isC() && b->v && (b->v & (b->v - 1)) == 0) return bin(K_And, a, cst(b->v - 1, w));
                break;
            case K_And:
                if (a == b) return a;
                if (b->isC()) {
                    if (b->v == 0) return b; if (b->v == m) return a;
                    if (a->k == K_And && a->b->isC()) return bin(K_And, a->a, cst(a->b->v & b->v, w));
                    if (a->k == K_ZExt) { // mask covering the inner value
                        u128 im = maskw(a->a->w);
                        if ((b->v & im) == im) return a;
                        return zext(bin(K_And, a->a, cst(b->v & im, a->a->w)), w);
                    }
                    if ((b->v & (b->v + 1)) == 0) { // low mask
                        unsigned n = 0; while (((u128)1 << n) - 1 != b->v) ++n;
                        return zext(extract(a, 0, n), w);
                    }
                }
                if (w == 1 && (isNotOf(a, b) || isNotOf(b, a))) return cst(0, 1);
                break;
            case K_Or:
                if (a == b) return a;
                if (b->isC()) { if (b->v == 0) return a; if (b->v == m) return b; }
                if (w == 1 && (isNotOf(a, b) || isNotOf(b, a))) return cst(1, 1);
                // disjoint bit fields: or(zext x, shl(zext y, k)) -> concat
                if (!b->isC()) { E r = orConcat(a, b, w); if (r) return r; }
                break;
            case K_Xor:
                if (a == b) return cst(0, w);
                if (b->isC()) {
                    if (b->v == 0) return a;
                    if (a->k == K_Xor && a->b->isC()) return bin(K_Xor, a->a, cst(a->b->v ^ b->v, w));
                    if (w == 1) { // logical not
                        if (a->k == K_Ult) return bin(K_Ule, a->b, a->a);
                        if (a->k == K_Ule) return bin(K_Ult, a->b, a->a);
                        if (a->k == K_Slt) return bin(K_Sle, a->b, a->a);
                        if (a->k == K_Sle) return bin(K_Slt, a->b, a->a);
                        if (a->k == K_Ite && (a->b->isC() || a->c->isC())) return ite(a->a, bin(K_Xor, a->b, b), bin(K_Xor, a->c, b));
                    }
                    if (a->k == K_ZExt && (b->v & ~maskw(a->a->w)) == 0) return zext(bin(K_Xor, a->a, cst(b->v, a->a->w)), w);
                }
                break;
            case K_Shl: case K_LShr: case K_AShr:
                if (b->isC()) {
                    if (b->v == 0) return a;
                    if (b->v >= w) { if (k != K_AShr) return cst(0, w); return bin(K_AShr, a, cst(w - 1, w)); }
                    unsigned s = (unsigned)b->v;
                    if (k == K_LShr) return zext(extract(a, s, w - s), w);
                    if (k == K_Shl && a->k == K_ZExt && a->a->w + s <= w) return zext(concat(a->a, cst(0, s)), w);
                    if (k == K_Shl && a->k == K_Shl && a->b->isC() && a->b->v + s < w) return bin(K_Shl, a->a, cst(a->b->v + s, w));
                }
                if (a->isC() && a->v == 0) return a;
                break;
            case K_Eq:
                if (a == b) return cst(1, 1);
                if (b->isC()) {
                    if (a->w == 1) return b->v ? a : bin(K_Xor, a, cst(1, 1));
                    if (a->k == K_ZExt) { if (b->v >> a->a->w) return cst(0, 1); return bin(K_Eq, a->a, cst(b->v, a->a->w)); }
                    if (a->k == K_SExt) { u128 t = b->v & maskw(a->a->w); if (((u128)sextw(t, a->a->w) & m) != b->v) return cst(0, 1); return bin(K_Eq, a->a, cst(t, a->a->w)); }
                    if (a->k == K_Add && a->b->isC()) return bin(K_Eq, a->a, cst(b->v - a->b->v, a->w));
                    if (a->k == K_Xor && a->b->isC()) return bin(K_Eq, a->a, cst(b->v ^ a->b->v, a->w));
                    if (a->k == K_And && a->b->isC()) { // masked field
                        u128 c = a->b->v; if (b->v & ~c) return cst(0, 1); unsigned lo = 0; while (!((c >> lo) & 1)) ++lo; u128 t = c >> lo; if ((t & (t + 1)) == 0) { unsigned n = 0; while (t) { ++n; t >>= 1; } return bin(K_Eq, extract(a->a, lo, n), cst(b->v >> lo, n)); }
                    }
                    if (a->k == K_Concat) return bin(K_And, bin(K_Eq, a->a, cst(b->v >> a->b->w, a->a->w)), bin(K_Eq, a->b, cst(b->v, a->b->w)));
                    if (a->k == K_Ite && (a->b->isC() || a->c->isC())) {
                        E x = bin(K_Eq, a->b, b), y = bin(K_Eq, a->c, b);
                        return ite(a->a, x, y);
                    }
                } else {
                    if (a->k == K_Add && b->k == K_Add && a->b->isC() && a->b == b->b) return bin(K_Eq, a->a, b->a);
                    if (a->k == K_ZExt && b->k == K_ZExt && a->a->w == b->a->w) return bin(K_Eq, a->a, b->a);
                    if (a->k == K_SExt && b->k == K_SExt && a->a->w == b->a->w) return bin(K_Eq, a->a, b->a);
                    if (a->k == K_Shl && b->k == K_Shl && a->b == b->b && a->b->isC()) return bin(K_Eq, extract(a->a, 0, a->w - (unsigned)a->b->v), extract(b->a, 0, a->w - (unsigned)a->b->v));
                }
                break;
            case K_Ult:
                if (a == b) return cst(0, 1);
                if (b->isC()) {
                    if (b->v == 0) return cst(0, 1);
                    if (b->v == 1) return bin(K_Eq, a, cst(0, a->w));
                    if (a->k == K_ZExt) { if (b->v > maskw(a->a->w)) return cst(1, 1); return bin(K_Ult, a->a, cst(b->v, a->a->w)); }
                }
                if (a->isC()) {
                    if (a->v == m) return cst(0, 1);
                    if (a->v == 0) return bin(K_Xor, bin(K_Eq, b, cst(0, b->w)), cst(1, 1));
                    if (b->k == K_ZExt) { if (a->v >= maskw(b->a->w)) return cst(0, 1); return bin(K_Ult, cst(a->v, b->a->w), b->a); }
                }
                if (a->k == K_ZExt && b->k == K_ZExt && a->a->w == b->a->w) return bin(K_Ult, a->a, b->a);
                if (iteC(a) && b->isC()) return ite(a->a, bin(k, a->b, b), bin(k, a->c, b));
                if (iteC(b) && a->isC()) return ite(b->a, bin(k, a, b->b), bin(k, a, b->c));
                break;
            case K_Ule:
                if (a == b) return cst(1, 1);
                if (a->isC() && a->v == 0) return cst(1, 1);
                if (b->isC()) {
                    if (b->v == m) return cst(1, 1);
                    return bin(K_Ult, a, cst(b->v + 1, b->w));
                }
                if (a->isC()) return bin(K_Ult, cst(a->v - 1, a->w), b);
                if (a->k == K_ZExt && b->k == K_ZExt && a->a->w == b->a->w) return bin(K_Ule, a->a, b->a);
                break;
            case K_Slt: case K_Sle:
                if (a == b) return cst(k == K_Sle, 1);
                if (k == K_Slt && b->isC() && b->v == 0 && isNeg(a) && a->b->k == K_ZExt && a->b->a->w < a->w) return bin(K_Xor, bin(K_Eq, a->b, cst(0, a->w)), cst(1, 1)); // -x < 0 for small non-negative x
                if (a->k == K_ZExt && b->k == K_ZExt && a->a->w == b->a->w) return bin(k == K_Slt ? K_Ult : K_Ule, a->a, b->a);
                if (a->k == K_SExt && b->k == K_SExt && a->a->w == b->a->w) return bin(k, a->a, b->a);
                if (a->k == K_ZExt && b->isC()) { if (sextw(b->v, b->w) < 0) return cst(0, 1); return bin(k == K_Slt ? K_Ult : K_Ule, a, b); }
                if (b->k == K_ZExt && a->isC()) { if (sextw(a->v, a->w) < 0) return cst(1, 1); return bin(k == K_Slt ? K_Ult : K_Ule, a, b); }
                if (iteC(a) && b->isC()) return ite(a->a, bin(k, a->b, b), bin(k, a->c, b));
                if (iteC(b) && a->isC()) return ite(b->a, bin(k, a, b->b), bin(k, a, b->c));
                break;
            default: break;
        }
        if (w > 1 && !isCmp(k) && k < K_Eq) { // push through ite with constant leaves
            if (iteCC(a) && b->isC()) return ite(a->a, bin(k, a->b, b), bin(k, a->c, b));
            if (iteCC(b) && a->isC()) return ite(b->a, bin(k, a, b->b), bin(k, a, b->c));
        }
        return raw(k, w, a, b);
    }
    static bool isNeg(E e) { return e->k == K_Sub && e->a->isC() && e->a->v == 0; }
    static bool iteC(E e) { return e->k == K_Ite && (e->b->isC() || e->c->isC()); }
    static bool iteCC(E e) { return e->k == K_Ite && e->b->isC() && e->c->isC(); }
    static bool isNotOf(E a, E b) { return a->k == K_Xor && a->b->isC() && a->b->v == 1 && a->w == 1 && a->a == b; }
    E orConcat(E a, E b, unsigned w) {
        // a has bits only in [0,n); b only in [n, ..)
        for (int sw = 0; sw < 2; ++sw, std::swap(a, b)) {
            if (a->k != K_ZExt) continue;
            unsigned n = a->a->w;
            E hi = nullptr; unsigned hw = 0;
            if (b->k == K_Shl && b->b->isC() && b->b->v >= n) {
                unsigned s = (unsigned)b->b->v;
                E x = extract(b->a, 0, w - s);
                E lo = (s == n) ? a->a : zext(a->a, s);
                return concat(x, lo);
            }
            if (b->k == K_ZExt && b->a->k == K_Concat && b->a->b->isC() && b->a->b->v == 0 && b->a->b->w >= n) {
                unsigned s = b->a->b->w;
                return zext(concat(b->a->a, s == n ? a->a : zext(a->a, s)), w);
            }
            if (b->k == K_Concat && b->b->isC() && b->b->v == 0 && b->b->w >= n) {
                unsigned s = b->b->w;
                return concat(b->a, s == n ? a->a : zext(a->a, s));
            }
            (void)hi; (void)hw;
        }
        return nullptr;
    }
    E notE(E a) { return bin(K_Xor, a, cst(maskw(a->w), a->w)); }
    E andE(E a, E b) { return bin(K_And, a, b); }
    E orE(E a, E b) { return bin(K_Or, a, b); }
    E eq(E a, E b) { return bin(K_Eq, a, b); }
    E ite(E c, E x, E y) {
        if (c->isC()) return c->v ? x : y;
        if (x == y) return x;
        if (c->k == K_Xor && c->w == 1 && c->b->isC()) return ite(c->a, y, x); // not
        if (x->w == 1) {
            if (x->isC() && y->isC()) return x->v ? c : notE(c);
            if (x->isC()) return x->v ? orE(c, y) : andE(notE(c), y);
            if (y->isC()) return y->v ? orE(notE(c), x) : andE(c, x);
        }
        if (x->k == K_Ite && x->a == c) x = x->b;
        if (y->k == K_Ite && y->a == c) y = y->c;
        if (x == y) return x;
        if (x->k == K_ZExt && y->k == K_ZExt && x->a->w == y->a->w) return zext(ite(c, x->a, y->a), x->w);
        if (c->k == K_Eq && c->b->isC() && c->b->v == 0 && isNeg(x) && x->b == y && (y == c->a || (y->k == K_ZExt && y->a == c->a))) return y; // |-y| where y is 0 only when -y is
        return raw(K_Ite, x->w, c, x, y);
    }
    E zext(E a, unsigned w) {
        if (a->w == w) return a;
        if (a->isC()) return cst(a->v, w);
        if (a->k == K_ZExt) return zext(a->a, w);
        if (iteCC(a)) return ite(a->a, cst(a->b->v, w), cst(a->c->v, w));
        return raw(K_ZExt, w, a);
    }
    E sext(E a, unsigned w) {
        if (a->w == w) return a;
        if (a->isC()) return cst((u128)sextw(a->v, a->w), w);
        if (a->k == K_ZExt) return zext(a->a, w);
        if (a->k == K_SExt) return sext(a->a, w);
        if (iteCC(a)) return ite(a->a, sext(a->b, w), sext(a->c, w));
        return raw(K_SExt, w, a);
    }
    E extract(E a, unsigned lo, unsigned n) {
        if (lo == 0 && n == a->w) return a;
        if (a->isC()) return cst(a->v >> lo, n);
        switch (a->k) {
            case K_Extract: return extract(a->a, lo + (unsigned)a->v, n);
            case K_ZExt:
                if (lo >= a->a->w) return cst(0, n);
                if (lo + n <= a->a->w) return extract(a->a, lo, n);
                return zext(extract(a->a, lo, a->a->w - lo), n);
            case K_SExt:
                if (lo + n <= a->a->w) return extract(a->a, lo, n);
                if (lo < a->a->w) return sext(extract(a->a, lo, a->a->w - lo), n);
                break;
            case K_Concat: {
                unsigned bw = a->b->w;
                if (lo + n <= bw) return extract(a->b, lo, n);
                if (lo >= bw) return extract(a->a, lo - bw, n);
                return concat(extract(a->a, 0, lo + n - bw), extract(a->b, lo, bw - lo));
            }
            case K_Ite: if (a->b->isC() || a->c->isC()) return ite(a->a, extract(a->b, lo, n), extract(a->c, lo, n)); break;
            case K_And: case K_Or: case K_Xor:
                if (a->b->isC()) return bin(a->k, extract(a->a, lo, n), extract(a->b, lo, n));
                break;
            case K_Add: case K_Mul: case K_Sub:
                if (lo == 0) return bin(a->k, extract(a->a, 0, n), extract(a->b, 0, n));
                break;
            case K_Shl:
                if (a->b->isC()) {
                    unsigned s = (unsigned)a->b->v;
                    if (lo >= s) return extract(a->a, lo - s, n);
                    if (lo + n <= s) return cst(0, n);
                    return concat(extract(a->a, 0, lo + n - s), cst(0, s - lo));
                }
                break;
            default: break;
        }
        return raw(K_Extract, n, a, 0, 0, lo);
    }
    E concat(E hi, E lo) {
        if (hi->isC() && lo->isC()) return cst((hi->v << lo->w) | lo->v, hi->w + lo->w);
        if (hi->isC() && hi->v == 0) return zext(lo, hi->w + lo->w);
        auto base = [](E e) { return e->k == K_Extract ? e->a : e; };
        auto off = [](E e) -> unsigned { return e->k == K_Extract ? (unsigned)e->v : 0; };
        if (!hi->isC() && !lo->isC() && base(hi) == base(lo) && off(hi) == off(lo) + lo->w && (hi->k == K_Extract))
            return extract(base(lo), off(lo), hi->w + lo->w);
        if (lo->k == K_Concat && !hi->isC() && !lo->a->isC() && hi->k == K_Extract && base(hi) == base(lo->a) && off(hi) == off(lo->a) + lo->a->w)
            return concat(extract(base(hi), off(lo->a), hi->w + lo->a->w), lo->b);
        if (hi->k == K_Ite && lo->k == K_Ite && hi->a == lo->a) return ite(hi->a, concat(hi->b, lo->b), concat(hi->c, lo->c));
        // zext(x) low part split: concat(0-ish) handled above; concat(extract(zext)) normalises via extract
        return raw(K_Concat, hi->w + lo->w, hi, lo);
    }

    // ---- rewriting with the facts of the path condition (pc && c == pc && subst(c)) ----
    uint64_t subStamp = 1;
    void know(E e, E val) { if (e->isC()) return; e->sst = subStamp; e->sv = val; }
    void fact(E p) {
        know(p, cst(1, 1));
        if (p->k == K_Xor && p->w == 1 && p->b->isC()) { E q = p->a; know(q, cst(0, 1)); }
        else if (p->k == K_Eq && p->b->isC()) know(p->a, p->b);
        else if (p->k == K_Eq && p->a->isC()) know(p->b, p->a);
    }
    E subst(E e) {
        if (e->isC()) return e;
        if (e->sst == subStamp) return e->sv;
        E r = e;
        switch (e->k) {
            case K_Var: break;
            case K_Ite: { E c = subst(e->a); if (c->isC()) { r = subst(c->v ? e->b : e->c); break; } E x = subst(e->b), y = subst(e->c); if (c != e->a || x != e->b || y != e->c) r = ite(c, x, y); break; }
            case K_Concat: { E x = subst(e->a), y = subst(e->b); if (x != e->a || y != e->b) r = concat(x, y); break; }
            case K_Extract: { E x = subst(e->a); if (x != e->a) r = extract(x, (unsigned)e->v, e->w); break; }
            case K_ZExt: { E x = subst(e->a); if (x != e->a) r = zext(x, e->w); break; }
            case K_SExt: { E x = subst(e->a); if (x != e->a) r = sext(x, e->w); break; }
            default:
                if (e->k >= K_FAdd) { if (!e->b) { E x = subst(e->a); if (x != e->a) r = x->isC() ? cst(fold(e->k, e->w, x->w, x->v, 0), e->w) : raw(e->k, e->w, x); } else { E x = subst(e->a), y = subst(e->b); if (x != e->a || y != e->b) r = bin(e->k, x, y); } break; }
                { E x = subst(e->a), y = subst(e->b); if (x != e->a || y != e->b) r = bin(e->k, x, y); }
        }
        if (r != e && r->sst == subStamp) r = r->sv;
        e->sst = subStamp; e->sv = r; return r;
    }

    // ---- concrete evaluation under an assignment ----
    u128 eval(E e, const std::vector<u128>& model) {
        if (e->isC()) return e->v;
        if (e->stamp == evalStamp) return e->ev;
        u128 r;
        switch (e->k) {
            case K_Var: r = e->v < model.size() ? model[(size_t)e->v] : 0; break;
            case K_Ite: r = eval(e->a, model) ? eval(e->b, model) : eval(e->c, model); break;
            case K_Concat: r = (eval(e->a, model) << e->b->w) | eval(e->b, model); break;
            case K_Extract: r = (eval(e->a, model) >> (unsigned)e->v) & maskw(e->w); break;
            case K_ZExt: r = eval(e->a, model); break;
            case K_SExt: r = (u128)sextw(eval(e->a, model), e->a->w) & maskw(e->w); break;
            default: { u128 x = eval(e->a, model); u128 y = e->b ? eval(e->b, model) : 0; r = fold(e->k, e->w, e->a->w, x, y); }
        }
        e->stamp = evalStamp; e->ev = r;
        return r;
    }

    // ---- Z3 translation ----
    Z3_sort fps(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(ctx) : Z3_mk_fpa_sort_64(ctx); }
    Z3_ast tofp(E e) { return Z3_mk_fpa_to_fp_bv(ctx, bv(e), fps(e->w)); }
    Z3_ast keep(Z3_ast z) { Z3_inc_ref(ctx, z); return z; }
    Z3_ast num(u128 v, unsigned w) {
        if (w <= 64) return Z3_mk_unsigned_int64(ctx, (u64)v, Z3_mk_bv_sort(ctx, w));
        std::string s; u128 t = v; if (!t) s = "0"; while (t) { s.insert(s.begin(), char('0' + (int)(t % 10))); t /= 10; }
        return Z3_mk_numeral(ctx, s.c_str(), Z3_mk_bv_sort(ctx, w));
    }
    Z3_ast bl(E e) {   // width-1 expression as Bool
        assert(e->w == 1);
        if (e->zb) return e->zb;
        Z3_ast r;
        switch (e->k) {
            case K_Const: r = e->v ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
            case K_And: { Z3_ast x[2] = {bl(e->a), bl(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
            case K_Or:  { Z3_ast x[2] = {bl(e->a), bl(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
            case K_Xor: if (e->b->isC()) r = Z3_mk_not(ctx, bl(e->a)); else r = Z3_mk_xor(ctx, bl(e->a), bl(e->b)); break;
            case K_Ite: r = Z3_mk_ite(ctx, bl(e->a), bl(e->b), bl(e->c)); break;
            case K_Eq: if (e->a->w == 1) r = Z3_mk_eq(ctx, bl(e->a), bl(e->b)); else r = Z3_mk_eq(ctx, bv(e->a), bv(e->b)); break;
            case K_Ult: r = Z3_mk_bvult(ctx, bv(e->a), bv(e->b)); break;
            case K_Ule: r = Z3_mk_bvule(ctx, bv(e->a), bv(e->b)); break;
            case K_Slt: r = Z3_mk_bvslt(ctx, bv(e->a), bv(e->b)); break;
            case K_Sle: r = Z3_mk_bvsle(ctx, bv(e->a), bv(e->b)); break;
            case K_FOeq: r = Z3_mk_fpa_eq(ctx, tofp(e->a), tofp(e->b)); break;
            case K_FOlt: r = Z3_mk_fpa_lt(ctx, tofp(e->a), tofp(e->b)); break;
            case K_FOle: r = Z3_mk_fpa_leq(ctx, tofp(e->a), tofp(e->b)); break;
            case K_FUno: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(ctx, tofp(e->a)), Z3_mk_fpa_is_nan(ctx, tofp(e->b))}; r = Z3_mk_or(ctx, 2, x); break; }
            default: r = Z3_mk_eq(ctx, bv(e), num(1, 1)); break;
        }
        e->zb = keep(r); return r;
    }
    Z3_ast bv(E e) {
        if (e->zbv) return e->zbv;
        Z3_ast r = nullptr;
        if (e->w == 1 && e->k != K_Var && e->k != K_Const && e->k != K_Extract && e->k != K_Add && e->k != K_Sub && e->k != K_Mul) {
            r = Z3_mk_ite(ctx, bl(e), num(1, 1), num(0, 1));
            e->zbv = keep(r); return r;
        }
        auto rm = [&] { return Z3_mk_fpa_round_nearest_ties_to_even(ctx); };
        auto ieee = [&](Z3_ast f) { return Z3_mk_fpa_to_ieee_bv(ctx, f); };
        switch (e->k) {
            case K_Const: r = num(e->v, e->w); break;
            case K_Var: r = vars[(size_t)e->v].z; break;
            case K_Add: r = Z3_mk_bvadd(ctx, bv(e->a), bv(e->b)); break;
            case K_Sub: r = Z3_mk_bvsub(ctx, bv(e->a), bv(e->b)); break;
            case K_Mul: r = Z3_mk_bvmul(ctx, bv(e->a), bv(e->b)); break;
            case K_UDiv: r = Z3_mk_bvudiv(ctx, bv(e->a), bv(e->b)); break;
            case K_SDiv: r = Z3_mk_bvsdiv(ctx, bv(e->a), bv(e->b)); break;
            case K_URem: r = Z3_mk_bvurem(ctx, bv(e->a), bv(e->b)); break;
            case K_SRem: r = Z3_mk_bvsrem(ctx, bv(e->a), bv(e->b)); break;
            case K_And: r = Z3_mk_bvand(ctx, bv(e->a), bv(e->b)); break;
            case K_Or: r = Z3_mk_bvor(ctx, bv(e->a), bv(e->b)); break;
            case K_Xor: r = Z3_mk_bvxor(ctx, bv(e->a), bv(e->b)); break;
            case K_Shl: r = Z3_mk_bvshl(ctx, bv(e->a), bv(e->b)); break;
            case K_LShr: r = Z3_mk_bvlshr(ctx, bv(e->a), bv(e->b)); break;
            case K_AShr: r = Z3_mk_bvashr(ctx, bv(e->a), bv(e->b)); break;
            case K_Ite: r = Z3_mk_ite(ctx, bl(e->a), bv(e->b), bv(e->c)); break;
            case K_Concat: r = Z3_mk_concat(ctx, bv(e->a), bv(e->b)); break;
            case K_Extract: r = Z3_mk_extract(ctx, (unsigned)e->v + e->w - 1, (unsigned)e->v, bv(e->a)); break;
            case K_ZExt: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, bv(e->a)); break;
            case K_SExt: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, bv(e->a)); break;
            case K_FAdd: r = ieee(Z3_mk_fpa_add(ctx, rm(), tofp(e->a), tofp(e->b))); break;
            case K_FSub: r = ieee(Z3_mk_fpa_sub(ctx, rm(), tofp(e->a), tofp(e->b))); break;
            case K_FMul: r = ieee(Z3_mk_fpa_mul(ctx, rm(), tofp(e->a), tofp(e->b))); break;
            case K_FDiv: r = ieee(Z3_mk_fpa_div(ctx, rm(), tofp(e->a), tofp(e->b))); break;
            case K_FSqrt: r = ieee(Z3_mk_fpa_sqrt(ctx, rm(), tofp(e->a))); break;
            case K_FFloor: r = ieee(Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_round_toward_negative(ctx), tofp(e->a))); break;
            case K_FCeil: r = ieee(Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_round_toward_positive(ctx), tofp(e->a))); break;
            case K_FTrunc: r = ieee(Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_round_toward_zero(ctx), tofp(e->a))); break;
            case K_FNeg: r = Z3_mk_bvxor(ctx, bv(e->a), num((u128)1 << (e->w - 1), e->w)); break;
            case K_FAbs: r = Z3_mk_bvand(ctx, bv(e->a), num(maskw(e->w - 1), e->w)); break;
            case K_FToSI: r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_round_toward_zero(ctx), tofp(e->a), e->w); break;
            case K_FToUI: r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_round_toward_zero(ctx), tofp(e->a), e->w); break;
            case K_SIToF: r = ieee(Z3_mk_fpa_to_fp_signed(ctx, rm(), bv(e->a), fps(e->w))); break;
            case K_UIToF: r = ieee(Z3_mk_fpa_to_fp_unsigned(ctx, rm(), bv(e->a), fps(e->w))); break;
            case K_FToF: r = ieee(Z3_mk_fpa_to_fp_float(ctx, rm(), tofp(e->a), fps(e->w))); break;
            default: assert(0 && "bv"); 
        }
        e->zbv = keep(r); return r;
    }
};
