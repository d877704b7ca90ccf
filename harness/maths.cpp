// Heuristics and integer helpers. Macros: WHAT (1 metrics, 2 euclidean/octile/canberra/cosine on small coordinates, 3 integer helpers, 4 powui, 5 trimming), KD, VS (scalar), VT (coordinate / value type).
#include "common.hpp"
#ifndef WHAT
#define WHAT 1
#endif
#ifndef KD
#define KD 2
#endif
#ifdef VS
using S = VS;
#else
using S = uint32_t;
#endif
#ifdef VT
using T = VT;
#else
using T = uint32_t;
#endif
using namespace vp; using chdr::utils; using H = chdr::heuristics;
static constexpr size_t K = KD;
using C = chdr::coord<T, K>;
[[maybe_unused]] static uint64_t dist(uint64_t a, uint64_t b) { return vp_select(a < b, b - a, a - b); }
#if WHAT == 1
extern "C" void harness() {
    const unsigned bits = (unsigned)vp_param("bits", 28), sq = (unsigned)vp_param("square", 0);
    C a{}, b{}; S sum = 0, mx = 0, sqs = 0; bool same = true; // (sizes are chosen so that nothing wraps)
    for (size_t i = 0; i < K; ++i) { // one coordinate is the other plus a difference; the sign of the difference is split over
        const T lo = vp_val<T>("lo", bits), d = vp_val<T>("difference", bits); const bool up = vp_concretize(vp_sym("up", 1)) != 0;
        a[i] = up ? lo : lo + d; b[i] = up ? lo + d : lo;
        sum += S(d); if (vp_concretize(S(d) > mx)) mx = S(d); if (sq) sqs += S(d) * S(d); same &= d == 0;
    }
    const auto m = H::manhattan_distance<S, C>(a, b), c = H::chebyshev_distance<S, C>(a, b), o = H::octile_distance<S, C>(a, b);
    vp_assert(m == S(sum), "manhattan distance is not the sum of the differences");
    vp_assert(c == S(mx), "chebyshev distance is not the largest difference");
    vp_assert(H::manhattan_distance<S, C>(b, a) == m, "manhattan distance is not symmetric");
    vp_assert(H::chebyshev_distance<S, C>(b, a) == c, "chebyshev distance is not symmetric");
    vp_assert((m == 0) == same && (c == 0) == same, "distance is zero for different cells or not zero for equal ones");
    if constexpr (std::is_integral_v<S>) { vp_assert(o == c, "octile distance in whole numbers is not the number of moves"); vp_assert(H::octile_distance<S, C>(b, a) == o, "octile distance is not symmetric"); }
    if (sq) { const auto q = H::sqr_euclidean_distance<S, C>(a, b); vp_assert(q == S(sqs), "squared euclidean distance is not the sum of the squares"); vp_assert(H::sqr_euclidean_distance<S, C>(b, a) == q, "squared euclidean distance is not symmetric"); vp_assert((q == 0) == same, "squared euclidean distance zero for different cells"); }
    if (vp_param("moves", 0)) { // one move changes the estimate by at most the cost of the move
        C n = a; const unsigned axis = (unsigned)vp_pick("axis", 0, K - 1); const bool up = vp_concretize(vp_sym("up", 1)) != 0;
        vp_assume(up || a[axis] > 0); n[axis] = T(up ? a[axis] + 1 : a[axis] - 1);
        const auto mn = H::manhattan_distance<S, C>(n, b); vp_assert(mn + 1 >= m && m + 1 >= mn, "manhattan distance changes by more than one per axis move");
        C k = a; for (size_t i = 0; i < K; ++i) { const uint64_t d = vp_pick("d", 0, 2); vp_assume(uint64_t(a[i]) + d >= 1); k[i] = T(uint64_t(a[i]) + d - 1); }
        const auto cn = H::chebyshev_distance<S, C>(k, b); vp_assert(cn + 1 >= c && c + 1 >= cn, "chebyshev distance changes by more than one per diagonal move");
    }
    vp_reach("checked");
}
#elif WHAT == 2
extern "C" void harness() { // small coordinates, one path per pair: floating point stays concrete
    const unsigned hi = (unsigned)vp_param("hi", 5);
    C a{}, b{}; for (size_t i = 0; i < K; ++i) { a[i] = (T)vp_pick("a", 0, hi); b[i] = (T)vp_pick("b", 0, hi); }
    unsigned sq = 0, mx = 0; bool same = true, zero = true, every = true; double can = 0; uint64_t dot = 0, na = 0, nb = 0;
    for (size_t i = 0; i < K; ++i) {
        const unsigned d = a[i] > b[i] ? a[i] - b[i] : b[i] - a[i]; sq += d * d; if (d > mx) mx = d; same &= d == 0; every &= d != 0; zero &= a[i] == 0 && b[i] == 0;
        if (a[i] + b[i]) can += double(d) / double(a[i] + b[i]);
        dot += uint64_t(a[i]) * b[i]; na += uint64_t(a[i]) * a[i]; nb += uint64_t(b[i]) * b[i];
    }
    auto near = [](double x, double y) { const double d = x - y; return d < 1e-9 && d > -1e-9; };
    const auto e = H::euclidean_distance<double, C>(a, b); vp_assert(near(e * e, sq) && e >= 0, "euclidean distance is not the root of the squared distance");
    const auto ei = H::euclidean_distance<uint32_t, C>(a, b); vp_assert(ei * ei <= sq && sq < (ei + 1) * (ei + 1), "integer euclidean distance is not the rounded-down root");
    const auto o = H::octile_distance<double, C>(a, b); vp_assert(o >= double(mx) && o <= 1.4142135624 * mx && (mx == 0) == (o == 0), "octile distance outside its bounds");
    vp_assert(near(o, every ? mx * 1.4142135623730951 : double(mx)), "octile distance does not charge sqrt(2) exactly for moves that change every dimension");
    vp_assert(near(H::octile_distance<double, C>(b, a), o), "octile distance is not symmetric");
    const auto cb = H::canberra_distance<double, C>(a, b); vp_assert(near(cb, can), "canberra distance is wrong"); vp_assert((cb == 0) == same && cb <= double(K) + 1e-9, "canberra distance outside its bounds");
    const auto cs = H::cosine_distance<double, C>(a, b);
    if (na == 0 || nb == 0) vp_assert(cs == 1, "cosine distance to the origin is not one");
    else { const double x = 1 - cs; vp_assert(cs >= -1e-9 && cs <= 1 + 1e-9, "cosine distance outside its bounds"); vp_assert(near(x * x * double(na * nb), double(dot * dot)) || near(x * x, double(dot * dot) / double(na * nb)), "cosine distance is wrong"); }
    vp_reach("checked");
}
#elif WHAT == 3
extern "C" void harness() {
    const T x = vp_val<T>("x"), lo = vp_val<T>("lo"), hi = vp_val<T>("hi");
    vp_assert(utils::min<T>(x, lo) == (x < lo ? x : lo), "min"); vp_assert(utils::max<T>(x, lo) == (x > lo ? x : lo), "max");
    const int sg = utils::sign<int>(x); vp_assert(sg == (x > 0) - (x < T(0)), "sign");
    if (std::is_unsigned_v<T> || x != std::numeric_limits<T>::min()) { const T ab = utils::abs<T>(x); vp_assert(ab >= 0 && (ab == x || (std::is_signed_v<T> && x < T(0) && uint64_t(ab) + uint64_t(x) == 0)) && (x < T(0) || ab == x), "abs"); }
    if (lo <= hi) { const T c = utils::clamp<T>(x, lo, hi); vp_assert(c >= lo && c <= hi && (x < lo ? c == lo : x > hi ? c == hi : c == x), "clamp"); vp_reach("clamped"); }
    vp_reach("checked");
}
#elif WHAT == 4
extern "C" void harness() { // base^exponent wherever the result fits
    const unsigned emax = (unsigned)vp_param("emax", 8), bmax = (unsigned)vp_param("bits", sizeof(T) * 8);
    const T b = vp_val<T>("base", bmax); const unsigned e = (unsigned)vp_pick("exponent", 0, emax);
    // the bound below which base^e fits, computed concretely
    const uint64_t top = std::numeric_limits<T>::max(); uint64_t lim = top;
    if (e >= 2) { uint64_t lo = 1, hi = 1ull << 32; // lo^e fits, hi^e does not
        while (hi - lo > 1) { const uint64_t mid = lo + (hi - lo) / 2; uint64_t r = 1; bool fits = true; for (unsigned i = 0; i < e && fits; ++i) { if (r > top / mid) fits = false; else r *= mid; } (fits ? lo : hi) = mid; }
        lim = lo; }
    vp_assume(uint64_t(b) <= lim);
    T r = 1; for (unsigned i = 0; i < e; ++i) r = T(r * b);
    const T p = utils::powui<T>(b, T(e));
    vp_assert(p == r, "powui is not the product of its factors"); vp_reach("checked");
}
#elif WHAT == 5
extern "C" void harness() { // decimal strings: digits with at most one point that has a digit before it
    const unsigned n = (unsigned)vp_pick("length", vp_param("lo", 1), vp_param("n", 6)); static const char abc[] = "0123456789.-";
    char c[16]; unsigned dots = 0, dot = n;
    for (unsigned i = 0; i < n; ++i) { const uint64_t k = vp_range("char", 0, 11); uint64_t ch = vp_select(k == 10, '.', vp_select(k == 11, '-', '0' + k)); if (i > 0) vp_assume(ch != '-'); c[i] = (char)ch; }
    for (unsigned i = 0; i < n; ++i) { const bool is = vp_concretize(c[i] == '.') != 0; if (is) { ++dots; dot = i; } }
    vp_assume(dots <= 1 && dot != 0); if (dot < n) { vp_assume(c[dot - 1] != '-'); }
    std::string in; in.reserve(15); for (unsigned i = 0; i < n; ++i) in.push_back(c[i]);
    const std::string out = utils::trim_trailing_zeros(in);
    const unsigned m = (unsigned)out.size();
    vp_note("length out", m);
    vp_assert(m <= n, "trimming made the text longer");
    bool prefix = true; for (unsigned i = 0; i < m && i < n; ++i) prefix &= out[i] == c[i];
    vp_assert(prefix, "trimming changed what it kept");
    if (dot == n) { vp_reach("whole number"); vp_assert(m == n, "trimming changed a whole number"); }
    else {
        vp_reach("decimal");
        vp_assert(m >= dot, "trimming removed digits before the point");
        bool zeros = true; for (unsigned i = m; i < n; ++i) zeros &= (i == dot) | (c[i] == '0');
        vp_assert(zeros, "trimming removed more than zeros");
        if (m > dot) { vp_assert(m > dot + 1, "a trailing point was left"); vp_assert(out[m - 1] != '0', "a trailing zero was left"); }
    }
}
#endif
