// geometry and math: C29 (rect), C30 (line), C31 (point), C32 (range), C33 (math).
// Oracles work on integers: every coordinate is k * step with an integer k and a step the coordinate type represents
// exactly, chosen so that no intermediate result of the library is rounded unless the property allows it.
#include "dsched.hpp"
#include "hx.hpp"

#include <teiacare/sdk/geometry/line.hpp>
#include <teiacare/sdk/geometry/point.hpp>
#include <teiacare/sdk/geometry/range.hpp>
#include <teiacare/sdk/geometry/rectangle.hpp>
#include <teiacare/sdk/geometry/size.hpp>
#include <teiacare/sdk/math.hpp>

#include <cmath>
#include <compare>
#include <limits>
#include <memory>
#include <ostream>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

namespace g = tc::sdk;
using i64 = int64_t;
using i128 = __int128;

namespace
{
template <typename T> const char* name();
template <> const char* name<int>() { return "int"; }
template <> const char* name<unsigned>() { return "unsigned"; }
template <> const char* name<long>() { return "long"; }
template <> const char* name<long long>() { return "long long"; }
template <> const char* name<float>() { return "float"; }
template <> const char* name<double>() { return "double"; }

std::string str(i128 v)
{
    if (v == 0)
        return "0";
    bool neg = v < 0;
    std::string s;
    while (v != 0)
    {
        int d = (int)(v % 10);
        s += (char)('0' + (d < 0 ? -d : d));
        v /= 10;
    }
    if (neg)
        s += '-';
    return std::string(s.rbegin(), s.rend());
}

// what integer coordinates mean for a type
template <typename T>
struct scale
{
    double step = 1;
    explicit scale(hx::rng& r)
    {
        if constexpr (std::is_floating_point_v<T>)
            step = r.pick({1.0, 1.0, 0.5, 0.25, 0.0009765625, 1024.0});
    }
    T operator()(i128 k) const
    {
        if constexpr (std::is_floating_point_v<T>)
            return (T)((double)k * step);
        else
            return (T)k;
    }
    T product(i128 k) const // of two coordinates
    {
        if constexpr (std::is_floating_point_v<T>)
            return (T)((double)k * step * step);
        else
            return (T)k;
    }
    // exactly representable
    bool fits(i128 k) const
    {
        if constexpr (std::is_floating_point_v<T>)
            return k <= ((i128)1 << std::numeric_limits<T>::digits) && k >= -((i128)1 << std::numeric_limits<T>::digits);
        else
            return k <= (i128)std::numeric_limits<T>::max() && k >= (i128)std::numeric_limits<T>::min();
    }
};
template <typename T>
i64 coord(hx::rng& r, int bits) // any integer of the given size that T has
{
    i64 k = r.in(-((i64)1 << bits), (i64)1 << bits);
    if (std::is_unsigned_v<T> && k < 0)
        k = -k;
    return k;
}
template <typename T>
i128 extreme(hx::rng& r) // any value of an integer type, most of them near its ends
{
    constexpr i128 lo = (i128)std::numeric_limits<T>::min(), hi = (i128)std::numeric_limits<T>::max();
    switch (r.below(4))
    {
    case 0: return lo + (i128)r.below(200);
    case 1: return hi - (i128)r.below(200);
    case 2: return lo + (i128)((unsigned __int128)r.u64() % (unsigned __int128)(hi - lo + 1));
    default: return (lo < 0 ? 0 : hi / 2) + (i128)r.in(-200, 200);
    }
}
template <typename T> constexpr int BITS = std::is_same_v<T, float> ? 20 : std::is_same_v<T, double> ? 50 : (int)sizeof(T) * 8 - 3;

template <typename T>
T any(hx::rng& r) // any finite value
{
    if constexpr (std::is_integral_v<T>)
        switch (r.below(5))
        {
        case 0: return r.pick({std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), (T)0, (T)1, (T)-1});
        case 1: return (T)r.u64();
        case 2: return (T)(r.u64() >> r.below(64));
        default: return (T)(std::is_unsigned_v<T> ? r.in(0, 100) : r.in(-100, 100));
        }
    else
        switch (r.below(5))
        {
        case 0: return r.pick({(T)0, (T)-0.0, std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min(), (T)1, (T)-1});
        case 1: return std::ldexp((T)r.in(-(1 << 23), 1 << 23), (int)r.in(std::numeric_limits<T>::min_exponent / 2, std::numeric_limits<T>::max_exponent / 2));
        case 2: return (T)r.in(-1000000, 1000000) / (T)r.in(1, 1000);
        default: return (T)r.in(-100, 100);
        }
}

// ------------------------------------------------------------------------------------------------------------ C29
#if !defined(ONLY) || ONLY == 29
struct box
{
    i128 x, y, w, h;
    i128 r() const { return x + w; }
    i128 b() const { return y + h; }
    bool null() const { return w <= 0 && h <= 0; }
    std::string show() const { return "[" + str(x) + "," + str(y) + " " + str(w) + "x" + str(h) + "]"; }
};
// does the segment meet the open / closed box? exact: parameters t = n/d of the segment, 0 <= t <= 1
bool seg_box(i128 ax, i128 ay, i128 bx, i128 by, const box& q, bool open)
{
    i128 ln = 0, ld = 1, hn = 1, hd = 1; // lower and upper end of the admissible t, as fractions with positive denominators
    bool lo_open = false, hi_open = false;
    auto constrain = [&](i128 a, i128 d, i128 bound, bool below) -> bool { // a + t*d < bound (below) or > bound
        if (!below)
        {
            a = -a;
            d = -d;
            bound = -bound;
        }
        const i128 rest = bound - a; // t*d < rest
        if (d == 0)
            return open ? rest > 0 : rest >= 0;
        if (d > 0) // t < rest/d
        {
            const i128 c = rest * hd - hn * d; // rest/d - hi
            if (c < 0 || (c == 0 && open))
            {
                hn = rest;
                hd = d;
                hi_open = open;
            }
        }
        else // t > rest/d
        {
            const i128 n = -rest, m = -d;
            const i128 c = n * ld - ln * m;
            if (c > 0 || (c == 0 && open))
            {
                ln = n;
                ld = m;
                lo_open = open;
            }
        }
        return true;
    };
    if (!constrain(ax, bx - ax, q.r(), true) || !constrain(ax, bx - ax, q.x, false) || !constrain(ay, by - ay, q.b(), true) || !constrain(ay, by - ay, q.y, false))
        return false;
    const i128 c = ln * hd - hn * ld; // lo - hi
    return c < 0 || (c == 0 && !lo_open && !hi_open);
}

template <typename T>
void rect_case(hx::rng& r)
{
    const scale<T> v(r);
    const int regime = (int)r.below(std::is_integral_v<T> ? 5 : 4); // 0,1: tiny grid, 2: medium, 3: large, 4: all of the type
    const int bits = regime < 2 ? 2 + regime : regime == 2 ? 10 : regime == 3 ? BITS<T> - 1 : 63;
    auto co = [&]() -> i128 {
        if constexpr (std::is_integral_v<T>)
            if (regime == 4)
                return extreme<T>(r);
        return coord<T>(r, bits);
    };
    auto one = [&] {
        box q{co(), co(), 0, 0};
        if constexpr (std::is_integral_v<T>)
            if (regime == 4)
            {
                auto upto = [&](i128 at) { // a length with which the far corner still has the type
                    const i128 room = std::min((i128)std::numeric_limits<T>::max() - at, (i128)std::numeric_limits<T>::max());
                    return room < 1 ? (i128)1 : (i128)1 + (i128)((unsigned __int128)r.u64() % (unsigned __int128)(r.chance(50) ? std::min<i128>(room, 300) : room));
                };
                q.w = upto(q.x);
                q.h = upto(q.y);
                return q;
            }
        auto len = [&] { const i64 n = coord<T>(r, bits); return n < 0 ? -n : n; };
        q.w = 1 + len();
        q.h = 1 + len();
        return q;
    };
    box a = one(), b = one();
    if (r.chance(30)) // share a side, a corner, everything
    {
        switch (r.below(8))
        {
        case 0: b.x = a.r(); break;
        case 1: b.y = a.b(); break;
        case 2: b.x = a.x - b.w; break;
        case 3: b.y = a.y - b.h; break;
        case 4: b = a; break;
        case 5: b.x = a.x; b.w = a.w; break;
        case 6: b.x = a.x; b.y = a.y; break;
        default:
            if (a.w > 2 && a.h > 2)
                b = box{a.x + 1, a.y + 1, a.w - (i128)r.in(1, 2), a.h - (i128)r.in(1, 2)};
        }
    }
    const bool na = r.chance(4), nb = r.chance(4);
    if (na)
        a.w = -(i64)r.below(std::is_unsigned_v<T> ? 1 : 3), a.h = -(i64)r.below(std::is_unsigned_v<T> ? 1 : 3);
    if (nb)
        b.w = -(i64)r.below(std::is_unsigned_v<T> ? 1 : 3), b.h = -(i64)r.below(std::is_unsigned_v<T> ? 1 : 3);
    for (const box* q : {&a, &b})
        if (!v.fits(q->x) || !v.fits(q->y) || !v.fits(q->r()) || !v.fits(q->b()))
            return;
    auto make = [&](const box& q) { return r.chance(50) ? g::rectangle<T>(v(q.x), v(q.y), v(q.w), v(q.h)) : g::rectangle<T>(g::point<T>(v(q.x), v(q.y)), v(q.w), v(q.h)); };
    const auto A = make(a), B = make(b);
    auto bad = [&](const char* key, const std::string& got) { hx::fail(key, hx::cat("rectangle<", name<T>(), "> ", a.show(), " and ", b.show(), " (unit ", v.step, "): ", got)); };
    auto is = [&](const g::rectangle<T>& x, const box& q) { return x.top_left().x() == v(q.x) && x.top_left().y() == v(q.y) && x.width() == v(q.w) && x.height() == v(q.h); };
    hx::state(hx::hash_str(a.show() + b.show() + name<T>()));

    // getters
    if (!is(A, a) || A.top_left() != g::point<T>(v(a.x), v(a.y)) || A.top_right() != g::point<T>(v(a.r()), v(a.y)) || A.bottom_left() != g::point<T>(v(a.x), v(a.b())) || A.bottom_right() != g::point<T>(v(a.r()), v(a.b())))
        bad("corners", A.to_string());
    if (A.size() != g::size<T>(v(a.w), v(a.h)) || A.size().width() != v(a.w) || A.size().height() != v(a.h))
        bad("size", A.size().to_string());
    if (A.is_null() != a.null())
        bad("is_null", A.is_null() ? "null" : "not null");
    for (int i = 0; i < 2; ++i) // null: neither dimension is positive
    {
        const i64 w = i ? r.in(-1, 1) : (i64)a.w, h = i ? r.in(-1, 1) : r.in(-1, 1);
        if (std::is_unsigned_v<T> && (w < 0 || h < 0))
            continue;
        const g::rectangle<T> flat(v(a.x), v(a.y), v(w), v(h));
        if (flat.is_null() != (w <= 0 && h <= 0))
            hx::fail("is_null", hx::cat("rectangle<", name<T>(), "> of ", w, "x", h, flat.is_null() ? " is" : " is not", " null"));
    }
    if (v.fits(a.w * a.h) && A.area() != v.product(a.w * a.h))
        bad("area", std::to_string(A.area()));
    if (bits < 48)
    {
        const auto c = A.center();
        if (c.x() != ((double)a.x + 0.5 * (double)a.w) * v.step || c.y() != ((double)a.y + 0.5 * (double)a.h) * v.step)
            bad("center", c.to_string());
    }
    const bool same = a.x == b.x && a.y == b.y && a.w == b.w && a.h == b.h;
    if ((A == B) != same || (A != B) == same || !(A == make(a)) || A != make(a))
        bad("equality", A == B ? "equal" : "different");
    for (int i = 0; i < 4; ++i)
    {
        box c = a;
        (i == 0 ? c.x : i == 1 ? c.y : i == 2 ? c.w : c.h) += 1;
        if (A == make(c) || !(A != make(c)))
            bad("equality", "equal to " + c.show());
    }
    // moving and resizing
    {
        const i128 dx = r.chance(50) ? co() : r.pick({b.x - a.x, b.r() - a.r(), (i128)0}), dy = r.chance(50) ? co() : r.pick({b.y - a.y, b.b() - a.b(), (i128)0});
        if (v.fits(dx) && v.fits(dy) && v.fits(a.x + dx) && v.fits(a.y + dy) && v.fits(a.r() + dx) && v.fits(a.b() + dy))
        {
            const box m{a.x + dx, a.y + dy, a.w, a.h};
            auto X = A;
            X.translate(v(dx), v(dy));
            if (!is(X, m))
                bad("translate", X.to_string());
            const auto Y = A.translated(v(dx), v(dy));
            if (!is(Y, m) || !is(A, a))
                bad("translated", Y.to_string());
            hx::count("translations");
        }
        auto X = A;
        X.set_width(v(b.w));
        if (!is(X, {a.x, a.y, b.w, a.h}))
            bad("set_width", X.to_string());
        X = A;
        X.set_height(v(b.h));
        if (!is(X, {a.x, a.y, a.w, b.h}))
            bad("set_height", X.to_string());
        X = A;
        X.set_size(v(b.w), v(b.h));
        if (!is(X, {a.x, a.y, b.w, b.h}))
            bad("set_size", X.to_string());
        X.set_position(g::point<T>(v(b.x), v(b.y)));
        if (!is(X, b) || X != B)
            bad("set_position", X.to_string());
    }
    const std::string text = "(" + std::to_string(v(a.x)) + ", " + std::to_string(v(a.y)) + ") : (" + std::to_string(v(a.w)) + "x" + std::to_string(v(a.h)) + ")";
    std::ostringstream os;
    os << A;
    if (A.to_string() != text || os.str() != text)
        bad("text", A.to_string());

    // set operations
    const box isec{std::max(a.x, b.x), std::max(a.y, b.y), std::min(a.r(), b.r()) - std::max(a.x, b.x), std::min(a.b(), b.b()) - std::max(a.y, b.y)};
    const box uni{std::min(a.x, b.x), std::min(a.y, b.y), std::max(a.r(), b.r()) - std::min(a.x, b.x), std::max(a.b(), b.b()) - std::min(a.y, b.y)};
    const bool meet = !a.null() && !b.null() && isec.w > 0 && isec.h > 0;
    if (!a.null() && !b.null())
    {
        if (regime < 2 && a.w < 30 && b.w < 30) // by counting unit cells
        {
            i64 common = 0;
            for (i128 x = a.x; x < a.r(); ++x)
                for (i128 y = a.y; y < a.b(); ++y)
                    common += x >= b.x && x < b.r() && y >= b.y && y < b.b();
            if ((common > 0) != meet || (meet && common != isec.w * isec.h))
                hx::abandon("the two oracles disagree");
            hx::count("cell_counts");
        }
    }
    if (A.intersects(B) != meet || B.intersects(A) != meet)
        bad("intersects", A.intersects(B) ? "intersect" : "do not intersect");
    {
        for (const auto& x : {A.get_intersection(B), B.get_intersection(A)})
        {
            if (meet ? !is(x, isec) : x.width() != 0 && x.height() != 0)
                bad("get_intersection", x.to_string());
            if (!meet && (x.width() < 0 || x.height() < 0))
                bad("get_intersection", x.to_string());
        }
        hx::count(meet ? "overlapping" : "disjoint");
        if (!v.fits(isec.w) || !v.fits(isec.h) || (std::is_unsigned_v<T> && !meet))
            hx::count("gaps_the_type_does_not_have");
    }
    if (v.fits(uni.w) && v.fits(uni.h))
        for (const auto& x : {A.get_union(B), B.get_union(A)})
        {
            if (a.null() && b.null())
            {
                if (!x.is_null())
                    bad("get_union", x.to_string());
            }
            else if (!is(x, a.null() ? b : b.null() ? a : uni))
                bad("get_union", x.to_string());
        }
    if (na || nb)
    {
        hx::count("null_rectangles");
        return;
    }
    const bool inside = b.x > a.x && b.y > a.y && b.r() < a.r() && b.b() < a.b();
    if (A.contains(B) != inside)
        bad("contains-rectangle", inside ? "not contained" : "contained");
    hx::count(inside ? "nested" : "not_nested");
    for (int i = 0; i < 6; ++i)
    {
        const i128 px = i < 4 ? r.pick({a.x, a.r(), a.x + 1, a.r() - 1, a.x - 1, a.r() + 1, b.x, a.x + a.w / 2}) : co(), py = i < 4 ? r.pick({a.y, a.b(), a.y + 1, a.b() - 1, a.y - 1, a.b() + 1, b.y, a.y + a.h / 2}) : co();
        if (!v.fits(px) || !v.fits(py))
            continue;
        const bool in = px > a.x && px < a.r() && py > a.y && py < a.b();
        if (A.contains(g::point<T>(v(px), v(py))) != in)
            bad("contains-point", hx::cat("point ", str(px), ",", str(py), in ? " is not contained" : " is contained"));
        hx::count(in ? "points_inside" : "points_not_inside");
    }
    // segments, exactly
    if (bits <= 20)
        for (int i = 0; i < 4; ++i)
        {
            i128 p[4];
            for (int k = 0; k < 4; ++k)
                p[k] = r.chance(30) ? (k % 2 ? r.pick({a.y, a.b(), a.y + 1}) : r.pick({a.x, a.r(), a.x + 1})) : (i128)coord<T>(r, bits + 1);
            const g::line<T> l(g::point<T>(v(p[0]), v(p[1])), g::point<T>(v(p[2]), v(p[3])));
            const bool in = seg_box(p[0], p[1], p[2], p[3], a, true), near = seg_box(p[0], p[1], p[2], p[3], a, false);
            const bool got = A.intersects(l);
            if ((in && !got) || (!near && got))
                bad("intersects-line", hx::cat("segment ", str(p[0]), ",", str(p[1]), " - ", str(p[2]), ",", str(p[3]), got ? " meets it" : " misses it"));
            hx::count(in ? "segments_through" : near ? "segments_touching" : "segments_missing");
        }
    if (hx::want_sample())
        hx::sample(hx::cat("rectangle<", name<T>(), "> ", a.show(), " and ", b.show(), meet ? ": overlap " + isec.show() : std::string(": apart")));
}
void rect(uint64_t seed)
{
    hx::rng r(seed);
    for (int i = 0; i < 4; ++i)
    {
        rect_case<int>(r);
        rect_case<unsigned>(r);
        rect_case<long>(r);
        rect_case<long long>(r);
        rect_case<float>(r);
        rect_case<double>(r);
    }
}

#endif
// ------------------------------------------------------------------------------------------------------------ C30
#if !defined(ONLY) || ONLY == 30
template <typename T>
void line_case(hx::rng& r)
{
    const scale<T> v(r);
    const int bits = r.pick({2, 3, 5, 10, std::is_same_v<T, float> ? 20 : 24});
    i128 p[8]; // A, B, C, D
    for (auto& k : p)
        k = coord<T>(r, bits);
    const i64 m = r.in(-4, 4), n = r.in(1, 4);
    auto pt = [&](int k) { return g::point<T>(v(p[2 * k]), v(p[2 * k + 1])); };
    switch (r.below(10))
    {
    case 0: p[4] = p[0]; p[5] = p[1]; break;                                              // C on A
    case 1: p[6] = p[2]; p[7] = p[3]; break;                                              // D on B
    case 2: p[2] = p[0] + (p[2] - p[0]) / n * n; p[3] = p[1] + (p[3] - p[1]) / n * n; p[4] = p[0] + (p[2] - p[0]) / n * m; p[5] = p[1] + (p[3] - p[1]) / n * m; break; // C on the line AB
    case 3: p[6] = p[4] + m * (p[2] - p[0]); p[7] = p[5] + m * (p[3] - p[1]); break;      // parallel or degenerate
    case 4: p[2] = p[0]; break;                                                           // vertical
    case 5: p[3] = p[1]; break;                                                           // horizontal
    case 6: p[2] = p[0]; p[3] = p[1]; break;                                              // a point
    case 7: p[2] = p[0]; p[7] = p[5]; break;                                              // a cross
    case 8: p[4] = p[2]; p[5] = p[3]; p[6] = p[0]; p[7] = p[1]; break;                    // the same, reversed
    default: break;
    }
    for (auto k : p)
        if (k > ((i128)1 << 26) || k < -((i128)1 << 26) || !v.fits(k))
            return;
    const g::line<T> L(pt(0), pt(1)), M(pt(2), pt(3)), rL(pt(1), pt(0)), rM(pt(3), pt(2));
    auto show = [&] {
        std::string s = hx::cat("line<", name<T>(), "> ");
        for (int i = 0; i < 8; ++i)
            s += str(p[i]) + (i == 3 ? " / " : i % 2 ? " - " : ",");
        return s + hx::cat("(unit ", v.step, ")");
    };
    auto bad = [&](const char* key, const std::string& got) { hx::fail(key, show() + ": " + got); };
    hx::state(hx::hash_str(show()));
    // attributes
    if (L.start() != pt(0) || L.end() != pt(1))
        bad("endpoints", L.to_string());
    if (L.is_null() != (p[0] == p[2] && p[1] == p[3]))
        bad("is_null", L.is_null() ? "yes" : "no");
    if (L.is_vertical() != (p[0] == p[2]) || L.is_horizontal() != (p[1] == p[3]))
        bad("direction", hx::cat(L.is_vertical(), L.is_horizontal()));
    auto eq = [&](int a, int b) { return p[2 * a] == p[2 * b] && p[2 * a + 1] == p[2 * b + 1]; };
    const bool same = (eq(0, 2) && eq(1, 3)) || (eq(0, 3) && eq(1, 2));
    if ((L == M) != same || (L != M) == same || (M == L) != same || !(L == rL) || L != rL)
        bad("equality", L == M ? "equal" : "different");
    {
        auto X = L;
        X.set_start(pt(2));
        if (X.start() != pt(2) || X.end() != pt(1))
            bad("set_start", X.to_string());
        X.set_end(pt(3));
        if (X.start() != pt(2) || X.end() != pt(3) || X != M)
            bad("set_end", X.to_string());
    }
    const std::string text = "((" + std::to_string(v(p[0])) + ", " + std::to_string(v(p[1])) + ") : (" + std::to_string(v(p[2])) + ", " + std::to_string(v(p[3])) + "))";
    std::ostringstream os;
    os << L;
    if (L.to_string() != text || os.str() != text)
        bad("text", L.to_string());
    // intersection: A + t (B - A) = C + u (D - C)
    const i128 rx = p[2] - p[0], ry = p[3] - p[1], sx = p[6] - p[4], sy = p[7] - p[5], qx = p[4] - p[0], qy = p[5] - p[1];
    i128 den = rx * sy - ry * sx, tn = qx * sy - qy * sx, un = qx * ry - qy * rx;
    // exact as long as the library's own products are
    const i128 lim = (i128)1 << 52;
    for (i128 k : {rx * sy, ry * sx, qx * sy, qy * sx, qx * ry, qy * rx, den, tn, un})
        if (k > lim || k < -lim)
            return;
    bool meet = den != 0;
    if (den < 0)
    {
        den = -den;
        tn = -tn;
        un = -un;
    }
    meet = meet && tn >= 0 && tn <= den && un >= 0 && un <= den;
    hx::count(den == 0 ? "parallel" : meet ? (tn == 0 || tn == den || un == 0 || un == den ? "touching" : "crossing") : "apart");
    int which = 0;
    for (const auto& [a, b] : {std::pair(&L, &M), std::pair(&M, &L), std::pair(&rL, &M), std::pair(&L, &rM), std::pair(&rM, &rL)})
    {
        const auto x = a->get_intersection(*b);
        if (a->intersects(*b) != meet || x.has_value() != meet)
            bad("intersects", hx::cat("combination ", which, ": ", a->intersects(*b), x.has_value(), " expected ", meet));
        if (x)
        {
            const long double ex = ((long double)(p[0] * den + tn * rx)) / (long double)den * v.step, ey = ((long double)(p[1] * den + tn * ry)) / (long double)den * v.step;
            long double size = 0;
            for (auto k : p)
                size = std::max(size, std::fabs((long double)k * (long double)v.step));
            const long double tol = size * 16 * std::numeric_limits<double>::epsilon();
            if (std::fabs(x->x() - ex) > tol || std::fabs(x->y() - ey) > tol)
                bad("intersection-point", hx::cat("combination ", which, ": ", x->to_string(), " expected ", (double)ex, ", ", (double)ey));
            hx::count("points_compared");
        }
        ++which;
    }
    if (hx::want_sample())
        hx::sample(show() + (meet ? ": meet" : ": do not meet"));
}
// coordinates as large as the type has them: the products of the formula are rounded, so that what is decided here keeps
// a distance from the ends of the segments which is large compared to the rounding errors
template <typename T>
void far_line_case(hx::rng& r)
{
    const scale<T> v(r);
    constexpr int most = std::is_same_v<T, float> ? 23 : std::is_same_v<T, double> ? 51 : sizeof(T) == 4 ? 30 : 50;
    i128 p[8];
    const int bits = (int)r.in(12, most);
    for (auto& k : p)
        k = coord<T>(r, r.chance(70) ? bits : (int)r.in(2, most));
    switch (r.below(6))
    {
    case 0: p[2] = p[0]; break;
    case 1: p[3] = p[1]; break;
    case 2: p[6] = p[4]; break;
    case 3: // far from the origin, close to each other
    {
        const i64 ox = coord<T>(r, most - 1), oy = coord<T>(r, most - 1);
        for (int i = 0; i < 8; ++i)
            p[i] = (i % 2 ? oy : ox) + coord<T>(r, 8);
        break;
    }
    default: break;
    }
    for (auto k : p)
        if (!v.fits(k))
            return;
    const i128 rx = p[2] - p[0], ry = p[3] - p[1], sx = p[6] - p[4], sy = p[7] - p[5], qx = p[4] - p[0], qy = p[5] - p[1];
    i128 den = rx * sy - ry * sx, tn = qx * sy - qy * sx, un = qx * ry - qy * rx, size = 0;
    for (i128 k : {rx * sy, ry * sx, qx * sy, qy * sx, qx * ry, qy * rx})
        size = std::max(size, k < 0 ? -k : k);
    if (den < 0)
    {
        den = -den;
        tn = -tn;
        un = -un;
    }
    const i128 margin = size / ((i128)1 << 40);
    auto clear = [&](i128 k) { return k > margin || k < -margin; };
    if (!clear(den) || !clear(tn) || !clear(un) || !clear(den - tn) || !clear(den - un))
    {
        hx::count("far_but_undecided");
        return;
    }
    const bool meet = tn > 0 && tn < den && un > 0 && un < den;
    auto pt = [&](int k) { return g::point<T>(v(p[2 * k]), v(p[2 * k + 1])); };
    const g::line<T> L(pt(0), pt(1)), M(pt(2), pt(3)), rL(pt(1), pt(0)), rM(pt(3), pt(2));
    auto bad = [&](const char* key, const std::string& got) {
        std::string s = hx::cat("line<", name<T>(), "> ");
        for (int i = 0; i < 8; ++i)
            s += str(p[i]) + (i == 3 ? " / " : i % 2 ? " - " : ",");
        hx::fail(key, s + hx::cat("(unit ", v.step, "): ", got));
    };
    if (L.is_vertical() != (rx == 0) || L.is_horizontal() != (ry == 0) || L.is_null() != (rx == 0 && ry == 0))
        bad("direction", hx::cat(L.is_vertical(), L.is_horizontal(), L.is_null()));
    hx::count(meet ? "far_crossing" : "far_apart");
    for (const auto& [a, b] : {std::pair(&L, &M), std::pair(&M, &L), std::pair(&rL, &M), std::pair(&L, &rM), std::pair(&rM, &rL)})
    {
        const auto x = a->get_intersection(*b);
        if (a->intersects(*b) != meet || x.has_value() != meet)
            bad("intersects", hx::cat(a->intersects(*b), x.has_value(), " expected ", meet));
        if (!x)
            continue;
        const long double t = (long double)tn / (long double)den;
        const long double ex = ((long double)p[0] + t * (long double)rx) * v.step, ey = ((long double)p[1] + t * (long double)ry) * v.step;
        // the error of t is that of its two differences of products, relative to the denominator
        const long double et = 16 * std::numeric_limits<double>::epsilon() * ((long double)size / (long double)den + 1);
        for (int k = 0; k < 2; ++k)
        {
            const long double got = k ? x->y() : x->x(), want = k ? ey : ex;
            // whichever of the two lines the point is computed on
            const long double span = std::max(std::fabs((long double)(p[2 + k] - p[k])), std::fabs((long double)(p[6 + k] - p[4 + k])));
            const long double at = std::max(std::fabs((long double)p[k]) + std::fabs((long double)p[2 + k]), std::fabs((long double)p[4 + k]) + std::fabs((long double)p[6 + k]));
            const long double tol = (et * span + 16 * std::numeric_limits<double>::epsilon() * at) * v.step;
            if (std::fabs(got - want) > tol)
                bad("intersection-point", hx::cat(x->to_string(), " expected ", (double)ex, ", ", (double)ey, " +- ", (double)tol));
        }
        hx::count("far_points_compared");
    }
}
// the predicates that only look at the endpoints, for any values whatsoever
template <typename T>
void line_ends_case(hx::rng& r)
{
    T c[4];
    for (auto& x : c)
        x = any<T>(r);
    if (r.chance(30))
        c[2] = c[0];
    if (r.chance(30))
        c[3] = c[1];
    const g::line<T> L(g::point<T>(c[0], c[1]), g::point<T>(c[2], c[3])), R(g::point<T>(c[2], c[3]), g::point<T>(c[0], c[1]));
    const bool v = c[0] == c[2], h = c[1] == c[3];
    if (L.is_vertical() != v || L.is_horizontal() != h || L.is_null() != (v && h) || !(L == R) || L != R)
        hx::fail("endpoints", hx::cat("line<", name<T>(), "> ", L.to_string(), ": vertical ", L.is_vertical(), " horizontal ", L.is_horizontal(), " null ", L.is_null(), " equal to its reverse ", L == R));
    T d[4] = {c[0], c[1], c[2], c[3]};
    T& one = d[r.below(4)];
    const T was = one;
    one = any<T>(r);
    const g::line<T> D(g::point<T>(d[0], d[1]), g::point<T>(d[2], d[3]));
    const bool same = one == was || (c[0] == d[2] && c[1] == d[3] && c[2] == d[0] && c[3] == d[1]);
    if ((L == D) != same || (R == D) != same || (L != D) == same)
        hx::fail("equality", hx::cat("line<", name<T>(), "> ", L.to_string(), " and ", D.to_string(), L == D ? " are equal" : " are different"));
    hx::count("any_endpoints");
}
void lines(uint64_t seed)
{
    hx::rng r(seed);
    for (int i = 0; i < 4; ++i)
    {
        far_line_case<int>(r);
        far_line_case<long>(r);
        far_line_case<long long>(r);
        far_line_case<float>(r);
        far_line_case<double>(r);
        line_ends_case<int>(r);
        line_ends_case<unsigned>(r);
        line_ends_case<long long>(r);
        line_ends_case<float>(r);
        line_ends_case<double>(r);
    }
    for (int i = 0; i < 8; ++i)
    {
        line_case<int>(r);
        line_case<unsigned>(r);
        line_case<long>(r);
        line_case<long long>(r);
        line_case<float>(r);
        line_case<double>(r);
    }
}

#endif
// ------------------------------------------------------------------------------------------------------------ C31
#if !defined(ONLY) || ONLY == 31
i128 isqrt(i128 s)
{
    i128 lo = 0, hi = (i128)1 << 63;
    while (lo < hi)
    {
        const i128 m = (lo + hi + 1) / 2;
        if (m * m <= s)
            lo = m;
        else
            hi = m - 1;
    }
    return lo;
}
template <typename T>
bool near_distance(T got, i128 dx, i128 dy, bool& judged) // integer types
{
    judged = false;
    const i128 lim = (i128)1 << 62;
    if (dx > lim || dx < -lim || dy > lim || dy < -lim)
        return true;
    const i128 e = isqrt(dx * dx + dy * dy);
    const i128 slack = (i128)((long double)e * 4e-16L) ? (i128)((long double)e * 4e-16L) + 1 : 0;
    if (e + slack + 1 > (i128)std::numeric_limits<T>::max())
        return true;
    judged = true;
    if (got == (T)e)
        return true;
    if (slack)
        return (i128)got >= e - slack && (i128)got <= e + slack;
    // one more when the exact distance is within rounding of the next integer
    return (i128)got == e + 1 && (long double)((e + 1) * (e + 1) - (dx * dx + dy * dy)) / (2 * (long double)(e + 1)) <= (long double)(e + 1) * 4e-16L;
}
template <typename T>
void point_case(hx::rng& r)
{
    using P = g::point<T>;
    T a = any<T>(r), b = any<T>(r), c = any<T>(r), d = any<T>(r);
    if (r.chance(10))
        c = a;
    if (r.chance(10))
        d = b;
    const P p(a, b), q(c, d);
    auto bad = [&](const char* key, const std::string& got) { hx::fail(key, hx::cat("point<", name<T>(), "> (", a, ", ", b, ") and (", c, ", ", d, "): ", got)); };
    auto is = [&](const P& x, T ex, T ey) { return x.x() == ex && x.y() == ey; };
    hx::state(hx::hash_str(hx::cat(name<T>(), a, ",", b, ",", c, ",", d)));
    if (!is(p, a, b) || !is(P(), T(), T()) || !P().is_origin() || p.is_origin() != (a == 0 && b == 0))
        bad("getters", p.to_string());
    if ((p == q) != (a == c && b == d) || (p != q) == (a == c && b == d))
        bad("equality", p == q ? "equal" : "different");
    if (a != b && (p == P(b, a) || !(p != P(b, a))))
        bad("equality", "equal to its mirror image");
    if (P(a, b) != p || P(a, d) != p ? (b == d && P(a, d) != p) : (b != d))
        bad("equality", "with one coordinate changed");
    {
        P x = p;
        x.set_x(c);
        if (!is(x, c, b))
            bad("set_x", x.to_string());
        x.set_y(d);
        if (!is(x, c, d))
            bad("set_y", x.to_string());
        P y;
        y = p;
        if (!is(y, a, b))
            bad("assign", y.to_string());
    }
    auto ok = [](T x, T y, char op) { // is the result defined?
        if constexpr (std::is_integral_v<T> && std::is_signed_v<T>)
        {
            T o;
            return op == '+' ? !__builtin_add_overflow(x, y, &o) : op == '-' ? !__builtin_sub_overflow(x, y, &o) : !__builtin_mul_overflow(x, y, &o);
        }
        else
            return true;
    };
    if (ok(a, c, '+') && ok(b, d, '+'))
    {
        P x = p, y = p;
        P& ref = x += q;
        y.add_delta(c, d);
        const T ex = (T)(a + c), ey = (T)(b + d);
        if (!is(p + q, ex, ey) || !is(x, ex, ey) || !is(y, ex, ey) || &ref != &x)
            bad("plus", (p + q).to_string() + " " + x.to_string() + " " + y.to_string());
        hx::count("sums");
    }
    if (ok(a, c, '-') && ok(b, d, '-'))
    {
        P x = p, y = p;
        P& ref = x -= q;
        y.sub_delta(c, d);
        const T ex = (T)(a - c), ey = (T)(b - d);
        if (!is(p - q, ex, ey) || !is(x, ex, ey) || !is(y, ex, ey) || &ref != &x)
            bad("minus", (p - q).to_string() + " " + x.to_string() + " " + y.to_string());
        hx::count("subtractions");
    }
    const T s = r.chance(70) ? (T)(std::is_unsigned_v<T> ? r.in(0, 9) : r.in(-9, 9)) : any<T>(r);
    if (ok(a, s, '*') && ok(b, s, '*'))
    {
        P x = p;
        P& ref = x *= s;
        const T ex = (T)(a * s), ey = (T)(b * s);
        if (std::isfinite((double)ex) && std::isfinite((double)ey))
        {
            if (!is(p * s, ex, ey) || !is(x, ex, ey) || &ref != &x)
                bad("times", hx::cat("times ", s, " ", (p * s).to_string(), " ", x.to_string()));
            hx::count("products");
        }
    }
    if (s != 0 && !(std::is_integral_v<T> && std::is_signed_v<T> && s == (T)-1 && (a == std::numeric_limits<T>::min() || b == std::numeric_limits<T>::min())))
    {
        P x = p;
        P& ref = x /= s;
        const T ex = (T)(a / s), ey = (T)(b / s);
        if (std::isfinite((double)ex) && std::isfinite((double)ey))
        {
            if (!is(p / s, ex, ey) || !is(x, ex, ey) || &ref != &x)
                bad("divided", hx::cat("by ", s, " ", (p / s).to_string(), " ", x.to_string()));
            hx::count("quotients");
        }
    }
    // by a scalar of another type: the coordinate's own arithmetic, then cut
    {
        const double z = r.pick({0.5, 1.5, 2.0, 0.1, 3.25, 1e-3});
        const double fx = (double)a * z, fy = (double)b * z, gx = (double)a / z, gy = (double)b / z;
        auto in = [](double w) { return std::is_floating_point_v<T> ? std::fabs(w) < (double)std::numeric_limits<T>::max() / 2 : w < (double)std::numeric_limits<T>::max() / 2 && w >= (double)std::numeric_limits<T>::min() / 2; };
        if (in(fx) && in(fy))
        {
            P x = p;
            x *= z;
            if (!is(p * z, (T)((double)a * z), (T)((double)b * z)) || !is(x, (T)((double)a * z), (T)((double)b * z)))
                bad("times-double", hx::cat(z, " ", (p * z).to_string()));
            hx::count("mixed_products");
        }
        if (in(gx) && in(gy))
        {
            P x = p;
            x /= z;
            if (!is(p / z, (T)((double)a / z), (T)((double)b / z)) || !is(x, (T)((double)a / z), (T)((double)b / z)))
                bad("divided-double", hx::cat(z, " ", (p / z).to_string()));
        }
    }
    // distances
    if constexpr (std::is_integral_v<T>)
    {
        auto one = [&](const P& x, const P& y, i128 dx, i128 dy) {
            bool judged = false;
            if (dx > 0 ? false : dx < 0)
                dx = -dx;
            if (dy < 0)
                dy = -dy;
            // representable?
            const i128 lim = (i128)1 << 62;
            if (dx > lim || dy > lim || isqrt(dx * dx + dy * dy) + 4096 > (i128)std::numeric_limits<T>::max())
                return;
            const T got = x.distance(y), back = y.distance(x);
            if (got != back)
                bad("distance-symmetry", hx::cat(got, " and ", back));
            if (!near_distance(got, dx, dy, judged))
                bad("distance", hx::cat(got, " between (", x.x(), ", ", x.y(), ") and (", y.x(), ", ", y.y(), ")"));
            if (judged)
                hx::count(dx * dx + dy * dy > (i128)std::numeric_limits<T>::max() ? "distances_beyond_the_square" : "distances");
        };
        one(p, q, (i128)a - c, (i128)b - d);
        const P o;
        one(p, o, a, b);
        bool judged = false;
        const i128 lim = (i128)1 << 62;
        const i128 ax = a < 0 ? -(i128)a : (i128)a, ay = b < 0 ? -(i128)b : (i128)b;
        if (ax <= lim && ay <= lim && isqrt(ax * ax + ay * ay) + 4096 <= (i128)std::numeric_limits<T>::max())
        {
            if (!near_distance(p.distance_from_origin(), ax, ay, judged))
                bad("distance_from_origin", std::to_string(p.distance_from_origin()));
            // Pythagorean triples are exact
            static const int trip[][3] = {{3, 4, 5}, {5, 12, 13}, {8, 15, 17}, {20, 21, 29}, {0, 1, 1}, {119, 120, 169}};
            const auto& t = trip[r.below(6)];
            const i64 k = r.in(1, std::numeric_limits<T>::max() / 200 > (i64)1 << 40 ? (i64)1 << 40 : (i64)(std::numeric_limits<T>::max() / 200));
            const P u((T)(t[0] * k), (T)(t[1] * k));
            if (u.distance_from_origin() != (T)(t[2] * k) || u.distance(P()) != (T)(t[2] * k))
                bad("distance-of-a-triple", hx::cat(u.to_string(), ": ", u.distance_from_origin(), " expected ", t[2] * k));
        }
    }
    else
    {
        auto one = [&](T got, T back, long double dx, long double dy, const char* key) {
            const long double e = std::hypot(dx, dy);
            if (e > (long double)std::numeric_limits<T>::max() / 4 || (e != 0 && e < (long double)std::numeric_limits<T>::min() * 1e10L))
                return;
            if (got != back)
                bad("distance-symmetry", hx::cat(got, " and ", back));
            const long double tol = e * 4 * std::numeric_limits<T>::epsilon();
            if (!(std::fabs((long double)got - e) <= tol))
                bad(key, hx::cat(got, " expected ", (double)e));
            hx::count("distances");
        };
        // differences themselves must not be rounded away: judge only those that T or double holds exactly enough
        const long double dx = (long double)c - (long double)a, dy = (long double)d - (long double)b;
        one(p.distance(q), q.distance(p), dx, dy, "distance");
        one(p.distance_from_origin(), p.distance(P()), a, b, "distance_from_origin");
    }
    auto text = [](T x, T y, const char* sep) { return "(" + std::to_string(x) + sep + std::to_string(y) + ")"; };
    std::ostringstream os, os2;
    os << p;
    if (p.to_string() != text(a, b, ", ") || os.str() != p.to_string())
        bad("text", p.to_string());
    // size
    {
        g::size<T> z(a, b), w(c, d);
        if (z.width() != a || z.height() != b || z.is_null() != (a == 0 && b == 0) || g::size<T>().is_null() != true || g::size<T>().width() != 0 || g::size<T>().height() != 0)
            bad("size", z.to_string());
        if ((z == w) != (a == c && b == d) || (z != w) == (a == c && b == d))
            bad("size-equality", z == w ? "equal" : "different");
        z.set_width(c);
        if (z.width() != c || z.height() != b)
            bad("set_width", z.to_string());
        z.set_height(d);
        if (z.width() != c || z.height() != d || z != w)
            bad("set_height", z.to_string());
        os2 << z;
        if (z.to_string() != text(c, d, "x") || os2.str() != z.to_string())
            bad("size-text", z.to_string());
    }
    if (hx::want_sample())
        hx::sample(hx::cat("point<", name<T>(), "> (", a, ", ", b, ") and (", c, ", ", d, ")"));
}
void points(uint64_t seed)
{
    hx::rng r(seed);
    for (int i = 0; i < 8; ++i)
    {
        point_case<int>(r);
        point_case<unsigned>(r);
        point_case<long>(r);
        point_case<long long>(r);
        point_case<float>(r);
        point_case<double>(r);
    }
}

#endif
// ------------------------------------------------------------------------------------------------------------ C32
#if !defined(ONLY) || ONLY == 32
template <typename T>
void range_case(hx::rng& r)
{
    using R = g::range<T>;
    const scale<T> v(r);
    const int bits = r.pick({1, 2, 3, 3, 8, BITS<T> - 2});
    const bool all = std::is_integral_v<T> && r.chance(20);
    auto num = [&]() -> i128 {
        if constexpr (std::is_integral_v<T>)
            if (all)
                return extreme<T>(r);
        return coord<T>(r, bits);
    };
    auto two = [&](i128& lo, i128& hi) {
        lo = num();
        hi = num();
        if (hi < lo)
            std::swap(lo, hi);
    };
    i128 a, b, c, d;
    two(a, b);
    two(c, d);
    switch (r.below(8))
    {
    case 0: c = a; d = std::max(c, d); break;
    case 1: d = b; c = std::min(c, d); break;
    case 2: c = b; d = std::max(c, d); break; // touching
    case 3: d = a; c = std::min(c, d); break;
    default: break;
    }
    const R x(v(a), v(b)), y(v(c), v(d));
    auto bad = [&](const char* key, const std::string& got) { hx::fail(key, hx::cat("range<", name<T>(), "> [", str(a), ", ", str(b), ") and [", str(c), ", ", str(d), ") (unit ", v.step, "): ", got)); };
    auto is = [&](const R& z, i128 lo, i128 hi) { return z.min() == v(lo) && z.max() == v(hi); };
    hx::state(hx::hash_str(hx::cat(name<T>(), str(a), ",", str(b), ",", str(c), ",", str(d))));
    if (!is(x, a, b) || !is(R(), 0, 0) || !R().is_null() || x.is_null() != (a == b))
        bad("getters", x.to_string());
    if (!v.fits(b - a))
        hx::count("lengths_the_type_does_not_have");
    else if (x.lenght() != v(b - a))
        bad("lenght", std::to_string(x.lenght()));
    if ((x == y) != (a == c && b == d) || (x != y) == (a == c && b == d))
        bad("equality", x == y ? "equal" : "different");
    for (int i = 0; i < 8; ++i)
    {
        const i128 k = r.pick({a, b, a + 1, b - 1, a - 1, b + 1, (a + b) / 2, num()});
        if (!v.fits(k) || (std::is_unsigned_v<T> && k < 0))
            continue;
        if (x.contains(v(k)) != (a <= k && k < b))
            bad("contains", "value " + str(k));
        const i128 e = k < a ? a : k > b ? b : k;
        if (x.clamp(v(k)) != v(e))
            bad("clamp", "value " + str(k) + " to " + std::to_string(x.clamp(v(k))));
        hx::count(k < a ? "below" : k == a ? "at_minimum" : k < b ? "inside" : k == b ? "at_maximum" : "above");
    }
    if (x.contains(y) != (c >= a && d <= b))
        bad("contains-range", x.contains(y) ? "yes" : "no");
    const bool meet = c < b && a < d;
    if (x.intersects(y) != meet || y.intersects(x) != meet)
        bad("intersects", x.intersects(y) ? "yes" : "no");
    hx::count(meet ? "overlapping" : "apart");
    for (const R& z : {x.get_intersection(y), y.get_intersection(x)})
        if (meet ? !is(z, std::max(a, c), std::min(b, d)) : z != R())
            bad("get_intersection", z.to_string());
    for (const R& z : {x.get_union(y), y.get_union(x)})
        if (!is(z, std::min(a, c), std::max(b, d)))
            bad("get_union", z.to_string());
    {
        const double t = r.chance(30) ? r.pick({0.0, 1.0, 0.5}) : (double)r.in(-1000, 2000) / 1000;
        const long double e = ((long double)a + (long double)t * (long double)(b - a)) * v.step, size = (std::fabs((long double)a) + std::fabs((long double)t * (long double)(b - a))) * v.step;
        if (!(std::fabs((long double)x.map(t) - e) <= size * 16 * std::numeric_limits<double>::epsilon()))
            bad("map", hx::cat(t, " to ", x.map(t)));
        hx::count("mapped");
    }
    const std::string text = "(" + std::to_string(v(a)) + ":" + std::to_string(v(b)) + ")";
    std::ostringstream os;
    os << x;
    if (x.to_string() != text || os.str() != text)
        bad("text", x.to_string());
    // setters
    R z = x;
    i128 lo = a, hi = b;
    std::string ops;
    for (int i = 0, n = (int)r.in(1, 8); i < n; ++i)
    {
        const i128 k = r.chance(30) ? r.pick({lo, hi}) : num();
        if (r.chance(50))
        {
            z.set_min(v(k));
            lo = k;
            hi = std::max(hi, k);
            ops += " set_min(" + str(k) + ")";
        }
        else
        {
            z.set_max(v(k));
            hi = k;
            lo = std::min(lo, k);
            ops += " set_max(" + str(k) + ")";
        }
        if (!is(z, lo, hi))
            bad("setters", ops + ": " + z.to_string());
        hx::count("setter_calls");
    }
    R w;
    w = z;
    if (!is(w, lo, hi))
        bad("assign", w.to_string());
    if (hx::want_sample())
        hx::sample(hx::cat("range<", name<T>(), "> [", str(a), ", ", str(b), ") and [", str(c), ", ", str(d), "),", ops));
}
void ranges(uint64_t seed)
{
    hx::rng r(seed);
    for (int i = 0; i < 8; ++i)
    {
        range_case<int>(r);
        range_case<unsigned>(r);
        range_case<long>(r);
        range_case<long long>(r);
        range_case<float>(r);
        range_case<double>(r);
    }
}

#endif
// ------------------------------------------------------------------------------------------------------------ C33
#if !defined(ONLY) || ONLY == 33
struct keyed // ordered by key only; every object knows which argument it was
{
    int key = 0, who = -1;
    friend bool operator==(const keyed& a, const keyed& b) { return a.key == b.key; }
    friend auto operator<=>(const keyed& a, const keyed& b) { return a.key <=> b.key; }
    friend std::ostream& operator<<(std::ostream& o, const keyed& k) { return o << k.key << "#" << k.who; }
};
template <typename T, typename Less>
void extremes(const std::vector<T>& a, Less less, const std::string& what)
{
    std::vector<std::pair<const char*, T>> mx, mn;
    if (a.size() == 2)
    {
        mx.push_back({"max of two", g::max(a[0], a[1])});
        mn.push_back({"min of two", g::min(a[0], a[1])});
    }
    else if (a.size() == 3)
    {
        mx.push_back({"max of three", g::max(a[0], a[1], a[2])});
        mn.push_back({"min of three", g::min(a[0], a[1], a[2])});
    }
    else
    {
        mx.push_back({"max of four", g::max(a[0], a[1], a[2], a[3])});
        mn.push_back({"min of four", g::min(a[0], a[1], a[2], a[3])});
    }
    for (bool max : {true, false})
        for (const auto& [key, got] : max ? mx : mn)
        {
            bool member = false, extreme = true;
            for (const T& e : a)
            {
                if constexpr (std::is_same_v<T, keyed>)
                    member = member || (e.key == got.key && e.who == got.who);
                else
                    member = member || e == got;
                extreme = extreme && !(max ? less(got, e) : less(e, got));
            }
            if (!member || !extreme)
                hx::fail(key, hx::cat(what, " gave ", got));
            hx::count(max ? "maxima" : "minima");
        }
}
template <typename T>
void math_values(hx::rng& r)
{
    std::vector<T> a;
    const size_t n = 2 + r.below(3);
    for (size_t i = 0; i < n; ++i)
        a.push_back(!a.empty() && r.chance(25) ? a[r.below(a.size())] : r.chance(50) ? (T)r.in(std::is_unsigned_v<T> ? 0 : -3, 3) : any<T>(r));
    std::string what = hx::cat(name<T>(), ":");
    for (const T& x : a)
        what += hx::cat(" ", x);
    hx::state(hx::hash_str(what));
    extremes(a, [](const T& x, const T& y) { return x < y; }, what);
    if (hx::want_sample())
        hx::sample(what);
}
void math(uint64_t seed)
{
    hx::rng r(seed);
    // every order and every pattern of ties
    for (int n = 2; n <= 4; ++n)
    {
        int total = 1;
        for (int i = 0; i < n; ++i)
            total *= n;
        for (int code = 0; code < total; ++code)
        {
            std::vector<keyed> a;
            std::string what = "keys:";
            const int off = (int)r.in(-2, 2), stretch = (int)r.in(1, 1000000);
            for (int i = 0, c = code; i < n; ++i, c /= n)
            {
                a.push_back({(c % n + off) * stretch, i});
                what += hx::cat(" ", a.back().key);
            }
            extremes(a, [](const keyed& x, const keyed& y) { return x.key < y.key; }, what);
            hx::count("order_patterns");
        }
    }
    for (int i = 0; i < 20; ++i)
    {
        math_values<int>(r);
        math_values<unsigned>(r);
        math_values<long>(r);
        math_values<float>(r);
        math_values<double>(r);
        std::vector<std::string> s;
        for (size_t k = 0, n = 2 + r.below(3); k < n; ++k)
            s.push_back(std::string(r.below(40), (char)('a' + r.below(3))));
        extremes(s, [](const std::string& x, const std::string& y) { return x < y; }, "strings");
    }
}
#endif
} // namespace

int main(int argc, char** argv)
{
    std::vector<hx::mode> m;
#if !defined(ONLY) || ONLY == 29
    m.push_back({"rect", rect});
#endif
#if !defined(ONLY) || ONLY == 30
    m.push_back({"line", lines});
#endif
#if !defined(ONLY) || ONLY == 31
    m.push_back({"point", points});
#endif
#if !defined(ONLY) || ONLY == 32
    m.push_back({"range", ranges});
#endif
#if !defined(ONLY) || ONLY == 33
    m.push_back({"math", math});
#endif
    return hx::main_(argc, argv, m);
}
