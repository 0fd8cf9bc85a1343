// random n-d array views with an element-address model, for the bland harnesses
#pragma once
#include "common.hpp"
#include <bland/bland.hpp>
#include <numeric>
#include <type_traits>

using bland::ndarray;
using bland::ndarray_slice;
using IV = std::vector<int64_t>;

template <class T> DLDataType dt_of() {
    DLDataType d{};
    d.code = std::is_floating_point<T>::value ? kDLFloat : std::is_unsigned<T>::value ? kDLUInt : kDLInt;
    d.bits = 8 * sizeof(T);
    d.lanes = 1;
    return d;
}
template <class T> std::string nm() {
    return (std::is_floating_point<T>::value ? "f" : std::is_unsigned<T>::value ? "u" : "i") + std::to_string(8 * sizeof(T));
}
template <class T> struct Tag { using type = T; };
template <class F> void each_type(F f) {
    f(Tag<float>{});
    f(Tag<int32_t>{});
    f(Tag<uint8_t>{});
    f(Tag<uint32_t>{});
}
template <class F> void every_type(F f) {
    each_type(f);
    f(Tag<double>{});
    f(Tag<int8_t>{});
    f(Tag<int16_t>{});
    f(Tag<int64_t>{});
    f(Tag<uint16_t>{});
    f(Tag<uint64_t>{});
}
inline int64_t prod(const IV &s) {
    int64_t p = 1;
    for (auto v : s) p *= v;
    return p;
}
// row-major multi-indices of a shape
inline IV unravel(int64_t k, const IV &shape) {
    IV ix(shape.size());
    for (int d = (int)shape.size() - 1; d >= 0; --d) {
        ix[d] = k % shape[d];
        k /= shape[d];
    }
    return ix;
}
inline int64_t ravel(const IV &ix, const IV &shape) {
    int64_t k = 0;
    for (size_t d = 0; d < shape.size(); ++d) k = k * shape[d] + ix[d];
    return k;
}
// linear element address of row-major element k of array a, from the array's own shape/strides/offsets
inline int64_t addr(const ndarray &a, const IV &ix) {
    auto st = a.strides(), of = a.offsets();
    int64_t l = 0;
    for (size_t d = 0; d < ix.size(); ++d) l += of[d] + ix[d] * st[d];
    return l;
}
template <class T> std::vector<T> elems(const ndarray &a) {
    auto sh = a.shape();
    int64_t n = prod(sh);
    std::vector<T> r(n);
    for (int64_t k = 0; k < n; ++k) r[k] = a.template data_ptr<T>()[addr(a, unravel(k, sh))];
    return r;
}
// a view over its own base storage
template <class T> struct View {
    ndarray base, arr;
    int64_t n = 0;        // elements of base
    std::vector<T> snap;  // contents of base
    std::vector<int64_t> at; // address of each row-major element
    IV shape;
    std::string desc;
    View() : base({1}, dt_of<T>()), arr(base) {}
    T val(int64_t k) const { return snap[at[k]]; }
    bool untouched() const { return std::memcmp(snap.data(), base.template data_ptr<T>(), n * sizeof(T)) == 0; }
    // exactly the viewed elements may differ
    bool outside_untouched() const {
        std::vector<char> in(n, 0);
        for (auto a : at) in[a] = 1;
        for (int64_t i = 0; i < n; ++i)
            if (!in[i] && std::memcmp(&snap[i], base.template data_ptr<T>() + i, sizeof(T))) return false;
        return true;
    }
};
template <class T> T small_value(int lo, int hi) {
    if (std::is_floating_point<T>::value) return (T)(hz::rng.range(lo * 4, hi * 4) * 0.25);
    if (std::is_unsigned<T>::value && lo < 0) lo = 0;
    return (T)hz::rng.range(lo, hi);
}
template <class T, class G> View<T> mkview(const IV &shape, G gen, int layout = -1) {
    View<T> v;
    v.shape = shape;
    if (layout < 0) layout = (int)hz::rng.range(0, 2);
    size_t nd = shape.size();
    IV start(nd, 0), step(nd, 1), bshape = shape;
    std::ostringstream d;
    if (layout > 0) {
        for (size_t i = 0; i < nd; ++i) {
            start[i] = hz::rng.range(0, 2);
            step[i] = layout == 2 ? hz::rng.range(1, 3) : 1;
            bshape[i] = start[i] + shape[i] * step[i] + hz::rng.range(0, 2);
        }
    }
    v.base = ndarray(bshape, dt_of<T>());
    v.n = prod(bshape);
    v.snap.resize(v.n);
    for (int64_t i = 0; i < v.n; ++i) v.snap[i] = gen();
    if (v.n) std::memcpy(v.base.template data_ptr<T>(), v.snap.data(), v.n * sizeof(T));
    ndarray cur = v.base;
    d << nm<T>() << hz::str(shape);
    if (layout > 0) {
        d << "[of " << hz::str(bshape) << " start " << hz::str(start) << " step " << hz::str(step) << "]";
        for (size_t i = 0; i < nd; ++i) {
            ndarray nxt = bland::slice(cur, (int64_t)i, start[i], start[i] + shape[i] * step[i], step[i]);
            cur = nxt;
        }
    }
    v.arr = cur;
    v.desc = d.str();
    for (int64_t k = 0; k < prod(shape); ++k) {
        auto ix = unravel(k, shape);
        for (size_t i = 0; i < nd; ++i) ix[i] = start[i] + ix[i] * step[i];
        v.at.push_back(ravel(ix, bshape));
    }
    return v;
}
inline IV rand_shape(int minrank = 1, int maxrank = 4, int maxn = 500) {
    if (maxn >= 240 && hz::rng.range(0, 99) == 0) { // now and then more elements than small integer types can count
        IV s((size_t)hz::rng.range(minrank, std::max(minrank, std::min(maxrank, 3))));
        for (auto &e : s) e = hz::rng.range(1, 3);
        auto &l = s[hz::rng.range(0, s.size() - 1)];
        l = 1;
        l = hz::rng.range(33000, 140000) / prod(s);
        return s;
    }
    if (maxrank == 4 && hz::rng.range(0, 9) == 0) minrank = maxrank = (int)hz::rng.range(5, 7);
    for (;;) {
        int r = (int)hz::rng.range(minrank, maxrank);
        IV s(r);
        for (auto &e : s) e = hz::rng.coin() ? hz::rng.range(1, 4) : hz::rng.range(1, r == 1 ? 40 : r > 4 ? 3 : 12);
        if (r < 5 && hz::rng.range(0, 3) == 0) s.back() = hz::rng.range(8, 20);
        if (prod(s) <= maxn) return s;
    }
}
template <class T> bool same(T a, T b) {
    if (std::is_floating_point<T>::value) return hz::close_to((double)a, (double)b, 2e-5, 1e-6);
    return a == b;
}
