// bounded stand-in and failing-input search for the bland n-d array properties (P01-P10, P12-P14)
#include "ndview.hpp"
#include <bland/ndarray_deferred.hpp>
#include <unistd.h>
#include <limits>
#include <algorithm>
#include <complex>

using namespace hz;

template <class A> bool check_meta(const std::string &key, const ndarray &r, const IV &shape, A) {
    using T = typename A::type;
    if (r.shape() != shape) { fail(key + ".shape", cat("result shape ", str(r.shape()), " instead of ", str(shape))); return false; }
    auto t = r.dtype();
    auto e = dt_of<T>();
    if (t.code != e.code || t.bits != e.bits) { fail(key + ".dtype", cat("result element type code ", (int)t.code, " bits ", (int)t.bits, " instead of ", nm<T>())); return false; }
    if (r.strides().size() != shape.size() || r.offsets().size() != shape.size()) { fail(key + ".layout", "strides/offsets do not match the rank"); return false; }
    return true;
}
template <class T> bool check_elems(const std::string &key, const ndarray &r, const std::vector<T> &want) {
    auto got = elems<T>(r);
    for (size_t k = 0; k < want.size(); ++k)
        if (!same(got[k], want[k])) {
            fail(key, cat("element ", str(unravel(k, r.shape())), " is ", +got[k], ", expected ", +want[k]));
            return false;
        }
    return true;
}

// ---------------------------------------------------------------- P01
template <class T, class S> void create_one() {
    IV shape = rand_shape(1, 5, 400);
    if (rng.range(0, 14) == 0) shape[rng.range(0, shape.size() - 1)] = 0;
    S val = small_value<S>(std::is_unsigned<T>::value ? 0 : -30, 90);
    note_case(cat("create ", nm<T>(), str(shape), " fill ", nm<S>(), " ", +val));
    guarded("create", [&] {
        ndarray a(shape, val, dt_of<T>());
        ndarray b(shape, dt_of<T>());
        ndarray c(shape, val, dt_of<T>());
        ndarray z = bland::zeros(shape, dt_of<T>());
        ndarray o = bland::ones(shape, dt_of<T>());
        for (auto *p : {&a, &b, &c, &z, &o}) {
            if (!check_meta("create", *p, shape, Tag<T>{})) return;
            auto dv = p->device();
            if (dv.device_type != kDLCPU || dv.device_id != 0) fail("create.device", "device is not cpu:0");
            if (p->numel() != prod(shape)) fail("create.numel", cat("numel ", p->numel()));
            if (p->ndim() != (int64_t)shape.size()) fail("create.ndim", "ndim");
            int64_t st = 1;
            for (int d = (int)shape.size() - 1; d >= 0; --d) {
                if (p->strides()[d] != st) fail("create.strides", cat("strides ", str(p->strides())));
                if (p->offsets()[d] != 0) fail("create.offsets", cat("offsets ", str(p->offsets())));
                if (p->size(d) != shape[d]) fail("create.size", "size(axis)");
                st *= shape[d];
            }
            if (!throws([&] { p->size((int64_t)shape.size()); })) fail("create.size", "size(rank) accepted");
        }
        int64_t n = prod(shape);
        for (int64_t i = 0; i < n; ++i) {
            if (a.template data_ptr<T>()[i] != static_cast<T>(val)) { fail("create.value", cat("element ", i, " is ", +a.template data_ptr<T>()[i])); break; }
            if (z.template data_ptr<T>()[i] != 0) { fail("create.zeros", "zeros"); break; }
            if (o.template data_ptr<T>()[i] != 1) { fail("create.ones", "ones"); break; }
        }
        // storages are disjoint
        for (auto *p : {&a, &b, &z, &o})
            for (int64_t i = 0; i < n; ++i) p->template data_ptr<T>()[i] = (T)7;
        for (int64_t i = 0; i < n; ++i)
            if (c.template data_ptr<T>()[i] != static_cast<T>(val)) { fail("create.shared", "writing other arrays changed this one"); break; }
    });
    // copies and assignments describe the same elements of the same storage, whatever becomes of the original
    IV vs = rand_shape(1, 4, 240);
    auto v = mkview<T>(vs, [] { return small_value<T>(0, 90); });
    note_case(cat("copies of ", v.desc));
    guarded("create.copy", [&] {
        std::vector<T> want;
        for (int64_t k = 0; k < prod(vs); ++k) want.push_back(v.val(k));
        ndarray to(rand_shape(1, 4, 20), (T)1, dt_of<T>());
        auto tmp = std::make_unique<ndarray>(v.arr);
        ndarray made(*tmp);
        to = *tmp;
        ndarray moved(std::move(*std::make_unique<ndarray>(*tmp)));
        tmp->shape();
        tmp.reset();
        for (auto *p : {&made, &to, &moved}) {
            if (!check_meta("create.copy", *p, vs, Tag<T>{})) return;
            if (p->strides() != v.arr.strides() || p->offsets() != v.arr.offsets()) { fail("create.copy", "strides or offsets of a copy differ"); return; }
            check_elems("create.copy.elements", *p, want);
            if (p->template data_ptr<T>() != v.base.template data_ptr<T>()) fail("create.copy", "a copy has another storage");
        }
    });
}
void part_create() {
    for (int it = 0; it < scale(60, 600) && !out_of_time(); ++it)
        each_type([](auto t) { each_type([](auto s) { create_one<typename decltype(t)::type, typename decltype(s)::type>(); }); });
    for (auto name : {"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"}) {
        IV shape = rand_shape(1, 4, 300);
        note_case(cat("create ", name, str(shape)));
        guarded("create", [&] {
            ndarray::datatype d(name);
            ndarray a(shape, d);
            auto t = a.dtype();
            if (a.shape() != shape || t.code != d.code || t.bits != d.bits || t.lanes != 1) fail("create.dtype", "shape or dtype");
            std::memset(a.data_ptr<char>(), 1, prod(shape) * d.bits / 8); // the storage is large enough (ASAN)
        });
    }
    // many elements: the count does not wrap (the storage is never touched)
    note_case("create u8 {65536,65536,0 or more}: element count of large shapes");
    guarded("create", [&] {
        for (IV s : {IV{65536, 0}, IV{1, 1 << 20, 1 << 11, 0}}) {
            ndarray a(s, ndarray::datatype::uint8);
            if (a.numel() != 0) fail("create.numel", "empty");
        }
    });
}

// ---------------------------------------------------------------- P02
template <class T> void slice_one() {
    IV shape = rand_shape(1, 4, 400);
    auto base = mkview<T>(shape, [] { return small_value<T>(0, 90); }, 0);
    // model: list of base addresses
    IV cur = shape;
    std::vector<int64_t> at = base.at;
    std::ostringstream d;
    d << "slice " << nm<T>() << str(shape);
    ndarray v = base.arr;
    int rounds = (int)rng.range(1, 4);
    bool multi = rng.coin();
    std::vector<bland::slice_spec> specs;
    std::string key = "slice";
    for (int r = 0; r < rounds; ++r) {
        int64_t dim = rng.range(0, cur.size() - 1);
        int64_t n = cur[dim];
        int64_t s = rng.range(0, n), e = rng.range(s, n + (rng.coin() ? 2 : 0)), st = rng.range(1, 4);
        int64_t s2 = s, e2 = e; // possibly written as offsets from the end
        if (s < n && rng.range(0, 2) == 0) s2 = s - n;
        if (e < n && rng.range(0, 2) == 0) e2 = e - n;
        int64_t ee = std::min(e, n);
        int64_t cnt = ee > s ? (ee - s + st - 1) / st : 0;
        d << " [dim " << dim << " " << s2 << ":" << e2 << ":" << st << "]";
        IV ns = cur;
        ns[dim] = cnt;
        std::vector<int64_t> nat;
        for (int64_t k = 0; k < prod(ns); ++k) {
            auto ix = unravel(k, ns);
            ix[dim] = s + ix[dim] * st;
            nat.push_back(at[ravel(ix, cur)]);
        }
        specs.push_back(bland::slice_spec{dim, s2, e2, st});
        cur = ns;
        at = nat;
        if (cnt == 0) break;
    }
    note_case(d.str());
    guarded(key, [&] {
        if (multi && specs.size() == 2) {
            ndarray t = bland::slice(v, specs[0], specs[1]);
            check_meta(key, t, cur, Tag<T>{});
            v = t;
        } else if (multi && specs.size() == 3) {
            ndarray src = v;
            ndarray t = src.slice(specs[0], specs[1], specs[2]);
            v = t;
        } else {
            for (auto &sp : specs) {
                ndarray t = bland::slice(v, sp.dim, sp.start, sp.end, sp.stride);
                v = t;
            }
        }
        if (!check_meta(key, v, cur, Tag<T>{})) return;
        if (v.numel() != prod(cur)) { fail(key + ".numel", "numel"); return; }
        if (v.data_ptr<T>() != base.base.template data_ptr<T>()) { fail(key + ".view", "not a view of the same storage"); return; }
        if (base.arr.shape() != shape) fail(key + ".source", "slicing changed the source's shape");
        for (int64_t k = 0; k < prod(cur); ++k) {
            auto ix = unravel(k, cur);
            if (addr(v, ix) != at[k]) { fail(key + ".elements", cat("element ", str(ix), " is source element ", addr(v, ix), ", expected ", at[k])); return; }
            if (v.template scalarize<T>(ix) != base.snap[at[k]]) { fail(key + ".scalarize", cat("reading ", str(ix))); return; }
        }
        // writing through the view
        T w = (T)101;
        bland::fill(v, w);
        std::set<int64_t> in(at.begin(), at.end());
        for (int64_t i = 0; i < base.n; ++i) {
            T want = in.count(i) ? w : base.snap[i];
            if (base.base.template data_ptr<T>()[i] != want) { fail(key + ".write", cat("after writing through the view source element ", i, " is ", +base.base.template data_ptr<T>()[i], " expected ", +want)); return; }
        }
    });
}
void part_slice() {
    for (int it = 0; it < scale(400, 4000) && !out_of_time(); ++it) each_type([](auto t) { slice_one<typename decltype(t)::type>(); });
    note_case("slice start beyond the end / end before start are rejected");
    guarded("slice", [&] {
        ndarray a({5, 6}, 1.0f);
        if (!throws([&] { bland::slice(a, 1, 7, 8, 1); })) fail("slice.reject", "start beyond the end accepted");
        if (!throws([&] { bland::slice(a, 1, 4, 2, 1); })) fail("slice.reject", "end before start accepted");
    });
    // a scalar read of a one-element view
    for (int it = 0; it < scale(40, 300); ++it) {
        IV sh = rand_shape(1, 3, 100);
        auto v = mkview<float>(sh, [] { return small_value<float>(-50, 50); }, 0);
        auto ix = unravel(rng.range(0, prod(sh) - 1), sh);
        note_case(cat("scalarize one-element slice of ", str(sh), " at ", str(ix)));
        guarded("slice", [&] {
            ndarray c = v.arr;
            for (size_t d = 0; d < sh.size(); ++d) { ndarray t = bland::slice(c, d, ix[d], ix[d] + 1, 1); c = t; }
            if (c.scalarize<float>() != v.val(ravel(ix, sh))) fail("slice.scalarize1", "one-element view reads another element");
        });
    }
}

// ---------------------------------------------------------------- P03
IV random_factorisation(int64_t n) {
    IV s;
    for (int64_t p = 2; p <= n; ++p)
        while (n % p == 0) { s.push_back(p); n /= p; }
    // merge some neighbours after shuffling, insert ones
    for (size_t i = s.size(); i > 1; --i) std::swap(s[i - 1], s[rng.range(0, i - 1)]);
    while (s.size() > 1 && rng.coin()) { size_t i = rng.range(0, s.size() - 2); s[i] *= s[i + 1]; s.erase(s.begin() + i + 1); }
    while (rng.range(0, 3) == 0) s.insert(s.begin() + rng.range(0, s.size()), 1);
    if (s.empty()) s = {1};
    return s;
}
template <class T> void reshape_one() {
    {
        IV shape = rand_shape(1, 4, 240);
        auto v = mkview<T>(shape, [] { return small_value<T>(0, 90); });
        IV ns = random_factorisation(prod(shape));
        note_case(cat("reshape ", v.desc, " to ", str(ns)));
        guarded("reshape", [&] {
            ndarray x = v.arr;
            ndarray r = x.reshape(ns);
            if (!check_meta("reshape", r, ns, Tag<T>{})) return;
            std::vector<T> want;
            for (int64_t k = 0; k < prod(shape); ++k) {
                want.push_back(v.val(k));
                int64_t ad = addr(r, unravel(k, ns));
                int64_t have = r.template data_ptr<T>() == v.base.template data_ptr<T>() ? v.n : prod(shape);
                if (ad < 0 || ad >= have) { fail("reshape.bounds", cat("element ", str(unravel(k, ns)), " lies outside the storage")); return; }
            }
            check_elems("reshape.elements", r, want);
            if (!v.untouched()) fail("reshape.source", "the source elements changed");
        });
        IV bad = ns;
        bad[rng.range(0, bad.size() - 1)] += 1;
        note_case(cat("reshape ", v.desc, " to ", str(bad), " must be rejected"));
        ndarray x = v.arr;
        if (!throws([&] { x.reshape(bad); })) fail("reshape.reject", "a reshape to another number of elements was accepted");
    }
    {
        IV shape = rand_shape(1, 4, 240);
        auto v = mkview<T>(shape, [] { return small_value<T>(0, 90); });
        int64_t ax = rng.range(0, shape.size());
        note_case(cat("unsqueeze ", v.desc, " axis ", ax));
        std::vector<T> want;
        for (int64_t k = 0; k < prod(shape); ++k) want.push_back(v.val(k));
        guarded("unsqueeze", [&] {
            ndarray x = v.arr;
            ndarray r = x.unsqueeze(ax);
            IV ns = shape;
            ns.insert(ns.begin() + ax, 1);
            if (check_meta("unsqueeze", r, ns, Tag<T>{})) check_elems("unsqueeze.elements", r, want);
        });
    }
    {
        IV shape = rand_shape(2, 4, 240);
        int64_t ax = rng.range(0, shape.size() - 1);
        shape[ax] = 1;
        auto v = mkview<T>(shape, [] { return small_value<T>(0, 90); });
        int64_t axw = rng.coin() ? ax : ax - (int64_t)shape.size();
        note_case(cat("squeeze ", v.desc, " axis ", axw));
        std::vector<T> want;
        for (int64_t k = 0; k < prod(shape); ++k) want.push_back(v.val(k));
        guarded("squeeze", [&] {
            ndarray x = v.arr;
            ndarray r = x.squeeze(axw);
            IV ns = shape;
            ns.erase(ns.begin() + ax);
            if (check_meta("squeeze", r, ns, Tag<T>{})) check_elems("squeeze.elements", r, want);
            // one after the other
            IV us = ns, fs = random_factorisation(prod(shape));
            int64_t ux = rng.range(0, ns.size());
            us.insert(us.begin() + ux, 1);
            ndarray u = r.unsqueeze(ux);
            if (check_meta("squeeze.unsqueeze", u, us, Tag<T>{})) check_elems("squeeze.unsqueeze.elements", u, want);
            ndarray f = rng.coin() ? r.reshape(fs) : u.reshape(fs);
            if (check_meta("squeeze.reshape", f, fs, Tag<T>{})) check_elems("squeeze.reshape.elements", f, want);
        });
        int64_t other = -1;
        for (size_t d = 0; d < shape.size(); ++d) if (shape[d] != 1) other = d;
        ndarray x = v.arr;
        if (other >= 0 && !throws([&] { x.squeeze(other); })) fail("squeeze.reject", "squeezing an axis of extent above one accepted");
        ndarray y = v.arr;
        if (!throws([&] { y.squeeze((int64_t)shape.size()); }) || !throws([&] { y.squeeze(-(int64_t)shape.size() - 1); })) fail("squeeze.reject", "squeezing an axis beyond the rank accepted");
    }
}
void part_reshape() {
    for (int it = 0; it < scale(300, 3000) && !out_of_time(); ++it) each_type([](auto t) { reshape_one<typename decltype(t)::type>(); });
}

// ---------------------------------------------------------------- P04 / P06 (arrays)
struct Shapes { IV out, a, b; };
Shapes bshapes() {
    Shapes s;
    s.out = rand_shape(1, 4, 400);
    s.a = s.b = s.out;
    int mode = (int)rng.range(0, 3);
    if (mode == 0) return s;
    for (size_t d = 0; d < s.out.size(); ++d) {
        int k = (int)rng.range(0, 5);
        if (k == 0) s.a[d] = 1;
        if (k == 1) s.b[d] = 1;
    }
    if (mode == 2) { int drop = (int)rng.range(0, s.out.size() - 1); s.b.erase(s.b.begin(), s.b.begin() + drop); }
    if (mode == 3) { int drop = (int)rng.range(0, s.out.size() - 1); s.a.erase(s.a.begin(), s.a.begin() + drop); }
    // the broadcast shape
    for (size_t d = 0; d < s.out.size(); ++d) {
        auto ext = [&](const IV &x) { int64_t o = (int64_t)d - (int64_t)(s.out.size() - x.size()); return o < 0 ? (int64_t)1 : x[o]; };
        s.out[d] = std::max(ext(s.a), ext(s.b));
    }
    return s;
}
int64_t bindex(const IV &ix, const IV &shape) {
    size_t off = ix.size() - shape.size();
    IV j(shape.size());
    for (size_t d = 0; d < shape.size(); ++d) j[d] = shape[d] == 1 ? 0 : ix[d + off];
    return ravel(j, shape);
}
template <class A> A lval() { return std::is_unsigned<A>::value ? small_value<A>(8, 15) : small_value<A>(-15, 15); }
template <class B> B rval() { B v; do v = std::is_unsigned<B>::value ? small_value<B>(1, 7) : small_value<B>(1, 7); while (v == 0); return v; }

// integers of any size whose combinations stay in range (unsigned arithmetic is modular)
template <class A> A wide_left() { return std::is_unsigned<A>::value ? (A)rng.range(0, std::numeric_limits<A>::max()) : (A)rng.range(-(1 << 22), 1 << 22); }
template <class B> B wide_right() { return std::is_unsigned<B>::value ? (B)rng.range(1, std::numeric_limits<B>::max()) : (B)(rng.range(1, 500) * (rng.coin() ? 1 : -1)); }
template <class A, class B> void binop_one() {
    auto s = bshapes();
    bool wide = !std::is_same<A, float>::value && !std::is_same<B, float>::value && rng.range(0, 2) == 0;
    auto a = mkview<A>(s.a, [&] { return wide ? wide_left<A>() : lval<A>(); });
    auto b = mkview<B>(s.b, [&] { return wide ? wide_right<B>() : rval<B>(); });
    for (int op = 0; op < 4; ++op) {
        note_case(cat(a.desc, " ", "+-*/"[op], " ", b.desc));
        std::string key = cat("binop.", (op == 0 ? "add" : op == 1 ? "sub" : op == 2 ? "mul" : "div"));
        guarded(key, [&] {
            ndarray r = op == 0 ? (rng.coin() ? bland::add(a.arr, b.arr) : a.arr + b.arr) : op == 1 ? (rng.coin() ? bland::subtract(a.arr, b.arr) : a.arr - b.arr) : op == 2 ? (rng.coin() ? bland::multiply(a.arr, b.arr) : a.arr * b.arr) : (rng.coin() ? bland::divide(a.arr, b.arr) : a.arr / b.arr);
            if (!check_meta(key, r, s.out, Tag<A>{})) return;
            std::vector<A> want;
            for (int64_t k = 0; k < prod(s.out); ++k) {
                auto ix = unravel(k, s.out);
                A x = a.val(bindex(ix, s.a));
                B y = b.val(bindex(ix, s.b));
                want.push_back(op == 0 ? static_cast<A>(x + y) : op == 1 ? static_cast<A>(x - y) : op == 2 ? static_cast<A>(x * y) : static_cast<A>(x / y));
            }
            check_elems(key + ".elements", r, want);
            if (!a.untouched() || !b.untouched()) fail(key + ".operands", "an operand changed");
        });
    }
}
void part_binop() {
    for (int it = 0; it < scale(60, 800) && !out_of_time(); ++it)
        each_type([](auto t) { each_type([](auto s) { binop_one<typename decltype(t)::type, typename decltype(s)::type>(); }); });
    for (int it = 0; it < 60; ++it) {
        IV a = rand_shape(1, 3, 200), b = a;
        int64_t d = rng.range(0, a.size() - 1);
        a[d] = rng.range(2, 5);
        b[d] = a[d] + rng.range(1, 3);
        note_case(cat("incompatible shapes ", str(a), " ", str(b), " must be rejected"));
        ndarray x(a, 1.0f), y(b, 1.0f);
        if (!throws([&] { x + y; }) || !throws([&] { x - y; }) || !throws([&] { x * y; }) || !throws([&] { x / y; })) fail("binop.reject", "incompatible shapes accepted");
    }
}

// ---------------------------------------------------------------- P05
template <class A, class S> void scalar_one() {
    IV shape = rand_shape(1, 4, 300);
    bool wide = !std::is_same<A, float>::value && !std::is_same<S, float>::value && rng.range(0, 2) == 0;
    auto a = mkview<A>(shape, [&] { return wide ? wide_left<A>() : lval<A>(); });
    auto z = mkview<A>(shape, [&] { return std::is_same<A, float>::value ? (A)(rng.range(1, 28) * 0.25) : wide ? wide_right<A>() : rval<A>(); });
    S s = wide ? wide_right<S>() : rval<S>(), t = wide ? wide_left<S>() : std::is_unsigned<S>::value || std::is_unsigned<A>::value ? small_value<S>(8, 15) : small_value<S>(-15, 15);
    for (int op = 0; op < 8; ++op) {
        bool left = op >= 4;
        int o = op % 4, by = rng.range(0, 2);     // the operator, the function or the member
        auto &v = left ? z : a;
        note_case(left ? cat(nm<S>(), " ", +t, " ", "+-*/"[o], " ", v.desc) : cat(v.desc, " ", "+-*/"[o], " ", nm<S>(), " ", +s));
        std::string key = cat("scalar.", (left ? "left_" : ""), (o == 0 ? "add" : o == 1 ? "sub" : o == 2 ? "mul" : "div"));
        guarded(key, [&] {
            ndarray r = left ? (o == 0 ? t + v.arr : o == 1 ? t - v.arr : o == 2 ? t * v.arr : t / v.arr) : by == 0 ? (o == 0 ? v.arr + s : o == 1 ? v.arr - s : o == 2 ? v.arr * s : v.arr / s) : by == 1 ? (o == 0 ? bland::add(v.arr, s) : o == 1 ? bland::subtract(v.arr, s) : o == 2 ? bland::multiply(v.arr, s) : bland::divide(v.arr, s))
                    : (o == 0 ? v.arr.add(s) : o == 1 ? v.arr.subtract(s) : o == 2 ? v.arr.multiply(s) : v.arr.divide(s));
            if (!check_meta(key, r, shape, Tag<A>{})) return;
            std::vector<A> want;
            for (int64_t k = 0; k < prod(shape); ++k) {
                A x = v.val(k);
                if (left) want.push_back(o == 0 ? static_cast<A>(t + x) : o == 1 ? static_cast<A>(t - x) : o == 2 ? static_cast<A>(t * x) : static_cast<A>(t / x));
                else want.push_back(o == 0 ? static_cast<A>(x + s) : o == 1 ? static_cast<A>(x - s) : o == 2 ? static_cast<A>(x * s) : static_cast<A>(x / s));
            }
            check_elems(key + ".elements", r, want);
            if (!v.untouched()) fail(key + ".operands", "the array operand changed");
        });
    }
}
void part_scalar() {
    for (int it = 0; it < scale(50, 700) && !out_of_time(); ++it)
        each_type([](auto t) { each_type([](auto s) { scalar_one<typename decltype(t)::type, typename decltype(s)::type>(); }); });
}

// ---------------------------------------------------------------- P06
const char *OPN[] = {">", ">=", "<", "<=", "==", "&"};
template <class A, class B> uint8_t truth(int op, A x, B y) {
    switch (op) {
    case 0: return x > y;
    case 1: return x >= y;
    case 2: return x < y;
    case 3: return x <= y;
    case 4: return x == y;
    }
    return 0;
}
template <class A, class B> struct AndOp { static uint8_t call(A x, B y) { return static_cast<uint8_t>(x & y); } };
template <class B> struct AndOp<float, B> { static uint8_t call(float, B) { return 0; } };
template <class A> struct AndOp<A, float> { static uint8_t call(A, float) { return 0; } };
template <> struct AndOp<float, float> { static uint8_t call(float, float) { return 0; } };
template <class L, class R> ndarray cmp_call(int op, const L &l, const R &r, bool named) {
    switch (op) {
    case 0: return named ? bland::greater_than(l, r) : l > r;
    case 1: return named ? bland::greater_than_equal_to(l, r) : l >= r;
    case 2: return named ? bland::less_than(l, r) : l < r;
    case 3: return named ? bland::less_than_equal_to(l, r) : l <= r;
    case 4: return named ? bland::equal_to(l, r) : l == r;
    }
    if constexpr (!std::is_same<L, float>::value && !std::is_same<R, float>::value) return named ? bland::logical_and(l, r) : l & r;
    return ndarray({1});
}
template <class T> T any_value(int64_t center) {
    int64_t v = center + rng.range(-2, 2);
    if (std::is_same<T, float>::value) return (T)v;
    v = std::min<int64_t>(std::max<int64_t>(v, (int64_t)std::numeric_limits<T>::lowest()), (int64_t)std::numeric_limits<T>::max());
    return (T)v;
}
template <class A, class B> void cmp_one() {
    constexpr bool fl = std::is_same<A, float>::value || std::is_same<B, float>::value;
    auto s = bshapes();
    // few different small values, or few different values of any size next to each other
    bool wide = rng.range(0, 2) == 0;
    int64_t center = rng.pick<int64_t>({1 << 24, INT32_MAX - 4, INT32_MIN + 4ll, UINT32_MAX - 4ll, -(1 << 24), 255, 256, rng.range(-(1ll << 31), (1ll << 32) - 1)});
    auto value = [&](auto t) { using T = decltype(t); return wide ? any_value<T>(center) : small_value<T>(std::is_signed<T>::value ? -4 : 0, 7); };
    auto a = mkview<A>(s.a, [&] { return value(A{}); });
    auto b = mkview<B>(s.b, [&] { return value(B{}); });
    B sc = value(B{});
    for (int op = 0; op < (fl ? 5 : 6); ++op) {
        auto want1 = [&](A x, B y) { return op == 5 ? AndOp<A, B>::call(x, y) : truth(op, x, y); };
        std::string on = op == 0 ? "gt" : op == 1 ? "ge" : op == 2 ? "lt" : op == 3 ? "le" : op == 4 ? "eq" : "and";
        bool named = rng.coin();
        note_case(cat(a.desc, " ", OPN[op], " ", b.desc));
        guarded("compare." + on, [&] {
            ndarray r = cmp_call<ndarray, ndarray>(op, a.arr, b.arr, named);
            if (!check_meta("compare." + on, r, s.out, Tag<uint8_t>{})) return;
            std::vector<uint8_t> want;
            for (int64_t k = 0; k < prod(s.out); ++k) {
                auto ix = unravel(k, s.out);
                want.push_back(want1(a.val(bindex(ix, s.a)), b.val(bindex(ix, s.b))));
            }
            check_elems("compare." + on + ".elements", r, want);
        });
        note_case(cat(a.desc, " ", OPN[op], " ", nm<B>(), " ", +sc));
        guarded("compare." + on, [&] {
            ndarray r = cmp_call<ndarray, B>(op, a.arr, sc, named);
            if (!check_meta("compare." + on, r, s.a, Tag<uint8_t>{})) return;
            std::vector<uint8_t> want;
            for (int64_t k = 0; k < prod(s.a); ++k) want.push_back(want1(a.val(k), sc));
            check_elems("compare." + on + ".scalar.elements", r, want);
        });
        note_case(cat(nm<B>(), " ", +sc, " ", OPN[op], " ", a.desc));
        guarded("compare." + on, [&] {
            ndarray r = cmp_call<B, ndarray>(op, sc, a.arr, named);
            if (!check_meta("compare." + on, r, s.a, Tag<uint8_t>{})) return;
            std::vector<uint8_t> want;
            for (int64_t k = 0; k < prod(s.a); ++k) want.push_back(op == 5 ? AndOp<B, A>::call(sc, a.val(k)) : truth(op, sc, a.val(k)));
            check_elems("compare." + on + ".left_scalar.elements", r, want);
        });
        if (!a.untouched() || !b.untouched()) fail("compare.operands", "an operand changed");
    }
}
void part_compare() {
    for (int it = 0; it < scale(40, 500) && !out_of_time(); ++it)
        each_type([](auto t) { each_type([](auto s) { cmp_one<typename decltype(t)::type, typename decltype(s)::type>(); }); });
}

// ---------------------------------------------------------------- P07
// any value of A that the operation maps into O: 0 copy, 1 square, 2 square root, 3 absolute value
template <class A, class O> A wide_value(int op) {
    bool sa = !std::is_unsigned<A>::value, so = !std::is_unsigned<O>::value;
    double hi = std::min<double>(std::is_same<A, float>::value ? 1e9 : (double)std::numeric_limits<A>::max(), std::is_same<O, float>::value ? 4e9 : (double)std::numeric_limits<O>::max());
    double lo = sa && (so || op == 1 || op == 3) ? -std::min(hi, 2147483647.0) : 0;
    if (op == 1) { hi = std::floor(std::sqrt(std::min(hi, sizeof(A) < 4 ? 60000.0 : 2147483647.0))); lo = lo < 0 ? -hi : 0; if (sizeof(A) < 4) hi = std::min(hi, 255.0); }
    if (op == 2) return small_value<A>(0, 100);
    return static_cast<A>(std::floor(lo + rng.uniform() * (hi - lo)));
}
template <class A, class O> void unary_one() {
    bool wide = rng.range(0, 2) == 0;
    IV shape = rand_shape(1, 4, 300);
    auto a = mkview<A>(shape, [] { return std::is_unsigned<O>::value ? small_value<A>(0, 15) : small_value<A>(-15, 15); });
    auto p = mkview<A>(shape, [] { return small_value<A>(0, 100); });
    // broadcasting source for stores into an array
    IV bs = shape;
    if (rng.coin()) for (auto &e : bs) if (rng.range(0, 2) == 0) e = 1;
    auto c = mkview<A>(bs, [] { return std::is_unsigned<O>::value ? small_value<A>(0, 15) : small_value<A>(-15, 15); });
    auto idx = [&](int64_t k, const View<A> &v) { return v.val(bindex(unravel(k, shape), v.shape)); };
    auto f = [&](int op, A x) -> double { return op == 0 ? (double)x : op == 1 ? (double)(x * x) : op == 2 ? std::sqrt((double)x) : std::fabs((double)x); };
    const char *ON[] = {"copy", "square", "sqrt", "abs"};
    for (int op = 0; op < 4; ++op) {
        auto aw = mkview<A>(shape, [&] { return wide_value<A, A>(op); });
        auto &src = op == 2 ? p : wide ? aw : a;
        if (std::is_same<A, O>::value) {
            note_case(cat(ON[op], "(", src.desc, ")"));
            guarded(cat("unary.", ON[op]), [&] {
                ndarray r = op == 0 ? bland::copy(src.arr) : op == 1 ? bland::square(src.arr) : op == 2 ? bland::sqrt(src.arr) : bland::abs(src.arr);
                if (!check_meta(cat("unary.", ON[op]), r, shape, Tag<A>{})) return;
                std::vector<A> want;
                for (int64_t k = 0; k < prod(shape); ++k) want.push_back(static_cast<A>(f(op, src.val(k))));
                check_elems(cat("unary.", ON[op], ".elements"), r, want);
                if (!src.untouched()) fail("unary.source", "the source changed");
                if (r.template data_ptr<A>() == src.base.template data_ptr<A>()) fail("unary.alias", "the result shares the source's storage");
            });
        }
        auto cw = mkview<A>(bs, [&] { return wide_value<A, O>(op); });
        auto &src2 = op == 2 ? p : wide ? cw : c;
        auto o = mkview<O>(shape, [] { return small_value<O>(0, 90); });
        note_case(cat(ON[op], "(", src2.desc, ") into ", o.desc));
        guarded(cat("unary.", ON[op]), [&] {
            ndarray dst = o.arr;
            if (op == 0) bland::copy(src2.arr, dst);
            else if (op == 1) bland::square(src2.arr, dst);
            else if (op == 2) bland::sqrt(src2.arr, dst);
            else bland::abs(src2.arr, dst);
            std::vector<O> want;
            for (int64_t k = 0; k < prod(shape); ++k) want.push_back(static_cast<O>(f(op, idx(k, src2))));
            for (int64_t k = 0; k < prod(shape); ++k)
                if (!same(o.base.template data_ptr<O>()[o.at[k]], want[k])) { fail(cat("unary.", ON[op], ".store"), cat("element ", str(unravel(k, shape)), " is ", +o.base.template data_ptr<O>()[o.at[k]], " expected ", +want[k])); break; }
            if (!o.outside_untouched()) fail(cat("unary.", ON[op], ".outside"), "elements outside the view changed");
            if (!src2.untouched()) fail("unary.source", "the source changed");
        });
    }
    // fill and slice assignment
    auto o = mkview<O>(shape, [] { return small_value<O>(0, 90); });
    A val = wide ? wide_value<A, O>(0) : small_value<A>(0, 90);
    note_case(cat("fill ", o.desc, " with ", nm<A>(), " ", +val));
    guarded("fill", [&] {
        bland::fill(o.arr, val);
        for (int64_t k = 0; k < prod(shape); ++k)
            if (o.base.template data_ptr<O>()[o.at[k]] != static_cast<O>(val)) { fail("fill.elements", cat("element ", str(unravel(k, shape)))); break; }
        if (!o.outside_untouched()) fail("fill.outside", "elements outside the view changed");
    });
    auto q = mkview<O>(shape, [] { return small_value<O>(0, 90); });
    note_case(cat("assign ", a.desc, " to slice ", q.desc));
    guarded("assign", [&] {
        ndarray_slice sl(q.arr);
        sl = a.arr;
        for (int64_t k = 0; k < prod(shape); ++k)
            if (!same(q.base.template data_ptr<O>()[q.at[k]], static_cast<O>(a.val(k)))) { fail("assign.elements", cat("element ", str(unravel(k, shape)))); break; }
        if (!q.outside_untouched()) fail("assign.outside", "elements outside the view changed");
    });
}
void part_unary() {
    for (int it = 0; it < 60; ++it) {
        IV shape = rand_shape(1, 3, 100), other = shape;
        if (rng.coin()) { int64_t d = rng.range(0, other.size() - 1); other[d] = shape[d] + 1 + (shape[d] == 1); if (shape[d] == 1) shape[d] = 2; other[d] = shape[d] + rng.range(1, 4); }
        else other.insert(other.begin(), 1);
        note_case(cat("copy ", str(shape), " into ", str(other), " must be rejected"));
        ndarray a(shape, 1.0f), o(other, 2.0f);
        if (!throws([&] { bland::copy(a, o); })) fail("unary.reject", "a copy into an array of another shape was accepted");
        else for (int64_t k = 0; k < prod(other); ++k) if (o.data_ptr<float>()[k] != 2.0f) { fail("unary.reject", "a rejected copy changed its destination"); break; }
    }
    for (int it = 0; it < scale(60, 700) && !out_of_time(); ++it)
        each_type([](auto t) { each_type([](auto s) { unary_one<typename decltype(t)::type, typename decltype(s)::type>(); }); });
}

// ---------------------------------------------------------------- P08 / P09
IV rand_axes(size_t rank) {
    IV ax;
    for (size_t d = 0; d < rank; ++d) if (rng.coin()) ax.push_back(d);
    for (size_t i = ax.size(); i > 1; --i) std::swap(ax[i - 1], ax[rng.range(0, i - 1)]);
    return ax;
}
// groups[o] = row-major element numbers reduced into output o
std::vector<std::vector<int64_t>> groups_of(const IV &shape, IV axes, IV &oshape) {
    if (axes.empty()) for (size_t d = 0; d < shape.size(); ++d) axes.push_back(d);
    oshape.clear();
    std::vector<size_t> keep;
    for (size_t d = 0; d < shape.size(); ++d) if (std::find(axes.begin(), axes.end(), (int64_t)d) == axes.end()) { keep.push_back(d); oshape.push_back(shape[d]); }
    if (oshape.empty()) oshape = {1};
    std::vector<std::vector<int64_t>> g(prod(oshape));
    for (int64_t k = 0; k < prod(shape); ++k) {
        auto ix = unravel(k, shape);
        int64_t o = 0;
        for (auto d : keep) o = o * shape[d] + ix[d];
        g[o].push_back(k);
    }
    return g;
}
template <class T> void reduce_one() {
    IV shape = rand_shape(1, 4, 300);
    bool fl = std::is_same<T, float>::value;
    // floats now and then of another magnitude: all equal, large, or far from zero
    int mode = fl && prod(shape) < 1000 ? (int)rng.range(0, 7) : 7;
    double mag = mode == 0 ? rng.pick<double>({0.1f, 1e25f, 3e-15f, 1.0f / 3, 1e4f + 1.0f / 3}) : mode == 1 ? 1e18 : mode == 2 ? 1e4 : 1, tol = 1e-3 * std::max(1.0, mag) * (mode == 2 ? 1e-4 : 1);
    auto a = mkview<T>(shape, [&] { auto x = std::is_unsigned<T>::value ? small_value<T>(0, 40) : small_value<T>(-40, 40); return mode == 0 ? (T)mag : mode == 1 ? (T)(x * mag) : mode == 2 ? (T)(x + mag) : x; });
    IV axes = rand_axes(shape.size()), oshape;
    auto g = groups_of(shape, axes, oshape);
    const char *ON[] = {"sum", "max", "mean", "stddev", "mean_stddev", "var"};
    for (int op = 0; op < 6; ++op) {
        if (op >= 3 && !fl) continue;
        if (op == 2 && std::is_same<T, uint8_t>::value) continue;
        if (op == 5 && mode < 2 && mag > 1e15) continue;     // the variance is no float
        std::vector<T> want, want2;
        for (auto &gr : g) {
            double s = 0, m = -1e300;
            for (auto k : gr) { double x = a.val(k); s += x; m = std::max(m, x); }
            double n = gr.size(), mu = s / n, sd = 0;
            for (auto k : gr) { double x = a.val(k) - mu; sd += x * x; }
            sd = std::sqrt(sd / n);
            if (op == 0) want.push_back(fl ? (T)s : (T)(int64_t)s);
            else if (op == 1) want.push_back((T)m);
            else if (op == 2 || op == 4) want.push_back(fl ? (T)mu : (T)((int64_t)s / (int64_t)n));
            else if (op == 3) want.push_back((T)sd);
            else want.push_back((T)(sd * sd));
            want2.push_back((T)sd);
        }
        int64_t n0 = g[0].size();
        auto cmp = [&](const std::string &key, const ndarray &r, const std::vector<T> &w) {
            if (!check_meta(key, r, oshape, Tag<T>{})) return;
            auto got = elems<T>(r);
            for (size_t k = 0; k < w.size(); ++k)
                if (fl ? !close_to(got[k], w[k], 1e-4, tol) : got[k] != w[k]) { fail(key + ".elements", cat("output ", str(unravel(k, oshape)), " is ", +got[k], ", expected ", +w[k], " over ", n0, " elements")); return; }
        };
        std::string key = cat("reduce.", ON[op]);
        note_case(cat(ON[op], "(", a.desc, ", axes ", str(axes), ")"));
        guarded(key, [&] {
            if (op == 4) {
                auto r = bland::mean_stddev(a.arr, axes);
                cmp(key, r.first, want);
                cmp(key, r.second, want2);
            } else {
                ndarray r = op == 0 ? bland::sum(a.arr, axes) : op == 1 ? bland::max(a.arr, axes) : op == 2 ? bland::mean(a.arr, axes) : op == 3 ? bland::stddev(a.arr, axes) : bland::var(a.arr, axes);
                cmp(key, r, want);
            }
            if (!a.untouched()) fail("reduce.source", "the source changed");
        });
        if (op == 4) {
            auto o = mkview<T>(oshape, [] { return small_value<T>(0, 90); });
            auto q = mkview<T>(oshape, [] { return small_value<T>(0, 90); });
            note_case(cat("mean_stddev(", a.desc, ", axes ", str(axes), ") into ", o.desc, " and ", q.desc));
            guarded(key, [&] {
                ndarray d1 = o.arr, d2 = q.arr;
                bland::mean_stddev(a.arr, d1, d2, axes);
                for (size_t k = 0; k < want.size(); ++k) {
                    double m = o.base.template data_ptr<T>()[o.at[k]], sd = q.base.template data_ptr<T>()[q.at[k]];
                    if (!close_to(m, want[k], 1e-4, tol) || !close_to(sd, want2[k], 1e-4, tol)) { fail(key + ".store", cat("output ", str(unravel(k, oshape)), " is ", m, " and ", sd, " expected ", +want[k], " and ", +want2[k])); break; }
                }
                if (!o.outside_untouched() || !q.outside_untouched()) fail(key + ".outside", "elements outside the results changed");
            });
        } else {
            auto o = mkview<T>(oshape, [] { return small_value<T>(0, 90); });
            note_case(cat(ON[op], "(", a.desc, ", axes ", str(axes), ") into ", o.desc));
            guarded(key, [&] {
                ndarray dst = o.arr;
                if (op == 0) bland::sum(a.arr, dst, axes); else if (op == 1) bland::max(a.arr, dst, axes); else if (op == 2) bland::mean(a.arr, dst, axes); else if (op == 3) bland::stddev(a.arr, dst, axes); else bland::var(a.arr, dst, axes);
                for (size_t k = 0; k < want.size(); ++k) {
                    T got = o.base.template data_ptr<T>()[o.at[k]];
                    if (fl ? !close_to(got, want[k], 1e-4, tol) : got != want[k]) { fail(key + ".store", cat("output ", str(unravel(k, oshape)), " is ", +got, " expected ", +want[k])); break; }
                }
                if (!o.outside_untouched()) fail(key + ".outside", "elements outside the result changed");
            });
        }
    }
    note_case(cat("count_true(", a.desc, ")"));
    guarded("reduce.count", [&] {
        auto b = mkview<T>(shape, [] { return (T)rng.range(0, 2); });
        int64_t want = 0;
        for (int64_t k = 0; k < prod(shape); ++k) want += b.val(k) != 0;
        if (bland::count_true(b.arr) != want) fail("reduce.count_true", cat("count ", bland::count_true(b.arr), " expected ", want));
    });
}
void part_reduce() {
    for (int it = 0; it < scale(250, 2500) && !out_of_time(); ++it) each_type([](auto t) { reduce_one<typename decltype(t)::type>(); });
}
void part_masked() {
    for (int it = 0; it < scale(600, 6000) && !out_of_time(); ++it) {
        IV shape = rand_shape(1, 4, 300);
        IV axes = rand_axes(shape.size()), oshape;
        auto g = groups_of(shape, axes, oshape);
        int density = (int)rng.range(0, 3);
        bool bits = rng.coin();
        auto m = mkview<uint8_t>(shape, [&] { return (uint8_t)(rng.range(0, 3) < density ? (bits ? rng.range(1, 255) : 1) : 0); });
        int mode = prod(shape) < 1000 ? (int)rng.range(0, 7) : 7;
        float mag = mode == 0 ? rng.pick<float>({0.1f, 1e25f, 3e-15f, 1.0f / 3, 1e4f + 1.0f / 3}) : mode == 1 ? 1e18f : mode == 2 ? 1e4f : 1;
        double mul = std::max(1.0f, mag) * (mode == 2 ? 1e-4 : 1);
        bool nvar = mag > 1e15f;      // the variance is no float
        auto a = mkview<float>(shape, [&] { auto x = small_value<float>(-40, 40); return mode == 0 ? mag : mode == 1 ? x * mag : mode == 2 ? x + mag : x; });
        // every group keeps an unmasked element; masked elements may hold anything
        for (auto &gr : g) {
            bool any = false;
            for (auto k : gr) any |= m.val(k) == 0;
            if (!any) m.snap[m.at[gr[rng.range(0, gr.size() - 1)]]] = 0;
        }
        bool poison = rng.coin();
        if (poison)
            for (int64_t k = 0; k < prod(shape); ++k)
                if (m.val(k)) a.snap[a.at[k]] = rng.coin() ? std::numeric_limits<float>::quiet_NaN() : 1e30f;
        std::memcpy(m.base.data_ptr<uint8_t>(), m.snap.data(), m.n);
        std::memcpy(a.base.data_ptr<float>(), a.snap.data(), a.n * 4);
        std::vector<float> wm, ws;
        for (auto &gr : g) {
            double s = 0, s2 = 0, n = 0;
            for (auto k : gr) if (!m.val(k)) { s += a.val(k); n++; }
            wm.push_back((float)(s / n));
            s2 = 0;
            for (auto k : gr) if (!m.val(k)) { double x = a.val(k) - s / n; s2 += x * x; }
            ws.push_back((float)std::sqrt(s2 / n));
        }
        auto cmp = [&](const std::string &key, const ndarray &r, const std::vector<float> &w, double abs_) {
            if (!check_meta(key, r, oshape, Tag<float>{})) return;
            auto got = elems<float>(r);
            for (size_t k = 0; k < w.size(); ++k)
                if (!close_to(got[k], w[k], 1e-4, abs_)) { fail(key + ".elements", cat("output ", str(unravel(k, oshape)), " is ", got[k], ", expected ", w[k])); return; }
        };
        note_case(cat("masked statistics of ", a.desc, " mask ", m.desc, " axes ", str(axes), " density ", density, poison ? " poisoned" : ""));
        guarded("masked", [&] {
            cmp("masked.mean", bland::masked_mean(a.arr, m.arr, axes), wm, 1e-3 * mul);
            cmp("masked.stddev", bland::masked_stddev(a.arr, m.arr, axes), ws, 2e-3 * mul);
            auto r = bland::masked_mean_stddev(a.arr, m.arr, axes);
            cmp("masked.pair_mean", r.first, wm, 1e-3 * mul);
            cmp("masked.pair_stddev", r.second, ws, 2e-3 * mul);
            std::vector<float> wv;
            for (auto x : ws) wv.push_back(x * x);
            if (!nvar) cmp("masked.var", bland::masked_var(a.arr, m.arr, axes), wv, 0.05);
            for (int which = 0; which < 4; ++which) {
                auto o = mkview<float>(oshape, [] { return small_value<float>(0, 90); });
                auto q = mkview<float>(oshape, [] { return small_value<float>(0, 90); });
                ndarray d1 = o.arr, d2 = q.arr;
                if (which == 2 && nvar) continue;
                if (which == 0) bland::masked_mean(a.arr, m.arr, d1, axes);
                else if (which == 1) bland::masked_stddev(a.arr, m.arr, d1, axes);
                else if (which == 2) bland::masked_var(a.arr, m.arr, d1, axes);
                else bland::masked_mean_stddev(a.arr, m.arr, d1, d2, axes);
                auto &w1 = which == 1 ? ws : which == 2 ? wv : wm;
                for (size_t k = 0; k < w1.size(); ++k) {
                    double x = o.base.data_ptr<float>()[o.at[k]], y = q.base.data_ptr<float>()[q.at[k]];
                    if (!close_to(x, w1[k], 1e-4, 0.05 * mul) || (which == 3 && !close_to(y, ws[k], 1e-4, 2e-3 * mul))) { fail(cat("masked.store.", which), cat("output ", str(unravel(k, oshape)), " of ", o.desc, " is ", x, which == 3 ? cat(" with deviation ", y, " of ", q.desc) : std::string(), ", expected ", w1[k])); break; }
                }
                if (!o.outside_untouched() || (which == 3 && !q.outside_untouched())) fail("masked.outside", "elements outside the result changed");
            }
            if (!a.untouched() || !m.untouched()) fail("masked.source", "an input changed");
        });
    }
}

void part_masked_reject() {
    for (int it = 0; it < 40; ++it) {
        IV shape = rand_shape(1, 3, 100), other = shape;
        other[rng.range(0, other.size() - 1)] += 1;
        note_case(cat("mask of shape ", str(other), " or of another type for data ", str(shape), " must be rejected"));
        ndarray a(shape, 1.0f), m(shape, (int32_t)0, ndarray::datatype::int32), u(shape, (uint32_t)0, ndarray::datatype::uint32), o(other, (uint8_t)0, ndarray::datatype::uint8);
        for (auto *x : {&m, &u, &o})
            if (!throws([&] { bland::masked_mean(a, *x); }) || !throws([&] { bland::masked_stddev(a, *x); }) || !throws([&] { bland::masked_mean_stddev(a, *x); })) fail("masked.reject", "an unsuitable mask was accepted");
        note_case(cat("everything masked in ", str(shape), " must be rejected"));
        ndarray all(shape, (uint8_t)4, ndarray::datatype::uint8);
        if (!throws([&] { bland::masked_mean(a, all); }) || !throws([&] { bland::masked_stddev(a, all); }) || !throws([&] { bland::masked_mean_stddev(a, all); })) fail("masked.empty", "statistics of no elements were returned");
    }
}

// ---------------------------------------------------------------- P10
// the element type can hold every value of the range
template <class O> bool holds(long double a, long double b) {
    if (std::is_floating_point<O>::value) return true;
    long double lo = std::numeric_limits<O>::lowest(), hi = std::numeric_limits<O>::max();
    return a > lo - 1 && a < hi + 1 && b > lo - 1 && b < hi + 1;
}
template <class T> void range_one() {
    constexpr bool F = std::is_floating_point<T>::value, U = std::is_unsigned<T>::value;
    constexpr bool tiny = sizeof(T) == 1;
    T start, end, step;
    int64_t cnt = rng.range(0, tiny ? 30 : 60);
    if (!tiny && rng.range(0, 19) == 0) cnt = rng.range(200, sizeof(T) == 2 ? 3000 : 70000);
    if (U) { start = (T)rng.range(0, 20); step = (T)rng.range(1, 3); }
    else { start = small_value<T>(-20, 20); do step = small_value<T>(-3, 3); while (step == 0); }
    if (sizeof(T) == 8 && rng.coin()) start += (T)5000000000LL;
    if (sizeof(T) >= 4 && !F && rng.range(0, 3) == 0) step *= (T)rng.range(1, 9000);
    // cnt whole steps and a part of another one
    double frac = rng.coin() ? 0 : 0.75;
    end = (T)(start + step * (T)cnt);
    int64_t want = cnt;
    if (frac > 0) {
        T part = F ? (T)(step * 0.5f) : (T)(step > 0 ? step - 1 : step + 1);
        end = (T)(end + part);
    }
    bool inferred = rng.coin();
    every_type([&](auto o) {
        using O = typename decltype(o)::type;
        if (!holds<O>(start, end) || !holds<O>(start, (long double)start + (long double)step * cnt)) return;
        bool inf = inferred && std::is_same<O, T>::value;
        note_case(cat("arange ", nm<T>(), " ", +start, " ", +end, " ", +step, " as ", inf ? "inferred" : nm<O>()));
        guarded("arange", [&] {
            ndarray r = inf ? bland::arange<T, T, T>(start, end, step) : bland::arange<T, T, T>(start, end, step, dt_of<O>());
            if (!check_meta("arange", r, IV{want}, o)) return;
            for (int64_t k = 0; k < want; ++k)
                if (!same(r.template data_ptr<O>()[k], static_cast<O>(start + step * (T)k))) { fail("arange.elements", cat("element ", k, " is ", +r.template data_ptr<O>()[k])); break; }
        });
    });
    int64_t n = rng.range(1, 50);
    if (rng.range(0, 9) == 0) n = rng.range(200, 70000);
    T lo = U ? (T)rng.range(0, 60) : small_value<T>(-60, 60), hi = U ? (T)rng.range(0, 60) : small_value<T>(-60, 60);
    if (sizeof(T) >= 4 && !F && rng.coin()) { lo *= (T)1000000; hi *= (T)1000000; }
    if (sizeof(T) == 8 && !F && rng.coin()) { lo *= (T)1000000; hi *= (T)1000000; }
    if (U && hi < lo) std::swap(lo, hi);
    every_type([&](auto o) {
        using O = typename decltype(o)::type;
        if (!holds<O>(lo, hi)) return;
        note_case(cat("linspace ", nm<T>(), " ", +lo, " ", +hi, " count ", n, " as ", nm<O>()));
        guarded("linspace", [&] {
            ndarray r = bland::linspace<T>(lo, hi, (size_t)n, dt_of<O>());
            if (!check_meta("linspace", r, IV{n}, o)) return;
            for (int64_t k = 0; k < n; ++k) {
                long double w = F ? (long double)lo + ((long double)hi - (long double)lo) / n * k : (long double)((int64_t)lo + ((int64_t)hi - (int64_t)lo) / n * k);
                long double got = r.template data_ptr<O>()[k];
                bool ok = std::is_floating_point<O>::value ? close_to(got, w, sizeof(O) == 8 && sizeof(T) == 8 ? 1e-11 : 1e-4, 1e-4)
                          : F ? std::fabs(got - std::trunc(w)) <= (std::fabs(w - std::round(w)) < 1e-3 ? 1 : 0) : got == w;
                if (!ok) { fail("linspace.elements", cat("element ", k, " is ", got, " expected ", w)); break; }
            }
        });
    });
}
template <class T> void linspace_inferred() {
    int64_t n = rng.range(1, 40);
    T lo = (T)rng.range(0, 60), hi = (T)(lo + rng.range(0, 60));
    note_case(cat("linspace ", nm<T>(), " ", +lo, " ", +hi, " count ", n, " inferred"));
    guarded("linspace", [&] {
        ndarray r = bland::linspace<T>(lo, hi, (size_t)n);
        if (!check_meta("linspace", r, IV{n}, Tag<T>{})) return;
        for (int64_t k = 0; k < n; ++k) {
            double w = std::is_floating_point<T>::value ? lo + (double)(hi - lo) / n * k : (double)((int64_t)lo + ((int64_t)hi - (int64_t)lo) / n * k);
            if (!close_to((double)r.template data_ptr<T>()[k], w, 1e-4, 1e-4)) { fail("linspace.elements", cat("element ", k)); break; }
        }
    });
}
void part_range() {
    for (int it = 0; it < scale(120, 1200) && !out_of_time(); ++it) {
        every_type([](auto t) { range_one<typename decltype(t)::type>(); });
        linspace_inferred<float>();
        linspace_inferred<int32_t>();
        linspace_inferred<int64_t>();
        linspace_inferred<uint8_t>();
        linspace_inferred<uint32_t>();
        linspace_inferred<uint64_t>();
        int32_t a = (int32_t)rng.range(0, 40), c = (int32_t)rng.range(0, 60);
        uint32_t s = (uint32_t)rng.range(1, 4);
        int32_t e = a + (int32_t)(s * c);
        note_case(cat("arange i32,i32,u32 ", a, " ", e, " ", s));
        guarded("arange", [&] {
            ndarray r = bland::arange<int32_t, int32_t, uint32_t>(a, e, s, dt_of<int32_t>());
            if (!check_meta("arange", r, IV{c}, Tag<int32_t>{})) return;
            for (int64_t k = 0; k < c; ++k)
                if (r.data_ptr<int32_t>()[k] != a + (int32_t)(s * k)) { fail("arange.elements", cat("element ", k)); break; }
        });
        for (auto bad : {DLDataType{kDLFloat, 16, 1}, DLDataType{kDLInt, 24, 1}, DLDataType{kDLUInt, 128, 1}, DLDataType{kDLComplex, 64, 1}}) {
            note_case(cat("range of unsupported type ", (int)bad.code, "/", (int)bad.bits));
            if (!throws([&] { bland::arange(0.0f, 2.0f, 0.25f, bad); })) fail("arange.unsupported", "accepted");
            if (!throws([&] { bland::linspace(0.0f, 2.0f, 4, bad); })) fail("linspace.unsupported", "accepted");
        }
    }
}

// ---------------------------------------------------------------- P11
void part_file() {
    for (int it = 0; it < scale(250, 2000) && !out_of_time(); ++it) {
        IV shape = rand_shape(1, 4, 300);
        auto v = mkview<float>(shape, [] { return small_value<float>(-50, 50); });
        note_case(cat("write and read back ", v.desc));
        guarded("file", [&] {
            bland::write_to_file(v.arr, "harness_rt.f32");
            ndarray r = bland::read_from_file("harness_rt.f32", ndarray::datatype::float32);
            std::vector<float> want;
            for (int64_t k = 0; k < prod(shape); ++k) want.push_back(v.val(k));
            if (check_meta("file", r, IV{prod(shape)}, Tag<float>{})) check_elems("file.elements", r, want);
            if (!v.untouched()) fail("file.source", "the source changed");
        });
        // raw bytes of any length as any type
        int64_t len = rng.range(0, 70);
        std::string bytes;
        for (int64_t i = 0; i < len; ++i) bytes += (char)rng.range(0, 127);
        FILE *f = fopen("harness_rt.raw", "wb");
        fwrite(bytes.data(), 1, len, f);
        fclose(f);
        for (auto t : {"uint8", "int16", "uint32", "float32", "float64"}) {
            ndarray::datatype d(t);
            note_case(cat("read ", len, " bytes as ", t));
            guarded("file", [&] {
                ndarray r = bland::read_from_file("harness_rt.raw", d);
                int64_t n = len / (d.bits / 8);
                if (r.shape() != IV{n}) { fail("file.length", cat("shape ", str(r.shape()))); return; }
                if (std::memcmp(r.data_ptr<char>(), bytes.data(), n * (d.bits / 8))) fail("file.raw", "the elements read differ from the file");
            });
        }
    }
    note_case("reading a missing file must be rejected");
    if (!throws([&] { bland::read_from_file("harness_does_not_exist", ndarray::datatype::float32); })) fail("file.missing", "a missing file was read");
    unlink("harness_rt.f32");
    unlink("harness_rt.raw");
}

// ---------------------------------------------------------------- P12
void part_parse() {
    struct D { const char *n; int code; int bits; };
    for (auto d : {D{"float", kDLFloat, 32}, D{"float32", kDLFloat, 32}, D{"double", kDLFloat, 64}, D{"float64", kDLFloat, 64}, D{"int", kDLInt, 64}, D{"int64", kDLInt, 64}, D{"int32", kDLInt, 32}, D{"int16", kDLInt, 16}, D{"int8", kDLInt, 8}, D{"uint", kDLUInt, 64}, D{"uint64", kDLUInt, 64}, D{"uint32", kDLUInt, 32}, D{"uint16", kDLUInt, 16}, D{"uint8", kDLUInt, 8}}) {
        note_case(cat("datatype \"", d.n, "\""));
        guarded("parse.dtype", [&] {
            ndarray::datatype t(d.n);
            if (t.code != d.code || t.bits != d.bits || t.lanes != 1) fail("parse.dtype", cat("code ", (int)t.code, " bits ", (int)t.bits));
        });
    }
    for (std::string s : {"", "float3", "float32 ", "Float32", "int128", "uint7", "complex", "floats", "dou", "i32", "int321", "uint88", "string"}) {
        note_case(cat("datatype \"", s, "\" must be rejected"));
        if (!throws([&] { ndarray::datatype t{std::string_view(s)}; })) fail("parse.dtype.reject", "unknown element type accepted");
    }
    struct V { const char *n; int type; };
    for (auto d : {V{"cuda", kDLCUDA}, V{"cudamanaged", kDLCUDAManaged}, V{"cudahost", kDLCUDAHost}, V{"cpu", kDLCPU}}) {
        for (int id = -1; id < 13; ++id) {
            if (id >= 0 && std::string(d.n) == "cpu") continue;
            std::string s = id < 0 ? d.n : cat(d.n, ":", id * (id > 5 ? 17 : 1));
            note_case(cat("device \"", s, "\""));
            guarded("parse.device", [&] {
                ndarray::dev v{std::string_view(s)};
                if (v.device_type != d.type) fail("parse.device.kind", cat("kind ", (int)v.device_type, " expected ", d.type));
                else if (v.device_id != (id < 0 ? 0 : id * (id > 5 ? 17 : 1))) fail("parse.device.id", cat("id ", v.device_id));
            });
        }
    }
    for (std::string s : {"", "gpu", "cpux", "cud", "CUDA", "cudax", "cudamanage", "cudahosts", "tpu:1", "cuda_host", "cudamanagedx:1", " cpu"}) {
        note_case(cat("device \"", s, "\" must be rejected"));
        if (!throws([&] { ndarray::dev t{std::string_view(s)}; })) fail("parse.device.reject", "unknown device accepted");
    }
}

// ---------------------------------------------------------------- P13
void part_fft() {
    for (int it = 0; it < scale(160, 900) && !out_of_time(); ++it) {
        bool long_ = it % 40 == 39; // longer than small integer types can count: some bins only
        int64_t N = long_ ? rng.range(33000, 140000) : it < 64 ? it + 1 : rng.range(1, 300);
        auto v = mkview<float>(IV{N}, [] { return small_value<float>(-8, 8); });
        note_case(cat("fft_shift_mag_square of ", v.desc));
        guarded("fft", [&] {
            ndarray r = bland::fft_shift_mag_square(v.arr);
            if (!check_meta("fft", r, IV{N}, Tag<float>{})) return;
            double tot = 0;
            for (int64_t k = 0; k < N; ++k) tot += std::fabs(v.val(k));
            IV bins;
            if (long_) { bins = {0, 1, N / 2 - 1, N / 2, N / 2 + 1, N - 1}; for (int i = 0; i < 6; ++i) bins.push_back(rng.range(0, N - 1)); tot = std::sqrt((double)N) * 30; }
            else for (int64_t k = 0; k < N; ++k) bins.push_back(k);
            for (int64_t k : bins) {
                std::complex<double> X = 0;
                for (int64_t t = 0; t < N; ++t) X += (double)v.val(t) * std::polar(1.0, -2 * M_PI * (double)((k * t) % N) / N);
                double want = std::norm(X), got = r.data_ptr<float>()[(k + N / 2) % N];
                if (std::fabs(got - want) > 1e-4 * (want + tot * tot / 10 + 1e-3)) { fail("fft.bins", cat("bin ", k, " of ", N, ": power ", got, " expected ", want)); break; }
            }
            if (!v.untouched()) fail("fft.source", "the input changed");
        });
    }
}

// ---------------------------------------------------------------- P14
void part_deferred() {
    using D = bland::ndarray_deferred;
    for (int it = 0; it < scale(200, 1500) && !out_of_time(); ++it) {
        int policy = (int)rng.range(0, 2);
        int calls = 0;
        int uses = (int)rng.range(0, 5);
        bool copies = rng.coin();
        bool todev = rng.range(0, 3) == 0;
        note_case(cat("deferred policy ", policy == 0 ? "memoize" : policy == 1 ? "lazy" : "eager", " uses ", uses, copies ? " through copies" : "", todev ? " with device" : ""));
        guarded("deferred", [&] {
            auto fn = [&calls] { ++calls; ndarray r({3}, (int32_t)calls, ndarray::datatype::int32); return r; };
            D d = policy == 1 && (it & 1) ? D(fn) : D(fn, policy == 0 ? D::eval_policy::memoize : policy == 1 ? D::eval_policy::lazy : D::eval_policy::eager);
            if (calls != (policy == 2 ? 1 : 0)) fail("deferred.early", cat("computed ", calls, " times at construction"));
            if (todev) d = d.to("cpu");
            D other = d;
            void *first = nullptr;
            for (int u = 0; u < uses; ++u) {
                ndarray a = (copies && u % 2) ? (ndarray)other : (ndarray)d;
                int expect = policy == 1 ? u + 1 : 1;
                if (calls != expect) fail("deferred.calls", cat("after ", u + 1, " uses computed ", calls, " times"));
                if (a.shape() != IV{3} || a.data_ptr<int32_t>()[0] != (policy == 1 ? u + 1 : 1)) fail("deferred.value", "a use observed another result");
                if (u == 0) first = a.data_ptr<void>();
                else if (policy != 1 && a.data_ptr<void>() != first) fail("deferred.same", "a later use observed another array");
            }
            if (uses == 0 && calls != (policy == 2 ? 1 : 0)) fail("deferred.early", "computed without a use");
        });
        note_case(cat("deferred value, uses ", uses));
        guarded("deferred", [&] {
            ndarray v({4}, (int32_t)it, ndarray::datatype::int32);
            D d(v);
            D other = d.to(rng.coin() ? ndarray::dev("cpu") : ndarray::dev(DLDevice{kDLCPU, 0}));
            for (int u = 0; u < uses; ++u) {
                ndarray a = u % 2 ? (ndarray)d : (ndarray)other;
                if (a.data_ptr<void>() != v.data_ptr<void>()) fail("deferred.value", "an array given as a value came back as another one");
            }
        });
    }
}

int main() {
    init();
    if (part("create")) part_create();
    if (part("slice")) part_slice();
    if (part("reshape")) part_reshape();
    if (part("binop")) part_binop();
    if (part("scalar")) part_scalar();
    if (part("compare")) part_compare();
    if (part("unary")) part_unary();
    if (part("reduce")) part_reduce();
    if (part("masked")) { part_masked(); part_masked_reject(); }
    if (part("file")) part_file();
    if (part("range")) part_range();
    if (part("parse")) part_parse();
    if (part("fft")) part_fft();
    if (part("deferred")) part_deferred();
    return finish();
}
