// Shared by the drivers of the algorithms, operators and utilities.
#pragma once
#include <graphblas/graphblas.hpp>
#include <cmath>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <string>
#include <vector>
#include "json.hpp"

namespace alg {

using js::Val;
using grb::IndexType;
static constexpr long long NONE = -999999;

using Handler = std::function<void(Val const &, Val &out, Val &err)>;
inline std::map<std::string, Handler> &handlers() { static std::map<std::string, Handler> m; return m; }
struct Reg { Reg(std::string k, Handler h) { handlers()[k] = h; } };

// number of a library value, times the scale sc
template <typename T> long long num(T v, double sc = 1)
{
    double x = double(v) * sc;
    if (!(x > -900000000.0 && x < 900000000.0)) return 900000000LL;
    return std::llround(x);
}
template <typename T> struct FromNum { static T get(long long x, double sc) { return std::is_floating_point_v<T> ? T(double(x) / sc) : T(x); } };

template <typename T> grb::Matrix<T> matrix(Val const &g, double sc = 1)
{
    grb::Matrix<T> m(g.a.size(), g.a.at(0).a.size());
    grb::IndexArrayType is, js; std::vector<T> vs;
    for (size_t i = 0; i < g.a.size(); ++i)
        for (size_t j = 0; j < g.a[i].a.size(); ++j)
            if (g.a[i].a[j].i != NONE) { is.push_back(i); js.push_back(j); vs.push_back(FromNum<T>::get(g.a[i].a[j].i, sc)); }
    if (!is.empty()) m.build(is.begin(), js.begin(), vs.begin(), is.size());
    return m;
}
template <typename V> Val vec(V const &v, double sc = 1)
{
    std::vector<long long> r(v.size(), NONE);
    for (size_t i = 0; i < v.size(); ++i) if (v.hasElement(i)) r[i] = num(v.extractElement(i), sc);
    return js::nums(r);
}
template <typename T> Val stdvec(std::vector<T> const &v, double sc = 1)
{
    std::vector<long long> r;
    for (auto x : v) r.push_back(num(x, sc));
    return js::nums(r);
}
template <typename M> Val mat(M const &m, double sc = 1)
{
    Val r = Val::arr();
    for (size_t i = 0; i < m.nrows(); ++i)
    {
        std::vector<long long> row(m.ncols(), NONE);
        for (size_t j = 0; j < m.ncols(); ++j) if (m.hasElement(i, j)) row[j] = num(m.extractElement(i, j), sc);
        r.a.push_back(js::nums(row));
    }
    return r;
}
// from a list of edges [from, to, weight]
template <typename T> grb::Matrix<T> listed(Val const &c, double sc = 1)
{
    size_t n = c.num("n");
    grb::Matrix<T> m(n, n);
    grb::IndexArrayType is, js; std::vector<T> vs;
    for (auto const &e : c.at("e").a)
    { is.push_back(e.a[0].i); js.push_back(e.a[1].i); vs.push_back(FromNum<T>::get(e.a[2].i, sc)); }
    if (!is.empty()) m.build(is.begin(), js.begin(), vs.begin(), is.size());
    return m;
}
// outputs that are not empty to begin with, for the algorithms that replace what was there
template <typename T> grb::Vector<T> used(size_t n)
{
    grb::Vector<T> v(n);
    v.setElement(0, T(1)); v.setElement(n / 2, T(0)); v.setElement(n - 1, T(1));
    return v;
}
template <typename T> grb::Matrix<T> used(size_t r, size_t n)
{
    grb::Matrix<T> m(r, n);
    m.setElement(0, 0, T(1)); m.setElement(r - 1, n / 2, T(0)); m.setElement(r / 2, n - 1, T(1));
    return m;
}
inline Val one(long long x) { return js::nums({x}); }

// Evaluates f() into out.<name>; an exception becomes err.<name>.
template <typename F> void field(Val &out, Val &err, char const *name, F f)
{
    try { out.set(name, f()); }
    catch (grb::DimensionException const &) { err.set(name, "DimensionException"); }
    catch (grb::IndexOutOfBoundsException const &) { err.set(name, "IndexOutOfBoundsException"); }
    catch (grb::InvalidIndexException const &) { err.set(name, "InvalidIndexException"); }
    catch (grb::InvalidValueException const &) { err.set(name, "InvalidValueException"); }
    catch (grb::NoValueException const &) { err.set(name, "NoValueException"); }
    catch (grb::PanicException const &) { err.set(name, "PanicException"); }
    catch (unsigned int) { err.set(name, "int"); }
    catch (int) { err.set(name, "int"); }
    catch (std::exception const &e) { err.set(name, "std"); }
}
} // namespace alg
#define SHAPE(name, ...) alg::field(out, err, name, [&]() -> js::Val { __VA_ARGS__; return alg::one(1); })
#define ALG_CAT2(a, b) a##b
#define ALG_CAT(a, b) ALG_CAT2(a, b)
#define HANDLER(kind) \
    static void ALG_CAT(h_, __LINE__)(js::Val const &, js::Val &, js::Val &); \
    static alg::Reg ALG_CAT(r_, __LINE__)(kind, ALG_CAT(h_, __LINE__)); \
    static void ALG_CAT(h_, __LINE__)(js::Val const &c, js::Val &out, js::Val &err)
#define FIELD(name, ...) alg::field(out, err, name, [&]() -> js::Val { __VA_ARGS__ })
