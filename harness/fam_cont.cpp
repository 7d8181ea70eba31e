// Container methods of grb::Matrix and grb::Vector, for every domain.
#include "core.hpp"
#include "cont.hpp"

template <class T> std::vector<T> decs(Val const &a)
{
    std::vector<T> r;
    for (auto const &v : a.a) r.push_back(dec<T>(v.i));
    return r;
}

template <class T> void put(World &w, std::string const &id, std::unique_ptr<grb::Vector<T>> v)
{ w.bank<T>().v[id] = std::move(v); w.info[id] = Info{'V', Dom<T>::n}; }
template <class T> void put(World &w, std::string const &id, std::unique_ptr<grb::Matrix<T>> m)
{ w.bank<T>().m[id] = std::move(m); w.info[id] = Info{'M', Dom<T>::n}; }

// A new object with the given contents, reached by one of several histories.
template <class T> void new_vector(World &w, std::string const &id, Val const &x, std::string const &how)
{
    size_t n = x.a.size();
    auto p = std::make_unique<grb::Vector<T>>(n);
    auto junk = [&](size_t i) { return dec<T>((long long)(i % 2)); };
    if (how == "build" || how == "rbuild")
    {
        grb::IndexArrayType ii; std::vector<T> vv;
        for (size_t k = 0; k < n; ++k)
        {
            size_t i = how == "build" ? k : n - 1 - k;
            if (x.a[i].i != NONE) { ii.push_back(i); vv.push_back(dec<T>(x.a[i].i)); }
        }
        p->build(ii, vv);
    }
    else if (how == "full")          // start full, remove what is absent
    {
        for (size_t i = 0; i < n; ++i) p->setElement(i, junk(i));
        for (size_t i = n; i-- > 0;)
            if (x.a[i].i == NONE) p->removeElement(i); else p->setElement(i, dec<T>(x.a[i].i));
    }
    else if (how == "grow")          // bigger, then shrunk
    {
        p = std::make_unique<grb::Vector<T>>(n + 3);
        p->setElement(n + 2, junk(1));
        for (size_t i = n; i-- > 0;) if (x.a[i].i != NONE) p->setElement(i, dec<T>(x.a[i].i));
        p->resize(n);
    }
    else if (how == "clear")
    {
        for (size_t i = 0; i < n; ++i) p->setElement(i, junk(i + 1));
        p->clear();
        for (size_t i = 0; i < n; ++i) if (x.a[i].i != NONE) p->setElement(i, dec<T>(x.a[i].i));
    }
    else
        for (size_t i = 0; i < n; ++i) if (x.a[i].i != NONE) p->setElement(i, dec<T>(x.a[i].i));
    put<T>(w, id, std::move(p));
}

template <class T> void new_matrix(World &w, std::string const &id, Val const &x, std::string const &how)
{
    size_t r = x.a.size(), c = x.a[0].a.size();
    auto p = std::make_unique<grb::Matrix<T>>(r, c);
    auto at = [&](size_t i, size_t j) { return x.a[i].a[j].i; };
    auto junk = [&](size_t i) { return dec<T>((long long)(i % 2)); };
    if (how == "build" || how == "rbuild")
    {
        grb::IndexArrayType ii, jj; std::vector<T> vv;
        for (size_t k = 0; k < r * c; ++k)
        {
            size_t q = how == "build" ? k : r * c - 1 - k, i = q / c, j = q % c;
            if (at(i, j) != NONE) { ii.push_back(i); jj.push_back(j); vv.push_back(dec<T>(at(i, j))); }
        }
        p->build(ii, jj, vv);
    }
    else if (how == "full")
    {
        for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) p->setElement(i, j, junk(i + j));
        for (size_t i = r; i-- > 0;) for (size_t j = c; j-- > 0;)
            if (at(i, j) == NONE) p->removeElement(i, j); else p->setElement(i, j, dec<T>(at(i, j)));
    }
    else if (how == "grow")
    {
        p = std::make_unique<grb::Matrix<T>>(r + 2, c + 2);
        p->setElement(r + 1, 0, junk(1)); p->setElement(0, c + 1, junk(0));
        for (size_t i = r; i-- > 0;) for (size_t j = c; j-- > 0;)
            if (at(i, j) != NONE) p->setElement(i, j, dec<T>(at(i, j)));
        p->resize(r, c);
    }
    else if (how == "clear")
    {
        for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) p->setElement(i, j, junk(i * j));
        p->clear();
        for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j)
            if (at(i, j) != NONE) p->setElement(i, j, dec<T>(at(i, j)));
    }
    else
        for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j)
            if (at(i, j) != NONE) p->setElement(i, j, dec<T>(at(i, j)));
    put<T>(w, id, std::move(p));
}

void new_object(World &w, std::string const &id, Val const &o)
{
    std::string how = o.has("how") ? o.str("how") : "set";
    with_dom(o.str("d"), [&](auto t) {
        using T = decltype(t);
        if (o.str("k") == "V") new_vector<T>(w, id, o.at("x"), how);
        else new_matrix<T>(w, id, o.at("x"), how);
    });
}

// Observation ------------------------------------------------------------

template <class T> Val observe_v(grb::Vector<T> const &v, std::string const &id)
{
    size_t n = v.size();
    Val r = Val::obj();
    r.set("id", id); r.set("k", "V"); r.set("d", Dom<T>::n);
    size_t const FREE = ~size_t(0);
    grb::IndexArrayType ii(n + v.nvals() + 8, FREE);
    std::unique_ptr<T[]> raw(new T[ii.size()]());
    std::vector<long long> x(n, NONE), y(n, NONE);
    v.extractTuples(ii.begin(), raw.get());
    long long t = 0, bad = 0;
    grb::IndexArrayType i2(ii.size(), FREE); std::vector<T> v2(ii.size());
    v.extractTuples(i2, v2);
    for (size_t k = 0; k < ii.size(); ++k) bad += i2[k] != ii[k] || T(v2[k]) != raw[k];
    for (size_t k = 0; k < ii.size() && ii[k] != FREE; ++k)
    {
        ++t;
        if (ii[k] >= n || x[ii[k]] != NONE) ++bad; else x[ii[k]] = enc<T>(raw[k]);
    }
    for (size_t i = 0; i < n; ++i)
    {
        bool h = v.hasElement(i);
        try { y[i] = enc<T>(v.extractElement(i)); if (!h) y[i] = NONE + 1; }
        catch (grb::NoValueException const &) { if (h) y[i] = NONE + 2; }
    }
    r.set("x", js::nums(x)); r.set("n", (long long)v.nvals()); r.set("t", t);
    if (bad) r.set("bad", bad);
    if (x != y) r.set("y", js::nums(y));
    grb::Vector<T> c(n ? n : 1);
    for (size_t i = 0; i < n; ++i) if (x[i] != NONE) c.setElement(i, dec<T>(x[i]));
    if (!(c == v) || !(v == c) || (c != v) || (v != c)) r.set("eq", 0);
    if (n)
    {
        size_t i = (size_t)t % n;      // differ in one position
        grb::Vector<T> d(c);
        if (x[i] == NONE) d.setElement(i, dec<T>(0)); else d.removeElement(i);
        if (d == v || v == d || !(d != v) || !(v != d)) r.set("eq", 0);
        if (x[i] != NONE) { d.setElement(i, dec<T>(x[i] == 0 ? SCALE : 0));
                            if (d == v || v == d || !(d != v) || !(v != d)) r.set("eq", 0); }
    }
    return r;
}

template <class T> Val observe_m(grb::Matrix<T> const &m, std::string const &id)
{
    size_t nr = m.nrows(), nc = m.ncols();
    Val r = Val::obj();
    r.set("id", id); r.set("k", "M"); r.set("d", Dom<T>::n);
    size_t const FREE = ~size_t(0);
    size_t cap = nr * nc + m.nvals() + 64;
    grb::IndexArrayType ii(cap, FREE), jj(cap, FREE);
    std::unique_ptr<T[]> raw(new T[cap]());
    std::vector<std::vector<long long>> x(nr, std::vector<long long>(nc, NONE)), y(x);
    m.extractTuples(ii.begin(), jj.begin(), raw.get());
    long long t = 0, bad = 0;
    grb::IndexArrayType i2(cap, FREE), j2(cap, FREE); std::vector<T> v2(cap);
    m.extractTuples(i2, j2, v2);
    for (size_t k = 0; k < cap; ++k) bad += i2[k] != ii[k] || j2[k] != jj[k] || T(v2[k]) != raw[k];
    for (size_t k = 0; k < cap && ii[k] != FREE; ++k)
    {
        ++t;
        if (ii[k] >= nr || jj[k] >= nc || x[ii[k]][jj[k]] != NONE) ++bad;
        else x[ii[k]][jj[k]] = enc<T>(raw[k]);
    }
    for (size_t i = 0; i < nr; ++i) for (size_t j = 0; j < nc; ++j)
    {
        bool h = m.hasElement(i, j);
        try { y[i][j] = enc<T>(m.extractElement(i, j)); if (!h) y[i][j] = NONE + 1; }
        catch (grb::NoValueException const &) { if (h) y[i][j] = NONE + 2; }
    }
    auto grid = [](auto const &g) { Val a = Val::arr(); for (auto const &row : g) a.a.push_back(js::nums(row)); return a; };
    r.set("x", grid(x)); r.set("n", (long long)m.nvals()); r.set("t", t);
    if (bad) r.set("bad", bad);
    if (x != y) r.set("y", grid(y));
    if (nr && nc)
    {
        grb::Matrix<T> c(nr, nc);
        for (size_t i = nr; i-- > 0;) for (size_t j = nc; j-- > 0;)
            if (x[i][j] != NONE) c.setElement(i, j, dec<T>(x[i][j]));
        if (!(c == m) || !(m == c) || (c != m) || (m != c)) r.set("eq", 0);
        size_t i = (size_t)t % nr, j = (size_t)(t / 2) % nc;
        if (x[i][j] == NONE) c.setElement(i, j, dec<T>(0)); else c.removeElement(i, j);
        if (c == m || m == c || !(c != m) || !(m != c)) r.set("eq", 0);
        if (x[i][j] != NONE) { c.setElement(i, j, dec<T>(x[i][j] == 0 ? SCALE : 0));
                               if (c == m || m == c || !(c != m) || !(m != c)) r.set("eq", 0); }
    }
    return r;
}

Val observe(World &w, std::string const &id)
{
    Info const &f = w.info.at(id);
    Val r;
    with_dom(f.d, [&](auto t) {
        using T = decltype(t);
        if (f.k == 'V') r = observe_v<T>(w.vec<T>(id), id);
        else r = observe_m<T>(w.mat<T>(id), id);
    });
    return r;
}

// Methods ----------------------------------------------------------------
template <class T> struct Methods
{
    Methods()
    {
        char const *d = Dom<T>::n;
        using I = grb::IndexType;
        Register("vset", d, [](World &w, Val const &c, long long &) {
            w.vec<T>(c.str("o")).setElement((I)c.num("i"), dec<T>(c.num("v"))); });
        Register("vrem", d, [](World &w, Val const &c, long long &) {
            w.vec<T>(c.str("o")).removeElement((I)c.num("i")); });
        Register("vget", d, [](World &w, Val const &c, long long &s) {
            s = enc<T>(w.vec<T>(c.str("o")).extractElement((I)c.num("i"))); });
        Register("vhas", d, [](World &w, Val const &c, long long &s) {
            s = w.vec<T>(c.str("o")).hasElement((I)c.num("i")); });
        Register("vclear", d, [](World &w, Val const &c, long long &) { w.vec<T>(c.str("o")).clear(); });
        Register("vresize", d, [](World &w, Val const &c, long long &) {
            w.vec<T>(c.str("o")).resize((I)c.num("n")); });
        Register("vbuild", d, [](World &w, Val const &c, long long &) {
            auto &v = w.vec<T>(c.str("o"));
            auto ii = idx(c.at("ii"));
            std::string const &f = c.at("mul").str("f");
            RtBin<T, T, T> op{bin_code(f)};
            if constexpr (std::is_same_v<T, bool>)
            {
                std::vector<bool> vv = decs<bool>(c.at("vv"));
                if (c.flag("dflt")) v.build(ii, vv); else v.build(ii, vv, op);
            }
            else
            {
                std::vector<T> vv = decs<T>(c.at("vv"));
                if (c.flag("iter")) v.build(ii.begin(), vv.begin(), vv.size(), op);
                else if (c.flag("dflt")) v.build(ii, vv); else v.build(ii, vv, op);
            } });
        Register("vcopy", d, [](World &w, Val const &c, long long &) {
            w.vec<T>(c.str("o")) = w.vec<T>(c.str("a")); });
        Register("vdense", d, [](World &w, Val const &c, long long &) {
            w.vec<T>(c.str("o")) = decs<T>(c.at("vv")); });
        Register("vctor", d, [](World &w, Val const &c, long long &) {
            std::string const &h = c.str("how");
            std::unique_ptr<grb::Vector<T>> p;
            if (h == "size") p = std::make_unique<grb::Vector<T>>((I)c.num("n"));
            else if (h == "fill") p = std::make_unique<grb::Vector<T>>((I)c.num("n"), dec<T>(c.num("v")));
            else if (h == "dense") p = std::make_unique<grb::Vector<T>>(decs<T>(c.at("vv")));
            else if (h == "densez") p = std::make_unique<grb::Vector<T>>(decs<T>(c.at("vv")), dec<T>(c.num("v")));
            else p = std::make_unique<grb::Vector<T>>(w.vec<T>(c.str("a")));
            put<T>(w, c.str("o"), std::move(p)); });
        Register("veq", d, [](World &w, Val const &c, long long &s) {
            auto &a = w.vec<T>(c.str("a")); auto &b = w.vec<T>(c.str("b"));
            bool e = (a == b);
            s = (e == !(a != b)) ? (long long)e : 2; });

        Register("mset", d, [](World &w, Val const &c, long long &) {
            w.mat<T>(c.str("o")).setElement((I)c.num("i"), (I)c.num("j"), dec<T>(c.num("v"))); });
        Register("mrem", d, [](World &w, Val const &c, long long &) {
            w.mat<T>(c.str("o")).removeElement((I)c.num("i"), (I)c.num("j")); });
        Register("mget", d, [](World &w, Val const &c, long long &s) {
            s = enc<T>(w.mat<T>(c.str("o")).extractElement((I)c.num("i"), (I)c.num("j"))); });
        Register("mhas", d, [](World &w, Val const &c, long long &s) {
            s = w.mat<T>(c.str("o")).hasElement((I)c.num("i"), (I)c.num("j")); });
        Register("mclear", d, [](World &w, Val const &c, long long &) { w.mat<T>(c.str("o")).clear(); });
        Register("mresize", d, [](World &w, Val const &c, long long &) {
            w.mat<T>(c.str("o")).resize((I)c.num("n"), (I)c.num("n2")); });
        Register("mbuild", d, [](World &w, Val const &c, long long &) {
            auto &m = w.mat<T>(c.str("o"));
            auto ii = idx(c.at("ii")), jj = idx(c.at("jj"));
            RtBin<T, T, T> op{bin_code(c.at("mul").str("f"))};
            auto vv = decs<T>(c.at("vv"));
            if (c.flag("iter")) m.build(ii.begin(), jj.begin(), vv.begin(), vv.size(), op);
            else if (c.flag("dflt")) m.build(ii, jj, vv);
            else m.build(ii, jj, vv, op); });
        Register("mcopy", d, [](World &w, Val const &c, long long &) {
            w.mat<T>(c.str("o")) = w.mat<T>(c.str("a")); });
        Register("mctor", d, [](World &w, Val const &c, long long &) {
            std::string const &h = c.str("how");
            std::unique_ptr<grb::Matrix<T>> p;
            auto grid = [&] { std::vector<std::vector<T>> g;
                for (auto const &row : c.at("vv").a) g.push_back(decs<T>(row)); return g; };
            if (h == "size") p = std::make_unique<grb::Matrix<T>>((I)c.num("n"), (I)c.num("n2"));
            else if (h == "dense") p = std::make_unique<grb::Matrix<T>>(grid());
            else if (h == "densez") p = std::make_unique<grb::Matrix<T>>(grid(), dec<T>(c.num("v")));
            else p = std::make_unique<grb::Matrix<T>>(w.mat<T>(c.str("a")));
            put<T>(w, c.str("o"), std::move(p)); });
        // what a view says about its shape (and, for a structure view, count)
        Register("mview", d, [](World &w, Val const &c, long long &s) {
            auto const &a = w.mat<T>(c.str("a"));
            std::string const &k = c.str("how");
            auto shape = [](auto const &v) { return (long long)(v.nrows() * 1000 + v.ncols()); };
            if (k == "tran") s = shape(grb::transpose(a));
            else if (k == "comp") s = shape(grb::complement(a));
            else if (k == "str") { auto v = grb::structure(a); s = shape(v) + 1000000 * (long long)(v.nvals() % 1000); }
            else { auto v = grb::complement(grb::structure(a)); s = shape(v) + 1000000 * (long long)(v.nvals() % 1000); } });
        Register("vview", d, [](World &w, Val const &c, long long &s) {
            auto const &a = w.vec<T>(c.str("a"));
            std::string const &k = c.str("how");
            if (k == "comp") s = grb::complement(a).size();
            else if (k == "str") { auto v = grb::structure(a); s = v.size() + 1000000 * (long long)(v.nvals() % 1000); }
            else { auto v = grb::complement(grb::structure(a)); s = v.size() + 1000000 * (long long)(v.nvals() % 1000); } });
        Register("meq", d, [](World &w, Val const &c, long long &s) {
            auto &a = w.mat<T>(c.str("a")); auto &b = w.mat<T>(c.str("b"));
            bool e = (a == b);
            s = (e == !(a != b)) ? (long long)e : 2; });
    }
};
static Methods<bool> m1; static Methods<int8_t> m2; static Methods<uint8_t> m3;
static Methods<int16_t> m4; static Methods<int32_t> m5; static Methods<double> m6;
static Methods<int64_t> m7;
