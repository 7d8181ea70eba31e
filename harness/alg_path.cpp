// breadth-first searches, shortest paths, metrics
#include "alg.hpp"
#include <algorithms/bfs.hpp>
#include <algorithms/sssp.hpp>
#include <algorithms/apsp.hpp>
#include <algorithms/metrics.hpp>
#include <algorithms/appendix_algorithms.hpp>
using namespace alg;

template <typename T> static grb::Vector<T> roots(Val const &c, size_t n)
{
    grb::Vector<T> w(n);
    for (auto r : c.nums("roots")) w.setElement(r, T(1));
    return w;
}
template <typename T> static grb::Matrix<T> rootrows(Val const &c, size_t n)
{
    auto r = c.nums("roots");
    grb::Matrix<T> w(r.size(), n);
    for (size_t k = 0; k < r.size(); ++k) w.setElement(k, r[k], T(1));
    return w;
}
template <typename T, typename W> static void bfs(Val const &c, Val &out, Val &err)
{
    auto g = matrix<T>(c.at("g")); size_t n = g.nrows(); IndexType s = c.num("src");
    FIELD("par", auto p = used<IndexType>(n); algorithms::bfs(g, s, p); return vec(p););
    FIELD("parw", auto p = used<IndexType>(n); grb::Vector<W> w(n); w.setElement(s, W(1)); algorithms::bfs(g, w, p); return vec(p););
    FIELD("lev", grb::Vector<IndexType> l(n); algorithms::bfs_level(g, s, l); return vec(l););
    FIELD("lvm", grb::Vector<IndexType> l(n); grb::Vector<W> w(n); w.setElement(s, W(1)); algorithms::bfs_level_masked(g, w, l); return vec(l););
    FIELD("lv2", grb::Vector<IndexType> l(n); grb::Vector<W> w(n); w.setElement(s, W(1)); algorithms::bfs_level_masked_v2(g, w, l); return vec(l););
    FIELD("B1", grb::Vector<IndexType> l(n); algorithms::bfs_level_appendixB1(l, g, s); return vec(l););
    FIELD("B2", grb::Vector<IndexType> l(n); algorithms::bfs_level_appendixB2(l, g, s); return vec(l););
    FIELD("B3", auto p = used<IndexType>(n); algorithms::bfs_parent_appendixB3(p, g, s); return vec(p););
}
template <typename T, typename W> static void bfsb(Val const &c, Val &out, Val &err)
{
    auto g = matrix<T>(c.at("g")); size_t n = g.nrows(), r = c.at("roots").a.size();
    FIELD("batch", auto p = used<IndexType>(r, n); algorithms::bfs_batch(g, rootrows<W>(c, n), p); return mat(p););
    FIELD("levm", grb::Matrix<IndexType> l(r, n); algorithms::bfs_level(g, rootrows<W>(c, n), l); return mat(l););
    FIELD("batchm", grb::Matrix<IndexType> l(r, n); algorithms::batch_bfs_level_masked(g, rootrows<W>(c, n), l); return mat(l););
}
template <typename T, typename W> static void bfsr(Val const &c, Val &out, Val &err)
{
    auto g = matrix<T>(c.at("g")); size_t n = g.nrows();
    FIELD("parw", auto p = used<IndexType>(n); algorithms::bfs(g, roots<W>(c, n), p); return vec(p););
    FIELD("lvm", grb::Vector<IndexType> l(n); algorithms::bfs_level_masked(g, roots<W>(c, n), l); return vec(l););
    FIELD("lv2", grb::Vector<IndexType> l(n); algorithms::bfs_level_masked_v2(g, roots<W>(c, n), l); return vec(l););
}
#define BYTYPE(f) auto const &d = c.str("d"); \
    if (d == "bool") f<bool, bool>(c, out, err); \
    else if (d == "u8") f<uint8_t, uint8_t>(c, out, err); \
    else if (d == "f64") f<double, double>(c, out, err); \
    else if (d == "mix") f<bool, IndexType>(c, out, err); \
    else f<int32_t, int32_t>(c, out, err);
HANDLER("bfs") { BYTYPE(bfs) }
HANDLER("bfsb") { BYTYPE(bfsb) }
HANDLER("bfsr") { BYTYPE(bfsr) }

template <typename T> static void sssp(Val const &c, Val &out, Val &err)
{
    double sc = std::is_floating_point_v<T> ? 4 : 1;
    auto g = matrix<T>(c.at("g"), sc); size_t n = g.nrows(); IndexType s = c.num("src");
    bool ok = false;
    FIELD("sssp", grb::Vector<T> v(n); v.setElement(s, T(0)); ok = algorithms::sssp(g, v); out.set("ok", one(ok)); return vec(v, sc););
    FIELD("filt", grb::Vector<T> v(n); v.setElement(s, T(0)); ok = algorithms::filtered_sssp(g, v); out.set("okf", one(ok)); return vec(v, sc););
    auto srcs = c.nums("srcs");
    FIELD("batch", grb::Matrix<T> m(srcs.size(), n); for (size_t k = 0; k < srcs.size(); ++k) m.setElement(k, srcs[k], T(0));
          ok = algorithms::batch_sssp(g, m); out.set("okb", one(ok)); return mat(m, sc););
    FIELD("apsp", return mat(algorithms::apsp(g), sc););
    auto deltas = c.nums("deltas");
    if (!deltas.empty())
        FIELD("delta", Val r = Val::arr();
              for (auto x : deltas) { auto v = used<T>(n); algorithms::sssp_delta_step(g, FromNum<T>::get(x, sc), s, v); r.a.push_back(vec(v, sc)); }
              return r;);
}
HANDLER("sssp")
{
    auto const &d = c.str("d");
    if (d == "f64") sssp<double>(c, out, err); else if (d == "i16") sssp<int16_t>(c, out, err); else sssp<int32_t>(c, out, err);
}

// graphs too large for a matrix of weights; levels and distances also in vectors of another type
template <typename T, typename W> static void bbfs(Val const &c, Val &out, Val &err)
{
    auto g = listed<T>(c); size_t n = g.nrows(); IndexType s = c.num("src");
    FIELD("par", auto p = used<IndexType>(n); algorithms::bfs(g, s, p); return vec(p););
    FIELD("parw", auto p = used<IndexType>(n); grb::Vector<W> w(n); w.setElement(s, W(1)); algorithms::bfs(g, w, p); return vec(p););
    FIELD("B3", auto p = used<IndexType>(n); algorithms::bfs_parent_appendixB3(p, g, s); return vec(p););
    FIELD("lev", grb::Vector<IndexType> l(n); algorithms::bfs_level(g, s, l); return vec(l););
    FIELD("levu", grb::Vector<unsigned int> l(n); algorithms::bfs_level(g, s, l); return vec(l););
    FIELD("levd", grb::Vector<double> l(n); algorithms::bfs_level(g, s, l); return vec(l););
    FIELD("lvm", grb::Vector<IndexType> l(n); grb::Vector<W> w(n); w.setElement(s, W(1)); algorithms::bfs_level_masked(g, w, l); return vec(l););
    FIELD("lvmu", grb::Vector<unsigned int> l(n); grb::Vector<W> w(n); w.setElement(s, W(1)); algorithms::bfs_level_masked(g, w, l); return vec(l););
    FIELD("lv2", grb::Vector<IndexType> l(n); grb::Vector<W> w(n); w.setElement(s, W(1)); algorithms::bfs_level_masked_v2(g, w, l); return vec(l););
    FIELD("lv2d", grb::Vector<double> l(n); grb::Vector<W> w(n); w.setElement(s, W(1)); algorithms::bfs_level_masked_v2(g, w, l); return vec(l););
    FIELD("B1", grb::Vector<IndexType> l(n); algorithms::bfs_level_appendixB1(l, g, s); return vec(l););
    FIELD("B2", grb::Vector<IndexType> l(n); algorithms::bfs_level_appendixB2(l, g, s); return vec(l););
    auto row = [](auto const &m) { Val r = mat(m); return r.a.at(0); };
    FIELD("batch", auto p = used<IndexType>(1, n); grb::Matrix<W> w(1, n); w.setElement(0, s, W(1)); algorithms::bfs_batch(g, w, p); return row(p););
    FIELD("levm", grb::Matrix<IndexType> l(1, n); grb::Matrix<W> w(1, n); w.setElement(0, s, W(1)); algorithms::bfs_level(g, w, l); return row(l););
    FIELD("batchm", grb::Matrix<IndexType> l(1, n); grb::Matrix<W> w(1, n); w.setElement(0, s, W(1)); algorithms::batch_bfs_level_masked(g, w, l); return row(l););
}
HANDLER("bbfs") { BYTYPE(bbfs) }
template <typename T, typename D> static void bsssp(Val const &c, Val &out, Val &err)
{
    double sc = std::is_floating_point_v<T> ? 4 : 1;
    auto g = listed<T>(c, sc); size_t n = g.nrows(); IndexType s = c.num("src");
    FIELD("sssp", grb::Vector<D> v(n); v.setElement(s, D(0)); algorithms::sssp(g, v); return vec(v, sc););
    FIELD("filt", grb::Vector<D> v(n); v.setElement(s, D(0)); algorithms::filtered_sssp(g, v); return vec(v, sc););
    FIELD("batch", grb::Matrix<D> m(1, n); m.setElement(0, s, D(0)); algorithms::batch_sssp(g, m); Val r = mat(m, sc); return r.a.at(0););
    FIELD("delta", auto v = used<T>(n); algorithms::sssp_delta_step(g, FromNum<T>::get(c.num("delta"), sc), s, v); return vec(v, sc););
    FIELD("dist", auto v = used<D>(n); algorithms::graph_distance(g, s, v); return vec(v, sc););
}
HANDLER("bsssp")
{
    auto const &d = c.str("d");
    if (d == "f64") bsssp<double, double>(c, out, err); else if (d == "i32") bsssp<int32_t, int32_t>(c, out, err);
    else if (d == "i32i64") bsssp<int32_t, int64_t>(c, out, err); else bsssp<double, float>(c, out, err);
}
// shapes that do not fit must be refused
HANDLER("shapepath")
{
    auto g = matrix<int32_t>(c.at("g")); size_t s = c.num("s");
    SHAPE("lvm", grb::Vector<IndexType> l(s); grb::Vector<bool> w(s); w.setElement(0, true); algorithms::bfs_level_masked(g, w, l));
    SHAPE("lv2", grb::Vector<IndexType> l(s); grb::Vector<bool> w(s); w.setElement(0, true); algorithms::bfs_level_masked_v2(g, w, l));
    SHAPE("batchm", grb::Matrix<IndexType> l(2, s); grb::Matrix<bool> w(2, s); w.setElement(1, 0, true); algorithms::batch_bfs_level_masked(g, w, l));
    SHAPE("sssp", grb::Vector<int32_t> v(s); v.setElement(0, 0); algorithms::sssp(g, v));
    SHAPE("filt", grb::Vector<int32_t> v(s); v.setElement(0, 0); algorithms::filtered_sssp(g, v));
    SHAPE("batch", grb::Matrix<int32_t> m(2, s); m.setElement(0, 0, 0); algorithms::batch_sssp(g, m));
    SHAPE("apsp", algorithms::apsp(g));
    SHAPE("dist", grb::Vector<int32_t> v(s); algorithms::graph_distance(g, 0, v));
    SHAPE("distm", grb::Matrix<int32_t> m(s, s); algorithms::graph_distance_matrix(g, m));
    SHAPE("distr", grb::Matrix<int32_t> m(g.nrows(), s); algorithms::graph_distance_matrix(g, m));
    SHAPE("ecc", algorithms::vertex_eccentricity(g, 0));
}
template <typename T> static void metrics(Val const &c, Val &out, Val &err)
{
    double sc = std::is_floating_point_v<T> ? 4 : 1;
    auto g = matrix<T>(c.at("g"), sc); size_t n = g.nrows(); IndexType s = c.num("src");
    FIELD("in", return one(num(algorithms::vertex_in_degree(g, s))););
    FIELD("outd", return one(num(algorithms::vertex_out_degree(g, s))););
    FIELD("deg", return one(num(algorithms::vertex_degree(g, s))););
    if (s >= n) return;
    FIELD("dist", auto v = used<T>(n); algorithms::graph_distance(g, s, v); return vec(v, sc););
    FIELD("distm", auto m = used<T>(n, n); algorithms::graph_distance_matrix(g, m); return mat(m, sc););
    FIELD("ecc", return one(num(algorithms::vertex_eccentricity(g, s), sc)););
    FIELD("rad", return one(num(algorithms::graph_radius(g), sc)););
    FIELD("dia", return one(num(algorithms::graph_diameter(g), sc)););
    FIELD("clo", return one(num(algorithms::closeness_centrality(g, s), sc)););
}
HANDLER("metrics") { if (c.str("d") == "f64") metrics<double>(c, out, err); else metrics<int32_t>(c, out, err); }
