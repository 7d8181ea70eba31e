// page rank and clustering
#include "alg.hpp"
#include <random>
#include <algorithms/page_rank.hpp>
#include <algorithms/cluster.hpp>
#include <algorithms/cluster_louvain.hpp>
using namespace alg;
template <typename T> static void rank(Val const &c, Val &out, Val &err)
{
    auto g = matrix<T>(c.at("g")); size_t n = g.nrows();
    FIELD("iter", Val v = Val::arr();
          for (auto k : c.nums("its")) { auto r = used<double>(n); algorithms::page_rank(g, r, c.num("dmp") / 100.0, 0.0, unsigned(k)); v.a.push_back(vec(r, 1e6)); }
          return v;);
    FIELD("dflt", auto r = used<double>(n); algorithms::page_rank(g, r, c.num("dmp") / 100.0); return vec(r, 1e6););
    FIELD("pr", auto r = used<double>(n);
          algorithms::page_rank(g, r, c.num("dmp") / 100.0, 1e-22, 5000u); return vec(r, 1e6););
}
HANDLER("rank")
{
    auto const &d = c.str("d");
    if (d == "i32") rank<int32_t>(c, out, err); else if (d == "u8") rank<uint8_t>(c, out, err); else rank<double>(c, out, err);
}
template <typename T> static void louvain(Val const &c, Val &out, Val &err)
{
    auto g = matrix<T>(c.at("g"));
    FIELD("plain", auto m = algorithms::louvain_cluster(g, double(c.num("seed")), 60u);
          out.set("asg", vec(algorithms::get_louvain_cluster_assignments(m))); return mat(m););
    FIELD("masked", return mat(algorithms::louvain_cluster_masked(g, double(c.num("seed")), 60u)););
}
HANDLER("louvain") { if (c.str("d") == "f64") louvain<double>(c, out, err); else louvain<int32_t>(c, out, err); }
template <typename T> static void peer(Val const &c, Val &out, Val &err)
{
    auto g = matrix<T>(c.at("g")); unsigned it = c.num("iters");
    auto C0 = matrix<bool>(c.at("init"));
    bool ident = true;
    for (size_t i = 0; i < g.nrows(); ++i) for (size_t j = 0; j < g.nrows(); ++j) ident = ident && (C0.hasElement(i, j) == (i == j));
    FIELD("norm", auto C = C0; algorithms::peer_pressure_cluster(g, C, it); return mat(C););
    FIELD("v2", auto C = C0; algorithms::peer_pressure_cluster_v2(g, C, it); return mat(C););
    if (ident) FIELD("id", return mat(algorithms::peer_pressure_cluster(g, it)););
}
HANDLER("peer") { if (c.str("d") == "f64") peer<double>(c, out, err); else peer<int32_t>(c, out, err); }
HANDLER("markov")
{
    auto g = matrix<double>(c.at("g"));
    IndexType e = c.num("e"), r = c.num("r"); unsigned it = c.num("iters");
    FIELD("m", return mat(algorithms::markov_cluster(g, e, r, 1e-16, it), 10000););
    FIELD("next", return mat(algorithms::markov_cluster(g, e, r, 1e-16, it + 1), 10000););
}
HANDLER("assign")
{
    auto m = matrix<double>(c.at("m"));
    FIELD("v1", Val r = Val::arr(); for (auto x : algorithms::get_cluster_assignments(m))
              r.a.emplace_back(x == std::numeric_limits<IndexType>::max() ? NONE : (long long)x); return r;);
    FIELD("v2", return vec(algorithms::get_cluster_assignments_v2(m)););
    if (m.nrows() == m.ncols()) FIELD("lv", return vec(algorithms::get_louvain_cluster_assignments(m)););
}
HANDLER("shapeclu")
{
    auto g = matrix<double>(c.at("g")); size_t s = c.num("s");
    SHAPE("pr", grb::Vector<double> r(s); algorithms::page_rank(g, r, 0.85, 1e-5, 20u));
    SHAPE("louvain", algorithms::louvain_cluster(g, 3.0, 60u));
    SHAPE("masked", algorithms::louvain_cluster_masked(g, 3.0, 60u));
    SHAPE("peer", grb::Matrix<bool> C(s, s); C.setElement(0, 0, true); algorithms::peer_pressure_cluster(g, C, 3u));
    SHAPE("peerr", grb::Matrix<bool> C(g.nrows(), s); C.setElement(0, 0, true); algorithms::peer_pressure_cluster(g, C, 3u));
    SHAPE("v2", grb::Matrix<bool> C(s, s); C.setElement(0, 0, true); algorithms::peer_pressure_cluster_v2(g, C, 3u));
    SHAPE("markov", algorithms::markov_cluster(g, 2, 2, 1e-16, 3u));
}
