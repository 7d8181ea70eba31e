// extract: sub-vector, sub-matrix, column (or row through a transpose view).
#include "core.hpp"
static Register r1("extractv", TS::n, [](World &w, Val const &c, long long &) {
    auto &W = w.vec<TS::C>(c.str("o"));
    auto &U = w.vec<TS::A>(c.str("a"));
    with_vmask<TS>(w, c, [&](auto const &M) {
      with_acc<TS>(c, [&](auto acc) {
        with_ix(c.at("ri"), [&](auto const &ix) {
          grb::extract(W, M, acc, U, ix, outp_of(c)); }); }); });
});
static Register r2("extractm", TS::n, [](World &w, Val const &c, long long &) {
    auto &C = w.mat<TS::C>(c.str("o"));
    auto &A = w.mat<TS::A>(c.str("a"));
    with_mmask<TS>(w, c, [&](auto const &M) {
      with_acc<TS>(c, [&](auto acc) {
        with_view(A, c.flag("ta"), [&](auto const &a) {
          with_ix2(c, [&](auto const &ri, auto const &ci) {
            grb::extract(C, M, acc, a, ri, ci, outp_of(c)); }); }); }); });
});
static Register r3("extractcol", TS::n, [](World &w, Val const &c, long long &) {
    auto &W = w.vec<TS::C>(c.str("o"));
    auto &A = w.mat<TS::A>(c.str("a"));
    with_vmask<TS>(w, c, [&](auto const &M) {
      with_acc<TS>(c, [&](auto acc) {
        with_view(A, c.flag("ta"), [&](auto const &a) {
          with_ix(c.at("ri"), [&](auto const &ri) {
            grb::extract(W, M, acc, a, ri, (grb::IndexType)c.num("i"), outp_of(c)); }); }); }); });
});
