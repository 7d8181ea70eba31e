// assign: vector, matrix, column, row, constants.
#include "core.hpp"
static Register r1("assignv", TS::n, [](World &w, Val const &c, long long &) {
    auto &W = w.vec<TS::C>(c.str("o"));
    auto &U = w.vec<TS::A>(c.str("a"));
    with_vmask<TS>(w, c, [&](auto const &M) {
      with_acc<TS>(c, [&](auto acc) {
        with_ix(c.at("ri"), [&](auto const &ix) {
          grb::assign(W, M, acc, U, ix, outp_of(c)); }); }); });
});
static Register r2("assignm", TS::n, [](World &w, Val const &c, long long &) {
    auto &C = w.mat<TS::C>(c.str("o"));
    auto &A = w.mat<TS::A>(c.str("a"));
    with_mmask<TS>(w, c, [&](auto const &M) {
      with_acc<TS>(c, [&](auto acc) {
        with_view(A, c.flag("ta"), [&](auto const &a) {
          with_ix2(c, [&](auto const &ri, auto const &ci) {
            grb::assign(C, M, acc, a, ri, ci, outp_of(c)); }); }); }); });
});
static Register r3("assigncol", TS::n, [](World &w, Val const &c, long long &) {
    auto &C = w.mat<TS::C>(c.str("o"));
    auto &U = w.vec<TS::A>(c.str("a"));
    with_vmask<TS>(w, c, [&](auto const &M) {
      with_acc<TS>(c, [&](auto acc) {
        with_ix(c.at("ri"), [&](auto const &ri) {
          grb::assign(C, M, acc, U, ri, (grb::IndexType)c.num("i"), outp_of(c)); }); }); });
});
static Register r4("assignrow", TS::n, [](World &w, Val const &c, long long &) {
    auto &C = w.mat<TS::C>(c.str("o"));
    auto &U = w.vec<TS::A>(c.str("a"));
    with_vmask<TS>(w, c, [&](auto const &M) {
      with_acc<TS>(c, [&](auto acc) {
        with_ix(c.at("ri"), [&](auto const &ci) {
          grb::assign(C, M, acc, U, (grb::IndexType)c.num("i"), ci, outp_of(c)); }); }); });
});
static Register r5("assigncv", TS::n, [](World &w, Val const &c, long long &) {
    auto &W = w.vec<TS::C>(c.str("o"));
    auto val = dec<TS::S>(c.num("v"));
    with_vmask<TS>(w, c, [&](auto const &M) {
      with_acc<TS>(c, [&](auto acc) {
        with_ix(c.at("ri"), [&](auto const &ix) {
          grb::assign(W, M, acc, val, ix, outp_of(c)); }); }); });
});
static Register r6("assigncm", TS::n, [](World &w, Val const &c, long long &) {
    auto &C = w.mat<TS::C>(c.str("o"));
    auto val = dec<TS::S>(c.num("v"));
    with_mmask<TS>(w, c, [&](auto const &M) {
      with_acc<TS>(c, [&](auto acc) {
        with_ix2(c, [&](auto const &ri, auto const &ci) {
          grb::assign(C, M, acc, val, ri, ci, outp_of(c)); }); }); });
});
