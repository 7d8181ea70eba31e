// apply: unary operators and binary operators with one bound argument.
#include "core.hpp"
static Register r1("applyv", TS::n, [](World &w, Val const &c, long long &) {
    auto &W = w.vec<TS::C>(c.str("o"));
    auto &U = w.vec<TS::A>(c.str("a"));
    RtUn<TS::U1, TS::U2> op{un_code(c.at("un").str("f"))};
    with_vmask<TS>(w, c, [&](auto const &M) {
      with_acc<TS>(c, [&](auto acc) { grb::apply(W, M, acc, op, U, outp_of(c)); }); });
});
static Register r2("applym", TS::n, [](World &w, Val const &c, long long &) {
    auto &C = w.mat<TS::C>(c.str("o"));
    auto &A = w.mat<TS::A>(c.str("a"));
    RtUn<TS::U1, TS::U2> op{un_code(c.at("un").str("f"))};
    with_mmask<TS>(w, c, [&](auto const &M) {
      with_acc<TS>(c, [&](auto acc) {
        with_view(A, c.flag("ta"), [&](auto const &a) {
          grb::apply(C, M, acc, op, a, outp_of(c)); }); }); });
});
template <bool FIRST> static void bindv(World &w, Val const &c, long long &)
{
    auto &W = w.vec<TS::C>(c.str("o"));
    auto &U = w.vec<TS::A>(c.str("a"));
    auto val = dec<TS::S>(c.num("v"));
    RtBin<TS::D1, TS::D2, TS::D3> op = mulop<TS>(c);
    with_vmask<TS>(w, c, [&](auto const &M) {
      with_acc<TS>(c, [&](auto acc) {
        if constexpr (FIRST) grb::apply(W, M, acc, op, val, U, outp_of(c));
        else grb::apply(W, M, acc, op, U, val, outp_of(c)); }); });
}
template <bool FIRST> static void bindm(World &w, Val const &c, long long &)
{
    auto &C = w.mat<TS::C>(c.str("o"));
    auto &A = w.mat<TS::A>(c.str("a"));
    auto val = dec<TS::S>(c.num("v"));
    RtBin<TS::D1, TS::D2, TS::D3> op = mulop<TS>(c);
    with_mmask<TS>(w, c, [&](auto const &M) {
      with_acc<TS>(c, [&](auto acc) {
        with_view(A, c.flag("ta"), [&](auto const &a) {
          if constexpr (FIRST) grb::apply(C, M, acc, op, val, a, outp_of(c));
          else grb::apply(C, M, acc, op, a, val, outp_of(c)); }); }); });
}
static Register r3("bind1v", TS::n, bindv<true>);
static Register r4("bind2v", TS::n, bindv<false>);
static Register r5("bind1m", TS::n, bindm<true>);
static Register r6("bind2m", TS::n, bindm<false>);
