// eWiseAdd and eWiseMult on vectors and matrices.
#include "core.hpp"
template <bool ADD> static void ewv(World &w, Val const &c, long long &)
{
    auto &W = w.vec<TS::C>(c.str("o"));
    auto &U = w.vec<TS::A>(c.str("a"));
    auto &V = w.vec<TS::B>(c.str("b"));
    auto op = mulop<TS>(c);
    with_vmask<TS>(w, c, [&](auto const &M) {
      with_acc<TS>(c, [&](auto acc) {
        if constexpr (ADD) grb::eWiseAdd(W, M, acc, op, U, V, outp_of(c));
        else grb::eWiseMult(W, M, acc, op, U, V, outp_of(c)); }); });
}
template <bool ADD> static void ewm(World &w, Val const &c, long long &)
{
    auto &C = w.mat<TS::C>(c.str("o"));
    auto &A = w.mat<TS::A>(c.str("a"));
    auto &B = w.mat<TS::B>(c.str("b"));
    auto op = mulop<TS>(c);
    with_mmask<TS>(w, c, [&](auto const &M) {
      with_acc<TS>(c, [&](auto acc) {
        with_view(A, c.flag("ta"), [&](auto const &a) {
          with_view(B, c.flag("tb"), [&](auto const &b) {
            if constexpr (ADD) grb::eWiseAdd(C, M, acc, op, a, b, outp_of(c));
            else grb::eWiseMult(C, M, acc, op, a, b, outp_of(c)); }); }); }); });
}
static Register r1("eaddv", TS::n, ewv<true>);
static Register r2("emulv", TS::n, ewv<false>);
static Register r3("eaddm", TS::n, ewm<true>);
static Register r4("emulm", TS::n, ewm<false>);
