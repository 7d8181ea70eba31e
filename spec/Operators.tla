------------------------------ MODULE Operators ------------------------------
(***************************************************************************)
(* The library's unary and binary operators, monoids and semirings.        *)
(*                                                                         *)
(* Small types (bool, i8, u8, and i32/f64 far from overflow) are numbers;  *)
(* at the limits of a type a value is a pair <<band, off>>: band 0 is off, *)
(* band 1 (-1) is the largest (smallest) finite value plus off, band 2     *)
(* (-2) is plus (minus) infinity.  Pairs are ordered lexicographically.    *)
(***************************************************************************)
EXTENDS Algos, Bitwise

OperKinds == {"un", "bin", "mon", "semi", "limun", "limbin", "limmon", "mbin", "msemi", "mun"}

B01(b) == IF b THEN 1 ELSE 0
(* conversion of the mathematical result to the type *)
Wrap(d, x) == CASE d = "i8" -> ((x + 128) % 256) - 128
                [] d = "u8" -> x % 256
                [] d = "i16" -> ((x + 32768) % 65536) - 32768
                [] d = "bool" -> B01(x # 0)
                [] OTHER -> x
TDiv(a, b) == IF a >= 0 THEN (IF b > 0 THEN a \div b ELSE -(a \div (-b)))      \* truncating
              ELSE (IF b > 0 THEN -((-a) \div b) ELSE (-a) \div (-b))
RECURSIVE Pow(_, _)
Pow(a, b) == IF b = 0 THEN 1 ELSE a * Pow(a, b - 1)
Bits(d) == IF d \in {"i8", "u8"} THEN 256 ELSE 65536
Un2(d, x) == (x + Bits(d)) % Bits(d)              \* two's complement, as a natural
Sg(d, x) == IF d = "u8" THEN x ELSE IF x >= Bits(d) \div 2 THEN x - Bits(d) ELSE x
BitOp(f, d, a, b) ==
  LET x == Un2(d, a)  y == Un2(d, b) IN
  Sg(d, CASE f = "BitwiseOr" -> x | y
          [] f = "BitwiseAnd" -> x & y
          [] f = "BitwiseXor" -> x ^^ y
          [] f = "BitwiseXnor" -> (Bits(d) - 1) - (x ^^ y))

(* f64 values carry a factor 16 *)
F == 16
(* value of the operator f of type d at a (and b), in the type's own terms *)
UnOp(f, d, a) ==
  CASE f = "Identity" -> a
    [] f = "Abs" -> Abs(a)
    [] f = "AdditiveInverse" -> Wrap(d, -a)
    [] f = "MultiplicativeInverse" -> IF d = "f64" THEN (F * F) \div a ELSE Wrap(d, TDiv(1, a))
    [] f = "LogicalNot" -> IF d = "f64" THEN F * B01(a = 0) ELSE B01(a = 0)
    [] f = "BitwiseNot" -> Wrap(d, -a - 1)
BinOp(f, d, a, b) ==
  LET one == IF d = "f64" THEN F ELSE 1 IN
  CASE f = "LogicalOr" -> one * B01(a # 0 \/ b # 0)
    [] f = "LogicalAnd" -> one * B01(a # 0 /\ b # 0)
    [] f = "LogicalXor" -> one * B01((a # 0) # (b # 0))
    [] f = "LogicalXnor" -> one * B01((a # 0) = (b # 0))
    [] f = "Equal" -> B01(a = b)
    [] f = "NotEqual" -> B01(a # b)
    [] f = "GreaterThan" -> B01(a > b)
    [] f = "LessThan" -> B01(a < b)
    [] f = "GreaterEqual" -> B01(a >= b)
    [] f = "LessEqual" -> B01(a <= b)
    [] f = "First" -> a
    [] f = "Second" -> b
    [] f = "Min" -> IF a < b THEN a ELSE b
    [] f = "Max" -> IF a < b THEN b ELSE a
    [] f = "Plus" -> Wrap(d, a + b)
    [] f = "Minus" -> Wrap(d, a - b)
    [] f = "Times" -> IF d = "f64" THEN (a * b) \div F ELSE Wrap(d, a * b)
    [] f = "Div" -> IF d = "f64" THEN (a * F) \div b ELSE Wrap(d, TDiv(a, b))
    [] f = "Power" -> IF d = "f64" THEN F * Pow(a \div F, b \div F) ELSE Wrap(d, Pow(a, b))
    [] OTHER -> BitOp(f, d, a, b)

MonOp(m) == CASE m = "PlusMonoid" -> "Plus" [] m = "TimesMonoid" -> "Times"
              [] m = "LogicalOrMonoid" -> "LogicalOr" [] m = "LogicalAndMonoid" -> "LogicalAnd"
              [] m = "LogicalXorMonoid" -> "LogicalXor" [] m = "LogicalXnorMonoid" -> "LogicalXnor"
              [] m = "MinMonoid" -> "Min" [] m = "MaxMonoid" -> "Max"
Logical(m) == m \in {"LogicalOrMonoid", "LogicalAndMonoid", "LogicalXorMonoid", "LogicalXnorMonoid"}
(* smallest and largest value of a small type *)
Low(d) == CASE d = "bool" -> 0 [] d = "u8" -> 0 [] d = "i8" -> -128
High(d) == CASE d = "bool" -> 1 [] d = "u8" -> 255 [] d = "i8" -> 127
MonId(m, d) == CASE m = "PlusMonoid" -> 0 [] m = "TimesMonoid" -> 1
                 [] m \in {"LogicalOrMonoid", "LogicalXorMonoid"} -> 0
                 [] m \in {"LogicalAndMonoid", "LogicalXnorMonoid"} -> 1
                 [] m = "MinMonoid" -> High(d) [] m = "MaxMonoid" -> Low(d)

SemiDef == [ArithmeticSemiring |-> <<"PlusMonoid", "Times">>, MinPlusSemiring |-> <<"MinMonoid", "Plus">>,
  MaxPlusSemiring |-> <<"MaxMonoid", "Plus">>, MinTimesSemiring |-> <<"MinMonoid", "Times">>,
  MaxTimesSemiring |-> <<"MaxMonoid", "Times">>, MinMaxSemiring |-> <<"MinMonoid", "Max">>,
  MaxMinSemiring |-> <<"MaxMonoid", "Min">>, PlusMinSemiring |-> <<"PlusMonoid", "Min">>,
  LogicalSemiring |-> <<"LogicalOrMonoid", "LogicalAnd">>, AndOrSemiring |-> <<"LogicalAndMonoid", "LogicalOr">>,
  XorAndSemiring |-> <<"LogicalXorMonoid", "LogicalAnd">>, XnorOrSemiring |-> <<"LogicalXnorMonoid", "LogicalOr">>,
  MinFirstSemiring |-> <<"MinMonoid", "First">>, MinSecondSemiring |-> <<"MinMonoid", "Second">>,
  MaxFirstSemiring |-> <<"MaxMonoid", "First">>, MaxSecondSemiring |-> <<"MaxMonoid", "Second">>]

(* ---- operators over several types ----
   The operands are taken as they are, the result is converted to the result
   type.  Everything is counted in sixteenths. *)
Six(d, x) == IF d = "f64" THEN x ELSE F * x
Conv(d, x) == CASE d = "f64" -> x [] d = "bool" -> B01(x # 0) [] OTHER -> Wrap(d, TDiv(x, F))
Two16(x) == (x + 65536) % 65536
Sg16(x) == IF x >= 32768 THEN x - 65536 ELSE x
MixBin(f, d1, d2, a, b) ==
  LET x == Six(d1, a)  y == Six(d2, b)  ints == d1 # "f64" /\ d2 # "f64" IN
  CASE f = "LogicalOr" -> F * B01(a # 0 \/ b # 0)
    [] f = "LogicalAnd" -> F * B01(a # 0 /\ b # 0)
    [] f = "LogicalXor" -> F * B01((a # 0) # (b # 0))
    [] f = "LogicalXnor" -> F * B01((a # 0) = (b # 0))
    [] f = "Equal" -> F * B01(x = y)
    [] f = "NotEqual" -> F * B01(x # y)
    [] f = "GreaterThan" -> F * B01(x > y)
    [] f = "LessThan" -> F * B01(x < y)
    [] f = "GreaterEqual" -> F * B01(x >= y)
    [] f = "LessEqual" -> F * B01(x <= y)
    [] f = "First" -> x
    [] f = "Second" -> y
    [] f = "Min" -> IF x < y THEN x ELSE y
    [] f = "Max" -> IF x < y THEN y ELSE x
    [] f = "Plus" -> x + y
    [] f = "Minus" -> x - y
    [] f = "Times" -> TDiv(x * y, F)
    [] f = "Div" -> IF ints THEN F * TDiv(a, b) ELSE TDiv(x * F, y)
    [] f = "Power" -> F * Pow(TDiv(x, F), TDiv(y, F))
    [] f = "BitwiseOr" -> F * Sg16(Two16(a) | Two16(b))
    [] f = "BitwiseAnd" -> F * Sg16(Two16(a) & Two16(b))
    [] f = "BitwiseXor" -> F * Sg16(Two16(a) ^^ Two16(b))
    [] f = "BitwiseXnor" -> F * Sg16(65535 - (Two16(a) ^^ Two16(b)))
MixUn(f, d1, d2, a) ==
  LET x == Six(d1, a) IN
  CASE f = "Identity" -> x
    [] f = "Abs" -> Abs(x)
    [] f = "AdditiveInverse" -> -x
    [] f = "MultiplicativeInverse" -> IF d1 # "f64" /\ d2 # "f64" THEN F * TDiv(1, a) ELSE TDiv(F * F, x)
    [] f = "LogicalNot" -> F * B01(a = 0)
    [] f = "BitwiseNot" -> F * (-a - 1)
Comparing(f) == f \in {"Equal", "NotEqual", "GreaterThan", "LessThan", "GreaterEqual", "LessEqual"}
(* the result type of an operator that is given its two argument types only *)
ResultType(f, d) == IF Comparing(f) THEN "bool" ELSE IF f = "Second" THEN d[2] ELSE d[1]

(* ---- at the limits of a type: pairs <<band, off>> ---- *)
PLess(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Zero == <<0, 0>>
OneP == <<0, 1>>
IsF(d) == d \in {"f32", "f64"}
IsU(d) == d \in {"u8", "u16", "u32", "u64"}
LowP(d) == IF IsF(d) THEN <<-2, 0>> ELSE IF IsU(d) THEN Zero ELSE <<-1, 0>>
HighP(d) == IF IsF(d) THEN <<2, 0>> ELSE <<1, 0>>
Truth(x) == x # Zero
P01(b) == IF b THEN OneP ELSE Zero
LimUn(f, d, x) ==
  CASE f = "Identity" -> x
    [] f = "LogicalNot" -> P01(~Truth(x))
    [] f = "Abs" -> IF ~PLess(x, Zero) THEN x
                    ELSE IF IsF(d) \/ x[1] = 0 THEN <<-x[1], -x[2]>> ELSE <<1, 1 - x[2]>>
    [] f = "AdditiveInverse" ->                \* signed only; not of the smallest integer
         IF IsF(d) \/ x[1] = 0 THEN <<-x[1], -x[2]>>
         ELSE IF x[1] = 1 THEN <<-1, 1 - x[2]>> ELSE <<1, 1 - x[2]>>
    [] f = "BitwiseNot" -> IF IsU(d) THEN <<1 - x[1], -x[2]>>
                           ELSE IF x[1] = 0 THEN <<0, -x[2] - 1>> ELSE <<-x[1], -x[2]>>
LimBin(f, d, x, y) ==
  CASE f = "LogicalOr" -> P01(Truth(x) \/ Truth(y))
    [] f = "LogicalAnd" -> P01(Truth(x) /\ Truth(y))
    [] f = "LogicalXor" -> P01(Truth(x) # Truth(y))
    [] f = "LogicalXnor" -> P01(Truth(x) = Truth(y))
    [] f = "Equal" -> P01(x = y)
    [] f = "NotEqual" -> P01(x # y)
    [] f = "GreaterThan" -> P01(PLess(y, x))
    [] f = "LessThan" -> P01(PLess(x, y))
    [] f = "GreaterEqual" -> P01(~PLess(x, y))
    [] f = "LessEqual" -> P01(~PLess(y, x))
    [] f = "First" -> x
    [] f = "Second" -> y
    [] f = "Min" -> IF PLess(x, y) THEN x ELSE y
    [] f = "Max" -> IF PLess(x, y) THEN y ELSE x
LimId(m, d) == CASE m = "PlusMonoid" -> Zero [] m = "TimesMonoid" -> OneP
                 [] m = "MinMonoid" -> HighP(d) [] m = "MaxMonoid" -> LowP(d)

OutO(r, f) == IF f \in DOMAIN r.out THEN r.out[f] ELSE <<>>
Uo(b, f) == IF b THEN {} ELSE {f}
BadOper(r) ==
  CASE r.k = "un" -> Uo(OutO(r, "v") = [i \in DOMAIN r.xs |-> UnOp(r.f, r.d, r.xs[i])], "v")
    [] r.k = "bin" -> Uo(OutO(r, "v") = [i \in DOMAIN r.bs |-> BinOp(r.f, r.d, r.a, r.bs[i])], "v")
    [] r.k = "mon" ->
         Uo(OutO(r, "id") = <<MonId(r.f, r.d)>>, "id") \cup
         Uo(OutO(r, "l") = r.xs, "l") \cup Uo(OutO(r, "r") = r.xs, "r") \cup
         Uo(OutO(r, "v") = [i \in DOMAIN r.xs |-> BinOp(MonOp(r.f), r.d, r.a, r.xs[i])], "v") \cup
         Uo(OutO(r, "w") = [i \in DOMAIN r.xs |-> BinOp(MonOp(r.f), r.d, r.a, r.xs[i])], "w")   \* swapped
    [] r.k = "semi" ->
         LET sd == SemiDef[r.f]  mo == MonOp(sd[1]) IN
         Uo(OutO(r, "zero") = <<MonId(sd[1], r.d), MonId(sd[1], r.d)>>, "zero") \cup
         Uo(OutO(r, "add") = [i \in DOMAIN r.bs |-> BinOp(mo, r.d, r.a, r.bs[i])], "add") \cup
         Uo(OutO(r, "mult") = [i \in DOMAIN r.bs |-> BinOp(sd[2], r.d, r.a, r.bs[i])], "mult") \cup
         Uo(OutO(r, "madd") = OutO(r, "add"), "madd") \cup Uo(OutO(r, "mmult") = OutO(r, "mult"), "mmult")
    [] r.k = "mbin" ->
         LET t == IF r.def = 1 THEN ResultType(r.f, r.d) ELSE r.d[3] IN
         Uo(OutO(r, "v") = [i \in DOMAIN r.bs |-> Conv(t, MixBin(r.f, r.d[1], r.d[2], r.a, r.bs[i]))], "v") \cup
         Uo(r.out.t = t, "t")
    [] r.k = "mun" -> Uo(OutO(r, "v") = [i \in DOMAIN r.xs |-> Conv(r.d[2], MixUn(r.f, r.d[1], r.d[2], r.xs[i]))], "v")
    [] r.k = "msemi" ->
         LET sd == SemiDef[r.f]  t == r.d[3] IN
         Uo(OutO(r, "mult") = [i \in DOMAIN r.bs |-> Conv(t, MixBin(sd[2], r.d[1], r.d[2], r.a, r.bs[i]))], "mult") \cup
         Uo(OutO(r, "mmult") = OutO(r, "mult"), "mmult") \cup
         Uo(OutO(r, "add") = [i \in DOMAIN r.cs |-> BinOp(MonOp(sd[1]), t, r.w, r.cs[i])], "add") \cup
         Uo(OutO(r, "madd") = OutO(r, "add"), "madd") \cup
         Uo(OutO(r, "zl") = r.cs, "zl") \cup Uo(OutO(r, "zr") = r.cs, "zr")
    [] r.k = "limun" -> Uo(OutO(r, "v") = [i \in DOMAIN r.xs |-> LimUn(r.f, r.d, r.xs[i])], "v")
    [] r.k = "limbin" -> Uo(OutO(r, "v") = [i \in DOMAIN r.bs |-> LimBin(r.f, r.d, r.a, r.bs[i])], "v")
    [] r.k = "limmon" -> Uo(OutO(r, "id") = LimId(r.f, r.d), "id") \cup
                         Uo(OutO(r, "l") = r.xs, "l") \cup Uo(OutO(r, "r") = r.xs, "r") \cup
                         \* as the zero of every semiring over the monoid
                         Uo(\A i \in DOMAIN OutO(r, "zeros") : r.out.zeros[i] = LimId(r.f, r.d), "zeros")
=============================================================================
