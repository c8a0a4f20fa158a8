-------------------------------- MODULE F64 --------------------------------
(* IEEE-754 double arithmetic.  TLC evaluates these operators with the Java  *)
(* override F64.java; the bodies below only declare them.  A number is a     *)
(* string (decimal representation of a double) or a TLA+ integer; vectors    *)
(* are sequences and all arithmetic is element-wise with scalar broadcast.   *)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL Undef == CHOOSE x \in {} : TRUE
FAdd(a, b) == Undef
FSub(a, b) == Undef
FMul(a, b) == Undef
FDiv(a, b) == Undef
FPow(a, b) == Undef
FMax(a, b) == Undef
FMin(a, b) == Undef
FAtan2(a, b) == Undef
FNeg(a) == Undef
FAbs(a) == Undef
FSqrt(a) == Undef
FExp(a) == Undef
FLog(a) == Undef
FSin(a) == Undef
FCos(a) == Undef
FTan(a) == Undef
FAsin(a) == Undef
FAcos(a) == Undef
FAtan(a) == Undef
FTanh(a) == Undef
FSinh(a) == Undef
FCosh(a) == Undef
FRint(a) == Undef
FFloor(a) == Undef
FStepLt(a, b) == Undef      \* 1 where a < b, else 0
FStepLe(a, b) == Undef
FWhere(m, a, b) == Undef    \* element-wise IF m # 0 THEN a ELSE b
FSum(a) == Undef
FProd(a) == Undef
FMaxOf(a) == Undef
FMinOf(a) == Undef
FDot(a, b) == Undef
FMatVec(m, v) == Undef
FCumsum(a) == Undef
FFlat(a) == Undef
FRep(a, n) == Undef
FLinspace(a, b, n) == Undef
FSolve(m, v) == Undef
FInterp(x, xs, ys) == Undef
FLt(a, b) == Undef
FLe(a, b) == Undef
FEq(a, b) == Undef
FAllLe(a, b) == Undef
FFinite(a) == Undef
FIsNum(a) == Undef
FSame(a, b) == Undef
FClose(a, b, rt, at) == Undef
FCloseN(a, b, rt, at) == Undef
FMaxDiff(a, b) == Undef

a ++ b == FAdd(a, b)
a -- b == FSub(a, b)
a ** b == FMul(a, b)
a // b == FDiv(a, b)
a ^^ b == FPow(a, b)
Pi == "3.141592653589793"
=============================================================================
