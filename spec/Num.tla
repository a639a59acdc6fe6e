-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Numbers of the scalar type of the library: complex (or real) numbers    *)
(* together with a bound on the rounding error with which they are known.  *)
(* The operators are uninterpreted here and overridden by java/Num.java,   *)
(* which implements them with IEEE doubles and a running error bound.      *)
(*                                                                         *)
(* A number on which nothing may be asserted (outside the domain of a      *)
(* function, on a branch cut, beyond the range considered) is "undefined": *)
(* NumOK is FALSE for it, and every operator maps it to an undefined one.  *)
(***************************************************************************)
EXTENDS Integers, Sequences

NumQ(n, d)         == CHOOSE x : x = <<n, d>>      \* the rational n/d
NumC(a, b)         == CHOOSE x : x = <<a, b>>      \* a + i b
NumAdd(a, b)       == CHOOSE x : x = <<a, b>>
NumSub(a, b)       == CHOOSE x : x = <<a, b>>
NumMul(a, b)       == CHOOSE x : x = <<a, b>>
NumDiv(a, b)       == CHOOSE x : x = <<a, b>>
NumNeg(a)          == CHOOSE x : x = <<a>>
NumPow(a, b, real) == CHOOSE x : x = <<a, b, real>>
NumFn(f, a, real)  == CHOOSE x : x = <<f, a, real>> \* elementary function named f
NumOK(a)           == a # <<>>
NumSmall(a)        == a = <<>>                     \* so small that dividing by it loses accuracy
NumClose(a, b, k)  == a = b                        \* equal up to k times the error bounds
NumStr(a)          == ""

N0 == NumQ(0, 1)
N1 == NumQ(1, 1)
=============================================================================
