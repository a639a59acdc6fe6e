-------------------------------- MODULE Dual --------------------------------
(***************************************************************************)
(* Numbers with their partial derivatives: <<v, d>> where d lists the      *)
(* partial derivatives of v with respect to the active variable cells.     *)
(* (java/Dual.java overrides these definitions with the same functions,    *)
(* computed faster.)                                                       *)
(***************************************************************************)
EXTENDS Terms

Force(s) == s \o <<>>     \* TLC evaluates the sequence once

DAdd(a, b) == <<NumAdd(a[1], b[1]), Force([i \in 1..Len(a[2]) |-> NumAdd(a[2][i], b[2][i])])>>
DSub(a, b) == <<NumSub(a[1], b[1]), Force([i \in 1..Len(a[2]) |-> NumSub(a[2][i], b[2][i])])>>
DMul(a, b) == <<NumMul(a[1], b[1]),
                Force([i \in 1..Len(a[2]) |-> NumAdd(NumMul(a[2][i], b[1]), NumMul(a[1], b[2][i]))])>>
\* value v whose derivative is k times that of a
DChain(v, k, a) == <<v, Force([i \in 1..Len(a[2]) |-> NumMul(k, a[2][i])])>>
DScale(k, a) == <<NumMul(k, a[1]), Force([i \in 1..Len(a[2]) |-> NumMul(k, a[2][i])])>>
RECURSIVE DSum(_)
DSum(s) == IF Len(s) = 1 THEN s[1] ELSE DAdd(s[1], DSum(Tail(s)))
\* sum of the products of corresponding elements
DDot(s, t) == DSum([k \in 1..Len(s) |-> DMul(s[k], t[k])])

\* numbers of an inverse or a determinant d of the n by n matrix with entries a
\* (the override widens their error bounds to those of numerical elimination)
DSolved(s, a, n) == s
DSolvedDet(d, a, n) == d

DConst(v, n) == <<v, Force([i \in 1..n |-> N0])>>
UndefD(n) == <<Undef, Force([i \in 1..n |-> Undef])>>
\* every number of a sequence of dual numbers is defined
DOK(s) == \A k \in 1..Len(s) : NumOK(s[k][1]) /\ \A i \in 1..Len(s[k][2]) : NumOK(s[k][2][i])
DInv(a) == LET q == NumDiv(N1, a[1]) IN DChain(q, NumNeg(NumMul(q, q)), a)
DDiv(a, b) == DMul(a, DInv(b))
\* elementary function f
DFun(f, a, real) ==
  DChain(NumFn(f, a[1], real), Ev(DFn(f, C(a[1])), <<>>, <<>>, real), a)
=============================================================================
