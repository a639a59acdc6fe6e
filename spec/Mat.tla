-------------------------------- MODULE Mat ---------------------------------
(***************************************************************************)
(* The matrix language: what every matrix operator and library function    *)
(* computes, entry by entry.  Entries are dual numbers, so the same        *)
(* definitions give values and derivatives; they share nothing with the    *)
(* way the library computes derivatives (Kronecker products in forward     *)
(* mode, transposed products in reverse mode).                             *)
(* A matrix is [r |-> rows, c |-> columns, e |-> entries, row by row].     *)
(***************************************************************************)
EXTENDS Dual

Mk(r, c, e) == [r |-> r, c |-> c, e |-> e]
Bad == Mk(0, 0, <<>>)
Tab(r, c, F(_, _)) == Mk(r, c, Force([n \in 1..(r * c) |-> F(((n - 1) \div c) + 1, ((n - 1) % c) + 1)]))
At(M, i, j) == M.e[(i - 1) * M.c + j]
Map1(M, F(_)) == Mk(M.r, M.c, Force([n \in 1..Len(M.e) |-> F(M.e[n])]))
Map2(M, N, F(_, _)) == Mk(M.r, M.c, Force([n \in 1..Len(M.e) |-> F(M.e[n], N.e[n])]))

\* one undefined entry makes the whole matrix undefined
Clean(M) == IF DOK(M.e) THEN M ELSE Mk(M.r, M.c, Force([k \in 1..Len(M.e) |-> UndefD(Len(M.e[k][2]))]))

MAdd(A, B) == Map2(A, B, DAdd)
MSub(A, B) == Map2(A, B, DSub)
MHad(A, B) == Map2(A, B, DMul)
MQuo(A, B) == Map2(A, B, DDiv)
MMul(A, B) == Tab(A.r, B.c, LAMBDA i, j: DDot([k \in 1..A.c |-> At(A, i, k)], [k \in 1..A.c |-> At(B, k, j)]))
MTr(A) == Tab(A.c, A.r, LAMBDA i, j: At(A, j, i))
MVec(A) == Mk(A.r * A.c, 1, A.e)                  \* stacks the rows
MFun(f, A, real) == Map1(A, LAMBDA x: DFun(f, x, real))

\* n active cells
MConst(r, c, v, n) == Tab(r, c, LAMBDA i, j: DConst(v, n))
MEye(r, n) == Tab(r, r, LAMBDA i, j: DConst(IF i = j THEN N1 ELSE N0, n))

\* without row i and column j
Minor(A, i, j) == Tab(A.r - 1, A.c - 1, LAMBDA k, l: At(A, IF k < i THEN k ELSE k + 1, IF l < j THEN l ELSE l + 1))
DNeg(a) == DScale(NumQ(-1, 1), a)
RECURSIVE Det(_)
Det(A) == IF A.r = 1 THEN At(A, 1, 1)
          ELSE DSum([j \in 1..A.c |->
                 LET t == DMul(At(A, 1, j), Det(Minor(A, 1, j))) IN IF j % 2 = 1 THEN t ELSE DNeg(t)])
\* the library inverts numerically: nothing is asserted near singular matrices
Inv(A) == LET d == Det(A)  q == IF NumSmall(d[1]) THEN UndefD(Len(d[2])) ELSE DInv(d) IN
          IF A.r = 1 THEN Mk(1, 1, DSolved(<<q>>, A.e, 1))
          ELSE Mk(A.r, A.r, DSolved(Tab(A.r, A.r, LAMBDA i, j:
                 LET t == DMul(Det(Minor(A, j, i)), q) IN IF (i + j) % 2 = 0 THEN t ELSE DNeg(t)).e, A.e, A.r))
MDet(A) == LET d == Det(A) IN Mk(1, 1, <<IF NumSmall(d[1]) /\ Len(d[2]) > 0 THEN UndefD(Len(d[2])) ELSE DSolvedDet(d, A.e, A.r)>>)

RowSum(A) == Tab(A.r, 1, LAMBDA i, j: DSum([k \in 1..A.c |-> At(A, i, k)]))
ColSum(A) == Tab(1, A.c, LAMBDA i, j: DSum([k \in 1..A.r |-> At(A, k, j)]))
AllSum(A) == Mk(1, 1, <<DSum(A.e)>>)
Trace(A)  == Mk(1, 1, <<DSum([k \in 1..A.r |-> At(A, k, k)])>>)
Frob(A, real) == MFun("sqrt", AllSum(MHad(A, A)), real)

RECURSIVE MPow(_, _, _), MFact(_)
MPow(A, n, na) == IF n = 0 THEN MEye(A.r, na) ELSE IF n = 1 THEN A ELSE MMul(A, MPow(A, n - 1, na))
MFact(n) == IF n = 0 THEN 1 ELSE n * MFact(n - 1)
MScale(q, A) == Map1(A, LAMBDA x: DScale(q, x))
\* truncated series of the matrix exponential and logarithm
RECURSIVE MExpS(_, _, _), MLogS(_, _, _)
MExpS(A, n, na) == IF n = 0 THEN MEye(A.r, na) ELSE MAdd(MScale(NumQ(1, MFact(n)), MPow(A, n, na)), MExpS(A, n - 1, na))
MLogS(A, n, na) == IF n = 0 THEN MConst(A.r, A.r, N0, na)
                   ELSE MAdd(MScale(NumQ(-1, n), MPow(MSub(MEye(A.r, na), A), n, na)), MLogS(A, n - 1, na))

SoftMaxR(A, real) == LET E == MFun("exp", A, real)  S == ColSum(E) IN Tab(A.r, A.c, LAMBDA i, j: DDiv(At(E, i, j), At(S, 1, j)))
SoftMaxC(A, real) == LET E == MFun("exp", A, real)  S == RowSum(E) IN Tab(A.r, A.c, LAMBDA i, j: DDiv(At(E, i, j), At(S, i, 1)))
SoftMaxA(A, real) == LET E == MFun("exp", A, real)  S == AllSum(E) IN Tab(A.r, A.c, LAMBDA i, j: DDiv(At(E, i, j), S.e[1]))

CatV(A, B) == Mk(A.r + B.r, A.c, A.e \o B.e)
CatH(A, B) == Tab(A.r, A.c + B.c, LAMBDA i, j: IF j <= A.c THEN At(A, i, j) ELSE At(B, i, j - A.c))

\* sliding window of B over A with zero padding p and strides s (rows, columns)
ConvR(a, b, s, p) == IF a + 2 * p < b THEN 0 ELSE ((a + 2 * p - b) \div s) + 1
Conv(A, B, s1, s2, p1, p2, na) ==
  LET Z == DConst(N0, na)
      P(i, j) == IF i >= 1 /\ i <= A.r /\ j >= 1 /\ j <= A.c THEN At(A, i, j) ELSE Z
  IN Tab(ConvR(A.r, B.r, s1, p1), ConvR(A.c, B.c, s2, p2), LAMBDA i, j:
       DDot([n \in 1..Len(B.e) |-> P((i - 1) * s1 + ((n - 1) \div B.c) + 1 - p1, (j - 1) * s2 + ((n - 1) % B.c) + 1 - p2)], B.e))
=============================================================================
