------------------------------ MODULE MatProg -------------------------------
(***************************************************************************)
(* The matrix part of the library as an abstract machine.                  *)
(*                                                                         *)
(* State: matrices of variables, numbers, parameters and scalar            *)
(* expressions of fixed sizes, matrix expressions (a list of statements),  *)
(* which expression was last prepared for reverse mode, the numeric        *)
(* backend in use, and the results a user still holds.  Every action is    *)
(* one public call; queries record what the semantics of Mat demands.      *)
(***************************************************************************)
EXTENDS Mat, MShapes, TLC, Json

CONSTANTS Real, Profile,
          Use,       \* the shapes (indices into MShapes) this run may use
          RecUse,    \* those for statements that mention the expression assigned to
          Depth

NE == 5
NV == 3
MaxSize == 60      \* nodes of an expression, expressions it uses included
MaxCells == 150    \* entries of a derivative

VARIABLES dm,      \* the three sizes of this behaviour: 1, a, b
          xval,    \* values of the variable cells: scalars first, then the matrices X
          pval,    \* values of the parameter cells: scalars first, then the matrices P
          tm,      \* matrices of numbers
          sm, se,  \* terms of the entries of the matrices S, and of the scalar expressions
          y,       \* <<rows, columns, cells>> of the matrix whose entries are the scalar variables
          ex,      \* matrix expressions [st, made, stale, r, c]
          pre,     \* prepared expression (0: none)
          naive,   \* TRUE: the naive backend is selected
          held,    \* results still held: sequence of [r, c, e]
          flav,    \* kind of numbers in this behaviour: TRUE: mostly 0, 1, -1, ...
          hist

vars == <<dm, xval, pval, tm, sm, se, y, ex, pre, naive, held, flav, hist>>
env == <<dm, xval, pval, tm, sm, se, y>>

Pick(S) == RandomElement(S)
Rep(s, n) == [i \in 1..n |-> s]
----------------------------------------------------------------------------
(* Profiles *)
Reverse == Profile \in {"mrev", "mlibr", "mrealr"}

Acts == CASE Profile = "meval" -> Rep("assign", 5) \o Rep("eval", 6) \o Rep("teval", 4) \o Rep("leval", 1) \o Rep("set", 3) \o Rep("frame", 1)
          [] Profile = "mfwd"  -> Rep("assign", 4) \o Rep("fwd", 8) \o Rep("tfwd", 4) \o Rep("lfwd", 1) \o Rep("set", 2)
          [] Profile \in {"mrev", "mlibr", "mrealr"} -> Rep("assign", 4) \o Rep("pre", 3) \o Rep("rev", 8) \o Rep("revv", 3) \o Rep("set", 2)
          [] Profile = "mlib"  -> Rep("assign", 4) \o Rep("eval", 3) \o Rep("teval", 2) \o Rep("fwd", 5) \o Rep("tfwd", 2) \o Rep("set", 2)
          [] Profile = "mreal" -> Rep("assign", 4) \o Rep("eval", 3) \o Rep("fwd", 4) \o Rep("pre", 2) \o Rep("rev", 4) \o Rep("set", 3)
          [] Profile = "mconv" -> Rep("assign", 5) \o Rep("eval", 3) \o Rep("teval", 2) \o Rep("fwd", 4) \o Rep("tfwd", 1) \o Rep("pre", 2) \o Rep("rev", 4) \o Rep("set", 2)
          [] Profile = "mhist" -> Rep("assign", 4) \o Rep("recur", 3) \o Rep("eval", 4) \o Rep("fwd", 4) \o Rep("pre", 2) \o Rep("rev", 4)
                                    \o Rep("revv", 2) \o Rep("set", 5) \o Rep("teval", 1) \o Rep("tfwd", 1) \o Rep("frame", 1)
          [] Profile = "mmix"  -> Rep("assign", 4) \o Rep("eval", 4) \o Rep("teval", 2) \o Rep("fwd", 5) \o Rep("tfwd", 1) \o Rep("set", 2) \o Rep("mode", 4)
          [] Profile = "mhold" -> Rep("assign", 4) \o Rep("hold", 5) \o Rep("look", 6) \o Rep("eval", 3) \o Rep("teval", 2) \o Rep("fwd", 3) \o Rep("tfwd", 1)
                                    \o Rep("pre", 1) \o Rep("rev", 2) \o Rep("set", 1) \o Rep("frame", 4) \o Rep("const", 2)
          [] Profile = "mscal" -> Rep("assign", 4) \o Rep("eval", 3) \o Rep("teval", 2) \o Rep("fwd", 4) \o Rep("fwdy", 4) \o Rep("tfwd", 1) \o Rep("lfwd", 1) \o Rep("pre", 2)
                                    \o Rep("revv", 5) \o Rep("rev", 2) \o Rep("set", 3)

\* S and e entries may depend on entries of X (not in reverse mode, where the
\* library propagates adjoints to scalar variables only)
XTerms == Profile \in {"mfwd", "meval"}
----------------------------------------------------------------------------
(* Random data: a number is a pair of sixteenths *)
RIF(f, z) == LET r == Pick(1..10) IN
         IF f /\ r <= 6 THEN (IF r <= 3 THEN <<16 * Pick(0..1), 0>> ELSE <<8 * Pick(-2..4), 0>>)
         ELSE IF Profile = "mhist" /\ r <= 6 THEN <<16 * Pick(-2..3), 0>>
         ELSE IF Real THEN <<IF r <= 5 THEN Pick(6..28) ELSE Pick(-24..24), 0>>
         ELSE IF r <= 2 THEN <<16 * Pick(-1..2), 0>>
         ELSE <<Pick(-20..24), Pick(-20..20)>>
Val(p) == IF Real THEN NumQ(p[1], 16) ELSE NumC(NumQ(p[1], 16), NumQ(p[2], 16))
RI(z) == RIF(flav, z)
RIntsF(f, n) == Force([i \in 1..n |-> RIF(f, i)])
RInts(n) == RIntsF(flav, n)

\* slot q of a kind has the size Combo(q); X has two slots for each size
Combo(q) == <<dm[((q - 1) \div 3) + 1], dm[((q - 1) % 3) + 1]>>
CombosOf(d) == [q \in 1..9 |-> <<d[((q - 1) \div 3) + 1], d[((q - 1) % 3) + 1]>>]
XSize(s) == Combo(((s - 1) % 9) + 1)
RECURSIVE Base(_, _, _)
Base(d, q, start) == IF q = 1 THEN start ELSE
  LET k == CombosOf(d)[((q - 2) % 9) + 1] IN Base(d, q - 1, start) + k[1] * k[2]
XCell(s, k) == Base(dm, s, NV) + k             \* k-th entry, row by row
PCell(s, k) == Base(dm, s, 1) + k
XCells(s) == Force([k \in 1..(XSize(s)[1] * XSize(s)[2]) |-> XCell(s, k)])

\* a random scalar term over the scalar variables (and the X cells up to nx)
RCell(nx) == IF XTerms /\ nx > NV /\ Pick(1..3) = 1 THEN Pick(1..nx) ELSE Pick(1..NV)
RTerm(nx) ==
  LET r == Pick(1..7) IN
  CASE r = 1 -> <<"x", RCell(nx)>>
    [] r = 2 -> <<"*", <<"x", RCell(nx)>>, <<"x", RCell(nx)>>>>
    [] r = 3 -> <<"f", "sin", <<"x", RCell(nx)>>>>
    [] r = 4 -> <<"+", <<"x", RCell(nx)>>, <<"p", 1>>>>
    [] r = 5 -> <<"f", "exp", <<"x", RCell(nx)>>>>
    [] r = 6 -> <<"-", <<"*", <<"x", RCell(nx)>>, <<"x", RCell(nx)>>>>, <<"x", RCell(nx)>>>>
    [] OTHER -> <<"*", <<"p", 1>>, <<"x", RCell(nx)>>>>
----------------------------------------------------------------------------
(* Filling a shape with operands: <<tree, rows, columns>>, <<>> if it fails.   *)
(* Sizes wanted are 0 if free.  es: the expressions that may be used.          *)
Fit(w) == IF w = 0 THEN Pick(1..3) ELSE IF \E i \in 1..3 : dm[i] = w THEN CHOOSE i \in 1..3 : dm[i] = w ELSE 0

FitLeaf(kind, r, c, es) ==
  IF kind = "E" THEN
    LET s == {k \in es : (r = 0 \/ ex[k].r = r) /\ (c = 0 \/ ex[k].c = c)} IN
    IF s = {} THEN <<>> ELSE LET k == Pick(s) IN <<<<"E", k>>, ex[k].r, ex[k].c>>
  ELSE \* (indices are chosen once)
    CHOOSE res \in {
      IF i = 0 \/ j = 0 \/ (kind = "T" /\ z = 1)
      THEN (IF kind # "T" THEN <<>> ELSE
            LET rr == IF r # 0 THEN r ELSE dm[i]  cc == IF c # 0 THEN c ELSE dm[j] IN
            IF rr * cc > 40 THEN <<>> ELSE <<<<"N", rr, cc, RInts(rr * cc)>>, rr, cc>>)
      ELSE <<<<kind, (3 * (i - 1) + j) + (IF kind = "X" /\ z <= 3 THEN 9 ELSE 0)>>, dm[i], dm[j]>>
      : i \in {Fit(r)}, j \in {Fit(c)}, z \in {Pick(1..9)}} : TRUE

FitScalar(kind) ==
  CASE kind = "t" -> <<"t", RI(0)>>
    [] kind = "v" -> <<"v", Pick(1..NV)>>
    [] kind = "p" -> <<"p", 1>>
    [] OTHER -> <<"e", Pick(1..2)>>

Same2 == {"+", "-", "^", "./"}
ScOps == {"s+m", "m+s", "s-m", "m-s", "s*m", "m*s", "m/s"}
ElemOps == {"SinM", "CosM", "ExpM", "LogM", "SqrtM", "TanhM", "SigmoidM", "CubeM", "ReLUM", "LeakyReLUM", "AbsM"}
SqOps == {"pow0", "pow1", "pow2", "pow3", "mexp2", "mexp3", "mlog2", "mlog3"}
One(w) == w = 0 \/ w = 1
Inner(s) == Len(s) > 1

RECURSIVE Fill(_, _, _, _)
\* both operands of the same size, the deeper one first
FillSame(s, r, c, es) ==
  IF Inner(s[2]) \/ ~Inner(s[3])
  THEN CHOOSE res \in {IF a = <<>> THEN <<>> ELSE CHOOSE q \in {IF b = <<>> THEN <<>> ELSE <<<<s[1], a[1], b[1]>>, a[2], a[3]>>
                         : b \in {Fill(s[3], a[2], a[3], es)}} : TRUE : a \in {Fill(s[2], r, c, es)}} : TRUE
  ELSE CHOOSE res \in {IF b = <<>> THEN <<>> ELSE CHOOSE q \in {IF a = <<>> THEN <<>> ELSE <<<<s[1], a[1], b[1]>>, b[2], b[3]>>
                         : a \in {Fill(s[2], b[2], b[3], es)}} : TRUE : b \in {Fill(s[3], r, c, es)}} : TRUE
\* a of size (r, k), b of size (k, c)
FillMul(s, r, c, es) ==
  IF Inner(s[2]) \/ ~Inner(s[3])
  THEN CHOOSE res \in {IF a = <<>> THEN <<>> ELSE CHOOSE q \in {IF b = <<>> THEN <<>> ELSE <<<<s[1], a[1], b[1]>>, a[2], b[3]>>
                         : b \in {Fill(s[3], a[3], c, es)}} : TRUE : a \in {Fill(s[2], r, 0, es)}} : TRUE
  ELSE CHOOSE res \in {IF b = <<>> THEN <<>> ELSE CHOOSE q \in {IF a = <<>> THEN <<>> ELSE <<<<s[1], a[1], b[1]>>, a[2], b[3]>>
                         : a \in {Fill(s[2], r, b[2], es)}} : TRUE : b \in {Fill(s[3], 0, c, es)}} : TRUE
\* one operand wanted of size (r, c); the result has size F
Fill1(s, r, c, es, F(_, _)) ==
  CHOOSE res \in {IF a = <<>> THEN <<>> ELSE <<<<s[1], a[1]>>>> \o F(a[2], a[3]) : a \in {Fill(s[2], r, c, es)}} : TRUE
Square(r, c) == IF r = 0 /\ c = 0 THEN dm[Pick(1..3)] ELSE IF r = 0 THEN c ELSE IF c = 0 \/ c = r THEN r ELSE 0
\* along one axis: input a, window b, stride, padding with result w (0: any)
ConvFit(w) == {q \in {dm[1], dm[2], dm[3]} \X {dm[1], dm[2], dm[3]} \X {1, 2} \X {0, 1, 2} :
                 LET n == ConvR(q[1], q[2], q[3], q[4]) IN n > 0 /\ n <= 5 /\ (w = 0 \/ n = w)}

Fill(s, r, c, es) ==
  LET op == s[1] IN
  CASE ~Inner(s) -> FitLeaf(op, r, c, es)
    [] op \in Same2 -> FillSame(s, r, c, es)
    [] op = "*" -> FillMul(s, r, c, es)
    [] op = "%" -> CHOOSE res \in {IF a = <<>> THEN <<>> ELSE CHOOSE q \in {IF b = <<>> THEN <<>> ELSE <<<<op, a[1], b[1]>>, a[2], a[3]>>
                         : b \in {Fill(s[3], a[3], a[3], es)}} : TRUE : a \in {Fill(s[2], r, c, es)}} : TRUE
    [] op \in ScOps -> CHOOSE res \in {IF a = <<>> THEN <<>> ELSE <<<<op, x, a[1]>>, a[2], a[3]>>
                         : a \in {Fill(s[3], r, c, es)}, x \in {FitScalar(s[2][1])}} : TRUE
    [] op \in ElemOps \cup {"smR", "smC", "smA"} -> Fill1(s, r, c, es, LAMBDA p, q: <<p, q>>)
    [] op = "tr" -> Fill1(s, c, r, es, LAMBDA p, q: <<q, p>>)
    [] op \in SqOps \cup {"inv"} ->
         CHOOSE res \in {IF n = 0 THEN <<>> ELSE CHOOSE q \in {IF a = <<>> \/ a[2] # a[3] THEN <<>> ELSE <<<<op, a[1]>>, a[2], a[3]>>
                         : a \in {Fill(s[2], n, n, es)}} : TRUE : n \in {Square(r, c)}} : TRUE
    [] op \in {"det", "trace"} -> IF ~(One(r) /\ One(c)) THEN <<>> ELSE
         CHOOSE res \in {IF a = <<>> \/ a[2] # a[3] THEN <<>> ELSE <<<<op, a[1]>>, 1, 1>>
                         : a \in {CHOOSE q \in {Fill(s[2], n, n, es) : n \in {dm[Pick(1..3)]}} : TRUE}} : TRUE
    [] op \in {"sigA", "frob"} -> IF ~(One(r) /\ One(c)) THEN <<>> ELSE Fill1(s, 0, 0, es, LAMBDA p, q: <<1, 1>>)
    [] op = "sigR" -> IF ~One(r) THEN <<>> ELSE Fill1(s, 0, c, es, LAMBDA p, q: <<1, q>>)
    [] op = "sigC" -> IF ~One(c) THEN <<>> ELSE Fill1(s, r, 0, es, LAMBDA p, q: <<p, 1>>)
    [] op = "vec" -> IF ~One(c) THEN <<>> ELSE IF r = 0 THEN Fill1(s, 0, 0, es, LAMBDA p, q: <<p * q, 1>>)
         ELSE CHOOSE res \in {Fill1(s, n, r \div n, es, LAMBDA p, q: <<p * q, 1>>) : n \in {Pick({m \in 1..r : r % m = 0})}} : TRUE
    [] op = "bcC" -> CHOOSE res \in {IF a = <<>> THEN <<>> ELSE <<<<op, a[1], n>>, a[2], n>>
                         : a \in {Fill(s[2], r, 1, es)}, n \in {IF c = 0 THEN Pick(1..4) ELSE c}} : TRUE
    [] op = "bcR" -> CHOOSE res \in {IF a = <<>> THEN <<>> ELSE <<<<op, a[1], n>>, n, a[3]>>
                         : a \in {Fill(s[2], 1, c, es)}, n \in {IF r = 0 THEN Pick(1..4) ELSE r}} : TRUE
    [] op = "bcA" -> CHOOSE res \in {IF a = <<>> \/ n = 0 THEN <<>> ELSE <<<<op, a[1], n>>, n, n>>
                         : a \in {Fill(s[2], 1, 1, es)}, n \in {Square(r, c)}} : TRUE
    [] op = "catv" -> IF r = 1 THEN <<>> ELSE
         CHOOSE res \in {IF a = <<>> THEN <<>> ELSE CHOOSE q \in {IF b = <<>> THEN <<>> ELSE <<<<op, a[1], b[1]>>, a[2] + b[2], a[3]>>
                         : b \in {Fill(s[3], IF r = 0 THEN 0 ELSE r - a[2], a[3], es)}} : TRUE
                         : a \in {CHOOSE q \in {Fill(s[2], n, c, es) : n \in {IF r = 0 THEN 0 ELSE Pick(1..(r - 1))}} : TRUE}} : TRUE
    [] op = "cath" -> IF c = 1 THEN <<>> ELSE
         CHOOSE res \in {IF a = <<>> THEN <<>> ELSE CHOOSE q \in {IF b = <<>> THEN <<>> ELSE <<<<op, a[1], b[1]>>, a[2], a[3] + b[3]>>
                         : b \in {Fill(s[3], a[2], IF c = 0 THEN 0 ELSE c - a[3], es)}} : TRUE
                         : a \in {CHOOSE q \in {Fill(s[2], r, n, es) : n \in {IF c = 0 THEN 0 ELSE Pick(1..(c - 1))}} : TRUE}} : TRUE
    [] op = "conv" -> IF ConvFit(r) = {} \/ ConvFit(c) = {} THEN <<>> ELSE
         CHOOSE res \in {CHOOSE z \in {IF a = <<>> \/ b = <<>> THEN <<>> ELSE IF ConvR(a[2], b[2], u[3], u[4]) = 0 \/ ConvR(a[3], b[3], v[3], v[4]) = 0 THEN <<>> ELSE
                             <<<<op, a[1], b[1], u[3], v[3], u[4], v[4]>>, ConvR(a[2], b[2], u[3], u[4]), ConvR(a[3], b[3], v[3], v[4])>>
                         : a \in {Fill(s[2], u[1], v[1], es)}, b \in {Fill(s[3], u[2], v[2], es)}} : TRUE
                         : u \in {Pick(ConvFit(r))}, v \in {Pick(ConvFit(c))}} : TRUE

RECURSIVE Nodes(_), RefsOf(_), OpsOf(_)
Kids(t) == CASE t[1] \in {"X", "T", "P", "S", "E", "N", "t", "v", "p", "e"} -> <<>>
             [] t[1] \in ScOps -> <<t[3]>>
             [] t[1] \in Same2 \cup {"*", "%", "catv", "cath", "conv"} -> <<t[2], t[3]>>
             [] OTHER -> <<t[2]>>
RefsOf(t) == IF t[1] = "E" THEN {t[2]} ELSE UNION {RefsOf(Kids(t)[i]) : i \in 1..Len(Kids(t))}
OpsOf(t) == IF Kids(t) = <<>> THEN {} ELSE {t[1]} \cup UNION {OpsOf(Kids(t)[i]) : i \in 1..Len(Kids(t))}
LeavesOf(t) == CASE t[1] \in {"X", "T", "P", "S", "E", "N"} -> {t}
                 [] OTHER -> {}
RECURSIVE AllLeaves(_)
AllLeaves(t) == LET k == Kids(t) IN
                (IF k = <<>> THEN LeavesOf(t) ELSE UNION {AllLeaves(k[i]) : i \in 1..Len(k)})
                  \cup (IF t[1] \in ScOps THEN {t[2]} ELSE {})
\* nodes, those of the expressions used included
RECURSIVE SumW(_, _, _), WeightIn(_, _, _), WeightSt(_, _, _)
SumW(s, self, acc) == IF s = <<>> THEN 0 ELSE WeightIn(Head(s), self, acc) + SumW(Tail(s), self, acc)
WeightIn(t, self, acc) == IF t[1] = "E" THEN 1 + (IF t[2] = self THEN acc ELSE WeightSt(ex[t[2]].st, t[2], 0)) ELSE 1 + SumW(Kids(t), self, acc)
\* a statement that mentions its own expression uses what the earlier ones built
WeightSt(st, self, acc) == IF st = <<>> THEN acc ELSE
  CHOOSE w \in {WeightSt(Tail(st), self, a) : a \in {WeightIn(Head(st), self, acc)}} : TRUE
Weight(t) == WeightIn(t, 0, 0)
Nodes(t) == Weight(t)
----------------------------------------------------------------------------
(* Denotation *)
Unit(cell, act) == Force([k \in 1..Len(act) |-> IF act[k] = cell THEN N1 ELSE N0])
TermD(t, act) ==
  IF Reg(t, xval, pval, Real)
  THEN <<Ev(t, xval, pval, Real), Force([k \in 1..Len(act) |-> Ev(D(t, act[k]), xval, pval, Real)])>>
  ELSE UndefD(Len(act))
ScalarD(s, act) ==
  CASE s[1] = "t" -> DConst(Val(s[2]), Len(act))
    [] s[1] = "v" -> <<xval[s[2]], Unit(s[2], act)>>
    [] s[1] = "p" -> DConst(pval[s[2]], Len(act))
    [] OTHER -> TermD(se[s[2]], act)
FnName == [SinM |-> "sin", CosM |-> "cos", ExpM |-> "exp", LogM |-> "log", SqrtM |-> "sqrt", TanhM |-> "tanh", SigmoidM |-> "sigmoid",
           ReLUM |-> "relu", LeakyReLUM |-> "leaky", AbsM |-> "abs"]

RECURSIVE Den(_, _, _, _), DenE(_, _), DenS(_, _, _, _)
Den0(t, act, self, acc) ==
  LET op == t[1]  na == Len(act)
      A(i) == Den(t[i], act, self, acc) IN
  CASE op = "X" -> LET z == XSize(t[2]) IN Mk(z[1], z[2], Force([k \in 1..(z[1] * z[2]) |-> <<xval[XCell(t[2], k)], Unit(XCell(t[2], k), act)>>]))
    [] op = "T" -> LET z == Combo(t[2]) IN Mk(z[1], z[2], Force([k \in 1..(z[1] * z[2]) |-> DConst(Val(tm[t[2]][k]), na)]))
    [] op = "N" -> Mk(t[2], t[3], Force([k \in 1..(t[2] * t[3]) |-> DConst(Val(t[4][k]), na)]))
    [] op = "P" -> LET z == Combo(t[2]) IN Mk(z[1], z[2], Force([k \in 1..(z[1] * z[2]) |-> DConst(pval[PCell(t[2], k)], na)]))
    [] op = "S" -> LET z == Combo(t[2]) IN Mk(z[1], z[2], Force([k \in 1..(z[1] * z[2]) |-> TermD(sm[t[2]][k], act)]))
    [] op = "E" -> IF t[2] = self THEN acc ELSE DenE(t[2], act)
    [] op = "+" -> MAdd(A(2), A(3))
    [] op = "-" -> MSub(A(2), A(3))
    [] op = "^" -> MHad(A(2), A(3))
    [] op = "./" -> MQuo(A(2), A(3))
    [] op = "*" -> MMul(A(2), A(3))
    [] op = "%" -> MMul(A(2), Inv(A(3)))
    [] op \in {"s+m", "m+s"} -> LET s == ScalarD(t[2], act) IN Map1(A(3), LAMBDA z: DAdd(s, z))
    [] op = "s-m" -> LET s == ScalarD(t[2], act) IN Map1(A(3), LAMBDA z: DSub(s, z))
    [] op = "m-s" -> LET s == ScalarD(t[2], act) IN Map1(A(3), LAMBDA z: DSub(z, s))
    [] op \in {"s*m", "m*s"} -> LET s == ScalarD(t[2], act) IN Map1(A(3), LAMBDA z: DMul(s, z))
    [] op = "m/s" -> LET s == ScalarD(t[2], act) IN Map1(A(3), LAMBDA z: DDiv(z, s))
    [] op = "CubeM" -> LET M == A(2) IN MHad(M, MHad(M, M))
    [] op \in ElemOps -> MFun(FnName[op], A(2), Real)
    [] op = "tr" -> MTr(A(2))
    [] op = "inv" -> Inv(A(2))
    [] op = "det" -> MDet(A(2))
    [] op = "vec" -> MVec(A(2))
    [] op = "sigR" -> ColSum(A(2))
    [] op = "sigC" -> RowSum(A(2))
    [] op = "sigA" -> AllSum(A(2))
    [] op = "trace" -> Trace(A(2))
    [] op = "frob" -> Frob(A(2), Real)
    [] op = "smR" -> SoftMaxR(A(2), Real)
    [] op = "smC" -> SoftMaxC(A(2), Real)
    [] op = "smA" -> SoftMaxA(A(2), Real)
    [] op = "pow0" -> MPow(A(2), 0, na)
    [] op = "pow1" -> MPow(A(2), 1, na)
    [] op = "pow2" -> MPow(A(2), 2, na)
    [] op = "pow3" -> MPow(A(2), 3, na)
    [] op = "mexp2" -> MExpS(A(2), 2, na)
    [] op = "mexp3" -> MExpS(A(2), 3, na)
    [] op = "mlog2" -> MLogS(A(2), 2, na)
    [] op = "mlog3" -> MLogS(A(2), 3, na)
    [] op = "bcC" -> LET M == A(2) IN Tab(M.r, t[3], LAMBDA i, j: At(M, i, 1))
    [] op = "bcR" -> LET M == A(2) IN Tab(t[3], M.c, LAMBDA i, j: At(M, 1, j))
    [] op = "bcA" -> LET M == A(2) IN Tab(t[3], t[3], LAMBDA i, j: At(M, 1, 1))
    [] op = "catv" -> CatV(A(2), A(3))
    [] op = "cath" -> CatH(A(2), A(3))
    [] op = "conv" -> Conv(A(2), A(3), t[4], t[5], t[6], t[7], na)
\* an undefined entry spreads to the whole matrix: the library multiplies with
\* unit matrices, and not a number times zero is not a number
Den(t, act, self, acc) == Clean(Den0(t, act, self, acc))
DenS(st, act, self, acc) == IF st = <<>> THEN acc ELSE
  CHOOSE m \in {DenS(Tail(st), act, self, a) : a \in {Den(Head(st), act, self, acc)}} : TRUE
DenE(k, act) == DenS(ex[k].st, act, k, Bad)
DenT(t, act) == Den(t, act, 0, Bad)

RECURSIVE Reach(_, _)
Reach(S, n) == LET S2 == S \cup UNION {UNION {RefsOf(ex[k].st[i]) : i \in 1..Len(ex[k].st)} : k \in S} IN
               IF n = 0 \/ S2 = S THEN S2 ELSE Reach(S2, n - 1)
Reaches(k) == Reach({k}, NE)
OpsIn(k) == UNION {UNION {OpsOf(ex[j].st[i]) : i \in 1..Len(ex[j].st)} : j \in Reaches(k)}
OpsInT(t) == OpsOf(t) \cup UNION {OpsIn(j) : j \in RefsOf(t)}
EigenOnly == {"det", "inv", "%"}
\* the naive backend has no determinant and no inverse
Runs(ops) == ~naive \/ ops \cap EigenOnly = {}
Usable(k) == ex[k].made /\ \A j \in Reaches(k) : ex[j].made /\ ~ex[j].stale
UsableSet == {k \in 1..NE : Usable(k)}
RunSet == {k \in UsableSet : Runs(OpsIn(k))}

\* adjoints reach matrices through scalar results only, and not through
\* matrices of scalar expressions
LeavesIn(k) == UNION {UNION {AllLeaves(ex[j].st[i]) : i \in 1..Len(ex[j].st)} : j \in Reaches(k)}
Reversible(k) == /\ \A j \in Reaches(k) : ex[j].r = 1 /\ ex[j].c = 1
                 /\ \A l \in LeavesIn(k) : l[1] # "S"
RevSet == {k \in RunSet : Reversible(k)}

XUsed(k) == {l[2] : l \in {m \in LeavesIn(k) : m[1] = "X"}}
XUsedT(t) == {l[2] : l \in {m \in AllLeaves(t) : m[1] = "X"}} \cup UNION {XUsed(j) : j \in RefsOf(t)}
\* a matrix to differentiate with respect to; (r, c): size of what is differentiated
XFit(r, c) == {s \in 1..18 : r * c * XSize(s)[1] * XSize(s)[2] <= MaxCells}
PickX(used, r, c) == LET f == used \cap XFit(r, c) IN
                     IF f = {} \/ Pick(1..10) = 1 THEN Pick(XFit(r, c)) ELSE Pick(f)
----------------------------------------------------------------------------
(* Observations *)
ObsV(M) == [r |-> M.r, c |-> M.c, e |-> Force([k \in 1..Len(M.e) |-> M.e[k][1]])]
\* the derivative by a matrix of size (xr, xc): block (l, k) holds the partial
\* derivatives of entry (l, k)
ObsF(M, xr, xc) ==
  [r |-> M.r * xr, c |-> M.c * xc,
   e |-> Force([q \in 1..(M.r * xr * M.c * xc) |->
           LET R == (q - 1) \div (M.c * xc)  K == (q - 1) % (M.c * xc) IN
           At(M, (R \div xr) + 1, (K \div xc) + 1)[2][(R % xr) * xc + (K % xc) + 1]])]
ObsR(M, xr, xc) == [r |-> xr, c |-> xc, e |-> At(M, 1, 1)[2]]
----------------------------------------------------------------------------
Emit(rec) == hist' = Append(hist, rec)
Nop == UNCHANGED <<env, ex, pre, naive, held>> /\ Emit([a |-> "nop"])
NoEx == [st |-> <<>>, made |-> FALSE, stale |-> FALSE, r |-> 0, c |-> 0]

Init ==
  /\ dm = <<1, 1, 1>> /\ xval = <<>> /\ pval = <<>> /\ tm = <<>> /\ sm = <<>> /\ se = <<>> /\ y = <<1, 1, <<1>>>>
  /\ ex = [k \in 1..NE |-> NoEx] /\ pre = 0 /\ naive = FALSE /\ held = <<>> /\ flav = FALSE /\ hist = <<>>

SizeSets == {<<1, 2, 3>>, <<1, 3, 2>>, <<1, 2, 4>>, <<1, 3, 4>>}
Start ==
  \E d \in {IF Pick(1..4) <= 3 THEN <<1, 2, 3>> ELSE Pick(SizeSets)} :
  \E nx \in {Base(d, 19, NV)}, np \in {Base(d, 10, 1)} :
  \E f \in {Pick(1..3) = 1} :
  \E xi \in {RIntsF(f, nx)}, pi \in {RIntsF(f, np)},
     ti \in {Force([q \in 1..9 |-> RIntsF(f, CombosOf(d)[q][1] * CombosOf(d)[q][2])])},
     si \in {Force([q \in 1..9 |-> Force([k \in 1..(CombosOf(d)[q][1] * CombosOf(d)[q][2]) |-> RTerm(nx)])])},
     ei \in {Force([q \in 1..2 |-> RTerm(NV)])},
     yi \in {Pick({<<3, 1, <<1, 2, 3>>>>, <<1, 2, <<2, 1>>>>, <<1, 1, <<1>>>>, <<2, 2, <<1, 2, 3, 1>>>>})} :
  /\ dm' = d /\ flav' = f
  /\ xval' = Force([i \in 1..nx |-> Val(xi[i])])
  /\ pval' = Force([i \in 1..np |-> Val(pi[i])])
  /\ tm' = ti /\ sm' = si /\ se' = ei /\ y' = yi
  /\ UNCHANGED <<ex, pre, naive, held>>
  /\ Emit([a |-> "start", d |-> d, x |-> xi, p |-> pi, t |-> ti, s |-> si, e |-> ei, y |-> yi])

\* a filled shape; <<>> after n failures
RECURSIVE TryFill(_, _, _, _, _)
TryFill(n, set, r, c, es) ==
  IF n = 0 THEN <<>> ELSE
  CHOOSE res \in {IF f # <<>> /\ Weight(f[1]) <= MaxSize THEN f ELSE TryFill(n - 1, set, r, c, es)
                  : f \in {Fill(MShapes[Pick(set)], r, c, es)}} : TRUE
\* sizes wanted of an expression: reverse mode needs scalars
Goal(z) == IF Reverse \/ (Profile \in {"mconv", "mreal", "mhist", "mscal"} /\ Pick(1..2) = 1) THEN 1 ELSE 0

Restale(e, k) == [j \in 1..NE |-> IF j # k /\ k \in Reaches(j) THEN [e[j] EXCEPT !.stale = TRUE] ELSE e[j]]

Assign ==
  \E k \in {Pick(1..NE)}, g \in {Goal(0)} :
  \E es \in {{j \in UsableSet : k \notin Reaches(j)}} :
  \E f \in {TryFill(25, Use, g, g, es)} :
  IF f = <<>> \/ f[1][1] = "E" THEN Nop ELSE
  LET n == [st |-> <<f[1]>>, made |-> TRUE, stale |-> FALSE, r |-> f[2], c |-> f[3]]
      e2 == [ex EXCEPT ![k] = n] IN
  \* expressions that use k stay meaningful if the size stays
  /\ ex' = IF ex[k].made /\ ex[k].r = f[2] /\ ex[k].c = f[3] THEN e2 ELSE Restale(e2, k)
  /\ pre' = 0 /\ held' = <<>>
  /\ UNCHANGED <<env, naive>>
  /\ Emit([a |-> IF ex[k].made THEN "assign" ELSE Pick({"new", "new", "decl"}), k |-> k, t |-> f[1]])

\* a further statement of k that mentions k, of the same size
Recur ==
  IF UsableSet = {} THEN Nop ELSE
  \E k \in {Pick(UsableSet)} :
  \E f \in {TryFill(10, RecUse, ex[k].r, ex[k].c, {k})} :
  IF f = <<>> \/ k \notin RefsOf(f[1]) \/ f[2] # ex[k].r \/ f[3] # ex[k].c \/ Len(ex[k].st) > 2 THEN Nop ELSE
  LET e2 == [ex EXCEPT ![k].st = Append(@, f[1])] IN
  IF WeightSt(ex[k].st \o <<f[1]>>, k, 0) > MaxSize THEN Nop ELSE
  /\ ex' = e2
  /\ pre' = 0 /\ held' = <<>>
  /\ UNCHANGED <<env, naive>>
  /\ Emit([a |-> "assign", k |-> k, t |-> f[1]])

----------------------------------------------------------------------------
(* Changing operands *)
SetX ==
  \E s \in {Pick(1..18)} :
  \E n \in {XSize(s)[1] * XSize(s)[2]} :
  \E v \in {RInts(n)}, k \in {Pick(1..n)}, whole \in {Pick(BOOLEAN)} :
  LET w == IF whole THEN v ELSE <<v[1]>> IN
  /\ xval' = IF whole THEN Force([c \in 1..Len(xval) |-> IF c >= XCell(s, 1) /\ c <= XCell(s, n) THEN Val(v[c - XCell(s, 1) + 1]) ELSE xval[c]])
             ELSE [xval EXCEPT ![XCell(s, k)] = Val(v[1])]
  /\ UNCHANGED <<dm, pval, tm, sm, se, y>>
  /\ Emit([a |-> "setx", s |-> s, from |-> IF whole THEN 1 ELSE k, v |-> w])
SetT ==
  \E s \in {Pick(1..9)} : \E k \in {Pick(1..Len(tm[s]))}, v \in {RI(0)} :
  /\ tm' = [tm EXCEPT ![s][k] = v]
  /\ UNCHANGED <<dm, xval, pval, sm, se, y>>
  /\ Emit([a |-> "sett", s |-> s, from |-> k, v |-> <<v>>])
SetP ==
  \E s \in {Pick(1..9)} : \E k \in {Pick(1..Len(tm[s]))}, v \in {RI(0)} :
  /\ pval' = [pval EXCEPT ![PCell(s, k)] = Val(v)]
  /\ UNCHANGED <<dm, xval, tm, sm, se, y>>
  /\ Emit([a |-> "setp", s |-> s, from |-> k, v |-> <<v>>])
SetV ==
  \E i \in {Pick(1..NV)}, v \in {RI(0)} :
  /\ xval' = [xval EXCEPT ![i] = Val(v)]
  /\ UNCHANGED <<dm, pval, tm, sm, se, y>>
  /\ Emit([a |-> "setv", i |-> i, v |-> v])
SetQ ==
  \E v \in {RI(0)} :
  /\ pval' = [pval EXCEPT ![1] = Val(v)]
  /\ UNCHANGED <<dm, xval, tm, sm, se, y>>
  /\ Emit([a |-> "setq", v |-> v])
Set == /\ \E n \in {Pick(1..10)} : CASE n <= 5 -> SetX [] n = 6 -> SetT [] n = 7 -> SetP [] n = 8 -> SetQ [] OTHER -> SetV
       /\ pre' = 0 /\ held' = <<>> /\ UNCHANGED <<ex, naive>>
Mode == /\ naive' = ~naive
        /\ pre' = 0 /\ held' = <<>> /\ UNCHANGED <<env, ex>>
        /\ Emit([a |-> "mode", naive |-> ~naive])
----------------------------------------------------------------------------
(* Queries *)
Query(rec) == UNCHANGED <<env, ex, naive>> /\ Emit(rec)

Eval == IF RunSet = {} THEN Nop ELSE
  \E k \in {Pick(RunSet)} :
  Query([a |-> "eval", k |-> k, o |-> ObsV(DenE(k, <<>>))]) /\ pre' = 0 /\ UNCHANGED held
\* a composed temporary
TTree(z) == TryFill(20, Use, 0, 0, UsableSet)
TEval == \E f \in {TTree(0)} :
  IF f = <<>> THEN Nop ELSE IF ~Runs(OpsInT(f[1])) THEN Nop ELSE
  Query([a |-> "teval", t |-> f[1], o |-> ObsV(DenT(f[1], <<>>))]) /\ pre' = 0 /\ UNCHANGED held
RLeaf(z) == LET k == Pick({"X", "T", "P", "S"}) IN <<k, Pick(IF k = "X" THEN 1..18 ELSE 1..9)>>
LEval == \E l \in {RLeaf(0)} :
  Query([a |-> "leval", t |-> l, o |-> ObsV(DenT(l, <<>>))]) /\ pre' = 0 /\ UNCHANGED held

Fwd == IF RunSet = {} THEN Nop ELSE
  \E k \in {Pick(RunSet)} :
  IF XFit(ex[k].r, ex[k].c) = {} THEN Nop ELSE
  \E s \in {PickX(XUsed(k), ex[k].r, ex[k].c)} :
  Query([a |-> "fwd", k |-> k, s |-> s, o |-> ObsF(DenE(k, XCells(s)), XSize(s)[1], XSize(s)[2])]) /\ pre' = 0 /\ UNCHANGED held
FwdY == IF RunSet = {} THEN Nop ELSE
  \E k \in {Pick(RunSet)} :
  IF ex[k].r * ex[k].c * y[1] * y[2] > MaxCells THEN Nop ELSE
  Query([a |-> "fwdy", k |-> k, o |-> ObsF(DenE(k, y[3]), y[1], y[2])]) /\ pre' = 0 /\ UNCHANGED held
TFwd == \E f \in {TTree(0)} :
  IF f = <<>> THEN Nop ELSE IF ~Runs(OpsInT(f[1])) \/ XFit(f[2], f[3]) = {} THEN Nop ELSE
  \E s \in {PickX(XUsedT(f[1]), f[2], f[3])} :
  Query([a |-> "tfwd", t |-> f[1], s |-> s, o |-> ObsF(DenT(f[1], XCells(s)), XSize(s)[1], XSize(s)[2])]) /\ pre' = 0 /\ UNCHANGED held
LFwd == \E l \in {RLeaf(0)} :
  \E z \in {IF l[1] = "X" THEN XSize(l[2]) ELSE Combo(l[2])} :
  IF XFit(z[1], z[2]) = {} THEN Nop ELSE
  \E s \in {PickX(IF l[1] = "X" THEN {l[2]} ELSE {}, z[1], z[2])} :
  Query([a |-> "lfwd", t |-> l, s |-> s, o |-> ObsF(DenT(l, XCells(s)), XSize(s)[1], XSize(s)[2])]) /\ pre' = 0 /\ UNCHANGED held

Pre == IF RevSet = {} THEN Nop ELSE
  \E k \in {Pick(RevSet)} :
  Query([a |-> "pre", k |-> k]) /\ pre' = k /\ UNCHANGED held
Rev == IF RevSet = {} THEN Nop ELSE
  \E k \in {IF pre # 0 THEN pre ELSE Pick(RevSet)} :
  \E s \in {PickX(XUsed(k), 1, 1)} :
  Query([a |-> "rev", k |-> k, s |-> s, fresh |-> pre # k, o |-> ObsR(DenE(k, XCells(s)), XSize(s)[1], XSize(s)[2])]) /\ pre' = k /\ UNCHANGED held
RevV == IF RevSet = {} THEN Nop ELSE
  \E k \in {IF pre # 0 THEN pre ELSE Pick(RevSet)} :
  \E i \in {Pick(1..NV)} :
  Query([a |-> "revv", k |-> k, i |-> i, fresh |-> pre # k, o |-> ObsR(DenE(k, <<i>>), 1, 1)]) /\ pre' = k /\ UNCHANGED held

\* evaluate and keep the result
Hold == IF RunSet = {} \/ Len(held) > 3 THEN Nop ELSE
  \E k \in {Pick(RunSet)} : \E o \in {ObsV(DenE(k, <<>>))} :
  Query([a |-> "hold", k |-> k, h |-> Len(held) + 1, o |-> o]) /\ held' = Append(held, o) /\ pre' = 0
\* a result kept since nothing it depends on was changed
Look == IF held = <<>> THEN Nop ELSE
  \E h \in {Pick(1..Len(held))} :
  Query([a |-> "look", h |-> h, o |-> held[h]]) /\ UNCHANGED <<held, pre>>
\* operands are what they were set to
Frame == \E s \in {Pick(1..18)}, k \in {Pick({"X", "T", "P"})} :
  \E q \in {IF k = "X" THEN s ELSE ((s - 1) % 9) + 1} :
  Query([a |-> "frame", t |-> <<k, q>>, o |-> ObsV(DenT(<<k, q>>, <<>>))]) /\ UNCHANGED <<held, pre>>
\* the constant matrices
Const == \E n \in {Pick(1..6)}, m \in {Pick(1..6)}, w \in {Pick({"eye", "ones", "zeros"})} :
  Query([a |-> "const", w |-> w, n |-> n, m |-> m,
         o |-> IF w = "eye" THEN ObsV(MEye(n, 0)) ELSE ObsV(MConst(n, m, IF w = "ones" THEN N1 ELSE N0, 0))]) /\ UNCHANGED <<held, pre>>

Step(n) ==
  CASE n = "assign" -> Assign [] n = "recur" -> Recur [] n = "set" -> Set [] n = "mode" -> Mode
    [] n = "eval" -> Eval [] n = "teval" -> TEval [] n = "leval" -> LEval
    [] n = "fwd" -> Fwd [] n = "fwdy" -> FwdY [] n = "tfwd" -> TFwd [] n = "lfwd" -> LFwd
    [] n = "pre" -> Pre [] n = "rev" -> Rev [] n = "revv" -> RevV
    [] n = "hold" -> Hold [] n = "look" -> Look [] n = "frame" -> Frame [] n = "const" -> Const

Next ==
  /\ Len(hist) < Depth
  /\ hist # <<>> => UNCHANGED flav
  /\ IF hist = <<>> THEN Start
     ELSE IF UsableSet = {} THEN Assign
     ELSE \E n \in {Acts[Pick(1..Len(Acts))]} : Step(n)

Dump == IF Len(hist) = Depth THEN PrintT("@@" \o ToJson(hist)) ELSE TRUE
=============================================================================
