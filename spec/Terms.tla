------------------------------- MODULE Terms -------------------------------
(***************************************************************************)
(* The scalar function language that expressions denote, its evaluation    *)
(* and its derivative.  This is the reference semantics: a term is a       *)
(* mathematical function of variable cells and parameter cells.            *)
(*                                                                         *)
(*   <<"c", n>>            the number n                                    *)
(*   <<"x", i>>            the variable cell i                             *)
(*   <<"p", i>>            the parameter cell i                            *)
(*   <<"+"|"-"|"*"|"/", s, t>>                                             *)
(*   <<"^", s, <<"c", n>>>>        power with a literal exponent           *)
(*   <<"**", s, t>>                power with any other exponent           *)
(*   <<"f", name, t>>      elementary function                             *)
(***************************************************************************)
EXTENDS Num, FiniteSets

C(n)  == <<"c", n>>
T0    == C(N0)
T1    == C(N1)
IsC(t) == t[1] = "c"
IsZ(t) == t[1] = "c" /\ t[2] = N0
IsO(t) == t[1] = "c" /\ t[2] = N1

\* constructors that drop neutral elements (they do not change the function)
Add(s, t) == IF IsZ(s) THEN t ELSE IF IsZ(t) THEN s ELSE <<"+", s, t>>
Sub(s, t) == IF IsZ(t) THEN s ELSE IF IsC(s) /\ IsC(t) THEN C(NumSub(s[2], t[2])) ELSE <<"-", s, t>>
Mul(s, t) == IF IsZ(s) \/ IsZ(t) THEN T0 ELSE IF IsO(s) THEN t ELSE IF IsO(t) THEN s ELSE <<"*", s, t>>
Div(s, t) == IF IsZ(s) THEN T0 ELSE IF IsO(t) THEN s ELSE <<"/", s, t>>
Pow(s, t) == IF IsO(t) THEN s ELSE <<"^", s, t>>
Fn(f, t)  == <<"f", f, t>>
Neg(t)    == Mul(C(NumNeg(N1)), t)
TI(i)     == C(NumQ(i, 1))
Undef     == NumDiv(N1, N0)

\* derivative of the elementary function f at t
\* (acoshd = 1/(sqrt(t-1) sqrt(t+1)); left unspecified where Re t < 0: there the
\* library has the other sign, and its tests demand it; see known-findings.txt)
DFn(f, t) ==
  CASE f = "sin"   -> Fn("cos", t)
    [] f = "cos"   -> Neg(Fn("sin", t))
    [] f = "tan"   -> Add(T1, Mul(Fn("tan", t), Fn("tan", t)))
    [] f = "sinh"  -> Fn("cosh", t)
    [] f = "cosh"  -> Fn("sinh", t)
    [] f = "tanh"  -> Sub(T1, Mul(Fn("tanh", t), Fn("tanh", t)))
    [] f = "exp"   -> Fn("exp", t)
    [] f = "log"   -> Div(T1, t)
    [] f = "sqrt"  -> Div(T1, Mul(TI(2), Fn("sqrt", t)))
    [] f = "asin"  -> Div(T1, Fn("sqrt", Sub(T1, Mul(t, t))))
    [] f = "acos"  -> Div(TI(-1), Fn("sqrt", Sub(T1, Mul(t, t))))
    [] f = "atan"  -> Div(T1, Add(T1, Mul(t, t)))
    [] f = "asinh" -> Div(T1, Fn("sqrt", Add(T1, Mul(t, t))))
    [] f = "acosh" -> Fn("acoshd", t)
    [] f = "acoshd" -> Mul(Div(Neg(t), Sub(Mul(t, t), T1)), Fn("acoshd", t))
    [] f = "atanh" -> Div(T1, Sub(T1, Mul(t, t)))
    [] f = "sigmoid" -> Mul(Fn("sigmoid", t), Sub(T1, Fn("sigmoid", t)))
    [] f = "relu"  -> Fn("step", t)
    [] f = "leaky" -> Fn("leakyd", t)
    [] f = "abs"   -> Fn("sign", t)

\* partial derivative of t with respect to the variable cell v
RECURSIVE D(_, _)
D(t, v) ==
  LET op == t[1] IN
  CASE op = "c" -> T0
    [] op = "p" -> T0
    [] op = "x" -> IF t[2] = v THEN T1 ELSE T0
    [] op = "+" -> Add(D(t[2], v), D(t[3], v))
    [] op = "-" -> Sub(D(t[2], v), D(t[3], v))
    [] op = "*" -> Add(Mul(D(t[2], v), t[3]), Mul(t[2], D(t[3], v)))
    [] op = "/" -> LET da == D(t[2], v)  db == D(t[3], v) IN
                   Sub(Div(da, t[3]), Mul(Div(t[2], Mul(t[3], t[3])), db))
    [] op = "^" -> Mul(Mul(t[3], Pow(t[2], Sub(t[3], T1))), D(t[2], v))
    [] op = "**" -> Mul(t, Add(Mul(D(t[3], v), Fn("log", t[2])), Div(Mul(t[3], D(t[2], v)), t[2])))
    [] op = "f" -> Mul(DFn(t[2], t[3]), D(t[3], v))

\* value of t when variable cell i holds xv[i] and parameter cell i holds pv[i]
RECURSIVE Ev(_, _, _, _)
Ev(t, xv, pv, real) ==
  LET op == t[1] IN
  CASE op = "c" -> t[2]
    [] op = "x" -> xv[t[2]]
    [] op = "p" -> pv[t[2]]
    [] op = "+" -> NumAdd(Ev(t[2], xv, pv, real), Ev(t[3], xv, pv, real))
    [] op = "-" -> NumSub(Ev(t[2], xv, pv, real), Ev(t[3], xv, pv, real))
    [] op = "*" -> NumMul(Ev(t[2], xv, pv, real), Ev(t[3], xv, pv, real))
    [] op = "/" -> NumDiv(Ev(t[2], xv, pv, real), Ev(t[3], xv, pv, real))
    [] op = "^" -> NumPow(Ev(t[2], xv, pv, real), t[3][2], real)
    [] op = "**" -> LET b == Ev(t[2], xv, pv, real) IN
                    IF NumOK(NumFn("log", b, real)) THEN NumPow(b, Ev(t[3], xv, pv, real), real) ELSE Undef
    [] op = "f" -> NumFn(t[2], Ev(t[3], xv, pv, real), real)

(* t is regular: it and its derivatives of every order exist around the      *)
(* point, by every route (a factor whose derivative does not exist leaves    *)
(* the derivative unspecified even if it is multiplied by zero).             *)
RECURSIVE Reg(_, _, _, _)
Reg(t, xv, pv, real) ==
  LET op == t[1] IN
  CASE op \in {"c", "x", "p"} -> TRUE
    [] op = "f" -> /\ Reg(t[3], xv, pv, real)
                   /\ NumOK(Ev(t, xv, pv, real))
                   /\ NumOK(Ev(DFn(t[2], t[3]), xv, pv, real))
    [] op = "/" -> /\ Reg(t[2], xv, pv, real) /\ Reg(t[3], xv, pv, real)
                   /\ NumOK(NumDiv(N1, Ev(t[3], xv, pv, real)))
    [] op = "^" -> /\ Reg(t[2], xv, pv, real)
                   /\ NumOK(Ev(t, xv, pv, real))
                   /\ NumOK(NumDiv(N1, Ev(t[2], xv, pv, real)))
    [] op = "**" -> /\ Reg(t[2], xv, pv, real) /\ Reg(t[3], xv, pv, real)
                    /\ NumOK(Ev(t, xv, pv, real))
                    /\ NumOK(NumFn("log", Ev(t[2], xv, pv, real), real))
    [] OTHER -> Reg(t[2], xv, pv, real) /\ Reg(t[3], xv, pv, real)

RECURSIVE Size(_)
Size(t) == CASE t[1] \in {"c", "x", "p"} -> 1
             [] t[1] = "f" -> 1 + Size(t[3])
             [] OTHER -> 1 + Size(t[2]) + Size(t[3])
=============================================================================
