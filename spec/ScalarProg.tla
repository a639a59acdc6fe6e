----------------------------- MODULE ScalarProg -----------------------------
(***************************************************************************)
(* The scalar part of the library as an abstract machine.                  *)
(*                                                                         *)
(* State: variables and parameters (named slots that refer to cells, since *)
(* copying one aliases its cell), expressions (a list of statements over   *)
(* slots, parameters and other expressions), and which expression was last *)
(* prepared for reverse mode.  Every action is one public call; queries    *)
(* record the answer the semantics of Terms demands.                       *)
(*                                                                         *)
(* Behaviours are generated with `tlc -simulate' (one random choice per    *)
(* action, weighted by the profile), and replayed on the real library.     *)
(***************************************************************************)
EXTENDS Terms, Shapes, TLC, Json

CONSTANTS Real,      \* TRUE: the scalar type is real, FALSE: complex
          Profile,   \* which mix of actions and operators to generate
          NShapes,   \* how many of the shapes the driver knows (0: compiled, no table)
          Depth      \* actions per behaviour

NV == 5   \* variable slots
NP == 2   \* parameter slots
NE == 6   \* expression slots
MaxSize == 120

VARIABLES xcell,   \* slot -> cell of a variable slot (0: not declared, -1: moved from)
          xval,    \* cell -> value
          pcell, pval,
          ex,      \* slot -> [st: statements, made, stale, deps: slots it was differentiated from]
          pre,     \* expression last prepared for reverse mode (0: none)
          flav,    \* kind of numbers in this behaviour: TRUE: mostly 0, 1, -1, ...
          hist     \* the behaviour so far, as replayed

vars == <<xcell, xval, pcell, pval, ex, pre, flav, hist>>

Pick(S) == RandomElement(S)

----------------------------------------------------------------------------
(* Profiles *)

Unary == {"sin","cos","tan","sinh","cosh","tanh","asin","acos","atan","asinh","acosh","atanh","exp","log","sqrt"}
Light == {"sin", "exp", "cos", "tanh"}

UOps == CASE Profile \in {"hist", "rec", "alias"} -> {"sin", "exp", "neg", "cos"}
          [] Profile \in {"hess", "ad2"}          -> Unary \cup {"neg"}
          [] Profile = "custom"                   -> Light \cup {"neg", "SinS", "CosS", "CubeS"}
          [] Profile = "mixed"                    -> {"neg"}
          [] Profile = "recops"                   -> Unary \cup {"neg"}
          [] OTHER                                -> Unary \cup {"neg"}
BOps == CASE Profile \in {"hist", "rec", "alias"} -> <<"+", "*", "-", "+", "*">>
          [] Profile = "mixed"                    -> <<"+", "*", "-", "/">>
          [] Profile = "recops"                   -> <<"+", "*", "-", "/", "^">>
          [] Profile = "custom"                   -> <<"+", "*", "ProductS", "MixS", "-", "/">>
          [] OTHER                                -> <<"+", "*", "-", "/", "^">>

\* weighted actions: a sequence, drawn uniformly
Rep(s, n) == [i \in 1..n |-> s]
Acts == CASE Profile = "eval"  -> Rep("assign", 5) \o Rep("eval", 6) \o Rep("set", 3) \o Rep("pset", 1) \o Rep("teval", 3)
          [] Profile = "fwd"   -> Rep("assign", 4) \o Rep("fwd", 8) \o Rep("set", 2) \o Rep("tfwd", 2) \o Rep("fwdmat", 1)
          [] Profile = "rev"   -> Rep("assign", 4) \o Rep("pre", 4) \o Rep("rev", 10) \o Rep("set", 2) \o Rep("jac", 2) \o Rep("revmat", 1)
          [] Profile = "sym"   -> Rep("assign", 4) \o Rep("sym", 5) \o Rep("eval", 8) \o Rep("set", 2) \o Rep("tsym", 1) \o Rep("grad", 1) \o Rep("symmat", 1)
          [] Profile = "hess"  -> Rep("assign", 3) \o Rep("hessr", 2) \o Rep("hesss", 2) \o Rep("set", 2) \o Rep("grad", 2) \o Rep("symmat", 1) \o Rep("jac", 1)
          [] Profile = "ad2"   -> Rep("assign", 3) \o Rep("sym", 4) \o Rep("fwd", 5) \o Rep("pre", 3) \o Rep("rev", 5) \o Rep("set", 2)
          [] Profile = "hist"  -> Rep("assign", 4) \o Rep("ecopy", 1) \o Rep("eval", 4) \o Rep("fwd", 4) \o Rep("pre", 3) \o Rep("rev", 4)
                                    \o Rep("sym", 3) \o Rep("set", 4) \o Rep("pset", 2) \o Rep("jac", 1) \o Rep("hessr", 1) \o Rep("teval", 1) \o Rep("vget", 1)
          [] Profile = "rec"   -> Rep("assign", 1) \o Rep("recur", 5) \o Rep("eval", 4) \o Rep("fwd", 4) \o Rep("pre", 3) \o Rep("rev", 4)
                                    \o Rep("sym", 2) \o Rep("set", 2) \o Rep("pset", 1)
          [] Profile = "recops" -> Rep("assign", 4) \o Rep("recur", 6) \o Rep("eval", 4) \o Rep("fwd", 4) \o Rep("pre", 3) \o Rep("rev", 4)
                                    \o Rep("sym", 2) \o Rep("set", 3) \o Rep("pset", 1)
          [] Profile = "alias" -> Rep("assign", 3) \o Rep("ecopy", 2) \o Rep("vcopy", 3) \o Rep("pcopy", 2) \o Rep("eval", 4) \o Rep("vget", 2)
                                    \o Rep("fwd", 3) \o Rep("pre", 2) \o Rep("rev", 3) \o Rep("sym", 2) \o Rep("set", 4) \o Rep("pset", 2)
          [] Profile = "custom" -> Rep("assign", 4) \o Rep("recur", 2) \o Rep("eval", 3) \o Rep("fwd", 4) \o Rep("pre", 3) \o Rep("rev", 5) \o Rep("set", 3)
          [] Profile = "mixed" -> Rep("assign", 4) \o Rep("eval", 5) \o Rep("fwd", 2) \o Rep("pre", 1) \o Rep("rev", 2) \o Rep("teval", 2) \o Rep("set", 2)

TreeDepth == CASE Profile \in {"eval", "fwd", "rev", "custom"} -> 3
               [] Profile \in {"hist", "rec", "alias", "mixed"} -> 2
               [] OTHER -> 2
----------------------------------------------------------------------------
(* Random data *)

SmallInts == {-3, -2, -1, 0, 1, 2, 3}
IntValued == Profile \in {"rec", "alias"}

\* (the argument only keeps TLC from evaluating a random choice once and for all)
\* numbers at which shortcuts for exact zeros and ones apply
Special == {NumQ(0, 1), NumQ(1, 1), NumQ(-1, 1), NumQ(2, 1), NumQ(1, 2)}
              \cup (IF Real THEN {} ELSE {NumC(NumQ(0, 1), NumQ(1, 1)), NumC(NumQ(0, 1), NumQ(-1, 1)), NumC(NumQ(1, 1), NumQ(1, 1))})
RN(f, z) == LET r == Pick(1..10) IN
        IF f /\ r <= 6 THEN (IF r <= 2 THEN NumQ(0, 1) ELSE IF r = 3 THEN NumQ(1, 1) ELSE Pick(Special))
        ELSE IF IntValued \/ r = 1 THEN NumQ(Pick(SmallInts), 1)
        ELSE IF Real THEN (IF r <= 4 THEN NumQ(Pick(8..40), 16) ELSE NumQ(Pick(-24..24), 16))
        ELSE IF r <= 2 THEN NumC(NumQ(Pick(SmallInts), 1), NumQ(Pick(SmallInts), 1))
        ELSE NumC(NumQ(Pick(-24..24), 16), NumQ(Pick(-24..24), 16))
RNum(z) == RN(flav, z)

Xslots == {i \in 1..NV : xcell[i] > 0}
Pslots == {i \in 1..NP : pcell[i] > 0}

Leaf(refs) ==
  LET r == Pick(1..100) IN
  IF r <= 30 /\ refs # {} THEN <<"E", Pick(refs)>>
  ELSE IF r <= 40 THEN <<"P", Pick(Pslots)>>
  ELSE <<"V", Pick(Xslots)>>

\* small literals: as the scalar type (T) or as a C++ int (I)
Lit(z) == IF Profile = "mixed" THEN (IF Pick(1..3) = 1 THEN <<"T", RNum(0)>> ELSE <<"I", Pick({-3, -2, -1, 2, 3, 5})>>)
       ELSE IF Pick(1..4) = 1 THEN <<"I", Pick({-2, -1, 0, 1, 2, 3})>> ELSE <<"T", RNum(0)>>
\* integer exponents keep the power rule in its regular domain
LitE(z) == IF Pick(1..3) = 1 THEN <<"T", RNum(0)>> ELSE <<"T", NumQ(Pick({-2, -1, 2, 3}), 1)>>

\* a shape with operands filled in
RECURSIVE Fill(_, _)
Fill(s, refs) ==
  CASE s[1] = "V" -> <<"V", Pick(Xslots)>>
    [] s[1] = "P" -> <<"P", Pick(Pslots)>>
    [] s[1] = "E" -> IF refs = {} THEN <<"V", Pick(Xslots)>> ELSE <<"E", Pick(refs)>>
    [] s[1] = "T" -> <<"T", RNum(0)>>
    [] s[1] = "I" -> <<"I", Pick({-3, -2, -1, 2, 3, 5})>>
    [] s[1] = "neg" -> <<"neg", Fill(s[2], refs)>>
    [] Len(s) = 2 -> <<"f", s[1], Fill(s[2], refs)>>
    [] s[1] = "^" /\ s[3] = <<"T">> -> <<"^", Fill(s[2], refs), LitE(0)>>
    [] OTHER -> <<s[1], Fill(s[2], refs), Fill(s[3], refs)>>

RECURSIVE OpsIn(_)
OpsIn(s) == CASE Len(s) = 1 -> {}
              [] Len(s) = 2 -> {s[1]} \cup OpsIn(s[2])
              [] OTHER -> {s[1]} \cup OpsIn(s[2]) \cup OpsIn(s[3])
MyOps == UOps \cup {BOps[i] : i \in 1..Len(BOps)}
\* the shapes of this profile (those of statements on themselves apart)
MyShapes == {i \in 1..NShapes : OpsIn(Shapes[i]) \subseteq MyOps}
DeepShapes == {i \in MyShapes : i > NRecShape}

RECURSIVE Tree0(_, _)
Tree(d, refs) ==
  IF NShapes > 0 /\ Pick(1..100) <= 60
  THEN Fill(Shapes[IF Pick(1..2) = 1 /\ DeepShapes # {} THEN Pick(DeepShapes) ELSE Pick(MyShapes)], refs)
  ELSE Tree0(d, refs)
Tree0(d, refs) ==
  LET r == Pick(1..100) IN
  IF d = 0 \/ r <= 12 THEN Leaf(refs)
  ELSE IF r <= 42 THEN
         LET u == Pick(UOps) IN IF u = "neg" THEN <<"neg", Tree0(d - 1, refs)>> ELSE <<"f", u, Tree0(d - 1, refs)>>
  ELSE LET b == BOps[Pick(1..Len(BOps))]  s == Pick(1..100) IN
       IF b \in {"ProductS", "MixS"} THEN <<b, Tree0(d - 1, refs), Tree0(d - 1, refs)>>
       ELSE IF s <= 14 THEN <<b, Lit(0), Tree0(d - 1, refs)>>
       ELSE IF s <= 28 THEN <<b, Tree0(d - 1, refs), IF b = "^" THEN LitE(0) ELSE Lit(0)>>
       ELSE <<b, Tree0(d - 1, refs), Tree0(d - 1, refs)>>

RECURSIVE RefsOf(_)
RefsOf(t) == CASE t[1] = "E" -> {t[2]}
               [] t[1] = "core" -> {}
               [] t[1] \in {"V", "P", "T", "I"} -> {}
               [] t[1] = "neg" -> RefsOf(t[2])
               [] t[1] = "f" -> RefsOf(t[3])
               [] OTHER -> RefsOf(t[2]) \cup RefsOf(t[3])
----------------------------------------------------------------------------
(* Denotation: what a tree and an expression mean as a term *)

RECURSIVE DenE(_), DenT(_, _, _), DenS(_, _, _)
\* the tree t inside expression `self' whose value so far is acc
DenT(t, self, acc) ==
  LET op == t[1] IN
  CASE op = "V" -> <<"x", xcell[t[2]]>>
    [] op = "P" -> <<"p", pcell[t[2]]>>
    [] op = "T" -> C(t[2])
    [] op = "I" -> TI(t[2])
    [] op = "core" -> t[2]
    [] op = "E" -> IF t[2] = self THEN acc ELSE DenE(t[2])
    [] op = "neg" -> <<"*", TI(-1), DenT(t[2], self, acc)>>
    [] op = "f" -> LET a == DenT(t[3], self, acc) IN
                   CASE t[2] = "SinS" -> Fn("sin", a)
                     [] t[2] = "CosS" -> Fn("cos", a)
                     [] t[2] = "CubeS" -> <<"*", a, <<"*", a, a>>>>
                     [] OTHER -> Fn(t[2], a)
    [] op = "ProductS" -> <<"*", DenT(t[2], self, acc), DenT(t[3], self, acc)>>
    [] op = "MixS" -> LET a == DenT(t[2], self, acc)  b == DenT(t[3], self, acc) IN
                      <<"+", <<"*", a, <<"*", b, b>>>>, Fn("sin", a)>>
    [] OTHER -> <<IF op = "^" /\ t[3][1] \notin {"T", "I"} THEN "**" ELSE op,
                  DenT(t[2], self, acc), DenT(t[3], self, acc)>>
DenS(st, self, acc) == IF st = <<>> THEN acc ELSE DenS(Tail(st), self, DenT(Head(st), self, acc))
\* the statements of an expression run in order; a statement that mentions the
\* expression itself sees the value of the statement before it
DenE(k) == DenS(ex[k].st, k, T0)

\* expressions reached from the slots in S
RECURSIVE Reach(_, _)
Reach(S, n) == LET S2 == S \cup UNION {UNION {RefsOf(ex[k].st[i]) : i \in 1..Len(ex[k].st)} : k \in S} IN
               IF n = 0 \/ S2 = S THEN S2 ELSE Reach(S2, n - 1)
Reaches(k) == Reach({k}, NE)
\* every expression a derivative was taken from
AllDeps(k) == Reaches(k) \cup UNION {ex[j].deps : j \in Reaches(k)}

Usable(k) == ex[k].made /\ \A j \in Reaches(k) : ex[j].made /\ ~ex[j].stale
UsableSet == {k \in 1..NE : Usable(k)}

\* variable slots, preferring those the term depends on
RECURSIVE CellsOf(_)
CellsOf(t) == CASE t[1] = "x" -> {t[2]}
                [] t[1] \in {"c", "p"} -> {}
                [] t[1] = "f" -> CellsOf(t[3])
                [] OTHER -> CellsOf(t[2]) \cup CellsOf(t[3])
PickVar(t) == LET dep == {i \in Xslots : xcell[i] \in CellsOf(t)} IN
              IF dep = {} \/ Pick(1..8) = 1 THEN Pick(Xslots) ELSE Pick(dep)

EvN(t) == Ev(t, xval, pval, Real)
RegN(t) == Reg(t, xval, pval, Real)
DCell(k, v) == D(DenE(k), v)

\* terms that have to be regular for a derivative kept in tree t to be defined
RECURSIVE DomT(_)
DomT(t) == CASE t[1] = "core" -> t[3]
             [] t[1] \in {"V", "P", "T", "I", "E"} -> {}
             [] t[1] = "neg" -> DomT(t[2])
             [] t[1] = "f" -> DomT(t[3])
             [] OTHER -> DomT(t[2]) \cup DomT(t[3])
DomE(k) == UNION {UNION {DomT(ex[j].st[i]) : i \in 1..Len(ex[j].st)} : j \in Reaches(k)}
DomR(t) == UNION {DomE(j) : j \in RefsOf(t)}
\* a value, or a derivative of the expression
ValE(k)    == IF \A t \in DomE(k) : RegN(t) THEN EvN(DenE(k)) ELSE Undef
DerE(k, v) == IF \A t \in DomE(k) \cup {DenE(k)} : RegN(t) THEN EvN(DCell(k, v)) ELSE Undef
ValT(t)    == IF \A u \in DomR(t) : RegN(u) THEN EvN(DenT(t, 0, T0)) ELSE Undef
DerT(t, v) == LET d == DenT(t, 0, T0) IN
              IF \A u \in DomR(t) \cup {d} : RegN(u) THEN EvN(D(d, v)) ELSE Undef
Der2(k, v, w) == IF \A t \in DomE(k) \cup {DenE(k)} : RegN(t) THEN EvN(D(DCell(k, v), w)) ELSE Undef
----------------------------------------------------------------------------
Emit(rec) == hist' = Append(hist, rec)
Nop == UNCHANGED <<xcell, xval, pcell, pval, ex, pre>> /\ Emit([a |-> "nop"])

NoEx == [st |-> <<>>, made |-> FALSE, stale |-> FALSE, deps |-> {}]

Init ==
  /\ xcell = [i \in 1..NV |-> 0]
  /\ xval = <<>> /\ pcell = [i \in 1..NP |-> 0] /\ pval = <<>>
  /\ ex = [k \in 1..NE |-> NoEx]
  /\ pre = 0 /\ hist = <<>>
  /\ flav = FALSE

Start ==
  \E f \in {Pick(1..3) = 1} :
  \E a \in {RN(f, 1)}, b \in {RN(f, 2)}, c \in {RN(f, 3)}, d \in {RN(f, 4)} :
  /\ flav' = f
  /\ xcell' = [i \in 1..NV |-> IF i <= 3 THEN i ELSE 0]
  /\ xval' = <<a, b, c>>
  /\ pcell' = [i \in 1..NP |-> IF i = 1 THEN 1 ELSE 0]
  /\ pval' = <<d>>
  /\ UNCHANGED <<ex, pre>>
  /\ Emit([a |-> "start", x |-> <<a, b, c>>, p |-> <<d>>])

\* a new or reassigned expression makes what was differentiated from it stale
Restale(e, k) == [j \in 1..NE |-> IF j # k /\ k \in e[j].deps THEN [e[j] EXCEPT !.stale = TRUE] ELSE e[j]]

DoAssign(k, t, how) ==
  /\ ex' = Restale([ex EXCEPT ![k] = [st |-> <<t>>, made |-> TRUE, stale |-> FALSE, deps |-> {}]], k)
  /\ pre' = 0
  /\ UNCHANGED <<xcell, xval, pcell, pval>>
  /\ Emit([a |-> how, k |-> k, t |-> t])

\* e = tree, where tree does not mention e; the first time, it may be a constructor
Assign ==
  \E k \in {Pick(1..NE)} :
  \E refs \in {{j \in UsableSet : k \notin Reaches(j)}} :
  \E t \in {Tree(TreeDepth, refs)} :
  IF Size(DenT(t, 0, T0)) > MaxSize THEN Nop
  ELSE DoAssign(k, t, IF ex[k].made THEN "assign" ELSE Pick({"new", "new", "decl"}))

\* shapes with an operand that can be the expression assigned to
RECURSIVE HasE(_)
HasE(s) == CASE s[1] = "E" -> TRUE [] Len(s) = 1 -> FALSE [] Len(s) = 2 -> HasE(s[2]) [] OTHER -> HasE(s[2]) \/ HasE(s[3])
EShapes == {i \in MyShapes : HasE(Shapes[i])}

\* e = tree that mentions e: appended as a further statement
Recur ==
  \E k \in {LET short == {j \in UsableSet : Len(ex[j].st) <= 2} IN
            Pick(IF Profile \in {"recops", "custom"} /\ short # {} THEN short ELSE 1..NE)} :
  IF ex[k].made /\ (~Usable(k) \/ ex[k].deps # {} \/ Len(ex[k].st) > 3) THEN Nop ELSE
  IF Profile \in {"recops", "custom"} /\ (~ex[k].made \/ Len(ex[k].st) > 2) THEN Nop ELSE
  \E refs \in {{j \in UsableSet : k \notin Reaches(j) /\ ex[j].deps = {}}} :
  \E r \in {Tree(1, refs)}, s \in {Tree(2, refs)}, q \in {Pick(1..9)}, u \in {Pick(UOps \ {"neg"})} :
  \E self \in {<<"E", k>>} :
  \E t \in {  CASE Profile \in {"recops", "custom"} /\ NShapes > 0 -> Fill(Shapes[Pick(EShapes)], {k})
             [] q = 1 -> <<"+", self, s>>
             [] q = 2 -> <<"*", self, r>>
             [] q = 3 -> <<"*", self, self>>
             [] q = 4 -> <<"-", s, self>>
             [] q = 5 -> <<"f", u, self>>
             [] q = 6 -> <<"+", <<"*", r, self>>, r>>
             [] q = 7 -> <<"+", <<"*", self, <<"T", RNum(0)>>>>, s>>
             [] OTHER -> Fill(Shapes[Pick((NRecShape - 11)..NRecShape)], {k})} :
  LET st0 == IF ex[k].made THEN ex[k].st ELSE <<>>
      e2 == [ex EXCEPT ![k] = [st |-> Append(st0, t), made |-> TRUE, stale |-> FALSE, deps |-> {}]]
  IN IF Size(DenS(Append(st0, t), k, T0)) > MaxSize THEN Nop
     ELSE /\ ex' = Restale(e2, k)
          /\ pre' = 0
          /\ UNCHANGED <<xcell, xval, pcell, pval>>
          /\ Emit([a |-> IF ex[k].made THEN "assign" ELSE "decl", k |-> k, t |-> t])

\* copying an expression makes the copy refer to the original
ECopy ==
  \E k \in {Pick(1..NE)} :
  \E refs \in {{j \in UsableSet : k \notin Reaches(j)}} :
  IF refs = {} THEN Nop ELSE
  \E j \in {Pick(refs)} : DoAssign(k, <<"E", j>>, IF ex[k].made THEN "ecopy" ELSE "enew")

Set ==
  \E i \in {Pick(Xslots)}, v \in {RNum(0)} :
  /\ xval' = [xval EXCEPT ![xcell[i]] = v]
  /\ pre' = 0
  /\ UNCHANGED <<xcell, pcell, pval, ex>>
  /\ Emit([a |-> "set", i |-> i, v |-> v])

PSet ==
  \E i \in {Pick(Pslots)}, v \in {RNum(0)} :
  /\ pval' = [pval EXCEPT ![pcell[i]] = v]
  /\ pre' = 0
  /\ UNCHANGED <<xcell, xval, pcell, ex>>
  /\ Emit([a |-> "pset", i |-> i, v |-> v])

\* copying a variable: the copy denotes the same cell from now on.  A derivative
\* taken before was taken with respect to the old cells, so it becomes stale.
VCopy ==
  \E i \in {Pick(1..NV)} :
  IF xcell[i] # 0 /\ Pick(1..3) = 1 THEN
     \* assigning a fresh variable re-targets the slot to a new cell
     \E v \in {RNum(0)} :
     /\ Len(xval) < 12
     /\ xval' = Append(xval, v)
     /\ xcell' = [xcell EXCEPT ![i] = Len(xval) + 1]
     /\ ex' = [k \in 1..NE |-> IF ex[k].deps # {} THEN [ex[k] EXCEPT !.stale = TRUE] ELSE ex[k]]
     /\ pre' = 0 /\ UNCHANGED <<pcell, pval>>
     /\ Emit([a |-> "vfresh", i |-> i, v |-> v])
  ELSE
  \E j \in {Pick(Xslots \ {i})} :
     /\ xcell' = [xcell EXCEPT ![i] = xcell[j]]
     /\ ex' = [k \in 1..NE |-> IF ex[k].deps # {} THEN [ex[k] EXCEPT !.stale = TRUE] ELSE ex[k]]
     /\ pre' = 0 /\ UNCHANGED <<xval, pcell, pval>>
     /\ Emit([a |-> IF xcell[i] = 0 THEN "vnew" ELSE "vcopy", i |-> i, j |-> j])

PCopy ==
  \E i \in {Pick(1..NP)} :
  \E js \in {Pslots \ {i}} :
  IF js = {} \/ (pcell[i] # 0 /\ Pick(1..3) = 1) THEN
     \E v \in {RNum(0)} :
     /\ Len(pval) < 12
     /\ pval' = Append(pval, v)
     /\ pcell' = [pcell EXCEPT ![i] = Len(pval) + 1]
     /\ ex' = [k \in 1..NE |-> IF ex[k].deps # {} THEN [ex[k] EXCEPT !.stale = TRUE] ELSE ex[k]]
     /\ pre' = 0 /\ UNCHANGED <<xval, xcell>>
     /\ Emit([a |-> IF pcell[i] = 0 THEN "pdecl" ELSE "pfresh", i |-> i, v |-> v])
  ELSE
  \E j \in {Pick(js)} :
     /\ pcell' = [pcell EXCEPT ![i] = pcell[j]]
     /\ ex' = [k \in 1..NE |-> IF ex[k].deps # {} THEN [ex[k] EXCEPT !.stale = TRUE] ELSE ex[k]]
     /\ pre' = 0 /\ UNCHANGED <<xval, xcell, pval>>
     /\ Emit([a |-> IF pcell[i] = 0 THEN "pnew" ELSE "pcopy", i |-> i, j |-> j])

----------------------------------------------------------------------------
(* Queries *)

Query(rec) == UNCHANGED <<xcell, xval, pcell, pval, ex>> /\ Emit(rec)

VGet ==
  \E i \in {Pick(Xslots)}, w \in {Pick(1..2)} :
  IF w = 2 /\ Pslots # {} THEN \E q \in {Pick(Pslots)} : Query([a |-> "pget", i |-> q, o |-> pval[pcell[q]]]) /\ UNCHANGED pre
  ELSE Query([a |-> "vget", i |-> i, o |-> xval[xcell[i]]]) /\ UNCHANGED pre

Eval == IF UsableSet = {} THEN Nop ELSE
  \E k \in {Pick(UsableSet)} :
  Query([a |-> "eval", k |-> k, o |-> ValE(k)]) /\ pre' = 0

Fwd == IF UsableSet = {} THEN Nop ELSE
  \E k \in {Pick(UsableSet)} : \E i \in {PickVar(DenE(k))} :
  Query([a |-> "fwd", k |-> k, i |-> i, o |-> DerE(k, xcell[i])]) /\ pre' = 0

Pre == IF UsableSet = {} THEN Nop ELSE
  \E k \in {Pick(UsableSet)} :
  Query([a |-> Pick({"pre", "prec"}), k |-> k]) /\ pre' = k

\* adjoints are read from the expression that was prepared last
Rev == IF UsableSet = {} THEN Nop ELSE
  \E k \in {IF pre # 0 THEN pre ELSE Pick(UsableSet)} : \E i \in {PickVar(DenE(k))} :
  Query([a |-> "rev", k |-> k, i |-> i, fresh |-> pre # k, o |-> DerE(k, xcell[i])]) /\ pre' = k

\* SymDiff of an expression into an expression slot
Sym == IF UsableSet = {} THEN Nop ELSE
  \E k \in {Pick(UsableSet)} : \E i \in {PickVar(DenE(k))} :
  \E ms \in {{j \in 1..NE : j \notin AllDeps(k)}} :
  IF ms = {} THEN Nop ELSE
  \E m \in {Pick(ms)} :
  \E d \in {DCell(k, xcell[i])} :
  IF Size(d) > 4 * MaxSize THEN Nop ELSE
  /\ ex' = Restale([ex EXCEPT ![m] = [st |-> <<<<"core", d, DomE(k) \cup {DenE(k)}>>>>, made |-> TRUE, stale |-> FALSE, deps |-> AllDeps(k)]], m)
  /\ pre' = 0
  /\ UNCHANGED <<xcell, xval, pcell, pval>>
  /\ Emit([a |-> "sym", k |-> k, i |-> i, m |-> m, new |-> ~ex[m].made])

\* queries on a composed tree that is not stored in an expression
NTree(z) == Tree(2, UsableSet)
TEval == \E t \in {NTree(0)} : IF t[1] \in {"V", "P", "E"} THEN Nop ELSE
  Query([a |-> "teval", t |-> t, o |-> ValT(t)]) /\ pre' = 0
TFwd == \E t \in {NTree(0)} : \E i \in {PickVar(DenT(t, 0, T0))} : IF t[1] \in {"V", "P", "E"} THEN Nop ELSE
  Query([a |-> "tfwd", t |-> t, i |-> i, o |-> DerT(t, xcell[i])]) /\ pre' = 0
TSym == \E t \in {NTree(0)} : \E i \in {PickVar(DenT(t, 0, T0))} : IF t[1] \in {"V", "P", "E"} THEN Nop ELSE
  Query([a |-> "tsym", t |-> t, i |-> i, o |-> DerT(t, xcell[i])]) /\ pre' = 0

\* vectors of partial derivatives with respect to a list of variables
Lists == {<<1, 2, 3>>, <<3, 1>>, <<2>>, <<2, 3>>, <<3, 2, 1>>}
VecQ(name) == IF UsableSet = {} THEN Nop ELSE
  \E k \in {Pick(UsableSet)}, l \in {Pick(Lists)} :
  IF \E q \in 1..Len(l) : xcell[l[q]] <= 0 THEN Nop ELSE
  Query([a |-> name, k |-> k, l |-> l, o |-> [q \in 1..Len(l) |-> DerE(k, xcell[l[q]])]]) /\ pre' = 0

MatQ(name) == IF UsableSet = {} THEN Nop ELSE
  \E k \in {Pick(UsableSet)}, l \in {Pick(Lists)} :
  IF \E q \in 1..Len(l) : xcell[l[q]] <= 0 THEN Nop ELSE
  Query([a |-> name, k |-> k, l |-> l,
         o |-> [q \in 1..Len(l) |-> [r \in 1..Len(l) |-> Der2(k, xcell[l[q]], xcell[l[r]])]]]) /\ pre' = 0

Step(n) ==
  CASE n = "assign" -> Assign
    [] n = "recur"  -> Recur
    [] n = "ecopy"  -> ECopy
    [] n = "set"    -> Set
    [] n = "pset"   -> PSet
    [] n = "vcopy"  -> VCopy
    [] n = "pcopy"  -> PCopy
    [] n = "vget"   -> VGet
    [] n = "eval"   -> Eval
    [] n = "fwd"    -> Fwd
    [] n = "pre"    -> Pre
    [] n = "rev"    -> Rev
    [] n = "sym"    -> Sym
    [] n = "teval"  -> TEval
    [] n = "tfwd"   -> TFwd
    [] n = "tsym"   -> TSym
    [] n \in {"jac", "fwdmat", "revmat", "grad", "symmat"} -> VecQ(n)
    [] n \in {"hessr", "hesss"} -> MatQ(n)

Next ==
  /\ Len(hist) < Depth
  /\ hist # <<>> => UNCHANGED flav
  /\ IF hist = <<>> THEN Start
     ELSE IF UsableSet = {} THEN (IF Profile = "rec" THEN Recur ELSE Assign)
     ELSE \E n \in {Acts[Pick(1..Len(Acts))]} : Step(n)

Spec == Init /\ [][Next]_vars

\* prints the finished behaviour; used as a state constraint in simulation
Dump == IF Len(hist) = Depth THEN PrintT("@@" \o ToJson(hist)) ELSE TRUE
=============================================================================
