------------------------------ MODULE ADEngine ------------------------------
(***************************************************************************)
(* The evaluation engine of scalar expressions, as it is implemented:      *)
(* visited flags, values and derivatives kept in the named expressions,    *)
(* caches of adjoints handed from statement to statement, and the reset    *)
(* that starts every query.  ScalarProg says what the answers are; this    *)
(* module says how they are computed, and TLC shows that no history of     *)
(* assignments and queries makes the two differ.                           *)
(*                                                                         *)
(* Numbers are residues modulo P: sums and products commute with taking    *)
(* residues, so the state space is finite and an answer of the real        *)
(* library (an integer) can be compared modulo P.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS P,       \* modulus, a prime
          Vals,    \* values assigned to variables
          Menus,   \* which set of formulas
          MaxLen,  \* longest history (0: no bound)
          Show,    \* print every transition
          Defect   \* "none", or an engine with a defect (to see that the invariant is not vacuous)

\* holders: variables 1, 2, expressions 3, 4, 5
X == {1, 2}
EX == {3, 4, 5}
H == X \cup EX

VARIABLES x,     \* values of the variables
          st,    \* statements of every expression
          eng,   \* engine state: [vis, val, dval, cache]
          pre,   \* expression prepared for reverse mode (0: none)
          bad,   \* the last query was answered wrongly
          hist
vars == <<x, st, eng, pre, bad, hist>>
View == <<x, st, eng, pre, bad>>

M(n) == n % P
----------------------------------------------------------------------------
(* Formulas.  <<"v", h>>, <<op, a, b>>; a statement is such a tree (held by  *)
(* the library as tree * 1) or <<"r", h>>, a reference to an expression      *)
V(h) == <<"v", h>>
Mul(a, b) == <<"*", a, b>>
Add(a, b) == <<"+", a, b>>
Sub(a, b) == <<"-", a, b>>

\* formulas that do not mention the expression they are assigned to
Menu(e) ==
  CASE Menus = "small" ->
         (CASE e = 3 -> {Mul(V(4), V(4)), <<"r", 4>>, Add(Mul(V(1), V(4)), V(4))}
            [] e = 4 -> {Mul(V(1), V(2)), Add(V(1), V(1))}
            [] OTHER -> {})
    [] Menus = "chain" ->
         (CASE e = 3 -> {Mul(V(4), V(5)), Add(V(5), V(4)), <<"r", 4>>}
            [] e = 4 -> {Mul(V(5), V(5)), <<"r", 5>>}
            [] OTHER -> {Mul(V(1), V(2)), Sub(V(1), V(2))})
    [] OTHER ->
         (CASE e = 3 -> {Mul(V(4), V(1))}
            [] e = 4 -> {Mul(V(1), V(2))}
            [] OTHER -> {})
\* formulas that mention it
RecMenu(e) ==
  CASE Menus = "small" -> {}
    [] Menus = "chain" -> {}
    [] OTHER -> IF e = 3 THEN {Mul(V(3), V(4)), Add(V(3), V(3)), Mul(V(3), V(3))}
                ELSE IF e = 4 THEN {Add(V(4), Mul(V(4), V(1))), Sub(V(2), V(4))} ELSE {}
----------------------------------------------------------------------------
(* What a query should answer: value and derivative as a dual number        *)
RECURSIVE DenT(_, _, _, _), DenS(_, _, _, _)
DenH(h, w, self, acc) == IF h = self THEN acc
                         ELSE IF h \in X THEN <<M(x[h]), IF h = w THEN 1 ELSE 0>>
                         ELSE DenS(st[h], w, h, <<0, 0>>)
DenT(t, w, self, acc) ==
  IF t[1] \in {"v", "r"} THEN DenH(t[2], w, self, acc)
  ELSE LET a == DenT(t[2], w, self, acc)  b == DenT(t[3], w, self, acc) IN
       CASE t[1] = "*" -> <<M(a[1] * b[1]), M(a[1] * b[2] + a[2] * b[1])>>
         [] t[1] = "+" -> <<M(a[1] + b[1]), M(a[2] + b[2])>>
         [] OTHER      -> <<M(a[1] - b[1]), M(a[2] - b[2])>>
DenS(s, w, self, acc) == IF s = <<>> THEN acc ELSE DenS(Tail(s), w, self, DenT(Head(s), w, self, acc))
Value(e) == DenS(st[e], 0, e, <<0, 0>>)[1]
Deriv(e, w) == DenS(st[e], w, e, <<0, 0>>)[2]
----------------------------------------------------------------------------
(* The engine.  Operators take the engine state s and return a record with  *)
(* the new one.  Caches map holders <<h>> and nodes <<h, i, path>> to adjoints. *)
Get(c, k) == IF k \in DOMAIN c THEN c[k] ELSE 0
Acc(c, k, v) == [j \in DOMAIN c \cup {k} |-> IF j = k THEN M(Get(c, k) + v) ELSE c[j]]
RECURSIVE AccAll(_, _, _, _)
AccAll(c, from, keys, v) == IF keys = {} THEN c ELSE
  LET k == CHOOSE q \in keys : TRUE IN AccAll(Acc(c, k, from[k] * v), from, keys \ {k}, v)
AddCache(c, from, v) == AccAll(c, from, DOMAIN from, v)
Empty == [j \in {} |-> 0]

Base(h) == IF h \in X THEN M(x[h]) ELSE 0
Items(h) == IF h \in X THEN <<>> ELSE st[h]

\* Variable::eval
RECURSIVE EvH(_, _), EvT(_, _), EvItems(_, _, _)
EvH(h, s) == IF s.vis[h] THEN [v |-> s.val[h], s |-> s]
             ELSE EvItems(h, Items(h), [s EXCEPT !.val[h] = Base(h), !.vis[h] = TRUE])
EvItems(h, it, s) == IF it = <<>> THEN [v |-> s.val[h], s |-> s]
                     ELSE LET r == EvT(Head(it), s) IN EvItems(h, Tail(it), [r.s EXCEPT !.val[h] = r.v])
EvT(t, s) ==
  IF t[1] \in {"v", "r"} THEN EvH(t[2], s)
  ELSE LET b == EvT(t[3], s)  a == EvT(t[2], b.s) IN
       [v |-> CASE t[1] = "*" -> M(a.v * b.v) [] t[1] = "+" -> M(a.v + b.v) [] OTHER -> M(a.v - b.v), s |-> a.s]

\* Variable::devalF
RECURSIVE DfH(_, _, _), DfT(_, _, _), DfItems(_, _, _, _)
DfH(h, w, s) == IF s.vis[h] THEN [v |-> IF h = w THEN 1 ELSE s.dval[h], s |-> s]
                ELSE DfItems(h, w, Items(h), [s EXCEPT !.vis[h] = TRUE])
DfItems(h, w, it, s) ==
  IF it = <<>> THEN [v |-> IF h = w THEN 1 ELSE s.dval[h], s |-> s]
  ELSE LET d == DfT(Head(it), w, s)
           r == EvT(Head(it), [d.s EXCEPT !.dval[h] = d.v]) IN
       DfItems(h, w, Tail(it), [r.s EXCEPT !.val[h] = r.v])
DfT(t, w, s) ==
  IF t[1] \in {"v", "r"} THEN DfH(t[2], w, s)
  ELSE LET da == DfT(t[2], w, s)  db == DfT(t[3], w, da.s) IN
       IF t[1] = "*" THEN LET b == EvT(t[3], db.s)  a == EvT(t[2], b.s) IN [v |-> M(da.v * b.v + db.v * a.v), s |-> a.s]
       ELSE [v |-> IF t[1] = "+" THEN M(da.v + db.v) ELSE M(da.v - db.v), s |-> db.s]

\* Variable::traverse and the traverse of operator nodes.  id: the node; ch:
\* the cache handed down, which the caller's statement owns
RECURSIVE TrH(_, _), TrItems(_, _, _, _), TrN(_, _, _, _), TrKid(_, _, _, _), TrMerge(_, _, _, _, _)
TrH(h, s) == IF s.vis[h] THEN s ELSE TrItems(h, Items(h), 1, [s EXCEPT !.vis[h] = TRUE])
TrItems(h, it, i, s) ==
  IF it = <<>> THEN s
  ELSE LET t == Head(it) IN
       IF t[1] = "r"
       THEN LET s1 == TrH(t[2], s)  r == EvH(t[2], s1) IN
            TrItems(h, Tail(it), i + 1, [r.s EXCEPT !.val[h] = r.v, !.cache[h] = r.s.cache[t[2]]])
       ELSE \* the node 1 * tree: its own cache, adjoint 1
            LET id == <<h, i>>
                a == TrKid(t, id, Empty, s)
                c1 == Acc(a.c, IF t[1] = "v" THEN <<t[2]>> ELSE id, 1)
                c2 == IF t[1] = "v" THEN AddCache(c1, a.s.cache[t[2]], 1) ELSE c1
                b == TrKid(t, id, c2, a.s)
                r == EvT(t, b.s) IN
            TrItems(h, Tail(it), i + 1, [r.s EXCEPT !.val[h] = r.v, !.cache[h] = b.c])
\* visit an operand
TrKid(t, id, c, s) == IF t[1] = "v" THEN [c |-> c, s |-> TrH(t[2], s)] ELSE TrN(t, id, c, s)
\* an inner operator node: collects its adjoint from the cache, hands it on
TrMerge(t, id, c, s, v) ==
  IF t[1] = "v" THEN AddCache(Acc(c, <<t[2]>>, v), s.cache[t[2]], v) ELSE Acc(c, id, v)
TrN(t, id, c, s) ==
  LET g == Get(c, id)
      il == Append(id, 1)  ir == Append(id, 2)
      l1 == TrKid(t[2], il, c, s)
      r1 == TrKid(t[3], ir, l1.c, l1.s)
      b == EvT(t[3], r1.s)  a == EvT(t[2], b.s)
      gl == CASE t[1] = "*" -> M(b.v * g) [] OTHER -> g
      gr == CASE t[1] = "*" -> M(a.v * g) [] t[1] = "+" -> g [] OTHER -> M(0 - g)
      s2 == IF t[1] = "*" THEN a.s ELSE r1.s
      c2 == TrMerge(t[2], il, r1.c, s2, gl)
      c3 == TrMerge(t[3], ir, c2, s2, gr)
      l2 == TrKid(t[2], il, c3, s2) IN
  TrKid(t[3], ir, l2.c, l2.s)

\* Variable::resetImpl: every holder reached is reset once
RECURSIVE Uses(_), ReachH(_, _)
Uses(t) == IF t[1] \in {"v", "r"} THEN {t[2]} ELSE Uses(t[2]) \cup Uses(t[3])
ReachH(S, n) == IF n = 0 THEN S ELSE ReachH(S \cup UNION {UNION {Uses(st[h][i]) : i \in 1..Len(st[h])} : h \in S \cap EX}, n - 1)
\* a defect this library had: holders below one that was not visited are left alone
RECURSIVE ReachV(_, _, _)
ReachV(S, s, n) == IF n = 0 THEN S ELSE
  ReachV(S \cup UNION {UNION {Uses(st[h][i]) : i \in 1..Len(st[h])} : h \in {q \in S \cap EX : s.vis[q]}}, s, n - 1)
Below(e) == UNION {Uses(st[e][i]) : i \in 1..Len(st[e])}
Reset(e, s) ==
  LET R == IF Defect = "none" THEN ReachH(Below(e), 3) ELSE IF Defect = "again" /\ pre = e THEN {} ELSE ReachV(Below(e), s, 3) IN
  [vis |-> [h \in H |-> IF h \in R \cup {e} THEN FALSE ELSE s.vis[h]],
   val |-> [h \in H |-> IF h \in R THEN Base(h) ELSE s.val[h]],
   dval |-> [h \in H |-> IF h \in R THEN 0 ELSE s.dval[h]],
   cache |-> [h \in H |-> IF h \in R THEN Empty ELSE s.cache[h]]]
----------------------------------------------------------------------------
Emit(a) == hist' = Append(hist, a)

Init ==
  /\ x = [i \in X |-> i + 1]
  /\ st = [e \in EX |-> CASE e = 3 -> <<Mul(V(4), V(1))>>
                          [] e = 4 -> <<Add(V(1), V(2))>>
                          [] OTHER -> <<Mul(V(1), V(2))>>]
  /\ eng = [vis |-> [h \in H |-> FALSE], val |-> [h \in H |-> 0], dval |-> [h \in H |-> 0], cache |-> [h \in H |-> Empty]]
  /\ pre = 0 /\ bad = FALSE /\ hist = <<>>

Set(i, v) ==
  /\ x' = [x EXCEPT ![i] = v]
  /\ eng' = [eng EXCEPT !.val[i] = M(v), !.cache[i] = Empty]
  /\ pre' = 0 /\ bad' = FALSE /\ UNCHANGED st
  /\ Emit(<<"set", i, v>>)

Assign(e, t) ==
  /\ st' = [st EXCEPT ![e] = <<t>>]
  /\ pre' = 0 /\ bad' = FALSE /\ UNCHANGED <<x, eng>>
  /\ Emit(<<"assign", e, t>>)

Append2(e, t) ==
  /\ Len(st[e]) < 3
  /\ st' = [st EXCEPT ![e] = Append(@, t)]
  /\ pre' = 0 /\ bad' = FALSE /\ UNCHANGED <<x, eng>>
  /\ Emit(<<"assign", e, t>>)

Eval(e) ==
  LET r == EvH(e, Reset(e, eng)) IN
  /\ eng' = r.s /\ bad' = (r.v # Value(e)) /\ pre' = 0
  /\ UNCHANGED <<x, st>>
  /\ Emit(<<"eval", e, Value(e)>>)

Fwd(e, w) ==
  LET r == DfH(e, w, Reset(e, eng)) IN
  /\ eng' = r.s /\ bad' = (r.v # Deriv(e, w)) /\ pre' = 0
  /\ UNCHANGED <<x, st>>
  /\ Emit(<<"fwd", e, w, Deriv(e, w)>>)

Pre(e) ==
  /\ eng' = TrH(e, Reset(e, eng))
  /\ pre' = e /\ bad' = FALSE
  /\ UNCHANGED <<x, st>>
  /\ Emit(<<"pre", e>>)

Rev(w) ==
  /\ pre # 0
  /\ bad' = (Get(eng.cache[pre], <<w>>) # Deriv(pre, w))
  /\ UNCHANGED <<x, st, eng, pre>>
  /\ Emit(<<"rev", pre, w, Deriv(pre, w)>>)

Live == {e \in EX : Menu(e) # {} \/ RecMenu(e) # {}}
Next ==
  \/ \E i \in X, v \in Vals : v # x[i] /\ Set(i, v)
  \/ \E e \in Live : \E t \in Menu(e) : st[e] # <<t>> /\ Assign(e, t)
  \/ \E e \in Live : \E t \in RecMenu(e) : Append2(e, t)
  \/ \E e \in Live : Eval(e) \/ Pre(e) \/ (\E w \in X : Fwd(e, w))
  \/ \E w \in X : Rev(w)

Spec == Init /\ [][Next]_vars

\* every query is answered from the current state, whatever came before
Answers == ~bad

Bound == MaxLen = 0 \/ Len(hist) <= MaxLen
\* print every transition with the shortest history that leads to it
Shown == ~Show \/ PrintT("@@" \o ToJson(hist'))
=============================================================================
