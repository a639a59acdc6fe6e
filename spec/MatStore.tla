------------------------------ MODULE MatStore ------------------------------
(***************************************************************************)
(* Matrices as containers.                                                  *)
(*                                                                         *)
(* State: matrix objects (slots), each with a size and a buffer; buffers;  *)
(* arrays owned by the user that matrices can be built on; matrices of     *)
(* variables, whose entries are cells that copies share; and matrix        *)
(* expressions built from these objects.  Every action is a public call:   *)
(* construction, copying, moving, destruction, access to entries, blocks,  *)
(* padding, rows, columns, reshaping, printing.  A call changes what this  *)
(* specification says it changes and nothing else.                         *)
(*                                                                         *)
(* Numbers are pairs (real, imaginary) of sixteenths; observations are     *)
(* pairs of 1/256.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Real, Depth

Objs == 1..5          \* matrices the program owns
Ress == 6..8          \* matrices the library returned through a pointer
Slots == 1..8
Exts == 1..2          \* arrays of the user, ten entries each
ExtLen == 10
Vs == 1..4            \* matrices of variables
Xs == 1..3            \* expressions over matrices of numbers
Ys == 1..3            \* expressions over matrices of variables

VARIABLES obj,   \* slot -> [k: none, moved or mat; r, c; b: buffer]
          buf,   \* buffer -> entries, row by row; buffers 1, 2 are the arrays
          vm,    \* slot -> [k, r, c, cells]
          cell,  \* cell -> value
          xp, yp,\* expression -> [k, op, i, j, r, c]
          hist
vars == <<obj, buf, vm, cell, xp, yp, hist>>

Force(s) == s \o <<>>
Pick(S) == RandomElement(S)
None == [k |-> "none", r |-> 0, c |-> 0, b |-> 0]
NoneV == [k |-> "none", r |-> 0, c |-> 0, cells |-> <<>>]
NoneX == [k |-> "none", op |-> "+", i |-> 0, j |-> 0, r |-> 0, c |-> 0]

Num(z) == <<Pick(-40..40), IF Real THEN 0 ELSE Pick(-20..20)>>
Nums(n) == Force([i \in 1..n |-> Num(i)])
Zero == <<0, 0>>
Sc(p) == <<16 * p[1], 16 * p[2]>>                                     \* into 1/256
Mul(p, q) == <<p[1] * q[1] - p[2] * q[2], p[1] * q[2] + p[2] * q[1]>> \* of sixteenths, in 1/256
Plus(p, q) == <<p[1] + q[1], p[2] + q[2]>>
Ent(m) == buf[m.b]
\* the entries a matrix shows (an array of the user may be longer)
Shown(m) == Force([l \in 1..(m.r * m.c) |-> Ent(m)[l]])
ObsM(r, c, e) == [r |-> r, c |-> c, e |-> Force([l \in 1..Len(e) |-> Sc(e[l])])]

Live(S) == {k \in S : obj[k].k = "mat"}
LiveV == {k \in Vs : vm[k].k = "mat"}
Emit(rec) == hist' = Append(hist, rec)
Nop == UNCHANGED <<obj, buf, vm, cell, xp, yp>> /\ Emit([a |-> "nop"])
----------------------------------------------------------------------------
\* expressions over object k end with it, and when its size changes
Drop(x, k) == [q \in DOMAIN x |-> IF x[q].k = "mat" /\ (x[q].i = k \/ x[q].j = k) THEN NoneX ELSE x[q]]
Resize(x, k, r, c) == [q \in DOMAIN x |-> IF x[q].k = "mat" /\ (x[q].i = k \/ x[q].j = k) /\ (x[q].r # r \/ x[q].c # c) THEN NoneX ELSE x[q]]

\* a new object in slot k (the old one, if any, is destroyed first)
Built(k, r, c, e) ==
  /\ buf' = Append(buf, e)
  /\ obj' = [obj EXCEPT ![k] = [k |-> "mat", r |-> r, c |-> c, b |-> Len(buf) + 1]]
  /\ xp' = Drop(xp, k)
  /\ UNCHANGED <<vm, cell, yp>>
Dims == {<<r, c>> \in (1..4) \X (1..4) : r * c <= 10}
New ==
  \E k \in {Pick(Objs)}, d \in {Pick(Dims)}, v \in {Num(0)}, how \in {Pick({"val", "zero", "factory"})} :
  \E e \in {Force([l \in 1..(d[1] * d[2]) |-> IF how = "zero" THEN Zero ELSE v])} :
  Built(k, d[1], d[2], e) /\ Emit([a |-> "new", k |-> k, r |-> d[1], c |-> d[2], v |-> v, how |-> how, o |-> ObsM(d[1], d[2], e)])
\* on an array of the user: entries are shared
NewX ==
  \E k \in {Pick(Objs)}, d \in {Pick(Dims)}, e \in {Pick(Exts)} :
  /\ obj' = [obj EXCEPT ![k] = [k |-> "mat", r |-> d[1], c |-> d[2], b |-> e]]
  /\ xp' = Drop(xp, k) /\ UNCHANGED <<buf, vm, cell, yp>>
  /\ Emit([a |-> "newx", k |-> k, r |-> d[1], c |-> d[2], x |-> e, o |-> ObsM(d[1], d[2], Force([l \in 1..(d[1] * d[2]) |-> buf[e][l]]))])
CopyC ==
  IF Live(Slots) = {} THEN Nop ELSE
  \E k \in {Pick(Objs)}, j \in {Pick(Live(Slots))} :
  IF k = j THEN Nop ELSE
  Built(k, obj[j].r, obj[j].c, Shown(obj[j])) /\ Emit([a |-> "copyc", k |-> k, j |-> j, o |-> ObsM(obj[j].r, obj[j].c, Shown(obj[j]))])
CopyA ==
  IF Live(Slots) = {} THEN Nop ELSE
  \E j \in {Pick(Live(Slots))} :
  \E k \in {Pick({q \in Objs : obj[q].k # "none"} \cup {j})} :
  /\ buf' = Append(buf, Shown(obj[j]))
  /\ obj' = [obj EXCEPT ![k] = [k |-> "mat", r |-> obj[j].r, c |-> obj[j].c, b |-> Len(buf) + 1]]
  /\ xp' = Resize(xp, k, obj[j].r, obj[j].c) /\ UNCHANGED <<vm, cell, yp>>
  /\ Emit([a |-> "copya", k |-> k, j |-> j, o |-> ObsM(obj[j].r, obj[j].c, Shown(obj[j]))])
MoveC ==
  IF Live(Objs) = {} THEN Nop ELSE
  \E k \in {Pick(Objs)}, j \in {Pick(Live(Objs))} :
  IF k = j THEN Nop ELSE
  /\ obj' = [obj EXCEPT ![k] = obj[j], ![j] = [None EXCEPT !.k = "moved"]]
  /\ xp' = Drop(Drop(xp, k), j) /\ UNCHANGED <<buf, vm, cell, yp>>
  /\ Emit([a |-> "movec", k |-> k, j |-> j, o |-> ObsM(obj[j].r, obj[j].c, Shown(obj[j]))])
MoveA ==
  IF Live(Objs) = {} THEN Nop ELSE
  \E j \in {Pick(Live(Objs))} :
  \E k \in {Pick({q \in Objs : obj[q].k # "none"})} :
  IF k = j THEN Nop ELSE
  /\ obj' = [obj EXCEPT ![k] = obj[j], ![j] = [None EXCEPT !.k = "moved"]]
  /\ xp' = Drop(Resize(xp, k, obj[j].r, obj[j].c), j) /\ UNCHANGED <<buf, vm, cell, yp>>
  /\ Emit([a |-> "movea", k |-> k, j |-> j, o |-> ObsM(obj[j].r, obj[j].c, Shown(obj[j]))])
Del ==
  IF {q \in Objs : obj[q].k # "none"} = {} THEN Nop ELSE
  \E k \in {Pick({q \in Objs : obj[q].k # "none"})} :
  obj' = [obj EXCEPT ![k] = None] /\ xp' = Drop(xp, k) /\ UNCHANGED <<buf, vm, cell, yp>> /\ Emit([a |-> "del", k |-> k])
----------------------------------------------------------------------------
\* entries
Set ==
  IF Live(Slots) = {} THEN Nop ELSE
  \E k \in {Pick(Live(Slots))}, v \in {Num(0)}, via \in {Pick(1..4)} :
  \E l \in {Pick(1..(obj[k].r * obj[k].c))} :
  /\ buf' = [buf EXCEPT ![obj[k].b][l] = v]
  /\ UNCHANGED <<obj, vm, cell, xp, yp>>
  /\ Emit([a |-> "set", k |-> k, l |-> l - 1, v |-> v, via |-> via])
ExtSet ==
  \E x \in {Pick(Exts)}, v \in {Num(0)}, l \in {Pick(1..ExtLen)} :
  buf' = [buf EXCEPT ![x][l] = v] /\ UNCHANGED <<obj, vm, cell, xp, yp>> /\ Emit([a |-> "extset", x |-> x, l |-> l - 1, v |-> v])
\* overwrites the first entries of the buffer of k
Over(k, e) == [buf EXCEPT ![obj[k].b] = Force([l \in 1..Len(@) |-> IF l <= Len(e) THEN e[l] ELSE @[l]])]
CopyD ==
  IF Live(Slots) = {} THEN Nop ELSE
  \E k \in {Pick(Live(Slots))} :
  \E j \in {Pick({q \in Live(Slots) : obj[q].r * obj[q].c = obj[k].r * obj[k].c})} :
  IF k # j /\ obj[k].b = obj[j].b THEN Nop ELSE
  /\ buf' = Over(k, Shown(obj[j])) /\ UNCHANGED <<obj, vm, cell, xp, yp>>
  /\ Emit([a |-> "copyd", k |-> k, j |-> j, o |-> ObsM(obj[k].r, obj[k].c, Shown(obj[j]))])
CopyP ==
  IF Live(Slots) = {} THEN Nop ELSE
  \E k \in {Pick(Live(Slots))}, x \in {Pick(Exts)} :
  IF obj[k].b = x \/ obj[k].r * obj[k].c > ExtLen THEN Nop ELSE
  \E e \in {Force([l \in 1..(obj[k].r * obj[k].c) |-> buf[x][l]])} :
  /\ buf' = Over(k, e) /\ UNCHANGED <<obj, vm, cell, xp, yp>>
  /\ Emit([a |-> "copyp", k |-> k, x |-> x, o |-> ObsM(obj[k].r, obj[k].c, e)])
Reshape ==
  IF Live(Slots) = {} THEN Nop ELSE
  \E k \in {Pick(Live(Slots))} :
  \E d \in {Pick({q \in (1..10) \X (1..10) : q[1] * q[2] = obj[k].r * obj[k].c})} :
  /\ obj' = [obj EXCEPT ![k].r = d[1], ![k].c = d[2]]
  /\ xp' = Resize(xp, k, d[1], d[2]) /\ UNCHANGED <<buf, vm, cell, yp>>
  /\ Emit([a |-> "reshape", k |-> k, r |-> d[1], c |-> d[2], o |-> ObsM(d[1], d[2], Shown(obj[k]))])
----------------------------------------------------------------------------
\* blocks; row by row
At(m, i, j) == Ent(m)[(i - 1) * m.c + j]
Mat(r, c, F(_, _)) == Force([l \in 1..(r * c) |-> F(((l - 1) \div c) + 1, ((l - 1) % c) + 1)])
\* a result through a pointer: a matrix with as many entries is reused
Result(k, r, c, e) ==
  IF obj[k].k = "mat" /\ obj[k].r * obj[k].c = r * c
  THEN /\ buf' = Over(k, e)
       /\ obj' = [obj EXCEPT ![k].r = r, ![k].c = c]
       /\ xp' = Resize(xp, k, r, c) /\ UNCHANGED <<vm, cell, yp>>
  ELSE Built(k, r, c, e)
GetBlock ==
  IF Live(Slots) = {} THEN Nop ELSE
  \E j \in {Pick(Live(Slots))}, k \in {Pick(Ress)} :
  \E r0 \in {Pick(1..obj[j].r)}, c0 \in {Pick(1..obj[j].c)} :
  \E r1 \in {Pick(r0..obj[j].r)}, c1 \in {Pick(c0..obj[j].c)} :
  IF k = j THEN Nop ELSE
  \E e \in {Mat(r1 - r0 + 1, c1 - c0 + 1, LAMBDA i, l: At(obj[j], i + r0 - 1, l + c0 - 1))} :
  /\ Result(k, r1 - r0 + 1, c1 - c0 + 1, e)
  /\ Emit([a |-> "getblock", j |-> j, k |-> k, w |-> <<r0 - 1, r1 - 1, c0 - 1, c1 - 1>>, o |-> ObsM(r1 - r0 + 1, c1 - c0 + 1, e)])
SetBlock ==
  IF Live(Slots) = {} THEN Nop ELSE
  \E k \in {Pick(Live(Slots))} :
  \E fit \in {{q \in Live(Slots) : obj[q].r <= obj[k].r /\ obj[q].c <= obj[k].c /\ obj[q].b # obj[k].b}} :
  IF fit = {} THEN Nop ELSE
  \E j \in {Pick(fit)} :
  \E r0 \in {Pick(0..(obj[k].r - obj[j].r))}, c0 \in {Pick(0..(obj[k].c - obj[j].c))} :
  \E e \in {Mat(obj[k].r, obj[k].c, LAMBDA i, l: IF i > r0 /\ i <= r0 + obj[j].r /\ l > c0 /\ l <= c0 + obj[j].c
                                                 THEN At(obj[j], i - r0, l - c0) ELSE At(obj[k], i, l))} :
  /\ buf' = Over(k, e) /\ UNCHANGED <<obj, vm, cell, xp, yp>>
  /\ Emit([a |-> "setblock", k |-> k, j |-> j, w |-> <<r0, r0 + obj[j].r - 1, c0, c0 + obj[j].c - 1>>, o |-> ObsM(obj[k].r, obj[k].c, e)])
Pad ==
  IF Live(Slots) = {} THEN Nop ELSE
  \E j \in {Pick(Live(Slots))}, k \in {Pick(Ress)}, p \in {Pick(0..2)}, q \in {Pick(0..2)} :
  \E r \in {obj[j].r + 2 * p}, c \in {obj[j].c + 2 * q} :
  IF k = j \/ r * c > 40 THEN Nop ELSE
  \E e \in {Mat(r, c, LAMBDA i, l: IF i > p /\ i <= p + obj[j].r /\ l > q /\ l <= q + obj[j].c THEN At(obj[j], i - p, l - q) ELSE Zero)} :
  /\ Result(k, r, c, e)
  /\ Emit([a |-> "pad", j |-> j, k |-> k, p |-> p, q |-> q, o |-> ObsM(r, c, e)])
\* rows and columns come as columns; from a matrix or from a temporary
Line ==
  IF Live(Slots) = {} THEN Nop ELSE
  \E j \in {Pick(Live(Slots))}, k \in {Pick(Objs)}, row \in {Pick(BOOLEAN)}, tmp \in {Pick(BOOLEAN)} :
  IF k = j THEN Nop ELSE
  \E i \in {Pick(1..(IF row THEN obj[j].r ELSE obj[j].c))} :
  \E n \in {IF row THEN obj[j].c ELSE obj[j].r} :
  \E e \in {Force([l \in 1..n |-> IF row THEN At(obj[j], i, l) ELSE At(obj[j], l, i)])} :
  /\ Built(k, n, 1, e)
  /\ Emit([a |-> IF row THEN "row" ELSE "col", j |-> j, k |-> k, i |-> i - 1, tmp |-> tmp, o |-> ObsM(n, 1, e)])
----------------------------------------------------------------------------
\* looking: every access path, the printed form, expressions
Read ==
  IF Live(Slots) = {} THEN Nop ELSE
  \E k \in {Pick(Live(Slots))}, via \in {Pick(0..5)} :
  UNCHANGED <<obj, buf, vm, cell, xp, yp>> /\ Emit([a |-> "read", k |-> k, via |-> via, o |-> ObsM(obj[k].r, obj[k].c, Shown(obj[k]))])
ExtRead ==
  \E x \in {Pick(Exts)} :
  UNCHANGED <<obj, buf, vm, cell, xp, yp>> /\ Emit([a |-> "extread", x |-> x, o |-> ObsM(1, ExtLen, buf[x])])
Express ==
  IF Live(Slots) = {} THEN Nop ELSE
  \E q \in {Pick(Xs)}, i \in {Pick(Live(Slots))}, op \in {Pick({"+", "^"})} :
  \E j \in {Pick({s \in Live(Slots) : obj[s].r = obj[i].r /\ obj[s].c = obj[i].c})} :
  /\ xp' = [xp EXCEPT ![q] = [k |-> "mat", op |-> op, i |-> i, j |-> j, r |-> obj[i].r, c |-> obj[i].c]]
  /\ UNCHANGED <<obj, buf, vm, cell, yp>>
  /\ Emit([a |-> "express", q |-> q, op |-> op, i |-> i, j |-> j])
EvalX ==
  IF {q \in Xs : xp[q].k = "mat"} = {} THEN Nop ELSE
  \E q \in {Pick({z \in Xs : xp[z].k = "mat"})} :
  \E x \in {xp[q]} :
  /\ UNCHANGED <<obj, buf, vm, cell, xp, yp>>
  /\ Emit([a |-> "evalx", q |-> q, o |-> [r |-> x.r, c |-> x.c, e |-> Force([l \in 1..(x.r * x.c) |->
        LET u == Ent(obj[x.i])[l]  v == Ent(obj[x.j])[l] IN IF x.op = "+" THEN Sc(Plus(u, v)) ELSE Mul(u, v)])]])
----------------------------------------------------------------------------
(* Matrices of variables: a copy of a variable is the same variable *)
DimsV == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<1, 3>>, <<3, 2>>}
NewV ==
  \E k \in {Pick(Vs)}, d \in {Pick(DimsV)} : \E e \in {Nums(d[1] * d[2])} :
  /\ vm' = [vm EXCEPT ![k] = [k |-> "mat", r |-> d[1], c |-> d[2], cells |-> Force([l \in 1..(d[1] * d[2]) |-> Len(cell) + l])]]
  /\ cell' = cell \o e
  /\ yp' = Drop(yp, k) /\ UNCHANGED <<obj, buf, xp>>
  /\ Emit([a |-> "newv", k |-> k, r |-> d[1], c |-> d[2], v |-> e])
CopyV ==
  IF LiveV = {} THEN Nop ELSE
  \E j \in {Pick(LiveV)}, k \in {Pick(Vs)}, how \in {Pick({"copyc", "copya", "movec"})} :
  IF k = j \/ (how = "copya" /\ vm[k].k = "none") THEN Nop ELSE
  /\ vm' = IF how = "movec" THEN [vm EXCEPT ![k] = vm[j], ![j] = [NoneV EXCEPT !.k = "moved"]] ELSE [vm EXCEPT ![k] = vm[j]]
  /\ yp' = IF how = "copya" THEN Resize(yp, k, vm[j].r, vm[j].c) ELSE IF how = "movec" THEN Drop(Drop(yp, k), j) ELSE Drop(yp, k)
  /\ UNCHANGED <<obj, buf, cell, xp>>
  /\ Emit([a |-> "copyv", how |-> how, k |-> k, j |-> j, o |-> ObsM(vm[j].r, vm[j].c, Force([l \in 1..Len(vm[j].cells) |-> cell[vm[j].cells[l]]]))])
SetV ==
  IF LiveV = {} THEN Nop ELSE
  \E k \in {Pick(LiveV)}, v \in {Num(0)} : \E l \in {Pick(1..Len(vm[k].cells))} :
  /\ cell' = [cell EXCEPT ![vm[k].cells[l]] = v] /\ UNCHANGED <<obj, buf, vm, xp, yp>>
  /\ Emit([a |-> "setv", k |-> k, l |-> l - 1, v |-> v])
\* an entry is assigned a variable: from now on it is that variable
LinkV ==
  IF LiveV = {} THEN Nop ELSE
  \E k \in {Pick(LiveV)}, j \in {Pick(LiveV)} : \E l \in {Pick(1..Len(vm[k].cells))}, m \in {Pick(1..Len(vm[j].cells))} :
  /\ vm' = [vm EXCEPT ![k].cells[l] = vm[j].cells[m]] /\ UNCHANGED <<obj, buf, cell, xp, yp>>
  /\ Emit([a |-> "linkv", k |-> k, l |-> l - 1, j |-> j, m |-> m - 1])
ReadV ==
  IF LiveV = {} THEN Nop ELSE
  \E k \in {Pick(LiveV)} : \E m \in {vm[k]} :
  UNCHANGED <<obj, buf, vm, cell, xp, yp>> /\ Emit([a |-> "readv", k |-> k, o |-> ObsM(m.r, m.c, Force([l \in 1..Len(m.cells) |-> cell[m.cells[l]]]))])
ExpressV ==
  IF LiveV = {} THEN Nop ELSE
  \E q \in {Pick(Ys)}, i \in {Pick(LiveV)}, op \in {Pick({"+", "^"})} :
  \E j \in {Pick({s \in LiveV : vm[s].r = vm[i].r /\ vm[s].c = vm[i].c})} :
  /\ yp' = [yp EXCEPT ![q] = [k |-> "mat", op |-> op, i |-> i, j |-> j, r |-> vm[i].r, c |-> vm[i].c]]
  /\ UNCHANGED <<obj, buf, vm, cell, xp>>
  /\ Emit([a |-> "expressv", q |-> q, op |-> op, i |-> i, j |-> j])
LiveY == {z \in Ys : yp[z].k = "mat"}
VVal(m, l) == cell[m.cells[l]]
EvalY ==
  IF LiveY = {} THEN Nop ELSE
  \E q \in {Pick(LiveY)} : \E x \in {yp[q]} :
  /\ UNCHANGED <<obj, buf, vm, cell, xp, yp>>
  /\ Emit([a |-> "evaly", q |-> q, o |-> [r |-> x.r, c |-> x.c, e |-> Force([l \in 1..(x.r * x.c) |->
        LET u == VVal(vm[x.i], l)  v == VVal(vm[x.j], l) IN IF x.op = "+" THEN Sc(Plus(u, v)) ELSE Mul(u, v)])]])
\* partial derivative of entry l by a cell
DY(x, l, ce) ==
  LET di == IF vm[x.i].cells[l] = ce THEN 1 ELSE 0  dj == IF vm[x.j].cells[l] = ce THEN 1 ELSE 0
      u == VVal(vm[x.i], l)  v == VVal(vm[x.j], l) IN
  IF x.op = "+" THEN <<256 * (di + dj), 0>>
  ELSE Plus(IF di = 1 THEN Sc(v) ELSE Zero, IF dj = 1 THEN Sc(u) ELSE Zero)
DerY ==
  IF LiveY = {} THEN Nop ELSE
  \E q \in {Pick(LiveY)}, s \in {Pick(LiveV)} : \E x \in {yp[q]}, m \in {vm[s]} :
  /\ UNCHANGED <<obj, buf, vm, cell, xp, yp>>
  /\ Emit([a |-> "dery", q |-> q, s |-> s, o |-> [r |-> x.r * m.r, c |-> x.c * m.c,
        e |-> Force([l \in 1..(x.r * m.r * x.c * m.c) |->
           LET R == (l - 1) \div (x.c * m.c)  K == (l - 1) % (x.c * m.c) IN
           DY(x, (R \div m.r) * x.c + (K \div m.c) + 1, m.cells[(R % m.r) * m.c + (K % m.c) + 1])])]])
----------------------------------------------------------------------------
Rep(s, n) == [i \in 1..n |-> s]
Acts == Rep("new", 3) \o Rep("newx", 2) \o Rep("copyc", 2) \o Rep("copya", 3) \o Rep("movec", 1) \o Rep("movea", 2) \o Rep("del", 1)
        \o Rep("set", 5) \o Rep("extset", 2) \o Rep("copyd", 2) \o Rep("copyp", 1) \o Rep("reshape", 2)
        \o Rep("getblock", 5) \o Rep("setblock", 4) \o Rep("pad", 4) \o Rep("line", 3)
        \o Rep("read", 8) \o Rep("extread", 1) \o Rep("express", 2) \o Rep("evalx", 4)
        \o Rep("newv", 2) \o Rep("copyv", 3) \o Rep("setv", 3) \o Rep("linkv", 1) \o Rep("readv", 3) \o Rep("expressv", 3) \o Rep("evaly", 3) \o Rep("dery", 4)

Init == /\ obj = [k \in Slots |-> None] /\ buf = <<>> /\ vm = [k \in Vs |-> NoneV] /\ cell = <<>>
        /\ xp = [q \in Xs |-> NoneX] /\ yp = [q \in Ys |-> NoneX] /\ hist = <<>>
Start == \E a \in {Nums(ExtLen)}, b \in {Nums(ExtLen)} :
         buf' = <<a, b>> /\ UNCHANGED <<obj, vm, cell, xp, yp>> /\ Emit([a |-> "start", x |-> <<a, b>>])
Step(n) ==
  CASE n = "new" -> New [] n = "newx" -> NewX [] n = "copyc" -> CopyC [] n = "copya" -> CopyA [] n = "movec" -> MoveC [] n = "movea" -> MoveA
    [] n = "del" -> Del [] n = "set" -> Set [] n = "extset" -> ExtSet [] n = "copyd" -> CopyD [] n = "copyp" -> CopyP [] n = "reshape" -> Reshape
    [] n = "getblock" -> GetBlock [] n = "setblock" -> SetBlock [] n = "pad" -> Pad [] n = "line" -> Line
    [] n = "read" -> Read [] n = "extread" -> ExtRead [] n = "express" -> Express [] n = "evalx" -> EvalX
    [] n = "newv" -> NewV [] n = "copyv" -> CopyV [] n = "setv" -> SetV [] n = "linkv" -> LinkV [] n = "readv" -> ReadV
    [] n = "expressv" -> ExpressV [] n = "evaly" -> EvalY [] n = "dery" -> DerY
Next == /\ Len(hist) < Depth
        /\ IF hist = <<>> THEN Start ELSE IF Live(Slots) = {} THEN New
           ELSE \E n \in {Acts[Pick(1..Len(Acts))]} : Step(n)
Dump == IF Len(hist) = Depth THEN PrintT("@@" \o ToJson(hist)) ELSE TRUE
=============================================================================
