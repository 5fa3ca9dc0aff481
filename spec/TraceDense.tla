------------------------------ MODULE TraceDense ------------------------------
(***************************************************************************)
(* Accepts a recorded execution iff dense arrays behave like the           *)
(* mathematical objects of DenseArray: after every operation the recorded  *)
(* shapes and contents of ALL arrays and views alive are those the         *)
(* specification gives.  The stateless operations (loops over regions,     *)
(* boxes, quadrature weights, interpolation, NumPy files, vectors) have to *)
(* return what Loops, Numpy, Vectors and GreensFunction define.            *)
(***************************************************************************)
EXTENDS DenseArray, Loops, Numpy, Vectors, Json, IOUtils
GF == INSTANCE GreensFunction

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES m, V, seen, l
vars == <<m, V, seen, l>>
ev == Trace[l]
Is(op) == l <= Len(Trace) /\ ev.op = op /\ l' = l + 1

\* the dump lists all handles alive
Shown(x) == /\ { ev.dump[k][1] : k \in DOMAIN ev.dump } = DOMAIN x.han
            /\ \A k \in DOMAIN ev.dump : LET d == ev.dump[k] h == d[1] IN d[2] = x.han[h].sh /\ Same(Contents(V, x, h), d[3])
To(x) == m' = x /\ Shown(x) /\ UNCHANGED <<V, seen>>
Ok == ev.r = 1
Alone(h) == Owns(m, h) /\ ~Shared(m, h)

Init == m = Empty /\ V = 1 /\ seen = << >> /\ l = 1
Reset == Is("Reset") /\ m' = Empty /\ V' = 1 /\ seen' = << >>
Start == Is("DInit") /\ ev.r = 1 /\ m' = Empty /\ V' = ev.v /\ UNCHANGED seen
ANew == Is("DNew") /\ Ok /\ To(New(V, m, ev.h, ev.sh, IF ev.how % 2 = 1 THEN ev.val ELSE U))
ACopy == Is("DCopy") /\ Ok /\ Known(m, ev.g) /\ To(Copy(V, m, ev.h, ev.g))
AAssign == Is("DAssign") /\ Ok /\ Alone(ev.h) /\ Known(m, ev.g) /\ To(Assign(V, m, ev.h, ev.g))
AAll == Is("DAll") /\ Ok /\ To(FillAll(V, m, ev.h, ev.val))
AFill == Is("DFill") /\ Ok /\ To(FillBox(V, m, ev.h, ev.s, ev.e, ev.val))
AFrom == Is("DFrom") /\ Ok /\ To(FillFrom(V, m, ev.h, ev.g, ev.is, ev.ie, ev.os))
ACol == Is("DCol") /\ Ok /\ Owns(m, ev.h) /\ To(FillColumn(V, m, ev.h, ev.os, ev.d))
AResize == Is("DResize") /\ Ok /\ Alone(ev.h) /\ To(IF ev.how = 1 THEN ResizeFill(V, m, ev.h, ev.sh, ev.val) ELSE Resize(V, m, ev.h, ev.sh))
AClear == Is("DClear") /\ Ok /\ Owns(m, ev.h) /\ To(FillAll(V, m, ev.h, 0))
ASet == Is("DSet") /\ Ok /\ To(SetAt(V, m, ev.h, ev.x, ev.d))
AMove == Is("DMove") /\ Ok /\ To(SetAt(V, m, ev.h, ev.x, ElemAt(V, m, ev.g, ev.y)))
AView == Is("DView") /\ Ok /\ To(View(m, ev.h, ev.g, ev.s, ev.e))
ADrop == Is("DDrop") /\ Ok /\ To(Drop(m, ev.h))
AApp == /\ Is("DApp") /\ Alone(ev.h) /\ Appendable(m, ev.h, ev.g, ev.ax)
        /\ \/ ev.ax = 1 /\ Ok /\ To(AppendTo(V, m, ev.h, ev.g))
           \/ ev.ax # 1 /\ ev.r = 0 /\ To(m)              \* extension along the other axes is refused
ASwap == Is("DSwap") /\ Ok /\ Alone(ev.h) /\ To(Swapped(V, m, ev.h, ev.g, ev.i, ev.j))
AAdd == Is("DAdd") /\ Ok /\ To(AddBox(V, m, ev.h, ev.s, ev.e, ev.k))
ALoop == /\ Is("DLoop") /\ To(m)
         /\ Same(IF ev.how = 0 THEN Walk(V, m, ev.h, ev.s, ev.e) ELSE WalkInd(V, m, ev.h, ev.s, ev.e), ev.v)
ASeq == /\ Is("DSeq") /\ To(m)
        /\ Same([k \in 1..(Len(ev.inn) * V) |->
                   LET n == Len(ev.x) IN ElemAt(V, m, ev.h, [ev.x EXCEPT ![n] = @ + ev.inn[((k - 1) \div V) + 1]])[((k - 1) % V) + 1]], ev.v)
ANull == Is("DNull") /\ AllNull(V, m, ev.h, ev.r) /\ To(m)
ANullAt == Is("DNullAt") /\ NullAt(V, m, ev.h, ev.x, ev.r) /\ To(m)
AHas == Is("DHas") /\ ev.r = (IF InBox(ZeroOf(m, ev.h), m.han[ev.h].sh, ev.x) THEN 1 ELSE 0) /\ To(m)
AMeta == /\ Is("DMeta") /\ UNCHANGED <<m, V, seen>>
         /\ LET x == m.han[ev.h] IN ev.sh = x.sh /\ ev.nel = Prod(x.sh) /\ ev.vol = V * Prod(x.sh) /\ ev.own = x.own
AConcat == /\ Is("DConcat") /\ UNCHANGED <<m, V, seen>>
           /\ ev.r = IF \A i \in DOMAIN ev.x : i = ev.ax \/ ev.x[i] = ev.y[i] THEN 1 ELSE 0
ADown == Is("DDown") /\ Alone(ev.h) /\ ev.o = DownStart(ev.s, ev.f) /\ To(Down(V, m, ev.h, ev.g, ev.s, ev.f))
ADownSh == Is("DDownSh") /\ ev.v = DownShape(ev.s, ev.sh, ev.f) /\ UNCHANGED <<m, V, seen>>

Pure == l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED <<m, V, seen>>
Loop == /\ Pure
        /\ \/ ev.op = "LElems" /\ ev.v = ElementLoop(ev.s, ev.e)
           \/ ev.op \in {"LChunks", "LArr"} /\ ev.v = ChunkLoop(ev.s, ev.e, ev.c)
           \/ ev.op = "LOver" /\ BoxesOk(ev.as, ev.ash, ev.bs, ev.bsh, ev.r, ev.v)
           \/ ev.op = "LCont" /\ ev.r = IF InBox(ev.s, VAdd(ev.s, ev.sh), ev.x) THEN 1 ELSE 0
           \/ ev.op = "LEmpty" /\ ev.r = IF EmptyBox(ev.s, ev.e) THEN 1 ELSE 0
Quad == Pure /\ ev.op = "QSplit" /\ Len(ev.v) = ev.n /\ \A i \in 1..ev.n : ev.v[i] = TrapezoidWeight(i, ev.n)
Npy == Pure /\ ev.op = "DNpy" /\ FileOk(ev.b, ev.digits, ev.count, ev.words)
Vec == Pure /\ ev.op = "VOp" /\ VecOk(ev)
Nam == Pure /\ ev.op = "VName" /\ NameOk(ev)
\* interpolation: ev.p = the two outer positions, ev.q, ev.d: inner start and step, in sixteenths; results times 4096
AtPoint(k, c) == LET g == [N |-> ev.sh, bd |-> 0, zb |-> 0, co |-> ev.co, m |-> ev.m]
              IN GF!Value(g, ev.kern, c, << ev.p[1], ev.p[2], ev.q + k * ev.d >>)
Interp == /\ Pure /\ ev.op = "DInterp" /\ Len(ev.v) = ev.n * ev.vd
          /\ \A k \in 0..(ev.n - 1), c \in 1..ev.vd : GF!Abs(2 * ev.v[k * ev.vd + c] - AtPoint(k, c)) <= ev.tol
\* the same points (key), requested in other batches: the same values up to rounding
IDiff == /\ Is("DIDiff") /\ Len(ev.v) = ev.n /\ UNCHANGED <<m, V>>
         /\ ev.key \in DOMAIN seen => \A k \in 1..ev.n : GF!Abs(seen[ev.key][k] - ev.v[k]) <= ev.tol
         /\ seen' = IF ev.key \in DOMAIN seen THEN seen ELSE Set(seen, ev.key, ev.v)

Next == \/ Reset \/ Start \/ ANew \/ ACopy \/ AAssign \/ AAll \/ AFill \/ AFrom \/ ACol \/ AResize \/ AClear \/ ASet \/ AMove
        \/ AView \/ ADrop \/ AApp \/ ASwap \/ AAdd \/ ALoop \/ ASeq \/ ANull \/ ANullAt \/ AHas \/ AMeta \/ AConcat \/ ADown \/ ADownSh
        \/ Loop \/ Quad \/ Npy \/ Vec \/ Nam \/ Interp \/ IDiff
Spec == Init /\ [][Next]_vars
Accepted == LET n == TLCGet("stats").diameter - 1 IN
            IF n = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED-AT", n + 1>>) /\ FALSE
=============================================================================
