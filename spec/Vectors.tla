------------------------------- MODULE Vectors -------------------------------
(***************************************************************************)
(* Vectors of fixed length, componentwise.  ev.ty: 0 int, 1 unsigned, 2    *)
(* single, 3 double precision, 4 (int, unsigned), 5 (unsigned, int);       *)
(* floating point numbers travel times 8 (products and quotients times 64).*)
(***************************************************************************)
EXTENDS Integers, Sequences

IsFloat(ty) == ty \in {2, 3}
LowerOf(x, y) == IF x < y THEN x ELSE y
UpperOf(x, y) == IF x < y THEN y ELSE x
\* C++ integer division truncates
TruncDiv(x, y) == LET q == (IF x < 0 THEN -x ELSE x) \div (IF y < 0 THEN -y ELSE y) IN IF (x < 0) = (y < 0) THEN q ELSE -q
\* quotients of floating point numbers are generated exact to 1/64
Quot(ty, x, y) == IF IsFloat(ty) THEN TruncDiv(64 * x, y) ELSE TruncDiv(x, y)
CeilDiv8(x) == (x + 7) \div 8

RECURSIVE InnerFrom(_, _, _)
InnerFrom(a, b, i) == IF i > Len(a) THEN 0 ELSE a[i] * b[i] + InnerFrom(a, b, i + 1)
B(p) == IF p THEN << 1 >> ELSE << 0 >>

\* result of function f on a, b, k; a and b as they are afterwards
Result(ty, f, a, b, k) ==
  LET each(g(_, _)) == [i \in DOMAIN a |-> g(a[i], b[i])]
      with(g(_, _)) == [i \in DOMAIN a |-> g(a[i], k)]
      n == Len(a)
      u == IF IsFloat(ty) THEN 8 ELSE 1
  IN CASE f \in {"add", "iadd"} -> each(LAMBDA x, y : x + y)
       [] f \in {"sub", "isub"} -> each(LAMBDA x, y : x - y)
       [] f \in {"mul", "imul"} -> each(LAMBDA x, y : x * y)
       [] f \in {"div", "idiv"} -> each(LAMBDA x, y : Quot(ty, x, y))
       [] f \in {"adds", "iadds"} -> with(LAMBDA x, y : x + y)
       [] f \in {"subs", "isubs"} -> with(LAMBDA x, y : x - y)
       [] f \in {"muls", "imuls"} -> with(LAMBDA x, y : x * y)
       [] f \in {"divs", "idivs"} -> with(LAMBDA x, y : Quot(ty, x, y))
       [] f = "eq" -> B(a = b)
       [] f = "ne" -> B(a # b)
       [] f = "ge" -> B(\A i \in DOMAIN a : a[i] >= b[i])
       [] f = "min" -> each(LowerOf)
       [] f = "max" -> each(UpperOf)
       [] f = "mins" -> with(LowerOf)
       [] f = "maxs" -> with(UpperOf)
       [] f = "ceil" -> [i \in DOMAIN a |-> CeilDiv8(a[i])]
       [] f = "floor" -> [i \in DOMAIN a |-> a[i] \div 8]
       [] f = "ceilnext" -> [i \in DOMAIN a |-> a[i] \div 8 + 1]
       [] f = "floorprev" -> [i \in DOMAIN a |-> CeilDiv8(a[i]) - 1]
       [] f = "inner" -> << InnerFrom(a, b, 1) >>
       [] f \in {"int", "size"} -> [i \in DOMAIN a |-> TruncDiv(a[i], u)]
       [] f = "float" -> [i \in DOMAIN a |-> IF IsFloat(ty) THEN a[i] ELSE 8 * a[i]]
       [] f \in {"copy", "move", "assign"} -> each(LAMBDA x, y : x + y)
       [] f = "zero" -> [i \in DOMAIN a |-> 0]
       [] f \in {"const", "fill"} -> [i \in DOMAIN a |-> k]
       [] f = "at" -> a \o << 2 >>                      \* two accesses behind the end are refused
       [] f = "setat" -> [[a EXCEPT ![1] = k] EXCEPT ![n] = b[1]]
       [] f = "begin" -> a \o a
       [] f = "viewset" -> << k >> \o b \o << k >> \o a
       [] f = "viewown" -> [a EXCEPT ![n] = k]
       [] f = "selfadds" -> [i \in DOMAIN a |-> a[i] + a[1]]
       [] f = "selfsubs" -> [i \in DOMAIN a |-> a[i] - a[1]]
       [] f = "selfmuls" -> [i \in DOMAIN a |-> a[i] * a[1]]
       [] f = "selfadd" -> [i \in DOMAIN a |-> a[i] + a[i]]
       [] f = "selfcopy" -> a
       [] f = "null" -> B(\A i \in DOMAIN a : a[i] = 0)
\* operand a afterwards
Left(ty, f, a, b, k) ==
  IF f \in {"setat", "viewown", "iadd", "isub", "iadds", "isubs"} THEN Result(ty, f, a, b, k)
  ELSE IF f \in {"imul", "imuls"} /\ ~IsFloat(ty) THEN Result(ty, f, a, b, k)
  ELSE IF f \in {"idiv", "idivs"} /\ ~IsFloat(ty) THEN Result(ty, f, a, b, k)
  ELSE a
\* products and quotients of floating point numbers do not fit into eighths: operand a is not compared then
Blind(ty, f) == IsFloat(ty) /\ f \in {"imul", "imuls", "idiv", "idivs"}
VecOk(e) == /\ e.v = Result(e.ty, e.f, e.x, e.y, e.k)
            /\ Blind(e.ty, e.f) \/ e.a = Left(e.ty, e.f, e.x, e.y, e.k)
            /\ e.b = e.y

\* named coordinates, see the driver for the sequence of accesses; x: four numbers
NameResult(f, x) ==
  CASE f = "rz" -> << x[1], x[2], x[1], x[2], x[1], x[2], x[4], x[3], x[2], x[3] >>
    [] f = "zr" -> << x[2], x[1], x[2], x[1], x[2], x[1], x[3], x[4], x[3], x[2] >>
    [] f = "rzt" -> << x[1], x[2], x[3], x[1], x[2], x[3], x[1], x[2], x[1], x[2], x[1], x[1], x[4], x[3], x[4], x[2], x[1], x[1], x[4] >>
    [] f = "tzr" -> << x[3], x[2], x[1], x[3], x[2], x[1], x[2], x[3], x[3], x[2], x[4], x[1], x[3], x[2], x[3], x[4], x[2], x[3] >>
    [] f = "xyz" -> << x[1], x[2], x[3], x[1], x[2], x[3], x[4], x[1], x[2] >>
    [] f = "xyzt" -> << x[1], x[2], x[3], x[4], x[1], x[2], x[3], x[4], x[4], x[3], x[2], x[1] >>
NameOk(e) == e.v = NameResult(e.f, e.x)
=============================================================================
