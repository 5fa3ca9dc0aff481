--------------------------------- MODULE Wire ---------------------------------
(***************************************************************************)
(* The byte representation of values in files.  A value is a term:         *)
(*   [k |-> "w", w]        fixed-size numbers, as 32-bit words             *)
(*                         (64-bit numbers: high word, low word)           *)
(*   [k |-> "s", b]        a string of bytes                               *)
(*   [k |-> "n", w]        a vector of one-word numbers                    *)
(*   [k |-> "v", x]        a vector of values                              *)
(*   [k |-> "a", x]        values one after the other                      *)
(*   [k |-> "m", kk, vv]   a map: its keys (ascending) and its values      *)
(* Words are big-endian, sizes are 64-bit numbers in front of the contents.*)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

ByteOf(w, i) == (w \div (IF i = 0 THEN 16777216 ELSE IF i = 1 THEN 65536 ELSE IF i = 2 THEN 256 ELSE 1)) % 256
WordBytes(ws) == [k \in 1..(4 * Len(ws)) |-> ByteOf(ws[((k - 1) \div 4) + 1], (k - 1) % 4)]
SizeBytes(n) == WordBytes(<<0, n>>)
CatOf(Op(_), q) == FoldLeft(LAMBDA a, x : a \o Op(x), <<>>, q)

RECURSIVE Bytes(_)
Bytes(t) ==
  CASE t.k = "w" -> WordBytes(t.w)
    [] t.k = "s" -> SizeBytes(Len(t.b)) \o t.b
    [] t.k = "n" -> SizeBytes(Len(t.w)) \o WordBytes(t.w)
    [] t.k = "v" -> SizeBytes(Len(t.x)) \o CatOf(Bytes, t.x)
    [] t.k = "a" -> CatOf(Bytes, t.x)
    [] t.k = "m" -> SizeBytes(Len(t.kk)) \o CatOf(Bytes, t.kk) \o SizeBytes(Len(t.vv)) \o CatOf(Bytes, t.vv)

\* the same value as the driver lists it
RECURSIVE Toks(_)
Toks(t) ==
  CASE t.k = "w" -> t.w
    [] t.k = "s" -> <<Len(t.b)>> \o t.b
    [] t.k = "n" -> <<Len(t.w)>> \o t.w
    [] t.k = "v" -> <<Len(t.x)>> \o CatOf(Toks, t.x)
    [] t.k = "a" -> CatOf(Toks, t.x)
    [] t.k = "m" -> <<Len(t.kk)>> \o FoldLeft(LAMBDA a, i : a \o Toks(t.kk[i]) \o Toks(t.vv[i]), <<>>, [i \in DOMAIN t.kk |-> i])

\* a file may hold the entries of a map in any order
SameValue(t, u) == t = u \/ (t.k = "m" /\ u.k = "m" /\ Len(t.kk) = Len(u.kk)
                             /\ { <<t.kk[i], t.vv[i]>> : i \in DOMAIN t.kk } = { <<u.kk[i], u.vv[i]>> : i \in DOMAIN u.kk })
=============================================================================
