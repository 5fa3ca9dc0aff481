-------------------------------- MODULE Numpy --------------------------------
(***************************************************************************)
(* Layout of a NumPy file (format version 1.0) holding an array of big-    *)
(* endian 32 bit floating point numbers:                                   *)
(*   93 "NUMPY" 1 0, length of the header (2 bytes, low byte first), the   *)
(*   header (a dictionary, blanks, end of line), the elements.             *)
(* The elements start at a multiple of 64 bytes.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences

Magic == << 147, 78, 85, 77, 80, 89, 1, 0 >>
\* {'descr': '>f4', 'fortran_order': False, 'shape': (
DictHead == << 123, 39, 100, 101, 115, 99, 114, 39, 58, 32, 39, 62, 102, 52, 39, 44, 32,
               39, 102, 111, 114, 116, 114, 97, 110, 95, 111, 114, 100, 101, 114, 39, 58, 32, 70, 97, 108, 115, 101, 44, 32,
               39, 115, 104, 97, 112, 101, 39, 58, 32, 40 >>
DictTail == << 41, 44, 32, 125 >>     \* ), }
RECURSIVE ShapeText(_, _)
ShapeText(digits, k) == [i \in DOMAIN digits[k] |-> digits[k][i] + 48] \o
                        (IF k = Len(digits) THEN <<>> ELSE << 44, 32 >> \o ShapeText(digits, k + 1))
\* digits: decimal digits of the extents and of the vector length; count: number of words; words: the four bytes of word k
\* of the array are those of the 32 bit number words.m * (k - 1) + words.c, all given as byte sequences: see Byte
\* word k (from 0) has the bytes of m * k + c; m and c are given as four bytes each, high byte first
Word(mb, cb, k) ==
  LET b4 == mb[4] * k + cb[4]
      b3 == mb[3] * k + cb[3] + (b4 \div 256)
      b2 == mb[2] * k + cb[2] + (b3 \div 256)
      b1 == mb[1] * k + cb[1] + (b2 \div 256)
  IN << b1 % 256, b2 % 256, b3 % 256, b4 % 256 >>
FileOk(b, digits, count, words) ==
  LET dict == DictHead \o ShapeText(digits, 1) \o DictTail
      hl == b[9] + 256 * b[10]
      n == 10 + hl
  IN /\ Len(b) >= 10 /\ SubSeq(b, 1, 8) = Magic
     /\ n <= Len(b)
     /\ n % 64 = 0
     /\ hl >= Len(dict) + 1
     /\ \A k \in DOMAIN dict : b[10 + k] = dict[k]
     /\ \A k \in (Len(dict) + 1)..(hl - 1) : b[10 + k] = 32
     /\ b[n] = 10
     /\ Len(b) = n + 4 * count
     /\ \A k \in 0..(count - 1) : LET w == Word(words.m, words.c, k) IN
          b[n + 4 * k + 1] = w[1] /\ b[n + 4 * k + 2] = w[2] /\ b[n + 4 * k + 3] = w[3] /\ b[n + 4 * k + 4] = w[4]
=============================================================================
