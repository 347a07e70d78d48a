------------------------------ MODULE Printing ------------------------------
(***************************************************************************)
(* What a printed matrix and a printed image look like.                    *)
(*                                                                         *)
(* A matrix is printed as an empty line and one line per row; a line shows *)
(* each layer's part of the row in brackets, followed by three blanks; an  *)
(* entry is a sign or a blank and the magnitude, right aligned in four     *)
(* columns (whole numbers) or seven columns with two decimals.             *)
(* An image is printed as one line per row with a colour code per pixel;   *)
(* where all elements are the brightest there is, all of it is white.      *)
(***************************************************************************)
EXTENDS MatrixStore

IsFloating(t) == t \in {"dbl", "flt"}
RECURSIVE Blanks(_)
Blanks(n) == IF n <= 0 THEN "" ELSE " " \o Blanks(n - 1)
RightIn(w, s) == Blanks(w - Len(s)) \o s

\* |x| in hundredths, ties to even
Hundredths(x) ==
    LET a == Abs(x) * 100
        q == a \div sc
        r == a % sc
    IN  IF 2 * r > sc \/ (2 * r = sc /\ q % 2 = 1) THEN q + 1 ELSE q
TwoDigits(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Decimals(x) == LET h == Hundredths(x) IN ToString(h \div 100) \o "." \o TwoDigits(h % 100)
\* the most negative integer has a magnitude which is not a 32-bit integer
Magnitude(x) == IF x < -2147483647 THEN "2147483648" ELSE ToString(Abs(x) \div sc)
EntryText(t, x) == (IF x < 0 THEN "-" ELSE " ")
               \o (IF IsFloating(t) THEN RightIn(7, Decimals(x)) ELSE RightIn(4, Magnitude(x)))

RECURSIVE Entries(_, _, _, _)
Entries(m, i, j, k) ==
    IF j >= m.d[2] THEN ""
    ELSE EntryText(m.t, At(m, i, j, k)) \o (IF j = m.d[2] - 1 THEN "]" ELSE ",") \o Entries(m, i, j + 1, k)
RECURSIVE Groups(_, _, _)
Groups(m, i, k) == IF k >= m.d[3] THEN "" ELSE "[" \o Entries(m, i, 0, k) \o "   " \o Groups(m, i, k + 1)
Text(m) == << "" >> \o [i \in 1..m.d[1] |-> Groups(m, i - 1, 0)]

\* the text, and that no number format was changed for good
PrintMatrix(a) ==
    LET m == Eval(a)
    IN  IF IsErr(m) THEN Refuse(m.e) ELSE Return(<< Text(m), 1 >>)

-----------------------------------------------------------------------------
\* Pixels: grey from the smallest element (black) to the largest, or to 255 for whole numbers;
\* three layers are red, green and blue, from 0 to the largest
Top(m) == IF IsFloating(m.t) THEN Max2(Maximum(m), sc) ELSE 255 * sc
Close(code, num, den) == code >= 0 /\ code <= 255 /\ Abs(code * den - 255 * num) <= 2 * den
PixelOk(m, i, j, c) ==
    /\ Len(c) = 3
    /\ IF m.d[3] = 3
       THEN \A k \in 1..3 : Close(c[k], At(m, i, j, k - 1), Top(m))
       ELSE /\ c[1] = c[2] /\ c[2] = c[3]
            /\ IF Top(m) = Minimum(m) THEN c[1] = 255
               ELSE Close(c[1], At(m, i, j, 0) - Minimum(m), Top(m) - Minimum(m))
ImageWithin(a, seen) ==
    LET m == TLCEval(Eval(a))
    IN  /\ Len(seen) = m.d[1]
        /\ \A i \in 1..m.d[1] : /\ Len(seen[i]) = m.d[2]
                                /\ \A j \in 1..m.d[2] : PixelOk(m, i - 1, j - 1, seen[i][j])
        /\ Return(seen)
=============================================================================
