-------------------------------- MODULE Dims --------------------------------
(***************************************************************************)
(* Shapes and indices: tuples of n integers in registers, and iterators    *)
(* that go through the indices of a shape in storage order.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

VARIABLES n,        \* how many numbers a tuple has
          reg,      \* register -> tuple, or << >> where its contents are not known
          its,      \* iterator -> [dim, idx]
          res       \* result of the last operation
dvars == << n, reg, its, res >>

Zeros(k)   == [i \in 1..k |-> 0]
Plus(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
Minus(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
RECURSIVE Product(_, _)
Product(a, k) == IF k = 0 THEN 1 ELSE a[k] * Product(a, k - 1)
Count(a) == Product(a, Len(a))
\* position of index i in a shape d: the first number runs fastest
RECURSIVE FlatFrom(_, _, _)
FlatFrom(d, i, k) == IF k = 0 THEN 0 ELSE FlatFrom(d, i, k - 1) + i[k] * Product(d, k - 1)
FlatOf(d, i) == FlatFrom(d, i, Len(d))

\* the index after i; after the last one comes the first index of a further last layer
RECURSIVE After(_, _, _)
After(d, i, k) ==
    IF k = Len(d) \/ i[k] + 1 < d[k]
    THEN [j \in 1..Len(d) |-> IF j < k THEN 0 ELSE IF j = k THEN i[j] + 1 ELSE i[j]]
    ELSE After(d, i, k + 1)
Succ(d, i) == After(d, i, 1)
EndOf(d) == [j \in 1..Len(d) |-> IF j = Len(d) THEN d[j] ELSE 0]

DimsInit == n = 3 /\ reg = <<>> /\ its = <<>> /\ res = <<>>
Start(k, many) == n' = k /\ reg' = [i \in 1..many |-> Zeros(k)] /\ its' = [i \in 1..2 |-> [dim |-> Zeros(k), idx |-> Zeros(k)]] /\ res' = <<>>
SetReg(k, v)   == reg' = [reg EXCEPT ![k] = v] /\ res' = <<>> /\ UNCHANGED << n, its >>
Say(r)         == res' = r /\ UNCHANGED << n, reg, its >>

\* numbers that are not given are zero
Make(k, vals)  == SetReg(k, [i \in 1..n |-> IF i <= Len(vals) THEN vals[i] ELSE 0])
Fill(k, x)     == SetReg(k, [i \in 1..n |-> x])
Copy(k, j)     == SetReg(k, reg[j])
\* what is moved from is not looked at before it is given a new value
Move(k, j)     == reg' = [reg EXCEPT ![k] = reg[j], ![j] = <<>>] /\ res' = <<>> /\ UNCHANGED << n, its >>
Put(k, a, x)   == SetReg(k, [reg[k] EXCEPT ![a] = x])
Add(k, i, j)   == SetReg(k, Plus(reg[i], reg[j]))
Subtract(k, i, j) == SetReg(k, Minus(reg[i], reg[j]))
Compare(i, j)  == Say(IF reg[i] = reg[j] THEN << 1, 0 >> ELSE << 0, 1 >>)
SizeOf(i)      == Say(<< Count(reg[i]) >>)
FlatIdx(i, j)  == Say(<< FlatOf(reg[i], reg[j]) >>)
RECURSIVE Listed(_, _)
Listed(a, k)   == IF k = Len(a) THEN ToString(a[k]) \o ")" ELSE ToString(a[k]) \o ", " \o Listed(a, k + 1)
Show(i)        == Say(<< "(" \o Listed(reg[i], 1) >>)

Iterate(w, i, j) == its' = [its EXCEPT ![w] = [dim |-> reg[i], idx |-> reg[j]]] /\ res' = <<>> /\ UNCHANGED << n, reg >>
\* both forms of the increment; post = 1 tells where it was
Step(w, post)  == LET i == its[w] IN
                  /\ its' = [its EXCEPT ![w].idx = Succ(i.dim, i.idx)]
                  /\ res' = IF post = 1 THEN i.idx ELSE Succ(i.dim, i.idx)
                  /\ UNCHANGED << n, reg >>
Same           == Say(<< IF its[1] = its[2] THEN 1 ELSE 0 >>)
RECURSIVE Visited(_, _, _)
Visited(d, i, left) == IF left = 0 THEN << i >> ELSE << i >> \o Visited(d, Succ(d, i), left - 1)
\* all indices from the first on, and where that ends
Walk(i)        == Say(Visited(reg[i], Zeros(n), Count(reg[i])))

(* Sizes and positions beyond 2^31: numbers in base 4096, the lowest digit first *)
Digits == 6
Digit(x, k) == CASE k = 1 -> x % 4096 [] k = 2 -> (x \div 4096) % 4096 [] k = 3 -> x \div 16777216 [] OTHER -> 0
Big(x) == [k \in 1..Digits |-> Digit(x, k)]
RECURSIVE Carried(_, _, _)
Carried(a, k, c) == IF k > Digits THEN a ELSE Carried([a EXCEPT ![k] = (a[k] + c) % 4096], k + 1, (a[k] + c) \div 4096)
RECURSIVE Cross(_, _, _, _)
Cross(a, b, k, i) == IF i = 0 THEN 0 ELSE a[i] * b[k - i + 1] + Cross(a, b, k, i - 1)
BigTimes(a, b) == Carried([k \in 1..Digits |-> Cross(a, b, k, k)], 1, 0)
BigPlus(a, b)  == Carried([k \in 1..Digits |-> a[k] + b[k]], 1, 0)
RECURSIVE BigProduct(_, _)
BigProduct(a, k) == IF k = 0 THEN Big(1) ELSE BigTimes(BigProduct(a, k - 1), Big(a[k]))
RECURSIVE BigFlat(_, _, _)
BigFlat(d, i, k) == IF k = 0 THEN Big(0) ELSE BigPlus(BigFlat(d, i, k - 1), BigTimes(Big(i[k]), BigProduct(d, k - 1)))
BigSizeOf(i)   == Say(BigProduct(reg[i], n))
BigFlatIdx(i, j) == Say(BigFlat(reg[i], reg[j], n))
=============================================================================
