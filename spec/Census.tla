------------------------------- MODULE Census -------------------------------
(* The census (C08): for a field F_q of odd order, a degree d and a count   *)
(* exponent e, the table which lists for each ramification type and offsets *)
(* over F_{q^k}, k <= e, the number of square-free polynomials of degree d  *)
(* over F_q with these invariants. Every polynomial is examined.            *)
(*                                                                          *)
(* The factor c^2 of a right hand side does not change the curve: unless    *)
(* ALL is set, only leading coefficients 1 and a fixed non-square are       *)
(* examined, each standing for (q-1)/2 many.                                *)
(*                                                                          *)
EXTENDS HyperCurve, Json, IOUtils, TLCExt

Num(s) == atoi(s)
P == Num(IOEnv.P)   N == Num(IOEnv.N)   D == Num(IOEnv.D)   E == Num(IOEnv.E)
All == IOEnv.ALL = "1"

Q == Pow(P, N)
F1 == TLCEval(BuildField(P, N))
Ks == 1..E
Fs == TLCEval([k \in Ks |-> BuildField(P, N * k)])

EPow(F, a, k) == IF k = 0 THEN One(F) ELSE IF a = Zero(F) THEN a ELSE (a * k) % (F.q - 1)
\* a root in F of the polynomial whose root generates F_q
Theta(F) == CHOOSE x \in Elements(F) :
              LET c == PrimPoly(P, N)
              IN  FoldLeft(LAMBDA acc, i : Add(F, acc, Mul(F, OfInt(F, c[i]), EPow(F, x, i-1))),
                           EPow(F, x, N), [i \in 1..N |-> i]) = Zero(F)
\* element of F_q (exponent e, at index e+1) as element of the extension
Emb == TLCEval([k \in Ks |-> LET F == Fs[k]  th == TLCEval(Theta(F))
                             IN  TLCEval([e \in 1..Q |-> IF e = Q THEN Zero(F) ELSE EPow(F, th, e-1)])])
EmbeddingOK == \A k \in Ks : \A a, b \in Elements(F1) :
                 /\ Emb[k][Add(F1, a, b) + 1] = Add(Fs[k], Emb[k][a+1], Emb[k][b+1])
                 /\ Emb[k][Mul(F1, a, b) + 1] = Mul(Fs[k], Emb[k][a+1], Emb[k][b+1])
ASSUME Q <= 27 => EmbeddingOK

\* the monic polynomial number i
Monic(i) == TLCEval([j \in 1..(D+1) |-> IF j = D+1 THEN One(F1) ELSE (i \div Pow(Q, j-1)) % Q])

Leads == IF All THEN Units(F1) ELSE {0, 1}
Weight == IF All THEN 1 ELSE (Q - 1) \div 2

\* keys of the curves c f, c in Leads
Keys(f) ==
  LET ram == Ramification(F1, f)
      val == TLCEval([k \in Ks |-> LET F == Fs[k]  h == TLCEval([j \in 1..Len(f) |-> Emb[k][f[j] + 1]])
                                   IN  TLCEval([x \in 1..F.q |-> Eval(F, h, x - 1)])])
      pts(c, k) == LET F == Fs[k]  l == Emb[k][c + 1]  v == val[k]
                   IN  \* infinity
                       (IF D % 2 = 1 THEN 1 ELSE IF IsSquare(F, l) THEN 2 ELSE 0)
                       + Cardinality({x \in 1..F.q : v[x] = Zero(F)})
                       + 2 * Cardinality({x \in 1..F.q : IsSquare(F, Mul(F, l, v[x]))})
      key(c) == <<ram, TLCEval([k \in Ks |-> Fs[k].q + 1 - pts(c, k)])>>
  IN  TLCEval([i \in 1..(IF All THEN Q-1 ELSE 2) |-> key(i-1)])

Chunk == 50
NChunks == (Pow(Q, D) + Chunk - 1) \div Chunk
Lines(i) == FoldLeft(LAMBDA acc, m : LET f == Monic(m) IN IF SquareFree(F1, f) THEN acc \o Keys(f) ELSE acc,
                     <<>>, [j \in 1..(IF (i+1)*Chunk > Pow(Q, D) THEN Pow(Q, D) - i*Chunk ELSE Chunk) |-> i*Chunk + j - 1])
Table(s) == LET K == {s[i] : i \in 1..Len(s)}
            IN  TLCEval([k \in K |-> Weight * Cardinality({i \in 1..Len(s) : s[i] = k})])
Sum(T, U) == TLCEval([k \in DOMAIN T \cup DOMAIN U |-> (IF k \in DOMAIN T THEN T[k] ELSE 0) + (IF k \in DOMAIN U THEN U[k] ELSE 0)])
None == [k \in {} |-> 0]

(* Strands of behaviours share the chunks; each adds up its part of the     *)
(* table and writes it down at the end. The parts are put together in       *)
(* CensusTrace (which also checks their total).                             *)
VARIABLES strand, chunk, acc
vars == <<strand, chunk, acc>>
Strands == IF NChunks < 32 THEN NChunks ELSE 32
Init == strand \in 1..Strands /\ chunk = strand - 1 /\ acc = None
Next == /\ chunk < NChunks
        /\ acc' = Sum(acc, Table(Lines(chunk))) /\ chunk' = chunk + Strands /\ UNCHANGED strand
Spec == Init /\ [][Next]_vars
AsLines(T) == LET s == SetToSeq(DOMAIN T) IN TLCEval([i \in 1..Len(s) |-> <<s[i][1], s[i][2], T[s[i]]>>])
Written == chunk >= NChunks => JsonSerialize(IOEnv.OUT \o "." \o ToString(strand), AsLines(acc))
=============================================================================
