----------------------------- MODULE MC_LeastSq ------------------------------
(* Data arrive row by row; the state carries the moments only (recursive least squares). *)
(* In every state the exact rational minimiser follows from the moments and beats every  *)
(* competitor on a grid.                                                                  *)
EXTENDS LeastSq, TLC, Json
CONSTANTS MaxM, Vals, Bvals, Lams
VARIABLES N, lam, A, b, G, c, s
ValsQ == {-1, 0, 2}
BvalsQ == {-2, 1, 3}
LamsQ == {0, 1, 3}
Init == /\ N \in 1..2 /\ lam \in Lams /\ A = <<>> /\ b = <<>> /\ s = 0
        /\ G = [i \in 1..N |-> [j \in 1..N |-> 0]] /\ c = [i \in 1..N |-> 0]
Row == \E a \in [1..N -> Vals] : \E v \in Bvals :
        /\ A' = Append(A, a) /\ b' = Append(b, v) /\ s' = s + v * v
        /\ G' = [i \in 1..N |-> [j \in 1..N |-> G[i][j] + a[i] * a[j]]]
        /\ c' = [i \in 1..N |-> c[i] + a[i] * v]
        /\ UNCHANGED <<N, lam>>
Next == Len(A) < MaxM /\ Row
M == Len(A)
Gl == [i \in 1..N |-> [j \in 1..N |-> G[i][j] + (IF i = j THEN lam ELSE 0)]]
Det == IF N = 1 THEN Gl[1][1] ELSE Gl[1][1] * Gl[2][2] - Gl[1][2] * Gl[2][1]
(* minimiser = Num / Det *)
Num == IF N = 1 THEN <<c[1]>> ELSE << Gl[2][2] * c[1] - Gl[1][2] * c[2], Gl[1][1] * c[2] - Gl[2][1] * c[1] >>
(* objective at w / d, times d^2 *)
Obj(w, d) == Sum([m \in 1..M |-> Sq(Dot(A[m], w) - d * b[m])]) + lam * Dot(w, w)
Ssr(w, d) == Sum([m \in 1..M |-> Sq(Dot(A[m], w) - d * b[m])])
(* the same from the moments *)
FromMoments == \A w \in [1..N -> {-1, 2}] : Ssr(w, 1) = s - 2 * Dot(c, w) + Dot(w, [i \in 1..N |-> Dot(G[i], w)])
Grid == [1..N -> -4..4]
(* competitors in halves: obj(Num/Det) <= obj(w/2)  <=>  4 Obj(Num, Det) <= Det^2 Obj(w, 2) *)
RidgeBest == (M > 0 /\ Det # 0) => \A w \in Grid : 4 * Obj(Num, Det) <= Det * Det * Obj(w, 2)
NormalEq == Det # 0 => \A i \in 1..N : Dot(Gl[i], Num) = Det * c[i]
(* lasso with orthogonal columns: soft threshold of each correlation, w_j = LNum[j] / G[j][j] *)
Orth == M > 0 /\ (N = 1 \/ G[1][2] = 0) /\ \A i \in 1..N : G[i][i] # 0
LNum == [i \in 1..N |-> Sign(c[i]) * Max2(0, Abs(c[i]) - lam * M)]
LDet == IF N = 1 THEN G[1][1] ELSE G[1][1] * G[2][2]
LW == IF N = 1 THEN LNum ELSE << LNum[1] * G[2][2], LNum[2] * G[1][1] >>
LObj(w, d) == Ssr(w, d) + 2 * M * lam * d * Sum([i \in 1..N |-> Abs(w[i])])
LassoBest == Orth => \A w \in Grid : 4 * LObj(LW, LDet) <= LDet * LDet * LObj(w, 2)
Emit == (M = MaxM /\ Det # 0) =>
   PrintT("@@" \o ToJson([A |-> A, b |-> b, lam |-> lam, num |-> Num, det |-> Det, ssr |-> Ssr(Num, Det),
                          orth |-> IF Orth THEN 1 ELSE 0, lnum |-> LW, ldet |-> LDet, lssr |-> Ssr(LW, LDet)]))
==============================================================================
