------------------------------ MODULE GenMesh -------------------------------
(* Catalogues of meshes shared by the generators.                             *)
EXTENDS GenLib
Limits == << <<"0", "1">>, <<"-1", "1">>, <<"-1/3", "2/7">>, <<"1000000", "1000001">>, <<"1/1000000", "3/1000000">>,
             <<"-250", "-100">>, <<"-1/2", "1000">>, <<"0", "6283/1000">>, <<"5", "8">>, <<"-1000003/10", "-1000001/10">>,
             <<"-3", "0">> >>
\* moderate limits, for the numerically sensitive layers
MildLimits == << <<"0", "1">>, <<"-1", "1">>, <<"-1/3", "2/7">>, <<"5", "8">>, <<"-3", "0">>, <<"0", "6283/1000">>, <<"-5/2", "-1/4">>, <<"10", "1001/100">> >>
CellCounts == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 23, 25, 33, 40, 50, 65>>
BdCounts == <<4, 5, 6, 7, 8, 11, 12, 40, 41, 42, 43, 100, 101, 202, 399, 400, 603, 1002>>
\* rows x columns of an external mesh
Dims == << <<1, 1>>, <<2, 1>>, <<1, 3>>, <<2, 2>>, <<3, 2>>, <<4, 3>>, <<5, 5>>, <<3, 7>>, <<8, 4>> >>
\* affine images (A + B u + C v) / D, (a + b u + c v) / D in tenths of the lattice
Affines == << <<0, 10, 0, 0, 0, 10, 100>>, <<-30, 7, 3, 20, -2, 9, 50>>, <<5000, 6, -8, -4000, 8, 6, 100>>, <<1, -9, 2, 2, 1, 11, 30>>,
              <<-100000, 1, 0, 100000, 0, 40, 1000>>, <<3, 2, 1, -7, 1, 3, 100000>>, <<0, 300, 0, 0, 0, 1, 10>>, <<12, 0, -10, -7, 10, 0, 70>> >>
TagSets == << <<1000, 1001, 1002, 1003>>, <<1, 2, 3, 4>>, <<7, 7, 7, 7>>, <<0, 5, 0, 9>>, <<30, 2, 100, 1>>, <<2, 1, 2, 1>>, <<40000, 1000, 66536, 2000000000>> >>
\* vertex (i,j) of an m x n lattice, jittered, under an affine map
Jit(a, s, amp, i, j, c) == IF amp = 0 THEN 0 ELSE (Hash(a * 40 + i, s * 60 + j, c) % (2 * amp + 1)) - amp
\* amp = -1, -2: parallelograms of different sizes; -1 in such a way that different shapes have equal areas
Ups == <<0, 10, 30, 70, 80, 100, 140, 160, 170, 180, 200, 220, 260, 300>>
Downs == <<0, 40, 60, 70, 110, 130, 140, 150, 190, 230, 250, 270, 280, 290>>
Grade(a, s, cat, i, c) == IF i < 14 THEN cat[i + 1] ELSE 300 + 10 * (i - 13)
Uneven(a, s, i, c) == 10 * i + (Hash(a * 40 + i, s, c) % 7)
\* amp = -3, -4: very slightly distorted (a thousandth, a hundredth of the usual distortion)
Fine(amp) == IF amp = -3 THEN 1000 ELSE IF amp = -4 THEN 100 ELSE 1
VtxU(a, s, amp, i, j) == IF amp <= -3 THEN 10 * Fine(amp) * i + Jit(a, s, 3, i, j, 31) ELSE IF amp = -1 THEN Grade(a, s, Ups, i, 31) ELSE IF amp = -2 THEN Uneven(a, s, i, 31) ELSE 10 * i + Jit(a, s, amp, i, j, 31)
VtxV(a, s, amp, i, j) == IF amp <= -3 THEN 10 * Fine(amp) * j + Jit(a, s, 3, i, j, 32) ELSE IF amp = -1 THEN Grade(a, s, Downs, j, 32) ELSE IF amp = -2 THEN Uneven(a, s, j, 32) ELSE 10 * j + Jit(a, s, amp, i, j, 32)
Vtx(a, s, amp, A, i, j) == <<QS(Fine(amp) * A[1] + A[2] * VtxU(a, s, amp, i, j) + A[3] * VtxV(a, s, amp, i, j), Fine(amp) * A[7]),
                             QS(Fine(amp) * A[4] + A[5] * VtxU(a, s, amp, i, j) + A[6] * VtxV(a, s, amp, i, j), Fine(amp) * A[7])>>
Rot(q, r, rev) == [i \in 1..4 |-> q[IF rev THEN ((r - i + 8) % 4) + 1 ELSE ((r + i) % 4) + 1]]
QuadAt(no, a, s, m, n, c, keep) == LET i == c \div n j == c % n
      q == <<no[i][j], no[i + 1][j], no[i + 1][j + 1], no[i][j + 1]>>
   IN IF keep THEN q ELSE Rot(q, Hash(a, s, c) % 4, Hash(a, s + 2, c) % 2 = 1)
\* boundary edge number e = 0 .. 2(m+n)-1 : bottom, right, top, left
BEdge(m, n, e) == IF e < m THEN <<1, e, 0, e + 1, 0>>
                  ELSE IF e < m + n THEN <<2, m, e - m, m, e - m + 1>>
                  ELSE IF e < 2 * m + n THEN <<3, e - m - n, n, e - m - n + 1, n>>
                  ELSE <<4, 0, e - 2 * m - n, 0, e - 2 * m - n + 1>>
EdgeAt(no, a, s, m, n, tags, many, e0) ==
   LET e == PermG(2 * (m + n), a, s + 3, e0)  b == BEdge(m, n, e)
       p == no[b[2]][b[3]] q == no[b[4]][b[5]]
       t == IF many THEN 100 + ((e * 7) % 23) ELSE tags[b[1]]
   IN IF Hash(a, s + 4, e) % 2 = 0 THEN <<p, q, t>> ELSE <<q, p, t>>
Orders == <<"VEQ", "VQE">>
\* the mesh file; amp = jitter in tenths, keep = list every cell counter-clockwise from its first corner
MeshFile(a, s, dims, amp, A, tags, many, order, dim, extra, keep) ==
   LET m == dims[1] n == dims[2] nv == (m + 1) * (n + 1)
       perm == TLCEval([v \in 0..(nv - 1) |-> PermG(nv, a, s + 1, v)])
       \* number (from 1) of vertex (i,j) in the file
       no == TLCEval([i \in 0..m |-> [j \in 0..n |-> perm[i * (n + 1) + j] + 1]])
       inv == TLCEval([v \in 1..nv |-> LET x == CHOOSE x \in 0..(nv - 1) : perm[x] = v - 1 IN <<x \div (n + 1), x % (n + 1)>>])
   IN [dim |-> dim, order |-> order,
       pts |-> [v \in 1..nv |-> Vtx(a, s, amp, A, inv[v][1], inv[v][2])] \o (IF extra THEN <<<<"1/7", "3/11">>>> ELSE <<>>),
       quads |-> [c \in 1..(m * n) |-> QuadAt(no, a, s, m, n, c - 1, keep)],
       edges |-> [e \in 1..(2 * (m + n)) |-> EdgeAt(no, a, s, m, n, tags, many, e - 1)]]
=============================================================================
