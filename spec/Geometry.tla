------------------------------- MODULE Geometry -------------------------------
(***************************************************************************)
(* Exact integer geometry of a cell, in coordinates relative to its point, *)
(* for points with integer coordinates in (0,S)^3.                         *)
(*                                                                         *)
(* A plane is <<nx, ny, nz, d, owner, m>>: the half-space n.x <= d, where  *)
(* x is TWICE the position relative to the point, so that the bisector     *)
(* towards v = q - p is <<v, |v|^2>> and the walls of the cube have        *)
(* d = 2p or 2(S-p).  owner is the index of q, or 0 for a wall.  m is the  *)
(* magnitude of the plane's offset from the origin of the cube (used only  *)
(* to bound the rounding of an implementation in single precision).        *)
(*                                                                         *)
(* A vertex is <<a, b, c, X, Y, Z, W, E, lo, hi, e1, e2, e3>>: the meeting *)
(* point of planes number a < b < c, homogeneous with W > 0; E bounds the  *)
(* magnitudes summed up when it is computed in floating point; lo and hi   *)
(* enclose F^2 times its squared distance from the point (times 4); e1..e3 *)
(* number its three edges, which are the pairs of its planes.              *)
(*                                                                         *)
(* TLC integers have 32 bits; the sign of n.X - dW is taken in two limbs.  *)
(***************************************************************************)
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN -x ELSE x
MaxOf(a, b) == IF a < b THEN b ELSE a
MinOf(a, b) == IF a < b THEN a ELSE b

Sq(x) == x * x

Dist2(p, q) == Sq(p[1] - q[1]) + Sq(p[2] - q[2]) + Sq(p[3] - q[3])

Wall(axis, up, p, S) ==
  LET s == IF up THEN 1 ELSE -1
  IN  << IF axis = 1 THEN s ELSE 0, IF axis = 2 THEN s ELSE 0,
         IF axis = 3 THEN s ELSE 0,
         IF up THEN 2 * (S - p[axis]) ELSE 2 * p[axis], 0,
         IF up THEN S ELSE 0 >>

\* 1: x low, 2: x high, 3: y low, 4: y high, 5: z low, 6: z high
Walls(p, S) == [ w \in 1..6 |-> Wall(((w - 1) \div 2) + 1, w % 2 = 0, p, S) ]

Bisector(p, q, j) ==
  LET vx == q[1] - p[1]
      vy == q[2] - p[2]
      vz == q[3] - p[3]
      sq == (Sq(q[1]) - Sq(p[1])) + (Sq(q[2]) - Sq(p[2])) + (Sq(q[3]) - Sq(p[3]))
  IN  << vx, vy, vz, vx * vx + vy * vy + vz * vz, j, (Abs(sq) \div 2) + 1 >>

MaxAbs3(a, b, c) == MaxOf(Abs(a), MaxOf(Abs(b), Abs(c)))

\* F * |X_i| / W, rounded down
Scaled(X, W, F) ==
  LET q == Abs(X) \div W
      r == Abs(X) % W
  IN  F * q + (F * r) \div W

\* The edge in which planes a < b meet.
Edge(a, b) == a * 1024 + b
EdgeA(e) == e \div 1024
EdgeB(e) == e % 1024

\* The vertex of planes number a < b < c.  fp: whether to keep the bound E.
Vertex(planes, a, b, c, F, fp) ==
  LET p == planes[a]
      q == planes[b]
      r == planes[c]
      ux == q[2] * r[3] - q[3] * r[2]
      uy == q[3] * r[1] - q[1] * r[3]
      uz == q[1] * r[2] - q[2] * r[1]
      vx == r[2] * p[3] - r[3] * p[2]
      vy == r[3] * p[1] - r[1] * p[3]
      vz == r[1] * p[2] - r[2] * p[1]
      wx == p[2] * q[3] - p[3] * q[2]
      wy == p[3] * q[1] - p[1] * q[3]
      wz == p[1] * q[2] - p[2] * q[1]
      w  == p[1] * ux + p[2] * uy + p[3] * uz
      s  == IF w < 0 THEN -1 ELSE 1
      X  == s * (p[4] * ux + q[4] * vx + r[4] * wx)
      Y  == s * (p[4] * uy + q[4] * vy + r[4] * wy)
      Z  == s * (p[4] * uz + q[4] * vz + r[4] * wz)
      W  == s * w
      fx == Scaled(X, W, F)
      fy == Scaled(Y, W, F)
      fz == Scaled(Z, W, F)
  IN  << a, b, c, X, Y, Z, W,
         IF fp THEN p[6] * MaxAbs3(ux, uy, uz) + q[6] * MaxAbs3(vx, vy, vz)
                      + r[6] * MaxAbs3(wx, wy, wz)
               ELSE 0,
         IF W = 0 THEN 0 ELSE Sq(fx) + Sq(fy) + Sq(fz),
         IF W = 0 THEN 0 ELSE Sq(fx + 1) + Sq(fy + 1) + Sq(fz + 1),
         Edge(a, b), Edge(b, c), Edge(a, c) >>

B == 8192

\* n.X - dW as hi * B + lo with 0 <= lo < B
Side(v, h) ==
  LET lo == h[1] * (v[4] % B) + h[2] * (v[5] % B) + h[3] * (v[6] % B)
              - h[4] * (v[7] % B)
      hi == h[1] * (v[4] \div B) + h[2] * (v[5] \div B) + h[3] * (v[6] \div B)
              - h[4] * (v[7] \div B)
  IN  << hi + (lo \div B), lo % B >>

CutOff(v, h)  == LET s == Side(v, h) IN s[1] > 0 \/ (s[1] = 0 /\ s[2] > 0)
OnPlane(v, h) == LET s == Side(v, h) IN s[1] = 0 /\ s[2] = 0

\* Too close to the plane for single precision to tell the side reliably:
\* |n.X - dW| < |n|_1 * E / 2^17, i.e. 64 times the unit roundoff.
Near(v, h) ==
  LET s == Side(v, h)
      m == ((v[8] \div 4096) * (Abs(h[1]) + Abs(h[2]) + Abs(h[3]))) \div 32
      q == (m \div B) + 1
  IN  s[1] <= q /\ s[1] >= -q - 1 /\ Abs(s[1] * B + s[2]) <= m

\* |n.x| <= |n| |x|: a bisector at squared distance d cannot reach a vertex
\* that is nearer than that.  (Checked against Side in MCCell.)
OutOfReach(v, d, F) == v[10] < d * F * F

\* Is the point at squared distance d farther than twice every vertex?
SecYes(verts, d, F) == \A i \in 1..Len(verts) : d * F * F > verts[i][10]
SecNo(verts, d, F)  == \E i \in 1..Len(verts) : d * F * F <= verts[i][9]

Edges(vs) == { vs[i][j] : i \in 1..Len(vs), j \in 11..13 }

\* Edges of the removed vertices that lead to a vertex that is kept.
RimEdges(removed, kept) == Edges(removed) \cap Edges(kept)
===============================================================================
