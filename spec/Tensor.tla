-------------------------------- MODULE Tensor --------------------------------
(* Rotations and permittivity tensors.                                        *)
EXTENDS Mat

RotX(a) == LET c == NCos(a) s == NSin(a) IN << <<N(1), N(0), N(0)>>, <<N(0), c, NNeg(s)>>, <<N(0), s, c>> >>
RotZ(a) == LET c == NCos(a) s == NSin(a) IN << <<c, NNeg(s), N(0)>>, <<s, c, N(0)>>, <<N(0), N(0), N(1)>> >>

(* Euler angles (degrees): about z, then x', then z' *)
Euler(p, n, r) == MMul(MMul(RotZ(Deg(p)), RotX(Deg(n))), RotZ(Deg(r)))

(* right-handed rotation by a (radians) about the unit vector u: Rodrigues *)
AxisAngle(u, a) ==
  LET W == << <<N(0), NNeg(u[3]), N(u[2])>>, <<N(u[3]), N(0), NNeg(u[1])>>, <<NNeg(u[2]), N(u[1]), N(0)>> >>
  IN MAdd(MAdd(MId(3), MScale(NSin(a), W)), MScale(N(1) (-) NCos(a), MMul(W, W)))

(* rotation vector: direction is the axis, length the angle in radians *)
RotVec(v) ==
  LET len == NSqrt((Sq(v[1]) (+) Sq(v[2])) (+) Sq(v[3]))
  IN IF NEq(len, 0) THEN MId(3)
     ELSE AxisAngle(<< v[1] (/) len, v[2] (/) len, v[3] (/) len >>, len)

(* rotations as the drivers name them *)
Rotation(r) ==
  IF r.kind = "none" THEN MId(3)
  ELSE IF r.kind = "euler" THEN Euler(r.a[1], r.a[2], r.a[3])
  ELSE IF r.kind = "v" THEN RotVec(r.a)
  ELSE IF r.kind = "vt" THEN AxisAngle(<<r.a[1], r.a[2], r.a[3]>>, Deg(r.a[4]))
  ELSE MNum(r.a)                                    \* "m": an explicit matrix

Diag(d) == << <<N(d[1]), N(0), N(0)>>, <<N(0), N(d[2]), N(0)>>, <<N(0), N(0), N(d[3])>> >>
Rotated(R, e) == MMul(MMul(R, e), MT(R))
TensorOf(d, r) == IF r.kind = "none" THEN Diag(d) ELSE Rotated(Rotation(r), Diag(d))
=============================================================================
