----------------------------- MODULE SolidsDef -----------------------------
(***************************************************************************)
(* The elementary solids and shells of the library.  A body is given by    *)
(* its volume (or area) and its mean squares <x^2>, <y^2>, <z^2> about the *)
(* centre of gravity; its moments are sums of two of them.                 *)
(***************************************************************************)
EXTENDS Vec
FPi == <<1, <<2643, 3846, 7932, 3589, 9265, 1415, 3>>>>
Sq(x) == FMul(x, x)
Cu(x) == FMul(x, Sq(x))
FF(x, p, q) == FDivI(FMulI(x, p), q)          \* x p / q
Add3(x, y, z) == FAdd(x, FAdd(y, z))
Body(vol, x, y, z) == [vol |-> vol, x |-> x, y |-> y, z |-> z]
Moments(b) == <<FAdd(b.y, b.z), FAdd(b.x, b.z), FAdd(b.x, b.y)>>
EllCyl(a, b, h) == Body(FMul(FPi, FMul(a, FMul(b, h))), FDivI(Sq(a), 4), FDivI(Sq(b), 4), FDivI(Sq(h), 12))
Ellips(x, y, z) == Body(FF(FMul(FPi, FMul(x, FMul(y, z))), 4, 3), FDivI(Sq(x), 5), FDivI(Sq(y), 5), FDivI(Sq(z), 5))
Prism(a, b, h) == Body(FMul(a, FMul(b, h)), FDivI(Sq(a), 12), FDivI(Sq(b), 12), FDivI(Sq(h), 12))
\* a body minus another one with the same centre
Minus(b, s) == LET v == FSub(b.vol, s.vol)
                   m(p, q) == FDiv(FSub(FMul(b.vol, p), FMul(s.vol, q)), v)
               IN Body(v, m(b.x, s.x), m(b.y, s.y), m(b.z, s.z))
\* bodies at altitudes za, zb put together: [body, altitude of the centre]
Plus(a, za, b, zb) ==
   LET v == FAdd(a.vol, b.vol)
       zg == FDiv(FAdd(FMul(a.vol, za), FMul(b.vol, zb)), v)
       m(p, q) == FDiv(FAdd(FMul(a.vol, p), FMul(b.vol, q)), v)
   IN [body |-> Body(v, m(a.x, b.x), m(a.y, b.y), m(FAdd(a.z, Sq(FSub(za, zg))), FAdd(b.z, Sq(FSub(zb, zg))))), zg |-> zg]
Cone(r, h) == Body(FF(FMul(FPi, FMul(Sq(r), h)), 1, 3), FF(Sq(r), 3, 20), FF(Sq(r), 3, 20), FF(Sq(h), 3, 80))
Hemi(r) == Body(FF(FMul(FPi, Cu(r)), 2, 3), FDivI(Sq(r), 5), FDivI(Sq(r), 5), FSub(FDivI(Sq(r), 5), FF(Sq(r), 9, 64)))
\* axis along y: <y^2> = r^2/4, <x^2> = <z^2> = R^2/2 + 3 r^2/8
Torus(R, r) == LET p == FAdd(FDivI(Sq(R), 2), FF(Sq(r), 3, 8))
               IN Body(FMul(FMul(FMulI(Sq(FPi), 2), Sq(r)), R), p, FDivI(Sq(r), 4), p)
\* triangle (base along x, height along z) times a length along y
RightWedge(b, h, len) == Body(FDivI(FMul(b, FMul(h, len)), 2), FDivI(Sq(b), 18), FDivI(Sq(len), 12), FDivI(Sq(h), 18))
IsoWedge(b, h, len) == Body(FDivI(FMul(b, FMul(h, len)), 2), FDivI(Sq(b), 24), FDivI(Sq(len), 12), FDivI(Sq(h), 18))
Pyramid(a, b, h) == Body(FDivI(FMul(a, FMul(b, h)), 3), FDivI(Sq(a), 20), FDivI(Sq(b), 20), FF(Sq(h), 3, 80))
\* shells: vol is the area
Disc(r) == Body(FMul(FPi, Sq(r)), FDivI(Sq(r), 4), FDivI(Sq(r), 4), Zero)
LatCyl(r, h) == Body(FMulI(FMul(FPi, FMul(r, h)), 2), FDivI(Sq(r), 2), FDivI(Sq(r), 2), FDivI(Sq(h), 12))
TotCyl(r, h) == LET d == Plus(Disc(r), Zero, Disc(r), h) IN Plus(d.body, d.zg, LatCyl(r, h), FDivI(h, 2)).body
ConeShell(r, h) == Body(FMul(FMul(FPi, r), FSqrt(FAdd(Sq(r), Sq(h)))), FDivI(Sq(r), 4), FDivI(Sq(r), 4), FDivI(Sq(h), 18))
FrustShell(r, R, h) == LET q == FDivI(FAdd(Sq(r), Sq(R)), 4) s == FAdd(r, R)
   IN Body(FMul(FMul(FPi, s), FSqrt(FAdd(Sq(h), Sq(FSub(R, r))))), q, q,
           FDivI(FAdd(Sq(h), FDiv(FMulI(FMul(Sq(h), FMul(r, R)), 2), Sq(s))), 18))
SphShell(r) == Body(FMulI(FMul(FPi, Sq(r)), 4), FDivI(Sq(r), 3), FDivI(Sq(r), 3), FDivI(Sq(r), 3))
HemiShell(r) == Body(FMulI(FMul(FPi, Sq(r)), 2), FDivI(Sq(r), 3), FDivI(Sq(r), 3), FDivI(Sq(r), 12))
BodyOf(shape, a) ==
  CASE shape = "right_circular_cylinder" -> EllCyl(a[1], a[1], a[2])
    [] shape = "hollow_right_circular_cylinder" -> IF a[1] = Zero THEN EllCyl(a[2], a[2], a[3])
                                                   ELSE Minus(EllCyl(a[2], a[2], a[3]), EllCyl(a[1], a[1], a[3]))
    [] shape = "right_circular_cone" -> Cone(a[1], a[2])
    [] shape = "sphere" -> Ellips(a[1], a[1], a[1])
    [] shape = "hollow_sphere" -> IF a[1] = Zero THEN Ellips(a[2], a[2], a[2]) ELSE Minus(Ellips(a[2], a[2], a[2]), Ellips(a[1], a[1], a[1]))
    [] shape = "hemisphere" -> Hemi(a[1])
    [] shape = "elliptical_cylinder" -> EllCyl(a[1], a[2], a[3])
    [] shape = "ellipsoid" -> Ellips(a[2], a[3], a[1])        \* a along z, b along x, c along y
    [] shape = "torus" -> Torus(a[1], a[2])
    [] shape = "right_angle_wedge" -> RightWedge(a[1], a[2], a[3])
    [] shape = "isoceles_wedge" -> IsoWedge(a[1], a[2], a[3])
    [] shape = "right_rectangular_pyramid" -> Pyramid(a[1], a[2], a[3])
    [] shape = "cube" -> Prism(a[1], a[1], a[1])
    [] shape = "rectangular_prism" -> Prism(a[1], a[2], a[3])
    [] shape = "circular_cone_shell" -> ConeShell(a[1], a[2])
    [] shape = "frustrum_of_circular_cone_shell" -> FrustShell(a[1], a[2], a[3])
    [] shape = "lateral_cylindrical_shell" -> LatCyl(a[1], a[2])
    [] shape = "total_cylindrical_shell" -> TotCyl(a[1], a[2])
    [] shape = "spherical_shell" -> SphShell(a[1])
    [] shape = "hemispherical_shell" -> HemiShell(a[1])
Shells == {"circular_cone_shell", "frustrum_of_circular_cone_shell", "lateral_cylindrical_shell", "total_cylindrical_shell",
           "spherical_shell", "hemispherical_shell"}
=============================================================================
