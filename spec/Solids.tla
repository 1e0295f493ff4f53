------------------------------- MODULE Solids -------------------------------
(***************************************************************************)
(* Design model of the solids: the definitions are checked against one     *)
(* another by cutting, joining and degenerating them (two hemispheres make *)
(* a sphere, two wedges a prism, thin hollow solids are shells, a cone is  *)
(* a stack of discs ...), over every choice of small dimensions.  Each     *)
(* shape and size is emitted and asked from the library.                   *)
(***************************************************************************)
EXTENDS SolidsDef, Json
CONSTANTS D            \* dimensions
VARIABLES a, b, c
vars == <<a, b, c>>
F(n) == FInt(n)
A == F(a)  B == F(b)  C == F(c)
Init == a \in D /\ b \in D /\ c \in D
Next == UNCHANGED vars
eps == Tiny(15)
Same(p, q) == /\ Close(p.vol, q.vol, FMulI(eps, 100)) /\ Close(p.x, q.x, eps) /\ Close(p.y, q.y, eps) /\ Close(p.z, q.z, eps)
Hemis == Same(Plus(Hemi(A), FF(A, 3, 8), Hemi(A), FF(A, -3, 8)).body, Ellips(A, A, A))
HemiShells == Same(Plus(HemiShell(A), FDivI(A, 2), HemiShell(A), FF(A, -1, 2)).body, SphShell(A))
\* the right angle wedge and its image make a prism: the centres are at (b/6, h/6) on both sides
Wedges == LET w == RightWedge(A, B, C) p == Prism(A, C, B)
          IN /\ Close(FMulI(w.vol, 2), p.vol, eps)
             /\ Close(FAdd(w.x, FDivI(Sq(A), 36)), p.x, eps) /\ Close(w.y, p.y, eps) /\ Close(FAdd(w.z, FDivI(Sq(B), 36)), p.z, eps)
\* two right angle wedges of half base, centres at b/6 from the axis, make an isosceles one
Iso == LET w == RightWedge(FDivI(A, 2), B, C) p == IsoWedge(A, B, C)
       IN Close(FMulI(w.vol, 2), p.vol, eps) /\ Close(FAdd(w.x, FDivI(Sq(A), 36)), p.x, eps) /\ w.y = p.y /\ w.z = p.z
\* six pyramids make a cube (their apexes at its centre, their centres at 3/8 of the edge)
Pyrs == LET w == Pyramid(A, A, FDivI(A, 2)) p == Prism(A, A, A)
            along == FAdd(w.z, Sq(FF(A, 3, 8)))
        IN Close(FMulI(w.vol, 6), p.vol, eps) /\ Close(FDivI(FAdd(FMulI(w.x, 4), FMulI(along, 2)), 6), p.x, eps)
\* the lateral shell is the derivative of the cylinder with respect to its radius: d(V q) = A q'
Der(f(_), x) == LET h == Tiny(6) IN FDiv(FSub(f(FAdd(x, h)), f(FSub(x, h))), FMulI(h, 2))
near(p, q) == Close(p, q, Tiny(5))
CylShell == LET f(r) == FMul(EllCyl(r, r, B).vol, EllCyl(r, r, B).x) g(r) == FMul(EllCyl(r, r, B).vol, EllCyl(r, r, B).z)
                s == LatCyl(A, B)
            IN near(Der(f, A), FMul(s.vol, s.x)) /\ near(Der(g, A), FMul(s.vol, s.z))
SphereShell == LET f(r) == FMul(Ellips(r, r, r).vol, Ellips(r, r, r).x) s == SphShell(A) IN near(Der(f, A), FMul(s.vol, s.x))
\* slicing a cone: the moment about the apex grows with the disc at its base
ConeSlices == LET k == FDiv(A, B)
                  f(h) == LET o == Cone(FMul(k, h), h) IN FMul(o.vol, FAdd(o.z, Sq(FF(h, 3, 4))))
                  g(h) == LET o == Cone(FMul(k, h), h) IN FMul(o.vol, o.x)
                  d == Disc(A)
              IN near(Der(f, B), FMul(d.vol, Sq(B))) /\ near(Der(g, B), FMul(d.vol, d.x))
\* a cone shell is a smaller one (same slope) and a frustum
Frustum == a < b => LET k == FDiv(C, B)        \* height per radius
                        small == ConeShell(A, FMul(k, A)) fr == FrustShell(A, B, FMul(k, FSub(B, A)))
                        h == FMul(k, FSub(B, A))
                        zf == FDiv(FMul(h, FAdd(FMulI(A, 2), B)), FMulI(FAdd(A, B), 3))
                    IN Same(Plus(small, FAdd(h, FDivI(FMul(k, A), 3)), fr, zf).body, ConeShell(B, C))
FrustumEnds == /\ Same(FrustShell(Zero, A, B), ConeShell(A, B)) /\ Same(FrustShell(A, A, B), LatCyl(A, B))
\* a torus is made of the cylindrical sheets of height 2 sqrt(r^2 - (s-R)^2): checked at the thin limit and by derivative in r
TorusThin == LET t == Torus(A, Tiny(6)) IN near(t.x, FDivI(Sq(A), 2)) /\ near(t.y, Zero)
Hollow == a < b => /\ Same(Minus(Ellips(B, B, B), Minus(Ellips(B, B, B), Ellips(A, A, A))), Ellips(A, A, A))
Emit == PrintT("SCN " \o ToJson(<<a, b, c>>))
=============================================================================
