------------------------------- MODULE MCShapes -------------------------------
(***************************************************************************)
(* A segment and two points carried along by rigid motions: mirrors,       *)
(* rotations, exchange of the ends.  The laws of C14, C16, C17 hold in     *)
(* every reachable configuration.                                          *)
(***************************************************************************)
EXTENDS Shapes

CONSTANTS Depth, Size

Turns == {<<RZero, ROne>>, <<<<3, 5>>, <<4, 5>>>>, <<RNeg(ROne), RZero>>}
Mirrors == { [k |-> "W", a |-> Pt(0, 0), b |-> Pt(x[1], x[2])] : x \in {<<1, 0>>, <<1, 1>>, <<1, -2>>, <<0, 0>>} }
Centres == {Pt(0, 0), Pt(1, 2)}
Coord == { Pt(x, y) : x \in 0..Size, y \in 0..Size }

VARIABLES w, p, q, n, was
vars == <<w, p, q, n, was>>
W(a, b) == [k |-> "W", a |-> a, b |-> b]
Init == /\ w \in { W(Pt(0, 0), b) : b \in Coord } \cup { W(Pt(1, 1), Pt(2, 0)) }
        /\ p \in Coord /\ q \in {Pt(0, 1), Pt(2, 1), Pt(1, 1)}
        /\ n = 0 /\ was = <<w, p, q>>
Map(F(_)) == /\ w' = W(F(w.a), F(w.b)) /\ p' = F(p) /\ q' = F(q)
             /\ n' = n + 1 /\ was' = was
Mirror(m) == LET F(x) == ImageOf(m, x) IN Map(F)
Turn(r, c) == LET F(x) == Rotate(r, c, x) IN Map(F)
Swap == w' = W(w.b, w.a) /\ n' = n + 1 /\ UNCHANGED <<p, q, was>>
Next == n < Depth /\ (Swap \/ (\E m \in Mirrors : Mirror(m)) \/ \E r \in Turns, c \in Centres : Turn(r, c))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Involution == ImageOf(w, ImageOf(w, p)) = p
Isometry == Norm2(VSub(ImageOf(w, p), w.a)) = Norm2(VSub(p, w.a)) /\
            Norm2(VSub(ImageOf(w, p), ImageOf(w, q))) = Norm2(VSub(p, q))
ImageSwap == ImageOf(W(w.b, w.a), p) = ImageOf(w, p)
FixedLine == ImageOf(w, w.a) = w.a /\ ImageOf(w, w.b) = w.b
Inverse == ~ZeroLen(w) => \A s \in {RZero, ROne, <<1, 4>>, <<-1, 2>>} : Param(w, At(w, s)) = s
Project == ~ZeroLen(w) =>
  /\ Dot(VSub(p, At(w, Param(w, p))), Dir(w)) = RZero
  /\ Param(w, ImageOf(w, p)) = Param(w, p)
  /\ Param(W(w.b, w.a), p) = RSub(ROne, Param(w, p))
Perp == Dot(Nrm(w), Dir(w)) = RZero
(* distances and lengths are those of the start: motions are rigid *)
Rigid == /\ Norm2(Dir(w)) = Norm2(Dir(was[1]))
         /\ Norm2(VSub(p, q)) = Norm2(VSub(was[2], was[3]))
(* scores: perfect exactly for the mirrored direction; scale, side, ends *)
Sc(ww, a, b, c) == WallCos(ww, a, b, c)
Perfect == (~ZeroLen(w) /\ p # q) =>
  LET r == Reflect(w, VSub(q, p))
      good == VAdd(q, r)
  IN /\ Sc(w, p, q, good) = <<1, ROne>>
     /\ Sc(W(w.b, w.a), p, q, good) = <<1, ROne>>
     /\ Sc(w, p, q, VSub(q, r)) = <<-1, ROne>>
     /\ Sc(w, VSub(q, VScale(I2R(3), VSub(q, p))), q, VAdd(q, VScale(<<1, 2>>, r))) = <<1, ROne>>
     /\ \A c \in {w.a, w.b, At(w, <<1, 2>>)} :
          (c # q) => (Sc(w, p, q, c) = <<1, ROne>> <=> (Cross(VSub(c, q), r) = RZero /\ RLt(RZero, Dot(VSub(c, q), r))))
(* a surface of constant angle does not look at the incoming side *)
RISPerfect == ~ZeroLen(w) =>
  LET m == Nrm(w)
      phi == <<<<3, 5>>, <<4, 5>>>>
      \* the direction at that angle from the normal: -(R m), R of angle -phi
      out == VScale(I2R(-1), Rot(<<phi[1], RNeg(phi[2])>>, m))
  IN RISCos(w, phi, q, VAdd(q, out)) = <<1, ROne>>
(* crossing is symmetric in both segments and in their ends *)
Symmetric == LET X(a, b, c, d) == CrossMargin(a, b, c, d, <<1, 200>>)
             IN /\ X(w.a, w.b, p, q) = X(p, q, w.a, w.b) \/ ~X(w.a, w.b, p, q).firm \/ ~X(p, q, w.a, w.b).firm
                /\ X(w.a, w.b, p, q).m = X(w.b, w.a, p, q).m
                /\ X(w.a, w.b, p, q).m = X(w.a, w.b, q, p).m
(* extents *)
Least == LET ps == <<w.a, w.b, p, q>>
             b == BoxOf(ps)
         IN /\ \A i \in 1..4 : \A d \in 1..2 : RLe(b[1][d], ps[i][d]) /\ RLe(ps[i][d], b[2][d])
            /\ \A d \in 1..2 : (\E i \in 1..4 : ps[i][d] = b[1][d]) /\ \E i \in 1..4 : ps[i][d] = b[2][d]
Corners == LET b == BoxOf(<<w.a, w.b, p>>)
           IN Location(b, "SW") = b[1] /\ Location(b, "NE") = b[2] /\
              Location(b, "C") = VScale(<<1, 2>>, VAdd(b[1], b[2])) /\
              VAdd(Location(b, "NW"), Location(b, "SE")) = VAdd(b[1], b[2])
GridEnds == LET b == BoxOf(<<p, q>>)
            IN \A m \in 2..4 : Sample(b[1][1], b[2][1], m, 1) = b[1][1] /\ Sample(b[1][1], b[2][1], m, m) = b[2][1]
FirstBest == LET ps == <<p, q, p, w.a>> IN Nearest(ps, w.b) # 3
=============================================================================
