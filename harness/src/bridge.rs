//! Translation between the types of the code under test and the reference model.

use crate::model::*;
use barbarosa::{
    cube_n::{
        moves::{rotation::AxisRotation, Amount, ExtendedAxisMove},
        space::{Axis, Direction, Face},
        AxisMove, Corner, Cube2, Cube3, Cube4, Cube5, Cube6, Cube7, Edge, Orientable, Orientation, WideAxisMove,
    },
    generic::{piece::PieceSetDescriptor, Cube, Movable, PieceSet},
};
use nalgebra::{Vector2, Vector3};

pub fn axis(a: usize) -> Axis {
    [Axis::X, Axis::Y, Axis::Z][a]
}

pub fn axis_ix(a: Axis) -> usize {
    match a {
        Axis::X => 0,
        Axis::Y => 1,
        Axis::Z => 2,
    }
}

pub fn dir(s: i32) -> Direction {
    if s > 0 {
        Direction::Positive
    } else {
        Direction::Negative
    }
}

pub fn sign(d: Direction) -> i32 {
    match d {
        Direction::Positive => 1,
        Direction::Negative => -1,
    }
}

pub fn face(f: u8) -> Face {
    Face::new(axis(face_axis(f)), dir(face_sign(f)))
}

pub fn face_ix(f: &Face) -> u8 {
    face_of(axis_ix(f.axis), sign(f.direction))
}

pub fn amount(q: u8) -> Amount {
    match q {
        1 => Amount::Single,
        2 => Amount::Double,
        3 => Amount::Inverse,
        _ => panic!("bad amount {q}"),
    }
}

pub fn amount_q(a: Amount) -> u8 {
    match a {
        Amount::Single => 1,
        Amount::Double => 2,
        Amount::Inverse => 3,
    }
}

pub fn axis_move(f: u8, q: u8) -> AxisMove {
    AxisMove { face: face(f), amount: amount(q) }
}

pub fn rotation(a: usize, q: u8) -> AxisRotation {
    AxisRotation { axis: axis(a), amount: amount(q) }
}

pub fn turn_of(m: &AxisMove) -> Turn {
    Turn { face: face_ix(&m.face), q: amount_q(m.amount), depth: 0 }
}

pub fn wide<const N: u32>(t: Turn) -> WideAxisMove<N> {
    WideAxisMove::new(face(t.face), amount(t.q), t.depth).expect("depth within bounds")
}

/// Where a piece started and where and how it is now, in model terms
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Seen {
    pub home: V,
    pub pos: V,
    /// `None` if no rotation of space can have brought the piece there like that
    pub rot: Option<Rot>,
}

pub fn edge_pos(n: i32, (normal, sp): (Axis, Vector2<Direction>)) -> V {
    let a = axis_ix(normal);
    let mut p = [0; 3];
    p[(a + 1) % 3] = sign(sp.x) * (n - 1);
    p[(a + 2) % 3] = sign(sp.y) * (n - 1);
    p
}

pub fn corner_pos(n: i32, v: Vector3<Direction>) -> V {
    [sign(v.x) * (n - 1), sign(v.y) * (n - 1), sign(v.z) * (n - 1)]
}

pub fn see_corner(n: i32, home: Vector3<Direction>, c: &Corner) -> Seen {
    let (home, pos) = (corner_pos(n, home), corner_pos(n, c.position));
    let want = axis_ix(c.orientation_axis);
    let rot = rots_taking(home, pos).find(|r| r.apply([0, 1, 0])[want] != 0);
    Seen { home, pos, rot }
}

pub fn see_edge(n: i32, home: (Axis, Vector2<Direction>), e: &Edge) -> Seen {
    let home = edge_pos(n, home);
    let pos = edge_pos(n, (e.normal_axis, e.slice_position));
    let rot = rots_taking(home, pos)
        .find(|r| (r.face(orientation_face(home)) == orientation_face(pos)) == e.oriented);
    Seen { home, pos, rot }
}

pub fn see_place(home: V, pos: V) -> Seen {
    Seen { home, pos, rot: rots_taking(home, pos).next() }
}

pub fn edge_at(p: V, oriented: bool) -> Edge {
    let a = (0..3).find(|&a| p[a] == 0).unwrap();
    Edge {
        normal_axis: axis(a),
        slice_position: Vector2::new(dir(p[(a + 1) % 3]), dir(p[(a + 2) % 3])),
        oriented,
    }
}

pub fn corner_at(p: V, orientation_axis: usize) -> Corner {
    Corner {
        position: Vector3::new(dir(p[0]), dir(p[1]), dir(p[2])),
        orientation_axis: axis(orientation_axis),
    }
}

pub fn see_corners(n: i32, set: &PieceSet<Corner, 8>, out: &mut Vec<Seen>) {
    for (home, c) in Corner::REFERENCE_POSITIONS.iter().zip(set.pieces().iter()) {
        out.push(see_corner(n, *home, c));
    }
}

pub fn see_edges(n: i32, set: &PieceSet<Edge, 12>, out: &mut Vec<Seen>) {
    for (home, e) in Edge::REFERENCE_POSITIONS.iter().zip(set.pieces().iter()) {
        out.push(see_edge(n, *home, e));
    }
}

fn at(parts: &[(usize, i32)]) -> V {
    let mut p = [0; 3];
    for (a, x) in parts {
        p[*a] = *x;
    }
    p
}

pub mod big {
    use super::*;
    #[cfg(verif_hooks)]
    use barbarosa::cube_n::pieces::center::corner::CenterCorner;
    use barbarosa::cube_n::{
        moves::wide::{DepthPiece, DepthPieceSet},
        pieces::center::{edge::CenterEdge, wing::CenterWing},
        Wing,
    };

    pub fn see<P: DepthPiece + PieceSetDescriptor<K>, const K: usize, const ND: u32, const TD: u32>(
        set: &DepthPieceSet<P, K, ND, TD>,
        place: impl Fn(&P) -> V,
        out: &mut Vec<Seen>,
    ) {
        for (home, now) in P::SOLVED.iter().zip(set.set.pieces().iter()) {
            out.push(see_place(place(home), place(now)));
        }
    }

    pub fn wing(n: i32, nd: u32, w: &Wing) -> V {
        let [a, b] = w.faces();
        at(&[
            (axis_ix(a.axis), sign(a.direction) * (n - 1)),
            (axis_ix(b.axis), sign(b.direction) * (n - 1)),
            (axis_ix(w.normal_axis()), sign(w.normal_direction()) * (n - 1 - 2 * nd as i32)),
        ])
    }

    #[cfg(verif_hooks)]
    pub fn center_corner(n: i32, nd: u32, c: &CenterCorner) -> V {
        let (p, axis) = c.verif_location();
        let d = n - 1 - 2 * nd as i32;
        let mut v = [sign(p.x) * d, sign(p.y) * d, sign(p.z) * d];
        let a = axis_ix(axis);
        v[a] = v[a].signum() * (n - 1);
        v
    }

    pub fn center_edge(n: i32, nd: u32, c: &CenterEdge) -> V {
        let s = c.side_face();
        at(&[
            (axis_ix(c.main_face.axis), sign(c.main_face.direction) * (n - 1)),
            (axis_ix(s.axis), sign(s.direction) * (n - 1 - 2 * nd as i32)),
        ])
    }

    pub fn center_wing(n: i32, nd: u32, td: u32, c: &CenterWing) -> V {
        let s = c.side_face();
        let m = c.main_face();
        at(&[
            (axis_ix(m.axis), sign(m.direction) * (n - 1)),
            (axis_ix(s.axis), sign(s.direction) * (n - 1 - 2 * nd as i32)),
            (axis_ix(c.normal_axis()), sign(c.normal_direction()) * (n - 1 - 2 * td as i32)),
        ])
    }
}

/// A cube of the code under test that can be looked at piece by piece
pub trait Observe: Cube + Movable<AxisMove> + 'static + Send + Sync {
    const N: i32;
    /// The largest depth of a wide turn that it takes
    const MAX_DEPTH: u32;
    /// All its pieces, or nothing if their state is not accessible in this build
    fn seen(&self) -> Option<Vec<Seen>>;
    /// Does a turn of a depth up to [`Observe::MAX_DEPTH`]
    fn turn(&mut self, t: Turn);
    /// What the cube says when it is held in some way
    fn held_is_solved(&self, hold: &Orientation) -> bool;
}

impl Observe for Cube2 {
    const N: i32 = 2;
    const MAX_DEPTH: u32 = 0;
    fn seen(&self) -> Option<Vec<Seen>> {
        let mut v = vec![];
        see_corners(2, &self.corners, &mut v);
        Some(v)
    }
    fn turn(&mut self, t: Turn) {
        self.apply(&axis_move(t.face, t.q));
    }
    fn held_is_solved(&self, hold: &Orientation) -> bool {
        Orientable { base_cube: self.clone(), orientation: hold.clone() }.is_solved()
    }
}

impl Observe for Cube3 {
    const N: i32 = 3;
    const MAX_DEPTH: u32 = 0;
    fn seen(&self) -> Option<Vec<Seen>> {
        let mut v = vec![];
        see_corners(3, &self.corners, &mut v);
        see_edges(3, &self.edges, &mut v);
        Some(v)
    }
    fn turn(&mut self, t: Turn) {
        self.apply(&axis_move(t.face, t.q));
    }
    fn held_is_solved(&self, hold: &Orientation) -> bool {
        Orientable { base_cube: self.clone(), orientation: hold.clone() }.is_solved()
    }
}

impl Observe for Cube4 {
    const N: i32 = 4;
    const MAX_DEPTH: u32 = 1;
    #[cfg(verif_hooks)]
    fn seen(&self) -> Option<Vec<Seen>> {
        let mut v = vec![];
        let (c, w, cc) = self.verif_pieces();
        see_corners(4, c, &mut v);
        big::see(w, |p| big::wing(4, 1, p), &mut v);
        big::see(cc, |p| big::center_corner(4, 1, p), &mut v);
        Some(v)
    }
    #[cfg(not(verif_hooks))]
    fn seen(&self) -> Option<Vec<Seen>> {
        None
    }
    fn turn(&mut self, t: Turn) {
        self.apply(&wide::<1>(t));
    }
    fn held_is_solved(&self, hold: &Orientation) -> bool {
        Orientable { base_cube: self.clone(), orientation: hold.clone() }.is_solved()
    }
}

impl Observe for Cube5 {
    const N: i32 = 5;
    const MAX_DEPTH: u32 = 1;
    #[cfg(verif_hooks)]
    fn seen(&self) -> Option<Vec<Seen>> {
        let mut v = vec![];
        let (c, e, w, cc, ce) = self.verif_pieces();
        see_corners(5, c, &mut v);
        see_edges(5, e, &mut v);
        big::see(w, |p| big::wing(5, 1, p), &mut v);
        big::see(cc, |p| big::center_corner(5, 1, p), &mut v);
        big::see(ce, |p| big::center_edge(5, 1, p), &mut v);
        Some(v)
    }
    #[cfg(not(verif_hooks))]
    fn seen(&self) -> Option<Vec<Seen>> {
        None
    }
    fn turn(&mut self, t: Turn) {
        self.apply(&wide::<1>(t));
    }
    fn held_is_solved(&self, hold: &Orientation) -> bool {
        Orientable { base_cube: self.clone(), orientation: hold.clone() }.is_solved()
    }
}

impl Observe for Cube6 {
    const N: i32 = 6;
    const MAX_DEPTH: u32 = 2;
    #[cfg(verif_hooks)]
    fn seen(&self) -> Option<Vec<Seen>> {
        let mut v = vec![];
        let (c, w, cc, cw) = self.verif_pieces();
        see_corners(6, c, &mut v);
        big::see(w.0, |p| big::wing(6, 1, p), &mut v);
        big::see(w.1, |p| big::wing(6, 2, p), &mut v);
        big::see(cc.0, |p| big::center_corner(6, 1, p), &mut v);
        big::see(cc.1, |p| big::center_corner(6, 2, p), &mut v);
        big::see(cw, |p| big::center_wing(6, 1, 2, p), &mut v);
        Some(v)
    }
    #[cfg(not(verif_hooks))]
    fn seen(&self) -> Option<Vec<Seen>> {
        None
    }
    fn turn(&mut self, t: Turn) {
        self.apply(&wide::<2>(t));
    }
    fn held_is_solved(&self, hold: &Orientation) -> bool {
        Orientable { base_cube: self.clone(), orientation: hold.clone() }.is_solved()
    }
}

impl Observe for Cube7 {
    const N: i32 = 7;
    const MAX_DEPTH: u32 = 2;
    #[cfg(verif_hooks)]
    fn seen(&self) -> Option<Vec<Seen>> {
        let mut v = vec![];
        let (c, e, w, cc, cw, ce) = self.verif_pieces();
        see_corners(7, c, &mut v);
        see_edges(7, e, &mut v);
        big::see(w.0, |p| big::wing(7, 1, p), &mut v);
        big::see(w.1, |p| big::wing(7, 2, p), &mut v);
        big::see(cc.0, |p| big::center_corner(7, 1, p), &mut v);
        big::see(cc.1, |p| big::center_corner(7, 2, p), &mut v);
        big::see(cw, |p| big::center_wing(7, 1, 2, p), &mut v);
        big::see(ce.0, |p| big::center_edge(7, 1, p), &mut v);
        big::see(ce.1, |p| big::center_edge(7, 2, p), &mut v);
        Some(v)
    }
    #[cfg(not(verif_hooks))]
    fn seen(&self) -> Option<Vec<Seen>> {
        None
    }
    fn turn(&mut self, t: Turn) {
        self.apply(&wide::<2>(t));
    }
    fn held_is_solved(&self, hold: &Orientation) -> bool {
        Orientable { base_cube: self.clone(), orientation: hold.clone() }.is_solved()
    }
}

pub fn name_place(n: i32, p: V) -> String {
    let mut s = String::new();
    for a in [1, 0, 2] {
        if p[a].abs() == n - 1 {
            s.push(FACES[face_of(a, p[a]) as usize]);
        }
    }
    format!("{s}{p:?}")
}

/// Compares a cube with the model, piece by piece
pub fn compare<C: Observe>(cube: &C, model: &Model) -> Result<(), String> {
    let n = C::N;
    let Some(seen) = cube.seen() else {
        return Ok(());
    };
    let movable = model.cubies.iter().filter(|c| kind(n, c.home) != Kind::FixedCenter).count();
    if seen.len() != movable {
        return Err(format!("the cube has {} movable pieces instead of {movable}", seen.len()));
    }
    let mut by_home = std::collections::HashMap::new();
    for c in &model.cubies {
        by_home.insert(c.home, c);
    }
    for s in seen {
        let Some(c) = by_home.remove(&s.home) else {
            return Err(format!("two pieces, or none, belong to {}", name_place(n, s.home)));
        };
        if s.pos != c.pos {
            return Err(format!(
                "the piece from {} is at {} instead of {}",
                name_place(n, s.home),
                name_place(n, s.pos),
                name_place(n, c.pos)
            ));
        }
        if s.rot != Some(c.rot) {
            return Err(format!(
                "the piece from {} at {} is turned wrongly: its stickers are {:?} instead of {:?}",
                name_place(n, s.home),
                name_place(n, s.pos),
                s.rot.map(|r| sticker_text(n, s.home, &r)),
                sticker_text(n, c.home, &c.rot)
            ));
        }
    }
    Ok(())
}

fn sticker_text(n: i32, home: V, r: &Rot) -> String {
    let mut s = String::new();
    for a in 0..3 {
        if home[a].abs() == n - 1 {
            let f = face_of(a, home[a]);
            s += &format!("{}->{} ", FACES[f as usize], FACES[r.face(f) as usize]);
        }
    }
    s.trim().to_string()
}

/// The stickers of a cube as seen in its own frame
pub fn stickers<C: Observe>(cube: &C) -> Option<Result<Vec<u8>, String>> {
    let n = C::N;
    let seen = cube.seen()?;
    let mut out = vec![255u8; (6 * n * n) as usize];
    if n % 2 == 1 {
        for f in 0..6 {
            let p = face_vec(f).map(|x| x * (n - 1));
            put_stickers(n, p, p, &Rot::ID, &mut out);
        }
    }
    for s in seen {
        let Some(r) = s.rot else {
            return Some(Err(format!("impossible piece {s:?}")));
        };
        put_stickers(n, s.home, s.pos, &r, &mut out);
    }
    Some(Ok(out))
}

/// The stickers of a cube in its own frame as somebody sees them who turned the whole cube by `g`
pub fn rotate_stickers(n: i32, st: &[u8], g: &Rot) -> Vec<u8> {
    let mut out = vec![255u8; st.len()];
    for c in &Model::solved(n).cubies {
        for a in 0..3 {
            if c.home[a].abs() == n - 1 {
                let f = face_of(a, c.home[a]);
                out[cell(n, g.face(f), g.apply(c.home))] = st[cell(n, f, c.home)];
            }
        }
    }
    out
}

/// A move on an orientable cube, in model terms
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, serde::Serialize, serde::Deserialize)]
pub enum Ext {
    Face(u8, u8),
    Wide(u8, u8, u32),
    Rotate(u8, u8),
    Slice(u8, u8, bool),
}

impl Ext {
    pub fn to_move(self) -> ExtendedAxisMove {
        match self {
            Ext::Face(f, q) => ExtendedAxisMove::Regular(axis_move(f, q)),
            Ext::Wide(f, q, d) => ExtendedAxisMove::Wide(wide(Turn::new(f, q, d))),
            Ext::Rotate(a, q) => ExtendedAxisMove::Rotation(rotation(a as usize, q)),
            Ext::Slice(a, q, wide) => {
                ExtendedAxisMove::Slice { rot: rotation(a as usize, q), wide }
            }
        }
    }

    pub fn inverse(self) -> Ext {
        match self {
            Ext::Face(f, q) => Ext::Face(f, 4 - q),
            Ext::Wide(f, q, d) => Ext::Wide(f, 4 - q, d),
            Ext::Rotate(a, q) => Ext::Rotate(a, 4 - q),
            Ext::Slice(a, q, w) => Ext::Slice(a, 4 - q, w),
        }
    }

    /// What the move does to the physical cube in front of the viewer
    pub fn act(self, m: &mut Model) {
        let n = m.n;
        match self {
            Ext::Face(f, q) => m.turn(Turn::new(f, q, 0)),
            Ext::Wide(f, q, d) => m.turn(Turn::new(f, q, d)),
            Ext::Rotate(a, q) => m.rotate(&Rot::quarter(a as usize, q as i32)),
            Ext::Slice(a, q, wide) => {
                // the layers that stay: the outer one of each side, or in the wide form all of each half
                let keep = if wide { n / 2 } else { 1 };
                let limit = n - 1 - 2 * (keep - 1);
                m.turn_layers(a as usize, q as i32, |x| x.abs() < limit);
            }
        }
    }
}

pub fn nr(code: &(u8, u8, u8)) -> barbarosa::cube_n::moves::non_redundant::NonRedundantAxisMove {
    use barbarosa::cube_n::moves::non_redundant::NonRedundantAxisMove;
    let (a, p, n) = *code;
    match (p % 4, n % 4) {
        (0, 0) => NonRedundantAxisMove::Single(axis_move(a % 3, 1)),
        (p, 0) => NonRedundantAxisMove::Single(axis_move(a % 3, p)),
        (0, n) => NonRedundantAxisMove::Single(axis_move(a % 3 + 3, n)),
        (p, n) => NonRedundantAxisMove::Double { axis: axis(a as usize % 3), amount_positive: amount(p), amount_negative: amount(n) },
    }
}
