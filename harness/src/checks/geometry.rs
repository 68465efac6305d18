//! C25: faces, axes, rotations and pieces against vector arithmetic.

use crate::{bridge::*, ctx::*, gen::*, model::*};
use barbarosa::{
    cube_n::{
        moves::{
            rotation::{rotate_vec2, AxisRotation, Rotatable},
            Amount,
        },
        pieces::{
            center::{edge::CenterEdge, wing::CenterWing},
            edge::ParallelAxesError,
        },
        space::{Axis, Direction, Face},
        AxisMove, Corner, Edge, Orientation, Wing,
    },
    generic::{
        piece::{Coordinates, Piece, PieceSetDescriptor},
        utils::slice_coords,
        Alg,
    },
};
use nalgebra::{Vector2, Vector3};
use proptest::prelude::*;
use std::collections::HashSet;
use strum::IntoEnumIterator;

fn axis_vec(a: usize) -> V {
    face_vec(a as u8)
}

fn i8s(v: V) -> Vector3<i8> {
    Vector3::new(v[0] as i8, v[1] as i8, v[2] as i8)
}

fn name(f: u8) -> char {
    FACES[f as usize]
}

fn corners() -> Vec<V> {
    (0..8).map(corner_home).collect()
}

fn edges() -> Vec<V> {
    (0..12).map(edge_home).collect()
}

fn same_axis(e: &ParallelAxesError) -> usize {
    match e {
        ParallelAxesError::SameAxis(a) => axis_ix(*a),
    }
}

// ---------------------------------------------------------------- faces and axes

fn one_face(f: &u8, t: &mut Tally) -> Res {
    t.nontrivial();
    let f = *f;
    let code = face(f);
    let v = face_vec(f);
    let opposite = vec_face(v.map(|x| -x));
    ensure!(face_ix(&code.opposite()) == opposite, "the opposite of {} is {}", name(f), code.opposite());
    ensure!(code.coords() == i8s(v), "the coordinates of {} are {:?}", name(f), code.coords());
    ensure!(Vector3::<i8>::from(&code) == i8s(v), "{} as a vector is {:?}", name(f), Vector3::<i8>::from(&code));
    ensure!(code.index() == f as usize, "the index of {} is {}", name(f), code.index());
    ensure!(code.to_string() == name(f).to_string(), "{} prints as {code}", name(f));
    let listed: Vec<Face> = Face::iter().collect();
    ensure!(listed.len() == 6 && listed[f as usize] == code, "the faces are listed as {listed:?}");
    for a in 0..3 {
        let (next, prev) = (Rot::quarter(a, 1).face(f), Rot::quarter(a, 3).face(f));
        let ax = axis(a);
        let got = code.clone().next_around(&ax);
        ensure!(face_ix(&got) == next, "a clockwise quarter about {ax:?} takes {} to {}, but {got} is said to be next", name(f), name(next));
        let got = code.clone().prev_around(&ax);
        ensure!(face_ix(&got) == prev, "a counterclockwise quarter about {ax:?} takes {} to {}, but {got} is said to be there", name(f), name(prev));
    }
    for g in 0..6u8 {
        let w = face_vec(g);
        let c = cross(v, w);
        let want = (c != [0; 3]).then(|| vec_face(c));
        let got = code.cross(&face(g)).map(|x| face_ix(&x));
        ensure!(got == want, "{} x {} is {:?}, not {:?}", name(f), name(g), want.map(name), got.map(name));
        ensure!((code == face(g)) == (f == g), "{} == {}", name(f), name(g));
    }
    for p in corners() {
        let c = Vector3::new(dir(p[0]), dir(p[1]), dir(p[2]));
        ensure!(
            code.contains_vector(&c) == (dot(p, v) > 0),
            "whether {} contains the corner {} is wrong",
            name(f),
            name_place(3, p)
        );
    }
    for p in edges() {
        for oriented in [true, false] {
            ensure!(
                code.contains_edge(&edge_at(p, oriented)) == (dot(p, v) > 0),
                "whether {} contains the edge {} is wrong",
                name(f),
                name_place(3, p)
            );
        }
    }
    Ok(())
}

fn axis_pair((a, b): &(usize, usize), t: &mut Tally) -> Res {
    let (a, b) = (*a, *b);
    t.nontrivial_if(a != b);
    let (x, y) = (axis(a), axis(b));
    ensure!(x.offset(&y) == ((b + 3 - a) % 3) as i32, "the offset of {x:?} and {y:?} is {}", x.offset(&y));
    let c = cross(axis_vec(a), axis_vec(b));
    let third = (0..3).find(|i| c[*i] != 0);
    let got = Axis::other(&x, &y).map(axis_ix);
    ensure!(got == third, "the axis other than {x:?} and {y:?} is said to be {got:?}");
    match (x.get_handedness(&y), third) {
        (Ok(h), Some(k)) => ensure!(sign(h) == c[k], "the handedness of {x:?} and {y:?} is {h:?}"),
        (Err(e), None) => ensure!(same_axis(&e) == a, "{e:?} for {x:?}"),
        (r, _) => fail!("the handedness of {x:?} and {y:?} is {r:?}"),
    }
    if a == b {
        let (n, p) = (x.next(), x.prev());
        // X x next = prev
        ensure!(cross(axis_vec(a), axis_vec(axis_ix(n))) == axis_vec(axis_ix(p)), "after {x:?} comes {n:?}, before it {p:?}");
        ensure!(axis_ix(n) == (a + 1) % 3, "after {x:?} comes {n:?}");
        ensure!(
            x.next_with_handedness(Direction::Positive) == n && x.next_with_handedness(Direction::Negative) == p,
            "the next of {x:?} by handedness"
        );
        let [b1, b2] = Axis::basis(&x);
        ensure!(cross(axis_vec(axis_ix(b1)), axis_vec(axis_ix(b2))) == axis_vec(a), "the basis of {x:?} is {b1:?}, {b2:?}");
        ensure!(axis_ix(b1) == (a + 1) % 3, "the basis of {x:?} is {b1:?}, {b2:?}");
        ensure!(Vector3::<i8>::from(&x) == i8s(axis_vec(a)), "{x:?} as a vector");
        let v = Vector3::new(10, 20, 30);
        ensure!(v[x] == [10, 20, 30][a], "indexing by {x:?}");
        let mut w = v;
        w[x] = 7;
        ensure!((0..3).all(|i| w[i] == if i == a { 7 } else { v[i] }), "assigning by {x:?}");
    }
    Ok(())
}

fn on_slice((a, v, w): &(usize, [i32; 3], [i32; 2]), t: &mut Tally) -> Res {
    t.nontrivial();
    let x = axis(*a);
    let mut seen = None;
    let got = x.map_on_slice(Vector3::new(v[0], v[1], v[2]), |[p, q]| {
        seen = Some([*p, *q]);
        Vector2::new(w[0], w[1])
    });
    let (b, c) = ((a + 1) % 3, (a + 2) % 3);
    let mut want = *v;
    want[b] = w[0];
    want[c] = w[1];
    ensure!(seen == Some([v[b], v[c]]), "on the slice of {x:?}, {v:?} is {seen:?}");
    ensure!([got[0], got[1], got[2]] == want, "{v:?} with {w:?} on the slice of {x:?} is {got:?}");
    // the coordinates in the plane; which of them comes first is nowhere promised
    let plane = slice_coords(Vector3::new(v[0], v[1], v[2]), x);
    let plane = [plane[0], plane[1]];
    ensure!(plane == [v[b], v[c]] || plane == [v[c], v[b]], "the coordinates of {v:?} in the plane across {x:?} are {plane:?}");
    Ok(())
}

// ---------------------------------------------------------------- amounts, moves, rotations

fn amounts(q: &u8, t: &mut Tally) -> Res {
    t.nontrivial();
    let q = *q;
    let m = amount(q);
    for s in [1, -1] {
        let got = amount_q(m * dir(s));
        let want = (q as i32 * s).rem_euclid(4) as u8;
        ensure!(got == want, "{q} quarters times {s} are {got}");
        ensure!(sign(-dir(s)) == -s && dir(s).scalar() as i32 == s && i8::from(&dir(s)) as i32 == s, "direction {s}");
        ensure!(amount_q(Amount::from(dir(s))) as i32 == s.rem_euclid(4), "{s} as an amount");
    }
    for r in 1..4u8 {
        let got = (m + amount(r)).map(amount_q).unwrap_or(0);
        ensure!(got == (q + r) % 4, "{q} and {r} quarters are {got}");
    }
    // clockwise by q quarters
    for x in [1, -1] {
        for y in [1, -1] {
            let mut v = (x, y);
            for _ in 0..q {
                v = (v.1, -v.0);
            }
            let got = rotate_vec2(&m, &Vector2::new(dir(x), dir(y)));
            ensure!((sign(got.x), sign(got.y)) == v, "({x}, {y}) turned by {q} quarters is {got:?}");
        }
    }
    for a in 0..3 {
        let r = rotation(a, q);
        let inv = r.inverse();
        ensure!(axis_ix(inv.axis) == a && amount_q(inv.amount) == 4 - q, "the inverse of {r:?} is {inv:?}");
        let built = AxisRotation::new(axis(a), m);
        ensure!(built == r, "a new rotation about {:?} by {m:?} is {built:?}", axis(a));
    }
    for f in 0..6 {
        let r = AxisRotation::from(&axis_move(f, q));
        ensure!(
            Rot::quarter(axis_ix(r.axis), amount_q(r.amount) as i32) == Rot::of_face(f, q as i32),
            "the rotation of {} is {r:?}",
            axis_move(f, q)
        );
    }
    Ok(())
}

/// Everything that can be rotated, with where the rotation must take it
fn all_things(r: &[AxisRotation], rot: &Rot, t: &mut Tally) -> Res {
    fn through<T: Rotatable + Clone>(x: &T, r: &[AxisRotation]) -> T {
        let mut by_ref = x.clone();
        let mut by_value = x.clone();
        for r in r {
            by_ref.rotate(r);
            by_value = by_value.rotated(r);
        }
        drop(by_ref);
        by_value
    }
    t.nontrivial_if(*rot != Rot::ID);
    for f in 0..6 {
        let got = through(&face(f), r);
        ensure!(face_ix(&got) == rot.face(f), "{r:?} takes the face {} to {got}, not to {}", name(f), name(rot.face(f)));
        for q in 1..4 {
            let m = through(&axis_move(f, q), r);
            ensure!(turn_of(&m) == Turn::new(rot.face(f), q, 0), "{r:?} takes the move {} to {m}", axis_move(f, q));
        }
    }
    for a in 0..3 {
        let got = through(&axis(a), r);
        let v = rot.apply(axis_vec(a));
        ensure!(v[axis_ix(got)] != 0, "{r:?} takes the axis {:?} to {got:?}", axis(a));
    }
    for p in corners() {
        let want = rot.apply(p);
        let v = Vector3::new(dir(p[0]), dir(p[1]), dir(p[2]));
        let got = corner_pos(3, through(&v, r));
        ensure!(got == want, "{r:?} takes the vector {p:?} to {got:?}");
        for o in 0..3 {
            let c = through(&corner_at(p, o), r);
            let sticker = rot.apply(axis_vec(o));
            ensure!(
                corner_pos(3, c.position) == want && sticker[axis_ix(c.orientation_axis)] != 0,
                "{r:?} takes the corner {:?} to {c:?}",
                corner_at(p, o)
            );
        }
    }
    for p in edges() {
        for oriented in [true, false] {
            let e = edge_at(p, oriented);
            let got = through(&e, r);
            let now = edge_pos(3, (got.normal_axis, got.slice_position));
            // the orientation sticker is on this face
            let faces: Vec<u8> = (0..6).filter(|f| dot(face_vec(*f), p) > 0).collect();
            let main = orientation_face(p);
            let on = if oriented { main } else { *faces.iter().find(|f| **f != main).unwrap() };
            let want = rot.apply(p);
            ensure!(
                now == want && got.oriented == (rot.face(on) == orientation_face(want)),
                "{r:?} takes {e:?} to {got:?}"
            );
        }
    }
    for w in Wing::SOLVED {
        let got = through(&w, r);
        ensure!(big::wing(5, 1, &got) == rot.apply(big::wing(5, 1, &w)), "{r:?} takes {w:?} to {got:?}");
    }
    for c in CenterEdge::SOLVED {
        let got = through(&c, r);
        ensure!(
            got.main_face == face(rot.face(face_ix(&c.main_face))) && got.side_face() == face(rot.face(face_ix(&c.side_face()))),
            "{r:?} takes {c:?} to {got:?}"
        );
    }
    for c in CenterWing::SOLVED {
        let got = through(&c, r);
        ensure!(big::center_wing(7, 1, 2, &got) == rot.apply(big::center_wing(7, 1, 2, &c)), "{r:?} takes {c:?} to {got:?}");
    }
    #[cfg(verif_hooks)]
    for c in barbarosa::cube_n::pieces::CenterCorner::SOLVED {
        let got = through(&c, r);
        ensure!(big::center_corner(4, 1, &got) == rot.apply(big::center_corner(4, 1, &c)), "{r:?} takes {c:?} to {got:?}");
    }
    for g in group() {
        let (a, b) = (g.face(0), g.face(1));
        let Ok(o) = Orientation::try_from([face(a), face(b)]) else {
            fail!("no orientation with R at {} and U at {}", name(a), name(b))
        };
        let got = through(&o, r);
        ensure!(
            face_ix(got.r_face()) == rot.face(a) && face_ix(&got.u_face()) == rot.face(b),
            "{r:?} takes {o:?} to {got:?}"
        );
    }
    Ok(())
}

fn rotated_alg((ts, r): &(Vec<Turn>, Vec<(u8, u8)>), t: &mut Tally) -> Res {
    let mut alg: Alg<AxisMove> = Alg::new(ts.iter().map(|t| axis_move(t.face, t.q)).collect());
    let mut rot = Rot::ID;
    for (a, q) in r {
        alg.rotate(&rotation(*a as usize, *q));
        rot = rot.then(&Rot::quarter(*a as usize, *q as i32));
    }
    t.nontrivial_if(!ts.is_empty() && rot != Rot::ID);
    // turning the cube, doing the rotated moves and turning it back is the same as the moves
    let mut want = Model::solved(3);
    want.turns(ts);
    let mut got = Model::solved(3);
    got.rotate(&rot);
    got.turns(&alg.moves.iter().map(turn_of).collect::<Vec<_>>());
    got.rotate(&rot.inverse());
    ensure!(got == want, "rotated by {r:?} the sequence does something else: {alg}");
    ensure!(alg.moves.len() == ts.len(), "{} moves become {}", ts.len(), alg.moves.len());
    Ok(())
}

fn rotated_long((long, r): &(Long, Vec<(u8, u8)>), t: &mut Tally) -> Res {
    let ts = long.turns(0);
    let mut alg: Alg<AxisMove> = Alg::new(ts.iter().map(|t| axis_move(t.face, t.q)).collect());
    let mut rot = Rot::ID;
    for (a, q) in r {
        alg.rotate(&rotation(*a as usize, *q));
        rot = rot.then(&Rot::quarter(*a as usize, *q as i32));
    }
    t.nontrivial_if(!ts.is_empty() && rot != Rot::ID);
    ensure!(alg.moves.len() == ts.len(), "{} moves become {}", ts.len(), alg.moves.len());
    for (i, (m, t)) in alg.moves.iter().zip(&ts).enumerate() {
        let (want, got) = (rot.face(t.face), turn_of(m));
        ensure!(got.face == want && got.q == t.q, "rotated by {r:?}, move {i} of {} is {m}, from face {} by {} quarters", ts.len(), FACES[t.face as usize], t.q);
    }
    Ok(())
}

// ---------------------------------------------------------------- places and pieces

fn face_pair((f, g): &(u8, u8), t: &mut Tally) -> Res {
    let (f, g) = (*f, *g);
    let (a, b) = (face(f), face(g));
    let parallel = f % 3 == g % 3;
    t.nontrivial_if(!parallel);
    let (v, w) = (face_vec(f), face_vec(g));
    let place: V = [0, 1, 2].map(|i| 2 * (v[i] + w[i]));
    let which = format!("{}{}", name(f), name(g));
    let position = Edge::position_from_faces([a.clone(), b.clone()]);
    let edge = Edge::try_from([a.clone(), b.clone()]);
    let center = CenterEdge::try_from_faces(a.clone(), b.clone());
    if parallel {
        let axes = [
            position.map(|_| ()).map_err(|e| same_axis(&e)),
            edge.map(|_| ()).map_err(|e| same_axis(&e)),
            center.map(|_| ()).map_err(|e| same_axis(&e)),
            Wing::try_from_faces([a.clone(), b.clone()], Direction::Positive).map(|_| ()).map_err(|e| same_axis(&e)),
            Wing::try_from_faces([a, b], Direction::Negative).map(|_| ()).map_err(|e| same_axis(&e)),
        ];
        ensure!(axes == [Err(face_axis(f)); 5], "pieces between the parallel faces {which}: {axes:?}");
        return Ok(());
    }
    let (Ok(position), Ok(edge), Ok(center)) = (position, edge, center) else { fail!("no pieces between {which}") };
    ensure!(edge_pos(3, position) == place, "the edge between {which} is at {:?}", edge_pos(3, position));
    ensure!(edge.position() == position && edge.oriented, "the edge made from {which} is {edge:?}");
    ensure!(
        center.main_face == a && center.side_face() == b && v[axis_ix(center.normal_axis())] == 0 && w[axis_ix(center.normal_axis())] == 0,
        "the center edge made from {which} is {center:?}"
    );
    let handed = CenterEdge::new(a.clone(), center.handedness, b.direction);
    ensure!(handed == center, "the center edge made from {which} by handedness is {handed:?}");
    for s in [1, -1] {
        let Ok(wing) = Wing::try_from_faces([a.clone(), b.clone()], dir(s)) else { fail!("no wing between {which}") };
        let mut want = [0, 1, 2].map(|i| 4 * (v[i] + w[i]));
        want[axis_ix(position.0)] = 2 * s;
        ensure!(big::wing(5, 1, &wing) == want, "the wing between {which} on the {s} side is at {:?}", big::wing(5, 1, &wing));
        let same = Wing::new(position.0, position.1, dir(s));
        ensure!(
            same == wing && wing.normal_axis() == position.0 && wing.slice_position() == position.1 && wing.normal_direction() == dir(s),
            "the wing between {which} on the {s} side is {wing:?}, made by place {same:?}"
        );
        ensure!(wing.position() == wing && wing.is_solved(&same), "the wing {wing:?} is not at its own place");
        let cw = CenterWing::new(a.clone(), center.handedness, b.direction, dir(s));
        let mut want = [0, 1, 2].map(|i| 6 * v[i] + 4 * w[i]);
        want[axis_ix(position.0)] = 2 * s;
        ensure!(big::center_wing(7, 1, 2, &cw) == want, "the center wing on {which} on the {s} side is {cw:?}");
        ensure!(CenterWing::SOLVED.contains(&cw), "the center wing {cw:?} is not in the list of places");
        ensure!(Wing::SOLVED.contains(&wing), "the wing {wing:?} is not in the list of places");
    }
    Ok(())
}

fn edge_place((i, oriented): &(usize, bool), t: &mut Tally) -> Res {
    t.nontrivial();
    let p = edge_home(*i);
    let e = edge_at(p, *oriented);
    let on: HashSet<u8> = (0..6).filter(|f| dot(face_vec(*f), p) > 0).collect();
    let which = name_place(3, p);
    let listed: Vec<u8> = e.faces().iter().map(face_ix).collect();
    ensure!(listed.len() == 2 && listed.iter().copied().collect::<HashSet<_>>() == on, "the faces of {which} are {:?}", e.faces());
    let main = face_ix(&Edge::orientation_face(e.position()));
    let side = face_ix(&Edge::non_orientation_face(e.position()));
    ensure!(main == orientation_face(p), "the orientation face of {which} is {}", name(main));
    ensure!(HashSet::from([main, side]) == on, "the other face of {which} is {}", name(side));
    for a in 0..3 {
        let got = Edge::direction_on_axis(&e.position(), axis(a)).map(sign).unwrap_or(0);
        ensure!(got == p[a].signum(), "{which} on the axis {:?} is {got}", axis(a));
    }
    let c = e.coordinates();
    ensure!((0..3).all(|a| c[a] == p[a] as f32 / 2.0), "the coordinates of {which} are {c:?}");
    let mut flipped = e.clone();
    flipped.flip();
    ensure!(flipped == edge_at(p, !oriented) && e.clone().flipped() == flipped, "{e:?} flipped is {flipped:?}");
    for a in 0..3 {
        for q in 1..4 {
            let r = AxisRotation::new(axis(a), amount(q));
            let flips = e.clone().rotated(&r).oriented != e.oriented;
            ensure!(r.flips_edge_orientation(e.normal_axis) == flips, "whether {r:?} flips an edge along {:?}", e.normal_axis);
        }
    }
    ensure!(Edge::new(e.normal_axis, e.slice_position, *oriented) == e, "a new edge at {which}");
    ensure!(Edge::oriented(e.normal_axis, e.slice_position) == edge_at(p, true), "a new oriented edge at {which}");
    for j in 0..12 {
        let home = edge_at(edge_home(j), true).position();
        ensure!(e.is_solved(&home) == (*oriented && j == *i), "whether {e:?} is solved at {}", name_place(3, edge_home(j)));
    }
    Ok(())
}

fn corner_place((i, o): &(usize, usize), t: &mut Tally) -> Res {
    t.nontrivial();
    let p = corner_home(*i);
    let c = corner_at(p, *o);
    let which = name_place(3, p);
    let on: HashSet<u8> = (0..6).filter(|f| dot(face_vec(*f), p) > 0).collect();
    let listed: Vec<u8> = c.faces().iter().map(face_ix).collect();
    ensure!(listed.len() == 3 && listed.iter().copied().collect::<HashSet<_>>() == on, "the faces of {which} are {:?}", c.faces());
    let x = c.coordinates();
    ensure!((0..3).all(|a| x[a] == p[a] as f32 / 2.0), "the coordinates of {which} are {x:?}");
    // a third of a turn counter-clockwise about the corner, seen from outside
    let third = group()
        .iter()
        .find(|g| {
            g.apply(p) == p && **g != Rot::ID && {
                // the axis of a right-handed (counter-clockwise) rotation points to the viewer
                let v = [1, 0, 0];
                let x = cross(v, g.apply(v));
                dot(x, p) > 0
            }
        })
        .unwrap();
    let sticker = face_vec(face_of(*o, p[*o]));
    let want = face_axis(vec_face(third.apply(sticker)));
    let mut twisted = c.clone();
    twisted.twist();
    ensure!(twisted == corner_at(p, want), "{c:?} twisted is {twisted:?}");
    let next = Corner::next_axis(&c.position, &c.orientation_axis);
    ensure!(axis_ix(next) == want, "at {which} the axis after {:?} is {next:?}", c.orientation_axis);
    ensure!(c.is_oriented() == (*o == 1), "whether {c:?} is oriented");
    let mut steps = 0;
    let mut s = face_vec(face_of(1, p[1]));
    while s != sticker {
        s = third.apply(s);
        steps += 1;
    }
    ensure!(c.orientation_index() == steps, "{c:?} is {} twists from oriented, not {steps}", c.orientation_index());
    ensure!(Corner::new(c.position, axis(*o)) == c, "a new corner at {which}");
    ensure!(Corner::oriented(c.position) == corner_at(p, 1), "a new oriented corner at {which}");
    for j in 0..8 {
        let home = corner_at(corner_home(j), 1).position();
        ensure!(c.is_solved(&home) == (*o == 1 && j == *i), "whether {c:?} is solved at {}", name_place(3, corner_home(j)));
    }
    Ok(())
}

/// A piece moves with a turn exactly if it is on the turned face, and then as the rotation says
fn one_piece_turns((f, q): &(u8, u8), t: &mut Tally) -> Res {
    use barbarosa::generic::Movable;
    t.nontrivial();
    let m = axis_move(*f, *q);
    let r = AxisRotation::from(&m);
    let v = face_vec(*f);
    for p in edges() {
        for o in [true, false] {
            let e = edge_at(p, o);
            let want = if dot(p, v) > 0 { e.clone().rotated(&r) } else { e.clone() };
            ensure!(e.clone().moved(&m) == want, "{m} takes {e:?} to {:?}", e.clone().moved(&m));
        }
    }
    for p in corners() {
        for o in 0..3 {
            let c = corner_at(p, o);
            let want = if dot(p, v) > 0 { c.clone().rotated(&r) } else { c.clone() };
            ensure!(c.clone().moved(&m) == want, "{m} takes {c:?} to {:?}", c.clone().moved(&m));
        }
    }
    // arrays of pieces move piece by piece
    let a = Edge::SOLVED.moved(&m);
    ensure!((0..12).all(|i| a[i] == Edge::SOLVED[i].clone().moved(&m)), "{m} on an array of edges");
    let a = Corner::SOLVED.moved(&m);
    ensure!((0..8).all(|i| a[i] == Corner::SOLVED[i].clone().moved(&m)), "{m} on an array of corners");
    Ok(())
}

fn listed_places(_: &u8, t: &mut Tally) -> Res {
    t.nontrivial();
    ensure!(Axis::iter().map(axis_ix).collect::<Vec<_>>() == [0, 1, 2], "the axes are listed as {:?}", Axis::iter().collect::<Vec<_>>());
    let d: Vec<i32> = Direction::iter().map(sign).collect();
    ensure!(d.len() == 2 && d.contains(&1) && d.contains(&-1), "the directions are listed as {d:?}");
    let a: Vec<u8> = Amount::iter().map(amount_q).collect();
    ensure!(a.iter().copied().collect::<HashSet<_>>() == HashSet::from([1, 2, 3]) && a.len() == 3, "the amounts are listed as {a:?}");
    let moves: HashSet<Turn> = AxisMove::iter().map(|m| turn_of(&m)).collect();
    ensure!(moves.len() == 18 && AxisMove::iter().count() == 18, "the moves are listed as {:?}", AxisMove::iter().collect::<Vec<_>>());
    let all: HashSet<Turn> = AxisMove::all().iter().map(turn_of).collect();
    ensure!(all == moves && AxisMove::all().len() == 18, "all moves are {:?}", AxisMove::all());
    fn different<T: std::hash::Hash + Eq>(v: impl Iterator<Item = T>) -> usize {
        v.collect::<HashSet<_>>().len()
    }
    let n = [
        different(Corner::REFERENCE_POSITIONS.iter().map(|p| corner_pos(3, *p))),
        different(Edge::REFERENCE_POSITIONS.iter().map(|p| edge_pos(3, *p))),
        different(Wing::REFERENCE_POSITIONS.iter().map(|p| big::wing(5, 1, p))),
        different(CenterEdge::REFERENCE_POSITIONS.iter().map(|p| big::center_edge(5, 1, p))),
        different(CenterWing::REFERENCE_POSITIONS.iter().map(|p| big::center_wing(7, 1, 2, p))),
    ];
    ensure!(n == [8, 12, 24, 24, 48], "the places of the pieces are listed {n:?} times");
    Ok(())
}

/// A center piece is where it belongs if it shows on its own face, wherever on the face that is
fn center_home(k: &u8, t: &mut Tally) -> Res {
    t.nontrivial();
    fn faces(n: i32, v: Vec<V>) -> Vec<(usize, i32)> {
        v.iter().map(|v| (0..3).find(|a| v[*a].abs() == n - 1).map(|a| (a, v[a].signum())).expect("a place on a face")).collect()
    }
    macro_rules! pairs {
        ($piece:ty, $n:expr, $place:expr) => {{
            let of = faces($n, <$piece>::SOLVED.iter().map($place).collect());
            for (i, p) in <$piece>::SOLVED.iter().enumerate() {
                for (j, home) in <$piece>::REFERENCE_POSITIONS.iter().enumerate() {
                    ensure!(p.is_solved(home) == (of[i] == of[j]), "whether {p:?} is solved if it belongs to {home:?}");
                    ensure!(Piece::is_solved(p, home) == (of[i] == of[j]), "whether, as a piece, {p:?} is solved if it belongs to {home:?}");
                }
            }
        }};
    }
    match k {
        0 => pairs!(CenterEdge, 5, |p| big::center_edge(5, 1, p)),
        1 => pairs!(CenterWing, 7, |p| big::center_wing(7, 1, 2, p)),
        #[cfg(verif_hooks)]
        2 => pairs!(barbarosa::cube_n::pieces::center::corner::CenterCorner, 4, |p| big::center_corner(4, 1, p)),
        _ => {}
    }
    Ok(())
}

pub fn c25(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if it is not degenerate: the rotation moves something, the faces or axes are not parallel.");
    ctx.all("lists", vec![0u8], listed_places);
    ctx.all("center-homes", (0..3).collect(), center_home);
    ctx.all("faces", (0..6).collect(), one_face);
    ctx.all("axes", (0..3).flat_map(|a| (0..3).map(move |b| (a, b))).collect(), axis_pair);
    ctx.prop("on-a-slice", ctx.n(2_000, 50_000), || (0usize..3, any::<[i32; 3]>(), any::<[i32; 2]>()), on_slice);
    ctx.all("amounts", (1..4).collect(), amounts);
    ctx.all("face-pairs", (0..6).flat_map(|a| (0..6).map(move |b| (a, b))).collect(), face_pair);
    ctx.all("edges", (0..12).flat_map(|i| [true, false].map(|o| (i, o))).collect(), edge_place);
    ctx.all("corners", (0..8).flat_map(|i| [0, 1, 2].map(|o| (i, o))).collect(), corner_place);
    ctx.all("single-pieces", (0..6).flat_map(|f| (1..4).map(move |q| (f, q))).collect(), one_piece_turns);
    let rots = |v: &[(u8, u8)]| -> (Vec<AxisRotation>, Rot) {
        let mut all = Rot::ID;
        for (a, q) in v {
            all = all.then(&Rot::quarter(*a as usize, *q as i32));
        }
        (v.iter().map(|(a, q)| rotation(*a as usize, *q)).collect(), all)
    };
    let one: Vec<(u8, u8)> = (0..3).flat_map(|a| (1..4).map(move |q| (a, q))).collect();
    let mut few: Vec<Vec<(u8, u8)>> = vec![vec![]];
    few.extend(one.iter().map(|r| vec![*r]));
    few.extend(one.iter().flat_map(|a| one.iter().map(move |b| vec![*a, *b])));
    few.extend(one.iter().flat_map(|a| one.iter().flat_map({ let one = &one; move |b| one.iter().map(move |c| vec![*a, *b, *c]) })));
    ctx.all("up-to-three-rotations", few, |v, t| {
        let (r, all) = rots(v);
        all_things(&r, &all, t)
    });
    let some = || prop::collection::vec((0u8..3, 1u8..4), 0..12);
    ctx.prop("many-rotations", ctx.n(2_000, 50_000), some, |v, t| {
        let (r, all) = rots(v);
        all_things(&r, &all, t)
    });
    ctx.prop("rotated-long-sequences", ctx.n(400, 5_000), || (long(1 << 14), prop::collection::vec((0u8..3, 1u8..4), 1..4)), rotated_long);
    ctx.prop("rotated-sequences", ctx.n(4_000, 100_000), || (turns(12, 0), some()), rotated_alg);
}
