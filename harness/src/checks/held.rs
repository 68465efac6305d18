//! C05 and C06: held cubes and orientations.

use crate::{bridge::*, ctx::*, gen::*, model::*};
use barbarosa::{
    cube_n::{
        moves::{rotation::Rotatable, ExtendedAxisMove, QuarterAxisMove},
        AxisMove, Cube2, Cube3, Cube4, Cube5, Cube6, Cube7, CubeN, Orientable, Orientation,
    },
    generic::{Alg, Movable},
};
use proptest::prelude::*;

/// The rotation from the default orientation to the given one, read off where R and U are
fn held_as(o: &Orientation) -> Result<Rot, String> {
    let (r, u) = (face_ix(o.r_face()), face_ix(&o.u_face()));
    Rot::from_faces(r, u).ok_or_else(|| format!("R at {} and U at {} do not fit together", FACES[r as usize], FACES[u as usize]))
}

fn visible<C: Observe + CubeN>(c: &Orientable<C>) -> Option<Result<Vec<u8>, String>>
where
    Orientable<C>: Movable<ExtendedAxisMove>,
{
    let g = match held_as(&c.orientation) {
        Ok(g) => g,
        Err(e) => return Some(Err(e)),
    };
    Some(stickers(&c.base_cube)?.map(|s| rotate_stickers(<C as Observe>::N, &s, &g)))
}

fn agree<C: Observe + CubeN>(c: &Orientable<C>, m: &Model) -> Res
where
    Orientable<C>: Movable<ExtendedAxisMove>,
{
    let Some(v) = visible(c) else { return Ok(()) };
    let (got, want) = (v?, m.stickers());
    let n = <C as Observe>::N as usize;
    if let Some(i) = (0..got.len()).find(|i| got[*i] != want[*i]) {
        fail!(
            "on face {} (cell {}) the cube shows {} where the physical cube shows {}",
            FACES[i / (n * n)],
            i % (n * n),
            FACES.get(got[i] as usize).copied().unwrap_or('?'),
            FACES[want[i] as usize]
        );
    }
    Ok(())
}

/// A cube brought to some state and held in some way
fn held<C: Observe + CubeN>(setup: &[Turn], hold: (u8, u8)) -> Result<(Orientable<C>, Model), Fail>
where
    Orientable<C>: Movable<ExtendedAxisMove> + Movable<AxisMove>,
{
    let mut base = C::SOLVED;
    let mut m = Model::solved(<C as Observe>::N);
    for x in setup {
        let x = Turn { depth: x.depth.min(C::MAX_DEPTH), ..*x };
        base.turn(x);
        m.turn(x);
    }
    let g = held_in(hold);
    let orientation = Orientation::try_from([face(g.face(0)), face(g.face(1))]).map_err(|e| format!("orientation refused: {e}"))?;
    m.rotate(&g);
    Ok((Orientable { base_cube: base, orientation }, m))
}

fn held_in(hold: (u8, u8)) -> Rot {
    group()[(hold.0 as usize * 4 + hold.1 as usize) % 24]
}

/// How many ways there are to give a face turn
const WAYS: usize = 8;

/// A face turn, given in one of the forms that a held cube takes
fn give<C: Observe + CubeN>(c: &mut Orientable<C>, f: u8, q: u8, way: usize)
where
    Orientable<C>: Movable<ExtendedAxisMove> + Movable<AxisMove>,
{
    let quarter = |q: u8| QuarterAxisMove::new(face(f), dir(if q == 3 { -1 } else { 1 }));
    let merged = nr(&if f < 3 { (f, q, 0) } else { (f - 3, 0, q) });
    match way % WAYS {
        0 => c.apply(&Ext::Face(f, q).to_move()),
        1 => c.apply(&axis_move(f, q)),
        2 if q == 2 => <Orientable<C> as Movable<[QuarterAxisMove]>>::apply(c, &[quarter(1), quarter(1)]),
        2 => c.apply(&quarter(q)),
        3 => c.apply(&merged),
        4 => c.apply(&wide::<0>(Turn::new(f, q, 0))),
        5 => <Orientable<C> as Movable<Alg<AxisMove>>>::apply(c, &Alg::new(vec![axis_move(f, q)])),
        6 => c.apply(&ExtendedAxisMove::from(axis_move(f, q))),
        _ => *c = c.clone().moved(&axis_move(f, q)),
    }
}

/// `setup` brings the cube to some state and orientation, and every move of `ms` is judged.
fn play<C: Observe + CubeN>(setup: &[Turn], hold: (u8, u8), ms: &[Ext], t: &mut Tally) -> Res
where
    Orientable<C>: Movable<ExtendedAxisMove> + Movable<AxisMove>,
{
    let (mut c, mut m) = held::<C>(setup, hold)?;
    let g = held_in(hold);
    agree(&c, &m)?;
    for (i, x) in ms.iter().enumerate() {
        match x {
            Ext::Face(f, q) => give(&mut c, *f, *q, i),
            _ => c.apply(&x.to_move()),
        }
        x.act(&mut m);
        agree(&c, &m).map_err(|e| e.within(&format!("after move {} ({x:?})", i + 1)))?;
        t.class(match x {
            Ext::Face(..) => "face".into(),
            Ext::Wide(_, _, d) if (*d as i64) < <C as Observe>::N as i64 - 1 => format!("wide {d}"),
            Ext::Wide(..) => "wide, whole cube".into(),
            Ext::Rotate(..) => "rotation".into(),
            Ext::Slice(_, _, w) => format!("slice, wide form {w}"),
        });
        if g != Rot::ID {
            t.class("judged while held away from the default");
        }
    }
    t.nontrivial_if(!ms.is_empty() && g != Rot::ID && setup.len() > 1);
    Ok(())
}

fn c05_for<C: Observe + CubeN>(ctx: &Ctx, name: &str, cases: u32)
where
    Orientable<C>: Movable<ExtendedAxisMove> + Movable<AxisMove>,
{
    // each kind of move in each of the 24 orientations, from one scrambled state
    let scramble: Vec<Turn> = (0u32..14).map(|i| Turn::new((i * 7 % 6) as u8, (i % 3) as u8 + 1, i % (C::MAX_DEPTH + 1))).collect();
    let mut every = vec![];
    let mut moves = vec![];
    for q in 1..4 {
        for f in 0..6 {
            moves.push(Ext::Face(f, q));
            for d in (0..<C as Observe>::N as u32 + 1).chain([u32::MAX - 1, u32::MAX]) {
                moves.push(Ext::Wide(f, q, d));
            }
        }
        for a in 0..3 {
            moves.push(Ext::Rotate(a, q));
            moves.push(Ext::Slice(a, q, false));
            moves.push(Ext::Slice(a, q, true));
        }
    }
    for h in 0u8..24 {
        for m in &moves {
            every.push(((h / 4, h % 4), *m));
        }
    }
    ctx.all(&format!("every-move-every-hold-{name}"), every, |(h, m), t| play::<C>(&scramble, *h, &[*m], t));
    let mut ways = vec![];
    for h in 0u8..24 {
        for f in 0..6u8 {
            for q in 1..4u8 {
                for way in 0..WAYS as u8 {
                    ways.push(((h / 4, h % 4), f, q, way));
                }
            }
        }
    }
    ctx.all(&format!("every-form-of-a-face-turn-{name}"), ways, |(h, f, q, way), t| {
        let (mut c, mut m) = held::<C>(&scramble, *h)?;
        t.nontrivial_if(held_in(*h) != Rot::ID);
        give(&mut c, *f, *q, *way as usize);
        Ext::Face(*f, *q).act(&mut m);
        agree(&c, &m)?;
        // both faces of an axis at once
        let (p, n) = (q % 4, *way % 3 + 1);
        c.apply(&nr(&(f % 3, p, n)));
        Ext::Face(f % 3, p).act(&mut m);
        Ext::Face(f % 3 + 3, n).act(&mut m);
        agree(&c, &m).map_err(|e| e.within("after two opposite faces"))
    });
    ctx.prop(
        &format!("histories-{name}"),
        cases,
        || (turns(8, C::MAX_DEPTH), (0u8..6, 0u8..4), prop::collection::vec(ext(), 0..16)),
        |(s, h, ms), t| play::<C>(s, *h, ms, t),
    );
    ctx.prop(
        &format!("very-long-{name}"),
        cases / 100,
        || (long(1 << 12), (0u8..6, 0u8..4)),
        |(l, h), t| {
            let ms = l.exts();
            let (mut c, mut m) = held::<C>(&[], *h)?;
            let every = ms.len() / 8 + 1;
            for (i, x) in ms.iter().enumerate() {
                c.apply(&x.to_move());
                x.act(&mut m);
                if i % every == 0 || i + 1 == ms.len() {
                    agree(&c, &m).map_err(|e| e.within(&format!("after {} moves", i + 1)))?;
                }
            }
            t.nontrivial_if(ms.len() > 1);
            // the same as one sequence
            let (mut whole, _) = held::<C>(&[], *h)?;
            <Orientable<C> as Movable<Alg<ExtendedAxisMove>>>::apply(&mut whole, &Alg::new(ms.iter().map(|x| x.to_move()).collect::<Vec<_>>()));
            ensure!(whole == c, "the {} moves as one sequence lead elsewhere", ms.len());
            Ok(())
        },
    );
}

pub fn c05(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if the cube is scrambled and held away from the default orientation and at least one move is judged.");
    if Cube4::new_hidden() {
        ctx.assume("the pieces of the 4x4 to 7x7 were not accessible in this build (guarded hook unavailable): only 2x2 and 3x3 judged");
    }
    c05_for::<Cube2>(ctx, "2x2", ctx.n(8000, 200_000));
    c05_for::<Cube3>(ctx, "3x3", ctx.n(6000, 150_000));
    c05_for::<Cube4>(ctx, "4x4", ctx.n(2500, 80_000));
    c05_for::<Cube5>(ctx, "5x5", ctx.n(1500, 50_000));
    c05_for::<Cube6>(ctx, "6x6", ctx.n(1200, 40_000));
    c05_for::<Cube7>(ctx, "7x7", ctx.n(800, 30_000));
}

trait Hidden {
    fn new_hidden() -> bool;
}

impl<C: Observe> Hidden for C {
    fn new_hidden() -> bool {
        C::SOLVED.seen().is_none()
    }
}

// ---------------------------------------------------------------- C06

pub fn c06(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if the orientation is not the default one.");
    let pairs: Vec<(u8, u8)> = (0..6).flat_map(|r| (0..6).map(move |u| (r, u))).collect();
    ctx.all("every-pair-of-faces", pairs, |&(r, u), t| {
        let built = Orientation::try_from([face(r), face(u)]);
        if r % 3 == u % 3 {
            ensure!(built.is_err(), "an orientation with R at {} and U at {} is not refused", FACES[r as usize], FACES[u as usize]);
            return Ok(());
        }
        let o = built.map_err(|e| format!("R at {} and U at {} is refused: {e}", FACES[r as usize], FACES[u as usize]))?;
        t.nontrivial_if((r, u) != (0, 1));
        ensure!(face_ix(o.r_face()) == r, "it reports R at {} instead of {}", o.r_face(), FACES[r as usize]);
        ensure!(face_ix(&o.u_face()) == u, "it reports U at {} instead of {}", o.u_face(), FACES[u as usize]);
        leads_to(&o)?;
        ensure!((o == Orientation::default()) == ((r, u) == (0, 1)), "comparison with the default orientation is wrong");
        // rotating it
        let g = Rot::from_faces(r, u).unwrap();
        for a in 0..3 {
            for q in 1..4 {
                let turned = o.clone().rotated(&rotation(a, q));
                same(&turned, &g.then(&Rot::quarter(a, q as i32)))
                    .map_err(|e| format!("after the rotation {:?}: {e}", rotation(a, q)))?;
            }
        }
        Ok(())
    });
    ctx.all("default", vec![()], |_, _| {
        let d = Orientation::default();
        same(&d, &Rot::ID)?;
        ensure!(d.rotations().count() == 0, "the default orientation lists rotations");
        Ok(())
    });
    ctx.prop(
        "rotation-histories",
        ctx.n(20_000, 300_000),
        || (0u8..24, prop::collection::vec((0usize..3, 1u8..4), 0..12)),
        |(start, rots), t| {
            let mut g = group()[*start as usize];
            let mut o = Orientation::try_from([face(g.face(0)), face(g.face(1))]).map_err(|e| e.to_string())?;
            for (a, q) in rots {
                o.rotate(&rotation(*a, *q));
                g = g.then(&Rot::quarter(*a, *q as i32));
                same(&o, &g)?;
            }
            t.nontrivial_if(g != Rot::ID);
            leads_to(&o)?;
            // equal exactly if R and U are at the same places
            let other = Orientation::try_from([face(g.face(0)), face(g.face(1))]).map_err(|e| e.to_string())?;
            ensure!(o == other, "the orientation differs from the one built from its own faces");
            let first = group()[*start as usize];
            let first_o = Orientation::try_from([face(first.face(0)), face(first.face(1))]).map_err(|e| e.to_string())?;
            ensure!((o == first_o) == (g == first), "comparing two orientations gives {}", o == first_o);
            Ok(())
        },
    );
    c06_long(ctx);
}

fn c06_long(ctx: &Ctx) {
    ctx.prop("very-long", ctx.n(300, 5_000), || (0u8..24, long(1 << 16)), |(start, l), t| {
        let mut g = group()[*start as usize];
        let mut o = Orientation::try_from([face(g.face(0)), face(g.face(1))]).map_err(|e| e.to_string())?;
        for (i, x) in l.turns(0).iter().enumerate() {
            o.rotate(&rotation(x.face as usize % 3, x.q));
            g = g.then(&Rot::quarter(x.face as usize % 3, x.q as i32));
            same(&o, &g).map_err(|e| format!("after {} rotations: {e}", i + 1))?;
        }
        t.nontrivial_if(g != Rot::ID);
        leads_to(&o)?;
        let other = Orientation::try_from([face(g.face(0)), face(g.face(1))]).map_err(|e| e.to_string())?;
        ensure!(o == other, "the orientation differs from the one built from its own faces");
        Ok(())
    });
}

fn same(o: &Orientation, g: &Rot) -> Result<(), String> {
    let (r, u) = (face_ix(o.r_face()), face_ix(&o.u_face()));
    if (r, u) != (g.face(0), g.face(1)) {
        return Err(format!(
            "R is at {} and U at {} instead of {} and {}",
            FACES[r as usize],
            FACES[u as usize],
            FACES[g.face(0) as usize],
            FACES[g.face(1) as usize]
        ));
    }
    Ok(())
}

/// The listed rotations lead from the default orientation to this one, in the model and in the code
fn leads_to(o: &Orientation) -> Res {
    let want = Rot::from_faces(face_ix(o.r_face()), face_ix(&o.u_face())).ok_or("faces do not fit together")?;
    let mut got = Rot::ID;
    let mut code = Orientation::default();
    for r in o.rotations() {
        got = got.then(&Rot::quarter(axis_ix(r.axis), amount_q(r.amount) as i32));
        code.rotate(&r);
    }
    ensure!(got == want, "its rotations {:?} lead elsewhere", o.rotations().collect::<Vec<_>>());
    ensure!(code == *o, "its rotations applied to the default orientation give {code:?}");
    Ok(())
}
