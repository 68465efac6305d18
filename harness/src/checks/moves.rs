//! C22 and C24: moves recovered from states, and the depth of wide moves.

use crate::{bridge::*, ctx::*, gen::*, model::*, tables::turn_no};
use barbarosa::{
    cube_n::{
        moves::{wide::WideMoveCreationError, Amount, ExtendedAxisMove, QuarterAxisMove, WideAxisMove},
        space::{Axis, Direction, Face},
        AxisMove, Cube2, Cube3, Cube4, Cube5, Cube6, Cube7, CubeN, Orientable, Orientation,
    },
    generic::{alg::TryFromStatesError, moves::connect, Alg, Movable, Move, Parsable},
};
use proptest::prelude::*;
use rand::{rngs::StdRng, Rng, SeedableRng};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::fmt::Debug;
use strum::IntoEnumIterator;

// ---------------------------------------------------------------- C22

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Step {
    Turn(u8, u8),
    /// the state is recorded twice
    Same,
    /// more than one turn between two records
    Jump(Vec<(u8, u8)>),
}

fn step() -> impl Strategy<Value = Step> + Clone {
    let ft = || (0u8..6, 1u8..4);
    prop_oneof![
        16 => ft().prop_map(|(f, q)| Step::Turn(f, q)),
        1 => Just(Step::Same),
        1 => prop::collection::vec(ft(), 2..4).prop_map(Step::Jump),
        // turns of one face or of one axis, which may amount to one turn or none
        1 => (0u8..3, prop::collection::vec((prop::bool::ANY, 1u8..4), 2..4))
            .prop_map(|(a, v)| Step::Jump(v.into_iter().map(|(s, q)| (a + if s { 3 } else { 0 }, q)).collect())),
    ]
}

fn steps() -> impl Strategy<Value = Vec<Step>> + Clone {
    let clean = prop::collection::vec((0u8..6, 1u8..4).prop_map(|(f, q)| Step::Turn(f, q)), 0..25);
    prop_oneof![clean, prop::collection::vec(step(), 0..25)]
}

impl Step {
    fn turns(&self) -> Vec<(u8, u8)> {
        match self {
            Step::Turn(f, q) => vec![(*f, *q)],
            Step::Same => vec![],
            Step::Jump(v) => v.clone(),
        }
    }
}

/// What two states of a cube can differ in: places, and how corners and edges are turned
fn key(m: &Model) -> Vec<(V, Option<Rot>)> {
    m.cubies
        .iter()
        .map(|c| (c.pos, matches!(kind(m.n, c.home), Kind::Corner | Kind::Edge).then_some(c.rot)))
        .collect()
}

/// The turn that makes `b` of `a`
fn turn_between(a: &Model, b: &Model) -> Option<(u8, u8)> {
    let want = key(b);
    (0u8..6).flat_map(|f| (1u8..4).map(move |q| (f, q))).find(|(f, q)| {
        let mut m = a.clone();
        m.turn(Turn::new(*f, *q, 0));
        key(&m) == want
    })
}

/// `want[i]`: the moves that lead from state i to the next one (none: nothing connects them)
fn recover<C>(states: &[C], want: &[Option<Vec<AxisMove>>], t: &mut Tally) -> Res
where
    C: Movable<AxisMove> + Eq + Clone + Debug,
{
    let broken = want.iter().position(|w| w.is_none());
    t.class(match (broken, states.len()) {
        (_, 0 | 1) => "no steps",
        (None, _) => "connected",
        (Some(0), _) => "broken at the start",
        (Some(i), n) if i + 2 == n => "broken at the end",
        _ => "broken in the middle",
    });
    for (i, w) in want.iter().enumerate() {
        let got = connect::<AxisMove, C>(&states[i], &states[i + 1]);
        match (&got, w) {
            (None, None) => (),
            (Some(m), Some(w)) => ensure!(w.contains(m), "{m} is said to lead from state {i} to the next, {w:?} does"),
            (None, Some(w)) => fail!("no move is found from state {i} to the next, {w:?} leads there"),
            (Some(m), None) => fail!("{m} is said to lead from state {i} to the next, no move does"),
        }
    }
    let ways: [(&str, Result<Alg<AxisMove>, TryFromStatesError<AxisMove, C>>); 3] = [
        ("Alg::try_from_states", Alg::try_from_states(states)),
        ("Alg::try_from", Alg::try_from(states)),
        ("try_into", states.try_into()),
    ];
    for (name, got) in ways {
        match (got, broken) {
            (Ok(alg), None) => {
                ensure!(alg.moves.len() == want.len(), "{name}: {} moves for {} steps", alg.moves.len(), want.len());
                let mut now = states.first().cloned();
                for (i, m) in alg.moves.iter().enumerate() {
                    let now = now.as_mut().unwrap();
                    <C as Movable<AxisMove>>::apply(now, m);
                    ensure!(*now == states[i + 1], "{name}: after move {} of {alg} the state is not the recorded one", i + 1);
                    ensure!(want[i].as_ref().unwrap().contains(m), "{name}: move {} is {m}, which does not lead there", i + 1);
                }
                if let (Some(first), Some(last)) = (states.first(), states.last()) {
                    let mut all = first.clone();
                    <C as Movable<Alg<AxisMove>>>::apply(&mut all, &alg);
                    ensure!(all == *last, "{name}: {alg} as a whole does not lead to the last state");
                }
            }
            (Err(TryFromStatesError::NotConnected(a, b, _)), Some(i)) => {
                ensure!(a == states[i] && b == states[i + 1], "{name}: the error names another pair than the first unconnected one ({i})");
            }
            (Ok(alg), Some(i)) => fail!("{name}: gives {alg}, but no move leads from state {i} to the next"),
            (Err(_), None) => fail!("{name}: fails although a move leads from each state to the next"),
        }
    }
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct History {
    setup: Vec<Turn>,
    steps: Vec<Step>,
    /// leave out everything, also the first state
    nothing: bool,
    /// equal states recur: the part of the history before here is recorded again at its end
    again: u8,
    hold: u8,
}

fn history(depth: u32) -> impl Strategy<Value = History> + Clone {
    (turns(12, depth), steps(), prop::bool::weighted(0.01), prop_oneof![3 => Just(0u8), 1 => 1u8..6], 0u8..24)
        .prop_map(|(setup, steps, nothing, again, hold)| History { setup, steps, nothing, again, hold })
}

fn cube_history<C: Observe>(h: &History, t: &mut Tally) -> Result<(Vec<C>, Vec<Option<Vec<AxisMove>>>), Fail> {
    let mut cube = C::SOLVED;
    let mut m = Model::solved(C::N);
    for x in &h.setup {
        let x = Turn { depth: x.depth.min(C::MAX_DEPTH), ..*x };
        cube.turn(x);
        m.turn(x);
    }
    let (mut states, mut models) = (vec![cube.clone()], vec![m.clone()]);
    for s in &h.steps {
        for (f, q) in s.turns() {
            cube.turn(Turn::new(f, q, 0));
            m.turn(Turn::new(f, q, 0));
        }
        states.push(cube.clone());
        models.push(m.clone());
    }
    for i in 0..(h.again as usize).min(states.len()) {
        states.push(states[i].clone());
        models.push(models[i].clone());
    }
    if h.nothing {
        states.clear();
        models.clear();
    }
    let want: Vec<Option<Vec<AxisMove>>> =
        models.windows(2).map(|w| turn_between(&w[0], &w[1]).map(|(f, q)| vec![axis_move(f, q)])).collect();
    t.nontrivial_if(want.iter().flatten().count() >= 2);
    Ok((states, want))
}

fn recorded<C: Observe + Eq + Debug>(h: &History, t: &mut Tally) -> Res {
    let (states, want) = cube_history::<C>(h, t)?;
    recover(&states, &want, t)
}

/// The same on a cube that is held in some way. A turn then is of the face that the viewer sees.
fn recorded_held<C: Observe + CubeN + Eq + Debug>(h: &History, t: &mut Tally) -> Res
where
    Orientable<C>: Movable<ExtendedAxisMove> + Movable<AxisMove>,
{
    let (states, want) = cube_history::<C>(h, t)?;
    let g = group()[h.hold as usize % 24];
    let o = Orientation::try_from([face(g.face(0)), face(g.face(1))]).map_err(|e| format!("orientation refused: {e}"))?;
    let states: Vec<Orientable<C>> = states.into_iter().map(|c| Orientable { base_cube: c, orientation: o.clone() }).collect();
    let seen = |m: &AxisMove| {
        let x = turn_of(m);
        axis_move(g.face(x.face), x.q)
    };
    let want: Vec<_> = want.into_iter().map(|w| w.map(|w| w.iter().map(seen).collect())).collect();
    recover(&states, &want, t)
}

/// A single piece: many moves may lead to the next state
fn recorded_corner(start: (usize, u8), steps: &[Step], t: &mut Tally) -> Res {
    let home = corner_home(start.0 % 8);
    let mut m = Model::solved(3);
    m.cubies.retain(|c| c.home == home);
    let rots: Vec<Rot> = rots_taking(home, home).collect();
    m.cubies[0].rot = rots[start.1 as usize % rots.len()];
    let see = |m: &Model| corner_at(m.cubies[0].pos, face_axis(m.cubies[0].rot.face(face_of(1, home[1]))));
    one_piece(m, see, steps, t)
}

fn recorded_edge(start: (usize, u8), steps: &[Step], t: &mut Tally) -> Res {
    let home = edge_home(start.0 % 12);
    let mut m = Model::solved(3);
    m.cubies.retain(|c| c.home == home);
    let rots: Vec<Rot> = rots_taking(home, home).collect();
    m.cubies[0].rot = rots[start.1 as usize % rots.len()];
    let see = |m: &Model| {
        let c = &m.cubies[0];
        edge_at(c.pos, c.rot.face(orientation_face(home)) == orientation_face(c.pos))
    };
    one_piece(m, see, steps, t)
}

fn one_piece<P: Movable<AxisMove> + Eq + Clone + Debug>(mut m: Model, see: impl Fn(&Model) -> P, steps: &[Step], t: &mut Tally) -> Res {
    let mut models = vec![m.clone()];
    for s in steps {
        for (f, q) in s.turns() {
            m.turn(Turn::new(f, q, 0));
        }
        models.push(m.clone());
    }
    let states: Vec<P> = models.iter().map(&see).collect();
    let mut several = false;
    let want: Vec<Option<Vec<AxisMove>>> = models
        .windows(2)
        .map(|w| {
            let target = see(&w[1]);
            let all: Vec<AxisMove> = (0u8..6)
                .flat_map(|f| (1u8..4).map(move |q| (f, q)))
                .filter(|(f, q)| {
                    let mut m = w[0].clone();
                    m.turn(Turn::new(*f, *q, 0));
                    see(&m) == target
                })
                .map(|(f, q)| axis_move(f, q))
                .collect();
            several |= all.len() > 1;
            (!all.is_empty()).then_some(all)
        })
        .collect();
    t.nontrivial_if(want.len() >= 2);
    if several {
        t.class("several moves lead to the next state");
    }
    recover(&states, &want, t)
}

pub fn c22(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if it has at least two steps that a move makes.");
    ctx.all("enumerated-moves", vec![()], |_, t| {
        t.nontrivial();
        let all: Vec<AxisMove> = AxisMove::iter().collect();
        ensure!(all.len() == 18 && AxisMove::all().to_vec() == all, "{} moves are enumerated", all.len());
        for f in 0u8..6 {
            for q in 1u8..4 {
                let n = all.iter().filter(|m| turn_of(m) == Turn::new(f, q, 0)).count();
                ensure!(n == 1, "{} is enumerated {n} times", axis_move(f, q));
            }
        }
        Ok(())
    });
    // every pair of states up to two turns apart, and every middle turn
    let few: Vec<Vec<Step>> = {
        let ft: Vec<(u8, u8)> = (0u8..6).flat_map(|f| (1u8..4).map(move |q| (f, q))).collect();
        let mut v: Vec<Vec<Step>> = vec![vec![], vec![Step::Same], vec![Step::Same, Step::Same]];
        for a in &ft {
            v.push(vec![Step::Turn(a.0, a.1)]);
            for b in &ft {
                v.push(vec![Step::Turn(a.0, a.1), Step::Turn(b.0, b.1)]);
                v.push(vec![Step::Jump(vec![*a, *b])]);
                v.push(vec![Step::Turn(a.0, a.1), Step::Jump(vec![*b, *a]), Step::Turn(b.0, b.1), Step::Same]);
            }
        }
        v
    };
    let plain = |steps: &Vec<Step>| History { setup: vec![Turn::new(0, 1, 0), Turn::new(1, 2, 1), Turn::new(2, 3, 0)], steps: steps.clone(), nothing: false, again: 0, hold: 0 };
    ctx.all("few-steps-2", few.clone(), |s, t| recorded::<Cube2>(&plain(s), t));
    ctx.all("few-steps-3", few.clone(), |s, t| recorded::<Cube3>(&plain(s), t));
    ctx.all("few-steps-corner", few.clone(), |s, t| (0..24).try_for_each(|i| recorded_corner((i / 3, i as u8 % 3), s, t)));
    ctx.all("few-steps-edge", few, |s, t| (0..24).try_for_each(|i| recorded_edge((i / 2, i as u8 % 2), s, t)));
    ctx.prop("histories-2", ctx.n(30_000, 600_000), || history(0), recorded::<Cube2>);
    ctx.prop("histories-3", ctx.n(40_000, 900_000), || history(0), recorded::<Cube3>);
    ctx.prop("histories-4", ctx.n(3_000, 60_000), || history(1), recorded::<Cube4>);
    ctx.prop("histories-5", ctx.n(2_000, 40_000), || history(1), recorded::<Cube5>);
    ctx.prop("histories-6", ctx.n(1_500, 30_000), || history(2), recorded::<Cube6>);
    ctx.prop("histories-7", ctx.n(1_000, 20_000), || history(2), recorded::<Cube7>);
    ctx.prop("held-2", ctx.n(2_000, 60_000), || history(0), recorded_held::<Cube2>);
    ctx.prop("held-3", ctx.n(2_000, 60_000), || history(0), recorded_held::<Cube3>);
    ctx.prop("held-4", ctx.n(200, 6_000), || history(1), recorded_held::<Cube4>);
    ctx.prop("held-5", ctx.n(150, 4_000), || history(1), recorded_held::<Cube5>);
    ctx.prop("held-6", ctx.n(100, 3_000), || history(2), recorded_held::<Cube6>);
    ctx.prop("held-7", ctx.n(100, 3_000), || history(2), recorded_held::<Cube7>);
    let piece = || ((0usize..12, 0u8..3), steps());
    ctx.prop("corners", ctx.n(4_000, 100_000), piece, |(s, v), t| recorded_corner(*s, v, t));
    ctx.prop("edges", ctx.n(4_000, 100_000), piece, |(s, v), t| recorded_edge(*s, v, t));
    ctx.prop("very-long", ctx.n(25, 1_500), || (long(1 << 12), prop::bool::ANY, prop::collection::vec(any::<u16>(), 0..3)), |(c, small, same), t| if *small { recorded_long(c, same, State::cube2, t) } else { recorded_long(c, same, State::cube, t) });
    machines(ctx);
}

/// Long recordings of a cube, in which states recur. At some places a state is recorded twice.
fn recorded_long<C>(c: &Long, same: &[u16], make: impl Fn(&State) -> C, t: &mut Tally) -> Res
where
    C: Movable<AxisMove> + Eq + Clone + Debug,
{
    t.nontrivial();
    let ts = c.turns(0);
    let mut s = State::solved();
    let mut states = vec![make(&s)];
    let mut want = vec![];
    for x in &ts {
        s = s.turned(turn_no(*x));
        states.push(make(&s));
        want.push(Some(vec![axis_move(x.face, x.q)]));
    }
    // on a 2x2 the turns that lead from a state to the next are unique as well
    for i in same {
        let i = *i as usize % states.len();
        states.insert(i, states[i].clone());
        want.insert(i, None);
    }
    recover(&states, &want, t).map_err(|e| match e {
        Fail::Violation(m) => Fail::Violation(m.chars().take(300).collect::<String>()),
        k => k,
    })
}

// A machine that is no cube: states are numbers, and each of a few enumerable moves maps states to states

#[derive(Debug, Clone, PartialEq, Eq)]
struct Machine {
    /// next[move][state]
    next: Vec<Vec<u8>>,
    state: u8,
}

#[derive(Debug, Clone, PartialEq, Eq, strum::EnumIter)]
enum Button {
    A,
    B,
    C,
    D,
}

impl Move for Button {
    fn inverse(&self) -> Self {
        self.clone()
    }
}

impl Movable<Button> for Machine {
    fn apply(&mut self, m: &Button) {
        self.state = self.next[m.clone() as usize][self.state as usize];
    }
}

fn machines(ctx: &Ctx) {
    let mk = || {
        (1u8..7).prop_flat_map(|n| {
            (prop::collection::vec(prop::collection::vec(0..n, n as usize), 4), prop::collection::vec((0..n, prop::bool::weighted(0.85), 0usize..4), 0..20))
        })
    };
    // any relation between states, with moves that do nothing or do the same as others
    ctx.prop("any-machine", ctx.n(20_000, 500_000), mk, |(next, walk), t| {
        let mut ids: Vec<u8> = vec![];
        for (free, follow, b) in walk {
            match ids.last() {
                Some(s) if *follow => ids.push(next[*b][*s as usize]),
                _ => ids.push(*free),
            }
        }
        let states: Vec<Machine> = ids.iter().map(|s| Machine { next: next.clone(), state: *s }).collect();
        let can = |i: usize, b: usize| next[b][ids[i] as usize] == ids[i + 1];
        let steps = ids.len().saturating_sub(1);
        let broken = (0..steps).find(|i| !(0..4).any(|b| can(*i, b)));
        t.nontrivial_if(steps >= 2);
        t.class(if broken.is_some() { "broken" } else { "connected" });
        for i in 0..steps {
            match connect::<Button, Machine>(&states[i], &states[i + 1]) {
                Some(b) => ensure!(can(i, b.clone() as usize), "{b:?} is said to lead from {} to {}", ids[i], ids[i + 1]),
                None => ensure!(!(0..4).any(|b| can(i, b)), "no move is found from {} to {}", ids[i], ids[i + 1]),
            }
        }
        match (Alg::<Button>::try_from_states(&states), broken) {
            (Ok(alg), None) => {
                ensure!(alg.moves.len() == steps, "{} moves for {steps} steps", alg.moves.len());
                for (i, b) in alg.moves.iter().enumerate() {
                    ensure!(can(i, b.clone() as usize), "move {i} is {b:?}, which does not lead from {} to {}", ids[i], ids[i + 1]);
                }
                Ok(())
            }
            (Err(TryFromStatesError::NotConnected(a, b, _)), Some(i)) => {
                ensure!(a == states[i] && b == states[i + 1], "the error names {} and {}, the first unconnected pair is {} and {}", a.state, b.state, ids[i], ids[i + 1]);
                Ok(())
            }
            (Ok(_), Some(i)) => fail!("moves are given, but none leads from {} to {}", ids[i], ids[i + 1]),
            (Err(_), None) => fail!("an error is given although all states are connected"),
        }
    });
}

// ---------------------------------------------------------------- C24

const MAXIMA: [u32; 8] = [0, 1, 2, 3, 7, 1 << 20, u32::MAX - 1, u32::MAX];

macro_rules! for_max {
    ($ix:expr, $N:ident => $e:expr) => {
        match $ix % 8 {
            0 => { const $N: u32 = MAXIMA[0]; $e }
            1 => { const $N: u32 = MAXIMA[1]; $e }
            2 => { const $N: u32 = MAXIMA[2]; $e }
            3 => { const $N: u32 = MAXIMA[3]; $e }
            4 => { const $N: u32 = MAXIMA[4]; $e }
            5 => { const $N: u32 = MAXIMA[5]; $e }
            6 => { const $N: u32 = MAXIMA[6]; $e }
            _ => { const $N: u32 = MAXIMA[7]; $e }
        }
    };
}

/// A wide move of the code under test with any of the maxima
#[derive(Clone, Debug)]
enum Held {
    A(WideAxisMove<{ MAXIMA[0] }>),
    B(WideAxisMove<{ MAXIMA[1] }>),
    C(WideAxisMove<{ MAXIMA[2] }>),
    D(WideAxisMove<{ MAXIMA[3] }>),
    E(WideAxisMove<{ MAXIMA[4] }>),
    F(WideAxisMove<{ MAXIMA[5] }>),
    G(WideAxisMove<{ MAXIMA[6] }>),
    H(WideAxisMove<{ MAXIMA[7] }>),
}

trait Hold: Sized {
    fn hold(self) -> Held;
}

macro_rules! hold {
    ($($v:ident $i:literal),*) => { $(impl Hold for WideAxisMove<{ MAXIMA[$i] }> { fn hold(self) -> Held { Held::$v(self) } })* };
}
hold!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);

macro_rules! with {
    ($h:expr, $m:ident => $e:expr) => {
        match $h {
            Held::A($m) => $e,
            Held::B($m) => $e,
            Held::C($m) => $e,
            Held::D($m) => $e,
            Held::E($m) => $e,
            Held::F($m) => $e,
            Held::G($m) => $e,
            Held::H($m) => $e,
        }
    };
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    New(u8, u8, u32, u8),
    Widen(u8, u8, u32, u8),
    /// an alg of such moves is widened, and one of its moves is taken
    WidenAlg(Vec<(u8, u8)>, u32, u8, u8),
    SetDepth(u32),
    SetMax(u8),
    Inverse,
    Copy,
    Random(u64, u8),
    /// depth as it is written in front
    Parse(u8, u8, Option<u32>, u8, u8),
    /// as a move on a held cube and back
    Extend,
    AxisMove(u8, u8),
}

fn near_depth() -> impl Strategy<Value = u32> + Clone {
    prop_oneof![
        4 => (0usize..8, -2i64..3).prop_map(|(i, d)| (MAXIMA[i] as i64 + d).clamp(0, u32::MAX as i64) as u32),
        3 => 0u32..10,
        1 => any::<u32>(),
        1 => (0u32..32).prop_map(|b| 1 << b),
    ]
}

fn op() -> impl Strategy<Value = Op> + Clone {
    let d = near_depth;
    prop_oneof![
        2 => (0u8..6, 1u8..4, d(), 0u8..8).prop_map(|(f, q, d, n)| Op::New(f, q, d, n)),
        2 => (0u8..6, 1u8..4, d(), 0u8..8).prop_map(|(f, q, d, n)| Op::Widen(f, q, d, n)),
        2 => (prop_oneof![8 => prop::collection::vec((0u8..6, 1u8..4), 0..5), 1 => prop::collection::vec((0u8..6, 1u8..4), 0..80)], d(), 0u8..8, any::<u8>()).prop_map(|(v, d, n, i)| Op::WidenAlg(v, d, n, i)),
        4 => d().prop_map(Op::SetDepth),
        4 => (0u8..8).prop_map(Op::SetMax),
        2 => Just(Op::Inverse),
        1 => Just(Op::Copy),
        2 => (any::<u64>(), 0u8..8).prop_map(|(s, n)| Op::Random(s, n)),
        2 => (0u8..6, 1u8..4, prop::option::of(d()), 0u8..3, 0u8..8).prop_map(|(f, q, d, s, n)| Op::Parse(f, q, d, s, n)),
        2 => Just(Op::Extend),
        1 => (0u8..6, 1u8..4).prop_map(|(f, q)| Op::AxisMove(f, q)),
    ]
}

/// What the held move must be
#[derive(Debug, Clone, PartialEq, Eq)]
struct Wanted {
    turn: Turn,
    max: u32,
}

fn refused(e: WideMoveCreationError, given: u32, max: u32) -> Res {
    let WideMoveCreationError::ExcededDepth(g, m) = e;
    ensure!(given > max, "depth {given} is refused although up to {max} are allowed");
    ensure!((g, m) == (given, max), "the error tells of depth {g} and maximum {m}, it was {given} and {max}");
    Ok(())
}

fn check<const N: u32>(m: &WideAxisMove<N>, w: &Wanted) -> Res {
    ensure!(m.depth() <= N, "depth {} with maximum {N}", m.depth());
    let t = Turn::new(face_ix(m.face()), amount_q(m.amount()), m.depth());
    ensure!(t == w.turn && N == w.max, "the move is {t:?} with maximum {N}, it must be {w:?}");
    ensure!(turn_of(&m.axis_move) == Turn { depth: 0, ..t }, "face and amount differ from those of the axis move {}", m.axis_move);
    Ok(())
}

/// Judges a fresh result; gives it to be held further if it succeeded
fn fresh<const N: u32>(got: Result<WideAxisMove<N>, WideMoveCreationError>, turn: Turn) -> Result<Option<(Held, Wanted)>, Fail>
where
    WideAxisMove<N>: Hold,
{
    match got {
        Ok(m) => {
            ensure!(turn.depth <= N, "depth {} is accepted with maximum {N}", turn.depth);
            let w = Wanted { turn, max: N };
            check(&m, &w)?;
            Ok(Some((m.hold(), w)))
        }
        Err(e) => refused(e, turn.depth, N).map(|_| None),
    }
}

fn set_max<const N: u32, const M: u32>(m: &WideAxisMove<N>, w: &Wanted) -> Result<Option<(Held, Wanted)>, Fail>
where
    WideAxisMove<M>: Hold,
{
    fresh::<M>(m.clone().set_max_depth::<M>(), w.turn)
}

fn act(op: &Op, held: &mut Held, w: &mut Wanted, t: &mut Tally) -> Res {
    let next: Option<(Held, Wanted)> = match op {
        Op::New(f, q, d, n) => for_max!(*n, N => fresh::<N>(WideAxisMove::new(face(*f), amount(*q), *d), Turn::new(*f, *q, *d))?),
        Op::Widen(f, q, d, n) => for_max!(*n, N => fresh::<N>(axis_move(*f, *q).widen(*d), Turn::new(*f, *q, *d))?),
        Op::WidenAlg(v, d, n, i) => for_max!(*n, N => {
            let alg = Alg::<AxisMove>::new(v.iter().map(|(f, q)| axis_move(*f, *q)).collect());
            match alg.widen::<N>(*d) {
                Ok(alg) => {
                    ensure!(alg.moves.len() == v.len(), "{} of {} moves come out of widening", alg.moves.len(), v.len());
                    for (m, (f, q)) in alg.moves.iter().zip(v) {
                        ensure!(*d <= N, "a sequence is widened to depth {d} with maximum {N}");
                        check(m, &Wanted { turn: Turn::new(*f, *q, *d), max: N })?;
                    }
                    match v.get(*i as usize % v.len().max(1)) {
                        Some((f, q)) => fresh::<N>(Ok(alg.moves[*i as usize % v.len()].clone()), Turn::new(*f, *q, *d))?,
                        None => None,
                    }
                }
                Err(e) => {
                    refused(e, *d, N)?;
                    None
                }
            }
        }),
        Op::SetDepth(d) => {
            let before = w.clone();
            let max = w.max;
            let r = with!(held, m => m.set_depth(*d));
            match r {
                Ok(()) => {
                    ensure!(*d <= max, "depth {d} is accepted with maximum {max}");
                    w.turn.depth = *d;
                }
                Err(e) => {
                    t.class("refused in place");
                    refused(e, *d, max)?;
                    with!(held, m => check(m, &before)).map_err(|e| e.within("after the refusal"))?;
                }
            }
            None
        }
        Op::SetMax(n) => {
            let r = for_max!(*n, M => with!(&*held, m => set_max::<_, M>(m, w)?));
            r
        }
        Op::Inverse => {
            let mut w2 = w.clone();
            w2.turn = w2.turn.inverse();
            let h = with!(&*held, m => { check(&m.inverse(), &w2)?; m.inverse().hold() });
            Some((h, w2))
        }
        Op::Copy => {
            let h = with!(&*held, m => { ensure!(m.clone() == *m, "a copy differs"); m.clone().hold() });
            Some((h, w.clone()))
        }
        Op::Random(seed, n) => for_max!(*n, N => {
            use rand::{Rng, SeedableRng};
            let m: WideAxisMove<N> = StdRng::seed_from_u64(*seed).gen();
            ensure!(m.depth() <= N, "a random move has depth {} with maximum {N}", m.depth());
            let turn = Turn::new(face_ix(m.face()), amount_q(m.amount()), m.depth());
            fresh::<N>(Ok(m), turn)?
        }),
        Op::Parse(f, q, d, form, n) => for_max!(*n, N => {
            let fc = FACES[*f as usize];
            let a = ["", "2", "'"][*q as usize - 1];
            // a bare face has depth 0, a wide one at least 1
            let (text, depth) = if *form == 0 {
                (format!("{fc}{a}"), 0)
            } else {
                let n = d.map(|d| d.to_string()).unwrap_or_default();
                let name = if *form == 1 { fc.to_ascii_lowercase().to_string() } else { format!("{fc}w") };
                (format!("{n}{name}{a}"), d.unwrap_or(0).max(1))
            };
            let turn = Turn::new(*f, *q, depth);
            match WideAxisMove::<N>::parse(&text) {
                Ok(m) => fresh::<N>(Ok(m), turn).map_err(|e| e.within(&text))?,
                Err(e) => {
                    ensure!(depth > N, "{text:?} is refused ({e}) although up to {N} are allowed");
                    None
                }
            }
        }),
        Op::Extend => {
            let turn = w.turn;
            let e: ExtendedAxisMove = with!(held.clone(), m => m.into());
            match e {
                ExtendedAxisMove::Wide(m) => fresh::<{ u32::MAX }>(Ok(m), turn)?,
                ExtendedAxisMove::Regular(m) if turn.depth == 0 => {
                    ensure!(turn_of(&m) == turn, "{turn:?} is extended to {m}");
                    None
                }
                other => fail!("{turn:?} is extended to {other:?}"),
            }
        }
        Op::AxisMove(f, q) => {
            with!(held, m => m.axis_move = axis_move(*f, *q));
            w.turn = Turn::new(*f, *q, w.turn.depth);
            None
        }
    };
    if let Some((h, x)) = next {
        (*held, *w) = (h, x);
    }
    with!(&*held, m => check(m, w))
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Life {
    start: (u8, u8, u32, u8),
    ops: Vec<Op>,
}

fn life(l: &Life, t: &mut Tally) -> Res {
    let (f, q, d, n) = l.start;
    let d = d.min(MAXIMA[n as usize % 8]);
    let first = for_max!(n, N => fresh::<N>(WideAxisMove::new(face(f), amount(q), d), Turn::new(f, q, d))?);
    let (mut held, mut w) = first.ok_or("refused")?;
    let mut maxima = std::collections::BTreeSet::from([w.max]);
    for (i, op) in l.ops.iter().enumerate() {
        act(op, &mut held, &mut w, t).map_err(|e| e.within(&format!("operation {} ({op:?})", i + 1)))?;
        maxima.insert(w.max);
        if w.turn.depth == w.max {
            t.class("at the maximum");
        }
    }
    t.nontrivial_if(l.ops.len() >= 3 && maxima.len() >= 2);
    Ok(())
}

pub fn c24(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if it has at least three operations and the move changes its maximum.");
    // every single operation on every kind of move, with all depths around all maxima
    let depths: Vec<u32> = {
        let mut v: Vec<u32> = MAXIMA.iter().flat_map(|m| (-2i64..3).map(move |d| (*m as i64 + d).clamp(0, u32::MAX as i64) as u32)).collect();
        v.sort();
        v.dedup();
        v
    };
    let mut single = vec![];
    for n in 0..8u8 {
        for d in &depths {
            for n2 in 0..8u8 {
                let mut ops = vec![Op::New(1, 2, *d, n2), Op::Widen(2, 3, *d, n2), Op::WidenAlg(vec![(0, 1), (5, 3)], *d, n2, 1), Op::WidenAlg(vec![], *d, n2, 0)];
                ops.extend((0..3).map(|form| Op::Parse(3, 1, Some(*d), form, n2)));
                ops.push(Op::SetMax(n2));
                for op in ops {
                    single.push(Life { start: (4, 3, *d, n), ops: vec![op] });
                }
            }
            for d2 in &depths {
                single.push(Life { start: (0, 1, *d, n), ops: vec![Op::SetDepth(*d2), Op::SetDepth(*d), Op::Inverse, Op::Extend] });
            }
        }
    }
    ctx.all("single-operations", single, life);
    let mk = || {
        ((0u8..6, 1u8..4, near_depth(), 0u8..8), prop::collection::vec(op(), 0..30)).prop_map(|(start, ops)| Life { start, ops })
    };
    ctx.prop("histories", ctx.n(400_000, 8_000_000), mk, life);
    let long = || ((0u8..6, 1u8..4, near_depth(), 0u8..8), prop::collection::vec(op(), 0..600)).prop_map(|(start, ops)| Life { start, ops });
    ctx.prop("long-histories", ctx.n(2_000, 100_000), long, life);
}

// ---------------------------------------------------------------- C35

/// How often each of `k` values comes up among the numbers, against all being equally likely
fn even(what: &str, k: usize, values: impl Iterator<Item = usize>) -> Res {
    let mut counts = vec![0u64; k];
    let mut n = 0u64;
    for v in values {
        ensure!(v < k, "{what}: a value outside of the {k} possible ones");
        counts[v] += 1;
        n += 1;
    }
    if k < 2 || n < 40 * k as u64 {
        return Ok(());
    }
    let want = n as f64 / k as f64;
    let chi: f64 = counts.iter().map(|c| (*c as f64 - want).powi(2) / want).sum();
    // chi squared as a normal value (Wilson and Hilferty): 9 is far below one in 10^18
    let df = (k - 1) as f64;
    let z = ((chi / df).cbrt() - (1.0 - 2.0 / (9.0 * df))) / (2.0 / (9.0 * df)).sqrt();
    if z > 9.0 {
        let (i, c) = counts.iter().enumerate().max_by(|a, b| (*a.1 as f64 - want).abs().total_cmp(&(*b.1 as f64 - want).abs())).unwrap();
        fail!("{what}: number {i} of {k} equally likely ones comes up {c} times in {n}, not about {want:.0}");
    }
    Ok(())
}

/// Values that follow each other, and pairs of them
fn apart(what: &str, k: usize, v: &[usize]) -> Res {
    even(what, k, v.iter().copied())?;
    for lag in [1, 2, 3, 4, 7, 8, 16, 32, 50, 64, 100, 128, 256, 512, 1000, 1024, 4096] {
        even(&format!("{what}, pairs {lag} apart"), k * k, v.windows(lag + 1).map(|w| w[0] * k + w[lag]))?;
    }
    Ok(())
}

/// Values drawn one after another from one source, and first values of many sources
fn drawn(name: &str, k: usize, n: usize, seed: u64, draw: impl Fn(&mut StdRng) -> usize) -> Res {
    let mut r = StdRng::seed_from_u64(seed);
    let v: Vec<usize> = (0..n).map(|_| draw(&mut r)).collect();
    apart(&format!("{name} from one source"), k, &v)?;
    // the first values of sources with consecutive seeds
    let first = |i: usize| draw(&mut StdRng::seed_from_u64((i as u64).wrapping_add(seed.wrapping_mul(1 << 20))));
    even(&format!("{name}, the first from each source"), k, (0..n / 4).map(first))
}

fn depth_part<const N: u32>(m: &WideAxisMove<N>) -> (usize, usize) {
    let all = u64::from(N) + 1;
    let parts = all.min(48);
    ((u64::from(m.depth()) * parts / all) as usize, parts as usize)
}

fn wide_drawn<const N: u32>(n: usize, seed: u64) -> Res {
    let name = format!("turns of at most {} layers", u64::from(N) + 1);
    // all depths within a part are counted together; parts are equally large, up to one in a million
    let parts = (u64::from(N) + 1).min(48) as usize;
    drawn(&format!("depths of {name}"), parts, n, seed, |r| depth_part(&r.gen::<WideAxisMove<N>>()).0)?;
    drawn(&format!("faces and amounts of {name}"), 18, n, seed, |r| axis_no(&r.gen::<WideAxisMove<N>>().axis_move))?;
    if parts <= 12 {
        drawn(&name, parts * 18, n, seed, |r| {
            let m = r.gen::<WideAxisMove<N>>();
            depth_part(&m).0 * 18 + axis_no(&m.axis_move)
        })?;
    }
    Ok(())
}

fn axis_no(m: &AxisMove) -> usize {
    m.face.index() * 3 + amount_no(m.amount)
}

fn amount_no(a: Amount) -> usize {
    match a {
        Amount::Single => 0,
        Amount::Double => 1,
        Amount::Inverse => 2,
    }
}

pub fn c35(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if more than one value is possible.");
    ctx.assume("Sources of random numbers are sound: the check draws from StdRng with many seeds.");
    let n = ctx.n(40_000, 400_000) as usize;
    let seed = ctx.seed_u64("random");
    let seeds = |k: u64| (0..k).map(|i| seed.wrapping_add(i.wrapping_mul(0x9E37_79B9_7F4A_7C15))).collect::<Vec<_>>();
    let rounds = if ctx.thorough() { 24 } else { 3 };
    let cases: Vec<(u64, u8)> = seeds(rounds).into_iter().flat_map(|s| (0..24u8).map(move |k| (s, k))).collect();
    ctx.all("values", cases, |(seed, k), t| {
        t.nontrivial_if(*k != 6);
        let s = *seed;
        match k {
            0 => drawn("axes", 3, n, s, |r| r.gen::<Axis>() as usize),
            1 => drawn("directions", 2, n, s, |r| usize::from(r.gen::<Direction>() == Direction::Positive)),
            2 => drawn("faces", 6, n, s, |r| r.gen::<Face>().index()),
            3 => drawn("amounts", 3, n, s, |r| amount_no(r.gen())),
            4 => drawn("face turns", 18, n, s, |r| axis_no(&r.gen())),
            5 => drawn("quarter turns", 12, n, s, |r| {
                let m: QuarterAxisMove = r.gen();
                m.face.index() * 2 + usize::from(m.direction == Direction::Positive)
            }),
            6 => wide_drawn::<0>(n, s),
            7 => wide_drawn::<1>(n, s),
            8 => wide_drawn::<2>(n, s),
            9 => wide_drawn::<3>(n, s),
            10 => wide_drawn::<4>(n, s),
            11 => wide_drawn::<6>(n, s),
            12 => wide_drawn::<11>(n, s),
            13 => wide_drawn::<47>(n, s),
            14 => wide_drawn::<{ 48 * 5 - 1 }>(n, s),
            15 => wide_drawn::<{ (1 << 16) - 1 + 32 }>(n, s),
            16 => wide_drawn::<{ 3 << 30 }>(n, s),
            17 => wide_drawn::<{ u32::MAX - 1 }>(n, s),
            18 => wide_drawn::<{ u32::MAX }>(n, s),
            19 => wide_drawn::<{ (1 << 31) + (1 << 30) + 7 }>(n, s),
            20 => wide_drawn::<{ 1 << 24 }>(n, s),
            21 => wide_drawn::<9>(n, s),
            22 => wide_drawn::<{ 48 * 21 - 1 }>(n, s),
            _ => wide_drawn::<{ 6 * 48 * 997 - 1 }>(n, s),
        }
    });
    // the places of a sequence
    fn places<M: Clone>(name: &str, k: usize, n: usize, seed: u64, len: usize, seq: impl Fn(&mut StdRng, usize) -> Vec<M>, no: impl Fn(&M) -> usize) -> Res {
        let mut r = StdRng::seed_from_u64(seed);
        let mut all: Vec<Vec<usize>> = vec![];
        for _ in 0..n {
            let s = seq(&mut r, len);
            ensure!(s.len() == len, "{name}: {} moves instead of {len}", s.len());
            all.push(s.iter().map(&no).collect());
        }
        for i in 0..len {
            even(&format!("{name}, number {i} of {len}"), k, all.iter().map(|s| s[i]))?;
            if k == 18 || k == 6 {
                for j in 0..i {
                    even(&format!("{name}, numbers {j} and {i} of {len}"), k * k, all.iter().map(|s| s[j] * k + s[i]))?;
                }
            }
        }
        Ok(())
    }
    let m = n / 4;
    let cases: Vec<(u64, u8, usize)> = seeds(rounds).into_iter().flat_map(|s| [1, 2, 3, 7, 20].into_iter().flat_map(move |len| (0..6u8).map(move |k| (s, k, len)))).collect();
    ctx.all("sequences", cases, |(seed, k, len), t| {
        t.nontrivial();
        match k {
            0 => places("free sequences", 18, m, *seed, *len, |r, l| Alg::<AxisMove>::random_unnormalized_with_rng(l, r).moves, axis_no),
            1 => places("free sequences of quarter turns", 6, m, *seed, *len, |r, l| Alg::<QuarterAxisMove>::random_unnormalized_with_rng(l, r).moves, |q| q.face.index()),
            2 => places("free sequences of the 7x7", 54, m, *seed, *len, |r, l| Alg::<Cube7>::random_unnormalized_with_rng(l, r).moves, |w| depth_part(w).0 * 18 + axis_no(&w.axis_move)),
            3 => places("free sequences of the 4x4", 36, m, *seed, *len, |r, l| Alg::<Cube4>::random_unnormalized_with_rng(l, r).moves, |w| depth_part(w).0 * 18 + axis_no(&w.axis_move)),
            // the axes and the amounts have no preferred one either
            4 => places("axes of sequences", 3, m, *seed, *len, |r, l| Alg::<AxisMove>::random_with_rng(l, r).moves, |x| x.face.axis as usize),
            _ => places("amounts of sequences", 3, m, *seed, *len, |r, l| Alg::<AxisMove>::random_with_rng(l, r).moves, |x| amount_no(x.amount)),
        }
    });
    let cases: Vec<(u64, u8)> = seeds(rounds).into_iter().flat_map(|s| (0..5u8).map(move |k| (s, k))).collect();
    ctx.all("long-sequences", cases, |(seed, k), t| {
        t.nontrivial();
        let r = &mut StdRng::seed_from_u64(*seed);
        match k {
            0 => apart("one free sequence", 18, &Alg::<AxisMove>::random_unnormalized_with_rng(n, r).moves.iter().map(axis_no).collect::<Vec<_>>()),
            1 => apart("one free sequence of quarter turns", 6, &Alg::<QuarterAxisMove>::random_unnormalized_with_rng(n, r).moves.iter().map(|q| q.face.index()).collect::<Vec<_>>()),
            // after an axis, either of the other two, and any amount
            2 => {
                let axes: Vec<usize> = Alg::<AxisMove>::random_with_rng(4 * n, r).moves.iter().map(|m| m.face.axis as usize).collect();
                let steps: Vec<usize> = axes.windows(2).filter(|w| w[0] != w[1]).map(|w| (3 + w[1] - w[0]) % 3 - 1).collect();
                apart("the next of two other axes in a sequence", 2, &steps)
            }
            3 => apart("the amounts in a sequence", 3, &Alg::<AxisMove>::random_with_rng(4 * n, r).moves.iter().map(|m| amount_no(m.amount)).collect::<Vec<_>>()),
            _ => apart("one free sequence of the 7x7", 54, &Alg::<Cube7>::random_unnormalized_with_rng(4 * n, r).moves.iter().map(|w| depth_part(w).0 * 18 + axis_no(&w.axis_move)).collect::<Vec<_>>()),
        }
    });
    ctx.extra("draws_per_case", json!({"values": n, "sequences": m, "long-sequences": n}));
}
