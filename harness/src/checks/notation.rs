//! C07 and C08: parsing and printing of moves.

use crate::{bridge::*, ctx::*, gen::*, model::*};
use barbarosa::{
    cube_n::{
        moves::{rotation::AxisRotation, Amount, ExtendedAxisMove, NonRedundantAxisMove},
        space::{Axis, Face},
        AxisMove, WideAxisMove,
    },
    generic::{moves::AsMove, Alg, Parsable},
};
use proptest::prelude::*;
use std::fmt::{Debug, Display};

// ------------------------------------------------------- the notation, written down independently

fn take_amount(s: &[char]) -> Option<u8> {
    match s {
        [] => Some(1),
        ['2'] => Some(2),
        ['\''] => Some(3),
        _ => None,
    }
}

fn upper(c: char) -> Option<u8> {
    FACES.iter().position(|f| *f == c).map(|i| i as u8)
}

fn lower(c: char) -> Option<u8> {
    FACES.iter().position(|f| f.to_ascii_lowercase() == c).map(|i| i as u8)
}

fn read_face(s: &str) -> Option<u8> {
    let mut c = s.chars();
    match (c.next(), c.next()) {
        (Some(x), None) => upper(x),
        _ => None,
    }
}

fn read_axis(s: &str) -> Option<usize> {
    ["x", "y", "z"].iter().position(|x| *x == s)
}

fn read_amount(s: &str) -> Option<u8> {
    take_amount(&s.chars().collect::<Vec<_>>())
}

fn read_turn(s: &str) -> Option<Turn> {
    let c: Vec<char> = s.chars().collect();
    Some(Turn::new(upper(*c.first()?)?, take_amount(&c[1..])?, 0))
}

/// `F` is depth 0, `Fw` and `f` are depth 1, `kFw` and `kf` are depth k (0 counts as 1)
fn read_wide(s: &str, max: u32) -> Option<Turn> {
    let c: Vec<char> = s.chars().collect();
    let digits = c.iter().take_while(|c| c.is_ascii_digit()).count();
    let (number, rest) = c.split_at(digits);
    let first = *rest.first()?;
    let (f, wide, rest) = match (upper(first), lower(first)) {
        (Some(f), _) if rest.get(1) == Some(&'w') => (f, true, &rest[2..]),
        (Some(f), _) => (f, false, &rest[1..]),
        (_, Some(f)) => (f, true, &rest[1..]),
        _ => return None,
    };
    let q = take_amount(rest)?;
    let depth = if wide {
        let mut d: u64 = 0;
        for x in number {
            d = d * 10 + x.to_digit(10)? as u64;
            if d > u32::MAX as u64 {
                return None;
            }
        }
        (d as u32).max(1)
    } else if digits > 0 {
        return None;
    } else {
        0
    };
    (depth <= max).then(|| Turn::new(f, q, depth))
}

fn read_rotation(s: &str) -> Option<(usize, u8)> {
    let c: Vec<char> = s.chars().collect();
    let a = ['x', 'y', 'z'].iter().position(|x| x == c.first().unwrap_or(&'?'))?;
    Some((a, take_amount(&c[1..])?))
}

/// M turns like L, E like D, S like F; the small letters are the wide forms
fn read_ext(s: &str) -> Option<Ext> {
    if let Some(t) = read_wide(s, u32::MAX) {
        return Some(if t.depth == 0 { Ext::Face(t.face, t.q) } else { Ext::Wide(t.face, t.q, t.depth) });
    }
    if let Some((a, q)) = read_rotation(s) {
        return Some(Ext::Rotate(a as u8, q));
    }
    let c: Vec<char> = s.chars().collect();
    let first = *c.first()?;
    let a = ['M', 'E', 'S'].iter().position(|x| *x == first.to_ascii_uppercase())?;
    let q = take_amount(&c[1..])?;
    Some(Ext::Slice(a as u8, if a == 2 { q } else { 4 - q }, first.is_lowercase()))
}

/// A line of moves of any kind
pub fn read_ext_line(s: &str) -> Option<Vec<Ext>> {
    words(s).into_iter().map(read_ext).collect()
}

fn words(s: &str) -> Vec<&str> {
    s.split(|c: char| c.is_whitespace()).filter(|w| !w.is_empty()).collect()
}

// ------------------------------------------------------- comparisons

fn judge<T: Parsable + PartialEq + Debug>(what: &str, s: &str, want: Option<T>) -> Res
where
    T::Rule: 'static,
{
    match (T::parse(s), want) {
        (Ok(got), Some(want)) => ensure!(got == want, "{s:?} parsed as {what} is {got:?} instead of {want:?}"),
        (Ok(got), None) => fail!("{s:?} is no {what} but is accepted as {got:?}"),
        (Err(e), Some(want)) => fail!("{s:?} should be the {what} {want:?} but is refused: {e}"),
        (Err(e), None) => {
            // errors can be shown
            let _ = (e.to_string(), format!("{e:?}"));
        }
    }
    Ok(())
}

fn judge_wide<const N: u32>(s: &str) -> Res {
    judge::<WideAxisMove<N>>(&format!("wide turn of depth up to {N}"), s, read_wide(s, N).map(|t| wide::<N>(t)))
}

fn judge_word(s: &str, t: &mut Tally) -> Res {
    judge::<Face>("face", s, read_face(s).map(face))?;
    judge::<Axis>("axis", s, read_axis(s).map(axis))?;
    judge::<Amount>("amount", s, read_amount(s).map(amount))?;
    judge::<AxisMove>("face turn", s, read_turn(s).map(|t| axis_move(t.face, t.q)))?;
    judge::<AxisRotation>("rotation", s, read_rotation(s).map(|(a, q)| rotation(a, q)))?;
    judge_wide::<0>(s)?;
    judge_wide::<1>(s)?;
    judge_wide::<2>(s)?;
    judge_wide::<3>(s)?;
    judge_wide::<12>(s)?;
    judge_wide::<{ u32::MAX }>(s)?;
    let e = read_ext(s);
    t.nontrivial_if(e.is_some());
    t.class(match e {
        None => "no move",
        Some(Ext::Face(..)) => "face turn",
        Some(Ext::Wide(..)) => "wide turn",
        Some(Ext::Rotate(..)) => "rotation",
        Some(Ext::Slice(..)) => "slice",
    });
    judge::<ExtendedAxisMove>("extended move", s, e.map(|e| e.to_move()))
}

fn judge_alg<M>(what: &str, s: &str, read: impl Fn(&str) -> Option<M>) -> Res
where
    M: AsMove<Move = M> + barbarosa::generic::Move + Parsable + PartialEq + Debug + 'static,
{
    let want: Option<Vec<M>> = words(s).into_iter().map(read).collect();
    let via_try: Result<Alg<M>, _> = Alg::<M>::try_from(s);
    ensure!(via_try.is_ok() == want.is_some(), "`try_from` of {s:?} as {what} succeeds: {}", via_try.is_ok());
    if let (Ok(a), Some(w)) = (&via_try, &want) {
        ensure!(a.moves == *w, "`try_from` of {s:?} as {what} gives {:?} instead of {w:?}", a.moves);
    }
    judge::<Alg<M>>(what, s, want.map(Alg::new))
}

fn judge_line(s: &str, t: &mut Tally) -> Res {
    judge_word(s, &mut Tally::default())?;
    judge_alg::<AxisMove>("sequence of face turns", s, |w| read_turn(w).map(|t| axis_move(t.face, t.q)))?;
    judge_alg::<WideAxisMove<2>>("sequence of wide turns", s, |w| read_wide(w, 2).map(wide::<2>))?;
    judge_alg::<ExtendedAxisMove>("sequence of extended moves", s, |w| read_ext(w).map(|e| e.to_move()))?;
    let ws = words(s);
    let good = ws.iter().filter(|w| read_ext(w).is_some()).count();
    t.nontrivial_if(good >= 2);
    t.class(match (ws.len(), good) {
        (0, _) => "no words",
        (n, g) if n == g => "all words are moves",
        (n, g) if n == g + 1 => "one word is no move",
        _ => "several words are no moves",
    });
    Ok(())
}

// ------------------------------------------------------- generators

const ALPHABET: &[char] = &[
    'R', 'U', 'F', 'L', 'D', 'B', 'r', 'u', 'f', 'l', 'd', 'b', 'w', '2', '\'', '0', '1', '3', '9', 'x', 'y', 'z', 'M', 'E',
    'S', 'm', 'e', 's', ' ', '\t', '\n', 'X', 'W', '’', 'é', '/', '*', '-', '٢', '²', '\0',
];

fn short_strings(max: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut last = all.clone();
    for _ in 0..max {
        last = last.iter().flat_map(|s| ALPHABET.iter().map(move |c| format!("{s}{c}"))).collect();
        all.extend(last.iter().cloned());
    }
    all
}

fn number() -> BoxedStrategy<String> {
    prop_oneof![
        4 => Just(String::new()),
        3 => (0u32..14).prop_map(|d| d.to_string()),
        1 => any::<u32>().prop_map(|d| d.to_string()),
        1 => prop::sample::select(vec!["4294967295", "4294967296", "4294967294", "18446744073709551617", "00", "007", "0000000000000000000001", "99999999999999999999999999"]).prop_map(String::from),
        1 => "[0-9]{1,30}",
    ]
    .boxed()
}

pub fn good_word() -> BoxedStrategy<String> {
    let amount = prop::sample::select(vec!["", "2", "'"]);
    prop_oneof![
        3 => ("[RUFLDB]", amount.clone()).prop_map(|(f, a)| format!("{f}{a}")),
        3 => (number(), prop_oneof!["[RUFLDB]w", "[rufldb]"], amount.clone()).prop_map(|(n, f, a)| format!("{n}{f}{a}")),
        1 => ("[xyz]", amount.clone()).prop_map(|(f, a)| format!("{f}{a}")),
        1 => ("[MESmes]", amount).prop_map(|(f, a)| format!("{f}{a}")),
    ]
    .boxed()
}

fn word() -> BoxedStrategy<String> {
    let edit = (any::<prop::sample::Index>(), prop::sample::select(ALPHABET.to_vec()), 0u8..4);
    prop_oneof![
        4 => good_word(),
        3 => (good_word(), prop::collection::vec(edit, 1..3)).prop_map(|(w, edits)| {
            let mut c: Vec<char> = w.chars().collect();
            for (at, ch, kind) in edits {
                let i = at.index(c.len() + 1);
                match kind {
                    0 => c.insert(i, ch),
                    1 if i < c.len() => c[i] = ch,
                    2 if i < c.len() => {
                        c.remove(i);
                    }
                    3 if i + 1 < c.len() => c.swap(i, i + 1),
                    _ => c.push(ch),
                }
            }
            c.into_iter().collect()
        }),
        1 => (good_word(), good_word()).prop_map(|(a, b)| a + &b),
        1 => prop::collection::vec(prop::sample::select(ALPHABET.to_vec()), 0..8).prop_map(|c| c.into_iter().collect()),
        1 => ".{0,6}",
        1 => prop::collection::vec(any::<char>(), 0..6).prop_map(|c| c.into_iter().collect()),
    ]
    .boxed()
}

pub fn line() -> BoxedStrategy<String> {
    let sep = prop_oneof![
        6 => Just(" ".to_string()),
        2 => prop::sample::select(vec!["  ", "\t", "\n", "\r\n", "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{2003}", "\u{2028}", "\u{3000}", "\u{feff}", "\u{200b}", "\u{1c}", "//", ""]).prop_map(String::from),
    ];
    let ws = prop_oneof![3 => prop::collection::vec(good_word(), 0..8), 2 => prop::collection::vec(word(), 0..6),
        2 => (prop::collection::vec(good_word(), 0..5), word(), prop::collection::vec(good_word(), 0..5)).prop_map(|(mut a, w, b)| { a.push(w); a.extend(b); a })];
    (prop::collection::vec(sep, 10), ws, prop::bool::ANY, prop::bool::ANY)
        .prop_map(|(seps, ws, lead, trail)| {
            let mut s = String::new();
            if lead {
                s += &seps[0];
            }
            for (i, w) in ws.iter().enumerate() {
                if i > 0 {
                    s += &seps[i % 10];
                }
                s += w;
            }
            if trail {
                s += &seps[9];
            }
            s
        })
        .boxed()
}

pub fn c07(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if the text is a move (single words) or contains at least two words that are moves (lines).");
    ctx.assume("The notation is the one of the documentation and the grammar: a depth before a wide face is the depth of the turn (0 counts as 1), M E S turn like L D F.");
    ctx.all("short-texts", short_strings(if ctx.thorough() { 4 } else { 3 }), |s, t| judge_word(s, t));
    ctx.prop("words", ctx.n(60_000, 2_000_000), word, |w, t| judge_word(w, t));
    ctx.prop("lines", ctx.n(40_000, 1_000_000), line, |l, t| judge_line(l, t));
    // every character, alone and next to a good move
    let chars: Vec<u32> = (0..=0x10FFFFu32).filter(|c| char::from_u32(*c).is_some()).filter(|c| *c < 0x3100 || ctx.thorough() || c % 61 == 0).collect();
    ctx.all("every-character", chars, |c, t| {
        let c = char::from_u32(*c).unwrap();
        judge_word(&c.to_string(), t)?;
        for s in [format!("R{c}"), format!("{c}R"), format!("{c}Rw")] {
            judge_word(&s, &mut Tally::default())?;
        }
        judge_line(&format!("R{c}U"), &mut Tally::default())?;
        judge_line(&format!("R {c}U2"), &mut Tally::default())
    });
    // long texts
    let long_ones = vec![(0u8, 100usize), (0, 20_000), (1, 100), (1, 20_000), (2, 100), (2, 20_000), (3, 20_000), (4, 20_000)];
    ctx.all("long-texts", long_ones, |(kind, n), t| {
        let s = match kind {
            0 => "9".repeat(*n) + "Rw",
            1 => "R ".repeat(*n),
            2 => "R".repeat(*n),
            3 => "0".repeat(*n) + "3Rw'",
            _ => " ".repeat(*n) + "U",
        };
        t.nontrivial();
        // the reference reads the number exactly
        clipped(judge_line(&s, &mut Tally::default()))
    });
    ctx.prop("very-long-lines", ctx.n(60, 1_500), || (long(1 << 15), prop::bool::ANY, prop_oneof![2 => Just(None), 1 => (any::<u16>(), word()).prop_map(Some)]), |(c, plain, bad), t| {
        let mut s = long_text(c, *plain);
        if let Some((at, w)) = bad {
            // one word of any kind somewhere
            let spaces: Vec<usize> = s.match_indices(' ').map(|x| x.0).collect();
            if !spaces.is_empty() {
                s.insert_str(spaces[*at as usize % spaces.len()], &format!(" {w}"));
            }
        }
        t.nontrivial();
        clipped(judge_line(&s, &mut Tally::default()))
        });
}

/// Text of turns, with white space and ways to write them that vary
fn long_text(c: &Long, plain: bool) -> String {
    let mut s = String::new();
    for (i, t) in c.turns(3).iter().enumerate() {
        let k = (c.seed as usize).wrapping_add(i.wrapping_mul(2654435761)) >> 7;
        s += match k % 40 {
            0 => "\n",
            1 => "  ",
            2 => "\t",
            _ if i == 0 => "",
            _ => " ",
        };
        let f = FACES[t.face as usize];
        let a = ["", "", "2", "'"][t.q as usize];
        s += &match (if plain { 0 } else { t.depth }, k / 40 % 3) {
            (0, _) => format!("{f}{a}"),
            (1, 0) => format!("{f}w{a}"),
            (1, _) => format!("{}{a}", f.to_ascii_lowercase()),
            (2, _) => format!("2{f}w{a}"),
            (_, 0) => format!("{}{a}", ['x', 'y', 'z'][t.face as usize % 3]),
            _ => format!("{}{a}", ['M', 'E', 'S', 'm', 'e', 's'][t.face as usize]),
        };
    }
    s
}

fn clipped(r: Res) -> Res {
    r.map_err(|e| match e {
        Fail::Violation(m) => Fail::Violation(m.chars().take(300).collect::<String>()),
        k => k,
    })
}

// ---------------------------------------------------------------- C08

/// The text of a wide turn that reads back as itself
fn canonical_wide(t: &Turn) -> String {
    let a = ["", "", "2", "'"][t.q as usize];
    let f = FACES[t.face as usize];
    match t.depth {
        0 => format!("{f}{a}"),
        1 => format!("{f}w{a}"),
        d => format!("{d}{f}w{a}"),
    }
}

const WIDE_DEPTH: &str = "wide-depth-printed-plus-one";
const WIDE_DEPTH_MAX: &str = "wide-depth-max-cannot-be-printed";

/// The exact shape of the known disagreement between printing and parsing
fn known_wide(t: &Turn, printed: &Result<String, String>) -> Option<&'static str> {
    let a = ["", "", "2", "'"][t.q as usize];
    let f = FACES[t.face as usize];
    match printed {
        Ok(s) if t.depth >= 2 && t.depth < u32::MAX && *s == format!("{}{f}w{a}", t.depth + 1) => Some(WIDE_DEPTH),
        Err(p) if t.depth == u32::MAX && p.contains("overflow") => Some(WIDE_DEPTH_MAX),
        // the same, built without overflow checks
        Ok(s) if !cfg!(debug_assertions) && t.depth == u32::MAX && *s == format!("0{f}w{a}") => Some(WIDE_DEPTH_MAX),
        _ => None,
    }
}

fn print_wide<const N: u32>(t: &Turn, tally: &mut Tally) -> Res {
    let m = wide::<N>(*t);
    let printed = no_panic(|| m.to_string());
    tally.class(if t.depth < 2 { "depth 0 or 1" } else { "depth 2 or more" });
    let back = printed.as_ref().ok().map(|s| WideAxisMove::<N>::parse(s));
    if matches!(&back, Some(Ok(b)) if *b == m) {
        return Ok(());
    }
    let text = format!(
        "the wide turn of face {} by {} quarter turns with depth {} (of at most {N}) prints as {printed:?}, which reads back as {}",
        FACES[t.face as usize],
        t.q,
        t.depth,
        match back {
            None => "nothing".to_string(),
            Some(Ok(b)) => format!("depth {} of {} by {:?}", b.depth(), b.face(), b.amount()),
            Some(Err(_)) => "an error".to_string(),
        }
    );
    match known_wide(t, &printed) {
        Some(sig) => Err(Fail::Known(sig, text)),
        None => Err(Fail::Violation(text)),
    }
}

fn print_wide_any(n: u32, t: &Turn, tally: &mut Tally) -> Res {
    match n {
        0 => print_wide::<0>(t, tally),
        1 => print_wide::<1>(t, tally),
        2 => print_wide::<2>(t, tally),
        3 => print_wide::<3>(t, tally),
        _ => print_wide::<{ u32::MAX }>(t, tally),
    }
}

fn round_trip<M>(ms: Vec<M>) -> Result<String, String>
where
    M: AsMove<Move = M> + barbarosa::generic::Move + Parsable + PartialEq + Debug + Display + 'static,
{
    let alg: Alg<M> = Alg::new(ms);
    let text = alg.to_string();
    match Alg::<M>::parse(&text) {
        Ok(back) if back == alg => {}
        Ok(back) => return Err(format!("{alg:?} prints as {text:?}, which reads back as {back:?}")),
        Err(e) => return Err(format!("{alg:?} prints as {text:?}, which is refused: {e}")),
    }
    Ok(text)
}

pub fn c08(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if the move is a double or inverse turn, wide or merged, or the sequence has at least two moves.");
    let mut singles = vec![];
    for f in 0u8..6 {
        for q in 1u8..4 {
            singles.push((f, q));
        }
    }
    ctx.all("face-turns", singles.clone(), |(f, q), t| {
        let m = axis_move(*f, *q);
        t.nontrivial_if(*q > 1);
        let canonical = canonical_wide(&Turn::new(*f, *q, 0));
        let s = m.to_string();
        ensure!(s == canonical, "{m:?} prints as {s:?}");
        let back = AxisMove::parse(&s).map_err(|e| format!("{s:?} is refused: {e}"))?;
        ensure!(back == m, "{s:?} reads back as {back:?}");
        ensure!(face(*f).to_string() == FACES[*f as usize].to_string(), "face {} prints as {}", FACES[*f as usize], face(*f));
        ensure!(Face::parse(&face(*f).to_string()).ok() == Some(face(*f)), "a face does not read back");
        ensure!(Amount::parse(&amount(*q).to_string()).ok() == Some(amount(*q)), "an amount does not read back");
        Ok(())
    });
    let nrs: Vec<(u8, u8, u8)> = (0..3).flat_map(|a| (0..4).flat_map(move |p| (0..4).map(move |n| (a, p, n)))).filter(|x| x.1 + x.2 > 0).collect();
    let nr_turns = |c: &(u8, u8, u8)| -> Vec<Turn> {
        [(c.0, c.1), (c.0 + 3, c.2)].into_iter().filter(|x| x.1 > 0).map(|(f, q)| Turn::new(f, q, 0)).collect()
    };
    ctx.all("merged-turns", nrs.clone(), |c, t| {
        t.nontrivial_if(c.1 > 0 && c.2 > 0);
        let m = nr(c);
        let s = m.to_string();
        let back = Alg::<AxisMove>::parse(&s).map_err(|e| format!("{m:?} prints as {s:?}, which is refused: {e}"))?;
        let mut want: Vec<AxisMove> = m.moves().collect();
        ensure!(back.moves == want, "{m:?} prints as {s:?}, which are other face turns");
        // these are the turns it stands for
        let mut expected: Vec<AxisMove> = nr_turns(c).iter().map(|t| axis_move(t.face, t.q)).collect();
        want.sort_by_key(|m| face_ix(&m.face));
        expected.sort_by_key(|m| face_ix(&m.face));
        ensure!(want == expected, "{m:?} lists the turns {want:?}");
        Ok(())
    });
    // distinct values have distinct texts
    ctx.all("distinct-texts", vec![()], |_, t| {
        t.nontrivial();
        let mut seen = std::collections::HashMap::new();
        for c in &nrs {
            if let Some(other) = seen.insert(nr(c).to_string(), *c) {
                fail!("{:?} and {:?} both print as {}", nr(c), nr(&other), nr(c));
            }
        }
        let mut seen = std::collections::HashMap::new();
        for f in 0..6 {
            for q in 1..4 {
                for d in (0..300).chain(u32::MAX - 40..u32::MAX - 1) {
                    let s = wide::<{ u32::MAX }>(Turn::new(f, q, d)).to_string();
                    if let Some(other) = seen.insert(s.clone(), (f, q, d)) {
                        fail!("the wide turns {:?} and {other:?} both print as {s:?}", (f, q, d));
                    }
                }
            }
        }
        Ok(())
    });
    let mut wides = vec![];
    for (n, depths) in [(0u32, vec![0u32]), (1, vec![0, 1]), (2, vec![0, 1, 2]), (3, vec![0, 1, 2, 3]), (9, (0..40).chain([99, 100, 1 << 31, u32::MAX - 1, u32::MAX]).collect())] {
        for d in depths {
            for (f, q) in &singles {
                wides.push((n, Turn::new(*f, *q, d)));
            }
        }
    }
    ctx.all("wide-turns", wides, |(n, t), tally| {
        tally.nontrivial_if(t.depth > 0);
        print_wide_any(*n, t, tally)
    });
    ctx.prop("random-wide-turns", ctx.n(10_000, 200_000), || (0u8..6, 1u8..4, depth()), |(f, q, d), tally| {
        tally.nontrivial_if(*d > 0);
        print_wide_any(9, &Turn::new(*f, *q, *d), tally)
    });
    ctx.prop("sequences", ctx.n(20_000, 400_000), || turns(40, 1), |ts, t| {
        t.nontrivial_if(ts.len() > 1);
        let join = |ts: &[Turn]| ts.iter().map(canonical_wide).collect::<Vec<_>>().join(" ");
        let plain: Vec<Turn> = ts.iter().map(|t| Turn { depth: 0, ..*t }).collect();
        let s = round_trip::<AxisMove>(plain.iter().map(|t| axis_move(t.face, t.q)).collect())?;
        ensure!(s == join(&plain), "a sequence prints as {s:?} instead of {:?}", join(&plain));
        let s = round_trip::<WideAxisMove<1>>(ts.iter().map(|t| wide::<1>(*t)).collect())?;
        ensure!(s == join(ts), "a sequence of wide turns prints as {s:?} instead of {:?}", join(ts));
        // and from text to text
        for (text, printed) in [
            (join(&plain), Alg::<AxisMove>::parse(&join(&plain)).map(|a| a.to_string()).ok()),
            (join(ts), Alg::<WideAxisMove<1>>::parse(&join(ts)).map(|a| a.to_string()).ok()),
            (join(ts), Alg::<WideAxisMove<{ u32::MAX }>>::parse(&join(ts)).map(|a| a.to_string()).ok()),
        ] {
            ensure!(printed.as_deref() == Some(&text), "{text:?} prints again as {printed:?}");
        }
        Ok(())
    });
    ctx.prop("very-long-sequences", ctx.n(60, 1_500), || long(1 << 15), |c, t| {
        t.nontrivial();
        let ts = c.turns(1);
        let s = round_trip::<AxisMove>(ts.iter().map(|t| axis_move(t.face, t.q)).collect());
        let s = s.map_err(|e| e.chars().take(300).collect::<String>())?;
        ensure!(s.split(' ').eq(ts.iter().map(|t| canonical_wide(&Turn { depth: 0, ..*t }))), "a sequence of {} turns prints otherwise", ts.len());
        let s = round_trip::<WideAxisMove<1>>(ts.iter().map(|t| wide::<1>(*t)).collect());
        let s = s.map_err(|e| e.chars().take(300).collect::<String>())?;
        ensure!(s.split(' ').eq(ts.iter().map(canonical_wide)), "a sequence of {} wide turns prints otherwise", ts.len());
        Ok(())
    });
    ctx.prop("merged-sequences", ctx.n(10_000, 200_000), || prop::collection::vec((0u8..3, 0u8..4, 0u8..4), 0..20), |cs, t| {
        let cs: Vec<_> = cs.iter().filter(|c| c.1 + c.2 > 0).cloned().collect();
        t.nontrivial_if(cs.len() > 1);
        let alg: Alg<NonRedundantAxisMove> = Alg::new(cs.iter().map(nr).collect());
        let s = alg.to_string();
        let back = Alg::<AxisMove>::parse(&s).map_err(|e| format!("{s:?} is refused: {e}"))?;
        let want: Vec<AxisMove> = alg.moves.iter().flat_map(|m| m.moves().collect::<Vec<_>>()).collect();
        ensure!(back.moves == want, "{alg:?} prints as {s:?}, which are other face turns");
        Ok(())
    });
    ctx.prop("deep-sequences", ctx.n(5_000, 100_000), || prop::collection::vec((0u8..6, 1u8..4, depth()), 0..8), |ts, t| {
        let ts: Vec<Turn> = ts.iter().map(|(f, q, d)| Turn::new(*f, *q, *d)).collect();
        t.nontrivial_if(ts.len() > 1 && ts.iter().any(|t| t.depth > 1));
        let ms: Vec<WideAxisMove<{ u32::MAX }>> = ts.iter().map(|t| wide(*t)).collect();
        match no_panic(|| round_trip(ms.clone())) {
            Ok(Ok(_)) => Ok(()),
            Ok(Err(e)) | Err(e) => {
                // known only if each word alone is right or fails in the known way
                let text = no_panic(|| Alg::<WideAxisMove<{ u32::MAX }>>::new(ms.clone()).to_string());
                let mut sig = None;
                let mut want = vec![];
                for (t, m) in ts.iter().zip(&ms) {
                    let printed = no_panic(|| m.to_string());
                    let k = known_wide(t, &printed);
                    if k.is_none() && printed.as_deref() != Ok(canonical_wide(t).as_str()) {
                        return Err(Fail::Violation(e));
                    }
                    sig = if sig == Some(WIDE_DEPTH_MAX) { sig } else { k.or(sig) };
                    want.push(printed.unwrap_or_default());
                }
                match (sig, text) {
                    (Some(sig), Ok(s)) if s == want.join(" ") => Err(Fail::Known(sig, e)),
                    (Some(WIDE_DEPTH_MAX), Err(p)) if p.contains("overflow") => Err(Fail::Known(WIDE_DEPTH_MAX, e)),
                    _ => Err(Fail::Violation(e)),
                }
            }
        }
    });
}
