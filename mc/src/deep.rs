//! Harnesses that several properties share, each deciding its own aspect of them: histories
//! over the full set of calls, long histories, large texts, every scalar value.

use crate::edits::{grid_of, COMB, E_ACUTE};
use crate::engine::{Ctx, HResult, Harness};
use crate::io::{filler, ladder, short, SHAPES};
use crate::model::{self, Layout, Move, MOVES};
use crate::sys::{p, show, Focus, Op, Sys};
use crate::text;
use scribe::buffer::Position;

/// What a property looks at after each step, besides what its focus checks on the way.
#[derive(Clone, Copy, PartialEq)]
pub enum Post {
    Nothing,
    /// Every position and every range.
    Grid,
    Search,
    Lines,
    /// Where the cursor can be placed and moved from here.
    Bounds,
    Moves,
}

pub fn post(ctx: &mut Ctx, sys: &mut Sys, what: Post) -> HResult {
    if what == Post::Nothing || !(ctx.fresh() || ctx.tracing()) {
        return Ok(());
    }
    let text = sys.m.text.clone();
    match what {
        Post::Nothing => Ok(()),
        Post::Grid => {
            let real = &sys.real;
            let probe = |q: &Position| {
                let mut c = real.cursor.clone();
                c.move_to(*q)
            };
            grid_of(ctx, &text, &probe, &|r| real.read(r))
        }
        Post::Search => {
            for needle in ["a", "ab", "b", " ", "\u{301}", "c"] {
                text::search_check(ctx, &sys.real, &text, needle)?;
            }
            Ok(())
        }
        Post::Lines => text::lines_check(ctx, &sys.real, &text),
        Post::Bounds => {
            let l = Layout::of(&text);
            let here = *sys.real.cursor;
            let mut places = vec![here];
            places.extend(l.all());
            places.extend(l.missing());
            for q in &places {
                let mut c = sys.real.cursor.clone();
                let granted = c.move_to(*q);
                let exists = l.exists(q);
                if granted != exists || *c != if exists { *q } else { here } {
                    return Err(format!(
                        "moving to {} (which {}) in {:?} from {} is {} and leaves the cursor at {}",
                        show(q),
                        if exists { "exists" } else { "does not exist" },
                        text,
                        show(&here),
                        if granted { "granted" } else { "refused" },
                        show(&c)
                    ));
                }
            }
            let inside = l.exists(&here);
            for m in MOVES {
                let mut c = sys.real.cursor.clone();
                go(&mut c, m);
                if !l.exists(&c) && (inside || *c != here) {
                    return Err(format!("{:?} in {:?} takes the cursor from {} to {}, which does not exist", m, text, show(&here), show(&c)));
                }
            }
            ctx.transitions(places.len() as u64 + 8);
            ctx.count(if inside { "cursors inside probed" } else { "cursors outside probed" });
            Ok(())
        }
        Post::Moves => {
            let l = Layout::of(&text);
            for m in MOVES {
                for second in [Move::Up, Move::Down] {
                    let mut c = sys.real.cursor.clone();
                    let mut n = sys.m.cursor;
                    for x in [m, second] {
                        go(&mut c, x);
                        n.go(&l, x);
                        if *c != n.pos {
                            return Err(format!(
                                "{:?} then {:?} in {:?} from {} with remembered column {}: at {}, expected {}",
                                m,
                                second,
                                text,
                                show(&sys.m.cursor.pos),
                                sys.m.cursor.column,
                                show(&c),
                                show(&n.pos)
                            ));
                        }
                    }
                }
            }
            ctx.transitions(32);
            ctx.count("cursors moved from");
            Ok(())
        }
    }
}

pub fn go(c: &mut scribe::buffer::Cursor, m: Move) {
    match m {
        Move::Up => c.move_up(),
        Move::Down => c.move_down(),
        Move::Left => c.move_left(),
        Move::Right => c.move_right(),
        Move::Home => c.move_to_start_of_line(),
        Move::End => c.move_to_end_of_line(),
        Move::FirstLine => c.move_to_first_line(),
        Move::LastLine => c.move_to_last_line(),
    }
}

/// Ways a buffer comes into being. Odd ones are observed after every call.
pub const STARTS: usize = 7;
pub fn start(ctx: &mut Ctx, which: usize, focus: Focus) -> Sys {
    let mut sys = match which {
        0 => Sys::fresh("", focus),
        1 => Sys::fresh("ab\ncd", focus),
        2 => Sys::from_file(ctx.scratch, "ab\n cd\n", focus),
        3 => Sys::from_file(ctx.scratch, "a\tb\r\nc", focus),
        4 => Sys::to_file(ctx.scratch, focus),
        5 => Sys::from_file(ctx.scratch, "", focus),
        _ => Sys::fresh("e\u{301}a\n\nab \n", focus),
    };
    sys.watch = which % 2 == 1;
    if focus == Focus::Callback {
        sys = sys.with_callback();
    }
    sys
}

/// One call out of everything a buffer offers.
pub fn any_op(ctx: &mut Ctx, sys: &Sys) -> Vec<Op> {
    let l = Layout::of(&sys.m.text);
    let n = if sys.path.is_some() { 33 } else { 28 };
    let at = |q, op| vec![Op::MoveTo(q), op];
    match ctx.choose(n) {
        0 => vec![Op::Insert("a".into())],
        1 => at(l.end(), Op::Insert("b\nc".into())),
        2 => at(p(0, 1), Op::Insert(COMB.into())),
        3 => at(p(0, 1), Op::Insert("\n".into())),
        4 => vec![Op::Insert("".into())],
        5 => at(p(0, l.eol(0).unwrap()), Op::Insert(" \t".into())),
        6 => at(p(0, 0), Op::Delete),
        7 => vec![Op::Delete],
        8 => vec![Op::DeleteRange(p(0, 1), p(0, 99))],
        9 => vec![Op::DeleteRange(p(0, 0), l.end())],
        10 => vec![Op::DeleteRange(p(0, 1), p(0, 1))],
        11 => vec![Op::DeleteRange(p(1, 0), p(2, 0))],
        12 => vec![Op::Replace("r\ns".into())],
        13 => vec![Op::Replace(sys.m.text.clone())],
        14 => vec![Op::Undo],
        15 => vec![Op::Redo],
        16 => vec![Op::Start],
        17 => vec![Op::End],
        18 => vec![Op::Move(Move::Down)],
        19 => vec![Op::Move(Move::End)],
        20 => vec![Op::Move(Move::Right)],
        21 => vec![Op::MoveTo(l.end())],
        22 => vec![Op::MoveTo(sys.m.cursor.pos)],
        23 => vec![Op::Look(l.end())],
        24 => vec![Op::Look(p(1, 1))],
        25 => vec![Op::Search("a".into())],
        26 => vec![Op::Replace("".into())],
        27 => at(p(0, 1), Op::Insert("ab".into())),
        28 => vec![Op::Save],
        29 => vec![Op::Reload],
        30 => vec![Op::External("x\ny".into())],
        31 => vec![Op::FailingSave],
        _ => vec![Op::FailingReload],
    }
}

pub fn unwind(ctx: &mut Ctx, sys: &mut Sys, what: Post) -> Result<bool, String> {
    let steps = sys.m.undo.len() + 1;
    for _ in 0..steps + 1 {
        if !sys.apply(ctx, &Op::Undo)? {
            return Ok(false);
        }
        post(ctx, sys, what)?;
    }
    let steps = sys.m.redo.len() + 1;
    for _ in 0..steps {
        if !sys.apply(ctx, &Op::Redo)? {
            return Ok(false);
        }
        post(ctx, sys, what)?;
    }
    Ok(true)
}

/// Every history of a few calls out of all there are, from every kind of start.
pub fn universe(focus: Focus, what: Post, back: bool, thorough: bool) -> Harness {
    let depth = if thorough { 5 } else { 4 };
    Harness::new(
        "any-calls",
        format!(
            "{} starts (new, filled, loaded, loaded empty, given a path only; half of them read, searched and looked up after every call); {} steps out of 28 to 33 calls (every edit, movement, undo, redo, groups, lookups, searches, saves, reloads, failing ones, changes from outside){}",
            STARTS,
            depth,
            if back { "; then everything undone and redone" } else { "" }
        ),
        move |ctx| {
            let which = ctx.choose(STARTS);
            let mut sys = start(ctx, which, focus);
            for _ in 0..depth {
                for op in any_op(ctx, &sys) {
                    if !sys.apply(ctx, &op)? {
                        return ctx.foreign();
                    }
                }
                post(ctx, &mut sys, what)?;
            }
            if back && !unwind(ctx, &mut sys, what)? {
                return ctx.foreign();
            }
            Ok(())
        },
    )
}

/// Numbers of edits worth trying.
fn lengths(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=70).collect();
    let mut more = vec![100, 128, 200, 250, 256, 300, 400, 500, 512, 1000, 1024, 2048];
    if thorough {
        more.extend([2000, 3000, 4096, 5000, 8192, 10000]);
    } else {
        more.push(4097);
    }
    for n in more {
        v.extend([n - 1, n, n + 1]);
    }
    v.extend([65_535, 65_536, 65_537]);
    v.sort();
    v.dedup();
    v
}

/// Long histories: the saved state, the group and the turning point at every telling place.
pub fn long(focus: Focus, thorough: bool) -> Harness {
    let lengths = lengths(thorough);
    Harness::new(
        "long-histories",
        format!(
            "{} lengths of up to {} edits (the largest by replacing only; typing, typing and deleting in turn, replacing, deleting, groups of two; all in one group or not), saved never, at the start, halfway, one before the end or at the end; undone completely or halfway, redone, edited anew, undone",
            lengths.len(),
            lengths.last().unwrap()
        ),
        move |ctx| {
            let kind = ctx.choose(6);
            let n = *ctx.pick(&lengths);
            // Growing texts are compared whole at each step; keep them affordable.
            let n = if kind == 0 || kind == 3 { if n > 10_001 { return Ok(()) } else { n.min(1025) } } else { n };
            if kind != 2 && n > 10_001 {
                return Ok(());
            }
            let one_group = kind < 4 && ctx.flag();
            let save_at = *ctx.pick(&[None, Some(0), Some(n / 2), Some(n - 1), Some(n)]);
            let text = if kind == 3 { filler(n + 3, 6) } else { "m\nn".to_string() };
            let mut sys = if save_at.is_some() {
                Sys::from_file(ctx.scratch, &text, focus)
            } else {
                Sys::fresh(&text, focus)
            };
            if focus == Focus::Callback {
                sys = sys.with_callback();
            }
            let brief = |e: String| e.chars().take(600).collect::<String>();
            macro_rules! step {
                ($op:expr) => {
                    if !sys.apply(ctx, &$op).map_err(|e| format!("{} edits of kind {}: {}", n, kind, brief(e)))? {
                        return ctx.foreign();
                    }
                };
            }
            if one_group {
                step!(Op::Start);
            }
            for i in 0..n {
                if save_at == Some(i) && i > 0 {
                    step!(Op::Save);
                }
                let letter = ((b'a' + (i % 26) as u8) as char).to_string();
                match kind {
                    0 => step!(Op::Insert(letter)),
                    1 => {
                        if i % 2 == 0 {
                            step!(Op::Insert(letter))
                        } else {
                            step!(Op::Delete)
                        }
                    }
                    2 => step!(Op::Replace(format!("{}\n{}", i, letter))),
                    3 => step!(Op::Delete),
                    4 => {
                        step!(Op::Start);
                        step!(Op::Insert(letter));
                        step!(Op::DeleteRange(p(0, 0), p(0, 1)));
                        step!(Op::End);
                    }
                    _ => {
                        step!(Op::DeleteRange(p(0, 0), p(0, 1)));
                        step!(Op::Insert(letter));
                    }
                }
            }
            if one_group && ctx.flag() {
                step!(Op::End);
            }
            if save_at == Some(n) {
                step!(Op::Save);
            }
            let back = if ctx.flag() { sys.m.undo.len() / 2 } else { sys.m.undo.len() + 2 };
            for _ in 0..back {
                step!(Op::Undo);
            }
            let forth = sys.m.redo.len() + 1;
            for _ in 0..forth {
                step!(Op::Redo);
            }
            for _ in 0..back {
                step!(Op::Undo);
            }
            step!(Op::Insert("new".into()));
            step!(Op::Redo);
            for _ in 0..sys.m.undo.len() + 1 {
                step!(Op::Undo);
            }
            step!(Op::Redo);
            ctx.state(&(kind, n, one_group, save_at));
            Ok(())
        },
    )
}

/// Places next to the powers of two, the ends and the middle.
fn spots(l: &Layout) -> Vec<Position> {
    let mid = l.lines.len() / 2;
    let mut v = vec![p(0, 0), p(mid, l.eol(mid).unwrap() / 2), l.end()];
    v.dedup();
    v
}

/// Texts with more than 65,536 lines, or characters in a line, or both.
const GIANTS: usize = 3;
fn giant(which: usize) -> String {
    match which {
        0 => "a".repeat(140_001),
        1 => "\n".repeat(140_001),
        _ => format!("{}{}", "\n".repeat(70_001), "a".repeat(70_001)),
    }
}

/// Large texts: two calls at the start, middle or end, then back.
pub fn sized(focus: Focus, what: Post, thorough: bool) -> Harness {
    let k = if thorough { 15 } else { 12 };
    let mut sizes = ladder(k);
    sizes.extend([10, 20, 50, 100, 200, 250, 300, 500, 1000, 2000, 3000, 5000]);
    sizes.extend(if thorough { vec![10_000, 20_000, 50_000, 65_535, 65_536, 65_537, 70_000] } else { vec![10_000, 65_537] });
    sizes.sort();
    sizes.dedup();
    Harness::new(
        "sizes",
        format!(
            "texts of {} sizes up to {} bytes in {} shapes (one line, many lines, wide characters, CRLF, empty lines, clusters, mixed), filled or loaded; one step out of 16 (two for texts up to 1100 bytes or, where every place is looked at, 130) at the start, middle or end (small and equally large insertions, deletions of a character, a line, a third, replacements, movements, undo, redo, save, reload); then undone and redone; {} texts of 140000 bytes with more than 65536 lines, characters in a line, or both; texts with a single character of each size up to 5000",
            sizes.len(),
            sizes.last().unwrap(),
            SHAPES,
            GIANTS
        ),
        move |ctx| {
            let shape = ctx.choose(SHAPES + GIANTS + 1);
            let (n, text) = if shape == SHAPES + GIANTS {
                // A single character of that size.
                let n = *ctx.pick(&sizes);
                if n > 5_000 {
                    return Ok(());
                }
                (n, format!("xe{}y\nz", model::marks(n / 2)))
            } else if shape < SHAPES {
                let n = *ctx.pick(&sizes);
                (n, filler(n, shape))
            } else {
                (140_001, giant(shape - SHAPES))
            };
            let from_file = ctx.flag();
            let mut sys = if from_file { Sys::from_file(ctx.scratch, &text, focus) } else { Sys::fresh(&text, focus) };
            if focus == Focus::Callback {
                sys = sys.with_callback();
            }
            // Large texts take a narrower second step, or none.
            let heavy = matches!(what, Post::Grid | Post::Bounds | Post::Moves | Post::Search);
            let steps = if n > if heavy { 130 } else { 1100 } { 1 } else { 2 };
            for i in 0..steps {
                let l = Layout::of(&sys.m.text);
                let at = *ctx.pick(&spots(&l));
                let end_of = |q: Position| p(q.line, l.eol(q.line).unwrap());
                let narrow = i > 0 && !thorough;
                let c = if n > 140_000 { [0, 7, 9, 11][ctx.choose(4)] } else if heavy && n > 1100 && !thorough { [0, 3, 7, 9][ctx.choose(4)] } else if narrow { [3, 8, 12][ctx.choose(3)] } else { ctx.choose(if from_file { 16 } else { 14 }) };
                let ops = match c {
                    0 => vec![Op::Insert("x".into())],
                    1 => vec![Op::Insert("\n".into())],
                    2 => vec![Op::Insert(E_ACUTE.into())],
                    3 => vec![Op::Insert(filler(n, (shape + 1) % SHAPES))],
                    4 => vec![Op::Delete],
                    5 => vec![Op::DeleteRange(at, end_of(at))],
                    6 => vec![Op::DeleteRange(p(at.line, 0), p(at.line + 1, 0))],
                    7 => vec![Op::DeleteRange(at, p(at.line, usize::MAX))],
                    8 => vec![Op::DeleteRange(p(0, 0), at)],
                    9 => vec![Op::Replace(filler(n, (shape + 2) % SHAPES))],
                    10 => vec![Op::Replace(filler(n / 2, shape))],
                    11 => MOVES.iter().map(|m| Op::Move(*m)).collect(),
                    12 => vec![Op::Undo],
                    13 => vec![Op::Undo, Op::Redo],
                    14 => vec![Op::Save],
                    _ => vec![Op::External(filler(n + 1, (shape + 3) % SHAPES)), Op::Reload],
                };
                for op in [vec![Op::MoveTo(at)], ops].concat() {
                    if !sys.apply(ctx, &op).map_err(|e| format!("{} bytes of shape {}: {}", n, shape, e.chars().take(600).collect::<String>()))? {
                        return ctx.foreign();
                    }
                }
                sized_post(ctx, &mut sys, what)?;
            }
            if !unwind(ctx, &mut sys, Post::Nothing).map_err(|e| e.chars().take(600).collect::<String>())? {
                return ctx.foreign();
            }
            Ok(())
        },
    )
}

fn sized_post(ctx: &mut Ctx, sys: &mut Sys, what: Post) -> HResult {
    if !(ctx.fresh() || ctx.tracing()) {
        return Ok(());
    }
    let text = &sys.m.text;
    let b = &sys.real;
    match what {
        Post::Nothing => Ok(()),
        Post::Grid => crate::arith::check_places(ctx, text, &|q| b.cursor.data.borrow().in_bounds(q), &|r| b.read(r)),
        Post::Search => {
            let l = Layout::of(text);
            for needle in ["x", "ne", "z", "\u{301}", "\u{6F22}\u{e9}\u{6F22}", "Z\u{e9}", "nowhere"] {
                let got = b.search(needle);
                let want = crate::arith::search_fast(text, &l, needle);
                ctx.transition();
                if got != want {
                    return Err(format!(
                        "searching {} for {:?} finds {} places, expected {}; first difference {:?}",
                        short(text),
                        needle,
                        got.len(),
                        want.len(),
                        got.iter().zip(&want).find(|(a, b)| a != b)
                    ));
                }
            }
            Ok(())
        }
        Post::Lines => {
            let want = model::lines(text);
            let n = want.len();
            if b.line_count() != n {
                return Err(format!("line_count of {} is {}, expected {}", short(text), b.line_count(), n));
            }
            let got: Vec<(usize, &str)> = scribe::util::LineIterator::new(text).take(n + 2).collect();
            if got.len() != n || got.iter().enumerate().any(|(i, x)| x.0 != i || x.1 != want[i]) {
                return Err(format!("iterating over the {} lines of {} yields {}", n, short(text), got.len()));
            }
            let mut c = b.cursor.clone();
            c.move_to(p(0, 0));
            c.move_to_last_line();
            if c.line != n - 1 || c.move_to(p(n, 0)) || !c.move_to(p(n - 1, 0)) {
                return Err(format!("the cursor cannot reach exactly the {} lines of {}", n, short(text)));
            }
            c.move_down();
            if c.line != n - 1 {
                return Err(format!("down from the last line of {}", short(text)));
            }
            ctx.transitions(n as u64);
            Ok(())
        }
        Post::Bounds | Post::Moves => {
            let l = Layout::of(text);
            let mut places = crate::arith::sparse(&l);
            if text.len() > 1100 {
                // Both ends and the middle.
                let k = places.len();
                if k > 12 {
                    places = [&places[..4], &places[k / 2 - 2..k / 2 + 2], &places[k - 4..]].concat();
                }
            }
            for q in places {
                let mut c = b.cursor.clone();
                let mut n = sys.m.cursor;
                let past = p(q.line, l.eol(q.line).unwrap() + 1);
                if c.move_to(past) || *c != n.pos {
                    return Err(format!("moving to {} in {} was not refused", show(&past), short(text)));
                }
                if !c.move_to(q) || *c != q {
                    return Err(format!("moving to {} in {} leads to {}", show(&q), short(text), show(&c)));
                }
                n.move_to(&l, q);
                for m in [Move::Right, Move::Down, Move::Up, Move::Left, Move::End, Move::Up, Move::Home, Move::LastLine, Move::Down, Move::FirstLine, Move::Up] {
                    go(&mut c, m);
                    n.go(&l, m);
                    ctx.transition();
                    if *c != n.pos {
                        return Err(format!("{:?} after being placed at {} in {} leads to {}, expected {}", m, show(&q), short(text), show(&c), show(&n.pos)));
                    }
                }
            }
            Ok(())
        }
    }
}

/// Every scalar value in a few contexts.
pub fn scalar_texts(c: char) -> Vec<String> {
    vec![format!("a{}b", c), format!("{}\n{}", c, c), format!("e{}\u{301}", c), format!("\r{}\n", c)]
}

pub fn every_scalar(name: &'static str, what: &'static str, f: impl Fn(&mut Ctx, char) -> HResult + Sync + 'static) -> Harness {
    Harness::new(name, format!("each of the 1,112,064 Unicode scalar values: {}", what), move |ctx| {
        for c in crate::io::scalars(ctx, 64).unwrap_or_default() {
            f(ctx, c)?;
        }
        Ok(())
    })
}

/// A buffer holding `text`, or None if it came out differently.
pub fn holding(text: &str) -> Option<scribe::Buffer> {
    let mut b = scribe::Buffer::new();
    b.insert(text);
    if b.data() == text {
        Some(b)
    } else {
        None
    }
}

/// What the buffer keeps about its text must survive edits at every place and of every extent.
pub fn anywhere(focus: Focus, what: Post, thorough: bool) -> Harness {
    let texts = ["a\nb\nc", "a\r\n\r\nb", "\n\n", "e\u{301}\nx\n", "ab\u{1F1E6}\u{1F1E6}\n\u{301}"];
    let inserted = ["\n", "a", "\r", COMB, "x\ny", ""];
    let heavy = what == Post::Grid;
    Harness::new(
        "edits-anywhere",
        format!("{:?}; 2 edits, or 3 on {}, out of: deletions between any two existing or missing places, insertions of {:?} at each place, two replacements; then undo once or twice, and redo", texts, if heavy && !thorough { "none" } else if thorough && !heavy { "all" } else { "those of less than 6 bytes" }, inserted),
        move |ctx| {
            let text = *ctx.pick(&texts);
            let mut sys = Sys::fresh(text, focus);
            if focus == Focus::Callback {
                sys = sys.with_callback();
            }
            let edits = if if thorough { !heavy || text.len() < 6 } else { !heavy && text.len() < 6 } { 3 } else { 2 };
            for _ in 0..edits {
                let l = Layout::of(&sys.m.text);
                let places = l.all();
                let k = places.len();
                let mut ends = places.clone();
                ends.extend(l.missing());
                ends.push(p(usize::MAX, usize::MAX));
                let n_ins = k * inserted.len();
                // From an existing place, to any place further on.
                let mut n_del = 0;
                for a in &places {
                    n_del += ends.iter().filter(|b| *b > a).count();
                }
                let c = ctx.choose(n_ins + n_del + 2);
                let op = if c < n_ins {
                    if !sys.apply(ctx, &Op::MoveTo(places[c % k]))? {
                        return ctx.foreign();
                    }
                    Op::Insert(inserted[c / k].into())
                } else if c < n_ins + n_del {
                    let (a, b) = places.iter().flat_map(|a| ends.iter().filter(move |b| *b > a).map(move |b| (*a, *b))).nth(c - n_ins).unwrap();
                    Op::DeleteRange(a, b)
                } else {
                    Op::Replace(["", "r\n\u{301}s\n"][c - n_ins - n_del].into())
                };
                if !sys.apply(ctx, &op)? {
                    return ctx.foreign();
                }
                post(ctx, &mut sys, what)?;
            }
            for _ in 0..ctx.choose(3) {
                if !sys.apply(ctx, &Op::Undo)? {
                    return ctx.foreign();
                }
                post(ctx, &mut sys, what)?;
            }
            if !sys.apply(ctx, &Op::Redo)? {
                return ctx.foreign();
            }
            post(ctx, &mut sys, what)
        },
    )
}
