//! Harnesses over edit and movement histories: C01-C05, C08-C11.

use crate::deep::{self, Post};
use crate::engine::{Ctx, HResult, Harness};
use crate::model::{self, Layout, Move, MOVES};
use crate::sys::{p, rewind, show, Focus, Op, Sys};
use scribe::buffer::{GapBuffer, Position, Range};

/// Characters that combine with their neighbours, in addition to plain ones.
pub const E_ACUTE: &str = "e\u{301}";
pub const COMB: &str = "\u{301}";
pub const ZWJ: &str = "\u{200d}";
pub const WOMAN: &str = "\u{1F469}";
pub const GIRL: &str = "\u{1F467}";
pub const RI_U: &str = "\u{1F1FA}";
pub const RI_S: &str = "\u{1F1F8}";
pub const NA: &str = "\u{928}";
pub const II: &str = "\u{940}";
pub const PREPEND: &str = "\u{600}";
pub const HAN: &str = "\u{6F22}";
pub const L_JAMO: &str = "\u{1100}";
pub const V_JAMO: &str = "\u{1161}";

pub fn s(v: &[&str]) -> Vec<String> {
    v.iter().map(|x| x.to_string()).collect()
}

/// A handful of telling places in a text, existing and not.
pub fn landmarks(l: &Layout) -> Vec<Position> {
    let mut v = vec![p(0, 0), p(0, 1), l.end()];
    v.push(p(0, l.eol(0).unwrap()));
    v.push(p(0, l.eol(0).unwrap() + 1));
    v.push(p(1, 0));
    v.push(p(l.last_line(), 0));
    let mut out: Vec<Position> = Vec::new();
    for q in v {
        if !out.contains(&q) {
            out.push(q);
        }
    }
    out
}

// --- GapBuffer level --------------------------------------------------------------------

struct Gap {
    real: GapBuffer,
    text: String,
}

impl Gap {
    fn new(text: &str) -> Gap {
        Gap { real: GapBuffer::new(text), text: text.to_string() }
    }
    fn insert(&mut self, ctx: &mut Ctx, at: Position, content: &str) -> HResult {
        let before = self.text.clone();
        self.real.insert(content, &at);
        self.text = model::insert(&self.text, &at, content);
        ctx.transition();
        self.check(ctx, || format!("inserting {:?} at {} into {:?}", content, show(&at), before))
    }
    fn delete(&mut self, ctx: &mut Ctx, a: Position, b: Position) -> HResult {
        let before = self.text.clone();
        self.real.delete(&Range::new(a, b));
        self.text = model::delete(&self.text, &a, &b);
        ctx.transition();
        self.check(ctx, || format!("deleting {}-{} from {:?}", show(&a), show(&b), before))
    }
    fn check(&mut self, ctx: &mut Ctx, what: impl Fn() -> String) -> HResult {
        if !ctx.fresh() && !ctx.tracing() {
            return Ok(());
        }
        let got = self.real.to_string();
        ctx.log(|| format!("{} -> {:?}", what(), got));
        ctx.state(&self.text);
        if got != self.text {
            return Err(format!("{} gives {:?}, expected {:?}", what(), got, self.text));
        }
        Ok(())
    }
    /// Existence of every position and the text of every range.
    fn grid(&self, ctx: &mut Ctx) -> HResult {
        if !ctx.fresh() && !ctx.tracing() {
            return Ok(());
        }
        let text = self.real.to_string();
        if text != self.text {
            return ctx.foreign();
        }
        grid_of(ctx, &text, &|q| self.real.in_bounds(q), &|r| self.real.read(r))
    }
}

pub fn grid_of(
    ctx: &mut Ctx,
    text: &str,
    in_bounds: &dyn Fn(&Position) -> bool,
    read: &dyn Fn(&Range) -> Option<String>,
) -> HResult {
    let l = Layout::of(text);
    let mut all = l.all();
    let existing = all.len();
    all.extend(l.missing());
    // Backwards first, then forwards: an answer may not depend on what was asked before.
    let n = all.len();
    for i in (0..n).rev().chain(0..n) {
        let q = &all[i];
        let got = in_bounds(q);
        if got != (i < existing) {
            return Err(format!(
                "position {} is reported as {} in {:?}",
                show(q),
                if got { "existing" } else { "missing" },
                text
            ));
        }
    }
    for a in all.iter().rev() {
        for b in all.iter() {
            if model::lt(b, a) {
                continue;
            }
            let got = read(&Range::new(*a, *b));
            let want = match (l.offset(a), l.offset(b)) {
                (Some(x), Some(y)) => Some(&text[x..y]),
                _ => None,
            };
            if got.as_deref() != want {
                return Err(format!(
                    "reading {}-{} of {:?} gives {:?}, expected {:?}",
                    show(a),
                    show(b),
                    text,
                    got,
                    want
                ));
            }
        }
    }
    let n = (all.len() * all.len() / 2) as u64;
    ctx.transitions(n);
    ctx.count("position grids compared");
    Ok(())
}

/// One edit of the storage at an exhaustively chosen place. Returns false when abandoned.
fn gap_edit(ctx: &mut Ctx, g: &mut Gap, contents: &[String]) -> HResult {
    let l = Layout::of(&g.text);
    let all = l.all();
    let missing = l.missing();
    let n_ins = (all.len() + missing.len()) * contents.len();
    // Deletions: between any two existing positions, from any existing position to any
    // missing one, and from a missing one.
    let n = all.len();
    let n_del = n * (n + 1) / 2 + n * missing.len() + missing.len();
    let c = ctx.choose(n_ins + n_del);
    if c < n_ins {
        let (pi, ci) = (c / contents.len(), c % contents.len());
        let at = if pi < n { all[pi] } else { missing[pi - n] };
        return g.insert(ctx, at, &contents[ci]);
    }
    let mut d = c - n_ins;
    for i in 0..n {
        if d < n - i {
            return g.delete(ctx, all[i], all[i + d]);
        }
        d -= n - i;
    }
    if d < n * missing.len() {
        return g.delete(ctx, all[d / missing.len()], missing[d % missing.len()]);
    }
    d -= n * missing.len();
    g.delete(ctx, missing[d], l.end())
}

pub fn c01(thorough: bool) -> Vec<Harness> {
    let mut v = Vec::new();
    {
        let texts = s(&["", "a", "ab", "a\nb", "\n", "ab\n", "a\r\nb", "\u{e9}\n\u{6F22}"]);
        let contents = s(&["x", "y\n", "\u{e9}z", "12345678"]);
        let depth = if thorough { 4 } else { 3 };
        let texts = if thorough { s(&["", "a\nb", "a\r\n"]) } else { texts };
        v.push(Harness::new(
            "storage-edits-everywhere",
            format!("GapBuffer from each of {:?}; {} edits; insert {:?} at every existing and missing position, delete every range", texts, depth, contents),
            move |ctx| {
                let t = ctx.pick(&texts).clone();
                let mut g = Gap::new(&t);
                for _ in 0..depth {
                    gap_edit(ctx, &mut g, &contents)?;
                }
                Ok(())
            },
        ));
    }
    {
        let depth = if thorough { 3 } else { 2 };
        let texts: Vec<String> = if thorough {
            s(&["", "ab\ncd\n\nef", "a\r\nb\r\n"])
        } else {
            s(&["", "ab\ncd\n\nef", "a\r\nb\r\n", "\n\n\n", "\u{e9}\u{e9}\n\u{6F22}\u{1F469}", "abcdefgh\nij"])
        };
        let contents = s(&["x", "\n", "q\nr", "\u{1F469}", "", "0123456789abcdef0"]);
        v.push(Harness::new(
            "storage-edits-longer-texts",
            format!("GapBuffer from each of {:?}; {} edits; insert {:?} everywhere, delete every range", texts, depth, contents),
            move |ctx| {
                let t = ctx.pick(&texts).clone();
                let mut g = Gap::new(&t);
                for _ in 0..depth {
                    gap_edit(ctx, &mut g, &contents)?;
                }
                Ok(())
            },
        ));
    }
    {
        // Content sizes against the spare room left by earlier edits.
        let depth = if thorough { 5 } else { 4 };
        let sizes: Vec<usize> = vec![1, 2, 4, 7, 8, 9, 16, 17];
        v.push(Harness::new(
            "storage-capacity",
            format!("GapBuffer of 0, 3 or 8 bytes; {} edits; insert {:?} characters or delete 1, 3, 8 or all at start, middle and end", depth, sizes),
            move |ctx| {
                let t = *ctx.pick(&["", "ABC", "ABCDEFGH"]);
                let mut g = Gap::new(t);
                for step in 0..depth {
                    let n = g.text.chars().count();
                    let ch = (b'a' + step as u8) as char;
                    let c = ctx.choose(sizes.len() * 3 + 8);
                    let place = |k: usize| match k {
                        0 => 0,
                        1 => n / 2,
                        _ => n,
                    };
                    if c < sizes.len() * 3 {
                        let content: String = (0..sizes[c / 3])
                            .map(|i| if i % 2 == 0 { ch } else { ch.to_ascii_uppercase() })
                            .collect();
                        g.insert(ctx, p(0, place(c % 3)), &content)?;
                    } else {
                        let d = c - sizes.len() * 3;
                        let (k, at) = match d {
                            0 => (1, 0),
                            1 => (1, n / 2),
                            2 => (3, 0),
                            3 => (3, n / 2),
                            4 => (8, n / 2),
                            5 => (1, n.saturating_sub(1)),
                            6 => (3, n.saturating_sub(3)),
                            _ => (n, 0),
                        };
                        g.delete(ctx, p(0, at), p(0, (at + k).min(n)))?;
                    }
                }
                Ok(())
            },
        ));
    }
    {
        let depth = if thorough { 5 } else { 4 };
        let contents = s(&["a", "b\n", HAN]);
        v.push(Harness::new(
            "buffer-edits",
            format!("empty Buffer; {} steps, each a cursor placement at a landmark followed by insert of {:?}, delete, delete-range between landmarks, or replace", depth, contents),
            move |ctx| {
                let mut sys = Sys::fresh("", Focus::Text);
                for _ in 0..depth {
                    let op = edit_op(ctx, &sys, &contents, &["", "r\ns"]);
                    if !placed(ctx, &mut sys, op)? {
                        return ctx.foreign();
                    }
                }
                Ok(())
            },
        ));
    }
    {
        // Merging characters: the text must still be exactly the string edit's result.
        let depth = if thorough { 5 } else { 4 };
        let contents = s(&["e", COMB, "\r", "\n", RI_U]);
        v.push(Harness::new(
            "storage-edits-merging",
            format!("GapBuffer \"\"; {} edits; insert {:?} everywhere, delete every range", depth - 1, contents),
            move |ctx| {
                let mut g = Gap::new("");
                for _ in 0..depth - 1 {
                    gap_edit(ctx, &mut g, &contents)?;
                }
                Ok(())
            },
        ));
    }
    v.push(deep::universe(Focus::Text, Post::Nothing, false, thorough));
    v.push(crate::strings::edited_pairs());
    v.push(crate::strings::strings(Focus::Text, Post::Nothing, thorough));
    v.push(deep::sized(Focus::Text, Post::Nothing, thorough));
    v.push(deep::every_scalar(
        "every-scalar",
        "inserted into and deleted from four texts, at every position, its neighbours deleted, text appended to it",
        |ctx, c| {
            let content = c.to_string();
            for t in ["", "ab", "e\u{301}\n", "\r\u{1F1FA}"] {
                for at in Layout::of(t).all() {
                    let mut g = Gap::new(t);
                    g.insert(ctx, at, &content)?;
                    let l = Layout::of(&g.text);
                    let all = l.all();
                    for i in 0..all.len() {
                        let mut g = Gap { real: GapBuffer::new(&g.text), text: g.text.clone() };
                        g.insert(ctx, all[i], "z")?;
                    }
                    let d = all[all.len() / 2];
                    g.delete(ctx, d, p(d.line, d.offset + 1))?;
                }
            }
            Ok(())
        },
    ));
    v
}

pub enum Placed {
    At(Position, Op),
    Just(Op),
}

pub fn placed(ctx: &mut Ctx, sys: &mut Sys, op: Placed) -> Result<bool, String> {
    match op {
        Placed::Just(op) => sys.apply(ctx, &op),
        Placed::At(q, op) => Ok(sys.apply(ctx, &Op::MoveTo(q))? && sys.apply(ctx, &op)?),
    }
}

/// Chooses an edit at a landmark.
pub fn edit_op(ctx: &mut Ctx, sys: &Sys, contents: &[String], replacements: &[&str]) -> Placed {
    let l = Layout::of(&sys.m.text);
    let marks = landmarks(&l);
    let k = marks.len();
    let pairs: Vec<(Position, Position)> = {
        let mut v = Vec::new();
        for (i, a) in marks.iter().enumerate() {
            for b in &marks[i + 1..] {
                v.push((*a, *b));
            }
        }
        v.push((p(0, 0), p(9, 9)));
        v
    };
    let n_ins = k * contents.len();
    let c = ctx.choose(n_ins + k + pairs.len() + replacements.len());
    if c < n_ins {
        return Placed::At(marks[c % k], Op::Insert(contents[c / k].clone()));
    }
    let c = c - n_ins;
    if c < k {
        return Placed::At(marks[c], Op::Delete);
    }
    let c = c - k;
    if c < pairs.len() {
        return Placed::Just(Op::DeleteRange(pairs[c].0, pairs[c].1));
    }
    Placed::Just(Op::Replace(replacements[c - pairs.len()].to_string()))
}

// --- C02 --------------------------------------------------------------------------------

pub fn c02(thorough: bool) -> Vec<Harness> {
    let mut v = Vec::new();
    {
        let contents = s(&["e", COMB, "\n", "\r"]);
        let depth = if thorough { 5 } else { 4 };
        v.push(Harness::new(
            "grid-after-edits",
            format!("GapBuffer \"\" ; {} edits; insert {:?} everywhere, delete every range; after each: existence of every position, read of every range", depth, contents),
            move |ctx| {
                let mut g = Gap::new("");
                for _ in 0..depth {
                    let r = gap_edit(ctx, &mut g, &contents);
                    if r.is_err() {
                        return ctx.foreign();
                    }
                    g.grid(ctx)?;
                }
                Ok(())
            },
        ));
    }
    {
        let atoms = s(&["a", COMB, ZWJ, WOMAN, GIRL, RI_U, RI_S, NA, II, PREPEND, L_JAMO, V_JAMO, "\r", "\n", HAN]);
        let len = if thorough { 4 } else { 3 };
        v.push(Harness::new(
            "grid-every-layout",
            format!("every text of 0..={} atoms of {:?}, stored with the gap at every character boundary (gap made by inserting and by deleting)", len, atoms),
            move |ctx| {
                let n = ctx.choose(len + 1);
                let parts: Vec<String> = (0..n).map(|_| ctx.pick(&atoms).clone()).collect();
                let k = ctx.choose(n + 1);
                let head: String = parts[..k].concat();
                let tail: String = parts[k..].concat();
                let mode = ctx.choose(3);
                let text = format!("{}{}", head, tail);
                let real = match mode {
                    // Head inserted before the tail: spare room right after the head.
                    0 => {
                        let mut g = GapBuffer::new(&tail);
                        g.insert(&head, &p(0, 0));
                        g
                    }
                    // The tail inserted in front of nothing, head typed before it.
                    1 => {
                        let mut g = GapBuffer::new("");
                        g.insert(&tail, &p(0, 0));
                        for a in parts[..k].iter().rev() {
                            g.insert(a, &p(0, 0));
                        }
                        g
                    }
                    // Something between head and tail removed: the deleted bytes stay behind.
                    _ => {
                        let mut g = GapBuffer::new(format!("{}\n#\n{}", head, tail));
                        let l = Layout::of(&format!("{}\n#\n", head));
                        let start = Layout::of(&format!("{}\n#\n{}", head, tail)).containing(head.len());
                        if Layout::of(&format!("{}\n#\n{}", head, tail)).offset(&start) != Some(head.len()) {
                            // head ends in CR: the line feed belongs to it
                            return Ok(());
                        }
                        g.delete(&Range::new(start, l.end()));
                        g
                    }
                };
                if real.to_string() != text {
                    return ctx.foreign();
                }
                ctx.log(|| format!("text {:?}, split after {:?}, mode {}", text, head, mode));
                ctx.state(&(&text, k, mode));
                grid_of(ctx, &text, &|q| real.in_bounds(q), &|r| real.read(r))
            },
        ));
    }
    {
        // Buffer level: reads through the buffer after undo/redo, with stale texts around.
        let contents = s(&["a", "b\n", E_ACUTE, COMB]);
        let depth = if thorough { 4 } else { 3 };
        v.push(Harness::new(
            "buffer-grid",
            format!("Buffer \"xy\"; {} steps of landmark edits, replace, undo, redo; after each: every position (via cursor placement) and every range", depth),
            move |ctx| {
                let mut sys = Sys::fresh("xy", Focus::Nothing);
                for _ in 0..depth {
                    let op = match ctx.choose(3) {
                        0 => edit_op(ctx, &sys, &contents, &["z\nw"]),
                        1 => Placed::Just(Op::Undo),
                        _ => Placed::Just(Op::Redo),
                    };
                    if !placed(ctx, &mut sys, op)? {
                        return ctx.foreign();
                    }
                    if ctx.fresh() || ctx.tracing() {
                        let text = sys.real.data();
                        let real = &sys.real;
                        let probe = |q: &Position| {
                            let mut c = real.cursor.clone();
                            c.move_to(*q)
                        };
                        grid_of(ctx, &text, &probe, &|r| real.read(r))?;
                    }
                }
                Ok(())
            },
        ));
    }
    v.push(deep::universe(Focus::Nothing, Post::Grid, false, thorough));
    v.push(crate::strings::strings(Focus::Nothing, Post::Grid, thorough));
    v.push(deep::sized(Focus::Nothing, Post::Grid, thorough));
    v.push(deep::anywhere(Focus::Nothing, Post::Grid, thorough));
    v.push(deep::every_scalar(
        "every-scalar",
        "between letters, around a line feed, before a combining mark, between CR and LF: every position and range",
        |ctx, c| {
            for t in deep::scalar_texts(c) {
                let g = Gap::new(&t);
                g.grid(ctx)?;
            }
            Ok(())
        },
    ));
    v
}

// --- C03, C04 ---------------------------------------------------------------------------

pub fn c03(thorough: bool) -> Vec<Harness> {
    let mut v = Vec::new();
    {
        let contents = s(&["a", "b\nc", COMB]);
        let depth = if thorough { 5 } else { 4 };
        v.push(Harness::new(
            "history-broad",
            format!("Buffer \"\"; {} steps: insert {:?}, delete, delete-range, replace at landmarks, undo, redo; finally everything undone and redone", depth, contents),
            move |ctx| {
                let mut sys = Sys::fresh("", Focus::Text);
                for _ in 0..depth {
                    let op = match ctx.choose(3) {
                        0 => edit_op(ctx, &sys, &contents, &["r\ns"]),
                        1 => Placed::Just(Op::Undo),
                        _ => Placed::Just(Op::Redo),
                    };
                    if !placed(ctx, &mut sys, op)? {
                        return ctx.foreign();
                    }
                }
                rewind(ctx, &mut sys, "C03")
            },
        ));
    }
    {
        let depth = if thorough { 9 } else { 7 };
        v.push(Harness::new(
            "history-deep",
            format!("Buffer \"m\\nn\"; {} steps of: insert \"a\" at start, insert \"b\\n\" at end, insert U+0301 after the first character, delete first character, delete to past the line end, replace, undo, redo; finally everything undone and redone", depth),
            move |ctx| {
                let mut sys = Sys::fresh("m\nn", Focus::Text);
                for _ in 0..depth {
                    let l = Layout::of(&sys.m.text);
                    let op = match ctx.choose(8) {
                        0 => Placed::At(p(0, 0), Op::Insert("a".into())),
                        1 => Placed::At(l.end(), Op::Insert("b\n".into())),
                        2 => Placed::At(p(0, 1), Op::Insert(COMB.into())),
                        3 => Placed::At(p(0, 0), Op::Delete),
                        4 => Placed::Just(Op::DeleteRange(p(0, 0), p(0, 99))),
                        5 => Placed::Just(Op::Replace("r".into())),
                        6 => Placed::Just(Op::Undo),
                        _ => Placed::Just(Op::Redo),
                    };
                    if !placed(ctx, &mut sys, op)? {
                        return ctx.foreign();
                    }
                }
                rewind(ctx, &mut sys, "C03")
            },
        ));
    }
    {
        // One edit on every text and position, with the gap parked somewhere else before
        // the undo: the inverse must be exact for characters that merge at the seams.
        let atoms = s(&["e", COMB, "\r", "\n", RI_U, RI_S, ZWJ, WOMAN, PREPEND]);
        let len = if thorough { 4 } else { 3 };
        v.push(Harness::new(
            "inverse-everywhere",
            format!("every text of 0..={} atoms of {:?}; insert each atom, or atom pair, at every position or delete every range; then 0 or 1 further edits at start or end; then undo, redo, undo all", len, atoms),
            move |ctx| {
                let n = ctx.choose(len + 1);
                let text: String = (0..n).map(|_| ctx.pick(&atoms).clone()).collect();
                let mut sys = Sys::fresh(&text, Focus::Text);
                let l = Layout::of(&text);
                let all = l.all();
                let missing = l.missing();
                let op = match ctx.choose(3) {
                    0 => {
                        let q = *ctx.pick(&all);
                        Placed::At(q, Op::Insert(ctx.pick(&atoms).clone()))
                    }
                    1 => {
                        let q = *ctx.pick(&all);
                        let c = format!("{}{}", ctx.pick(&["x", "\n", "e"]), ctx.pick(&atoms));
                        Placed::At(q, Op::Insert(c))
                    }
                    _ => {
                        let a = *ctx.pick(&all);
                        let i = ctx.choose(all.len() + missing.len());
                        let b = if i < all.len() { all[i] } else { missing[i - all.len()] };
                        Placed::Just(Op::DeleteRange(a, b))
                    }
                };
                if !placed(ctx, &mut sys, op)? {
                    return ctx.foreign();
                }
                let l = Layout::of(&sys.m.text);
                let extra = match ctx.choose(4) {
                    0 => None,
                    1 => Some((p(0, 0), Op::Insert("12345678".into()))),
                    2 => Some((l.end(), Op::Insert("z".into()))),
                    _ => Some((p(0, 0), Op::Delete)),
                };
                if let Some((q, op)) = extra {
                    if !placed(ctx, &mut sys, Placed::At(q, op))? {
                        return ctx.foreign();
                    }
                }
                rewind(ctx, &mut sys, "C03")
            },
        ));
    }
    v.push(deep::universe(Focus::Text, Post::Nothing, true, thorough));
    v.push(crate::strings::strings(Focus::Text, Post::Nothing, thorough));
    v.push(deep::long(Focus::Text, thorough));
    v.push(deep::anywhere(Focus::Text, Post::Nothing, thorough));
    v.push(deep::sized(Focus::Text, Post::Nothing, thorough));
    v.push(deep::every_scalar(
        "every-scalar",
        "inserted at every position of four texts, deleted, undone, redone; as a replacement",
        |ctx, c| {
            for t in ["", "ab", "e\u{301}\n", "\r\u{1F1FA}"] {
                for at in Layout::of(t).all() {
                    let mut sys = Sys::fresh(t, Focus::Text);
                    for op in [Op::MoveTo(at), Op::Insert(c.to_string()), Op::Delete, Op::Replace(c.to_string()), Op::Undo, Op::Undo, Op::Undo, Op::Redo, Op::Redo, Op::Redo] {
                        if !sys.apply(ctx, &op)? {
                            return ctx.foreign();
                        }
                    }
                }
            }
            Ok(())
        },
    ));
    v.push(crate::life::time_passes(Focus::Text, thorough));
    v
}

pub fn c04(thorough: bool) -> Vec<Harness> {
    let mut v = Vec::new();
    {
        let depth = if thorough { 8 } else { 7 };
        v.push(Harness::new(
            "groups-deep",
            format!("Buffer \"m\"; {} steps of: start, end, insert \"a\" at start, insert \"b\\nc\" at end, delete first character, undo, redo; finally everything undone and redone", depth),
            move |ctx| {
                let mut sys = Sys::fresh("m", Focus::Text);
                for _ in 0..depth {
                    let l = Layout::of(&sys.m.text);
                    let op = match ctx.choose(7) {
                        0 => Placed::Just(Op::Start),
                        1 => Placed::Just(Op::End),
                        2 => Placed::At(p(0, 0), Op::Insert("a".into())),
                        3 => Placed::At(l.end(), Op::Insert("b\nc".into())),
                        4 => Placed::At(p(0, 0), Op::Delete),
                        5 => Placed::Just(Op::Undo),
                        _ => Placed::Just(Op::Redo),
                    };
                    if !placed(ctx, &mut sys, op)? {
                        return ctx.foreign();
                    }
                }
                rewind(ctx, &mut sys, "C04")
            },
        ));
    }
    {
        let depth = if thorough { 6 } else { 5 };
        v.push(Harness::new(
            "groups-broad",
            format!("Buffer \"\"; {} steps: start, end, inserts of \"a\", U+0301, \"b\\n\", delete, delete-range past line end, replace, undo, redo; finally everything undone and redone", depth),
            move |ctx| {
                let mut sys = Sys::fresh("", Focus::Text);
                for _ in 0..depth {
                    let l = Layout::of(&sys.m.text);
                    let op = match ctx.choose(13) {
                        0 => Placed::Just(Op::Start),
                        1 => Placed::Just(Op::End),
                        2 => Placed::At(p(0, 0), Op::Insert("a".into())),
                        3 => Placed::At(l.end(), Op::Insert("b\n".into())),
                        4 => Placed::At(p(0, 1), Op::Insert(COMB.into())),
                        5 => Placed::At(p(0, 1), Op::Insert("c".into())),
                        6 => Placed::At(p(0, 0), Op::Delete),
                        7 => Placed::Just(Op::DeleteRange(p(0, 1), p(0, 99))),
                        8 => Placed::Just(Op::Replace("r\ns".into())),
                        9 => Placed::Just(Op::DeleteRange(p(0, 0), l.end())),
                        10 => Placed::Just(Op::Insert("d".into())),
                        11 => Placed::Just(Op::Undo),
                        _ => Placed::Just(Op::Redo),
                    };
                    if !placed(ctx, &mut sys, op)? {
                        return ctx.foreign();
                    }
                }
                rewind(ctx, &mut sys, "C04")
            },
        ));
    }
    {
        let depth = if thorough { 7 } else { 6 };
        v.push(Harness::new(
            "groups-and-files",
            format!("file \"m\"; {} steps of: start, end, insert, undo, redo, save, reload, external change; finally everything undone and redone", depth),
            move |ctx| {
                let mut sys = Sys::from_file(ctx.scratch, "m", Focus::Text);
                for _ in 0..depth {
                    let op = match ctx.choose(8) {
                        0 => Placed::Just(Op::Start),
                        1 => Placed::Just(Op::End),
                        2 => Placed::At(p(0, 0), Op::Insert("a".into())),
                        3 => Placed::Just(Op::Undo),
                        4 => Placed::Just(Op::Redo),
                        5 => Placed::Just(Op::Save),
                        6 => Placed::Just(Op::Reload),
                        _ => Placed::Just(Op::External("x\ny".into())),
                    };
                    if !placed(ctx, &mut sys, op)? {
                        return ctx.foreign();
                    }
                }
                rewind(ctx, &mut sys, "C04")
            },
        ));
    }
    v.push(deep::universe(Focus::Text, Post::Nothing, true, thorough));
    v.push(crate::strings::strings(Focus::Text, Post::Nothing, thorough));
    v.push(deep::long(Focus::Text, thorough));
    v.push(crate::life::time_passes(Focus::Text, thorough));
    v
}

// --- C05 --------------------------------------------------------------------------------

pub fn c05(thorough: bool) -> Vec<Harness> {
    let mut v = Vec::new();
    {
        let depth = if thorough { 7 } else { 6 };
        v.push(Harness::new(
            "modified-files",
            format!("file \"m\"; {} steps of: insert, delete, undo, redo, save, failing save, reload, external change, start, end", depth),
            move |ctx| {
                let mut sys = Sys::from_file(ctx.scratch, "m", Focus::Modified);
                if sys.real.modified() {
                    return Err("a buffer just loaded reports modified".into());
                }
                for _ in 0..depth {
                    let op = match ctx.choose(10) {
                        0 => Placed::Just(Op::Insert("a".into())),
                        1 => Placed::Just(Op::Undo),
                        2 => Placed::Just(Op::Redo),
                        3 => Placed::Just(Op::Save),
                        4 => Placed::Just(Op::Start),
                        5 => Placed::Just(Op::End),
                        6 => Placed::Just(Op::Delete),
                        7 => Placed::Just(Op::Reload),
                        8 => Placed::Just(Op::External("x".into())),
                        _ => Placed::Just(Op::FailingSave),
                    };
                    if !placed(ctx, &mut sys, op)? {
                        return ctx.foreign();
                    }
                }
                Ok(())
            },
        ));
    }
    {
        let depth = if thorough { 10 } else { 8 };
        v.push(Harness::new(
            "modified-deep",
            format!("file \"m\"; {} steps of: insert, replace, undo, redo, save", depth),
            move |ctx| {
                let mut sys = Sys::from_file(ctx.scratch, "m", Focus::Modified);
                let mut n = 0;
                for _ in 0..depth {
                    let op = match ctx.choose(5) {
                        0 => Placed::Just(Op::Insert("a".into())),
                        1 => {
                            n += 1;
                            Placed::Just(Op::Replace(format!("r{}", n)))
                        }
                        2 => Placed::Just(Op::Undo),
                        3 => Placed::Just(Op::Redo),
                        _ => Placed::Just(Op::Save),
                    };
                    if !placed(ctx, &mut sys, op)? {
                        return ctx.foreign();
                    }
                }
                Ok(())
            },
        ));
    }
    {
        let depth = if thorough { 6 } else { 5 };
        v.push(Harness::new(
            "modified-without-path",
            format!("new buffer, path given after 0..={} steps, {} steps of insert, undo, redo, start, end, save attempts; and a loaded buffer whose path is removed", depth, depth),
            move |ctx| {
                let loaded = ctx.flag();
                let at = ctx.choose(depth + 1);
                let mut sys = if loaded {
                    let mut x = Sys::from_file(ctx.scratch, "m", Focus::Modified);
                    x.disk = "m".into();
                    x
                } else {
                    Sys::fresh("", Focus::Modified)
                };
                for i in 0..depth {
                    if i == at {
                        if loaded {
                            sys.real.path = None;
                            sys.m.has_path = false;
                        } else {
                            let path = ctx.scratch.join("fresh");
                            sys.real.path = Some(path.clone());
                            sys.path = Some(path);
                            sys.m.has_path = true;
                        }
                        ctx.log(|| if loaded { "path removed".into() } else { "path set".into() });
                        if sys.real.modified() != sys.m.modified() {
                            return Err(format!("modified() is {} after the path was {}", sys.real.modified(), if loaded { "removed" } else { "set" }));
                        }
                    }
                    let c = ctx.choose(6);
                    let op = match c {
                        0 => Op::Insert("a".into()),
                        1 => Op::Undo,
                        2 => Op::Redo,
                        3 => Op::Start,
                        4 => Op::End,
                        _ if sys.m.has_path => Op::Save,
                        _ => {
                            if sys.real.save().is_ok() {
                                return ctx.foreign();
                            }
                            ctx.transition();
                            if sys.real.modified() != sys.m.modified() {
                                return Err(format!("modified() is {} after a save without path failed", sys.real.modified()));
                            }
                            continue;
                        }
                    };
                    if !sys.apply(ctx, &op)? {
                        return ctx.foreign();
                    }
                }
                Ok(())
            },
        ));
    }
    v.push(deep::universe(Focus::Modified, Post::Nothing, true, thorough));
    v.push(crate::strings::strings(Focus::Modified, Post::Nothing, thorough));
    v.push(crate::dated::dated(Focus::Modified));
    v.push(deep::long(Focus::Modified, thorough));
    v.push(deep::sized(Focus::Modified, Post::Nothing, thorough));
    v.push(crate::life::time_passes(Focus::Modified, thorough));
    v
}

// --- C08, C09 ---------------------------------------------------------------------------

fn cursor_texts() -> Vec<String> {
    s(&[
        "",
        "\n",
        "abc",
        "abc\n",
        "a\nbcd\n\nef",
        "abcd\ne\u{301}f\nghi",
        "a\r\nbcd\r\n",
        "\r\n\r\n",
        "\u{6F22}\u{1F469}\u{200d}\u{1F467}\nxy\n\u{1F1FA}\u{1F1F8}",
        "\n\nabc",
        "x\rd\ny\u{2028}z",
        "  a \n\t\n b  ",
        "\u{feff}a\n\0\n\u{a0}\u{3000}",
    ])
}

pub fn c08(thorough: bool) -> Vec<Harness> {
    let mut v = Vec::new();
    {
        let depth = if thorough { 5 } else { 4 };
        let texts = cursor_texts();
        v.push(Harness::new(
            "moves",
            format!("each of {:?}; {} steps of the 8 movements and placement at every existing and missing position", texts, depth),
            move |ctx| {
                let t = ctx.pick(&texts).clone();
                let mut sys = Sys::fresh(&t, Focus::CursorBounds);
                let l = Layout::of(&t);
                let mut places = l.all();
                places.extend(l.missing());
                for i in 0..depth {
                    let c = ctx.choose(8 + if i % 2 == 0 { places.len() } else { 0 });
                    let op = if c < 8 { Op::Move(MOVES[c]) } else { Op::MoveTo(places[c - 8]) };
                    if !sys.apply(ctx, &op)? {
                        return ctx.foreign();
                    }
                }
                Ok(())
            },
        ));
    }
    {
        let depth = if thorough { 6 } else { 5 };
        v.push(Harness::new(
            "moves-and-edits",
            format!("Buffer \"ab\\ncde\"; {} steps of: the 8 movements, placement at landmarks, insert \"x\" / \"\\n\" / U+0301, delete, delete everything, replace, undo, redo", depth),
            move |ctx| {
                let mut sys = Sys::fresh("ab\ncde", Focus::CursorBounds);
                for _ in 0..depth {
                    let marks = landmarks(&Layout::of(&sys.m.text));
                    let c = ctx.choose(16 + marks.len());
                    let op = match c {
                        0..=7 => Op::Move(MOVES[c]),
                        8 => Op::Insert("x".into()),
                        9 => Op::Insert("\n".into()),
                        10 => Op::Insert(COMB.into()),
                        11 => Op::Delete,
                        12 => Op::DeleteRange(p(0, 0), p(99, 0)),
                        13 => Op::Replace("r\n".into()),
                        14 => Op::Undo,
                        15 => Op::Redo,
                        _ => Op::MoveTo(marks[c - 16]),
                    };
                    if !sys.apply(ctx, &op)? {
                        return ctx.foreign();
                    }
                }
                Ok(())
            },
        ));
    }
    v.push(deep::universe(Focus::CursorBounds, Post::Bounds, false, thorough));
    v.push(crate::strings::strings(Focus::CursorBounds, Post::Bounds, thorough));
    v.push(deep::sized(Focus::CursorBounds, Post::Bounds, thorough));
    v.push(deep::anywhere(Focus::CursorBounds, Post::Bounds, thorough));
    v.push(deep::every_scalar(
        "every-scalar",
        "four texts around it: every placement, every movement from there",
        |ctx, c| {
            for t in deep::scalar_texts(c) {
                let mut sys = Sys::fresh(&t, Focus::CursorBounds);
                for q in Layout::of(&t).all() {
                    if !sys.apply(ctx, &Op::MoveTo(q))? {
                        return ctx.foreign();
                    }
                    deep::post(ctx, &mut sys, Post::Bounds)?;
                }
            }
            Ok(())
        },
    ));
    v.push(crate::life::time_passes(Focus::CursorBounds, thorough));
    v
}

pub fn c09(thorough: bool) -> Vec<Harness> {
    let mut v = Vec::new();
    {
        let texts = cursor_texts();
        let depth = if thorough { 8 } else { 6 };
        v.push(Harness::new(
            "movement-sequences",
            format!("each of {:?}; every start position; {} of the 8 movements", texts, depth),
            move |ctx| {
                let t = ctx.pick(&texts).clone();
                let mut sys = Sys::fresh(&t, Focus::CursorMoves);
                let places = Layout::of(&t).all();
                // From every start, but deep sequences only from a few of them.
                let c = ctx.choose(places.len());
                if !sys.apply(ctx, &Op::MoveTo(places[c]))? {
                    return ctx.foreign();
                }
                let d = if c % 3 == 0 { depth } else { depth - 2 };
                for _ in 0..d {
                    let m = *ctx.pick(&MOVES);
                    if !sys.apply(ctx, &Op::Move(m))? {
                        return ctx.foreign();
                    }
                }
                Ok(())
            },
        ));
    }
    {
        // Closure: every reachable (position, remembered column), every movement from it.
        let atoms = s(&["a", " ", "\t", E_ACUTE, "\n", "\r\n"]);
        let len = if thorough { 7 } else { 6 };
        v.push(Harness::new(
            "movement-closure",
            format!("every text of 0..={} atoms of {:?}; breadth-first closure over (position, remembered column) with all movements and placements, the real cursor cloned along", len, atoms),
            move |ctx| {
                let n = ctx.choose(len + 1);
                let mut t = String::new();
                for _ in 0..n {
                    t.push_str(ctx.pick(&atoms));
                }
                closure(ctx, &t)
            },
        ));
    }
    {
        let depth = if thorough { 6 } else { 5 };
        v.push(Harness::new(
            "moves-after-edits",
            format!("Buffer \"ab\\ncde\\nf\"; {} steps of the 8 movements, insert, delete, undo, replace", depth),
            move |ctx| {
                let mut sys = Sys::fresh("ab\ncde\nf", Focus::CursorMoves);
                if !sys.apply(ctx, &Op::MoveTo(p(1, 3)))? {
                    return ctx.foreign();
                }
                for _ in 0..depth {
                    let c = ctx.choose(14);
                    let op = match c {
                        0..=7 => Op::Move(MOVES[c]),
                        8 => Op::Insert("xy".into()),
                        9 => Op::Insert("\n".into()),
                        10 => Op::Delete,
                        11 => Op::DeleteRange(p(0, 1), p(1, 1)),
                        12 => Op::Undo,
                        _ => Op::Replace("long line\n\nxyz".into()),
                    };
                    if !sys.apply(ctx, &op)? {
                        return ctx.foreign();
                    }
                }
                Ok(())
            },
        ));
    }
    v.push(deep::universe(Focus::CursorMoves, Post::Moves, false, thorough));
    v.push(crate::strings::strings(Focus::CursorMoves, Post::Moves, thorough));
    v.push(deep::sized(Focus::CursorMoves, Post::Moves, thorough));
    v.push(deep::anywhere(Focus::CursorMoves, Post::Moves, thorough));
    v.push(deep::every_scalar(
        "every-scalar",
        "between letters and in lines of different lengths: every movement, and up or down after it, from every position",
        |ctx, c| {
            for t in [format!("a{}b", c), format!("{0}a{0}\nb\n{0}", c)] {
                let mut sys = Sys::fresh(&t, Focus::CursorMoves);
                for q in Layout::of(&t).all() {
                    if !sys.apply(ctx, &Op::MoveTo(q))? {
                        return ctx.foreign();
                    }
                    deep::post(ctx, &mut sys, Post::Moves)?;
                }
            }
            Ok(())
        },
    ));
    v.push(crate::life::time_passes(Focus::CursorMoves, thorough));
    v
}

fn closure(ctx: &mut Ctx, t: &str) -> HResult {
    use std::collections::{HashSet, VecDeque};
    let sys = Sys::fresh(t, Focus::Nothing);
    let l = Layout::of(t);
    let mut seen = HashSet::new();
    let mut todo = VecDeque::new();
    let start = model::MCursor::at(p(0, 0));
    seen.insert((0, 0, 0));
    todo.push_back((sys.real.cursor.clone(), start));
    while let Some((real, m)) = todo.pop_front() {
        ctx.state(&(t, m.pos.line, m.pos.offset, m.column));
        let places = l.all();
        for i in 0..8 + places.len() {
            let mut r = real.clone();
            let mut n = m;
            let what;
            if i < 8 {
                what = format!("{:?}", MOVES[i]);
                match MOVES[i] {
                    Move::Up => r.move_up(),
                    Move::Down => r.move_down(),
                    Move::Left => r.move_left(),
                    Move::Right => r.move_right(),
                    Move::Home => r.move_to_start_of_line(),
                    Move::End => r.move_to_end_of_line(),
                    Move::FirstLine => r.move_to_first_line(),
                    Move::LastLine => r.move_to_last_line(),
                }
                n.go(&l, MOVES[i]);
            } else {
                what = format!("placement at {}", show(&places[i - 8]));
                r.move_to(places[i - 8]);
                n.move_to(&l, places[i - 8]);
            }
            ctx.transition();
            if *r != n.pos {
                return Err(format!(
                    "{} in {:?} from {} with remembered column {} led to {}, expected {}",
                    what,
                    t,
                    show(&m.pos),
                    m.column,
                    show(&r),
                    show(&n.pos)
                ));
            }
            if seen.insert((n.pos.line, n.pos.offset, n.column)) {
                todo.push_back((r, n));
            }
        }
    }
    ctx.log(|| format!("{:?}: {} cursor states closed", t, seen.len()));
    ctx.count("closures completed");
    Ok(())
}

// --- C10 --------------------------------------------------------------------------------

pub fn c10(thorough: bool) -> Vec<Harness> {
    let mut v = Vec::new();
    {
        let atoms = s(&["a", E_ACUTE, "\n", "\r\n"]);
        let len = if thorough { 4 } else { 3 };
        v.push(Harness::new(
            "replace-every-pair",
            format!("every old and new text of 0..={} atoms of {:?}, every cursor position; replace, undo, redo", len, atoms),
            move |ctx| {
                let n = ctx.choose(len + 1);
                let old: String = (0..n).map(|_| ctx.pick(&atoms).clone()).collect();
                let n = ctx.choose(len + 1);
                let new: String = (0..n).map(|_| ctx.pick(&atoms).clone()).collect();
                let mut sys = Sys::fresh(&old, Focus::Replace);
                sys.real.id = Some(7);
                let q = *ctx.pick(&Layout::of(&old).all());
                let moved = match ctx.choose(3) {
                    0 => None,
                    1 => Some(Op::Move(Move::LastLine)),
                    _ => Some(Op::Move(Move::End)),
                };
                if !sys.apply(ctx, &Op::MoveTo(q))? {
                    return ctx.foreign();
                }
                if !sys.apply(ctx, &Op::Replace(new))? {
                    return ctx.foreign();
                }
                if let Some(m) = moved {
                    if !sys.apply(ctx, &m)? {
                        return ctx.foreign();
                    }
                }
                for op in [Op::Undo, Op::Redo, Op::Undo] {
                    if !sys.apply(ctx, &op)? {
                        return ctx.foreign();
                    }
                }
                if sys.real.id != Some(7) {
                    return Err("the id changed".into());
                }
                Ok(())
            },
        ));
    }
    {
        let depth = if thorough { 6 } else { 5 };
        v.push(Harness::new(
            "replace-reload-history",
            format!("file \"ab\\ncd\"; {} steps of: replace (same, shorter, longer), reload, failing reload, external change (2), insert, moves, undo, redo, group start/end, save; identity checked throughout", depth),
            move |ctx| {
                let mut sys = Sys::from_file(ctx.scratch, "ab\ncd", Focus::Replace).with_callback();
                sys.real.id = Some(41);
                let set = crate::syntaxes();
                sys.real.syntax_definition = Some(set.find_syntax_by_extension("rs").unwrap().clone());
                let path = sys.real.path.clone();
                if !sys.apply(ctx, &Op::MoveTo(p(1, 1)))? {
                    return ctx.foreign();
                }
                for _ in 0..depth {
                    let c = ctx.choose(14);
                    let op = match c {
                        0 => Op::Replace("a".into()),
                        1 => Op::Replace("abc\ndef\nghi\n".into()),
                        2 => Op::Replace(sys.real.data()),
                        3 => Op::Reload,
                        4 => Op::External("x\r\nyz".into()),
                        5 => Op::External("".into()),
                        6 => Op::Insert("i".into()),
                        7 => Op::Undo,
                        8 => Op::Redo,
                        9 => Op::Start,
                        10 => Op::End,
                        11 => Op::Save,
                        12 => Op::FailingReload,
                        _ => Op::Move(Move::LastLine),
                    };
                    if c == 2 && ctx.fresh() {
                        // Nothing at all happens: also no history step, no callback.
                        let modified = sys.real.modified();
                        let text = sys.real.data();
                        let cur = *sys.real.cursor;
                        sys.log.as_ref().unwrap().borrow_mut().calls.clear();
                        sys.real.replace(text.clone());
                        if sys.real.modified() != modified
                            || *sys.real.cursor != cur
                            || !sys.log.as_ref().unwrap().borrow().calls.is_empty()
                        {
                            return Err(format!("replacing {:?} with itself had an effect", text));
                        }
                    }
                    if !sys.apply(ctx, &op)? {
                        return ctx.foreign();
                    }
                    if ctx.fresh() {
                        let b = &sys.real;
                        if b.id != Some(41)
                            || b.path != path
                            || b.syntax_definition.as_ref().map(|s| s.name.as_str()) != Some("Rust")
                            || b.change_callback.is_none()
                        {
                            return Err(format!(
                                "after {:?} the buffer lost part of its identity: id {:?}, path {:?}, syntax {:?}, callback {}",
                                op,
                                b.id,
                                b.path,
                                b.syntax_definition.as_ref().map(|s| &s.name),
                                b.change_callback.is_some()
                            ));
                        }
                    }
                }
                // Replacements and reloads are reversible.
                let steps = sys.m.undo.len() + 1;
                for _ in 0..steps {
                    if !sys.apply(ctx, &Op::Undo)? {
                        return ctx.foreign();
                    }
                }
                Ok(())
            },
        ));
    }
    {
        let depth = if thorough { 6 } else { 5 };
        v.push(Harness::new(
            "identity",
            format!("a buffer given the path of a file in 8 spellings (canonical, relative, dot segments, doubled slashes, links to it and to its directory), with or without an id, a syntax definition and a callback; {} steps out of 8 (replace, reload as it is, after a change, failing, save, undo, redo, insert): all of them after each", depth),
            move |ctx| {
                let dir = ctx.scratch.join("identity");
                let _ = std::fs::create_dir(&dir);
                let file = dir.join("file.rs");
                std::fs::write(&file, "loaded\n").unwrap();
                let (link, up) = (dir.join("link"), ctx.scratch.join("identity-link"));
                if std::fs::symlink_metadata(&link).is_err() {
                    std::os::unix::fs::symlink("file.rs", &link).unwrap();
                }
                if std::fs::symlink_metadata(&up).is_err() {
                    std::os::unix::fs::symlink("identity", &up).unwrap();
                }
                let path = match ctx.choose(8) {
                    0 => file.clone(),
                    1 => crate::ws::relative(&file),
                    2 => dir.join("../identity/./file.rs"),
                    3 => std::path::PathBuf::from(format!("{}//file.rs", dir.display())),
                    4 => link,
                    5 => up.join("file.rs"),
                    6 => up.join("link"),
                    _ => crate::ws::relative(&up).join(".//link"),
                };
                let mut b = scribe::Buffer::new();
                b.path = Some(path.clone());
                let with = ctx.choose(8);
                let calls = std::rc::Rc::new(std::cell::Cell::new(0));
                if with & 1 != 0 {
                    b.id = Some(3);
                }
                if with & 2 != 0 {
                    b.syntax_definition = crate::syntaxes().find_syntax_by_extension("py").cloned();
                }
                if with & 4 != 0 {
                    let c = calls.clone();
                    b.change_callback = Some(Box::new(move |_| c.set(c.get() + 1)));
                }
                for step in 0..depth {
                    let (text, before) = (b.data(), calls.get());
                    let c = ctx.choose(8);
                    let r = match c {
                        0 => Ok(b.replace(format!("replaced {}", step))),
                        1 => b.reload().map_err(|e| e.to_string()),
                        2 => {
                            std::fs::write(&file, format!("changed {}", step)).unwrap();
                            b.reload().map_err(|e| e.to_string())
                        }
                        3 => {
                            let held = std::fs::read(&file).unwrap();
                            std::fs::write(&file, [0xff]).unwrap();
                            let r = b.reload();
                            std::fs::write(&file, held).unwrap();
                            if r.is_ok() {
                                return Err("a file that is not UTF-8 was reloaded".into());
                            }
                            Ok(())
                        }
                        4 => b.save().map_err(|e| e.to_string()),
                        5 => Ok(b.undo()),
                        6 => Ok(b.redo()),
                        _ => Ok(b.insert("i")),
                    };
                    ctx.transition();
                    ctx.state(&(&path, with, b.data()));
                    ctx.log(|| format!("step {} of {:?}: {:?}, text {:?}, path {:?}", c, path, r, b.data(), b.path));
                    if let Err(e) = r {
                        return Err(format!("step {} failed: {}", c, e));
                    }
                    if !ctx.fresh() && !ctx.tracing() {
                        continue;
                    }
                    if b.path.as_ref().map(|q| q.as_os_str()) != Some(path.as_os_str())
                        || b.id != if with & 1 != 0 { Some(3) } else { None }
                        || b.syntax_definition.as_ref().map(|s| s.name.as_str()) != if with & 2 != 0 { Some("Python") } else { None }
                        || b.change_callback.is_some() != (with & 4 != 0)
                    {
                        return Err(format!("after step {}, id {:?}, path {:?} (given {:?}), syntax {:?}, callback {}", c, b.id, b.path, path, b.syntax_definition.as_ref().map(|s| &s.name), b.change_callback.is_some()));
                    }
                    if with & 4 != 0 && (calls.get() > before) != (b.data() != text) && (c == 0 || c == 1 || c == 2) {
                        return Err(format!("step {} from {:?} to {:?} ran the callback {} times", c, text, b.data(), calls.get() - before));
                    }
                }
                Ok(())
            },
        ));
    }
    v.push(deep::universe(Focus::Replace, Post::Nothing, true, thorough));
    v.push(crate::strings::strings(Focus::Replace, Post::Nothing, thorough));
    v.push(crate::dated::dated(Focus::Replace));
    v.push(deep::long(Focus::Replace, thorough));
    v.push(deep::sized(Focus::Replace, Post::Nothing, thorough));
    v.push(crate::life::time_passes(Focus::Replace, thorough));
    v.push(crate::life::reloaded_from(thorough));
    v.push(crate::life::nearly_saved(thorough));
    v
}

// --- C11 --------------------------------------------------------------------------------

pub fn c11(thorough: bool) -> Vec<Harness> {
    let mut v = Vec::new();
    {
        let depth = if thorough { 4 } else { 3 };
        let contents = s(&["a", "b\nc", COMB, "\r", "\n"]);
        v.push(Harness::new(
            "callbacks-broad",
            format!("Buffer \"xy\\nz\"; {} steps: insert {:?}, delete, delete-range, replace at landmarks, undo, redo, start, end; then undo all and redo all, callbacks checked at each step", depth, contents),
            move |ctx| {
                let mut sys = Sys::fresh("xy\nz", Focus::Callback).with_callback();
                for _ in 0..depth {
                    let op = match ctx.choose(5) {
                        0 => edit_op(ctx, &sys, &contents, &["xy\nq", "x"]),
                        1 => Placed::Just(Op::Undo),
                        2 => Placed::Just(Op::Redo),
                        3 => Placed::Just(Op::Start),
                        _ => Placed::Just(Op::End),
                    };
                    if !placed(ctx, &mut sys, op)? {
                        return ctx.foreign();
                    }
                }
                let steps = sys.m.undo.len() + 1;
                for i in 0..2 * steps + 1 {
                    let op = if i <= steps { Op::Undo } else { Op::Redo };
                    if !sys.apply(ctx, &op)? {
                        return ctx.foreign();
                    }
                }
                Ok(())
            },
        ));
    }
    {
        let depth = if thorough { 7 } else { 6 };
        v.push(Harness::new(
            "callbacks-deep",
            format!("file \"ab\\ncd\"; {} steps of: insert at start / at end, delete line, replace, undo, redo, start, end, reload, external change; then undo all and redo all", depth),
            move |ctx| {
                let mut sys = Sys::from_file(ctx.scratch, "ab\ncd", Focus::Callback).with_callback();
                for _ in 0..depth {
                    let l = Layout::of(&sys.m.text);
                    let op = match ctx.choose(10) {
                        0 => Placed::At(p(0, 1), Op::Insert("a".into())),
                        1 => Placed::At(l.end(), Op::Insert("\nb".into())),
                        2 => Placed::Just(Op::DeleteRange(p(0, 1), p(1, 1))),
                        3 => Placed::Just(Op::Replace("ab\ncx".into())),
                        4 => Placed::Just(Op::Undo),
                        5 => Placed::Just(Op::Redo),
                        6 => Placed::Just(Op::Start),
                        7 => Placed::Just(Op::End),
                        8 => Placed::Just(Op::Reload),
                        _ => Placed::Just(Op::External("ab\nce".into())),
                    };
                    if !placed(ctx, &mut sys, op)? {
                        return ctx.foreign();
                    }
                }
                let steps = sys.m.undo.len() + 1;
                for i in 0..2 * steps + 1 {
                    let op = if i <= steps { Op::Undo } else { Op::Redo };
                    if !sys.apply(ctx, &op)? {
                        return ctx.foreign();
                    }
                }
                Ok(())
            },
        ));
    }
    v.push(deep::universe(Focus::Callback, Post::Nothing, true, thorough));
    v.push(crate::strings::strings(Focus::Callback, Post::Nothing, thorough));
    v.push(deep::long(Focus::Callback, thorough));
    v.push(deep::sized(Focus::Callback, Post::Nothing, thorough));
    v.push(deep::anywhere(Focus::Callback, Post::Nothing, thorough));
    v.push(deep::every_scalar(
        "every-scalar",
        "inserted at every position of four texts, deleted, as a replacement, all undone and redone",
        |ctx, c| {
            for t in ["", "ab", "e\u{301}\n", "\r\u{1F1FA}"] {
                for at in Layout::of(t).all() {
                    let mut sys = Sys::fresh(t, Focus::Callback).with_callback();
                    for op in [Op::MoveTo(at), Op::Insert(c.to_string()), Op::Delete, Op::Replace(c.to_string()), Op::Undo, Op::Undo, Op::Undo, Op::Redo, Op::Redo, Op::Redo] {
                        if !sys.apply(ctx, &op)? {
                            return ctx.foreign();
                        }
                    }
                }
            }
            Ok(())
        },
    ));
    v.push(crate::life::time_passes(Focus::Callback, thorough));
    v.push(crate::life::listeners(thorough));
    v
}
