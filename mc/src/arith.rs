//! Arithmetic (C20), arguments of any magnitude (C21), size (C22).

use crate::edits::{s, COMB, E_ACUTE, GIRL, HAN, II, L_JAMO, NA, PREPEND, RI_S, RI_U, V_JAMO, WOMAN, ZWJ};
use crate::engine::{Ctx, HResult, Harness};
use crate::io::{filler, ladder, scalars, short, SHAPES};
use crate::model::{self, Layout, MBuf, Move, MOVES};
use crate::sys::{p, rewind, show, Focus, Op, Sys};
use scribe::buffer::{Cursor, Distance, GapBuffer, LineRange, Position, Range};
use scribe::util::LineIterator;
use scribe::Buffer;
use std::cmp::Ordering;

// --- C20 --------------------------------------------------------------------------------

/// The position of a byte that is known to be a position.
fn position_of(l: &Layout, byte: usize) -> Option<Position> {
    for (line, offsets) in l.lines.iter().enumerate() {
        for (offset, o) in offsets.iter().enumerate() {
            // A line's end and the next line's start differ by the terminator.
            if *o == byte {
                return Some(Position { line, offset });
            }
        }
    }
    None
}

fn end_of(text: &str) -> Position {
    Layout::of(text).end()
}

/// Inserting `content` at `at` (a byte that is a position of `text`).
fn insertion(ctx: &mut Ctx, text: &str, at: Position, byte: usize, content: &str) -> HResult {
    let d = Distance::of_str(content);
    let mut sum = at;
    sum += d;
    if sum != at + d {
        return Err(format!("{} + {:?} is {}, but += gives {}", show(&at), d, show(&(at + d)), show(&sum)));
    }
    let alone = end_of(content);
    if (d.lines, d.offset) != (alone.line, alone.offset) {
        return Err(format!("the distance of {:?} is {:?}, but on its own it ends at {}", content, d, show(&alone)));
    }
    let merged = format!("{}{}{}", &text[..byte], content, &text[byte..]);
    let l = Layout::of(&merged);
    ctx.transitions(3);
    let (start, end) = (position_of(&l, byte), position_of(&l, byte + content.len()));
    // Does the inserted text stay the sequence of characters it was?
    let intact = match (start, end) {
        (Some(s), Some(e)) => {
            s == at && {
                let inner = l.all().iter().filter(|q| !model::lt(q, &s) && model::lt(q, &e)).count();
                inner == Layout::of(content).all().len() - 1
            }
        }
        _ => false,
    };
    if !intact {
        ctx.count("merging insertions skipped");
        return Ok(());
    }
    ctx.count("insertions measured");
    let end = end.unwrap();
    if sum != end {
        return Err(format!(
            "inserting {:?} at {} into {:?} ends at {}, but the start plus the distance {:?} is {}",
            content,
            show(&at),
            text,
            show(&end),
            d,
            show(&sum)
        ));
    }
    // The same through the real buffer.
    let mut b = Buffer::new();
    b.insert(text);
    b.cursor.move_to(at);
    b.insert(content);
    if b.data() != merged {
        return ctx.foreign();
    }
    let got = b.read(&Range::new(at, sum));
    ctx.transitions(4);
    if got.as_deref() != Some(content) {
        return Err(format!(
            "after inserting {:?} at {} into {:?}, reading from there to {} gives {:?}",
            content,
            show(&at),
            text,
            show(&sum),
            got
        ));
    }
    Ok(())
}

fn ranges(ctx: &mut Ctx, a: Position, b: Position, c: Position) -> HResult {
    let key = |q: &Position| (q.line, q.offset);
    let want = key(&a).cmp(&key(&b));
    let got = a.partial_cmp(&b);
    if got != Some(want) {
        return Err(format!("comparing {} with {} gives {:?}, expected {:?}", show(&a), show(&b), got, want));
    }
    let ops = [
        (a < b, want == Ordering::Less, "<"),
        (a <= b, want != Ordering::Greater, "<="),
        (a > b, want == Ordering::Greater, ">"),
        (a >= b, want != Ordering::Less, ">="),
        (a == b, want == Ordering::Equal, "=="),
        (a != b, want != Ordering::Equal, "!="),
    ];
    for (got, want, op) in ops {
        if got != want {
            return Err(format!("{} {} {} is {}", show(&a), op, show(&b), got));
        }
    }
    let (lo, hi) = if want == Ordering::Greater { (b, a) } else { (a, b) };
    let r = Range::new(a, b);
    if (r.start(), r.end()) != (lo, hi) {
        return Err(format!("the range of {} and {} goes from {} to {}", show(&a), show(&b), show(&r.start()), show(&r.end())));
    }
    if r != Range::new(b, a) || r != r.clone() {
        return Err(format!("the range of {} and {} depends on the order", show(&a), show(&b)));
    }
    let inside = key(&c) >= key(&lo) && key(&c) < key(&hi);
    if r.includes(&c) != inside {
        return Err(format!(
            "the range from {} to {} {} {}",
            show(&lo),
            show(&hi),
            if inside { "does not include" } else { "includes" },
            show(&c)
        ));
    }
    ctx.transitions(8);
    ctx.count(if inside { "included positions" } else { "excluded positions" });
    Ok(())
}

fn line_ranges(ctx: &mut Ctx, a: usize, b: usize, c: usize) -> HResult {
    let (lo, hi) = (a.min(b), a.max(b));
    let r = LineRange::new(a, b);
    if (r.start(), r.end()) != (lo, hi) || r != LineRange::new(b, a) {
        return Err(format!("the line range of {} and {} goes from {} to {}", a, b, r.start(), r.end()));
    }
    if r.includes(c) != (c >= lo && c < hi) {
        return Err(format!("the line range {}..{} on including {}: {}", lo, hi, c, r.includes(c)));
    }
    let t = r.to_range();
    if (t.start(), t.end()) != (p(lo, 0), p(hi, 0)) {
        return Err(format!("the line range {}..{} converts to {}-{}", lo, hi, show(&t.start()), show(&t.end())));
    }
    let t = r.to_inclusive_range();
    let last = hi.checked_add(1);
    if t.start() != p(lo, 0) || last.map_or(false, |n| t.end() != p(n, 0)) {
        return Err(format!("the line range {}..{} converts inclusively to {}-{}", lo, hi, show(&t.start()), show(&t.end())));
    }
    ctx.transitions(6);
    ctx.count("line ranges compared");
    Ok(())
}

pub fn c20(thorough: bool) -> Vec<Harness> {
    let mut v = Vec::new();
    {
        let atoms = s(&["a", "\n", "\r", "\r\n", COMB, E_ACUTE, RI_U, RI_S, ZWJ, WOMAN, HAN, NA, II, PREPEND, "\t"]);
        let (len, ins) = if thorough { (3, 3) } else { (2, 3) };
        v.push(Harness::new(
            "distances-everywhere",
            format!("every text of 0..={} atoms of {:?}, every position, every inserted text of 0..={} atoms", len, atoms, ins),
            move |ctx| {
                let n = ctx.choose(len + 1);
                let text: String = (0..n).map(|_| ctx.pick(&atoms).clone()).collect();
                let l = Layout::of(&text);
                let all = l.all();
                let at = *ctx.pick(&all);
                let n = ctx.choose(ins + 1);
                let content: String = (0..n).map(|_| ctx.pick(&atoms).clone()).collect();
                ctx.state(&(&text, at.line, at.offset, &content));
                ctx.log(|| format!("{:?}, inserting {:?} at {}", text, content, show(&at)));
                insertion(ctx, &text, at, l.offset(&at).unwrap(), &content)
            },
        ));
    }
    {
        let len = if thorough { 7 } else { 5 };
        let atoms = s(&["a", "\n", "\r\n", COMB, WOMAN, ZWJ, L_JAMO, V_JAMO]);
        v.push(Harness::new(
            "distances-longer",
            format!("every text of {} atoms of {:?} cut in two at every position: the parts' distances add up", len, atoms),
            move |ctx| {
                let text: String = (0..len).map(|_| ctx.pick(&atoms).clone()).collect();
                ctx.state(&text);
                ctx.log(|| format!("{:?}", text));
                let l = Layout::of(&text);
                let end = l.end();
                for q in l.all() {
                    let (head, tail) = text.split_at(l.offset(&q).unwrap());
                    let d = (Distance::of_str(head), Distance::of_str(tail));
                    let got = p(0, 0) + d.0 + d.1;
                    ctx.transitions(4);
                    if p(0, 0) + d.0 != q {
                        return Err(format!("{:?} is measured as {:?}, but ends at {}", head, d.0, show(&q)));
                    }
                    // Cut where it is: the parts' characters may differ from the whole's only
                    // when the cut part begins differently on its own.
                    let alone = Layout::of(head).all().len() + Layout::of(tail).all().len() - 1;
                    if alone != l.all().len() {
                        continue;
                    }
                    if got != end {
                        return Err(format!(
                            "{:?} and {:?} measure {:?} and {:?}, together {}, but the text ends at {}",
                            head,
                            tail,
                            d.0,
                            d.1,
                            show(&got),
                            show(&end)
                        ));
                    }
                }
                Ok(())
            },
        ));
    }
    v.push(Harness::new(
        "distance-of-every-scalar",
        "each of the 1,112,064 Unicode scalar values, alone, after \"a\", and on a second line".to_string(),
        move |ctx| {
            for c in scalars(ctx, 64).unwrap_or_default() {
                for text in [c.to_string(), format!("a{}", c), format!("x\n{}y", c)] {
                    let d = Distance::of_str(&text);
                    let e = end_of(&text);
                    ctx.transition();
                    if (d.lines, d.offset) != (e.line, e.offset) {
                        return Err(format!("{:?} measures {:?}, but ends at {}", text, d, show(&e)));
                    }
                }
                ctx.state(&c);
            }
            Ok(())
        },
    ));
    {
        let k = if thorough { 16 } else { 12 };
        v.push(Harness::new(
            "distance-of-sizes",
            format!("texts of every size on both sides of the powers of two up to 2^{}, 65535 to 65537 and 140001 bytes, {} shapes, inserted at the start, inside and at the end of two texts", k, SHAPES),
            move |ctx| {
                let mut sizes = ladder(k);
                sizes.extend([65_535, 65_536, 65_537, 140_001]);
                let content = filler(*ctx.pick(&sizes), ctx.choose(SHAPES));
                let text = *ctx.pick(&["", "ab\ncd"]);
                let l = Layout::of(text);
                let all = l.all();
                let at = *ctx.pick(&all);
                ctx.state(&(&content, text, at.line, at.offset));
                insertion(ctx, text, at, l.offset(&at).unwrap(), &content).map_err(|e| e.chars().take(600).collect())
            },
        ));
    }
    {
        let atoms = s(&["a", "\n", "\r\n", E_ACUTE, HAN]);
        let len = if thorough { 6 } else { 4 };
        v.push(Harness::new(
            "ranges-in-texts",
            format!("every text of 0..={} atoms of {:?}; every three existing or missing positions: order, range of the first two, inclusion of the third, and the places they denote", len, atoms),
            move |ctx| {
                let n = ctx.choose(len + 1);
                let text: String = (0..n).map(|_| ctx.pick(&atoms).clone()).collect();
                let l = Layout::of(&text);
                let mut all = l.all();
                let existing = all.len();
                all.extend(l.missing());
                ctx.state(&text);
                ctx.log(|| format!("{:?}", text));
                for (i, a) in all.iter().enumerate() {
                    for (j, b) in all.iter().enumerate() {
                        if i < existing && j < existing {
                            let places = l.offset(a).cmp(&l.offset(b));
                            if a.partial_cmp(b) != Some(places) {
                                return Err(format!("{} and {} do not compare like their places in {:?}", show(a), show(b), text));
                            }
                        }
                        for c in all.iter() {
                            ranges(ctx, *a, *b, *c)?;
                        }
                    }
                }
                Ok(())
            },
        ));
    }
    v.push(Harness::new(
        "ranges-any-magnitude",
        "every three positions with line and offset from {0, 1, 2, 3, 2^31, 2^32, 2^32+1, 2^63-1, 2^63, MAX-1, MAX}; every three lines of the same".to_string(),
        move |ctx| {
            let m = [0, 1, 2, 3, 1 << 31, 1 << 32, (1 << 32) + 1, (1 << 63) - 1, 1 << 63, usize::MAX - 1, usize::MAX];
            let a = p(*ctx.pick(&m), *ctx.pick(&m));
            let b = p(*ctx.pick(&m), *ctx.pick(&m));
            ctx.state(&(a.line, a.offset, b.line, b.offset));
            for x in m {
                line_ranges(ctx, a.line, b.line, x)?;
                for y in m {
                    ranges(ctx, a, b, p(x, y))?;
                }
            }
            Ok(())
        },
    ));
    v.push(Harness::new(
        "additions-any-magnitude",
        "every position and distance with components from {0, 1, 2, 7, 2^31, 2^32, 2^62}".to_string(),
        move |ctx| {
            let m = [0usize, 1, 2, 7, 1 << 31, 1 << 32, 1 << 62];
            let a = p(*ctx.pick(&m), *ctx.pick(&m));
            for x in m {
                for y in m {
                    let d = Distance { lines: x, offset: y };
                    let want = if x == 0 { p(a.line, a.offset + y) } else { p(a.line + x, y) };
                    let mut sum = a;
                    sum += d;
                    ctx.transitions(2);
                    ctx.state(&(a.line, a.offset, x, y));
                    if a + d != want || sum != want {
                        return Err(format!("{} + {:?} is {} and += gives {}, expected {}", show(&a), d, show(&(a + d)), show(&sum), show(&want)));
                    }
                }
            }
            Ok(())
        },
    ));
    {
        let atoms = s(&["a", "\n", "\r\n", E_ACUTE]);
        let len = if thorough { 7 } else { 6 };
        v.push(Harness::new(
            "line-ranges-in-texts",
            format!("every text of 0..={} atoms of {:?}; every two lines, one past the last included: reading and deleting the range of those whole lines", len, atoms),
            move |ctx| {
                let n = ctx.choose(len + 1);
                let text: String = (0..n).map(|_| ctx.pick(&atoms).clone()).collect();
                let lines = model::lines(&text);
                ctx.state(&text);
                let gap = GapBuffer::new(&text);
                for i in 0..=lines.len() {
                    for j in i..=lines.len() {
                        for k in 0..=lines.len() {
                            line_ranges(ctx, i, j, k)?;
                        }
                        let r = LineRange::new(j, i);
                        // Up to, but excluding, line j.
                        let want = if j < lines.len() { Some(lines[i..j].concat()) } else { None };
                        let got = gap.read(&r.to_range());
                        if got != want {
                            return Err(format!("lines {}..{} of {:?} read {:?}, expected {:?}", i, j, text, got, want));
                        }
                        // Line j included.
                        let want = if j + 1 < lines.len() { Some(lines[i..=j].concat()) } else { None };
                        let got = gap.read(&r.to_inclusive_range());
                        if got != want {
                            return Err(format!("lines {}..={} of {:?} read {:?}, expected {:?}", i, j, text, got, want));
                        }
                        if i < lines.len() {
                            let mut g = GapBuffer::new(&text);
                            g.delete(&r.to_inclusive_range());
                            let want = format!("{}{}", lines[..i].concat(), lines.get(j + 1..).unwrap_or(&[]).concat());
                            if g.to_string() != want {
                                return Err(format!("deleting lines {}..={} of {:?} leaves {:?}", i, j, text, g.to_string()));
                            }
                        }
                        ctx.transitions(3);
                    }
                }
                Ok(())
            },
        ));
    }
    v
}

// --- C21 --------------------------------------------------------------------------------

/// The model's cursor is wherever the real one is: where movements lead is decided elsewhere,
/// here only that they return, and that the text follows the edits.
struct Any {
    real: Buffer,
    m: MBuf,
}

impl Any {
    fn new(text: &str) -> Any {
        let mut real = Buffer::new();
        real.insert(text);
        let mut m = MBuf::new("", false);
        m.insert(text);
        Any { real, m }
    }
    /// Runs one call on both sides.
    fn call(&mut self, ctx: &mut Ctx, what: &dyn Fn() -> String, f: impl FnOnce(&mut Buffer, &mut MBuf)) -> HResult {
        let before = self.m.text.clone();
        self.m.cursor.pos = *self.real.cursor;
        f(&mut self.real, &mut self.m);
        ctx.transition();
        if !ctx.fresh() && !ctx.tracing() {
            return Ok(());
        }
        let got = self.real.data();
        let c = *self.real.cursor;
        ctx.log(|| format!("{} -> {:?} cursor {}", what(), got, show(&c)));
        ctx.state(&(&got, c.line, c.offset, self.m.undo.len(), self.m.redo.len()));
        if got != self.m.text {
            return Err(format!("{} on {:?} gives {:?}, expected {:?}", what(), before, got, self.m.text));
        }
        if !Layout::of(&got).exists(&c) {
            ctx.count("calls leaving the cursor outside the text");
        } else {
            ctx.count("calls leaving the cursor inside the text");
        }
        Ok(())
    }
    /// Everything that only looks.
    fn look(&mut self, ctx: &mut Ctx, places: &[Position]) -> HResult {
        if !ctx.fresh() && !ctx.tracing() {
            return Ok(());
        }
        let l = Layout::of(&self.m.text);
        for (i, a) in places.iter().enumerate() {
            for b in &places[i..] {
                let got = self.real.read(&Range::new(*a, *b));
                let want = model::read(&self.m.text, a, b);
                if got != want {
                    return Err(format!("reading {}-{} of {:?} gives {:?}", show(a), show(b), self.m.text, got));
                }
            }
            let got = self.real.cursor.data.borrow().in_bounds(a);
            if got != l.exists(a) {
                return Err(format!("{} in {:?}: in bounds {}", show(a), self.m.text, got));
            }
        }
        for needle in ["", "a", "\n", "\u{301}", "\u{10ffff}", "\0"] {
            let got = self.real.search(needle);
            if let Some(q) = got.iter().find(|q| !l.exists(q)) {
                return Err(format!("searching {:?} for {:?} reports {}", self.m.text, needle, show(q)));
            }
        }
        let _ = (self.real.line_count(), self.real.modified(), self.real.file_name(), self.real.file_extension());
        if self.real.data() != self.m.text {
            return Err("looking changed the text".into());
        }
        ctx.transitions((places.len() * (places.len() + 3) / 2 + 10) as u64);
        Ok(())
    }
}

fn magnitudes(l: &Layout) -> Vec<Position> {
    let e = l.end();
    let max = usize::MAX;
    let mut v = vec![
        p(0, 0),
        p(0, 1),
        e,
        p(e.line, e.offset + 1),
        p(e.line + 1, 0),
        p(0, max),
        p(max, 0),
        p(max, max),
        p(max - 1, 1),
        p(1, max - 1),
        p(max / 2 + 1, max / 2 + 1),
    ];
    v.dedup();
    v
}

fn movement(b: &mut Buffer, m: Move) {
    let c = &mut b.cursor;
    match m {
        Move::Up => c.move_up(),
        Move::Down => c.move_down(),
        Move::Left => c.move_left(),
        Move::Right => c.move_right(),
        Move::Home => c.move_to_start_of_line(),
        Move::End => c.move_to_end_of_line(),
        Move::FirstLine => c.move_to_first_line(),
        Move::LastLine => c.move_to_last_line(),
    }
}

/// One of every kind of call with arguments of every kind.
fn any_call(ctx: &mut Ctx, sys: &mut Any, narrow: bool) -> HResult {
    let l = Layout::of(&sys.m.text);
    let places = magnitudes(&l);
    let k = places.len();
    let contents: &[&str] = if narrow { &["x\ny", "\u{301}"] } else { &["", "x", "\n", "\u{301}", "\r", "\u{1F469}\u{200d}"] };
    let replacements: &[&str] = if narrow { &["", "r\ns"] } else { &["", "r", "r\ns\n"] };
    let pairs: Vec<(Position, Position)> = if narrow {
        vec![(p(0, 0), p(usize::MAX, 0)), (p(0, 0), l.end()), (p(0, 1), p(0, usize::MAX)), (p(usize::MAX, usize::MAX), p(1, 0))]
    } else {
        (0..k).flat_map(|i| (i..k).map(move |j| (i, j))).map(|(i, j)| (places[i], places[j])).collect()
    };
    let line_args: &[(usize, usize)] = &[(0, 0), (0, usize::MAX), (usize::MAX, usize::MAX), (1, usize::MAX - 1), (1, 0)];
    let n = [k, MOVES.len(), contents.len(), 1, pairs.len(), replacements.len(), 4, line_args.len()];
    let mut c = ctx.choose(n.iter().sum());
    let mut kind = 0;
    while c >= n[kind] {
        c -= n[kind];
        kind += 1;
    }
    match kind {
        0 => {
            let q = places[c];
            sys.call(ctx, &|| format!("move to {}", show(&q)), |b, _| {
                b.cursor.move_to(q);
            })
        }
        1 => sys.call(ctx, &|| format!("{:?}", MOVES[c]), |b, _| movement(b, MOVES[c])),
        2 => sys.call(ctx, &|| format!("insert {:?}", contents[c]), |b, m| {
            b.insert(contents[c]);
            m.insert(contents[c]);
        }),
        3 => sys.call(ctx, &|| "delete".into(), |b, m| {
            b.delete();
            m.delete();
        }),
        4 => {
            let (x, y) = pairs[c];
            sys.call(ctx, &|| format!("delete {}-{}", show(&x), show(&y)), |b, m| {
                b.delete_range(Range::new(x, y));
                m.delete_range(&x, &y);
            })
        }
        5 => sys.call(ctx, &|| format!("replace with {:?}", replacements[c]), |b, m| {
            b.replace(replacements[c]);
            m.replace(replacements[c]);
        }),
        6 => sys.call(ctx, &|| format!("history call {}", c), |b, m| match c {
            0 => {
                b.undo();
                m.undo();
            }
            1 => {
                b.redo();
                m.redo();
            }
            2 => {
                b.start_operation_group();
                m.start_group();
            }
            _ => {
                b.end_operation_group();
                m.end_group();
            }
        }),
        _ => {
            let (x, y) = line_args[c];
            sys.call(ctx, &|| format!("delete lines {} to {}", x, y), |b, m| {
                let r = LineRange::new(x, y).to_inclusive_range();
                let (q, e) = (r.start(), r.end());
                let _ = LineRange::new(y, x).to_range();
                b.delete_range(r);
                m.delete_range(&q, &e);
            })
        }
    }
}

pub fn c21(thorough: bool) -> Vec<Harness> {
    let mut v = Vec::new();
    {
        let depth = 2;
        let texts = s(&["", "a", "\n", "ab\ncd", "e\u{301}\r\n\u{1F469}\u{200d}\u{1F467}", "\r", "\n\n", "\u{301}", "a\u{600}"]);
        v.push(Harness::new(
            "calls-broad",
            format!("each of {:?}; {} calls of any kind: move to, the 8 movements, insert, delete, delete-range, line ranges, replace, undo, redo, groups, with every pair of 11 positions up to (MAX, MAX); reads, searches and bounds checks after each", texts, depth),
            move |ctx| {
                let t = ctx.pick(&texts).clone();
                let mut sys = Any::new(&t);
                for _ in 0..depth {
                    any_call(ctx, &mut sys, false)?;
                    let places = magnitudes(&Layout::of(&sys.m.text));
                    sys.look(ctx, &places)?;
                }
                Ok(())
            },
        ));
    }
    {
        let depth = if thorough { 5 } else { 4 };
        let texts = s(&["ab\ne\u{301}\r\n", "x"]);
        v.push(Harness::new(
            "calls-deep",
            format!("each of {:?}; {} calls as above from a narrower set", texts, depth),
            move |ctx| {
                let t = ctx.pick(&texts).clone();
                let mut sys = Any::new(&t);
                for _ in 0..depth {
                    any_call(ctx, &mut sys, true)?;
                }
                let places = magnitudes(&Layout::of(&sys.m.text));
                sys.look(ctx, &places[..6])
            },
        ));
    }
    {
        let depth = if thorough { 3 } else { 2 };
        let texts = s(&["abc\nde\nf", "e\u{301}x\r\n\r\ny", "\n\n\n"]);
        let shrink = 9;
        v.push(Harness::new(
            "stale-cursor",
            format!("each of {:?}; the cursor at every position, then the text shrunk or re-clustered in {} ways beneath it, then {} calls of any kind", texts, shrink, depth),
            move |ctx| {
                let t = ctx.pick(&texts).clone();
                let mut sys = Any::new(&t);
                let all = Layout::of(&t).all();
                let at = *ctx.pick(&all);
                sys.call(ctx, &|| format!("move to {}", show(&at)), |b, _| {
                    b.cursor.move_to(at);
                })?;
                let e = Layout::of(&t).end();
                let how = ctx.choose(shrink);
                let max = usize::MAX;
                sys.call(ctx, &|| format!("shrink {}", how), |b, m| {
                    fn del(b: &mut Buffer, m: &mut MBuf, x: Position, y: Position) {
                        b.delete_range(Range::new(x, y));
                        m.delete_range(&x, &y);
                    }
                    match how {
                        0 => del(b, m, p(0, 0), e),
                        1 => del(b, m, p(0, 1), p(max, max)),
                        2 => del(b, m, p(0, 0), p(1, 0)),
                        3 => del(b, m, p(1, 0), e),
                        4 => del(b, m, p(0, 0), p(0, 1)),
                        5 => {
                            b.undo();
                            m.undo();
                        }
                        6 => {
                            // Edits at the start that are undone while the cursor is elsewhere.
                            del(b, m, p(0, 0), p(0, max));
                            del(b, m, p(0, 0), p(0, max));
                            b.undo();
                            m.undo();
                        }
                        7 => {
                            b.start_operation_group();
                            m.start_group();
                            del(b, m, p(0, 0), p(0, 1));
                            del(b, m, p(1, 0), p(1, 1));
                        }
                        _ => del(b, m, p(0, 1), p(0, 2)),
                    }
                    if how == 7 {
                        b.end_operation_group();
                        m.end_group();
                    }
                })?;
                for _ in 0..depth {
                    any_call(ctx, &mut sys, true)?;
                }
                let places = magnitudes(&Layout::of(&sys.m.text));
                sys.look(ctx, &places[..6])
            },
        ));
    }
    {
        let texts = s(&["", "ab\ne\u{301}\r\n", "x"]);
        let depth = if thorough { 2 } else { 1 };
        v.push(Harness::new(
            "cursors-anywhere",
            format!("each of {:?}; a cursor created at each of 11 positions up to (MAX, MAX), then assigned each of them, or line or offset alone; one movement or move to each of them; then {} calls of any kind, then every kind of movement", texts, depth),
            move |ctx| {
                let t = ctx.pick(&texts).clone();
                let mut sys = Any::new(&t);
                let places = magnitudes(&Layout::of(&t));
                let (x, y) = (*ctx.pick(&places), *ctx.pick(&places));
                let how = ctx.choose(4);
                let pre = ctx.choose(MOVES.len() + 1 + places.len());
                sys.call(ctx, &|| format!("cursor created at {}, assigned {} in way {}", show(&x), show(&y), how), |b, _| {
                    b.cursor = Cursor::new(b.cursor.data.clone(), x);
                    match how {
                        0 => (),
                        1 => *b.cursor = y,
                        2 => b.cursor.line = y.line,
                        _ => b.cursor.position.offset = y.offset,
                    }
                })?;
                if pre < MOVES.len() {
                    sys.call(ctx, &|| format!("{:?}", MOVES[pre]), |b, _| movement(b, MOVES[pre]))?;
                } else if pre > MOVES.len() {
                    let q = places[pre - MOVES.len() - 1];
                    sys.call(ctx, &|| format!("move to {}", show(&q)), |b, _| {
                        b.cursor.move_to(q);
                    })?;
                }
                for _ in 0..depth {
                    any_call(ctx, &mut sys, true)?;
                }
                for m in MOVES {
                    sys.call(ctx, &|| format!("{:?}", m), |b, _| movement(b, m))?;
                }
                Ok(())
            },
        ));
    }
    {
        let depth = 2;
        let texts = s(&["", "ab\nc", "e\u{301}\r\n"]);
        v.push(Harness::new(
            "storage-any-magnitude",
            format!("GapBuffer from each of {:?}; {} inserts or deletes with every pair of 11 positions up to (MAX, MAX); then bounds and reads of every pair", texts, depth),
            move |ctx| {
                let mut text = ctx.pick(&texts).clone();
                let mut g = GapBuffer::new(&text);
                for _ in 0..depth {
                    let places = magnitudes(&Layout::of(&text));
                    let k = places.len();
                    let c = ctx.choose(2 * k + k * k);
                    let before = text.clone();
                    let what;
                    if c < 2 * k {
                        let content = ["x\u{301}\n", ""][c / k];
                        let q = places[c % k];
                        g.insert(content, &q);
                        text = model::insert(&text, &q, content);
                        what = format!("insert {:?} at {}", content, show(&q));
                    } else {
                        let c = c - 2 * k;
                        let (a, b) = (places[c / k], places[c % k]);
                        g.delete(&Range::new(a, b));
                        text = model::delete(&text, &a, &b);
                        what = format!("delete {}-{}", show(&a), show(&b));
                    }
                    ctx.transition();
                    ctx.state(&text);
                    ctx.log(|| format!("{} -> {:?}", what, text));
                    if g.to_string() != text {
                        return Err(format!("{} on {:?} gives {:?}, expected {:?}", what, before, g.to_string(), text));
                    }
                }
                let places = magnitudes(&Layout::of(&text));
                for a in &places {
                    for b in &places {
                        if g.read(&Range::new(*a, *b)) != model::read(&text, a, b) {
                            return Err(format!("reading {}-{} of {:?} gives {:?}", show(a), show(b), text, g.read(&Range::new(*a, *b))));
                        }
                    }
                }
                ctx.transitions((places.len() * places.len()) as u64);
                Ok(())
            },
        ));
    }
    v.push(Harness::new(
        "every-scalar",
        "each of the 1,112,064 Unicode scalar values: inserted between \"a\" and \"b\", at the start, looked up, moved over, searched, deleted, undone, redone".to_string(),
        move |ctx| {
            for c in scalars(ctx, 64).unwrap_or_default() {
                let t = c.to_string();
                let mut b = Buffer::new();
                b.insert("ab");
                b.cursor.move_to(p(0, 1));
                b.insert(t.as_str());
                let full = format!("a{}b", c);
                let mut texts = vec![(b.data(), full.clone())];
                for m in MOVES {
                    movement(&mut b, m);
                }
                let _ = (b.search(&t), b.line_count());
                b.cursor.move_to(p(0, 0));
                b.delete();
                b.undo();
                texts.push((b.data(), full.clone()));
                b.undo();
                texts.push((b.data(), "ab".into()));
                b.redo();
                texts.push((b.data(), full.clone()));
                ctx.transitions(17);
                if let Some((got, want)) = texts.iter().find(|(a, b)| a != b) {
                    return Err(format!("with {:?} the text is {:?}, expected {:?}", c, got, want));
                }
            }
            Ok(())
        },
    ));
    v
}

// --- C22 --------------------------------------------------------------------------------

/// Existing positions worth trying in a long text: both ends of it, and those next to the
/// powers of two, by line and by offset.
pub fn sparse(l: &Layout) -> Vec<Position> {
    let mut v = vec![p(0, 0), l.end()];
    let lines = l.lines.len();
    for i in ladder(20) {
        if i >= lines {
            break;
        }
        for line in [i, lines - 1 - i] {
            let eol = l.eol(line).unwrap();
            v.push(p(line, 0));
            v.push(p(line, eol));
        }
    }
    let longest = (0..lines).max_by_key(|i| l.lines[*i].len()).unwrap();
    let eol = l.eol(longest).unwrap();
    for o in ladder(20) {
        if o > eol {
            break;
        }
        v.push(p(longest, o));
        v.push(p(longest, eol - o));
    }
    v.sort_by_key(|q| (q.line, q.offset));
    v.dedup();
    v
}

pub fn check_places(ctx: &mut Ctx, text: &str, in_bounds: &dyn Fn(&Position) -> bool, read: &dyn Fn(&Range) -> Option<String>) -> HResult {
    let l = Layout::of(text);
    let mut places = sparse(&l);
    if text.len() > 100_000 {
        // Both ends and the middle, and what is next to 2^16.
        let k = places.len();
        let near = |q: &Position| (65_534..65_538).contains(&q.line) || (65_534..65_538).contains(&q.offset);
        places = places.iter().enumerate().filter(|(i, q)| *i < 3 || *i + 3 >= k || *i == k / 2 || near(q)).map(|(_, q)| *q).collect();
    }
    let end = l.end();
    for q in places.iter().rev().chain(&places) {
        if !in_bounds(q) {
            return Err(format!("{} is missing in {}", show(q), short(text)));
        }
        let past = p(q.line, l.eol(q.line).unwrap() + 1);
        if in_bounds(&past) {
            return Err(format!("{} exists in {}", show(&past), short(text)));
        }
        let o = l.offset(q).unwrap();
        for (a, b, want) in [(p(0, 0), *q, &text[..o]), (*q, end, &text[o..])] {
            if read(&Range::new(a, b)).as_deref() != Some(want) {
                return Err(format!("reading {}-{} of {} does not give the text between", show(&a), show(&b), short(text)));
            }
        }
    }
    for q in [p(end.line + 1, 0), p(end.line, end.offset + 1)] {
        if in_bounds(&q) {
            return Err(format!("{} exists in {}", show(&q), short(text)));
        }
    }
    ctx.transitions(places.len() as u64 * 4 + 2);
    Ok(())
}

/// Lengths of histories worth trying.
fn history_lengths(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=40).collect();
    for n in [50, 64, 100, 128, 200, 250, 256, 500, 512, 1000, 1024] {
        v.extend([n - 1, n, n + 1]);
    }
    if thorough {
        for n in [2000, 2048, 4096, 5000, 8192, 10000] {
            v.extend([n - 1, n, n + 1]);
        }
    } else {
        v.extend([2049, 4097]);
    }
    v.retain(|n| *n > 0);
    v.sort();
    v.dedup();
    v
}

/// A path of one edit per step, by kind.
fn long_step(sys: &mut Sys, ctx: &mut Ctx, kind: usize, i: usize) -> Result<bool, String> {
    let ops: Vec<Op> = match kind {
        // At the start.
        0 => vec![Op::Insert(((b'a' + (i % 26) as u8) as char).to_string())],
        // At the end of the first line, by cursor.
        1 => vec![Op::Move(Move::End), Op::Insert(if i % 3 == 0 { "\u{e9}" } else { "x" }.into())],
        // Lines.
        2 => vec![Op::Insert(format!("{}\n", i))],
        // Insert and delete in turn.
        3 => {
            if i % 3 == 2 {
                vec![Op::Delete]
            } else {
                vec![Op::Insert(((b'a' + (i % 26) as u8) as char).to_string())]
            }
        }
        // Replacements.
        4 => vec![Op::Replace(format!("content {}\n", i))],
        // Deleting what is there; prepared with a long text.
        5 => vec![Op::Delete],
        // Pairs in groups.
        _ => vec![
            Op::Start,
            Op::Insert("g".into()),
            Op::DeleteRange(p(0, 1), p(0, 2)),
            Op::Insert("h".into()),
            Op::End,
        ],
    };
    for op in &ops {
        if !sys.apply(ctx, op)? {
            return Ok(false);
        }
    }
    Ok(true)
}
const LONG_KINDS: usize = 7;

/// Kinds of edits that can be made any number of times to "ab\ncd" without it growing.
const MANY_KINDS: usize = 6;
fn many(b: &mut Buffer, kind: usize, i: usize, grouped: bool) {
    match (kind, i % 2) {
        (0, _) => b.insert(""),
        (1, 0) => b.insert("x"),
        (1, _) => b.delete(),
        (2, 0) => b.replace("other\ntext"),
        (2, _) => b.replace("ab\ncd"),
        (3, _) => b.delete_range(Range::new(p(0, 1), p(0, 1))),
        (4, 0) => b.delete_range(Range::new(p(0, 0), p(0, 1))),
        (4, _) => b.insert("a"),
        // Nowhere.
        (_, 0) => b.delete_range(Range::new(p(7, 0), p(8, 0))),
        _ => {
            b.start_operation_group();
            b.insert("y");
            b.delete_range(Range::new(p(0, 0), p(0, 1)));
            if !grouped {
                b.end_operation_group();
            }
        }
    }
}
fn many_text(kind: usize, n: usize) -> String {
    match (kind, n % 2) {
        (1, 1) => "xab\ncd",
        (2, 1) => "other\ntext",
        (4, 1) => "b\ncd",
        _ => "ab\ncd",
    }
    .into()
}

pub fn c22(thorough: bool) -> Vec<Harness> {
    let mut v = Vec::new();
    v.push(crate::big::one_occurrence(thorough));
    v.push(crate::big::very_large(thorough));
    {
        let lengths = history_lengths(thorough);
        v.push(Harness::new(
            "long-histories",
            format!("{} lengths of up to {} edits of {} kinds (insert at start, at end, lines, mixed, replace, delete, groups), ungrouped or all in one group: every text on the way back and forth; then a new edit halfway back", lengths.len(), lengths.last().unwrap(), LONG_KINDS),
            move |ctx| {
                let kind = ctx.choose(LONG_KINDS);
                let n = *ctx.pick(&lengths);
                let grouped = kind < 6 && ctx.flag();
                // Comparing quadratic amounts of text: keep the largest affordable.
                let n = if kind == 2 || kind == 6 { n.min(1025) } else { n };
                let start = if kind == 5 { filler(n + 1, 6) } else { String::new() };
                let mut sys = Sys::fresh(&start, Focus::Nothing);
                if grouped {
                    sys.apply(ctx, &Op::Start)?;
                }
                for i in 0..n {
                    if !long_step(&mut sys, ctx, kind, i)? {
                        return Err(format!("edit {} of kind {} gives {}, expected {}", i, kind, short(&sys.real.data()), short(&sys.m.text)));
                    }
                }
                if grouped {
                    sys.apply(ctx, &Op::End)?;
                }
                ctx.state(&(kind, n, grouped));
                rewind(ctx, &mut sys, "long history").map_err(|e| e.chars().take(500).collect::<String>())?;
                // Halfway back, then onwards differently.
                for _ in 0..n / 2 {
                    sys.apply(ctx, &Op::Undo)?;
                }
                for op in [Op::Insert("new".into()), Op::Redo] {
                    if !sys.apply(ctx, &op)? {
                        return Err(format!("{:?} after undoing half of {} edits gives {}", op, n, short(&sys.real.data())));
                    }
                }
                rewind(ctx, &mut sys, "after a new edit halfway").map_err(|e| e.chars().take(500).collect::<String>())
            },
        ));
    }
    {
        let (k, full) = if thorough { (15, 513) } else { (12, 65) };
        let sizes = ladder(k);
        v.push(Harness::new(
            "sizes-of-insertions",
            format!("a text of every size on both sides of the powers of two up to 2^{}, an insertion of every such size if both are at most {} bytes, else of the same or 1, 63, 1024 bytes; {} shapes; inserted at the start, in the middle and at the end; positions and reads next to every power of two; then a deletion of the same, undo, undo, redo, redo", k, full, SHAPES),
            move |ctx| {
                let shape = ctx.choose(SHAPES);
                let n = *ctx.pick(&sizes);
                // Every pair of sizes up to full; larger ones with themselves and a few others.
                let partners: Vec<usize> = sizes
                    .iter()
                    .copied()
                    .filter(|m| (n <= full && *m <= full) || *m == n || [1, 63, 1024].contains(m))
                    .collect();
                let size = *ctx.pick(&partners);
                let text = filler(n, shape);
                let content = filler(size, (shape + 1) % SHAPES);
                let l = Layout::of(&text);
                let middle = {
                    let line = l.lines.len() / 2;
                    p(line, l.eol(line).unwrap() / 2)
                };
                let at = *ctx.pick(&[p(0, 0), middle, l.end()]);
                let mut sys = Sys::fresh(&text, Focus::Nothing);
                ctx.state(&(shape, text.len(), size, at.line, at.offset));
                let fail = |sys: &Sys, what: &str| {
                    Err(format!("{} ({} bytes inserted at {} into {} bytes of shape {}) gives {}, expected {}", what, size, show(&at), text.len(), shape, short(&sys.real.data()), short(&sys.m.text)))
                };
                for op in [Op::MoveTo(at), Op::Insert(content)] {
                    if !sys.apply(ctx, &op)? {
                        return fail(&sys, "insertion");
                    }
                }
                let whole = sys.m.text.clone();
                if whole.len() <= 20_000 || at != p(0, 0) {
                    let b = &sys.real;
                    check_places(ctx, &whole, &|q| b.cursor.data.borrow().in_bounds(q), &|r| b.read(r))?;
                }
                let fl = Layout::of(&whole);
                let end = *ctx.pick(&[fl.end(), p(at.line, fl.eol(at.line).unwrap() + 1)]);
                for op in [Op::DeleteRange(at, end), Op::Undo, Op::Undo, Op::Undo, Op::Redo, Op::Redo, Op::Redo, Op::Insert("x".into())] {
                    if !sys.apply(ctx, &op)? {
                        return fail(&sys, &format!("{:?}", op));
                    }
                }
                Ok(())
            },
        ));
    }
    {
        let limit = if thorough { 5000 } else { 1400 };
        v.push(Harness::new(
            "growth",
            format!("starting from 0..=9 bytes, chunks of 1 to 9 bytes (three character widths) inserted at the start, middle, end or alternating, until {} bytes: the text after each; then shrinking again from the front, back or middle", limit),
            move |ctx| {
                let initial = ctx.choose(10);
                let chunk = 1 + ctx.choose(9);
                let wide = ctx.choose(3);
                let place = ctx.choose(4);
                let mut text = "0123456789"[..initial].to_string();
                let mut g = GapBuffer::new(&text);
                ctx.state(&(initial, chunk, wide, place));
                let mut i = 0;
                while text.len() < limit {
                    let ch = match wide {
                        0 => (b'a' + (i % 26) as u8) as char,
                        1 => char::from_u32(0x400 + i % 32).unwrap(),
                        _ => char::from_u32(0x4e00 + i % 32).unwrap(),
                    };
                    let content: String = (0..chunk).map(|_| ch).collect();
                    let n = text.chars().count();
                    let at = match place {
                        0 => 0,
                        1 => n / 2,
                        2 => n,
                        _ => if i % 2 == 0 { 0 } else { n },
                    };
                    g.insert(&content, &p(0, at));
                    let o = text.char_indices().nth(at).map_or(text.len(), |x| x.0);
                    text.insert_str(o, &content);
                    ctx.transition();
                    if g.to_string() != text {
                        return Err(format!("insertion {} of {} bytes at {} ends with {}, expected {}", i, content.len(), at, short(&g.to_string()), short(&text)));
                    }
                    i += 1;
                }
                while !text.is_empty() {
                    let n = text.chars().count();
                    let k = (chunk * 7).min(n);
                    let at = match place {
                        0 => 0,
                        1 => (n - k) / 2,
                        2 => n - k,
                        _ => if n % 2 == 0 { 0 } else { n - k },
                    };
                    g.delete(&Range::new(p(0, at), p(0, at + k)));
                    let a = text.char_indices().nth(at).unwrap().0;
                    let b = text.char_indices().nth(at + k).map_or(text.len(), |x| x.0);
                    text.replace_range(a..b, "");
                    ctx.transition();
                    if g.to_string() != text {
                        return Err(format!("deleting {} at {} gives {}, expected {}", k, at, short(&g.to_string()), short(&text)));
                    }
                }
                Ok(())
            },
        ));
    }
    {
        let mut sizes: Vec<usize> = Vec::new();
        for k in 10..=if thorough { 24 } else { 20 } {
            sizes.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
        }
        sizes.extend([5_000, 10_000, 20_000, 50_000, 100_000, 200_000, 500_000, 1_000_000]);
        let depth = if thorough { 4 } else { 3 };
        v.push(Harness::new(
            "far-apart",
            format!("texts of {} sizes up to {} bytes, in lines of 100 or of 4000 bytes of one or two bytes each, loaded or inserted; {} edits (one fewer for texts over 5000 bytes, the first and last kind only over 70000; a short insertion, a deletion of a character, of a line, of 40000 characters over several lines) at the start, in the middle, at the end; then undone and redone", sizes.len(), sizes.iter().max().unwrap(), depth),
            move |ctx| {
                let n = *ctx.pick(&sizes);
                let wide = ctx.flag();
                let width = *ctx.pick(&[100, 4000]);
                let loaded = ctx.flag();
                let steps = if n > 5_000 { depth - 1 } else { depth };
                // Lines of equal length, so that places are known without measuring.
                let unit = if wide { '\u{e9}' } else { 'a' };
                let line: String = (0..width).map(|_| unit).chain(['\n']).collect();
                let mut text = line.repeat(n / line.len());
                while text.len() + unit.len_utf8() <= n {
                    text.push(unit);
                }
                let mut b = Buffer::new();
                if loaded {
                    let path = ctx.scratch.join("far");
                    std::fs::write(&path, &text).unwrap();
                    b = Buffer::from_file(&path).map_err(|e| e.to_string())?;
                } else {
                    b.insert(text.as_str());
                }
                ctx.state(&(n, wide, width, loaded));
                let mut texts = vec![text.clone()];
                for _ in 0..steps {
                    let lines: Vec<&str> = text.split('\n').collect();
                    let row = [0, lines.len() / 2, lines.len() - 1][ctx.choose(3)];
                    let col = lines[row].chars().count() / 2;
                    let at = [p(0, 0), p(row, col), p(row, lines[row].chars().count())][if row == 0 { 0 } else if row + 1 == lines.len() { 2 } else { 1 }];
                    let offset = |q: Position| {
                        let before: usize = lines[..q.line].iter().map(|l| l.len() + 1).sum();
                        before + lines[q.line].char_indices().nth(q.offset).map_or(lines[q.line].len(), |x| x.0)
                    };
                    if !b.cursor.move_to(at) {
                        return Err(format!("{} is missing in a text of {} bytes", show(&at), text.len()));
                    }
                    let o = offset(at);
                    let mut next = text.clone();
                    match if n > 70_000 { [0, 3][ctx.choose(2)] } else { ctx.choose(4) } {
                        0 => {
                            b.insert("x");
                            next.insert(o, 'x');
                        }
                        1 => {
                            b.delete();
                            if let Some(c) = text[o..].chars().next() {
                                next.replace_range(o..o + c.len_utf8(), "");
                            }
                        }
                        2 => {
                            // A line; it has no successor if it is the last.
                            b.delete_range(Range::new(p(at.line, 0), p(at.line + 1, 0)));
                            let s = offset(p(at.line, 0));
                            let e = if at.line + 1 < lines.len() { offset(p(at.line + 1, 0)) } else { text.len() };
                            next.replace_range(s..e, "");
                        }
                        _ => {
                            let last = (at.line + 40_000 / width).min(lines.len() - 1);
                            let to = p(last, lines[last].chars().count());
                            b.delete_range(Range::new(at, to));
                            next.replace_range(o..offset(to), "");
                        }
                    }
                    ctx.transition();
                    if b.data() != next {
                        return Err(format!("an edit at {} of {} bytes gives {}, expected {}", show(&at), text.len(), short(&b.data()), short(&next)));
                    }
                    text = next;
                    texts.push(text.clone());
                }
                for (i, t) in texts.iter().enumerate().rev().skip(1) {
                    b.undo();
                    if b.data() != *t {
                        return Err(format!("undoing edit {} gives {}, expected {}", i, short(&b.data()), short(t)));
                    }
                }
                if loaded {
                    // Back at what was loaded; further undoing does nothing.
                    b.undo();
                    if b.data() != texts[0] {
                        return Err(format!("undoing past the start gives {}, expected {}", short(&b.data()), short(&texts[0])));
                    }
                }
                for (i, t) in texts.iter().enumerate().skip(1) {
                    b.redo();
                    if b.data() != *t {
                        return Err(format!("redoing edit {} gives {}, expected {}", i - 1, short(&b.data()), short(t)));
                    }
                }
                ctx.transitions(2 * texts.len() as u64);
                Ok(())
            },
        ));
    }
    {
        let most = if thorough { 20 } else { 17 };
        let mut numbers: Vec<usize> = Vec::new();
        for k in 10..=most {
            numbers.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
        }
        numbers.extend([10_000, 20_000, 30_000, 50_000, 100_000, 1_000_000]);
        v.push(Harness::new(
            "very-many",
            format!("{} numbers up to 1000000 of: occurrences of a term in one line, of lines holding one, of edits of {} kinds that leave the text short, one by one or as a group (10 times undone and redone, then all of them), of groups of two; everything given back at the end", numbers.len(), MANY_KINDS),
            move |ctx| {
                let n = *ctx.pick(&numbers);
                let kind = ctx.choose(MANY_KINDS + 4);
                let grouped = kind < MANY_KINDS && ctx.flag();
                ctx.state(&(n, kind, grouped));
                ctx.log(|| format!("{} of kind {}, grouped {}", n, kind, grouped));
                ctx.transitions(n as u64);
                if kind >= MANY_KINDS {
                    // Texts of up to a few hundred thousand bytes.
                    let n = n.min(if thorough { 1 << 20 } else { 140_000 });
                    let unit = ["a", "ab\n", "\u{e9}a", "\n"][kind - MANY_KINDS];
                    let text = unit.repeat(n);
                    let mut b = Buffer::new();
                    b.insert(text.as_str());
                    let line = unit.ends_with('\n');
                    let width = unit.trim_end().chars().count();
                    let found = b.search("a");
                    let wanted = if unit == "\n" { 0 } else { n };
                    let place = |i: usize| if line { p(i, 0) } else { p(0, i * width + width - 1) };
                    if found.len() != wanted || found.iter().enumerate().any(|(i, q)| *q != place(i)) {
                        return Err(format!("{} occurrences, found {}", wanted, found.len()));
                    }
                    let lines = if line { n + 1 } else { 1 };
                    if b.line_count() != lines {
                        return Err(format!("{} lines, counted {}", lines, b.line_count()));
                    }
                    let mut i = 0;
                    for (number, content) in LineIterator::new(&text) {
                        if number != i || content != if !line { &text } else if i < n { unit } else { "" } {
                            return Err(format!("line {} of {} is yielded as {} {:?}", i, lines, number, short(content)));
                        }
                        i += 1;
                    }
                    if i != lines {
                        return Err(format!("{} of {} lines yielded", i, lines));
                    }
                    let end = if line { p(n, 0) } else { p(0, n * width) };
                    for (q, exists) in [(end, true), (p(end.line, end.offset + 1), false), (p(end.line + 1, 0), false)] {
                        if b.cursor.move_to(q) != exists {
                            return Err(format!("a text of {} {:?}: {} {}", n, unit, show(&q), if exists { "is missing" } else { "exists" }));
                        }
                    }
                    b.cursor.move_to(p(0, 0));
                    b.cursor.move_to_last_line();
                    b.cursor.move_to_end_of_line();
                    if *b.cursor != end || Distance::of_str(&text) != (Distance { lines: end.line, offset: end.offset }) {
                        return Err(format!("a text of {} {:?} ends at {}, in {:?}", n, unit, show(&b.cursor), Distance::of_str(&text)));
                    }
                    b.insert("b");
                    b.undo();
                    b.delete_range(Range::new(p(0, 0), end));
                    if !b.data().is_empty() {
                        return Err(format!("deleting a text of {} {:?} leaves {}", n, unit, short(&b.data())));
                    }
                    b.undo();
                    if b.data() != text {
                        return Err(format!("undoing the deletion of {} {:?} gives {}", n, unit, short(&b.data())));
                    }
                    return Ok(());
                }
                let mut b = Buffer::new();
                b.insert("ab\ncd");
                let start = b.data();
                if grouped {
                    b.start_operation_group();
                }
                for i in 0..n {
                    many(&mut b, kind, i, grouped);
                }
                b.end_operation_group();
                let full = b.data();
                let want = many_text(kind, n);
                if full != want {
                    return Err(format!("{} edits of kind {} give {:?}, expected {:?}", n, kind, full, want));
                }
                // Each edit, or group of edits, is one step.
                let mut steps = n;
                let few = if grouped { steps = 1; 3 } else { 10.min(n) };
                for round in 0..few {
                    b.undo();
                    let want = if grouped { start.clone() } else { many_text(kind, n - round - 1) };
                    if b.data() != want {
                        return Err(format!("undoing step {} from the end of {} edits of kind {} gives {:?}, expected {:?}", round, n, kind, b.data(), want));
                    }
                    if grouped {
                        b.redo();
                        if b.data() != full {
                            return Err(format!("redoing a group of {} edits of kind {} gives {:?}, expected {:?}", n, kind, b.data(), full));
                        }
                    }
                }
                if !grouped {
                    for _ in 0..few {
                        b.redo();
                    }
                }
                for i in 0..steps {
                    b.undo();
                    let want = if grouped { start.clone() } else { many_text(kind, n - i - 1) };
                    if b.data() != want {
                        return Err(format!("undoing {} of {} edits of kind {} gives {:?}, expected {:?}", i + 1, n, kind, b.data(), want));
                    }
                }
                for _ in 0..steps {
                    b.redo();
                }
                if b.data() != full {
                    return Err(format!("redoing {} edits of kind {} gives {:?}, expected {:?}", n, kind, b.data(), full));
                }
                b.redo();
                for _ in 0..steps {
                    b.undo();
                }
                if b.data() != start {
                    return Err(format!("undoing {} edits of kind {} gives {:?}, expected {:?}", n, kind, b.data(), start));
                }
                b.undo();
                if !b.data().is_empty() {
                    return Err(format!("undoing the first edit of {} gives {:?}", n + 1, b.data()));
                }
                if ctx.flag() {
                    // All of it given back with everything to redo, or with everything to undo.
                    for _ in 0..steps + 1 {
                        b.redo();
                    }
                }
                drop(b);
                Ok(())
            },
        ));
    }
    {
        let k = if thorough { 16 } else { 12 };
        let sizes = ladder(k);
        v.push(Harness::new(
            "many-lines",
            format!("texts of every number of lines on both sides of the powers of two up to 2^{}, 4 kinds of line: line count, iteration, cursor movement to and along the ends, search, whole-line deletion", k),
            move |ctx| {
                let n = *ctx.pick(&sizes);
                let kind = ctx.choose(4);
                let line = |i: usize| match kind {
                    0 => "\n".to_string(),
                    1 => format!("{}\n", i),
                    2 => format!("{}\u{e9}\r\n", i % 10),
                    _ => "e\u{301} \u{1F469}\u{200d}\u{1F467}\n".to_string(),
                };
                let last = ["", "end"][ctx.choose(2)];
                let mut text: String = (0..n).map(line).collect();
                text.push_str(last);
                ctx.state(&(n, kind, last));
                let mut b = Buffer::new();
                b.insert(text.as_str());
                let l = Layout::of(&text);
                if b.data() != text {
                    return Err(format!("inserting {} gives {}", short(&text), short(&b.data())));
                }
                if b.line_count() != n + 1 {
                    return Err(format!("{} line terminators, line count {}", n, b.line_count()));
                }
                let lines = model::lines(&text);
                let mut i = 0;
                for (number, content) in LineIterator::new(&text) {
                    if number != i || lines.get(i) != Some(&content) {
                        return Err(format!("iteration {} over {} lines yields number {} and {:?}", i, n + 1, number, content));
                    }
                    i += 1;
                }
                if i != n + 1 {
                    return Err(format!("iterating over {} lines ends after {}", n + 1, i));
                }
                b.cursor.move_to_last_line();
                if *b.cursor != p(n, 0) {
                    return Err(format!("the last of {} lines is reached at {}", n + 1, show(&b.cursor)));
                }
                b.cursor.move_to_end_of_line();
                if *b.cursor != l.end() {
                    return Err(format!("the end of {} lines is reached at {}", n + 1, show(&b.cursor)));
                }
                for _ in 0..n.min(3) {
                    b.cursor.move_up();
                }
                if b.cursor.line != n - n.min(3) {
                    return Err(format!("three up from the last of {} lines leads to {}", n + 1, show(&b.cursor)));
                }
                b.cursor.move_to_first_line();
                if b.cursor.line != 0 {
                    return Err(format!("the first of {} lines is reached at {}", n + 1, show(&b.cursor)));
                }
                if n <= 1100 {
                    b.cursor.move_to(p(0, 0));
                    for i in 0..=n {
                        if *b.cursor != p(i, 0) {
                            return Err(format!("{} moves down lead to {}", i, show(&b.cursor)));
                        }
                        b.cursor.move_down();
                    }
                }
                for needle in ["end", "9", "\u{1F469}"] {
                    let (got, want) = (b.search(needle), search_fast(&text, &l, needle));
                    if got != want {
                        return Err(format!("searching {} lines for {:?} finds {} places, expected {}", n + 1, needle, got.len(), want.len()));
                    }
                }
                check_places(ctx, &text, &|q| b.cursor.data.borrow().in_bounds(q), &|r| b.read(r))?;
                // Whole lines go, one by one, at telling places.
                let mut model = text.clone();
                for i in [0, n / 2, n.saturating_sub(2)] {
                    let r = LineRange::new(i, i).to_inclusive_range();
                    model = model::delete(&model, &r.start(), &r.end());
                    b.delete_range(r);
                    if b.data() != model {
                        return Err(format!("deleting line {} of {} gives {}", i, n + 1, short(&b.data())));
                    }
                }
                for _ in 0..3 {
                    b.undo();
                }
                ctx.transitions(n as u64 * 2 + 20);
                if b.data() != text {
                    return Err(format!("undoing the deletion of lines of {} gives {}", short(&text), short(&b.data())));
                }
                Ok(())
            },
        ));
    }
    {
        let k = if thorough { 15 } else { 11 };
        let sizes = ladder(k);
        v.push(Harness::new(
            "long-lines",
            format!("lines of every length on both sides of the powers of two up to 2^{}, 4 widths of character, alone, before or after another line: cursor placement, steps and line ends, edits and search next to every power of two", k),
            move |ctx| {
                let n = *ctx.pick(&sizes);
                let unit = *ctx.pick(&["a", "\u{e9}", "\u{6F22}", "e\u{301}"]);
                let (head, tail) = *ctx.pick(&[("", ""), ("x\n", "\ny"), ("", "\r\n")]);
                let row = head.matches('\n').count();
                let text = format!("{}{}{}", head, unit.repeat(n), tail);
                ctx.state(&(n, unit, row, tail));
                let mut b = Buffer::new();
                b.insert(text.as_str());
                let l = Layout::of(&text);
                for o in sizes.iter().filter(|o| **o <= n + 1) {
                    let exists = *o <= n;
                    if b.cursor.move_to(p(row, *o)) != exists {
                        return Err(format!("moving to offset {} in a line of {}", o, n));
                    }
                    if !exists {
                        continue;
                    }
                    b.cursor.move_right();
                    let want = p(row, (o + 1).min(n));
                    if *b.cursor != want {
                        return Err(format!("right of offset {} in a line of {} is {}", o, n, show(&b.cursor)));
                    }
                    b.cursor.move_left();
                    if n > 0 && *b.cursor != p(row, want.offset - 1) {
                        return Err(format!("left of {} in a line of {} is {}", show(&want), n, show(&b.cursor)));
                    }
                    // Down to a short line and back up.
                    b.cursor.move_to(p(row, *o));
                    b.cursor.move_down();
                    b.cursor.move_up();
                    if *b.cursor != p(row, *o) {
                        return Err(format!("down and up from offset {} of {} leads to {}", o, n, show(&b.cursor)));
                    }
                    // An edit there, taken back.
                    b.insert("z\n");
                    let at = l.offset(&p(row, *o)).unwrap();
                    let want = format!("{}z\n{}", &text[..at], &text[at..]);
                    if b.data() != want {
                        return Err(format!("inserting at offset {} of {} gives {}", o, n, short(&b.data())));
                    }
                    let found = b.search("z");
                    if found != [p(row, *o)] {
                        return Err(format!("what was inserted at offset {} of {} is found at {:?}", o, n, found));
                    }
                    b.undo();
                    b.delete_range(Range::new(p(row, 0), p(row, *o)));
                    let want = format!("{}{}", head, &text[at..]);
                    if b.data() != want {
                        return Err(format!("deleting up to offset {} of {} gives {}", o, n, short(&b.data())));
                    }
                    b.undo();
                    if b.data() != text {
                        return Err(format!("undoing at offset {} of {} gives {}", o, n, short(&b.data())));
                    }
                    ctx.transitions(12);
                }
                b.cursor.move_to(p(row, 0));
                b.cursor.move_to_end_of_line();
                if *b.cursor != p(row, n) {
                    return Err(format!("the end of a line of {} is at {}", n, show(&b.cursor)));
                }
                b.cursor.move_to_start_of_line();
                if *b.cursor != p(row, 0) {
                    return Err(format!("the start of a line of {} is at {}", n, show(&b.cursor)));
                }
                if b.search(unit).len() != n {
                    return Err(format!("{} characters, {} found", n, b.search(unit).len()));
                }
                if n > 1 {
                    // A term as long as the line, and one longer.
                    if b.search(&unit.repeat(n)) != [p(row, 0)] || !b.search(&unit.repeat(n + 1)).is_empty() {
                        return Err(format!("searching a line of {} for all of it", n));
                    }
                }
                Ok(())
            },
        ));
    }
    {
        let k = if thorough { 12 } else { 9 };
        let sizes = ladder(k);
        v.push(Harness::new(
            "long-clusters",
            format!("a single character made of every number of combining marks or joined emoji on both sides of the powers of two up to 2^{}: counted, stepped over, read, deleted, restored as one", k),
            move |ctx| {
                let n = *ctx.pick(&sizes);
                let (base, link) = *ctx.pick(&[("e", COMB), (GIRL, "\u{200d}\u{1F469}"), (NA, II)]);
                let cluster = format!("{}{}", base, link.repeat(n));
                let text = format!("a{}b\n{}", cluster, cluster);
                ctx.state(&(n, base));
                let l = Layout::of(&text);
                if l.eol(0) != Some(3) {
                    return ctx.foreign();
                }
                let mut b = Buffer::new();
                b.insert(text.as_str());
                check_places(ctx, &text, &|q| b.cursor.data.borrow().in_bounds(q), &|r| b.read(r))?;
                b.cursor.move_to(p(0, 1));
                b.delete();
                if b.data() != format!("ab\n{}", cluster) {
                    return Err(format!("deleting a character of {} parts gives {}", n + 1, short(&b.data())));
                }
                b.undo();
                if b.data() != text || b.search("b") != [p(0, 2)] {
                    return Err(format!("restoring a character of {} parts gives {}", n + 1, short(&b.data())));
                }
                b.cursor.move_to(p(0, 1));
                b.cursor.move_right();
                if *b.cursor != p(0, 2) {
                    return Err(format!("right over {} parts leads to {}", n + 1, show(&b.cursor)));
                }
                if Distance::of_str(&text) != (Distance { lines: 1, offset: 1 }) {
                    return Err(format!("measuring {} parts gives {:?}", n + 1, Distance::of_str(&text)));
                }
                ctx.transitions(8);
                Ok(())
            },
        ));
    }
    v
}

pub fn search_fast(text: &str, l: &Layout, needle: &str) -> Vec<Position> {
    let mut v: Vec<Position> = Vec::new();
    let mut starts: Vec<usize> = Vec::new();
    let mut from = 0;
    while let Some(i) = text[from..].find(needle) {
        starts.push(from + i);
        from += i + needle.chars().next().unwrap().len_utf8();
    }
    let mut k = 0;
    for (line, offsets) in l.lines.iter().enumerate() {
        for (offset, o) in offsets.iter().enumerate() {
            let next = offsets.get(offset + 1).or_else(|| l.lines.get(line + 1).map(|x| &x[0])).copied().unwrap_or(usize::MAX);
            let mut hit = false;
            while k < starts.len() && starts[k] < next && starts[k] >= *o {
                hit = true;
                k += 1;
            }
            if hit {
                v.push(Position { line, offset });
            }
        }
    }
    v
}
