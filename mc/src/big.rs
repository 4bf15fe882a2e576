//! Texts of many megabytes, and single places in texts of any size.

use crate::engine::Harness;
use crate::io::short;
use crate::sys::{p, show};
use scribe::buffer::{Position, Range};
use scribe::Buffer;
use std::sync::Mutex;

/// Keeps few of the largest executions under way at once; they take a lot of memory.
static SLOTS: [Mutex<()>; 3] = [Mutex::new(()), Mutex::new(()), Mutex::new(())];
fn slot(i: usize) -> std::sync::MutexGuard<'static, ()> {
    SLOTS[i % 3].lock().unwrap_or_else(|e| e.into_inner())
}

/// Lengths at which code may cut a text into pieces: powers of two, and round numbers.
pub fn boundaries(k: u32) -> Vec<usize> {
    let mut v: Vec<usize> = (4..=k).map(|i| 1usize << i).collect();
    let mut t = 100;
    while t <= 1 << k {
        v.extend([t, 2 * t, 5 * t].iter().filter(|x| **x <= 1 << k));
        t *= 10;
    }
    v.extend((5..k).map(|i| 3usize << (i - 1)));
    v.sort();
    v.dedup();
    v
}

/// One occurrence, around every boundary, in texts with lines of several lengths.
pub fn one_occurrence(thorough: bool) -> Harness {
    let k = if thorough { 20 } else { 17 };
    let bounds = boundaries(k);
    Harness::new(
        "one-occurrence",
        format!("one occurrence of each of 3 terms that begins or ends within its length of each of {} boundaries (powers of two, half-way between them, round numbers) up to {} bytes from the start of the text; in one line, in lines of 61 bytes, after many empty lines, among characters of two bytes; with the gap before, after or amid it", bounds.len(), 1 << k),
        move |ctx| {
            let bound = *ctx.pick(&bounds);
            let needle = *ctx.pick(&["needle", "n\u{e9}\u{6F22}", "n"]);
            let j = ctx.choose(needle.chars().count() + 1);
            let kind = ctx.choose(4);
            let gap = ctx.choose(3);
            let j = needle.char_indices().map(|x| x.0).chain([needle.len()]).nth(j).unwrap();
            let start = bound.saturating_sub(j);
            let mut text = String::with_capacity(start + 100);
            match kind {
                0 => text = "x".repeat(start),
                1 => {
                    while text.len() < start {
                        text.push(if text.len() % 61 == 60 { '\n' } else { 'x' });
                    }
                }
                2 => text = "\n".repeat(start),
                _ => {
                    text = "\u{fc}".repeat(start / 2);
                    if start % 2 == 1 {
                        text.push('x');
                    }
                }
            }
            let line = text.matches('\n').count();
            let offset = text.chars().rev().take_while(|c| *c != '\n').count();
            let at = p(line, offset);
            let mut b = Buffer::new();
            let mut whole = text;
            whole.push_str(needle);
            whole.push_str("xx\nxxx");
            b.insert(whole.as_str());
            // An insertion and its reversal leave the gap where they were made.
            let q = match gap {
                0 => p(0, 0),
                1 => p(line + 1, 3),
                _ => p(line, offset + needle.chars().count() / 2),
            };
            b.cursor.move_to(q);
            b.insert("y");
            b.undo();
            if b.data() != whole {
                return ctx.foreign();
            }
            ctx.state(&(bound, needle, j, kind, gap));
            ctx.log(|| format!("{:?} at {} of {} bytes", needle, show(&at), whole.len()));
            let found = b.search(needle);
            ctx.transition();
            if found != [at] {
                return Err(format!("{:?} at byte {}, {}, of {} is found at {:?}", needle, start, show(&at), short(&whole), found.iter().take(5).collect::<Vec<_>>()));
            }
            let width = needle.chars().count();
            let read = b.read(&Range::new(at, p(line, offset + width)));
            if read.as_deref() != Some(needle) {
                return Err(format!("reading {} from {} of {} gives {:?}", width, show(&at), short(&whole), read));
            }
            Ok(())
        },
    )
}

/// Lines of `unit`, about `n` bytes.
fn block(n: usize, unit: &str) -> String {
    let mut line = unit.repeat(96 / unit.len());
    line.push('\n');
    line.repeat(n / line.len() + 1)
}

/// Edits of many megabytes at once.
pub fn very_large(thorough: bool) -> Harness {
    let mut sizes = vec![1_000_000, (1 << 20) + 1, 2_000_000, (1 << 22) + 1, 10_000_000, (1 << 24) + 1];
    if thorough {
        sizes.extend([20_000_000, (1 << 25) + 1]);
    }
    Harness::new(
        "very-large",
        format!("texts of more than {:?} bytes, of one or two bytes per character: inserted whole or loaded, almost all of it deleted, restored, deleted again, restored, the same inserted again in the middle, taken back, replaced, taken back, searched", sizes),
        move |ctx| {
            let n = *ctx.pick(&sizes);
            let unit = *ctx.pick(&["a", "\u{e9}"]);
            let loaded = ctx.flag();
            let _slot = slot(ctx.worker);
            let text = block(n, unit);
            let lines = text.matches('\n').count();
            ctx.state(&(n, unit, loaded));
            let mut b = Buffer::new();
            if loaded {
                let path = ctx.scratch.join("large");
                if std::fs::write(&path, &text).is_err() {
                    // No room for it here.
                    ctx.count("no room");
                    return Ok(());
                }
                let r = Buffer::from_file(&path);
                let _ = std::fs::remove_file(&path);
                b = r.map_err(|e| format!("loading {} bytes failed: {}", text.len(), e))?;
            } else {
                b.insert(text.as_str());
            }
            let mut steps = 0;
            let mut check = |b: &Buffer, want: &str, what: &str| {
                steps += 1;
                if b.data() != want {
                    return Err(format!("{} (step {}) in a text of {} gives {}, expected {}", what, steps, short(&text), short(&b.data()), short(want)));
                }
                Ok(())
            };
            check(&b, &text, "insertion")?;
            // All but the first and last character.
            let o = unit.len();
            let rest = format!("{}\n", unit);
            let cut = p(lines - 1, 96 / unit.len());
            b.delete_range(Range::new(p(0, 1), cut));
            check(&b, &rest, "deletion")?;
            b.undo();
            check(&b, &text, "undoing the deletion")?;
            b.redo();
            check(&b, &rest, "redoing the deletion")?;
            b.undo();
            check(&b, &text, "undoing it again")?;
            let middle = lines / 2 * (text.len() / lines) + o;
            b.cursor.move_to(p(lines / 2, 1));
            b.insert(text.as_str());
            let mut doubled = text[..middle].to_string();
            doubled.push_str(&text);
            doubled.push_str(&text[middle..]);
            check(&b, &doubled, "insertion in the middle")?;
            b.undo();
            check(&b, &text, "undoing the insertion")?;
            b.redo();
            check(&b, &doubled, "redoing the insertion")?;
            b.undo();
            drop(doubled);
            let other = block(n, "b\u{fc}b");
            b.replace(other.as_str());
            check(&b, &other, "replacement")?;
            b.undo();
            check(&b, &text, "undoing the replacement")?;
            b.redo();
            check(&b, &other, "redoing the replacement")?;
            if b.line_count() != other.matches('\n').count() + 1 {
                return Err(format!("{} has {} lines, says line_count", short(&other), b.line_count()));
            }
            b.undo();
            b.cursor.move_to(p(lines, 0));
            b.insert("needle");
            let found = b.search("needle");
            if found != [Position { line: lines, offset: 0 }] {
                return Err(format!("the needle at the end of {} is found at {:?}", short(&text), found));
            }
            for _ in 0..if loaded { 1 } else { 2 } {
                b.undo();
            }
            check(&b, if loaded { &text } else { "" }, "undoing everything")?;
            ctx.transitions(20);
            Ok(())
        },
    )
}

/// Files of many megabytes.
pub fn large_files(thorough: bool) -> Harness {
    let mut sizes = vec![1_000_000, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 1 << 21, (1 << 22) + 1, 1 << 23, 10_000_000, (1 << 24) + 1, 1 << 25, 50_000_000, (1 << 26) + 1];
    if thorough {
        sizes.extend([100_000_000, (1 << 27) + 1]);
    }
    Harness::new(
        "large-files",
        format!("files of {:?} bytes, of characters of one, two or three bytes that do not line up with them: loaded, saved elsewhere, reloaded", sizes),
        move |ctx| {
            let n = *ctx.pick(&sizes);
            let unit = *ctx.pick(&["abcdefg\n", "\u{e9}\u{fc}\r\n", "\u{6F22}\u{5b57}\u{6F22}\n"]);
            let _slot = slot(ctx.worker);
            let mut text = unit.repeat(n / unit.len());
            while text.len() < n {
                text.insert(0, 'z');
            }
            let (one, two) = (ctx.scratch.join("large-1"), ctx.scratch.join("large-2"));
            ctx.state(&(n, unit));
            let room = std::fs::write(&one, &text).and_then(|_| std::fs::write(&two, &text)).and_then(|_| std::fs::write(&two, "short"));
            let r = (|| {
                if room.is_err() {
                    ctx.count("no room");
                    return Ok(());
                }
                let mut b = Buffer::from_file(&one).map_err(|e| format!("loading {} bytes failed: {}", n, e))?;
                if b.data() != text {
                    return Err(format!("loading {} gives {}", short(&text), short(&b.data())));
                }
                b.path = Some(two.clone());
                b.save().map_err(|e| format!("saving {} bytes failed: {}", n, e))?;
                if std::fs::read(&two).map_or(true, |c| c != text.as_bytes()) {
                    return Err(format!("saving {} leaves a file of {:?} bytes", short(&text), std::fs::metadata(&two).map(|m| m.len())));
                }
                text.push_str("more");
                std::fs::write(&two, &text).map_err(|e| e.to_string())?;
                b.reload().map_err(|e| format!("reloading {} bytes failed: {}", n, e))?;
                if b.data() != text {
                    return Err(format!("reloading {} gives {}", short(&text), short(&b.data())));
                }
                Ok(())
            })();
            let _ = std::fs::remove_file(&one);
            let _ = std::fs::remove_file(&two);
            ctx.transitions(4);
            r
        },
    )
}
