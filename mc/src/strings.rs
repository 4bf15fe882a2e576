//! Texts that programs are known to treat in a way of their own: control sequences, escapes,
//! markers, odd line ends, words in several cases, characters with equivalents. To a text
//! buffer they are text like any other.

use crate::deep::{self, Post};
use crate::engine::{Ctx, HResult, Harness};
use crate::io::short;
use crate::model::{self, Layout};
use crate::sys::{p, show, Focus, Op, Sys};
use crate::text;

pub const STRINGS: &[&str] = &[
    // Control characters and sequences
    "\0", "a\0b", "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0",
    "\u{1}\u{2}\u{3}\u{4}\u{5}\u{6}\u{1}\u{2}\u{3}\u{4}\u{5}\u{6}\u{1}\u{2}\u{3}\u{4}\u{5}\u{6}\u{1}\u{2}\u{3}",
    "\u{4}", "\u{7}", "a\u{8}b", "_\u{8}a", "\u{8}", "\u{b}", "\u{c}", "a\u{c}\nb", "\u{1a}", "a\u{1a}b", "\u{1b}", "\u{1b}[0m", "\u{1b}[31mred\u{1b}[0m", "\u{1b}]0;t\u{7}",
    "\u{1b}[200~x\u{1b}[201~", "\u{1b}[2J", "\u{1f}\u{1e}", "\u{7f}", "\u{85}", "\u{9b}31m", "\u{80}", "\u{ff}\u{fe}", "\u{ef}\u{bb}\u{bf}", "\u{fe}\u{ff}",
    // Line ends and blanks
    "\n", "\n\n", "\n\n\n\n", "\r", "\r\r", "\r\n", "\r\n\r\n", "\r\r\n", "\n\r", "\n\r\n", "\r\n\n\r", "a\r\nb\nc\rd", "\n\u{301}", "\r\u{301}\n", "\u{2028}", "a\u{2029}b",
    " ", "  ", "    ", "        ", "\t", "\t\t", " \t ", "a ", " a", "a  \n", "a \t\n", "\n ", " \n", "\n\t\n", "\u{a0}", "\u{3000}", "\u{2003}a", "a  b", "\u{180e}", "\u{1680}",
    // Invisible and special characters
    "\u{feff}", "\u{feff}\u{feff}", "\u{feff}a", "a\u{feff}", "\u{fffe}", "\u{ffff}", "\u{fffd}", "\u{fdd0}", "\u{10ffff}", "\u{e000}", "\u{200b}", "a\u{200b}b", "\u{200c}", "\u{200d}", "\u{200e}", "\u{202e}abc", "\u{2066}a\u{2069}",
    "\u{2060}", "\u{ad}", "a\u{ad}b", "\u{34f}", "\u{fe0f}", "\u{e0001}", "\u{115f}", "\u{3164}",
    // Several ways to write one thing
    "\u{e9}", "e\u{301}", "\u{1ec7}", "e\u{323}\u{302}", "e\u{302}\u{323}", "\u{c5}", "\u{212b}", "A\u{30a}", "\u{2126}", "\u{3a9}", "\u{212a}", "K", "\u{b5}", "\u{3bc}", "\u{fb01}", "fi", "\u{df}", "ss", "\u{1e9e}", "SS",
    "\u{130}", "\u{131}", "i\u{307}", "\u{17f}", "s", "\u{ff46}", "\u{ff21}", "\u{b2}", "2", "\u{bd}", "\u{2460}", "\u{1c5}", "\u{3a3}\u{3c3}\u{3c2}", "\u{149}", "\u{390}", "\u{ac01}", "\u{1100}\u{1161}\u{11a8}", "\u{f900}", "\u{8c48}", "\u{1d400}", "\u{10400}", "\u{10428}", "\u{1e00}", "\u{2c7d}",
    "\u{340}", "\u{374}", "\u{37e}", "\u{387}", "\u{2000}", "\u{2329}", "\u{958}", "\u{2adc}",
    // Clusters
    "\u{1F469}\u{200d}\u{1F467}", "\u{1F469}\u{200d}", "\u{200d}\u{1F467}", "\u{1f44d}\u{1f3fd}", "\u{1f1fa}\u{1f1f8}", "\u{1f1fa}", "\u{1f1fa}\u{1f1f8}\u{1f1fa}", "\u{1f3f4}\u{e0067}\u{e0062}\u{e007f}", "1\u{fe0f}\u{20e3}", "#\u{20e3}", "\u{2764}\u{fe0f}", "a\u{fe0f}",
    "\u{915}\u{94d}\u{937}\u{93f}", "\u{915}\u{94d}\u{200d}\u{937}", "\u{e01}\u{e33}", "\u{ba8}\u{bbf}", "\u{644}\u{627}", "\u{5e9}\u{5c1}", "\u{600}1", "\u{110bd}\u{11083}", "z\u{351}\u{36b}\u{343}\u{36a}\u{302}\u{36b}\u{33d}\u{34f}\u{334}", "\u{1175}\u{11a8}", "\u{301}", "\u{301}\u{301}", "\u{903}", "\u{1f468}\u{1f3fb}\u{200d}\u{1f91d}\u{200d}\u{1f468}\u{1f3ff}",
    // Escapes and entities
    "\\", "\\\\", "\\n", "\\r\\n", "\\t", "\\0", "\\x41", "\\u0041", "\\u{41}", "\\e[0m", "\\\n", "\\\r\n", "%0A", "%20", "%%", "&amp;", "&lt;b&gt;", "&#10;", "&#x41;", "=0A", "=\n", "^M", "^@", "^[", "+AGE-", "=?utf-8?q?a?=", "\u{c3}\u{a9}",
    "\"", "'", "`", "''", "``", "\"\"\"", "'''", "\"a\"", "\u{201c}a\u{201d}", "\u{2018}a\u{2019}", "\u{2026}", "...", "--", "\u{2014}", "\u{2013}", "\u{2212}", "(c)", "<=", "->",
    // Words in several cases
    "The the THE", "aA", "Ab aB AB ab", "needle Needle NEEDLE", "abc", "ABC", "Abc", "\u{c9}\u{e9}", "\u{430}\u{410}",
    // Patterns and templates
    ".", ".*", "[a-z]+", "^a", "a$", "(a)", "(a|b)", "a?", "a+", "\\d", "\\w+", "\\b", "$1", "\\1", "$&", "{2}", "*", "?", "/a/", "//", "/a/i", "(?i)a", "(", "[", ")", "+",
    "{}", "{0}", "{{x}}", "%s", "%d", "%n", "%", "${HOME}", "$HOME", "$", "`ls`", "$(ls)", "<%= x %>", "#{x}", "~", "~/a", "!!", "!", "@", "&",
    // Markers
    "// c", "/* c */", "# c", "-- c", "<!-- c -->", "# vim: set ft=ruby noeol:", "// -*- mode: c; coding: latin-1 -*-", "#!/bin/sh", "<?xml version=\"1.0\" encoding=\"latin-1\"?>", "<!DOCTYPE html>", "<html>", "<<<<<<< HEAD\na\n=======\nb\n>>>>>>> c\n", "@@ -1 +1 @@",
    "diff --git a/f b/f", "-- \n", "---\n", "...\n", "===", ">From ", "From ", ".\n", "\n.\n", "EOF", "\\ No newline at end of file", "BEGIN:VCARD", "%PDF-1.4", "PK\u{3}\u{4}", "GIF89a", "\u{7f}ELF", "MZ", "\u{1f}\u{8b}",
    // Values
    "0", "-1", "00", "1e309", "NaN", "null", "nil", "None", "undefined", "true", "18446744073709551616", "0x41", "1,000", "1_000", "http://a.b/c", "file:///a", "a@b.c", "C:\\a",
];

/// What the text is before the string comes in.
const BASES: usize = 8;
fn base(which: usize, s: &str) -> String {
    match which {
        0 => String::new(),
        1 => "ab\ncd\n".into(),
        2 => s.into(),
        3 => format!("x{}y\nz", s),
        4 => "ab\r\ncd\r\nef\r\ngh\r\n".into(),
        5 => "\ta b\n  (\"c\n".into(),
        6 => format!("{}\n{}", s, s),
        _ => "The line.\n".repeat(30),
    }
}

fn ops(ctx: &mut Ctx, s: &str, sys: &Sys) -> Vec<Op> {
    let l = Layout::of(&sys.m.text);
    let eol = p(0, l.eol(0).unwrap());
    let last = l.end();
    match ctx.choose(if sys.path.is_some() { 14 } else { 11 }) {
        0 => vec![Op::MoveTo(p(0, 0)), Op::Insert(s.into())],
        1 => vec![Op::MoveTo(last), Op::Insert(s.into())],
        2 => vec![Op::MoveTo(eol), Op::Insert(s.into())],
        3 => vec![Op::MoveTo(p(0, 1)), Op::Insert(s.into()), Op::Insert(s.into())],
        4 => vec![Op::MoveTo(p(1, 1)), Op::Insert(format!("{}\n{}x", s, s))],
        5 => vec![Op::Replace(s.into())],
        6 => vec![Op::Replace(format!("{}{}", sys.m.text, s))],
        7 => vec![Op::MoveTo(p(0, 1)), Op::Delete],
        8 => vec![Op::DeleteRange(p(0, 1), last)],
        9 => vec![Op::Undo],
        10 => vec![Op::Start, Op::Insert(s.into()), Op::MoveTo(p(0, 1)), Op::Insert("a".into()), Op::End],
        11 => vec![Op::Save],
        12 => vec![Op::External(s.into()), Op::Reload],
        _ => vec![Op::External(format!("ab\n{}cd", s)), Op::Reload],
    }
}

fn look(ctx: &mut Ctx, sys: &mut Sys, what: Post, s: &str) -> HResult {
    if what == Post::Search && (ctx.fresh() || ctx.tracing()) {
        let text = sys.m.text.clone();
        let mut needles: Vec<String> = s.split('\n').map(|x| x.to_string()).collect();
        needles.extend([s.to_lowercase(), s.to_uppercase(), s.trim().to_string()]);
        needles.extend(s.chars().next().map(|c| c.to_string()));
        needles.extend(s.chars().last().map(|c| c.to_string()));
        // Half a line end is no term.
        needles.retain(|n| !n.is_empty() && !n.contains(['\r', '\n']));
        needles.sort();
        needles.dedup();
        for n in &needles {
            text::search_check(ctx, &sys.real, &text, n)?;
        }
    }
    if what == Post::Grid && sys.m.text.len() > 40 && (ctx.fresh() || ctx.tracing()) {
        let b = &sys.real;
        return crate::arith::check_places(ctx, &sys.m.text, &|q| b.cursor.data.borrow().in_bounds(q), &|r| b.read(r));
    }
    deep::post(ctx, sys, what)
}

/// Each of the strings in each kind of text, through two steps.
pub fn strings(focus: Focus, what: Post, thorough: bool) -> Harness {
    let heavy = what == Post::Grid || what == Post::Bounds;
    let bases = if heavy && !thorough { BASES - 1 } else { BASES };
    Harness::new(
        "telling-texts",
        format!("{} strings that programs treat in ways of their own (control sequences, odd line ends and blanks, equivalent characters, escapes, patterns, markers) in {} texts each; 2 steps of 11 to 14 (inserted at 5 places, replacing, loaded, undone, deleted around, grouped, saved); then everything undone and redone", STRINGS.len(), bases),
        move |ctx| {
            let s = *ctx.pick(STRINGS);
            let text = base(ctx.choose(bases), s);
            let mut sys = if ctx.flag() { Sys::from_file(ctx.scratch, &text, focus) } else { Sys::fresh(&text, focus) };
            if focus == Focus::Callback {
                sys = sys.with_callback();
            }
            look(ctx, &mut sys, what, s)?;
            for _ in 0..2 {
                for op in ops(ctx, s, &sys) {
                    if !sys.apply(ctx, &op)? {
                        return ctx.foreign();
                    }
                }
                look(ctx, &mut sys, what, s)?;
            }
            if !deep::unwind(ctx, &mut sys, Post::Nothing)? {
                return ctx.foreign();
            }
            Ok(())
        },
    )
}

/// Every two of the strings side by side.
pub fn pairs(name: &'static str, what: &'static str, f: impl Fn(&mut Ctx, &str, &str) -> HResult + Sync + 'static) -> Harness {
    Harness::new(name, format!("every two of {} strings that programs treat in ways of their own: {}", STRINGS.len(), what), move |ctx| {
        let a = *ctx.pick(STRINGS);
        let b = *ctx.pick(STRINGS);
        ctx.state(&(a, b));
        ctx.log(|| format!("{:?} and {:?}", a, b));
        f(ctx, a, b)
    })
}

/// Edits with two strings.
pub fn edited_pairs() -> Harness {
    pairs("two-telling-texts", "the second inserted into the first at both ends and after its first character, then its first three characters deleted again; on the gap buffer", |ctx, a, b| {
        let l = Layout::of(a);
        for q in [p(0, 0), p(0, 1), l.end()] {
            let mut g = scribe::buffer::GapBuffer::new(a);
            g.insert(b, &q);
            let want = model::insert(a, &q, b);
            if g.to_string() != want {
                return Err(format!("{:?} inserted into {:?} at {} gives {:?}, expected {:?}", b, a, show(&q), g.to_string(), want));
            }
            let end = p(q.line, q.offset.saturating_add(3));
            g.delete(&scribe::buffer::Range::new(q, end));
            let after = model::delete(&want, &q, &end);
            if g.to_string() != after {
                return Err(format!("deleting {} to {} in {:?} gives {:?}, expected {:?}", show(&q), show(&end), want, g.to_string(), after));
            }
            ctx.transitions(2);
        }
        Ok(())
    })
}

/// What other encodings make of a string.
const ENCODINGS: usize = 14;
fn encoded(which: usize, s: &str) -> Vec<u8> {
    let wide = |bom: bool, big: bool| {
        let mut v: Vec<u16> = if bom { vec![0xfeff] } else { vec![] };
        v.extend(s.encode_utf16());
        v.iter().flat_map(|u| if big { u.to_be_bytes() } else { u.to_le_bytes() }).collect::<Vec<u8>>()
    };
    let wider = |big: bool| {
        ['\u{feff}'].into_iter().chain(s.chars()).map(|c| c as u32).flat_map(|u| if big { u.to_be_bytes() } else { u.to_le_bytes() }).collect::<Vec<u8>>()
    };
    let with = |at: usize, bytes: &[u8]| [&s.as_bytes()[..at], bytes, &s.as_bytes()[at..]].concat();
    match which {
        0 => s.as_bytes().to_vec(),
        1 => with(0, b"\xef\xbb\xbf"),
        2 => wide(true, false),
        3 => wide(true, true),
        4 => wide(false, false),
        5 => wide(false, true),
        6 => wider(false),
        7 => wider(true),
        // One byte per character.
        8 => s.chars().map(|c| c as u32 as u8).collect(),
        // Surrogates one by one, and zero in two bytes.
        9 => s
            .encode_utf16()
            .flat_map(|u| match u {
                0 => vec![0xc0, 0x80],
                0xd800..=0xdfff => vec![0xe0 | (u >> 12) as u8, 0x80 | (u >> 6 & 0x3f) as u8, 0x80 | (u & 0x3f) as u8],
                _ => char::from_u32(u.into()).unwrap().to_string().into_bytes(),
            })
            .collect(),
        // Longer than need be.
        10 => s.bytes().flat_map(|b| if b < 0x80 { vec![0xc0 | b >> 6, 0x80 | b & 0x3f] } else { vec![b] }).collect(),
        11 => with(s.len(), b"\xc3"),
        12 => with(s.len() / 2, b"\xff"),
        _ => with(0, b"\x80"),
    }
}

/// Files in other encodings: those that happen to be UTF-8 load as that, no others do.
pub fn encodings() -> Harness {
    Harness::new(
        "encodings",
        format!("each of {} strings that programs treat in ways of their own, once, 40 or 3000 times, in each of {} encodings (UTF-8 with and without a mark, UTF-16 and UTF-32 of either order, one byte per character, surrogates one by one, overlong, with stray bytes): loaded, reloaded and opened exactly if that is UTF-8, and saved again as it was", STRINGS.len(), ENCODINGS),
        move |ctx| {
            let s = *ctx.pick(STRINGS);
            let which = ctx.choose(ENCODINGS);
            let times = *ctx.pick(&[1, 40, 3000]);
            let bytes = encoded(which, &s.repeat(times));
            ctx.state(&bytes);
            let text = std::str::from_utf8(&bytes).ok();
            let path = ctx.scratch.join("encoded.txt");
            let describe = || format!("a file of {} bytes, {:?} in encoding {}, {}", bytes.len(), s, which, if text.is_some() { "which is UTF-8" } else { "which is not UTF-8" });
            std::fs::write(&path, "before").unwrap();
            let mut other = scribe::Buffer::from_file(&path).map_err(|e| e.to_string())?;
            std::fs::write(&path, &bytes).unwrap();
            let loaded = scribe::Buffer::from_file(&path);
            let reloaded = other.reload();
            ctx.transitions(2);
            if loaded.is_ok() != text.is_some() || loaded.as_ref().is_ok_and(|b| Some(b.data().as_str()) != text) {
                return Err(format!("loading {}: {:?}", describe(), loaded.map(|b| short(&b.data()))));
            }
            if reloaded.is_ok() != text.is_some() || other.data() != text.unwrap_or("before") {
                return Err(format!("reloading {}: {:?}, and the text is {}", describe(), reloaded.map_err(|e| e.to_string()), short(&other.data())));
            }
            if let Ok(mut b) = loaded {
                std::fs::write(&path, "after").unwrap();
                let r = b.save();
                ctx.transition();
                if r.is_err() || std::fs::read(&path).ok().as_ref() != Some(&bytes) {
                    return Err(format!("saving what was loaded from {}: {:?}, and the file holds something else", describe(), r));
                }
            }
            Ok(())
        },
    )
}
