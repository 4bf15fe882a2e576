//! Harnesses over texts: search, lines, tokens (C12-C15).

use crate::edits::{s, COMB, E_ACUTE, GIRL, HAN, NA, II, PREPEND, RI_S, RI_U, WOMAN, ZWJ};
use crate::deep::{self, Post};
use crate::engine::{Ctx, HResult, Harness};
use crate::model::{self, Layout};
use crate::sys::{p, show, Focus};
use scribe::buffer::{Position, Range, Token, TokenSet};
use scribe::util::LineIterator;
use scribe::Buffer;
use std::sync::OnceLock;
use syntect::parsing::{ParseState, ScopeStack, SyntaxDefinition, SyntaxReference, SyntaxSet, SyntaxSetBuilder};

/// A buffer holding head+tail with its storage gap between the two (mode 0), at the very
/// start (1), with the remains of deleted text in between (2), or loaded in one piece (3).
/// None if the text came out wrong, which is another property's business.
pub fn stored(head: &str, tail: &str, mode: usize) -> Option<Buffer> {
    let mut b = Buffer::new();
    match mode {
        0 => {
            b.insert(tail);
            b.cursor.move_to(p(0, 0));
            b.insert(head);
        }
        1 => {
            b.insert(format!("{}{}", head, tail));
            b.cursor.move_to(p(0, 0));
            b.insert("#");
            b.delete();
        }
        2 => {
            b.insert(format!("{}{}", head, tail));
            let l = Layout::of(&format!("{}{}", head, tail));
            let q = l.containing(head.len());
            b.cursor.move_to(q);
            b.insert("##\n#");
            b.undo();
        }
        _ => {
            b.insert(format!("{}{}", head, tail));
        }
    }
    if b.data() == format!("{}{}", head, tail) {
        Some(b)
    } else {
        None
    }
}

// --- C12 --------------------------------------------------------------------------------

pub fn search_check(ctx: &mut Ctx, b: &Buffer, text: &str, needle: &str) -> HResult {
    let got = b.search(needle);
    ctx.transition();
    let want = model::search(text, needle);
    if got != want {
        return Err(format!(
            "searching {:?} for {:?} gives {:?}, expected {:?}",
            text,
            needle,
            got.iter().map(show).collect::<Vec<_>>(),
            want.iter().map(show).collect::<Vec<_>>()
        ));
    }
    if want.is_empty() {
        ctx.count("searches without a match");
    } else {
        ctx.count("searches with matches");
    }
    let l = Layout::of(text);
    for q in want {
        // Where the occurrence begins on a character boundary, the text from there begins
        // with the term.
        let o = l.offset(&q).unwrap();
        if text[o..].starts_with(needle) {
            let rest = b.read(&Range::new(q, l.end()));
            if !rest.as_ref().map_or(false, |r| r.starts_with(needle)) {
                return Err(format!(
                    "{:?} found at {} in {:?}, but reading from there gives {:?}",
                    needle,
                    show(&q),
                    text,
                    rest
                ));
            }
            ctx.count("positions read back");
        }
    }
    Ok(())
}

pub fn c12(thorough: bool) -> Vec<Harness> {
    let mut v = Vec::new();
    {
        let atoms = s(&["a", "b", E_ACUTE, COMB, HAN, "\n", "\r\n"]);
        let len = if thorough { 6 } else { 5 };
        let mut needles: Vec<String> = Vec::new();
        for x in ["a", "b", COMB, HAN, "e"] {
            needles.push(x.into());
            for y in ["a", "b", COMB, HAN, "e"] {
                needles.push(format!("{}{}", x, y));
                needles.push(format!("{}{}a", x, y));
            }
        }
        v.push(Harness::new(
            "search-every-text",
            format!("every text of 0..={} atoms of {:?}; {} terms of 1 to 3 characters", len, atoms, needles.len()),
            move |ctx| {
                let n = ctx.choose(len + 1);
                let text: String = (0..n).map(|_| ctx.pick(&atoms).clone()).collect();
                let Some(b) = stored(&text, "", 3) else { return ctx.foreign() };
                ctx.state(&text);
                ctx.log(|| format!("text {:?}, {} terms", text, needles.len()));
                for needle in &needles {
                    search_check(ctx, &b, &text, needle)?;
                }
                Ok(())
            },
        ));
    }
    {
        // Terms taken out of the text itself, so that long and overlapping ones match.
        let atoms = s(&["a", "A", "\u{e9}", E_ACUTE, WOMAN, "\t", "\r", "\n"]);
        let len = if thorough { 6 } else { 5 };
        v.push(Harness::new(
            "search-own-parts",
            format!("every text of 1..={} atoms of {:?}, gap at each boundary; every line-break-free part of it as the term, bare and extended by one character", len, atoms),
            move |ctx| {
                let n = ctx.choose(len) + 1;
                let parts: Vec<String> = (0..n).map(|_| ctx.pick(&atoms).clone()).collect();
                let k = ctx.choose(n + 1);
                let text = parts.concat();
                let Some(b) = stored(&parts[..k].concat(), &parts[k..].concat(), 0) else {
                    return ctx.foreign();
                };
                ctx.state(&(&text, k));
                ctx.log(|| format!("text {:?} split at {}", text, k));
                for i in 0..n {
                    for j in i + 1..=n {
                        let needle = parts[i..j].concat();
                        if needle.contains(['\r', '\n']) {
                            continue;
                        }
                        search_check(ctx, &b, &text, &needle)?;
                        if j == n || j == i + 1 {
                            search_check(ctx, &b, &text, &format!("{}a", needle))?;
                        }
                    }
                }
                Ok(())
            },
        ));
    }
    {
        let depth = if thorough { 5 } else { 4 };
        v.push(Harness::new(
            "search-after-edits",
            format!("Buffer \"abab\\n\u{e9}ab\"; {} steps of insert, delete, replace, undo, redo at the start, middle, end; five terms after each", depth),
            move |ctx| {
                let mut b = Buffer::new();
                b.insert("abab\n\u{e9}ab");
                for _ in 0..depth {
                    let places = [p(0, 0), p(0, 2), p(1, 1), p(1, 0)];
                    match ctx.choose(15) {
                        c @ 0..=3 => {
                            b.cursor.move_to(places[c]);
                            b.insert("ab");
                        }
                        c @ 4..=7 => {
                            b.cursor.move_to(places[c - 4]);
                            b.insert("\u{6F22}\n");
                        }
                        c @ 8..=11 => {
                            b.cursor.move_to(places[c - 8]);
                            b.delete();
                        }
                        12 => b.undo(),
                        13 => b.redo(),
                        _ => b.replace("\u{1F469}aba\r\nbabab"),
                    }
                    ctx.transition();
                    if ctx.fresh() || ctx.tracing() {
                        let text = b.data();
                        ctx.state(&text);
                        ctx.log(|| format!("text {:?}", text));
                        for needle in ["a", "ab", "ba", "abab", "\u{6F22}"] {
                            search_check(ctx, &b, &text, needle)?;
                        }
                    }
                }
                Ok(())
            },
        ));
    }
    v.push(crate::big::one_occurrence(thorough));
    v.push(deep::universe(Focus::Nothing, Post::Search, false, thorough));
    v.push(crate::strings::strings(Focus::Nothing, Post::Search, thorough));
    v.push(deep::sized(Focus::Nothing, Post::Search, thorough));
    v.push(deep::anywhere(Focus::Nothing, Post::Search, thorough));
    v.push(deep::every_scalar(
        "every-scalar",
        "as the term and as a part of the term, in four texts around it; other terms in the same texts",
        |ctx, c| {
            for t in deep::scalar_texts(c) {
                let Some(b) = deep::holding(&t) else { return ctx.foreign() };
                for needle in [c.to_string(), "a".into(), "e".into(), "\u{301}".into(), format!("a{}", c), format!("{}b", c)] {
                    if needle.contains(['\r', '\n']) {
                        continue;
                    }
                    search_check(ctx, &b, &t, &needle)?;
                }
            }
            Ok(())
        },
    ));
    v.push(crate::life::long_terms(thorough));
    v
}

// --- C13 --------------------------------------------------------------------------------

pub fn lines_check(ctx: &mut Ctx, b: &Buffer, text: &str) -> HResult {
    let want = model::lines(text);
    let n = want.len();
    if b.line_count() != n {
        return Err(format!("line_count of {:?} is {}, expected {}", text, b.line_count(), n));
    }
    let mut it = LineIterator::new(text);
    for (i, w) in want.iter().enumerate() {
        let got = it.next();
        if got != Some((i, *w)) {
            return Err(format!("line {} of {:?} is iterated as {:?}, expected {:?}", i, text, got, w));
        }
    }
    for _ in 0..3 {
        if let Some(x) = it.next() {
            return Err(format!("line iteration over {:?} yields {:?} after the last line", text, x));
        }
    }
    let mut c = b.cursor.clone();
    for line in 0..n + 2 {
        if c.move_to(p(line, 0)) != (line < n) {
            return Err(format!(
                "the start of line {} of {:?} is {}addressable, there are {} lines",
                line,
                text,
                if line < n { "not " } else { "" },
                n
            ));
        }
    }
    // Addressable in reads, too, and each line reads as what iteration yields.
    let l = Layout::of(text);
    for (i, w) in want.iter().enumerate() {
        let end = if i + 1 < n { p(i + 1, 0) } else { l.end() };
        let got = b.read(&Range::new(p(i, 0), end));
        if got.as_deref() != Some(*w) {
            return Err(format!("line {} of {:?} reads as {:?}, expected {:?}", i, text, got, w));
        }
    }
    c.move_to(p(0, 0));
    c.move_to_last_line();
    if c.line != n - 1 {
        return Err(format!("the last line of {:?} for the cursor is {}, expected {}", text, c.line, n - 1));
    }
    c.move_to(p(0, 0));
    for i in 0..n + 1 {
        c.move_down();
        if c.line != (i + 1).min(n - 1) {
            return Err(format!("{} moves down in {:?} lead to line {}", i + 1, text, c.line));
        }
    }
    ctx.transitions(4 + 3 * n as u64);
    ctx.count("texts compared");
    Ok(())
}

pub fn newline_tokens(ctx: &mut Ctx, text: &str, set: &SyntaxSet, def: &SyntaxReference) -> HResult {
    let tokens = TokenSet::new(text.to_string(), def, set);
    let Ok(it) = tokens.iter() else { return ctx.foreign() };
    let n = it.filter(|t| matches!(t, Token::Newline)).count();
    ctx.transition();
    if n != model::newlines(text) {
        return Err(format!("{:?} has {} newline tokens and {} line feeds", text, n, model::newlines(text)));
    }
    Ok(())
}

pub fn c13(thorough: bool) -> Vec<Harness> {
    let mut v = Vec::new();
    {
        let atoms = s(&["a", "\n", "\r", HAN, "\u{2028}", "\u{85}", "\u{b}", COMB]);
        let len = if thorough { 7 } else { 6 };
        v.push(Harness::new(
            "lines-every-text",
            format!("every text of 0..={} atoms of {:?}: line count, line iteration, position and cursor lines, reads by line, newline tokens (plain text)", len, atoms),
            move |ctx| {
                let n = ctx.choose(len + 1);
                let text: String = (0..n).map(|_| ctx.pick(&atoms).clone()).collect();
                let Some(b) = stored(&text, "", 3) else { return ctx.foreign() };
                ctx.state(&text);
                ctx.log(|| format!("text {:?}", text));
                lines_check(ctx, &b, &text)?;
                let set = crate::syntaxes();
                newline_tokens(ctx, &text, set, set.find_syntax_plain_text())
            },
        ));
    }
    {
        let atoms = s(&["a", "\n", "\r\n", "\r", E_ACUTE]);
        let len = if thorough { 6 } else { 5 };
        v.push(Harness::new(
            "lines-every-layout",
            format!("every text of 0..={} atoms of {:?}, gap at each boundary and with remains of deleted lines in it", len, atoms),
            move |ctx| {
                let n = ctx.choose(len + 1);
                let parts: Vec<String> = (0..n).map(|_| ctx.pick(&atoms).clone()).collect();
                let k = ctx.choose(n + 1);
                let mode = ctx.choose(3);
                let text = parts.concat();
                let Some(b) = stored(&parts[..k].concat(), &parts[k..].concat(), mode) else {
                    return ctx.foreign();
                };
                ctx.state(&(&text, k, mode));
                ctx.log(|| format!("text {:?} split at {}, mode {}", text, k, mode));
                lines_check(ctx, &b, &text)
            },
        ));
    }
    {
        let frags = s(&["\n", "\r\n", "a", "/*", "*/", "\"", "<"]);
        let names: Vec<&'static str> = vec!["rs", "c", "py", "html", "md", "rb", "json", "yaml", "sh", "css", "js", "xml"];
        let len = if thorough { 6 } else { 5 };
        v.push(Harness::new(
            "newline-tokens",
            format!("every text of 0..={} fragments of {:?} under each of {:?}", len, frags, names),
            move |ctx| {
                let set = crate::syntaxes();
                let def = set.find_syntax_by_extension(ctx.pick(&names)).unwrap();
                let n = ctx.choose(len + 1);
                let text: String = (0..n).map(|_| ctx.pick(&frags).clone()).collect();
                ctx.state(&(&def.name, &text));
                ctx.log(|| format!("{} {:?}", def.name, text));
                newline_tokens(ctx, &text, set, def)
            },
        ));
    }
    v.push(deep::universe(Focus::Nothing, Post::Lines, false, thorough));
    v.push(crate::strings::strings(Focus::Nothing, Post::Lines, thorough));
    v.push(deep::sized(Focus::Nothing, Post::Lines, thorough));
    v.push(deep::anywhere(Focus::Nothing, Post::Lines, thorough));
    v.push(deep::every_scalar(
        "every-scalar",
        "four texts around it: line count, iteration, positions, cursor, reads, newline tokens",
        |ctx, c| {
            let set = crate::syntaxes();
            for t in deep::scalar_texts(c) {
                let Some(b) = deep::holding(&t) else { return ctx.foreign() };
                lines_check(ctx, &b, &t)?;
                newline_tokens(ctx, &t, set, set.find_syntax_plain_text())?;
            }
            Ok(())
        },
    ));
    v.push(crate::life::lines_consumed(thorough));
    v
}

// --- C14 --------------------------------------------------------------------------------

/// Scope stacks in force at every byte of the text, by syntect itself, without scribe.
/// None if the syntax engine fails.
fn scopes_by_byte(text: &str, def: &SyntaxReference, set: &SyntaxSet) -> Option<(Vec<usize>, Vec<ScopeStack>)> {
    let mut parser = ParseState::new(def);
    let mut stack = ScopeStack::new();
    // Distinct stacks, and for each byte the index of its stack.
    let mut stacks: Vec<ScopeStack> = Vec::new();
    let mut of_byte = Vec::with_capacity(text.len());
    for line in model::lines(text) {
        // Mirrors line iteration: the final empty line is parsed as well.
        let ops = parser.parse_line(line, set).ok()?;
        let mut i = 0;
        let mut dirty = true;
        for b in 0..line.len() {
            while i < ops.len() && ops[i].0 <= b {
                stack.apply(&ops[i].1).ok()?;
                i += 1;
                dirty = true;
            }
            if dirty {
                stacks.push(stack.clone());
                dirty = false;
            }
            of_byte.push(stacks.len() - 1);
        }
        while i < ops.len() {
            stack.apply(&ops[i].1).ok()?;
            i += 1;
        }
    }
    Some((of_byte, stacks))
}

pub fn tokens_check(ctx: &mut Ctx, text: &str, def: &SyntaxReference, set: &SyntaxSet) -> HResult {
    token_set_check(ctx, &TokenSet::new(text.to_string(), def, set), text, def, set)
}

/// A text for messages.
fn brief(text: &str) -> String {
    if text.len() <= 300 {
        format!("{:?}", text)
    } else {
        crate::io::short(text)
    }
}

pub fn token_set_check(ctx: &mut Ctx, tokens: &TokenSet, text: &str, def: &SyntaxReference, set: &SyntaxSet) -> HResult {
    let Some((of_byte, stacks)) = scopes_by_byte(text, def, set) else {
        ctx.count("texts the syntax engine rejects");
        return Ok(());
    };
    let l = Layout::of(text);
    let mut it = match tokens.iter() {
        Ok(it) => it,
        Err(e) => return Err(format!("tokenizing {} as {} fails: {}", brief(text), def.name, e)),
    };
    let mut at = 0usize;
    let mut n = 0u64;
    while let Some(t) = it.next() {
        n += 1;
        if n > text.len() as u64 * 3 + 10 {
            return Err(format!("tokenizing {} as {} does not end", brief(text), def.name));
        }
        match t {
            Token::Newline => {
                if text.as_bytes().get(at) != Some(&b'\n') {
                    return Err(format!(
                        "{} as {}: newline token at byte {}, where the text continues with {}",
                        brief(text), def.name, at, brief(&text[at..])
                    ));
                }
                at += 1;
            }
            Token::Lexeme(x) => {
                if !text[at..].starts_with(x.value) {
                    return Err(format!(
                        "{} as {}: token {} where the text continues with {}",
                        brief(text), def.name, brief(x.value), brief(&text[at..])
                    ));
                }
                if x.value.contains('\n') {
                    return Err(format!("{} as {}: token {} contains a line feed", brief(text), def.name, brief(x.value)));
                }
                if !x.value.is_empty() {
                    let want = l.containing(at);
                    if x.position != want {
                        return Err(format!(
                            "{} as {}: token {} is reported at {}, expected {}",
                            brief(text),
                            def.name,
                            brief(x.value),
                            show(&x.position),
                            show(&want)
                        ));
                    }
                    for b in at..at + x.value.len() {
                        let want = &stacks[of_byte[b]];
                        if want.as_slice() != x.scope.as_slice() {
                            return Err(format!(
                                "{} as {}: token {} has scopes {}, the syntax assigns {} to its byte {}",
                                brief(text),
                                def.name,
                                brief(x.value),
                                x.scope,
                                want,
                                b - at
                            ));
                        }
                    }
                    ctx.count("lexemes");
                }
                at += x.value.len();
            }
        }
    }
    ctx.transitions(n + 1);
    if let Some(e) = &it.error {
        return Err(format!("tokenizing {} as {} reports {}", brief(text), def.name, e));
    }
    if at != text.len() {
        return Err(format!(
            "{} as {}: tokens end before {}",
            brief(text),
            def.name,
            brief(&text[at..])
        ));
    }
    Ok(())
}

pub fn c14(thorough: bool) -> Vec<Harness> {
    let mut v = Vec::new();
    {
        let frags = s(&[
            "a", " ", "\n", "\r\n", "\"", "'", "/*", "*/", "//", "#", "<", ">", "{", "}", "\u{e9}", HAN, COMB,
            "1", "=", "fn ",
        ]);
        let len = if thorough { 3 } else { 2 };
        v.push(Harness::new(
            "tokens-all-syntaxes",
            format!("each bundled syntax definition; every text of 0..={} fragments of {:?}", len, frags),
            move |ctx| {
                let set = crate::syntaxes();
                let i = ctx.choose(set.syntaxes().len());
                let def = &set.syntaxes()[i];
                let n = ctx.choose(len + 1);
                let text: String = (0..n).map(|_| ctx.pick(&frags).clone()).collect();
                ctx.state(&(i, &text));
                ctx.log(|| format!("{} {:?}", def.name, text));
                tokens_check(ctx, &text, def, set)
            },
        ));
    }
    {
        let frags = s(&["a", "\n", "\r\n", "\"", "/*", "*/", "//", COMB, HAN, "<", "fn x() {"]);
        let exts: Vec<&'static str> = vec!["rs", "c", "py", "html", "md", "js"];
        let len = if thorough { 5 } else { 4 };
        v.push(Harness::new(
            "tokens-longer",
            format!("each of {:?}; every text of {} fragments of {:?}", exts, len, frags),
            move |ctx| {
                let set = crate::syntaxes();
                let def = set.find_syntax_by_extension(ctx.pick(&exts)).unwrap();
                let text: String = (0..len).map(|_| ctx.pick(&frags).clone()).collect();
                ctx.state(&(&def.name, &text));
                ctx.log(|| format!("{} {:?}", def.name, text));
                tokens_check(ctx, &text, def, set)
            },
        ));
    }
    {
        // Clusters cut by token boundaries, under a syntax that makes every kind of
        // character a token of its own.
        let atoms = s(&["a", "b", "1", COMB, ZWJ, WOMAN, GIRL, RI_U, RI_S, NA, II, PREPEND, "\n", "\r", "\r\n", "\"", "#", HAN]);
        let len = if thorough { 4 } else { 3 };
        v.push(Harness::new(
            "tokens-cutting-clusters",
            format!("four purpose-made syntaxes (a token per letter, per mark, strings and comments spanning lines); every text of 0..={} atoms of {:?}, and of the form x <{} atoms> y", len, atoms, len),
            move |ctx| {
                let set = cutting();
                let def = set.find_syntax_by_extension(ctx.pick(&["cut1", "cut2", "cut3", "cut4"])).unwrap();
                let framed = ctx.flag();
                let n = ctx.choose(len + 1);
                let mut text: String = (0..n).map(|_| ctx.pick(&atoms).clone()).collect();
                if framed {
                    text = format!("x {} y\nz", text);
                }
                ctx.state(&(&def.name, &text));
                ctx.log(|| format!("{} {:?}", def.name, text));
                tokens_check(ctx, &text, def, set)
            },
        ));
    }
    {
        // Whole small programs, each truncated at every character.
        let programs: Vec<(&'static str, &'static str)> = vec![
            ("rs", "//! doc\nfn main() -> Result<(), \u{e9}> {\n    let s = \"a\\n\u{6F22}\"; /* c\n */ b'x';\n}\n"),
            ("c", "#include <a.h>\n#define X(a) \\\n  (a)\nint main(void) { return 'c' /* e\u{301} */; }\r\n"),
            ("html", "<!DOCTYPE html>\n<p class=\"x\">\u{e9}&amp;</p>\n<script>let a = `b${c}`;</script>\n<style>p{a:b}</style>"),
            ("md", "# H\n\n* a *b* `c`\n\n```rust\nfn x() {}\n```\n\n    code\n[a](b)\n"),
            ("py", "def f(a):\n    '''doc\n    \u{6F22}'''\n    return r'\\d' + f\"{a!r:>10}\"  # c\n"),
            ("rb", "x = <<-E\n a #{b} \u{301}\nE\nputs %w(a b)\n=begin\nc\n=end\n"),
            ("php", "<p><?php $a = <<<X\n {$b}\nX;\n// c ?>\n</p>"),
            ("yaml", "a: &x\n  - 'b'\n  - |\n    t\n    u\nc: *x\n"),
            ("sh", "cat <<EOF\n$a ${b:-c} `d`\nEOF\nif [ -n \"$x\" ]; then\n:\nfi # \u{1F469}\u{200d}\u{1F467}\n"),
            ("java", "/** @a {@link b}\n */\nclass A { char c = 'x'; @B int d; }\n"),
            ("tex", "\\begin{a} $x_1$ % c\n\\end{a}\n"),
            ("json", "{\"a\": [1, null, \"\\u00e9\u{e9}\"],\n \"b\": }"),
        ];
        let len = if thorough { 400 } else { 400 };
        v.push(Harness::new(
            "tokens-programs",
            format!("{} small programs, every prefix and every suffix (by character, up to {})", programs.len(), len),
            move |ctx| {
                let set = crate::syntaxes();
                let (ext, t) = *ctx.pick(&programs);
                let def = set.find_syntax_by_extension(ext).unwrap();
                let cuts: Vec<usize> = t.char_indices().map(|c| c.0).chain([t.len()]).collect();
                let i = ctx.choose(cuts.len());
                let text = if ctx.flag() { &t[cuts[i]..] } else { &t[..cuts[i]] };
                ctx.state(&(ext, text));
                ctx.log(|| format!("{} {:?}", def.name, text));
                tokens_check(ctx, text, def, set)
            },
        ));
    }
    {
        let exts: Vec<&'static str> = vec!["txt", "rs", "js", "html", "py", "cut3"];
        let units: Vec<&'static str> = vec!["a", "\u{6F22} \"", "x = 1; ", "/* e\u{301} */<b>", "0"];
        let (wide, tall) = if thorough { (16, 14) } else { (14, 12) };
        v.push(Harness::new(
            "tokens-sizes",
            format!(
                "each of {:?}; a line of 0, and 2^k-1, 2^k and 2^k+1 bytes, k up to {}, of {} kinds, before, between or after two short lines; as many short lines, k up to {}, of 4 kinds; in plain text and one other, lines of 140001 bytes and texts of 65537 and 140001 lines",
                exts,
                wide,
                units.len(),
                tall
            ),
            move |ctx| {
                let sizes = |k, ext: &str, more: &[usize]| {
                    let mut v = crate::io::ladder(k);
                    if ext == "txt" || ext == "rs" {
                        v.extend(more);
                    }
                    v
                };
                let ext = *ctx.pick(&exts);
                let set = if ext == "cut3" { cutting() } else { crate::syntaxes() };
                let def = set.find_syntax_by_extension(ext).unwrap();
                let text = if ctx.flag() {
                    let n = *ctx.pick(&sizes(wide, ext, &[140_001]));
                    let unit = *ctx.pick(&units);
                    let mut long = unit.repeat(n / unit.len());
                    while long.len() < n {
                        long.push('z');
                    }
                    match ctx.choose(4) {
                        0 => long,
                        1 => format!("{}\nb \"c\"", long),
                        2 => format!("fn a() {{\r\n{}\r\n}} // d", long),
                        _ => format!("\"\n\"{}", long),
                    }
                } else {
                    let n = *ctx.pick(&sizes(tall, ext, &[65_537, 140_001]));
                    let line = *ctx.pick(&["\n", "a\n", "/* \u{e9}\r\n", "\"b\" c\n"]);
                    format!("{}end", line.repeat(n))
                };
                ctx.state(&(ext, &text));
                tokens_check(ctx, &text, def, set)
            },
        ));
    }
    v.push(crate::strings::pairs("two-telling-texts", "side by side, on two lines, and the first before a line of two short ones; in 9 syntaxes", |ctx, a, b| {
        let exts = ["txt", "rs", "html", "md", "py", "cut1", "cut2", "cut3", "cut4"];
        let ext = *ctx.pick(&exts);
        let set = if ext.starts_with("cut") { cutting() } else { crate::syntaxes() };
        let def = set.find_syntax_by_extension(ext).unwrap();
        tokens_check(ctx, &format!("{}{}", a, b), def, set)?;
        tokens_check(ctx, &format!("x {}\n{} y", a, b), def, set)
    }));
    {
        let kinds: Vec<(&'static str, &'static str, &'static str)> = vec![
            ("json", "[", "]"),
            ("json", "{\"a\": ", "}"),
            ("rs", "(", ")"),
            ("rs", "{ let x = ", "}"),
            ("rs", "/* ", "*/"),
            ("js", "`${", "}`"),
            ("js", "function a() {", "}"),
            ("html", "<b>", "</b>"),
            ("md", "> ", "\n"),
            ("c", "{ (", ") }"),
            ("py", "f(", ")"),
            ("rb", "[\"#{", "}\"]"),
            ("lisp", "(a ", ")"),
            ("cut3", "\"#\n", "\""),
        ];
        let most = if thorough { 700 } else { 300 };
        let mut sizes = crate::io::ladder(8);
        sizes.extend([3, 5, 10, 20, 30, 50, 100, 200, most]);
        sizes.retain(|n| *n <= most);
        sizes.sort();
        sizes.dedup();
        v.push(Harness::new(
            "tokens-nested",
            format!("{} nested constructs of 10 syntaxes, {} depths up to {}, in one line or each level in a line; closed fully, half, or not at all", kinds.len(), sizes.len(), most),
            move |ctx| {
                let (ext, open, close) = *ctx.pick(&kinds);
                let n = *ctx.pick(&sizes);
                let set = if ext == "cut3" { cutting() } else { crate::syntaxes() };
                let Some(def) = set.find_syntax_by_extension(ext) else { return Ok(()) };
                let sep = *ctx.pick(&["", "\n", "\r\n"]);
                let closed = [n, n / 2, 0][ctx.choose(3)];
                let text = format!("{}x{}{}y", format!("{}{}", open, sep).repeat(n), sep, format!("{}{}", close, sep).repeat(closed));
                ctx.state(&(ext, &text));
                ctx.log(|| format!("{} {}", def.name, brief(&text)));
                tokens_check(ctx, &text, def, set)
            },
        ));
    }
    v.push(crate::ws::tokens_in_workspaces(true, thorough));
    v.push(crate::ws::tokens_in_workspaces(false, thorough));
    v.push(crate::life::tokens_in_step(thorough));
    v.push(deep::every_scalar(
        "every-scalar",
        "four texts around it as plain text, and with each character a token",
        |ctx, c| {
            let set = crate::syntaxes();
            let cut = cutting();
            for t in deep::scalar_texts(c) {
                tokens_check(ctx, &t, set.find_syntax_plain_text(), set)?;
                tokens_check(ctx, &t, cut.find_syntax_by_extension("cut2").unwrap(), cut)?;
            }
            Ok(())
        },
    ));
    v.push(tokens_consumed(thorough, false));
    v
}

fn build(defs: &[String]) -> SyntaxSet {
    let mut b = SyntaxSetBuilder::new();
    b.add_plain_text_syntax();
    for d in defs {
        b.add(SyntaxDefinition::load_from_str(d, true, None).expect("purpose-made syntax"));
    }
    b.build()
}

pub fn cutting() -> &'static SyntaxSet {
    static SET: OnceLock<SyntaxSet> = OnceLock::new();
    SET.get_or_init(|| {
        build(&[
            // Letters, digits and marks one by one.
            "%YAML 1.2\n---\nname: Cut1\nfile_extensions: [cut1]\nscope: source.cut1\ncontexts:\n  main:\n    - match: '[a-z]'\n      scope: letter\n    - match: '[0-9]'\n      scope: digit\n    - match: '\\x{301}'\n      scope: mark\n    - match: '\\x{200d}'\n      scope: joiner\n".into(),
            // Everything but letters.
            "%YAML 1.2\n---\nname: Cut2\nfile_extensions: [cut2]\nscope: source.cut2\ncontexts:\n  main:\n    - match: '[^a-z\\n]'\n      scope: other\n".into(),
            // Strings and comments across lines.
            "%YAML 1.2\n---\nname: Cut3\nfile_extensions: [cut3]\nscope: source.cut3\ncontexts:\n  main:\n    - match: '\"'\n      scope: open\n      push: string\n    - match: '#'\n      scope: hash\n      push: comment\n  string:\n    - meta_scope: string\n    - match: '\"'\n      scope: close\n      pop: true\n    - match: '#'\n      push: comment\n  comment:\n    - meta_scope: comment\n    - match: '\\n'\n      pop: true\n".into(),
            // Contexts that end right before or on the line feed, and zero-width matches.
            "%YAML 1.2\n---\nname: Cut4\nfile_extensions: [cut4]\nscope: source.cut4\ncontexts:\n  main:\n    - match: 'a'\n      scope: a\n      push: line\n    - match: '(?=b)'\n      push: word\n    - match: '$'\n      scope: eol\n    - match: '1'\n      push: [line, word]\n  line:\n    - meta_content_scope: rest\n    - match: '\\n'\n      scope: lf\n      pop: true\n  word:\n    - meta_scope: word\n    - clear_scopes: 1\n    - match: '[^b]|\\n'\n      pop: true\n".into(),
        ])
    })
}

// --- C15 --------------------------------------------------------------------------------

/// Syntaxes whose engine state breaks at run time: they push a context of a syntax that is
/// not in the set.
fn failing() -> &'static SyntaxSet {
    static SET: OnceLock<SyntaxSet> = OnceLock::new();
    SET.get_or_init(|| {
        build(&[
            "%YAML 1.2\n---\nname: Fail1\nfile_extensions: [fail1]\nscope: source.fail1\ncontexts:\n  main:\n    - match: 'FAIL'\n      push: scope:source.nowhere\n    - match: '[a-z]+'\n      scope: word\n".into(),
            "%YAML 1.2\n---\nname: Fail2\nfile_extensions: [fail2]\nscope: source.fail2\ncontexts:\n  main:\n    - match: '\"'\n      push: string\n    - match: '[a-z]'\n      scope: letter\n  string:\n    - meta_scope: string\n    - match: '\"'\n      pop: true\n    - match: 'FAIL'\n      set: scope:source.nowhere\n".into(),
        ])
    })
}

#[derive(Debug, PartialEq, Clone)]
enum Tok {
    Newline,
    Lexeme(String, Position),
}

pub fn c15(thorough: bool) -> Vec<Harness> {
    let mut v = Vec::new();
    {
        let lines = s(&["", "ok", "FAIL", "a FAIL b", "x \"y", "\"", E_ACUTE]);
        let len = if thorough { 6 } else { 5 };
        v.push(Harness::new(
            "errors-everywhere",
            format!("two syntaxes that make the engine fail at run time; every text of 1..={} lines of {:?}, with and without a final newline, LF and CRLF; 40 polls after the end", len, lines),
            move |ctx| {
                let set = failing();
                let def = set.find_syntax_by_extension(ctx.pick(&["fail1", "fail2"])).unwrap();
                let n = ctx.choose(len) + 1;
                let picked: Vec<String> = (0..n).map(|_| ctx.pick(&lines).clone()).collect();
                let sep = *ctx.pick(&["\n", "\r\n"]);
                let mut text = picked.join(sep);
                if ctx.flag() {
                    text.push_str(sep);
                }
                ctx.state(&(&def.name, &text));
                errors_check(ctx, &text, def, set)
            },
        ));
    }
    v.push(Harness::new(
        "resumed-very-often",
        "iterations that ended with an error after 0 to 2 lines, or without one, resumed 70000 times".to_string(),
        move |ctx| {
            let set = failing();
            let def = set.find_syntax_by_extension(ctx.pick(&["fail1", "fail2"])).unwrap();
            let head = *ctx.pick(&["ok\n", "ok\nok\n", ""]);
            let text = format!("{}{}", head, ctx.pick(&["FAIL", "FAIL\nok\nok", "ok", ""]));
            ctx.state(&(&def.name, &text));
            errors_check_polling(ctx, &text, def, set, 70_000)
        },
    ));
    {
        let k = if thorough { 15 } else { 12 };
        v.push(Harness::new(
            "errors-far-down",
            format!("the failing line after 0, and 2^k-1, 2^k and 2^k+1, k up to {}, and 65535 to 65537 and 140001 lines, of 3 kinds, or in a line after as many bytes; followed by nothing, a line, or as many lines again", k),
            move |ctx| {
                let set = failing();
                let def = set.find_syntax_by_extension(ctx.pick(&["fail1", "fail2"])).unwrap();
                let mut sizes = crate::io::ladder(k);
                sizes.extend([65_535, 65_536, 65_537, 140_001]);
                let n = *ctx.pick(&sizes);
                let head = if ctx.flag() { format!("ok\n{}", "a".repeat(n)) } else { ctx.pick(&["\n", "ok\n", "\u{e9} x\r\n"]).repeat(n) };
                let tail = match ctx.choose(3) {
                    0 => String::new(),
                    1 => "\nafter".to_string(),
                    _ => "\nafter".repeat(n.min(5000)),
                };
                let fails = ctx.flag();
                ctx.state(&(n, &head, tail.len(), fails));
                errors_check(ctx, &format!("{}{}{}", head, if fails { "FAIL" } else { "fine" }, tail), def, set).map_err(|e| e.chars().take(600).collect())
            },
        ));
    }
    {
        let frags = s(&["a", "\n", "\"", "*/", "/*", "<", "\\", "}"]);
        let len = if thorough { 5 } else { 3 };
        v.push(Harness::new(
            "no-error-on-bundled",
            format!("each bundled syntax, every text of 0..={} fragments of {:?}: no error unless the engine itself fails, and the iteration stays ended", len, frags),
            move |ctx| {
                let set = crate::syntaxes();
                let i = ctx.choose(set.syntaxes().len());
                let def = &set.syntaxes()[i];
                let n = ctx.choose(len + 1);
                let text: String = (0..n).map(|_| ctx.pick(&frags).clone()).collect();
                ctx.state(&(i, &text));
                errors_check(ctx, &text, def, set)
            },
        ));
    }
    v.push(tokens_consumed(thorough, true));
    v
}

fn errors_check(ctx: &mut Ctx, text: &str, def: &SyntaxReference, set: &SyntaxSet) -> HResult {
    errors_check_polling(ctx, text, def, set, 40)
}

fn errors_check_polling(ctx: &mut Ctx, text: &str, def: &SyntaxReference, set: &SyntaxSet, polls: u64) -> HResult {
    // The first line the engine fails on, found without scribe.
    let mut parser = ParseState::new(def);
    let lines = model::lines(text);
    let mut stack = ScopeStack::new();
    let mut bad = None;
    for (i, line) in lines.iter().enumerate() {
        match parser.parse_line(line, set) {
            Err(_) => {
                bad = Some(i);
                break;
            }
            Ok(ops) => {
                if ops.iter().any(|o| stack.apply(&o.1).is_err()) {
                    // Failure while scopes are applied: which tokens of that line precede it
                    // is not specified; not reachable with the syntaxes used here.
                    return Ok(());
                }
            }
        }
    }
    ctx.log(|| format!("{} {:?}: the engine fails on line {:?}", def.name, text, bad));
    let tokens = TokenSet::new(text.to_string(), def, set);
    let started = tokens.iter();
    ctx.transition();
    if bad == Some(0) {
        ctx.count("failures on the first line");
        return match started {
            Err(_) => Ok(()),
            Ok(_) => Err(format!("{:?} as {}: the engine fails on the first line, but iteration starts without an error", text, def.name)),
        };
    }
    let mut it = match started {
        Ok(it) => it,
        Err(e) => return Err(format!("{:?} as {}: iteration cannot be started ({}), though the first line is fine", text, def.name, e)),
    };
    let mut got = String::new();
    let mut n = 0;
    let mut seen: Vec<Tok> = Vec::new();
    loop {
        let t = it.next();
        n += 1;
        ctx.transition();
        if n > text.len() * 3 + 10 {
            return Err(format!("{:?} as {}: iteration does not end", text, def.name));
        }
        match t {
            None => break,
            Some(Token::Newline) => {
                got.push('\n');
                seen.push(Tok::Newline);
            }
            Some(Token::Lexeme(x)) => {
                got.push_str(x.value);
                seen.push(Tok::Lexeme(x.value.to_string(), x.position));
            }
        }
        if it.error.is_some() {
            return Err(format!("{:?} as {}: an error is reported while tokens are still coming", text, def.name));
        }
    }
    match bad {
        None => {
            if let Some(e) = &it.error {
                return Err(format!("{:?} as {}: reports {} though the engine does not fail", text, def.name, e));
            }
            if got != text {
                // Owned by another property.
                return ctx.foreign();
            }
            ctx.count("texts without failure");
        }
        Some(k) => {
            let before: String = lines[..k].concat();
            // The line break directly before the failing line may or may not be delivered.
            if got != before && format!("{}\n", got) != before {
                return Err(format!(
                    "{:?} as {}: the engine fails on line {}, but the tokens delivered are {:?}",
                    text, def.name, k, seen
                ));
            }
            if it.error.is_none() {
                return Err(format!("{:?} as {}: iteration ended early without reporting an error", text, def.name));
            }
            ctx.count("failures on a later line");
        }
    }
    let failed = it.error.is_some();
    for i in 0..polls {
        if let Some(t) = it.next() {
            return Err(format!(
                "{:?} as {}: iteration ended{}, but resuming it {} times delivers {:?}",
                text,
                def.name,
                if failed { " with an error" } else { "" },
                i + 1,
                t
            ));
        }
        if it.error.is_some() != failed {
            return Err(format!("{:?} as {}: the reported error changed after the end", text, def.name));
        }
    }
    ctx.transitions(polls);
    // Having taken the error changes nothing about that.
    if it.error.take().is_some() {
        for i in 0..3 {
            if let Some(t) = it.next() {
                return Err(format!("{:?} as {}: iteration ended with an error, but resuming it {} times after the error has been taken delivers {:?}", text, def.name, i + 1, t));
            }
        }
    }
    // Nor does having skipped over everything.
    for way in 0..if text.len() < 3000 { 4 } else { 1 } {
        let Ok(mut it) = tokens.iter() else { return Err(format!("{:?} as {}: iteration cannot be started again", text, def.name)) };
        match way {
            0 => drop(it.nth(usize::MAX >> 1)),
            1 => it.by_ref().for_each(drop),
            2 => drop(it.by_ref().last()),
            _ => drop(it.by_ref().count()),
        }
        if it.error.is_some() != failed || it.next().is_some() || it.error.is_some() != failed {
            return Err(format!("{:?} as {}: skipping all tokens ({}) leaves an iteration that has {} error", text, def.name, ["nth", "for_each", "last", "count"][way], if failed { "no" } else { "an" }));
        }
    }
    Ok(())
}

/// Tokens are the same however they are asked for.
fn tokens_consumed(thorough: bool, failures: bool) -> Harness {
    let len = if thorough { 5 } else { 4 };
    let (atoms, exts) = if failures {
        (s(&["a", "\n", "FAIL", "\""]), vec!["fail1", "fail2"])
    } else {
        (s(&["a", "\n", "1", "\"", E_ACUTE]), vec!["cut1", "cut2", "cut3", "cut4", "txt", "rs"])
    };
    Harness::new(
        "consumed-otherwise",
        format!("the tokens of every text of 0..={} of {:?} in {:?}: counted, asked for the last, the n-th or those after n, every n-th, some and then the rest, folded, searched, peeked at, hinted at, several iterations of a set side by side; each for every n", len, atoms, exts),
        move |ctx| {
            let ext = *ctx.pick(&exts);
            let set = if failures { failing() } else if ext.starts_with("cut") { cutting() } else { crate::syntaxes() };
            let def = set.find_syntax_by_extension(ext).unwrap();
            let n = ctx.choose(len + 1);
            let text: String = (0..n).map(|_| ctx.pick(&atoms).clone()).collect();
            let tokens = TokenSet::new(text.clone(), def, set);
            if tokens.iter().is_err() {
                return if failures { Ok(()) } else { ctx.foreign() };
            }
            ctx.state(&(ext, &text));
            crate::life::consumed(ctx, &|| format!("tokens of {:?} as {}", text, def.name), &|| tokens.iter().unwrap())
        },
    )
}
