//! The reference model: plain strings, plain lists, no gap, no incremental state.

use scribe::buffer::Position;
use unicode_segmentation::UnicodeSegmentation;

/// Every place a position can denote, line by line, computed from the whole text at once.
/// A line ends with LF or CRLF; offsets count grapheme clusters.
#[derive(Clone, Debug, PartialEq)]
pub struct Layout {
    /// For each line the byte offsets of its positions 0..=n; the last one is the line's end.
    pub lines: Vec<Vec<usize>>,
    pub len: usize,
}

impl Layout {
    pub fn of(text: &str) -> Layout {
        let mut lines = vec![Vec::new()];
        for (i, g) in text.grapheme_indices(true) {
            lines.last_mut().unwrap().push(i);
            if g.ends_with('\n') {
                lines.push(Vec::new());
            }
        }
        lines.last_mut().unwrap().push(text.len());
        Layout { lines, len: text.len() }
    }
    pub fn offset(&self, p: &Position) -> Option<usize> {
        self.lines.get(p.line).and_then(|l| l.get(p.offset)).copied()
    }
    pub fn exists(&self, p: &Position) -> bool {
        self.offset(p).is_some()
    }
    pub fn eol(&self, line: usize) -> Option<usize> {
        self.lines.get(line).map(|l| l.len() - 1)
    }
    pub fn last_line(&self) -> usize {
        self.lines.len() - 1
    }
    pub fn end(&self) -> Position {
        let line = self.last_line();
        Position { line, offset: self.lines[line].len() - 1 }
    }
    pub fn all(&self) -> Vec<Position> {
        let mut v = Vec::new();
        for (line, l) in self.lines.iter().enumerate() {
            for offset in 0..l.len() {
                v.push(Position { line, offset });
            }
        }
        v
    }
    /// Positions that do not exist: past each line's end, past the last line.
    pub fn missing(&self) -> Vec<Position> {
        let mut v = Vec::new();
        for (line, l) in self.lines.iter().enumerate() {
            v.push(Position { line, offset: l.len() });
        }
        v.push(Position { line: self.lines.len(), offset: 0 });
        v.push(Position { line: self.lines.len(), offset: 2 });
        v.push(Position { line: self.lines.len() + 1, offset: 0 });
        v
    }
    /// Position of the cluster that contains byte `b`.
    pub fn containing(&self, b: usize) -> Position {
        let line = self.lines.partition_point(|l| l[0] <= b) - 1;
        let offset = self.lines[line].partition_point(|o| *o <= b) - 1;
        Position { line, offset }
    }
}

pub fn lt(a: &Position, b: &Position) -> bool {
    (a.line, a.offset) < (b.line, b.offset)
}

pub fn insert(text: &str, p: &Position, content: &str) -> String {
    match Layout::of(text).offset(p) {
        None => text.to_string(),
        Some(o) => format!("{}{}{}", &text[..o], content, &text[o..]),
    }
}

/// The byte span a deletion removes.
pub fn deletion(layout: &Layout, a: &Position, b: &Position) -> Option<(usize, usize)> {
    let (a, b) = if lt(b, a) { (b, a) } else { (a, b) };
    let start = layout.offset(a)?;
    let end = match layout.offset(b) {
        Some(o) => o,
        None => {
            let next = b.line.checked_add(1);
            match next.and_then(|n| layout.lines.get(n)) {
                Some(l) => l[0],
                None => layout.len,
            }
        }
    };
    Some((start, end))
}

pub fn delete(text: &str, a: &Position, b: &Position) -> String {
    match deletion(&Layout::of(text), a, b) {
        None => text.to_string(),
        Some((s, e)) => format!("{}{}", &text[..s], &text[e..]),
    }
}

/// What deleting at the cursor removes: the character there, or the line end.
pub fn delete_at(text: &str, p: &Position) -> String {
    let l = Layout::of(text);
    match l.offset(p) {
        None => text.to_string(),
        Some(s) => {
            let e = text[s..].graphemes(true).next().map(|g| g.len()).unwrap_or(0);
            format!("{}{}", &text[..s], &text[s + e..])
        }
    }
}

pub fn read(text: &str, a: &Position, b: &Position) -> Option<String> {
    let (a, b) = if lt(b, a) { (b, a) } else { (a, b) };
    let l = Layout::of(text);
    let s = l.offset(a)?;
    let e = l.offset(b)?;
    Some(text[s..e].to_string())
}

/// Positions of the characters at which an occurrence of `needle` begins, in order.
pub fn search(text: &str, needle: &str) -> Vec<Position> {
    let l = Layout::of(text);
    let mut v: Vec<Position> = Vec::new();
    for (b, _) in text.char_indices() {
        if text[b..].starts_with(needle) {
            let p = l.containing(b);
            if v.last() != Some(&p) {
                v.push(p);
            }
        }
    }
    v
}

pub fn newlines(text: &str) -> usize {
    text.bytes().filter(|b| *b == b'\n').count()
}

/// Lines including terminators, with a final empty one after a trailing newline.
pub fn lines(text: &str) -> Vec<&str> {
    let mut v = Vec::new();
    let mut start = 0;
    for (i, b) in text.bytes().enumerate() {
        if b == b'\n' {
            v.push(&text[start..=i]);
            start = i + 1;
        }
    }
    v.push(&text[start..]);
    v
}

// --- cursor -----------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Move {
    Up,
    Down,
    Left,
    Right,
    Home,
    End,
    FirstLine,
    LastLine,
}
pub const MOVES: [Move; 8] = [
    Move::Up,
    Move::Down,
    Move::Left,
    Move::Right,
    Move::Home,
    Move::End,
    Move::FirstLine,
    Move::LastLine,
];

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct MCursor {
    pub pos: Position,
    pub column: usize,
}

impl MCursor {
    pub fn at(pos: Position) -> MCursor {
        MCursor { pos, column: pos.offset }
    }
    pub fn move_to(&mut self, l: &Layout, p: Position) -> bool {
        if l.exists(&p) {
            *self = MCursor::at(p);
            true
        } else {
            false
        }
    }
    fn to_line_keeping_column(&mut self, l: &Layout, line: usize) {
        if let Some(eol) = l.eol(line) {
            self.pos = Position { line, offset: self.column.min(eol) };
        }
    }
    fn to_outer_line(&mut self, l: &Layout, line: usize) {
        let eol = l.eol(line).unwrap();
        self.move_to(l, Position { line, offset: self.column.min(eol) });
    }
    pub fn go(&mut self, l: &Layout, m: Move) {
        let Position { line, offset } = self.pos;
        match m {
            Move::Up => {
                if line > 0 {
                    self.to_line_keeping_column(l, line - 1)
                }
            }
            Move::Down => self.to_line_keeping_column(l, line + 1),
            Move::Left => {
                if offset > 0 {
                    self.move_to(l, Position { line, offset: offset - 1 });
                }
            }
            Move::Right => {
                self.move_to(l, Position { line, offset: offset + 1 });
            }
            Move::Home => {
                self.move_to(l, Position { line, offset: 0 });
            }
            Move::End => {
                if let Some(eol) = l.eol(line) {
                    self.move_to(l, Position { line, offset: eol });
                }
            }
            Move::FirstLine => self.to_outer_line(l, 0),
            Move::LastLine => self.to_outer_line(l, l.last_line()),
        }
    }
    /// Cursor after the content has been swapped for `l`.
    pub fn after_replace(&self, l: &Layout) -> MCursor {
        if l.exists(&self.pos) {
            MCursor::at(self.pos)
        } else {
            let p = Position { line: self.pos.line, offset: 0 };
            MCursor::at(if l.exists(&p) { p } else { Position { line: 0, offset: 0 } })
        }
    }
}

// --- buffer with history ----------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Part {
    pub before: String,
    pub after: String,
    pub replace: bool,
    pub v_before: usize,
    pub v_after: usize,
}

#[derive(Clone, Debug)]
pub struct MBuf {
    pub text: String,
    pub cursor: MCursor,
    pub undo: Vec<Vec<Part>>,
    pub redo: Vec<Vec<Part>>,
    pub group: Option<Vec<Part>>,
    /// Identifies the point in the history the buffer is at.
    pub version: usize,
    next_version: usize,
    /// The version that is in sync with the file.
    pub synced: Option<usize>,
    pub has_path: bool,
}

impl MBuf {
    pub fn new(text: &str, has_path: bool) -> MBuf {
        MBuf {
            text: text.to_string(),
            cursor: MCursor::at(Position { line: 0, offset: 0 }),
            undo: Vec::new(),
            redo: Vec::new(),
            group: None,
            version: 0,
            next_version: 1,
            synced: if has_path { Some(0) } else { None },
            has_path,
        }
    }
    pub fn modified(&self) -> bool {
        !self.has_path || self.synced != Some(self.version)
    }
    fn edit(&mut self, after: String, replace: bool) {
        let part = Part {
            before: std::mem::replace(&mut self.text, after.clone()),
            after,
            replace,
            v_before: self.version,
            v_after: self.next_version,
        };
        self.version = self.next_version;
        self.next_version += 1;
        self.redo.clear();
        match self.group.as_mut() {
            Some(g) => g.push(part),
            None => self.undo.push(vec![part]),
        }
        if replace {
            self.cursor = self.cursor.after_replace(&Layout::of(&self.text));
        }
    }
    pub fn insert(&mut self, content: &str) {
        let t = insert(&self.text, &self.cursor.pos, content);
        self.edit(t, false);
    }
    pub fn delete(&mut self) {
        let t = delete_at(&self.text, &self.cursor.pos);
        self.edit(t, false);
    }
    pub fn delete_range(&mut self, a: &Position, b: &Position) {
        let t = delete(&self.text, a, b);
        self.edit(t, false);
    }
    pub fn replace(&mut self, content: &str) {
        if content != self.text {
            self.edit(content.to_string(), true);
        }
    }
    pub fn start_group(&mut self) {
        if self.group.is_none() {
            self.group = Some(Vec::new());
        }
    }
    pub fn end_group(&mut self) {
        if let Some(g) = self.group.take() {
            if !g.is_empty() {
                self.undo.push(g);
            }
        }
    }
    pub fn undo(&mut self) -> bool {
        self.end_group();
        match self.undo.pop() {
            None => false,
            Some(step) => {
                for p in step.iter().rev() {
                    self.text = p.before.clone();
                    self.version = p.v_before;
                    if p.replace {
                        self.cursor = self.cursor.after_replace(&Layout::of(&self.text));
                    }
                }
                self.redo.push(step);
                true
            }
        }
    }
    pub fn redo(&mut self) -> bool {
        match self.redo.pop() {
            None => false,
            Some(step) => {
                for p in step.iter() {
                    self.text = p.after.clone();
                    self.version = p.v_after;
                    if p.replace {
                        self.cursor = self.cursor.after_replace(&Layout::of(&self.text));
                    }
                }
                self.undo.push(step);
                true
            }
        }
    }
    /// The buffer and its file are in sync now.
    pub fn sync(&mut self) {
        if self.group.is_some() {
            self.end_group();
            self.group = Some(Vec::new());
        }
        self.synced = Some(self.version);
    }
    pub fn reload(&mut self, disk: &str) {
        self.replace(disk);
        self.sync();
    }
}

/// Combining marks.
pub fn marks(n: usize) -> String {
    "\u{301}".repeat(n)
}
