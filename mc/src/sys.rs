//! The real buffer and its reference model, driven side by side.

use crate::engine::{Ctx, HResult};
use crate::model::{Layout, MBuf, Move};
use scribe::buffer::{GapBuffer, Position, Range};
use scribe::Buffer;
use std::cell::RefCell;
use std::path::{Path, PathBuf};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    MoveTo(Position),
    Move(Move),
    Insert(String),
    Delete,
    DeleteRange(Position, Position),
    Replace(String),
    Undo,
    Redo,
    Start,
    End,
    Save,
    /// A save that fails because the path points into a missing directory.
    FailingSave,
    Reload,
    /// A reload that fails because the file is gone (it is put back afterwards).
    FailingReload,
    /// Something else rewrites the file.
    External(String),
    /// Calls that only look.
    Look(Position),
    Search(String),
}

/// What the harness decides; everything else the system under test may get wrong belongs to
/// another property.
#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    Text,
    Modified,
    CursorBounds,
    CursorMoves,
    Replace,
    Callback,
    Nothing,
}

#[derive(Default)]
pub struct CallLog {
    /// Position and, if it could be read through the handle given to the callback, the text
    /// at the time of the call.
    pub calls: Vec<(Position, Option<String>)>,
    pub handle: Option<Rc<RefCell<GapBuffer>>>,
}

pub struct Sys {
    pub real: Buffer,
    pub m: MBuf,
    pub path: Option<PathBuf>,
    /// Content of the file as of now / as of the last time the buffer and file were in sync.
    pub disk: String,
    pub in_sync_with: Option<String>,
    pub log: Option<Rc<RefCell<CallLog>>>,
    pub focus: Focus,
    /// Look at everything after every call, also while replaying.
    pub watch: bool,
    granted: bool,
    /// The path names no file (yet).
    pub no_file: bool,
}

pub fn show(p: &Position) -> String {
    format!("({},{})", p.line, p.offset)
}

impl Sys {
    /// A buffer created empty and filled by one insertion that is not part of the explored
    /// history when `text` is empty.
    pub fn fresh(text: &str, focus: Focus) -> Sys {
        let mut real = Buffer::new();
        let mut m = MBuf::new("", false);
        if !text.is_empty() {
            real.insert(text);
            m.insert(text);
        }
        Sys { real, m, path: None, disk: String::new(), in_sync_with: None, log: None, focus, watch: false, granted: false, no_file: false }
    }
    pub fn from_file(dir: &Path, text: &str, focus: Focus) -> Sys {
        let path = dir.join("doc");
        std::fs::write(&path, text).unwrap();
        Sys::from_file_as_it_is(dir, text, focus)
    }
    /// A buffer of the file that is there, holding `text`.
    pub fn from_file_as_it_is(dir: &Path, text: &str, focus: Focus) -> Sys {
        let path = dir.join("doc");
        let real = Buffer::from_file(&path).unwrap_or_else(|_| crate::engine::foreign_from_the_start());
        Sys {
            real,
            m: MBuf::new(text, true),
            path: Some(path),
            disk: text.to_string(),
            in_sync_with: Some(text.to_string()),
            log: None,
            focus,
            watch: false,
            granted: false,
            no_file: false,
        }
    }
    /// An empty buffer with the path of a file that does not exist yet.
    pub fn to_file(dir: &Path, focus: Focus) -> Sys {
        let path = dir.join("doc");
        let _ = std::fs::remove_file(&path);
        let mut sys = Sys::fresh("", focus);
        sys.real.path = Some(path.clone());
        sys.path = Some(path);
        sys.m.has_path = true;
        sys.no_file = true;
        sys
    }
    fn look_around(&self) {
        let b = &self.real;
        let text = b.data();
        let mut c = b.cursor.clone();
        c.move_to(p(0, 0));
        c.move_to_last_line();
        c.move_to_end_of_line();
        let end = *c;
        let _ = (b.search("a"), b.line_count(), b.read(&Range::new(p(0, 0), end)), b.modified(), b.file_name(), text.len());
    }
    pub fn with_callback(mut self) -> Sys {
        let log = Rc::new(RefCell::new(CallLog::default()));
        let l = log.clone();
        self.real.change_callback = Some(Box::new(move |p| {
            let mut l = l.borrow_mut();
            let text = l.handle.as_ref().map(|h| match h.try_borrow() {
                Ok(d) => d.to_string(),
                Err(_) => "<text locked during callback>".to_string(),
            });
            l.calls.push((p, text));
        }));
        self.log = Some(log);
        self
    }

    fn run_real(&mut self, op: &Op) -> Option<String> {
        match op {
            Op::MoveTo(p) => {
                self.granted = self.real.cursor.move_to(*p);
            }
            Op::Look(q) => {
                let _ = self.real.cursor.data.borrow().in_bounds(q);
            }
            Op::Search(s) => {
                let _ = self.real.search(s);
            }
            Op::Reload | Op::FailingReload if self.no_file => {
                if self.real.reload().is_ok() {
                    return Some("reload of a missing file reported success".into());
                }
            }
            Op::Move(m) => {
                let c = &mut self.real.cursor;
                match m {
                    Move::Up => c.move_up(),
                    Move::Down => c.move_down(),
                    Move::Left => c.move_left(),
                    Move::Right => c.move_right(),
                    Move::Home => c.move_to_start_of_line(),
                    Move::End => c.move_to_end_of_line(),
                    Move::FirstLine => c.move_to_first_line(),
                    Move::LastLine => c.move_to_last_line(),
                }
            }
            Op::Insert(s) => self.real.insert(s.as_str()),
            Op::Delete => self.real.delete(),
            Op::DeleteRange(a, b) => self.real.delete_range(Range::new(*a, *b)),
            Op::Replace(s) => self.real.replace(s.as_str()),
            Op::Undo => self.real.undo(),
            Op::Redo => self.real.redo(),
            Op::Start => self.real.start_operation_group(),
            Op::End => self.real.end_operation_group(),
            Op::Save => {
                if let Err(e) = self.real.save() {
                    return Some(format!("save failed: {}", e));
                }
            }
            Op::FailingSave => {
                let good = self.real.path.take();
                let bad = good.as_ref().map(|p| p.join("missing").join("doc"));
                self.real.path = bad;
                let r = self.real.save();
                self.real.path = good;
                if r.is_ok() {
                    return Some("save into a missing directory reported success".into());
                }
            }
            Op::Reload => {
                if let Err(e) = self.real.reload() {
                    return Some(format!("reload failed: {}", e));
                }
            }
            Op::FailingReload => {
                let p = self.path.clone().unwrap();
                let aside = p.with_extension("aside");
                std::fs::rename(&p, &aside).unwrap();
                let r = self.real.reload();
                std::fs::rename(&aside, &p).unwrap();
                if r.is_ok() {
                    return Some("reload of a missing file reported success".into());
                }
            }
            Op::External(s) => std::fs::write(self.path.as_ref().unwrap(), s).unwrap(),
        }
        None
    }

    fn run_model(&mut self, op: &Op) {
        let m = &mut self.m;
        match op {
            Op::MoveTo(p) => {
                m.cursor.move_to(&Layout::of(&m.text), *p);
            }
            Op::Move(mv) => m.cursor.go(&Layout::of(&m.text), *mv),
            Op::Insert(s) => m.insert(s),
            Op::Delete => m.delete(),
            Op::DeleteRange(a, b) => m.delete_range(a, b),
            Op::Replace(s) => m.replace(s),
            Op::Undo => {
                m.undo();
            }
            Op::Redo => {
                m.redo();
            }
            Op::Start => m.start_group(),
            Op::End => m.end_group(),
            Op::Look(_) | Op::Search(_) => (),
            Op::Reload if self.no_file => (),
            Op::Save => {
                self.no_file = false;
                m.sync();
                self.disk = m.text.clone();
                self.in_sync_with = Some(m.text.clone());
            }
            Op::FailingSave | Op::FailingReload => (),
            Op::Reload => {
                let d = self.disk.clone();
                m.reload(&d);
                self.in_sync_with = Some(d);
            }
            Op::External(s) => {
                self.no_file = false;
                self.disk = s.clone()
            }
        }
    }

    /// Applies one operation to both sides and checks what the focus asks for.
    /// Ok(false): deviation that another property owns; abandon this execution.
    pub fn apply(&mut self, ctx: &mut Ctx, op: &Op) -> Result<bool, String> {
        let fresh = ctx.fresh() || ctx.tracing();
        let before = if fresh { Some(self.real.data()) } else { None };
        let cursor_before = *self.real.cursor;
        let model_cursor_before = self.m.cursor;
        if let Some(l) = &self.log {
            let mut l = l.borrow_mut();
            l.calls.clear();
            l.handle = Some(self.real.cursor.data.clone());
        }
        let failed = self.run_real(op);
        let no_file = self.no_file;
        self.run_model(op);
        if self.watch {
            self.look_around();
        }
        ctx.transition();
        if !fresh {
            return Ok(true);
        }
        let before = before.unwrap();
        let text = self.real.data();
        let cur = *self.real.cursor;
        ctx.log(|| {
            format!(
                "{:?} -> text {:?} cursor {} modified {}",
                op,
                text,
                show(&cur),
                self.real.modified()
            )
        });
        ctx.state(&(&text, cur.line, cur.offset, self.m.undo.len(), self.m.redo.len(), self.m.group.as_ref().map(|g| g.len()), self.m.cursor.column));
        let same_text = text == self.m.text;
        let same_cursor = cur == self.m.cursor.pos;
        if text != before {
            ctx.count("steps that changed the text");
        } else {
            ctx.count("steps that did not change the text");
        }
        match self.focus {
            Focus::Nothing => Ok(same_text && failed.is_none()),
            Focus::Text => {
                if !same_cursor {
                    return Ok(false);
                }
                if failed.is_some() {
                    return Ok(false);
                }
                if !same_text {
                    return Err(format!(
                        "after {:?} (cursor {}) on {:?} the text is {:?}, expected {:?}",
                        op,
                        show(&cursor_before),
                        before,
                        text,
                        self.m.text
                    ));
                }
                Ok(true)
            }
            Focus::Modified => {
                let reported = self.real.modified();
                if !reported {
                    if let Some(sync) = &self.in_sync_with {
                        // For save/reload themselves compare with the actual file.
                        let disk = if matches!(op, Op::Save | Op::Reload) {
                            std::fs::read_to_string(self.path.as_ref().unwrap()).unwrap_or_default()
                        } else {
                            sync.clone()
                        };
                        if text != disk {
                            return Err(format!(
                                "after {:?} the buffer reports unmodified with text {:?}, but it was last in sync with {:?}",
                                op, text, disk
                            ));
                        }
                        ctx.count("unmodified with matching file");
                    }
                }
                if !same_text || !same_cursor || failed.is_some() {
                    return Ok(false);
                }
                if reported != self.m.modified() {
                    return Err(format!(
                        "after {:?} modified() is {}, expected {} (text {:?}, last in sync with {:?})",
                        op,
                        reported,
                        self.m.modified(),
                        text,
                        self.in_sync_with
                    ));
                }
                if reported {
                    ctx.count("modified");
                }
                Ok(true)
            }
            Focus::CursorBounds => {
                let l = Layout::of(&text);
                match op {
                    Op::MoveTo(p) => {
                        let exists = l.exists(p);
                        let expect = if exists { *p } else { cursor_before };
                        if self.granted != exists {
                            return Err(format!(
                                "moving to {} (which {}) in {:?} from {} is {}",
                                show(p),
                                if exists { "exists" } else { "does not exist" },
                                text,
                                show(&cursor_before),
                                if self.granted { "reported as done" } else { "refused" }
                            ));
                        }
                        if cur != expect {
                            return Err(format!(
                                "moving to {} (which {}) in {:?} from {} left the cursor at {}",
                                show(p),
                                if exists { "exists" } else { "does not exist" },
                                text,
                                show(&cursor_before),
                                show(&cur)
                            ));
                        }
                        ctx.count(if exists { "granted moves" } else { "refused moves" });
                    }
                    Op::Move(m) => {
                        let inside_before = l.exists(&cursor_before);
                        if inside_before && !l.exists(&cur) {
                            return Err(format!(
                                "{:?} in {:?} took the cursor from {} to {}, which does not exist",
                                m,
                                text,
                                show(&cursor_before),
                                show(&cur)
                            ));
                        }
                        if !inside_before && cur != cursor_before && !l.exists(&cur) {
                            return Err(format!(
                                "{:?} in {:?} took the cursor from {} to another position that does not exist, {}",
                                m,
                                text,
                                show(&cursor_before),
                                show(&cur)
                            ));
                        }
                        ctx.count(if inside_before { "moves from inside" } else { "moves from outside" });
                    }
                    _ => (),
                }
                Ok(same_text && same_cursor && failed.is_none())
            }
            Focus::CursorMoves => {
                if !same_text || failed.is_some() {
                    return Ok(false);
                }
                if matches!(op, Op::Move(_) | Op::MoveTo(_)) && !same_cursor {
                    return Err(format!(
                        "{:?} in {:?} from {} (remembered column {}) led to {}, expected {}",
                        op,
                        text,
                        show(&cursor_before),
                        model_cursor_before.column,
                        show(&cur),
                        show(&self.m.cursor.pos)
                    ));
                }
                if cur != cursor_before {
                    ctx.count("effective moves");
                }
                Ok(same_cursor)
            }
            Focus::Replace => {
                if matches!(op, Op::Replace(_)) || (*op == Op::Reload && !no_file) {
                    if let Some(f) = failed {
                        return Err(f);
                    }
                    let expect = match op {
                        Op::Replace(s) => s.clone(),
                        _ => std::fs::read_to_string(self.path.as_ref().unwrap()).unwrap(),
                    };
                    if text != expect {
                        return Err(format!("after {:?} the text is {:?}, expected {:?}", op, text, expect));
                    }
                    if *op == Op::Reload && self.real.modified() {
                        return Err("the buffer reports modified after reload".into());
                    }
                }
                if !same_text || failed.is_some() {
                    return Ok(false);
                }
                if matches!(op, Op::Replace(_) | Op::Reload | Op::Undo | Op::Redo) {
                    if !same_cursor {
                        return Err(format!(
                            "after {:?} (text {:?} -> {:?}) the cursor went from {} to {}, expected {}",
                            op,
                            before,
                            text,
                            show(&cursor_before),
                            show(&cur),
                            show(&self.m.cursor.pos)
                        ));
                    }
                    ctx.count("replace/undo/redo/reload steps checked");
                }
                Ok(same_cursor)
            }
            Focus::Callback => {
                let log = self.log.as_ref().unwrap().borrow();
                if text != before {
                    if log.calls.is_empty() {
                        return Err(format!(
                            "{:?} changed the text from {:?} to {:?} without running the change callback",
                            op, before, text
                        ));
                    }
                    let low = log
                        .calls
                        .iter()
                        .map(|c| (c.0.line, c.0.offset))
                        .min()
                        .unwrap();
                    let first = first_change(&before, &text);
                    if low > first {
                        return Err(format!(
                            "{:?} changed {:?} to {:?} from {:?} on, but the lowest position reported is {:?}",
                            op, before, text, first, low
                        ));
                    }
                    let handle = log.handle.as_ref().unwrap();
                    if Rc::ptr_eq(handle, &self.real.cursor.data) {
                        let seen = log.calls.last().unwrap().1.as_ref().unwrap();
                        if *seen != text {
                            return Err(format!(
                                "during the last change callback of {:?} the text was {:?}, but it is {:?} afterwards",
                                op, seen, text
                            ));
                        }
                    }
                    ctx.count("changes announced");
                }
                Ok(same_text && same_cursor && failed.is_none())
            }
        }
    }
}

/// (line, character) up to which two texts agree.
pub fn first_change(a: &str, b: &str) -> (usize, usize) {
    let mut n = 0;
    for (x, y) in a.chars().zip(b.chars()) {
        if x != y {
            break;
        }
        n += x.len_utf8();
    }
    let p = Layout::of(&a[..n]).end();
    (p.line, p.offset)
}

pub fn p(line: usize, offset: usize) -> Position {
    Position { line, offset }
}

/// Undoes everything step by step, then redoes everything, comparing each text.
pub fn rewind(ctx: &mut Ctx, sys: &mut Sys, prop: &str) -> HResult {
    let limit = sys.m.undo.len() + sys.m.group.as_ref().map_or(0, |_| 1) + 2;
    let mut undone = 0;
    for i in 0..limit {
        let before = sys.real.data();
        let did = sys.m.undo();
        sys.real.undo();
        ctx.transition();
        ctx.log(|| format!("rewind: undo -> {:?}", sys.real.data()));
        if did {
            undone += 1;
        }
        if sys.real.data() != sys.m.text {
            return Err(format!(
                "{}: undo number {} took {:?} to {:?}, expected {:?}",
                prop,
                i + 1,
                before,
                sys.real.data(),
                sys.m.text
            ));
        }
    }
    for i in 0..undone + sys.m.redo.len() + 1 {
        let before = sys.real.data();
        sys.m.redo();
        sys.real.redo();
        ctx.transition();
        ctx.log(|| format!("rewind: redo -> {:?}", sys.real.data()));
        if sys.real.data() != sys.m.text {
            return Err(format!(
                "{}: redo number {} took {:?} to {:?}, expected {:?}",
                prop,
                i + 1,
                before,
                sys.real.data(),
                sys.m.text
            ));
        }
    }
    Ok(())
}
