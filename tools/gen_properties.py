#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line, schema /root/.vp/PROPERTIES.schema.json)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": state or [],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": observe,
            "hook_needed": hook,
        },
    })

GB="src/buffer/gap_buffer.rs"; CU="src/buffer/cursor.rs"; BU="src/buffer/mod.rs"
INS="src/buffer/operation/insert.rs"; DEL="src/buffer/operation/delete.rs"; REP="src/buffer/operation/replace.rs"
GRP="src/buffer/operation/group.rs"; HIS="src/buffer/operation/history.rs"; WS="src/workspace.rs"
TI="src/buffer/token/token_iterator.rs"; TS="src/buffer/token/token_set.rs"; LI="src/util/line_iterator.rs"

prop("C01", "Edits behave exactly like edits on a plain string",
 "After any sequence of insertions, deletions and replacements, at existing or non-existing positions, the text equals what the same edits produce on an ordinary string. An insertion adds exactly its content at its position and a deletion removes exactly the text of its range; if the (start) position does not exist, nothing changes. A deletion whose end does not exist stops after the terminator of its last line, or at the end of the text when no line follows.",
 ["histories","inputs"], "every edit sequence, every position (existing or not), every content size relative to the spare room left by earlier edits, ASCII and multi-byte text",
 "The unit tests run one to three edits on a handful of fixed texts; the storage layout (where the gap is, how large, when it is reallocated) depends on the whole edit history.",
 [GB, INS, DEL, BU], [("gap movement and widening", GB+": move_gap, delete"), ("reallocation with the gap moved to the end first", GB+": insert"), ("position to offset mapping", GB+": find_offset")],
 ["GapBuffer::to_string", "Buffer::data"],
 state=[{"name":"gap","meaning":"start and length of unused bytes inside the storage","where":GB}])

prop("C02", "Positions and reads depend only on the current text",
 "Whether a (line, offset) position exists, and which place in the text it denotes, is determined by the current text alone - lines end with LF or CRLF, offsets count user-perceived characters (grapheme clusters) - and never by the edits that produced it. Reading a range returns exactly the text between its two positions, and nothing when either does not exist.",
 ["histories","inputs"], "every text over combining marks, joiners, flags, CR/LF, multi-byte and ASCII characters, every edit history leading to it, every pair of positions",
 "Tests check a few positions on texts that were never edited mid-character; the answer must be the same for every one of the many storage layouts of one text.",
 [GB, "src/buffer/range.rs", BU], [("grapheme walk over both halves of the storage", GB+": find_offset"), ("stitching around the gap", GB+": read")],
 ["GapBuffer::in_bounds", "GapBuffer::read", "Buffer::read"])

prop("C03", "Undo and redo restore exact texts along one linear history",
 "Undo restores exactly the text from before the most recent edit still in effect, and repeating it walks back through every earlier text to the original one; redo re-applies undone edits one by one and restores each text exactly. Making a new edit after an undo discards the undone edits, so redo then does nothing; undo or redo with nothing left to do changes nothing.",
 ["histories","inputs"], "every interleaving of insert, delete, delete-range (also past line or text end), replace, undo and redo, with contents that merge with neighbouring characters",
 "Existing tests undo single operations on ASCII or pre-composed texts; inverses are computed from positions, which every other edit in the history shifts.",
 [INS, DEL, REP, HIS, BU], [("operation reversal", INS+": reverse; "+DEL+": reverse; "+REP+": reverse"), ("two-stack history", HIS), ("undo/redo entry points", BU+": undo, redo")],
 ["Buffer::data after undo/redo"],
 state=[{"name":"history","meaning":"done and undone operation stacks","where":HIS}])

prop("C04", "Operation groups undo and redo as one unit",
 "All edits made between starting and ending an operation group are undone by a single undo and re-applied by a single redo; undo while a group is open closes it and reverts all of its edits, and redo can bring them back. Starting a group twice, ending one that is not open, and groups without edits have no effect on history. Edits in an open group discard previously undone edits just as ungrouped edits do; saving or reloading inside a group ends the unit at that point.",
 ["histories"], "every interleaving of group start/end (nested, unbalanced, empty) with edits, undo, redo and save",
 "Tests cover one closed group, one open group and one empty group, never redo after an open group or undone edits pending when a group starts.",
 [GRP, HIS, BU, INS, DEL, REP], [("group collection and commit", GRP+": start_operation_group, end_operation_group"), ("undo of an open group", BU+": undo")],
 ["Buffer::data after undo/redo"])

prop("C05", "The modified flag is never wrong about the saved state",
 "A buffer with a path that reports itself unmodified has exactly the text it last loaded from, saved to or reloaded from its file. Undoing or redoing back to that point reports unmodified again, every other point in the history reports modified - including edits inside a still-open group and edits that replace an undone saved state - and a buffer without a path is always modified.",
 ["histories"], "every interleaving of edits, groups, undo, redo, save, reload and failed saves",
 "A mark position in the history must survive or be dropped correctly under every branch of the history; tests toggle it with at most three operations and never with groups.",
 [HIS, BU, GRP], [("mark in history", HIS+": mark, at_mark, add"), ("marking on load/save/reload", BU+": from_file, save, reload")],
 ["Buffer::modified", "file contents"],
 state=[{"name":"marked position","meaning":"history depth at which text equals file","where":HIS}])

prop("C06", "Saving and loading round-trip the text byte for byte",
 "Saving writes exactly the buffer's text to its path, whatever the file held before and whatever other files there are, which stay as they are; loading that file yields the identical text with the cursor at the start. Loading succeeds exactly for valid UTF-8 content and reproduces it byte for byte; line endings, byte-order marks, control characters and a missing final newline are preserved.",
 ["inputs","histories"], "every byte content up to a bound, every previous file content (absent, shorter, longer), text produced by any edit history",
 "Tests save one fixed ASCII text to a new file and load one fixed file.",
 [BU, GB], [("write of the text without gap", BU+": save"), ("read as UTF-8", BU+": from_file, reload"), ("gap-free rendering", GB+": Display")],
 ["file bytes after Buffer::save", "Buffer::data after Buffer::from_file"])

prop("C07", "I/O failures are reported and leave buffers and workspace intact",
 "If a save, reload or open fails, at whatever system call and for whatever reason, the call returns an error and the text, cursor, history and modified state are what they were before, so that retrying once the cause is gone succeeds. Interrupted calls and short reads or writes are not failures: the operation completes with the correct content.",
 ["fault_sequences","inputs"], "every system call of save, reload, load and open, each fault kind (interrupt, short transfer, error, zero write), singly and in pairs, with edits pending",
 "No test exercises an I/O error at all; a failure depends on which call fails after how many bytes.",
 [BU, WS], [("error propagation and marking only after success", BU+": save, reload, from_file"), ("open only adds after load", WS+": open_buffer")],
 ["return values", "Buffer::data, modified, undo", "Workspace::buffer_paths"])

prop("C08", "Cursor movements never leave the text",
 "From a cursor inside the text, every movement command leaves the cursor at a position that exists in the current text. A request to move to a position that does not exist is refused and leaves the cursor where it was; one that exists is always granted and lands exactly there, even after edits have left the old position outside the text.",
 ["histories","inputs"], "every movement sequence interleaved with edits, undo, redo and replacements, over texts with empty lines, CRLF, trailing newlines and multi-byte characters",
 "Tests make one or two movements on texts that never change afterwards.",
 [CU, GB], [("bounds check on every move", CU+": move_to"), ("existence test", GB+": in_bounds")],
 ["Buffer::cursor", "Cursor::move_to result"])

prop("C09", "Cursor movements go where their names say and keep the column",
 "Left and right step one user-perceived character within the line; start/end of line go to the line's first and last position; up and down go to the adjacent line and first/last line to the outermost lines, in each case at the remembered column or at the line's end if it is shorter. Consecutive up and down moves keep the remembered column across shorter lines; every other successful movement makes the offset it lands on the remembered column, and a movement with nowhere to go changes nothing.",
 ["histories","inputs"], "every movement sequence on every text shape up to a bound, closed under reachability of (position, remembered column)",
 "Tests check one movement each and one two-step persistence case; the remembered column is hidden state that only shows several moves later.",
 [CU], [("sticky offset", CU+": move_up, move_down, move_to"), ("line length in graphemes", CU+": move_to_end_of_line, move_to_first_line, move_to_last_line")],
 ["Buffer::cursor line and offset"],
 state=[{"name":"sticky offset","meaning":"remembered column","where":CU}])

prop("C10", "Replace and reload keep cursor, identity and undo history",
 "Replacing the content, and undoing or redoing a replacement, keeps the cursor at its full position if that exists in the resulting text, else at the start of its line if that exists, else at the start of the text. Reload makes the text equal to the file's current content, unmodified, and reversible by undo. Both preserve the buffer's id, path, syntax definition and change callback, and replacing with identical content does nothing at all.",
 ["histories","inputs"], "every old/new text pair and cursor position up to a bound, combined with edits, undo, redo and external changes of the file",
 "Tests check the three cursor cases on one text each, and never for undo or redo of a replacement.",
 [REP, BU], [("content swap with cursor retention", REP+": replace_content"), ("reload through replace", BU+": reload")],
 ["Buffer::cursor, data, modified, id, path, syntax_definition, change_callback"])

prop("C11", "Every text change is announced at or before where it happened",
 "Whenever the text changes - by insert, delete, replace, reload, undo or redo, grouped or not - the buffer's change callback runs at least once before the call returns, and at that time the new text is already in place. The lowest reported position is at or before the first changed line (and, on that line, at or before the first change), so discarding cached data from it onwards is always enough.",
 ["histories"], "every history of edits, groups, undo, redo and reload with a callback installed",
 "Tests check one callback per operation type; cache invalidation is only sound if no path at all changes text silently or reports too late a position.",
 [INS, DEL, REP, GRP, BU], [("callback invocation in run and reverse", INS+"; "+DEL+"; "+REP)],
 ["Buffer::change_callback invocations"])

prop("C12", "Search finds every occurrence and reports usable positions",
 "For a search term without line breaks, the result lists, in document order and once each, exactly the positions of the characters at which an occurrence begins, overlapping occurrences included. Reported positions use the same line and character offsets as the cursor and reads, for any text and term, so reading from a reported position yields text that begins with the term (when the occurrence begins on a character boundary).",
 ["inputs","histories"], "every text and term up to a bound over ASCII, multi-byte and combining characters and line breaks, at every storage layout",
 "Tests only check that results are (non-)empty, and one ASCII text in the documentation.",
 [BU], [("line by line byte comparison", BU+": search")],
 ["Buffer::search"])

prop("C13", "All views of the text agree on its lines",
 "For every text, the reported line count, the lines addressable by positions and reachable by the cursor, the lines produced by line iteration and the newline tokens all agree. Line iteration yields consecutively numbered lines, each including its terminator, whose concatenation is the text, with a final empty line exactly when the text is empty or ends with a newline.",
 ["inputs"], "every text up to a bound over LF, CR, CRLF, Unicode line separators, empty lines and multi-byte characters",
 "Five different pieces of code split lines independently; tests never compare them and none uses CRLF.",
 [LI, BU, CU, GB, TI], [("line iterator", LI), ("line count", BU+": line_count"), ("position lines", GB+": find_offset"), ("last line", CU+": move_to_last_line")],
 ["LineIterator items", "Buffer::line_count", "GapBuffer::in_bounds", "tokens"])

prop("C14", "Tokenizing loses nothing and locates every token",
 "For every text and syntax, concatenating token values, with a line feed per newline token, reproduces the text exactly, and no token contains a line feed. Each token's position is that of its first character in the buffer's coordinates, and its scopes are those the syntax assigns to all of its text.",
 ["inputs"], "every text up to a bound, built from fragments that switch syntax contexts, for every bundled syntax definition",
 "Tests tokenize three fixed texts and compare only a prefix of the tokens.",
 [TI, TS, WS], [("event driven slicing", TI+": build_next_token"), ("line advance", TI+": parse_next_line")],
 ["Workspace::current_buffer_tokens", "TokenSet::iter"])

prop("C15", "Token iteration halts for good on a syntax error and reports it",
 "If the syntax engine fails while a text is being tokenized, the tokens of everything before the failing line are delivered first, then iteration ends, stays ended however often it is resumed, and the error is available; a failure on the very first line is reported when iteration is set up. Without a failure no error is reported and iteration stays ended after the last token.",
 ["fault_sequences","inputs"], "every placement of a line that makes the syntax engine fail in texts up to a bound, and continued polling afterwards",
 "No test provokes a syntax engine error.",
 [TI, "src/errors.rs"], [("error capture", TI+": next_token")],
 ["TokenIterator::next", "TokenIterator.error"])

prop("C16", "Workspace keeps buffer order and selection",
 "Buffers added or opened are placed directly after the current one and selected; next and previous select the neighbours in order, wrapping at the ends; closing removes exactly the current buffer and selects the one before it, or the new first one if it was first, or none if it was the last remaining. The reported current index, the list of paths and the current buffer always agree, and on an empty workspace navigation and close do nothing.",
 ["histories"], "every sequence of add, open, next, previous, close and edits with up to a bounded number of buffers",
 "Tests exercise two or three fixed sequences; the selection swaps buffers in and out of a list with placeholders on every step.",
 [WS], [("check-in/check-out of the current buffer", WS+": select_buffer"), ("wrap around", WS+": next_buffer, previous_buffer"), ("close", WS+": close_current_buffer")],
 ["Workspace::current_buffer, current_buffer_index, buffer_paths"],
 state=[{"name":"checked-out slot","meaning":"placeholder left in the list for the current buffer","where":WS}])

prop("C17", "Buffers in a workspace are isolated and keep their state and ids",
 "Switching, adding, opening and closing buffers never changes another buffer: text, cursor, undo and redo history, open operation group, modified flag, path, syntax, id and callback are all there when it is selected again. Every buffer gets an id on being added that no other buffer of that workspace ever has, also after buffers have been closed.",
 ["histories"], "every sequence of workspace operations interleaved with edits, undo, redo and cursor moves in the selected buffer",
 "Tests compare only the text of buffers after switching, and ids only for three additions without closing.",
 [WS, BU], [("swap of whole buffers", WS+": select_buffer"), ("id counter", WS+": add_buffer")],
 ["Workspace::current_buffer fields"])

prop("C18", "Opening by path never duplicates and reports faithful paths",
 "Opening a path whose file is already open - under any spelling, relative, absolute, with dot segments or through symbolic links - selects the existing buffer with its unsaved content instead of adding another; otherwise exactly one buffer with the file's content and canonical path is added. A failed open changes nothing. Reported paths are relative to the workspace directory exactly when the buffer's path lies inside it, and the buffer's path otherwise.",
 ["histories","inputs"], "every sequence of opens over a set of spellings of a few files, existing and missing, mixed with close, navigation and edits",
 "Tests open the same spelling of one file twice.",
 [WS, BU], [("canonical comparison", WS+": select_buffer_by_path"), ("canonical path on load", BU+": from_file"), ("prefix stripping", WS+": current_buffer_path, buffer_paths")],
 ["Workspace::buffer_paths, current_buffer_path, current_buffer"])

prop("C19", "Every workspace buffer gets the right syntax definition",
 "A buffer added or opened without a syntax definition gets the one registered for its file extension, else - only if it has no extension - for its file name, else plain text; one that already has a definition keeps it. Refreshing the syntax after a path change applies the same rule to the current buffer only, user-supplied definitions take part in it on equal terms, and tokenizing fails with the documented error on an empty workspace or a buffer without definition.",
 ["inputs","configurations"], "every extension and file name known to the bundled set and to a user folder, plus unknown ones, with and without a preset definition, through every way of adding and refreshing",
 "Tests check plain text, one extension and one file name.",
 [WS, BU], [("definition lookup", WS+": update_current_syntax"), ("assignment on add", WS+": add_buffer"), ("extension and name extraction", BU+": file_extension, file_name")],
 ["Buffer::syntax_definition", "Workspace::current_buffer_tokens"])

prop("C20", "Position, distance and range arithmetic matches the text",
 "For any text, the start of an insertion plus the distance of the inserted text is the position of its end (when it does not merge with adjoining characters), with both forms of addition agreeing. Positions are totally ordered like the places they denote; a range or line range built from its ends in either order is the same, includes exactly the positions (lines) from its start up to but excluding its end, and a line range converts to the range of those whole lines.",
 ["inputs"], "every pair of positions and every inserted text up to a bound, multi-line and multi-byte",
 "Tests use single examples in ASCII.",
 ["src/buffer/distance.rs","src/buffer/position.rs","src/buffer/range.rs","src/buffer/line_range.rs"], [("distance of a string", "src/buffer/distance.rs: of_str"), ("addition", "src/buffer/position.rs: add, add_assign"), ("ordering", "src/buffer/position.rs: partial_cmp"), ("normalisation and inclusion", "src/buffer/range.rs, src/buffer/line_range.rs")],
 ["Position + Distance", "Range::includes", "LineRange::to_range"])

prop("C21", "No call panics or damages text, whatever its arguments",
 "Any sequence of buffer and cursor-movement calls, with positions and ranges of any magnitude up to the largest representable value, on any text, including while the cursor is left outside the text by earlier edits or put there, returns normally. Text is valid UTF-8 throughout and only changed as the edits specify.",
 ["inputs","histories"], "every call with arguments from {0, 1, small, just past the end, half and full machine range} after every short history",
 "Tests use small in-range values; huge values and stale cursors take different arithmetic paths.",
 [GB, DEL, CU, INS, "src/buffer/line_range.rs"], [("offset arithmetic", GB+": delete, find_offset"), ("next-line computation", DEL+": delete; "+CU)],
 ["absence of panics", "Buffer::data"])

prop("C22", "Behaviour does not depend on size",
 "Edits, positions, reads, undo, redo, search and line handling give the same results on long texts, long lines, many lines, large insertions and long histories as the plain-string rules prescribe; in particular undo reaches all the way back through any number of edits and every capacity boundary of the storage is crossed without corruption.",
 ["inputs","histories"], "every text length, insertion length, edit position and history length up to a bound of several hundred, with regular structure",
 "Tests use texts below fifty bytes and at most three history entries, so capacity growth and depth limits are never reached.",
 [GB, HIS, GRP, BU, CU], [("capacity growth", GB+": insert"), ("history stacks", HIS)],
 ["Buffer::data, read, undo, redo, search, line_count"])

prop("C23", "A new workspace is empty, in the right place, and knows all definitions",
 "Creating a workspace succeeds exactly when its path exists and the folder of syntax definitions, if one is given, exists and every definition in it or below it can be read and parsed; otherwise, and whenever the operating system reports a failure, an error is returned and a later attempt can succeed. A new workspace has the canonical path, however it was spelled, no buffers and no current one, and exactly the bundled definitions plus those found, whatever workspaces were created before.",
 ["inputs","fault_sequences","histories"], "every spelling of the place, every set of folder entries, every failing system call, every sequence of creations",
 "Tests create workspaces from one sample directory, and load one valid definition.",
 [WS], [("loading of definitions, resolution of the path", WS+": new")],
 ["Workspace::new", "Workspace::path", "Workspace::syntax_set", "Workspace::buffer_paths"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
