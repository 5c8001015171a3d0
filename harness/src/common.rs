//! Shared helpers: running the real pipeline and oracles on positions.
#![allow(dead_code)]
use super::sx;
use ginko::dts::*;
use std::path::{Path as StdPath, PathBuf};
use std::sync::Arc;

/// One file in a project, analysed from its text.
pub struct Run {
    pub project: Project,
    pub path: PathBuf,
    pub text: Vec<u8>,
}

pub fn file_type(name: &str) -> FileType {
    FileType::from(StdPath::new(name))
}

/// Analyses `text` as the file `name` (which exists on disk, as for an editor or the CLI).
pub fn analyze(name: &str, text: Vec<u8>) -> Run {
    let p = format!("{}/{}", sx::fs_root(), name);
    sx::fs_add(&p, b"");
    let path = PathBuf::from(&p);
    let mut project = Project::default();
    let t = unsafe { String::from_utf8_unchecked(text.clone()) };
    project.add_file_with_text(path.clone(), t, file_type(name));
    Run { project, path, text }
}

impl Run {
    pub fn diags(&self) -> Vec<&Diagnostic> {
        self.project.get_diagnostics(&self.path).collect()
    }
}

pub fn parser(text: Vec<u8>) -> Parser<impl ginko::dts::verif_hooks::Reader> {
    let src: Arc<StdPath> = StdPath::new("/w/a.dts").into();
    Parser::from_text(ParserContext::default(), unsafe { String::from_utf8_unchecked(text) }, src)
}

/// Bytes that are UTF-8 continuation bytes do not start a character.
fn cont(b: u8) -> bool {
    b & 0xC0 == 0x80
}

/// Maps byte offsets to (line, character); reference implementation.  Computed only as far as asked.
pub struct Map<'a> {
    t: &'a [u8],
    pos: std::cell::RefCell<Vec<(u32, u32)>>,
}
impl<'a> Map<'a> {
    pub fn new(t: &'a [u8]) -> Map<'a> {
        Map { t, pos: std::cell::RefCell::new(vec![(0, 0)]) }
    }
    fn upto(&self, off: usize) {
        let mut p = self.pos.borrow_mut();
        while p.len() <= off {
            let i = p.len() - 1;
            let (l, c) = p[i];
            let b = self.t[i];
            p.push(if b == b'\n' {
                (l + 1, 0)
            } else if i + 1 < self.t.len() && cont(self.t[i + 1]) {
                // the next byte belongs to the same character
                (l, c)
            } else {
                (l, c + 1)
            });
        }
    }
    pub fn at(&self, off: usize) -> Position {
        self.upto(off);
        let p = self.pos.borrow()[off];
        Position::new(p.0, p.1)
    }
    /// the number of characters of every line
    pub fn lines(&self) -> Vec<u32> {
        self.upto(self.t.len());
        let mut v = vec![];
        for p in self.pos.borrow().iter() {
            if p.0 as usize == v.len() {
                v.push(0)
            }
            let l = p.0 as usize;
            if p.1 > v[l] {
                v[l] = p.1
            }
        }
        v
    }
}

/// One character of `width` bytes: any Unicode scalar value with that encoding.
pub fn sym_char(name: &str, width: usize, v: &mut Vec<u8>) {
    let b = sx::u8(name);
    let rest = |n: usize, v: &mut Vec<u8>| {
        for _ in 0..n {
            let c = sx::u8(name);
            sx::assume(c & 0xC0 == 0x80);
            v.push(c);
        }
    };
    v.push(b);
    let at = v.len();
    match width {
        1 => sx::assume(b < 0x80),
        2 => {
            sx::assume((b >= 0xC2) & (b <= 0xDF));
            rest(1, v);
        }
        3 => {
            sx::assume(b & 0xF0 == 0xE0);
            rest(2, v);
            let c = v[at];
            sx::assume(((b != 0xE0) | (c >= 0xA0)) & ((b != 0xED) | (c <= 0x9F)));
        }
        _ => {
            sx::assume((b >= 0xF0) & (b <= 0xF4));
            rest(3, v);
            let c = v[at];
            sx::assume(((b != 0xF0) | (c >= 0x90)) & ((b != 0xF4) | (c <= 0x8F)));
        }
    }
}

/// `n` symbolic bytes forming valid UTF-8: ASCII, or (when `multi`) characters of up to four bytes.
pub fn sym_text(name: &str, n: usize, multi: bool) -> Vec<u8> {
    sym_bytes(name, n, if multi { 4 } else { 1 })
}

/// the same behind `pre`: in a path every character becomes a path of its own, so two bytes at most there
pub fn sym_behind(name: &str, n: usize, pre: &str, multi: bool) -> Vec<u8> {
    sym_bytes(name, n, if !multi { 1 } else if pre.ends_with("&{/n") { 2 } else { 4 })
}

/// `n` bytes: characters of up to `max` bytes
pub fn sym_bytes(name: &str, n: usize, max: usize) -> Vec<u8> {
    let mut v = vec![];
    while v.len() < n {
        let left = n - v.len();
        let w = 1 + sx::choose("width", left.min(max));
        sym_char(name, w, &mut v);
    }
    v
}

/// `n` symbolic characters of up to `max` bytes
pub fn sym_chars(name: &str, n: usize, max: usize) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..n {
        sym_char(name, 1 + sx::choose("width", max), &mut v);
    }
    v
}

pub fn cat(parts: &[&[u8]]) -> Vec<u8> {
    parts.concat()
}

/// the lines of a text, without their line ends (`str::lines`, byte by byte)
pub fn text_lines(t: &[u8]) -> Vec<String> {
    let mut v = vec![];
    let mut s = 0;
    for i in 0..=t.len() {
        if i == t.len() || t[i] == b'\n' {
            if i < t.len() || s < i {
                let mut e = i;
                if i < t.len() && e > s && t[e - 1] == b'\r' {
                    e -= 1;
                }
                v.push(unsafe { String::from_utf8_unchecked(t[s..e].to_vec()) });
            }
            s = i + 1;
        }
    }
    v
}

/// the expected block for one diagnostic
pub fn block(out: &mut Vec<u8>, lines: &[Vec<u8>], error: bool, path: &str, span: Span, message: &str) {
    let (a, b) = (span.start(), span.end());
    let line: &[u8] = if (a.line() as usize) < lines.len() { &lines[a.line() as usize] } else { b"" };
    let no = (a.line() + 1).to_string();
    let pad = vec![b' '; no.len()];
    out.extend_from_slice(if error { b"error" } else { b"warning" });
    out.extend_from_slice(format!(" --> {}:{}:{}\n", path, a.line() + 1, a.character() + 1).as_bytes());
    out.extend_from_slice(&pad);
    out.extend_from_slice(b" |\n");
    out.extend_from_slice(no.as_bytes());
    out.extend_from_slice(b" | ");
    out.extend_from_slice(line);
    out.push(b'\n');
    out.extend_from_slice(&pad);
    out.extend_from_slice(b" | ");
    // the carets stand below the characters of the span (on its first line), tabs kept
    let mut n = 0;
    for c in line.iter().filter(|c| *c & 0xC0 != 0x80) {
        if n < a.character() {
            out.push(if matches!(*c, b'\t' | b'\r' | 0x0c) { *c } else { b' ' });
        }
        n += 1;
    }
    let end = if a.line() == b.line() { b.character() } else { n };
    let mut k = 0;
    while k == 0 || a.character() + k < end {
        out.push(b'^');
        k += 1;
    }
    out.push(b' ');
    out.extend_from_slice(message.as_bytes());
    out.extend_from_slice(b"\n\n");
}
