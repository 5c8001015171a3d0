//! Reference reading of a device-tree source: an independent lexer, grammar and
//! per-construct checks.  It works on byte offsets and says, for a text, either what the
//! syntax tree and the diagnostics must be, or where the first syntax error is.
//!
//! Written from the device-tree specification (v0.4, chapters 2 and 6) and the README;
//! not from the implementation's structure.
#![allow(dead_code)]

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Semi, Slash, Eq, LBr, RBr, LPar, RPar, Lt, Gt, Comma, LBrace, RBrace,
    Ident, Label, Str, Num, RefLabel, RefPath,
    DtsV1, Plugin, Memreserve, Bits, DelProp, DelNode, Omit, Include, OtherDir,
    Unknown,
    /// a string, comment, path reference that the end of the file cuts off
    Open,
}

#[derive(Clone, Copy, Debug)]
pub struct T {
    pub k: K,
    pub s: usize,
    pub e: usize,
}

pub fn blank(b: u8) -> bool {
    matches!(b, b' ' | b'\t' | b'\n' | b'\r' | 0x0C)
}
pub fn name_char(b: u8) -> bool {
    matches!(b, b'0'..=b'9' | b'a'..=b'z' | b'A'..=b'Z' | b',' | b'.' | b'_' | b'+' | b'?' | b'#' | b'-')
}
pub fn letter(b: u8) -> bool {
    matches!(b, b'a'..=b'z' | b'A'..=b'Z')
}
fn word(b: u8) -> bool {
    matches!(b, b'0'..=b'9' | b'a'..=b'z' | b'A'..=b'Z')
}

/// Tokens on demand, so that nothing behind the first syntax error is looked at.
pub struct Lex<'a> {
    pub t: &'a [u8],
    pub p: usize,
    /// a node or property name may start here (names may start with characters such as '#')
    pub names: bool,
}

impl<'a> Lex<'a> {
    pub fn new(t: &'a [u8]) -> Lex<'a> {
        Lex { t, p: 0, names: true }
    }
    fn at(&self, i: usize) -> Option<u8> {
        self.t.get(i).copied()
    }
    fn run(&self, mut i: usize, f: fn(u8) -> bool) -> usize {
        while i < self.t.len() && f(self.t[i]) {
            i += 1;
        }
        i
    }
    /// the offset behind the next occurrence of `b`
    fn behind(&self, mut i: usize, b: u8) -> Option<usize> {
        while i < self.t.len() {
            i += 1;
            if self.t[i - 1] == b {
                return Some(i);
            }
        }
        None
    }
    fn tok(&mut self, k: K, s: usize, e: usize) -> Option<T> {
        self.p = e;
        Some(T { k, s, e })
    }
    pub fn next(&mut self) -> Option<T> {
        loop {
            let s = self.run(self.p, blank);
            self.p = s;
            let b = self.at(s)?;
            // comments
            if b == b'/' && self.at(s + 1) == Some(b'/') {
                let mut i = s + 2;
                while i < self.t.len() && self.t[i] != b'\n' {
                    i += 1;
                }
                self.p = i;
                continue;
            }
            if b == b'/' && self.at(s + 1) == Some(b'*') {
                let mut i = s + 2;
                loop {
                    if i + 1 >= self.t.len() {
                        return self.tok(K::Open, s, self.t.len());
                    }
                    if self.t[i] == b'*' && self.t[i + 1] == b'/' {
                        break;
                    }
                    i += 1;
                }
                self.p = i + 2;
                continue;
            }
            let one = |k| Some(T { k, s, e: s + 1 });
            let simple = match b {
                b';' => one(K::Semi),
                b'=' => one(K::Eq),
                b'[' => one(K::LBr),
                b']' => one(K::RBr),
                b'(' => one(K::LPar),
                b')' => one(K::RPar),
                b'<' => one(K::Lt),
                b'>' => one(K::Gt),
                b'{' => one(K::LBrace),
                b'}' => one(K::RBrace),
                _ => None,
            };
            if let Some(t) = simple {
                match t.k {
                    K::Semi | K::LBrace => self.names = true,
                    K::Eq => self.names = false,
                    _ => {}
                }
                self.p = s + 1;
                return Some(t);
            }
            if letter(b) || b == b'_' || (self.names && matches!(b, b',' | b'.' | b'+' | b'-' | b'#' | b'?')) {
                let e = self.run(s, name_char);
                return match self.at(e) {
                    Some(b':') => self.tok(K::Label, s, e + 1),
                    Some(b'@') => {
                        let e = self.run(e + 1, name_char);
                        self.tok(K::Ident, s, e)
                    }
                    _ => self.tok(K::Ident, s, e),
                };
            }
            return match b {
                b',' => self.tok(K::Comma, s, s + 1),
                b'0'..=b'9' => {
                    let e = self.run(s, word);
                    self.tok(K::Num, s, e)
                }
                b'"' => {
                    let mut i = s + 1;
                    loop {
                        match self.at(i) {
                            None => return self.tok(K::Open, s, self.t.len()),
                            Some(b'"') => return self.tok(K::Str, s, i + 1),
                            Some(b'\\') => {
                                if i + 1 >= self.t.len() {
                                    return self.tok(K::Open, s, self.t.len());
                                }
                                i += 2
                            }
                            _ => i += 1,
                        }
                    }
                }
                b'&' => match self.at(s + 1) {
                    Some(b'{') => match self.behind(s + 2, b'}') {
                        Some(e) => self.tok(K::RefPath, s, e),
                        None => self.tok(K::Open, s, self.t.len()),
                    },
                    Some(c) if letter(c) || c == b'_' => {
                        let e = self.run(s + 1, |c| word(c) || c == b'_');
                        self.tok(K::RefLabel, s, e)
                    }
                    _ => self.tok(K::RefLabel, s, s + 1),
                },
                b'/' => match self.at(s + 1) {
                    Some(c) if letter(c) => match self.behind(s + 1, b'/') {
                        Some(e) => {
                            let k = match &self.t[s + 1..e - 1] {
                                b"dts-v1" => K::DtsV1,
                                b"plugin" => K::Plugin,
                                b"memreserve" => K::Memreserve,
                                b"bits" => K::Bits,
                                b"delete-property" => K::DelProp,
                                b"delete-node" => K::DelNode,
                                b"omit-if-no-ref" => K::Omit,
                                b"include" => K::Include,
                                _ => K::OtherDir,
                            };
                            self.tok(k, s, e)
                        }
                        None => self.tok(K::Open, s, self.t.len()),
                    },
                    _ => self.tok(K::Slash, s, s + 1),
                },
                _ => {
                    // one whole character
                    let mut e = s + 1;
                    while e < self.t.len() && self.t[e] & 0xC0 == 0x80 {
                        e += 1;
                    }
                    self.tok(K::Unknown, s, e)
                }
            };
        }
    }
}

/// what a string token stands for
pub fn unescape(b: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 1;
    while i + 1 < b.len() {
        if b[i] == b'\\' {
            // only \" and \\ are interpreted; the implementation keeps the character of any other escape
            i += 1;
        }
        v.push(b[i]);
        i += 1;
    }
    v
}

/// One element of the syntax tree, in source order.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Ev {
    pub what: &'static str,
    pub s: usize,
    pub e: usize,
    pub text: Vec<u8>,
    pub num: u64,
}
/// kind as in `ErrorCode`'s snake_case names
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct D {
    pub kind: &'static str,
    pub s: usize,
    pub e: usize,
    /// may be reported, but need not
    pub opt: bool,
}

pub enum Why {
    /// a token that cannot be here
    Bad(T),
    /// a statement of which only the final ';' is missing; the token that is there instead
    Semi(Option<T>),
    /// the file ends inside a construct
    Eof,
}
pub struct SyntaxError {
    pub why: Why,
    /// end of the last accepted token
    pub after: usize,
}

pub struct Spec<'a> {
    lex: Lex<'a>,
    t: &'a [u8],
    peeked: Option<Option<T>>,
    pub last: usize,
    pub ev: Vec<Ev>,
    pub di: Vec<D>,
    /// offsets behind which a ';' may be missing (`recover` mode)
    pub missing: Vec<usize>,
    pub recover: bool,
}
type R<X> = Result<X, SyntaxError>;

/// the number a literal stands for, if it fits
pub fn number(b: &[u8], max: u64) -> Option<u64> {
    let (digits, base): (&[u8], u64) = if b.len() >= 2 && b[0] == b'0' && b[1] == b'x' {
        (&b[2..], 16)
    } else if b.len() >= 2 && b[0] == b'0' {
        (&b[1..], 8)
    } else {
        (b, 10)
    };
    if digits.is_empty() {
        return None;
    }
    let mut n = 0u64;
    for d in digits {
        let v = match d {
            b'0'..=b'9' => (*d - b'0') as u64,
            b'a'..=b'f' => (*d - b'a') as u64 + 10,
            b'A'..=b'F' => (*d - b'A') as u64 + 10,
            _ => return None,
        };
        if v >= base || n > max / base || n * base > max - v {
            return None;
        }
        n = n * base + v;
    }
    Some(n)
}

#[derive(Clone, Copy, PartialEq)]
pub enum Name {
    Label,
    Node,
    Address,
    Property,
}

impl<'a> Spec<'a> {
    pub fn new(t: &'a [u8]) -> Spec<'a> {
        Spec { lex: Lex::new(t), t, peeked: None, last: 0, ev: vec![], di: vec![], missing: vec![], recover: false }
    }
    fn peek(&mut self) -> Option<T> {
        if self.peeked.is_none() {
            self.peeked = Some(self.lex.next());
        }
        self.peeked.unwrap()
    }
    fn kind(&mut self) -> Option<K> {
        self.peek().map(|t| t.k)
    }
    fn next(&mut self) -> R<T> {
        match self.peek() {
            None => Err(SyntaxError { why: Why::Eof, after: self.last }),
            Some(t) => {
                self.peeked = None;
                self.last = t.e;
                Ok(t)
            }
        }
    }
    /// the next token is not one that may come here
    fn bad<X>(&mut self) -> R<X> {
        match self.peek() {
            None => Err(SyntaxError { why: Why::Eof, after: self.last }),
            Some(t) => Err(SyntaxError { why: Why::Bad(t), after: self.last }),
        }
    }
    fn want(&mut self, k: K) -> R<T> {
        if self.kind() == Some(k) {
            self.next()
        } else {
            self.bad()
        }
    }
    fn text(&self, t: T) -> &'a [u8] {
        &self.t[t.s..t.e]
    }
    fn push(&mut self, what: &'static str, t: T, text: &[u8]) {
        self.ev.push(Ev { what, s: t.s, e: t.e, text: text.to_vec(), num: 0 });
    }
    fn diag(&mut self, kind: &'static str, s: usize, e: usize) {
        self.di.push(D { kind, s, e, opt: false });
    }
    /// the final ';'; returns the end of the statement
    fn semi(&mut self) -> R<usize> {
        if self.kind() == Some(K::Semi) {
            Ok(self.next()?.e)
        } else if self.recover && !matches!(self.kind(), Some(K::Unknown) | Some(K::Open)) {
            self.missing.push(self.last);
            Ok(self.last)
        } else {
            let why = Why::Semi(self.peek());
            Err(SyntaxError { why, after: self.last })
        }
    }
    /// checks a name that starts at offset `at`; `whole` is what diagnostics on the whole name point at
    fn name(&mut self, ctx: Name, at: usize, b: &[u8], whole: T) {
        let ok = |c: u8| match ctx {
            Name::Label => word(c) || c == b'_',
            Name::Property => name_char(c),
            Name::Node | Name::Address => word(c) || matches!(c, b',' | b'.' | b'_' | b'+' | b'-'),
        };
        for (i, c) in b.iter().enumerate() {
            if !ok(*c) {
                let mut e = at + i + 1;
                while e < self.t.len() && self.t[e] & 0xC0 == 0x80 {
                    e += 1;
                }
                return self.diag("illegal_char", at + i, e);
            }
        }
        if b.len() > 31 {
            self.diag("name_too_long", whole.s, whole.e)
        } else if b.is_empty() {
            self.diag("expected_name", whole.s, whole.e)
        } else if ctx == Name::Node && !letter(b[0]) || ctx == Name::Label && !(letter(b[0]) || b[0] == b'_') {
            self.diag("illegal_start", whole.s, whole.e)
        }
    }
    /// node name with optional unit address, starting at offset `at`
    fn node_name(&mut self, at: usize, b: &[u8], whole: T) {
        if b == b"__symbols__" {
            return;
        }
        let mut i = 0;
        while i < b.len() && b[i] != b'@' {
            i += 1;
        }
        self.name(Name::Node, at, &b[..i], whole);
        if i < b.len() {
            self.name(Name::Address, at + i + 1, &b[i + 1..], whole);
        }
    }
    fn reference(&mut self) -> R<T> {
        let t = match self.kind() {
            Some(K::RefLabel | K::RefPath) => self.next()?,
            _ => return self.bad(),
        };
        let b = self.text(t);
        if t.k == K::RefLabel {
            self.name(Name::Label, t.s + 1, &b[1..], t);
            self.push("ref", t, &b[1..]);
        } else {
            if b.len() == 3 {
                self.diag("path_cannot_be_empty", t.s, t.e);
            }
            let end = b.len() - 1;
            let mut i = 2;
            let mut txt = vec![];
            while i < end {
                let mut j = i;
                while j < end && b[j] != b'/' {
                    j += 1;
                }
                if j > i {
                    self.node_name(t.s + i, &b[i..j], t);
                    txt.push(b'/');
                    txt.extend_from_slice(&b[i..j]);
                }
                i = j + 1;
            }
            if txt.is_empty() {
                txt.push(b'/');
            }
            self.push("path", t, &txt);
        }
        Ok(t)
    }
    fn literal(&mut self, max: u64) -> R<()> {
        let t = self.want(K::Num)?;
        let n = number(self.text(t), max);
        if n.is_none() {
            self.diag("int_error", t.s, t.e);
        }
        self.ev.push(Ev { what: "num", s: t.s, e: t.e, text: vec![], num: n.unwrap_or(0) });
        Ok(())
    }
    fn labels(&mut self) -> R<()> {
        if self.kind() == Some(K::Label) {
            self.next()?;
        }
        Ok(())
    }
    /// returns (start, end, is a string)
    fn value(&mut self) -> R<(usize, usize, bool)> {
        if self.kind() == Some(K::Bits) {
            self.next()?;
            self.want(K::Num)?;
        }
        match self.kind() {
            Some(K::Str) => {
                let t = self.next()?;
                let v = unescape(self.text(t));
                self.push("string", t, &v);
                Ok((t.s, t.e, true))
            }
            Some(K::RefLabel | K::RefPath) => {
                let t = self.reference()?;
                Ok((t.s, t.e, false))
            }
            Some(K::Lt) => {
                let o = self.next()?;
                self.push("cells", o, b"");
                loop {
                    self.labels()?;
                    match self.kind() {
                        Some(K::Gt) => {
                            let c = self.next()?;
                            self.push("end", c, b"");
                            return Ok((o.s, c.e, false));
                        }
                        Some(K::Num) => self.literal(u32::MAX as u64)?,
                        Some(K::RefLabel | K::RefPath) => {
                            self.reference()?;
                        }
                        Some(K::LPar) => {
                            let mut depth = 0;
                            loop {
                                match self.next()?.k {
                                    K::LPar => depth += 1,
                                    K::RPar => depth -= 1,
                                    K::Open => return Err(SyntaxError { why: Why::Eof, after: self.last }),
                                    _ => {}
                                }
                                if depth == 0 {
                                    break;
                                }
                            }
                            self.ev.push(Ev { what: "expression", s: 0, e: 0, text: vec![], num: 0 });
                        }
                        _ => return self.bad(),
                    }
                }
            }
            Some(K::LBr) => {
                let o = self.next()?;
                self.push("bytes", o, b"");
                loop {
                    self.labels()?;
                    match self.kind() {
                        Some(K::RBr) => {
                            let c = self.next()?;
                            self.push("end", c, b"");
                            return Ok((o.s, c.e, false));
                        }
                        Some(K::Num | K::Ident) => {
                            let t = self.next()?;
                            let b = self.text(t);
                            let mut v = vec![];
                            if b.len() % 2 != 0 {
                                self.diag("odd_number_of_bytestring_elements", t.s, t.e);
                            } else {
                                let mut i = 0;
                                while i < b.len() {
                                    match (hex(b[i]), hex(b[i + 1])) {
                                        (Some(x), Some(y)) => v.push(x * 16 + y),
                                        _ => {
                                            self.diag("int_error", t.s, t.e);
                                            v.clear();
                                            break;
                                        }
                                    }
                                    i += 2;
                                }
                            }
                            self.push("bytestring", t, &v);
                        }
                        _ => return self.bad(),
                    }
                }
            }
            _ => self.bad(),
        }
    }
    fn payload(&mut self) -> R<usize> {
        self.want(K::LBrace)?;
        let mut nodes = false;
        loop {
            match self.kind() {
                Some(K::RBrace) => {
                    let t = self.next()?;
                    let e = self.semi()?;
                    self.ev.push(Ev { what: "end", s: if e == t.e { t.s } else { e - 1 }, e, text: vec![], num: 0 });
                    return Ok(e);
                }
                Some(K::DelNode) => {
                    let d = self.next()?;
                    let t = self.want(K::Ident)?;
                    let b = self.text(t);
                    self.node_name(t.s, b, t);
                    self.push("delete-node", d, b"");
                    self.push("name", t, b);
                    self.semi()?;
                    continue;
                }
                Some(K::DelProp) => {
                    let d = self.next()?;
                    let t = self.want(K::Ident)?;
                    // a unit address is no part of a property name
                    let b = self.text(t);
                    self.name(Name::Property, t.s, b, t);
                    self.push("delete-property", d, b"");
                    self.push("name", t, b);
                    self.semi()?;
                    continue;
                }
                _ => {}
            }
            let omit = if self.kind() == Some(K::Omit) { Some(self.next()?) } else { None };
            let label = if self.kind() == Some(K::Label) { Some(self.next()?) } else { None };
            let name = self.want(K::Ident)?;
            let start = label.map(|l| l.s).unwrap_or(name.s);
            if let Some(l) = label {
                let b = &self.t[l.s..l.e - 1];
                self.name(Name::Label, l.s, b, l);
            }
            let b = self.text(name);
            match self.kind() {
                Some(K::LBrace) => {
                    nodes = true;
                    self.push("node", name, b);
                    if let Some(l) = label {
                        self.push("label", l, &self.t[l.s..l.e - 1]);
                    }
                    if let Some(o) = omit {
                        self.push("omit", o, b"");
                    }
                    self.node_name(name.s, b, name);
                    self.payload()?;
                }
                Some(K::Eq | K::Semi) => {
                    self.push("property", name, b);
                    if let Some(l) = label {
                        self.push("label", l, &self.t[l.s..l.e - 1]);
                    }
                    self.name(Name::Property, name.s, b, name);
                    if self.kind() == Some(K::Eq) {
                        self.next()?;
                        loop {
                            self.labels()?;
                            let (s, e, string) = self.value()?;
                            self.labels()?;
                            if b == b"compatible" && !string {
                                self.diag("non_string_in_compatible", s, e);
                            }
                            if self.kind() == Some(K::Comma) {
                                self.next()?;
                            } else {
                                break;
                            }
                        }
                    }
                    let e = self.semi()?;
                    if let Some(o) = omit {
                        self.diag("incorrect_directive", o.s, o.e);
                    }
                    if nodes {
                        self.diag("property_after_node", start, e);
                    }
                    self.ev.push(Ev { what: "end-property", s: start, e, text: vec![], num: 0 });
                }
                // "name" alone: only the ';' is missing when something else can follow
                _ => return self.bad(),
            }
        }
    }
    fn primary(&mut self) -> R<()> {
        let Some(t) = self.peek() else { return Ok(()) };
        match t.k {
            K::DtsV1 | K::Plugin => {
                self.next()?;
                self.push(if t.k == K::DtsV1 { "dts-v1" } else { "plugin" }, t, b"");
                self.semi()?;
            }
            K::Memreserve => {
                self.next()?;
                self.push("memreserve", T { k: t.k, s: 0, e: 0 }, b"");
                self.literal(u64::MAX)?;
                self.literal(u64::MAX)?;
                self.semi()?;
            }
            K::Ident if self.text(t) == b"#include" => {
                self.next()?;
                let f = self.want(K::Str)?;
                let v = unescape(self.text(f));
                self.push("c-include", T { k: t.k, s: 0, e: 0 }, &v);
            }
            K::Include => {
                self.next()?;
                let f = self.want(K::Str)?;
                let v = unescape(self.text(f));
                self.push("include", T { k: t.k, s: t.s, e: f.e }, &v);
                if self.kind() == Some(K::Semi) {
                    let s = self.next()?;
                    self.diag("parser_error", s.s, s.e);
                }
            }
            K::Slash => {
                self.next()?;
                self.push("root", t, b"/");
                self.payload()?;
            }
            K::RefLabel | K::RefPath => {
                self.push("reference-node", T { k: t.k, s: 0, e: 0 }, b"");
                self.reference()?;
                self.payload()?;
            }
            K::DelNode | K::Omit => {
                self.next()?;
                self.push(if t.k == K::DelNode { "delete" } else { "omit" }, t, b"");
                self.reference()?;
                self.semi()?;
            }
            _ => return self.bad(),
        }
        Ok(())
    }
    pub fn file(&mut self) -> R<()> {
        while self.peek().is_some() {
            self.primary()?;
        }
        Ok(())
    }
}

pub fn hex(b: u8) -> Option<u8> {
    match b {
        b'0'..=b'9' => Some(b - b'0'),
        b'a'..=b'f' => Some(b - b'a' + 10),
        b'A'..=b'F' => Some(b - b'A' + 10),
        _ => None,
    }
}
