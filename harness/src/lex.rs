//! The token stream against the reference lexer, and faithfulness of tokens to the text.
use super::common::*;
use super::spec::{self, Lex, K};
use super::sx;
use ginko::dts::verif_hooks::*;
use ginko::dts::*;
use std::path::Path as StdPath;
use std::sync::Arc;

fn kind_of(k: &TokenKind) -> Option<K> {
    use CompilerDirective as C;
    Some(match k {
        TokenKind::Semicolon => K::Semi,
        TokenKind::Slash => K::Slash,
        TokenKind::Equal => K::Eq,
        TokenKind::OpenBracket => K::LBr,
        TokenKind::CloseBracket => K::RBr,
        TokenKind::OpenParen => K::LPar,
        TokenKind::CloseParen => K::RPar,
        TokenKind::ChevronLeft => K::Lt,
        TokenKind::ChevronRight => K::Gt,
        TokenKind::Comma => K::Comma,
        TokenKind::OpenBrace => K::LBrace,
        TokenKind::CloseBrace => K::RBrace,
        TokenKind::Ident(_) => K::Ident,
        TokenKind::Label(_) => K::Label,
        TokenKind::String(_) => K::Str,
        TokenKind::UnparsedNumber(_) => K::Num,
        TokenKind::Directive(d) => match d {
            C::DTSVersionHeader => K::DtsV1,
            C::MemReserve => K::Memreserve,
            C::DeleteNode => K::DelNode,
            C::DeleteProperty => K::DelProp,
            C::Plugin => K::Plugin,
            C::Bits => K::Bits,
            C::OmitIfNoRef => K::Omit,
            C::Include => K::Include,
            C::Other(_) => K::OtherDir,
        },
        TokenKind::Ref(TokenReference::Simple(_)) => K::RefLabel,
        TokenKind::Ref(TokenReference::Path(_)) => K::RefPath,
        TokenKind::Comment(_) => return None,
        TokenKind::Unknown(_) => K::Unknown,
    })
}

pub fn lex_conform(text: &[u8]) {
    let src: Arc<StdPath> = StdPath::new("/w/a.dts").into();
    let mut lexer = Lexer::from_text(unsafe { String::from_utf8_unchecked(text.to_vec()) }, src.clone());
    let mut want = Lex::new(text);
    let map = Map::new(text);
    loop {
        // comments are no tokens of the language
        let mut got = lexer.next();
        while let Some(Token { kind: TokenKind::Comment(c), span, .. }) = &got {
            sx::reach("comment");
            sx::check(span.end() > span.start() && !c.contains("*/"), "a comment ends at its first end marker");
            got = lexer.next();
        }
        let w = want.next();
        let (Some(g), Some(w)) = (&got, &w) else {
            sx::check(got.is_none() && w.is_none(), "the text is split into tokens to its end");
            break;
        };
        let k = kind_of(&g.kind).unwrap();
        match w.k {
            K::Open => {
                sx::reach("cut off");
                sx::check(k == K::Unknown, "what the end of the file cuts off is no valid token");
            }
            _ => sx::check(k == w.k, "every token has the kind of its text"),
        }
        sx::check(g.span == Span::new(map.at(w.s), map.at(w.e)), "every token has the position of its text");
        sx::check(g.source == src, "every token knows its file");
        let t = &text[w.s..w.e];
        let same = match &g.kind {
            TokenKind::Ident(v) | TokenKind::UnparsedNumber(v) => v.as_bytes() == t,
            TokenKind::Label(v) => v.as_bytes() == &t[..t.len() - 1],
            TokenKind::String(v) => v.as_bytes() == spec::unescape(t),
            TokenKind::Ref(TokenReference::Simple(v)) => v.as_bytes() == &t[1..],
            TokenKind::Ref(TokenReference::Path(v)) => v.as_bytes() == &t[2..t.len() - 1],
            TokenKind::Directive(CompilerDirective::Other(v)) => w.k == K::Open || v.as_bytes() == &t[1..t.len() - 1],
            _ => true,
        };
        sx::check(same, "every token has the contents of its text");
        sx::reach("token");
        if w.k == K::Open {
            sx::check(lexer.next().is_none(), "nothing follows what the end of the file cuts off");
            break;
        }
    }
}

/// any text of n bytes (UTF-8)
pub fn bytes() {
    let n = sx::param("n", 4) as usize;
    lex_conform(&sym_text("b", n, sx::param("multi", 1) == 1));
}

/// starts of tokens, continued with any bytes
const HEAD: &[&str] = &[
    "/*", "//", "/*x*", "\"", "\"a\\", "&{", "&{/a", "&l", "&", "/d", "/dts-v1", "/include", "/delete-node", "/omit-if-no-ref", "/plugin", "/bits", "/memreserve", "/delete-property", "n", "n@1", "n@", "#", "= -", "= a", "1", "0x",
    ",", "x;", "{ ?", "= [0", "l:", "\"\u{e9}", "\u{20ac}",
];
pub fn heads() {
    let n = sx::param("n", 3) as usize;
    let h = HEAD[sx::choose("head", HEAD.len())];
    lex_conform(&cat(&[h.as_bytes(), &sym_text("b", sx::choose("length", n + 1), sx::param("multi", 1) == 1)]));
}

const FRAG: &[&str] = &[
    "a", "b@1", "l:", ";", "{", "}", "=", "<", ">", "[", "]", "(", ")", ",", "/", "\"s\"", "\"\\\"", "12", "0x", "&l", "&{/n}", "&", "/dts-v1/", "/bits/",
    "/x/", "/*c*/", "//c\n", "\n", "\t", "\r", "#", "?", "-", "\u{e9}", "\u{20ac}", "\\", "@", ":",
];
/// k fragments, without anything between them
pub fn frags() {
    let k = sx::param("k", 3) as usize;
    let mut t = vec![];
    for _ in 0..k {
        t.extend_from_slice(FRAG[sx::choose("frag", FRAG.len())].as_bytes());
    }
    lex_conform(&t);
}
