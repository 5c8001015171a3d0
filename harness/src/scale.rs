//! Long and large documents, read as the reference reads them.
use super::common::*;
use super::grammar::conform;
use super::lex::lex_conform;
use super::query::renders;
use super::shapes::doc;
use super::spec::Spec;
use super::sx;
use ginko::dts::*;
use ginko::dts::verif_hooks::Reference;

/// as the reference reads it
pub fn scale() {
    conform(&analyze("a.dts", doc()));
}

/// its tokens
pub fn tokens() {
    lex_conform(&doc());
}

/// its diagnostics, rendered
pub fn render() {
    let r = analyze("a.dts", doc());
    renders(&r);
}

/// what is under a cursor at and beside the first and last labels, references and includes
pub fn cursor() {
    let r = analyze("a.dts", doc());
    let mut s = Spec::new(&r.text);
    if s.file().is_err() {
        return;
    }
    let map = Map::new(&r.text);
    let ev: Vec<_> = s.ev.iter().filter(|e| matches!(e.what, "label" | "ref" | "path" | "include")).collect();
    for (i, e) in ev.iter().enumerate() {
        if i >= 6 && i + 6 < ev.len() {
            continue;
        }
        let at = |off: usize| r.project.find_at_pos(&r.path, &map.at(off));
        for off in [e.s, (e.s + e.e) / 2, e.e - 1] {
            let ok = match at(off) {
                Some(ItemAtCursor::Label(l)) => e.what == "label" && l.item().as_bytes() == e.text && l.span().start() == map.at(e.s),
                Some(ItemAtCursor::Reference(Reference::Label(l))) => e.what == "ref" && l.as_bytes() == e.text,
                Some(ItemAtCursor::Reference(Reference::Path(p))) => e.what == "path" && format!("{p}").as_bytes() == e.text,
                Some(ItemAtCursor::Include(x)) => e.what == "include" && x.file_name.item().as_bytes() == e.text && x.span().start() == map.at(e.s),
                _ => false,
            };
            sx::reach(e.what);
            sx::check(ok, "the item under the cursor is the one whose text the cursor is in");
        }
        for off in [e.e, e.s.max(1) - 1] {
            if e.s > 0 && !ev.iter().any(|x| x.s <= off && off < x.e) {
                sx::check(at(off).is_none(), "nothing is found beside labels, references and includes");
            }
        }
    }
}
