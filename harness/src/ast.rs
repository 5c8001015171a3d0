//! The implementation's syntax tree as a list of events comparable with `spec::Ev`.
#![allow(dead_code)]
use ginko::dts::verif_hooks::*;
use ginko::dts::*;

pub struct Ev {
    pub what: &'static str,
    pub span: Option<Span>,
    pub text: Vec<u8>,
    pub num: u64,
}

/// the name with its unit address
fn full(n: &NodeName) -> Vec<u8> {
    let mut v = n.name.as_bytes().to_vec();
    if let Some(a) = &n.unit_address {
        v.push(b'@');
        v.extend_from_slice(a.as_bytes());
    }
    v
}

struct W {
    v: Vec<Ev>,
}

impl W {
    fn push(&mut self, what: &'static str, span: Option<Span>, text: &[u8]) {
        self.v.push(Ev { what, span, text: text.to_vec(), num: 0 });
    }
    fn reference(&mut self, r: &WithToken<Reference>) {
        match r.item() {
            Reference::Label(l) => self.push("ref", Some(r.span()), l.as_bytes()),
            Reference::Path(p) => {
                // (not as the implementation prints it)
                let mut t = vec![];
                for n in p.iter() {
                    t.push(b'/');
                    t.extend_from_slice(&full(n));
                }
                if t.is_empty() {
                    t.push(b'/');
                }
                self.push("path", Some(r.span()), &t)
            }
        }
    }
    fn payload(&mut self, p: &NodePayload) {
        for i in &p.items {
            match i {
                NodeItem::DeletedNode(t, n) => {
                    self.push("delete-node", Some(t.span()), b"");
                    self.push("name", Some(n.span()), &full(n.item()));
                }
                NodeItem::DeletedProperty(t, n) => {
                    self.push("delete-property", Some(t.span()), b"");
                    self.push("name", Some(n.span()), n.item().as_bytes());
                }
                NodeItem::Node(n) => {
                    self.push("node", Some(n.name.span()), &full(n.name.item()));
                    if let Some(l) = &n.label {
                        self.push("label", Some(l.span()), l.item().as_bytes());
                    }
                    if let Some(o) = &n.omit_if_no_ref {
                        self.push("omit", Some(o.span()), b"");
                    }
                    self.payload(&n.payload);
                }
                NodeItem::Property(q) => {
                    self.push("property", Some(q.name.span()), q.name.item().as_bytes());
                    if let Some(l) = &q.label {
                        self.push("label", Some(l.span()), l.item().as_bytes());
                    }
                    for v in &q.values {
                        match v {
                            PropertyValue::String(s) => self.push("string", Some(s.span()), s.item().as_bytes()),
                            PropertyValue::Reference(r) => self.reference(r),
                            PropertyValue::Cells(s, c, e) => {
                                self.push("cells", Some(s.span()), b"");
                                for c in c {
                                    match c {
                                        Cell::Number(n) => self.v.push(Ev { what: "num", span: Some(n.span()), text: vec![], num: *n.item() as u64 }),
                                        Cell::Reference(r) => self.reference(r),
                                        Cell::Expression => self.push("expression", None, b""),
                                    }
                                }
                                self.push("end", Some(e.span()), b"");
                            }
                            PropertyValue::ByteStrings(s, b, e) => {
                                self.push("bytes", Some(s.span()), b"");
                                for b in b {
                                    self.push("bytestring", Some(b.span()), b.item());
                                }
                                self.push("end", Some(e.span()), b"");
                            }
                        }
                    }
                    self.push("end-property", Some(q.span()), b"");
                }
            }
        }
        self.push("end", Some(p.end.span()), b"");
    }
}

pub fn events(f: &DtsFile) -> Vec<Ev> {
    let mut w = W { v: vec![] };
    for p in &f.elements {
        match p {
            Primary::Directive(d) => match d {
                AnyDirective::DtsHeader(t) => w.push("dts-v1", Some(t.span()), b""),
                AnyDirective::Plugin(t) => w.push("plugin", Some(t.span()), b""),
                AnyDirective::Memreserve(m) => {
                    w.push("memreserve", None, b"");
                    let (a, l) = m.verif_parts();
                    for n in [a, l] {
                        w.v.push(Ev { what: "num", span: Some(n.span()), text: vec![], num: *n.item() });
                    }
                }
                AnyDirective::Include(i) => w.push("include", Some(i.span()), i.file_name.item().as_bytes()),
                AnyDirective::DeletedNode(t, r) => {
                    w.push("delete", Some(t.span()), b"");
                    w.reference(r);
                }
                AnyDirective::OmitIfNoRef(t, r) => {
                    w.push("omit", Some(t.span()), b"");
                    w.reference(r);
                }
            },
            Primary::Root(n) => {
                w.push("root", Some(n.name.span()), n.name.name.as_bytes());
                w.payload(&n.payload);
            }
            Primary::ReferencedNode(n) => {
                w.push("reference-node", None, b"");
                w.reference(&n.reference);
                w.payload(&n.payload);
            }
            Primary::CStyleInclude(s) => w.push("c-include", None, s.as_bytes()),
        }
    }
    w.v
}
