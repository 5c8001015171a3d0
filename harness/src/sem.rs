//! Reference semantics of a well-formed file: header rules and references, computed from
//! the events of `spec`.  Include directives are looked up by a callback.
#![allow(dead_code)]
use super::spec::{Ev, D};

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Type {
    Source,
    Include,
    Overlay,
}
pub fn type_of(name: &str) -> Type {
    if name.ends_with(".dts") {
        Type::Source
    } else if name.ends_with(".dtso") || name.ends_with(".overlay") {
        Type::Overlay
    } else {
        Type::Include
    }
}

/// where a node is defined: file index, offsets of its name
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Def {
    pub file: usize,
    pub s: usize,
    pub e: usize,
}
/// what a file makes visible
#[derive(Clone, Default)]
pub struct Env {
    /// label -> a node's path and name; or a property (no path)
    pub labels: Vec<(Vec<u8>, Option<(Vec<u8>, Def)>)>,
    pub nodes: Vec<(Vec<u8>, Def)>,
    /// an extension of something unknown: paths below it are not known for certain
    pub vague: bool,
}
impl Env {
    pub fn node_label(&self, l: &[u8]) -> bool {
        self.labels.iter().any(|x| x.1.is_some() && x.0 == l)
    }
    pub fn prop_label(&self, l: &[u8]) -> bool {
        self.labels.iter().any(|x| x.1.is_none() && x.0 == l)
    }
    pub fn path(&self, p: &[u8]) -> bool {
        self.nodes.iter().any(|x| x.0 == p)
    }
    pub fn add(&mut self, o: &Env) {
        // the last one counts, and is kept once
        self.labels.retain(|x| !o.labels.contains(x));
        self.nodes.retain(|x| !o.nodes.contains(x));
        self.labels.extend(o.labels.iter().cloned());
        self.nodes.extend(o.nodes.iter().cloned());
        self.vague |= o.vague;
    }
    /// the possible targets of a reference (several definitions of a node may exist)
    pub fn targets(&self, what: &str, text: &[u8]) -> Vec<Def> {
        if what == "ref" {
            self.labels.iter().filter(|x| x.0 == text).filter_map(|x| x.1.as_ref().map(|d| d.1)).collect()
        } else {
            self.nodes.iter().filter(|x| x.0 == text).map(|x| x.1).collect()
        }
    }
}

pub enum Included<'a> {
    /// cannot be found or not readable
    Missing,
    Known(&'a Env, bool),
    /// completes a cycle of includes
    Cycle,
}

pub struct Sem {
    pub di: Vec<D>,
    pub env: Env,
}

fn join(p: &[u8], name: &[u8]) -> Vec<u8> {
    let mut v = if p == b"/" { vec![] } else { p.to_vec() };
    v.push(b'/');
    v.extend_from_slice(name);
    v
}

pub fn analyze<'e>(file: usize, ty: Type, ev: &[Ev], include: &dyn Fn(&Ev) -> Included<'e>) -> Sem {
    let mut di: Vec<D> = vec![];
    let mut env = Env::default();
    let mut header = false;
    let mut other = false;
    let mut plugin = ty == Type::Overlay;
    let mut values: Vec<&Ev> = vec![];
    let mut i = 0;
    // resolves the reference of a top-level item against what is known so far
    fn top(env: &Env, r: &Ev, strict: bool, di: &mut Vec<D>) -> Option<Vec<u8>> {
        if r.what == "ref" {
            let known = env.node_label(&r.text);
            if strict && !known {
                di.push(D { kind: "unresolved_reference", s: r.s, e: r.e, opt: false });
            } else if strict && env.prop_label(&r.text) {
                di.push(D { kind: "unresolved_reference", s: r.s, e: r.e, opt: true });
            }
            env.labels.iter().rev().find(|l| l.1.is_some() && l.0 == r.text).map(|l| l.1.as_ref().unwrap().0.clone())
        } else {
            if strict && (env.vague || !env.path(&r.text)) {
                di.push(D { kind: "unresolved_reference", s: r.s, e: r.e, opt: env.vague });
            }
            Some(r.text.clone())
        }
    }
    while i < ev.len() {
        let e = &ev[i];
        i += 1;
        let strict = ty == Type::Source && !plugin;
        let mut path: Option<Vec<u8>> = None;
        match e.what {
            "dts-v1" => {
                if header {
                    di.push(D { kind: "duplicate_directive", s: e.s, e: e.e, opt: false });
                } else if other {
                    di.push(D { kind: "misplaced_dts_header", s: e.s, e: e.e, opt: false });
                }
                header = true;
            }
            "plugin" => {
                other = true;
                plugin = true;
            }
            "memreserve" => {
                other = true;
                i += 2;
            }
            "c-include" => {}
            "include" => match include(e) {
                Included::Missing => di.push(D { kind: "io_error", s: e.s, e: e.e, opt: false }),
                Included::Cycle => di.push(D { kind: "cyclic_dependency_error", s: e.s, e: e.e, opt: false }),
                Included::Known(o, errors) => {
                    if errors {
                        di.push(D { kind: "errors_in_include", s: e.s, e: e.e, opt: false });
                    }
                    env.add(o);
                }
            },
            "delete" | "omit" => {
                other = true;
                top(&env, &ev[i], strict, &mut di);
                i += 1;
            }
            "reference-node" => {
                other = true;
                let r = &ev[i];
                i += 1;
                path = top(&env, r, strict, &mut di);
                if r.what == "ref" && env.node_label(&r.text) && env.prop_label(&r.text) {
                    // a label of a node and of a property: outside the claim
                    env.vague = true;
                }
                if path.is_none() {
                    // assumed to be the root, in lack of anything better
                    env.vague = true;
                    path = Some(b"/".to_vec());
                }
            }
            "root" => {
                other = true;
                env.nodes.push((b"/".to_vec(), Def { file, s: e.s, e: e.e }));
                path = Some(b"/".to_vec());
            }
            _ => {}
        }
        let Some(path) = path else { continue };
        let mut stack = vec![path];
        while !stack.is_empty() {
            let e = &ev[i];
            i += 1;
            match e.what {
                "node" => {
                    let p = join(stack.last().unwrap(), &e.text);
                    let def = Def { file, s: e.s, e: e.e };
                    if ev[i].what == "label" {
                        env.labels.push((ev[i].text.clone(), Some((p.clone(), def))));
                        i += 1;
                    }
                    env.nodes.push((p.clone(), def));
                    stack.push(p);
                }
                "property" => {
                    if ev[i].what == "label" {
                        env.labels.push((ev[i].text.clone(), None));
                        i += 1;
                    }
                    while ev[i].what != "end-property" {
                        if matches!(ev[i].what, "ref" | "path") {
                            values.push(&ev[i]);
                        }
                        i += 1;
                    }
                    i += 1;
                }
                "end" => {
                    stack.pop();
                }
                _ => {}
            }
        }
    }
    if !header && ty == Type::Source {
        di.push(D { kind: "non_dts_v1", s: 0, e: 0, opt: false });
    }
    if ty == Type::Source && !plugin {
        for r in values {
            let (known, opt) = if r.what == "ref" {
                (env.node_label(&r.text) || env.prop_label(&r.text), false)
            } else {
                (!env.vague && env.path(&r.text), env.vague)
            };
            if !known {
                di.push(D { kind: "unresolved_reference", s: r.s, e: r.e, opt });
            }
        }
    }
    Sem { di, env }
}
