//! Literals and names: what they stand for, and what is reported about them.
use super::common::*;
use super::grammar::conform;
use super::sx;

fn digits(name: &str, set: &[u8], n: usize, v: &mut Vec<u8>) {
    for _ in 0..n {
        v.push(sx::oneof(name, set));
    }
}
const DEC: &[u8] = b"0123456789";
const HEX: &[u8] = b"0123456789abcdefABCDEF";
const ALNUM: &[u8] = b"0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";

/// a literal in each place of a number; `base` 10, 16, 8, 0 (any letters and digits), `n` characters
pub fn numbers() {
    let n = sx::param("n", 4) as usize;
    let base = sx::param("base", 10);
    let place = sx::choose("place", 3);
    // long literals: symbolic at both ends, the middle being all zeros or all ones
    let free = sx::param("free", 99) as usize;
    let mut lit = vec![];
    let set = match base {
        10 => DEC,
        16 => {
            lit.extend_from_slice(b"0x");
            HEX
        }
        8 => {
            lit.push(b'0');
            DEC
        }
        _ => {
            lit.push(sx::oneof("first", DEC));
            ALNUM
        }
    };
    if n <= free {
        digits("d", set, n, &mut lit);
    } else {
        digits("d", set, free / 2, &mut lit);
        let fill = [b'0', if base == 16 { b'f' } else if base == 8 { b'7' } else { b'9' }][sx::choose("fill", 2)];
        for _ in 0..n - free {
            lit.push(fill);
        }
        digits("d", set, free - free / 2, &mut lit);
    }
    let t = match place {
        0 => cat(&[b"/ { a = <1 ", &lit, b" 0x2>; };"]),
        1 => cat(&[b"/memreserve/ ", &lit, b" 0x2;"]),
        _ => cat(&[b"/memreserve/ 1 ", &lit, b";"]),
    };
    sx::note("literal", &lit);
    conform(&analyze("a.dtsi", t));
}

/// the largest literals, exactly at the limits: the first `n` digits are those of the limit
pub fn limits() {
    let lims: &[(&str, usize)] = &[
        ("4294967295", 0), ("0xffffffff", 0), ("037777777777", 0), ("18446744073709551615", 1), ("0xffffffffffffffff", 1), ("01777777777777777777777", 1),
    ];
    let (l, place) = lims[sx::choose("limit", lims.len())];
    let l = l.as_bytes();
    let pre = if l[1] == b'x' { 2 } else if l[0] == b'0' { 1 } else { 0 };
    // `free` digits from some position on
    let free = sx::param("free", 2) as usize;
    let at = pre + sx::choose("at", l.len() - pre - free + 1);
    let mut lit = l.to_vec();
    for i in at..at + free {
        lit[i] = sx::oneof("d", if pre == 2 { HEX } else { DEC });
    }
    if sx::flip("longer") {
        lit.push(sx::oneof("last", DEC));
    }
    let place = if place == 1 { 1 + sx::choose("place", 2) } else { 0 };
    let t = match place {
        0 => cat(&[b"/ { a = <", &lit, b">; };"]),
        1 => cat(&[b"/memreserve/ ", &lit, b" 0x2;"]),
        _ => cat(&[b"/memreserve/ 1 ", &lit, b";"]),
    };
    sx::note("literal", &lit);
    conform(&analyze("a.dtsi", t));
}

/// n bytes inside [ ]
pub fn bytestrings() {
    let n = sx::param("n", 4) as usize;
    let mut h = vec![];
    match sx::param("set", 0) {
        0 => digits("b", b"0129afAFgGxX _+-,.?# ]l:", n, &mut h),
        1 => digits("b", HEX, n, &mut h),
        _ => h = sym_text("b", n, true),
    }
    let t = match sx::choose("place", 2) {
        0 => cat(&[b"/ { a = [", &h, b"], \"s\"; b; };"]),
        _ => cat(&[b"/ { a = [00 ", &h, b"ff]; };"]),
    };
    conform(&analyze("a.dtsi", t));
}

/// n bytes inside a string, at each place of a string
pub fn strings() {
    let n = sx::param("n", 3) as usize;
    let h = match sx::param("set", 0) {
        0 => sym_text("b", n, true),
        _ => {
            let mut h = vec![];
            digits("b", b"\"\\ a\n/*{;\xc3\xa9", n, &mut h);
            for i in 0..n {
                // whole characters only
                sx::assume((h[i] == 0xc3) == (i + 1 < n && h[i + 1] == 0xa9));
                sx::assume(i > 0 || h[i] != 0xa9);
            }
            h
        }
    };
    let t = match sx::choose("place", 4) {
        0 => cat(&[b"/ { a = \"", &h, b"\"; };"]),
        1 => cat(&[b"/ { a = \"x", &h, b"y\", \"z\"; b = <1>; };"]),
        2 => cat(&[b"/ { compatible = \"", &h, b"\", \"\\\\\"; };"]),
        _ => cat(&[b"#include \"", &h, b"\" / { };"]),
    };
    conform(&analyze("a.dtsi", t));
}

const NAME: &[u8] = b"azAZ059,._+-?#@:/ \\\"*{=;";
/// names of every kind: `len` fixed letters with n symbolic characters at the start, at the end or amid
pub fn names() {
    let n = sx::param("n", 2) as usize;
    let base = sx::param("base", 0) as usize;
    let len = base + sx::choose("length", sx::param("lengths", 1) as usize);
    let mut sym = vec![];
    match sx::param("set", 0) {
        0 => digits("c", NAME, n, &mut sym),
        _ => sym = sym_text("c", n, true),
    }
    let letters = vec![b'n'; len];
    let m = match if len == 0 { 0 } else { sx::choose("at", if len == 1 { 2 } else { 3 }) } {
        0 => cat(&[&sym, &letters]),
        1 => cat(&[&letters, &sym]),
        _ => cat(&[&letters[..len / 2], &sym, &letters[len / 2..]]),
    };
    const P: &[(&str, &str)] = &[
        ("/ { ", " { }; };"),
        ("/ { ", ": n { }; };"),
        ("/ { ", " = <1>; };"),
        ("/ { ", "; };"),
        ("/ { m@", " { }; };"),
        ("/ { ", "@0 { }; };"),
        ("/ { ", ": p; };"),
        ("/ { a = &", "; };"),
        ("/ { a = <&", ">; };"),
        ("/ { a = &{/", "}; };"),
        ("/ { a = <&{/n/", "/m}>; };"),
        ("/ { /delete-node/ ", "; };"),
        ("/ { /delete-property/ ", "; };"),
        ("&", " { };"),
        ("/delete-node/ &", ";"),
        ("/ { a = &{", "}; };"),
        ("/ { a = <&{", "/m}>; };"),
        ("&{", "} { };"),
        ("/delete-node/ &{/", "};"),
        ("", ": /memreserve/ 0 1;"),
    ];
    let p = sx::choose("place", P.len());
    conform(&analyze("a.dtsi", cat(&[P[p].0.as_bytes(), &m, P[p].1.as_bytes()])));
}
