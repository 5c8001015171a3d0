//! Long and large: one construct repeated or stretched.
use super::common::*;
use super::sx;

const COUNTS: &[usize] = &[0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300];
const LARGE: &[usize] = &[1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 10000, 32767, 32768, 65535, 65536, 65537, 70000];

struct S {
    pre: &'static str,
    /// repeated, with the number of the repetition for '$'
    rep: &'static str,
    post: &'static str,
    max: usize,
}
const fn s(pre: &'static str, rep: &'static str, post: &'static str, max: usize) -> S {
    S { pre, rep, post, max }
}
const SHAPES: &[S] = &[
    // long lines, many lines
    s("/dts-v1/;\n/ { ", " ", "a = <&x>; b; };", 70000),
    s("/dts-v1/;\n/ { ", "\n", "a = <&x>; b; };", 70000),
    s("/dts-v1/;\n/ { ", "\t", "a = <&x>; b; };", 300),
    s("/dts-v1/;\n/ { ", "\r\n", "a = <&x>; b; };", 300),
    s("/dts-v1/;\n/ { /*", "c", "*/ a = <&x>; b; };", 70000),
    s("/dts-v1/;\n/ { /*", "\u{20ac}", "*/ a = <&x>; b; };", 10000),
    s("/dts-v1/;\n/ { /*", "*\n", "*/ a = <&x>; b; };", 10000),
    s("/dts-v1/;\n/ { //", "/", "\na = <&x>; b; };", 10000),
    s("/dts-v1/;\n/ { ", "/**/", "a = <&x>; b; };", 1000),
    s("/dts-v1/;\n/ { ", "// x\n", "a = <&x>; b; };", 1000),
    // strings
    s("/dts-v1/;\n/ { a = \"", "c", "\", <&x>; b; };", 70000),
    s("/dts-v1/;\n/ { a = \"", "\u{20ac}", "\", <&x>; b; };", 10000),
    s("/dts-v1/;\n/ { a = \"", "\\\"", "\", <&x>; b; };", 300),
    s("/dts-v1/;\n/ { a = \"", "x\n", "\", <&x>; b; };", 300),
    s("/dts-v1/;\n/ { a = <&x>", ", \"s$\"", "; b; };", 300),
    s("/dts-v1/;\n/ { compatible = \"s\"", ", \"s$\"", "; b; };", 300),
    s("/dts-v1/;\n/ { compatible = \"s\"", ", \"s$\"", ", [00 11], <1>, \"t\"; b; };", 300),
    // cells and bytes
    s("/dts-v1/;\n/ { a = <", " $", ">; b; };", 300),
    s("/dts-v1/;\n/ { a = <", "0x$ ", "&x>; b; };", 300),
    s("/dts-v1/;\n/ { a = <1>", ", <$ &x>", "; b; };", 129),
    s("/dts-v1/;\n/ { a = <0", "0", ">; b; };", 300),
    s("/dts-v1/;\n/ { a = <0x", "0", "1>; b; };", 300),
    s("/dts-v1/;\n/ { a = [", "0f", "]; b; };", 1000),
    s("/dts-v1/;\n/ { a = [", "0f ", "]; b; };", 1000),
    s("/dts-v1/;\n/ { a = [", "0f0", "]; b; };", 100),
    s("/dts-v1/;\n/ { a = [1", "0f", "]; b; };", 1000),
    s("/dts-v1/;\n/ { a = [1 ", "0f", "]; b; };", 1000),
    s("/dts-v1/;\n/ { a = <(1", " + $", ")>; b; };", 300),
    // names and references
    s("/dts-v1/;\n/ { a", "b", "; b; };", 1000),
    s("/dts-v1/;\n/ { l: a", "b", "@1 { }; c = &l; };", 300),
    s("/dts-v1/;\n/ { l", "b", ": a { }; c = &lb; };", 300),
    s("/dts-v1/;\n/ { a = &l", "b", "; };", 300),
    s("/dts-v1/;\n/ { n { }; a = &{", "/n", "}; };", 300),
    // many elements
    s("/dts-v1/;\n/ { ", "p$;", "b; };", 300),
    s("/dts-v1/;\n/ { ", "l$: p$ = &n$, <1>; ", "m0: n0 { }; };", 129),
    s("/dts-v1/;\n/ { ", "l$: n$ { }; ", "};\n&l0 { a = <&x>; };", 129),
    s("/dts-v1/;\n/ { a = &l0; ", "l$: ", "n { }; };", 300),
    s("/dts-v1/;\n/ { a = <&x ", "l$: ", "1>; };", 300),
    s("/dts-v1/;\n", "/ { l$: n { }; };\n", "/ { a = &l1, &l2; };", 129),
    s("/dts-v1/;\n/ { l: n { }; };\n", "&l { m$: o$ { }; };\n", "/ { a = &m1, &m300; };", 129),
    s("/dts-v1/;\n/ { l: n { }; };\n&l { ", "m$: o$ { }; ", "};\n/ { a = &m1, &m300, &{/n/o0}, &{/n/o300}; };", 129),
    s("/dts-v1/;\n/ { l: n { }; };\n&{/n} { ", "m$: o$ { }; ", "};\n/ { a = &m1, &m300, &{/n/o0}, &{/n/o300}; };", 129),
    s("/dts-v1/;\n/ { l: n { }; };\n", "/delete-node/ &l;\n", "/ { a = &l, &x; };", 129),
    s("/dts-v1/;\n/ { l: n { ", "/delete-property/ p$; /delete-node/ n$; ", "}; a = &l, &x; };", 129),
    s("/dts-v1/;\n", "/memreserve/ $ 1;\n", "/ { a = &x; };", 300),
    s("/dts-v1/;\n", "#include \"x.h\"\n", "/ { a = &x; };", 300),
    s("/dts-v1/;\n", "/plugin/;\n", "/ { a = &x; };", 100),
    s("", "#include <x.h>\n", "/dts-v1/;\n/ { a = &x; };", 300),
    // many errors
    s("/dts-v1/;\n/ { a = <", "&x ", ">; };", 300),
    s("/dts-v1/;\n/ { a = <", "0x ", ">; b; };", 129),
    s("/dts-v1/;\n/ { ", "p?;", "b; };", 129),
    s("/dts-v1/;\n/ { n { };", "p$;", "};", 129),
    s("/dts-v1/;\n", "&x { };\n", "/ { b; };", 129),
    s("/dts-v1/;\n", "/dts-v1/;\n", "/ { b; };", 129),
];

/// opened n times and closed as often
const NESTED: &[(&str, &str, &str, &str, &str, usize)] = &[
    ("/dts-v1/;\n/ { ", "n { ", "a = <&x>; ", "}; ", "b; };", 126),
    ("/dts-v1/;\n/ { ", "l$: n$@1 { p; ", "a = <&l0>; ", "}; ", "b = &l1; };", 126),
    ("/dts-v1/;\n/ { m: k { }; };\n&m { ", "n { ", "a = <&x>; ", "}; ", "b; };", 126),
    ("/dts-v1/;\n/ { a = <", "(", "1", ")", " &x>; };", 300),
    ("/dts-v1/;\n/ { a = <", "(1 + ", "2", ")", " &x>; };", 300),
    ("/dts-v1/;\n/ { a = <(", "(1)", "2", "(1)", ") &x>; };", 300),
];

/// a construct n times
pub fn doc() -> Vec<u8> {
    let i = sx::choose("shape", SHAPES.len() + NESTED.len());
    let nest;
    let sh = match SHAPES.get(i) {
        Some(sh) => sh,
        None => {
            let x = &NESTED[i - SHAPES.len()];
            nest = S { pre: x.0, rep: x.1, post: x.2, max: x.5 };
            &nest
        }
    };
    let rows: &[usize] = if sx::param("large", 0) == 1 { LARGE } else { COUNTS };
    let n = rows[sx::choose("count", rows.len())];
    sx::assume(n <= sh.max);
    let mut t = sh.pre.as_bytes().to_vec();
    for i in 0..n {
        for b in sh.rep.bytes() {
            if b == b'$' {
                t.extend_from_slice(i.to_string().as_bytes());
            } else {
                t.push(b);
            }
        }
    }
    // any character behind the last repetition
    t.extend_from_slice(&sym_text("b", sx::param("free", 0) as usize, false));
    t.extend_from_slice(sh.post.as_bytes());
    if i >= SHAPES.len() {
        let x = &NESTED[i - SHAPES.len()];
        for _ in 0..n {
            t.extend_from_slice(x.3.as_bytes());
        }
        t.extend_from_slice(x.4.as_bytes());
    }
    t
}

