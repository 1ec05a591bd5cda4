//! C14: whatever the text, `Ast::new` and `generate` return.
use crate::pool::{self, Mode, Out};
use mcrt::layout::*;
use mcrt::models;
use mcrt::peg;
use mcrt::report::*;
use mcrt::spec::*;
use std::collections::{BTreeMap, HashSet};

/// Tokens that stand in for, or are put between, the tokens of a specification.
const ALPHABET: &[&str] = &[
    "struct", "union", "enum", "typedef", "const", "switch", "case", "default", "void", "unsigned", "int", "unsigned int", "hyper", "float", "double", "string", "opaque", "bool", "u32",
    "uint64_t", "i32", "{", "}", "(", ")", "[", "]", "<", ">", ";", ":", ",", "=", "*", "0", "1", "4294967295", "4294967296", "99999999999999999999", "0x10", "0x", "0xZZ", "0x80000000",
    "0x0x1", "0xfffffffff", "00", "-1", "a", "T", "String", "TRUE", "FALSE", "type", "_", "/*", "*/", "//", "/* */", "\"", "#", "%", ".", "\u{e9}", "\0", "\u{feff}", "int\n", "opaque ",
];
const FEWER: &[&str] = &["struct", "case", "default", "void", "unsigned int", "string ", "opaque ", "u32", "{", "}", "[", "]", "<", ">", ";", ":", "=", "*", "0", "0x80000000", "a", "T", ","];

const CHARS: &[&str] = &[
    "\0", "\t", "\n", "\r", "\u{b}", "\u{c}", " ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", "0", "9", ":", ";", "<", "=", ">", "?", "@", "A", "[", "\\", "]", "^", "_",
    "`", "a", "x", "{", "|", "}", "~", "\u{7f}", "\u{80}", "\u{a0}", "\u{e9}", "\u{300}", "\u{660}", "\u{2028}", "\u{feff}", "\u{ff11}", "\u{1f600}", "\u{10ffff}",
];

/// Accepted by the grammar, outside of what code is generated for, or at its edge.
pub fn odd() -> Vec<&'static str> {
    vec![
        "",
        ";",
        "struct s {};",
        "struct s {}; struct s {};",
        "struct s { int a; int a; };",
        "struct s { int x; }; union s switch (int d) { case 1: void; };",
        "struct s { int x; }; typedef int s;",
        "typedef int t; typedef hyper t;",
        "typedef a b; typedef b a;",
        "typedef a a;",
        "typedef a a<>;",
        "typedef a a[2];",
        "typedef a b; typedef b c; typedef c a; struct s { a x; b y<>; c z[3]; };",
        "typedef a b<>; typedef b a; struct s { a x; };",
        "typedef a b; typedef b a; union u switch (a d) { case 1: void; };",
        "typedef u u; union u switch (u d) { case 1: u x; default: void; };",
        "const A = 1; const A = 2;",
        "const A = B; const B = A; struct s { opaque x[A]; };",
        "const A = B; struct s { opaque x<A>; };",
        "const A = A; struct s { int x[A]; opaque y<A>; }; enum e { M = A };",
        "const A = 0xZZ; struct s { opaque x<A>; int y[A]; };",
        "const A = 0x; struct s { opaque x<A>; };",
        "const A = 99999999999999999999999999; struct s { opaque x<A>; };",
        "const A = 4294967296; struct s { opaque x[A]; };",
        "const A = opaq; const B = string; const C = int;",
        "const int = 3;",
        "const u32 = 3; const uint32_t = 4;",
        "const bool = 1;",
        "enum e { A = 1, A = 2 };",
        "enum e { A = 1 }; enum f { A = 2 };",
        "enum e { A = 1 }; const A = 2;",
        "enum e { A = B, B = A };",
        "enum e { A = A };",
        "enum e { A = e };",
        "enum e { A = 0xffffffff };",
        "enum e { A = 2147483648 };",
        "enum e { A = 0x };",
        "enum e { A = 0x0x0x1 };",
        "enum e { A = 0xG };",
        "enum e { A = 00012 };",
        "enum e { A = 1 B = 2 };",
        "enum e { u32 = 1, bool = 2 };",
        "enum bool { A = 1 };",
        "enum u32 { A = 1 }; struct s { u32 x; };",
        "enum e { A = 1 }; typedef e A; struct A { e x; };",
        "const N = 3; enum e { A = N, B = 3 };",
        "enum e { A = 3, B = 3 }; union u switch (e d) { case A: void; case B: int x; };",
        "struct s { string x[4]; };",
        "struct s { string x[0]; string y; };",
        "typedef string t[4];",
        "typedef string t;",
        "typedef opaque t;",
        "typedef opaque t; struct s { t x; t y<>; t *z; };",
        "struct s { opaque *x; };",
        "struct s { string *x; int *y; unsigned hyper *z; bool *b; };",
        "struct s { opaque x[0]; opaque y<0>; int z[0]; };",
        "struct s { opaque x[4294967295]; };",
        "struct s { int x[4294967295]; };",
        "struct s { opaque x[4294967296]; };",
        "struct s { opaque x<99999999999999999999>; };",
        "struct s { opaque x<NOPE>; };",
        "struct s { int x[NOPE]; };",
        "struct s { int x<NOPE>; };",
        "struct s { u32 a<>; hyper b<>; bool c<3>; double d<2>; };",
        "struct s { missing x; missing y<>; missing z[3]; missing *w; };",
        "struct s { s x; };",
        "struct s { s x[2]; };",
        "struct s { foo *x[3]; };",
        "struct s { foo *x<3>; };",
        "struct s { u32 u32; };",
        "struct s { bool bool; };",
        "struct s { int uint32_t; };",
        "struct s { int unsigned; };",
        "struct s { unsigned unsigned; };",
        "struct s { u32 *u32; };",
        "struct u32 { int x; };",
        "struct bool { int x; }; struct s { bool b; };",
        "union u32 switch (int d) { case 1: void; };",
        "union u switch (int u32) { case 1: void; };",
        "typedef int int32_t; typedef int32_t int32_t;",
        "typedef hyper u32; struct s { u32 x; };",
        "typedef opaque u32<>; struct s { u32 x; };",
        "typedef u32 opaque_t<>; typedef opaque_t string_t<4>;",
        "enum e { A = 1 }; struct s { int x[A]; opaque y<A>; };",
        "enum e { A = 1 }; typedef opaque t<A>;",
        "union u switch (int d) { };",
        "union u switch (int d) { case 1: };",
        "union u switch (int d) { case 1: case 2: };",
        "union u switch (int d) { case 1: void; case 2: };",
        "union u switch (int d) { case 1: case 1: void; case 1: int x; };",
        "union u switch (int d) { default: void; };",
        "union u switch (int d) { default: int x; };",
        "union u switch (int d) { default: int x; default: int y; };",
        "union u switch (int d) { default: void; case 1: void; };",
        "union u switch (int d) { default: int x; case 1: };",
        "union u switch (int d) { default: void; default: void; };",
        "union u switch (int d) { default: void; default: int x; };",
        "union u switch (int d) { case 1: default: void; default: int y; };",
        "union u switch (int d) { case 1: int x<>; };",
        "union u switch (int d) { case 1: int x[3]; };",
        "union u switch (int d) { case 1: opaque x<>; };",
        "union u switch (int d) { case 1: opaque x; default: opaque y; };",
        "union u switch (int d) { case 1: opaque x[3]; };",
        "union u switch (int d) { case 1: string x<>; };",
        "union u switch (int d) { case 1: string x; };",
        "union u switch (int d) { case 1: foo *x; };",
        "union u switch (int d) { case 1: u *x; };",
        "union u switch (int d) { case 1: u x; };",
        "union u switch (int d) { default: foo x<3>; };",
        "union u switch (int d) { case 1: u32 u32; };",
        "union u switch (int d) { case 1: void x; };",
        "union u switch (int d) { case NOPE: void; };",
        "union u switch (int d) { case NOPE: int x; };",
        "union u switch (int d) { case 99999999999999999999: void; };",
        "union u switch (int d) { case 4294967296: int x; };",
        "union u switch (int d) { case u32: void; case bool: int x; };",
        "union u switch (int d) { case TRUE: void; case FALSE: int x; };",
        "union u switch (bool d) { case 0: void; case 1: int x; };",
        "union u switch (bool d) { case 7: int x; default: void; };",
        "union u switch (bool d) { case TRUE: int x; case TRUE: int y; };",
        "union u switch (float d) { case 1: void; };",
        "union u switch (double d) { case 1: int x; };",
        "union u switch (string d) { case 1: void; };",
        "union u switch (opaque d) { case 1: void; default: int x; };",
        "union u switch (hyper d) { case 1: int x; };",
        "union u switch (missing d) { case 1: void; };",
        "union u switch (u d) { case 1: void; };",
        "struct s { int x; }; union u switch (s d) { case 1: void; };",
        "typedef opaque t<>; union u switch (t d) { case 1: void; };",
        "typedef int t<>; union u switch (t d) { case 1: int x; };",
        "enum e { A = 1 }; union u switch (e d) { case B: void; };",
        "enum e { A = 1 }; enum f { B = 1 }; union u switch (e d) { case B: int x; };",
        "const A = 1; union u switch (int d) { case A: void; case 1: int x; };",
        "const A = 0xZ; union u switch (int d) { case A: int x; };",
        "const A = 99999999999999999999; union u switch (int d) { case A: int x; };",
        "struct type { int type; }; enum type2 { type = 1 };",
        "enum type { type = 1 }; union u switch (type type) { case type: type type; };",
        "struct T { int x; }; struct s { T t; opaque o<>; };",
        "struct Bytes { opaque Bytes<>; };",
        "struct String { string String<>; };",
        "typedef String T; typedef T String;",
        "struct v_1 { int v; }; union v switch (int v) { case 1: v_1 v; };",
        "constA=1;",
        "structs{intx;};",
        "typedefintx;",
        "typedef int x;",
        "typedef unsigned x;",
        "typedef unsigned unsigned;",
        "typedef unsigned int unsigned;",
        "typedef unsigned hyper unsigned; struct s { unsigned x; };",
        "struct s { unsigned; };",
        "struct s { unsigned int; };",
        "struct s { int; };",
        "struct s { unsigned /**/ int /**/ x; };",
        "struct 1 { 2 3; };",
        "enum 1 { 2 = 3 };",
        "const 1 = 2;",
        "typedef 1 2; typedef 2 3<4>;",
        "union 1 switch (2 3) { case 4: 5 6; };",
        "struct _ { _ _; };",
        "typedef _ __;",
        "/*",
        "//",
        "/**/",
        "/*/",
        "//\n//",
        "const A = 1; /*",
        "const A = 1; //",
        "const A = 1; trailing",
        "const A = 1;;",
        "const A = 1; }",
        "struct s { int x; }",
        "struct s { int x }; ",
        "struct { int x; };",
        "\u{feff}const A = 1;",
        "const \u{e9} = 1;",
        "program P { version V { void NULL(void) = 0; } = 1; } = 2;",
        "%#include <x.h>\nconst A = 1;",
        "struct a { struct { int x; } y; };",
        "enum e { A, B };",
        "const A = -1;",
        "const A = 'c';",
        "struct s { quadruple q; unsigned long l; char c; };",
        "typedef struct s t;",
        "typedef int (*f)(int);",
    ]
}

struct Corpus {
    texts: Vec<String>,
    from: Vec<(u32, u32)>, // family, how
    hows: Vec<String>,
    seen: HashSet<u64>,
    families: Vec<String>,
}

impl Corpus {
    fn family(&mut self, f: &str) {
        self.families.push(f.into());
    }
    fn put(&mut self, text: String) {
        // every text once
        let h = mcrt::util::fnv(text.as_bytes());
        if self.seen.insert(h) {
            self.texts.push(text);
            self.from.push((self.families.len() as u32 - 1, 0));
        }
    }
}

/// Splits a text into tokens the way the layout module prints them.
fn lex(t: &str) -> Vec<String> {
    let c: Vec<char> = t.chars().collect();
    let mut o = vec![];
    let mut i = 0;
    while i < c.len() {
        if c[i].is_whitespace() {
            i += 1;
        } else if c[i].is_ascii_alphanumeric() || c[i] == '_' {
            let st = i;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                i += 1
            }
            o.push(c[st..i].iter().collect());
        } else {
            o.push(c[i].to_string());
            i += 1;
        }
    }
    o
}
fn text(t: &[String]) -> String {
    let mut s = String::new();
    for x in t {
        s.push_str(x);
        s.push(' ');
    }
    s
}

/// All single edits of a token sequence.
fn single(c: &mut Corpus, t: &[String], alphabet: &[&str]) {
    let n = t.len();
    for i in 0..n {
        let mut d = t.to_vec();
        d.remove(i);
        c.put(text(&d));
        let mut d = t.to_vec();
        d.insert(i, t[i].clone());
        c.put(text(&d));
        if i + 1 < n {
            let mut d = t.to_vec();
            d.swap(i, i + 1);
            c.put(text(&d));
        }
        // the word respelled: in another case, a character more or less, cut
        // in two, the end of the word turned round
        let w = &t[i];
        if w.len() > 1 && w.is_ascii() && w.as_bytes()[0].is_ascii_alphabetic() {
            let k = w.len();
            let mut r = vec![
                w.to_uppercase(),
                w.to_lowercase(),
                w[..1].to_uppercase() + &w[1..],
                w[..1].to_lowercase() + &w[1..],
                w[..k - 1].to_string() + &w[k - 1..].to_uppercase(),
                w[..k - 1].to_string(),
                w[1..].to_string(),
                format!("{}{}", w, &w[k - 1..]),
                format!("{}_", w),
                format!("_{}", w),
                format!("{}s", w),
                format!("{} {}", &w[..k / 2], &w[k / 2..]),
                format!("{} {}", &w[..1], &w[1..]),
                format!("\"{}\"", w),
            ];
            r.retain(|x| x != w);
            for x in r {
                let mut d = t.to_vec();
                d[i] = x;
                c.put(text(&d));
            }
        }
        // cut off, and the rest alone
        c.put(text(&t[..i]));
        c.put(text(&t[i..]));
        // exchange with any later token
        for j in i + 1..n {
            if t[i] != t[j] && n <= 40 {
                let mut d = t.to_vec();
                d.swap(i, j);
                c.put(text(&d));
            }
        }
        // duplicate and delete runs
        for j in i + 2..=n {
            if n > 60 && j - i > 6 {
                break;
            }
            let mut d = t.to_vec();
            d.drain(i..j);
            c.put(text(&d));
            let mut d = t[..j].to_vec();
            d.extend(t[i..].iter().cloned());
            c.put(text(&d));
        }
    }
    for a in alphabet {
        for i in 0..=n {
            let mut d = t.to_vec();
            d.insert(i, a.to_string());
            c.put(text(&d));
            if i < n {
                let mut d = t.to_vec();
                d[i] = a.to_string();
                c.put(text(&d));
            }
        }
    }
}

/// All pairs of deletions and replacements.
fn double(c: &mut Corpus, t: &[String], alphabet: &[&str]) {
    let n = t.len();
    let mut subs: Vec<Option<&str>> = vec![None];
    subs.extend(alphabet.iter().map(|a| Some(*a)));
    for i in 0..n {
        for j in i + 1..n {
            for x in &subs {
                for y in &subs {
                    let mut d = vec![];
                    for (k, z) in t.iter().enumerate() {
                        let r = if k == i {
                            *x
                        } else if k == j {
                            *y
                        } else {
                            Some(z.as_str())
                        };
                        if let Some(r) = r {
                            d.push(r.to_string());
                        }
                    }
                    c.put(text(&d));
                }
            }
        }
    }
}

/// Every edit of one character.
fn chars(c: &mut Corpus, s: &str) {
    let cs: Vec<char> = s.chars().collect();
    for i in 0..=cs.len() {
        let (a, b): (String, String) = (cs[..i].iter().collect(), cs[i..].iter().collect());
        for x in CHARS {
            c.put(format!("{}{}{}", a, x, b));
            if i < cs.len() {
                let b2: String = cs[i + 1..].iter().collect();
                c.put(format!("{}{}{}", a, x, b2));
            }
        }
        if i < cs.len() {
            let b2: String = cs[i + 1..].iter().collect();
            c.put(format!("{}{}", a, b2));
            c.put(a);
            c.put(b);
        }
    }
}

/// All sequences over an alphabet between a head and a tail.
fn sequences(c: &mut Corpus, head: &str, tail: &str, alphabet: &[&str], sep: &str, len: usize) {
    let m = alphabet.len();
    for l in 0..=len {
        for code in 0..m.pow(l as u32) {
            let mut s = String::from(head);
            let mut k = code;
            for _ in 0..l {
                s.push_str(alphabet[k % m]);
                s.push_str(sep);
                k /= m;
            }
            s.push_str(tail);
            c.put(s);
        }
    }
}

/// Texts rejected for many reasons with a character of several bytes at every
/// distance from the start of the line, before and behind the error, on the line
/// of the error or a neighbour; names and numbers of every length where they
/// are quoted.
fn columns(c: &mut Corpus, upto: usize) {
    for ch in ["\u{e9}", "\u{20ac}", "\u{1f600}", "e\u{301}", "\t"] {
        for k in 0..upto {
            let x = "x".repeat(k);
            let y = "x".repeat(upto - k);
            for l in [
                // behind the error, before it, at it
                format!("struct s {{ int a; }} {}{}", x, ch),
                format!("? // {}{}{}", x, ch, y),
                format!("/*{}{}*/ ?", x, ch),
                format!("/*{}{}{}*/ const A 1;", x, ch, y),
                format!("/*{}{}{}{}*/ const = 1; // {}{}", x, ch, ch, ch, ch, x),
                format!("const A = 1; // {}{}\nstruct {{\n// {}{}", x, ch, x, ch),
                format!("/* {}{}{} */\r\n{}\r\n/* {}{} */", ch, x, ch, "}", x, ch),
                format!("{}{}", x, ch),
                format!("{}{}{}", ch, x, y),
                format!("{}struct s {{ int {} a; }};", " ".repeat(k), ch),
                // accepted by the parser, rejected later or not at all
                format!("/*{}{}*/ struct s {{ opaque a<NOPE>; }}; // {}", x, ch, ch),
                format!("/*{}{}*/ const A = 1; const A = 2;", x, ch),
                format!("// {}{}\nenum e {{ A = 1 }};", x, ch),
            ] {
                c.put(l);
            }
        }
    }
    for k in 0..upto {
        let n = "N".repeat(k + 1);
        let d = "7".repeat(k + 1);
        let h = format!("0x{}", "0".repeat(k) + "f");
        for l in [
            format!("struct s {{ opaque a<{}>; }};", n),
            format!("struct s {{ int a[{}]; }};", n),
            format!("const {} = 1; const {} = 2;", n, n),
            format!("enum e {{ {} = 1, {} = 2 }};", n, n),
            format!("enum e {{ A = {} }};", n),
            format!("typedef {} t; typedef t {};", n, n),
            format!("union u switch (int d) {{ case {}: int x; }};", n),
            format!("union u switch ({} d) {{ case 1: int x; }};", n),
            format!("struct s {{ opaque a<{}>; opaque b[{}]; }};", d, "0".repeat(k) + "1"),
            format!("const A = {}; struct s {{ opaque a<A>; }};", d),
            format!("const A = {}; enum e {{ M = A }};", h),
            format!("enum e {{ A = {} }};", d),
            format!("enum e {{ A = {} }};", h),
            format!("union u switch (int d) {{ case {}: int x; }};", d),
            format!("struct {} {{ string {}<{}>; opaque type[3]; }};", n, n.to_lowercase(), d),
            n.clone(),
            d.clone(),
            format!("const {}", n),
        ] {
            c.put(l);
        }
    }
}

/// Very large and very long inputs.
fn large(th: bool) -> Vec<(String, String)> {
    let k = if th { 4 } else { 1 };
    let mut v: Vec<(String, String)> = vec![];
    let mut put = |n: &str, t: String| v.push((n.to_string(), t));
    put("identifier of 1 MB", format!("struct {} {{ int x; }};", "a".repeat(1 << 20)));
    put("1 MB of white space", format!("struct s {{{} int x; }};", " ".repeat(1 << 20)));
    put("100000 comments", format!("struct s {{{} int x; }};", "/**/".repeat(100_000)));
    put("100000 line comments", format!("struct s {{{} int x; }};", "//\n".repeat(100_000)));
    put("a comment of 1 MB", format!("/*{}*/ const A = 1;", "*".repeat(1 << 20)));
    put("an open comment of 1 MB", format!("const A = 1; /*{}", "* /".repeat(1 << 18)));
    put("nested comment openings", format!("{} const A = 1;", "/*".repeat(100_000)));
    put("200000 opening brackets", "struct s { ".repeat(200_000));
    put("200000 angle brackets", format!("struct s {{ opaque x{}; }};", "<".repeat(200_000)));
    put("200000 square brackets", format!("struct s {{ opaque x{}1{}; }};", "[".repeat(200_000), "]".repeat(200_000)));
    put("200000 stars", format!("struct s {{ foo {}x; }};", "*".repeat(200_000)));
    put("200000 parentheses", format!("union u switch {}int d{} {{ case 1: void; }};", "(".repeat(200_000), ")".repeat(200_000)));
    put("a number of 100000 digits", format!("struct s {{ opaque x<{}>; }}; const A = {}; enum e {{ M = {} }};", "9".repeat(100_000), "9".repeat(100_000), "1".repeat(100_000)));
    put("a hex number of 100000 digits", format!("const A = 0x{}; enum e {{ M = 0x{} }}; struct s {{ opaque x<A>; }};", "f".repeat(100_000), "0".repeat(100_000)));
    put("0x 50000 times", format!("enum e {{ M = {}1 }};", "0x".repeat(50_000)));
    put("\"unsigned\" 100000 times", format!("struct s {{ {} int x; }};", "unsigned ".repeat(100_000)));
    put("\"int\" 100000 times", format!("struct s {{ {} x; }};", "int ".repeat(100_000)));
    put("a struct of many fields", format!("struct s {{ {} }};", (0..20_000 * k).map(|i| format!("int f{};", i)).collect::<String>()));
    put("an enum of many members", format!("enum e {{ A = 1{} }};", (0..20_000 * k).map(|i| format!(", M{} = {}", i, i)).collect::<String>()));
    put("a union of many arms", format!("union u switch (int d) {{ {} }};", (0..5_000 * k).map(|i| format!("case {}: int f{};", i, i)).collect::<String>()));
    put("a union of many labels", format!("union u switch (int d) {{ {} void; }};", (0..20_000 * k).map(|i| format!("case {}:", i)).collect::<String>()));
    put("a union of many labels with data", format!("union u switch (int d) {{ {} int x; }};", (0..5_000 * k).map(|i| format!("case {}:", i)).collect::<String>()));
    put("many constants", (0..20_000 * k).map(|i| format!("const C{} = {};", i, i)).collect::<String>());
    put("many structs", (0..5_000 * k).map(|i| format!("struct s{} {{ int x; }};", i)).collect::<String>());
    put("many generic structs", (0..3_000 * k).map(|i| format!("struct s{} {{ opaque x<>; }};", i)).collect::<String>());
    let chain = |n: usize, rev: bool, f: &dyn Fn(usize) -> String, end: &str| {
        let mut d: Vec<String> = (0..n).map(f).collect();
        d.push(end.into());
        if rev {
            d.reverse()
        }
        d.concat()
    };
    for rev in [false, true] {
        for (nm, end) in [("opaque", "typedef opaque t_END<>;"), ("int", "typedef int t_END;"), ("itself", "typedef t0 t_END;"), ("nothing", "")] {
            let n = 1000 * k;
            let name = move |i: usize| if i == n { "t_END".to_string() } else { format!("t{}", i) };
            for (sh, f) in [
                ("typedefs", Box::new(move |i: usize| format!("typedef {} {};", name(i + 1), name(i))) as Box<dyn Fn(usize) -> String>),
                ("array typedefs", Box::new(move |i: usize| format!("typedef {} {}<>;", name(i + 1), name(i)))),
                ("structs", Box::new(move |i: usize| format!("struct {} {{ {} x; }};", name(i), name(i + 1)))),
                ("unions", Box::new(move |i: usize| format!("union {} switch (int d) {{ case 1: {} x; default: void; }};", name(i), name(i + 1)))),
            ] {
                put(&format!("chain of {} {} ending in {}{}", n, sh, nm, if rev { ", reversed" } else { "" }), chain(n, rev, &*f, end));
            }
        }
    }
    // a struct over the chain, and a union switching on it
    let n = 3000 * k;
    let tds: String = (0..n).map(|i| format!("typedef t{} t{};", i + 1, i)).collect();
    put("a union switching on a chain of typedefs", format!("{} typedef int t{}; union u switch (t0 d) {{ case 1: t0 x; default: void; }}; struct s {{ t0 x; t0 y<>; t0 z[2]; t0 *w; }};", tds, n));
    let consts: String = (0..n).map(|i| format!("const C{} = C{};", i, i + 1)).collect();
    put("a chain of constants", format!("{} const C{} = 4; struct s {{ opaque x<C0>; int y[C0]; }}; enum e {{ A = C0 }}; union u switch (int d) {{ case C0: int x; }};", consts, n));
    v
}

pub fn check(tier: &str) -> Report {
    let deep = tier == "thorough";
    // the quick tier only takes shorter sequences
    let th = true;
    let mut r = Report::new("C14", tier);
    r.rule = "state = distinct text given to Ast::new and to generate in a watched worker process (8 MB stack, 3 GB address space, 20 s); transition = one edit (token or character) or one appended token. Violations: panic, abort, no return; Ok for a text an independent recogniser of the grammar rejects".into();
    let mut c = Corpus { texts: vec![], from: vec![], hows: vec![], seen: HashSet::new(), families: vec![] };
    // seeds
    let kit: Vec<Spec> = kitchen();
    c.family("specifications");
    for s in kit.iter().cloned().chain(mcrt::universe::p6()).chain(mcrt::universe::p9()).chain(mcrt::universe::set("C01", tier)) {
        c.put(s.text());
    }
    c.family("declaration models outside the subset");
    for s in models::declarators().into_iter().chain(models::names()).chain(models::unions(if th { 3 } else { 2 })).chain(models::kinds(if th { 3 } else { 2 })).chain(models::values(false)) {
        c.put(s.text());
    }
    let odds = odd();
    c.family("odd texts");
    for o in &odds {
        c.put(o.to_string());
    }
    c.family("pairs of odd texts");
    for a in &odds {
        for b in &odds {
            c.put(format!("{} {}", a, b));
        }
    }
    // token edits
    c.family("single token edits");
    let mut seeds: Vec<Vec<String>> = kit.iter().map(|s| s.tokens()).collect();
    for o in &odds {
        seeds.push(lex(o));
    }
    for (i, s) in seeds.iter().enumerate() {
        single(&mut c, s, if th || i < kit.len() || i % 3 == 0 { ALPHABET } else { FEWER });
    }
    c.family("double token edits");
    let small: Vec<&str> = vec![
        "const A = 1 ;",
        "typedef int x < 3 > ;",
        "typedef opaque x [ N ] ;",
        "enum e { A = 1 , B = 2 } ;",
        "struct s { int x ; } ;",
        "struct s { foo * x ; } ;",
        "struct s { opaque x [ 3 ] ; } ;",
        "union u switch ( int d ) { case 1 : void ; } ;",
        "union u switch ( bool d ) { case TRUE : int x ; } ;",
        "const A = 1 ; struct s { t x < A > ; } ;",
        "enum e { A = 1 } ; union u switch ( e d ) { case A : void ; } ;",
        "typedef a b ; typedef b c ; struct s { c x ; } ;",
        "union u switch ( int d ) { case 1 : case 2 : int x ; default : void ; } ;",
    ];
    for (i, s) in small.iter().enumerate() {
        let t = lex(s);
        double(&mut c, &t, if th { ALPHABET } else if i < 7 { FEWER } else { &FEWER[..15] });
    }
    // token sequences
    c.family("token sequences in a context");
    let ab = ["int", "opaque ", "u32", "a", "1", "*", "<", ">", "[", "]", ";", "="];
    let n = if deep { 6 } else { 5 };
    sequences(&mut c, "struct s { ", " };", &ab, " ", n);
    sequences(&mut c, "struct s { ", "; };", &ab, " ", n);
    sequences(&mut c, "typedef ", ";", &ab, " ", n);
    let ub = ["case", "default", ":", "1", "A", "void;", "int x;", "opaque y;", "a b<>;"];
    sequences(&mut c, "union u switch (int d) { ", " };", &ub, " ", if deep { 7 } else { 6 });
    sequences(&mut c, "enum e { A = 1 }; const B = 2; union u switch (e d) { ", " };", &["case A:", "case B:", "case C:", "default:", "void;", "int x;", "e y;"], " ", if th { 7 } else { 6 });
    sequences(&mut c, "enum e { ", " };", &["A", "B", "=", "1", "0x", ",", "e"], " ", if th { 7 } else { 6 });
    sequences(&mut c, "", "", &["const", "typedef", "struct", "union", "enum", "int ", "a", "1", "=", "{", "}", ";", "switch(int d)"], " ", if deep { 6 } else { 5 });
    sequences(
        &mut c,
        "",
        "",
        &[
            "typedef a b;", "typedef b a;", "typedef opaque a<>;", "struct a { b x; };", "union b switch (a d) { case K: a x; default: void; };", "const K = 1;", "enum a { K = 1 };", "struct b { a x[K]; b *y; };",
            "typedef a c[K];", "union c switch (int d) { case 1: b x; };",
        ],
        " ",
        if th { 6 } else { 5 },
    );
    // characters
    c.family("character edits");
    for s in [
        "const A = 0x1F;",
        "typedef unsigned int x;",
        "typedef opaque x<3>;",
        "enum e { A = 1, B = 0x2 };",
        "struct s { string x<>; t *y; };",
        "union u switch (int d) { case 1: void; };",
        "union u switch (bool d) { case TRUE: int x; default: u32 y; };",
        "/* c */ const A = 1; // d\n",
        "struct s { unsigned /* c */ hyper x[4]; };",
    ] {
        chars(&mut c, s);
    }
    for s in kit.iter().take(if th { kit.len() } else { 3 }) {
        chars(&mut c, &s.text());
    }
    c.family("character sequences");
    sequences(&mut c, "", "", &["/", "*", "\n", " ", "a", ";", "\r"], "", if th { 7 } else { 6 });
    sequences(&mut c, "const A", "1;", &["/", "*", "\n", " ", "=", "\u{e9}"], "", if th { 7 } else { 6 });
    sequences(&mut c, "struct s { unsigned", "x; };", &["/", "*", "\n", " ", "int", "hyper"], "", if th { 6 } else { 4 });
    sequences(&mut c, "enum e { A = ", " };", &["0", "x", "f", "9", "_", "-", "8"], "", if th { 7 } else { 6 });
    sequences(&mut c, "const A = ", "; struct s { opaque x<A>; int y[A]; }; union u switch (int d) { case A: int z; };", &["0", "x", "f", "9", "_", "8"], "", if th { 6 } else { 4 });
    c.family("errors at every column");
    columns(&mut c, if th { 300 } else { 140 });
    c.family("what comments hold");
    for (k, tr) in contents_trivia(th).iter().enumerate() {
        for (j, t) in ["const A = 1;", "struct s { unsigned int x<3>; };", "union u switch (int d) { case 1: void; };"].iter().enumerate() {
            if tr.len() > 20_000 && (k + j) % 3 != 0 {
                continue;
            }
            let t = lex(t);
            let n = t.len();
            let b = base(&t, 1);
            for g in [k % (n + 1), (k / 3 + j) % (n + 1)] {
                c.put(with(&t, &b, &[(g, tr)]));
                // not closed, not opened, cut off
                c.put(with(&t, &b, &[(g, tr.trim_end().trim_end_matches("*/"))]));
                c.put(with(&t, &b, &[(g, tr.trim_start().trim_start_matches("/*"))]));
                c.put(with(&t, &b, &[(g, tr.trim())]));
            }
        }
    }
    c.family("lists of every length");
    for s in mcrt::universe::p10(th) {
        c.put(s.text());
    }
    c.family("large texts");
    for (_, t) in large(th) {
        c.put(t);
    }
    let outs = pool::run(&c.texts, &Mode::Total);
    let mut per: BTreeMap<String, u32> = BTreeMap::new();
    let mut outcomes: BTreeMap<String, u64> = BTreeMap::new();
    let mut accepted = 0u64;
    let mut per_family: BTreeMap<u32, u64> = BTreeMap::new();
    for (i, o) in outs.iter().enumerate() {
        *per_family.entry(c.from[i].0).or_insert(0) += 1;
        let fam = &c.families[c.from[i].0 as usize];
        let t = &c.texts[i];
        let ok = peg::accepts(t);
        accepted += ok as u64;
        let (kind, what) = match o {
            Out::Panic(m) => (format!("panic:{}", m.chars().take(60).collect::<String>()), format!("panic: {}", m)),
            Out::Died(m) => ("died".to_string(), m.clone()),
            Out::Ok(s) => {
                *outcomes.entry(format!("{} and the recogniser {}", s, if ok { "accepts" } else { "rejects" })).or_insert(0) += 1;
                if !ok && s.contains("ok") {
                    ("accepted".to_string(), format!("the text is not a sequence of declarations, but Ast::new and generate return {:?}", s))
                } else {
                    continue;
                }
            }
            Out::Err(s) => ("harness".to_string(), s.clone()),
        };
        let n = per.entry(kind.clone()).or_insert(0);
        *n += 1;
        if *n > 3 {
            continue;
        }
        let shown: String = t.chars().take(200).collect();
        r.violate(format!("{}|{:016x}", kind, mcrt::util::fnv(t.as_bytes())), format!("[{}] {:?}: {}", fam, shown, what), format!("mode: text\n\nspecification text:\n{}", t));
    }
    for (k, n) in outcomes {
        r.add(&format!("outcome_{}", k.replace(' ', "_")), n);
    }
    for (f, n) in per_family {
        r.add(&format!("texts_{}", c.families[f as usize].replace(' ', "_")), n);
    }
    r.add("texts_the_recogniser_accepts", accepted);
    r.states = c.texts.len() as u64;
    r.transitions = c.texts.len() as u64;
    r.traces = c.texts.len() as u64;
    r.exhaustive = Some(true);
    for k in [0usize, 5000, c.texts.len() / 2] {
        r.samples.push(c.texts[k.min(c.texts.len() - 1)].chars().take(300).collect());
    }
    if std::env::var("MC_DEBUG").is_ok() {
        // does the recogniser agree with the parser?
        let mut n = 0;
        for (i, o) in outs.iter().enumerate() {
            if let Out::Ok(s) = o {
                let ok = peg::accepts(&c.texts[i]);
                if ok && s.starts_with("err") {
                    let e = fastxdr::ast::Ast::new(&c.texts[i]).err().map(|e| e.to_string()).unwrap_or_default();
                    if e.contains("-->") {
                        n += 1;
                        if n < 20 {
                            println!("recogniser accepts, parser rejects: {:?} {}", c.texts[i].chars().take(200).collect::<String>(), e);
                        }
                    }
                }
            }
        }
        println!("{} disagreements", n);
    }
    let _ = &c.hows;
    r
}
