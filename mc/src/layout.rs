//! Layouts of a token sequence: what may stand between two tokens.
use crate::spec::*;

/// White space and white-space-delimited comments.
pub const TRIVIA: &[&str] = &[
    " ",
    "\n",
    "\t",
    "\r\n",
    "\r",
    "  \t\n\n  ",
    " /* c */ ",
    "\n// c\n",
    " /**/ ",
    "\n//\n",
    " /* // */ ",
    "\n// /*\n",
    "\n// */\n",
    " /***/ ",
    " /* * / ** */ ",
    " /* a\n * b\n */ ",
    " /* /* */ ",
    " /* struct x { int y; }; */ ",
    "\n// union u switch (int d) { case 1: void; };\n",
    " /* const A = 1; */ ",
    " /* a */ /* b */ ",
    "\n// a\n// b\n",
    " /* a */\n// b\n/* c */\n",
    " /* \u{e9}\u{1f600} \" ' \\ */ ",
    "\n// \u{e9}\u{1f600} \" ' \\\n",
    "\r\n// c\r\n",
    " /* ; */ ",
    "\n// ; }\n",
    " /* unsigned */ ",
    " /* , */ ",
    "\t/*\t*/\t",
    " //// x //\n",
    " /*/ c */ ",
    " // a /* b */ c\n",
];

/// The trivia used where combinations are enumerated.
pub const FEW: &[&str] = &["\n", " /* c */ ", "\n// c;\n", " /* } */ "];

/// What comments may hold: every character in every place of a comment, words
/// and fragments of the language and of its dialects, every length.
pub fn contents_trivia(th: bool) -> Vec<String> {
    let mut v = vec![];
    let mut chars: Vec<char> = (0u8..128).map(|c| c as char).collect();
    chars.extend(['\u{80}', '\u{85}', '\u{a0}', '\u{ad}', '\u{e9}', '\u{130}', '\u{3b1}', '\u{2028}', '\u{2029}', '\u{200b}', '\u{202e}', '\u{3000}', '\u{fe0f}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{10ffff}']);
    let mut words: Vec<String> = chars.iter().map(|c| c.to_string()).collect();
    for w in [
        "struct", "union", "switch", "case", "default", "default:", "void", "void;", "enum", "const", "typedef", "unsigned", "int", "hyper", "float", "double", "string", "opaque", "bool", "TRUE", "const A = 1;",
        "struct x { int y; };", "case 1:", "case 1: void;", "} ;", "#include \"a.h\"", "#define A 1", "#ifdef A", "#endif", "%#include <a.h>", "%/* c", "program P { version V { void NULL(void) = 0; } = 1; } = 2;", "/**", "//!", "///", "\\\n", "\\",
        "\"", "'", "\"/*\"", "don't", "TODO", "0x", "{{", "}}", "{}", "%s", "*", "**", "* *", "/", "//", "/ /", "/*", "*/x".trim_start_matches("*/"), "<", ">", "<>", "[", "]", "r#\"", "\"#", "\\n", "\\0", "$", "`", "--", "(*", "*)", "(", ")",
    ] {
        words.push(w.to_string());
    }
    for c in &words {
        let line = !c.contains('\n') && !c.contains('\r');
        // as part of a word on a line of its own, at either end of a line,
        // alone, against both ends of the comment
        if !c.contains("*/") && !format!("*{}*", c).contains("*/") {
            v.push(format!(" /*{}*/ ", c));
            v.push(format!(" /* a\n{}\n*/ ", c));
            v.push(format!(" /* a\n{} */ ", c));
            v.push(format!("\n/*\n * {} a\n */\n", c));
        }
        if line {
            v.push(format!("\n//{}\n", c));
            v.push(format!("\n// a{}\n", c));
            v.push(format!("\n// {} a\n", c));
        }
    }
    let mut lens: Vec<usize> = (0..if th { 600 } else { 140 }).collect();
    lens.extend([255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537]);
    for n in lens {
        v.push(format!(" /*{}*/ ", "x".repeat(n)));
        v.push(format!("\n//{}\n", "x".repeat(n)));
        v.push(" ".repeat(n + 1));
        v.push("\n".repeat(n + 1));
        if n <= 5000 {
            v.push(format!(" /*{}*/ ", "*".repeat(n)));
            v.push(format!(" /*{}*/ ", "/ ".repeat(n)));
            v.push(format!(" {}", "/* c */ ".repeat(n)));
            v.push(format!("\n{}", "// c\n".repeat(n)));
            v.push(format!(" /*{}*/ ", "\n".repeat(n)));
        }
    }
    v
}

/// Separators (one before each token, one behind the last) of a base layout:
/// 0 conventional, 1 as little as possible, 2 one blank everywhere.
pub fn base(toks: &[String], style: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    for w in toks.windows(2) {
        let s = match style {
            0 if w[0] == ";" || w[0] == "{" => "\n",
            0 if w[0] == "=" || w[1] == "=" || w[0] == ":" || w[0] == "," => " ",
            2 => " ",
            _ if needs_sep(&w[0], &w[1]) => " ",
            _ => "",
        };
        v.push(s.into());
    }
    v.push(if style == 0 { "\n" } else { "" }.into());
    v
}

pub fn join(toks: &[String], seps: &[String]) -> String {
    let mut s = String::new();
    for (i, t) in toks.iter().enumerate() {
        s.push_str(&seps[i]);
        s.push_str(t);
    }
    s.push_str(&seps[toks.len()]);
    s
}

/// The text with `what[k].1` as the separator at gap `what[k].0`.
pub fn with(toks: &[String], base: &[String], what: &[(usize, &str)]) -> String {
    let mut b = base.to_vec();
    for (g, t) in what {
        b[*g] = t.to_string();
    }
    join(toks, &b)
}

/// Small specifications that together use every construct.
pub fn kitchen() -> Vec<Spec> {
    let mut v = vec![];
    v.push(Spec::new("K constants and enums", vec![cnst("A", "12"), cnst("B", "0x1F"), enm("e", &[("X", "0"), ("Y", "0xff"), ("Z", "2147483647")])]));
    v.push(Spec::new(
        "K primitive spellings",
        vec![strct(
            "s",
            vec![
                f(p("unsigned int"), "a"),
                f(p("int"), "b"),
                f(p("unsigned hyper"), "c"),
                f(p("hyper"), "d"),
                f(p("float"), "e"),
                f(p("double"), "g"),
                f(p("bool"), "h"),
                f(p("uint32_t"), "i"),
                f(p("int64_t"), "j"),
                f(p("unsigned"), "k"),
                f(p("u64"), "l"),
            ],
        )],
    ));
    v.push(Spec::new(
        "K declarators",
        vec![
            cnst("N", "3"),
            strct("el", vec![f(p("int"), "q")]),
            strct(
                "s",
                vec![
                    fa(p("opaque"), "a", var()),
                    fa(p("opaque"), "b", varn(7)),
                    fa(p("opaque"), "c", fix(5)),
                    fa(p("string"), "d", var()),
                    fa(p("string"), "e", varc("N")),
                    fa(n("el"), "g", var()),
                    fa(n("el"), "h", fixc("N")),
                    fa(p("unsigned int"), "i", fix(2)),
                    fo(n("el"), "j"),
                    fo(n("s"), "k"),
                ],
            ),
        ],
    ));
    v.push(Spec::new(
        "K typedefs",
        vec![
            cnst("MAX", "0x10"),
            tdef(p("unsigned int"), "t_u", Arr::None),
            tdef(p("unsigned hyper"), "t_h", Arr::None),
            tdef(p("opaque"), "t_o", varc("MAX")),
            tdef(p("opaque"), "t_f", fix(8)),
            tdef(p("string"), "t_s", varn(9)),
            tdef(n("t_u"), "t_v", var()),
            tdef(n("t_o"), "t_w", fix(2)),
            tdef(n("t_w"), "t_x", Arr::None),
            tdef(p("unsigned hyper"), "uint64_t", Arr::None),
        ],
    ));
    v.push(Spec::new(
        "K unions",
        vec![
            enm("k", &[("A", "1"), ("B", "2"), ("C", "3"), ("D", "4")]),
            tdef(p("opaque"), "o_t", var()),
            uni("u", n("k"), "d", vec![arm(&["A"], Some((n("o_t"), "x"))), arm(&["B", "C"], None), arm(&["default"], Some((p("unsigned int"), "y")))]),
        ],
    ));
    v.push(Spec::new(
        "K fall-through",
        vec![
            cnst("SEVEN", "7"),
            uni(
                "u",
                p("unsigned int"),
                "d",
                vec![arm(&["1", "2", "SEVEN"], Some((p("unsigned hyper"), "x"))), arm(&["3"], None), arm(&["4", "5"], None), arm(&["6", "default"], None)],
            ),
            uni("w", p("int"), "d", vec![arm(&["1"], None), arm(&["2", "3", "default"], Some((p("bool"), "z")))]),
        ],
    ));
    v.push(Spec::new("K boolean union", vec![uni("u", p("bool"), "d", vec![arm(&["TRUE"], Some((p("double"), "x"))), arm(&["FALSE"], None)])]));
    v.push(Spec::new(
        "K prefixed identifiers",
        vec![
            tdef(p("unsigned int"), "int_t", Arr::None),
            tdef(p("opaque"), "opaque_data", var()),
            strct("structure", vec![f(n("int_t"), "unsigned_x"), f(n("opaque_data"), "string_y"), f(n("enumeration"), "void_z")]),
            enm("enumeration", &[("const_a", "1"), ("case_b", "2"), ("default_c", "3")]),
            uni("union_t", n("enumeration"), "switch_d", vec![arm(&["const_a"], Some((n("structure"), "case_x"))), arm(&["case_b"], None), arm(&["default_c"], None)]),
            cnst("constant", "5"),
        ],
    ));
    v.push(Spec::new(
        "K recursion",
        vec![
            strct("node", vec![f(n("val"), "v"), fo(n("node"), "next")]),
            uni("val", p("hyper"), "d", vec![arm(&["1"], Some((n("kids"), "k"))), arm(&["default"], None)]),
            tdef(n("node"), "kids", var()),
            tdef(n("leaf"), "alias", Arr::None),
            strct("leaf", vec![fa(p("opaque"), "x", var())]),
        ],
    ));
    v.push(Spec::new(
        "K generic chain",
        vec![
            strct("a", vec![f(n("b"), "x")]),
            strct("b", vec![fo(n("c_t"), "x")]),
            tdef(n("d_s"), "c_t", Arr::None),
            strct("d_s", vec![fa(n("e_u"), "x", var())]),
            uni("e_u", p("int"), "k", vec![arm(&["0"], Some((n("f_o"), "x"))), arm(&["1"], None)]),
            tdef(p("opaque"), "f_o", fix(3)),
        ],
    ));
    v
}
