//! Declaration models, also beyond what code can be generated for.
use crate::spec::*;


pub const ALL_PRIMS: &[&str] = &[
    "unsigned int", "unsigned", "uint32_t", "u32", "int", "int32_t", "i32", "unsigned hyper", "uint64_t", "u64", "hyper", "int64_t", "i64", "float",
    "double", "bool", "string", "opaque",
];

pub fn arrays() -> Vec<Arr> {
    let mut v = vec![Arr::None, var(), varc("LIMIT"), fixc("LIMIT"), varc("M_B"), fixc("M_B"), varc("x"), fixc("MAX_u32")];
    for k in [0, 1, 2, 9, 10, 100, 255, 65536, 2147483647, 2147483648, 4294967295] {
        v.push(varn(k));
        v.push(fix(k));
    }
    v
}

pub fn declarators() -> Vec<Spec> {
    let mut out = vec![];
    let pre = || vec![cnst("LIMIT", "12"), enm("e_t", &[("M_A", "0"), ("M_B", "5")]), strct("named", vec![f(p("int"), "q")])];
    let mut tys: Vec<TyRef> = ALL_PRIMS.iter().map(|s| p(s)).collect();
    tys.push(n("named"));
    tys.push(n("e_t"));
    tys.push(n("undeclared"));
    for t in &tys {
        for a in arrays() {
            let mut i = pre();
            i.push(strct("s", vec![fa(t.clone(), "x", a.clone())]));
            i.push(strct("s2", vec![f(p("int"), "before"), fa(t.clone(), "x", a.clone()), f(p("hyper"), "behind")]));
            i.push(tdef(t.clone(), "td", a.clone()));
            out.push(Spec::new(format!("D {:?} {:?}", t, a), i));
        }
        let mut i = pre();
        i.push(strct("s", vec![fo(t.clone(), "x"), f(t.clone(), "y"), fo(t.clone(), "z")]));
        i.push(uni("u", p("int"), "d", vec![arm(&["1"], Some((t.clone(), "x"))), arm(&["2", "M_A"], Some((t.clone(), "y"))), arm(&["default"], Some((t.clone(), "z")))]));
        // only integers, booleans and enums can discriminate
        if ["float", "double", "string", "opaque"].iter().any(|x| *t == p(x)) {
            out.push(Spec::new(format!("D option and union of {:?}", t), i));
            continue;
        }
        i.push(uni("u2", t.clone(), "d", vec![arm(&["1"], None), arm(&["default"], Some((t.clone(), "z")))]));
        i.push(uni("u3", t.clone(), "d", vec![arm(&["1"], Some((t.clone(), "x"))), arm(&["default"], None)]));
        out.push(Spec::new(format!("D option and union of {:?}", t), i));
    }
    // all pairs of fields
    let forms: Vec<Field> = {
        let mut v = vec![];
        for t in ["unsigned int", "int", "unsigned hyper", "string", "opaque", "bool", "u64", "unsigned"] {
            v.push(f(p(t), "x"));
        }
        for t in ["opaque", "string", "int"] {
            v.push(fa(p(t), "x", var()));
            v.push(fa(p(t), "x", varn(7)));
            v.push(fa(p(t), "x", fixc("LIMIT")));
        }
        v.push(f(n("named"), "x"));
        v.push(fo(n("named"), "x"));
        v.push(fo(p("int"), "x"));
        v.push(fa(n("named"), "x", varc("LIMIT")));
        v
    };
    for a in &forms {
        for b in &forms {
            let mut i = pre();
            let (mut a, mut b) = (a.clone(), b.clone());
            a.name = "first".into();
            b.name = "second".into();
            i.push(strct("s", vec![a.clone(), b.clone()]));
            i.push(strct("s_same_type", vec![a.clone(), { let mut c = a.clone(); c.name = "again".into(); c }, b.clone()]));
            out.push(Spec::new(format!("D fields {:?} {:?}", a, b), i));
        }
    }
    // empty bodies
    out.push(Spec::new("D empty struct", vec![strct("s", vec![]), strct("t", vec![f(n("s"), "x")])]));
    out.push(Spec::new("D union without arms", vec![uni("u", p("int"), "d", vec![]), cnst("A", "1")]));
    out.push(Spec::new("D nothing", vec![]));
    for k in [1usize, 2, 5, 16, 33, 64, 200] {
        let names: Vec<String> = (0..k).map(|i| format!("f{}", i)).collect();
        out.push(Spec::new(format!("D struct of {} fields", k), vec![strct("s", names.iter().map(|x| f(p("int"), x)).collect())]));
        let m: Vec<(String, String)> = (0..k).map(|i| (format!("M{}", i), if i % 2 == 0 { i.to_string() } else { format!("0x{:x}", i) })).collect();
        let mr: Vec<(&str, &str)> = m.iter().map(|x| (x.0.as_str(), x.1.as_str())).collect();
        out.push(Spec::new(format!("D enum of {} members", k), vec![enm("e", &mr)]));
        let l: Vec<String> = (0..k).map(|i| i.to_string()).collect();
        let lr: Vec<&str> = l.iter().map(|x| x.as_str()).collect();
        for body in [None, Some((p("int"), "x"))] {
            out.push(Spec::new(format!("D union of {} labels in one group", k), vec![uni("u", p("int"), "d", vec![arm(&lr, body.clone())])]));
            let mut ld = lr.clone();
            ld.push("default");
            out.push(Spec::new(format!("D union of {} labels and default in one group", k), vec![uni("u", p("int"), "d", vec![arm(&ld, body.clone())])]));
            out.push(Spec::new(format!("D union of {} arms", k), vec![uni("u", p("int"), "d", lr.iter().map(|x| arm(&[x], body.clone())).collect())]));
        }
        out.push(Spec::new(format!("D {} declarations of each kind", k), (0..k).flat_map(|i| {
            vec![
                cnst(&format!("C{}", i), &i.to_string()),
                enm(&format!("e{}", i), &[(&format!("E{}", i), "1"), (&format!("EE{}", i), "2")]),
                strct(&format!("s{}", i), vec![f(n(&format!("e{}", i)), "x")]),
                tdef(n(&format!("s{}", i)), &format!("t{}", i), var()),
                uni(&format!("uu{}", i), n(&format!("e{}", i)), "d", vec![arm(&[&format!("E{}", i)], None)]),
            ]
        }).collect()));
    }
    out
}

/// Values in every spelling.
pub fn values(th: bool) -> Vec<Spec> {
    let mut out = vec![];
    let mut vals: Vec<u64> = (0..40).collect();
    for b in 5..32 {
        for d in [-1i64, 0, 1] {
            vals.push(((1i64 << b) + d) as u64);
        }
    }
    vals.push(0xabcdef);
    vals.push(0xdeadbeef);
    vals.push(0xffffffff);
    if th {
        vals.extend(40..5000);
    }
    vals.sort();
    vals.dedup();
    for v in vals {
        for t in [format!("{}", v), format!("0x{:x}", v), format!("0x{:X}", v), format!("0x{:08x}", v)] {
            let mut i = vec![cnst("A", &t), cnst("B", "1")];
            if v <= 0x7fffffff {
                i.push(enm("e", &[("X", &t), ("Y", "A"), ("Z", "0x1F")]));
                i.push(enm("e1", &[("X1", &t)]));
            }
            out.push(Spec::new(format!("V {}", t), i));
        }
    }
    out
}

pub const NAMES: &[&str] = &[
    "a", "x1", "_", "_x", "x_", "__", "A", "aB_9", "structure", "struct_x", "structs", "union_x", "unions", "enum_x", "enumeration", "typedef_x", "typedefs", "const_x",
    "constant", "case_x", "cases", "casement", "default_x", "defaults", "void_x", "voided", "switch_x", "switches", "int_x", "integer", "int3", "ints", "unsigned_x", "unsignedx",
    "hyper_x", "hyperspace", "float_x", "floats", "double_x", "doubled", "string_x", "strings", "opaque_x", "opaques", "bool_x", "booleans", "u32x", "u3", "i64_x", "uint32_tt",
    "uint32", "int32", "type", "types", "fn", "self", "Self", "match", "r", "T", "String", "Vec", "Option", "Bytes", "TRUE_x", "FALSEHOOD", "true", "false", "null", "SOI", "EOI", "ANY",
    "item", "ident", "xdr", "a_very_long_identifier_that_goes_on_and_on_and_on_0123456789_ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz",
];

/// Every identifier in every position.
pub fn names() -> Vec<Spec> {
    let mut out = vec![];
    for x in NAMES {
        let mut put = |w: &str, i: Vec<Item>| out.push(Spec::new(format!("N {} as {}", x, w), i));
        put("struct", vec![strct(x, vec![f(p("int"), "q")]), strct("other", vec![f(n(x), "p"), fo(n(x), "r"), fa(n(x), "s", var())])]);
        put("field", vec![strct("s", vec![f(p("unsigned int"), x)])]);
        put("field of a named type", vec![strct("s", vec![f(n("other"), x), fo(n("other"), "y")])]);
        put("field after unsigned", vec![strct("s", vec![f(p("unsigned"), x), f(p("int"), "yy")])]);
        put("optional field", vec![strct("s", vec![fo(n("s"), x)])]);
        put("array field", vec![strct("s", vec![fa(p("opaque"), x, varn(3)), fa(n("q"), "yy", fix(2))])]);
        put("union", vec![uni(x, p("int"), "dd", vec![arm(&["1"], None), arm(&["default"], Some((n(x), "body")))])]);
        put("discriminant", vec![uni("u", p("unsigned int"), x, vec![arm(&["1"], None)]), uni("w", n("e_t"), x, vec![arm(&["1"], None)])]);
        put("discriminant type", vec![uni("u", n(x), "dd", vec![arm(&["1"], None)])]);
        put("arm type", vec![uni("u", p("int"), "dd", vec![arm(&["1"], Some((n(x), "body"))), arm(&["2", "3"], Some((n(x), "body2"))), arm(&["default"], Some((n(x), "body3")))])]);
        put("arm name", vec![uni("u", p("int"), "dd", vec![arm(&["1"], Some((p("int"), x))), arm(&["2", "3"], Some((n("t_t"), x))), arm(&["default"], Some((p("opaque"), x)))])]);
        put("label", vec![uni("u", p("int"), "dd", vec![arm(&[x], Some((p("int"), "body"))), arm(&["2"], None)]), uni("w", p("int"), "dd", vec![arm(&["7", x], None)]), uni("q", p("int"), "dd", vec![arm(&[x, "default"], Some((n(x), x)))])]);
        put("enum", vec![enm(x, &[("M1", "1"), ("M2", "2")])]);
        put("member", vec![enm("e_t", &[(x, "1"), ("M2", "2")]), enm("g_t", &[("M3", "1"), ("M4", x)])]);
        put("constant", vec![cnst(x, "1"), cnst("OTHER", "2")]);
        put("size", vec![strct("s", vec![fa(n("e"), "q", fixc(x)), fa(n("e"), "r", varc(x)), fa(p("opaque"), "t", fixc(x))]), tdef(p("string"), "td", varc(x)), tdef(n("e"), "te", fixc(x))]);
        put("typedef", vec![tdef(p("unsigned hyper"), x, Arr::None), tdef(n(x), "second", var()), tdef(n("third"), "fourth", fix(2))]);
        put("opaque typedef", vec![tdef(p("opaque"), x, varn(4))]);
        // one name for different things
        put("type and field and arm", vec![strct(x, vec![fo(n(x), x)]), uni("u", n(x), x, vec![arm(&[x], Some((n(x), x)))])]);
    }
    out
}

/// Every shape of a union with up to `max` groups.
pub fn unions(max: usize) -> Vec<Spec> {
    // a group: how many labels, default at its end, what it selects
    let mut groups: Vec<(usize, bool, usize)> = vec![];
    for l in 0..=3 {
        for d in [false, true] {
            if l == 0 && !d {
                continue;
            }
            for b in 0..5 {
                groups.push((l, d, b));
            }
        }
    }
    let mut out = vec![];
    let mut seqs: Vec<Vec<(usize, bool, usize)>> = vec![vec![]];
    for depth in 0..max {
        let mut next = vec![];
        for s in &seqs {
            for g in &groups {
                if g.1 && s.iter().any(|x| x.1) {
                    continue;
                }
                if depth >= 2 && (g.0 == 3 || g.2 > 2) {
                    continue;
                }
                let mut t = s.clone();
                t.push(*g);
                next.push(t);
            }
        }
        for (k, s) in next.iter().enumerate() {
            let mut lab = 0;
            let mut nm = 0;
            let arms: Vec<Arm> = s
                .iter()
                .map(|(l, d, b)| {
                    let mut labels: Vec<Option<String>> = (0..*l)
                        .map(|_| {
                            lab += 1;
                            Some(match (lab + k) % 3 {
                                0 => format!("{}", lab),
                                1 => format!("LAB_{}", lab),
                                _ => format!("MEM_{}", lab),
                            })
                        })
                        .collect();
                    if *d {
                        labels.push(None);
                    }
                    nm += 1;
                    let body = match b {
                        0 => None,
                        1 => Some((p("unsigned int"), format!("b{}", nm))),
                        2 => Some((n("named"), format!("b{}", nm))),
                        3 => Some((p("opaque"), format!("b{}", nm))),
                        _ => Some((p("unsigned"), format!("b{}", nm))),
                    };
                    Arm { labels, body }
                })
                .collect();
            let dt = [p("int"), p("unsigned int"), n("e_t"), p("bool"), p("unsigned hyper")][k % 5].clone();
            out.push(Spec::new(format!("U {:?}", s), vec![uni("u", dt, "d", arms)]));
        }
        seqs = next;
    }
    out
}

/// Every sequence of declaration kinds.
pub fn kinds(len: usize) -> Vec<Spec> {
    let item = |k: usize, i: usize| -> Item {
        let nm = format!("n{}", i);
        match k {
            0 => cnst(&nm, &i.to_string()),
            1 => cnst(&nm, "0x1F"),
            2 => enm(&nm, &[(&format!("m{}", i), "1")]),
            3 => enm(&nm, &[(&format!("m{}", i), "1"), (&format!("k{}", i), "0x2")]),
            4 => strct(&nm, vec![f(p("unsigned int"), "x")]),
            5 => strct(&nm, vec![fo(n(&nm), "x"), fa(p("opaque"), "y", var())]),
            6 => uni(&nm, p("int"), "d", vec![arm(&["1", "2"], None), arm(&["default"], Some((p("unsigned hyper"), "z")))]),
            7 => uni(&nm, p("unsigned"), "d", vec![arm(&["1"], Some((n("n0"), "x"))), arm(&["2", "default"], None)]),
            8 => tdef(p("unsigned int"), &nm, Arr::None),
            9 => tdef(p("opaque"), &nm, fix(4)),
            10 => tdef(n("n0"), &nm, varc("n1")),
            _ => tdef(p("string"), &nm, var()),
        }
    };
    let mut out = vec![];
    let mut idx = vec![vec![]];
    for _ in 0..len {
        let mut next = vec![];
        for s in &idx {
            for k in 0..12 {
                let mut t: Vec<usize> = s.clone();
                t.push(k);
                next.push(t);
            }
        }
        for s in &next {
            out.push(Spec::new(format!("S {:?}", s), s.iter().enumerate().map(|(i, k)| item(*k, i)).collect()));
        }
        idx = next;
    }
    out
}


/// Lists in which two entries have something in common: their values, their
/// types, or all of their names but one character.
pub fn repeats(th: bool) -> Vec<Spec> {
    let mut out = vec![];
    for k in (2..=(if th { 20usize } else { 12 })).chain([17, 33, 65, 130]) {
        let pairs: Vec<(usize, usize)> = (0..k)
            .flat_map(|i| (i + 1..k).map(move |j| (i, j)))
            .filter(|(i, j)| k <= 20 && (th || k <= 12) || (*i < 1 && (*j + 2 > k || *j < 2)) || (*i + 2 == k && *j + 1 == k) || (*i == k / 2 && *j == i + 1))
            .collect();
        for (x, (i, j)) in pairs.into_iter().enumerate() {
            let spelt = |v: usize, hex: bool| if hex { format!("{:#x}", v) } else { v.to_string() };
            // equal values, spelt alike, differently, or by a constant
            let vals: Vec<String> = (0..k)
                .map(|m| {
                    if m == j {
                        match x % 3 {
                            0 => spelt(10 + i, false),
                            1 => spelt(10 + i, true),
                            _ => "K_SAME".into(),
                        }
                    } else {
                        spelt(10 + m, m % 5 == 4)
                    }
                })
                .collect();
            let names: Vec<String> = (0..k).map(|m| format!("m_{}", m)).collect();
            let mem: Vec<(&str, &str)> = names.iter().zip(&vals).map(|(a, b)| (a.as_str(), b.as_str())).collect();
            let tys = ["int", "unsigned int", "hyper", "unsigned hyper", "float", "double", "bool"];
            let ty = |m: usize| -> TyRef {
                let m = if m == j { i } else { m };
                if m % 3 == 2 {
                    n(&format!("t_{}", m))
                } else {
                    p(tys[m % 7])
                }
            };
            let arr = |m: usize| -> Arr {
                match (if m == j { i } else { m }) % 4 {
                    1 => varn(9),
                    3 => fix(2),
                    _ => Arr::None,
                }
            };
            let items = vec![
                cnst("K_SAME", &(10 + i).to_string()),
                enm("e_t", &mem),
                strct("s_t", (0..k).map(|m| fa(ty(m), &format!("f_{}", m), arr(m))).collect()),
                uni("u_t", p("int"), "d", (0..k).map(|m| Arm { labels: vec![Some(m.to_string())], body: Some((ty(m), format!("b_{}", m))) }).collect()),
                uni("v_t", n("e_t"), "d", (0..k).map(|m| Arm { labels: vec![Some(names[m].clone())], body: if m == i || m == j { None } else { Some((ty(m), format!("b_{}", m))) } }).collect()),
            ];
            let mut items = items;
            if k <= 20 {
                // across declarations
                for m in 0..k {
                    items.push(cnst(&format!("c_{}", m), &vals[m]));
                    items.push(enm(&format!("e_{}", m), &[(&format!("x_{}", m), &vals[m])]));
                    items.push(tdef(ty(m), &format!("y_{}", m), arr(m)));
                }
            }
            out.push(Spec::new(format!("R {} entries, {} and {} alike", k, i, j), items));
        }
    }
    out.extend(alike(th));
    out
}

/// Names that agree up to their last character, or in all but their first.
pub fn alike(th: bool) -> Vec<Spec> {
    let mut out = vec![];
    let sel = |l: String, body: Option<(TyRef, String)>| Arm { labels: vec![Some(l)], body };
    let lens: Vec<usize> = if th { (1..=300).chain([511, 512, 1023, 1024, 4095, 4096]).collect() } else { (1..=70).chain([127, 128, 129, 254, 255, 256, 257, 1023, 1024]).collect() };
    for l in lens {
        let stem: String = (0..l).map(|i| if i % 9 == 8 { '_' } else { (b'a' + (i % 26) as u8) as char }).collect();
        for (w, a, b) in [("last", format!("{}q", stem), format!("{}w", stem)), ("first", format!("q{}", stem), format!("w{}", stem)), ("length", format!("q{}", stem), format!("q{}{}", stem, stem)), ("case", format!("q{}", stem), format!("q{}", stem.to_uppercase()))] {
            out.push(Spec::new(
                format!("R names of {} characters apart in {}", l + 1, w),
                vec![
                    cnst(&format!("c_{}", a), "1"),
                    cnst(&format!("c_{}", b), "2"),
                    enm(&format!("e_{}", a), &[(&format!("m_{}", a), "1"), (&format!("m_{}", b), "2")]),
                    enm(&format!("e_{}", b), &[(&format!("n_{}", a), "3"), (&format!("n_{}", b), "4")]),
                    tdef(p("opaque"), &format!("o_{}", a), var()),
                    tdef(p("unsigned int"), &format!("o_{}", b), Arr::None),
                    strct(&format!("s_{}", a), vec![f(n(&format!("o_{}", a)), &format!("f_{}", a)), f(n(&format!("o_{}", b)), &format!("f_{}", b))]),
                    strct(&format!("s_{}", b), vec![fa(n(&format!("o_{}", b)), &format!("f_{}", a), fixc(&format!("c_{}", b))), fo(n(&format!("o_{}", b)), &format!("f_{}", b))]),
                    uni(
                        &format!("u_{}", a),
                        n(&format!("e_{}", a)),
                        &format!("d_{}", a),
                        vec![sel(format!("m_{}", b), Some((n(&format!("s_{}", a)), format!("b_{}", a)))), sel(format!("m_{}", a), Some((n(&format!("s_{}", b)), format!("b_{}", b))))],
                    ),
                    uni(
                        &format!("u_{}", b),
                        n(&format!("e_{}", b)),
                        &format!("d_{}", b),
                        vec![sel(format!("n_{}", b), Some((n(&format!("s_{}", b)), format!("b_{}", a)))), sel(format!("n_{}", a), None)],
                    ),
                ],
            ));
        }
    }
    out
}
