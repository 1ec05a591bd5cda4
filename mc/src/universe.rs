//! The bounded universe of specifications. Everything here is enumerated, in a
//! fixed order, simple first; nothing is sampled.
use crate::rt::Budget;
use crate::sem::*;
use crate::spec::*;

pub const PRIMS: &[&str] = &[
    "unsigned int", "unsigned", "uint32_t", "u32", "int", "int32_t", "i32", "unsigned hyper", "uint64_t", "u64",
    "hyper", "int64_t", "i64", "float", "double", "bool",
];

/// Declarations the composition families build on.
pub fn base_items() -> Vec<Item> {
    vec![
        cnst("KDEC", "5"),
        cnst("KHEX", "0x6"),
        tdef(p("unsigned int"), "tu", Arr::None),
        tdef(p("hyper"), "th", Arr::None),
        enm("eA", &[("EA_ZERO", "0"), ("EA_SEVEN", "7"), ("EA_HEX", "0x100")]),
        tdef(p("opaque"), "o0", var()),
        tdef(p("opaque"), "o3", fix(3)),
        tdef(p("opaque"), "ob", varn(5)),
        tdef(p("string"), "st", var()),
        tdef(p("string"), "sb", varn(6)),
        strct("s0", vec![f(p("unsigned int"), "a"), fa(p("opaque"), "b", var())]),
        strct("s1", vec![f(p("hyper"), "a"), f(p("bool"), "b")]),
        uni(
            "u0",
            p("int"),
            "d",
            vec![arm(&["0"], None), arm(&["1"], Some((n("o0"), "x"))), arm(&["2"], Some((p("hyper"), "y"))), arm(&["default"], None)],
        ),
    ]
}

/// Every declarator form a struct field can take over the base items.
pub fn field_forms() -> Vec<(TyRef, Arr, bool)> {
    let mut v: Vec<(TyRef, Arr, bool)> = vec![];
    for s in ["unsigned int", "int", "hyper", "unsigned hyper", "float", "double", "bool", "string", "opaque"] {
        v.push((p(s), Arr::None, false));
    }
    for s in ["string", "opaque"] {
        v.push((p(s), var(), false));
        v.push((p(s), varn(7), false));
    }
    v.push((p("opaque"), varc("KHEX"), false));
    v.push((p("opaque"), fix(1), false));
    v.push((p("opaque"), fix(6), false));
    v.push((p("opaque"), fixc("KDEC"), false));
    v.push((p("unsigned int"), fix(3), false));
    v.push((p("hyper"), fixc("KDEC"), false));
    v.push((p("bool"), fix(2), false));
    for s in ["tu", "th", "eA", "o0", "o3", "ob", "st", "sb", "s0", "s1", "u0"] {
        v.push((n(s), Arr::None, false));
    }
    for s in ["tu", "eA", "o0", "o3", "sb", "s0", "s1", "u0"] {
        v.push((n(s), var(), false));
    }
    for s in ["tu", "ob", "st", "s0", "u0"] {
        v.push((n(s), varn(2), false));
        v.push((n(s), fix(2), false));
    }
    v.push((n("s0"), varc("KDEC"), false));
    for s in ["tu", "eA", "o0", "s0", "s1", "u0"] {
        v.push((n(s), Arr::None, true));
    }
    v.push((p("unsigned int"), Arr::None, true));
    v.push((p("hyper"), Arr::None, true));
    v.push((p("bool"), Arr::None, true));
    v.push((p("string"), Arr::None, true));
    v
}

/// P1: each primitive spelling and declarator form alone.
pub fn p1() -> Vec<Spec> {
    let mut out = vec![];
    for (k, s) in PRIMS.iter().enumerate() {
        let mut it = vec![
            strct("a", vec![f(p(s), "x")]),
            strct("b", vec![fa(p(s), "x", fix(1)), fa(p(s), "y", fix(3))]),
            tdef(p(s), "t", Arr::None),
            tdef(p(s), "tf", fix(2)),
            uni("u", p("int"), "d", vec![arm(&["1"], Some((p(s), "x"))), arm(&["default"], Some((p(s), "y")))]),
            strct("o", vec![fo(n("t"), "x"), fo(p(s), "y")]),
            tdef(n("t"), "tv", var()),
            tdef(n("t"), "tb", varn(3)),
            strct("m", vec![f(p("bool"), "z"), f(p(s), "x"), f(p("hyper"), "w")]),
        ];
        if k % 2 == 1 {
            it.reverse();
        }
        out.push(Spec::new(format!("P1 primitive `{}`", s), it));
    }
    // one small self-contained spec per declarator form
    for (i, (t, a, o)) in field_forms().into_iter().enumerate() {
        let mut it = base_items();
        it.push(strct("x", vec![Field { ty: t.clone(), name: "f".into(), arr: a.clone(), opt: o }]));
        if !o {
            let plain_prim = matches!(&t, TyRef::Prim(s) if *s != "string" && *s != "opaque");
            if !(plain_prim && matches!(a, Arr::Var(_))) {
                it.push(tdef(t.clone(), "y", a.clone()));
                it.push(tdef(n("y"), "z", Arr::None));
                it.push(strct("w", vec![f(n("y"), "f"), f(p("unsigned int"), "tail")]));
                it.push(tdef(n("y"), "v", var()));
            }
        }
        out.push(Spec::new(format!("P1 declarator #{}", i), it));
    }
    // the header alone
    out.push(Spec::new("P1 constants only", vec![cnst("A", "1"), cnst("B", "0xff")]));
    out
}

/// Containers applied to a type; None where the combination is outside the subset.
pub const NCONT: usize = 18;
pub fn container(k: usize, t: &TyRef, nm: &str) -> Option<Item> {
    let prim_direct = matches!(t, TyRef::Prim(_));
    let prim_name = if let TyRef::Prim(s) = t { *s } else { "" };
    let countable = !prim_direct || prim_name == "string" || prim_name == "opaque";
    let fixable = prim_name != "string";
    let optable = prim_name != "opaque";
    Some(match k {
        0 => strct(nm, vec![f(t.clone(), "f")]),
        1 => strct(nm, vec![f(p("unsigned int"), "a"), f(t.clone(), "f"), f(p("bool"), "z")]),
        2 if optable => strct(nm, vec![fo(t.clone(), "f"), f(p("unsigned int"), "z")]),
        3 if countable => strct(nm, vec![fa(t.clone(), "f", var()), f(p("unsigned int"), "z")]),
        4 if countable => strct(nm, vec![fa(t.clone(), "f", varn(3))]),
        5 if fixable => strct(nm, vec![fa(t.clone(), "f", fix(2)), f(p("int"), "z")]),
        6 => uni(nm, p("int"), "d", vec![arm(&["1"], Some((t.clone(), "x"))), arm(&["default"], None)]),
        7 => uni(nm, p("unsigned int"), "d", vec![arm(&["0"], None), arm(&["default"], Some((t.clone(), "x")))]),
        8 => tdef(t.clone(), nm, Arr::None),
        9 if countable => tdef(t.clone(), nm, var()),
        10 if countable => tdef(t.clone(), nm, varn(2)),
        11 if fixable => tdef(t.clone(), nm, fix(2)),
        12 => uni(nm, n("eA"), "e", vec![arm(&["EA_ZERO", "EA_HEX"], Some((t.clone(), "x"))), arm(&["EA_SEVEN"], None)]),
        13 => uni(nm, p("bool"), "b", vec![arm(&["TRUE"], Some((t.clone(), "x"))), arm(&["FALSE"], None)]),
        14 if countable => tdef(t.clone(), nm, varc("KDEC")),
        15 if fixable => strct(nm, vec![fa(t.clone(), "f", fixc("KDEC"))]),
        16 if countable => strct(nm, vec![f(t.clone(), "e"), fa(t.clone(), "f", varc("KHEX")), f(t.clone(), "g")]),
        17 => strct(nm, vec![f(t.clone(), "e"), f(t.clone(), "f")]),
        _ => return None,
    })
}

pub fn leaves() -> Vec<TyRef> {
    let mut v: Vec<TyRef> = ["unsigned int", "hyper", "double", "bool", "string", "opaque"].iter().map(|s| p(s)).collect();
    v.extend(["tu", "eA", "o0", "o3", "ob", "st", "sb", "s0", "s1", "u0"].iter().map(|s| n(s)));
    v
}

/// P2: all container compositions over all leaves, to the given depth.
pub fn p2(depth: usize, leaves_: &[TyRef], conts: &[usize]) -> Vec<Spec> {
    let mut out = vec![];
    for (li, l) in leaves_.iter().enumerate() {
        let ln = match l {
            TyRef::Prim(s) => s.replace(' ', "_"),
            TyRef::Named(s) => s.clone(),
        };
        for c1 in conts {
            let mut items = base_items();
            let nm = format!("t{}", c1);
            let it = match container(*c1, l, &nm) {
                Some(i) => i,
                None => continue,
            };
            items.push(it);
            let mut cur = vec![nm];
            for d in 1..depth {
                let mut next = vec![];
                for c in &cur {
                    for k in conts {
                        let nm = format!("{}x{}", c, k);
                        if let Some(i) = container(*k, &n(c), &nm) {
                            // keep fixed unrolling bounded
                            items.push(i);
                            next.push(nm);
                        }
                    }
                }
                let _ = d;
                cur = next;
            }
            if (li + c1) % 2 == 1 {
                items.reverse();
            }
            out.push(Spec::new(format!("P2 leaf {} depth {} outer container {}", ln, depth, c1), items));
        }
    }
    // several outer containers per module keep the number of modules down
    if depth <= 2 {
        let mut merged: Vec<Spec> = vec![];
        let nb = base_items().len();
        for (i, s) in out.chunks(6).enumerate() {
            let mut items = base_items();
            for x in s {
                let own: Vec<Item> = x.items.iter().filter(|i| !base_items().contains(i)).cloned().collect();
                assert!(own.len() + nb == x.items.len());
                for it in own {
                    if !items.contains(&it) {
                        items.push(rename(&it, &format!("_{}", leaf_tag(&x.label))));
                    }
                }
            }
            if i % 2 == 1 {
                items.reverse();
            }
            merged.push(Spec::new(format!("{} (+{})", s[0].label, s.len() - 1), items));
        }
        return merged;
    }
    out
}
fn leaf_tag(label: &str) -> String {
    label.split(' ').nth(2).unwrap().to_string()
}
fn rename(i: &Item, suf: &str) -> Item {
    // only names generated by p2 (t<digit>...) are renamed
    let gen = |s: &str| s.starts_with('t') && s[1..].starts_with(|c: char| c.is_ascii_digit());
    let rt = |t: &TyRef| match t {
        TyRef::Named(s) if gen(s) => TyRef::Named(format!("{}{}", s, suf)),
        t => t.clone(),
    };
    let rn = |s: &String| if gen(s) { format!("{}{}", s, suf) } else { s.clone() };
    match i {
        Item::Struct { name, fields } => Item::Struct {
            name: rn(name),
            fields: fields.iter().map(|f| Field { ty: rt(&f.ty), ..f.clone() }).collect(),
        },
        Item::Union { name, disc_ty, disc, arms } => Item::Union {
            name: rn(name),
            disc_ty: rt(disc_ty),
            disc: disc.clone(),
            arms: arms
                .iter()
                .map(|a| Arm { labels: a.labels.clone(), body: a.body.as_ref().map(|(t, s)| (rt(t), s.clone())) })
                .collect(),
        },
        Item::Typedef { ty, name, arr } => Item::Typedef { ty: rt(ty), name: rn(name), arr: arr.clone() },
        i => i.clone(),
    }
}

/// P3: all ordered pairs of field forms.
pub fn p3(step: usize) -> Vec<Spec> {
    let ff = field_forms();
    let mut out = vec![];
    for (i, a) in ff.iter().enumerate() {
        let mut items = base_items();
        for (j, b) in ff.iter().enumerate() {
            if step > 1 && (i + j) % step != 0 {
                continue;
            }
            items.push(strct(
                &format!("q{}", j),
                vec![
                    Field { ty: a.0.clone(), name: "f".into(), arr: a.1.clone(), opt: a.2 },
                    Field { ty: b.0.clone(), name: "g".into(), arr: b.1.clone(), opt: b.2 },
                ],
            ));
        }
        out.push(Spec::new(format!("P3 pairs with first field form #{}", i), items));
    }
    out
}

/// P4: union label structure.
pub fn p4(full: bool) -> Vec<Spec> {
    let mut out = vec![];
    struct DK {
        name: &'static str,
        ty: TyRef,
        labels: Vec<&'static str>,
        full: bool,
    }
    let kinds = vec![
        DK { name: "int", ty: p("int"), labels: vec!["0", "7", "KA", "KB"], full: true },
        DK { name: "enum", ty: n("eD"), labels: vec!["DA", "DB", "DC", "DD"], full: true },
        DK { name: "unsigned int", ty: p("unsigned int"), labels: vec!["1", "KB", "4294967295", "KA"], full: false },
        DK { name: "unsigned", ty: p("unsigned"), labels: vec!["3", "0", "2", "KA"], full: false },
        DK { name: "uint32_t", ty: p("uint32_t"), labels: vec!["KA", "0", "2147483648", "12"], full: false },
        DK { name: "int32_t", ty: p("int32_t"), labels: vec!["KB", "2147483647", "1", "0"], full: false },
        DK { name: "unsigned int by enum members", ty: p("unsigned int"), labels: vec!["DA", "DC", "DB", "DD"], full: false },
        DK { name: "int by enum members", ty: p("int"), labels: vec!["DD", "DA", "DB", "DC"], full: false },
        DK { name: "bool", ty: p("bool"), labels: vec!["TRUE", "FALSE"], full: false },
        DK { name: "typedef int", ty: n("ti"), labels: vec!["5", "KA", "DA", "0"], full: false },
        DK { name: "typedef unsigned", ty: n("tuu"), labels: vec!["0", "1", "KB", "DC"], full: false },
        DK { name: "typedef typedef int", ty: n("tti"), labels: vec!["9", "DB", "KA", "4"], full: false },
        DK { name: "typedef enum", ty: n("te"), labels: vec!["DA", "DD", "DC", "DB"], full: false },
        DK { name: "typedef typedef enum", ty: n("tte"), labels: vec!["DB", "DA", "DC", "DD"], full: false },
        DK { name: "typedef bool", ty: n("tb"), labels: vec!["FALSE", "TRUE"], full: false },
        DK { name: "hyper", ty: p("hyper"), labels: vec!["0", "4294967296", "KA", "7"], full: false },
        DK { name: "unsigned hyper", ty: p("unsigned hyper"), labels: vec!["1", "18446744073709551615", "KB", "0"], full: false },
        DK { name: "typedef unsigned hyper", ty: n("tuh"), labels: vec!["0", "4294967297", "KA", "3"], full: false },
        DK { name: "typedefs to int, six deep", ty: n("t6i"), labels: vec!["6", "KA", "DA", "0"], full: false },
        DK { name: "typedefs to enum, six deep", ty: n("t6e"), labels: vec!["DC", "DA", "DD", "DB"], full: false },
        DK { name: "typedefs to bool, six deep", ty: n("t6b"), labels: vec!["TRUE", "FALSE"], full: false },
        DK { name: "typedefs to hyper, six deep", ty: n("t6h"), labels: vec!["8589934592", "KA", "2", "KB"], full: false },
        DK { name: "int by hex constants", ty: p("int"), labels: vec!["KX", "KY", "KB", "KZ"], full: false },
        DK { name: "unsigned by hex constants", ty: p("unsigned int"), labels: vec!["KW", "KZ", "16", "KX"], full: false },
        DK { name: "enum by constants", ty: n("eD"), labels: vec!["KZ", "KY", "KV", "DC"], full: false },
        DK { name: "enum by numbers", ty: n("eD"), labels: vec!["0", "3", "DA", "DD"], full: false },
    ];
    let pre = || {
        vec![
            cnst("KA", "3000"),
            cnst("KB", "0x20"),
            cnst("KV", "0x3E8"),
            cnst("KW", "0xFFFFffff"),
            cnst("KX", "0x00aB"),
            cnst("KY", "0x7fffffff"),
            cnst("KZ", "0x0"),
            enm("eD", &[("DA", "1"), ("DB", "0"), ("DC", "3"), ("DD", "0x7fffffff"), ("DE", "1000")]),
            tdef(p("int"), "ti", Arr::None),
            tdef(p("unsigned int"), "tuu", Arr::None),
            tdef(n("ti"), "tti", Arr::None),
            tdef(n("eD"), "te", Arr::None),
            tdef(n("te"), "tte", Arr::None),
            tdef(p("bool"), "tb", Arr::None),
            tdef(p("unsigned hyper"), "tuh", Arr::None),
            tdef(p("opaque"), "o0", var()),
            strct("s0", vec![f(p("unsigned int"), "a"), fa(p("opaque"), "b", var())]),
            tdef(p("int"), "t1i", Arr::None),
            tdef(n("eD"), "t1e", Arr::None),
            tdef(p("bool"), "t1b", Arr::None),
            tdef(p("hyper"), "t1h", Arr::None),
        ]
        .into_iter()
        .chain(["i", "e", "b", "h"].iter().flat_map(|c| (2..=6).map(move |k| tdef(n(&format!("t{}{}", k - 1, c)), &format!("t{}{}", k, c), Arr::None))))
        .collect::<Vec<_>>()
    };
    for k in &kinds {
        let nl = k.labels.len();
        let parts: &[&[usize]] = if nl == 2 {
            &[&[1], &[2], &[1, 1]]
        } else if k.full {
            &[&[1], &[2], &[1, 1], &[3], &[2, 1], &[1, 2], &[1, 1, 1]]
        } else {
            &[&[1], &[2, 1], &[1, 1, 1]]
        };
        let mut unions: Vec<Item> = vec![];
        for part in parts {
            let g = part.len();
            let nb = if full { 4usize } else { 3 };
            for code in 0..nb.pow(g as u32) {
                let mut bodies = vec![];
                let mut c = code;
                for _ in 0..g {
                    bodies.push(c % nb);
                    c /= nb;
                }
                if !full && !k.full && g == 3 && code % 2 == 1 {
                    continue;
                }
                let body = |b: usize, i: usize| -> Option<(TyRef, String)> {
                    match b {
                        0 => None,
                        1 => Some((p("unsigned int"), format!("f{}", i))),
                        2 => Some((n("o0"), format!("g{}", i))),
                        _ => Some((n("s0"), format!("h{}", i))),
                    }
                };
                let used: usize = part.iter().sum();
                // default: none, void, u32, opaque, with a fall-through label (void / data / opaque data)
                for dk in 0..7 {
                    if dk >= 4 && used >= nl {
                        continue;
                    }
                    for first in [false, true] {
                        if dk == 0 && first {
                            continue;
                        }
                        if !full && first && dk > 2 && !k.full {
                            continue;
                        }
                        let mut arms = vec![];
                        let mut at = 0;
                        for (gi, sz) in part.iter().enumerate() {
                            arms.push(Arm {
                                labels: k.labels[at..at + sz].iter().map(|l| Some(l.to_string())).collect(),
                                body: body(bodies[gi], gi),
                            });
                            at += sz;
                        }
                        let extra = || Some(k.labels[used].to_string());
                        let d = match dk {
                            0 => None,
                            1 => Some(Arm { labels: vec![None], body: None }),
                            2 => Some(Arm { labels: vec![None], body: body(1, 9) }),
                            3 => Some(Arm { labels: vec![None], body: body(2, 9) }),
                            4 => Some(Arm { labels: vec![extra(), None], body: None }),
                            5 => Some(Arm { labels: vec![extra(), None], body: body(1, 9) }),
                            _ => Some(Arm { labels: vec![extra(), None], body: body(2, 9) }),
                        };
                        if let Some(d) = d {
                            if first {
                                arms.insert(0, d)
                            } else {
                                arms.push(d)
                            }
                        }
                        let nm = format!("w{}", unions.len());
                        let dn = ["d", "v", "type", "c", "status"][unions.len() % 5];
                        unions.push(uni(&nm, k.ty.clone(), dn, arms));
                    }
                }
            }
        }
        for (ci, ch) in unions.chunks(80).enumerate() {
            let mut items = pre();
            items.extend(ch.iter().cloned());
            if ci % 2 == 1 {
                items.reverse();
            }
            out.push(Spec::new(format!("P4 union switched on {} part {}", k.name, ci), items));
        }
    }
    out
}

/// P5: enums and unions over them, of every size.
pub fn p5() -> Vec<Spec> {
    let mut out = vec![];
    let mut items = vec![cnst("ONE", "1"), cnst("SIXTEEN", "0x10"), cnst("BIG", "2147483647")];
    for k in 1..=40usize {
        let style = k % 5;
        let members: Vec<(String, String)> = (0..k)
            .map(|i| {
                let v = match style {
                    0 => format!("{}", i),
                    1 => format!("{:#x}", i),
                    2 => format!("{}", 1000 - i * 7),
                    3 => format!("{}", (i as u64 * 53_687_091).min(2147483647)),
                    _ => {
                        if i < 31 {
                            format!("{:#x}", 1u32 << i)
                        } else {
                            format!("{}", 3 + 4 * i)
                        }
                    }
                };
                (format!("M{}_{}", k, i), v)
            })
            .collect();
        items.push(Item::Enum { name: format!("en{}", k), members: members.clone() });
        items.push(strct(&format!("se{}", k), vec![f(n(&format!("en{}", k)), "e"), fa(n(&format!("en{}", k)), "v", var())]));
        // one arm per member
        let arms = members
            .iter()
            .enumerate()
            .map(|(i, m)| Arm {
                labels: vec![Some(m.0.clone())],
                body: if i % 3 == 0 { None } else if i % 3 == 1 { Some((p("unsigned int"), format!("a{}", i))) } else { Some((p("string"), format!("s{}", i))) },
            })
            .collect();
        items.push(uni(&format!("ue{}", k), n(&format!("en{}", k)), "d", arms));
        // all members in one fall-through group
        items.push(uni(
            &format!("uf{}", k),
            n(&format!("en{}", k)),
            "d",
            vec![Arm { labels: members.iter().map(|m| Some(m.0.clone())).collect(), body: Some((p("hyper"), "h".into())) }],
        ));
    }
    out.push(Spec::new("P5 enums of 1..40 members", items));
    out.push(Spec::new(
        "P5 constant valued enum members",
        vec![
            enm("ec", &[("CA", "ONE"), ("CB", "5"), ("CC", "SIXTEEN"), ("CD", "BIG")]),
            cnst("ONE", "1"),
            cnst("SIXTEEN", "0x10"),
            cnst("BIG", "2147483647"),
            strct("s", vec![f(n("ec"), "e"), fo(n("ec"), "o")]),
            uni("u", n("ec"), "d", vec![arm(&["CA"], None), arm(&["CC", "CD"], Some((p("int"), "x")))]),
        ],
    ));
    out.push(Spec::new(
        "P5 one enum",
        vec![enm("e", &[("A", "2147483647"), ("B", "0"), ("C", "0x7ffffffe")]), strct("s", vec![f(n("e"), "x"), f(p("int"), "y")])],
    ));
    out
}

/// P6: recursive shapes.
pub fn p6() -> Vec<Spec> {
    let u = || p("unsigned int");
    vec![
        Spec::new("P6 list", vec![strct("node", vec![f(u(), "v"), fo(n("node"), "next")])]),
        Spec::new(
            "P6 list, link first",
            vec![strct("node", vec![fo(n("node"), "next"), f(u(), "v")]), strct("top", vec![fo(n("node"), "head"), f(p("bool"), "eof")])],
        ),
        Spec::new(
            "P6 generic list",
            vec![strct("node", vec![fa(p("opaque"), "name", var()), fo(n("node"), "next")]), strct("top", vec![fo(n("node"), "head"), f(p("bool"), "eof")])],
        ),
        Spec::new("P6 binary tree", vec![strct("tree", vec![fo(n("tree"), "l"), f(u(), "v"), fo(n("tree"), "r")])]),
        Spec::new("P6 rose tree", vec![strct("tree", vec![f(u(), "v"), fa(n("tree"), "kids", var())])]),
        Spec::new(
            "P6 generic rose tree",
            vec![tdef(p("opaque"), "blob", varn(9)), strct("tree", vec![f(n("blob"), "v"), fa(n("tree"), "kids", varn(3)), f(p("bool"), "z")])],
        ),
        Spec::new(
            "P6 mutual recursion",
            vec![
                strct("a", vec![fo(n("b"), "x"), f(p("bool"), "y")]),
                strct("b", vec![f(u(), "z"), fo(n("a"), "w")]),
                strct("c", vec![fa(n("a"), "x", var()), f(n("b"), "y")]),
            ],
        ),
        Spec::new(
            "P6 generic mutual recursion",
            vec![
                strct("a", vec![fo(n("b"), "x"), f(p("bool"), "y")]),
                strct("b", vec![fa(n("c"), "z", var()), f(p("string"), "s")]),
                strct("c", vec![fo(n("a"), "x"), fa(p("opaque"), "d", fix(5))]),
            ],
        ),
        Spec::new(
            "P6 recursion through a union and a typedef'd array",
            vec![
                uni("val", p("int"), "t", vec![arm(&["0"], None), arm(&["1"], Some((u(), "n"))), arm(&["2"], Some((n("vals"), "l"))), arm(&["3"], Some((p("string"), "s")))]),
                tdef(n("val"), "vals", var()),
            ],
        ),
        Spec::new(
            "P6 generic json-like value",
            vec![
                enm("kind", &[("NUL", "0"), ("NUM", "1"), ("LST", "2"), ("MAP", "3"), ("BIN", "4")]),
                uni(
                    "val",
                    n("kind"),
                    "t",
                    vec![
                        arm(&["NUL"], None),
                        arm(&["NUM"], Some((p("double"), "n"))),
                        arm(&["LST"], Some((n("vals"), "l"))),
                        arm(&["MAP"], Some((n("pairs"), "m"))),
                        arm(&["BIN"], Some((n("bin"), "b"))),
                    ],
                ),
                tdef(n("val"), "vals", var()),
                tdef(n("pair"), "pairs", var()),
                strct("pair", vec![f(p("string"), "k"), f(n("val"), "v")]),
                tdef(p("opaque"), "bin", var()),
            ],
        ),
        Spec::new(
            "P6 link through a typedef",
            vec![
                tdef(n("node"), "link", Arr::None),
                strct("node", vec![f(p("hyper"), "v"), fo(n("link"), "next")]),
                uni("maybe", p("bool"), "have", vec![arm(&["TRUE"], Some((n("link"), "n"))), arm(&["FALSE"], None)]),
            ],
        ),
        Spec::new(
            "P6 link inside a union arm's struct",
            vec![
                uni("u", p("unsigned int"), "d", vec![arm(&["1"], Some((n("cons"), "c"))), arm(&["default"], None)]),
                strct("cons", vec![fa(p("opaque"), "car", var()), fo(n("u"), "cdr")]),
            ],
        ),
    ]
}

/// P7: names. Reserved words as fields and discriminants, keyword-prefixed
/// identifiers, identifiers equal to the emitter's own local names.
pub fn p7() -> Vec<Spec> {
    let mut out = vec![];
    let words: Vec<&str> = RESERVED
        .iter()
        .copied()
        .filter(|w| !matches!(*w, "Self" | "const" | "enum" | "struct" | "union"))
        .collect();
    let mut items = vec![];
    for (i, w) in words.iter().enumerate() {
        items.push(strct(&format!("r{}", i), vec![f(p("unsigned int"), w)]));
        items.push(strct(&format!("ro{}", i), vec![fo(n("r0"), w), fa(p("opaque"), "x", var())]));
        items.push(strct(&format!("ra{}", i), vec![fa(n("r0"), w, varn(2)), fa(p("opaque"), "x_v", fix(3))]));
        items.push(uni(&format!("ru{}", i), p("unsigned int"), w, vec![arm(&["0"], None), arm(&["1"], Some((p("opaque"), w)))]));
    }
    out.push(Spec::new("P7 every reserved word as field / discriminant name", items));
    out.push(Spec::new(
        "P7 all reserved words in one struct",
        vec![strct("all", words.iter().map(|w| f(p("bool"), w)).collect()), strct("opq", words.iter().map(|w| fa(p("opaque"), w, var())).collect())],
    ));
    for w in ["Self", "const", "enum", "struct", "union"] {
        out.push(Spec::new(
            format!("P7 `{}` as field name", w),
            vec![strct("a", vec![f(p("unsigned int"), w), f(p("bool"), "z")])],
        ));
    }
    let pre: Vec<&str> = vec![
        "integer", "int_", "interval", "hyperlink", "unsigned_x", "unsignedint", "floaty", "doubled", "stringy", "opaque_t", "boolean",
        "constant", "consts", "enumerate", "structure", "structs", "unions", "unionize", "typedefs", "typedef_x", "switcher", "cases", "case_",
        "defaults", "default_", "voided", "void_", "_leading", "x1", "X", "a_very_long_identifier_name_that_goes_on_and_on_and_on_for_a_while",
        "u32x", "i64_", "uint32t", "uint32_t2", "TRUEish", "FALSE_", "typed", "selfish", "matching",
    ];
    let mut items = vec![];
    for (i, w) in pre.iter().enumerate() {
        items.push(strct(&format!("{}_s", w), vec![f(p("unsigned int"), w), f(p("bool"), &format!("{}2", w))]));
        items.push(tdef(n(&format!("{}_s", w)), &format!("{}_t", w), var()));
        items.push(enm(&format!("{}_e", w), &[(&format!("{}_m0", w), "0"), (&format!("{}_m1", w), "1")]));
        items.push(cnst(&format!("{}_K", w), &format!("{}", i + 2)));
        items.push(uni(
            &format!("{}_u", w),
            n(&format!("{}_e", w)),
            w,
            vec![arm(&[&format!("{}_m0", w)], Some((n(&format!("{}_t", w)), w))), arm(&[&format!("{}_m1", w)], None)],
        ));
        items.push(strct(&format!("{}_b", w), vec![fa(p("opaque"), w, varc(&format!("{}_K", w)))]));
    }
    out.push(Spec::new("P7 keyword-prefixed identifiers", items));
    // declarations whose whole name is a keyword-prefixed word
    let mut items = vec![];
    for w in &pre {
        items.push(strct(w, vec![f(p("unsigned int"), "a"), fa(p("opaque"), "b", varn(4))]));
    }
    items.push(strct("user", pre.iter().enumerate().map(|(i, w)| fa(n(w), &format!("f{}", i), varn(1))).collect()));
    items.push(uni(
        "sel",
        p("int"),
        "which",
        pre.iter().enumerate().map(|(i, w)| Arm { labels: vec![Some(i.to_string())], body: Some((n(w), format!("f{}", i))) }).collect(),
    ));
    out.push(Spec::new("P7 keyword-prefixed type names", items));
    // names the emitted code uses for itself, as field and discriminant names
    let own = ["v", "w", "n", "c", "d", "f", "t", "x", "sum", "out", "inner", "data", "limit", "buf", "value", "len", "wire_size", "try_from", "pad_length", "read_u32", "default_v", "max", "b", "e", "size", "idx", "i", "result", "res", "bytes", "std", "fastxdr", "xdr", "remaining", "Ok_", "some", "none", "elements", "elem", "item"];
    let mut items = vec![tdef(p("opaque"), "o0", var()), enm("own_e", &[("OWN_A", "0"), ("OWN_B", "2")])];
    for (i, w) in own.iter().enumerate() {
        items.push(strct(&format!("own{}", i), vec![f(p("unsigned int"), w), fo(n("o0"), "opt"), fa(n("o0"), "arr", var()), f(p("bool"), "last")]));
        items.push(uni(&format!("ownu{}", i), n("own_e"), w, vec![arm(&["OWN_A"], Some((n("o0"), w))), arm(&["OWN_B"], None)]));
        items.push(uni(&format!("ownn{}", i), p("int"), w, vec![arm(&["5"], Some((n("o0"), w))), arm(&["6"], Some((p("hyper"), w))), arm(&["default"], Some((p("bool"), w)))]));
        items.push(uni(&format!("owna{}", i), p("int"), w, vec![arm(&["OWN_B"], Some((n("o0"), w))), arm(&["OWN_A"], None)]));
    }
    out.push(Spec::new("P7 the emitter's own local names", items));
    // members shared between declarations, names differing by case
    out.push(Spec::new(
        "P7 case differences and underscores",
        vec![
            strct("foo", vec![f(p("int"), "a"), f(p("int"), "A"), f(p("int"), "_a"), f(p("int"), "a_")]),
            strct("Foo", vec![f(n("foo"), "foo"), f(p("bool"), "Foo")]),
            tdef(n("Foo"), "FOO", Arr::None),
            tdef(n("FOO"), "_foo", fix(2)),
            uni("foo_", p("int"), "Foo", vec![arm(&["1"], Some((n("_foo"), "foo"))), arm(&["2"], None)]),
            cnst("foo__", "3"),
            strct("last", vec![fa(n("foo_"), "x", varc("foo__"))]),
        ],
    ));
    // names that agree in all but a character
    for s in crate::models::alike(false).into_iter().filter(|s| [" 17 ", " 32 ", " 33 ", " 64 ", " 65 ", " 129 ", " 256 ", " 257 "].iter().any(|l| s.label.contains(l)) && !s.label.ends_with("length")) {
        out.push(Spec::new(s.label.replacen("R names", "P7 names", 1), s.items));
    }
    out.extend(names_in_every_place());
    // std typedefs written out, as many real specs do
    out.push(Spec::new(
        "P7 standard typedefs",
        vec![
            tdef(p("int"), "int32_t", Arr::None),
            tdef(p("unsigned int"), "uint32_t", Arr::None),
            tdef(p("hyper"), "int64_t", Arr::None),
            tdef(p("unsigned hyper"), "uint64_t", Arr::None),
            tdef(p("uint32_t"), "mode4", Arr::None),
            strct("s", vec![f(p("uint32_t"), "a"), f(p("int64_t"), "b"), f(n("mode4"), "c")]),
        ],
    ));
    out
}

/// P8: magnitudes.
pub fn p8(thorough: bool) -> Vec<Spec> {
    let mut out = vec![];
    // payload length sweeps (Cfg override by label)
    out.push(Spec::new(
        "P8 length sweep",
        vec![
            tdef(p("opaque"), "o", var()),
            tdef(p("string"), "s", var()),
            strct("so", vec![fa(p("opaque"), "a", var()), f(p("unsigned int"), "z")]),
            strct("ss", vec![fa(p("string"), "a", var()), f(p("unsigned int"), "z")]),
            strct("sp", vec![f(p("opaque"), "a"), f(p("string"), "b")]),
            uni("u", p("int"), "d", vec![arm(&["1"], Some((p("opaque"), "a"))), arm(&["2"], Some((p("string"), "b"))), arm(&["default"], Some((n("o"), "c")))]),
            tdef(n("o"), "ov", var()),
            tdef(n("so"), "sv", var()),
        ],
    ));
    out.push(Spec::new(
        "P8 count sweep",
        vec![
            tdef(p("unsigned int"), "tu", Arr::None),
            tdef(p("opaque"), "o1", varn(1)),
            enm("e", &[("A", "0"), ("B", "9")]),
            tdef(n("tu"), "va", var()),
            tdef(n("o1"), "vo", var()),
            strct("s", vec![f(n("o1"), "o"), f(n("e"), "e")]),
            tdef(n("s"), "vs", var()),
            strct("w", vec![fa(n("s"), "l", var()), f(p("bool"), "z")]),
            tdef(n("va"), "vva", varn(3)),
        ],
    ));
    // elements that are much larger in memory than on the wire
    let mut big = vec![fa(p("hyper"), "a", fix(64)), fa(p("opaque"), "o", var())];
    for k in 0..10 {
        big.push(f(p("string"), &format!("s{}", k)));
    }
    out.push(Spec::new(
        "P8 count sweep of lopsided elements",
        vec![
            strct("big", big),
            uni("lop", p("int"), "d", vec![arm(&["0"], None), arm(&["1"], Some((n("big"), "b")))]),
            uni("dlop", p("unsigned int"), "d", vec![arm(&["7", "8"], None), arm(&["default"], Some((n("big"), "b")))]),
            enm("k", &[("K_A", "0"), ("K_B", "1")]),
            uni("elop", n("k"), "d", vec![arm(&["K_A"], None), arm(&["K_B"], Some((p("opaque"), "b")))]),
            tdef(p("opaque"), "one", fix(1)),
            strct("opts", (0..6).map(|i| fo(n("big"), &format!("o{}", i))).collect()),
            tdef(n("lop"), "lops", var()),
            tdef(n("dlop"), "dlops", varn(1000)),
            tdef(n("elop"), "elops", var()),
            tdef(n("one"), "ones", var()),
            tdef(n("opts"), "optss", var()),
            strct("hold", vec![fa(n("lop"), "l", var()), f(p("bool"), "z")]),
            uni("hu", p("int"), "d", vec![arm(&["0"], Some((n("lops"), "l"))), arm(&["1"], Some((n("ones"), "o")))]),
        ],
    ));
    // fixed sizes
    let mut items = vec![tdef(p("opaque"), "o1", varn(1)), cnst("C31", "31"), cnst("C33", "0x21")];
    for k in (1..=40u32).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025]) {
        items.push(strct(&format!("fo{}", k), vec![fa(p("opaque"), "a", fix(k)), f(p("bool"), "z")]));
        items.push(tdef(p("opaque"), &format!("to{}", k), fix(k)));
        if k <= 40 || thorough {
            items.push(strct(&format!("fu{}", k), vec![fa(p("unsigned int"), "a", fix(k)), f(p("bool"), "z")]));
            items.push(tdef(n("o1"), &format!("tf{}", k), fix(k)));
            items.push(tdef(p("hyper"), &format!("th{}", k), fix(k)));
        }
    }
    items.push(strct("fc", vec![fa(p("opaque"), "a", fixc("C31")), fa(p("int"), "b", fixc("C33"))]));
    out.push(Spec::new("P8 fixed sizes", items));
    let mut items = vec![tdef(p("opaque"), "o1", varn(1))];
    for k in [63u32, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 1500, 4096] {
        items.push(strct(&format!("fu{}", k), vec![fa(p("unsigned int"), "a", fix(k)), f(p("bool"), "z")]));
        items.push(tdef(n("o1"), &format!("tf{}", k), fix(k)));
    }
    out.push(Spec::new("P8 large fixed arrays", items));
    // structs of 1..40 fields, unions of 1..40 arms
    let mut items = vec![tdef(p("opaque"), "o0", varn(3)), tdef(p("unsigned int"), "tu", Arr::None)];
    for k in 1..=40usize {
        let fs = (0..k)
            .map(|i| match i % 5 {
                0 => f(p("unsigned int"), &format!("a{}", i)),
                1 => f(n("o0"), &format!("b{}", i)),
                2 => f(p("bool"), &format!("c{}", i)),
                3 => fa(p("string"), &format!("d{}", i), varn(2)),
                _ => fo(n("tu"), &format!("e{}", i)),
            })
            .collect();
        items.push(strct(&format!("st{}", k), fs));
        let arms = (0..k)
            .map(|i| Arm {
                labels: vec![Some(format!("{}", i * i))],
                body: match i % 4 {
                    0 => None,
                    1 => Some((p("unsigned int"), "x".into())),
                    2 => Some((n("o0"), "x".into())),
                    _ => Some((p("opaque"), "x".into())),
                },
            })
            .collect();
        items.push(uni(&format!("un{}", k), p("int"), "d", arms));
    }
    out.push(Spec::new("P8 1..40 fields and arms", items));
    // chains of typedefs and nested structs
    let mut items = vec![tdef(p("opaque"), "ca0", var()), strct("na0", vec![f(p("unsigned int"), "x")]), tdef(p("int"), "ia0", Arr::None)];
    for k in 1..=24 {
        items.push(tdef(n(&format!("ca{}", k - 1)), &format!("ca{}", k), Arr::None));
        items.push(tdef(n(&format!("ia{}", k - 1)), &format!("ia{}", k), Arr::None));
        items.push(strct(&format!("na{}", k), vec![f(n(&format!("na{}", k - 1)), "i"), fo(n(&format!("ca{}", k)), "o")]));
        items.push(uni(
            &format!("ua{}", k),
            n(&format!("ia{}", k)),
            "d",
            vec![arm(&["1"], Some((n(&format!("ca{}", k)), "x"))), arm(&["default"], None)],
        ));
    }
    items.push(tdef(n("ca24"), "arr", varn(3)));
    out.push(Spec::new("P8 chains of 24", items));
    // nested arrays to depth 8
    let mut items = vec![tdef(p("opaque"), "na0", varn(2)), tdef(p("unsigned int"), "nb0", Arr::None)];
    for k in 1..=8 {
        items.push(tdef(n(&format!("na{}", k - 1)), &format!("na{}", k), var()));
        items.push(tdef(n(&format!("nb{}", k - 1)), &format!("nb{}", k), if k % 2 == 0 { fix(2) } else { varn(2) }));
        items.push(strct(&format!("nc{}", k), vec![fa(n(&format!("na{}", k - 1)), "x", var()), f(p("bool"), "z")]));
    }
    out.push(Spec::new("P8 nested arrays", items));
    out
}

/// P10: every list of the grammar at every length of a sweep.
pub fn p10(th: bool) -> Vec<Spec> {
    let mut ns: Vec<usize> = (1..=20).chain([31, 32, 33, 63, 64, 65, 100, 127, 128, 129]).collect();
    if th {
        ns = (1..=140).chain([200, 255, 256, 257, 300, 511, 512, 513, 1000, 1025]).collect();
    }
    lists(&ns)
}
fn lists(ns: &[usize]) -> Vec<Spec> {
    let mut out = vec![];
    let lab = |i: usize, hexed: bool| if hexed && i % 2 == 1 { format!("{:#x}", i * 3) } else { format!("{}", i * 3) };
    for &k in ns {
        let range = |hexed: bool| (0..k).map(move |i| Some(lab(i, hexed)));
        let data = |i: usize| Some((if i % 3 == 0 { p("opaque") } else if i % 3 == 1 { p("int") } else { n("o") }, format!("f{}", i)));
        let o = || tdef(p("opaque"), "o_ty", varn(9));
        let last = Some(format!("{}", 3 * k + 1));
        let fix = |mut s: Spec| {
            for it in s.items.iter_mut() {
                if let Item::Union { arms, .. } = it {
                    for a in arms {
                        if let Some((t, _)) = &mut a.body {
                            if *t == n("o") {
                                *t = n("o_ty")
                            }
                        }
                    }
                }
            }
            s
        };
        // one arm each, all with data
        let arms: Vec<Arm> = range(false).enumerate().map(|(i, l)| Arm { labels: vec![l], body: data(i) }).collect();
        // one void arm each
        let voids: Vec<Arm> = range(false).map(|l| Arm { labels: vec![l], body: None }).collect();
        // fall-through groups
        let group = |body: Option<(TyRef, String)>, d: bool| {
            let mut labels: Vec<Option<String>> = range(false).collect();
            if d {
                labels.push(None);
            }
            Arm { labels, body }
        };
        let dflt = |b: Option<(TyRef, String)>| Arm { labels: vec![None], body: b };
        let tail = |b| Arm { labels: vec![last.clone()], body: b };
        let with = |mut v: Vec<Arm>, a: Arm| {
            v.push(a);
            v
        };
        let us: Vec<Vec<Arm>> = vec![
            arms.clone(),
            with(arms.clone(), dflt(None)),
            with(arms.clone(), dflt(data(0))),
            with(voids.clone(), tail(data(1))),
            with(with(voids.clone(), tail(data(0))), dflt(data(2))),
            with(vec![tail(data(1))], dflt(None)).into_iter().chain(voids.clone()).filter(|a| a.labels[0].is_some()).collect(),
            vec![group(data(0), false), tail(None)],
            vec![group(None, false), tail(data(0))],
            vec![tail(data(2)), group(None, true)],
            arms.iter().cloned().zip(voids.clone()).enumerate().map(|(i, (a, b))| if i % 2 == 0 { a } else { b }).collect(),
            // pairs of labels
            range(false)
                .collect::<Vec<_>>()
                .chunks(2)
                .enumerate()
                .map(|(i, c)| Arm { labels: c.to_vec(), body: if i % 2 == 0 { data(i) } else { None } })
                .chain([dflt(data(1))])
                .collect(),
        ];
        let mut items = vec![o()];
        for (i, u) in us.into_iter().enumerate() {
            items.push(uni(&format!("w{}", i), p(if i % 2 == 0 { "int" } else { "unsigned int" }), "d", u));
        }
        out.push(fix(Spec::new(format!("P10 unions of {} labels", k), items)));
        // enums and unions over all members but the last
        let members: Vec<(String, String)> = (0..k).map(|i| (format!("M_{}", i), lab(i, true))).collect();
        let mut items = vec![Item::Enum { name: "en".into(), members: members.clone() }];
        if k > 1 {
            let voids: Vec<Arm> = members[..k - 1].iter().map(|m| Arm { labels: vec![Some(m.0.clone())], body: None }).collect();
            items.push(uni("uv", n("en"), "d", with(voids.clone(), Arm { labels: vec![Some(members[k - 1].0.clone())], body: Some((p("hyper"), "h".into())) })));
            items.push(uni(
                "ug",
                n("en"),
                "d",
                vec![
                    Arm { labels: members[..k - 1].iter().rev().map(|m| Some(m.0.clone())).collect(), body: Some((p("string"), "s".into())) },
                    Arm { labels: vec![Some(members[k - 1].0.clone())], body: None },
                ],
            ));
        }
        out.push(Spec::new(format!("P10 enum of {} members", k), items));
        // fields, of all kinds, opaque only at the end or not at all
        let fs = |op: bool| -> Vec<Field> {
            (0..k)
                .map(|i| match (i + 1 == k && op, i % 4) {
                    (true, _) => f(p("opaque"), "last"),
                    (_, 0) => f(p("bool"), &format!("a{}", i)),
                    (_, 1) => fa(p("string"), &format!("b{}", i), varn(i as u32)),
                    (_, 2) => fo(n("en"), &format!("c{}", i)),
                    _ => fa(n("en"), &format!("d{}", i), var()),
                })
                .collect()
        };
        out.push(Spec::new(
            format!("P10 structs of {} fields", k),
            vec![strct("first", fs(false)), enm("en", &[("EA", "1")]), strct("second", fs(true)), strct("third", vec![f(n("first"), "f"), fo(n("second"), "s")])],
        ));
        // declarations of one kind
        let mut items = vec![];
        for i in 0..k {
            items.push(cnst(&format!("C_{}", i), &lab(i, true)));
            items.push(tdef(if i % 2 == 0 { n(&format!("s_{}", i)) } else { p("opaque") }, &format!("t_{}", i), if i % 3 == 0 { varc(&format!("C_{}", k - 1 - i)) } else { Arr::Var(None) }));
            items.push(strct(&format!("s_{}", i), vec![f(n(&format!("t_{}", if i % 8 == 0 { i } else { i - 1 })), "t"), fo(n(&format!("s_{}", if i % 8 == 7 || i + 1 == k { i - i % 8 } else { i + 1 })), "next")]));
        }
        out.push(Spec::new(format!("P10 {} declarations of each kind", k), items));
    }
    out
}

/// Payloads and counts beyond the sizes a 16 or 24 bit quantity can hold.
pub fn huge() -> Vec<Spec> {
    vec![
        Spec::new(
            "P8 huge payloads",
            vec![
                tdef(p("opaque"), "o_huge", var()),
                tdef(p("string"), "s_huge", var()),
                strct("so", vec![fa(p("opaque"), "a", var()), f(p("unsigned int"), "z")]),
                strct("ss", vec![fa(p("string"), "a", var()), fo(n("o_huge"), "z")]),
                uni("u", p("int"), "d", vec![arm(&["1"], Some((p("opaque"), "a"))), arm(&["default"], None)]),
                tdef(n("so"), "sv_huge", var()),
                cnst("HF", "0x10001"),
                tdef(p("opaque"), "of_huge", fix(65_535)),
                tdef(p("opaque"), "og_huge", fix(65_536)),
                strct("sf", vec![fa(p("opaque"), "a", fixc("HF")), f(p("bool"), "z")]),
                strct("sg", vec![fa(p("opaque"), "a", fix(1_048_575)), f(n("og_huge"), "z")]),
            ],
        ),
        Spec::new(
            "P8 huge counts",
            vec![
                enm("e", &[("A", "0"), ("B", "9")]),
                tdef(p("opaque"), "o_huge", var()),
                tdef(p("unsigned int"), "t_huge", Arr::None),
                tdef(n("t_huge"), "tv_huge", var()),
                tdef(n("e"), "ev_huge", varn(70_000)),
                strct("s", vec![fa(n("o_huge"), "l", var()), f(p("bool"), "z")]),
            ],
        ),
    ]
}

/// Arrays of many elements of every kind.
pub fn many() -> Vec<Spec> {
    vec![Spec::new(
        "P8 many elements",
        vec![
            enm("e", &[("A", "0"), ("B", "9")]),
            tdef(p("unsigned int"), "t_many", Arr::None),
            tdef(p("opaque"), "o_many", var()),
            tdef(p("string"), "s_many", var()),
            strct("st", vec![f(p("unsigned int"), "a"), fo(n("t_many"), "b")]),
            uni("un", p("int"), "d", vec![arm(&["0"], None), arm(&["1"], Some((n("o_many"), "x")))]),
            tdef(n("t_many"), "tv_many", var()),
            tdef(n("e"), "ev_many", var()),
            tdef(n("o_many"), "ov_many", var()),
            tdef(n("s_many"), "sv_many", var()),
            tdef(n("st"), "stv_many", var()),
            tdef(n("un"), "uv_many", var()),
            tdef(n("tv_many"), "tvv_many", var()),
            strct("hold", vec![fa(n("st"), "l", var()), f(p("bool"), "z")]),
        ],
    )]
}

/// Arrays whose declared maximum is of no use as a size.
pub fn huge_maxima() -> Vec<Spec> {
    let mut out = vec![];
    for m in [65_536u32, 1 << 24, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff] {
        let mut items = vec![cnst("KH", &format!("{:#x}", m)), tdef(p("unsigned int"), "tu", Arr::None), tdef(p("opaque"), "o0", var())];
        items.push(strct("wide", (0..8).map(|i| f(n("o0"), &format!("f{}", i))).collect()));
        items.push(strct("big", vec![fa(p("hyper"), "a", fix(64)), f(n("wide"), "b")]));
        for (k, el) in ["tu", "o0", "wide", "big"].iter().enumerate() {
            items.push(tdef(n(el), &format!("t_{}", el), if k % 2 == 0 { varn(m) } else { varc("KH") }));
            items.push(strct(&format!("s_{}", el), vec![f(p("bool"), "a"), fa(n(el), "x", if k % 2 == 0 { varc("KH") } else { varn(m) }), f(p("unsigned int"), "z")]));
            items.push(uni(&format!("u_{}", el), p("int"), "d", vec![arm(&["1"], Some((n(&format!("t_{}", el)), "x"))), arm(&["default"], None)]));
        }
        items.push(strct("pay", vec![fa(p("opaque"), "a", varn(m)), fa(p("string"), "b", varc("KH"))]));
        items.push(tdef(n("pay"), "pays", varn(m)));
        items.push(strct("rec", vec![fa(n("rec"), "kids", varn(m)), fo(n("rec"), "next")]));
        out.push(Spec::new(format!("P8 maxima of {}", m), items));
    }
    out
}

/// Declarations nested in each other deeper than a compiler may care for.
pub fn deep() -> Vec<Spec> {
    let mut out = vec![];
    for k in [50usize, 70] {
        let mut items = vec![tdef(p("opaque"), "link_0", var())];
        for i in 1..k {
            items.push(strct(&format!("link_{}", i), vec![fo(n(&format!("link_{}", i - 1)), "x")]));
        }
        out.push(Spec::new(format!("P8 {} optional links", k), items));
    }
    for k in [100usize, 140] {
        let mut items = vec![tdef(p("int"), "link_0", Arr::None)];
        for i in 1..k {
            items.push(tdef(n(&format!("link_{}", i - 1)), &format!("link_{}", i), Arr::None));
        }
        out.push(Spec::new(format!("P8 {} typedefs", k), items));
    }
    out
}

/// P9: realistic specifications, hand written from the RFCs' shapes.
pub fn p9() -> Vec<Spec> {
    let mut v = vec![];
    v.push(Spec::new(
        "P9 ONC RPC",
        vec![
            enm("auth_flavor", &[("AUTH_NONE", "0"), ("AUTH_SYS", "1"), ("AUTH_SHORT", "2"), ("AUTH_DH", "3"), ("RPCSEC_GSS", "6")]),
            strct("opaque_auth", vec![f(n("auth_flavor"), "flavor"), fa(p("opaque"), "body", varn(400))]),
            enm("msg_type", &[("CALL", "0"), ("REPLY", "1")]),
            enm("reply_stat", &[("MSG_ACCEPTED", "0"), ("MSG_DENIED", "1")]),
            enm("accept_stat", &[("SUCCESS", "0"), ("PROG_UNAVAIL", "1"), ("PROG_MISMATCH", "2"), ("PROC_UNAVAIL", "3"), ("GARBAGE_ARGS", "4"), ("SYSTEM_ERR", "5")]),
            enm("reject_stat", &[("RPC_MISMATCH", "0"), ("AUTH_ERROR", "1")]),
            enm("auth_stat", &[("AUTH_OK", "0"), ("AUTH_BADCRED", "1"), ("AUTH_TOOWEAK", "5")]),
            strct("mismatch_info", vec![f(p("unsigned int"), "low"), f(p("unsigned int"), "high")]),
            uni(
                "reply_data",
                n("accept_stat"),
                "stat",
                vec![
                    arm(&["SUCCESS"], Some((n("results"), "res"))),
                    arm(&["PROG_MISMATCH"], Some((n("mismatch_info"), "info"))),
                    arm(&["default"], None),
                ],
            ),
            tdef(p("opaque"), "results", var()),
            strct("accepted_reply", vec![f(n("opaque_auth"), "verf"), f(n("reply_data"), "data")]),
            uni("rejected_reply", n("reject_stat"), "stat", vec![arm(&["RPC_MISMATCH"], Some((n("mismatch_info"), "i"))), arm(&["AUTH_ERROR"], Some((n("auth_stat"), "a")))]),
            uni("reply_body", n("reply_stat"), "stat", vec![arm(&["MSG_ACCEPTED"], Some((n("accepted_reply"), "a"))), arm(&["MSG_DENIED"], Some((n("rejected_reply"), "r")))]),
            strct(
                "call_body",
                vec![
                    f(p("unsigned int"), "rpcvers"),
                    f(p("unsigned int"), "prog"),
                    f(p("unsigned int"), "vers"),
                    f(p("unsigned int"), "proc"),
                    f(n("opaque_auth"), "cred"),
                    f(n("opaque_auth"), "verf"),
                ],
            ),
            uni("body", n("msg_type"), "mtype", vec![arm(&["CALL"], Some((n("call_body"), "cbody"))), arm(&["REPLY"], Some((n("reply_body"), "rbody")))]),
            strct("rpc_msg", vec![f(p("unsigned int"), "xid"), f(n("body"), "body")]),
        ],
    ));
    v.push(Spec::new(
        "P9 NFSv4 subset",
        vec![
            cnst("NFS4_FHSIZE", "128"),
            cnst("NFS4_VERIFIER_SIZE", "8"),
            cnst("NFS4_OTHER_SIZE", "0xc"),
            tdef(p("uint32_t"), "bitmap_inner", Arr::None),
            tdef(n("bitmap_inner"), "bitmap4", var()),
            tdef(p("opaque"), "attrlist4", var()),
            tdef(p("opaque"), "nfs_fh4", varc("NFS4_FHSIZE")),
            tdef(p("opaque"), "verifier4", fixc("NFS4_VERIFIER_SIZE")),
            tdef(p("opaque"), "utf8string", var()),
            tdef(n("utf8string"), "utf8str_cs", Arr::None),
            tdef(n("utf8str_cs"), "component4", Arr::None),
            tdef(n("component4"), "pathname4", var()),
            tdef(p("uint64_t"), "offset4", Arr::None),
            tdef(p("uint32_t"), "count4", Arr::None),
            tdef(p("uint64_t"), "clientid4", Arr::None),
            strct("fattr4", vec![f(n("bitmap4"), "attrmask"), f(n("attrlist4"), "attr_vals")]),
            strct("stateid4", vec![f(p("uint32_t"), "seqid"), fa(p("opaque"), "other", fixc("NFS4_OTHER_SIZE"))]),
            strct("fs_location4", vec![fa(n("utf8str_cs"), "server", var()), f(n("pathname4"), "rootpath")]),
            strct("fs_locations4", vec![f(n("pathname4"), "fs_root"), fa(n("fs_location4"), "locations", var())]),
            enm("nfsstat4", &[("NFS4_OK", "0"), ("NFS4ERR_PERM", "1"), ("NFS4ERR_DENIED", "10010"), ("NFS4ERR_DELAY", "10008")]),
            enm("nfs_opnum4", &[("OP_ACCESS", "3"), ("OP_CLOSE", "4"), ("OP_READ", "25"), ("OP_READDIR", "26"), ("OP_LOOKUP", "15"), ("OP_ILLEGAL", "10044")]),
            strct("READ4args", vec![f(n("stateid4"), "stateid"), f(n("offset4"), "offset"), f(n("count4"), "count")]),
            strct("READ4resok", vec![f(p("bool"), "eof"), fa(p("opaque"), "data", var())]),
            uni("READ4res", n("nfsstat4"), "status", vec![arm(&["NFS4_OK"], Some((n("READ4resok"), "resok4"))), arm(&["default"], None)]),
            strct("LOOKUP4args", vec![f(n("component4"), "objname")]),
            strct("entry4", vec![f(p("uint64_t"), "cookie"), f(n("component4"), "name"), f(n("fattr4"), "attrs"), fo(n("entry4"), "nextentry")]),
            strct("dirlist4", vec![fo(n("entry4"), "entries"), f(p("bool"), "eof")]),
            strct("READDIR4resok", vec![f(n("verifier4"), "cookieverf"), f(n("dirlist4"), "reply")]),
            uni("READDIR4res", n("nfsstat4"), "status", vec![arm(&["NFS4_OK"], Some((n("READDIR4resok"), "resok4"))), arm(&["default"], None)]),
            uni(
                "nfs_argop4",
                n("nfs_opnum4"),
                "argop",
                vec![
                    arm(&["OP_READ"], Some((n("READ4args"), "opread"))),
                    arm(&["OP_LOOKUP"], Some((n("LOOKUP4args"), "oplookup"))),
                    arm(&["OP_CLOSE"], Some((n("stateid4"), "s"))),
                    arm(&["OP_ILLEGAL", "OP_ACCESS"], None),
                ],
            ),
            strct("COMPOUND4args", vec![f(n("utf8str_cs"), "tag"), f(p("uint32_t"), "minorversion"), fa(n("nfs_argop4"), "argarray", var())]),
            uni(
                "nfs_resop4",
                n("nfs_opnum4"),
                "resop",
                vec![arm(&["OP_READ"], Some((n("READ4res"), "opread"))), arm(&["OP_READDIR"], Some((n("READDIR4res"), "opreaddir"))), arm(&["OP_LOOKUP", "OP_CLOSE"], Some((n("nfsstat4"), "st")))],
            ),
            strct("COMPOUND4res", vec![f(n("nfsstat4"), "status"), f(n("utf8str_cs"), "tag"), fa(n("nfs_resop4"), "resarray", var())]),
            enm("time_how4", &[("SET_TO_SERVER_TIME4", "0"), ("SET_TO_CLIENT_TIME4", "1")]),
            strct("nfstime4", vec![f(p("int64_t"), "seconds"), f(p("uint32_t"), "nseconds")]),
            uni("settime4", n("time_how4"), "set_it", vec![arm(&["SET_TO_CLIENT_TIME4"], Some((n("nfstime4"), "time"))), arm(&["default"], None)]),
            strct("open_owner4", vec![f(n("clientid4"), "clientid"), fa(p("opaque"), "owner", varc("NFS4_FHSIZE"))]),
            uni("locker4", p("bool"), "new_lock_owner", vec![arm(&["TRUE"], Some((n("open_owner4"), "open_owner"))), arm(&["FALSE"], Some((n("stateid4"), "lock_owner")))]),
        ],
    ));
    v.push(Spec::new(
        "P9 mount and portmapper",
        vec![
            cnst("MNTPATHLEN", "1024"),
            cnst("MNTNAMLEN", "255"),
            cnst("FHSIZE3", "64"),
            tdef(p("opaque"), "fhandle3", varc("FHSIZE3")),
            tdef(p("string"), "dirpath", varc("MNTPATHLEN")),
            tdef(p("string"), "name", varc("MNTNAMLEN")),
            enm("mountstat3", &[("MNT3_OK", "0"), ("MNT3ERR_PERM", "1"), ("MNT3ERR_SERVERFAULT", "10006")]),
            tdef(p("int"), "flavor_t", Arr::None),
            strct("mountres3_ok", vec![f(n("fhandle3"), "fhandle"), fa(n("flavor_t"), "auth_flavors", var())]),
            uni("mountres3", n("mountstat3"), "fhs_status", vec![arm(&["MNT3_OK"], Some((n("mountres3_ok"), "mountinfo"))), arm(&["default"], None)]),
            strct("mountbody", vec![f(n("name"), "ml_hostname"), f(n("dirpath"), "ml_directory"), fo(n("mountbody"), "ml_next")]),
            strct("groupnode", vec![f(n("name"), "gr_name"), fo(n("groupnode"), "gr_next")]),
            strct("exportnode", vec![f(n("dirpath"), "ex_dir"), fo(n("groupnode"), "ex_groups"), fo(n("exportnode"), "ex_next")]),
            strct("mapping", vec![f(p("unsigned int"), "prog"), f(p("unsigned int"), "vers"), f(p("unsigned int"), "prot"), f(p("unsigned int"), "port")]),
            strct("pmaplist", vec![f(n("mapping"), "map"), fo(n("pmaplist"), "next")]),
        ],
    ));
    v.push(Spec::new(
        "P9 RFC 4506 section 7",
        vec![
            cnst("MAXUSERNAME", "32"),
            cnst("MAXFILELEN", "65535"),
            cnst("MAXNAMELEN", "255"),
            enm("filekind", &[("TEXT", "0"), ("DATA", "1"), ("EXEC", "2")]),
            uni(
                "filetype",
                n("filekind"),
                "kind",
                vec![arm(&["TEXT"], None), arm(&["DATA"], Some((n("creator_t"), "creator"))), arm(&["EXEC"], Some((n("interp_t"), "interpretor")))],
            ),
            tdef(p("string"), "creator_t", varc("MAXNAMELEN")),
            tdef(p("string"), "interp_t", varc("MAXNAMELEN")),
            strct(
                "file",
                vec![
                    fa(p("string"), "filename", varc("MAXNAMELEN")),
                    f(n("filetype"), "type"),
                    fa(p("string"), "owner", varc("MAXUSERNAME")),
                    fa(p("opaque"), "data", varc("MAXFILELEN")),
                ],
            ),
            strct("stringentry", vec![fa(p("string"), "item", varn(20)), fo(n("stringentry"), "next")]),
        ],
    ));
    v
}

/// C05's own: every declarator x bound x spelling x position.
pub fn bounds(thorough: bool) -> Vec<Spec> {
    let mut out = vec![];
    let mut ms: Vec<u32> = vec![0, 1, 2, 3, 4, 5, 7, 8, 16, 255, 256];
    if thorough {
        ms.extend([6, 9, 10, 11, 12, 13, 15, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 257, 1000, 1023, 1024, 1025]);
    }
    let big: Vec<u32> = vec![4096, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff];
    for m in ms.iter().chain(big.iter()) {
        for sp in 0..3 {
            let mut items = vec![cnst("KD", &m.to_string()), cnst("KH", &format!("{:#x}", m)), cnst("OTHER", "99")];
            let a = || match sp {
                0 => varn(*m),
                1 => varc("KD"),
                _ => varc("KH"),
            };
            items.push(tdef(p("unsigned int"), "tu", Arr::None));
            items.push(strct("el", vec![fa(p("opaque"), "x", varn(2))]));
            // inline
            items.push(strct("i1", vec![fa(p("opaque"), "x", a())]));
            items.push(strct("i2", vec![fa(p("string"), "x", a())]));
            items.push(strct("i3", vec![fa(n("tu"), "x", a())]));
            items.push(strct("i4", vec![fa(p("opaque"), "o", var()), fa(p("opaque"), "x", a()), f(p("unsigned int"), "z")]));
            items.push(strct("i5", vec![f(p("bool"), "o"), fa(p("string"), "x", a()), f(p("unsigned int"), "z")]));
            items.push(strct("i6", vec![f(p("bool"), "o"), fa(n("el"), "x", a()), f(p("unsigned int"), "z")]));
            // typedefs
            items.push(tdef(p("opaque"), "t1", a()));
            items.push(tdef(p("string"), "t2", a()));
            items.push(tdef(n("tu"), "t3", a()));
            items.push(tdef(n("el"), "t4", a()));
            for t in ["t1", "t2", "t3", "t4"] {
                items.push(strct(&format!("s_{}", t), vec![f(n(t), "x"), f(p("unsigned int"), "z")]));
                items.push(tdef(n(t), &format!("c_{}", t), Arr::None));
                items.push(tdef(n(&format!("c_{}", t)), &format!("cc_{}", t), Arr::None));
                items.push(strct(&format!("o_{}", t), vec![fo(n(t), "x"), f(p("unsigned int"), "z")]));
                items.push(uni(
                    &format!("u_{}", t),
                    p("int"),
                    "d",
                    vec![arm(&["1"], Some((n(t), "x"))), arm(&["2"], None), arm(&["default"], Some((n(&format!("c_{}", t)), "y")))],
                ));
                items.push(strct(&format!("v_{}", t), vec![fa(n(t), "x", var()), fa(n(&format!("cc_{}", t)), "y", fix(2))]));
                items.push(tdef(n(t), &format!("w_{}", t), varn(3)));
            }
            if sp == 2 {
                items.reverse();
            }
            out.push(Spec::new(format!("B bound {} written as {}", m, ["a literal", "a decimal constant", "a hex constant"][sp]), items));
        }
    }
    out
}

/// Names of every kind and length where a constant or a type can be named.
pub fn names_in_every_place() -> Vec<Spec> {
    let mut words: Vec<String> = [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300]
        .iter()
        .map(|l| (0..*l).map(|i| (b'A' + (i * 7 + l) as u8 % 26) as char).collect())
        .collect();
    words.extend(
        [
            "K_", "_K", "__K__", "K9", "K_9", "k", "kk_lower", "mixedCase", "A_B_C_D_E_F_G", "int_max", "MAXunsigned", "opaque_max", "string_size", "voidcase", "default_size", "x0x10", "_0x10", "e10", "TRUE_size", "sizeof", "NULL", "n_v",
        ]
        .iter()
        .map(|w| w.to_string()),
    );
    words.sort();
    words.dedup();
    let mut out = vec![];
    for (g, ws) in words.chunks(12).enumerate() {
        let mut items = vec![tdef(p("unsigned int"), "the_word", Arr::None)];
        for (i, w) in ws.iter().enumerate() {
            let k = |x: &str| format!("{}{}", w, x);
            let kc = || varc(w);
            items.push(cnst(w, &if i % 2 == 0 { format!("{}", 2 + i % 5) } else { format!("{:#x}", 2 + i % 5) }));
            items.push(tdef(p("opaque"), &k("_to"), kc()));
            items.push(tdef(p("string"), &k("_ts"), kc()));
            items.push(tdef(n("the_word"), &k("_tw"), kc()));
            items.push(tdef(p("opaque"), &k("_tof"), fixc(w)));
            items.push(tdef(p("hyper"), &k("_thf"), fixc(w)));
            items.push(strct(&k("_si"), vec![fa(p("opaque"), &k("_o"), kc()), fa(p("string"), &k("_s"), kc()), fa(n("the_word"), &k("_w"), kc()), fa(p("opaque"), &k("_f"), fixc(w)), fa(p("int"), &k("_g"), fixc(w))]));
            items.push(enm(&k("_e"), &[(&k("_m0"), w), (&k("_m1"), "77")]));
            items.push(uni(&k("_u"), p("int"), &k("_d"), vec![arm(&[w], Some((n(&k("_to")), &k("_a")))), arm(&["1000"], None)]));
            items.push(uni(&k("_v"), n(&k("_e")), "d", vec![arm(&[&k("_m0")], Some((n(&k("_tw")), "a"))), arm(&[&k("_m1")], Some((n(&k("_ts")), "b")))]));
            items.push(strct(&k("_st"), vec![f(n(&k("_to")), "a"), fo(n(&k("_si")), "b"), fa(n(&k("_u")), "c", kc()), fa(n(&k("_v")), "d", fixc(w)), f(n(&k("_e")), "e")]));
        }
        if g % 2 == 1 {
            items.reverse();
        }
        out.push(Spec::new(format!("P7 names in every place, group {}", g), items));
    }
    out
}

/// The same declarations in other orders.
pub fn orders(specs: &[Spec]) -> Vec<Spec> {
    let mut out = vec![];
    for s in specs.iter().filter(|s| s.items.len() > 1) {
        let mut q = s.items.clone();
        q.reverse();
        out.push(Spec::new(format!("{} (reversed)", s.label), q));
        if s.items.len() > 3 {
            let mut q = s.items.clone();
            q.rotate_left(s.items.len() / 2);
            out.push(Spec::new(format!("{} (rotated)", s.label), q));
        }
    }
    out
}

/// Many specifications as one, the declarations of each far from each other.
pub fn merged(label: &str, specs: &[Spec]) -> Spec {
    let mut lists: Vec<Vec<Item>> = vec![];
    for (k, s) in specs.iter().enumerate() {
        if s.items.iter().any(is_self_typedef) {
            continue;
        }
        let mut names: Vec<String> = vec![];
        for i in &s.items {
            names.push(i.name().to_string());
            if let Item::Enum { members, .. } = i {
                names.extend(members.iter().map(|m| m.0.clone()))
            }
        }
        let fix = |n: &mut String| {
            if names.contains(n) {
                n.push_str(&format!("_w{}", k))
            }
        };
        let fixt = |t: &mut TyRef| {
            if let TyRef::Named(n) = t {
                fix(n)
            }
        };
        let fixa = |a: &mut Arr| match a {
            Arr::Fixed(Size::Const(c)) | Arr::Var(Some(Size::Const(c))) => fix(c),
            _ => {}
        };
        let mut items = s.items.clone();
        for it in items.iter_mut() {
            match it {
                Item::Const { name, val } => {
                    fix(name);
                    fix(val)
                }
                Item::Enum { name, members } => {
                    fix(name);
                    members.iter_mut().for_each(|m| {
                        fix(&mut m.0);
                        fix(&mut m.1)
                    })
                }
                Item::Struct { name, fields } => {
                    fix(name);
                    fields.iter_mut().for_each(|f| {
                        fixt(&mut f.ty);
                        fixa(&mut f.arr)
                    })
                }
                Item::Union { name, disc_ty, arms, .. } => {
                    fix(name);
                    fixt(disc_ty);
                    for a in arms {
                        a.labels.iter_mut().flatten().for_each(|l| fix(l));
                        if let Some((t, _)) = &mut a.body {
                            fixt(t)
                        }
                    }
                }
                Item::Typedef { ty, name, arr } => {
                    fixt(ty);
                    fix(name);
                    fixa(arr)
                }
            }
        }
        lists.push(items);
    }
    let mut items = vec![];
    for r in 0..lists.iter().map(|l| l.len()).max().unwrap_or(0) {
        for l in &lists {
            items.extend(l.get(r).cloned())
        }
    }
    Spec::new(format!("M {} ({} declarations)", label, items.len()), items)
}

/// Whole specifications in other orders, and together in one text.
pub fn together(th: bool) -> Vec<Spec> {
    let mut v = orders(&p6());
    v.extend(orders(&p7()));
    v.extend(orders(&p9()));
    let mut m = vec![merged("everything realistic", &p9()), merged("every recursive shape", &p6()), merged("every primitive and declarator", &p1()), merged("enums", &p5())];
    let u: Vec<Spec> = p4(th).into_iter().step_by(if th { 2 } else { 7 }).take(150).collect();
    m.push(merged("unions", &u));
    let mut all = p9();
    all.extend(p6());
    all.extend(p1());
    all.extend(p7());
    m.push(merged("everything", &all));
    v.extend(m);
    v
}

/// The specifications explored for a property (or property-independent set name).
pub fn set(name: &str, tier: &str) -> Vec<Spec> {
    let th = tier == "thorough";
    let core: Vec<usize> = vec![0, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12];
    let all: Vec<usize> = (0..NCONT).collect();
    let mut v = vec![];
    match name {
        "C01" | "C02" | "C07" => {
            if name != "C07" {
                v.extend(huge());
                v.extend(many());
            }
            v.extend(lists(if th { &[2, 3, 5, 8, 9, 17, 33, 65, 129, 257] } else { &[3, 9, 17, 65] }));
            v.extend(p1());
            v.extend(p6());
            v.extend(p9());
            v.extend(p7());
            v.extend(p5());
            v.extend(p8(th));
            v.extend(p4(th));
            v.extend(p3(1));
            v.extend(p2(2, &leaves(), &all));
            v.extend(together(th));
            if th {
                v.extend(p2(3, &leaves(), &core));
            }
            if name == "C07" {
                v.extend(deep());
            }
        }
        "C03" | "C08" | "C04" | "C09" => {
            if name != "C09" {
                v.extend(huge().into_iter().filter(|s| name != "C04" || s.label.ends_with("counts")));
            }
            if name == "C09" || name == "C04" {
                v.extend(huge_maxima());
            }
            if name != "C03" {
                v.extend(many());
            }
            v.extend(p1());
            v.extend(p6());
            v.extend(p9());
            if name != "C09" && name != "C08" {
                v.extend(p7());
                v.extend(p5());
            }
            v.extend(p8(th));
            v.extend(p4(th).into_iter().enumerate().filter(|(i, _)| th || i % 3 == 0).map(|x| x.1));
            v.extend(p3(if th { 1 } else { 3 }));
            if name != "C09" {
                v.extend(together(th));
            }
            v.extend(p2(2, &leaves(), if th { &all } else { &core }));
            if th && name == "C08" {
                v.extend(p2(3, &leaves(), &core));
            }
        }
        "C05" => {
            v.extend(huge_maxima());
            v.extend(bounds(th));
            v.extend(names_in_every_place());
            v.extend(p1());
            v.extend(p6());
            v.extend(p9());
            v.extend(p8(th));
            v.extend(together(th));
            if th {
                v.extend(p3(1));
            }
            v.extend(p2(2, &leaves(), if th { &all } else { &core }));
        }
        "C06" => {
            v.extend(lists(if th { &[2, 3, 5, 8, 9, 17, 33, 65, 129, 257] } else { &[3, 9, 17, 65] }));
            v.extend(p1());
            v.extend(p6());
            v.extend(p9());
            v.extend(p7());
            v.extend(p5());
            v.extend(p4(true));
            v.extend(together(th));
            v.extend(p2(2, &leaves(), if th { &all } else { &core }));
        }
        "C07d" => {
            v.extend(p1());
            v.extend(p6());
            v.extend(p9());
            v.extend(p4(th).into_iter().step_by(5));
            v.extend(p2(2, &leaves(), &core).into_iter().step_by(7));
        }
        _ => panic!("no set {}", name),
    }
    for s in v.iter_mut() {
        tame(s);
    }
    v
}

/// Tuple structs live in Rust's value namespace, where a local variable of the
/// emitted code or the runtime cannot have the same name; short typedef names
/// get a suffix so that the explored specifications stay clear of that.
pub fn tame(s: &mut Spec) {
    let short: Vec<String> = s
        .items
        .iter()
        .filter(|i| matches!(i, Item::Typedef { .. }) && i.name().len() <= 4 && !is_self_typedef(i))
        .map(|i| i.name().to_string())
        .collect();
    let fix = |n: &mut String| {
        if short.contains(n) {
            n.push_str("_ty")
        }
    };
    let fixt = |t: &mut TyRef| {
        if let TyRef::Named(n) = t {
            fix(n)
        }
    };
    for it in s.items.iter_mut() {
        match it {
            Item::Const { .. } | Item::Enum { .. } => {}
            Item::Struct { fields, .. } => fields.iter_mut().for_each(|f| fixt(&mut f.ty)),
            Item::Union { disc_ty, arms, .. } => {
                fixt(disc_ty);
                for a in arms {
                    if let Some((t, _)) = &mut a.body {
                        fixt(t)
                    }
                }
            }
            Item::Typedef { ty, name, .. } => {
                fixt(ty);
                fix(name);
            }
        }
    }
}

/// Does the property have anything to say about this type beyond C01?
pub fn wanted(prop: &str, spec: &Spec, sem: &Sem, def: usize) -> bool {
    let _ = spec;
    match prop {
        "C08" => sem.defs[def].generic,
        "C09" => {
            // something counted must be reachable
            let mut seen = vec![false; sem.defs.len()];
            let mut st = vec![def];
            while let Some(i) = st.pop() {
                if seen[i] {
                    continue;
                }
                seen[i] = true;
                for t in Sem::parts(&sem.defs[i].def) {
                    fn dynamic(t: &T) -> bool {
                        match t {
                            T::Str(_) | T::OpVar(_) | T::Var(..) | T::Opt(_) => true,
                            T::Fix(t, _) => dynamic(t),
                            _ => false,
                        }
                    }
                    if dynamic(t) {
                        return true;
                    }
                    Sem::refs(t, &mut st);
                }
            }
            false
        }
        "C06" => match &sem.defs[def].def {
            Def::Struct(f) => f.iter().any(|x| !matches!(x.1, T::U32 | T::I32 | T::U64 | T::I64 | T::F32 | T::F64)),
            _ => true,
        },
        _ => true,
    }
}

pub fn budget_override(prop: &str, spec: &Spec, tier: &str) -> Option<Box<dyn Fn(&mut Budget)>> {
    let th = tier == "thorough";
    let l = spec.label.as_str();
    if l.starts_with("P8 huge") {
        let counts = l.ends_with("counts");
        let few = prop == "C03" && !th;
        return Some(Box::new(move |b| {
            if counts {
                b.cfg.lens = vec![3, 4, 9];
                b.cfg.counts = vec![2, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 70_000];
                b.cfg.max_count = 70_000;
            } else {
                b.cfg.lens = vec![3, 100_001, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 24) - 1, 1 << 24, (1 << 24) + 1];
                b.cfg.counts = vec![1, 2];
                if few {
                    b.cfg.lens = vec![3, 100_001, (1 << 20) + 1, (1 << 24) + 1];
                }
            }
            b.max_dev = 1;
            b.cap = b.cap.min(40);
            b.hard = b.hard.min(40);
            b.mut_cap = 1;
            b.seq_len = b.seq_len.min(2);
        }));
    }
    if l.starts_with("P8 many") {
        return Some(Box::new(move |b| {
            b.cfg.lens = vec![0, 5];
            b.cfg.counts = vec![1, 64, 512, 4096, 16384, if th { 131_072 } else { 40_000 }];
            b.cfg.max_count = 131_072;
            b.max_dev = 1;
            b.cap = b.cap.min(40);
            b.hard = b.hard.min(40);
            b.mut_cap = 40;
            b.seq_len = b.seq_len.min(2);
        }));
    }
    if l == "P8 length sweep" {
        return Some(Box::new(move |b| {
            b.cfg.lens = std::iter::once(3)
                .chain(0..=260)
                .chain([511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097])
                .chain(if th { vec![16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 70001] } else { vec![65535, 65536, 65537] })
                .collect();
            b.cfg.lens.dedup();
            b.max_dev = if th { 2 } else { 1 };
            b.mut_cap = b.mut_cap.min(3);
        }));
    }
    if l.starts_with("P8 count sweep") {
        return Some(Box::new(move |b| {
            b.cfg.counts = std::iter::once(2).chain(0..=(if th { 70 } else { 40 })).chain([127, 128, 129, 255, 256, 257, 1000]).collect();
            b.max_dev = 1;
            b.mut_cap = b.mut_cap.min(3);
        }));
    }
    if l.starts_with("P8 large") || l.starts_with("P8 fixed") || l.starts_with("P8 nested") {
        return Some(Box::new(move |b| {
            b.cfg.ints = 2;
            b.max_dev = 1;
            b.cap = b.cap.min(60);
            b.hard = b.hard.min(60);
            b.mut_cap = b.mut_cap.min(2);
            b.seq_len = b.seq_len.min(2);
        }));
    }
    if l.starts_with("P2") && !th {
        return Some(Box::new(move |b| {
            b.seq_len = b.seq_len.min(3);
            b.mut_cap = b.mut_cap.min(6);
        }));
    }
    if l.starts_with("P2") && l.contains("depth 3") {
        return Some(Box::new(move |b| {
            b.cap = b.cap.min(400);
            b.hard = b.hard.min(4000);
            b.seq_len = b.seq_len.min(3);
            b.mut_cap = b.mut_cap.min(10);
        }));
    }
    None
}
