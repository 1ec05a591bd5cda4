//! C13: generic exactly when opaque data is reachable.
use crate::watch::{guarded, par};
use fastxdr::ast::Ast;
use fastxdr::Generator;
use mcrt::items::{items, Item as RItem};
use mcrt::report::*;
use mcrt::spec::*;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicU64, Ordering};

/// Names that can carry the parameter, and which of them reach opaque data.
fn reach(its: &[Item]) -> (BTreeSet<String>, BTreeSet<String>) {
    let mut all = BTreeSet::new();
    let mut uses: Vec<(String, Vec<TyRef>)> = vec![];
    for it in its {
        let u = match it {
            Item::Struct { fields, .. } => fields.iter().map(|f| f.ty.clone()).collect(),
            Item::Union { arms, .. } => arms.iter().filter_map(|a| a.body.as_ref()).map(|b| b.0.clone()).collect(),
            Item::Typedef { ty, .. } => vec![ty.clone()],
            _ => continue,
        };
        all.insert(it.name().to_string());
        uses.push((it.name().to_string(), u));
    }
    let mut g: BTreeSet<String> = BTreeSet::new();
    loop {
        let before = g.len();
        for (n, u) in &uses {
            let hit = u.iter().any(|t| match t {
                TyRef::Prim(s) => *s == "opaque",
                TyRef::Named(x) => g.contains(x),
            });
            if hit {
                g.insert(n.clone());
            }
        }
        if g.len() == before {
            return (all, g);
        }
    }
}

fn index(text: &str, its: &[Item], all: &BTreeSet<String>, want: &BTreeSet<String>) -> Option<String> {
    let r = guarded(text, |t| {
        let ast = match Ast::new(t) {
            Ok(a) => a,
            Err(e) => return Some(format!("Ast::new gives Err: {}", e.to_string().lines().last().unwrap_or(""))),
        };
        let got: BTreeSet<String> = ast.generics().0.iter().map(|s| s.to_string()).collect();
        if got != *want {
            let miss: Vec<_> = want.difference(&got).collect();
            let more: Vec<_> = got.difference(want).collect();
            return Some(format!("generics() lacks {:?} and has {:?} too many", miss, more));
        }
        for it in its {
            let n = it.name();
            if ast.generics().contains(n) != want.contains(n) {
                return Some(format!("generics().contains({:?}) is {}", n, ast.generics().contains(n)));
            }
        }
        for n in ["", "T", "opaque", "missing", "string", "u32", "int"] {
            if !all.contains(n) && ast.generics().contains(n) {
                return Some(format!("generics().contains({:?})", n));
            }
        }
        None
    });
    r.unwrap_or_else(|p| Some(format!("panic: {}", p)))
}

/// The part of every output that does not depend on the specification.
pub fn prelude() -> String {
    let h = guarded("", |t| Generator::default().generate(t).unwrap_or_default()).unwrap_or_default();
    h.trim_end().trim_end_matches('}').trim_end().to_string()
}

fn emitted(text: &str, prelude: &str, all: &BTreeSet<String>, want: &BTreeSet<String>, others: &BTreeSet<String>, selfs: &BTreeSet<String>, must: bool) -> (bool, Option<String>) {
    let out = match guarded(text, |t| Generator::default().generate(t).map_err(|e| e.to_string())) {
        Ok(Ok(o)) => o,
        Ok(Err(e)) => return (false, if must { Some(format!("generate gives Err: {}", e)) } else { None }),
        Err(p) => return (false, Some(format!("generate panics: {}", p))),
    };
    let tail = match out.strip_prefix(prelude) {
        Some(t) => format!("mod xdr {{ {}", t),
        None => out,
    };
    let its: Vec<RItem> = match items(&tail) {
        Ok(i) => i,
        Err(e) => return (true, Some(e)),
    };
    let (mut types, mut decoders, mut sizes) = (Vec::<String>::new(), Vec::<String>::new(), Vec::<String>::new());
    for i in &its {
        let (k, n) = i.kind();
        let (n, args, what) = if k == "struct" || k == "enum" {
            let g = i.generics();
            (n, g, 0)
        } else if let Some((tr, ty)) = i.impl_of() {
            let what = if tr.contains("TryFrom<") {
                1
            } else if tr.contains("WireSize") {
                2
            } else {
                continue;
            };
            let (n, a) = match ty.find('<') {
                Some(at) => (ty[..at].to_string(), vec![ty[at..].to_string()]),
                None => (ty.clone(), vec![]),
            };
            (n, a, what)
        } else {
            continue;
        };
        if !all.contains(&n) {
            // an enum of the specification never carries it
            if others.contains(&n) && !args.is_empty() {
                return (true, Some(format!("{} carries a parameter: {}", n, args.concat())));
            }
            continue;
        }
        let kind = ["type", "decoder", "size impl"][what];
        if !args.is_empty() != want.contains(&n) {
            return (
                true,
                Some(format!(
                    "the {} of {} is written {}{}, but opaque data {} reachable from it",
                    kind,
                    n,
                    n,
                    args.concat(),
                    if want.contains(&n) { "is" } else { "is not" }
                )),
            );
        }
        // one parameter, not several
        if args.concat().contains(',') {
            return (true, Some(format!("the {} of {} has more than one parameter: {}", kind, n, args.concat())));
        }
        // inside a type, the names it mentions carry it alike
        if what == 0 {
            let t = &i.toks;
            for k in 1..t.len() {
                // a type position is never followed by ':' (that is a field name)
                let name = &t[k];
                if (!all.contains(name) && !others.contains(name)) || *name == n {
                    continue;
                }
                let next = t.get(k + 1).map(|s| s.as_str()).unwrap_or("");
                if next == ":" || next == "(" || next == "{" {
                    continue;
                }
                if (next == "<") != want.contains(name) {
                    return (true, Some(format!("the type {} mentions {} as {}{}", n, name, name, if next == "<" { "<..>" } else { "" })));
                }
            }
        }
        match what {
            0 => types.push(n),
            1 => decoders.push(n),
            _ => sizes.push(n),
        }
    }
    for n in all {
        let c = |v: &Vec<String>| v.iter().filter(|x| *x == n).count();
        // `typedef a a` declares nothing
        if !selfs.contains(n) && (c(&types), c(&decoders), c(&sizes)) != (1, 2, 1) {
            return (true, Some(format!("{} has {} types, {} decoders and {} size impls", n, c(&types), c(&decoders), c(&sizes))));
        }
    }
    (true, None)
}

// ---- the graphs --------------------------------------------------------------

const SE: usize = 6; // ways a struct refers to a type
const UE: usize = 4; // ways a union does

fn struct_edge(kind: usize, t: TyRef, nm: &str) -> Field {
    match kind {
        0 => f(t, nm),
        1 => fa(t, nm, var()),
        2 => fa(t, nm, fix(2)),
        3 => fo(t, nm),
        4 => fa(t, nm, varn(5)),
        _ => fa(t, nm, varc("BOUND")),
    }
}
fn struct_opaque(kind: usize) -> Option<Field> {
    match kind {
        0 => None,
        1 => Some(fa(p("opaque"), "o", var())),
        2 => Some(fa(p("opaque"), "o", fix(3))),
        3 => Some(fa(p("opaque"), "o", varn(9))),
        4 => Some(f(p("opaque"), "o")),
        _ => Some(fa(p("opaque"), "o", varc("BOUND"))),
    }
}

/// How one declaration uses the others: kind 0 struct, 1 union, 2 typedef.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Node {
    kind: u8,
    /// (target, way)
    edges: Vec<(usize, usize)>,
    /// 0 none, else the way
    opaque: usize,
}

/// `first`: opaque before the other members instead of behind them.
fn node_item(nd: &Node, names: &[String], i: usize, first: bool) -> Item {
    let nm = &names[i];
    let to = |t: usize| -> TyRef {
        if t >= names.len() {
            n("plain_e")
        } else {
            n(&names[t])
        }
    };
    match nd.kind {
        0 => {
            let mut fs: Vec<Field> = nd.edges.iter().enumerate().map(|(k, (t, w))| struct_edge(*w, to(*t), &format!("f{}", k))).collect();
            if let Some(o) = struct_opaque(nd.opaque) {
                if first {
                    fs.insert(0, o)
                } else {
                    fs.push(o)
                }
            }
            if fs.is_empty() || nd.edges.len() == 1 {
                fs.insert(if first { 0 } else { fs.len() }, fa(p("string"), "z", var()));
            }
            strct(nm, fs)
        }
        1 => {
            // ways: 0 labelled arm, 1 end of a fall-through group, 2 default, 3 default at the end of a group
            let mut arms: Vec<Arm> = vec![];
            let mut lab = 0;
            let mut all: Vec<(TyRef, usize)> = nd.edges.iter().map(|(t, w)| (to(*t), *w)).collect();
            if nd.opaque > 0 {
                let o = (p("opaque"), nd.opaque - 1);
                if first {
                    all.insert(0, o)
                } else {
                    all.push(o)
                }
            }
            let mut l = |k: usize| -> Vec<Option<String>> {
                (0..k)
                    .map(|_| {
                        lab += 1;
                        Some(lab.to_string())
                    })
                    .collect()
            };
            let mut def = false;
            for (k, (t, w)) in all.into_iter().enumerate() {
                let labels = match w {
                    0 => l(1),
                    1 => l(2),
                    2 => vec![None],
                    _ => {
                        let mut x = l(1);
                        x.push(None);
                        x
                    }
                };
                def |= w >= 2;
                arms.push(Arm { labels, body: Some((t, format!("a{}", k))) });
            }
            arms.push(Arm { labels: l(1), body: None });
            if !def && first {
                arms.push(Arm { labels: vec![None], body: None });
            }
            uni(nm, p("int"), "d", arms)
        }
        _ => {
            let (t, w) = match (nd.edges.first(), nd.opaque) {
                (Some((t, w)), _) => (to(*t), *w),
                (None, 0) => (p("unsigned int"), 0),
                (None, w) => (p("opaque"), w),
            };
            let a = match w {
                0 => Arr::None,
                1 => var(),
                2 => fix(2),
                3 => varn(7),
                4 => varc("BOUND"),
                _ => fixc("BOUND"),
            };
            tdef(t, nm, a)
        }
    }
}

/// Node choices: edge subsets with one way per edge given by `way`.
fn shapes(k: usize, maxdeg: usize, way: &dyn Fn(u8, usize, usize) -> usize) -> Vec<Node> {
    let mut v = vec![];
    for kind in 0..2u8 {
        for set in 0..1usize << k {
            if (set.count_ones() as usize) > maxdeg {
                continue;
            }
            for o in 0..2 {
                let mut edges: Vec<(usize, usize)> = (0..k).filter(|t| set >> t & 1 == 1).map(|t| (t, way(kind, t, set))).collect();
                if kind == 1 {
                    one_default(&mut edges);
                }
                let opaque = if o == 0 {
                    0
                } else if kind == 0 {
                    1 + set % 5
                } else {
                    1 + set % 2
                };
                v.push(Node { kind, edges, opaque });
            }
        }
    }
    for t in 0..k {
        v.push(Node { kind: 2, edges: vec![(t, way(2, t, 0))], opaque: 0 });
    }
    v.push(Node { kind: 2, edges: vec![], opaque: 1 });
    v.push(Node { kind: 2, edges: vec![], opaque: 0 });
    v
}
/// At most one edge of a union goes through its default.
fn one_default(e: &mut [(usize, usize)]) {
    let mut seen = false;
    for x in e.iter_mut() {
        if x.1 >= 2 {
            if seen {
                x.1 -= 2;
            }
            seen = true;
        }
    }
}

/// Every node with every way for every edge and every placement of opaque data.
fn all_ways(k: usize) -> Vec<Node> {
    let mut v: BTreeSet<(u8, Vec<(usize, usize)>, usize)> = BTreeSet::new();
    let combos = |ways: usize| -> Vec<Vec<(usize, usize)>> {
        let mut out = vec![vec![]];
        for t in 0..k {
            let mut next = out.clone();
            for e in &out {
                for w in 0..ways {
                    let mut x: Vec<(usize, usize)> = e.clone();
                    x.push((t, w));
                    next.push(x);
                }
            }
            out = next;
        }
        out
    };
    for e in combos(SE) {
        for o in 0..=5 {
            v.insert((0, e.clone(), o));
        }
    }
    for e in combos(UE) {
        for o in 0..=UE {
            let defaults = e.iter().filter(|x| x.1 >= 2).count() + (o >= 3) as usize;
            if defaults <= 1 {
                v.insert((1, e.clone(), o));
            }
        }
    }
    for t in 0..k {
        for w in 0..6 {
            v.insert((2, vec![(t, w)], 0));
        }
    }
    for o in 0..6 {
        v.insert((2, vec![], o));
    }
    v.into_iter().map(|(kind, edges, opaque)| Node { kind, edges, opaque }).collect()
}

fn pre() -> Vec<Item> {
    vec![cnst("BOUND", "4"), enm("plain_e", &[("PE_A", "0"), ("PE_B", "1")])]
}
fn text_of(its: &[Item]) -> String {
    its.iter().map(|i| layout(&i.tokens())).collect()
}

const NAMES: &[[&str; 4]] = &[
    ["aa", "bb", "cc", "dd"],
    ["node_d", "node_c", "node_b", "node_a"],
    ["x", "xx", "x_x", "xxx"],
    ["opaque_a", "T_x", "Bytes_b", "string_c"],
];

struct Ctx {
    prelude: String,
    parsed: AtomicU64,
    generated: AtomicU64,
    edges: AtomicU64,
}

impl Ctx {
    /// One specification: index, and optionally the emitted items.
    fn one(&self, its: &[Item], emit: bool, must: bool) -> Option<(String, String)> {
        let text = text_of(its);
        let (all, want) = reach(its);
        self.parsed.fetch_add(1, Ordering::Relaxed);
        if let Some(d) = index(&text, its, &all, &want) {
            return Some((d, text));
        }
        if emit {
            let others: BTreeSet<String> = its.iter().filter(|i| matches!(i, Item::Enum { .. })).map(|i| i.name().to_string()).collect();
            let selfs: BTreeSet<String> =
                its.iter().filter(|i| matches!(i, Item::Typedef { ty: TyRef::Named(t), name, .. } if t == name)).map(|i| i.name().to_string()).collect();
            let (ran, d) = emitted(&text, &self.prelude, &all, &want, &others, &selfs, must);
            self.generated.fetch_add(ran as u64, Ordering::Relaxed);
            if let Some(d) = d {
                return Some((d, text));
            }
        }
        None
    }
}

fn permutations(k: usize) -> Vec<Vec<usize>> {
    if k == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for q in permutations(k - 1) {
        for at in 0..k {
            let mut r = q.clone();
            r.insert(at, k - 1);
            out.push(r);
        }
    }
    out
}

/// All products of `cand` over `k` nodes.
fn product(cx: &Ctx, r: &mut Report, label: &str, k: usize, cand: &[Node], names: &[&str; 4], emit_every: usize, must: bool) {
    let m = cand.len();
    let total = m.pow(k as u32);
    let outer = m.pow((k as u32).min(2));
    let inner = total / outer;
    let nm: Vec<String> = names[..k].iter().map(|s| s.to_string()).collect();
    let bad: Vec<Option<(String, String)>> = par(outer, |o| {
        let mut its_pre = pre();
        let at = its_pre.len();
        for i in 0..inner {
            let code = o * inner + i;
            let mut c = code;
            its_pre.truncate(at);
            let mut deg = 0;
            for j in 0..k {
                let nd = &cand[c % m];
                c /= m;
                deg += nd.edges.len();
                its_pre.push(node_item(nd, &nm, j, (code >> j) & 1 == 1));
            }
            cx.edges.fetch_add(deg as u64, Ordering::Relaxed);
            let emit = emit_every > 0 && code % emit_every == 0;
            if let Some(b) = cx.one(&its_pre, emit, must) {
                return Some(b);
            }
        }
        None
    });
    r.add(&format!("graphs_{}", label), total as u64);
    let mut n = 0;
    for (d, text) in bad.into_iter().flatten() {
        n += 1;
        if n > 3 {
            break;
        }
        r.violate(format!("{}|{}", label, n), format!("[graphs of {} declarations, {}] {}", k, label, d), format!("mode: generics\n\nspecification text:\n{}", text));
    }
}

/// Long graphs: (label, items)
fn long(th: bool) -> Vec<(String, Vec<Item>, bool)> {
    let mut out: Vec<(String, Vec<Item>, bool)> = vec![];
    // one link from `a` to `b`, by way
    let ways = 15;
    let link = |w: usize, a: &str, b: &str| -> Vec<Item> {
        let t = n(b);
        match w % ways {
            0 => vec![strct(a, vec![f(t, "x")])],
            1 => vec![tdef(t, a, Arr::None)],
            2 => vec![uni(a, p("int"), "d", vec![arm(&["1"], Some((t, "x"))), arm(&["2"], None)])],
            3 => vec![strct(a, vec![fo(t, "x")])],
            4 => vec![tdef(t, a, var())],
            5 => vec![uni(a, p("int"), "d", vec![arm(&["1"], None), arm(&["default"], Some((t, "x")))])],
            6 => vec![strct(a, vec![f(p("int"), "y"), fa(t, "x", fix(2))])],
            7 => vec![tdef(t, a, fix(3))],
            8 => vec![uni(a, p("unsigned int"), "d", vec![arm(&["1", "2"], Some((t, "x"))), arm(&["default"], None)])],
            9 => vec![strct(a, vec![fa(t, "x", var()), fa(p("string"), "s", var())])],
            10 => vec![tdef(t, a, varn(4))],
            11 => vec![uni(a, p("int"), "d", vec![arm(&["1"], Some((p("int"), "q"))), arm(&["2", "default"], Some((t, "x")))])],
            12 => vec![strct(a, vec![f(n("plain_e"), "e"), fa(t, "x", varc("BOUND"))])],
            13 => vec![tdef(t, a, fixc("BOUND"))],
            _ => vec![uni(a, p("int"), "d", vec![arm(&["1"], Some((n("plain_e"), "q"))), arm(&["2"], Some((t, "x")))])],
        }
    };
    let ends: Vec<(&str, Box<dyn Fn(&str) -> Item>)> = vec![
        ("typedef opaque<>", Box::new(|a: &str| tdef(p("opaque"), a, var()))),
        ("opaque field", Box::new(|a: &str| strct(a, vec![fa(p("opaque"), "x", fix(3))]))),
        ("opaque arm", Box::new(|a: &str| uni(a, p("int"), "d", vec![arm(&["1"], Some((p("opaque"), "x"))), arm(&["2"], None)]))),
        ("opaque default", Box::new(|a: &str| uni(a, p("int"), "d", vec![arm(&["1"], None), arm(&["default"], Some((p("opaque"), "x")))]))),
        ("no opaque", Box::new(|a: &str| strct(a, vec![fa(p("string"), "x", var())]))),
        ("typedef of a string", Box::new(|a: &str| tdef(p("string"), a, var()))),
        ("an enum", Box::new(|a: &str| enm(a, &[("EN_A", "1")]))),
    ];
    // n0 -> n1 -> ... , end
    let orders = |its: Vec<Item>| -> Vec<(&'static str, Vec<Item>)> {
        let k = its.len();
        let mut rev = its.clone();
        rev.reverse();
        let odd: Vec<Item> = its.iter().step_by(2).chain(its.iter().skip(1).step_by(2)).cloned().collect();
        let mut odd_rev = odd.clone();
        odd_rev.reverse();
        let stride: Vec<Item> = {
            let s = [3, 5, 7, 11].into_iter().find(|s| k % s != 0).unwrap_or(1);
            (0..k).map(|i| its[i * s % k].clone()).collect()
        };
        let mut mid = its.clone();
        mid.rotate_left(k / 2);
        vec![("forward", its), ("reversed", rev), ("interleaved", odd), ("interleaved back", odd_rev), ("by stride", stride), ("from the middle", mid)]
    };
    let lens: Vec<usize> = if th { (1..=40).chain([64, 100, 200]).collect() } else { vec![1, 2, 3, 4, 5, 8, 11, 12, 13, 16, 20, 24, 33, 39, 40, 64] };
    for len in &lens {
        for start in 0..ways {
            for step in [0usize, 1, 4, 7] {
                for (ei, (en, end)) in ends.iter().enumerate() {
                    if !th && *len > 5 && (ei + start + step) % 3 != 0 {
                        continue;
                    }
                    // a different naming, so that name order runs with or against the chain
                    let name = |i: usize| if start % 2 == 0 { format!("n{:03}", i) } else { format!("n{:03}", 999 - i) };
                    let mut its = vec![];
                    for i in 0..*len {
                        its.extend(link(start + i * step, &name(i), &name(i + 1)));
                    }
                    its.push(end(&name(*len)));
                    for (on, o) in orders(its) {
                        let mut a = pre();
                        a.extend(o);
                        let ok = !(step == 0 && false);
                        out.push((format!("chain of {} links by way {}+{}k to {}, {}", len, start, step, en, on), a, ok));
                    }
                }
            }
        }
    }
    // cycles with opaque hanging off one node, and with none
    let cyc: Vec<usize> = if th { (1..=40).collect() } else { vec![1, 2, 3, 5, 8, 12, 20, 40] };
    for len in cyc {
        for at in 0..=len {
            if !th && len > 8 && at % 5 != 0 {
                continue;
            }
            for w in 0..if th { 9 } else { 5 } {
                let name = |i: usize| format!("n{:03}", i % len);
                let mut its = vec![];
                for i in 0..len {
                    let t = n(&name(i + 1));
                    let has = i == at;
                    let kind = (i + w) % 3;
                    its.push(match kind {
                        0 => strct(&name(i), {
                            let mut fs = vec![if w % 2 == 0 { fo(t, "next") } else { fa(t, "next", var()) }];
                            if has {
                                fs.push(fa(p("opaque"), "o", var()))
                            }
                            fs
                        }),
                        1 => uni(&name(i), p("int"), "d", {
                            let mut a = vec![arm(&["1"], Some((t, "next")))];
                            if has {
                                a.push(arm(&["default"], Some((p("opaque"), "o"))))
                            } else {
                                a.push(arm(&["2"], None))
                            }
                            a
                        }),
                        _ => {
                            if has {
                                strct(&name(i), vec![fa(p("opaque"), "o", fix(2)), fa(t, "next", var())])
                            } else {
                                tdef(t, &name(i), var())
                            }
                        }
                    });
                }
                // outside the cycle: one that reaches it, one that does not
                its.push(strct("user_s", vec![f(n(&name(len / 2)), "c")]));
                its.push(tdef(n("user_s"), "user_t", var()));
                its.push(strct("lonely", vec![fo(n("lonely"), "l")]));
                for (on, o) in orders(its) {
                    let mut a = pre();
                    a.extend(o);
                    out.push((format!("cycle of {} with opaque at {}, way {}, {}", len, at, w, on), a, true));
                }
            }
        }
    }
    // ladders: every rung reaches the two below
    for len in if th { vec![2, 3, 5, 8, 12, 16, 20, 40] } else { vec![2, 5, 12, 20] } {
        for at in 0..=len {
            let mut its = vec![];
            for i in 0..len {
                for (side, other) in [("l", "r"), ("r", "l")] {
                    let nm = format!("{}{:02}", side, i);
                    let (d1, d2) = (format!("{}{:02}", side, i + 1), format!("{}{:02}", other, i + 1));
                    its.push(match (i + side.len()) % 2 {
                        0 => strct(&nm, vec![f(n(&d1), "a"), fa(n(&d2), "b", var())]),
                        _ => uni(&nm, p("int"), "d", vec![arm(&["1"], Some((n(&d1), "a"))), arm(&["default"], Some((n(&d2), "b")))]),
                    });
                }
            }
            its.push(if at % 2 == 0 { tdef(p("opaque"), &format!("l{:02}", len), var()) } else { tdef(p("string"), &format!("l{:02}", len), var()) });
            its.push(strct(&format!("r{:02}", len), vec![f(p("int"), "x")]));
            // and opaque half way down
            if at < len {
                its.push(strct(&format!("side{:02}", at), vec![fa(p("opaque"), "x", var()), fo(n(&format!("l{:02}", at)), "y")]));
            }
            for (on, o) in orders(its) {
                let mut a = pre();
                a.extend(o);
                out.push((format!("ladder of {} rungs, {}, {}", len, at, on), a, true));
            }
        }
    }
    // trees: parent of i is (i-1)/2, opaque at one leaf or nowhere
    let tn = if th { 40 } else { 31 };
    for at in 0..=tn {
        let mut its = vec![];
        for i in 0..tn {
            let (l, r) = (2 * i + 1, 2 * i + 2);
            let mut kids: Vec<String> = vec![];
            for c in [l, r] {
                if c < tn {
                    kids.push(format!("n{:02}", c))
                }
            }
            let nm = format!("n{:02}", i);
            its.push(match i % 3 {
                1 => {
                    let mut a: Vec<Arm> = vec![];
                    for (k, c) in kids.iter().enumerate() {
                        a.push(if k == 0 { arm(&["1", "2"], Some((n(c), "x"))) } else { arm(&["default"], Some((n(c), "y"))) });
                    }
                    if at == i {
                        a.push(arm(&["9"], Some((p("opaque"), "o"))))
                    }
                    a.push(arm(&["3"], None));
                    uni(&nm, p("int"), "d", a)
                }
                2 if kids.len() == 1 && at != i => tdef(n(&kids[0]), &nm, var()),
                _ => {
                    let mut fs: Vec<Field> = kids.iter().enumerate().map(|(k, c)| if k == 0 { fo(n(c), "x") } else { fa(n(c), "y", fix(2)) }).collect();
                    if at == i {
                        fs.push(fa(p("opaque"), "o", varn(5)))
                    }
                    fs.push(f(p("double"), "z"));
                    strct(&nm, fs)
                }
            });
        }
        for (on, o) in orders(its) {
            let mut a = pre();
            a.extend(o);
            out.push((format!("tree of {} with opaque at {}, {}", tn, at, on), a, true));
        }
    }
    // a star: a hub over k leaves, one of them opaque; and k users of one type
    for k in [2usize, 7, 20, 38] {
        for at in 0..=k {
            for hub in 0..2 {
                let mut its = vec![];
                for i in 0..k {
                    its.push(if i == at { tdef(p("opaque"), &format!("leaf{:02}", i), var()) } else { tdef(p("int"), &format!("leaf{:02}", i), Arr::None) });
                }
                its.push(if hub == 0 {
                    strct("hub_s", (0..k).map(|i| f(n(&format!("leaf{:02}", i)), &format!("f{}", i))).collect())
                } else {
                    uni("hub_u", p("int"), "d", (0..k).map(|i| Arm { labels: vec![Some(i.to_string())], body: Some((n(&format!("leaf{:02}", i)), format!("f{}", i))) }).collect())
                });
                for i in 0..k {
                    its.push(strct(&format!("user{:02}", i), vec![fo(n(&format!("leaf{:02}", i)), "x")]));
                }
                for (on, o) in orders(its) {
                    let mut a = pre();
                    a.extend(o);
                    out.push((format!("star of {} with opaque at {}, hub {}, {}", k, at, hub, on), a, true));
                }
            }
        }
    }
    out
}

pub fn check(tier: &str) -> Report {
    let th = tier == "thorough";
    let mut r = Report::new("C13", tier);
    r.rule = "state = distinct labelled dependency graph (declaration kinds, edges with their way, placement of opaque data, order); transition = one edge of a graph. Oracle: reachability closure over the declaration model; compared with Ast::generics() and with the parameter lists of the emitted types, decoders and size impls".into();
    r.assumptions = vec!["all labelled graphs over k declarations in one fixed order are all graphs in all orders, up to the names".into()];
    let cx = Ctx { prelude: prelude(), parsed: AtomicU64::new(0), generated: AtomicU64::new(0), edges: AtomicU64::new(0) };
    if cx.prelude.len() < 1000 {
        r.violate("prelude", "generate of the empty specification does not return the runtime", "mode: text\n\n");
        return r;
    }
    // every graph shape; the way of an edge turns with its position
    let ways: Vec<Box<dyn Fn(u8, usize, usize) -> usize>> = vec![
        Box::new(|k, t, s| match k {
            0 => (t + s) % SE,
            1 => (t + s / 2) % UE,
            _ => t % 6,
        }),
        Box::new(|k, t, s| match k {
            0 => (3 * t + s / 3 + 2) % SE,
            1 => (t + s + 2) % UE,
            _ => (t + 3) % 6,
        }),
        Box::new(|_, _, _| 0),
    ];
    for k in 1..=3 {
        for (wi, w) in ways.iter().enumerate() {
            for (ni, nm) in NAMES.iter().enumerate() {
                if !th && k == 3 && ni != wi {
                    continue;
                }
                let c = shapes(k, k, w);
                product(&cx, &mut r, &format!("k{}_all_shapes", k), k, &c, nm, if k < 3 || th { 1 } else { 3 }, true);
            }
        }
    }
    // four declarations
    if th {
        for (wi, w) in ways.iter().take(2).enumerate() {
            product(&cx, &mut r, "k4_all_shapes", 4, &shapes(4, 4, w), &NAMES[wi], 997, true);
        }
    } else {
        product(&cx, &mut r, "k4_out_degree_2", 4, &shapes(4, 2, &ways[0]), &NAMES[1], 499, true);
    }
    // every way of every edge, every placement
    product(&cx, &mut r, "k1_all_ways", 1, &all_ways(1), &NAMES[0], 1, false);
    product(&cx, &mut r, "k2_all_ways", 2, &all_ways(2), &NAMES[1], if th { 1 } else { 5 }, false);
    // every way along paths of three links, in every order
    {
        let mut ends: Vec<Node> = all_ways(0);
        ends.retain(|e| e.edges.is_empty());
        let mut via: Vec<Box<dyn Fn(usize) -> Node + Sync + Send>> = vec![];
        for w in 0..SE {
            via.push(Box::new(move |t| Node { kind: 0, edges: vec![(t, w)], opaque: 0 }));
        }
        for w in 0..UE {
            via.push(Box::new(move |t| Node { kind: 1, edges: vec![(t, w)], opaque: 0 }));
        }
        for w in 0..6 {
            via.push(Box::new(move |t| Node { kind: 2, edges: vec![(t, w)], opaque: 0 }));
        }
        let perms: Vec<Vec<usize>> = if th { permutations(4) } else { vec![vec![0, 1, 2, 3], vec![3, 2, 1, 0], vec![1, 3, 0, 2], vec![2, 0, 3, 1]] };
        let v = via.len();
        let nm: Vec<String> = NAMES[2].iter().map(|s| s.to_string()).collect();
        let bad = par(v * v * v, |code| {
            let (a, b, c) = (code % v, code / v % v, code / v / v);
            for e in &ends {
                let its = [node_item(&via[a](1), &nm, 0, false), node_item(&via[b](2), &nm, 1, true), node_item(&via[c](3), &nm, 2, false), node_item(e, &nm, 3, false)];
                for q in &perms {
                    let mut all = pre();
                    all.extend(q.iter().map(|i| its[*i].clone()));
                    cx.edges.fetch_add(3, Ordering::Relaxed);
                    if let Some(b) = cx.one(&all, th && code % 7 == 0, false) {
                        return Some(b);
                    }
                }
            }
            None
        });
        r.add("paths_of_3_links_all_ways", (v * v * v * ends.len() * perms.len()) as u64);
        for (i, (d, text)) in bad.into_iter().flatten().take(3).enumerate() {
            r.violate(format!("path|{}", i), format!("[path of three links] {}", d), format!("mode: generics\n\nspecification text:\n{}", text));
        }
    }
    // up to 40 and more declarations
    let l = long(th);
    let bad = par(l.len(), |i| {
        cx.edges.fetch_add(l[i].1.len() as u64, Ordering::Relaxed);
        cx.one(&l[i].1, th || i % 2 == 0, false)
    });
    r.add("long_graphs", l.len() as u64);
    let mut k = 0;
    for (i, b) in bad.into_iter().enumerate() {
        if let Some((d, text)) = b {
            k += 1;
            if k <= 3 {
                r.violate(format!("long|{}", l[i].0), format!("[{}] {}", l[i].0, d), format!("mode: generics\n\nspecification text:\n{}", text));
            }
        }
    }
    // the specifications of the other checks
    let mut u = mcrt::universe::set("C01", tier);
    u.extend(mcrt::universe::p10(th));
    u.extend(mcrt::models::alike(th));
    u.extend(mcrt::models::repeats(th));
    let bad = par(u.len(), |i| {
        // a typedef of a primitive to one of its own spellings declares nothing
        let its: Vec<Item> = u[i].items.iter().filter(|x| !mcrt::sem::is_self_typedef(x)).cloned().collect();
        cx.one(&its, true, false)
    });
    r.add("specifications_of_the_other_checks", u.len() as u64);
    for (i, b) in bad.into_iter().enumerate().filter(|x| x.1.is_some()).take(3) {
        let (d, text) = b.unwrap();
        r.violate(format!("spec|{}", u[i].label), format!("[{}] {}", u[i].label, d), format!("mode: generics\n\nspecification text:\n{}", text));
    }
    r.states = cx.parsed.into_inner();
    r.traces = r.states;
    r.transitions = cx.edges.into_inner();
    r.add("emitted_modules_compared", cx.generated.into_inner());
    for k in [0, l.len() / 2, l.len() - 1] {
        r.samples.push(format!("[{}] {}", l[k].0, text_of(&l[k].1).replace('\n', " ").chars().take(300).collect::<String>()));
    }
    r.exhaustive = Some(true);
    r
}
