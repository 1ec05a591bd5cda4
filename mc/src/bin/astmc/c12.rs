//! C12: the public AST says exactly what the specification declares.
use crate::watch::{guarded, par};
use fastxdr::ast::indexes::{AstType, ConstantType};
use fastxdr::ast::{ArraySize, ArrayType, Ast, BasicType, CompoundType, Enum, Struct, Typedef, Union, VariantValue};
use mcrt::layout::*;
use mcrt::report::*;
use mcrt::sem::num;
use mcrt::spec::*;
use mcrt::models::*;
use mcrt::universe;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};

/// What a specification declares, one line per observation.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Facts {
    types: BTreeMap<String, String>,
    consts: BTreeMap<String, String>,
}

fn prim_fact(s: &str) -> &'static str {
    match s {
        "unsigned int" | "unsigned" | "uint32_t" | "u32" => "#U32",
        "int" | "int32_t" | "i32" => "#I32",
        "unsigned hyper" | "uint64_t" | "u64" => "#U64",
        "hyper" | "int64_t" | "i64" => "#I64",
        "float" => "#F32",
        "double" => "#F64",
        "bool" => "#BOOL",
        "string" => "#STRING",
        "opaque" => "#OPAQUE",
        _ => "",
    }
}
/// A declared name; some are also spellings of a primitive.
fn name_fact(s: &str) -> String {
    let p = prim_fact(s);
    if p.is_empty() {
        s.to_string()
    } else {
        p.to_string()
    }
}
fn ty_fact(t: &TyRef) -> String {
    match t {
        TyRef::Prim(s) => prim_fact(s).to_string(),
        TyRef::Named(n) => n.clone(),
    }
}
fn size_fact(s: &Size) -> String {
    match s {
        Size::Lit(n) => format!("{}", n),
        Size::Const(c) => format!("const {}", c),
    }
}
fn arr_fact(a: &Arr) -> String {
    match a {
        Arr::None => String::new(),
        Arr::Fixed(s) => format!("[{}]", size_fact(s)),
        Arr::Var(None) => "<>".into(),
        Arr::Var(Some(s)) => format!("<{}>", size_fact(s)),
    }
}
fn value_fact(s: &str) -> String {
    match num(s) {
        Some(n) => n.to_string(),
        None => s.to_string(),
    }
}

pub fn declared(items: &[Item]) -> Facts {
    let mut f = Facts::default();
    for it in items {
        match it {
            Item::Const { name, val } => {
                f.consts.insert(name.clone(), format!("= {}", value_fact(val)));
            }
            Item::Enum { name, members } => {
                let m: Vec<String> = members.iter().map(|(m, v)| format!("{} = {}", m, value_fact(v))).collect();
                f.types.insert(name.clone(), format!("enum {} {{ {} }}", name, m.join(", ")));
                for (m, _) in members {
                    f.consts.insert(m.clone(), format!("member {} of {}", m, name));
                }
            }
            Item::Struct { name, fields } => {
                let m: Vec<String> =
                    fields.iter().map(|x| format!("{} {}{}{}", ty_fact(&x.ty), if x.opt { "*" } else { "" }, x.name, arr_fact(&x.arr))).collect();
                f.types.insert(name.clone(), format!("struct {} {{ {} }}", name, m.join("; ")));
            }
            Item::Union { name, disc_ty, disc, arms } => {
                let mut cases = vec![];
                let mut voids = vec![];
                let mut default = String::from("-");
                for a in arms {
                    let mut l: Vec<String> = a.labels.iter().flatten().cloned().collect();
                    let d = a.labels.contains(&None);
                    match &a.body {
                        None => {
                            voids.append(&mut l);
                            if d {
                                voids.push("default".into());
                            }
                        }
                        Some((t, n)) => {
                            l.sort();
                            let x = format!("{} {} for {}", ty_fact(t), n, l.join(","));
                            if d {
                                default = x
                            } else {
                                cases.push(x)
                            }
                        }
                    }
                }
                cases.sort();
                voids.sort();
                f.types.insert(
                    name.clone(),
                    format!("union {} on {} {} {{ {} }} void for {} default {}", name, ty_fact(disc_ty), disc, cases.join("; "), voids.join(","), default),
                );
            }
            Item::Typedef { ty, name, arr } => {
                f.types.insert(name_fact(name), format!("typedef {} {}{}", ty_fact(ty), name_fact(name), arr_fact(arr)));
            }
        }
    }
    f
}

fn basic(t: &BasicType) -> String {
    match t {
        BasicType::U32 => "#U32",
        BasicType::U64 => "#U64",
        BasicType::I32 => "#I32",
        BasicType::I64 => "#I64",
        BasicType::F32 => "#F32",
        BasicType::F64 => "#F64",
        BasicType::String => "#STRING",
        BasicType::Bool => "#BOOL",
        BasicType::Opaque => "#OPAQUE",
        BasicType::Ident(s) => return s.clone(),
    }
    .into()
}
fn asize(s: &ArraySize) -> String {
    match s {
        ArraySize::Known(n) => format!("{}", n),
        ArraySize::Constant(c) => format!("const {}", c),
    }
}
fn arr_of(a: &ArrayType<BasicType>) -> (String, String) {
    match a {
        ArrayType::None(t) => (basic(t), String::new()),
        ArrayType::FixedSize(t, s) => (basic(t), format!("[{}]", asize(s))),
        ArrayType::VariableSize(t, None) => (basic(t), "<>".into()),
        ArrayType::VariableSize(t, Some(s)) => (basic(t), format!("<{}>", asize(s))),
    }
}
fn enum_fact(e: &Enum) -> String {
    let m: Vec<String> = e
        .variants
        .iter()
        .map(|v| {
            let x = match &v.value {
                VariantValue::Numeric(n) => n.to_string(),
                VariantValue::String(s) => value_fact(s),
            };
            format!("{} = {}", v.name, x)
        })
        .collect();
    format!("enum {} {{ {} }}", e.name, m.join(", "))
}
fn struct_fact(s: &Struct) -> String {
    let m: Vec<String> = s
        .fields
        .iter()
        .map(|x| {
            let (t, a) = arr_of(&x.field_value);
            format!("{} {}{}{}", t, if x.is_optional { "*" } else { "" }, x.field_name, a)
        })
        .collect();
    format!("struct {} {{ {} }}", s.name, m.join("; "))
}
fn union_fact(u: &Union) -> String {
    let arm = |c: &fastxdr::ast::UnionCase| {
        let (t, a) = arr_of(&c.field_value);
        let mut l: Vec<String> = c.case_values.iter().filter(|x| *x != "default").cloned().collect();
        l.sort();
        format!("{} {}{} for {}", t, c.field_name, a, l.join(","))
    };
    let mut cases: Vec<String> = u.cases.iter().map(arm).collect();
    cases.sort();
    let mut voids = u.void_cases.clone();
    voids.sort();
    format!(
        "union {} on {} {} {{ {} }} void for {} default {}",
        u.name,
        basic(&u.switch.var_type),
        u.switch.var_name,
        cases.join("; "),
        voids.join(","),
        u.default.as_ref().map_or("-".into(), arm)
    )
}
fn typedef_fact(t: &Typedef) -> String {
    let (n, a) = arr_of(&t.alias);
    format!("typedef {} {}{}", basic(&t.target), n, a)
}
fn type_fact(t: &AstType) -> String {
    match t {
        AstType::Struct(s) => struct_fact(s),
        AstType::Union(u) => union_fact(u),
        AstType::Enum(e) => enum_fact(e),
        AstType::Typedef(t) => typedef_fact(t),
    }
}
fn const_fact(c: &ConstantType) -> String {
    match c {
        ConstantType::ConstValue(v) => format!("= {}", value_fact(v)),
        ConstantType::EnumValue { enum_name, variant } => format!("member {} of {}", variant, enum_name),
    }
}

fn diff(what: &str, want: &BTreeMap<String, String>, got: &BTreeMap<String, String>) -> Option<String> {
    for (k, v) in want {
        match got.get(k) {
            None => return Some(format!("{} does not expose {} ({})", what, k, v)),
            Some(g) if g != v => return Some(format!("{} for {}: declared {} ; exposed {}", what, k, v, g)),
            _ => {}
        }
    }
    for (k, v) in got {
        if !want.contains_key(k) {
            return Some(format!("{} exposes {} ({}), which is not declared", what, k, v));
        }
    }
    None
}

/// The difference between declarations and AST, if any.
pub fn compare(items: &[Item], want: &Facts, text: &str) -> Option<String> {
    let r = guarded(text, |t| {
        let ast = match Ast::new(t) {
            Ok(a) => a,
            Err(e) => return Some(format!("Ast::new gives Err: {}", e.to_string().lines().last().unwrap_or(""))),
        };
        look(items, want, &ast)
    });
    match r {
        Ok(d) => d,
        Err(p) => Some(format!("panic: {}", p)),
    }
}

fn look(items: &[Item], want: &Facts, ast: &Ast) -> Option<String> {
    // the maps
    let mut got = BTreeMap::new();
    for (k, v) in ast.types().0.iter() {
        got.insert(name_fact(k), type_fact(v));
    }
    if let Some(d) = diff("types()", &want.types, &got) {
        return Some(d);
    }
    let mut got = BTreeMap::new();
    for (k, v) in ast.constants().0.iter() {
        got.insert(k.clone(), const_fact(v));
    }
    if let Some(d) = diff("constants()", &want.consts, &got) {
        return Some(d);
    }
    // iteration
    let mut l: Vec<String> = ast.types().iter().map(type_fact).collect();
    l.sort();
    let mut w: Vec<String> = want.types.values().cloned().collect();
    w.sort();
    if l != w {
        return Some(format!("types().iter() gives {:?}, declared {:?}", l, w));
    }
    let mut l: Vec<(String, String)> = ast.constants().iter().map(|(k, v)| (k.clone(), const_fact(v))).collect();
    l.sort();
    let w: Vec<(String, String)> = want.consts.clone().into_iter().collect();
    if l != w {
        return Some(format!("constants().iter() gives {:?}, declared {:?}", l, w));
    }
    // by name
    for it in items {
        let n = it.name();
        match it {
            Item::Const { .. } => {
                if ast.constants().get(n).map(const_fact) != want.consts.get(n).cloned() {
                    return Some(format!("constants().get({:?}) is {:?}", n, ast.constants().get(n)));
                }
                if !want.types.contains_key(n) && ast.types().get(n).is_some() {
                    return Some(format!("types().get({:?}) finds a type, {:?} is a constant", n, n));
                }
            }
            _ => {
                let w = want.types.get(&name_fact(n)).cloned();
                if ast.types().get(n).map(type_fact) != w {
                    return Some(format!("types().get({:?}) is {:?}", n, ast.types().get(n)));
                }
                let td = ast.types().typedef_target(n).map(typedef_fact);
                if td != if matches!(it, Item::Typedef { .. }) { w } else { None } {
                    return Some(format!("types().typedef_target({:?}) is {:?}", n, td));
                }
                if !want.consts.contains_key(n) && ast.constants().get(n).is_some() {
                    return Some(format!("constants().get({:?}) finds a constant, {:?} is a type", n, n));
                }
                for probe in [format!("{}_", n), format!("_{}", n), n[..n.len() - 1].to_string(), n.to_uppercase(), n.to_lowercase()] {
                    if probe.is_empty() || !prim_fact(&probe).is_empty() {
                        continue;
                    }
                    if ast.types().get(&probe).is_some() != want.types.contains_key(&probe) || ast.constants().get(&probe).is_some() != want.consts.contains_key(&probe) {
                        return Some(format!("lookup of {:?} does not agree with the declarations", probe));
                    }
                }
            }
        }
        if let Item::Enum { members, .. } = it {
            for (m, _) in members {
                if ast.constants().get(m).map(const_fact) != want.consts.get(m).cloned() {
                    return Some(format!("constants().get({:?}) is {:?}", m, ast.constants().get(m)));
                }
            }
        }
        // the views of compound types
        let (have, names, opaque) = match ast.types().get(n) {
            Some(AstType::Struct(s)) if matches!(it, Item::Struct { .. }) => (s.inner_types(), s.name(), s.contains_opaque()),
            Some(AstType::Union(s)) if matches!(it, Item::Union { .. }) => (s.inner_types(), s.name(), s.contains_opaque()),
            _ => continue,
        };
        let mut have: Vec<String> = have.iter().map(|t| arr_of(t)).map(|(t, a)| format!("{}{}", t, a)).collect();
        let (mut want_in, want_op): (Vec<String>, bool) = match it {
            Item::Struct { fields, .. } => {
                (fields.iter().map(|x| format!("{}{}", ty_fact(&x.ty), arr_fact(&x.arr))).collect(), fields.iter().any(|x| x.ty == p("opaque")))
            }
            Item::Union { arms, .. } => {
                want_inner(arms)
            }
            _ => unreachable!(),
        };
        have.sort();
        want_in.sort();
        if have != want_in || names != n || opaque != want_op {
            return Some(format!("{}: name() {}, inner_types() {:?}, contains_opaque() {}; declared {:?}", n, names, have, opaque, want_in));
        }
    }
    for probe in ["", "no such name", "default", "void", "struct", "opaque", "string", "0", "1"] {
        if ast.types().get(probe).is_some() || ast.constants().get(probe).is_some() {
            return Some(format!("lookup of {:?} finds something", probe));
        }
    }
    None
}

fn want_inner(arms: &[Arm]) -> (Vec<String>, bool) {
    let b: Vec<&TyRef> = arms.iter().filter_map(|a| a.body.as_ref()).map(|b| &b.0).collect();
    (b.iter().map(|t| ty_fact(t)).collect(), b.iter().any(|t| **t == p("opaque")))
}

fn permutations(k: usize) -> Vec<Vec<usize>> {
    if k == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for q in permutations(k - 1) {
        for at in 0..k {
            let mut r = q.clone();
            r.insert(at, k - 1);
            out.push(r);
        }
    }
    out
}

pub fn check(tier: &str) -> Report {
    let th = tier == "thorough";
    let mut r = Report::new("C12", tier);
    r.rule = "state = distinct (declaration model, layout, declaration order) printed and parsed; transition = one declaration, separator or order changed from the base; every observation of the public AST (maps, iterators, lookups by name, compound views) is compared with the model".into();
    // label, full layouts
    let mut sp: Vec<(Spec, u8)> = vec![];
    for s in kitchen() {
        sp.push((s, 3));
    }
    for s in universe::p9().into_iter().chain(universe::p6()) {
        sp.push((s, 2));
    }
    for s in declarators().into_iter().chain(names()) {
        sp.push((s, 1));
    }
    for s in unions(if th { 4 } else { 3 }) {
        sp.push((s, 1));
    }
    for s in values(th).into_iter().chain(repeats(th)).chain(kinds(if th { 4 } else { 3 })) {
        sp.push((s, 0));
    }
    for s in universe::set("C01", tier).into_iter().chain(universe::p10(th)) {
        sp.push((s, 0));
    }
    r.add("declaration_models", sp.len() as u64);
    let states = AtomicU64::new(0);
    let (gaps, pairs, orders) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let found: Vec<Vec<(String, String, String)>> = par(sp.len(), |si| {
        let (s, depth) = &sp[si];
        let want = declared(&s.items);
        let t = s.tokens();
        let mut bad: Vec<(String, String, String)> = vec![];
        let mut run = |how: String, text: String| {
            states.fetch_add(1, Ordering::Relaxed);
            if bad.len() >= 2 {
                return;
            }
            if let Some(d) = compare(&s.items, &want, &text) {
                bad.push((how, d, text));
            }
        };
        let per = |x: usize| th || si % x == 0;
        for style in 0..3 {
            let b = base(&t, style);
            run(format!("layout {}", style), join(&t, &b));
            if *depth == 0 {
                continue;
            }
            if *depth == 1 && !(style == 1 && t.len() <= 60 && per(8)) {
                continue;
            }
            if t.len() > 150 && !(style == 1 && th) {
                continue;
            }
            for g in 0..=t.len() {
                for tr in TRIVIA {
                    gaps.fetch_add(1, Ordering::Relaxed);
                    run(format!("{:?} before token {} of layout {}", tr, g, style), with(&t, &b, &[(g, tr)]));
                }
            }
        }
        // all gaps alike
        for (k, tr) in TRIVIA.iter().enumerate() {
            if *depth == 0 && !th && k != si % TRIVIA.len() {
                continue;
            }
            if *depth == 1 && !th && k % 4 != si % 4 {
                continue;
            }
            run(format!("{:?} between all tokens", tr), join(&t, &vec![tr.to_string(); t.len() + 1]));
        }
        // what comments hold
        if *depth == 3 {
            let b = base(&t, if si % 2 == 0 { 0 } else { 1 });
            for (k, tr) in contents_trivia(th).iter().enumerate() {
                for g in 0..=t.len() {
                    let take = match tr.len() {
                        l if l > 20_000 => g == (k + 11 * si) % (t.len() + 1) && (th || si % 3 == 1),
                        l if l > 300 => g == (k + 11 * si) % (t.len() + 1),
                        _ => th || (g + k) % 4 == si % 4,
                    };
                    if take {
                        gaps.fetch_add(1, Ordering::Relaxed);
                        let shown: String = tr.chars().take(40).collect();
                        run(format!("{:?} ({} bytes) before token {}", shown, tr.len(), g), with(&t, &b, &[(g, tr)]));
                    }
                }
            }
        }
        // pairs of gaps
        if *depth == 3 && (t.len() <= 75 || th) {
            let b = base(&t, 1);
            for g in 0..=t.len() {
                for h in g + 1..=t.len() {
                    if h - g > 8 && !th {
                        continue;
                    }
                    for x in FEW {
                        for y in FEW {
                            pairs.fetch_add(1, Ordering::Relaxed);
                            run(format!("{:?} before token {}, {:?} before token {}", x, g, y, h), with(&t, &b, &[(g, x), (h, y)]));
                        }
                    }
                }
            }
        }
        // orders
        let ni = s.items.len();
        let ps: Vec<Vec<usize>> = if ni <= 1 {
            vec![]
        } else if *depth >= 2 && ni <= if th { 7 } else { 6 } {
            permutations(ni)
        } else if ni <= 4 && *depth == 1 {
            permutations(ni)
        } else {
            let id: Vec<usize> = (0..ni).collect();
            let mut v = vec![id.iter().rev().cloned().collect::<Vec<_>>()];
            for k in 1..ni.min(if *depth >= 2 { 40 } else { 3 }) {
                let mut q = id.clone();
                q.rotate_left(k);
                v.push(q);
            }
            v
        };
        for q in ps {
            orders.fetch_add(1, Ordering::Relaxed);
            let text: String = q.iter().map(|i| layout(&s.items[*i].tokens())).collect();
            run(format!("declaration order {:?}", q), text);
        }
        bad
    });
    for (si, b) in found.into_iter().enumerate() {
        for (how, d, text) in b {
            r.violate(
                format!("{}|{}", sp[si].0.label, how),
                format!("[{}] {}: {}", sp[si].0.label, how, d),
                format!("mode: ast\nhow: {}\n\nspecification text:\n{}", how.replace('\n', "\\n"), text),
            );
        }
    }
    let (g, p_, o) = (gaps.into_inner(), pairs.into_inner(), orders.into_inner());
    r.states = states.into_inner();
    r.transitions = g + 2 * p_ + o;
    r.traces = r.states;
    r.add("single_gap_insertions", g);
    r.add("gap_pair_insertions", p_);
    r.add("declaration_orders", o);
    for k in [0, sp.len() / 2, sp.len() - 1] {
        r.samples.push(format!("[{}] {}", sp[k].0.label, sp[k].0.text().replace('\n', " ").chars().take(300).collect::<String>()));
    }
    r.exhaustive = Some(true);
    r
}
