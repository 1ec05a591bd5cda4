//! Meaning of a `Spec`: resolved types, discriminant values, generic-ness.
use crate::spec::*;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    U32,
    I32,
    U64,
    I64,
    F32,
    F64,
    Bool,
    Str(Option<u32>),
    OpVar(Option<u32>),
    OpFix(u32),
    Fix(Box<T>, u32),
    Var(Box<T>, Option<u32>),
    Opt(Box<T>),
    Ref(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Disc {
    I32,
    U32,
    I64,
    U64,
    Bool,
    Enum(usize),
}

#[derive(Clone, Debug)]
pub struct SVar {
    pub name: String,
    pub body: Option<T>,
}

#[derive(Clone, Debug)]
pub enum Def {
    Enum(Vec<(String, i32)>),
    Struct(Vec<(String, T)>),
    Union { disc: Disc, vars: Vec<SVar>, sel: Vec<(i128, usize)>, default: Option<usize> },
    New(T),
}

#[derive(Clone, Debug)]
pub struct D {
    pub name: String,
    pub def: Def,
    pub generic: bool,
    pub recursive: bool,
    /// minimal number of nested definitions needed to build a value
    pub height: u32,
}

pub struct Sem {
    pub defs: Vec<D>,
    pub consts: BTreeMap<String, u32>,
}

pub const RESERVED: &[&str] = &[
    "abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "crate", "do",
    "dyn", "else", "enum", "extern", "false", "final", "fn", "for", "if", "impl", "in", "let", "loop",
    "macro", "match", "mod", "move", "mut", "override", "priv", "pub", "ref", "return", "self", "Self",
    "static", "struct", "super", "trait", "true", "try", "type", "typeof", "union", "unsafe", "unsized",
    "use", "virtual", "where", "while", "yield",
];

pub fn safe_field(nm: &str) -> String {
    if RESERVED.contains(&nm) {
        format!("{}_v", nm)
    } else {
        nm.to_string()
    }
}
pub fn variant_name(label: &str) -> String {
    if label.starts_with(|c: char| c.is_ascii_digit()) {
        format!("v_{}", label)
    } else {
        label.to_string()
    }
}

pub fn num(s: &str) -> Option<u64> {
    if let Some(h) = s.strip_prefix("0x") {
        u64::from_str_radix(h, 16).ok()
    } else {
        s.parse().ok()
    }
}

pub fn prim(s: &str) -> T {
    match s {
        "unsigned int" | "unsigned" | "uint32_t" | "u32" => T::U32,
        "int" | "int32_t" | "i32" => T::I32,
        "unsigned hyper" | "uint64_t" | "u64" => T::U64,
        "hyper" | "int64_t" | "i64" => T::I64,
        "float" => T::F32,
        "double" => T::F64,
        "bool" => T::Bool,
        "string" => T::Str(None),
        "opaque" => T::OpVar(None),
        _ => panic!("not a primitive: {}", s),
    }
}

struct B<'a> {
    ids: HashMap<&'a str, usize>,
    consts: BTreeMap<String, u32>,
    enumvals: HashMap<String, i32>,
    items: &'a [Item],
}

impl<'a> B<'a> {
    fn size(&self, s: &Size) -> u32 {
        match s {
            Size::Lit(n) => *n,
            Size::Const(c) => *self.consts.get(c).unwrap_or_else(|| panic!("const {}", c)),
        }
    }
    fn ty(&self, t: &TyRef) -> T {
        match t {
            TyRef::Prim(p) => prim(p),
            TyRef::Named(n) => T::Ref(*self.ids.get(n.as_str()).unwrap_or_else(|| panic!("type {}", n))),
        }
    }
    fn decl(&self, t: &TyRef, a: &Arr, opt: bool) -> T {
        let b = self.ty(t);
        let r = match (b, a) {
            (b, Arr::None) => b,
            (T::Str(_), Arr::Var(m)) => T::Str(m.as_ref().map(|s| self.size(s))),
            (T::Str(_), Arr::Fixed(_)) => panic!("fixed string"),
            (T::OpVar(_), Arr::Var(m)) => T::OpVar(m.as_ref().map(|s| self.size(s))),
            (T::OpVar(_), Arr::Fixed(s)) => T::OpFix(self.size(s)),
            (b, Arr::Var(m)) => T::Var(Box::new(b), m.as_ref().map(|s| self.size(s))),
            (b, Arr::Fixed(s)) => T::Fix(Box::new(b), self.size(s)),
        };
        if opt {
            T::Opt(Box::new(r))
        } else {
            r
        }
    }
    fn disc(&self, t: &TyRef) -> Disc {
        match t {
            TyRef::Prim(p) => match prim(p) {
                T::U32 => Disc::U32,
                T::I32 => Disc::I32,
                T::U64 => Disc::U64,
                T::I64 => Disc::I64,
                T::Bool => Disc::Bool,
                x => panic!("disc {:?}", x),
            },
            TyRef::Named(n) => {
                let id = self.ids[n.as_str()];
                for it in self.items {
                    if it.name() == n {
                        match it {
                            Item::Enum { .. } => return Disc::Enum(id),
                            Item::Typedef { ty, arr: Arr::None, .. } => return self.disc(ty),
                            _ => panic!("disc"),
                        }
                    }
                }
                panic!("disc")
            }
        }
    }
    fn label(&self, l: &str) -> i128 {
        if let Some(v) = self.enumvals.get(l) {
            return *v as i128;
        }
        if let Some(v) = self.consts.get(l) {
            return *v as i128;
        }
        match l {
            "TRUE" => 1,
            "FALSE" => 0,
            _ => num(l).unwrap_or_else(|| panic!("label {}", l)) as i128,
        }
    }
}

/// A typedef of a primitive to one of its own spellings declares nothing.
pub fn is_self_typedef(it: &Item) -> bool {
    matches!(it, Item::Typedef { name, .. } if
        ["uint32_t", "u32", "int32_t", "i32", "uint64_t", "u64", "int64_t", "i64", "unsigned", "bool"].contains(&name.as_str()))
}

pub fn resolve(spec: &Spec) -> Sem {
    let items = &spec.items;
    let mut b = B { ids: HashMap::new(), consts: BTreeMap::new(), enumvals: HashMap::new(), items };
    let mut n = 0;
    for it in items {
        match it {
            Item::Const { name, val } => {
                b.consts.insert(name.clone(), num(val).unwrap() as u32);
            }
            _ if is_self_typedef(it) => {}
            _ => {
                b.ids.insert(it.name(), n);
                n += 1;
            }
        }
    }
    for it in items {
        if let Item::Enum { members, .. } = it {
            for (m, v) in members {
                let v = match num(v) {
                    Some(x) => x as u32 as i32,
                    None => b.consts[v] as i32,
                };
                b.enumvals.insert(m.clone(), v);
            }
        }
    }
    let mut defs = vec![];
    for it in items {
        if is_self_typedef(it) {
            continue;
        }
        let def = match it {
            Item::Const { .. } => continue,
            Item::Enum { members, .. } => {
                Def::Enum(members.iter().map(|(m, _)| (m.clone(), b.enumvals[m])).collect())
            }
            Item::Struct { fields, .. } => {
                Def::Struct(fields.iter().map(|f| (f.name.clone(), b.decl(&f.ty, &f.arr, f.opt))).collect())
            }
            Item::Typedef { ty, arr, .. } => Def::New(b.decl(ty, arr, false)),
            Item::Union { disc_ty, arms, .. } => {
                let disc = b.disc(disc_ty);
                let mut vars = vec![];
                let mut sel = vec![];
                let mut default = None;
                for a in arms {
                    let body = a.body.as_ref().map(|(t, _)| b.ty(t));
                    for l in &a.labels {
                        let i = vars.len();
                        match l {
                            None => {
                                default = Some(i);
                                vars.push(SVar { name: "default".into(), body: body.clone() });
                            }
                            Some(l) => {
                                sel.push((b.label(l), i));
                                vars.push(SVar { name: variant_name(l), body: body.clone() });
                            }
                        }
                    }
                }
                let mut seen: Vec<i128> = sel.iter().map(|s| s.0).collect();
                seen.sort();
                seen.dedup();
                assert!(seen.len() == sel.len(), "union {} has two labels of one value", it.name());
                Def::Union { disc, vars, sel, default }
            }
        };
        defs.push(D { name: it.name().to_string(), def, generic: false, recursive: false, height: u32::MAX });
    }
    let mut s = Sem { defs, consts: b.consts };
    s.analyse();
    s
}

impl Sem {
    pub fn refs(t: &T, o: &mut Vec<usize>) {
        match t {
            T::Ref(i) => o.push(*i),
            T::Fix(t, _) | T::Var(t, _) | T::Opt(t) => Sem::refs(t, o),
            _ => {}
        }
    }
    pub fn opaque(t: &T) -> bool {
        match t {
            T::OpVar(_) | T::OpFix(_) => true,
            T::Fix(t, _) | T::Var(t, _) | T::Opt(t) => Sem::opaque(t),
            _ => false,
        }
    }
    pub fn parts<'a>(d: &'a Def) -> Vec<&'a T> {
        match d {
            Def::Enum(_) => vec![],
            Def::Struct(f) => f.iter().map(|x| &x.1).collect(),
            Def::Union { vars, .. } => vars.iter().filter_map(|v| v.body.as_ref()).collect(),
            Def::New(t) => vec![t],
        }
    }
    fn analyse(&mut self) {
        let n = self.defs.len();
        let adj: Vec<Vec<usize>> = self
            .defs
            .iter()
            .map(|d| {
                let mut o = vec![];
                for t in Sem::parts(&d.def) {
                    Sem::refs(t, &mut o)
                }
                o
            })
            .collect();
        // generic: least fixpoint
        let mut g: Vec<bool> =
            self.defs.iter().map(|d| Sem::parts(&d.def).iter().any(|t| Sem::opaque(t))).collect();
        loop {
            let mut ch = false;
            for i in 0..n {
                if !g[i] && adj[i].iter().any(|j| g[*j]) {
                    g[i] = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        // recursive: reaches itself
        for i in 0..n {
            let mut seen = vec![false; n];
            let mut st = adj[i].clone();
            let mut rec = false;
            while let Some(j) = st.pop() {
                if j == i {
                    rec = true;
                    break;
                }
                if !seen[j] {
                    seen[j] = true;
                    st.extend(adj[j].iter());
                }
            }
            self.defs[i].recursive = rec;
            self.defs[i].generic = g[i];
        }
        // heights: least fixpoint
        loop {
            let mut ch = false;
            for i in 0..n {
                let h = self.def_height(i);
                if h < self.defs[i].height {
                    self.defs[i].height = h;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
    }
    pub fn ty_height(&self, t: &T) -> u32 {
        match t {
            T::Ref(i) => self.defs[*i].height,
            T::Fix(t, n) if *n > 0 => self.ty_height(t),
            _ => 0,
        }
    }
    fn def_height(&self, i: usize) -> u32 {
        let h = match &self.defs[i].def {
            Def::Enum(_) => 0,
            Def::Struct(f) => f.iter().map(|x| self.ty_height(&x.1)).max().unwrap_or(0),
            Def::Union { vars, .. } => vars
                .iter()
                .map(|v| v.body.as_ref().map_or(0, |t| self.ty_height(t)))
                .min()
                .unwrap_or(u32::MAX),
            Def::New(t) => self.ty_height(t),
        };
        h.saturating_add(1)
    }
    /// Smallest encoding size of a type, in bytes.
    pub fn min_size(&self, t: &T, fuel: u32) -> u64 {
        match t {
            T::U32 | T::I32 | T::F32 | T::Bool | T::Str(_) | T::OpVar(_) | T::Var(..) | T::Opt(_) => 4,
            T::U64 | T::I64 | T::F64 => 8,
            T::OpFix(n) => pad4(*n as usize) as u64,
            T::Fix(t, n) => *n as u64 * self.min_size(t, fuel),
            T::Ref(i) => {
                if fuel == 0 {
                    return 4;
                }
                match &self.defs[*i].def {
                    Def::Enum(_) => 4,
                    Def::Struct(f) => f.iter().map(|x| self.min_size(&x.1, fuel - 1)).sum(),
                    Def::New(t) => self.min_size(t, fuel - 1),
                    Def::Union { disc, vars, .. } => {
                        let d = if matches!(disc, Disc::I64 | Disc::U64) { 8 } else { 4 };
                        d + vars
                            .iter()
                            .map(|v| v.body.as_ref().map_or(0, |t| self.min_size(t, fuel - 1)))
                            .min()
                            .unwrap_or(0)
                    }
                }
            }
        }
    }
    /// The Rust type documented for `t`, inside module path `m`.
    pub fn rust(&self, t: &T, m: &str, bytes: &str) -> String {
        match t {
            T::U32 => "u32".into(),
            T::I32 => "i32".into(),
            T::U64 => "u64".into(),
            T::I64 => "i64".into(),
            T::F32 => "f32".into(),
            T::F64 => "f64".into(),
            T::Bool => "bool".into(),
            T::Str(_) => "String".into(),
            T::OpVar(_) | T::OpFix(_) => bytes.into(),
            T::Fix(t, n) => format!("[{}; {}]", self.rust(t, m, bytes), n),
            T::Var(t, _) => format!("Vec<{}>", self.rust(t, m, bytes)),
            T::Opt(t) => format!("Option<Box<{}>>", self.rust(t, m, bytes)),
            T::Ref(i) => self.rust_def(*i, m, bytes),
        }
    }
    pub fn rust_def(&self, i: usize, m: &str, bytes: &str) -> String {
        let d = &self.defs[i];
        if d.generic {
            format!("{}::{}<{}>", m, d.name, bytes)
        } else {
            format!("{}::{}", m, d.name)
        }
    }
    /// Largest number of fixed-array elements inlined into one value.
    pub fn inline_elems(&self, t: &T, fuel: u32) -> u64 {
        match t {
            T::Fix(t, n) => (*n as u64).saturating_mul(self.inline_elems(t, fuel).max(1)),
            T::Ref(i) if fuel > 0 => Sem::parts(&self.defs[*i].def)
                .iter()
                .map(|t| self.inline_elems(t, fuel - 1))
                .fold(1u64, |a, b| a.saturating_add(b)),
            _ => 1,
        }
    }
}

pub fn pad4(n: usize) -> usize {
    (n + 3) / 4 * 4
}
