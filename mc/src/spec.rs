//! The specification model: what a .x file declares, independent of layout.

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum TyRef {
    /// A primitive, with the exact spelling used in the text.
    Prim(&'static str),
    Named(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Size {
    Lit(u32),
    Const(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Arr {
    None,
    Fixed(Size),
    Var(Option<Size>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Field {
    pub ty: TyRef,
    pub name: String,
    pub arr: Arr,
    pub opt: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Arm {
    /// Labels of the group, in order; `None` is `default`.
    pub labels: Vec<Option<String>>,
    /// `None` is `void`.
    pub body: Option<(TyRef, String)>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Item {
    Const { name: String, val: String },
    Enum { name: String, members: Vec<(String, String)> },
    Struct { name: String, fields: Vec<Field> },
    Union { name: String, disc_ty: TyRef, disc: String, arms: Vec<Arm> },
    Typedef { ty: TyRef, name: String, arr: Arr },
}

impl Item {
    pub fn name(&self) -> &str {
        match self {
            Item::Const { name, .. }
            | Item::Enum { name, .. }
            | Item::Struct { name, .. }
            | Item::Union { name, .. }
            | Item::Typedef { name, .. } => name,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Spec {
    /// Human readable description of the family and the parameters.
    pub label: String,
    pub items: Vec<Item>,
}

// ---- builders -------------------------------------------------------------

pub fn p(s: &'static str) -> TyRef {
    TyRef::Prim(s)
}
pub fn n(s: &str) -> TyRef {
    TyRef::Named(s.to_string())
}
pub fn f(ty: TyRef, name: &str) -> Field {
    Field { ty, name: name.into(), arr: Arr::None, opt: false }
}
pub fn fa(ty: TyRef, name: &str, arr: Arr) -> Field {
    Field { ty, name: name.into(), arr, opt: false }
}
pub fn fo(ty: TyRef, name: &str) -> Field {
    Field { ty, name: name.into(), arr: Arr::None, opt: true }
}
pub fn var() -> Arr {
    Arr::Var(None)
}
pub fn varn(k: u32) -> Arr {
    Arr::Var(Some(Size::Lit(k)))
}
pub fn varc(c: &str) -> Arr {
    Arr::Var(Some(Size::Const(c.into())))
}
pub fn fix(k: u32) -> Arr {
    Arr::Fixed(Size::Lit(k))
}
pub fn fixc(c: &str) -> Arr {
    Arr::Fixed(Size::Const(c.into()))
}
pub fn strct(name: &str, fields: Vec<Field>) -> Item {
    Item::Struct { name: name.into(), fields }
}
pub fn tdef(ty: TyRef, name: &str, arr: Arr) -> Item {
    Item::Typedef { ty, name: name.into(), arr }
}
pub fn cnst(name: &str, val: &str) -> Item {
    Item::Const { name: name.into(), val: val.into() }
}
pub fn enm(name: &str, members: &[(&str, &str)]) -> Item {
    Item::Enum {
        name: name.into(),
        members: members.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(),
    }
}
pub fn uni(name: &str, disc_ty: TyRef, disc: &str, arms: Vec<Arm>) -> Item {
    Item::Union { name: name.into(), disc_ty, disc: disc.into(), arms }
}
pub fn arm(labels: &[&str], body: Option<(TyRef, &str)>) -> Arm {
    Arm {
        labels: labels
            .iter()
            .map(|l| if *l == "default" { None } else { Some(l.to_string()) })
            .collect(),
        body: body.map(|(t, s)| (t, s.to_string())),
    }
}

// ---- printing ---------------------------------------------------------------

fn ty_toks(t: &TyRef, o: &mut Vec<String>) {
    match t {
        TyRef::Prim(s) => o.extend(s.split(' ').map(|x| x.to_string())),
        TyRef::Named(s) => o.push(s.clone()),
    }
}
fn size_tok(s: &Size) -> String {
    match s {
        Size::Lit(n) => n.to_string(),
        Size::Const(c) => c.clone(),
    }
}
fn arr_toks(a: &Arr, o: &mut Vec<String>) {
    match a {
        Arr::None => {}
        Arr::Fixed(s) => o.extend(["[".into(), size_tok(s), "]".into()]),
        Arr::Var(None) => o.extend(["<".into(), ">".into()]),
        Arr::Var(Some(s)) => o.extend(["<".into(), size_tok(s), ">".into()]),
    }
}
fn pt(s: &str) -> String {
    s.to_string()
}

impl Item {
    pub fn tokens(&self) -> Vec<String> {
        let mut o = vec![];
        match self {
            Item::Const { name, val } => {
                o.extend([pt("const"), name.clone(), pt("="), val.clone(), pt(";")])
            }
            Item::Enum { name, members } => {
                o.extend([pt("enum"), name.clone(), pt("{")]);
                for (i, (m, v)) in members.iter().enumerate() {
                    if i > 0 {
                        o.push(pt(","));
                    }
                    o.extend([m.clone(), pt("="), v.clone()]);
                }
                o.extend([pt("}"), pt(";")]);
            }
            Item::Struct { name, fields } => {
                o.extend([pt("struct"), name.clone(), pt("{")]);
                for f in fields {
                    ty_toks(&f.ty, &mut o);
                    if f.opt {
                        o.push(pt("*"));
                    }
                    o.push(f.name.clone());
                    arr_toks(&f.arr, &mut o);
                    o.push(pt(";"));
                }
                o.extend([pt("}"), pt(";")]);
            }
            Item::Union { name, disc_ty, disc, arms } => {
                o.extend([pt("union"), name.clone(), pt("switch"), pt("(")]);
                ty_toks(disc_ty, &mut o);
                o.extend([disc.clone(), pt(")"), pt("{")]);
                for a in arms {
                    for l in &a.labels {
                        match l {
                            Some(l) => o.extend([pt("case"), l.clone(), pt(":")]),
                            None => o.extend([pt("default"), pt(":")]),
                        }
                    }
                    match &a.body {
                        None => o.extend([pt("void"), pt(";")]),
                        Some((t, nm)) => {
                            ty_toks(t, &mut o);
                            o.extend([nm.clone(), pt(";")]);
                        }
                    }
                }
                o.extend([pt("}"), pt(";")]);
            }
            Item::Typedef { ty, name, arr } => {
                o.push(pt("typedef"));
                ty_toks(ty, &mut o);
                o.push(name.clone());
                arr_toks(arr, &mut o);
                o.push(pt(";"));
            }
        }
        o
    }
}

pub fn is_word(t: &str) -> bool {
    t.chars().next().map_or(false, |c| c.is_ascii_alphanumeric() || c == '_')
}

/// True if some separator is required between the two tokens.
pub fn needs_sep(a: &str, b: &str) -> bool {
    (is_word(a) && is_word(b))
        // the grammar's primitive tokens end in mandatory whitespace
        || (matches!(a, "int" | "hyper" | "float" | "double" | "string" | "opaque") && b == "*")
}

/// Conventional layout: one statement per line.
pub fn layout(tokens: &[String]) -> String {
    let mut s = String::new();
    for (i, t) in tokens.iter().enumerate() {
        s.push_str(t);
        if i + 1 == tokens.len() {
            break;
        }
        if t == ";" || t == "{" {
            s.push('\n');
        } else if needs_sep(t, &tokens[i + 1]) || t == "=" || tokens[i + 1] == "=" || t == ":" || t == "," {
            s.push(' ');
        }
    }
    s.push('\n');
    s
}

impl Spec {
    pub fn new(label: impl Into<String>, items: Vec<Item>) -> Spec {
        Spec { label: label.into(), items }
    }
    pub fn tokens(&self) -> Vec<String> {
        self.items.iter().flat_map(|i| i.tokens()).collect()
    }
    pub fn text(&self) -> String {
        self.items.iter().map(|i| layout(&i.tokens())).collect()
    }
}
