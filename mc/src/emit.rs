//! Text of the Rust code that ties generated modules to the checker.
use crate::sem::*;
use std::fmt::Write;

const B: &str = "mcrt::bytes::Bytes";

fn variant_idents(vars: &[SVar]) -> Vec<String> {
    vars.iter().map(|v| v.name.clone()).collect()
}

/// `Tk` implementations for every type of the module and a `TypeOps` table.
pub fn bridge(idx: usize, sem: &Sem) -> String {
    let mut o = String::from("mcrt::errk!(xdr);\n");
    for (di, d) in sem.defs.iter().enumerate() {
        let ty = sem.rust_def(di, "xdr", B);
        let path = format!("xdr::{}", d.name);
        let _ = writeln!(o, "impl mcrt::tk::Tk for {} {{", ty);
        let mut put = String::new();
        let mut take = String::new();
        match &d.def {
            Def::Struct(f) => {
                let pats: Vec<String> = f.iter().enumerate().map(|(i, x)| format!("{}: f{}", safe_field(&x.0), i)).collect();
                let _ = write!(put, "let {} {{ {} }} = self;", path, pats.join(", "));
                for i in 0..f.len() {
                    let _ = write!(put, " mcrt::tk::Tk::put(f{}, o);", i);
                }
                let _ = write!(take, "{} {{ ", path);
                for x in f {
                    let _ = write!(take, "{}: mcrt::tk::Tk::take(i), ", safe_field(&x.0));
                }
                take.push('}');
            }
            Def::New(_) => {
                put.push_str("mcrt::tk::Tk::put(&self.0, o);");
                let _ = write!(take, "{}(mcrt::tk::Tk::take(i))", path);
            }
            Def::Enum(m) => {
                put.push_str("match self {");
                take.push_str("match i.g4(mcrt::tk::MEM) {");
                for (k, x) in m.iter().enumerate() {
                    let _ = write!(put, " {}::{} => o.mem({}),", path, x.0, k);
                    let _ = write!(take, " {} => {}::{},", k, path, x.0);
                }
                put.push('}');
                take.push_str(" _ => panic!(\"member\") }");
            }
            Def::Union { vars, .. } => {
                put.push_str("match self {");
                take.push_str("match i.g4(mcrt::tk::VAR) {");
                for (k, v) in vars.iter().enumerate() {
                    if v.body.is_some() {
                        let _ = write!(put, " {}::{}(x) => {{ o.var({}); mcrt::tk::Tk::put(x, o) }}", path, v.name, k);
                        let _ = write!(take, " {} => {}::{}(mcrt::tk::Tk::take(i)),", k, path, v.name);
                    } else {
                        let _ = write!(put, " {}::{} => o.var({}),", path, v.name, k);
                        let _ = write!(take, " {} => {}::{},", k, path, v.name);
                    }
                }
                put.push('}');
                take.push_str(" _ => panic!(\"variant\") }");
            }
        }
        let _ = writeln!(o, "fn put(&self, o: &mut mcrt::tk::Sink) {{ {} }}", put);
        let _ = writeln!(o, "fn take(i: &mut mcrt::tk::Source<'_>) -> Self {{ {} }}\n}}", take);
    }
    o.push_str("pub fn ops() -> Vec<mcrt::rt::TypeOps> { vec![\n");
    for di in 0..sem.defs.len() {
        let _ = writeln!(o, "mcrt::ops!(xdr, {}, {}, {}),", sem.rust_def(di, "xdr", B), idx, di);
    }
    o.push_str("] }\n");
    o
}

/// Code that compiles exactly if the module has the documented public shape
/// (all but the order of struct fields).
pub fn shape(sem: &Sem, extra_traits: &str) -> String {
    let mut o = String::new();
    let _ = writeln!(
        o,
        "fn need<T: Sized + std::convert::TryFrom<{b}, Error = xdr::Error> + for<'a> std::convert::TryFrom<&'a mut {b}, Error = xdr::Error> + xdr::WireSize {e}>() {{}}",
        b = B,
        e = extra_traits
    );
    o.push_str("fn err<T: std::error::Error + 'static>() {}\npub fn header() { err::<xdr::Error>(); }\n");
    let mut calls = String::new();
    for (di, d) in sem.defs.iter().enumerate() {
        let ty = sem.rust_def(di, "xdr", B);
        let path = format!("xdr::{}", d.name);
        let _ = writeln!(calls, "need::<{}>();", ty);
        // README: opaque-bearing types are generic over the byte container
        if d.generic {
            let _ = writeln!(o, "pub fn g{}(v: {}) -> {} {{ v }}", di, sem.rust_def(di, "xdr", "Vec<u8>"), sem.rust_def(di, "xdr", "Vec<u8>"));
        }
        match &d.def {
            Def::Struct(f) => {
                let names: Vec<String> = f.iter().map(|x| safe_field(&x.0)).collect();
                let args: Vec<String> = f.iter().enumerate().map(|(i, x)| format!("a{}: {}", i, sem.rust(&x.1, "xdr", B))).collect();
                let init: Vec<String> = names.iter().enumerate().map(|(i, x)| format!("{}: a{}", x, i)).collect();
                let _ = writeln!(o, "pub fn mk{}({}) -> {} {{ {} {{ {} }} }}", di, args.join(", "), ty, path, init.join(", "));
                let lets: Vec<String> =
                    f.iter().enumerate().map(|(i, x)| format!("let _: {} = f{};", sem.rust(&x.1, "xdr", B), i)).collect();
                let pat: Vec<String> = names.iter().enumerate().map(|(i, x)| format!("{}: f{}", x, i)).collect();
                let _ = writeln!(o, "pub fn un{}(v: {}) {{ let {} {{ {} }} = v; {} }}", di, ty, path, pat.join(", "), lets.join(" "));
            }
            Def::New(t) => {
                let r = sem.rust(t, "xdr", B);
                let _ = writeln!(o, "pub fn mk{}(a: {}) -> {} {{ {}(a) }}", di, r, ty, path);
                let _ = writeln!(o, "pub fn un{}(v: {}) {{ let {}(x) = v; let _: {} = x; }}", di, ty, path, r);
            }
            Def::Enum(m) => {
                let arms: Vec<String> = m.iter().map(|x| format!("{}::{} => {}", path, x.0, x.1)).collect();
                let _ = writeln!(o, "pub fn un{}(v: {}) -> i64 {{ match v {{ {} }} }}", di, ty, arms.join(", "));
                // the numeric value is part of the declaration
                for x in m {
                    let _ = writeln!(o, "const _: () = assert!({}::{} as i64 == {});", path, x.0, x.1);
                }
            }
            Def::Union { vars, .. } => {
                let mut arms = vec![];
                for (v, nm) in vars.iter().zip(variant_idents(vars)) {
                    match &v.body {
                        Some(t) => arms.push(format!("{}::{}(x) => {{ let _: {} = x; }}", path, nm, sem.rust(t, "xdr", B))),
                        None => arms.push(format!("{}::{} => {{}}", path, nm)),
                    }
                }
                let _ = writeln!(o, "pub fn un{}(v: {}) {{ match v {{ {} }} }}", di, ty, arms.join(", "));
            }
        }
    }
    for (c, v) in &sem.consts {
        let _ = writeln!(o, "const _: () = assert!(xdr::{} as u64 == {});", c, v);
    }
    let _ = writeln!(o, "pub fn check() {{ {} }}", calls);
    o
}
