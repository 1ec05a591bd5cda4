//! C01..C06, C08, C09: exploration of generated decoders; C07: shape.
use crate::pipeline::*;
use mcrt::report::*;
use mcrt::sem::*;
use std::process::Command;
use std::time::Duration;

fn first_lines(s: &str, n: usize) -> String {
    s.lines().take(n).collect::<Vec<_>>().join("\n")
}

fn replay_of(p: &Prepared, set: &str, tier: &str, v: &Viol) -> String {
    format!(
        "mode: wire\nset: {}\nset_tier: {}\nspec: {}\ndef: {}\ntype: {}\nlabel: {}\ninput: {}\n\nspecification text:\n{}",
        set,
        tier,
        v.spec,
        v.def,
        p.sems[v.spec].defs[v.def].name,
        p.specs[v.spec].label,
        v.input,
        p.specs[v.spec].text()
    )
}

pub fn check(prop: &str, tier: &str) -> Report {
    let mut r = Report::new(prop, tier);
    let set = prop;
    let p = prepare(prop, set, tier, None, &|i, s| mcrt::emit::bridge(i, s), None);
    r.add("specifications", p.specs.len() as u64);
    r.add("types_declared", p.sems.iter().map(|s| s.defs.len() as u64).sum());
    let t_gen = r.t0.elapsed().as_secs_f64();
    let n = if tier == "thorough" { 64 } else { 24 };
    let c = compile(&p.dir, &p.units(), n, Emit::Exe { opt: 0 }, "2018", &ops_main);
    let t_comp = r.t0.elapsed().as_secs_f64();

    // specifications the generator did not turn into a usable module
    let mut unusable = 0u64;
    for (i, g) in p.gens.iter().enumerate() {
        let why = match g {
            Gen::Ok(_) => match c.failed.get(&i) {
                None => continue,
                Some(Fail::Module(m)) => Some(("the generated module does not compile", first_lines(m, 12))),
                Some(Fail::Shape(m)) => {
                    // the API differs from the documented one: C07 decides that
                    if std::env::var("MC_DEBUG").is_ok() {
                        eprintln!("shape {}: {}", p.specs[i].label, first_lines(m, 8));
                    }
                    None
                }
            },
            Gen::Err(e) => Some(("generate returned Err for a supported specification", e.clone())),
            Gen::Panic(e) => Some(("generate panicked for a supported specification", e.clone())),
        };
        unusable += 1;
        let mine = match prop {
            "C01" => true,
            // without a decoder for the declarator nothing is enforced
            "C05" => p.specs[i].label.starts_with("B ") && !matches!(g, Gen::Ok(_)),
            "C06" => p.specs[i].label.starts_with("P4") && !matches!(g, Gen::Ok(_)),
            _ => false,
        };
        if let (true, Some((k, d))) = (mine, why) {
            r.violate(
                format!("{}|{}", p.specs[i].label, k),
                format!("{}: spec [{}]: {}", k, p.specs[i].label, d),
                format!("mode: gen\n\nspecification text:\n{}", p.specs[i].text()),
            );
        }
    }
    r.add("specifications_without_usable_module", unusable);
    let limit = Duration::from_secs(if tier == "thorough" { 6 * 3600 } else { 600 });
    let ro = run_shards(&c.shards, prop, tier, set, limit, &|what, sig, err| {
        let died = |s: &str| Crash::Violation(s.to_string());
        match prop {
            "C01" => died("decoding a valid encoding killed the process"),
            "C04" => died("decoder killed the process"),
            "C02" if what == 3 => died("wire_size() killed the process"),
            "C05" | "C06" => died("decoder killed the process instead of returning the error"),
            "C09" if sig == 6 || err.contains("memory allocation") => died("allocation not bounded by the input"),
            _ => Crash::Skip,
        }
    });
    if std::env::var("MC_DEBUG").is_ok() {
        let mut t = ro.times.clone();
        t.sort_by(|a, b| b.cmp(a));
        eprintln!("cpu {} s", t.iter().map(|x| x.0).sum::<u64>() / 1000);
        for (ms, s, d) in t.iter().take(25) {
            eprintln!("{} ms [{}] {}", ms, p.specs[*s].label, p.sems[*s].defs[*d].name);
        }
    }
    let t_run = r.t0.elapsed().as_secs_f64();
    if !ro.errors.is_empty() {
        for e in &ro.errors {
            eprintln!("harness error: {}", e);
        }
        std::process::exit(2);
    }
    let g = |k: &str| ro.stats.get(k).copied().unwrap_or(0);
    r.evaluations = g("executions");
    r.states = g("states");
    r.transitions = g("transitions");
    r.traces = g("accepted") + g("rejected");
    r.add("types_explored", ro.types.len() as u64);
    r.add("types_with_complete_choice_tree", g("complete"));
    r.add("smallest_completed_deviation_level_otherwise", if ro.min_levels == 99 { 0 } else { ro.min_levels });
    r.add("values_around_the_other_base_schedules", g("varied"));
    r.add("distinct_observed_outcomes", g("outcomes"));
    r.add("accepted", g("accepted"));
    r.add("rejected", g("rejected"));
    r.add("types_skipped_after_crash", ro.skipped.len() as u64);
    r.add("shards_cut_by_time", ro.timeouts);
    r.notes.insert("seconds".into(), format!("generate {:.1}, compile {:.1}, run {:.1}", t_gen, t_comp - t_gen, t_run - t_comp));
    if !ro.skipped.is_empty() {
        r.notes.insert("skipped".into(), ro.skipped.join("; "));
    }
    r.samples = ro.samples.iter().take(8).cloned().collect();
    for v in &ro.viols {
        let nm = &p.sems[v.spec].defs[v.def].name;
        r.violate(
            format!("{}|{}|{}", p.specs[v.spec].label, nm, v.kind),
            format!(
                "{}: type {} of [{}], input {}: {}",
                v.kind,
                nm,
                p.specs[v.spec].label,
                if v.input.len() > 400 { format!("{}..({} bytes)", &v.input[..400], v.input.len() / 2) } else { v.input.clone() },
                v.detail
            ),
            replay_of(&p, set, tier, v),
        );
    }
    if (prop == "C04" || prop == "C01") && r.violations.is_empty() {
        deep_findings(&mut r, &p, &c, set, tier);
    }
    r.rule = "state = distinct (type, input bytes) presented to the generated decoders; transition = one choice (value alternative, mutation, suffix) taken by the explorer; every execution runs the real generated code and is compared with the reference model".into();
    r.assumptions = vec![
        "specifications are drawn from the bounded universe described in DESIGN.md".into(),
        "values beyond the completed deviation levels are not enumerated".into(),
        "rustc and the bytes crate are trusted".into(),
    ];
    r
}

/// Nesting far beyond what the stack can hold.
fn deep_findings(r: &mut Report, p: &Prepared, c: &Compiled, set: &str, tier: &str) {
    for (label, ty) in [("P6 list", "node"), ("P6 generic list", "node"), ("P6 rose tree", "tree"), ("P6 recursion through a union and a typedef'd array", "val")] {
        let (si, di) = match p.specs.iter().position(|s| s.label == label) {
            Some(si) => (si, p.sems[si].defs.iter().position(|d| d.name == ty).unwrap()),
            None => continue,
        };
        let exe = match c.shards.iter().find(|s| s.1.contains(&si)) {
            Some(s) => &s.0,
            None => continue,
        };
        for depth in [3_000u32, 3_000_000] {
            let mut cmd = Command::new(exe);
            cmd.args(["deep", &si.to_string(), &di.to_string(), &depth.to_string(), set, tier]);
            r.evaluations += 1;
            match wait(cmd, Duration::from_secs(60)) {
                Some((s, _, _)) if s.success() => {}
                Some((_, _, err)) if err.contains("overflowed its stack") => {
                    r.violate(
                        format!("stack-overflow:{}:{}:depth={}", label, ty, depth).replace(' ', "_"),
                        format!("decoding a chain nested {} deep of type {} [{}] overflows an 8 MB stack", depth, ty, label),
                        format!("mode: deep\nset: {}\nset_tier: {}\nspec: {}\ndef: {}\ndepth: {}\n\nspecification text:\n{}", set, tier, si, di, depth, p.specs[si].text()),
                    );
                }
                Some((s, _, err)) => {
                    r.violate(
                        format!("deep:{}:{}:depth={}", label, ty, depth).replace(' ', "_"),
                        format!("decoding a chain nested {} deep of type {} [{}]: {} {}", depth, ty, label, s, first_lines(&err, 2)),
                        format!("mode: deep\nset: {}\nset_tier: {}\nspec: {}\ndef: {}\ndepth: {}\n\nspecification text:\n{}", set, tier, si, di, depth, p.specs[si].text()),
                    );
                }
                None => {
                    r.violate(
                        format!("deep-timeout:{}:{}:depth={}", label, ty, depth).replace(' ', "_"),
                        format!("decoding a chain nested {} deep of type {} [{}] did not return within 60 s", depth, ty, label),
                        format!("mode: deep\nset: {}\nset_tier: {}\nspec: {}\ndef: {}\ndepth: {}\n\nspecification text:\n{}", set, tier, si, di, depth, p.specs[si].text()),
                    );
                }
            }
        }
    }
}

// ---- C07 --------------------------------------------------------------------------

pub fn c07(tier: &str) -> Report {
    let mut r = Report::new("C07", tier);
    // (name, line, traits it gives, edition, set of specifications)
    let mut derives: Vec<(&str, Option<&'static str>, &str, &str, &str)> = vec![
        ("default derive", None, "+ std::fmt::Debug + PartialEq", "2018", "C07"),
        ("derive with Clone", Some("#[derive(Debug, PartialEq, Clone)]"), "+ std::fmt::Debug + PartialEq + Clone", "2018", "C07"),
    ];
    let wide = if tier == "thorough" { "C07" } else { "C07d" };
    derives.push(("derive of PartialEq alone", Some("#[derive(PartialEq)]"), "+ PartialEq", "2018", wide));
    derives.push(("two derive lines", Some("#[derive(Debug)]\n#[derive(Clone, PartialEq, PartialOrd)]"), "+ std::fmt::Debug + PartialEq + Clone + PartialOrd", "2021", wide));
    derives.push(("default derive, edition 2021", None, "+ std::fmt::Debug + PartialEq", "2021", wide));
    derives.push(("no Debug first", Some("#[derive(Clone, PartialEq, Debug)]"), "+ std::fmt::Debug + PartialEq + Clone", "2018", "C07d"));
    derives.push(("derives in three attributes on one line", Some("#[derive(Debug)] #[derive(PartialEq)] #[derive(Clone)]"), "+ std::fmt::Debug + PartialEq + Clone", "2018", "C07d"));
    derives.push(("derive and other attributes", Some("#[allow(missing_docs)]\n#[derive(Debug, PartialEq)]\n#[must_use]\n#[derive(Clone)]"), "+ std::fmt::Debug + PartialEq + Clone", "2018", "C07d"));
    derives.push(("derive with paths, comments and blank lines", Some("/// documented {} {{}} %s\n\n  #[derive(\n    std::fmt::Debug, // a\n    ::std::cmp::PartialEq, /* b */\n    std::clone::Clone,\n)]\n// c"), "+ std::fmt::Debug + PartialEq + Clone", "2018", "C07d"));
    derives.push(("conditional derive", Some("#[cfg_attr(all(), derive(Debug, PartialEq, Clone))]\r\n"), "+ std::fmt::Debug + PartialEq + Clone", "2018", "C07d"));
    let mut reported = std::collections::BTreeSet::new();
    for (name, derive, traits, edition, set) in derives {
        let traits = traits.to_string();
        let p = prepare("C07", set, tier, derive, &|_, s| mcrt::emit::shape(s, &traits), None);
        let n = if tier == "thorough" { 64 } else { 24 };
        let units = p.units();
        let c = compile(&p.dir, &units, n, Emit::Metadata, edition, &shape_main);
        for (i, f) in &c.failed {
            let (k, m) = match f {
                Fail::Module(m) => ("the generated module does not compile", m),
                Fail::Shape(m) => ("the generated module does not have the documented shape", m),
            };
            if !reported.insert((set, *i)) {
                continue;
            }
            r.violate(
                format!("{}|{}", p.specs[*i].label, k),
                format!("{} ({}): spec [{}]:\n{}", k, name, p.specs[*i].label, first_lines(m, 14)),
                format!("mode: shape\nset: {}\nset_tier: {}\nspec: {}\nderive: {}\n\nspecification text:\n{}", set, tier, i, name, p.specs[*i].text()),
            );
        }
        // one public item per declaration, field order
        let bad = par(units.len(), |k| {
            let i = units[k].0;
            if let Gen::Ok(t) = &p.gens[i] {
                textual(&p.sems[i], t).map(|m| (i, m))
            } else {
                None
            }
        });
        for (i, m) in bad.into_iter().flatten() {
            if reported.insert((set, i)) {
                r.violate(
                    format!("{}|shape", p.specs[i].label),
                    format!("the generated module does not have the documented shape ({}): spec [{}]: {}", name, p.specs[i].label, m),
                    format!("mode: shape\nset: {}\nset_tier: {}\nspec: {}\nderive: {}\n\nspecification text:\n{}", set, tier, i, name, p.specs[i].text()),
                );
            }
        }
        let types: u64 = units.iter().map(|u| p.sems[u.0].defs.len() as u64).sum();
        r.states += units.len() as u64;
        r.transitions += types;
        r.traces += (units.len() - c.failed.len()) as u64;
        r.evaluations += types;
        r.add("modules_compiled", units.len() as u64);
        r.add("type_shapes_checked", types);
        r.add("specifications_rejected_by_generator", (p.specs.len() - units.len()) as u64);
        r.add("derive_lines", 1);
        if r.samples.is_empty() {
            for k in [3usize, units.len() / 2, units.len() - 1] {
                if let Some(u) = units.get(k) {
                    r.samples.push(format!("[{}] {}", p.specs[u.0].label, first_lines(&p.specs[u.0].text(), 8)));
                }
            }
        }
    }
    r.rule = "state = (specification, derive line) whose generated module was type-checked together with a shape witness derived from the specification model (constructors, exhaustive destructuring and matches, trait obligations, constant assertions); transition = one declared type checked that way".into();
    r.assumptions = vec!["specifications are drawn from the bounded universe described in DESIGN.md".into(), "rustc decides compilation".into()];
    r
}

/// What the type checker cannot see: order of fields, superfluous items.
fn textual(sem: &Sem, text: &str) -> Option<String> {
    let items = match mcrt::items::items(text) {
        Ok(i) => i,
        Err(e) => return Some(e),
    };
    for d in &sem.defs {
        let of: Vec<_> = items.iter().filter(|i| i.kind().1 == d.name && matches!(i.kind().0.as_str(), "struct" | "enum" | "type" | "union")).collect();
        if of.len() != 1 {
            return Some(format!("{} items define {}", of.len(), d.name));
        }
        if let Def::Struct(f) = &d.def {
            let want: Vec<String> = f.iter().map(|x| safe_field(&x.0)).collect();
            let got = of[0].fields();
            if got != want {
                return Some(format!("struct {} has fields {:?}, declared {:?}", d.name, got, want));
            }
        }
    }
    None
}

// ---- replay -------------------------------------------------------------------------

pub fn replay_wire(h: &std::collections::BTreeMap<String, String>) -> i32 {
    let g = |k: &str| h.get(k).cloned().unwrap_or_default();
    let (set, tier, spec, def) = (g("set"), g("set_tier"), g("spec").parse::<usize>().unwrap(), g("def").parse::<usize>().unwrap_or(0));
    let p = prepare("replay", &set, &tier, None, &|i, s| mcrt::emit::bridge(i, s), Some(spec));
    println!("specification [{}]\n{}", p.specs[spec].label, p.specs[spec].text());
    match &p.gens[spec] {
        Gen::Ok(_) => {}
        x => {
            println!("generate: {:?}", x);
            return 1;
        }
    }
    let c = compile(&p.dir, &p.units(), 1, Emit::Exe { opt: 0 }, "2018", &ops_main);
    if let Some(f) = c.failed.get(&spec) {
        println!("{:?}", f);
        return 1;
    }
    let mut cmd = Command::new(&c.shards[0].0);
    if g("mode") == "deep" {
        cmd.args(["deep", &spec.to_string(), &def.to_string(), &g("depth"), &set, &tier]);
    } else {
        cmd.args(["one", &spec.to_string(), &def.to_string(), &g("input"), &set, &tier]);
    }
    match wait(cmd, Duration::from_secs(120)) {
        Some((s, o, e)) => {
            println!("{}{}status: {}", o, e, s);
            0
        }
        None => {
            println!("no answer within 120 s");
            1
        }
    }
}
