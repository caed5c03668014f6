//! Declarations with a contradiction must not compile; without it they do.
use crate::ast::*;
use crate::check::Failure;
use crate::driver::*;
use crate::emit::{chain_ty_at, decl_rs, program_rs};
use crate::gen::{base, Gen, Prof, Rng};
use crate::spec::{report, write_evidence};
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

const RULE: &str = "valid declarations, each with one contradiction added at one place; non-trivial: a distinct changed declaration whose unchanged form compiles";

/// a changed declaration: kind of the contradiction, where, source of the whole program
pub struct Mutant {
    pub kind: &'static str,
    pub at: String,
    pub src: String,
}
const TOP_ONLY: [&str; 5] = ["DebugDerive", "Exact", "ExtraArgs(zz: u8)", "GenericErrors", "InputName(zz)"];
const FIELD_ONLY: [&str; 20] = [
    "AlignAfter(4)", "AlignBefore(4)", "Cond(true)", "If(true)", "Count(1)", "ErrorIf(false)", "Ignore", "Default", "Into", "LengthCount(u8::parse)",
    "Map(|x: u8| x)", "Move(0)", "MoveAbs(0)", "Parse(u8::parse)", "SkipAfter(0)", "SkipBefore(0)", "Tag(b\"x\")", "Take(1)", "Value(1)", "Verify(true)",
];
const ARG_FIELD: [&str; 19] = [
    "AlignAfter", "AlignBefore", "Cond", "If", "Count", "ErrorIf", "LengthCount", "Map", "Move", "MoveAbs", "Parse", "SkipAfter", "SkipBefore", "Tag", "Take", "Value", "Verify", "SetEndian",
    "PreExec",
];
const ARG_TOP: [&str; 6] = ["PreExec", "PostExec", "SetEndian", "Selector", "InputName", "ExtraArgs"];
const UNKNOWN: [&str; 16] = [
    "Foo", "bigendian", "Repeat", "BigEndiann", "Counts(1)", "Foo = \"1\"", "Cond_(true)", "littleendian", "Skip(1)", "Align = \"4\"", "Endian(Big)", "debug", "parse(u8::parse)", "Length(3)",
    "Selectors(1)", "nom",
];
const MALFORMED: [&str; 8] = ["#[nom]", "#[nom = \"Debug\"]", "#[nom(123)]", "#[nom(\"Debug\")]", "#[nom(Complete Debug)]", "#[nom(,)]", "#[nom(nom::Complete)]", "#[nom(Complete, = 3)]"];

fn at(a: Attr, split: bool) -> At {
    At { a, style: 1, alias: false, split }
}
fn raw(s: impl Into<String>, split: bool) -> At {
    at(Attr::RawText(s.into()), split)
}
/// all fields of a declaration
fn field_mut(d: &mut Decl, k: usize) -> &mut Field {
    let mut n = 0;
    match &mut d.kind {
        Kind::Struct(_, f) => &mut f[k],
        Kind::SelEnum(_, v) => {
            for v in v.iter_mut() {
                if k < n + v.fields.len() {
                    return &mut v.fields[k - n];
                }
                n += v.fields.len();
            }
            panic!("no field {}", k)
        }
        _ => panic!("no field {}", k),
    }
}
fn has_leaf(f: &Field) -> bool {
    f.attrs.iter().any(|a| matches!(a.a, Attr::Tag(_) | Attr::Take(_) | Attr::Value(_) | Attr::Parse(_) | Attr::Ignore))
}
fn has_phantom(t: &Ty) -> bool {
    match t {
        Ty::Phantom(_) => true,
        Ty::Opt(t) | Ty::Vec(t) | Ty::Arr(t, _) => has_phantom(t),
        Ty::Pair(a, b) => has_phantom(a) || has_phantom(b),
        _ => false,
    }
}
/// positions of the list that are still looked at for the parser
fn chain(f: &Field) -> Vec<usize> {
    let leaf = |a: &At| matches!(a.a, Attr::Tag(_) | Attr::Take(_) | Attr::Value(_) | Attr::Parse(_) | Attr::Ignore);
    let n = f.attrs.iter().position(leaf).unwrap_or(f.attrs.len());
    (0..=n).collect()
}
/// put an attribute at the start of a list, or anywhere
fn put(v: &mut Vec<At>, a: At, k: usize) {
    if let Some(x) = v.get_mut(k) {
        if a.split {
            x.split = true;
        }
    }
    v.insert(k, a);
}
/// texts that are not an argument of the attribute
fn bad_arg(name: &str, r: &mut Rng) -> String {
    let bad: &[&str] = match name {
        "PreExec" | "PostExec" => &["let x =", "let = 3;", "}", "let x 3;", ") ("],
        "Selector" => &["1 if", "| if", "1 ..= ..= 2", "", "Foo(", "1 |"],
        "ExtraArgs" => return format!("ExtraArgs = {:?}", "zz: u8"),
        _ => &["1 +", "x ==", "(", "", "let x", "1 2", "|x| ", ")", "a b", "fn"],
    };
    match r.below(6) {
        0 => format!("{} = {}", name, r.pick(&["5", "'c'", "b\"3\"", "true", "1.5", "x"])),
        _ => format!("{} = {:?}", name, r.pick(bad)),
    }
}

/// a misspelling of a real attribute, with an argument that the real one would accept there
fn misspelled(r: &mut Rng, top: bool) -> String {
    let real: &[&str] = if top {
        &["Complete", "DebugDerive", "PreExec(let _ = 0;)", "PostExec(let _ = 0;)", "PreExec = \"let _ = 0;\""]
    } else {
        &[
            "Complete", "SkipBefore(0)", "SkipAfter(0)", "AlignBefore(1)", "AlignAfter(1)", "Move(0)", "ErrorIf(false)", "PreExec(let _ = 0;)", "PostExec(let _ = 0;)", "SkipBefore = \"0\"",
            "Value(Default::default())", "Ignore", "Default", "Map(|x| x)", "Parse(nom::combinator::fail())",
        ]
    };
    let all = [
        "AlignAfter", "AlignBefore", "BigEndian", "Complete", "Cond", "Count", "Debug", "DebugDerive", "Default", "ErrorIf", "Exact", "ExtraArgs", "GenericErrors", "If", "Ignore", "InputName",
        "Into", "LengthCount", "LittleEndian", "Map", "Move", "MoveAbs", "Parse", "PostExec", "PreExec", "Selector", "SetEndian", "SkipAfter", "SkipBefore", "Tag", "Take", "Value", "Verify",
    ];
    loop {
        let s = *r.pick(real);
        let n = s.find(|c: char| !c.is_alphanumeric()).unwrap_or(s.len());
        let (name, arg) = s.split_at(n);
        let snake: String = name.chars().enumerate().map(|(k, c)| if k > 0 && c.is_uppercase() { format!("_{}", c.to_ascii_lowercase()) } else { c.to_ascii_lowercase().to_string() }).collect();
        let k = r.below(n);
        let t = match r.below(9) {
            0 => name.to_ascii_lowercase(),
            1 => name.to_ascii_uppercase(),
            2 => name[..1].to_ascii_lowercase() + &name[1..],
            3 => snake,
            4 => format!("{}s", name),
            5 => name[..n - 1].to_string(),
            6 => format!("{}{}{}", &name[..k], &name[k..k + 1], &name[k..]),
            7 => format!("{}{}", r.pick(&["_", "Nom", "No", "r#"]), name),
            _ => format!("{}{}", name, r.pick(&["_", "2", "Attr", "Be", "ed"])),
        };
        if !t.starts_with("r#") && !all.contains(&t.as_str()) && t != "if" {
            return t + arg;
        }
    }
}

/// one contradiction of a random kind in a random declaration, if the chosen kind applies
pub fn mutant(p: &Program, r: &mut Rng) -> Option<Mutant> {
    let cand: Vec<usize> = (0..p.decls.len()).filter(|k| !matches!(p.decls[*k].kind, Kind::Direct(_))).collect();
    if cand.is_empty() {
        return None;
    }
    let di = *r.pick(&cand);
    let d = &p.decls[di];
    let nf = d.fields().len();
    let fieldless = matches!(d.kind, Kind::Fieldless(..));
    let mut q = p.clone();
    let split = r.p(50);
    let kind = r.below(25);
    let ends = ["BigEndian", "LittleEndian"];
    let set = "SetEndian(nom::number::Endianness::Big)";
    // a place in the top-level list
    let top = |q: &mut Program, s: String, r: &mut Rng| {
        let n = r.below(q.decls[di].top.len() + 1);
        put(&mut q.decls[di].top, raw(s, r.p(50)), n);
    };
    let fs = d.fields();
    let done = |kind: &'static str, at: String, q: Program| Some(Mutant { kind, at, src: program_rs(&q, 0) });
    match kind {
        0 => {
            // two orders on the object, or against the derive
            q.decls[di].top.retain(|a| !matches!(a.a, Attr::Be | Attr::Le | Attr::SetEndian(_)));
            let a = r.below(2);
            let what = if r.p(50) {
                q.decls[di].derive = Derive::Nom;
                top(&mut q, ends[a].into(), r);
                top(&mut q, ends[1 - a].into(), r);
                "object"
            } else {
                q.decls[di].derive = if a == 0 { Derive::NomBE } else { Derive::NomLE };
                top(&mut q, ends[1 - a].into(), r);
                "derive"
            };
            done("two byte orders", format!("{} of {}", what, d.name), q)
        }
        1 => {
            q.decls[di].top.retain(|a| !matches!(a.a, Attr::Be | Attr::Le | Attr::SetEndian(_)));
            let a = r.below(2);
            let what = if r.p(50) {
                q.decls[di].derive = Derive::Nom;
                top(&mut q, ends[a].into(), r);
                "object"
            } else {
                q.decls[di].derive = if a == 0 { Derive::NomBE } else { Derive::NomLE };
                "derive"
            };
            top(&mut q, set.into(), r);
            done("SetEndian with a byte order", format!("{} of {}", what, d.name), q)
        }
        2 | 3 => {
            let ks: Vec<usize> = (0..nf).filter(|k| !has_leaf(fs[*k]) && !has_phantom(&fs[*k].ty)).collect();
            if ks.is_empty() {
                return None;
            }
            let k = *r.pick(&ks);
            let f = field_mut(&mut q.decls[di], k);
            f.attrs.retain(|a| !matches!(a.a, Attr::Be | Attr::Le | Attr::SetEndian(_)));
            let a = r.below(2);
            let mut two = vec![ends[a].to_string(), if kind == 2 { ends[1 - a].to_string() } else { set.to_string() }];
            if r.p(50) {
                two.reverse();
            }
            for t in two {
                let n = r.below(f.attrs.len() + 1);
                put(&mut f.attrs, raw(t, r.p(40)), n);
            }
            done(if kind == 2 { "two byte orders on a field" } else { "SetEndian and a byte order on a field" }, format!("{}.{}", d.name, k), q)
        }
        4 => {
            let s = if r.p(50) { misspelled(r, true) } else { r.pick(&UNKNOWN).to_string() };
            top(&mut q, s, r);
            done("unknown attribute", format!("object {}", d.name), q)
        }
        5 if nf > 0 => {
            let k = r.below(nf);
            let f = field_mut(&mut q.decls[di], k);
            let n = r.below(f.attrs.len() + 1);
            let s = if r.p(60) { misspelled(r, false) } else { r.pick(&UNKNOWN).to_string() };
            put(&mut f.attrs, raw(s, split), n);
            done("unknown attribute", format!("{}.{}", d.name, k), q)
        }
        6 => {
            let Kind::SelEnum(_, v) = &mut q.decls[di].kind else { return None };
            let k = r.below(v.len());
            let n = r.below(v[k].attrs.len() + 1);
            let (what, s) = match r.below(8) {
                0..=3 => ("unknown attribute", if r.p(60) { misspelled(r, false) } else { r.pick(&UNKNOWN).to_string() }),
                4 | 5 => ("attribute of objects on a variant", r.pick(&TOP_ONLY).to_string()),
                6 => ("missing argument", r.pick(&ARG_FIELD).to_string()),
                _ => {
                    let name = *r.pick(&ARG_FIELD);
                    ("unparsable argument", bad_arg(name, r))
                }
            };
            put(&mut v[k].attrs, raw(s, split), n);
            done(what, format!("variant {} of {}", k, d.name), q)
        }
        7 | 8 => {
            let s = r.pick(&FIELD_ONLY).to_string();
            top(&mut q, s, r);
            done("attribute of fields on an object", d.name.clone(), q)
        }
        9 | 10 if nf > 0 => {
            let k = r.below(nf);
            let f = field_mut(&mut q.decls[di], k);
            let n = r.below(f.attrs.len() + 1);
            put(&mut f.attrs, raw(*r.pick(&TOP_ONLY), split), n);
            done("attribute of objects on a field", format!("{}.{}", d.name, k), q)
        }
        11 if nf > 0 => {
            let k = r.below(nf);
            let f = field_mut(&mut q.decls[di], k);
            let n = r.below(f.attrs.len() + 1);
            put(&mut f.attrs, raw(*r.pick(&ARG_FIELD), split), n);
            done("missing argument", format!("{}.{}", d.name, k), q)
        }
        12 => {
            let s = r.pick(&ARG_TOP).to_string();
            top(&mut q, s, r);
            done("missing argument", format!("object {}", d.name), q)
        }
        13 if nf > 0 => {
            let k = r.below(nf);
            let f = field_mut(&mut q.decls[di], k);
            let n = r.below(f.attrs.len() + 1);
            let name = *r.pick(&ARG_FIELD);
            let s = bad_arg(name, r);
            put(&mut f.attrs, raw(s, split), n);
            done("unparsable argument", format!("{}.{}", d.name, k), q)
        }
        14 => {
            let name = *r.pick(&ARG_TOP);
            let s = bad_arg(name, r);
            top(&mut q, s, r);
            done("unparsable argument", format!("object {}", d.name), q)
        }
        15 | 16 | 17 => {
            let mut ks = vec![];
            for k in 0..nf {
                for n in chain(fs[k]) {
                    let Some(t) = chain_ty_at(&fs[k].attrs, n, Some(&fs[k].ty)) else { continue };
                    let fits = match t {
                        Ty::Slice => true,
                        Ty::Opt(_) => kind == 15,
                        Ty::Vec(_) => kind != 15,
                        _ => false,
                    };
                    // behind a closure the type of the field says nothing
                    if !fits && !fs[k].attrs[..n].iter().any(|a| matches!(a.a, Attr::Map(_) | Attr::Into)) {
                        ks.push((k, n));
                    }
                }
            }
            if ks.is_empty() {
                return None;
            }
            let (k, n) = *r.pick(&ks);
            let f = field_mut(&mut q.decls[di], k);
            let s = match kind {
                15 => *r.pick(&["Cond(true)", "If(true)", "Cond = \"true\"", "If = \"1 == 1\""]),
                16 => *r.pick(&["Count(2)", "Count = \"1 + 1\""]),
                _ => *r.pick(&["LengthCount(nom::number::streaming::be_u8)", "LengthCount = \"nom::number::streaming::be_u16\""]),
            };
            put(&mut f.attrs, raw(s, split), n);
            let what = ["Cond on something else than Option", "Count on something else than Vec", "LengthCount on something else than Vec"][kind - 15];
            done(what, format!("{}.{}", d.name, k), q)
        }
        18 => {
            // unnamed fields
            let mut ks = vec![];
            let mut n = 0;
            match &d.kind {
                Kind::Struct(Shape::Tuple, f) => ks.extend(0..f.len()),
                Kind::SelEnum(_, v) => {
                    for v in v {
                        if v.shape == Shape::Tuple {
                            ks.extend(n..n + v.fields.len());
                        }
                        n += v.fields.len();
                    }
                }
                _ => {}
            }
            if ks.is_empty() {
                return None;
            }
            if r.p(25) {
                top(&mut q, "Debug".into(), r);
                return done("Debug with unnamed fields", d.name.clone(), q);
            }
            let k = *r.pick(&ks);
            let f = field_mut(&mut q.decls[di], k);
            let s = *r.pick(&["Debug", "Verify(true)", "Verify = \"1 == 1\""]);
            let n = *r.pick(&chain(f));
            put(&mut f.attrs, raw(s, split), n);
            done(if s == "Debug" { "Debug on an unnamed field" } else { "Verify on an unnamed field" }, format!("{}.{}", d.name, k), q)
        }
        19 => {
            let Kind::SelEnum(_, v) = &mut q.decls[di].kind else { return None };
            let k = r.below(v.len());
            v[k].sel_style = 255;
            done("variant without Selector", format!("variant {} of {}", k, d.name), q)
        }
        20 => {
            if !d.is_sel() || nf == 0 {
                return None;
            }
            q.decls[di].top.retain(|a| !matches!(a.a, Attr::Selector));
            done("enum with fields without Selector", d.name.clone(), q)
        }
        21 if fieldless => {
            if r.p(25) {
                top(&mut q, "ExtraArgs(zz: u8)".into(), r);
                return done("fieldless enum with extra arguments", d.name.clone(), q);
            }
            let src = program_rs(p, 0);
            let t = decl_rs(p, di);
            let Kind::Fieldless(x, _) = &d.kind else { return None };
            let line = format!("    #[repr({})]\n", x.rs());
            let with = *r.pick(&["", "    #[repr(C)]\n"]);
            let t2 = t.replacen(&line, with, 1);
            if t2 == t {
                return None;
            }
            Some(Mutant { kind: "fieldless enum without integer repr", at: d.name.clone(), src: src.replacen(&t, &t2, 1) })
        }
        22 => {
            // a list that is not one
            let src = program_rs(p, 0);
            let t = decl_rs(p, di);
            let bad = *r.pick(&MALFORMED);
            let mut ats: Vec<usize> = t.match_indices("pub struct ").map(|x| x.0).chain(t.match_indices("pub enum ").map(|x| x.0)).collect();
            if let Kind::Struct(Shape::Named, f) = &d.kind {
                // before the first field, which starts a line after its attributes
                if let Some(f) = f.first() {
                    if f.attrs.is_empty() {
                        ats.extend(t.match_indices(&format!("pub {}:", f.name)).map(|x| x.0).take(1));
                    }
                }
            }
            if ats.is_empty() {
                return None;
            }
            let k = *r.pick(&ats);
            let t2 = format!("{}{} {}", &t[..k], bad, &t[k..]);
            Some(Mutant { kind: "malformed attribute", at: format!("{} of {}", bad, d.name), src: src.replacen(&t, &t2, 1) })
        }
        23 if r.p(30) => {
            let dv = *r.pick(&["Nom", "NomBE", "NomLE"]);
            let fields: String = (0..1 + r.below(3)).map(|k| format!("pub f{}: {}, ", k, r.pick(&["u8", "u16", "u32", "i64"]))).collect();
            let at = *r.pick(&["", "#[nom(Complete)] ", "#[nom(Selector(u8))] ", "#[nom(Exact)] "]);
            let src = format!("{}\n#[derive(Clone, Copy, nom_derive::{})] {}pub union Un {{ {}}}\n", program_rs(p, 0), dv, at, fields);
            Some(Mutant { kind: "union", at: String::new(), src })
        }
        24 if r.p(40) => {
            // a type of the user whose name resembles that of the standard one and which is made of it
            let opt = r.p(40);
            let (std, names): (&str, &[&str]) = if opt { ("Option", &["MyOption", "Optional", "OptionLike", "Opt", "Options", "option"]) } else { ("Vec", &["MyVec", "Vector", "VecLike", "SmallVec", "Vecs", "VecDeque", "vec"]) };
            let n = *r.pick(names);
            let at = if opt {
                *r.pick(&["Cond(true)", "If = \"true\""])
            } else {
                *r.pick(&["Count(2)", "Count = \"1 + 1\"", "LengthCount(nom::number::streaming::be_u8)"])
            };
            let leaf = *r.pick(&["Parse(nom::number::streaming::be_u8)", "Parse = \"nom::number::streaming::be_u8\""]);
            let item = if r.p(50) { format!("pub struct Lk {{ pub a: u8, #[nom(Into, {}, {})] pub v: {}<u8> }}", at, leaf, n) } else { format!("pub struct Lk(#[nom(Into, {}, {})] pub {}<u8>);", at, leaf, n) };
            let item = if r.p(30) { format!("#[nom(Selector = \"u8\")] pub enum Lk {{ #[nom(Selector = \"0\")] A {{ #[nom(Into, {}, {})] v: {}<u8> }} }}", at, leaf, n) } else { item };
            let src = format!(
                "{}\npub struct {n}<T>(pub {std}<T>);\nimpl<T> From<{std}<T>> for {n}<T> {{ fn from(x: {std}<T>) -> Self {{ {n}(x) }} }}\n#[derive(nom_derive::Nom)] {}\n",
                program_rs(p, 0),
                item,
            );
            let what = if opt { "Cond on a type that resembles Option" } else { "Count or LengthCount on a type that resembles Vec" };
            Some(Mutant { kind: what, at: n.into(), src })
        }
        _ => None,
    }
}

fn profile() -> Prof {
    Prof { max_helpers: 1, max_fields: 3, wide: 0, params: 4, kinds: [55, 30, 15, 0], many_variants: 0, variants: 3, shape: [60, 38, 2], min_imports: 0, ..base() }
}

fn failure(p: Option<&Program>, kind: &str, what: String, src: &str, expected: &str, got: String) -> Failure {
    Failure {
        property: "C17".into(),
        kind: kind.into(),
        what,
        program: p.cloned().unwrap_or(Program { decls: vec![], noise: 0, no_std: false, min_imports: false, edition: 0 }),
        twin: None,
        twin_noalloc: false,
        twin_seed: vec![],
        case: None,
        expected: expected.into(),
        got,
        source: src.into(),
    }
}

pub fn check(w: &Work, seed: u64, tier: &str) -> i32 {
    let t0 = Instant::now();
    let scale: f64 = std::env::var("NDV_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
    let per = ((400.0 * scale) as usize).max(8);
    let rounds = if tier == "thorough" { 16 } else { 1 };
    let budget = Duration::from_secs(if tier == "thorough" { 2000 } else { 300 });
    let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let (mut evals, mut nontrivial, mut originals, mut done) = (0u64, 0u64, 0u64, 0);
    let mut fails: Vec<Failure> = vec![];
    let f = profile();
    for round in 0..rounds {
        let progs: Vec<Program> = (0..per).map(|k| Gen::new(Rng::new(&[seed, 17, (round * per + k) as u64, 1]), &f).program()).collect();
        let mut srcs: Vec<String> = progs.iter().map(|p| program_rs(p, 0)).collect();
        let mut muts: Vec<(usize, Mutant)> = vec![];
        for (k, p) in progs.iter().enumerate() {
            let mut r = Rng::new(&[seed, 17, (round * per + k) as u64, 2]);
            let mut n = 0;
            for _ in 0..60 {
                if n == 10 {
                    break;
                }
                if let Some(m) = mutant(p, &mut r) {
                    if !muts.iter().rev().take(12).any(|(_, o)| o.src == m.src) {
                        muts.push((k, m));
                        n += 1;
                    }
                }
            }
        }
        srcs.extend(muts.iter().map(|(_, m)| m.src.clone()));
        let errs = match check_only(w, "c17", &srcs) {
            Ok(e) => e,
            Err(Infra::Msg(m)) => {
                println!("ERROR C17: {}", m);
                return 2;
            }
        };
        for k in 0..per {
            evals += 1;
            originals += 1;
            if let Some(e) = errs.get(&k) {
                fails.push(failure(Some(&progs[k]), "compile", "a valid declaration is rejected".into(), &srcs[k], "compiles", e.clone()));
            }
        }
        for (n, (k, m)) in muts.iter().enumerate() {
            evals += 1;
            if errs.contains_key(k) {
                continue;
            }
            nontrivial += 1;
            *kinds.entry(m.kind.into()).or_insert(0) += 1;
            match errs.get(&(per + n)) {
                None => fails.push(failure(Some(&progs[*k]), "accepted", format!("{} ({}) is accepted", m.kind, m.at), &m.src, "a compile error", "compiles".into())),
                Some(e) => {
                    if std::env::var("NDV_SHOW").is_ok() {
                        println!("{} | {} | {}", m.kind, m.at, e.lines().take(1).collect::<String>());
                        println!("     {}", e.lines().filter(|l| l.contains("= help: message")).take(1).collect::<String>());
                    }
                    if samples.len() < 3 && n % 97 == 5 {
                        let d = m.src.split("pub fn run").next().unwrap_or("").chars().take(1500).collect::<String>();
                        samples.push(serde_json::json!({"contradiction": m.kind, "at": m.at, "declarations": d, "compiler": e.chars().take(300).collect::<String>()}));
                    }
                }
            }
        }
        done += 1;
        if !fails.is_empty() || t0.elapsed() > budget {
            break;
        }
    }
    let mut replay = None;
    if !fails.is_empty() {
        println!("C17: {} declarations fail", fails.len());
        fails.sort_by_key(|f| (f.kind == "compile", f.source.len()));
        let mut by: BTreeMap<&str, usize> = BTreeMap::new();
        for f in &fails {
            *by.entry(f.what.split('(').next().unwrap_or("")).or_insert(0) += 1;
        }
        println!("{:?}", by);
        replay = Some(report(&fails[0], seed));
    }
    write_evidence(
        "C17",
        tier,
        seed,
        serde_json::json!({
            "evaluations": evals,
            "distinct_nontrivial": nontrivial,
            "rule": RULE,
            "samples": samples,
            "programs": originals,
            "classes": kinds,
            "rounds": done,
            "exploration_s": t0.elapsed().as_secs_f64(),
        }),
        t0,
        replay.is_some() as u32,
    );
    println!("C17: {} valid programs, {} changed ones, {:.1} s", originals, nontrivial, t0.elapsed().as_secs_f64());
    if let Some(p) = replay {
        println!("VIOLATION property=C17 replay={}", p);
        return 1;
    }
    0
}

pub fn replay(w: &Work, f: &Failure) -> i32 {
    match check_only(w, "replay17", &[f.source.clone()]) {
        Err(Infra::Msg(m)) => {
            println!("ERROR {}", m);
            2
        }
        Ok(e) => {
            let bad = if f.kind == "compile" { e.contains_key(&0) } else { !e.contains_key(&0) };
            if bad {
                println!("{}\n{}", f.what, e.get(&0).cloned().unwrap_or_default());
                1
            } else {
                println!("the failure does not occur");
                0
            }
        }
    }
}
