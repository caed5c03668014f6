//! Related programs: for metamorphic checks.
use crate::ast::*;
use crate::check::Twin;
use crate::gen::{Rng, PLAIN, WEIRD};
use std::collections::{BTreeMap, BTreeSet};

type F<'a> = &'a mut dyn FnMut(&mut String);
fn n_e(e: &mut E, f: F) {
    match e {
        E::Lit(_) | E::InputLen => {}
        E::Var(n) | E::Proj(n, _) | E::Len(n) | E::First(n) => f(n),
        E::Add(a, b) | E::Sub(a, b) => {
            n_e(a, f);
            n_e(b, f);
        }
        E::Mul(a, _) | E::And(a, _) | E::Shr(a, _) => n_e(a, f),
        E::If(c, a, b) => {
            n_b(c, f);
            n_e(a, f);
            n_e(b, f);
        }
    }
}
fn n_b(b: &mut B, f: F) {
    match b {
        B::Lit(_) => {}
        B::Cmp(_, x, y) => {
            n_e(x, f);
            n_e(y, f);
        }
        B::Raw(_, n, _, _) | B::Var(n) | B::IsSome(n) | B::LenGt(n, _, _) => f(n),
        B::Not(x) => n_b(x, f),
        B::And(x, y) | B::Or(x, y) => {
            n_b(x, f);
            n_b(y, f);
        }
    }
}
fn n_end(e: &mut EndE, f: F) {
    match e {
        EndE::Lit(_) => {}
        EndE::Arg(n) => f(n),
        EndE::If(b, _) => n_b(b, f),
        EndE::Traced(_, e) => n_end(e, f),
    }
}
fn n_st(s: &mut St, f: F) {
    match s {
        St::Let(n, e) | St::Shadow(n, _, e) => {
            f(n);
            n_e(e, f);
        }
        St::Trace(_, e) => n_e(e, f),
        St::Bail(b) => n_b(b, f),
        St::Advance(_) | St::TraceObj(_) => {}
    }
}
fn n_p(p: &mut P, f: F) {
    match p {
        P::Take(e) => n_e(e, f),
        P::Call { sel, args, .. } => {
            match sel {
                Some(SelArg::Int(e)) | Some(SelArg::Wrap(e)) => n_e(e, f),
                Some(SelArg::Var(n)) => f(n),
                Some(SelArg::Pair(a, b)) => {
                    n_e(a, f);
                    n_e(b, f);
                }
                None => {}
            }
            args.iter_mut().for_each(|e| n_e(e, f));
        }
        P::Cond(b, p) => {
            n_b(b, f);
            n_p(p, f);
        }
        _ => {}
    }
}
fn n_at(a: &mut Attr, f: F) {
    match a {
        Attr::SetEndian(e) => n_end(e, f),
        Attr::AlignBefore(e) | Attr::AlignAfter(e) | Attr::SkipBefore(e) | Attr::SkipAfter(e) | Attr::Move(e) | Attr::MoveAbs(e) | Attr::Count(e) | Attr::Take(e) => n_e(e, f),
        Attr::ErrorIf(b) | Attr::Cond(b) | Attr::Verify(b) => n_b(b, f),
        Attr::PreExec(s) | Attr::PostExec(s) => n_st(s, f),
        Attr::LengthCount(p) | Attr::Parse(p) => n_p(p, f),
        Attr::Value(v) => match v {
            Val::Int(_, e) | Val::Str(e) | Val::VecOf(_, e, _) => n_e(e, f),
            Val::Bool(b) => n_b(b, f),
            Val::Copy(n) => f(n),
            Val::None_ => {}
        },
        _ => {}
    }
}
fn n_pat(p: &mut Pat, f: F) {
    match p {
        Pat::Or(v) => v.iter_mut().for_each(|p| n_pat(p, f)),
        Pat::New(p) => n_pat(p, f),
        Pat::Pair(a, b) => {
            n_pat(a, f);
            n_pat(b, f);
        }
        Pat::Bind(n, p) => {
            f(n);
            if let Some(p) = p {
                n_pat(p, f);
            }
        }
        Pat::Guard(p, b) => {
            n_pat(p, f);
            n_b(b, f);
        }
        _ => {}
    }
}
fn lists(d: &mut Decl) -> Vec<(&mut Shape, &mut Vec<Field>)> {
    match &mut d.kind {
        Kind::Struct(s, f) => vec![(s, f)],
        Kind::SelEnum(_, v) => v.iter_mut().map(|v| (&mut v.shape, &mut v.fields)).collect(),
        _ => vec![],
    }
}
/// every name used in expressions, statements and patterns of the declaration
fn uses(d: &mut Decl, f: F) {
    d.top.iter_mut().for_each(|a| n_at(&mut a.a, f));
    match &mut d.kind {
        Kind::Struct(_, fs) => fs.iter_mut().for_each(|x| x.attrs.iter_mut().for_each(|a| n_at(&mut a.a, f))),
        Kind::SelEnum(_, vs) => {
            for v in vs {
                n_pat(&mut v.sel, f);
                v.attrs.iter_mut().for_each(|a| n_at(&mut a.a, f));
                v.fields.iter_mut().for_each(|x| x.attrs.iter_mut().for_each(|a| n_at(&mut a.a, f)));
            }
        }
        _ => {}
    }
}
fn every_at(p: &mut Program, f: &mut dyn FnMut(&mut At)) {
    for d in &mut p.decls {
        d.top.iter_mut().for_each(&mut *f);
        match &mut d.kind {
            Kind::Struct(_, fs) => fs.iter_mut().for_each(|x| x.attrs.iter_mut().for_each(&mut *f)),
            Kind::SelEnum(_, vs) => {
                for v in vs {
                    v.attrs.iter_mut().for_each(&mut *f);
                    v.fields.iter_mut().for_each(|x| x.attrs.iter_mut().for_each(&mut *f));
                }
            }
            _ => {}
        }
    }
}
fn twin(p: &Program, q: Program) -> Option<Twin> {
    (q != *p).then_some(Twin { prog: q, map: None })
}

/// C09
pub fn no_complete(p: &Program, _: &mut Rng) -> Option<Twin> {
    let mut q = p.clone();
    for d in &mut q.decls {
        let keep = |a: &At| a.a != Attr::Complete;
        d.top.retain(keep);
        for (_, l) in lists(d) {
            l.iter_mut().for_each(|f| f.attrs.retain(keep));
        }
    }
    twin(p, q)
}
/// C13
pub fn no_generic(p: &Program, _: &mut Rng) -> Option<Twin> {
    let mut q = p.clone();
    for d in &mut q.decls {
        d.top.retain(|a| a.a != Attr::GenericErrors);
    }
    twin(p, q)
}
/// C15
pub fn same(p: &Program, _: &mut Rng) -> Option<Twin> {
    Some(Twin { prog: p.clone(), map: None })
}
fn plain_at(a: Attr) -> At {
    At { a, style: 0, alias: false, split: false }
}
/// C16
pub fn debugged(p: &Program, r: &mut Rng) -> Option<Twin> {
    let mut q = p.clone();
    for d in &mut q.decls {
        if matches!(d.kind, Kind::Direct(_)) {
            continue;
        }
        let special = d.is_sel() || !d.extra.is_empty();
        let ok = special || !d.generic_errors();
        let fieldless = matches!(d.kind, Kind::Fieldless(..));
        let mut all_named = true;
        for (s, l) in lists(d) {
            if *s != Shape::Named {
                all_named &= l.is_empty();
                continue;
            }
            for f in l.iter_mut() {
                if ok && r.p(55) {
                    let k = r.below(f.attrs.len() + 1);
                    let mut a = plain_at(Attr::Debug);
                    a.split = r.p(25);
                    f.attrs.insert(k, a);
                }
            }
        }
        if ok && all_named && !fieldless && r.p(35) {
            let k = r.below(d.top.len() + 1);
            d.top.insert(k, plain_at(Attr::Debug));
        }
        if r.p(25) {
            let k = r.below(d.top.len() + 1);
            d.top.insert(k, plain_at(Attr::DebugDerive));
        }
    }
    twin(p, q)
}
/// C18
pub fn respelled(p: &Program, r: &mut Rng) -> Option<Twin> {
    let mut q = p.clone();
    let raw = true;
    every_at(&mut q, &mut |a| {
        a.style = if raw { r.below(3) as u8 } else { r.below(2) as u8 };
        a.alias = r.p(50);
        a.split = r.p(45);
    });
    for d in &mut q.decls {
        if let Kind::SelEnum(_, vs) = &mut d.kind {
            vs.iter_mut().for_each(|v| v.sel_style = r.below(3) as u8);
        }
        // endianness of the object
        let set = d.has(|a| matches!(a, Attr::SetEndian(_)));
        if !set && !matches!(d.kind, Kind::Direct(_)) && r.p(60) {
            match d.derive {
                Derive::Nom => {
                    if let Some(k) = d.top.iter().position(|a| matches!(a.a, Attr::Be | Attr::Le)) {
                        d.derive = if d.top[k].a == Attr::Be { Derive::NomBE } else { Derive::NomLE };
                        if r.p(70) {
                            d.top.remove(k);
                        }
                    }
                }
                x => {
                    let a = if x == Derive::NomBE { Attr::Be } else { Attr::Le };
                    d.derive = Derive::Nom;
                    if !d.has(|b| *b == a) {
                        let k = r.below(d.top.len() + 1);
                        let mut at = plain_at(a);
                        at.split = r.p(50);
                        d.top.insert(k, at);
                    }
                }
            }
        }
        let mut used: BTreeSet<String> = BTreeSet::new();
        uses(d, &mut |n| {
            used.insert(n.clone());
        });
        let top_debug = d.has(|a| *a == Attr::Debug);
        let is_struct = matches!(d.kind, Kind::Struct(..));
        let copy = d.copy;
        let mut fresh = 0;
        for (s, l) in lists(d) {
            match *s {
                Shape::Named if !copy && !top_debug && !l.is_empty() && r.p(50) => {
                    let free = l.iter().all(|f| !used.contains(&f.name) && !f.attrs.iter().any(|a| matches!(a.a, Attr::Debug | Attr::Verify(_))));
                    if free {
                        *s = Shape::Tuple;
                        for (k, f) in l.iter_mut().enumerate() {
                            f.name = format!("_{}", k);
                        }
                    }
                }
                // newtypes used as selectors have to stay tuples
                Shape::Tuple if !copy && !l.is_empty() && r.p(30) => {
                    *s = Shape::Named;
                    for f in l.iter_mut() {
                        f.name = format!("ndvf{}", fresh);
                        fresh += 1;
                    }
                }
                _ => {}
            }
        }
        let _ = is_struct;
    }
    twin(p, q)
}
const TYPES: [&str; 24] = [
    "Alpha", "Beta", "Gamma", "Parser", "Result", "Error", "Needed", "IResult", "ErrorKind", "Endianness", "Input", "Kind", "Selector", "Tag", "Count", "Debug_", "Ast", "Struct", "T0", "Nom_", "Message", "Opt", "Slice",
    "Verify",
];
const VARS: [&str; 18] = ["V0", "V1", "Alpha", "Ok", "Err", "None", "Some", "Default", "Selector", "Error", "Parse", "Count", "Big", "Little", "U8", "Self_", "Vec", "String"];
const LTS: [&str; 7] = ["'i", "'de", "'data", "'input", "'z", "'buf", "'e"];
const PARAMS: [&str; 9] = ["E", "I", "O", "F", "Error", "Input", "K", "Item", "N"];
const INPUTS: [&str; 12] = ["align", "skip", "offset", "pos", "start", "rest", "input", "data", "this", "body", "xs", "len"];
const MORE: [&str; 52] = [
    "tmp", "ret", "out", "output", "parsed", "item", "items", "r", "j", "l", "rest", "remaining", "inp", "bytes", "buf", "cur", "cursor", "selector_", "sel", "variant", "field", "fields", "name", "base", "orig_input", "original", "begin",
    "origin", "idx", "it", "iter", "acc", "elem", "size", "n_bytes", "pad", "padding", "rem1", "tail", "before", "after", "cond_", "ok", "err", "def", "obj", "object", "this", "ctx", "state", "endian", "args",
];
/// names bound somewhere in the sources of the derive: a dictionary, as used for fuzzing
fn source_names() -> &'static [Vec<String>; 2] {
    static N: std::sync::OnceLock<[Vec<String>; 2]> = std::sync::OnceLock::new();
    N.get_or_init(|| [names_of(false), names_of(true)])
}
/// the arguments of quote! and parse_quote!, one line each
fn quoted_parts(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = String::new();
    let mut from = 0;
    while let Some(k) = s[from..].find("quote!") {
        let start = from + k + 6;
        let mut depth = 0i32;
        let mut end = start;
        while end < b.len() {
            match b[end] {
                b'(' | b'{' | b'[' => depth += 1,
                b')' | b'}' | b']' => depth -= 1,
                _ => {}
            }
            end += 1;
            if depth <= 0 && !b[end - 1].is_ascii_whitespace() {
                break;
            }
        }
        out.push_str(&s[start..end]);
        out.push('\n');
        from = end;
    }
    out
}
fn names_of(quoted: bool) -> Vec<String> {
    {
        let mut files = vec![];
        let mut dirs = vec![crate::driver::repo().join("nom-derive-impl/src")];
        while let Some(d) = dirs.pop() {
            let Ok(rd) = std::fs::read_dir(&d) else { continue };
            for e in rd.flatten() {
                let p = e.path();
                if p.is_dir() {
                    dirs.push(p);
                } else if p.extension().is_some_and(|x| x == "rs") {
                    files.push(p);
                }
            }
        }
        files.sort();
        let mut out = BTreeSet::new();
        for f in files {
            let Ok(s) = std::fs::read_to_string(&f) else { continue };
            let s = if quoted { quoted_parts(&s) } else { s };
            for line in s.lines() {
                let mut parts: Vec<&str> = vec![];
                if let Some((_, r)) = line.split_once("let ") {
                    parts.push(r.split('=').next().unwrap_or(""));
                }
                if let Some((_, r)) = line.split_once('|') {
                    parts.push(r.split('|').next().unwrap_or(""));
                }
                for p in parts {
                    let mut prev = ' ';
                    for w in p.split_inclusive(|c: char| !(c.is_ascii_alphanumeric() || c == '_')) {
                        let id: String = w.chars().take_while(|c| c.is_ascii_alphanumeric() || *c == '_').collect();
                        if id.len() < 24 && id.starts_with(|c: char| c.is_ascii_lowercase()) && prev != '#' {
                            out.insert(id);
                        }
                        prev = w.chars().last().unwrap_or(' ');
                    }
                }
            }
        }
        const KW: [&str; 42] = [
            "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "static", "struct", "super", "trait",
            "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "try", "gen", "yield", "selector",
        ];
        out.into_iter().filter(|n| !KW.contains(&n.as_str())).collect()
    }
}
/// C19
pub fn renamed(p: &Program, r: &mut Rng) -> Option<Twin> {
    let mut q = p.clone();
    if r.p(40) && !uses_phantom(p) {
        q.min_imports = !q.min_imports;
    } else if q.min_imports && r.p(30) {
        q.min_imports = false;
    }
    let mut types: Vec<&str> = TYPES.to_vec();
    let snap = q.clone();
    let names: Vec<String> = snap.decls.iter().map(|d| d.name.clone()).collect();
    for (di, d) in q.decls.iter_mut().enumerate() {
        if matches!(d.kind, Kind::Direct(_)) {
            continue;
        }
        // declarations are referred to by index
        if r.p(60) && !types.is_empty() {
            let k = r.below(types.len());
            let n = types.swap_remove(k);
            if !names.iter().any(|x| x == n) {
                d.name = n.to_string();
            }
        }
        if !snap.decl_has_lt(di) || r.p(70) {
            d.lt = r.pick(&LTS).to_string();
            if !d.lt2.is_empty() {
                d.lt2 = format!("{}2", r.pick(&LTS));
            }
        }
        if r.p(70) {
            let k = r.below(PARAMS.len());
            for (j, t) in d.params.iter_mut().enumerate() {
                *t = PARAMS[(k + j) % PARAMS.len()].to_string();
            }
        }
        if let Some(c) = &mut d.konst {
            if d.params.contains(&c.0) || r.p(60) {
                c.0 = r.pick(&["WIDTH", "Z", "M", "L", "START"]).to_string();
            }
        }
        // input
        if r.p(55) {
            d.input = r.pick(&INPUTS).to_string();
            if !d.has(|a| *a == Attr::InputName) {
                let k = r.below(d.top.len() + 1);
                d.top.insert(k, plain_at(Attr::InputName));
            }
        }
        // variables
        let mut all: BTreeSet<String> = d.extra.iter().map(|x| x.0.clone()).collect();
        for (s, l) in lists(d) {
            if *s == Shape::Named {
                all.extend(l.iter().map(|f| f.name.clone()));
            }
        }
        uses(d, &mut |n| {
            all.insert(n.clone());
        });
        all.remove("selector");
        let no_obj = d.top.iter().any(|a| matches!(a.a, Attr::PostExec(_)));
        let mut pool: Vec<String> = PLAIN.iter().chain(WEIRD.iter()).map(|s| s.to_string()).collect();
        pool.extend(["i", "orig_i", "__", "r#try", "r#use", "arg", "parse_le", "self_", "from", "into", "r#await", "r#loop", "r#move", "r#static", "r#as"].map(String::from).into_iter().filter(|x| x != "__"));
        let inp = d.input.clone();
        pool.extend(MORE.iter().map(|s| s.to_string()));
        let mut dict = source_names()[(r.p(60)) as usize].clone();
        dict.retain(|n| *n != inp && *n != format!("orig_{}", inp) && !(no_obj && (n == "struct_def" || n == "enum_def")));
        pool.sort();
        pool.dedup();
        pool.retain(|n| *n != inp && *n != format!("orig_{}", inp) && !(no_obj && (n == "struct_def" || n == "enum_def")));
        let mut map: BTreeMap<String, String> = BTreeMap::new();
        for n in &all {
            if n.starts_with('_') {
                continue;
            }
            let from = if !dict.is_empty() && r.p(35) { &mut dict } else { &mut pool };
            let new = if from.is_empty() {
                format!("zz{}", map.len())
            } else {
                let k = r.below(from.len());
                from.swap_remove(k)
            };
            dict.retain(|n| *n != new);
            pool.retain(|n| *n != new);
            map.insert(n.clone(), new);
        }
        let mut f = |n: &mut String| {
            if let Some(x) = map.get(n) {
                *n = x.clone();
            }
        };
        uses(d, &mut f);
        d.extra.iter_mut().for_each(|x| f(&mut x.0));
        for (s, l) in lists(d) {
            if *s == Shape::Named {
                l.iter_mut().for_each(|x| f(&mut x.name));
            }
        }
        // variants
        let mut vn: Vec<&str> = VARS.to_vec();
        let mut ren = |n: &mut String, others: &[String], r: &mut Rng| {
            if r.p(60) && !vn.is_empty() {
                let k = r.below(vn.len());
                let x = vn.swap_remove(k);
                if !others.iter().any(|o| o == x) {
                    *n = x.to_string();
                }
            }
        };
        match &mut d.kind {
            Kind::SelEnum(_, vs) => {
                let o: Vec<String> = vs.iter().map(|v| v.name.clone()).collect();
                vs.iter_mut().for_each(|v| ren(&mut v.name, &o, r));
            }
            Kind::Fieldless(_, vs) => {
                let o: Vec<String> = vs.iter().map(|v| v.0.clone()).collect();
                vs.iter_mut().for_each(|v| ren(&mut v.0, &o, r));
            }
            _ => {}
        }
    }
    // a type parameter hides the type of the same name
    let types: Vec<String> = q.decls.iter().map(|d| d.name.clone()).collect();
    for d in q.decls.iter_mut() {
        for (j, t) in d.params.iter_mut().enumerate() {
            if types.contains(t) {
                *t = format!("Q{}", j);
            }
        }
    }
    twin(p, q)
}
fn has_phantom(t: &Ty) -> bool {
    match t {
        Ty::Phantom(_) => true,
        Ty::Opt(t) | Ty::Vec(t) | Ty::Arr(t, _) => has_phantom(t),
        Ty::Pair(a, b) => has_phantom(a) || has_phantom(b),
        Ty::Named(_, v) => v.iter().any(has_phantom),
        _ => false,
    }
}
pub fn uses_phantom(p: &Program) -> bool {
    p.decls.iter().any(|d| d.fields().iter().any(|f| has_phantom(&f.ty)))
}

/// has parameters besides one lifetime
pub fn generic(d: &Decl) -> bool {
    !d.params.is_empty() || d.konst.is_some() || !d.lt2.is_empty()
}
/// C20: one declaration per instantiation
pub fn mono(p: &Program, _: &mut Rng) -> Option<Twin> {
    if !p.decls.iter().any(generic) {
        return None;
    }
    let mut m = Mono { p, at: BTreeMap::new(), todo: vec![], out: vec![] };
    let mut map = BTreeMap::new();
    for (k, d) in p.decls.iter().enumerate() {
        if matches!(d.kind, Kind::Direct(_)) {
            let n = m.id(k, vec![]);
            map.insert((k, 0), (n, 0));
            continue;
        }
        let insts: Vec<Vec<Ty>> = if d.params.is_empty() { vec![vec![]] } else { d.insts.clone() };
        for (j, t) in insts.into_iter().enumerate() {
            // a field of tuple type has no parser of its own
            if !t.iter().any(has_pair) {
                let n = m.id(k, t);
                map.insert((k, j), (n, 0));
            }
        }
    }
    while let Some((k, t, n)) = m.todo.pop() {
        // the parsers of arrays and strings need more of the error type than GenericErrors promises
        if p.decls[k].generic_errors() && t.iter().any(|t| demanding(p, t)) {
            return None;
        }
        let d = m.decl(k, &t, n);
        if d.fields().iter().any(|f| f.attrs.iter().all(|a| !matches!(a.a, Attr::Parse(_) | Attr::Value(_))) && has_pair(&f.ty)) {
            return None;
        }
        m.out[n] = Some(d);
    }
    let prog = Program { decls: m.out.into_iter().map(|d| d.unwrap()).collect(), noise: p.noise, no_std: p.no_std, min_imports: p.min_imports, edition: p.edition };
    Some(Twin { prog, map: Some(map) })
}
fn demanding(p: &Program, t: &Ty) -> bool {
    match t {
        Ty::Arr(..) | Ty::Str => true,
        Ty::Pair(a, b) => demanding(p, a) || demanding(p, b),
        Ty::Opt(t) | Ty::Vec(t) => demanding(p, t),
        Ty::Named(d, v) => !p.decls[*d].generic_errors() || v.iter().any(|t| demanding(p, t)) || p.decls[*d].fields().iter().any(|f| demanding(p, &f.ty)),
        _ => false,
    }
}
fn has_pair(t: &Ty) -> bool {
    match t {
        Ty::Pair(..) => true,
        Ty::Opt(t) | Ty::Vec(t) | Ty::Arr(t, _) => has_pair(t),
        Ty::Named(_, v) => v.iter().any(has_pair),
        _ => false,
    }
}
struct Mono<'p> {
    p: &'p Program,
    at: BTreeMap<String, usize>,
    todo: Vec<(usize, Vec<Ty>, usize)>,
    out: Vec<Option<Decl>>,
}
impl<'p> Mono<'p> {
    fn id(&mut self, d: usize, t: Vec<Ty>) -> usize {
        let key = format!("{} {:?}", d, t);
        if let Some(n) = self.at.get(&key) {
            return *n;
        }
        let n = self.out.len();
        self.out.push(None);
        self.at.insert(key, n);
        self.todo.push((d, t, n));
        n
    }
    fn ty(&mut self, t: &Ty, a: &[Ty]) -> Ty {
        let t = if a.is_empty() { t.clone() } else { Program::subst(t, a) };
        self.ty2(&t)
    }
    /// types without parameters: declarations replaced by their instances
    fn ty2(&mut self, t: &Ty) -> Ty {
        match t {
            Ty::Opt(t) => Ty::Opt(Box::new(self.ty2(t))),
            Ty::Vec(t) => Ty::Vec(Box::new(self.ty2(t))),
            Ty::Arr(t, n) => Ty::Arr(Box::new(self.ty2(t)), *n),
            Ty::Pair(a, b) => Ty::Pair(Box::new(self.ty2(a)), Box::new(self.ty2(b))),
            Ty::Named(d, v) => Ty::Named(self.id(*d, v.clone()), vec![]),
            t => t.clone(),
        }
    }
    fn p(&mut self, x: &mut P, a: &[Ty]) {
        match x {
            P::Meth(t, _) => *t = self.ty(t, a),
            P::Call { decl, targs, .. } => {
                let t: Vec<Ty> = targs.iter().map(|t| if a.is_empty() { t.clone() } else { Program::subst(t, a) }).collect();
                *decl = self.id(*decl, t);
                targs.clear();
            }
            P::Sub { ty, .. } => *ty = self.ty(ty, a),
            P::Cond(b, p) => {
                self.b(b, a);
                self.p(p, a);
            }
            _ => {}
        }
    }
    fn b(&mut self, x: &mut B, a: &[Ty]) {
        match x {
            B::LenGt(_, t, _) => *t = self.ty(t, a),
            B::Not(x) => self.b(x, a),
            B::And(x, y) | B::Or(x, y) => {
                self.b(x, a);
                self.b(y, a);
            }
            _ => {}
        }
    }
    fn attrs(&mut self, l: &mut [At], a: &[Ty]) {
        for x in l {
            match &mut x.a {
                Attr::Parse(p) | Attr::LengthCount(p) => self.p(p, a),
                Attr::Verify(b) | Attr::Cond(b) | Attr::ErrorIf(b) => self.b(b, a),
                _ => {}
            }
        }
    }
    fn fields(&mut self, l: &mut [Field], a: &[Ty]) {
        for f in l {
            f.ty = self.ty(&f.ty, a);
            self.attrs(&mut f.attrs, a);
        }
    }
    fn decl(&mut self, k: usize, a: &[Ty], n: usize) -> Decl {
        let mut d = self.p.decls[k].clone();
        d.name = format!("{}M{}", d.name, n);
        d.params.clear();
        d.lt2.clear();
        d.konst = None;
        d.tdefault = false;
        d.insts.clear();
        let mut top = std::mem::take(&mut d.top);
        self.attrs(&mut top, a);
        d.top = top;
        match &mut d.kind {
            Kind::Struct(_, f) => self.fields(f, a),
            Kind::SelEnum(st, vs) => {
                match st {
                    SelTy::Newtype(n) | SelTy::Fieldless(n) => *n = self.id(*n, vec![]),
                    _ => {}
                }
                for v in vs {
                    self.attrs(&mut v.attrs, a);
                    self.fields(&mut v.fields, a);
                }
            }
            Kind::Direct(t) => *t = self.ty(t, a),
            Kind::Fieldless(..) => {}
        }
        d
    }
}
pub fn show_names() {
    println!("{:?}", source_names());
}
