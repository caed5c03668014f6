//! One exploration per property: profile of programs, kind of inputs, relation, what counts.
use crate::ast::*;
use crate::cases::*;
use crate::check::*;
use crate::driver::*;
use crate::gen::{base, Prof};
use crate::model::Hint;
use crate::twins;
use std::path::PathBuf;
use std::time::{Duration, Instant};

fn spec(id: &'static str) -> Spec {
    Spec {
        id,
        profs: vec![(1, base())],
        quick: 1200,
        thorough: 24,
        cases: 50,
        clean: 55,
        hostile: false,
        twin: None,
        rel: Rel::None,
        noalloc_twin: false,
        prefixes: false,
        exhaust: false,
        entry: false,
        round_trip: false,
        nontrivial: |_, _, _| true,
        rule: "",
    }
}
/// a number of at least two bytes whose reversal differs was read
fn oriented(c: &Case, s: &Seen) -> bool {
    s.spans.iter().any(|x| {
        matches!(x.hint, Hint::Int(..) | Hint::Disc(..)) && x.n > 1 && x.pos + x.n <= c.data.len() && {
            let b = &c.data[x.pos..x.pos + x.n];
            b.iter().ne(b.iter().rev())
        }
    })
}
fn any(d: &Decl, f: &dyn Fn(&Attr) -> bool) -> bool {
    d.has(f) || d.fields().iter().any(|x| x.attrs.iter().any(|a| f(&a.a)))
        || matches!(&d.kind, Kind::SelEnum(_, v) if v.iter().any(|v| v.attrs.iter().any(|a| f(&a.a))))
}
/// declarations reachable from the one called
fn reach(p: &Program, d: usize) -> Vec<usize> {
    fn ty(t: &Ty, o: &mut Vec<usize>) {
        match t {
            Ty::Opt(t) | Ty::Vec(t) | Ty::Arr(t, _) => ty(t, o),
            Ty::Pair(a, b) => {
                ty(a, o);
                ty(b, o);
            }
            Ty::Named(d, v) => {
                o.push(*d);
                v.iter().for_each(|t| ty(t, o));
            }
            _ => {}
        }
    }
    fn pars(x: &P, o: &mut Vec<usize>) {
        match x {
            P::Call { decl, .. } => o.push(*decl),
            P::Meth(t, _) => ty(t, o),
            P::Sub { ty: t, .. } => ty(t, o),
            P::Cond(_, p) => pars(p, o),
            _ => {}
        }
    }
    let mut all = vec![];
    let mut todo = vec![d];
    while let Some(k) = todo.pop() {
        if all.contains(&k) {
            continue;
        }
        all.push(k);
        for f in p.decls[k].fields() {
            ty(&f.ty, &mut todo);
            for a in &f.attrs {
                if let Attr::Parse(x) | Attr::LengthCount(x) = &a.a {
                    pars(x, &mut todo);
                }
            }
        }
        for i in &p.decls[k].insts {
            i.iter().for_each(|t| ty(t, &mut todo));
        }
    }
    all
}
fn reached(p: &Program, d: usize, f: &dyn Fn(&Decl) -> bool) -> bool {
    reach(p, d).into_iter().any(|k| f(&p.decls[k]))
}
fn setend(a: &Attr) -> bool {
    matches!(a, Attr::SetEndian(_))
}
fn positioning(a: &Attr) -> bool {
    matches!(a, Attr::AlignBefore(_) | Attr::AlignAfter(_) | Attr::SkipBefore(_) | Attr::SkipAfter(_) | Attr::Move(_) | Attr::MoveAbs(_))
}

pub const IDS: [&str; 20] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20",
];
pub fn get(id: &str) -> Option<Spec> {
    let b = base();
    let id: &'static str = IDS.iter().find(|x| **x == id)?;
    let mut s = spec(id);
    let mixed = |own: Prof| vec![(75, own), (25, base())];
    match id {
        "C01" => {
            let own = Prof { max_helpers: 3, max_fields: 12, wide: 12, kinds: [100, 0, 0, 0], shape: [55, 38, 7], tys: [30, 6, 8, 10, 9, 9, 24, 6, 4, 6, 3, 2, 3, 0], wrap: [1, 1, 2, 3], structural: 55, leaf: 18, pos: 1, exec: 2, errorif: 2, ..base() };
            s.profs = mixed(own);
            s.nontrivial = |p, c, s| s.looked as usize + s.seen > 0 && matches!(&p.decls[c.d].kind, Kind::Struct(_, f) if f.len() > 1);
            s.rule = "programs of 1 to 4 declarations; inputs grown along the fields of the called declaration, some damaged; non-trivial: a struct with at least two fields of which at least one byte was examined";
        }
        "C02" => {
            let own = Prof { max_helpers: 3, kinds: [53, 20, 14, 13], tys: [40, 8, 3, 10, 10, 10, 16, 2, 1, 6, 1, 2, 3, 0], structural: 60, leaf: 18, end_field: 35, end_top: 30, derive_end: 40, setend_field: 2, setend_top: 2, pos: 3, exec: 2, ..base() };
            s.profs = vec![(85, own), (15, base())];
            s.cases = 30;
            s.entry = true;
            s.nontrivial = |_, c, s| oriented(c, s);
            s.rule = "endianness attributes and derives at every level; 60% of the inputs are given to all three entry points; non-trivial: a number of at least two bytes that are not a palindrome was read";
        }
        "C03" => {
            let own = Prof { kinds: [70, 30, 0, 0], tys: [42, 8, 3, 9, 9, 9, 16, 2, 1, 5, 1, 2, 3, 0], max_fields: 8, structural: 60, leaf: 18, end_field: 15, end_top: 15, derive_end: 25, setend_field: 22, setend_top: 25, trace: 70, extra: 30, pos: 4, exec: 6, ..base() };
            s.profs = vec![(90, own), (10, base())];
            s.nontrivial = |p, c, s| oriented(c, s) && reached(p, c.d, &|d| any(d, &setend));
            s.rule = "SetEndian with constant, argument and computed values on fields and objects, its evaluation traced; non-trivial: a declaration with SetEndian was reached and a number of at least two bytes that are not a palindrome was read";
        }
        "C04" => {
            let own = Prof { kinds: [80, 20, 0, 0], tys: [26, 3, 5, 16, 18, 7, 9, 12, 2, 3, 3, 7, 3, 0], wrap: [9, 7, 14, 16], structural: 85, leaf: 45, maxdepth: 4, pos: 3, exec: 3, ..base() };
            s.profs = mixed(own);
            s.nontrivial = |p, c, s| s.seen > 0 && reached(p, c.d, &|d| d.fields().iter().any(|f| f.attrs.iter().filter(|a| !crate::emit::is_pre(&a.a) && !crate::emit::is_post(&a.a)).count() > 1));
            s.rule = "chains of parser attributes (structural ones, Map, Into, Verify, Complete, Debug, leaves) over nested Option/Vec/slice types; non-trivial: a byte was examined and a reached declaration has a field with at least two parser attributes";
        }
        "C05" => {
            let own = Prof { pos: 38, max_helpers: 3, structural: 50, leaf: 30, hostile: 25, exec: 3, ..base() };
            s.profs = vec![(85, own), (15, base())];
            s.nontrivial = |p, c, s| s.seen > 0 && reached(p, c.d, &|d| any(d, &positioning));
            s.rule = "alignment, skip and move attributes with constant and computed amounts on fields, unit variants and nested declarations, inputs at every memory alignment; non-trivial: a byte was examined and a reached declaration has a positioning attribute";
        }
        "C06" => {
            let own = Prof { kinds: [0, 100, 0, 0], max_helpers: 2, variants: 9, many_variants: 8, default_var: 60, exec: 10, trace: 80, max_fields: 3, extra: 15, ..base() };
            s.profs = vec![(100, own)];
            s.nontrivial = |p, c, _| p.decls[c.d].is_sel();
            s.rule = "enums with integer, newtype, fieldless-enum and tuple selectors, overlapping literal/alternative/range/guard/binding patterns and a default variant anywhere; selector values near the constants of the patterns; non-trivial: a selector enum was called (distinct selector and input)";
        }
        "C07" => {
            let own = Prof { kinds: [0, 0, 100, 0], max_helpers: 2, variants: 12, many_variants: 12, end_top: 25, derive_end: 40, top_complete: 10, exact: 6, pos: 6, exec: 6, ..base() };
            s.profs = vec![(100, own)];
            s.quick = 700;
            s.cases = 20;
            s.exhaust = true;
            s.nontrivial = |p, c, s| matches!(p.decls[c.d].kind, Kind::Fieldless(..)) && s.seen > 0;
            s.rule = "fieldless enums over every repr, with explicit, implicit, negative and extreme discriminants; all 256 values of one-byte reprs, all 65536 values of some two-byte reprs, neighbours and byte swaps of every discriminant otherwise; non-trivial: the integer of a fieldless enum was examined";
        }
        "C08" => {
            let own = Prof { streaming: true, top_complete: 0, exact: 0, pos: 12, hostile: 0, structural: 100, ..base() };
            let lib = Prof { streaming: true, top_complete: 0, exact: 0, pos: 0, hostile: 0, max_helpers: 1, kinds: [10, 0, 15, 75], ..base() };
            s.profs = vec![(85, own), (15, lib)];
            s.quick = 850;
            s.clean = 95;
            s.prefixes = true;
            s.nontrivial = |_, _, _| false;
            s.rule = "declarations without Complete, Exact, inferred Option/Vec or access to the remaining length; every prefix of every accepted input (up to 300 examined bytes) and two other continuations of it; non-trivial: a distinct prefix that cuts into the examined bytes";
        }
        "C09" => {
            let own = Prof { top_complete: 30, wrap: [22, 3, 7, 7], pos: 14, kinds: [60, 22, 18, 0], end_top: 15, ..base() };
            s.profs = vec![(90, own), (10, base())];
            s.quick = 750;
            s.clean = 30;
            s.twin = Some(twins::no_complete);
            s.rel = Rel::Complete;
            s.nontrivial = |p, c, s| s.ev.contains("completed") || (s.inc && reached(p, c.d, &|d| any(d, &|a| *a == Attr::Complete)));
            s.rule = "Complete on fields (anywhere in the attribute chain) and objects; 70% truncated or damaged inputs; each also given to the same program without any Complete; non-trivial: missing data was turned into an error, or was not in spite of a Complete in a reached declaration";
        }
        "C10" => {
            let own = Prof { hostile: 70, pos: 18, max_helpers: 2, kinds: [62, 18, 8, 12], tys: [30, 4, 8, 9, 12, 7, 12, 12, 2, 4, 2, 2, 2, 0], ..base() };
            s.profs = mixed(own);
            s.cases = 60;
            s.clean = 8;
            s.hostile = true;
            s.nontrivial = |_, _, s| !s.ok;
            s.rule = "huge, negative and overflowing constants and computed amounts; 92% damaged inputs (truncations, flips, extreme numbers), a third of them repeated elsewhere in memory and later; non-trivial: distinct input whose result is Incomplete, Error or Failure";
        }
        "C11" => {
            let own = Prof { wrap: [4, 3, 34, 7], errorif: 22, exact: 35, leaf: 45, tys: [36, 4, 4, 9, 9, 7, 10, 14, 2, 4, 2, 2, 2, 0], shape: [88, 9, 3], ..base() };
            s.profs = vec![(85, own), (15, base())];
            s.nontrivial = |_, _, s| ["verify accepts", "verify rejects", "errorif", "exact rejects", "tag mismatch"].iter().any(|e| s.ev.contains(e));
            s.rule = "Verify, ErrorIf, Exact and Tag with conditions over earlier fields and the value; trailing bytes on 35% of the clean inputs; non-trivial: a Verify was evaluated, or ErrorIf, Exact or Tag rejected";
        }
        "C12" => {
            let own = Prof { exec: 38, trace: 80, pos: 10, errorif: 8, kinds: [58, 34, 8, 0], inputname: 30, ..base() };
            s.profs = vec![(85, own), (15, base())];
            s.nontrivial = |_, _, s| !s.trace.is_empty();
            s.rule = "statements that trace a value, bind, rebind a field, move the input or return, on fields, unit variants and objects; the trace is compared too; non-trivial: at least one statement or SetEndian expression was traced";
        }
        "C13" => {
            let own = Prof { extra: 60, generic_err: 60, kinds: [46, 48, 6, 0], max_helpers: 3, call: 80, setend_field: 8, ..base() };
            s.profs = vec![(90, own), (10, base())];
            s.quick = 700;
            s.twin = Some(twins::no_generic);
            s.rel = Rel::Generic;
            s.nontrivial = |p, c, s| (s.seen > 0 || !c.args.is_empty()) && (!p.decls[c.d].is_trait() || p.decls[c.d].generic_errors());
            s.rule = "selectors, up to three extra arguments and GenericErrors, called directly and from Parse attributes, with three error types; programs with GenericErrors also without it; non-trivial: the called declaration has a selector, extra arguments or GenericErrors";
        }
        "C14" => {
            let own = Prof { kinds: [0, 0, 0, 100], max_helpers: 1, ..base() };
            let us = Prof { tys: [26, 8, 14, 14, 14, 14, 6, 1, 1, 8, 1, 1, 1, 0], structural: 25, leaf: 8, pos: 0, exec: 0, ..base() };
            s.profs = vec![(65, own), (35, us)];
            s.round_trip = true;
            s.nontrivial = |p, c, s| s.seen > 0 && matches!(p.decls[c.d].kind, Kind::Direct(_));
            s.rule = "library implementations called directly on nested types with three error types, and through struct fields; encoded values as well as grown and damaged inputs; non-trivial: direct call that examined at least one byte";
        }
        "C15" => {
            let own = Prof { noalloc: true, generic_err: 0, wrap: [5, 0, 8, 7], top_debug: 0, kinds: [55, 12, 13, 20], tys: [34, 8, 0, 9, 0, 26, 12, 0, 2, 6, 2, 2, 2, 0], debug_derive: 0, ..base() };
            // arrays are not available with any error type
            let mut any = Prof { generic_err: 70, ..own.clone() };
            any.tys[5] = 0;
            s.profs = vec![(85, own), (15, any)];
            s.quick = 500;
            s.twin = Some(twins::same);
            s.rel = Rel::Accept;
            s.noalloc_twin = true;
            s.nontrivial = |_, _, s| s.seen > 0;
            s.rule = "programs using only what exists without alloc, run in both builds of the crate; non-trivial: at least one byte was examined";
        }
        "C16" => {
            s.profs = vec![(50, base()), (50, Prof { max_fields: 5, wrap: [8, 0, 14, 14], leaf: 40, exec: 14, generic_err: 3, shape: [94, 3, 3], ..base() })];
            s.quick = 650;
            s.twin = Some(twins::debugged);
            s.rel = Rel::Same;
            s.nontrivial = |_, _, s| s.seen > 0;
            s.rule = "programs and the same programs with Debug at random places of fields and objects and DebugDerive on objects, on the same inputs; non-trivial: at least one byte was examined";
        }
        "C17" => {
            s.rule = "valid declarations, each with one contradiction added; non-trivial: the unchanged declaration compiles";
        }
        "C18" => {
            s.profs = vec![(60, base()), (40, Prof { end_top: 30, derive_end: 40, shape: [55, 42, 3], kinds: [60, 25, 15, 0], wrap: [6, 4, 8, 10], ..base() })];
            s.quick = 650;
            s.twin = Some(twins::respelled);
            s.rel = Rel::Same;
            s.nontrivial = |_, _, s| s.seen > 0;
            s.rule = "programs and the same programs with other spellings (string, raw string, parentheses, aliases, split lists, trailing commas, derive or attribute, named or tuple), on the same inputs; non-trivial: at least one byte was examined";
        }
        "C19" => {
            s.profs = vec![(60, Prof { weird: 40, min_imports: 45, ..base() }), (40, Prof { weird: 60, pos: 20, exec: 15, setend_field: 10, min_imports: 45, extra: 60, probe: 50, inputname: 40, ..base() })];
            s.quick = 650;
            s.twin = Some(twins::renamed);
            s.rel = Rel::Same;
            s.nontrivial = |_, _, s| s.seen > 0;
            s.rule = "programs and the same programs with every field, argument, variable, variant, type, lifetime, type parameter and input name replaced, many of them names used inside the crate, on the same inputs; non-trivial: at least one byte was examined";
        }
        "C20" => {
            let own = Prof { params: 85, gen_more: 40, max_helpers: 2, generic_err: 15, kinds: [78, 22, 0, 0], tys: [24, 3, 3, 9, 9, 7, 22, 14, 2, 4, 2, 2, 2, 0], ..base() };
            s.profs = vec![(100, own)];
            s.quick = 600;
            s.twin = Some(twins::mono);
            s.rel = Rel::Same;
            s.nontrivial = |p, c, s| s.seen > 0 && reached(p, c.d, &|d| twins::generic(d));
            s.rule = "declarations with type parameters, lifetimes, bounds and where clauses, three instantiations each, and the same programs with one declaration per instantiation; non-trivial: a generic declaration was reached and a byte was examined";
        }
        _ => {}
    }
    let _ = b;
    Some(s)
}

fn jobs(s: &Spec, seed: u64, n: usize, from: usize) -> Vec<Job> {
    (from..from + n)
        .map(|k| {
            let mut p = gen_program(s, seed, k as u64);
            // programs of the same binary have the same edition
            p.edition = [0, 0, 2018, 0, 2024, 0, 2024, 2018][(k - from) % BINS];
            job(s, p, vec![seed, k as u64, 2], vec![seed, k as u64, 3])
        })
        .collect()
}

fn root() -> PathBuf {
    std::env::var("NDV_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn check(id: &str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" };
    let w = Work::new();
    if id == "C17" {
        return crate::reject::check(&w, seed, tier);
    }
    let Some(s) = get(id) else {
        eprintln!("unknown property {}", id);
        return 2;
    };
    let scale: f64 = std::env::var("NDV_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
    let per = ((s.quick as f64 * scale) as usize).max(8);
    let rounds = if tier == "thorough" { s.thorough } else { 1 };
    let budget = Duration::from_secs(if tier == "thorough" { 2400 } else { 400 });
    let mut st = Stats::default();
    let mut done = 0;
    let mut fails = vec![];
    for r in 0..rounds {
        let js = jobs(&s, seed, per, r * per);
        match explore(&w, &id.to_lowercase(), &s, &js, s.cases, true) {
            Err(Infra::Msg(m)) => {
                println!("ERROR {}: {}", id, m);
                return 2;
            }
            Ok((t, f)) => {
                st.merge(t);
                fails.extend(f.into_iter().map(|x| x.1));
            }
        }
        done += 1;
        if !fails.is_empty() || t0.elapsed() > budget {
            break;
        }
    }
    let explored = t0.elapsed();
    let mut replay = None;
    if !fails.is_empty() {
        println!("{}: {} of {} programs fail; reducing one", id, fails.len(), per * done);
        // the smallest program first; wrong results before declarations that do not compile
        fails.sort_by_key(|f| (f.case.is_none(), serde_json::to_string(&f.program).map_or(0, |s| s.len())));
        let first = fails.swap_remove(0);
        let budget = Duration::from_secs(if tier == "thorough" { 300 } else { 100 });
        let reduced = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| shrink(&w, &s, first.clone(), budget)));
        let mut f = reduced.unwrap_or(first);
        f.source = crate::emit::program_rs(&f.program, 0);
        replay = Some(report(&f, seed));
    }
    let viol = replay.is_some() as u32;
    let mut samples = std::mem::take(&mut st.samples);
    samples.truncate(3);
    write_evidence(
        id,
        tier,
        seed,
        serde_json::json!({
            "evaluations": st.evals,
            "distinct_nontrivial": st.nontrivial,
            "rule": s.rule,
            "samples": samples,
            "programs": st.programs,
            "declarations": st.decls,
            "related_programs": st.twins,
            "relations_checked": st.relations,
            "inputs_outside_of_the_domain": st.skipped,
            "classes": st.classes,
            "rounds": done,
            "exploration_s": explored.as_secs_f64(),
        }),
        t0,
        viol,
    );
    println!(
        "{}: {} programs ({} declarations), {} evaluations, {} non-trivial, {} relations, {:.1} s",
        id, st.programs, st.decls, st.evals, st.nontrivial, st.relations, t0.elapsed().as_secs_f64()
    );
    if let Some(p) = replay {
        println!("VIOLATION property={} replay={}", id, p);
        return 1;
    }
    0
}
pub fn report(f: &Failure, seed: u64) -> String {
    println!("--- {} ({})", f.what, f.kind);
    if let Some(c) = &f.case {
        println!("case: {}", c.show());
    }
    println!("expected: {}\ngot:      {}", f.expected, f.got.chars().take(3000).collect::<String>());
    println!("program:\n{}", f.source.split("pub fn run").next().unwrap_or(""));
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{}.json", f.property, seed));
    let _ = std::fs::write(&p, serde_json::to_string_pretty(f).unwrap_or_default());
    p.display().to_string()
}
pub fn write_evidence(id: &str, tier: &str, seed: u64, coverage: serde_json::Value, t0: Instant, viol: u32) {
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let v = serde_json::json!({
        "property": id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": [
            "the reference model of /verif/harness/src/model.rs states what the documentation of nom-derive and nom 8 describes",
            "rustc 1.88 and nom 8.0.0 are trusted",
            "declarations outside of the generated language (see DESIGN.md) are not explored",
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": viol,
    });
    let _ = std::fs::write(dir.join(format!("{}.json", id)), serde_json::to_string_pretty(&v).unwrap_or_default());
}

fn dbg(prof: &str, n: usize, seed: u64) {
    let w = Work::new();
    let Some(s) = get(prof) else { return };
    let t0 = Instant::now();
    let js = jobs(&s, seed, n, 0);
    println!("gen {:?}", t0.elapsed());
    match explore(&w, "dbg", &s, &js, s.cases, true) {
        Err(Infra::Msg(m)) => println!("INFRA {}", m),
        Ok((st, fails)) => {
            println!("{} {:?} programs {} twins {} evals {} nontrivial {} rel {} skipped {} fails {} {:?}", prof, t0.elapsed(), st.programs, st.twins, st.evals, st.nontrivial, st.relations, st.skipped, fails.len(), st.classes);
            for (k, f) in fails.iter().take(4) {
                println!("=== prog {} {} {}", k, f.kind, f.what);
                println!("{}", f.case.as_ref().map_or(String::new(), |c| c.show()));
                println!("expect {}\ngot    {}", f.expected, f.got.chars().take(1800).collect::<String>());
                if f.case.is_some() {
                    println!("{}", crate::emit::program_rs(&f.program, 0).split("pub fn run").next().unwrap_or(""));
                }
                if f.kind == "compile-twin" || f.kind == "twin" {
                    println!("TWIN {}", crate::emit::program_rs(f.twin.as_ref().unwrap(), 0).split("pub fn run").next().unwrap_or(""));
                }
            }
        }
    }
}
pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |k: usize| a.get(k).map(|s| s.as_str()).unwrap_or("");
    let code = match arg(1) {
        "check" => check(arg(2)),
        "replay" => {
            let txt = std::fs::read_to_string(arg(2)).unwrap_or_default();
            let f: Failure = match serde_json::from_str(&txt) {
                Ok(f) => f,
                Err(e) => {
                    println!("{}: {}", arg(2), e);
                    std::process::exit(2)
                }
            };
            let w = Work::new();
            if f.property == "C17" {
                std::process::exit(crate::reject::replay(&w, &f));
            }
            let Some(s) = get(&f.property) else { std::process::exit(2) };
            match replay(&w, &s, &f) {
                Ok(true) => {
                    println!("VIOLATION property={} replay={}", f.property, arg(2));
                    1
                }
                Ok(false) => {
                    println!("the failure does not occur");
                    0
                }
                Err(Infra::Msg(m)) => {
                    println!("ERROR {}", m);
                    2
                }
            }
        }
        "dbg" => {
            dbg(arg(2), arg(3).parse().unwrap_or(80), arg(4).parse().unwrap_or(1));
            0
        }
        _ => {
            println!("usage: ndv check ID | ndv replay FILE | ndv dbg ID N SEED");
            2
        }
    };
    std::process::exit(code);
}
