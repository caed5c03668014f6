//! Generated programs x generated inputs, against the model and against related programs.
use crate::ast::*;
use crate::cases::*;
use crate::driver::*;
use crate::emit::program_rs;
use crate::gen::{Gen, Prof, Rng};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};

/// a program whose results are related to those of another one
#[derive(Clone)]
pub struct Twin {
    pub prog: Program,
    /// (decl, inst) of the original -> (decl, inst) of the twin; None: the same
    pub map: Option<BTreeMap<(usize, usize), (usize, usize)>>,
}
pub type TwinFn = fn(&Program, &mut Rng) -> Option<Twin>;

#[derive(Clone, Copy, PartialEq)]
pub enum Rel {
    /// only the model
    None,
    /// same answer and trace
    Same,
    /// the twin lacks Complete: same unless it is Incomplete
    Complete,
    /// same when one of them succeeds (no-alloc build)
    Accept,
    /// the twin lacks GenericErrors
    Generic,
}
pub type Nontrivial = fn(&Program, &Case, &Seen) -> bool;

#[derive(Clone)]
pub struct Spec {
    pub id: &'static str,
    pub profs: Vec<(u32, Prof)>,
    pub quick: usize,
    pub thorough: usize,
    pub cases: usize,
    pub clean: u32,
    pub hostile: bool,
    pub twin: Option<TwinFn>,
    pub rel: Rel,
    pub noalloc_twin: bool,
    /// all prefixes of accepted inputs
    pub prefixes: bool,
    /// all values of fieldless enums
    pub exhaust: bool,
    /// parse and parse_be, and all three entry points of fixed-endian declarations, agree
    pub entry: bool,
    /// values of library types encoded independently of the model
    pub round_trip: bool,
    pub nontrivial: Nontrivial,
    pub rule: &'static str,
}

#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Failure {
    pub property: String,
    /// compile | model | twin | crash
    pub kind: String,
    pub what: String,
    pub program: Program,
    pub twin: Option<Program>,
    pub twin_noalloc: bool,
    pub twin_seed: Vec<u64>,
    pub case: Option<Case>,
    pub expected: String,
    pub got: String,
    pub source: String,
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub skipped: u64,
    pub nontrivial: u64,
    pub programs: u64,
    pub decls: u64,
    pub twins: u64,
    pub relations: u64,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    /// cases of the current program already counted
    dist: HashSet<u64>,
}
fn case_hash(c: &Case) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (c.d, c.inst, c.ep, c.err, &c.data, &c.args).hash(&mut h);
    h.finish()
}
impl Stats {
    fn add(&mut self, k: &str) {
        *self.classes.entry(k.to_string()).or_default() += 1;
    }
    pub fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.skipped += o.skipped;
        self.nontrivial += o.nontrivial;
        self.programs += o.programs;
        self.decls += o.decls;
        self.twins += o.twins;
        self.relations += o.relations;
        for (k, v) in o.classes {
            *self.classes.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
    }
}

pub fn idn(id: &str) -> u64 {
    id.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64))
}
pub fn gen_program(spec: &Spec, seed: u64, k: u64) -> Program {
    let mut r = Rng::new(&[seed, idn(spec.id), k, 1]);
    let ws: Vec<u32> = spec.profs.iter().map(|p| p.0).collect();
    let f = &spec.profs[r.w(&ws)].1;
    Gen::new(r, f).program()
}

pub struct Job {
    pub prog: Program,
    pub twin: Option<Twin>,
    pub twin_seed: Vec<u64>,
    pub case_seed: Vec<u64>,
    /// cases tried before the generated ones
    pub extra: Vec<Case>,
}
pub fn job(spec: &Spec, prog: Program, twin_seed: Vec<u64>, case_seed: Vec<u64>) -> Job {
    let twin = spec.twin.and_then(|f| f(&prog, &mut Rng::new(&twin_seed)));
    Job { prog, twin, twin_seed, case_seed, extra: vec![] }
}

fn fresh(spec: &Spec, job: &Job, kind: &str, what: &str, case: Option<Case>, expected: &str, got: &str) -> Failure {
    Failure {
        property: spec.id.into(),
        kind: kind.into(),
        what: what.into(),
        program: job.prog.clone(),
        twin: job.twin.as_ref().map(|t| t.prog.clone()),
        twin_noalloc: spec.noalloc_twin,
        twin_seed: job.twin_seed.clone(),
        case,
        expected: expected.into(),
        got: got.into(),
        source: String::new(),
    }
}

/// the relation between the answers of a program and of its twin
fn related(rel: Rel, a: &str, b: &str) -> Result<bool, &'static str> {
    let ok = |s: &str| s.starts_with("O ");
    match rel {
        Rel::None => Ok(false),
        Rel::Same | Rel::Generic => {
            if a == b {
                Ok(true)
            } else {
                Err("the two equivalent programs disagree")
            }
        }
        Rel::Accept => {
            if !ok(a) && !ok(b) {
                return Ok(true);
            }
            if a == b {
                Ok(true)
            } else {
                Err("the builds with and without alloc disagree")
            }
        }
        Rel::Complete => {
            if b.starts_with("I ") {
                return Ok(false);
            }
            if a == b {
                Ok(true)
            } else {
                Err("Complete changed a result that was not Incomplete")
            }
        }
    }
}
fn twin_case(t: &Twin, c: &Case) -> Option<Case> {
    let mut c = c.clone();
    if let Some(m) = &t.map {
        let (d, i) = m.get(&(c.d, c.inst))?;
        c.d = *d;
        c.inst = *i;
    }
    if c.err as usize >= crate::emit::err_kinds(&t.prog, c.d) {
        c.err = 0;
    }
    Some(c)
}

struct Servers<'a> {
    main: &'a mut Server,
    twin: Option<&'a mut Server>,
}

/// run cases of one program; stops at the first disagreement
fn run_cases(spec: &Spec, job: &Job, k: usize, twin_at: Option<usize>, sv: &mut Servers, cases: &[Case], st: Option<&mut Stats>) -> Res<Option<Failure>> {
    let mut dummy = Stats::default();
    let count = st.is_some();
    let st = st.unwrap_or(&mut dummy);
    let mut lines = vec![];
    let mut seen = vec![];
    let mut used = vec![];
    for c in cases {
        match predict(&job.prog, c, false) {
            Some(s) => {
                lines.push(c.line(k));
                seen.push(s);
                used.push(c);
            }
            None => st.skipped += 1,
        }
    }
    let got = sv.main.run(&lines)?;
    let mut tl = vec![];
    let mut ti = vec![];
    if let (Some(tk), Some(t)) = (twin_at, &job.twin) {
        for (n, c) in used.iter().enumerate() {
            if let Some(c2) = twin_case(t, c) {
                tl.push(c2.line(tk));
                ti.push(n);
            }
        }
    }
    let tgot = if tl.is_empty() {
        vec![]
    } else {
        match &mut sv.twin {
            Some(s) => s.run(&tl)?,
            None => sv.main.run(&tl)?,
        }
    };
    let mut fail = None;
    for (n, s) in seen.iter().enumerate() {
        let c = used[n];
        if got[n] == SKIP {
            break;
        }
        if count {
            st.evals += 1;
            st.add(match s.expect.as_bytes()[0] {
                b'O' => "outcome: value",
                b'I' => "outcome: incomplete",
                b'E' => "outcome: error",
                _ => "outcome: failure",
            });
            for e in &s.ev {
                st.add(e);
            }
            if (spec.nontrivial)(&job.prog, c, s) && st.dist.insert(case_hash(c)) {
                st.nontrivial += 1;
                if st.samples.is_empty() {
                    st.samples.push(serde_json::json!({"program": program_rs(&job.prog, k).split("pub fn run").next().unwrap_or("").chars().take(2500).collect::<String>(), "case": c.show(), "answer": got[n]}));
                }
            }
        }
        if fail.is_none() && got[n] != s.answer() {
            let kind = if got[n].starts_with("X ") { "crash" } else { "model" };
            fail = Some(fresh(spec, job, kind, "the result differs from the reference model", Some(c.clone()), &s.answer(), &got[n]));
        }
    }
    for (j, n) in ti.iter().enumerate() {
        if got[*n] == SKIP || tgot[j] == SKIP {
            break;
        }
        st.relations += 1;
        match related(spec.rel, &got[*n], &tgot[j]) {
            Ok(_) => {}
            Err(w) if fail.is_none() => {
                fail = Some(fresh(spec, job, "twin", w, Some(used[*n].clone()), &tgot[j], &got[*n]));
            }
            _ => {}
        }
    }
    if fail.is_none() && spec.entry && !got.iter().any(|g| g == SKIP) {
        // results of the entry points on the same input
        let mut by: BTreeMap<(usize, usize, u8, Vec<u8>, Vec<i128>), [Option<usize>; 3]> = BTreeMap::new();
        for (n, c) in used.iter().enumerate() {
            by.entry((c.d, c.inst, c.err, c.data.clone(), c.args.clone())).or_default()[c.ep as usize] = Some(n);
        }
        for (_, v) in by {
            if let [Some(a), Some(b), l] = v {
                // hand-written implementations may tell the entry points apart
                if let Kind::Direct(t) = &job.prog.decls[used[a].d].kind {
                    if has_manual(t) {
                        continue;
                    }
                }
                st.relations += 1;
                if got[a] != got[b] {
                    fail = Some(fresh(spec, job, "model", "parse and parse_be disagree", Some(used[a].clone()), &got[b], &got[a]));
                    break;
                }
                let d = &job.prog.decls[used[a].d];
                let fixed = d.derive != Derive::Nom || d.has(|a| matches!(a, Attr::Be | Attr::Le));
                if let (true, Some(l)) = (fixed, l) {
                    st.relations += 1;
                    if got[l] != got[a] {
                        fail = Some(fresh(spec, job, "model", "entry points of a declaration with a fixed endianness disagree", Some(used[l].clone()), &got[a], &got[l]));
                        break;
                    }
                }
            }
        }
    }
    Ok(fail)
}

/// every prefix of an accepted input, and other bytes after it
fn run_prefixes(spec: &Spec, job: &Job, k: usize, sv: &mut Servers, cases: &[Case], st: &mut Stats, r: &mut Rng) -> Res<Option<Failure>> {
    for c in cases {
        let Some(s) = predict(&job.prog, c, false) else { continue };
        if !s.ok || s.looked || s.seen > 300 {
            continue;
        }
        let n = c.data.len();
        let mut group: Vec<Case> = (0..=n).map(|k| Case { data: c.data[..k].to_vec(), ..c.clone() }).collect();
        // other bytes after the examined part
        for _ in 0..2 {
            let mut d = c.data[..s.seen].to_vec();
            for _ in 0..r.below(20) {
                d.push(r.u64() as u8);
            }
            group.push(Case { data: d, ..c.clone() });
        }
        let lines: Vec<String> = group.iter().map(|c| c.line(k)).collect();
        let got = sv.main.run(&lines)?;
        st.evals += group.len() as u64;
        let bad = |i: usize, what: &str, want: String| Some(fresh(spec, job, "model", what, Some(group[i].clone()), &want, &got[i]));
        if let Some(i) = got.iter().position(|g| g.starts_with("X ")) {
            return Ok(bad(i, "no answer", "an answer".into()));
        }
        // value without position of the remainder length
        let strip = |s: &str| -> Option<(String, String)> {
            let s = s.strip_prefix("O ")?;
            let (rem, v) = s.split_once(' ')?;
            let (a, _) = rem.split_once('+')?;
            Some((a.to_string(), v.to_string()))
        };
        let full = strip(&got[n]);
        if full.is_none() {
            return Ok(bad(n, "the accepted input is not accepted", s.answer()));
        }
        let inc = |s: &str| -> Option<usize> { s.strip_prefix("I ")?.split('\t').next()?.parse().ok() };
        for i in 0..=n {
            st.relations += 1;
            if i < s.seen {
                match inc(&got[i]) {
                    None => return Ok(bad(i, "a truncated input is not Incomplete with a size", "I <size>".into())),
                    Some(m) => {
                        if st.dist.insert(case_hash(&group[i])) {
                            st.nontrivial += 1;
                        }
                        // fewer bytes than announced: still Incomplete, and the announced end does not move
                        for j in i + 1..(i + m).min(n + 1) {
                            match inc(&got[j]) {
                                Some(m2) if j + m2 == i + m => {}
                                _ => return Ok(bad(j, "Needed was not the number of missing bytes", format!("I {}", (i + m) - j))),
                            }
                        }
                        if i + m > s.seen.max(n) {
                            return Ok(bad(i, "Needed is more than what made the parse succeed", format!("I <= {}", s.seen.max(n) - i)));
                        }
                        let c2 = predict(&job.prog, &group[i], false);
                        if let Some(c2) = c2 {
                            if c2.answer() != got[i] {
                                return Ok(bad(i, "the result differs from the reference model", c2.answer()));
                            }
                        }
                    }
                }
            } else if strip(&got[i]) != full {
                return Ok(bad(i, "bytes after the examined part changed the value", got[n].clone()));
            }
        }
        for i in n + 1..group.len() {
            st.relations += 1;
            if strip(&got[i]) != full {
                return Ok(bad(i, "bytes after the examined part changed the value", got[n].clone()));
            }
        }
    }
    Ok(None)
}

fn cases_of(spec: &Spec, job: &Job, n: usize) -> Vec<Case> {
    let mut r = Rng::new(&job.case_seed);
    let l = lits(&job.prog);
    let plan = Plan { clean: spec.clean, hostile: spec.hostile };
    let mut out = job.extra.clone();
    let nd = job.prog.decls.len();
    for _ in 0..n {
        let d = if r.p(60) { nd - 1 } else { r.below(nd) };
        if let Some(c) = gen_case(&mut r, &job.prog, d, &l, &plan, spec.noalloc_twin) {
            if spec.entry && r.p(60) {
                for e in 0..3u8 {
                    out.push(Case { ep: e, ..c.clone() });
                }
            } else {
                out.push(c);
            }
        }
    }
    if spec.hostile {
        // the same inputs again, elsewhere in memory and in another order
        let m = out.len();
        for _ in 0..m / 3 {
            let mut c = out[r.below(m)].clone();
            c.pad = r.below(64);
            out.push(c);
        }
    }
    if spec.round_trip {
        for _ in 0..n / 2 {
            let d = if r.p(60) { nd - 1 } else { r.below(nd) };
            if let Some((c, want)) = round_trip(&mut r, &job.prog, d) {
                if let Some(s) = predict(&job.prog, &c, false) {
                    assert!(s.answer() == want, "the model and the encoder disagree: {:?} {:?} {} {}", job.prog.decls[d].kind, c, s.answer(), want);
                    out.push(c);
                }
            }
        }
    }
    if spec.exhaust {
        for (d, dd) in job.prog.decls.iter().enumerate() {
            if let Kind::Fieldless(q, vs) = &dd.kind {
                let ne = crate::emit::err_kinds(&job.prog, d);
                let mut vals: Vec<i128> = vec![];
                match q.size() {
                    1 => vals.extend(0..256),
                    2 => {
                        if r.p(30) {
                            vals.extend(0..65536)
                        } else {
                            vals.extend((0..600).map(|_| r.below(65536) as i128))
                        }
                    }
                    _ => vals.extend((0..200).map(|_| r.u64() as i128)),
                }
                for x in crate::model::discs(*q, vs) {
                    vals.extend([x, x - 1, x + 1, -x, x << 8, x.swap_bytes() >> (128 - q.size() * 8)]);
                }
                let full = vals.len() > 10000;
                for v in vals {
                    for ep in 0..if full { 1 } else { 3 } {
                        let mut data = put(v, q.size(), true);
                        // space for whatever surrounds the value
                        if r.p(50) && !full {
                            let m = r.below(4);
                            for _ in 0..m {
                                data.push(r.u64() as u8);
                            }
                        }
                        out.push(Case { d, inst: 0, ep: if full { r.below(3) as u8 } else { ep }, err: r.below(ne) as u8, pad: 0, data, args: vec![] });
                    }
                }
            }
        }
    }
    out
}

/// compile and run; at most one failure per program
pub fn explore(w: &Work, name: &str, spec: &Spec, jobs: &[Job], ncases: usize, extra_checks: bool) -> Res<(Stats, Vec<(usize, Failure)>)> {
    let n = jobs.len().div_ceil(BINS) * BINS;
    let mut srcs = vec![];
    for k in 0..n {
        srcs.push(match jobs.get(k) {
            Some(j) => program_rs(&j.prog, k),
            None => format!("pub fn run{}(d: usize, inst: usize, ep: u8, err: u8, a: &[i128], i: &[u8]) -> String {{ String::new() }}", k),
        });
    }
    let any_twin = jobs.iter().any(|j| j.twin.is_some());
    let mut nsrcs = vec![];
    if any_twin {
        for k in 0..n {
            let at = if spec.noalloc_twin { k } else { n + k };
            let s = match jobs.get(k).and_then(|j| j.twin.as_ref()) {
                Some(t) => program_rs(&t.prog, at),
                None => format!("pub fn run{}(d: usize, inst: usize, ep: u8, err: u8, a: &[i128], i: &[u8]) -> String {{ String::new() }}", at),
            };
            if spec.noalloc_twin {
                nsrcs.push(s);
            } else {
                srcs.push(s);
            }
        }
    }
    let built = build(w, name, false, &srcs)?;
    let nbuilt = if nsrcs.is_empty() { None } else { Some(build(w, &format!("{}n", name), true, &nsrcs)?) };
    let mut fails: Vec<(usize, Failure)> = vec![];
    for (k, e) in &built.errors {
        if *k < n {
            fails.push((*k, fresh(spec, &jobs[*k], "compile", "a declaration described as valid by the documentation does not compile", None, "compiles", e)));
        } else {
            fails.push((*k - n, fresh(spec, &jobs[*k - n], "compile-twin", "an equivalent declaration does not compile", None, "compiles", e)));
        }
    }
    if let Some(nb) = &nbuilt {
        for (k, e) in &nb.errors {
            fails.push((*k, fresh(spec, &jobs[*k], "compile-twin", "a declaration does not compile without the alloc feature", None, "compiles", e)));
        }
    }
    let results: Vec<Res<(Stats, Vec<(usize, Failure)>)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..BINS)
            .map(|b| {
                let built = &built;
                let nbuilt = &nbuilt;
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || -> Res<(Stats, Vec<(usize, Failure)>)> {
                    let mut st = Stats::default();
                    let mut fails = vec![];
                    let mut main = Server::new(&built.bins[b]);
                    let mut tw = nbuilt.as_ref().map(|nb| Server::new(&nb.bins[b]));
                    for k in (b..jobs.len()).step_by(BINS) {
                        if built.place[k].is_none() {
                            continue;
                        }
                        // each costs a long wait: enough to report one
                        if HANGS.load(std::sync::atomic::Ordering::SeqCst) > 1 {
                            break;
                        }
                        let j = &jobs[k];
                        st.programs += 1;
                        st.decls += j.prog.decls.len() as u64;
                        let twin_at = match (&j.twin, nbuilt) {
                            (None, _) => None,
                            (Some(_), Some(nb)) => nb.place[k].map(|_| k),
                            (Some(_), None) => built.place[n + k].map(|_| n + k),
                        };
                        st.twins += twin_at.is_some() as u64;
                        let cases = cases_of(spec, j, ncases);
                        let mut sv = Servers { main: &mut main, twin: tw.as_mut() };
                        let mut part = Stats::default();
                        let mut f = run_cases(spec, j, k, twin_at, &mut sv, &cases, Some(&mut part))?;
                        if f.is_none() && spec.prefixes && extra_checks {
                            let mut r = Rng::new(&j.case_seed);
                            let lim = cases.len().min(40);
                            f = run_prefixes(spec, j, k, &mut sv, &cases[..lim], &mut part, &mut r)?;
                        }
                        if k >= 3 * BINS {
                            part.samples.clear();
                        }
                        st.merge(part);
                        if let Some(f) = f {
                            fails.push((k, f));
                        }
                    }
                    Ok((st, fails))
                }).expect("thread")
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|e| infra(format!("harness thread panicked: {:?}", e.downcast_ref::<String>())))).collect()
    });
    let mut st = Stats::default();
    for r in results {
        let (s, f) = r?;
        st.merge(s);
        fails.extend(f);
    }
    fails.sort_by_key(|f| f.0);
    Ok((st, fails))
}

/// smaller input for a failure, on the built package
fn shrink_case(w: &Work, name: &str, spec: &Spec, job: &Job, f: &Failure) -> Res<Failure> {
    let Some(c0) = f.case.clone() else { return Ok(f.clone()) };
    let mut srcs = vec![program_rs(&job.prog, 0)];
    let mut nb = None;
    if let Some(t) = &job.twin {
        if spec.noalloc_twin {
            nb = Some(build(w, &format!("{}n", name), true, &[program_rs(&t.prog, 0)])?);
        } else {
            for k in 1..BINS {
                srcs.push(format!("pub fn run{}(d: usize, inst: usize, ep: u8, err: u8, a: &[i128], i: &[u8]) -> String {{ String::new() }}", k));
            }
            srcs.push(program_rs(&t.prog, BINS));
        }
    }
    let b = build(w, name, false, &srcs)?;
    if b.place[0].is_none() {
        return Ok(f.clone());
    }
    let mut main = Server::new(&b.bins[0]);
    let mut tw = nb.as_ref().map(|n| Server::new(&n.bins[0]));
    let twin_at = job.twin.as_ref().map(|_| if nb.is_some() { 0 } else { BINS });
    let mut best = f.clone();
    let mut cur = c0;
    let mut sv = Servers { main: &mut main, twin: tw.as_mut() };
    let mut s2 = spec.clone();
    s2.prefixes = false;
    s2.entry = false;
    for _ in 0..12 {
        let mut cands: Vec<Case> = vec![];
        let n = cur.data.len();
        let mut len = n;
        while len > 0 {
            let mut a = 0;
            while a < n {
                let mut d = cur.data.clone();
                d.drain(a..(a + len).min(n));
                cands.push(Case { data: d, ..cur.clone() });
                a += len;
            }
            len /= 2;
        }
        for k in 0..n {
            for v in [0u8, 1, cur.data[k] >> 1] {
                if v < cur.data[k] {
                    let mut d = cur.data.clone();
                    d[k] = v;
                    cands.push(Case { data: d, ..cur.clone() });
                }
            }
        }
        for k in 0..cur.args.len() {
            for v in [0, 1] {
                if cur.args[k] != v && cur.args[k] != 0 {
                    let mut a = cur.args.clone();
                    a[k] = v;
                    cands.push(Case { args: a, ..cur.clone() });
                }
            }
        }
        if cur.pad != 0 {
            cands.push(Case { pad: 0, ..cur.clone() });
        }
        if cur.err != 0 {
            cands.push(Case { err: 0, ..cur.clone() });
        }
        cands.truncate(1500);
        match run_cases(&s2, job, 0, twin_at, &mut sv, &cands, None)? {
            Some(f) => {
                cur = f.case.clone().unwrap();
                best = f;
            }
            None => break,
        }
    }
    Ok(best)
}

/// smaller programs: remove or simplify one thing
fn smaller(p: &Program) -> Vec<Program> {
    let mut out = vec![];
    let mut push = |q: Program| {
        if q != *p && !out.contains(&q) {
            out.push(q);
        }
    };
    if p.noise != 0 {
        let mut q = p.clone();
        q.noise = 0;
        push(q);
    }
    // unused declarations become trivial
    let last = p.decls.len() - 1;
    for k in 0..=last {
        if !matches!(p.decls[k].kind, Kind::Direct(_)) && last > 0 {
            let mut q = p.clone();
            q.decls[k].kind = Kind::Direct(Ty::Prim(Prim::U8));
            q.decls[k].params.clear();
            q.decls[k].insts.clear();
            q.decls[k].extra.clear();
            q.decls[k].top.clear();
            push(q);
        }
    }
    for k in 0..p.decls.len() {
        let d = &p.decls[k];
        for n in 0..d.top.len() {
            if d.top[n].a == Attr::ExtraArgs {
                continue;
            }
            let mut q = p.clone();
            q.decls[k].top.remove(n);
            if d.top[n].a == Attr::InputName {
                q.decls[k].input = "i".into();
            }
            push(q);
        }
        if d.derive != Derive::Nom {
            let mut q = p.clone();
            q.decls[k].derive = Derive::Nom;
            push(q);
        }
        let fl = |q: &mut Program| -> Vec<*mut Vec<Field>> {
            match &mut q.decls[k].kind {
                Kind::Struct(_, f) => vec![f as *mut _],
                Kind::SelEnum(_, v) => v.iter_mut().map(|v| &mut v.fields as *mut _).collect(),
                _ => vec![],
            }
        };
        let lists: Vec<Vec<Field>> = match &d.kind {
            Kind::Struct(_, f) => vec![f.clone()],
            Kind::SelEnum(_, v) => v.iter().map(|v| v.fields.clone()).collect(),
            _ => vec![],
        };
        for (li, l) in lists.iter().enumerate() {
            let set = |nl: Vec<Field>| -> Program {
                let mut q = p.clone();
                let ptrs: Vec<*mut Vec<Field>> = fl(&mut q);
                // the pointer refers to q, which is alive
                let at = ptrs[li];
                unsafe { *at = nl };
                q
            };
            if l.len() > 3 {
                push(set(l[..l.len() / 2].to_vec()));
                push(set(l[l.len() / 2..].to_vec()));
            }
            for n in 0..l.len() {
                if l.len() > 1 {
                    let mut nl = l.clone();
                    nl.remove(n);
                    push(set(nl));
                }
                for a in 0..l[n].attrs.len() {
                    let mut nl = l.clone();
                    let x = nl[n].attrs.remove(a).a;
                    // the type follows
                    match (&x, nl[n].ty.clone()) {
                        (Attr::Cond(_), Ty::Opt(t)) => nl[n].ty = *t,
                        (Attr::Count(_) | Attr::LengthCount(_), Ty::Vec(t)) => nl[n].ty = *t,
                        _ => {}
                    }
                    push(set(nl));
                    let simpler: Vec<Attr> = match &l[n].attrs[a].a {
                        Attr::AlignBefore(e) => lit(e).into_iter().map(Attr::AlignBefore).collect(),
                        Attr::AlignAfter(e) => lit(e).into_iter().map(Attr::AlignAfter).collect(),
                        Attr::SkipBefore(e) => lit(e).into_iter().map(Attr::SkipBefore).collect(),
                        Attr::SkipAfter(e) => lit(e).into_iter().map(Attr::SkipAfter).collect(),
                        Attr::Move(e) => lit(e).into_iter().map(Attr::Move).collect(),
                        Attr::MoveAbs(e) => lit(e).into_iter().map(Attr::MoveAbs).collect(),
                        Attr::Count(e) => lit(e).into_iter().map(Attr::Count).collect(),
                        Attr::Take(e) => lit(e).into_iter().map(Attr::Take).collect(),
                        Attr::Cond(b) => blit(b).into_iter().map(Attr::Cond).collect(),
                        Attr::Verify(b) => blit(b).into_iter().map(Attr::Verify).collect(),
                        Attr::ErrorIf(b) => blit(b).into_iter().map(Attr::ErrorIf).collect(),
                        _ => vec![],
                    };
                    for s in simpler {
                        let mut nl = l.clone();
                        nl[n].attrs[a].a = s;
                        push(set(nl));
                    }
                }
                if l[n].ty != Ty::Prim(Prim::U8) {
                    let mut nl = l.clone();
                    nl[n].ty = Ty::Prim(Prim::U8);
                    nl[n].attrs.clear();
                    push(set(nl));
                }
            }
        }
        match &d.kind {
            Kind::SelEnum(st, vs) if vs.len() > 1 => {
                for n in 0..vs.len() {
                    let mut v = vs.clone();
                    v.remove(n);
                    let mut q = p.clone();
                    q.decls[k].kind = Kind::SelEnum(st.clone(), v);
                    push(q);
                }
            }
            Kind::Fieldless(r, vs) if vs.len() > 1 => {
                for n in 0..vs.len() {
                    let mut v = vs.clone();
                    v.remove(n);
                    let mut q = p.clone();
                    q.decls[k].kind = Kind::Fieldless(*r, v);
                    push(q);
                }
            }
            _ => {}
        }
    }
    // the largest reductions come first
    out.sort_by_key(|q| serde_json::to_string(q).map_or(0, |s| s.len()));
    out.truncate(120);
    out
}
fn lit(e: &E) -> Vec<E> {
    if matches!(e, E::Lit(_)) {
        vec![]
    } else {
        vec![E::Lit(1), E::Lit(2), E::Lit(0)]
    }
}
fn blit(b: &B) -> Vec<B> {
    if matches!(b, B::Lit(_)) {
        vec![]
    } else {
        vec![B::Lit(true), B::Lit(false)]
    }
}

fn has_manual(t: &Ty) -> bool {
    match t {
        Ty::Manual(_) => true,
        Ty::Opt(t) | Ty::Vec(t) | Ty::Arr(t, _) => has_manual(t),
        Ty::Pair(a, b) => has_manual(a) || has_manual(b),
        _ => false,
    }
}
fn first_error(e: &str) -> String {
    e.lines().next().unwrap_or("").to_string()
}

pub fn shrink(w: &Work, spec: &Spec, f: Failure, budget: std::time::Duration) -> Failure {
    if HANGS.load(std::sync::atomic::Ordering::SeqCst) > 0 {
        return f;
    }
    let t0 = std::time::Instant::now();
    // candidates the model refuses are expected
    std::panic::set_hook(Box::new(|_| {}));
    let mut best = f;
    for _ in 0..25 {
        if t0.elapsed() > budget {
            break;
        }
        let cands: Vec<Job> = smaller(&best.program)
            .into_iter()
            .filter_map(|q| {
                // the model refuses programs that refer to something removed
                let ok = std::panic::catch_unwind(|| {
                    let j = job(spec, q.clone(), best.twin_seed.clone(), vec![1]);
                    let _ = program_rs(&j.prog, 0);
                    if let Some(t) = &j.twin {
                        let _ = program_rs(&t.prog, 0);
                    }
                    let _ = cases_of(spec, &j, 30);
                });
                if ok.is_err() {
                    return None;
                }
                let mut j = job(spec, q, best.twin_seed.clone(), vec![1]);
                if let Some(c) = &best.case {
                    let good = std::panic::catch_unwind(|| predict(&j.prog, c, false).is_some());
                    if matches!(good, Ok(true)) && c.d < j.prog.decls.len() {
                        j.extra.push(c.clone());
                    }
                }
                Some(j)
            })
            .collect();
        if cands.is_empty() {
            break;
        }
        let mut s2 = spec.clone();
        s2.exhaust = false;
        let Ok((_, fails)) = explore(w, "shrink", &s2, &cands, 150, true) else { break };
        let next = fails.into_iter().find(|(_, g)| {
            g.kind == best.kind && (best.case.is_some() || first_error(&g.got) == first_error(&best.got))
        });
        match next {
            Some((_, g)) => best = g,
            None => break,
        }
    }
    let j = Job {
        prog: best.program.clone(),
        twin: spec.twin.and_then(|f| f(&best.program, &mut Rng::new(&best.twin_seed))),
        twin_seed: best.twin_seed.clone(),
        case_seed: vec![1],
        extra: vec![],
    };
    if best.kind == "model" || best.kind == "twin" || best.kind == "crash" {
        if let Ok(b) = shrink_case(w, "shrink", spec, &j, &best) {
            best = b;
        }
    }
    let _ = std::panic::take_hook();
    best
}

/// run the input of a replay file again
pub fn replay(w: &Work, spec: &Spec, f: &Failure) -> Res<bool> {
    let mut j = job(spec, f.program.clone(), f.twin_seed.clone(), vec![1]);
    j.extra.extend(f.case.clone());
    let (_, fails) = explore(w, "replay", spec, &[j], if f.case.is_some() { 0 } else { 20 }, true)?;
    for (_, g) in &fails {
        println!("kind: {}\nwhat: {}\nexpected: {}\ngot: {}", g.kind, g.what, g.expected, g.got);
    }
    Ok(!fails.is_empty())
}

pub fn distinct(v: &[String]) -> usize {
    v.iter().collect::<BTreeSet<_>>().len()
}
