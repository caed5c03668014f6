//! Inputs: grown along what the model asks for, then damaged.
use crate::ast::*;
use crate::gen::{pat_lits, Rng};
use crate::model::{discs, entry_args, n_args, outcome, Er, Hint, Model};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Case {
    pub d: usize,
    pub inst: usize,
    pub ep: u8,
    pub err: u8,
    pub pad: usize,
    pub data: Vec<u8>,
    pub args: Vec<i128>,
}
impl Case {
    pub fn line(&self, prog: usize) -> String {
        let mut h = String::with_capacity(self.data.len() * 2);
        for b in &self.data {
            h.push_str(&format!("{:02x}", b));
        }
        if h.is_empty() {
            h.push('-');
        }
        let a = if self.args.is_empty() { "-".to_string() } else { self.args.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") };
        format!("{} {} {} {} {} {} {} {}", prog, self.d, self.inst, self.ep, self.err, self.pad, h, a)
    }
    pub fn show(&self) -> String {
        let mut h = String::new();
        for b in &self.data {
            h.push_str(&format!("{:02x}", b));
        }
        format!("decl {} inst {} {} err-type {} input [{}] args {:?}", self.d, self.inst, EPS[self.ep as usize].rs(), self.err, h, self.args)
    }
}
pub struct Seen {
    pub expect: String,
    pub trace: String,
    pub seen: usize,
    pub looked: bool,
    pub ev: std::collections::BTreeSet<&'static str>,
    pub rejects: Vec<(usize, usize)>,
    pub wants: Vec<(usize, usize, Hint)>,
    pub spans: Vec<crate::model::Span>,
    pub inc: bool,
    pub ok: bool,
}
impl Seen {
    pub fn answer(&self) -> String {
        format!("{}\t{}", self.expect, self.trace)
    }
}
/// what the model says (None: outside of the explored domain)
pub fn predict(p: &Program, c: &Case, noalloc: bool) -> Option<Seen> {
    let mut m = Model::new(p, &c.data);
    m.noalloc = noalloc;
    let targs: Vec<Ty> = p.decls[c.d].insts.get(c.inst).cloned().unwrap_or_default();
    let targs = if p.decls[c.d].params.is_empty() { vec![] } else { targs };
    let (sel, args) = entry_args(p, c.d, &c.args);
    let i = crate::model::Sl { a: 0, b: c.data.len() };
    let r = m.run_decl(c.d, &targs, EPS[c.ep as usize], sel, args, i);
    let expect = outcome(&r)?;
    Some(Seen {
        expect,
        trace: std::mem::take(&mut m.trace),
        seen: m.seen,
        looked: m.looked,
        ev: std::mem::take(&mut m.ev),
        rejects: m.rejects,
        wants: m.wants,
        spans: m.spans,
        inc: matches!(r, Err(Er::Inc(_))),
        ok: r.is_ok(),
    })
}

#[derive(Clone, Default)]
pub struct Lits {
    pub ints: Vec<i128>,
}
fn walk_e(e: &E, o: &mut Vec<i128>) {
    match e {
        E::Lit(n) => o.push(*n as i128),
        E::Add(a, b) | E::Sub(a, b) => {
            walk_e(a, o);
            walk_e(b, o);
        }
        E::Mul(a, _) | E::And(a, _) | E::Shr(a, _) => walk_e(a, o),
        E::If(c, a, b) => {
            walk_b(c, o);
            walk_e(a, o);
            walk_e(b, o);
        }
        _ => {}
    }
}
fn walk_b(b: &B, o: &mut Vec<i128>) {
    match b {
        B::Cmp(_, x, y) => {
            walk_e(x, o);
            walk_e(y, o);
        }
        B::Raw(_, _, n, _) => o.push(*n as i128),
        B::LenGt(_, _, n) => o.push(*n as i128),
        B::Not(a) => walk_b(a, o),
        B::And(x, y) | B::Or(x, y) => {
            walk_b(x, o);
            walk_b(y, o);
        }
        _ => {}
    }
}
fn walk_at(a: &Attr, o: &mut Vec<i128>) {
    match a {
        Attr::AlignBefore(e) | Attr::AlignAfter(e) | Attr::SkipBefore(e) | Attr::SkipAfter(e) | Attr::Move(e) | Attr::MoveAbs(e) | Attr::Count(e) | Attr::Take(e) => walk_e(e, o),
        Attr::ErrorIf(b) | Attr::Cond(b) | Attr::Verify(b) => walk_b(b, o),
        _ => {}
    }
}
/// integers appearing in the program: interesting input values
pub fn lits(p: &Program) -> Lits {
    let mut o = vec![];
    for d in &p.decls {
        for a in &d.top {
            walk_at(&a.a, &mut o);
        }
        for f in d.fields() {
            for a in &f.attrs {
                walk_at(&a.a, &mut o);
            }
        }
        match &d.kind {
            Kind::SelEnum(_, vs) => {
                for v in vs {
                    pat_lits(&v.sel, &mut o);
                    if let Pat::Guard(_, b) = &v.sel {
                        walk_b(b, &mut o);
                    }
                }
            }
            Kind::Fieldless(r, vs) => o.extend(discs(*r, vs)),
            _ => {}
        }
    }
    o.sort();
    o.dedup();
    o.truncate(300);
    Lits { ints: o }
}
pub fn put(v: i128, n: usize, be: bool) -> Vec<u8> {
    let b = v.to_be_bytes();
    let mut o: Vec<u8> = b[16 - n.min(16)..].to_vec();
    if !be {
        o.reverse();
    }
    o
}
pub fn int(r: &mut Rng, l: &Lits, bits: u32) -> i128 {
    match r.below(12) {
        0..=3 if !l.ints.is_empty() => r.pick(&l.ints).wrapping_add(*r.pick(&[0, 0, 0, 0, 0, 1, -1])),
        4..=7 => r.below(9) as i128,
        8 => {
            let b = *r.pick(&[8, 16, 32, 64, 127, bits.min(127)]);
            (1i128 << (b - 1)) - 1 + r.below(3) as i128
        }
        9 => -(r.below(4) as i128),
        10 => r.below(256) as i128,
        _ => (r.u64() as i128) << 64 | r.u64() as i128,
    }
}
fn fill(r: &mut Rng, l: &Lits, p: &Program, h: &Hint, n: usize) -> Vec<u8> {
    let raw = |r: &mut Rng, n: usize| -> Vec<u8> {
        if r.p(40) {
            (0..n).map(|_| r.u64() as u8).collect()
        } else if r.p(60) {
            (0..n).map(|_| r.below(8) as u8).collect()
        } else {
            (0..n).map(|k| (k as u8).wrapping_add(1)).collect()
        }
    };
    match h {
        Hint::Int(q, be) if n == q.size() => {
            if r.p(75) || q.size() == 1 {
                put(int(r, l, n as u32 * 8), n, *be ^ r.p(8))
            } else {
                raw(r, n)
            }
        }
        Hint::Len(_, be) => {
            let v = match r.below(14) {
                0..=9 => r.below(5) as i128,
                10 => r.below(20) as i128,
                11 => int(r, l, n as u32 * 8),
                12 => -1,
                _ => 1i128 << (n as u32 * 8 - 1).min(120),
            };
            put(v, n, *be)
        }
        Hint::Bytes(b) if n <= b.len() => {
            if r.p(92) {
                b[..n].to_vec()
            } else {
                raw(r, n)
            }
        }
        Hint::Disc(_, be) => {
            let ds: Vec<i128> = p
                .decls
                .iter()
                .filter_map(|d| if let Kind::Fieldless(q, v) = &d.kind { (q.size() == n).then(|| discs(*q, v)) } else { None })
                .flatten()
                .collect();
            if !ds.is_empty() && r.p(88) {
                put(*r.pick(&ds), n, *be)
            } else {
                put(int(r, l, n as u32 * 8), n, *be)
            }
        }
        Hint::Utf8 => {
            let mut o = vec![];
            while o.len() < n {
                let s = *r.pick(&["a", "b", "é", "€", "x", " ", "\"", "\0"]);
                if o.len() + s.len() <= n {
                    o.extend_from_slice(s.as_bytes());
                } else {
                    o.push(b'z');
                }
            }
            if r.p(10) {
                let k = r.below(n);
                if k < o.len() {
                    o[k] = 0xc3;
                }
            }
            o
        }
        _ => raw(r, n),
    }
}
pub fn gen_args(r: &mut Rng, p: &Program, d: usize, l: &Lits) -> Vec<i128> {
    let dd = &p.decls[d];
    let mut own = vec![];
    let mut out = vec![];
    if let Kind::SelEnum(st, vs) = &dd.kind {
        for v in vs {
            pat_lits(&v.sel, &mut own);
        }
        let one = |r: &mut Rng| -> i128 {
            if !own.is_empty() && r.p(75) {
                r.pick(&own).wrapping_add(*r.pick(&[0, 0, 0, 0, 0, 0, 0, 1, -1]))
            } else {
                int(r, l, 32)
            }
        };
        match st {
            SelTy::Fieldless(n) => {
                if let Kind::Fieldless(_, v) = &p.decls[*n].kind {
                    out.push(r.below(v.len()) as i128);
                }
            }
            SelTy::Pair(..) => {
                out.push(one(r));
                out.push(one(r));
            }
            _ => out.push(one(r)),
        }
    }
    let n = n_args(p, d);
    while out.len() < n {
        let k = out.len();
        let t = &dd.extra[k + dd.extra.len() - n].1;
        out.push(match t {
            Ty::Bool | Ty::Endian => r.below(2) as i128,
            _ => int(r, l, 32),
        });
    }
    out
}
pub struct Plan {
    /// percentage of cases kept undamaged
    pub clean: u32,
    pub hostile: bool,
}
const STEPS: usize = 60;
pub fn gen_case(r: &mut Rng, p: &Program, d: usize, l: &Lits, plan: &Plan, noalloc: bool) -> Option<Case> {
    let dd = &p.decls[d];
    let ninst = if dd.params.is_empty() { 1 } else { dd.insts.len() };
    let mut c = Case {
        d,
        inst: r.below(ninst),
        ep: r.below(3) as u8,
        err: r.below(crate::emit::err_kinds(p, d)) as u8,
        pad: r.below(24),
        data: vec![],
        args: gen_args(r, p, d, l),
    };
    let fix_sel = r.p(if plan.hostile { 60 } else { 85 });
    let fix_rej = r.p(if plan.hostile { 50 } else { 85 });
    for _ in 0..8 {
        // a selector value that matches something, most of the time
        if !fix_sel {
            break;
        }
        match predict(p, &c, noalloc) {
            Some(s) if s.ev.contains("no variant") && s.seen == 0 => c.args = gen_args(r, p, d, l),
            _ => break,
        }
    }
    let mut rer = 0;
    for _ in 0..STEPS {
        let Some(s) = predict(p, &c, noalloc) else { break };
        if s.ok {
            break;
        }
        if s.inc {
            let Some((pos, n, h)) = s.wants.last().cloned() else { break };
            if pos + n > 4096 {
                break;
            }
            c.data.truncate(pos.max(c.data.len()));
            while c.data.len() < pos {
                c.data.push(r.below(4) as u8);
            }
            if c.data.len() >= pos + n {
                break;
            }
            if h == Hint::Pad {
                while c.data.len() < pos + n {
                    c.data.push(r.u64() as u8);
                }
            } else {
                c.data.truncate(pos);
                let f = fill(r, l, p, &h, n);
                c.data.extend_from_slice(&f);
                while c.data.len() < pos + n {
                    c.data.push(0);
                }
            }
        } else if fix_rej && rer < 25 {
            rer += 1;
            // give the bytes that were refused other values
            if let Some(&(a, b)) = s.rejects.last() {
                let sp: Vec<_> = s.spans.iter().filter(|x| x.pos >= a && x.pos + x.n <= b.max(a + 1)).cloned().collect();
                if sp.is_empty() {
                    let sp: Vec<_> = s.spans.clone();
                    if sp.is_empty() {
                        break;
                    }
                    let x = r.pick(&sp).clone();
                    let f = fill(r, l, p, &x.hint, x.n);
                    c.data[x.pos..x.pos + x.n].copy_from_slice(&f[..x.n]);
                } else {
                    for x in sp {
                        if x.pos + x.n <= c.data.len() {
                            let f = fill(r, l, p, &x.hint, x.n);
                            if f.len() == x.n {
                                c.data[x.pos..x.pos + x.n].copy_from_slice(&f);
                            }
                        }
                    }
                }
            } else if !s.spans.is_empty() {
                let x = r.pick(&s.spans).clone();
                let f = fill(r, l, p, &x.hint, x.n);
                if f.len() == x.n && x.pos + x.n <= c.data.len() {
                    c.data[x.pos..x.pos + x.n].copy_from_slice(&f);
                }
            } else {
                break;
            }
        } else {
            break;
        }
    }
    if !r.p(plan.clean) {
        damage(r, &mut c, l, plan);
    } else if r.p(60) {
        let n = r.below(9);
        for _ in 0..n {
            let b = r.u64() as u8;
            c.data.push(b);
        }
    }
    Some(c)
}
fn damage(r: &mut Rng, c: &mut Case, l: &Lits, plan: &Plan) {
    let times = if plan.hostile { 1 + r.below(4) } else { 1 };
    for _ in 0..times {
        let n = c.data.len();
        match r.below(8) {
            0 | 1 if n > 0 => {
                let k = r.below(n);
                c.data.truncate(k);
            }
            2 if n > 0 => {
                let k = r.below(n);
                c.data[k] ^= 1 << r.below(8);
            }
            3 if n > 0 => {
                let k = r.below(n);
                c.data[k] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff, 0xfe, 0xf0, 0xe0]);
            }
            4 if n > 0 => {
                let w = *r.pick(&[1, 2, 4, 8]);
                let k = r.below(n);
                let v = if plan.hostile && r.p(60) { *r.pick(&[-1, i64::MAX as i128, i64::MIN as i128, u32::MAX as i128, i32::MIN as i128, 0xffff, 0x8000, 1 << 32, 1 << 60]) } else { int(r, l, 64) };
                let b = put(v, w, r.p(50));
                for (j, x) in b.into_iter().enumerate() {
                    if k + j < n {
                        c.data[k + j] = x;
                    }
                }
            }
            5 if n > 0 => {
                let k = r.below(n);
                c.data.remove(k);
            }
            6 => {
                let k = r.below(n + 1);
                let b = r.u64() as u8;
                c.data.insert(k, b);
            }
            _ => {
                let m = r.below(20);
                for _ in 0..m {
                    let b = if r.p(50) { r.u64() as u8 } else { 0 };
                    c.data.push(b);
                }
            }
        }
    }
}

/// a value of a library type, encoded and printed without looking at the model
pub fn encode(r: &mut Rng, t: &Ty, be: bool, last: bool, out: &mut Vec<u8>) -> Option<String> {
    Some(match t {
        Ty::Prim(p) => {
            let n = p.size();
            let b: Vec<u8> = if r.p(60) { (0..n).map(|_| r.u64() as u8).collect() } else { put(int(r, &Lits::default(), n as u32 * 8), n, true) };
            let mut v = 0u128;
            for x in &b {
                v = v << 8 | *x as u128;
            }
            let mut w = b.clone();
            if !be {
                w.reverse();
            }
            out.extend(w);
            match p {
                Prim::F32 | Prim::F64 => format!("f{}", v),
                p if p.signed() => {
                    let sh = 128 - 8 * n as u32;
                    format!("{}", ((v << sh) as i128) >> sh)
                }
                _ => format!("{}", v),
            }
        }
        Ty::Str => {
            let s: String = (0..r.below(6)).map(|_| *r.pick(&['a', 'Z', '0', 'é', '€', '😀', '"', '\\', '\0', '\n'])).collect();
            out.extend((s.len() as u32).to_be_bytes());
            out.extend(s.as_bytes());
            format!("{:?}", s)
        }
        Ty::Opt(t) => {
            if last && r.p(25) && matches!(**t, Ty::Prim(_) | Ty::Str) {
                "~".into()
            } else {
                format!("?{}", encode(r, t, be, last, out)?)
            }
        }
        Ty::Vec(t) if last && !open(t) => {
            let mut s = String::from("[");
            for _ in 0..r.below(5) {
                let n = out.len();
                s.push_str(&encode(r, t, be, false, out)?);
                s.push(',');
                if out.len() == n {
                    return None;
                }
            }
            s.push(']');
            s
        }
        Ty::Arr(t, n) => {
            let mut s = String::from("[");
            for _ in 0..*n {
                let before = out.len();
                s.push_str(&encode(r, t, be, false, out)?);
                s.push(',');
                if out.len() == before {
                    // elements that consume nothing are refused
                    return None;
                }
            }
            s.push(']');
            s
        }
        Ty::Pair(a, b) => {
            let x = encode(r, a, be, false, out)?;
            let y = encode(r, b, be, last, out)?;
            format!("({},{})", x, y)
        }
        Ty::LenData(p) => {
            let n = r.below(9);
            out.extend(put(n as i128, p.size(), be));
            let at = out.len();
            out.extend((0..n).map(|_| r.u64() as u8));
            format!("@{}+{}", at, n)
        }
        _ => return None,
    })
}
/// accepts the empty input
fn open(t: &Ty) -> bool {
    match t {
        Ty::Opt(_) | Ty::Vec(_) => true,
        Ty::Arr(t, n) => *n == 0 || open(t),
        Ty::Pair(a, b) => open(a) && open(b),
        _ => false,
    }
}
/// does an encoding extend to the end of the input
fn greedy(t: &Ty) -> bool {
    match t {
        Ty::Opt(_) | Ty::Vec(_) => true,
        Ty::Arr(t, n) => *n > 0 && greedy(t),
        Ty::Pair(a, b) => greedy(a) || greedy(b),
        _ => false,
    }
}
/// encoded values with the answer they have to give
pub fn round_trip(r: &mut Rng, p: &Program, d: usize) -> Option<(Case, String)> {
    let Kind::Direct(t) = &p.decls[d].kind else { return None };
    fn named(t: &Ty) -> bool {
        match t {
            Ty::Opt(t) | Ty::Vec(t) | Ty::Arr(t, _) => named(t),
            Ty::Pair(a, b) => named(a) || named(b),
            Ty::Named(..) => true,
            _ => false,
        }
    }
    if named(t) {
        return None;
    }
    let ep = r.below(3) as u8;
    let mut data = vec![];
    let v = encode(r, t, ep != 2, true, &mut data)?;
    let n = data.len();
    if !greedy(t) {
        data.extend((0..r.below(9)).map(|_| r.u64() as u8));
    }
    let want = format!("O {}+{} {}\t", n, data.len() - n, v);
    let ne = crate::emit::err_kinds(p, d);
    Some((Case { d, inst: 0, ep, err: r.below(ne) as u8, pad: r.below(24), data, args: vec![] }, want))
}
