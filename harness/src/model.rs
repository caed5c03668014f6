//! Reference interpreter of declarations: an independent definition of what a derived parser returns.
//! It is written against the documentation of nom-derive and nom, on its own value type, and never
//! looks at generated code.
use crate::ast::*;
use crate::emit::newtype_prim;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    /// bit pattern, sign extended for signed types
    Int(Prim, i128),
    Bool(bool),
    Str(String),
    Opt(Option<Box<V>>),
    List(Vec<V>),
    Pair(Box<V>, Box<V>),
    Slice(usize, usize),
    /// slice not pointing in the input
    Phantom,
    Struct(Vec<V>),
    Enum(usize, Vec<V>),
    Unit(usize),
    Which(u8, u8),
    OnlyParse(u16),
    Tiny(u8),
    Fussy(u8),
    Endian(bool),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Sl {
    pub a: usize,
    pub b: usize,
}
impl Sl {
    pub fn len(&self) -> usize {
        self.b - self.a
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Er {
    Inc(Option<u128>),
    Err(&'static str, Sl),
    Fail(&'static str, Sl),
    /// outside of the explored domain (too much work)
    Skip,
}
type R<T> = Result<T, Er>;
pub type PR = R<(Sl, V)>;

/// what the bytes at a place are used for (guides input generation)
#[derive(Clone, Debug, PartialEq)]
pub enum Hint {
    Int(Prim, bool),
    Len(usize, bool),
    Bytes(Vec<u8>),
    Disc(usize, bool),
    Raw,
    Utf8,
    Sel,
    Pad,
}
#[derive(Clone, Debug)]
pub struct Span {
    pub pos: usize,
    pub n: usize,
    pub hint: Hint,
}

pub struct Model<'p> {
    pub p: &'p Program,
    pub data: &'p [u8],
    /// behave like the crate without the alloc feature
    pub noalloc: bool,
    pub trace: String,
    pub steps: usize,
    pub wants: Vec<(usize, usize, Hint)>,
    pub spans: Vec<Span>,
    pub rejects: Vec<(usize, usize)>,
    /// furthest byte examined + 1
    pub seen: usize,
    /// some parser looked at the length of what remains
    pub looked: bool,
    /// classes of events met
    pub ev: std::collections::BTreeSet<&'static str>,
}
pub const MAX_STEPS: usize = 30_000;

#[derive(Clone)]
struct Env {
    vars: Vec<(String, V)>,
    orig: Sl,
    i: Sl,
    ep_be: bool,
    /// object endianness: None unspecified
    stat: Option<bool>,
    dynamic: Option<bool>,
    targs: Vec<Ty>,
}
impl Env {
    fn get(&self, n: &str) -> &V {
        self.vars
            .iter()
            .rev()
            .find(|(k, _)| k == n)
            .map(|(_, v)| v)
            .unwrap_or_else(|| panic!("model: unknown variable {} in {:?}", n, self.vars.iter().map(|x| &x.0).collect::<Vec<_>>()))
    }
}

fn cast(p: Prim, v: i128) -> i128 {
    match p {
        Prim::U8 => v as u8 as i128,
        Prim::U16 => v as u16 as i128,
        Prim::U32 => v as u32 as i128,
        Prim::U64 => v as u64 as i128,
        Prim::I8 => v as i8 as i128,
        Prim::I16 => v as i16 as i128,
        Prim::I32 => v as i32 as i128,
        Prim::I64 => v as i64 as i128,
        _ => v,
    }
}

impl<'p> Model<'p> {
    fn sl(&self, a: usize, n: usize) -> &[u8] {
        if n == 0 {
            &[]
        } else {
            &self.data[a..a + n]
        }
    }
    pub fn new(p: &'p Program, data: &'p [u8]) -> Self {
        Model {
            p,
            data,
            noalloc: false,
            trace: String::new(),
            steps: 0,
            wants: vec![],
            spans: vec![],
            rejects: vec![],
            seen: 0,
            looked: false,
            ev: Default::default(),
        }
    }
    fn step(&mut self, n: usize) -> R<()> {
        self.steps = self.steps.saturating_add(n);
        if self.steps > MAX_STEPS {
            Err(Er::Skip)
        } else {
            Ok(())
        }
    }
    fn take(&mut self, i: Sl, n: u64, hint: Hint) -> R<(Sl, Sl)> {
        self.step(1)?;
        if (i.len() as u64) < n {
            if i.b == self.data.len() && n < 1 << 16 {
                self.wants.push((i.a, n as usize, hint));
            }
            self.seen = self.seen.max(i.b);
            return Err(Er::Inc(Some(n as u128 - i.len() as u128)));
        }
        let n = n as usize;
        if n > 0 {
            self.spans.push(Span { pos: i.a, n, hint });
            self.seen = self.seen.max(i.a + n);
        }
        Ok((Sl { a: i.a + n, b: i.b }, Sl { a: i.a, b: i.a + n }))
    }
    fn uint(&self, s: Sl, be: bool) -> u128 {
        let mut v = 0u128;
        for k in 0..s.len() {
            let b = if be { self.data[s.a + k] } else { self.data[s.b - 1 - k] };
            v = v << 8 | b as u128;
        }
        v
    }
    fn prim(&mut self, p: Prim, be: bool, i: Sl) -> PR {
        let (r, s) = self.take(i, p.size() as u64, Hint::Int(p, be))?;
        Ok((r, V::Int(p, cast(p, self.uint(s, be) as i128))))
    }
    pub fn run_ty(&mut self, t: &Ty, ep: Ep, i: Sl) -> PR {
        self.step(1)?;
        let be = ep != Ep::Le;
        match t {
            Ty::Prim(p) => self.prim(*p, be, i),
            Ty::Str => {
                let (r, s) = self.take(i, 4, Hint::Len(4, true))?;
                let n = self.uint(s, true) as u64;
                let (r2, s) = self.take(r, n, Hint::Utf8)?;
                match std::str::from_utf8(&self.data[s.a..s.b]) {
                    Ok(x) => Ok((r2, V::Str(x.to_string()))),
                    Err(_) => {
                        self.ev.insert("utf8");
                        Err(Er::Err("MapRes", r))
                    }
                }
            }
            Ty::Opt(t) => match self.run_ty(t, ep, i) {
                Ok((r, v)) => Ok((r, V::Opt(Some(Box::new(v))))),
                Err(Er::Err(..)) | Err(Er::Inc(_)) => {
                    self.looked = true;
                    self.ev.insert("option none");
                    Ok((i, V::Opt(None)))
                }
                Err(e) => Err(e),
            },
            Ty::Vec(t) => {
                let mut v = vec![];
                let mut i = i;
                self.looked = true;
                loop {
                    match self.run_ty(t, ep, i) {
                        Ok((r, x)) => {
                            if r.len() == i.len() {
                                return Err(Er::Err("Many0", i));
                            }
                            i = r;
                            v.push(x);
                        }
                        Err(Er::Err(..)) | Err(Er::Inc(_)) => return Ok((i, V::List(v))),
                        Err(e) => return Err(e),
                    }
                }
            }
            Ty::Arr(t, n) => {
                let mut v = vec![];
                let mut i = i;
                for _ in 0..*n {
                    match self.run_ty(t, ep, i) {
                        Ok((r, x)) => {
                            if r.len() == i.len() && !self.noalloc {
                                return Err(Er::Err("ManyMN", i));
                            }
                            i = r;
                            v.push(x);
                        }
                        // without alloc, elements are not completed
                        Err(Er::Inc(_)) if !self.noalloc => return Err(Er::Err("Complete", i)),
                        Err(e) => return Err(e),
                    }
                }
                Ok((i, V::List(v)))
            }
            Ty::Pair(a, b) => {
                let (i, x) = self.run_ty(a, ep, i)?;
                let (i, y) = self.run_ty(b, ep, i)?;
                Ok((i, V::Pair(Box::new(x), Box::new(y))))
            }
            Ty::Manual(m) => match m {
                Man::Which => {
                    let (r, s) = self.take(i, 1, Hint::Raw)?;
                    Ok((r, V::Which(match ep { Ep::Parse => 0, Ep::Be => 1, Ep::Le => 2 }, self.data[s.a])))
                }
                Man::OnlyParse => {
                    let (r, s) = self.take(i, 2, Hint::Raw)?;
                    Ok((r, V::OnlyParse(self.uint(s, false) as u16)))
                }
                Man::Tiny => {
                    let (r, s) = self.take(i, 2, Hint::Raw)?;
                    Ok((r, V::Tiny(self.data[s.a + (ep != Ep::Le) as usize])))
                }
                Man::Fussy => {
                    let (r, s) = self.take(i, 1, Hint::Raw)?;
                    let x = self.data[s.a];
                    if x >= 0xf0 {
                        self.ev.insert("failure");
                        Err(Er::Fail("Alpha", i))
                    } else if x >= 0xe0 {
                        Err(Er::Err("Alt", i))
                    } else {
                        Ok((r, V::Fussy(x)))
                    }
                }
            },
            Ty::LenData(p) => {
                let (r, v) = self.prim(*p, be, i)?;
                if let Some(s) = self.spans.last_mut() {
                    s.hint = Hint::Len(p.size(), be);
                }
                let n = match v {
                    V::Int(_, n) => n as u64,
                    _ => unreachable!(),
                };
                let (r, s) = self.take(r, n, Hint::Raw)?;
                Ok((r, V::Slice(s.a, s.len())))
            }
            Ty::Named(d, targs) => self.run_decl(*d, targs, ep, None, vec![], i),
            Ty::Slice | Ty::Phantom(_) | Ty::Param(_) | Ty::Bool | Ty::Wide(_) | Ty::Endian => panic!("model: {:?} has no parser", t),
        }
    }
    /// run a derived function
    pub fn run_decl(&mut self, d: usize, targs: &[Ty], ep: Ep, sel: Option<V>, args: Vec<V>, i: Sl) -> PR {
        let p = self.p;
        let d = &p.decls[d];
        if let Kind::Direct(t) = &d.kind {
            return self.run_ty(t, ep, i);
        }
        self.step(1)?;
        let mut stat = match d.derive {
            Derive::Nom => None,
            Derive::NomBE => Some(true),
            Derive::NomLE => Some(false),
        };
        for a in &d.top {
            match a.a {
                Attr::Be => stat = Some(true),
                Attr::Le => stat = Some(false),
                _ => {}
            }
        }
        let mut env = Env {
            vars: vec![],
            orig: i,
            i,
            ep_be: ep != Ep::Le,
            stat,
            dynamic: None,
            targs: targs.to_vec(),
        };
        if let Some(v) = &sel {
            env.vars.push(("selector".into(), v.clone()));
        }
        for ((n, _), v) in d.extra.iter().zip(args) {
            env.vars.push((n.clone(), v));
        }
        for a in &d.top {
            if crate::emit::is_pre(&a.a) {
                self.exec(&a.a, &mut env, None)?;
            }
        }
        let obj = match &d.kind {
            Kind::Struct(_, fields) => {
                self.fields(d, fields, &mut env)?;
                V::Struct(fields.iter().map(|f| env.get(&f.name).clone()).collect())
            }
            Kind::SelEnum(_, vs) => {
                let sel = sel.expect("selector");
                let mut order: Vec<usize> = (0..vs.len()).filter(|k| vs[*k].sel != Pat::Wild).collect();
                order.extend((0..vs.len()).filter(|k| vs[*k].sel == Pat::Wild));
                let mut hit = None;
                for k in order {
                    let mut binds = vec![];
                    if self.matches(&vs[k].sel, &sel, &env, &mut binds) {
                        hit = Some((k, binds));
                        break;
                    }
                }
                let Some((k, binds)) = hit else {
                    self.ev.insert("no variant");
                    return Err(Er::Err("Switch", env.i));
                };
                let v = &vs[k];
                // variables of a variant are local to it
                let mut e2 = env.clone();
                e2.vars.extend(binds);
                self.fields(d, &v.fields, &mut e2)?;
                if v.shape == Shape::Unit {
                    for a in &v.attrs {
                        if crate::emit::is_pre(&a.a) {
                            self.exec(&a.a, &mut e2, None)?;
                        }
                    }
                    if let Some(pa) = v.attrs.iter().rev().find_map(|a| match &a.a {
                        Attr::Parse(p) => Some(p),
                        _ => None,
                    }) {
                        let (r, _) = self.pars(pa, &e2, e2.i)?;
                        e2.i = r;
                    }
                    for a in &v.attrs {
                        if crate::emit::is_post(&a.a) {
                            self.exec(&a.a, &mut e2, None)?;
                        }
                    }
                }
                env.i = e2.i;
                V::Enum(k, v.fields.iter().map(|f| e2.get(&f.name).clone()).collect())
            }
            Kind::Fieldless(r, vs) => {
                let be = env.stat.unwrap_or(env.ep_be);
                let (rem, v) = match self.prim(*r, be, env.i) {
                    Err(Er::Inc(_)) if d.complete() => return Err(Er::Err("Complete", env.i)),
                    x => x?,
                };
                if let Some(s) = self.spans.last_mut() {
                    s.hint = Hint::Disc(r.size(), be);
                }
                env.i = rem;
                let n = match v {
                    V::Int(_, n) => n,
                    _ => unreachable!(),
                };
                match discs(*r, vs).iter().position(|x| *x == n) {
                    Some(k) => V::Unit(k),
                    None => {
                        self.rejects.push((env.orig.a, rem.a));
                        return Err(Er::Err("Switch", env.orig));
                    }
                }
            }
            Kind::Direct(_) => unreachable!(),
        };
        for a in &d.top {
            if crate::emit::is_post(&a.a) {
                self.exec(&a.a, &mut env, Some(&obj))?;
            }
        }
        Ok((env.i, obj))
    }
    fn matches(&mut self, p: &Pat, v: &V, env: &Env, binds: &mut Vec<(String, V)>) -> bool {
        let num = |v: &V| match v {
            V::Int(p, n) => (*p, *n),
            _ => panic!("model: pattern on {:?}", v),
        };
        match p {
            Pat::Wild => true,
            Pat::Lit(n) => num(v).1 == *n,
            Pat::Or(x) => x.iter().any(|x| self.matches(x, v, env, binds)),
            Pat::Range(a, b) => {
                let (p, n) = num(v);
                if p == Prim::U128 {
                    (*a as u128) <= n as u128 && n as u128 <= *b as u128
                } else {
                    *a <= n && n <= *b
                }
            }
            Pat::New(x) => match v {
                V::Struct(f) => self.matches(x, &f[0], env, binds),
                _ => panic!("model: newtype pattern"),
            },
            Pat::Var(k) => *v == V::Unit(*k),
            Pat::Pair(a, b) => match v {
                V::Pair(x, y) => self.matches(a, x, env, binds) && self.matches(b, y, env, binds),
                _ => panic!("model: pair pattern"),
            },
            Pat::Bind(n, x) => {
                let ok = x.as_ref().map_or(true, |x| self.matches(x, v, env, binds));
                if ok {
                    binds.push((n.clone(), v.clone()));
                }
                ok
            }
            Pat::Guard(x, b) => {
                let mut b2 = vec![];
                if !self.matches(x, v, env, &mut b2) {
                    return false;
                }
                let mut e2 = env.clone();
                e2.vars.extend(b2.clone());
                if self.b(b, &e2) {
                    binds.extend(b2);
                    true
                } else {
                    false
                }
            }
        }
    }
    fn fields(&mut self, d: &Decl, fields: &[Field], env: &mut Env) -> R<()> {
        for f in fields {
            self.step(1)?;
            for a in &f.attrs {
                if crate::emit::is_pre(&a.a) {
                    self.exec(&a.a, env, None)?;
                }
            }
            let start = env.i;
            let mut r = self.chain(f, 0, &Program::subst(&f.ty, &env.targs.clone()), env, start);
            if d.complete() {
                r = self.complete(r, start);
            }
            let (i, v) = r?;
            env.i = i;
            env.vars.push((f.name.clone(), v));
            for a in &f.attrs {
                if crate::emit::is_post(&a.a) {
                    self.exec(&a.a, env, None)?;
                }
            }
        }
        Ok(())
    }
    fn complete(&mut self, r: PR, i: Sl) -> PR {
        match r {
            Err(Er::Inc(_)) => {
                self.ev.insert("completed");
                Err(Er::Err("Complete", i))
            }
            r => r,
        }
    }
    /// parser described by attributes k.. of the field
    fn chain(&mut self, f: &Field, k: usize, ty: &Ty, env: &Env, i: Sl) -> PR {
        self.step(1)?;
        for k in k..f.attrs.len() {
            match &f.attrs[k].a {
                Attr::Tag(t) => {
                    let (r, s) = match self.take(i, t.len() as u64, Hint::Bytes(t.clone())) {
                        Err(Er::Inc(n)) => {
                            // mismatch is reported as soon as it is known
                            let have = &self.data[i.a..i.b];
                            if !t.starts_with(have) {
                                self.wants.pop();
                                return Err(Er::Err("Tag", i));
                            }
                            return Err(Er::Inc(n));
                        }
                        x => x?,
                    };
                    if self.data[s.a..s.b] != t[..] {
                        self.ev.insert("tag mismatch");
                        self.rejects.push((s.a, s.b));
                        return Err(Er::Err("Tag", i));
                    }
                    return Ok((r, V::Slice(s.a, s.len())));
                }
                Attr::Take(e) => {
                    let n = self.e(e, env) as u64;
                    let (r, s) = self.take(i, n, Hint::Raw)?;
                    return Ok((r, V::Slice(s.a, s.len())));
                }
                Attr::Value(v) => return Ok((i, self.val(v, env))),
                Attr::Parse(p) => return self.pars(p, env, i),
                Attr::Ignore => return Ok((i, default(ty))),
                Attr::Complete => {
                    let r = self.chain(f, k + 1, ty, env, i);
                    return self.complete(r, i);
                }
                Attr::Debug => {}
                Attr::Cond(b) => {
                    let Ty::Opt(t) = ty else { panic!("model: Cond on {:?}", ty) };
                    if !self.b(b, env) {
                        self.ev.insert("cond false");
                        return Ok((i, V::Opt(None)));
                    }
                    self.ev.insert("cond true");
                    let (r, v) = self.chain(f, k + 1, t, env, i)?;
                    return Ok((r, V::Opt(Some(Box::new(v)))));
                }
                Attr::Count(e) => {
                    let n = self.e(e, env) as u64;
                    return self.count(f, k, ty, env, i, n);
                }
                Attr::LengthCount(p) => {
                    let (r, v) = self.pars(p, env, i)?;
                    if let Some(s) = self.spans.last_mut() {
                        if let Hint::Int(p, be) = s.hint {
                            s.hint = Hint::Len(p.size(), be);
                        }
                    }
                    let V::Int(_, n) = v else { panic!("model: length {:?}", v) };
                    return self.count(f, k, ty, env, r, n as u64);
                }
                Attr::Map(m) => {
                    let t = crate::emit::map_in(m);
                    let (r, v) = self.chain(f, k + 1, &t, env, i)?;
                    return Ok((r, self.mapf(m, v)));
                }
                Attr::Into => {
                    // the target type of Into wraps (or equals) the source
                    let (r, v) = self.chain(f, k + 1, ty, env, i)?;
                    let v = match (ty, v) {
                        (Ty::Vec(_), V::Slice(a, n)) => V::List(self.sl(a, n).iter().map(|b| V::Int(Prim::U8, *b as i128)).collect()),
                        (_, v) => into_val(ty, v),
                    };
                    return Ok((r, v));
                }
                Attr::Verify(b) => {
                    let (r, v) = self.chain(f, k + 1, ty, env, i)?;
                    let mut e2 = env.clone();
                    e2.vars.push((f.name.clone(), v.clone()));
                    if !self.b(b, &e2) {
                        self.ev.insert("verify rejects");
                        self.rejects.push((i.a, r.a));
                        return Err(Er::Err("Verify", i));
                    }
                    self.ev.insert("verify accepts");
                    return Ok((r, v));
                }
                _ => {}
            }
        }
        if let Ty::Phantom(_) = ty {
            return Ok((i, V::Phantom));
        }
        let mut end = env.dynamic.or(env.stat).unwrap_or(env.ep_be);
        for a in &f.attrs {
            match a.a {
                Attr::Be => end = true,
                Attr::Le => end = false,
                _ => {}
            }
        }
        self.run_ty(ty, if end { Ep::Be } else { Ep::Le }, i)
    }
    fn count(&mut self, f: &Field, k: usize, ty: &Ty, env: &Env, i: Sl, n: u64) -> PR {
        let Ty::Vec(t) = ty else { panic!("model: Count on {:?}", ty) };
        let mut v = vec![];
        let mut i = i;
        let mut c = 0;
        if n > 255 {
            self.ev.insert("count over 255");
        }
        while c < n {
            self.step(1)?;
            let (r, x) = self.chain(f, k + 1, t, env, i)?;
            v.push(x);
            i = r;
            c += 1;
        }
        Ok((i, V::List(v)))
    }
    fn mapf(&self, m: &MapF, v: V) -> V {
        let int = |v: &V| match v {
            V::Int(_, n) => *n,
            _ => panic!("model: map of {:?}", v),
        };
        match m {
            MapF::Affine(p, k, c) => {
                let n = int(&v);
                V::Int(*p, cast(*p, n.wrapping_mul(cast(*p, *k as i128)).wrapping_add(cast(*p, *c as i128))))
            }
            MapF::Cast(p, q) => {
                // u128 is kept as its bit pattern: same truncation
                let _ = p;
                V::Int(*q, cast(*q, int(&v)))
            }
            MapF::ToStr(p) => {
                let n = int(&v);
                V::Str(if *p == Prim::U128 { (n as u128).to_string() } else { n.to_string() })
            }
            MapF::ToSome(_) => V::Opt(Some(Box::new(v))),
            MapF::VecLen(_) => match v {
                V::List(x) => V::Int(Prim::U64, x.len() as i128),
                _ => panic!("model: VecLen"),
            },
            MapF::VecRev(_) => match v {
                V::List(mut x) => {
                    x.reverse();
                    V::List(x)
                }
                _ => panic!("model: VecRev"),
            },
            MapF::SliceVec => match v {
                V::Slice(a, n) => V::List(self.sl(a, n).iter().map(|b| V::Int(Prim::U8, *b as i128)).collect()),
                _ => panic!("model: SliceVec"),
            },
            MapF::SliceLen => match v {
                V::Slice(_, n) => V::Int(Prim::U32, n as i128),
                _ => panic!("model: SliceLen"),
            },
            MapF::Inc(p) => V::Int(*p, cast(*p, int(&v).wrapping_add(1))),
        }
    }
    fn val(&self, v: &Val, env: &Env) -> V {
        match v {
            Val::Int(p, e) => V::Int(*p, cast(*p, self.e(e, env) as i128)),
            Val::Bool(b) => V::Bool(self.b(b, env)),
            Val::Str(e) => V::Str(self.e(e, env).to_string()),
            Val::Copy(n) => env.get(n).clone(),
            Val::VecOf(p, e, n) => V::List(vec![V::Int(*p, cast(*p, self.e(e, env) as i128)); *n as usize]),
            Val::None_ => V::Opt(None),
        }
    }
    fn ende(&mut self, e: &EndE, env: &Env) -> bool {
        match e {
            EndE::Lit(b) => *b,
            EndE::Arg(n) => match env.get(n) {
                V::Endian(b) => *b,
                v => panic!("model: endianness {:?}", v),
            },
            EndE::If(c, b) => self.b(c, env) == *b,
            EndE::Traced(id, e) => {
                let b = self.ende(e, env);
                let _ = write!(self.trace, "{}:{};", id, b as u8);
                b
            }
        }
    }
    /// pre and post code of an item
    fn exec(&mut self, a: &Attr, env: &mut Env, obj: Option<&V>) -> R<()> {
        self.step(1)?;
        match a {
            Attr::PreExec(s) | Attr::PostExec(s) => match s {
                St::Let(n, e) => {
                    let v = self.e(e, env);
                    env.vars.push((n.clone(), V::Int(Prim::I64, v as i128)));
                }
                St::Shadow(n, p, e) => {
                    let v = self.e(e, env);
                    env.vars.push((n.clone(), V::Int(*p, cast(*p, v as i128))));
                }
                St::Trace(id, e) => {
                    let v = self.e(e, env);
                    let _ = write!(self.trace, "{}:{};", id, v);
                }
                St::Advance(n) => {
                    self.looked = true;
                    if env.i.len() >= *n as usize {
                        env.i.a += *n as usize;
                    }
                }
                St::Bail(b) => {
                    if self.b(b, env) {
                        self.ev.insert("bail");
                        return Err(Er::Err("Eof", env.i));
                    }
                }
                St::TraceObj(id) => {
                    let mut s = String::new();
                    show(obj.expect("object"), &mut s);
                    let _ = write!(self.trace, "{}:{};", id, s);
                }
            },
            Attr::AlignBefore(e) | Attr::AlignAfter(e) => {
                let al = self.e(e, env) as u64;
                let off = (env.i.a - env.orig.a) as u64;
                let pad = if al == 0 { 0 } else { (al - off % al) % al };
                if pad > 0 {
                    self.ev.insert("padding");
                }
                env.i = self.take(env.i, pad, Hint::Pad)?.0;
            }
            Attr::SkipBefore(e) | Attr::SkipAfter(e) => {
                let n = self.e(e, env) as u64;
                env.i = self.take(env.i, n, Hint::Pad)?.0;
            }
            Attr::Move(e) => {
                let off = self.e(e, env) as i128;
                let to = (env.i.a - env.orig.a) as i128 + off;
                if to < 0 {
                    self.ev.insert("move before start");
                    return Err(Er::Err("TooLarge", env.i));
                }
                self.move_to(to as u128, env)?;
            }
            Attr::MoveAbs(e) => {
                let to = self.e(e, env) as u64 as u128;
                self.move_to(to, env)?;
            }
            Attr::ErrorIf(b) => {
                if self.b(b, env) {
                    self.ev.insert("errorif");
                    return Err(Er::Err("Verify", env.i));
                }
            }
            Attr::Exact => {
                self.looked = true;
                if env.i.len() > 0 {
                    self.ev.insert("exact rejects");
                    return Err(Er::Err("Verify", env.i));
                }
            }
            Attr::SetEndian(e) => {
                let b = self.ende(e, env);
                env.dynamic = Some(b);
            }
            a => panic!("model: exec {:?}", a),
        }
        Ok(())
    }
    fn move_to(&mut self, to: u128, env: &mut Env) -> R<()> {
        let len = env.orig.len() as u128;
        if to > len {
            if env.orig.b == self.data.len() && to < 1 << 16 {
                self.wants.push((env.orig.a, to as usize, Hint::Pad));
            }
            self.seen = self.seen.max(env.orig.b);
            return Err(Er::Inc(Some(to - len)));
        }
        env.i = Sl { a: env.orig.a + to as usize, b: env.orig.b };
        self.seen = self.seen.max(env.i.a);
        Ok(())
    }
    pub fn e(&self, e: &E, env_: &impl EnvLike) -> i64 {
        self.ev_e(e, env_)
    }
    fn ev_e(&self, e: &E, env: &impl EnvLike) -> i64 {
        match e {
            E::Lit(n) => *n,
            E::Var(n) => as64(env.var(n)),
            E::Proj(n, k) => match env.var(n) {
                V::Struct(f) => as64(&f[*k]),
                v => panic!("model: projection of {:?}", v),
            },
            E::Len(n) => vlen(env.var(n)) as i64,
            E::First(n) => match env.var(n) {
                V::Slice(a, l) => {
                    if *l > 0 {
                        self.data[*a] as i64
                    } else {
                        0
                    }
                }
                V::List(l) => l.first().map_or(0, as64),
                v => panic!("model: first of {:?}", v),
            },
            E::InputLen => env.input().len() as i64,
            E::Add(a, b) => self.ev_e(a, env).wrapping_add(self.ev_e(b, env)),
            E::Sub(a, b) => self.ev_e(a, env).wrapping_sub(self.ev_e(b, env)),
            E::Mul(a, k) => self.ev_e(a, env).wrapping_mul(*k),
            E::And(a, m) => self.ev_e(a, env) & m,
            E::Shr(a, n) => self.ev_e(a, env) >> n,
            E::If(c, a, b) => {
                if self.ev_b(c, env) {
                    self.ev_e(a, env)
                } else {
                    self.ev_e(b, env)
                }
            }
        }
    }
    fn b(&self, b: &B, env: &impl EnvLike) -> bool {
        self.ev_b(b, env)
    }
    fn ev_b(&self, b: &B, env: &impl EnvLike) -> bool {
        match b {
            B::Lit(x) => *x,
            B::Cmp(op, x, y) => op.ev(self.ev_e(x, env), self.ev_e(y, env)),
            B::Raw(op, n, l, flip) => match env.var(n) {
                V::Int(Prim::U128, v) => {
                    if *flip {
                        op.ev(*l as u128, *v as u128)
                    } else {
                        op.ev(*v as u128, *l as u128)
                    }
                }
                V::Int(_, v) => {
                    if *flip {
                        op.ev(*l as i128, *v)
                    } else {
                        op.ev(*v, *l as i128)
                    }
                }
                v => panic!("model: comparison of {:?}", v),
            },
            B::Not(x) => !self.ev_b(x, env),
            B::And(x, y) => self.ev_b(x, env) && self.ev_b(y, env),
            B::Or(x, y) => self.ev_b(x, env) || self.ev_b(y, env),
            B::Var(n) => match env.var(n) {
                V::Bool(b) => *b,
                v => panic!("model: bool {:?}", v),
            },
            B::IsSome(n) => match env.var(n) {
                V::Opt(o) => o.is_some(),
                v => panic!("model: is_some {:?}", v),
            },
            B::LenGt(n, _, k) => vlen(env.var(n)) as i64 > *k,
        }
    }
    fn pars(&mut self, p: &P, env: &Env, i: Sl) -> PR {
        self.step(1)?;
        match p {
            P::Nom(p, be, complete) => {
                let r = self.prim(*p, *be, i);
                match r {
                    Err(Er::Inc(_)) if *complete => {
                        self.looked = true;
                        Err(Er::Err("Eof", i))
                    }
                    r => r,
                }
            }
            P::U24(be) => {
                let (r, s) = self.take(i, 3, Hint::Raw)?;
                Ok((r, V::Int(Prim::U32, self.uint(s, *be) as i128)))
            }
            P::Meth(t, ep) => self.run_ty(&Program::subst(t, &env.targs), *ep, i),
            P::Take(e) => {
                let n = self.e(e, env) as u64;
                let (r, s) = self.take(i, n, Hint::Raw)?;
                Ok((r, V::Slice(s.a, s.len())))
            }
            P::Call { decl, targs, ep, sel, args } => {
                let d = &self.p.decls[*decl];
                let st = match &d.kind {
                    Kind::SelEnum(t, _) => Some(t.clone()),
                    _ => None,
                };
                let s = sel.as_ref().map(|s| match (s, st.as_ref().unwrap()) {
                    (SelArg::Int(e), SelTy::Int(p)) => V::Int(*p, cast(*p, self.e(e, env) as i128)),
                    (SelArg::Int(e), SelTy::Text(k)) => V::Int(Prim::U8, (self.e(e, env) & text_mask(*k)) as i128),
                    (SelArg::Wrap(e), SelTy::Newtype(n)) => {
                        let p = newtype_prim(self.p, *n);
                        V::Struct(vec![V::Int(p, cast(p, self.e(e, env) as i128))])
                    }
                    (SelArg::Pair(x, y), SelTy::Pair(p, q)) => V::Pair(
                        Box::new(V::Int(*p, cast(*p, self.e(x, env) as i128))),
                        Box::new(V::Int(*q, cast(*q, self.e(y, env) as i128))),
                    ),
                    (SelArg::Var(v), _) => env.get(v).clone(),
                    x => panic!("model: selector {:?}", x),
                });
                let a = d
                    .extra
                    .iter()
                    .zip(args)
                    .map(|((_, t), e)| {
                        let n = self.e(e, env);
                        match t {
                            Ty::Prim(p) => V::Int(*p, cast(*p, n as i128)),
                            Ty::Bool => V::Bool(n & 1 != 0),
                            Ty::Str | Ty::Vec(_) => arg_text(t, n),
                            _ => V::Endian(n & 1 != 0),
                        }
                    })
                    .collect();
                let targs: Vec<Ty> = targs.iter().map(|t| Program::subst(t, &env.targs)).collect();
                self.run_decl(*decl, &targs, *ep, s, a, i)
            }
            P::Sub { len, be, ty, ep } => {
                let (r, v) = self.prim(*len, *be, i)?;
                if let Some(s) = self.spans.last_mut() {
                    s.hint = Hint::Len(len.size(), *be);
                }
                let V::Int(_, n) = v else { unreachable!() };
                let n = n as u64;
                if (r.len() as u64) < n {
                    self.take(r, n, Hint::Raw)?;
                }
                self.looked = true;
                let n = n as usize;
                let (_, v) = self.run_ty(&Program::subst(ty, &env.targs), *ep, Sl { a: r.a, b: r.a + n })?;
                self.seen = self.seen.max(r.a + n);
                Ok((Sl { a: r.a + n, b: r.b }, v))
            }
            P::Cond(b, p) => {
                if self.b(b, env) {
                    let (r, v) = self.pars(p, env, i)?;
                    Ok((r, V::Opt(Some(Box::new(v)))))
                } else {
                    Ok((i, V::Opt(None)))
                }
            }
            P::Fun(f) => match f {
                Pf::OddErr => {
                    let (r, s) = self.take(i, 1, Hint::Raw)?;
                    let x = self.data[s.a];
                    if x & 1 == 1 {
                        Err(Er::Err("Alt", i))
                    } else {
                        Ok((r, V::Int(Prim::U8, x as i128)))
                    }
                }
                Pf::HiFail => {
                    let (r, s) = self.take(i, 1, Hint::Raw)?;
                    let x = self.data[s.a];
                    if x >= 0xf0 {
                        self.ev.insert("failure");
                        Err(Er::Fail("Alpha", i))
                    } else {
                        Ok((r, V::Int(Prim::U8, x as i128)))
                    }
                }
                Pf::VarInt => {
                    let mut v = 0u64;
                    let mut r = i;
                    for k in 0..5 {
                        let (r2, s) = self.take(r, 1, Hint::Raw)?;
                        r = r2;
                        let x = self.data[s.a];
                        v |= ((x & 0x7f) as u64) << (7 * k);
                        if x & 0x80 == 0 {
                            return Ok((r, V::Int(Prim::U32, v as u32 as i128)));
                        }
                    }
                    Err(Er::Err("TooLarge", i))
                }
                Pf::Peek => {
                    let (_, s) = self.take(i, 1, Hint::Raw)?;
                    Ok((i, V::Int(Prim::U8, self.data[s.a] as i128)))
                }
                Pf::RemLen => {
                    self.looked = true;
                    Ok((i, V::Int(Prim::U64, i.len() as i128)))
                }
                Pf::Rest => {
                    self.looked = true;
                    self.seen = self.seen.max(i.b);
                    Ok((Sl { a: i.b, b: i.b }, V::Slice(i.a, i.len())))
                }
                Pf::CStr => match self.data[i.a..i.b].iter().position(|x| *x == 0) {
                    Some(n) => {
                        self.seen = self.seen.max(i.a + n + 1);
                        Ok((Sl { a: i.a + n + 1, b: i.b }, V::Slice(i.a, n)))
                    }
                    None => {
                        if i.b == self.data.len() {
                            self.wants.push((i.b, 1, Hint::Bytes(vec![0])));
                        }
                        Err(Er::Inc(Some(1)))
                    }
                },
            },
            P::Conc(p) => self.prim(*p, true, i),
            P::ConcTake(n) => {
                let (r, s) = self.take(i, *n as u64, Hint::Raw)?;
                Ok((r, V::Slice(s.a, s.len())))
            }
        }
    }
}
pub trait EnvLike {
    fn var(&self, n: &str) -> &V;
    fn input(&self) -> Sl;
}
impl EnvLike for Env {
    fn var(&self, n: &str) -> &V {
        self.get(n)
    }
    fn input(&self) -> Sl {
        self.i
    }
}
fn as64(v: &V) -> i64 {
    match v {
        V::Int(_, n) => *n as i64,
        V::Bool(b) => *b as i64,
        V::Struct(f) => as64(&f[0]),
        v => panic!("model: number expected: {:?}", v),
    }
}
fn vlen(v: &V) -> usize {
    match v {
        V::Str(s) => s.len(),
        V::List(l) => l.len(),
        V::Slice(_, n) => *n,
        v => panic!("model: length of {:?}", v),
    }
}
fn into_val(t: &Ty, v: V) -> V {
    // Vec<u8> from a slice is handled by the caller through data; here only wrappers and lossless casts
    match (t, v) {
        (Ty::Prim(q), V::Int(_, n)) => V::Int(*q, n),
        (_, v) => v,
    }
}
pub const NOWHERE: usize = usize::MAX;
pub fn default(t: &Ty) -> V {
    match t {
        Ty::Prim(p) => V::Int(*p, 0),
        Ty::Wide(p) => V::Int(*p, 0),
        Ty::Str => V::Str(String::new()),
        Ty::Opt(_) => V::Opt(None),
        Ty::Vec(_) => V::List(vec![]),
        Ty::Arr(t, n) => V::List((0..*n).map(|_| default(t)).collect()),
        Ty::Pair(a, b) => V::Pair(Box::new(default(a)), Box::new(default(b))),
        Ty::Phantom(_) => V::Phantom,
        Ty::Slice => V::Slice(NOWHERE, 0),
        Ty::Bool => V::Bool(false),
        Ty::Manual(Man::Which) => V::Which(0, 0),
        Ty::Manual(Man::OnlyParse) => V::OnlyParse(0),
        Ty::Manual(Man::Fussy) => V::Fussy(0),
        Ty::Manual(Man::Tiny) => V::Tiny(0),
        t => panic!("model: default of {:?}", t),
    }
}
/// discriminants (explicit or implicit) as bit patterns
pub fn discs(r: Prim, vs: &[(String, Option<i128>)]) -> Vec<i128> {
    let mut next = 0i128;
    vs.iter()
        .map(|(_, x)| {
            let v = x.unwrap_or(next);
            next = v.wrapping_add(1);
            cast(r, v)
        })
        .collect()
}
pub fn show(v: &V, o: &mut String) {
    match v {
        V::Int(Prim::U128, n) => {
            let _ = write!(o, "{}", *n as u128);
        }
        V::Int(Prim::F32, n) => {
            let _ = write!(o, "f{}", *n as u32);
        }
        V::Int(Prim::F64, n) => {
            let _ = write!(o, "f{}", *n as u64);
        }
        V::Int(_, n) => {
            let _ = write!(o, "{}", n);
        }
        V::Bool(b) => {
            let _ = write!(o, "{}", b);
        }
        V::Str(s) => {
            let _ = write!(o, "{:?}", s);
        }
        V::Opt(None) => o.push('~'),
        V::Opt(Some(x)) => {
            o.push('?');
            show(x, o)
        }
        V::List(l) => {
            o.push('[');
            for x in l {
                show(x, o);
                o.push(',');
            }
            o.push(']');
        }
        V::Pair(a, b) => {
            o.push('(');
            show(a, o);
            o.push(',');
            show(b, o);
            o.push(')');
        }
        V::Slice(a, n) => {
            if *a == NOWHERE {
                // the empty slice by default is not a part of the input
                o.push_str("@EMPTY");
            } else {
                let _ = write!(o, "@{}+{}", a, n);
            }
        }
        V::Phantom => o.push('%'),
        V::Struct(f) => {
            o.push('{');
            for x in f {
                show(x, o);
                o.push(',');
            }
            o.push('}');
        }
        V::Enum(k, f) => {
            let _ = write!(o, "#{}{{", k);
            for x in f {
                show(x, o);
                o.push(',');
            }
            o.push('}');
        }
        V::Unit(k) => {
            let _ = write!(o, "#{}", k);
        }
        V::Which(w, b) => {
            let _ = write!(o, "W{}:{}", w, b);
        }
        V::OnlyParse(n) => {
            let _ = write!(o, "P{}", n);
        }
        V::Tiny(n) => {
            let _ = write!(o, "T{}", n);
        }
        V::Fussy(n) => {
            let _ = write!(o, "Y{}", n);
        }
        V::Endian(b) => {
            let _ = write!(o, "{}", b);
        }
    }
}
/// same format as `fin` of the prelude
pub fn outcome(r: &PR) -> Option<String> {
    Some(match r {
        Ok((i, v)) => {
            let mut o = format!("O {}+{} ", i.a, i.len());
            show(v, &mut o);
            o
        }
        Err(Er::Inc(Some(n))) => format!("I {}", n),
        Err(Er::Inc(None)) => "I ?".into(),
        Err(Er::Err(k, s)) => format!("E {} {}+{}", k, s.a, s.len()),
        Err(Er::Fail(k, s)) => format!("F {} {}+{}", k, s.a, s.len()),
        Err(Er::Skip) => return None,
    })
}

/// arguments that are not Copy: n & 7 characters or bytes
fn arg_text(t: &Ty, n: i64) -> V {
    let n = (n & 7) as usize;
    match t {
        Ty::Str => V::Str("x".repeat(n)),
        _ => V::List((0..n).map(|k| V::Int(Prim::U8, (n * 3 + k) as i128)).collect()),
    }
}
/// selector and extra arguments of an entry point as values
pub fn entry_args(p: &Program, d: usize, a: &[i128]) -> (Option<V>, Vec<V>) {
    let d = &p.decls[d];
    let mut off = 0;
    let sel = match &d.kind {
        Kind::SelEnum(t, _) => Some(match t {
            SelTy::Int(p) => {
                off = 1;
                V::Int(*p, cast(*p, a[0]))
            }
            SelTy::Text(k) => {
                off = 1;
                V::Int(Prim::U8, (a[0] as i64 & text_mask(*k)) as i128)
            }
            SelTy::Newtype(n) => {
                off = 1;
                let q = newtype_prim(p, *n);
                V::Struct(vec![V::Int(q, cast(q, a[0]))])
            }
            SelTy::Fieldless(n) => {
                off = 1;
                let nv = match &p.decls[*n].kind {
                    Kind::Fieldless(_, v) => v.len(),
                    _ => 1,
                };
                V::Unit(if a[0] >= 0 && (a[0] as usize) < nv { a[0] as usize } else { 0 })
            }
            SelTy::Pair(x, y) => {
                off = 2;
                V::Pair(Box::new(V::Int(*x, cast(*x, a[0]))), Box::new(V::Int(*y, cast(*y, a[1]))))
            }
        }),
        _ => None,
    };
    let ex = d
        .extra
        .iter()
        .enumerate()
        .map(|(k, (_, t))| {
            let n = a[off + k];
            match t {
                Ty::Prim(p) => V::Int(*p, cast(*p, n)),
                Ty::Bool => V::Bool(n != 0),
                Ty::Str | Ty::Vec(_) => arg_text(t, n as i64),
                _ => V::Endian(n != 0),
            }
        })
        .collect();
    (sel, ex)
}
pub fn n_args(p: &Program, d: usize) -> usize {
    let d = &p.decls[d];
    d.extra.len()
        + match &d.kind {
            Kind::SelEnum(SelTy::Pair(..), _) => 2,
            Kind::SelEnum(..) => 1,
            _ => 0,
        }
}
