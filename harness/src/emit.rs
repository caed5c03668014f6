//! Printing of declarations as Rust source.
use crate::ast::*;
use std::fmt::Write;

pub type Scope = Vec<(String, Ty)>;

pub fn lookup<'s>(sc: &'s Scope, n: &str) -> Option<&'s Ty> {
    sc.iter().rev().find(|(k, _)| k == n).map(|(_, t)| t)
}

pub struct Em<'p> {
    pub p: &'p Program,
    pub d: &'p Decl,
    /// name of the variable bound as a reference (Verify)
    refv: Option<String>,
}

fn strip(s: String) -> String {
    // strip one pair of outer parentheses if they match each other
    let b = s.as_bytes();
    if b.first() != Some(&b'(') || b.last() != Some(&b')') {
        return s;
    }
    let mut depth = 0i32;
    for (k, c) in b.iter().enumerate() {
        match c {
            b'(' => depth += 1,
            b')' => {
                depth -= 1;
                if depth == 0 && k != b.len() - 1 {
                    return s;
                }
            }
            _ => {}
        }
    }
    s[1..s.len() - 1].to_string()
}

/// a number from the details seed and a place; 1000 for programs without details
fn noise(p: &Program, what: &str, n: u64) -> u64 {
    if p.noise == 0 {
        return 1000;
    }
    let mut h = p.noise ^ 0xcbf2_9ce4_8422_2325;
    for b in what.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    ((h ^ (h >> 29)).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 33) % n
}
fn lit64(n: i64) -> String {
    if n == i64::MIN {
        "i64::MIN".into()
    } else if n < 0 {
        format!("({}i64)", n)
    } else {
        format!("{}i64", n)
    }
}

fn with_const(d: &Decl) -> Vec<String> {
    let mut v = d.params.clone();
    if let Some((c, n)) = &d.konst {
        v.push(format!("{}={}", c, n));
    }
    v
}
pub fn ty_rs(p: &Program, t: &Ty, lt: &str, params: &[String]) -> String {
    let r = |t: &Ty| ty_rs(p, t, lt, params);
    match t {
        Ty::Prim(x) if noise(p, x.rs(), 5) == 0 => format!("Ndv_{}", x.rs()),
        Ty::Prim(x) => x.rs().into(),
        Ty::Str => "String".into(),
        Ty::Opt(t) => format!("Option<{}>", r(t)),
        Ty::Vec(t) => format!("Vec<{}>", r(t)),
        Ty::Arr(t, n) => match params.last().and_then(|x| x.split_once('=')) {
            // const parameter of the declaration
            Some((c, v)) if v == n.to_string() => format!("[{}; {}]", r(t), c),
            _ => format!("[{}; {}]", r(t), n),
        },
        Ty::Pair(a, b) => format!("({}, {})", r(a), r(b)),
        Ty::Slice => format!("&{} [u8]", lt).replace("&'_ ", "&"),
        Ty::Phantom(x) => format!("PhantomData<{}>", x.rs()),
        Ty::Param(k) => params[*k].clone(),
        Ty::Manual(m) => match m {
            Man::Which => "ManWhich".into(),
            Man::OnlyParse => "ManOnlyParse".into(),
            Man::Fussy => "ManFussy".into(),
            Man::Tiny => "ManTiny".into(),
        },
        Ty::Bool => "bool".into(),
        Ty::Wide(x) => format!("Wide_{}", x.rs()),
        Ty::LenData(x) if x.size() <= 8 && !x.signed() && noise(p, "LengthData", 2) == 0 => format!("nom_derive::LengthData{}<{}>", x.rs().to_uppercase(), lt),
        Ty::LenData(x) => format!("nom_derive::LengthData<{}, &{} [u8]>", x.rs(), lt).replace("&'_ ", "&"),
        Ty::Endian => "nom::number::Endianness".into(),
        Ty::Named(d, args) => {
            let mut a: Vec<String> = vec![];
            a.extend(p.lts(*d).iter().map(|_| lt.to_string()));
            a.extend(args.iter().map(r));
            if let Some((_, n)) = &p.decls[*d].konst {
                a.push(match params.last().and_then(|x| x.split_once('=')) {
                    Some((c, v)) if v == n.to_string() => c.to_string(),
                    _ => n.to_string(),
                });
            }
            if a.is_empty() {
                p.decls[*d].name.clone()
            } else {
                format!("{}<{}>", p.decls[*d].name, a.join(", "))
            }
        }
    }
}

impl<'p> Em<'p> {
    fn new(p: &'p Program, d: &'p Decl) -> Self {
        Em { p, d, refv: None }
    }
    fn var(&self, n: &str) -> String {
        if self.refv.as_deref() == Some(n) {
            format!("*{}", n)
        } else {
            n.to_string()
        }
    }
    fn bounded(&self, e: &E, sc: &Scope) -> bool {
        match e {
            E::Lit(n) => n.abs() < 1 << 30,
            E::Var(n) => match lookup(sc, n) {
                Some(Ty::Prim(p)) => p.is_int() && p.size() <= 4,
                Some(Ty::Bool) => true,
                _ => false,
            },
            E::Proj(..) => false,
            E::Len(_) | E::InputLen => true,
            E::First(n) => match lookup(sc, n) {
                Some(Ty::Vec(t)) => matches!(**t, Ty::Prim(p) if p.size() <= 4),
                _ => true,
            },
            E::Add(a, b) | E::Sub(a, b) => {
                // one level only
                let lvl = |x: &E| !matches!(x, E::Add(..) | E::Sub(..) | E::Mul(..) | E::If(..));
                lvl(a) && lvl(b) && self.bounded(a, sc) && self.bounded(b, sc)
            }
            E::Mul(a, k) => k.abs() < 1 << 16 && self.bounded(a, sc) && !matches!(**a, E::Mul(..)),
            E::And(_, m) => *m >= 0 && *m < 1 << 30,
            E::Shr(a, _) => self.bounded(a, sc),
            E::If(_, a, b) => self.bounded(a, sc) && self.bounded(b, sc),
        }
    }
    /// expression of type i64, always safe as an operand
    pub fn e64(&self, e: &E, sc: &Scope) -> String {
        match e {
            E::Lit(n) => lit64(*n),
            E::Var(n) => match lookup(sc, n) {
                Some(Ty::Named(..)) => format!("({}.0 as i64)", self.var(n)),
                _ => format!("({} as i64)", self.var(n)),
            },
            E::Proj(v, k) => {
                let f = match lookup(sc, v) {
                    Some(Ty::Named(d, _)) => match &self.p.decls[*d].kind {
                        Kind::Struct(Shape::Named, f) => f[*k].name.clone(),
                        _ => k.to_string(),
                    },
                    _ => k.to_string(),
                };
                format!("({}.{} as i64)", v, f)
            }
            E::Len(n) => format!("({}.len() as i64)", n),
            E::First(n) => format!("({}.first().copied().unwrap_or(0) as i64)", n),
            E::InputLen => format!("({}.len() as i64)", self.d.input),
            E::Add(a, b) => {
                if self.bounded(e, sc) {
                    format!("({} + {})", self.e64(a, sc), self.e64(b, sc))
                } else {
                    format!("({}.wrapping_add({}))", self.e64(a, sc), self.e64(b, sc))
                }
            }
            E::Sub(a, b) => {
                if self.bounded(e, sc) {
                    format!("({} - {})", self.e64(a, sc), self.e64(b, sc))
                } else {
                    format!("({}.wrapping_sub({}))", self.e64(a, sc), self.e64(b, sc))
                }
            }
            E::Mul(a, k) => {
                if self.bounded(e, sc) {
                    format!("({} * {})", self.e64(a, sc), lit64(*k))
                } else {
                    format!("({}.wrapping_mul({}))", self.e64(a, sc), lit64(*k))
                }
            }
            E::And(a, m) => format!("({} & {})", self.e64(a, sc), lit64(*m)),
            E::Shr(a, n) => format!("({} >> {})", self.e64(a, sc), n),
            E::If(c, a, b) => format!("(if {} {{ {} }} else {{ {} }})", strip(self.b(c, sc)), strip(self.e64(a, sc)), strip(self.e64(b, sc))),
        }
    }
    /// expression for a position where the attribute casts to usize/isize
    pub fn ecast(&self, e: &E, sc: &Scope) -> String {
        match e {
            E::Lit(n) if *n == i64::MIN => "i64::MIN".into(),
            E::Lit(n) if *n < 0 => format!("{}i64", n),
            E::Lit(n) => n.to_string(),
            E::Var(n) if !matches!(lookup(sc, n), Some(Ty::Named(..))) => n.clone(),
            _ => strip(self.e64(e, sc)),
        }
    }
    pub fn b(&self, b: &B, sc: &Scope) -> String {
        match b {
            B::Lit(x) => x.to_string(),
            B::Cmp(op, x, y) => format!("({} {} {})", self.e64(x, sc), op.rs(), self.e64(y, sc)),
            B::Raw(op, n, l, flip) => {
                let l = match lookup(sc, n) {
                    // the default integer type is too small for it
                    Some(Ty::Prim(p)) if l.abs() >= 1 << 31 => format!("{}{}", l, p.rs()),
                    _ => l.to_string(),
                };
                if *flip {
                    format!("({} {} {})", l, op.rs(), self.var(n))
                } else {
                    format!("({} {} {})", self.var(n), op.rs(), l)
                }
            }
            B::Not(x) => format!("(!{})", self.b(x, sc)),
            B::And(x, y) => format!("({} && {})", self.b(x, sc), self.b(y, sc)),
            B::Or(x, y) => format!("({} || {})", self.b(x, sc), self.b(y, sc)),
            B::Var(n) => self.var(n),
            B::IsSome(n) => format!("({}.is_some())", n),
            B::LenGt(n, t, k) => {
                let t = ty_rs(self.p, t, "'_", &with_const(self.d));
                if self.refv.as_deref() == Some(n) {
                    format!("(ndv_len_gt::<{}>({}, {}))", t, n, k)
                } else {
                    format!("(ndv_len_gt::<{}>(&{}, {}))", t, n, k)
                }
            }
        }
    }
    pub fn btop(&self, b: &B, sc: &Scope) -> String {
        strip(self.b(b, sc))
    }
    /// the same value, written in another way
    fn dress(&self, e: String) -> String {
        let lit = e.parse::<u32>().ok().filter(|n| *n < 1 << 30);
        if lit.is_none() && e.parse::<i128>().is_ok() {
            // too large for the default type
            return e;
        }
        match (noise(self.p, &format!("dress{}", e), 40), lit) {
            (0, _) => format!("{{ {} }}", e),
            (1, _) => format!("({})", e),
            (2, _) => format!("ndv_id({})", e),
            (3, _) => format!("[{}][0]", e),
            (4, _) => format!("match () {{ _ => {} }}", e),
            (5, _) => format!("if true {{ {} }} else {{ unreachable!() }}", e),
            (6, _) => format!("{{ let _t = {}; _t }}", e),
            (7, _) => format!("({}, 7).0", e),
            (8 | 9, Some(n)) => format!("{:#x}", n),
            (10 | 11, Some(n)) => format!("{}{}", n, if n < 200 { "u8" } else { "u32" }),
            (12, Some(n)) => format!("0b{:b}_usize", n),
            (13 | 14, Some(n @ 0..=5)) => format!("kst::i16::K{}", n),
            (15, Some(n)) => format!("{:#o}", n),
            (16, Some(n @ 32..=90)) if n != 39 => format!("b'{}'", n as u8 as char),
            _ => e,
        }
    }
    fn ende(&self, e: &EndE, sc: &Scope) -> String {
        let l = |b: bool| if b { "nom::number::Endianness::Big" } else { "nom::number::Endianness::Little" };
        match e {
            EndE::Lit(b) => l(*b).into(),
            EndE::Arg(n) => n.clone(),
            EndE::If(c, b) => format!("if {} {{ {} }} else {{ {} }}", self.btop(c, sc), l(*b), l(!*b)),
            EndE::Traced(id, e) => format!("ndv_tre({}, {})", id, self.ende(e, sc)),
        }
    }
    fn st(&self, s: &St, sc: &Scope) -> String {
        let i = &self.d.input;
        match s {
            St::Let(n, e) => format!("let {} = {};", n, strip(self.e64(e, sc))),
            St::Shadow(n, p, e) => format!("let {}: {} = {} as {};", n, p.rs(), self.e64(e, sc), p.rs()),
            St::Trace(id, e) => format!("ndv_tr({}, {});", id, strip(self.e64(e, sc))),
            St::Advance(n) => format!("let {} = if {}.len() >= {} {{ &{}[{}..] }} else {{ {} }};", i, i, n, i, n, i),
            St::Bail(b) => format!(
                "if {} {{ return Err(nom::Err::Error(nom::error::make_error({}, nom::error::ErrorKind::Eof))); }}",
                self.btop(b, sc),
                i
            ),
            St::TraceObj(id) => match &self.d.kind {
                Kind::Struct(..) => format!("ndv_tro({}, &struct_def);", id),
                _ => format!("ndv_tro({}, &enum_def);", id),
            },
        }
    }
    fn ty(&self, t: &Ty, lt: &str) -> String {
        ty_rs(self.p, t, lt, &with_const(self.d))
    }
    pub fn pars(&self, x: &P, sc: &Scope) -> String {
        match x {
            P::Nom(p, be, complete) => format!(
                "nom::number::{}::{}_{}",
                if *complete { "complete" } else { "streaming" },
                if *be { "be" } else { "le" },
                p.rs()
            ),
            P::U24(be) => format!("nom::number::streaming::{}_u24", if *be { "be" } else { "le" }),
            P::Meth(t, ep) => {
                let s = self.ty(t, "'_");
                match t {
                    Ty::Prim(_) | Ty::Param(_) | Ty::Str | Ty::Manual(_) => format!("{}::{}", s, ep.rs()),
                    _ => format!("<{}>::{}", s, ep.rs()),
                }
            }
            P::Take(e) => format!("nom::bytes::streaming::take({} as usize)", self.e64(e, sc)),
            P::Call { decl, targs, ep, sel, args } => {
                let t = self.ty(&Ty::Named(*decl, targs.clone()), "'_");
                let d = &self.p.decls[*decl];
                let mut a = vec!["__j".to_string()];
                if let Some(s) = sel {
                    let selty = match &d.kind {
                        Kind::SelEnum(t, _) => t.clone(),
                        _ => SelTy::Int(Prim::U8),
                    };
                    a.push(match (s, selty) {
                        (SelArg::Int(e), SelTy::Int(p)) => format!("{} as {}", self.e64(e, sc), p.rs()),
                        (SelArg::Int(e), SelTy::Text(k)) => text_arg(k, &self.e64(e, sc)),
                        (SelArg::Wrap(e), SelTy::Newtype(n)) => {
                            format!("{}({} as {})", self.p.decls[n].name, self.e64(e, sc), newtype_prim(self.p, n).rs())
                        }
                        (SelArg::Pair(x, y), SelTy::Pair(p, q)) => {
                            format!("({} as {}, {} as {})", self.e64(x, sc), p.rs(), self.e64(y, sc), q.rs())
                        }
                        (SelArg::Var(v), _) => v.clone(),
                        _ => "()".into(),
                    });
                }
                for ((_, t), e) in d.extra.iter().zip(args) {
                    a.push(match t {
                        Ty::Prim(p) => format!("{} as {}", self.e64(e, sc), p.rs()),
                        Ty::Bool => format!("({} & 1) != 0", self.e64(e, sc)),
                        Ty::Str => format!("ndv_arg_str({})", self.e64(e, sc)),
                        Ty::Vec(_) => format!("ndv_arg_vec({})", self.e64(e, sc)),
                        _ => format!(
                            "if ({} & 1) != 0 {{ nom::number::Endianness::Big }} else {{ nom::number::Endianness::Little }}",
                            self.e64(e, sc)
                        ),
                    });
                }
                let path = if t.contains('<') { format!("<{}>", t) } else { t };
                format!("{{ |__j| {}::{}({}) }}", path, ep.rs(), a.join(", "))
            }
            P::Sub { len, be, ty, ep } => format!(
                "ndv_sub({}, {})",
                self.pars(&P::Nom(*len, *be, false), sc),
                self.pars(&P::Meth(ty.clone(), *ep), sc)
            ),
            P::Cond(b, p) => format!("nom::combinator::cond({}, {})", self.btop(b, sc), self.pars(p, sc)),
            P::Fun(f) => match f {
                Pf::OddErr => "ndv_odd_err",
                Pf::HiFail => "ndv_hi_fail",
                Pf::VarInt => "ndv_varint",
                Pf::Peek => "ndv_peek",
                Pf::RemLen => "ndv_rem_len",
                Pf::Rest => "ndv_rest",
                Pf::CStr => "ndv_cstr",
            }
            .into(),
            P::Conc(p) => format!("ndv_c_{}", p.rs()),
            P::ConcTake(n) => format!("ndv_c_take::<{}>", n),
        }
    }
    fn mapf(&self, m: &MapF) -> String {
        match m {
            MapF::Affine(p, k, c) => format!("|x: {0}| x.wrapping_mul({1} as {0}).wrapping_add({2} as {0})", p.rs(), lit64(*k), lit64(*c)),
            MapF::Cast(p, q) => format!("|x: {}| x as {}", p.rs(), q.rs()),
            MapF::ToStr(p) => format!("|x: {}| x.to_string()", p.rs()),
            MapF::ToSome(p) => format!("|x: {}| Some(x)", p.rs()),
            MapF::VecLen(p) => format!("|v: Vec<{}>| v.len() as u64", p.rs()),
            MapF::VecRev(p) => format!("|mut v: Vec<{}>| {{ v.reverse(); v }}", p.rs()),
            MapF::SliceVec => "|s: &[u8]| s.to_vec()".into(),
            MapF::SliceLen => "|s: &[u8]| s.len() as u32".into(),
            MapF::Inc(p) => format!("ndv_inc_{}", p.rs()),
        }
    }
    fn val(&self, v: &Val, sc: &Scope) -> String {
        match v {
            Val::Int(p, E::Lit(n)) if p.fits(*n as i128) && n.abs() < 1 << 31 => n.to_string(),
            Val::Int(p, e) => format!("{} as {}", self.e64(e, sc), p.rs()),
            Val::Bool(b) => self.btop(b, sc),
            Val::Str(e) => format!("{}.to_string()", self.e64(e, sc)),
            Val::Copy(n) => n.clone(),
            Val::VecOf(p, e, n) => format!("vec![{} as {}; {}]", self.e64(e, sc), p.rs(), n),
            Val::None_ => "None".into(),
        }
    }
    /// (attribute name, argument text)
    fn attr(&mut self, a: &At, sc: &Scope, fname: &str) -> (String, Option<String>, bool) {
        // third: argument can be written as a string
        let n = |s: &str, x: String| (s.to_string(), Some(x), true);
        match &a.a {
            Attr::Be => ("BigEndian".into(), None, true),
            Attr::Le => ("LittleEndian".into(), None, true),
            Attr::SetEndian(e) => n("SetEndian", self.ende(e, sc)),
            Attr::AlignBefore(e) => n("AlignBefore", self.dress(self.ecast(e, sc))),
            Attr::AlignAfter(e) => n("AlignAfter", self.dress(self.ecast(e, sc))),
            Attr::SkipBefore(e) => n("SkipBefore", self.dress(self.ecast(e, sc))),
            Attr::SkipAfter(e) => n("SkipAfter", self.dress(self.ecast(e, sc))),
            Attr::Move(e) => n("Move", self.dress(self.ecast(e, sc))),
            Attr::MoveAbs(e) => n("MoveAbs", self.dress(self.ecast(e, sc))),
            Attr::ErrorIf(b) => n("ErrorIf", self.dress(self.btop(b, sc))),
            Attr::PreExec(s) => n("PreExec", self.st(s, sc)),
            Attr::PostExec(s) => n("PostExec", self.st(s, sc)),
            Attr::Debug => ("Debug".into(), None, true),
            Attr::DebugDerive => ("DebugDerive".into(), None, true),
            Attr::Complete => ("Complete".into(), None, true),
            Attr::Cond(b) => n(if a.alias { "If" } else { "Cond" }, self.dress(self.btop(b, sc))),
            Attr::Count(e) => n("Count", self.dress(self.ecast(e, sc))),
            Attr::LengthCount(p) => n("LengthCount", self.pars(p, sc)),
            Attr::Map(m) => n("Map", self.mapf(m)),
            Attr::Into => ("Into".into(), None, true),
            Attr::Verify(b) => {
                self.refv = Some(fname.to_string());
                let t = self.dress(self.btop(b, sc));
                self.refv = None;
                n("Verify", t)
            }
            Attr::Tag(bytes) => {
                // three spellings of the same constant
                let s = match (bytes.len() + a.alias as usize) % 2 {
                    0 if !bytes.is_empty() => format!("[{}]", bytes.iter().map(|b| format!("{}u8", b)).collect::<Vec<_>>().join(", ")),
                    _ => format!("b\"{}\"", bytes.iter().map(|b| if b.is_ascii_alphanumeric() { (*b as char).to_string() } else { format!("\\x{:02x}", b) }).collect::<String>()),
                };
                n("Tag", s)
            }
            Attr::Take(e) => n("Take", self.dress(self.ecast(e, sc))),
            Attr::Value(v) => n("Value", self.val(v, sc)),
            Attr::Parse(p) => n("Parse", self.pars(p, sc)),
            Attr::Ignore => (if a.alias { "Default" } else { "Ignore" }.into(), None, true),
            Attr::Exact => ("Exact".into(), None, true),
            Attr::GenericErrors => ("GenericErrors".into(), None, true),
            Attr::InputName => n("InputName", self.d.input.clone()),
            Attr::Selector => {
                let t = match &self.d.kind {
                    Kind::SelEnum(t, _) => selty_rs(self.p, t),
                    _ => "u8".into(),
                };
                n("Selector", t)
            }
            Attr::ExtraArgs => {
                let t = self
                    .d
                    .extra
                    .iter()
                    .map(|(n, t)| {
                        let m = match noise(self.p, &format!("arg{}{}", n, self.d.name), 8) {
                            0 => "mut ",
                            1 => "#[allow(unused_variables)] ",
                            _ => "",
                        };
                        format!("{}{}: {}", m, n, self.ty(t, "'_"))
                    })
                    .collect::<Vec<_>>()
                    .join(", ");
                let t = if noise(self.p, &t, 8) == 0 { format!("{},", t) } else { t };
                ("ExtraArgs".into(), Some(t), false)
            }
            Attr::RawText(s) => (s.clone(), None, true),
        }
    }
    fn attr_text(&mut self, a: &At, sc: &Scope, fname: &str) -> String {
        let (n, arg, strok) = self.attr(a, sc, fname);
        match arg {
            None => n,
            Some(x) => {
                let x = match noise(self.p, &x, 15) {
                    0 if strok => format!(" {} ", x),
                    1 if strok => format!("{} /* {} */", x, n),
                    2 if strok => format!("\n{}\n", x),
                    _ => x,
                };
                style(&n, &x, if strok { a.style } else { 1 })
            }
        }
    }
    /// print a list of attributes as one or several #[nom(..)] lists
    fn attr_list(&mut self, attrs: &[At], texts: &[String], trailing: bool) -> String {
        let mut out = String::new();
        let mut cur: Vec<&str> = vec![];
        let p = self.p;
        let flush = |cur: &mut Vec<&str>, out: &mut String| {
            if !cur.is_empty() {
                let l = format!("nom({}{})", cur.join(", "), if trailing && cur.len() % 2 == 0 { "," } else { "" });
                let l = match noise(p, &l, 12) {
                    0 => format!("/// about {}\n        #[{}] ", cur.len(), l),
                    1 => format!("#[allow(dead_code)] #[{}] ", l),
                    2 => format!("#[cfg_attr(all(), {})] ", l),
                    3 => format!("#[{}] #[doc = \"nom\"] ", l),
                    _ => format!("#[{}] ", l),
                };
                out.push_str(&l);
                cur.clear();
            }
        };
        for (a, t) in attrs.iter().zip(texts) {
            if a.split {
                flush(&mut cur, &mut out);
            }
            cur.push(t);
        }
        flush(&mut cur, &mut out);
        out
    }
    pub fn pre_scope(s: &St, sc: &mut Scope) {
        if let St::Let(n, _) = s {
            sc.push((n.clone(), Ty::Prim(Prim::I64)));
        }
        if let St::Shadow(n, p, _) = s {
            sc.push((n.clone(), Ty::Prim(*p)));
        }
    }
    /// texts of the attributes of an item; extends the scope with pre bindings, then calls `bind`,
    /// then post bindings
    fn item_attrs(&mut self, attrs: &[At], sc: &mut Scope, fname: &str, bind: Option<Ty>) -> Vec<String> {
        let mut texts = vec![String::new(); attrs.len()];
        // pre code
        for (k, a) in attrs.iter().enumerate() {
            match &a.a {
                Attr::PreExec(s) => {
                    texts[k] = self.attr_text(a, sc, fname);
                    Self::pre_scope(s, sc);
                }
                Attr::AlignBefore(_) | Attr::SkipBefore(_) | Attr::Move(_) | Attr::MoveAbs(_) | Attr::ErrorIf(_) | Attr::SetEndian(_) => {
                    texts[k] = self.attr_text(a, sc, fname);
                }
                _ => {}
            }
        }
        // parser chain; the variable bound by Verify has the type at that point of the chain
        let mut cur = bind.clone();
        for (k, a) in attrs.iter().enumerate() {
            if !texts[k].is_empty() || is_post(&a.a) {
                continue;
            }
            let mut sc2 = sc.clone();
            if let (Attr::Verify(_), Some(t)) = (&a.a, chain_ty_at(attrs, k, bind.as_ref())) {
                sc2.push((fname.to_string(), t));
            }
            let _ = &mut cur;
            texts[k] = self.attr_text(a, &sc2, fname);
        }
        if let Some(t) = bind {
            sc.push((fname.to_string(), t));
        }
        for (k, a) in attrs.iter().enumerate() {
            if is_post(&a.a) {
                texts[k] = self.attr_text(a, sc, fname);
                if let Attr::PostExec(s) = &a.a {
                    Self::pre_scope(s, sc);
                }
            }
        }
        texts
    }
    fn vis(&self, vis: &str, n: &str) -> String {
        match noise(self.p, n, 8) {
            0 if !vis.is_empty() => String::new(),
            1 if !vis.is_empty() => "pub(crate) ".into(),
            2 if !vis.is_empty() => "pub(in super) ".into(),
            // comments are attributes too
            3 => format!("/// the field {}\n        {}", n.trim_start_matches("r#"), vis),
            _ => vis.into(),
        }
    }
    fn fields(&mut self, shape: Shape, fields: &[Field], sc: &mut Scope, vis: &str) -> String {
        let mut out = vec![];
        for f in fields {
            let texts = self.item_attrs(&f.attrs, sc, &f.name, Some(f.ty.clone()));
            let l = self.attr_list(&f.attrs, &texts, f.attrs.first().map_or(false, |a| a.alias));
            let lts = self.p.lts(self.p.decls.iter().position(|x| std::ptr::eq(x, self.d)).unwrap_or(0));
            let t = if lts.len() > 1 {
                let k = self.d.fields().iter().filter(|g| self.p.ty_has_lt(&g.ty)).position(|g| std::ptr::eq(*g, f)).unwrap_or(0);
                self.ty(&f.ty, &lts[k % lts.len()])
            } else {
                self.ty(&f.ty, &self.d.lt.clone())
            };
            // a field which is not parsed can have any type, also one with a path
            let leaf = f.attrs.iter().find(|a| !is_pre(&a.a) && !is_post(&a.a) && !matches!(a.a, Attr::Complete | Attr::Debug | Attr::Be | Attr::Le));
            let t = if matches!(leaf, Some(At { a: Attr::Ignore, .. })) && noise(self.p, &f.name, 3) == 0 {
                match &f.ty {
                    Ty::Opt(_) | Ty::Phantom(_) => format!("core::{}::{}", if t.starts_with('O') { "option" } else { "marker" }, t),
                    Ty::Prim(x) => format!("core::primitive::{}", x.rs()),
                    _ => t,
                }
            } else {
                t
            };
            match shape {
                Shape::Named => out.push(format!("\n        {}{}{}: {}", l, self.vis(vis, &f.name), f.name, t)),
                _ => out.push(format!("\n        {}{}{}", l, self.vis(vis, &t), t)),
            }
        }
        out.join(",")
    }
}

pub fn is_post(a: &Attr) -> bool {
    matches!(a, Attr::PostExec(_) | Attr::AlignAfter(_) | Attr::SkipAfter(_) | Attr::Exact)
}
pub fn is_pre(a: &Attr) -> bool {
    matches!(a, Attr::PreExec(_) | Attr::AlignBefore(_) | Attr::SkipBefore(_) | Attr::Move(_) | Attr::MoveAbs(_) | Attr::ErrorIf(_) | Attr::SetEndian(_))
}

/// output type of the parser built from attrs[k..] for a field of type `ty`
/// (what a Verify at position k-1.. sees). Computed from the leaf upwards where the leaf is explicit.
pub fn chain_ty_at(attrs: &[At], k: usize, ty: Option<&Ty>) -> Option<Ty> {
    // type expected at position k going down from the field type
    let mut t = ty?.clone();
    for a in &attrs[..k] {
        match &a.a {
            Attr::Cond(_) => {
                if let Ty::Opt(x) = t {
                    t = *x;
                } else {
                    return None;
                }
            }
            Attr::Count(_) | Attr::LengthCount(_) => {
                if let Ty::Vec(x) = t {
                    t = *x;
                } else {
                    return None;
                }
            }
            Attr::Map(m) => t = map_in(m),
            Attr::Into => t = into_in(&t, attrs, k),
            _ => {}
        }
    }
    Some(t)
}
pub fn into_in(t: &Ty, attrs: &[At], _k: usize) -> Ty {
    for a in attrs {
        match &a.a {
            Attr::Parse(P::Conc(p)) => return Ty::Prim(*p),
            Attr::Parse(P::ConcTake(_)) => return Ty::Slice,
            _ => {}
        }
    }
    t.clone()
}
pub fn map_in(m: &MapF) -> Ty {
    match m {
        MapF::Affine(p, ..) | MapF::Cast(p, _) | MapF::ToStr(p) | MapF::ToSome(p) | MapF::Inc(p) => Ty::Prim(*p),
        MapF::VecLen(p) | MapF::VecRev(p) => Ty::Vec(Box::new(Ty::Prim(*p))),
        MapF::SliceVec | MapF::SliceLen => Ty::Slice,
    }
}
pub fn map_out(m: &MapF) -> Ty {
    match m {
        MapF::Affine(p, ..) | MapF::Inc(p) => Ty::Prim(*p),
        MapF::Cast(_, q) => Ty::Prim(*q),
        MapF::ToStr(_) => Ty::Str,
        MapF::ToSome(p) => Ty::Opt(Box::new(Ty::Prim(*p))),
        MapF::VecLen(_) => Ty::Prim(Prim::U64),
        MapF::VecRev(p) => Ty::Vec(Box::new(Ty::Prim(*p))),
        MapF::SliceVec => Ty::Vec(Box::new(Ty::Prim(Prim::U8))),
        MapF::SliceLen => Ty::Prim(Prim::U32),
    }
}

pub fn style(n: &str, x: &str, style: u8) -> String {
    match style {
        0 => format!("{} = {:?}", n, x),
        2 => format!("{} = r##\"{}\"##", n, x),
        _ => format!("{}({})", n, x),
    }
}

pub fn newtype_prim(p: &Program, d: usize) -> Prim {
    match &p.decls[d].kind {
        Kind::Struct(_, f) => match f[0].ty {
            Ty::Prim(p) => p,
            _ => Prim::U8,
        },
        _ => Prim::U8,
    }
}
pub fn selty_rs(p: &Program, t: &SelTy) -> String {
    match t {
        SelTy::Int(p) => p.rs().into(),
        SelTy::Newtype(d) | SelTy::Fieldless(d) => p.decls[*d].name.clone(),
        SelTy::Pair(a, b) => format!("({}, {})", a.rs(), b.rs()),
        SelTy::Text(k) => ["char", "&str", "bool"][(*k).min(2) as usize].into(),
    }
}

fn text_arg(k: u8, e: &str) -> String {
    match k {
        0 => format!("ndv_char({})", e),
        1 => format!("ndv_text({})", e),
        _ => format!("({} & 1) != 0", e),
    }
}
fn lit_pat(em: &Em, t: &SelTy, n: i128) -> String {
    match t {
        SelTy::Int(p) if *p != Prim::U128 || n >= 0 => match noise(em.p, &format!("pat{}{}", n, em.d.name), 24) {
            0 if n >= 0 => format!("{:#x}", n),
            1 if n >= 0 => format!("{:#b}", n),
            2 => format!("{}{}", n, p.rs()),
            3 if n >= 0 => format!("{:#04x}{}", n, p.rs()),
            4 | 5 if (0..6).contains(&n) => format!("kst::{}::K{}", p.rs(), n),
            6 if *p == Prim::U8 && (32..127).contains(&n) && n != 39 && n != 92 => format!("b'{}'", n as u8 as char),
            7 if n >= 1000 => format!("{}_{:03}", n / 1000, n % 1000),
            8..=12 if p.fits(n) && !matches!(p, Prim::I128 | Prim::U128) && !p.fits(n + 1) => format!("{}::MAX", p.rs()),
            8..=12 if n == 0 && !p.signed() => format!("{}::MIN", p.rs()),
            _ => n.to_string(),
        },
        SelTy::Text(0) => format!("{:?}", n as u8 as char),
        SelTy::Text(1) => format!("{:?}", STRS[n as usize & 7]),
        SelTy::Text(_) => (n & 1 != 0).to_string(),
        _ => n.to_string(),
    }
}
fn pat_rs(em: &Em, t: &SelTy, x: &Pat, sc: &Scope) -> String {
    match x {
        Pat::Wild => "_".into(),
        Pat::Lit(n) => lit_pat(em, t, *n),
        Pat::Or(v) => v.iter().map(|x| pat_rs(em, t, x, sc)).collect::<Vec<_>>().join(" | "),
        Pat::Range(a, b) => {
            if let SelTy::Int(p) = t {
                let (lo, hi) = (*p != Prim::I128 && !p.fits(a - 1), *p != Prim::U128 && *p != Prim::I128 && !p.fits(b + 1));
                match noise(em.p, &format!("range{}{}", a, b), 6) {
                    0..=3 if hi && !lo => return format!("{}..", lit_pat(em, t, *a)),
                    0..=3 if lo && !hi => return format!("..={}", lit_pat(em, t, *b)),
                    4 if !hi && b > a && *b < 1000 => return format!("{}..{}", lit_pat(em, t, *a), lit_pat(em, t, *b + 1)),
                    _ => {}
                }
            }
            format!("{}..={}", lit_pat(em, t, *a), lit_pat(em, t, *b))
        }
        Pat::New(x) => match t {
            SelTy::Newtype(d) => format!("{}({})", em.p.decls[*d].name, pat_rs(em, &SelTy::Int(newtype_prim(em.p, *d)), x, sc)),
            _ => "_".into(),
        },
        Pat::Var(k) => match t {
            SelTy::Fieldless(d) => match &em.p.decls[*d].kind {
                Kind::Fieldless(_, v) => format!("{}::{}", em.p.decls[*d].name, v[*k].0),
                _ => "_".into(),
            },
            _ => "_".into(),
        },
        Pat::Pair(a, b) => match t {
            SelTy::Pair(p, q) => format!("({}, {})", pat_rs(em, &SelTy::Int(*p), a, sc), pat_rs(em, &SelTy::Int(*q), b, sc)),
            _ => "_".into(),
        },
        Pat::Bind(n, None) => n.clone(),
        Pat::Bind(n, Some(x)) => format!("{} @ {}", n, match **x {
            Pat::Or(_) => format!("({})", pat_rs(em, t, x, sc)),
            _ => pat_rs(em, t, x, sc),
        }),
        Pat::Guard(x, b) => {
            let mut sc2 = sc.clone();
            pat_binds(em.p, t, x, &mut sc2);
            format!("{} if {}", pat_rs(em, t, x, sc), em.btop(b, &sc2))
        }
    }
}
/// variables bound by a pattern
pub fn pat_binds(p: &Program, t: &SelTy, x: &Pat, sc: &mut Scope) {
    match x {
        Pat::Bind(n, _) => {
            let ty = match t {
                SelTy::Int(p) => Ty::Prim(*p),
                SelTy::Newtype(d) => Ty::Prim(newtype_prim(p, *d)),
                SelTy::Pair(a, _) => Ty::Prim(*a),
                SelTy::Fieldless(d) => Ty::Named(*d, vec![]),
                SelTy::Text(_) => return,
            };
            sc.push((n.clone(), ty));
        }
        Pat::New(x) | Pat::Guard(x, _) => pat_binds(p, t, x, sc),
        Pat::Pair(a, b) => {
            pat_binds(p, t, a, sc);
            if let SelTy::Pair(_, q) = t {
                pat_binds(p, &SelTy::Pair(*q, *q), b, sc);
            }
        }
        _ => {}
    }
}

fn generics(d: &Decl, p: &Program, di: usize, bounds: &str, with_where: bool) -> (String, String, String) {
    // (declaration generics, use generics, where)
    let mut decl = vec![];
    let mut us = vec![];
    let lts = p.lts(di);
    let mut preds = vec![];
    for (k, l) in lts.iter().enumerate() {
        us.push(l.clone());
        if lts.len() > 2 && k > 0 && d.lt_bound == 4 {
            decl.push(format!("{}: {}", l, lts[..k].join(" + ")));
        } else if lts.len() > 1 && k == d.lt_bound as usize % 2 && matches!(d.lt_bound, 1 | 2) {
            decl.push(format!("{}: {}", l, lts[1 - k]));
        } else {
            decl.push(l.clone());
        }
    }
    if lts.len() > 1 && d.lt_bound == 3 {
        if with_where {
            preds.push(format!("{}: {}", lts[1], lts[0]));
        } else {
            decl[1] = format!("{}: {}", lts[1], lts[0]);
        }
    }
    for (k, t) in d.params.iter().enumerate() {
        let b = if !bounds.is_empty() {
            format!(": {}", bounds)
        } else {
            match d.bound_style {
                1 | 3 => ": Clone".to_string(),
                5 if k == 0 => ": Clone".to_string(),
                _ => String::new(),
            }
        };
        let dflt = if with_where && d.tdefault { " = u8" } else { "" };
        decl.push(format!("{}{}{}", t, b, dflt));
        us.push(t.clone());
    }
    if let Some((c, n)) = &d.konst {
        let dflt = if with_where && d.tdefault { format!(" = {}", n) } else { String::new() };
        decl.push(format!("const {}: usize{}", c, dflt));
        us.push(c.clone());
    }
    if bounds.is_empty() && d.bound_style >= 4 {
        let skip = (d.bound_style == 5) as usize;
        preds.extend(d.params.iter().skip(skip).map(|t| format!("{}: Clone", t)));
    } else if with_where && bounds.is_empty() && d.bound_style >= 2 {
        preds.extend(d.params.iter().map(|t| format!("{}: Sized", t)));
    }
    let w = if preds.is_empty() { String::new() } else { format!(" where {}", preds.join(", ")) };
    let f = |v: &Vec<String>| if v.is_empty() { String::new() } else { format!("<{}>", v.join(", ")) };
    (f(&decl), f(&us), w)
}

pub fn decl_rs(p: &Program, di: usize) -> String {
    let d = &p.decls[di];
    if let Kind::Direct(_) = d.kind {
        return String::new();
    }
    let mut em = Em::new(p, d);
    let mut out = String::new();
    let mut sc: Scope = d.extra.clone();
    if let Kind::SelEnum(t, _) = &d.kind {
        if let Some(ty) = sel_var_ty(t) {
            sc.insert(0, ("selector".into(), ty));
        }
    }
    let dv = match d.derive {
        Derive::Nom => "Nom",
        Derive::NomBE => "NomBE",
        Derive::NomLE => "NomLE",
    };
    let extra = match (&d.kind, d.copy) {
        (_, true) => "Clone, Copy, PartialEq, Eq, ",
        (Kind::Fieldless(..), _) => "Clone, Copy, PartialEq, Eq, ",
        _ => "Clone, ",
    };
    let _ = writeln!(out, "    #[derive({}{})]", extra, dv);
    // top-level attributes: pre statements use the scope before fields; post ones the final scope
    let mut texts = vec![String::new(); d.top.len()];
    for (k, a) in d.top.iter().enumerate() {
        match &a.a {
            Attr::PostExec(_) => {}
            Attr::PreExec(s) => {
                texts[k] = em.attr_text(a, &sc, "");
                Em::pre_scope(s, &mut sc);
            }
            _ => texts[k] = em.attr_text(a, &sc, ""),
        }
    }
    let (gd, gu, wh) = generics(d, p, di, "", true);
    let mut body = String::new();
    let mut repr = String::new();
    match &d.kind {
        Kind::Struct(shape, fields) => {
            let mut sc2 = sc.clone();
            let f = em.fields(*shape, fields, &mut sc2, "pub ");
            match shape {
                Shape::Named => {
                    let _ = write!(body, "pub struct {}{}{} {{{}\n    }}", d.name, gd, wh, f);
                }
                Shape::Tuple => {
                    let _ = write!(body, "pub struct {}{}({}\n    ){};", d.name, gd, f, wh);
                }
                Shape::Unit => {
                    let _ = write!(body, "pub struct {}{}{};", d.name, gd, wh);
                }
            }
            sc = sc2;
        }
        Kind::SelEnum(t, vs) => {
            let _ = write!(body, "pub enum {}{}{} {{", d.name, gd, wh);
            for v in vs {
                let mut sc2 = sc.clone();
                pat_binds(p, t, &v.sel, &mut sc2);
                let pt = pat_rs(&em, t, &v.sel, &sc);
                let sel = style("Selector", &pt, v.sel_style);
                let mut attrs = vec![At { a: Attr::RawText(sel), style: 0, alias: false, split: false }];
                attrs.extend(v.attrs.iter().cloned());
                let mut texts = em.item_attrs(&v.attrs, &mut sc2, "", None);
                let selt = match &attrs[0].a {
                    Attr::RawText(s) => s.clone(),
                    _ => unreachable!(),
                };
                let attrs = if v.sel_style == 255 {
                    attrs[1..].to_vec()
                } else {
                    texts.insert(0, selt);
                    attrs
                };
                let l = em.attr_list(&attrs, &texts, false);
                let f = em.fields(v.shape, &v.fields, &mut sc2, "");
                match v.shape {
                    Shape::Named => {
                        let _ = write!(body, "\n      {}{} {{{} }},", l, v.name, f);
                    }
                    Shape::Tuple => {
                        let _ = write!(body, "\n      {}{}({}),", l, v.name, f);
                    }
                    Shape::Unit => {
                        let _ = write!(body, "\n      {}{},", l, v.name);
                    }
                }
            }
            body.push_str("\n    }");
        }
        Kind::Fieldless(r, vs) => {
            repr = format!("    #[repr({})]\n", r.rs());
            let _ = write!(body, "pub enum {} {{", d.name);
            for (n, v) in vs {
                match v {
                    Some(x) if *r == Prim::U128 => {
                        let _ = write!(body, "\n      {} = {},", n, *x as u128);
                    }
                    Some(x) => {
                        let t = match noise(p, n, 10) {
                            0 if *x >= 0 => format!("{:#x}", x),
                            1 if *x >= 0 => format!("{:#b}{}", x, r.rs()),
                            2 if *x >= 2 => format!("1 + {}", x - 1),
                            3 => format!("({})", x),
                            4 => format!("{{ const D: {} = {}; D }}", r.rs(), x),
                            5 if (32..127).contains(x) && *x != 39 && *x != 92 => format!("b'{}' as {}", *x as u8 as char, r.rs()),
                            6 if *x < 0 && *x > -100 => format!("0 - {}", -x),
                            7 if *x >= 1000 => format!("{}_{:03}", x / 1000, x % 1000),
                            _ => x.to_string(),
                        };
                        let _ = write!(body, "\n      {} = {},", n, t);
                    }
                    None => {
                        let _ = write!(body, "\n      {},", n);
                    }
                }
            }
            body.push_str("\n    }");
        }
        Kind::Direct(_) => {}
    }
    for (k, a) in d.top.iter().enumerate() {
        if let Attr::PostExec(s) = &a.a {
            texts[k] = em.attr_text(a, &sc, "");
            Em::pre_scope(s, &mut sc);
        }
    }
    let l = em.attr_list(&d.top, &texts, d.top.last().map_or(false, |a| a.alias));
    let place = noise(p, &d.name, 6);
    if place < 2 && !repr.is_empty() {
        out.push_str("    /// one\n    /// two\n    #[allow(dead_code)]\n    #[allow(clippy::all)]\n");
    }
    if place % 2 == 0 {
        out.push_str(&repr);
    }
    if !l.is_empty() {
        let _ = writeln!(out, "    {}", l);
    }
    if place % 2 == 1 {
        out.push_str(&repr);
    }
    let _ = writeln!(out, "    {}", body);
    // canonical printing
    let (gd, _, _) = generics(d, p, di, "ToV + Clone", false);
    let _ = writeln!(out, "    impl{} ToV for {}{} {{ fn v(&self, o: &mut String) {{", gd, d.name, gu);
    match &d.kind {
        Kind::Struct(shape, fields) => {
            out.push_str("        o.push('{');\n");
            for (k, f) in fields.iter().enumerate() {
                let n = if *shape == Shape::Named { f.name.clone() } else { k.to_string() };
                let _ = writeln!(out, "        self.{}.v(o); o.push(',');", n);
            }
            out.push_str("        o.push('}');\n");
        }
        Kind::SelEnum(_, vs) => {
            out.push_str("        match self {\n");
            for (k, v) in vs.iter().enumerate() {
                let names: Vec<String> = (0..v.fields.len()).map(|k| format!("f{}", k)).collect();
                let pat = match v.shape {
                    Shape::Named => format!(
                        "{{ {} }}",
                        v.fields.iter().zip(&names).map(|(f, n)| format!("{}: {}", f.name, n)).collect::<Vec<_>>().join(", ")
                    ),
                    Shape::Tuple => format!("({})", names.join(", ")),
                    Shape::Unit => String::new(),
                };
                let body: String = names.iter().map(|n| format!("{}.v(o); o.push(',');", n)).collect();
                let _ = writeln!(out, "        {}::{}{} => {{ o.push_str(\"#{}{{\"); {} o.push('}}'); }}", d.name, v.name, pat, k, body);
            }
            if vs.is_empty() {
                out.push_str("        _ => unreachable!(),\n");
            }
            out.push_str("        }\n");
        }
        Kind::Fieldless(_, vs) => {
            out.push_str("        match self {\n");
            for (k, v) in vs.iter().enumerate() {
                let _ = writeln!(out, "        {}::{} => o.push_str(\"#{}\"),", d.name, v.0, k);
            }
            out.push_str("        }\n");
        }
        Kind::Direct(_) => {}
    }
    out.push_str("    } }\n");
    out
}
pub fn sel_var_ty(t: &SelTy) -> Option<Ty> {
    match t {
        SelTy::Int(p) => Some(Ty::Prim(*p)),
        SelTy::Newtype(d) => Some(Ty::Named(*d, vec![])),
        _ => None,
    }
}

pub fn err_kinds(p: &Program, di: usize) -> usize {
    let d = &p.decls[di];
    // a type of the user without GenericErrors has one error type
    fn any_err(p: &Program, t: &Ty) -> bool {
        match t {
            Ty::Opt(t) | Ty::Vec(t) | Ty::Arr(t, _) => any_err(p, t),
            Ty::Pair(a, b) => any_err(p, a) && any_err(p, b),
            Ty::Named(d, v) => p.decls[*d].generic_errors() && v.iter().all(|t| any_err(p, t)),
            _ => true,
        }
    }
    match &d.kind {
        Kind::Direct(t) if any_err(p, t) => 3,
        Kind::Direct(_) => 1,
        _ if d.generic_errors() => 3,
        _ => 1,
    }
}

/// a type with library implementations only, over the input type `NdvIn`
fn ty_other_input(t: &Ty) -> Option<String> {
    Some(match t {
        Ty::Prim(x) => x.rs().to_string(),
        Ty::LenData(x) => format!("nom_derive::LengthData<{}, NdvIn>", x.rs()),
        Ty::Opt(t) => format!("Option<{}>", ty_other_input(t)?),
        Ty::Vec(t) => format!("Vec<{}>", ty_other_input(t)?),
        Ty::Arr(t, n) => format!("[{}; {}]", ty_other_input(t)?, n),
        Ty::Pair(a, b) => format!("({}, {})", ty_other_input(a)?, ty_other_input(b)?),
        _ => return None,
    })
}

/// module body for a program (without the surrounding `mod`)
pub fn program_rs(p: &Program, suffix: usize) -> String {
    let mut out = String::new();
    if p.edition != 0 {
        let _ = writeln!(out, "// edition {}", p.edition);
    }
    if p.min_imports {
        let mut ds: Vec<&str> = vec![];
        for d in &p.decls {
            let x = match d.derive {
                Derive::Nom => "Nom",
                Derive::NomBE => "NomBE",
                Derive::NomLE => "NomLE",
            };
            if !ds.contains(&x) && !matches!(d.kind, Kind::Direct(_)) {
                ds.push(x);
            }
        }
        ds.push("Parse");
        let _ = writeln!(out, "use nom_derive::{{{}}};\nuse crate::prelude::*;", ds.join(", "));
    } else {
        out.push_str("use nom_derive::*;\nuse core::marker::PhantomData;\nuse crate::prelude::*;\n");
    }
    if p.no_std {
        out.push_str("mod std {}\nmod alloc {}\n");
    }
    if p.noise != 0 {
        for x in INTS.iter().chain(&[Prim::F32, Prim::F64]) {
            if noise(p, x.rs(), 5) == 0 {
                let _ = writeln!(out, "type Ndv_{} = {};", x.rs(), x.rs());
            }
        }
    }
    for k in 0..p.decls.len() {
        out.push_str(&decl_rs(p, k));
    }
    let _ = writeln!(out, "pub fn run{}(d: usize, inst: usize, ep: u8, err: u8, a: &[i128], i: &[u8]) -> String {{ match (d, inst, err) {{", suffix);
    for (k, d) in p.decls.iter().enumerate() {
        let insts: Vec<Vec<Ty>> = if d.params.is_empty() { vec![vec![]] } else { d.insts.clone() };
        for (n, targs) in insts.iter().enumerate() {
            for e in 0..err_kinds(p, k) {
                let et = ["nom::error::Error<&[u8]>", "(&[u8], nom::error::ErrorKind)", "MyErr"][e];
                let t = match &d.kind {
                    Kind::Direct(t) => ty_rs(p, t, "'_", &[]),
                    _ => ty_rs(p, &Ty::Named(k, targs.clone()), "'_", &[]),
                };
                let mut args = vec!["i".to_string()];
                let mut off = 0;
                if let Kind::SelEnum(st, _) = &d.kind {
                    args.push(match st {
                        SelTy::Int(p) => {
                            off = 1;
                            format!("a[0] as {}", p.rs())
                        }
                        SelTy::Newtype(n) => {
                            off = 1;
                            format!("{}(a[0] as {})", p.decls[*n].name, newtype_prim(p, *n).rs())
                        }
                        SelTy::Text(k) => {
                            off = 1;
                            text_arg(*k, "(a[0] as i64)")
                        }
                        SelTy::Fieldless(n) => {
                            off = 1;
                            let nm = &p.decls[*n].name;
                            match &p.decls[*n].kind {
                                Kind::Fieldless(_, vs) => format!(
                                    "match a[0] {{ {} _ => {}::{} }}",
                                    vs.iter().enumerate().map(|(k, v)| format!("{} => {}::{},", k, nm, v.0)).collect::<Vec<_>>().join(" "),
                                    nm,
                                    vs[0].0
                                ),
                                _ => String::new(),
                            }
                        }
                        SelTy::Pair(x, y) => {
                            off = 2;
                            format!("(a[0] as {}, a[1] as {})", x.rs(), y.rs())
                        }
                    });
                }
                for (j, (_, t)) in d.extra.iter().enumerate() {
                    let x = format!("a[{}]", off + j);
                    args.push(match t {
                        Ty::Prim(p) => format!("{} as {}", x, p.rs()),
                        Ty::Bool => format!("{} != 0", x),
                        Ty::Str => format!("ndv_arg_str({} as i64)", x),
                        Ty::Vec(_) => format!("ndv_arg_vec({} as i64)", x),
                        _ => format!("if {} != 0 {{ nom::number::Endianness::Big }} else {{ nom::number::Endianness::Little }}", x),
                    });
                }
                let call = |ep: &str| {
                    if d.is_trait() {
                        format!("<{} as Parse<&[u8], {}>>::{}(i)", t, et, ep)
                    } else {
                        format!("<{}>::{}({})", t, ep, args.join(", "))
                    }
                };
                // the same type over another input type
                let other = match &d.kind {
                    Kind::Direct(t) => ty_other_input(t).map(|t| {
                        let et = ["nom::error::Error<NdvIn>", "(NdvIn, nom::error::ErrorKind)", "MyErrT<NdvIn>"][e];
                        let c = |ep: &str| format!("<{} as Parse<NdvIn, {}>>::{}(i)", t, et, ep);
                        format!(
                            "same(i, s, &|i: NdvIn| {{ let r: nom::IResult<NdvIn, {}, {}> = match ep {{ 0 => {}, 1 => {}, _ => {} }}; fin(r) }})",
                            t, et, c("parse"), c("parse_be"), c("parse_le")
                        )
                    }),
                    _ => None,
                };
                let _ = writeln!(
                    out,
                    "  ({}, {}, {}) => {{ let r: nom::IResult<&[u8], {}, {}> = match ep {{ 0 => {}, 1 => {}, _ => {} }}; let s = fin(r); {} }}",
                    k, n, e, t, et, call("parse"), call("parse_be"), call("parse_le"), other.unwrap_or("s".into())
                );
            }
        }
    }
    out.push_str("  _ => \"BAD\".into() } }\n");
    out
}

pub const PRELUDE: &str = include_str!("../rt/prelude.rs");
