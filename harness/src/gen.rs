//! Random generation of declarations (type directed, so that every generated declaration is one the
//! documentation says is accepted).
use crate::ast::*;
use crate::emit::{lookup, map_in, Scope};

#[derive(Clone)]
pub struct Rng(u64, u64);
impl Rng {
    pub fn new(parts: &[u64]) -> Rng {
        let mut r = Rng(0x9e37_79b9_7f4a_7c15, 0xd1b5_4a32_d192_ed03);
        for p in parts {
            r.0 ^= p.wrapping_mul(0xff51_afd7_ed55_8ccd);
            r.u64();
            r.1 = r.1.wrapping_add(*p);
            r.u64();
        }
        r
    }
    pub fn u64(&mut self) -> u64 {
        // xoroshiro-like
        let (mut a, mut b) = (self.0, self.1);
        let out = a.wrapping_add(b).rotate_left(17).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ b;
        b ^= a;
        a = a.rotate_left(49) ^ b ^ (b << 21);
        b = b.rotate_left(28);
        self.0 = a.wrapping_add(0x1234_5677);
        self.1 = b;
        out ^ (out >> 29)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.u64() >> 11) as usize % n
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as usize) as i64
    }
    pub fn p(&mut self, pct: u32) -> bool {
        self.below(100) < pct as usize
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let k = self.below(v.len());
        &v[k]
    }
    pub fn w(&mut self, weights: &[u32]) -> usize {
        let t: u32 = weights.iter().sum();
        let mut x = self.below(t.max(1) as usize) as u32;
        for (k, w) in weights.iter().enumerate() {
            if x < *w {
                return k;
            }
            x -= w;
        }
        0
    }
}

/// percentages unless said otherwise
#[derive(Clone, Debug)]
pub struct Prof {
    pub max_helpers: usize,
    pub max_fields: usize,
    /// chance of a very wide declaration
    pub wide: u32,
    /// weights: struct, selector enum, fieldless, direct
    pub kinds: [u32; 4],
    pub shape: [u32; 3],
    /// weights of field types: int, float, str, opt, vec, arr, named, slice, phantom, manual, bool, wide(Into), pair, param
    pub tys: [u32; 14],
    /// chance of each wrapper at each level: Complete, Debug, Verify, Map
    pub wrap: [u32; 4],
    pub structural: u32,
    pub leaf: u32,
    pub maxdepth: usize,
    pub pos: u32,
    pub exec: u32,
    pub errorif: u32,
    pub end_field: u32,
    pub setend_field: u32,
    pub setend_top: u32,
    pub end_top: u32,
    pub derive_end: u32,
    pub top_complete: u32,
    pub top_debug: u32,
    pub debug_derive: u32,
    pub exact: u32,
    pub inputname: u32,
    pub extra: u32,
    pub into_same: u32,
    /// ignored field of any type
    pub ignored: u32,
    /// chance that each argument is read at each of the places where user code is inserted
    pub probe: u32,
    pub generic_err: u32,
    pub params: u32,
    /// second lifetime, const parameter, default type parameters
    pub gen_more: u32,
    pub weird: u32,
    pub min_imports: u32,
    pub raw_style: bool,
    /// no construct whose result depends on the length of what remains
    pub streaming: bool,
    /// only what exists without the alloc feature
    pub noalloc: bool,
    pub variants: usize,
    pub many_variants: u32,
    pub default_var: u32,
    /// huge literal counts/skips
    pub hostile: u32,
    pub trace: u32,
    pub call: u32,
}
pub fn base() -> Prof {
    Prof {
        max_helpers: 2,
        max_fields: 6,
        wide: 3,
        kinds: [70, 22, 8, 0],
        shape: [75, 22, 3],
        tys: [34, 4, 4, 9, 9, 7, 12, 9, 2, 4, 2, 2, 2, 0],
        wrap: [5, 4, 8, 7],
        structural: 70,
        leaf: 30,
        maxdepth: 3,
        pos: 8,
        exec: 6,
        errorif: 4,
        end_field: 10,
        setend_field: 3,
        setend_top: 4,
        end_top: 10,
        derive_end: 25,
        top_complete: 5,
        top_debug: 3,
        debug_derive: 0,
        exact: 4,
        inputname: 12,
        extra: 10,
        into_same: 5,
        ignored: 4,
        probe: 0,
        generic_err: 8,
        params: 8,
        gen_more: 10,
        weird: 10,
        min_imports: 15,
        raw_style: true,
        streaming: false,
        noalloc: false,
        variants: 5,
        many_variants: 4,
        default_var: 55,
        hostile: 6,
        trace: 50,
        call: 30,
    }
}

struct Ctx {
    generic: bool,
    special: bool,
    sel: bool,
    named: bool,
    complete: bool,
    scope: Scope,
    used: Vec<String>,
    params: usize,
    weird: u32,
}

pub struct Gen<'a> {
    pub r: Rng,
    pub f: &'a Prof,
    pub p: Program,
    tid: u32,
    cx: Ctx,
}

pub const PLAIN: [&str; 34] = [
    "a", "b", "c", "d", "e", "f", "g", "h", "k", "m", "n", "p", "q", "u", "v", "w", "x", "y", "z", "len1", "kind", "val", "hdr", "body", "flags", "id", "sz", "total", "first", "tail1", "ver", "mode",
    "crc", "ext",
];
pub const WEIRD: [&str; 46] = [
    "offset", "start", "pos", "align", "skip", "offset_u", "new_offset", "struct_def", "enum_def", "input", "data", "orig", "res", "result", "rem", "r#type", "r#match", "r#fn", "r#in", "r#struct", "r#mod",
    "nom", "parser", "parse", "parse_be", "complete", "take", "tag", "verify", "map", "cond", "count", "u8", "u32", "nom_derive", "endianness", "len", "value", "s", "o", "t", "slice", "end", "error", "index", "buffer",
];
const TYPES: [&str; 24] = [
    "Header", "Body", "Packet", "Msg", "Rec", "Entry", "Block", "Frame", "Item", "Node", "Sect", "Chunk", "Table", "Field", "Group", "Meta", "Attr", "Tree", "Config", "Generator", "Parser", "Result", "Error", "Input",
];
const VARIANTS: [&str; 16] = ["A", "B", "C", "D", "Field1", "Field2", "Zero", "One", "First", "Last", "Data", "Ping", "Pong", "X", "Y", "Z"];
const INPUTS: [&str; 13] = ["input", "data", "buf", "inp", "bytes", "src", "stream", "s", "align", "skip", "offset", "start", "pos"];
const LTS: [&str; 4] = ["'a", "'input", "'b", "'x"];
const CONSTS: [&str; 4] = ["N", "LEN", "SIZE", "COUNT"];
const PARAMS: [&str; 6] = ["T", "U", "Elem", "A", "V", "Inner"];

impl<'a> Gen<'a> {
    pub fn new(r: Rng, f: &'a Prof) -> Self {
        Gen {
            r,
            f,
            p: Program { decls: vec![], noise: 0, no_std: false, min_imports: false, edition: 0 },
            tid: 0,
            cx: Ctx { generic: false, special: false, sel: false, named: true, complete: false, scope: vec![], used: vec![], params: 0, weird: 0 },
        }
    }
    pub fn program(mut self) -> Program {
        self.p.min_imports = self.r.p(self.f.min_imports);
        let helpers = self.r.below(self.f.max_helpers + 1);
        for k in 0..=helpers {
            let w = self.f.kinds;
            let kind = if k < helpers { self.r.w(&[50, 25, 25, 0]) } else { self.r.w(&w) };
            let kind = if k < helpers && w[1] == 0 && kind == 1 { 0 } else { kind };
            let kind = if self.f.noalloc && kind == 1 && w[1] == 0 { 0 } else { kind };
            let d = match kind {
                0 => self.strukt(k < helpers),
                1 => {
                    let st = self.sel_ty();
                    self.sel_enum(st)
                }
                2 => self.fieldless(),
                _ => self.direct(),
            };
            self.p.decls.push(d);
        }
        self.p.no_std = self.f.noalloc && self.r.p(70);
        if self.r.p(60) {
            self.p.noise = self.r.u64() | 1;
        }
        self.p
    }
    fn ident(&mut self, pool: &[&str]) -> String {
        let weird = self.cx.weird;
        for _ in 0..8 {
            let n = if weird > 0 && self.r.p(weird) { self.r.pick(&WEIRD).to_string() } else { self.r.pick(pool).to_string() };
            if !self.cx.used.contains(&n) {
                self.cx.used.push(n.clone());
                return n;
            }
        }
        let n = format!("{}{}", pool[0].to_lowercase(), self.cx.used.len() + 10);
        self.cx.used.push(n.clone());
        n
    }
    fn new_ctx(&mut self) -> Ctx {
        Ctx {
            generic: false,
            special: false,
            sel: false,
            named: true,
            complete: false,
            scope: vec![],
            used: vec!["i".into(), "orig_i".into(), "selector".into()],
            params: 0,
            weird: if self.r.p(self.f.weird) { 70 } else { 0 },
        }
    }
    fn type_name(&mut self) -> String {
        let n = self.r.pick(&TYPES).to_string();
        if self.p.decls.iter().any(|d| d.name == n) {
            format!("{}{}", n, self.p.decls.len())
        } else {
            n
        }
    }
    fn at(&mut self, a: Attr) -> At {
        At { a, style: self.r.below(3) as u8, alias: self.r.p(40), split: self.r.p(20) }
    }
    fn blank(&mut self) -> Decl {
        Decl {
            name: self.type_name(),
            kind: Kind::Struct(Shape::Unit, vec![]),
            derive: Derive::Nom,
            top: vec![],
            input: "i".into(),
            extra: vec![],
            params: vec![],
            bound_style: self.r.below(6) as u8,
            lt: self.r.pick(&LTS).to_string(),
            lt2: String::new(),
            lt_bound: 0,
            lt_more: false,
            konst: None,
            tdefault: false,
            insts: vec![],
            copy: false,
        }
    }
    fn header(&mut self, d: &mut Decl) {
        if self.r.p(self.f.inputname) {
            for _ in 0..5 {
                let n = self.r.pick(&INPUTS).to_string();
                d.input = n;
                break;
            }
        }
        self.cx.used.push(d.input.clone());
        self.cx.used.push(format!("orig_{}", d.input));
    }
    /// endianness attributes of the object: at most one kind
    fn obj_end(&mut self, d: &mut Decl, top: &mut Vec<At>, setend: bool) {
        if setend && self.r.p(self.f.setend_top) {
            let e = self.ende();
            let a = self.at(Attr::SetEndian(e));
            top.push(a);
        } else if self.r.p(self.f.derive_end) {
            d.derive = if self.r.p(50) { Derive::NomBE } else { Derive::NomLE };
            if self.r.p(15) {
                // redundant, same value
                let a = if d.derive == Derive::NomBE { Attr::Be } else { Attr::Le };
                let a = self.at(a);
                top.push(a);
            }
        } else if self.r.p(self.f.end_top) {
            let a = if self.r.p(50) { Attr::Be } else { Attr::Le };
            let a = self.at(a);
            top.push(a);
        }
    }
    fn ende(&mut self) -> EndE {
        let eargs: Vec<String> = self.vars(|t| *t == Ty::Endian);
        let e = match self.r.below(6) {
            0 => EndE::Lit(self.r.p(50)),
            1 | 2 if !eargs.is_empty() => EndE::Arg(self.r.pick(&eargs).clone()),
            _ => {
                let b = self.bexp(1);
                EndE::If(b, self.r.p(50))
            }
        };
        if self.r.p(self.f.trace) {
            self.tid += 1;
            EndE::Traced(self.tid, Box::new(e))
        } else {
            e
        }
    }
    fn vars(&self, f: impl Fn(&Ty) -> bool) -> Vec<String> {
        let mut out: Vec<String> = vec![];
        for (n, _) in &self.cx.scope {
            if !out.contains(n) && lookup(&self.cx.scope, n).map_or(false, |t| f(t)) {
                out.push(n.clone());
            }
        }
        out
    }
    fn int_vars(&self) -> Vec<String> {
        self.vars(|t| match t {
            Ty::Prim(p) => p.is_int(),
            Ty::Bool => true,
            _ => false,
        })
    }
    fn any_int(&mut self) -> E {
        // atom
        let ints = self.int_vars();
        let lens = self.vars(|t| matches!(t, Ty::Str | Ty::Vec(_) | Ty::Slice | Ty::Arr(..)));
        let sl = self.vars(|t| match t {
            Ty::Slice => true,
            Ty::Vec(x) => matches!(**x, Ty::Prim(p) if p.is_int()),
            _ => false,
        });
        let p = &self.p;
        let projs: Vec<(String, usize)> = self
            .vars(|t| matches!(t, Ty::Named(..)))
            .into_iter()
            .flat_map(|n| {
                let mut v = vec![];
                if let Some(Ty::Named(d, _)) = lookup(&self.cx.scope, &n) {
                    if let Kind::Struct(_, f) = &p.decls[*d].kind {
                        for (k, f) in f.iter().enumerate() {
                            if matches!(f.ty, Ty::Prim(p) if p.is_int()) {
                                v.push((n.clone(), k));
                            }
                        }
                    }
                }
                v
            })
            .collect();
        for _ in 0..3 {
            match self.r.below(12) {
                0..=6 if !ints.is_empty() => return E::Var(self.r.pick(&ints).clone()),
                7 if !lens.is_empty() => return E::Len(self.r.pick(&lens).clone()),
                8 if !sl.is_empty() => return E::First(self.r.pick(&sl).clone()),
                9 if !projs.is_empty() => {
                    let (n, k) = self.r.pick(&projs).clone();
                    return E::Proj(n, k);
                }
                10 if !self.f.streaming && self.r.p(30) => return E::InputLen,
                11 => return E::Lit(self.r.range(0, 6)),
                _ => {}
            }
        }
        E::Lit(self.r.range(0, 6))
    }
    /// small non-negative amount most of the time
    fn amount(&mut self) -> E {
        match self.r.below(20) {
            0..=4 => E::Lit(self.r.range(0, 6)),
            5..=10 => {
                let m = *self.r.pick(&[1, 3, 7, 15, 7, 3]);
                let a = self.any_int();
                E::And(Box::new(a), m)
            }
            11..=13 => self.any_int(),
            14 => {
                let a = self.any_int();
                E::Sub(Box::new(a), Box::new(E::Lit(self.r.range(0, 3))))
            }
            15 => {
                let a = self.any_int();
                let b = self.any_int();
                E::Add(Box::new(E::And(Box::new(a), 3)), Box::new(E::And(Box::new(b), 3)))
            }
            16 => {
                let b = self.bexp(0);
                E::If(Box::new(b), Box::new(E::Lit(self.r.range(0, 3))), Box::new(E::Lit(self.r.range(0, 5))))
            }
            17 => {
                let a = self.any_int();
                E::Mul(Box::new(E::And(Box::new(a), 3)), self.r.range(0, 4))
            }
            18 => {
                let a = self.any_int();
                E::And(Box::new(E::Shr(Box::new(a), self.r.below(9) as u32)), 7)
            }
            _ => {
                if self.r.p(self.f.hostile) {
                    E::Lit(*self.r.pick(&[255, 256, 257, 300, 1000, 65535, 65536, 70000, 1 << 31, 1 << 33, i64::MAX, -1, i64::MIN, -2]))
                } else {
                    E::Lit(self.r.range(0, 20))
                }
            }
        }
    }
    fn expr(&mut self) -> E {
        match self.r.below(8) {
            0..=3 => self.any_int(),
            4 => {
                let a = self.any_int();
                let b = self.any_int();
                E::Add(Box::new(a), Box::new(b))
            }
            5 => {
                let a = self.any_int();
                let b = self.any_int();
                E::Sub(Box::new(a), Box::new(b))
            }
            6 => {
                let a = self.any_int();
                E::Mul(Box::new(a), self.r.range(-3, 9))
            }
            _ => self.amount(),
        }
    }
    fn lit_for(&mut self, p: Prim) -> i64 {
        let bits = p.size() as u32 * 8;
        for _ in 0..4 {
            let v = match self.r.below(7) {
                0..=3 => self.r.range(0, 8),
                4 => self.r.range(-4, 40),
                5 => 1i64.checked_shl(self.r.below(bits.min(62) as usize) as u32).unwrap_or(1),
                _ => self.r.range(0, 255),
            };
            if p.fits(v as i128) {
                return v;
            }
        }
        1
    }
    fn bexp(&mut self, depth: u32) -> B {
        let ints = self.vars(|t| matches!(t, Ty::Prim(p) if p.is_int()));
        let bools = self.vars(|t| *t == Ty::Bool);
        let opts = self.vars(|t| matches!(t, Ty::Opt(_)));
        match self.r.below(13) {
            0..=4 if !ints.is_empty() => {
                let n = self.r.pick(&ints).clone();
                let Some(Ty::Prim(p)) = lookup(&self.cx.scope, &n).cloned() else { return B::Lit(true) };
                let l = self.lit_for(p);
                B::Raw(*self.r.pick(&OPS), n, l, self.r.p(25))
            }
            5 if !bools.is_empty() => B::Var(self.r.pick(&bools).clone()),
            6 if !opts.is_empty() => B::IsSome(self.r.pick(&opts).clone()),
            7 if depth > 0 => {
                let b = self.bexp(depth - 1);
                B::Not(Box::new(b))
            }
            8 if depth > 0 => {
                let a = self.bexp(depth - 1);
                let b = self.bexp(depth - 1);
                B::And(Box::new(a), Box::new(b))
            }
            9 if depth > 0 => {
                let a = self.bexp(depth - 1);
                let b = self.bexp(depth - 1);
                B::Or(Box::new(a), Box::new(b))
            }
            10 => {
                // parity of something: both outcomes are likely
                let a = self.any_int();
                B::Cmp(*self.r.pick(&[Op::Eq, Op::Ne]), E::And(Box::new(a), 1), E::Lit(0))
            }
            11 if self.r.p(30) => B::Lit(self.r.p(70)),
            _ => {
                let a = self.any_int();
                let b = if self.r.p(60) { E::Lit(self.r.range(0, 9)) } else { self.any_int() };
                B::Cmp(*self.r.pick(&OPS), a, b)
            }
        }
    }
    /// mostly true conditions
    fn cond_for(&mut self) -> B {
        self.bexp(2)
    }
    fn prim(&mut self) -> Prim {
        *self.r.pick(&[
            Prim::U8, Prim::U8, Prim::U8, Prim::U16, Prim::U16, Prim::U32, Prim::U32, Prim::U64, Prim::U128, Prim::I8, Prim::I16, Prim::I32, Prim::I64, Prim::I128,
        ])
    }
    fn small_ty(&mut self) -> Ty {
        match self.r.below(8) {
            0..=4 => Ty::Prim(self.prim()),
            5 => Ty::Prim(*self.r.pick(&[Prim::F32, Prim::F64])),
            6 => Ty::Prim(Prim::U16),
            _ => Ty::Pair(Box::new(Ty::Prim(self.prim())), Box::new(Ty::Prim(self.prim()))),
        }
    }
    /// can `t` be parsed through the trait in the current context
    pub fn infer_ok(&self, t: &Ty, top: bool) -> bool {
        self.infer_in(t, top, top)
    }
    /// `infer`: the derive sees the type, and so what the error type has to implement
    fn infer_in(&self, t: &Ty, top: bool, infer: bool) -> bool {
        let g = self.cx.generic;
        match t {
            Ty::Prim(_) => true,
            Ty::Str => !self.f.noalloc && (!g || infer),
            Ty::Opt(t) => !self.f.streaming && self.infer_in(t, false, infer),
            Ty::Vec(t) => !self.f.streaming && !self.f.noalloc && self.infer_in(t, false, infer),
            Ty::Arr(t, n) => (!g || self.f.noalloc) && !(self.f.streaming && *n > 0 && !self.f.noalloc) && !matches!(**t, Ty::Pair(..)) && self.infer_in(t, false, infer) && (!self.f.noalloc || matches!(**t, Ty::Prim(_) | Ty::Arr(..))),
            Ty::Pair(a, b) => !top && self.infer_in(a, false, infer) && self.infer_in(b, false, infer),
            Ty::Phantom(_) => top && !self.p.min_imports,
            Ty::Named(d, a) => self.trait_usable(*d) && a.iter().all(|t| self.infer_in(t, false, infer)),
            Ty::Manual(_) => true,
            Ty::Param(_) => true,
            Ty::Slice | Ty::Bool | Ty::Wide(_) | Ty::LenData(_) | Ty::Endian => false,
        }
    }
    /// does the declaration require more of the error type than the derive of another one can know
    fn needs_more(&self, d: usize) -> bool {
        let x = &self.p.decls[d];
        let dbg = |l: &[At]| l.iter().any(|a| matches!(a.a, Attr::Debug));
        x.fields().iter().any(|f| crate::gen::mentions(&f.ty, &Ty::Str) || dbg(&f.attrs)) || dbg(&x.top)
    }
    fn trait_usable(&self, d: usize) -> bool {
        let x = &self.p.decls[d];
        x.is_trait() && !matches!(x.kind, Kind::Direct(_)) && (!self.cx.generic || (x.generic_errors() && !self.needs_more(d)))
    }
    /// declaration callable by path
    fn call_usable(&self, d: usize) -> bool {
        let x = &self.p.decls[d];
        if matches!(x.kind, Kind::Direct(_)) {
            return false;
        }
        if self.cx.generic {
            x.generic_errors() && !self.needs_more(d) && (self.cx.special || x.is_trait())
        } else {
            true
        }
    }
    fn targs(&mut self, d: usize) -> Vec<Ty> {
        let n = self.p.decls[d].params.len();
        let ge = self.p.decls[d].generic_errors() || self.cx.generic;
        (0..n)
            .map(|_| {
                if self.cx.params > 0 && self.r.p(50) {
                    Ty::Param(self.r.below(self.cx.params))
                } else {
                    self.inst_ty(ge)
                }
            })
            .collect()
    }
    fn inst_ty(&mut self, ge: bool) -> Ty {
        if self.f.streaming || self.f.noalloc {
            return Ty::Prim(self.prim());
        }
        match self.r.below(12) {
            0..=4 => Ty::Prim(self.prim()),
            5 => Ty::Prim(*self.r.pick(&[Prim::F32, Prim::F64])),
            6 => Ty::Vec(Box::new(Ty::Prim(self.prim()))),
            7 => Ty::Opt(Box::new(Ty::Prim(self.prim()))),
            8 if !ge => Ty::Str,
            9 if !ge => Ty::Arr(Box::new(Ty::Prim(self.prim())), 1 + self.r.below(3) as u32),
            10 => Ty::Manual(*self.r.pick(&[Man::Which, Man::Tiny])),
            11 if self.r.p(70) => {
                let v: Vec<usize> = (0..self.p.decls.len())
                    .filter(|k| {
                        let d = &self.p.decls[*k];
                        d.params.is_empty() && self.trait_usable(*k) && (!ge || (d.generic_errors() && !self.needs_more(*k)))
                    })
                    .collect();
                if v.is_empty() {
                    Ty::Prim(self.prim())
                } else {
                    Ty::Named(*self.r.pick(&v), vec![])
                }
            }
            _ => Ty::Pair(Box::new(Ty::Prim(self.prim())), Box::new(Ty::Prim(self.prim()))),
        }
    }
    fn elem_ty(&mut self, depth: usize) -> Ty {
        if depth > 0 && self.r.p(45) {
            self.field_ty(depth - 1)
        } else {
            match self.r.below(10) {
                0..=5 => Ty::Prim(self.prim()),
                6 => Ty::Prim(*self.r.pick(&[Prim::F32, Prim::F64])),
                7 => {
                    if self.f.noalloc {
                        Ty::Prim(Prim::U8)
                    } else {
                        Ty::Slice
                    }
                }
                8 => Ty::Prim(Prim::U8),
                _ => self.small_ty(),
            }
        }
    }
    fn field_ty(&mut self, depth: usize) -> Ty {
        let mut w = self.f.tys;
        if self.cx.params > 0 {
            w[13] = 45;
        } else {
            w[13] = 0;
        }
        if depth == 0 {
            w[3] = 0;
            w[4] = 0;
            w[5] = 0;
        }
        if self.p.decls.is_empty() {
            w[6] = 0;
        }
        if self.f.noalloc {
            for k in [2, 4, 7] {
                w[k] = 0;
            }
        }
        match self.r.w(&w) {
            0 => Ty::Prim(self.prim()),
            1 => Ty::Prim(*self.r.pick(&[Prim::F32, Prim::F64])),
            2 => Ty::Str,
            3 => Ty::Opt(Box::new(self.elem_ty(depth))),
            4 => Ty::Vec(Box::new(self.elem_ty(depth))),
            5 => {
                let n = *self.r.pick(&[1, 2, 3, 4, 5, 8, 16, 33]);
                let t = match self.r.below(8) {
                    0..=4 => Ty::Prim(self.prim()),
                    5 => Ty::Arr(Box::new(Ty::Prim(self.prim())), 1 + self.r.below(3) as u32),
                    _ => self.small_ty(),
                };
                Ty::Arr(Box::new(t), n)
            }
            6 => {
                let d = self.r.below(self.p.decls.len());
                if matches!(self.p.decls[d].kind, Kind::Direct(_)) || !self.call_usable(d) {
                    return Ty::Prim(self.prim());
                }
                let a = self.targs(d);
                Ty::Named(d, a)
            }
            7 => Ty::Slice,
            8 => {
                if self.p.min_imports {
                    Ty::Prim(self.prim())
                } else {
                    Ty::Phantom(self.prim())
                }
            }
            9 => Ty::Manual(*self.r.pick(&[Man::Which, Man::OnlyParse, Man::Fussy, Man::Tiny])),
            10 => Ty::Bool,
            11 => {
                if self.cx.generic {
                    Ty::Prim(self.prim())
                } else {
                    Ty::Wide(*self.r.pick(&[Prim::U8, Prim::U16, Prim::U32, Prim::U64, Prim::I8, Prim::I16, Prim::I32, Prim::I64]))
                }
            }
            12 => Ty::Pair(Box::new(Ty::Prim(self.prim())), Box::new(Ty::Prim(self.prim()))),
            _ => {
                let t = Ty::Param(self.r.below(self.cx.params));
                match self.r.below(5) {
                    0 if depth > 0 && !self.f.streaming => Ty::Opt(Box::new(t)),
                    1 if depth > 0 && !self.f.noalloc => Ty::Vec(Box::new(t)),
                    2 if depth > 0 && !self.cx.generic && !self.f.streaming && !self.f.noalloc => Ty::Arr(Box::new(t), 1 + self.r.below(3) as u32),
                    _ => t,
                }
            }
        }
    }
    fn len_p(&mut self) -> P {
        match self.r.below(14) {
            0..=5 => P::Nom(*self.r.pick(&[Prim::U8, Prim::U8, Prim::U16, Prim::U32, Prim::U64]), self.r.p(50), false),
            6 | 7 => P::Meth(Ty::Prim(*self.r.pick(&[Prim::U8, Prim::U16, Prim::U32, Prim::U64])), *self.r.pick(&EPS)),
            8 => P::Fun(Pf::OddErr),
            9 => P::Fun(Pf::HiFail),
            10 => P::Fun(Pf::VarInt),
            11 => P::Fun(Pf::Peek),
            12 if !self.cx.generic => P::Conc(*self.r.pick(&[Prim::U8, Prim::U16])),
            13 if !self.f.streaming => P::Nom(Prim::U8, true, true),
            _ => P::U24(self.r.p(50)),
        }
    }
    fn call_p(&mut self, d: usize, targs: &[Ty]) -> Option<P> {
        let x = self.p.decls[d].clone();
        if !self.call_usable(d) {
            return None;
        }
        let ep = *self.r.pick(&EPS);
        if x.is_trait() && self.r.p(60) {
            return Some(P::Meth(Ty::Named(d, targs.to_vec()), ep));
        }
        let sel = match &x.kind {
            Kind::SelEnum(t, vs) => Some(match t {
                SelTy::Int(p) => {
                    let vars = self.vars(|t| *t == Ty::Prim(*p));
                    if !vars.is_empty() && self.r.p(50) {
                        SelArg::Var(self.r.pick(&vars).clone())
                    } else {
                        let e = if self.r.p(40) {
                            // a literal of one of the patterns
                            let mut lits = vec![];
                            vs.iter().for_each(|v| pat_lits(&v.sel, &mut lits));
                            lits.push(0);
                            E::Lit(*self.r.pick(&lits) as i64)
                        } else {
                            self.amount()
                        };
                        SelArg::Int(e)
                    }
                }
                SelTy::Newtype(n) => {
                    let vars = self.vars(|t| *t == Ty::Named(*n, vec![]));
                    if !vars.is_empty() && self.r.p(70) {
                        SelArg::Var(self.r.pick(&vars).clone())
                    } else {
                        SelArg::Wrap(self.amount())
                    }
                }
                SelTy::Fieldless(n) => {
                    let vars = self.vars(|t| *t == Ty::Named(*n, vec![]));
                    if vars.is_empty() {
                        return None;
                    }
                    SelArg::Var(self.r.pick(&vars).clone())
                }
                SelTy::Text(k) => {
                    let mut lits = vec![];
                    vs.iter().for_each(|v| pat_lits(&v.sel, &mut lits));
                    let _ = k;
                    if !lits.is_empty() && self.r.p(50) {
                        SelArg::Int(E::Lit(*self.r.pick(&lits) as i64))
                    } else {
                        SelArg::Int(self.amount())
                    }
                }
                SelTy::Pair(..) => {
                    let a = self.amount();
                    let b = self.amount();
                    SelArg::Pair(a, b)
                }
            }),
            _ => None,
        };
        let args = x.extra.iter().map(|_| self.amount()).collect();
        Some(P::Call { decl: d, targs: targs.to_vec(), ep, sel, args })
    }
    /// explicit parser returning `t`
    fn parser_for(&mut self, t: &Ty) -> Option<P> {
        let ep = *self.r.pick(&EPS);
        Some(match t {
            Ty::Prim(p) => match self.r.below(10) {
                0..=2 => P::Nom(*p, self.r.p(50), !self.f.streaming && self.r.p(25)),
                3 | 4 => P::Meth(t.clone(), ep),
                5 if !self.cx.generic && p.is_int() && p.size() <= 8 => P::Conc(*p),
                6..=8 if *p == Prim::U8 => P::Fun(*self.r.pick(&[Pf::OddErr, Pf::HiFail, Pf::Peek])),
                6..=8 if *p == Prim::U32 => {
                    if self.r.p(50) {
                        P::Fun(Pf::VarInt)
                    } else {
                        P::U24(self.r.p(50))
                    }
                }
                6 if *p == Prim::U64 && !self.f.streaming => P::Fun(Pf::RemLen),
                _ => P::Nom(*p, self.r.p(50), false),
            },
            Ty::Slice => match self.r.below(6) {
                0..=2 => P::Take(self.amount()),
                3 => P::Fun(Pf::CStr),
                4 if !self.f.streaming => P::Fun(Pf::Rest),
                _ => {
                    if self.cx.generic {
                        P::Take(self.amount())
                    } else {
                        P::ConcTake(self.r.below(5) as u32)
                    }
                }
            },
            Ty::Named(d, a) => {
                if !self.f.streaming && self.infer_ok(t, false) && self.r.p(20) {
                    P::Sub { len: *self.r.pick(&[Prim::U8, Prim::U16, Prim::U32]), be: self.r.p(50), ty: t.clone(), ep }
                } else {
                    return self.call_p(*d, a);
                }
            }
            Ty::Opt(x) => {
                if self.infer_ok(t, false) && self.r.p(40) {
                    P::Meth(t.clone(), ep)
                } else {
                    let b = self.bexp(1);
                    let p = self.parser_for(x)?;
                    P::Cond(b, Box::new(p))
                }
            }
            Ty::Str | Ty::Vec(_) | Ty::Arr(..) | Ty::Pair(..) | Ty::Param(_) | Ty::Manual(_) => {
                if !self.infer_ok(t, false) {
                    return None;
                }
                if !self.f.streaming && self.r.p(15) && matches!(t, Ty::Vec(_)) {
                    P::Sub { len: Prim::U8, be: true, ty: t.clone(), ep }
                } else {
                    P::Meth(t.clone(), ep)
                }
            }
            _ => return None,
        })
    }
    fn verify(&mut self, t: &Ty, fname: &str) -> Option<B> {
        let ok = match t {
            Ty::Prim(p) => p.is_int(),
            Ty::Str | Ty::Slice => true,
            Ty::Vec(x) => !matches!(**x, Ty::Slice) && !self.p.ty_has_lt(x) && !mentions_param(x),
            _ => false,
        };
        if !ok {
            return None;
        }
        let n = self.cx.scope.len();
        self.cx.scope.push((fname.to_string(), t.clone()));
        let b = match t {
            Ty::Prim(p) => {
                let l = self.lit_for(*p);
                let ops = [Op::Ge, Op::Le, Op::Ne, Op::Lt, Op::Gt, Op::Eq];
                let base = match self.r.below(6) {
                    0..=2 => B::Raw(*self.r.pick(&ops), fname.into(), l, self.r.p(40)),
                    3 => B::Cmp(Op::Eq, E::And(Box::new(E::Var(fname.into())), 1), E::Lit(self.r.range(0, 1))),
                    4 => {
                        // relation to an earlier field
                        self.cx.scope.truncate(n);
                        let e = self.any_int();
                        self.cx.scope.push((fname.to_string(), t.clone()));
                        B::Cmp(*self.r.pick(&OPS), E::Var(fname.into()), e)
                    }
                    _ => {
                        let l2 = self.lit_for(*p);
                        let a = B::Raw(Op::Ge, fname.into(), l.min(l2), false);
                        let b = B::Raw(Op::Le, fname.into(), l.max(l2), false);
                        B::And(Box::new(a), Box::new(b))
                    }
                };
                if self.r.p(10) {
                    B::Not(Box::new(base))
                } else {
                    base
                }
            }
            t => {
                let b = B::LenGt(fname.into(), t.clone(), self.r.range(0, 3));
                if self.r.p(50) {
                    B::Not(Box::new(b))
                } else {
                    b
                }
            }
        };
        self.cx.scope.truncate(n);
        Some(b)
    }
    fn map_for(&mut self, t: &Ty) -> Option<MapF> {
        Some(match t {
            Ty::Prim(p) if p.is_int() => match self.r.below(5) {
                0 => MapF::Affine(*p, self.r.range(-3, 5), self.r.range(-9, 9)),
                1 => MapF::Inc(*p),
                2 if *p == Prim::U64 && !self.f.noalloc => MapF::VecLen(self.prim()),
                2 if *p == Prim::U32 => MapF::SliceLen,
                _ => MapF::Cast(self.prim(), *p),
            },
            Ty::Str => MapF::ToStr(self.prim()),
            Ty::Opt(x) => match **x {
                Ty::Prim(p) if p.is_int() => MapF::ToSome(p),
                _ => return None,
            },
            Ty::Vec(x) => match **x {
                Ty::Prim(Prim::U8) if self.r.p(50) => MapF::SliceVec,
                Ty::Prim(p) => MapF::VecRev(p),
                _ => return None,
            },
            _ => return None,
        })
    }
    fn value(&mut self, t: &Ty) -> Option<Val> {
        Some(match t {
            Ty::Prim(p) if p.is_int() => {
                let same = self.vars(|x| x == t);
                if !same.is_empty() && self.r.p(30) {
                    Val::Copy(self.r.pick(&same).clone())
                } else {
                    let e = if self.r.p(40) { E::Lit(self.lit_for(*p)) } else { self.expr() };
                    Val::Int(*p, e)
                }
            }
            Ty::Bool => Val::Bool(self.bexp(1)),
            Ty::Str => Val::Str(self.expr()),
            Ty::Vec(x) => match **x {
                Ty::Prim(p) if p.is_int() => {
                    let e = self.expr();
                    Val::VecOf(p, e, self.r.below(4) as u32)
                }
                _ => return None,
            },
            Ty::Opt(_) => Val::None_,
            _ => return None,
        })
    }
    fn ignored_ty(&mut self, depth: usize) -> Ty {
        let na = self.f.noalloc;
        if depth == 0 || self.r.p(15) {
            return match self.r.below(8) {
                0 if !na => Ty::Slice,
                1 if !na => Ty::Str,
                2 if !self.p.min_imports => Ty::Phantom(self.prim()),
                3 => Ty::Bool,
                4 => Ty::Manual(*self.r.pick(&[Man::Which, Man::OnlyParse, Man::Fussy, Man::Tiny])),
                5 => Ty::Prim(*self.r.pick(&[Prim::F32, Prim::F64])),
                _ => Ty::Prim(self.prim()),
            };
        }
        match self.r.below(5) {
            0 => Ty::Pair(Box::new(self.ignored_ty(depth - 1)), Box::new(self.ignored_ty(depth - 1))),
            1 if !na => Ty::Vec(Box::new(self.ignored_ty(depth - 1))),
            2 => Ty::Opt(Box::new(self.ignored_ty(depth - 1))),
            _ => Ty::Arr(Box::new(self.ignored_ty(depth - 1)), 1 + self.r.below(5) as u32),
        }
    }
    fn default_ok(&self, t: &Ty) -> bool {
        match t {
            Ty::Prim(_) | Ty::Str | Ty::Opt(_) | Ty::Vec(_) | Ty::Bool | Ty::Wide(_) | Ty::Manual(_) => true,
            Ty::Phantom(_) => !self.p.min_imports,
            Ty::Arr(t, n) => *n <= 32 && self.default_ok(t),
            Ty::Slice => true,
            Ty::Pair(a, b) => self.default_ok(a) && self.default_ok(b),
            _ => false,
        }
    }
    /// attributes for a field of type `t`; `inferable`: the remaining field type is still tracked
    fn chain(&mut self, t: &Ty, fname: &str, depth: usize, inferable: bool, out: &mut Vec<Attr>) -> bool {
        let mut t = t.clone();
        let mut inferable = inferable;
        for _ in 0..6 {
            // wrappers
            let mut again = true;
            let mut n = 0;
            while again && n < 3 && out.len() < 8 {
                again = false;
                n += 1;
                let w = self.f.wrap;
                if !self.f.streaming && self.r.p(w[0]) {
                    out.push(Attr::Complete);
                    again = true;
                }
                if self.cx.named && self.r.p(w[1]) {
                    out.push(Attr::Debug);
                    again = true;
                }
                if self.cx.named && self.r.p(w[2]) {
                    if let Some(b) = self.verify(&t, fname) {
                        out.push(Attr::Verify(b));
                        again = true;
                    }
                }
                if self.r.p(w[3]) {
                    if let Some(m) = self.map_for(&t) {
                        let t2 = map_in(&m);
                        let keeps = t2 == t;
                        // after a type change the leaf has to be explicit
                        if keeps || self.parser_for(&t2).is_some() {
                            if !keeps {
                                inferable = false;
                            }
                            t = t2;
                            if keeps && self.r.p(20) {
                                // the same twice
                                out.push(Attr::Map(m.clone()));
                            }
                            out.push(Attr::Map(m));
                            again = true;
                        }
                    }
                }
            }
            let deep = out.iter().filter(|a| matches!(a, Attr::Cond(_) | Attr::Count(_) | Attr::LengthCount(_))).count();
            match &t {
                Ty::Opt(x) if inferable && deep < self.f.maxdepth + 2 && self.r.p(self.f.structural) => {
                    let b = self.cond_for();
                    out.push(Attr::Cond(b));
                    t = (**x).clone();
                    continue;
                }
                Ty::Vec(x) if inferable && deep < self.f.maxdepth + 2 && self.r.p(self.f.structural) => {
                    if self.r.p(60) {
                        let e = self.amount();
                        out.push(Attr::Count(e));
                    } else {
                        let p = self.len_p();
                        out.push(Attr::LengthCount(p));
                    }
                    t = (**x).clone();
                    continue;
                }
                Ty::Wide(p) if !self.cx.generic => {
                    if self.r.p(85) || !self.default_ok(&t) {
                        out.push(Attr::Into);
                        if self.r.p(15) && !self.f.streaming {
                            out.push(Attr::Complete);
                        }
                        out.push(Attr::Parse(P::Conc(*p)));
                        return true;
                    }
                    out.push(Attr::Ignore);
                    return true;
                }
                Ty::Vec(x) if **x == Ty::Prim(Prim::U8) && inferable && !self.cx.generic && self.r.p(6) => {
                    out.push(Attr::Into);
                    out.push(Attr::Parse(P::ConcTake(self.r.below(5) as u32)));
                    return true;
                }
                _ => {}
            }
            break;
        }
        let _ = depth;
        // leaf
        let can_infer = inferable && self.infer_ok(&t, out.iter().all(|a| !matches!(a, Attr::Cond(_))) || true) && !matches!(t, Ty::Pair(..));
        // String under GenericErrors is only supported where it is the type of the parser itself
        if can_infer && !self.r.p(self.f.leaf) {
            // conversion of a type to itself
            if !self.cx.generic && !out.contains(&Attr::Into) && self.r.p(self.f.into_same) {
                out.push(Attr::Into);
                if self.r.p(15) && !self.f.streaming {
                    out.push(Attr::Complete);
                }
            }
            return true;
        }
        for _ in 0..6 {
            match self.r.below(10) {
                0 | 1 if t == Ty::Slice => {
                    let n = 1 + self.r.below(4);
                    let tag = (0..n).map(|_| *self.r.pick(&[b'A', b'b', 0, 1, 0xff, 0x7f, b'0'])).collect();
                    out.push(Attr::Tag(tag));
                    return true;
                }
                2 | 3 if t == Ty::Slice => {
                    let e = self.amount();
                    out.push(Attr::Take(e));
                    return true;
                }
                4 => {
                    if let Some(v) = self.value(&t) {
                        out.push(Attr::Value(v));
                        return true;
                    }
                }
                5 if self.r.p(50) && inferable && self.default_ok(&t) => {
                    out.push(Attr::Ignore);
                    return true;
                }
                6..=9 => {
                    if let Some(p) = self.parser_for(&t) {
                        out.push(Attr::Parse(p));
                        return true;
                    }
                }
                _ => {}
            }
        }
        if can_infer {
            return true;
        }
        if t == Ty::Slice {
            let e = self.amount();
            out.push(Attr::Take(e));
            return true;
        }
        if let Some(p) = self.parser_for(&t) {
            out.push(Attr::Parse(p));
            return true;
        }
        if let Some(v) = self.value(&t) {
            out.push(Attr::Value(v));
            return true;
        }
        false
    }
    fn stmt(&mut self, post: bool, fields: &[Field]) -> St {
        let ints = self.vars(|t| matches!(t, Ty::Prim(p) if p.is_int())).into_iter().filter(|n| n != "selector").collect::<Vec<_>>();
        match self.r.below(12) {
            0..=2 => {
                let e = self.expr();
                let mut n = self.ident(&PLAIN);
                while n.ends_with("_def") {
                    // documented name of the object
                    n = self.ident(&["bound"]);
                }
                St::Let(n, e)
            }
            3 | 4 if !ints.is_empty() => {
                let n = self.r.pick(&ints).clone();
                let e = self.expr();
                match lookup(&self.cx.scope, &n) {
                    Some(Ty::Prim(p)) => St::Shadow(n, *p, e),
                    _ => St::Let(n, e),
                }
            }
            5 if post && !fields.is_empty() && matches!(fields.last().unwrap().ty, Ty::Prim(p) if p.is_int()) && self.cx.named && lookup(&self.cx.scope, &fields.last().unwrap().name).is_some() => {
                let f = fields.last().unwrap();
                let Ty::Prim(p) = f.ty else { unreachable!() };
                let e = self.expr();
                St::Shadow(f.name.clone(), p, e)
            }
            6 if !self.f.streaming => St::Advance(1 + self.r.below(3) as u32),
            7 => {
                let b = self.bexp(1);
                let b = if self.r.p(50) { B::And(Box::new(b), Box::new(self.bexp(0))) } else { b };
                St::Bail(b)
            }
            _ => {
                self.tid += 1;
                let e = self.expr();
                St::Trace(self.tid, e)
            }
        }
    }
    fn apply(&mut self, s: &St) {
        crate::emit::Em::pre_scope(s, &mut self.cx.scope);
    }
    fn align(&mut self) -> E {
        match self.r.below(8) {
            0..=4 => E::Lit(*self.r.pick(&[1, 2, 3, 4, 4, 5, 6, 7, 8, 16, 0, 12])),
            5 if self.r.p(self.f.hostile) => E::Lit(*self.r.pick(&[255, 256, 4096, i64::MAX, -1, 1 << 32, 1 << 40])),
            _ => self.amount(),
        }
    }
    fn mv(&mut self) -> E {
        match self.r.below(9) {
            0..=2 => E::Lit(self.r.range(-4, 4)),
            3 => E::Lit(0),
            4 => {
                let a = self.any_int();
                E::Sub(Box::new(E::And(Box::new(a), 15)), Box::new(E::Lit(self.r.range(0, 8))))
            }
            5 => {
                let i8s = self.vars(|t| *t == Ty::Prim(Prim::I8) || *t == Ty::Prim(Prim::I16));
                if i8s.is_empty() {
                    E::Lit(-1)
                } else {
                    E::Var(self.r.pick(&i8s).clone())
                }
            }
            6 if self.r.p(self.f.hostile) => E::Lit(*self.r.pick(&[i64::MIN, i64::MAX, -128, 300, 1 << 40, -(1 << 40), i64::MIN + 1])),
            7 => {
                let a = self.amount();
                E::Sub(Box::new(E::Lit(0)), Box::new(E::And(Box::new(a), 7)))
            }
            _ => self.amount(),
        }
    }
    /// a pre attribute (also updates the scope)
    fn pre_attr(&mut self, field: bool) -> Option<Attr> {
        let f = self.f;
        let w = if field { [f.pos, f.exec, f.errorif, f.setend_field] } else { [0, f.exec, 0, 0] };
        let tot: u32 = w.iter().sum();
        if tot == 0 {
            return None;
        }
        Some(match self.r.w(&w) {
            0 => match self.r.below(5) {
                0 | 1 => Attr::AlignBefore(self.align()),
                2 => Attr::SkipBefore(self.amount()),
                3 => Attr::Move(self.mv()),
                _ => {
                    let e = if self.r.p(60) { E::Lit(self.r.range(0, 9)) } else { self.amount() };
                    Attr::MoveAbs(e)
                }
            },
            1 => {
                let s = self.stmt(false, &[]);
                self.apply(&s);
                Attr::PreExec(s)
            }
            2 => {
                let b = self.bexp(1);
                let b2 = self.bexp(0);
                Attr::ErrorIf(B::And(Box::new(b), Box::new(b2)))
            }
            _ => Attr::SetEndian(self.ende()),
        })
    }
    fn post_attr(&mut self, fields: &[Field], field: bool) -> Option<Attr> {
        let f = self.f;
        let w = if field { [f.pos, f.exec] } else { [0, f.exec] };
        if w[0] + w[1] == 0 {
            return None;
        }
        Some(match self.r.w(&w) {
            0 => {
                if self.r.p(60) {
                    Attr::AlignAfter(self.align())
                } else {
                    Attr::SkipAfter(self.amount())
                }
            }
            _ => {
                let s = self.stmt(true, fields);
                self.apply(&s);
                Attr::PostExec(s)
            }
        })
    }
    /// merge lists keeping the order inside each
    fn interleave(&mut self, mut lists: Vec<Vec<Attr>>) -> Vec<At> {
        lists.iter_mut().for_each(|l| l.reverse());
        let mut out = vec![];
        loop {
            let w: Vec<u32> = lists.iter().map(|l| l.len() as u32).collect();
            if w.iter().sum::<u32>() == 0 {
                return out;
            }
            let k = self.r.w(&w);
            let a = lists[k].pop().unwrap();
            let a = self.at(a);
            out.push(a);
        }
    }
    fn fields(&mut self, shape: Shape, n: usize) -> Vec<Field> {
        let mut fields: Vec<Field> = vec![];
        self.cx.named = shape == Shape::Named;
        for k in 0..n {
            let mut pre = vec![];
            let pp = self.f.pos + self.f.exec + self.f.errorif + self.f.setend_field;
            let mut guard = 0;
            let mut nset = 0;
            while guard < 3 && self.r.p(pp.min(70)) {
                if let Some(a) = self.pre_attr(true) {
                    if matches!(a, Attr::SetEndian(_)) {
                        nset += 1;
                        if nset > 1 {
                            guard += 1;
                            continue;
                        }
                    }
                    pre.push(a);
                }
                guard += 1;
            }
            let name = if shape == Shape::Named { self.ident(&PLAIN) } else { format!("_{}", k) };
            let (ty, chain) = loop {
                if self.r.p(self.f.ignored) {
                    // a field which is not parsed can have any type
                    let ty = self.ignored_ty(2);
                    let mut c = vec![];
                    if !self.f.streaming && self.r.p(15) {
                        c.push(Attr::Complete);
                    }
                    if matches!(ty, Ty::Opt(_)) && self.r.p(10) {
                        c.push(Attr::Cond(self.cond_for()));
                        if self.default_ok(match &ty {
                            Ty::Opt(t) => t,
                            t => t,
                        }) {
                            c.push(Attr::Ignore);
                            break (ty, c);
                        }
                        c.pop();
                    }
                    c.push(Attr::Ignore);
                    break (ty, c);
                }
                let depth = self.f.maxdepth;
                let ty = self.field_ty(depth);
                let mut c = vec![];
                if self.chain(&ty, &name, 0, true, &mut c) {
                    break (ty, c);
                }
            };
            // endianness of the field; contradictory combinations are not allowed
            let mut endl = vec![];
            if nset == 0 && self.r.p(self.f.end_field) {
                endl.push(if self.r.p(50) { Attr::Be } else { Attr::Le });
            }
            // the type of a variable set by Into is not known before the object is built
            let vague = !matches!(ty, Ty::Wide(_)) && chain.contains(&Attr::Into);
            if self.cx.named && !vague {
                self.cx.scope.push((name.clone(), ty.clone()));
            }
            fields.push(Field { name, ty, attrs: vec![] });
            let mut post = vec![];
            let pp = self.f.pos + self.f.exec;
            let mut guard = 0;
            while guard < 3 && self.r.p((pp * 2 / 3).min(60)) {
                if let Some(a) = self.post_attr(&fields, true) {
                    post.push(a);
                }
                guard += 1;
            }
            let attrs = self.interleave(vec![pre, chain, endl, post]);
            fields.last_mut().unwrap().attrs = attrs;
        }
        fields
    }
    fn nfields(&mut self) -> usize {
        if self.r.p(self.f.wide) {
            10 + self.r.below(40)
        } else {
            1 + self.r.below(self.f.max_fields)
        }
    }
    /// statements reading the arguments
    fn probes(&mut self, post: bool) -> Vec<Attr> {
        let mut out = vec![];
        if self.f.probe == 0 {
            return out;
        }
        let vs = self.vars(|t| matches!(t, Ty::Prim(p) if p.is_int()));
        for v in vs {
            if v != "struct_def" && v != "enum_def" && self.r.p(self.f.probe) {
                self.tid += 1;
                let s = St::Trace(self.tid, E::Var(v));
                out.push(if post { Attr::PostExec(s) } else { Attr::PreExec(s) });
            }
        }
        out
    }
    fn top_pre(&mut self, top: &mut Vec<Attr>) {
        let mut n = 0;
        let l = self.probes(false);
        top.extend(l);
        while n < 3 && self.r.p((self.f.exec * 2).min(60)) {
            if let Some(a) = self.pre_attr(false) {
                top.push(a);
            }
            n += 1;
        }
    }
    fn top_post(&mut self, top: &mut Vec<Attr>) {
        // struct fields are moved in the object: only copies are visible
        let keep: Vec<(String, Ty)> = self
            .vars(|t| matches!(t, Ty::Prim(_) | Ty::Bool | Ty::Endian))
            .into_iter()
            .filter(|n| n != "struct_def" && n != "enum_def")
            .map(|n| {
                let t = lookup(&self.cx.scope, &n).cloned().unwrap();
                (n, t)
            })
            .collect();
        self.cx.scope = keep;
        let mut n = 0;
        let mut exact = false;
        let l = self.probes(true);
        top.extend(l);
        while n < 3 {
            n += 1;
            if !self.f.streaming && !exact && self.r.p(self.f.exact) {
                top.push(Attr::Exact);
                exact = true;
            } else if self.r.p(self.f.exec) {
                if self.cx.params == 0 && self.r.p(30) {
                    self.tid += 1;
                    top.push(Attr::PostExec(St::TraceObj(self.tid)));
                } else if let Some(a) = self.post_attr(&[], false) {
                    top.push(a);
                }
            }
        }
    }
    fn extra_args(&mut self, d: &mut Decl) {
        let n = if self.r.p(12) { 4 + self.r.below(4) } else { 1 + self.r.below(3) };
        for _ in 0..n {
            let t = match self.r.below(14) {
                0..=8 => Ty::Prim(self.prim()),
                9 | 10 => Ty::Bool,
                11 => Ty::Str,
                12 => Ty::Vec(Box::new(Ty::Prim(Prim::U8))),
                _ => Ty::Endian,
            };
            let name = self.ident(&PLAIN);
            self.cx.scope.push((name.clone(), t.clone()));
            d.extra.push((name, t));
        }
    }
    fn finish_top(&mut self, d: &mut Decl, pre: Vec<Attr>, post: Vec<Attr>, ends: Vec<At>) {
        let mut flags = vec![];
        if self.cx.complete {
            flags.push(Attr::Complete);
        }
        if self.cx.generic {
            flags.push(Attr::GenericErrors);
        }
        if d.input != "i" {
            flags.push(Attr::InputName);
        }
        if !d.extra.is_empty() {
            flags.push(Attr::ExtraArgs);
        }
        if let Kind::SelEnum(..) = d.kind {
            flags.push(Attr::Selector);
        }
        let fields = d.fields();
        if self.r.p(self.f.top_debug) && fields.iter().all(|f| !f.name.starts_with('_')) && !matches!(d.kind, Kind::Fieldless(..)) {
            flags.push(Attr::Debug);
        }
        if self.r.p(self.f.debug_derive) {
            flags.push(Attr::DebugDerive);
        }
        // SetEndian keeps its place among the statements only if it was put there
        let mut pre = pre;
        let mut e2 = vec![];
        for a in ends {
            if matches!(a.a, Attr::SetEndian(_)) {
                pre.push(a.a);
            } else {
                e2.push(a.a);
            }
        }
        let mut out = self.interleave(vec![pre, post, flags.iter().take(2).cloned().collect(), flags.into_iter().skip(2).collect(), e2]);
        if let Some(a) = out.last_mut() {
            a.alias = self.r.p(20);
        }
        d.top = out;
    }
    pub fn strukt(&mut self, helper: bool) -> Decl {
        self.cx = self.new_ctx();
        let mut d = self.blank();
        // newtype used as selector type
        if helper && self.r.p(20) {
            let p = *self.r.pick(&[Prim::U8, Prim::U8, Prim::U16, Prim::I32]);
            d.kind = Kind::Struct(Shape::Tuple, vec![Field { name: "_0".into(), ty: Ty::Prim(p), attrs: vec![] }]);
            d.copy = true;
            let mut e = vec![];
            self.obj_end(&mut d, &mut e, false);
            d.top = e;
            if self.r.p(self.f.generic_err) {
                let a = self.at(Attr::GenericErrors);
                d.top.push(a);
            }
            return d;
        }
        self.header(&mut d);
        self.cx.generic = self.r.p(self.f.generic_err);
        self.cx.complete = !self.f.streaming && self.r.p(self.f.top_complete);
        if self.r.p(self.f.params) {
            let n = [1, 1, 1, 2, 2, 3][self.r.below(6)];
            let k = self.r.below(PARAMS.len());
            for j in 0..n {
                d.params.push(PARAMS[(k + j) % PARAMS.len()].to_string());
            }
            self.cx.params = n;
        }
        if self.r.p(self.f.extra) {
            self.extra_args(&mut d);
            self.cx.special = true;
        }
        let mut pre = vec![];
        self.top_pre(&mut pre);
        let mut ends = vec![];
        self.obj_end(&mut d, &mut ends, true);
        let shape = match self.r.w(&self.f.shape) {
            0 => Shape::Named,
            1 => Shape::Tuple,
            _ => Shape::Unit,
        };
        let shape = if self.cx.params > 0 && shape == Shape::Unit { Shape::Named } else { shape };
        let n = if shape == Shape::Unit || self.r.p(2) { 0 } else { self.nfields() };
        let mut fields = self.fields(shape, n);
        // every type parameter has to be used
        for k in 0..self.cx.params {
            if !fields.iter().any(|f| mentions(&f.ty, &Ty::Param(k))) {
                let name = if shape == Shape::Named { self.ident(&PLAIN) } else { format!("_{}", fields.len()) };
                fields.push(Field { name, ty: Ty::Param(k), attrs: vec![] });
            }
        }
        d.kind = Kind::Struct(shape, fields);
        let mut post = vec![];
        self.top_post(&mut post);
        self.finish_top(&mut d, pre, post, ends);
        self.instances(&mut d);
        d
    }
    fn more_generics(&mut self, d: &mut Decl) {
        if self.r.p(self.f.gen_more) {
            let l = *self.r.pick(&LTS);
            if l != d.lt {
                d.lt2 = l.to_string();
                d.lt_bound = self.r.below(6) as u8;
                d.lt_more = self.r.p(50);
            }
        }
        if self.r.p(self.f.gen_more) {
            let mut sizes = vec![];
            let mut ok = true;
            for f in d.fields() {
                let k = sizes.len();
                arr_sizes(&f.ty, &mut sizes);
                ok &= !self.f.noalloc || !nested_arr(&f.ty, false);
                // Default is not implemented for arrays of unknown length
                ok &= k == sizes.len() || !f.attrs.iter().any(|a| matches!(a.a, Attr::Ignore));
            }
            if ok {
                let n = if sizes.is_empty() { 1 } else { *self.r.pick(&sizes) };
                d.konst = Some((self.r.pick(&CONSTS).to_string(), n));
            }
        }
        d.tdefault = (!d.params.is_empty() || d.konst.is_some()) && self.r.p(self.f.gen_more);
    }
    fn instances(&mut self, d: &mut Decl) {
        self.more_generics(d);
        let n = d.params.len();
        if d.fields().iter().any(|f| mentions_param_in_named(&f.ty, false)) {
            d.bound_style = *self.r.pick(&[1, 3, 4, 5]);
        }
        if n > 0 {
            let ge = d.generic_errors();
            for _ in 0..3 {
                let v = (0..n).map(|_| self.inst_ty(ge)).collect();
                d.insts.push(v);
            }
        }
    }
    fn sel_ty(&mut self) -> SelTy {
        let newt: Vec<usize> = (0..self.p.decls.len()).filter(|k| self.p.decls[*k].copy && matches!(self.p.decls[*k].kind, Kind::Struct(..))).collect();
        let fl: Vec<usize> = (0..self.p.decls.len()).filter(|k| matches!(&self.p.decls[*k].kind, Kind::Fieldless(_, v) if v.len() > 1)).collect();
        match self.r.below(12) {
            0..=2 if !newt.is_empty() => SelTy::Newtype(*self.r.pick(&newt)),
            3..=5 if !fl.is_empty() => SelTy::Fieldless(*self.r.pick(&fl)),
            6 => SelTy::Pair(Prim::U8, *self.r.pick(&[Prim::U8, Prim::U16, Prim::I8])),
            7 => SelTy::Text(*self.r.pick(&[0, 0, 1, 1, 2])),
            _ => SelTy::Int(*self.r.pick(&[Prim::U8, Prim::U8, Prim::U16, Prim::U32, Prim::I8, Prim::I16, Prim::U64, Prim::I64, Prim::U128, Prim::I128])),
        }
    }
    fn int_pat(&mut self, p: Prim, n: usize) -> Pat {
        let l = |g: &mut Self| -> i128 {
            let v = match g.r.below(8) {
                0..=5 => g.r.range(0, n as i64 + 2),
                6 => g.lit_for(p),
                _ => g.r.range(-3, 3),
            } as i128;
            if p.fits(v) {
                v
            } else {
                1
            }
        };
        match self.r.below(10) {
            0..=5 => Pat::Lit(l(self)),
            6 | 7 => {
                let k = 2 + self.r.below(3);
                Pat::Or((0..k).map(|_| Pat::Lit(l(self))).collect())
            }
            8 if self.r.p(40) => {
                // open at one end
                let a = l(self);
                match self.r.p(50) && p != Prim::U128 {
                    true => Pat::Range(a, self.lim(p).1),
                    false => Pat::Range(self.lim(p).0, a),
                }
            }
            9 if self.r.p(40) => {
                let (a, b, c) = (l(self), l(self), l(self));
                Pat::Or(vec![Pat::Range(a.min(b), a.max(b)), Pat::Lit(c)])
            }
            _ => {
                let a = l(self);
                let b = l(self);
                Pat::Range(a.min(b), a.max(b))
            }
        }
    }
    fn lim(&self, p: Prim) -> (i128, i128) {
        let bits = p.size() as u32 * 8;
        match (p.signed(), bits) {
            (true, 128) => (i128::MIN, i128::MAX),
            (true, _) => (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1),
            (false, 128) => (0, i128::MAX),
            (false, _) => (0, (1i128 << bits) - 1),
        }
    }
    fn bind_name(&mut self) -> String {
        let n = self.ident(&PLAIN);
        let u = format!("_{}", n);
        if n.starts_with(char::is_lowercase) && !n.starts_with("r#") && self.r.p(25) && !self.cx.used.contains(&u) {
            self.cx.used.push(u.clone());
            return u;
        }
        n
    }
    fn guarded(&mut self, x: Pat, bound: &[(String, Ty)], cx_scope: &Scope, pct: u32) -> Pat {
        if !self.r.p(pct) {
            return x;
        }
        let save = self.cx.scope.clone();
        self.cx.scope = cx_scope.clone();
        self.cx.scope.extend(bound.iter().cloned());
        let b = self.bexp(1);
        self.cx.scope = save;
        Pat::Guard(Box::new(x), b)
    }
    fn pat(&mut self, st: &SelTy, n: usize, cx_scope: &Scope) -> Pat {
        match st {
            SelTy::Int(p) => {
                let mut x = self.int_pat(*p, n);
                if self.r.p(12) {
                    let v = self.bind_name();
                    let sub = if self.r.p(50) { Some(Box::new(x.clone())) } else { None };
                    let bare = sub.is_none();
                    x = Pat::Bind(v.clone(), sub);
                    if (bare && !self.r.p(12)) || self.r.p(40) {
                        let save = self.cx.scope.clone();
                        self.cx.scope = cx_scope.clone();
                        self.cx.scope.push((v, Ty::Prim(*p)));
                        let b = self.bexp(1);
                        self.cx.scope = save;
                        x = Pat::Guard(Box::new(x), b);
                    }
                } else if self.r.p(10) {
                    let save = self.cx.scope.clone();
                    self.cx.scope = cx_scope.clone();
                    let b = self.bexp(1);
                    self.cx.scope = save;
                    let x2 = if self.r.p(20) { Pat::Wild } else { x };
                    x = Pat::Guard(Box::new(x2), b);
                }
                x
            }
            SelTy::Newtype(d) => {
                let p = crate::emit::newtype_prim(&self.p, *d);
                let x = self.int_pat(p, n);
                if self.r.p(10) {
                    let v = self.bind_name();
                    let sub = if self.r.p(40) { Some(Box::new(x)) } else { None };
                    return self.guarded(Pat::New(Box::new(Pat::Bind(v.clone(), sub))), &[(v, Ty::Prim(p))], cx_scope, 80);
                }
                let x = match x {
                    Pat::Or(v) if self.r.p(50) => Pat::Or(v.into_iter().map(|x| Pat::New(Box::new(x))).collect()),
                    x => Pat::New(Box::new(x)),
                };
                self.guarded(x, &[], cx_scope, 8)
            }
            SelTy::Fieldless(d) => {
                let nv = match &self.p.decls[*d].kind {
                    Kind::Fieldless(_, v) => v.len(),
                    _ => 1,
                };
                let x = if self.r.p(25) { Pat::Or((0..2).map(|_| Pat::Var(self.r.below(nv))).collect()) } else { Pat::Var(self.r.below(nv.min(n + 3))) };
                self.guarded(x, &[], cx_scope, 10)
            }
            SelTy::Text(k) => {
                let m = crate::ast::text_mask(*k) as usize;
                let l = |g: &mut Self| Pat::Lit(match (*k, g.r.below(3)) {
                    (0, 0) => g.r.below(256),
                    (0, 1) => 97 + g.r.below(n + 2),
                    _ => g.r.below(n + 2) & m,
                } as i128);
                let x = match self.r.below(10) {
                    0 | 1 => {
                        let k = 2 + self.r.below(2);
                        Pat::Or((0..k).map(|_| l(self)).collect())
                    }
                    2 if *k == 0 => match (l(self), l(self)) {
                        (Pat::Lit(a), Pat::Lit(b)) => Pat::Range(a.min(b), a.max(b)),
                        (a, _) => a,
                    },
                    _ => l(self),
                };
                if self.r.p(12) {
                    let save = self.cx.scope.clone();
                    self.cx.scope = cx_scope.clone();
                    let b = self.bexp(1);
                    self.cx.scope = save;
                    Pat::Guard(Box::new(x), b)
                } else {
                    x
                }
            }
            SelTy::Pair(p, q) => {
                let a = if self.r.p(20) { Pat::Wild } else { self.int_pat(*p, n) };
                let b = if self.r.p(30) { Pat::Wild } else { self.int_pat(*q, n) };
                let mut bound = vec![];
                let mut el = |g: &mut Self, x: Pat, t: Prim| {
                    if !g.r.p(10) {
                        return x;
                    }
                    let v = g.bind_name();
                    bound.push((v.clone(), Ty::Prim(t)));
                    Pat::Bind(v, if x == Pat::Wild || g.r.p(40) { None } else { Some(Box::new(x)) })
                };
                let a = el(self, a, *p);
                let b = el(self, b, *q);
                let pct = if bound.is_empty() { 8 } else { 70 };
                self.guarded(Pat::Pair(Box::new(a), Box::new(b)), &bound, cx_scope, pct)
            }
        }
    }
    pub fn sel_enum(&mut self, st: SelTy) -> Decl {
        self.cx = self.new_ctx();
        let mut d = self.blank();
        self.header(&mut d);
        self.cx.special = true;
        self.cx.sel = true;
        self.cx.generic = self.r.p(self.f.generic_err);
        self.cx.complete = !self.f.streaming && self.r.p(self.f.top_complete);
        if let SelTy::Int(p) = &st {
            self.cx.scope.push(("selector".into(), Ty::Prim(*p)));
        }
        if self.r.p(self.f.params) {
            d.params.push(self.r.pick(&PARAMS).to_string());
            self.cx.params = 1;
        }
        if self.r.p(self.f.extra) {
            self.extra_args(&mut d);
        }
        let mut pre = vec![];
        self.top_pre(&mut pre);
        let mut ends = vec![];
        self.obj_end(&mut d, &mut ends, true);
        let nv = if self.r.p(self.f.many_variants) { 20 + self.r.below(25) } else { 1 + self.r.below(self.f.variants) };
        let dflt = if self.r.p(self.f.default_var) { Some(self.r.below(nv)) } else { None };
        let scope0 = self.cx.scope.clone();
        let used0 = self.cx.used.clone();
        let mut vs: Vec<Variant> = vec![];
        for k in 0..nv {
            self.cx.scope = scope0.clone();
            self.cx.used = used0.clone();
            let mut name = self.r.pick(&VARIANTS).to_string();
            if vs.iter().any(|v| v.name == name) {
                name = format!("{}{}", name, k);
            }
            let sel = if Some(k) == dflt { Pat::Wild } else { self.pat(&st, nv, &scope0) };
            crate::emit::pat_binds(&self.p, &st, &sel, &mut self.cx.scope);
            let shape = match self.r.w(&[40, 35, 25]) {
                0 => Shape::Named,
                1 => Shape::Tuple,
                _ => Shape::Unit,
            };
            let mut attrs = vec![];
            let fields = if shape == Shape::Unit {
                let mut l = vec![];
                while l.len() < 2 && self.r.p((self.f.pos + self.f.exec).min(50)) {
                    match self.pre_attr(true) {
                        Some(Attr::SetEndian(_)) | None => {}
                        Some(a) => l.push(a),
                    }
                    if self.r.p(20) {
                        break;
                    }
                }
                let mut c = vec![];
                if !self.cx.complete && self.r.p(20) {
                    let t = if self.f.noalloc || self.r.p(60) { Ty::Prim(self.prim()) } else { Ty::Slice };
                    if let Some(p) = self.parser_for(&t) {
                        c.push(Attr::Parse(p));
                    }
                }
                let mut post = vec![];
                while post.len() < 2 && self.r.p((self.f.pos + self.f.exec).min(40)) {
                    if let Some(a) = self.post_attr(&[], true) {
                        post.push(a);
                    }
                }
                attrs = self.interleave(vec![l, c, post]);
                vec![]
            } else {
                let n = if k > 0 && self.r.p(6) { 0 } else { 1 + self.r.below(self.f.max_fields.min(4)) };
                self.fields(shape, n)
            };
            vs.push(Variant { name, sel, sel_style: self.r.below(3) as u8, shape, fields, attrs });
        }
        if self.cx.params > 0 && !vs.iter().any(|v| v.fields.iter().any(|f| mentions(&f.ty, &Ty::Param(0)))) {
            // the type parameter has to be used
            d.params.clear();
            self.cx.params = 0;
        }
        self.cx.scope = scope0;
        self.cx.used = used0;
        d.kind = Kind::SelEnum(st, vs);
        let mut post = vec![];
        self.top_post(&mut post);
        self.finish_top(&mut d, pre, post, ends);
        self.instances(&mut d);
        d
    }
    pub fn fieldless(&mut self) -> Decl {
        self.cx = self.new_ctx();
        let mut d = self.blank();
        self.header(&mut d);
        d.copy = true;
        self.cx.generic = self.r.p(self.f.generic_err);
        self.cx.complete = !self.f.streaming && self.r.p(self.f.top_complete.max(self.f.top_complete * 2));
        let r = *self.r.pick(&[Prim::U8, Prim::U8, Prim::U16, Prim::U32, Prim::U64, Prim::I8, Prim::I16, Prim::I32, Prim::I64]);
        let n = if self.r.p(self.f.many_variants) { 30 + self.r.below(90) } else { 1 + self.r.below(self.f.variants + 2) };
        let bits = r.size() as u32 * 8;
        let (lo, hi) = if r.signed() { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) };
        let mut used: Vec<i128> = vec![];
        let mut vs: Vec<(String, Option<i128>)> = vec![];
        let mut next = 0i128;
        for k in 0..n {
            let mut name = self.r.pick(&VARIANTS).to_string();
            if vs.iter().any(|v| v.0 == name) {
                name = format!("{}{}", name, k);
            }
            let mut x = if self.r.p(55) { None } else { Some(()) }.map(|_| match self.r.below(6) {
                0 => lo,
                1 => hi,
                2 => (self.r.u64() as i128 & (hi >> if r.signed() { 0 } else { 0 })).clamp(lo, hi),
                3 => -(self.r.below(5) as i128),
                4 => self.r.below(256) as i128,
                _ => self.r.below(10) as i128,
            });
            for _ in 0..4 {
                let v = x.unwrap_or(next);
                if v < lo || v > hi || used.contains(&v) {
                    x = Some((0..).find(|c: &i128| !used.contains(c)).unwrap());
                } else {
                    break;
                }
            }
            let v = x.unwrap_or(next);
            if v < lo || v > hi || used.contains(&v) {
                break;
            }
            used.push(v);
            next = v + 1;
            vs.push((name, x));
        }
        d.kind = Kind::Fieldless(r, vs);
        let mut pre = vec![];
        self.top_pre(&mut pre);
        let mut ends = vec![];
        self.obj_end(&mut d, &mut ends, false);
        let mut post = vec![];
        self.top_post(&mut post);
        self.finish_top(&mut d, pre, post, ends);
        d
    }
    fn direct_ty(&mut self, depth: usize) -> Ty {
        let na = self.f.noalloc;
        if depth == 0 || self.r.p(30) {
            let ds: Vec<usize> = (0..self.p.decls.len()).filter(|k| self.p.decls[*k].is_trait() && !matches!(self.p.decls[*k].kind, Kind::Direct(_))).collect();
            if !na && !ds.is_empty() && self.r.p(40) {
                let d = *self.r.pick(&ds);
                let ge = self.p.decls[d].generic_errors();
                let v = (0..self.p.decls[d].params.len()).map(|_| self.inst_ty(ge)).collect();
                return Ty::Named(d, v);
            }
            return match self.r.below(12) {
                0..=5 => Ty::Prim(self.prim()),
                6 | 7 => Ty::Prim(*self.r.pick(&[Prim::F32, Prim::F64])),
                8 if !na => Ty::Str,
                9 if !na => Ty::LenData(*self.r.pick(&[Prim::U8, Prim::U16, Prim::U32, Prim::U64])),
                10 => Ty::Manual(*self.r.pick(&[Man::Which, Man::Fussy, Man::OnlyParse, Man::Tiny])),
                _ => Ty::Prim(self.prim()),
            };
        }
        let st = self.f.streaming;
        match self.r.below(5) {
            0 if !st => Ty::Opt(Box::new(self.direct_ty(depth - 1))),
            1 if !na && !st => Ty::Vec(Box::new(self.direct_ty(depth - 1))),
            2 if !st => {
                let t = if na {
                    if self.r.p(70) {
                        Ty::Prim(self.prim())
                    } else {
                        Ty::Arr(Box::new(Ty::Prim(self.prim())), 1 + self.r.below(3) as u32)
                    }
                } else {
                    self.direct_ty(depth - 1)
                };
                let n = *self.r.pick(&[1, 2, 3, 4, 7, 16, 40, 0]);
                Ty::Arr(Box::new(t), if na { n.max(1) } else { n })
            }
            _ => Ty::Pair(Box::new(self.direct_ty(depth - 1)), Box::new(self.direct_ty(depth - 1))),
        }
    }
    pub fn direct(&mut self) -> Decl {
        let mut d = self.blank();
        let depth = 1 + self.r.below(3);
        d.kind = Kind::Direct(self.direct_ty(depth));
        d.name = format!("direct{}", self.p.decls.len());
        d
    }
}

fn nested_arr(t: &Ty, inside: bool) -> bool {
    match t {
        Ty::Arr(t, _) => inside || nested_arr(t, true),
        Ty::Opt(t) | Ty::Vec(t) => nested_arr(t, inside),
        Ty::Pair(a, b) => nested_arr(a, inside) || nested_arr(b, inside),
        Ty::Named(_, v) => v.iter().any(|t| nested_arr(t, true)),
        _ => false,
    }
}
pub fn mentions(t: &Ty, what: &Ty) -> bool {
    t == what
        || match t {
            Ty::Opt(t) | Ty::Vec(t) | Ty::Arr(t, _) => mentions(t, what),
            Ty::Pair(a, b) => mentions(a, what) || mentions(b, what),
            Ty::Named(_, a) => a.iter().any(|t| mentions(t, what)),
            _ => false,
        }
}
pub fn mentions_param(t: &Ty) -> bool {
    (0..3).any(|k| mentions(t, &Ty::Param(k)))
}
pub fn pat_lits(p: &Pat, out: &mut Vec<i128>) {
    match p {
        Pat::Lit(n) => out.push(*n),
        Pat::Or(v) => v.iter().for_each(|p| pat_lits(p, out)),
        Pat::Range(a, b) => {
            out.push(*a);
            out.push(*b);
        }
        Pat::New(p) | Pat::Guard(p, _) => pat_lits(p, out),
        Pat::Bind(_, Some(p)) => pat_lits(p, out),
        Pat::Pair(a, b) => {
            pat_lits(a, out);
            pat_lits(b, out);
        }
        _ => {}
    }
}

fn arr_sizes(t: &Ty, out: &mut Vec<u32>) {
    match t {
        Ty::Opt(t) | Ty::Vec(t) => arr_sizes(t, out),
        Ty::Arr(t, n) => {
            out.push(*n);
            arr_sizes(t, out)
        }
        Ty::Pair(a, b) => {
            arr_sizes(a, out);
            arr_sizes(b, out)
        }
        Ty::Named(_, a) => a.iter().for_each(|t| arr_sizes(t, out)),
        _ => {}
    }
}
/// a parameter is passed to another declaration, whose bounds it has to satisfy
fn mentions_param_in_named(t: &Ty, inside: bool) -> bool {
    match t {
        Ty::Param(_) => inside,
        Ty::Opt(t) | Ty::Vec(t) | Ty::Arr(t, _) => mentions_param_in_named(t, inside),
        Ty::Pair(a, b) => mentions_param_in_named(a, inside) || mentions_param_in_named(b, inside),
        Ty::Named(_, a) => a.iter().any(|t| mentions_param_in_named(t, true)),
        _ => false,
    }
}
