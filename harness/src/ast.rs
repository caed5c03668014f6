//! Declarations under test: a small typed language of nom-derive declarations.
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Prim {
    U8, U16, U32, U64, U128,
    I8, I16, I32, I64, I128,
    F32, F64,
}
pub const INTS: [Prim; 10] = [
    Prim::U8, Prim::U16, Prim::U32, Prim::U64, Prim::U128,
    Prim::I8, Prim::I16, Prim::I32, Prim::I64, Prim::I128,
];
impl Prim {
    pub fn rs(self) -> &'static str {
        match self {
            Prim::U8 => "u8", Prim::U16 => "u16", Prim::U32 => "u32", Prim::U64 => "u64", Prim::U128 => "u128",
            Prim::I8 => "i8", Prim::I16 => "i16", Prim::I32 => "i32", Prim::I64 => "i64", Prim::I128 => "i128",
            Prim::F32 => "f32", Prim::F64 => "f64",
        }
    }
    pub fn size(self) -> usize {
        match self {
            Prim::U8 | Prim::I8 => 1,
            Prim::U16 | Prim::I16 => 2,
            Prim::U32 | Prim::I32 | Prim::F32 => 4,
            Prim::U64 | Prim::I64 | Prim::F64 => 8,
            Prim::U128 | Prim::I128 => 16,
        }
    }
    pub fn signed(self) -> bool {
        matches!(self, Prim::I8 | Prim::I16 | Prim::I32 | Prim::I64 | Prim::I128)
    }
    pub fn is_int(self) -> bool {
        !matches!(self, Prim::F32 | Prim::F64)
    }
    /// does the literal fit (i128 view; u128 above i128::MAX is never a literal)
    pub fn fits(self, v: i128) -> bool {
        if !self.is_int() { return false; }
        let bits = self.size() as u32 * 8;
        if self.signed() {
            bits == 128 || (v >= -(1i128 << (bits - 1)) && v < (1i128 << (bits - 1)))
        } else {
            v >= 0 && (bits == 128 || v < (1i128 << bits))
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Ty {
    Prim(Prim),
    Str,
    Opt(Box<Ty>),
    Vec(Box<Ty>),
    Arr(Box<Ty>, u32),
    Pair(Box<Ty>, Box<Ty>),
    /// `&'a [u8]`
    Slice,
    Phantom(Prim),
    /// declaration of the same program, with type arguments
    Named(usize, Vec<Ty>),
    /// type parameter of the enclosing declaration
    Param(usize),
    /// hand written Parse implementations of the prelude
    Manual(Man),
    Bool,
    /// newtype with From<prim> (target of Into)
    Wide(Prim),
    /// library LengthData<L, &[u8]> (only for direct calls)
    LenData(Prim),
    /// nom::number::Endianness (extra arguments only)
    Endian,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Man {
    /// records which of parse / parse_be / parse_le was called, then one byte
    Which,
    /// implements only `parse` (little-endian u16)
    OnlyParse,
    /// one byte of two: the second one, or the first one in little-endian order
    Tiny,
    /// one byte, Failure if >= 0xf0, Error(Alt) if >= 0xe0
    Fussy,
}

/// Expressions evaluate to i64 (wrapping); see emit for the concrete spelling
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum E {
    Lit(i64),
    Var(String),
    /// field of a variable of struct type: (var, field index)
    Proj(String, usize),
    Len(String),
    First(String),
    InputLen,
    Add(Box<E>, Box<E>),
    Sub(Box<E>, Box<E>),
    Mul(Box<E>, i64),
    And(Box<E>, i64),
    Shr(Box<E>, u32),
    If(Box<B>, Box<E>, Box<E>),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Op { Eq, Ne, Lt, Le, Gt, Ge }
impl Op {
    pub fn rs(self) -> &'static str {
        match self { Op::Eq => "==", Op::Ne => "!=", Op::Lt => "<", Op::Le => "<=", Op::Gt => ">", Op::Ge => ">=" }
    }
    pub fn ev<T: PartialOrd>(self, a: T, b: T) -> bool {
        match self { Op::Eq => a == b, Op::Ne => a != b, Op::Lt => a < b, Op::Le => a <= b, Op::Gt => a > b, Op::Ge => a >= b }
    }
}
pub const OPS: [Op; 6] = [Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge];
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum B {
    Lit(bool),
    Cmp(Op, E, E),
    /// `name OP lit` (or `lit OP name` if flag) on the variable's own type
    Raw(Op, String, i64, bool),
    Not(Box<B>),
    And(Box<B>, Box<B>),
    Or(Box<B>, Box<B>),
    Var(String),
    IsSome(String),
    /// call of a typed helper on a value taken by reference: length (Vec/String/slice) > n
    LenGt(String, Ty, i64),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum EndE {
    Lit(bool), // true = big
    Arg(String),
    If(B, bool),
    /// evaluation is logged in the trace with this id
    Traced(u32, Box<EndE>),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum St {
    /// `let name = <i64 expr>;`
    Let(String, E),
    /// `let name: prim = (expr) as prim;` for an existing name of that type
    Shadow(String, Prim, E),
    Trace(u32, E),
    /// advance the input by up to n bytes through shadowing
    Advance(u32),
    /// return an error if condition
    Bail(B),
    /// trace a value of the final object (PostExec at top level): number of fields / variant index
    TraceObj(u32),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Ep { Parse, Be, Le }
impl Ep {
    pub fn rs(self) -> &'static str {
        match self { Ep::Parse => "parse", Ep::Be => "parse_be", Ep::Le => "parse_le" }
    }
}
pub const EPS: [Ep; 3] = [Ep::Parse, Ep::Be, Ep::Le];
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Pf {
    /// u8: Error(Alt) if odd
    OddErr,
    /// u8: Failure(Alpha) if >= 0xf0
    HiFail,
    /// u32 LEB128, at most 5 bytes, Error(TooLarge) otherwise
    VarInt,
    /// u8, does not consume
    Peek,
    /// u64 remaining length, no consumption
    RemLen,
    /// &[u8] everything
    Rest,
    /// &[u8] up to 0 (consumed, not included); Incomplete if no 0
    CStr,
}
pub const PFS: [Pf; 7] = [Pf::OddErr, Pf::HiFail, Pf::VarInt, Pf::Peek, Pf::RemLen, Pf::Rest, Pf::CStr];
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SelArg {
    Int(E),
    Wrap(E),          // newtype constructor applied
    Var(String),
    Pair(E, E),
}
/// Parser expressions usable in Parse (and LengthCount)
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum P {
    /// nom::number::{streaming,complete}::be_u16: (prim, be, complete)
    Nom(Prim, bool, bool),
    /// be_u24 / le_u24
    U24(bool),
    /// <T>::parse...
    Meth(Ty, Ep),
    /// nom::bytes::streaming::take(expr)
    Take(E),
    /// closure calling a declaration with selector / extra arguments
    Call { decl: usize, targs: Vec<Ty>, ep: Ep, sel: Option<SelArg>, args: Vec<E> },
    /// length-prefixed sub input: map_parser(length_data(be_u8), T::parse)
    Sub { len: Prim, be: bool, ty: Ty, ep: Ep },
    /// cond(c, parser)
    Cond(B, Box<P>),
    /// (p, p) tuple -> handled as closure
    Fun(Pf),
    /// concrete (non generic error) parser of a primitive, big-endian
    Conc(Prim),
    /// concrete take(n)
    ConcTake(u32),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum MapF {
    /// |x: P| x.wrapping_mul(k).wrapping_add(c) (same integer type)
    Affine(Prim, i64, i64),
    /// |x: P| x as Q
    Cast(Prim, Prim),
    /// |x: P| x.to_string()
    ToStr(Prim),
    /// |x: P| Some(x)
    ToSome(Prim),
    /// |v: Vec<P>| v.len() as u64
    VecLen(Prim),
    /// |v: Vec<P>| reversed
    VecRev(Prim),
    /// |s: &[u8]| s.to_vec()
    SliceVec,
    /// |s: &[u8]| s.len() as u32
    SliceLen,
    /// named function of the prelude: ndv_inc_P wrapping +1
    Inc(Prim),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Attr {
    Be, Le, SetEndian(EndE),
    AlignBefore(E), AlignAfter(E), SkipBefore(E), SkipAfter(E), Move(E), MoveAbs(E),
    ErrorIf(B),
    PreExec(St), PostExec(St),
    Debug, Complete,
    Cond(B), Count(E), LengthCount(P), Map(MapF), Into, Verify(B),
    Tag(Vec<u8>), Take(E), Value(Val), Parse(P), Ignore,
    // top-level only
    DebugDerive, Exact, ExtraArgs, GenericErrors, InputName, Selector,
    /// raw text, used by the compile-rejection property only
    RawText(String),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Val {
    Int(Prim, E),
    Bool(B),
    Str(E),
    Copy(String),
    VecOf(Prim, E, u32),
    None_,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct At {
    pub a: Attr,
    /// 0: string, 1: parentheses, 2: raw string
    pub style: u8,
    pub alias: bool,
    /// start a new #[nom(..)] list before this attribute
    pub split: bool,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Field {
    pub name: String,
    pub ty: Ty,
    pub attrs: Vec<At>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Shape { Named, Tuple, Unit }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SelTy {
    Int(Prim), Newtype(usize), Fieldless(usize), Pair(Prim, Prim),
    /// 0: char, 1: &str, 2: bool; the model uses numbers up to 255, 7 and 1
    Text(u8),
}
pub const STRS: [&str; 8] = ["", "a", "b)", "\"", "a longer text", ",", "\u{e9}", "if x"];
pub fn text_mask(k: u8) -> i64 {
    match k {
        0 => 255,
        1 => 7,
        _ => 1,
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Pat {
    Wild,
    Lit(i128),
    Or(Vec<Pat>),
    Range(i128, i128),
    /// constructor of the newtype applied to a pattern
    New(Box<Pat>),
    /// fieldless enum variant
    Var(usize),
    Pair(Box<Pat>, Box<Pat>),
    /// binding with optional sub pattern (int patterns only)
    Bind(String, Option<Box<Pat>>),
    /// pattern with guard
    Guard(Box<Pat>, B),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Variant {
    pub name: String,
    pub sel: Pat,
    /// spelling of the Selector attribute
    pub sel_style: u8,
    pub shape: Shape,
    pub fields: Vec<Field>,
    /// attributes of the variant itself (unit variants): Parse, Pre/Post, positioning
    pub attrs: Vec<At>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    Struct(Shape, Vec<Field>),
    SelEnum(SelTy, Vec<Variant>),
    Fieldless(Prim, Vec<(String, Option<i128>)>),
    /// not a declaration: direct use of a library type
    Direct(Ty),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Derive { Nom, NomBE, NomLE }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Decl {
    pub name: String,
    pub kind: Kind,
    pub derive: Derive,
    pub top: Vec<At>,
    pub input: String,
    /// (name, type): Prim int, Bool, Endian
    pub extra: Vec<(String, Ty)>,
    /// type parameters: name and bound style
    pub params: Vec<String>,
    pub bound_style: u8,
    pub lt: String,
    /// second lifetime, used if at least two fields borrow
    #[serde(default)]
    pub lt2: String,
    /// relation between the lifetimes: 1, 2 inline bound, 3 where clause
    #[serde(default)]
    pub lt_bound: u8,
    /// further lifetimes, one for each borrowing field (at most four)
    #[serde(default)]
    pub lt_more: bool,
    /// const parameter: arrays of that length are written with it
    #[serde(default)]
    pub konst: Option<(String, u32)>,
    /// type (and const) parameters have default values
    #[serde(default)]
    pub tdefault: bool,
    /// instantiations used for entry points
    pub insts: Vec<Vec<Ty>>,
    /// derive(Clone, Copy, PartialEq, Eq)
    pub copy: bool,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Program {
    pub decls: Vec<Decl>,
    /// irrelevant details of the source (0: none)
    #[serde(default)]
    pub noise: u64,
    /// nothing called std or alloc exists where the declarations are
    #[serde(default)]
    pub no_std: bool,
    pub min_imports: bool,
    /// Rust edition of the declarations (0: 2021)
    #[serde(default)]
    pub edition: u16,
}
impl Decl {
    pub fn has(&self, f: impl Fn(&Attr) -> bool) -> bool {
        self.top.iter().any(|a| f(&a.a))
    }
    pub fn generic_errors(&self) -> bool {
        self.has(|a| matches!(a, Attr::GenericErrors))
    }
    pub fn complete(&self) -> bool {
        self.has(|a| matches!(a, Attr::Complete))
    }
    pub fn is_sel(&self) -> bool {
        matches!(self.kind, Kind::SelEnum(..))
    }
    /// implements the Parse trait (no selector nor extra args)
    pub fn is_trait(&self) -> bool {
        !self.is_sel() && self.extra.is_empty()
    }
    pub fn fields(&self) -> Vec<&Field> {
        match &self.kind {
            Kind::Struct(_, f) => f.iter().collect(),
            Kind::SelEnum(_, v) => v.iter().flat_map(|v| v.fields.iter()).collect(),
            _ => vec![],
        }
    }
}
impl Program {
    pub fn ty_has_lt(&self, t: &Ty) -> bool {
        match t {
            Ty::Slice | Ty::LenData(_) => true,
            Ty::Opt(t) | Ty::Vec(t) | Ty::Arr(t, _) => self.ty_has_lt(t),
            Ty::Pair(a, b) => self.ty_has_lt(a) || self.ty_has_lt(b),
            Ty::Named(d, args) => self.decl_has_lt(*d) || args.iter().any(|a| self.ty_has_lt(a)),
            _ => false,
        }
    }
    pub fn decl_has_lt(&self, d: usize) -> bool {
        let d = &self.decls[d];
        match &d.kind {
            Kind::Direct(_) => false,
            _ => d.fields().iter().any(|f| self.ty_has_lt(&f.ty)),
        }
    }
    pub fn lts(&self, d: usize) -> Vec<String> {
        if !self.decl_has_lt(d) {
            return vec![];
        }
        let d = &self.decls[d];
        let n = d.fields().iter().filter(|f| self.ty_has_lt(&f.ty)).count();
        let mut v = vec![d.lt.clone()];
        if !d.lt2.is_empty() && d.lt2 != d.lt && n > 1 {
            v.push(d.lt2.clone());
            if d.lt_more {
                v.extend(["'third", "'l4"].iter().take(n - 2).map(|l| l.to_string()));
            }
        }
        v
    }
    pub fn subst(t: &Ty, args: &[Ty]) -> Ty {
        match t {
            Ty::Param(i) => args[*i].clone(),
            Ty::Opt(t) => Ty::Opt(Box::new(Self::subst(t, args))),
            Ty::Vec(t) => Ty::Vec(Box::new(Self::subst(t, args))),
            Ty::Arr(t, n) => Ty::Arr(Box::new(Self::subst(t, args)), *n),
            Ty::Pair(a, b) => Ty::Pair(Box::new(Self::subst(a, args)), Box::new(Self::subst(b, args))),
            Ty::Named(d, a) => Ty::Named(*d, a.iter().map(|x| Self::subst(x, args)).collect()),
            t => t.clone(),
        }
    }
}
