// Runtime support of the generated server binaries (independent of nom-derive's code).
#![allow(warnings)]
pub mod prelude {
    pub use nom::{self, IResult, ToUsize};
    use nom::error::{ErrorKind, FromExternalError, ParseError};
    use nom::{Err, Needed};
    use std::cell::{Cell, RefCell};
    use std::fmt::Write;

    thread_local! {
        pub static BASE: Cell<(usize, usize)> = Cell::new((0, 0));
        pub static TRACE: RefCell<String> = RefCell::new(String::new());
    }
    pub fn loc(s: &[u8]) -> String {
        let (b, n) = BASE.with(|x| x.get());
        let p = s.as_ptr() as usize;
        if p < b || p + s.len() > b + n {
            return if s.is_empty() { "EMPTY".into() } else { format!("OUTSIDE+{}", s.len()) };
        }
        format!("{}+{}", p - b, s.len())
    }
    pub trait ToV { fn v(&self, o: &mut String); }
    macro_rules! ints { ($($t:ty)*) => { $(impl ToV for $t { fn v(&self, o: &mut String) { let _ = write!(o, "{}", self); } })* } }
    ints!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 usize bool);
    impl ToV for f32 { fn v(&self, o: &mut String) { let _ = write!(o, "f{}", self.to_bits()); } }
    impl ToV for f64 { fn v(&self, o: &mut String) { let _ = write!(o, "f{}", self.to_bits()); } }
    impl ToV for String { fn v(&self, o: &mut String) { let _ = write!(o, "{:?}", self); } }
    impl<'a> ToV for &'a [u8] { fn v(&self, o: &mut String) { let _ = write!(o, "@{}", loc(self)); } }
    impl<T: ToV> ToV for Option<T> { fn v(&self, o: &mut String) { match self { None => o.push('~'), Some(x) => { o.push('?'); x.v(o) } } } }
    impl<T: ToV> ToV for Vec<T> { fn v(&self, o: &mut String) { o.push('['); for x in self { x.v(o); o.push(','); } o.push(']'); } }
    impl<T: ToV, const N: usize> ToV for [T; N] { fn v(&self, o: &mut String) { o.push('['); for x in self { x.v(o); o.push(','); } o.push(']'); } }
    impl<A: ToV, B: ToV> ToV for (A, B) { fn v(&self, o: &mut String) { o.push('('); self.0.v(o); o.push(','); self.1.v(o); o.push(')'); } }
    impl<T> ToV for std::marker::PhantomData<T> { fn v(&self, o: &mut String) { o.push('%'); } }
    #[cfg(not(ndv_noalloc))]
    impl<'a, L> ToV for nom_derive::LengthData<L, &'a [u8]> { fn v(&self, o: &mut String) { self.data.v(o) } }

    /// error type recording everything; the first entry is the innermost error
    #[derive(Debug, Clone, PartialEq)]
    pub struct MyErrT<I>(pub Vec<(I, ErrorKind)>);
    pub type MyErr<'a> = MyErrT<&'a [u8]>;
    impl<I> ParseError<I> for MyErrT<I> {
        fn from_error_kind(i: I, k: ErrorKind) -> Self { MyErrT(vec![(i, k)]) }
        fn append(i: I, k: ErrorKind, mut o: Self) -> Self { o.0.push((i, k)); o }
    }
    impl<I, X> FromExternalError<I, X> for MyErrT<I> {
        fn from_external_error(i: I, k: ErrorKind, _: X) -> Self { MyErrT(vec![(i, k)]) }
    }
    pub trait Loc { fn lc(&self) -> String; }
    impl<'a> Loc for &'a [u8] { fn lc(&self) -> String { loc(self) } }
    pub trait FirstErr<I> { fn first(&self) -> (&I, ErrorKind); }
    impl<I> FirstErr<I> for nom::error::Error<I> { fn first(&self) -> (&I, ErrorKind) { (&self.input, self.code) } }
    impl<I> FirstErr<I> for (I, ErrorKind) { fn first(&self) -> (&I, ErrorKind) { (&self.0, self.1) } }
    impl<I> FirstErr<I> for MyErrT<I> { fn first(&self) -> (&I, ErrorKind) { (&self.0[0].0, self.0[0].1) } }

    /// an input type of the user, holding its bytes inverted
    #[derive(Debug, Clone, Copy)]
    pub struct NdvIn<'a>(pub &'a [u8]);
    impl<'a> nom_derive::InputSlice for NdvIn<'a> {}
    impl<'a> PartialEq for NdvIn<'a> { fn eq(&self, o: &Self) -> bool { self.0.len() == o.0.len() } }
    impl<'a> Loc for NdvIn<'a> { fn lc(&self) -> String { loc(self.0) } }
    impl<'a> ToV for NdvIn<'a> { fn v(&self, o: &mut String) { let _ = write!(o, "@{}", loc(self.0)); } }
    impl<'a, L> ToV for nom_derive::LengthData<L, NdvIn<'a>> { fn v(&self, o: &mut String) { self.data.v(o) } }
    impl<'a> nom::Input for NdvIn<'a> {
        type Item = u8;
        type Iter = std::iter::Map<std::iter::Copied<std::slice::Iter<'a, u8>>, fn(u8) -> u8>;
        type IterIndices = std::iter::Enumerate<Self::Iter>;
        fn input_len(&self) -> usize { self.0.len() }
        fn take(&self, n: usize) -> Self { NdvIn(&self.0[..n]) }
        fn take_from(&self, n: usize) -> Self { NdvIn(&self.0[n..]) }
        fn take_split(&self, n: usize) -> (Self, Self) { (NdvIn(&self.0[n..]), NdvIn(&self.0[..n])) }
        fn position<P: Fn(u8) -> bool>(&self, p: P) -> Option<usize> { self.0.iter().position(|b| p(!*b)) }
        fn iter_elements(&self) -> Self::Iter { fn inv(b: u8) -> u8 { !b } self.0.iter().copied().map(inv as fn(u8) -> u8) }
        fn iter_indices(&self) -> Self::IterIndices { self.iter_elements().enumerate() }
        fn slice_index(&self, n: usize) -> Result<usize, Needed> {
            if self.0.len() >= n { Ok(n) } else { Err(Needed::new(n - self.0.len())) }
        }
    }
    /// the result on an input type of the user has to be the one on the slice with the same bytes
    pub fn same(i: &[u8], s: String, f: &dyn Fn(NdvIn) -> String) -> String {
        let v: Vec<u8> = i.iter().map(|b| !b).collect();
        let old = BASE.with(|x| x.replace((v.as_ptr() as usize, v.len())));
        let t = f(NdvIn(&v));
        BASE.with(|x| x.set(old));
        if s == t { s } else { format!("D {} / {}", s, t) }
    }

    pub fn fin<I: Loc, T: ToV, E: FirstErr<I>>(r: IResult<I, T, E>) -> String {
        let mut o = String::new();
        match r {
            Ok((rem, v)) => { let _ = write!(o, "O {} ", rem.lc()); v.v(&mut o); }
            Err(Err::Incomplete(Needed::Unknown)) => o.push_str("I ?"),
            Err(Err::Incomplete(Needed::Size(n))) => { let _ = write!(o, "I {}", n); }
            Err(Err::Error(e)) => { let (p, k) = e.first(); let _ = write!(o, "E {:?} {}", k, p.lc()); }
            Err(Err::Failure(e)) => { let (p, k) = e.first(); let _ = write!(o, "F {:?} {}", k, p.lc()); }
        }
        o
    }
    pub fn ndv_char(n: i64) -> char { n as u8 as char }
    pub fn ndv_text(n: i64) -> &'static str { ["", "a", "b)", "\"", "a longer text", ",", "\u{e9}", "if x"][n as usize & 7] }
    pub fn ndv_arg_str(n: i64) -> String { "x".repeat((n & 7) as usize) }
    pub fn ndv_arg_vec(n: i64) -> Vec<u8> { let n = (n & 7) as u8; (0..n).map(|k| n * 3 + k).collect() }
    pub fn ndv_tr(id: u32, v: i64) { TRACE.with(|t| { let _ = write!(t.borrow_mut(), "{}:{};", id, v); }) }
    pub fn ndv_tro<T: ToV>(id: u32, v: &T) { TRACE.with(|t| { let mut s = String::new(); v.v(&mut s); let _ = write!(t.borrow_mut(), "{}:{};", id, s); }) }
    pub fn ndv_id<T>(x: T) -> T { x }
    pub fn ndv_tre(id: u32, e: nom::number::Endianness) -> nom::number::Endianness {
        ndv_tr(id, (e == nom::number::Endianness::Big) as i64);
        e
    }
    pub trait NdvLen { fn ndv_len(&self) -> usize; }
    impl<T> NdvLen for Vec<T> { fn ndv_len(&self) -> usize { self.len() } }
    impl NdvLen for String { fn ndv_len(&self) -> usize { self.len() } }
    impl<'a> NdvLen for &'a [u8] { fn ndv_len(&self) -> usize { self.len() } }
    pub fn ndv_len_gt<T: NdvLen>(x: &T, n: i64) -> bool { x.ndv_len() as i64 > n }

    macro_rules! incs { ($($f:ident $t:ty),*) => { $(pub fn $f(x: $t) -> $t { x.wrapping_add(1) })* } }
    incs!(ndv_inc_u8 u8, ndv_inc_u16 u16, ndv_inc_u32 u32, ndv_inc_u64 u64, ndv_inc_u128 u128,
          ndv_inc_i8 i8, ndv_inc_i16 i16, ndv_inc_i32 i32, ndv_inc_i64 i64, ndv_inc_i128 i128);
    // concrete parsers (big-endian, default error type)
    macro_rules! concs { ($($f:ident $t:ty),*) => { $(pub fn $f(i: &[u8]) -> IResult<&[u8], $t> {
        let n = std::mem::size_of::<$t>();
        if i.len() < n { return Err(Err::Incomplete(Needed::new(n - i.len()))); }
        let mut b = [0u8; std::mem::size_of::<$t>()];
        b.copy_from_slice(&i[..n]);
        Ok((&i[n..], <$t>::from_be_bytes(b)))
    })* } }
    concs!(ndv_c_u8 u8, ndv_c_u16 u16, ndv_c_u32 u32, ndv_c_u64 u64, ndv_c_i8 i8, ndv_c_i16 i16, ndv_c_i32 i32, ndv_c_i64 i64);
    pub fn ndv_c_take<const N: usize>(i: &[u8]) -> IResult<&[u8], &[u8]> {
        if i.len() < N { return Err(Err::Incomplete(Needed::new(N - i.len()))); }
        Ok((&i[N..], &i[..N]))
    }
    macro_rules! wides { ($($w:ident $t:ty),*) => { $(
        #[derive(Clone, Copy, Debug, PartialEq)] pub struct $w(pub $t);
        impl From<$t> for $w { fn from(x: $t) -> Self { $w(x) } }
        impl ToV for $w { fn v(&self, o: &mut String) { self.0.v(o) } }
        impl Default for $w { fn default() -> Self { $w(0) } }
    )* } }
    wides!(Wide_u8 u8, Wide_u16 u16, Wide_u32 u32, Wide_u64 u64, Wide_u128 u128, Wide_i8 i8, Wide_i16 i16, Wide_i32 i32, Wide_i64 i64, Wide_i128 i128);

    fn one<'a, E: ParseError<&'a [u8]>>(i: &'a [u8]) -> IResult<&'a [u8], u8, E> {
        if i.is_empty() { Err(Err::Incomplete(Needed::new(1))) } else { Ok((&i[1..], i[0])) }
    }
    pub fn ndv_odd_err<'a, E: ParseError<&'a [u8]>>(i: &'a [u8]) -> IResult<&'a [u8], u8, E> {
        let (r, x) = one(i)?;
        if x & 1 == 1 { Err(Err::Error(E::from_error_kind(i, ErrorKind::Alt))) } else { Ok((r, x)) }
    }
    pub fn ndv_hi_fail<'a, E: ParseError<&'a [u8]>>(i: &'a [u8]) -> IResult<&'a [u8], u8, E> {
        let (r, x) = one(i)?;
        if x >= 0xf0 { Err(Err::Failure(E::from_error_kind(i, ErrorKind::Alpha))) } else { Ok((r, x)) }
    }
    pub fn ndv_varint<'a, E: ParseError<&'a [u8]>>(i: &'a [u8]) -> IResult<&'a [u8], u32, E> {
        let mut v = 0u64;
        let mut r = i;
        for k in 0..5 {
            let (n, x) = one(r)?;
            r = n;
            v |= ((x & 0x7f) as u64) << (7 * k);
            if x & 0x80 == 0 { return Ok((r, v as u32)); }
        }
        Err(Err::Error(E::from_error_kind(i, ErrorKind::TooLarge)))
    }
    pub fn ndv_peek<'a, E: ParseError<&'a [u8]>>(i: &'a [u8]) -> IResult<&'a [u8], u8, E> { one(i).map(|(_, x)| (i, x)) }
    pub fn ndv_rem_len<'a, E: ParseError<&'a [u8]>>(i: &'a [u8]) -> IResult<&'a [u8], u64, E> { Ok((i, i.len() as u64)) }
    pub fn ndv_rest<'a, E: ParseError<&'a [u8]>>(i: &'a [u8]) -> IResult<&'a [u8], &'a [u8], E> { Ok((&i[i.len()..], i)) }
    pub fn ndv_cstr<'a, E: ParseError<&'a [u8]>>(i: &'a [u8]) -> IResult<&'a [u8], &'a [u8], E> {
        match i.iter().position(|x| *x == 0) {
            Some(n) => Ok((&i[n + 1..], &i[..n])),
            None => Err(Err::Incomplete(Needed::new(1))),
        }
    }
    pub fn ndv_sub<'a, L: ToUsize, O, E: ParseError<&'a [u8]>>(
        mut lp: impl FnMut(&'a [u8]) -> IResult<&'a [u8], L, E>,
        mut f: impl FnMut(&'a [u8]) -> IResult<&'a [u8], O, E>,
    ) -> impl FnMut(&'a [u8]) -> IResult<&'a [u8], O, E> {
        move |i: &'a [u8]| {
            let (r, n) = lp(i)?;
            let n = n.to_usize();
            if r.len() < n { return Err(Err::Incomplete(Needed::new(n - r.len()))); }
            let (_, o) = f(&r[..n])?;
            Ok((&r[n..], o))
        }
    }
    // hand written implementations of Parse
    use nom_derive::Parse;
    #[derive(Clone, Debug, PartialEq, Default)] pub struct ManWhich { pub w: u8, pub b: u8 }
    impl ToV for ManWhich { fn v(&self, o: &mut String) { let _ = write!(o, "W{}:{}", self.w, self.b); } }
    fn which<'a, E: ParseError<&'a [u8]>>(w: u8, i: &'a [u8]) -> IResult<&'a [u8], ManWhich, E> { one(i).map(|(r, b)| (r, ManWhich { w, b })) }
    impl<'a, E: ParseError<&'a [u8]>> Parse<&'a [u8], E> for ManWhich {
        fn parse(i: &'a [u8]) -> IResult<&'a [u8], Self, E> { which(0, i) }
        fn parse_be(i: &'a [u8]) -> IResult<&'a [u8], Self, E> { which(1, i) }
        fn parse_le(i: &'a [u8]) -> IResult<&'a [u8], Self, E> { which(2, i) }
    }
    #[derive(Clone, Debug, PartialEq, Default)] pub struct ManOnlyParse(pub u16);
    impl ToV for ManOnlyParse { fn v(&self, o: &mut String) { let _ = write!(o, "P{}", self.0); } }
    impl<'a, E: ParseError<&'a [u8]>> Parse<&'a [u8], E> for ManOnlyParse {
        fn parse(i: &'a [u8]) -> IResult<&'a [u8], Self, E> {
            if i.len() < 2 { return Err(Err::Incomplete(Needed::new(2 - i.len()))); }
            Ok((&i[2..], ManOnlyParse(i[0] as u16 | (i[1] as u16) << 8)))
        }
    }
    #[derive(Clone, Debug, PartialEq, Default)] pub struct ManTiny(pub u8);
    impl ToV for ManTiny { fn v(&self, o: &mut String) { let _ = write!(o, "T{}", self.0); } }
    fn tiny<'a, E: ParseError<&'a [u8]>>(k: usize, i: &'a [u8]) -> IResult<&'a [u8], ManTiny, E> {
        if i.len() < 2 { return Err(Err::Incomplete(Needed::new(2 - i.len()))); }
        Ok((&i[2..], ManTiny(i[k])))
    }
    impl<'a, E: ParseError<&'a [u8]>> Parse<&'a [u8], E> for ManTiny {
        fn parse(i: &'a [u8]) -> IResult<&'a [u8], Self, E> { tiny(1, i) }
        fn parse_be(i: &'a [u8]) -> IResult<&'a [u8], Self, E> { tiny(1, i) }
        fn parse_le(i: &'a [u8]) -> IResult<&'a [u8], Self, E> { tiny(0, i) }
    }
    #[derive(Clone, Debug, PartialEq, Default)] pub struct ManFussy(pub u8);
    impl ToV for ManFussy { fn v(&self, o: &mut String) { let _ = write!(o, "Y{}", self.0); } }
    impl<'a, E: ParseError<&'a [u8]>> Parse<&'a [u8], E> for ManFussy {
        fn parse(i: &'a [u8]) -> IResult<&'a [u8], Self, E> {
            let (r, x) = one(i)?;
            if x >= 0xf0 { Err(Err::Failure(E::from_error_kind(i, ErrorKind::Alpha))) }
            else if x >= 0xe0 { Err(Err::Error(E::from_error_kind(i, ErrorKind::Alt))) }
            else { Ok((r, ManFussy(x))) }
        }
    }
    /// constants to be used as patterns
    pub mod kst {
        pub mod u8 {
            pub const K0: u8 = 0;
            pub const K1: u8 = 1;
            pub const K2: u8 = 2;
            pub const K3: u8 = 3;
            pub const K4: u8 = 4;
            pub const K5: u8 = 5;
        }
        pub mod u16 {
            pub const K0: u16 = 0;
            pub const K1: u16 = 1;
            pub const K2: u16 = 2;
            pub const K3: u16 = 3;
            pub const K4: u16 = 4;
            pub const K5: u16 = 5;
        }
        pub mod u32 {
            pub const K0: u32 = 0;
            pub const K1: u32 = 1;
            pub const K2: u32 = 2;
            pub const K3: u32 = 3;
            pub const K4: u32 = 4;
            pub const K5: u32 = 5;
        }
        pub mod u64 {
            pub const K0: u64 = 0;
            pub const K1: u64 = 1;
            pub const K2: u64 = 2;
            pub const K3: u64 = 3;
            pub const K4: u64 = 4;
            pub const K5: u64 = 5;
        }
        pub mod u128 {
            pub const K0: u128 = 0;
            pub const K1: u128 = 1;
            pub const K2: u128 = 2;
            pub const K3: u128 = 3;
            pub const K4: u128 = 4;
            pub const K5: u128 = 5;
        }
        pub mod i8 {
            pub const K0: i8 = 0;
            pub const K1: i8 = 1;
            pub const K2: i8 = 2;
            pub const K3: i8 = 3;
            pub const K4: i8 = 4;
            pub const K5: i8 = 5;
        }
        pub mod i16 {
            pub const K0: i16 = 0;
            pub const K1: i16 = 1;
            pub const K2: i16 = 2;
            pub const K3: i16 = 3;
            pub const K4: i16 = 4;
            pub const K5: i16 = 5;
        }
        pub mod i32 {
            pub const K0: i32 = 0;
            pub const K1: i32 = 1;
            pub const K2: i32 = 2;
            pub const K3: i32 = 3;
            pub const K4: i32 = 4;
            pub const K5: i32 = 5;
        }
        pub mod i64 {
            pub const K0: i64 = 0;
            pub const K1: i64 = 1;
            pub const K2: i64 = 2;
            pub const K3: i64 = 3;
            pub const K4: i64 = 4;
            pub const K5: i64 = 5;
        }
        pub mod i128 {
            pub const K0: i128 = 0;
            pub const K1: i128 = 1;
            pub const K2: i128 = 2;
            pub const K3: i128 = 3;
            pub const K4: i128 = 4;
            pub const K5: i128 = 5;
        }
    }
}

/// request: prog decl inst ep err pad hex args -> one response line on stderr
/// (stdout receives the output of the Debug attribute)
pub fn serve(run: fn(usize, usize, usize, u8, u8, &[i128], &[u8]) -> String) {
    use std::io::{BufRead, Write};
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut line = String::new();
    let mut out = std::io::stderr();
    let mut lock = stdin.lock();
    loop {
        line.clear();
        if lock.read_line(&mut line).unwrap_or(0) == 0 { break; }
        let w: Vec<&str> = line.trim_end().split(' ').collect();
        let n = |k: usize| w[k].parse::<usize>().unwrap();
        let hex = w[6].as_bytes();
        let pad = n(5);
        let h = |c: u8| if c <= b'9' { c - b'0' } else { c - b'a' + 10 };
        let data: Vec<u8> = if hex == b"-" { vec![] } else { hex.chunks(2).map(|c| h(c[0]) << 4 | h(c[1])).collect() };
        // input placed in the middle of a larger buffer, at an arbitrary alignment; surrounding bytes vary
        let fill = (pad as u8).wrapping_mul(37) ^ 0x5a;
        let mut buf = vec![fill; pad + data.len() + 64];
        buf[pad..pad + data.len()].copy_from_slice(&data);
        let args: Vec<i128> = if w[7] == "-" { vec![] } else { w[7].split(',').map(|x| x.parse().unwrap()).collect() };
        let i = &buf[pad..pad + data.len()];
        prelude::BASE.with(|b| b.set((i.as_ptr() as usize, i.len())));
        prelude::TRACE.with(|t| t.borrow_mut().clear());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(n(0), n(1), n(2), n(3) as u8, n(4) as u8, &args, i)));
        let s = match r {
            Ok(s) => s,
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                format!("P {}", m.replace('\n', " "))
            }
        };
        let t = prelude::TRACE.with(|t| t.borrow().clone());
        let _ = out.write_all(format!("{}\t{}\n", s, t).as_bytes());
    }
}
