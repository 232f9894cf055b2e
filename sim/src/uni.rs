//! The universe of types the simulator builds, reads, writes and prints.
use crate::model::{TyRef, Uni, Val, ty};
use crate::tok::{DEFAULT_LABEL, Tok, ZTok};
use crate::world::{self, Act, Cb};
use crate::{uni_enum, uni_struct};
use facet::Facet;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

macro_rules! st {
    ($(#[$m:meta])* $n:ident { $($(#[$fm:meta])* $f:ident : $t:ty),* $(,)? }) => {
        #[derive(Facet, Debug, Clone, PartialEq)]
        $(#[$m])*
        pub struct $n { $($(#[$fm])* pub $f: $t),* }
        uni_struct!($n, stringify!($n) => { $($f),* });
    };
}

st!(Flat { a: u32, b: Tok, c: String, d: bool });
st!(TwoTok { a: Tok, b: Tok });
st!(Nest { x: TwoTok, y: Tok, z: Pair });
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct Pair(pub Tok, pub u8);
uni_struct!(Pair, "Pair" => { 0, 1 });
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct Wrap1(pub Tok);
uni_struct!(Wrap1, "Wrap1" => { 0 });
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct Unit0;
uni_struct!(Unit0, "Unit0" => {});
st!(L3 { a: Tok, b: Tok });
st!(L2 { l3: L3, t: Tok });
st!(L1 { l2: L2, t: Tok });
st!(Deep { l1: L1, t: Tok });
st!(OnlyIn { w: Wrap1 });
st!(Only { o: OnlyIn });
st!(Zst { z: ZTok, t: Tok, u: Unit0, e: () });
st!(Lists { a: Vec<Tok>, b: Vec<TwoTok>, c: Vec<Vec<Tok>>, d: Vec<u8> });
st!(Opts { a: Option<Tok>, b: Option<TwoTok>, c: Option<Vec<Tok>>, d: Option<u32> });
st!(Opt2 { a: Option<Option<Tok>>, b: Option<E8> });
st!(Maps { a: HashMap<String, Tok>, b: BTreeMap<String, TwoTok> });
st!(TokMaps { a: HashMap<Tok, Tok>, b: BTreeMap<Tok, Vec<Tok>>, c: BTreeMap<u32, Option<Tok>> });
st!(Tuples { a: (Tok, u32), b: (Tok, String, Tok), c: ((Tok,), Tok) });
st!(Arrs { a: [Tok; 3], b: [u16; 4], c: Tok });
st!(Arcs { a: Arc<Tok>, b: Arc<TwoTok>, c: Vec<Arc<Tok>> });
st!(Nums { a: u8, b: u16, c: u32, d: u64, e: i8, f: i16, g: i32, h: i64, i: f32, j: f64, k: bool });
st!(Nums2 { a: usize, b: isize, c: u128, d: i128, e: char, f: () });
st!(NonZeros {
    a: std::num::NonZero<u8>, b: std::num::NonZero<u16>, c: std::num::NonZero<u32>, d: std::num::NonZero<u64>,
    e: std::num::NonZero<i8>, f: std::num::NonZero<i16>, g: std::num::NonZero<i32>, h: std::num::NonZero<i64>
});
st!(NZWide { a: std::num::NonZero<usize>, b: std::num::NonZero<isize>, c: std::num::NonZero<i128>, d: std::num::NonZero<u128>, e: Tok });
st!(Net { a: std::net::IpAddr, b: std::net::Ipv4Addr, c: Option<std::net::Ipv6Addr>, d: Vec<std::net::SocketAddr> });
st!(Paths { a: std::path::PathBuf, b: &'static std::path::Path, c: &'static str, d: Option<std::path::PathBuf>, e: std::borrow::Cow<'static, str> });
st!(Unsigned { a: u8, b: u16, c: u32, d: u64, e: String });
st!(Strs { a: String, b: String, c: Vec<String>, d: Option<String> });
st!(Cows { a: std::borrow::Cow<'static, str>, b: Tok });
st!(Align { a: u8, b: u128, c: Tok, d: u8, e: u64 });

/// one of each representation
#[derive(Facet, Debug, Clone, PartialEq)]
#[repr(u8)]
#[allow(clippy::enum_variant_names)]
pub enum E8 {
    Unit,
    One(Tok),
    Two(Tok, u32),
    Named { x: Tok, y: String, z: Tok },
    Nested(TwoTok, Tok),
}
uni_enum!(E8, "E8" => { Unit {}, One { 0 }, Two { 0, 1 }, Named { x, y, z }, Nested { 0, 1 } });

#[derive(Facet, Debug, Clone, PartialEq)]
#[repr(i8)]
pub enum Neg {
    A = 5,
    B(Tok) = 120,
    C { v: Vec<Tok> } = 0,
    D = 127,
}
uni_enum!(Neg, "Neg" => { A {}, B { 0 }, C { v }, D {} });

// the fourth discriminant is the compiler's: one more than the third
macro_rules! repr_enum {
    ($n:ident, $r:ident, $s:literal, $a:tt $b:tt $c:tt) => {
        #[derive(Facet, Debug, Clone, PartialEq)]
        #[repr($r)]
        pub enum $n {
            A = $a,
            B(Tok, u8) = $b,
            C { t: Tok } = $c,
            D(Tok),
        }
        uni_enum!($n, $s => { A {}, B { 0, 1 }, C { t }, D { 0 } });
        impl $n {
            pub const DISC: [i64; 4] = [$a, $b, $c, $c + 1];
        }
    };
}
repr_enum!(EU16, u16, "EU16", 0x100 65_000 0);
repr_enum!(EU32, u32, "EU32", 0x1_0000 4_294_967_295 0b101);
repr_enum!(EU64, u64, "EU64", 0x1_0000_0003 9_223_372_036_854_775_806 3);
repr_enum!(EI16, i16, "EI16", 32767 256 0o17);
repr_enum!(EI32, i32, "EI32", 2147483647 65536 0);
repr_enum!(EI64, i64, "EI64", 4294967299 9_223_372_036_854_775_800 3);
repr_enum!(EUs, usize, "EUs", 4294967299 1_099_511_627_776 3);
repr_enum!(EIs, isize, "EIs", 0x7FFF_FFFF_FFFF_FFFE 4294967299 3);
// laid out the C way: the tag as large as its values need, the variants beside it
#[derive(Facet, Debug, Clone, PartialEq)]
#[repr(C)]
pub enum CTag {
    A,
    B(u8, Tok),
    C { a: u8, b: u16, t: Tok },
    D(u8),
    E { t: Tok, x: u8 },
}
uni_enum!(CTag, "CTag" => { A {}, B { 0, 1 }, C { a, b, t }, D { 0 }, E { t, x } });
impl CTag {
    pub const DISC: [i64; 5] = [0, 1, 2, 3, 4];
}
#[derive(Facet, Debug, Clone, PartialEq)]
#[repr(C)]
#[allow(clippy::enum_clike_unportable_variant)]
pub enum CWide {
    A,
    B = 5_000_000_000,
    C,
    D = 7,
}
uni_enum!(CWide, "CWide" => { A {}, B {}, C {}, D {} });
impl CWide {
    pub const DISC: [i64; 4] = [0, 5_000_000_000, 5_000_000_001, 7];
}
#[derive(Facet, Debug, Clone, PartialEq)]
#[repr(C)]
pub enum CPlain {
    A = 70000,
    B,
    C = 2_147_483_647,
    D = 0,
}
uni_enum!(CPlain, "CPlain" => { A {}, B {}, C {}, D {} });
impl CPlain {
    pub const DISC: [i64; 4] = [70000, 70001, 2_147_483_647, 0];
}
#[derive(Facet, Debug, Clone, PartialEq)]
#[repr(C, i16)]
pub enum CI16 {
    A { a: u8, t: Tok } = 300,
    B(u8),
    C(Tok, Tok) = 0,
}
uni_enum!(CI16, "CI16" => { A { a, t }, B { 0 }, C { 0, 1 } });
impl CI16 {
    pub const DISC: [i64; 3] = [300, 301, 0];
}
#[derive(Facet, Debug, Clone, PartialEq)]
#[repr(C, u64)]
pub enum CU64 {
    A(u8),
    B(u32, Tok) = 0x1_0000_0000,
    C,
}
uni_enum!(CU64, "CU64" => { A { 0 }, B { 0, 1 }, C {} });
impl CU64 {
    pub const DISC: [i64; 3] = [0, 0x1_0000_0000, 0x1_0000_0001];
}
st!(CHold { a: CTag, b: CWide, g: CPlain, c: CI16, d: CU64, e: Option<CTag>, f: Vec<CWide>, t: Tok });
#[derive(Facet, Debug, Clone, PartialEq)]
#[repr(C, u8)]
pub enum EC {
    A,
    B(Tok, u64),
    C { t: u8, u: Tok },
}
uni_enum!(EC, "EC" => { A {}, B { 0, 1 }, C { t, u } });
#[derive(Facet, Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(u16)]
pub enum Plain {
    Red = 1,
    Green = 300,
    Blue = 65535,
}
uni_enum!(Plain, "Plain" => { Red {}, Green {}, Blue {} });
#[derive(Facet, Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(i64)]
pub enum PlainNeg {
    Lo = 0,
    Minus = 4294967301,
    Hi = 9223372036854775806,
}
uni_enum!(PlainNeg, "PlainNeg" => { Lo {}, Minus {}, Hi {} });

st!(EnumHold { a: E8, t: Tok, b: Neg, p: Plain, q: PlainNeg });
st!(EnumHold2 { a: EU16, b: EU32, c: EU64, d: EI16 });
st!(EnumHold3 { a: EI32, b: EI64, c: EUs, d: EIs, e: EC });
st!(EnumColl { a: Vec<E8>, b: Option<Neg>, c: HashMap<String, E8> });

#[derive(Facet, Debug, Clone, PartialEq)]
#[repr(u8)]
pub enum ENest {
    U(u32, TwoTok),
    E(Tok, E8),
    D { n: u64, l: L2, e: Neg, t: Tok },
    O(Option<TwoTok>, Nest),
    N,
}
uni_enum!(ENest, "ENest" => { U { 0, 1 }, E { 0, 1 }, D { n, l, e, t }, O { 0, 1 }, N {} });
#[derive(Facet, Debug, Clone, PartialEq)]
#[repr(u16)]
pub enum EColl {
    L(u8, Vec<TwoTok>),
    M { k: Tok, m: HashMap<String, E8>, n: Flat },
    A(Arc<TwoTok>, Tok, [Tok; 2]),
    T { t: (Tok, u16), b: BTreeMap<Tok, Tok> },
}
uni_enum!(EColl, "EColl" => { L { 0, 1 }, M { k, m, n }, A { 0, 1, 2 }, T { t, b } });
st!(NestE { a: u8, e: ENest, l: Nest, m: EColl });
st!(Mixed { n: Vec<Nest>, e: Vec<ENest>, o: Option<EColl>, p: Option<Nest> });

/// recursive
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct Tree {
    pub t: Tok,
    pub kids: Vec<Tree>,
}
uni_struct!(Tree, "Tree" => { t, kids });
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct Chain {
    pub t: Tok,
    pub next: Option<Arc<Chain>>,
}
uni_struct!(Chain, "Chain" => { t, next });

/// generic
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct Gen1<T> {
    pub v: T,
    pub t: Tok,
}
uni_struct!(Gen1<Vec<Tok>>, "Gen1<Vec>" => { v, t });
uni_struct!(Gen1<E8>, "Gen1<E8>" => { v, t });
#[derive(Facet, Debug, Clone, PartialEq)]
#[repr(u16)]
pub enum GenE<T: Clone> {
    A,
    B(u8, T),
    C { u: T, t: Tok, x: Option<T> },
}
uni_enum!(GenE<Tok>, "GenE<Tok>" => { A {}, B { 0, 1 }, C { u, t, x } });
uni_enum!(GenE<u8>, "GenE<u8>" => { A {}, B { 0, 1 }, C { u, t, x } });
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct GenN<T, const N: usize>
where
    T: Clone,
{
    pub a: [T; N],
    pub t: T,
}
uni_struct!(GenN<Tok, 2>, "GenN<Tok>" => { a, t });
uni_struct!(GenN<u16, 3>, "GenN<u16>" => { a, t });
st!(GenHold { a: Gen1<Vec<Tok>>, b: Gen1<E8>, c: GenE<Tok>, d: GenE<u8>, e: GenN<Tok, 2>, f: GenN<u16, 3> });

/// structs with their own destructor: it may only run on complete values
#[derive(Facet, Debug, PartialEq)]
pub struct WithDrop {
    pub a: Tok,
    pub b: TwoTok,
}
uni_struct!(WithDrop, "WithDrop" => { a, b });
impl Drop for WithDrop {
    fn drop(&mut self) {
        std::hint::black_box(self.a.label() ^ self.b.a.label() ^ self.b.b.label());
        world::count("probe.struct_destructor", 1);
    }
}
st!(DropHold { w: WithDrop2, t: Tok, v: Vec<WithDrop2> });
#[derive(Facet, Debug, PartialEq)]
pub struct WithDrop2 {
    pub a: Tok,
    pub b: Tok,
}
uni_struct!(WithDrop2, "WithDrop2" => { a, b });
impl Drop for WithDrop2 {
    fn drop(&mut self) {
        std::hint::black_box(self.a.label() ^ self.b.label());
        world::count("probe.struct_destructor", 1);
    }
}
impl Clone for WithDrop2 {
    fn clone(&self) -> Self {
        WithDrop2 { a: self.a.clone(), b: self.b.clone() }
    }
}

/// a type with an invariant: rejected when both labels agree
#[derive(Facet, Debug, Clone, PartialEq)]
#[facet(invariants = "check")]
pub struct Inv {
    pub a: Tok,
    pub b: Tok,
    pub n: u32,
}
impl Inv {
    fn check(&self) -> bool {
        world::with(|w| w.invariant_seen += 1);
        match world::callback(Cb::Invariant) {
            Some(Act::Panic) => std::panic::resume_unwind(Box::new(world::Injected)),
            Some(Act::Refuse) => return false,
            None => {}
        }
        self.a.label() % 4 != self.b.label() % 4
    }
}
impl Uni for Inv {
    const NAME: &'static str = "Inv";
    fn kind() -> crate::model::Kind {
        crate::model::Kind::Struct {
            tuple: false,
            fields: vec![
                crate::model::ft("a", ty::<Tok>),
                crate::model::ft("b", ty::<Tok>),
                crate::model::ft("n", ty::<u32>),
            ],
        }
    }
    fn to_val(&self) -> Val {
        Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val()])
    }
    fn from_val(v: &Val) -> Self {
        let Val::Struct(x) = v else { panic!("model mismatch") };
        Inv { a: Uni::from_val(&x[0]), b: Uni::from_val(&x[1]), n: Uni::from_val(&x[2]) }
    }
    fn invariant() -> Option<fn(&Val) -> bool> {
        Some(|v| {
            let Val::Struct(x) = v else { return true };
            let (Val::Tok(a), Val::Tok(b)) = (&x[0], &x[1]) else { return true };
            a % 4 != b % 4
        })
    }
}

/// with defaults that own things
#[derive(Facet, Debug, Clone, PartialEq, Default)]
pub struct DIn {
    pub a: Tok,
    pub b: Tok,
}
fn din() -> Val {
    Val::Struct(vec![Val::Tok(DEFAULT_LABEL), Val::Tok(DEFAULT_LABEL)])
}
uni_struct!(DIn, "DIn" => { a, b }; fn std_default() -> Option<fn() -> Val> { Some(din) });
#[derive(Facet, Debug, Clone, PartialEq, Default)]
#[repr(u8)]
pub enum DE {
    One(Tok),
    Two { a: Tok, b: Tok },
    #[default]
    Nothing,
}
uni_enum!(DE, "DE" => { One { 0 }, Two { a, b }, Nothing {} }; fn std_default() -> Option<fn() -> Val> { Some(|| Val::Enum(2, vec![])) });
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct Dflt {
    pub t: Tok,
    pub i: DIn,
    pub e: DE,
    pub n: u32,
    pub l: Vec<Tok>,
    pub o: Option<DIn>,
    pub s: String,
    pub w: TwoTok,
    pub f: E8,
    pub z: u8,
    pub y: ZTok,
}
impl Default for Dflt {
    fn default() -> Self {
        let t = Tok::default();
        let l = vec![Tok::default(), Tok::default()];
        Dflt { t, i: DIn::default(), e: DE::One(Tok::default()), n: 7, l, o: Some(DIn::default()), s: "default".into(), w: TwoTok { a: Tok::default(), b: Tok::default() }, f: E8::Two(Tok::default(), 3), z: 9, y: ZTok::default() }
    }
}
fn dflt() -> Val {
    let t = || Val::Tok(DEFAULT_LABEL);
    Val::Struct(vec![t(), din(), Val::Enum(0, vec![t()]), Val::Int(7), Val::List(vec![t(), t()]), Val::Opt(Some(Box::new(din()))), Val::Str("default".into()), Val::Struct(vec![t(), t()]), Val::Enum(2, vec![t(), Val::Int(3)]), Val::Int(9), Val::ZTok])
}
uni_struct!(Dflt, "Dflt" => { t, i, e, n, l, o, s, w, f, z, y }; fn std_default() -> Option<fn() -> Val> { Some(dflt) });
st!(DfltHold { a: Dflt, t: Tok, v: Vec<Dflt>, i: DIn, o: Option<Dflt> });

/// an invariant, and nothing to destroy
#[derive(Facet, Debug, Clone, PartialEq)]
#[facet(invariants = "check")]
pub struct InvN {
    pub a: u32,
    pub b: u64,
}
impl InvN {
    fn check(&self) -> bool {
        world::with(|w| w.invariant_seen += 1);
        match world::callback(Cb::Invariant) {
            Some(Act::Panic) => std::panic::resume_unwind(Box::new(world::Injected)),
            Some(Act::Refuse) => return false,
            None => {}
        }
        self.a % 2 == 0
    }
}
uni_struct!(InvN, "InvN" => { a, b }; fn invariant() -> Option<fn(&Val) -> bool> {
    Some(|v| !matches!(v, Val::Struct(x) if matches!(x[0], Val::Int(a) if a % 2 != 0)))
});

macro_rules! many {
    ($n:ident $s:literal $($f:ident)*) => { st!($n { $($f: Tok),* }); };
}
many!(F63 "F63" f0 f1 f2 f3 f4 f5 f6 f7 f8 f9 f10 f11 f12 f13 f14 f15 f16 f17 f18 f19 f20 f21 f22 f23 f24 f25 f26 f27 f28 f29 f30 f31 f32 f33 f34 f35 f36 f37 f38 f39 f40 f41 f42 f43 f44 f45 f46 f47 f48 f49 f50 f51 f52 f53 f54 f55 f56 f57 f58 f59 f60 f61 f62);
many!(F64 "F64" f0 f1 f2 f3 f4 f5 f6 f7 f8 f9 f10 f11 f12 f13 f14 f15 f16 f17 f18 f19 f20 f21 f22 f23 f24 f25 f26 f27 f28 f29 f30 f31 f32 f33 f34 f35 f36 f37 f38 f39 f40 f41 f42 f43 f44 f45 f46 f47 f48 f49 f50 f51 f52 f53 f54 f55 f56 f57 f58 f59 f60 f61 f62 f63);

/// Every type the builder properties use as a root.
pub fn build_roots() -> Vec<TyRef> {
    vec![
        ty::<Flat>, ty::<TwoTok>, ty::<Nest>, ty::<Pair>, ty::<Wrap1>, ty::<Deep>, ty::<Only>, ty::<Zst>,
        ty::<Lists>, ty::<Opts>, ty::<Opt2>, ty::<Maps>, ty::<TokMaps>, ty::<Tuples>, ty::<Arrs>, ty::<Arcs>,
        ty::<Nums>, ty::<Nums2>, ty::<NonZeros>, ty::<NZWide>, ty::<Net>, ty::<Paths>, ty::<Align>, ty::<Cows>,
        ty::<E8>, ty::<Neg>, ty::<EnumHold>, ty::<EnumHold2>, ty::<EnumHold3>, ty::<EnumColl>,
        ty::<Tree>, ty::<Chain>, ty::<GenHold>, ty::<WithDrop>, ty::<DropHold>, ty::<Inv>, ty::<InvN>,
        ty::<F63>, ty::<F64>, ty::<Unit0>, ty::<ZTok>, ty::<Tok>,
        ty::<Vec<Tok>>, ty::<Vec<E8>>, ty::<Vec<Option<TwoTok>>>, ty::<Option<Tok>>, ty::<Option<E8>>, ty::<Option<Vec<TwoTok>>>,
        ty::<HashMap<String, TwoTok>>, ty::<HashMap<Tok, E8>>, ty::<BTreeMap<Tok, TwoTok>>, ty::<BTreeMap<Tok, BTreeMap<Tok, Tok>>>,
        ty::<(Tok, E8, Tok)>, ty::<Vec<HashMap<String, Tok>>>, ty::<HashMap<Pair2, Vec<TwoTok>>>,
        ty::<Vec<WithDrop2>>, ty::<Option<WithDrop2>>,
        ty::<(u8, Tok, u16, Tok, u32, Tok, u64)>, ty::<(u8, Tok, u16, Tok, u32, Tok, u64, u8, Tok, String, i8, Tok)>,
        ty::<Dflt>, ty::<DfltHold>, ty::<Vec<DIn>>, ty::<ENest>, ty::<ENest>, ty::<EColl>, ty::<NestE>, ty::<Mixed>, ty::<Vec<ENest>>, ty::<Option<ENest>>,
        ty::<BTreeMap<Pair2, ENest>>, ty::<CHold>, ty::<CTag>, ty::<CWide>, ty::<Vec<CI16>>, ty::<HashMap<String, EColl>>,
    ]
}

/// a composite map key
#[derive(Facet, Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Pair2 {
    pub a: Tok,
    pub b: Tok,
}
uni_struct!(Pair2, "Pair2" => { a, b });
