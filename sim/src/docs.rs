//! Types that are read from and written to documents, and the entry points of the format crates.
use crate::alloc;
use crate::model::{Gen, TyRef, Uni, Val, gen_val, ty};
use crate::rng::Ch;
use crate::tok::{DEFAULT_LABEL, Tok, ZTok};
use crate::uni::{Chain, Cows, E8, F63, F64, Flat, Inv, NonZeros, Pair, TwoTok, Unit0};
use crate::world::{Caught, sut};
use crate::{uni_enum, uni_struct};
use facet::Facet;
use facet_reflect::Peek;
use std::alloc::Layout;
use std::collections::{BTreeMap, HashMap};
use std::io::Write;
use std::num::NonZero;
use std::sync::Arc;

macro_rules! st {
    ($(#[$($m:tt)*])* $n:ident { $($(#[$($fm:tt)*])* $f:ident : $t:ty),* $(,)? } $(, $attr:expr)? $(; $($extra:item)*)?) => {
        #[derive(Facet, Debug, Clone, PartialEq)]
        $(#[$($m)*])*
        pub struct $n { $($(#[$($fm)*])* pub $f: $t),* }
        uni_struct!($n, stringify!($n) => { $($f),* } $(, $attr)? $(; $($extra)*)?);
    };
}

st!(JFlat { a: u32, b: String, c: bool, d: i64, e: f64 });
st!(JInts { a: u8, b: u16, c: u32, d: u64, e: usize, f: i8, g: i16, h: i32, i: i64, j: isize });
st!(JWide { a: u128, b: i128, c: NonZero<i128>, d: NonZero<u128> });
st!(JNzSize { a: NonZero<usize>, b: NonZero<isize>, c: Vec<NonZero<isize>>, d: Option<NonZero<u8>> });
st!(JStatic { a: &'static str, b: Vec<&'static str>, c: Option<&'static str>, d: BTreeMap<&'static str, &'static str>, e: HashMap<std::borrow::Cow<'static, str>, NonZero<usize>> });
/// more fields than digits
type T12 = (u8, String, bool, i8, Vec<u16>, i32, u64, Option<String>, f64, i64, JSub, String);
type T11 = (bool, u8, u16, u32, u64, i8, i16, i32, i64, String, String);
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct JTup11(pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub String, pub Option<u8>);
uni_struct!(JTup11, "JTup11" => { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10 });
#[derive(Facet, Debug, Clone, PartialEq)]
#[repr(u8)]
#[allow(dead_code)]
pub enum TWide {
    A(u8, u8, u8, u8, u8, u8, u8, u8, u8, String, Option<u8>, bool),
    B { a: u8, b: Option<u16>, c: Option<String> },
}
uni_enum!(TWide, "TWide" => { A { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11 }, B { a, b, c } });
st!(TTups { a: T12, b: Vec<T11>, c: JTup11, d: TWide, e: Vec<TWide> });
st!(JFloats { a: f32, b: f64, v: Vec<f32>, w: Vec<f64> });
st!(JRename {
    #[facet(rename = "b")] a: u8,
    #[facet(rename = "a")] b: String,
    #[facet(rename = "日本 / é")] c: bool,
    #[facet(rename = "d.e-f")] d: i16,
    e: u8
}, |f| { f[0].rename = Some("b"); f[1].rename = Some("a"); f[2].rename = Some("日本 / é"); f[3].rename = Some("d.e-f"); });
st!(JOpts { a: Option<u32>, b: Option<String>, c: Option<JFlat>, d: Vec<Option<i8>>, e: Option<Vec<bool>>, f: Option<Option<bool>>, g: Option<Tok> });
st!(JNest { v: Vec<JFlat>, w: Vec<Vec<i16>>, t: (u8, String), s: JSub, p: Option<JSub> });
st!(JSub { x: String, y: Vec<String> });
st!(JTok { a: Tok, v: Vec<Tok>, o: Option<Tok>, p: TwoTok, w: Vec<Vec<TwoTok>> });
st!(JTree { t: String, n: u32, kids: Vec<JTree> });
st!(JTokTree { t: Tok, kids: Vec<JTokTree>, o: Option<Vec<JTokTree>> });
st!(JStrs { a: String, b: String, c: Vec<String>, d: Option<String> });
st!(#[facet(deny_unknown_fields)] JDeny { a: u8, t: Tok, s: JSub }; fn deny_unknown() -> bool { true });
st!(JChars { a: char, b: Tok, c: char });
st!(JHold { d: JDef, e: JFieldDef, v: Vec<JDef>, w: Vec<JFieldDef> });
st!(JHold2 { d: Option<JDeny>, i: Vec<JDeny>, o: Option<JOpts> });

/// every missing field comes from the struct's default
#[derive(Facet, Debug, Clone, PartialEq)]
#[facet(default)]
pub struct JDef {
    pub a: u32,
    pub t: Tok,
    pub s: String,
    pub v: Vec<Tok>,
    pub o: Option<Tok>,
    pub p: TwoTok,
}
impl Default for JDef {
    fn default() -> Self {
        JDef { a: 77, t: Tok::default(), s: "dflt".into(), v: vec![Tok::default(), Tok::new(9)], o: Some(Tok::new(8)), p: TwoTok { a: Tok::default(), b: Tok::new(5) } }
    }
}
uni_struct!(JDef, "JDef" => { a, t, s, v, o, p };
    fn default_val() -> Option<fn() -> Val> {
        Some(|| Val::Struct(vec![
            Val::Int(77), Val::Tok(DEFAULT_LABEL), Val::Str("dflt".into()), Val::List(vec![Val::Tok(DEFAULT_LABEL), Val::Tok(9)]),
            Val::Opt(Some(Box::new(Val::Tok(8)))), Val::Struct(vec![Val::Tok(DEFAULT_LABEL), Val::Tok(5)]),
        ]))
    }
);

/// single fields have defaults
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct JFieldDef {
    pub r: u8,
    #[facet(default)]
    pub t: Tok,
    #[facet(default = "mk_toks")]
    pub v: Vec<Tok>,
    #[facet(default)]
    pub n: i64,
    #[facet(default = "mk_num")]
    pub m: u16,
    pub s: Tok,
    #[facet(rename = "renamed")]
    #[facet(default)]
    pub z: String,
}
fn mk_toks() -> Vec<Tok> {
    vec![Tok::default(), Tok::new(3)]
}
fn mk_num() -> u16 {
    4242
}
uni_struct!(JFieldDef, "JFieldDef" => { r, t, v, n, m, s, z }, |f| {
    f[1].default = Some(|| Val::Tok(DEFAULT_LABEL));
    f[2].default = Some(|| Val::List(vec![Val::Tok(DEFAULT_LABEL), Val::Tok(3)]));
    f[3].default = Some(|| Val::Int(0));
    f[4].default = Some(|| Val::Int(4242));
    f[6].default = Some(|| Val::Str(String::new()));
    f[6].rename = Some("renamed");
});

#[derive(Facet, Debug, Clone, PartialEq)]
#[repr(u8)]
#[allow(dead_code)]
pub enum WEnum {
    Unit,
    New(i32),
    Tup(u8, String),
    St { a: bool, b: Vec<u8> },
    One { x: u8 },
    Deep(Option<WSub>, Vec<WSub>),
}
uni_enum!(WEnum, "WEnum" => { Unit {}, New { 0 }, Tup { 0, 1 }, St { a, b }, One { x }, Deep { 0, 1 } });
#[derive(Facet, Debug, Clone, PartialEq)]
#[repr(u8)]
#[allow(dead_code)]
pub enum WSub {
    A,
    B(String),
    C(bool, f64),
}
uni_enum!(WSub, "WSub" => { A {}, B { 0 }, C { 0, 1 } });
st!(WEnums { a: WEnum, b: Vec<WEnum>, c: Option<WSub> });
st!(WMaps { a: HashMap<String, u32>, b: BTreeMap<u32, String>, c: BTreeMap<char, bool>, d: HashMap<Tok, u8>, e: HashMap<bool, Vec<String>> });
st!(WMaps2 { a: BTreeMap<String, BTreeMap<String, i8>>, b: HashMap<String, WEnum>, c: BTreeMap<i64, JSub> });
st!(WCow { a: std::borrow::Cow<'static, str>, b: Vec<std::borrow::Cow<'static, str>> });
st!(WMixed { f: JFloats, i: JInts, m: WMaps, s: JStrs, e: WEnums });
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct JPair(pub i32, pub String);
uni_struct!(JPair, "JPair" => { 0, 1 });

/// A type and a reader of a text format.
pub struct TDoc {
    pub ty: TyRef,
    pub read: fn(&str, bool) -> Result<Val, String>,
}
impl TDoc {
    pub fn t(&self) -> &'static crate::model::Ty {
        (self.ty)()
    }
}
macro_rules! tdocs {
    ($name:ident $f:path: $($t:ty),* $(,)?) => {
        pub fn $name() -> &'static [TDoc] {
            static L: std::sync::OnceLock<Vec<TDoc>> = std::sync::OnceLock::new();
            alloc::off(|| L.get_or_init(|| vec![$( TDoc { ty: ty::<$t>, read: |b, show| match $f(b) {
                Ok(t) => Ok(take::<$t>(t)),
                Err(e) => Err(note(e, show)),
            } } ),*]))
        }
    };
}

st!(TNet { a: std::net::IpAddr, b: std::net::Ipv4Addr, c: Option<std::net::Ipv6Addr>, d: Vec<std::net::SocketAddr> });
st!(TMaps { a: HashMap<String, u32>, b: BTreeMap<String, String>, c: BTreeMap<String, BTreeMap<String, i8>>, d: HashMap<String, WEnum> });
st!(TMaps2 { a: HashMap<String, JSub>, b: BTreeMap<String, Vec<JPair>>, c: HashMap<std::borrow::Cow<'static, str>, bool>, d: BTreeMap<String, Option<JSub>> });
st!(TOpts { a: Option<u32>, b: Option<String>, c: Option<JFlat>, d: Vec<Option<i8>>, e: Option<Vec<bool>>, f: Option<Option<bool>>, g: Option<WEnum>, h: Option<JPair>, i: Option<Option<JSub>> });
st!(TTree { t: String, n: Option<u32>, kids: Vec<TTree> });
st!(TMapTree { n: Option<u8>, m: BTreeMap<String, TMapTree> });
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct TWrap(pub String);
uni_struct!(TWrap, "TWrap" => { 0 });
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct TWrapList(pub Vec<JSub>);
uni_struct!(TWrapList, "TWrapList" => { 0 });
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct TWrap2(pub TWrap);
uni_struct!(TWrap2, "TWrap2" => { 0 });
#[derive(Facet, Debug, Clone, PartialEq)]
#[repr(u8)]
#[allow(dead_code)]
pub enum TEnum {
    Unit,
    New(Vec<u8>),
    Str(String),
    In(WSub),
    Sub(JSub),
    Wrap(TWrap2),
    Opt(Option<String>),
    Map(BTreeMap<String, u8>),
    Pair { a: String, b: Option<String> },
    Tup(Vec<String>, String, Option<u8>),
}
uni_enum!(TEnum, "TEnum" => { Unit {}, New { 0 }, Str { 0 }, In { 0 }, Sub { 0 }, Wrap { 0 }, Opt { 0 }, Map { 0 }, Pair { a, b }, Tup { 0, 1, 2 } });
st!(TEnums { a: TEnum, b: Vec<TEnum>, c: Option<TEnum>, d: BTreeMap<String, TEnum> });
st!(TWraps { a: TWrap, b: Vec<TWrap2>, c: TWrapList, d: Option<TWrapList>, e: BTreeMap<String, TWrap>, f: Vec<Vec<TWrapList>> });

tdocs!(toml_docs facet_toml::from_str: JFlat, JInts, JFloats, JNest, TTree, TMapTree, JStrs, JSub, JPair, WEnum, TEnum, TEnums, WEnums, TEnums, TMaps, TMaps2, TOpts, TNet, TWraps, WCow,
    MInv, MInvHold, MNest, Unit0, TWrap, TWrapList, Option<JFlat>, Option<WEnum>, HashMap<String, JFlat>, BTreeMap<String, Vec<i8>>, BTreeMap<String, TEnum>, HashMap<std::borrow::Cow<'static, str>, String>,
    (u8, String), (Vec<i32>, bool, JSub), TTups, T12, JTup11, JDeny, JDef, JFieldDef, F63, F64, JTok, JWide, JChars, NonZeros, Chain, E8, WMaps, Vec<u8>, String, u8, [Tok; 3], Arc<Tok>, (), HashMap<u8, u8>);

st!(YFlat { a: u64, b: String });
st!(YNest { a: YFlat, b: String, c: YSub, d: u64 });
st!(YSub { x: YDeep, y: YFlat });
st!(YDeep { z: YOne, a: (u64, String) });
st!(YOne { s: String });
st!(YNums { a: u64, b: u64, c: u64 });
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct YTup(pub u64, pub String);
uni_struct!(YTup, "YTup" => { 0, 1 });
#[derive(Facet, Debug, Clone, PartialEq)]
#[facet(invariants = "check")]
pub struct YInv {
    pub a: u64,
    pub b: u64,
    pub s: String,
}
impl YInv {
    fn check(&self) -> bool {
        if crate::world::callback(crate::world::Cb::Invariant).is_some() {
            return false;
        }
        self.a != self.b
    }
}
uni_struct!(YInv, "YInv" => { a, b, s };
    fn invariant() -> Option<fn(&Val) -> bool> {
        Some(|v| { let Val::Struct(x) = v else { return true }; x[0] != x[1] })
    }
);
st!(YHold { a: YInv, b: YTup });
tdocs!(yaml_docs facet_yaml::from_str: YFlat, YNest, YSub, YDeep, YOne, YNums, YTup, YInv, YHold, JSub2, YNest, (u64, String), YFlat, YNums,
    u64, String, JFlat, JNest, JOpts, JTok, TMaps, WEnums, WEnum, JDef, JDeny, Chain, Unit0, Vec<u64>, Option<YFlat>, HashMap<String, u64>, Arc<u64>, [u64; 2], (), bool);
tdocs!(form_docs facet_urlencoded::from_str: YFlat, YNest, YSub, YDeep, YOne, YNums, YTup, YInv, YHold, JSub2, YNest, (u64, String), YFlat, YNums,
    u64, String, JFlat, JNest, JOpts, JTok, TMaps, WEnums, JDeny, JDef, JDef, Chain, Unit0, Vec<u64>, Option<YFlat>, HashMap<String, u64>, ());

// ------------------------------------------------------------------ command lines
pub struct ADoc {
    pub ty: TyRef,
    pub read: fn(&[&str]) -> Val,
    pub positional: &'static [usize],
}
impl ADoc {
    pub fn t(&self) -> &'static crate::model::Ty {
        (self.ty)()
    }
}
st!(A1 { #[facet(positional)] path: String, #[facet(named, short = 'v')] verbose: bool, #[facet(named, short = 'j')] concurrency: usize });
st!(A2 { #[facet(positional)] a: String, #[facet(named)] b: u8, #[facet(positional)] c: String, #[facet(positional)] d: i32 });
st!(A3 { #[facet(named)] a: i64, #[facet(named)] b: f64, #[facet(named)] c: char, #[facet(named)] d: Tok, #[facet(named)] e: String });
st!(A4 { #[facet(positional)] t: Tok, #[facet(named)] u: Tok, #[facet(positional)] w: bool, #[facet(named)] x: bool });
st!(A5 { #[facet(named)] a: bool, #[facet(named)] b: bool, #[facet(named)] c: Option<u8>, #[facet(named)] d: std::net::IpAddr });
st!(A6 { #[facet(named)] a: NonZero<u16>, #[facet(named)] b: i8, #[facet(named)] c: u64, #[facet(positional)] d: std::net::Ipv4Addr });
st!(A7 { #[facet(positional)] a: bool, #[facet(positional)] b: u32, #[facet(positional)] c: bool });
st!(A8 { a: String, t: Tok, v: Vec<Tok>, s: YFlat });
macro_rules! adocs {
    ($($t:ty: $p:expr),* $(,)?) => {
        pub fn arg_docs() -> &'static [ADoc] {
            static L: std::sync::OnceLock<Vec<ADoc>> = std::sync::OnceLock::new();
            alloc::off(|| L.get_or_init(|| vec![$( ADoc { ty: ty::<$t>, read: |a| take::<$t>(facet_args::from_slice(a)), positional: &$p } ),*]))
        }
    };
}
adocs!(A1: [0], A2: [0, 2, 3], A3: [], A4: [0, 2], A5: [], A6: [3], A7: [0, 1, 2], A8: [], A2: [0, 2, 3], A4: [0, 2], YInv: [], MInv: [], JPair: [], (Tok, u8): [], JDef: [],
    E8: [], Vec<u8>: [], Tok: [], Unit0: [], Option<Tok>: []);

pub struct Doc {
    pub ty: TyRef,
    /// the error as text, printed (Display) when asked to
    pub json_read: fn(&[u8], bool) -> Result<Val, String>,
    pub json_to_string: unsafe fn(*const u8) -> String,
    pub json_to_writer: unsafe fn(*const u8, &mut dyn Write) -> std::io::Result<()>,
    pub mp_read: fn(&[u8], bool) -> Result<Val, String>,
    pub mp_write: unsafe fn(*const u8) -> Vec<u8>,
}

/// the value read, as a model value; the native one is destroyed
fn take<T: Uni>(t: T) -> Val {
    let v = alloc::off(|| t.to_val());
    drop(t);
    v
}

fn note<E: std::fmt::Display + std::fmt::Debug>(e: E, show: bool) -> String {
    if show {
        let s = format!("{e}");
        let d = format!("{e:?}");
        std::hint::black_box((s.len(), d.len()));
        drop(d);
        let r = alloc::off(|| s.clone());
        drop(s);
        drop(e);
        return r;
    }
    drop(e);
    String::new()
}

pub fn doc<T: Uni>() -> Doc {
    Doc {
        ty: ty::<T>,
        json_read: |b, show| match std::str::from_utf8(b).ok().filter(|b| b.len() % 4 == 3).map_or_else(|| facet_json::from_slice::<T>(b), facet_json::from_str::<T>) {
            Ok(t) => Ok(take(t)),
            Err(e) => Err(note(e, show)),
        },
        json_to_string: |p| facet_json::to_string(unsafe { &*(p as *const T) }),
        json_to_writer: |p, mut w| facet_json::to_writer(unsafe { &*(p as *const T) }, &mut w),
        mp_read: |b, show| match if b.len() % 4 == 3 { #[allow(deprecated)] facet_msgpack::from_str::<T>(b) } else { facet_msgpack::from_slice::<T>(b) } {
            Ok(t) => Ok(take(t)),
            Err(e) => Err(note(e, show)),
        },
        mp_write: |p| facet_msgpack::to_vec(unsafe { &*(p as *const T) }),
    }
}

impl Doc {
    pub fn t(&self) -> &'static crate::model::Ty {
        (self.ty)()
    }
}

macro_rules! docs {
    ($name:ident: $($t:ty),* $(,)?) => {
        pub fn $name() -> &'static [Doc] {
            static L: std::sync::OnceLock<Vec<Doc>> = std::sync::OnceLock::new();
            alloc::off(|| L.get_or_init(|| vec![$( doc::<$t>() ),*]))
        }
    };
}

// both directions of JSON
docs!(json_both: JFlat, JInts, JFloats, JRename, JOpts0, JNest, JTree, JStrs, JPair, NonZeros, JSub,
    u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, f32, f64, bool, String, Vec<u8>, Vec<String>, Vec<Vec<JSub>>, Option<u32>, Option<JFlat>,
    Option<String>, Vec<Option<JPair>>, (u8, String), (Vec<i32>, bool, JSub), Vec<(i8, f32)>, Vec<bool>, Unit0, JNzSize, T12, Vec<T11>, JTup11, NonZero<isize>, Vec<NonZero<usize>>);
// JSON writing only
docs!(json_write: WEnum, WEnums, WMaps, WMaps2, WCow, WMixed, HashMap<String, JFlat>, BTreeMap<String, Vec<i8>>, Vec<WEnum>, Option<WSub>,
    JOpts, JFloats, Vec<f64>, HashMap<u8, HashMap<i8, f32>>, JWide, JChars, Cows, JStatic, &'static str, HashMap<&'static str, &'static str>, BTreeMap<(u8, u8), u8>, BTreeMap<u8, BTreeMap<Option<u8>, u8>>, BTreeMap<NonZero<i8>, TWide>, TNet);
// JSON reading
docs!(json_read: JFlat, JInts, JFloats, JRename, JOpts, JNest, JTok, JTree, JTokTree, JStrs, JPair, JDef, JFieldDef, JHold, JHold2, JDeny, JWide, JChars, NonZeros,
    Inv, Flat, TwoTok, Pair, Unit0, F63, F64, JTok, JDef, JFieldDef, JHold, JTokTree,
    u8, i8, u64, i64, u128, i128, f32, f64, bool, String, char, Tok, NonZero<u16>, NonZero<i64>, NonZero<isize>, NonZero<usize>, NonZero<u128>, JNzSize, T12, JTup11, JStatic, &'static str, (), ZTok,
    Vec<u8>, Vec<Tok>, Vec<Vec<Tok>>, Option<Tok>, Option<Vec<Tok>>, Vec<Option<Tok>>, Vec<JDef>, (Tok, u8), Vec<Inv>, Option<Inv>,
    HashMap<String, Tok>, BTreeMap<String, u32>, E8, WEnum, WEnums, [Tok; 3], Arc<Tok>, Chain, Cows, WMaps);
// MessagePack, both directions
docs!(mp_both: MFlat, MInts, MBig, JSub2, Unit0, u8, i8, u16, i16, u32, i32, u64, i64, bool, String, MNest, (u8, String), (i64, MFlat), T11, M15, M16, M17);
docs!(mp_read: MFlat, MInts, MBig, JSub2, Unit0, u8, i64, bool, String, MNest, (u8, String), T11, M15, M16, M17, MInvHold, MInv, M63,
    JTree, JFlat, Chain, E8, Vec<u8>, Option<u8>, HashMap<String, u8>, TwoTok, f64, char, (), [u8; 3], JTok, JDef);

st!(JOpts0 { a: Option<u32>, b: Option<String>, c: Option<JFlat>, d: Vec<Option<i8>>, e: Option<Vec<bool>>, f: Option<JSub> });
st!(JSub2 { x: String, y: String });
st!(MFlat { a: u32, b: String, c: bool, d: i64 });
st!(MInts { a: u8, b: u16, c: u32, d: u64, f: i8, g: i16, h: i32, i: i64 });
st!(MBig { s: String, t: String, n: u64 });
st!(MNest { a: MFlat, b: (u8, MInts), c: JSub2, d: Unit0, e: bool });
st!(MInvHold { a: MInv, s: String });
st!(M15 { a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: u8, a9: u8, b0: i8, b1: i8, b2: i8, b3: i8, b4: String });
st!(M16 { a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: u8, a9: u8, b0: i8, b1: i8, b2: i8, b3: i8, b4: i8, b5: String });
st!(M17 { a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: u8, a9: u8, b0: i8, b1: i8, b2: i8, b3: i8, b4: i8, b5: String, b6: bool });
macro_rules! many {
    ($n:ident $($f:ident)*) => { st!($n { $($f: u8),* }); };
}
many!(M63 f0 f1 f2 f3 f4 f5 f6 f7 f8 f9 f10 f11 f12 f13 f14 f15 f16 f17 f18 f19 f20 f21 f22 f23 f24 f25 f26 f27 f28 f29 f30 f31 f32 f33 f34 f35 f36 f37 f38 f39 f40 f41 f42 f43 f44 f45 f46 f47 f48 f49 f50 f51 f52 f53 f54 f55 f56 f57 f58 f59 f60 f61 f62);

/// a type whose invariant refuses equal numbers
#[derive(Facet, Debug, Clone, PartialEq)]
#[facet(invariants = "check")]
pub struct MInv {
    pub a: u8,
    pub b: u8,
    pub s: String,
}
impl MInv {
    fn check(&self) -> bool {
        if crate::world::callback(crate::world::Cb::Invariant).is_some() {
            return false;
        }
        self.a != self.b
    }
}
uni_struct!(MInv, "MInv" => { a, b, s };
    fn invariant() -> Option<fn(&Val) -> bool> {
        Some(|v| { let Val::Struct(x) = v else { return true }; x[0] != x[1] })
    }
);

/// A native value in simulated memory.
pub struct Value {
    pub p: *mut u8,
    l: Layout,
    pub t: &'static crate::model::Ty,
    pub live: bool,
}
impl Value {
    pub fn new(t: &'static crate::model::Ty, v: &Val) -> Value {
        let l = Layout::from_size_align(t.ops.size, t.ops.align).unwrap();
        let p = if l.size() == 0 { l.align() as *mut u8 } else { sut(|| alloc::obtain(l)).unwrap_or(std::ptr::null_mut()) };
        let live = sut(|| unsafe { (t.ops.emplace)(p, v) }).is_ok();
        Value { p, l, t, live }
    }
    pub fn peek(&self) -> Peek<'_> {
        unsafe { Peek::unchecked_new(facet_core::PtrConst::new(self.p as *const u8), self.t.ops.shape) }
    }
    pub fn read(&self) -> Val {
        unsafe { (self.t.ops.read)(self.p) }
    }
}
impl Drop for Value {
    fn drop(&mut self) {
        if self.live {
            if let Err(Caught::Panic(m, l)) = sut(|| unsafe { (self.t.ops.drop)(self.p) }) {
                crate::world::violate("panic while dropping", format!("{m} at {l}"));
            }
        }
        if self.l.size() > 0 {
            let _ = sut(|| unsafe { std::alloc::dealloc(self.p, self.l) });
        }
    }
}

pub fn gen_for(d: &Doc, ch: &mut Ch, g: &Gen) -> Val {
    alloc::off(|| gen_val(d.t(), ch, g))
}

/// How the simulated storage or transport damages bytes. Returns what was done.
pub fn damage(ch: &mut Ch, b: &mut Vec<u8>, alphabet: &[u8]) -> &'static str {
    let n = b.len();
    let at = |ch: &mut Ch| ch.below(n + 1);
    match ch.below(11) {
        0 => {
            b.truncate(ch.below(n.max(1)));
            "fault.storage_cut_short"
        }
        1 if n > 0 => {
            let i = ch.below(n);
            b[i] ^= 1 << ch.below(8);
            "fault.storage_bit_flip"
        }
        2 if n > 0 => {
            let i = ch.below(n);
            let m = ch.range(1, (n - i).min(12));
            b.drain(i..i + m);
            "fault.storage_lost_range"
        }
        3 if n > 0 => {
            let i = ch.below(n);
            let m = ch.range(1, (n - i).min(24));
            let x: Vec<u8> = b[i..i + m].to_vec();
            let j = at(ch);
            b.splice(j..j, x);
            "fault.storage_duplicated_range"
        }
        4 if n > 1 => {
            let i = ch.below(n - 1);
            let m = ch.range(1, ((n - i) / 2).clamp(1, 16));
            let a: Vec<u8> = b[i..(i + m).min(n)].to_vec();
            b.drain(i..(i + m).min(n));
            let j = ch.below(b.len() + 1);
            b.splice(j..j, a);
            "fault.storage_moved_range"
        }
        9 | 10 if n > 0 => {
            // a token was doubled, lost or replaced by another
            let tokens: Vec<usize> = (0..n).filter(|i| matches!(b[*i], b'{' | b'}' | b'[' | b']' | b':' | b',' | b'"' | b'\n' | b'=' | b'&' | b'-' | b'.' | b'\\')).collect();
            if tokens.is_empty() {
                return "probe.damage_without_effect";
            }
            let i = *ch.pick(&tokens);
            match ch.below(5) {
                0 => drop(b.remove(i)),
                1 => b[i] = b[*ch.pick(&tokens)],
                2 => b.insert(i, b[*ch.pick(&tokens)]),
                _ => b.insert(i, b[i]),
            }
            "fault.storage_token_damaged"
        }
        5 if n > 0 => {
            let i = ch.below(n);
            let m = ch.range(1, (n - i).min(16));
            b[i..i + m].fill(0);
            "fault.storage_zeroed_range"
        }
        6 if n > 0 => {
            let i = ch.below(n);
            b[i] = *ch.pick(alphabet);
            "fault.storage_replaced_byte"
        }
        7 => {
            let i = at(ch);
            let x = *ch.pick(alphabet);
            b.insert(i, x);
            "fault.storage_inserted_byte"
        }
        _ => {
            let i = at(ch);
            let x: &[u8] = *ch.pick::<&[u8]>(&[b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xef\xbb\xbf", b"\xf4\x90\x80\x80", b"\0", b"\xe2\x80"]);
            b.splice(i..i, x.iter().copied());
            "fault.storage_garbage_inserted"
        }
    }
}

// ------------------------------------------------------------------ pretty-printing
pub struct PDoc {
    pub ty: TyRef,
    pub pretty: unsafe fn(*const u8, facet_pretty::PrettyPrinter, &mut dyn std::fmt::Write) -> std::fmt::Result,
    pub format: unsafe fn(*const u8, &facet_pretty::PrettyPrinter) -> String,
    pub plain: unsafe fn(*const u8) -> String,
}
impl PDoc {
    pub fn t(&self) -> &'static crate::model::Ty {
        (self.ty)()
    }
}
pub fn pdoc<T: Uni>() -> PDoc {
    use facet_pretty::FacetPretty;
    PDoc {
        ty: ty::<T>,
        pretty: |p, c, w| write!(w, "{}", unsafe { &*(p as *const T) }.pretty_with(c)),
        format: |p, c| c.format(unsafe { &*(p as *const T) }),
        plain: |p| unsafe { &*(p as *const T) }.pretty().to_string(),
    }
}
macro_rules! pdocs {
    ($name:ident: $($t:ty),* $(,)?) => {
        pub fn $name() -> &'static [PDoc] {
            static L: std::sync::OnceLock<Vec<PDoc>> = std::sync::OnceLock::new();
            alloc::off(|| L.get_or_init(|| vec![$( pdoc::<$t>() ),*]))
        }
    };
}
fn hide(f: &mut [crate::model::FieldTy], which: &[usize]) {
    for i in which {
        f[*i].sensitive = true;
    }
}
/// a type that cannot be printed any other way
macro_rules! st_nodebug {
    ($(#[$($m:tt)*])* $n:ident { $($(#[$($fm:tt)*])* $f:ident : $t:ty),* $(,)? } $(, $attr:expr)?) => {
        #[derive(Facet)]
        $(#[$($m)*])*
        pub struct $n { $($(#[$($fm)*])* pub $f: $t),* }
        uni_struct!($n, stringify!($n) => { $($f),* } $(, $attr)?);
    };
}
st!(PSec { user: String, #[facet(sensitive)] password: String, n: u32 }, |f| hide(f, &[1]));
// written out: a comment that comes through a macro is not seen by the derive
/// documented
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct PDocd {
    /// the user
    pub user: String,
    /// what nobody may see
    #[facet(sensitive)]
    pub pin: u32,
    /// last,
    /// of two lines
    pub t: Tok,
    /// with a part
    pub o: Option<Tok>,
}
uni_struct!(PDocd, "PDocd" => { user, pin, t, o }, |f| hide(f, &[1]));
st!(PKinds {
    #[facet(sensitive)] a: Tok, #[facet(sensitive)] b: Vec<Tok>, #[facet(sensitive)] c: Option<String>, d: u8, #[facet(sensitive)] e: HashMap<String, u8>,
    #[facet(sensitive)] f: PSec, #[facet(sensitive)] g: WEnum, #[facet(sensitive)] h: Arc<Tok>, #[facet(sensitive)] i: [Tok; 2], #[facet(sensitive)] j: (u8, String), k: bool,
    #[facet(sensitive)] l: Vec<u8>, #[facet(sensitive)] m: char, #[facet(sensitive)] n: f64, o: String
}, |f| hide(f, &[0, 1, 2, 4, 5, 6, 7, 8, 9, 11, 12, 13]));
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct PTup(pub String, #[facet(sensitive)] pub String, pub u8);
uni_struct!(PTup, "PTup" => { 0, 1, 2 }, |f| hide(f, &[1]));
st_nodebug!(PBare { a: Tok, #[facet(sensitive)] b: Tok, c: u8 }, |f| hide(f, &[1]));
#[derive(Facet, Debug, Clone, PartialEq)]
#[repr(u8)]
#[allow(dead_code)]
pub enum PEnumRaw {
    Open,
    /// a login
    Login {
        user: String,
        /// the password
        #[facet(sensitive)]
        password: String,
        n: u8,
    },
    Token(#[facet(sensitive)] Tok),
    Pair(u8, #[facet(sensitive)] String),
    Triple(#[facet(sensitive)] Vec<u8>, PSec, #[facet(sensitive)] Option<u32>),
    All { #[facet(sensitive)] a: Vec<Tok>, #[facet(sensitive)] b: Option<PSec> },
    Plain(String, u16),
}
impl Uni for PEnumRaw {
    const NAME: &'static str = "PEnumRaw";
    fn kind() -> crate::model::Kind {
        let mut k = penum::kind();
        let crate::model::Kind::Enum { variants } = &mut k else { unreachable!() };
        for (v, f) in [(1, 1), (2, 0), (3, 1), (4, 0), (4, 2), (5, 0), (5, 1)] {
            variants[v].fields[f].sensitive = true;
        }
        k
    }
    fn to_val(&self) -> Val {
        penum::to_val(self)
    }
    fn from_val(v: &Val) -> Self {
        penum::from_val(v)
    }
}
mod penum {
    //! the derived conversions of the enum, to be completed with the sensitive fields
    use super::PEnumRaw;
    use crate::model::{Kind, Val};
    trait Half {
        fn kind() -> Kind;
        fn to_val(&self) -> Val;
        fn from_val(v: &Val) -> Self;
    }
    crate::uni_enum_as!(Half, PEnumRaw => { Open {}, Login { user, password, n }, Token { 0 }, Pair { 0, 1 }, Triple { 0, 1, 2 }, All { a, b }, Plain { 0, 1 } });
    use super::PEnumC;
    crate::uni_enum_as!(Half, PEnumC => { A { n, s }, B { 0, 1, 2 }, C {} });
    pub fn kind_c() -> Kind {
        <PEnumC as Half>::kind()
    }
    pub fn to_val_c(x: &PEnumC) -> Val {
        Half::to_val(x)
    }
    pub fn from_val_c(v: &Val) -> PEnumC {
        Half::from_val(v)
    }
    pub fn kind() -> Kind {
        <PEnumRaw as Half>::kind()
    }
    pub fn to_val(x: &PEnumRaw) -> Val {
        Half::to_val(x)
    }
    pub fn from_val(v: &Val) -> PEnumRaw {
        Half::from_val(v)
    }
}
// the mark among other attributes, before and after them
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct PMarks {
    #[facet(sensitive)] #[facet(rename = "alpha")] pub a: Tok,
    #[facet(rename = "beta")] #[facet(sensitive)] pub b: String,
    /// first
    #[facet(default)]
    /// second
    #[facet(sensitive)]
    /// third
    pub c: u32,
    #[facet(rename = "delta")] pub d: u8,
    #[facet(custom = "x")] #[facet(sensitive)] #[facet(default)] #[facet(rename = "eps")] pub e: Vec<Tok>,
    pub f: String,
}
uni_struct!(PMarks, "PMarks" => { a, b, c, d, e, f }, |f| hide(f, &[0, 1, 2, 4]));
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct PGen<T: Clone> {
    pub a: T,
    #[facet(sensitive)]
    pub b: T,
    pub c: Vec<T>,
}
uni_struct!(PGen<Tok>, "PGen<Tok>" => { a, b, c }, |f| hide(f, &[1]));
uni_struct!(PGen<PSec>, "PGen<PSec>" => { a, b, c }, |f| hide(f, &[1]));
// the same layouts as C would have them
#[derive(Facet, Debug, Clone, PartialEq)]
#[repr(C)]
#[allow(dead_code)]
pub enum PEnumC {
    A { n: u8, #[facet(sensitive)] s: Tok },
    B(u16, #[facet(sensitive)] #[facet(rename = "x")] String, Tok),
    C,
}
impl Uni for PEnumC {
    const NAME: &'static str = "PEnumC";
    fn kind() -> crate::model::Kind {
        let mut k = penum::kind_c();
        let crate::model::Kind::Enum { variants } = &mut k else { unreachable!() };
        for (v, f) in [(0, 1), (1, 1)] {
            variants[v].fields[f].sensitive = true;
        }
        k
    }
    fn to_val(&self) -> Val {
        penum::to_val_c(self)
    }
    fn from_val(v: &Val) -> Self {
        penum::from_val_c(v)
    }
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct PKey {
    pub user: String,
    #[facet(sensitive)]
    pub pin: u32,
}
uni_struct!(PKey, "PKey" => { user, pin }, |f| hide(f, &[1]));
st!(PKeys { a: BTreeMap<PKey, u8>, b: [BTreeMap<PKey, u8>; 2], c: Arc<HashMap<PKey, u8>>, d: Vec<HashMap<PKey, PKey>>, e: Option<Arc<BTreeMap<PKey, Tok>>>, f: Arc<PEnumC>, g: PEnumC, h: Vec<PEnumC>, i: PGen<PSec> });
/// two things said in one attribute
#[derive(Facet, Debug, Clone, PartialEq)]
pub struct PCombined {
    pub a: u8,
    #[facet(default, sensitive)]
    pub b: u32,
}
st!(PHolds { a: Vec<PSec>, b: Option<PSec>, c: HashMap<String, PSec>, d: BTreeMap<u8, PTup>, e: (PSec, u8), f: PEnumRaw, g: Vec<PEnumRaw>, h: Option<Option<PTup>>, i: Vec<Vec<PDocd>> });
st!(PShared { a: Arc<PSec>, b: [PSec; 2], c: Option<Arc<PEnumRaw>>, d: Vec<[PTup; 1]>, e: (Arc<PTup>, [PEnumRaw; 2]) });
st!(PShared2 { a: Arc<Vec<PSec>>, b: Arc<(u8, PTup)>, c: [Option<PSec>; 2], d: Arc<PTree>, e: [BTreeMap<u8, PSec>; 1], f: Arc<[PSec; 1]> });
st!(PTree { n: u8, #[facet(sensitive)] s: String, kids: Vec<PTree>, e: Option<Vec<PTree>> }, |f| hide(f, &[1]));
st!(PZst { a: Vec<Unit0>, b: PZst1, c: Unit0, d: Vec<()> });
st!(PZst1 { u: Unit0, c: PZst2, z: Vec<ZTok> });
st!(PZst2 { v: Vec<Unit0>, w: Vec<Vec<Unit0>>, u: Unit0, z: Vec<Vec<ZTok>>, e: Option<Vec<()>> });
st!(PShow { a: Vec<u8>, b: Vec<Vec<u8>>, c: Arc<Tok>, d: [u16; 3], e: Option<Arc<JSub>>, f: Vec<[Tok; 2]>, g: HashMap<u8, Tok>, h: () });
pdocs!(secret_docs: PSec, PDocd, PKinds, PTup, PBare, PEnumRaw, PHolds, PShared, PShared2, PTree, PEnumRaw, Vec<PSec>, Option<PEnumRaw>, Vec<PEnumRaw>, HashMap<String, PSec>, (PSec, PTup), [PSec; 2], Arc<PSec>,
    Arc<PEnumRaw>, [PEnumRaw; 1], Vec<PBare>, [PBare; 2], Arc<PBare>, &'static [PSec], Option<Option<PDocd>>, PMarks, [PMarks; 2], PGen<Tok>, PGen<PSec>, PEnumC, Arc<PEnumC>, PKeys, PKeys, HashMap<PKey, u8>, [HashMap<PKey, Tok>; 1], Arc<BTreeMap<PKey, PKey>>);
pdocs!(pretty_docs: JFlat, JInts, JWide, JFloats, JRename, JOpts, JNest, JTok, JTree, JTokTree, JStrs, JChars, JHold, WEnum, WEnums, WMaps, WMixed, TEnums, TNet, TWraps, TMapTree,
    PSec, PDocd, PKinds, PTup, PBare, PEnumRaw, PHolds, PTree, PMarks, PGen<Tok>, PEnumC, crate::uni::CHold, crate::uni::CWide, crate::uni::GenHold, PZst, PZst, PShow, Unit0, E8, Chain, Cows, NonZeros, M17,
    u8, f64, bool, String, char, Tok, (), ZTok, Vec<u8>, Vec<Tok>, Vec<Vec<Tok>>, Option<Tok>, Option<Option<u8>>, (u8, String), [Tok; 3], Arc<Tok>, HashMap<Tok, u8>, Vec<Unit0>, &'static [u32], Vec<String>);
