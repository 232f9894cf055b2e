//! What each type natively offers: the reference for everything done type-erased.
use crate::model::{FieldTy, Kind, Ty, TyRef, Uni, Val, ty};
use crate::tok::{Tok, ZTok};
use crate::uni::*;
use std::any::TypeId;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::num::NonZero;
use std::path::PathBuf;
use facet_core::Opaque;
use std::sync::{Arc, Mutex, Weak};

type P = *const u8;
pub struct Nat {
    pub ty: TyRef,
    pub clone: Option<unsafe fn(P, *mut u8)>,
    pub default: Option<unsafe fn(*mut u8)>,
    pub eq: Option<unsafe fn(P, P) -> bool>,
    pub pcmp: Option<unsafe fn(P, P) -> Option<Ordering>>,
    pub cmp: Option<unsafe fn(P, P) -> Ordering>,
    pub hash: Option<unsafe fn(P) -> Vec<u8>>,
    pub debug: Option<unsafe fn(P, u8) -> String>,
    pub display: Option<unsafe fn(P, u8) -> String>,
    pub parse: Option<unsafe fn(&str, *mut u8) -> bool>,
    /// Eq, Send, Sync, Copy, Unpin
    pub marks: [bool; 5],
    /// every operation of the native type is offered, none else
    pub strict: bool,
}

#[derive(Default)]
pub struct Bytes(pub Vec<u8>);
impl Hasher for Bytes {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}

pub struct D<T>(PhantomData<T>);
macro_rules! det {
    ($no:ident $c:ident : $t:ty, $($b:tt)*) => {
        pub trait $no { const $c: Option<$t> = None; }
        impl<T> $no for D<T> {}
        det!(@ $c : $t, $($b)*);
    };
    (@ $c:ident : $t:ty, [$($bound:tt)*] $e:expr) => {
        impl<T: $($bound)*> D<T> { pub const $c: Option<$t> = Some($e); }
    };
}
det!(NoClone CLONE: unsafe fn(P, *mut u8), [Clone] |a, b| unsafe { (b as *mut T).write((*(a as *const T)).clone()) });
det!(NoDefault DEFAULT: unsafe fn(*mut u8), [Default] |b| unsafe { (b as *mut T).write(T::default()) });
det!(NoEq EQ: unsafe fn(P, P) -> bool, [PartialEq] |a, b| unsafe { *(a as *const T) == *(b as *const T) });
det!(NoPcmp PCMP: unsafe fn(P, P) -> Option<Ordering>, [PartialOrd] |a, b| unsafe { (*(a as *const T)).partial_cmp(&*(b as *const T)) });
det!(NoCmp CMP: unsafe fn(P, P) -> Ordering, [Ord] |a, b| unsafe { (*(a as *const T)).cmp(&*(b as *const T)) });
det!(NoHash HASH: unsafe fn(P) -> Vec<u8>, [Hash] |a| unsafe {
    let mut h = Bytes::default();
    (*(a as *const T)).hash(&mut h);
    h.0
});
det!(NoDebug DEBUG: unsafe fn(P, u8) -> String, [fmt::Debug] |a, o| unsafe { debug_opt(&*(a as *const T), o) });
det!(NoDisplay DISPLAY: unsafe fn(P, u8) -> String, [fmt::Display] |a, o| unsafe { display_opt(&*(a as *const T), o) });
det!(NoParse PARSE: unsafe fn(&str, *mut u8) -> bool, [std::str::FromStr] |s, b| unsafe {
    match s.parse::<T>() {
        Ok(v) => {
            (b as *mut T).write(v);
            true
        }
        Err(_) => false,
    }
});
det!(NoMEq MEQ: (), [Eq] ());
det!(NoMSend MSEND: (), [Send] ());
det!(NoMSync MSYNC: (), [Sync] ());
det!(NoMCopy MCOPY: (), [Copy] ());
det!(NoMUnpin MUNPIN: (), [Unpin] ());

pub fn debug_opt(v: &impl fmt::Debug, o: u8) -> String {
    match o {
        0 => text(format_args!("{v:?}")),
        1 => text(format_args!("{v:#?}")),
        2 => text(format_args!("{v:>9?}")),
        _ => text(format_args!("{v:+08.2?}")),
    }
}
/// the text, also when user code refuses to print
pub fn text(a: fmt::Arguments) -> String {
    let mut s = String::new();
    if fmt::write(&mut s, a).is_err() {
        s.push_str("<error>");
    }
    s
}
pub fn display_opt(v: &impl fmt::Display, o: u8) -> String {
    match o {
        0 => text(format_args!("{v}")),
        1 => text(format_args!("{v:#}")),
        2 => text(format_args!("{v:*>9}")),
        _ => text(format_args!("{v:+08.2}")),
    }
}

macro_rules! nat {
    ($t:ty, $strict:expr) => {
        Nat {
            ty: ty::<$t>,
            clone: D::<$t>::CLONE,
            default: D::<$t>::DEFAULT,
            eq: D::<$t>::EQ,
            pcmp: D::<$t>::PCMP,
            cmp: D::<$t>::CMP,
            hash: D::<$t>::HASH,
            debug: D::<$t>::DEBUG,
            display: D::<$t>::DISPLAY,
            parse: D::<$t>::PARSE,
            marks: [D::<$t>::MEQ.is_some(), D::<$t>::MSEND.is_some(), D::<$t>::MSYNC.is_some(), D::<$t>::MCOPY.is_some(), D::<$t>::MUNPIN.is_some()],
            strict: $strict,
        }
    };
}

// borrowed kinds: their referents are interned once and never freed
static INTERN: Mutex<Option<HashMap<(TypeId, String), usize>>> = Mutex::new(None);

fn intern<T: 'static>(key: impl FnOnce() -> String, mk: impl FnOnce() -> T) -> &'static T {
    crate::alloc::off(|| {
        let key = key();
        let mut g = INTERN.lock().unwrap();
        let p = *g.get_or_insert_with(HashMap::new).entry((TypeId::of::<T>(), key)).or_insert_with(|| Box::leak(Box::new(mk())) as *const T as usize);
        unsafe { &*(p as *const T) }
    })
}

impl Uni for &'static str {
    const NAME: &'static str = "&str";
    fn kind() -> Kind {
        Kind::Str
    }
    fn to_val(&self) -> Val {
        Val::Str(self.to_string())
    }
    fn from_val(v: &Val) -> Self {
        let Val::Str(s) = v else { panic!("model mismatch") };
        intern(|| s.clone(), || s.clone()).as_str()
    }
}
impl Uni for PathBuf {
    const NAME: &'static str = "PathBuf";
    fn kind() -> Kind {
        Kind::Str
    }
    fn to_val(&self) -> Val {
        Val::Str(self.to_str().unwrap().to_string())
    }
    fn from_val(v: &Val) -> Self {
        let Val::Str(s) = v else { panic!("model mismatch") };
        PathBuf::from(s.clone())
    }
}
impl Uni for &'static std::path::Path {
    const NAME: &'static str = "&Path";
    fn kind() -> Kind {
        Kind::Str
    }
    fn to_val(&self) -> Val {
        Val::Str(self.to_str().unwrap().to_string())
    }
    fn from_val(v: &Val) -> Self {
        let Val::Str(s) = v else { panic!("model mismatch") };
        std::path::Path::new(intern(|| s.clone(), || s.clone()))
    }
}
impl<T: Uni + PartialEq> Uni for &'static [T] {
    const NAME: &'static str = "slice";
    fn kind() -> Kind {
        Kind::Slice(ty::<T>)
    }
    fn to_val(&self) -> Val {
        Val::List(self.iter().map(|x| x.to_val()).collect())
    }
    fn from_val(v: &Val) -> Self {
        let Val::List(o) = v else { panic!("model mismatch") };
        intern::<Vec<T>>(|| format!("{o:?}"), || o.iter().map(|x| T::from_val(x)).collect()).as_slice()
    }
}
impl<T: 'static> Uni for PhantomData<T> {
    const NAME: &'static str = "PhantomData";
    fn kind() -> Kind {
        Kind::Unit
    }
    fn to_val(&self) -> Val {
        Val::Unit
    }
    fn from_val(_: &Val) -> Self {
        PhantomData
    }
}
impl<K: Uni + Eq + Hash, V: Uni> Uni for HashMap<K, V, OtherState> {
    const NAME: &'static str = "HashMapS";
    fn kind() -> Kind {
        Kind::Map { key: ty::<K>, val: ty::<V> }
    }
    fn to_val(&self) -> Val {
        Val::sort_maps(self.iter().map(|(k, v)| (k.to_val(), v.to_val())).collect())
    }
    fn from_val(v: &Val) -> Self {
        let Val::Map(o) = v else { panic!("model mismatch") };
        let mut r = HashMap::default();
        for (k, x) in o {
            r.insert(K::from_val(k), V::from_val(x));
        }
        r
    }
}
impl<T: Uni> Uni for Weak<T> {
    const NAME: &'static str = "Weak";
    fn kind() -> Kind {
        Kind::Weak
    }
    fn to_val(&self) -> Val {
        Val::Unit
    }
    fn from_val(_: &Val) -> Self {
        Weak::new()
    }
}

/// A build-hasher that is neither zero-sized nor as big as the default one.
#[derive(facet::Facet, Clone, Debug)]
pub struct OtherState {
    pub k: u8,
}
impl Default for OtherState {
    fn default() -> Self {
        OtherState { k: 5 }
    }
}
impl std::hash::BuildHasher for OtherState {
    type Hasher = std::hash::DefaultHasher;
    fn build_hasher(&self) -> Self::Hasher {
        let mut h = std::hash::DefaultHasher::new();
        h.write_u8(self.k);
        h
    }
}

/// Derived types with more of the standard traits.
#[derive(facet::Facet, Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Rich {
    pub a: u16,
    pub b: String,
    pub t: Tok,
    pub v: Vec<u8>,
}
crate::uni_struct!(Rich, "Rich" => { a, b, t, v });
#[derive(facet::Facet, Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(u8)]
pub enum RichE {
    A,
    B(u32, Tok),
    C { x: String },
}
crate::uni_enum!(RichE, "RichE" => { A {}, B { 0, 1 }, C { x } });
#[derive(facet::Facet, Debug, Clone, Copy, PartialEq, PartialOrd, Default)]
pub struct Point {
    pub x: f64,
    pub y: f32,
    pub z: i8,
}
crate::uni_struct!(Point, "Point" => { x, y, z });
/// nothing but the description
#[derive(facet::Facet)]
pub struct Bare {
    pub a: Tok,
    pub b: u32,
}
crate::uni_struct!(Bare, "Bare" => { a, b });
/// some of the traits, not all
macro_rules! only {
    ($($n:ident [$($d:ident),*])*) => { $(
        #[derive(facet::Facet, $($d),*)]
        pub struct $n {
            pub a: Tok,
            pub b: u32,
        }
        crate::uni_struct!($n, stringify!($n) => { a, b });
    )* };
}
only! {
    OnlyDebug [Debug]
    OnlyClone [Clone]
    OnlyEq [PartialEq]
    OnlyOrd [PartialEq, PartialOrd]
    OnlyDefault [Default]
    OnlyHash [Hash]
    KeyBare [PartialEq, Eq, Hash, PartialOrd, Ord]
    KeyClone [Clone, PartialEq, Eq, Hash, PartialOrd, Ord]
    KeyDebug [Debug, PartialEq, Eq, Hash, PartialOrd, Ord]
    NotDebug [Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default]
    NotEq [Debug, Clone, Hash, Default]
}
/// stays on its thread
#[derive(facet::Facet, Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Local {
    pub a: Tok,
    pub p: PhantomData<std::ptr::NonNull<u32>>,
}
crate::uni_struct!(Local, "Local" => { a, p });
/// with a part that is not described
#[derive(facet::Facet, Debug, Clone, PartialEq)]
pub struct OpqHold {
    pub a: Tok,
    #[facet(opaque)]
    pub p: Arc<Tok>,
    pub b: Tok,
}
impl Uni for Opaque<Arc<Tok>> {
    const NAME: &'static str = "Opaque";
    fn kind() -> Kind {
        Kind::Ptr(ty::<Tok>)
    }
    fn to_val(&self) -> Val {
        unsafe { (*(self as *const Self as *const Arc<Tok>)).to_val() }
    }
    fn from_val(_: &Val) -> Self {
        unreachable!()
    }
}
impl Uni for OpqHold {
    const NAME: &'static str = "OpqHold";
    fn kind() -> Kind {
        Kind::Struct { tuple: false, fields: vec![crate::model::ft("a", ty::<Tok>), crate::model::ft("p", ty::<Opaque<Arc<Tok>>>), crate::model::ft("b", ty::<Tok>)] }
    }
    fn to_val(&self) -> Val {
        Val::Struct(vec![self.a.to_val(), self.p.to_val(), self.b.to_val()])
    }
    fn from_val(v: &Val) -> Self {
        let Val::Struct(x) = v else { panic!("model mismatch") };
        OpqHold { a: Uni::from_val(&x[0]), p: Uni::from_val(&x[1]), b: Uni::from_val(&x[2]) }
    }
}
/// a pointer that owns nothing: its referent is interned
impl<T: Uni> Uni for std::ptr::NonNull<T> {
    const NAME: &'static str = "NonNull";
    fn kind() -> Kind {
        Kind::Ptr(ty::<T>)
    }
    fn to_val(&self) -> Val {
        Val::Ptr(Box::new(unsafe { self.as_ref() }.to_val()))
    }
    fn from_val(v: &Val) -> Self {
        let Val::Ptr(o) = v else { panic!("model mismatch") };
        intern::<T>(|| format!("{o:?}"), || T::from_val(o)).into()
    }
}
/// orders and equates in its own way
#[derive(facet::Facet, Debug, Clone)]
pub struct Own {
    pub a: u32,
    pub b: Tok,
}
crate::uni_struct!(Own, "Own" => { a, b });
impl PartialEq for Own {
    fn eq(&self, o: &Self) -> bool {
        self.a % 3 == o.a % 3
    }
}
impl PartialOrd for Own {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        if self.a > 1000 { None } else { o.a.partial_cmp(&self.a) }
    }
}
impl fmt::Display for Own {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad(&format!("own{}", self.a))
    }
}
impl std::str::FromStr for Own {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        Ok(Own { a: s.len() as u32, b: s.parse().map_err(|_| ())? })
    }
}

pub fn all() -> &'static [Nat] {
    static A: std::sync::OnceLock<Vec<Nat>> = std::sync::OnceLock::new();
    crate::alloc::off(|| {
        A.get_or_init(|| {
            macro_rules! nz { ($($t:ty)*) => { vec![$( nat!($t, true), nat!(NonZero<$t>, true) ),*] } }
            let mut v = nz!(u8 i8 u16 i16 u32 i32 u64 i64 usize isize i128);
            v.extend([
                nat!(u128, true), nat!(NonZero<u128>, true), nat!(NZWide, true), nat!(Net, true), nat!(Paths, true), nat!(f32, true), nat!(f64, true), nat!(bool, true), nat!(char, true), nat!((), true),
                nat!(String, true), nat!(&'static str, true), nat!(std::borrow::Cow<'static, str>, true),
                nat!(PathBuf, true), nat!(&'static std::path::Path, true), nat!(PhantomData<u32>, false),
                nat!(Tok, true), nat!(ZTok, true),
                nat!(Rich, true), nat!(RichE, true), nat!(Point, true), nat!(Bare, true), nat!(Own, true),
                nat!(Flat, true), nat!(TwoTok, true), nat!(Nest, true), nat!(Pair, true), nat!(Pair2, true), nat!(Unit0, true), nat!(Zst, true),
                nat!(E8, true), nat!(Neg, true), nat!(Plain, true), nat!(PlainNeg, true),
                nat!(EU16, true), nat!(EU32, true), nat!(EU64, true), nat!(EI16, true), nat!(EI32, true), nat!(EI64, true), nat!(EUs, true), nat!(EIs, true), nat!(EC, true),
                nat!(Lists, true), nat!(Maps, true), nat!(TokMaps, true), nat!(Tuples, true), nat!(Arrs, true), nat!(Arcs, true), nat!(Opts, true), nat!(Tree, true), nat!(Nums, true), nat!(Align, true),
                nat!(WithDrop, true), nat!(ENest, true), nat!(EColl, true), nat!(NestE, true), nat!(Mixed, true), nat!(Gen1<E8>, false),
                nat!(Vec<Tok>, false), nat!(Vec<u32>, false), nat!(Vec<String>, false), nat!(Vec<Rich>, false), nat!(Vec<Vec<Tok>>, false), nat!(Vec<f64>, false), nat!(Vec<ZTok>, false), nat!(Vec<Bare>, false), nat!(Vec<u8>, false), nat!(Vec<(Tok, u32)>, false), nat!(Vec<[Tok; 2]>, false),
                nat!(Option<Tok>, false), nat!(Option<Option<Tok>>, false), nat!(Option<u32>, false), nat!(Option<Vec<Tok>>, false), nat!(Option<Rich>, false), nat!(Option<Arc<Tok>>, false), nat!(Option<Bare>, false),
                nat!(HashMap<String, Tok>, false), nat!(HashMap<Tok, Tok>, false), nat!(HashMap<u32, String>, false), nat!(HashMap<Pair2, Vec<Tok>>, false), nat!(HashMap<String, Tok, OtherState>, false), nat!(HashMap<Tok, f64>, false),
                nat!(BTreeMap<String, Tok>, false), nat!(BTreeMap<Tok, Tok>, false), nat!(BTreeMap<i16, Rich>, false), nat!(BTreeMap<Plain, Vec<Tok>>, false), nat!(BTreeMap<Tok, Bare>, false),
                nat!([Tok; 3], false), nat!([u16; 4], false), nat!([String; 2], false), nat!([Tok; 0], false), nat!([Point; 2], false), nat!([u8; 40], false), nat!([[Tok; 2]; 2], false), nat!([ZTok; 3], false), nat!([Tok; 1], false), nat!([u32; 32], false), nat!([Bare; 0], false), nat!([Bare; 1], false), nat!([f64; 1], false), nat!(Vec<[String; 1]>, false),
                nat!(KeyBare, true), nat!(OnlyDebug, true), nat!(OnlyClone, true), nat!(OnlyEq, true), nat!(OnlyOrd, true), nat!(OnlyDefault, true), nat!(OnlyHash, true), nat!(NotDebug, true), nat!(NotEq, true), nat!(Local, true), nat!(OpqHold, true),
                nat!(std::ptr::NonNull<u32>, true), nat!(std::ptr::NonNull<String>, true),
                nat!(HashMap<KeyBare, Tok>, false), nat!(HashMap<KeyClone, OnlyDebug>, false), nat!(HashMap<KeyDebug, OnlyClone>, false), nat!(HashMap<String, KeyBare>, false), nat!(HashMap<NotDebug, NotEq>, false), nat!(HashMap<Local, u8>, false), nat!(HashMap<u8, Local>, false),
                nat!(BTreeMap<KeyBare, Tok>, false), nat!(BTreeMap<KeyClone, OnlyDebug>, false), nat!(BTreeMap<KeyDebug, OnlyClone>, false), nat!(BTreeMap<String, KeyBare>, false), nat!(BTreeMap<NotDebug, NotEq>, false), nat!(BTreeMap<Local, u8>, false), nat!(BTreeMap<u8, Local>, false),
                nat!(Vec<OnlyDebug>, false), nat!(Option<OnlyDebug>, false), nat!([OnlyDebug; 2], false), nat!((OnlyDebug, Tok), false), nat!((u8, OnlyDebug, Tok), false), nat!(Vec<OnlyClone>, false), nat!(Option<OnlyClone>, false), nat!([OnlyClone; 2], false), nat!((OnlyClone, Tok), false), nat!((u8, OnlyClone, Tok), false), nat!(Vec<OnlyEq>, false), nat!(Option<OnlyEq>, false), nat!([OnlyEq; 2], false), nat!((OnlyEq, Tok), false), nat!((u8, OnlyEq, Tok), false), nat!(Vec<OnlyOrd>, false), nat!(Option<OnlyOrd>, false), nat!([OnlyOrd; 2], false), nat!((OnlyOrd, Tok), false), nat!((u8, OnlyOrd, Tok), false), nat!(Vec<OnlyDefault>, false), nat!(Option<OnlyDefault>, false), nat!([OnlyDefault; 2], false), nat!((OnlyDefault, Tok), false), nat!((u8, OnlyDefault, Tok), false), nat!(Vec<OnlyHash>, false), nat!(Option<OnlyHash>, false), nat!([OnlyHash; 2], false), nat!((OnlyHash, Tok), false), nat!((u8, OnlyHash, Tok), false), nat!(Vec<NotDebug>, false), nat!(Option<NotDebug>, false), nat!([NotDebug; 2], false), nat!((NotDebug, Tok), false), nat!((u8, NotDebug, Tok), false), nat!(Vec<NotEq>, false), nat!(Option<NotEq>, false), nat!([NotEq; 2], false), nat!((NotEq, Tok), false), nat!((u8, NotEq, Tok), false), nat!(Vec<Local>, false), nat!(Option<Local>, false), nat!([Local; 2], false), nat!((Local, Tok), false), nat!((u8, Local, Tok), false),
                nat!(std::net::IpAddr, true), nat!(std::net::Ipv4Addr, true), nat!(std::net::Ipv6Addr, true), nat!(std::net::SocketAddr, true),
                nat!(&'static [u32], false), nat!(&'static [String], false), nat!(&'static [Point], false), nat!(&'static [u8], false),
                nat!((Tok,), false), nat!((Tok, u32), false), nat!((String, Tok, u8), false), nat!((f64, Tok, Option<Tok>, u8), false), nat!((Tok, (Tok, Tok), u64, bool, Tok), false), nat!((Bare, u8), false),
                nat!((u8, Tok, u16, Tok, u32, Tok), false), nat!((u8, Tok, u16, Tok, u32, Tok, u64), false), nat!((u8, Tok, u16, Tok, u32, Tok, u64, u8), false),
                nat!((u8, Tok, u16, Tok, u32, Tok, u64, u8, Tok), false), nat!((u8, Tok, u16, Tok, u32, Tok, u64, u8, Tok, String), false), nat!((u8, Tok, u16, Tok, u32, Tok, u64, u8, Tok, String, i8), false),
                nat!((u8, Tok, u16, Tok, u32, Tok, u64, u8, Tok, String, i8, Tok), false),
                nat!(Arc<Tok>, false), nat!(Arc<TwoTok>, false), nat!(Arc<String>, false), nat!(Arc<Vec<Tok>>, false), nat!(Weak<Tok>, false), nat!(Weak<String>, false),
            ]);
            v
        })
    })
}

/// Operations the description of a container is expected to pass on from its parts.
pub fn passed_on(t: &Ty) -> &'static [&'static str] {
    match (&t.kind, t.name) {
        (Kind::List(_), _) => &["debug", "eq", "hash", "clone", "default"],
        (Kind::Map { .. }, _) => &["debug", "eq", "clone", "default"],
        (Kind::Array(..), _) => &["debug", "eq", "pcmp", "cmp", "hash", "clone", "default"],
        (Kind::Slice(_), _) => &["debug", "eq", "pcmp", "cmp", "hash", "clone", "default"],
        (Kind::Opt(_), _) => &["debug", "default"],
        (Kind::Ptr(_), _) => &["clone"],
        (Kind::Weak, _) => &["clone", "default", "debug"],
        (Kind::Struct { .. }, n) if n.starts_with("tuple") => &["debug", "eq"],
        (Kind::Unit, _) => &["debug", "eq", "pcmp", "cmp", "hash", "clone", "default"],
        _ => &[],
    }
}

/// the parts whose operations a container needs for its own
pub fn parts(t: &Ty) -> Vec<&'static Ty> {
    match &t.kind {
        Kind::List(i) | Kind::Array(i, _) | Kind::Slice(i) | Kind::Opt(i) => vec![i()],
        Kind::Map { key, val } => vec![key(), val()],
        Kind::Struct { fields, .. } if t.name.starts_with("tuple") => fields.iter().map(|f: &FieldTy| (f.ty)()).collect(),
        _ => vec![],
    }
}

/// the discriminants the compiler gives
pub fn discriminants(t: &Ty) -> Option<Vec<i64>> {
    Some(match t.name {
        "E8" | "EC" | "RichE" => match &t.kind {
            Kind::Enum { variants } => (0..variants.len() as i64).collect(),
            _ => return None,
        },
        "Neg" => vec![5, 120, 0, 127],
        "EU16" => EU16::DISC.to_vec(),
        "EU32" => EU32::DISC.to_vec(),
        "EU64" => EU64::DISC.to_vec(),
        "EI16" => EI16::DISC.to_vec(),
        "EI32" => EI32::DISC.to_vec(),
        "EI64" => EI64::DISC.to_vec(),
        "EUs" => EUs::DISC.to_vec(),
        "EIs" => EIs::DISC.to_vec(),
        "CTag" => CTag::DISC.to_vec(),
        "CPlain" => CPlain::DISC.to_vec(),
        "CWide" => CWide::DISC.to_vec(),
        "CI16" => CI16::DISC.to_vec(),
        "CU64" => CU64::DISC.to_vec(),
        "Plain" => vec![1, 300, 65535],
        "PlainNeg" => vec![0, 4294967301, 9223372036854775806],
        _ => return None,
    })
}
