//! The reference side: a small dynamic value model, independent of facet, and the native
//! conversion between it and the real Rust types of the universe.
use crate::rng::Ch;
use crate::tok::{Tok, ZTok};
use facet_core::{Facet, Shape};
use facet_reflect::{HeapValue, ReflectError, Wip};
use std::any::TypeId;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq, PartialOrd)]
pub enum Val {
    Unit,
    Bool(bool),
    Int(i128),
    UInt(u128),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Tok(u32),
    ZTok,
    Struct(Vec<Val>),
    Enum(usize, Vec<Val>),
    Opt(Option<Box<Val>>),
    List(Vec<Val>),
    Map(Vec<(Val, Val)>),
    Ptr(Box<Val>),
}

impl Val {
    pub fn sort_maps(mut v: Vec<(Val, Val)>) -> Val {
        v.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        Val::Map(v)
    }
    pub fn size(&self) -> usize {
        match self {
            Val::Struct(v) | Val::Enum(_, v) | Val::List(v) => 1 + v.iter().map(|x| x.size()).sum::<usize>(),
            Val::Opt(Some(v)) | Val::Ptr(v) => 1 + v.size(),
            Val::Map(m) => 1 + m.iter().map(|(k, v)| k.size() + v.size()).sum::<usize>(),
            Val::Str(s) => 1 + s.len() / 8,
            _ => 1,
        }
    }
    pub fn short(&self) -> String {
        let s = format!("{self:?}");
        if s.len() > 300 { format!("{}…", s.chars().take(300).collect::<String>()) } else { s }
    }
}

pub type TyRef = fn() -> &'static Ty;

#[derive(Clone)]
pub struct FieldTy {
    pub name: &'static str,
    pub ty: TyRef,
    pub rename: Option<&'static str>,
    /// value used when the field is missing from a document
    pub default: Option<fn() -> Val>,
    pub sensitive: bool,
}

impl FieldTy {
    pub fn key(&self) -> &'static str {
        self.rename.unwrap_or(self.name)
    }
}

pub struct VarTy {
    pub name: &'static str,
    pub tuple: bool,
    pub fields: Vec<FieldTy>,
}

pub enum Kind {
    Unit,
    Bool,
    Int { bits: u32, signed: bool, nonzero: bool },
    F32,
    F64,
    Char,
    Str,
    /// a network address: the value is its canonical text
    Addr,
    Tok,
    ZTok,
    Struct { tuple: bool, fields: Vec<FieldTy> },
    Enum { variants: Vec<VarTy> },
    Opt(TyRef),
    List(TyRef),
    Map { key: TyRef, val: TyRef },
    Array(TyRef, usize),
    Slice(TyRef),
    Ptr(TyRef),
    Weak,
}

pub struct Ops {
    pub shape: &'static Shape,
    pub size: usize,
    pub align: usize,
    pub alloc: fn() -> Wip<'static>,
    pub put: fn(Wip<'static>, &Val) -> Result<Wip<'static>, ReflectError>,
    /// materialise as this type and convert (destroying the native value)
    pub mat: fn(HeapValue<'static>) -> Result<Val, ReflectError>,
    pub emplace: unsafe fn(*mut u8, &Val),
    pub read: unsafe fn(*const u8) -> Val,
    pub drop: unsafe fn(*mut u8),
}

pub struct Ty {
    pub name: &'static str,
    pub kind: Kind,
    pub ops: Ops,
    pub deny_unknown: bool,
    /// value supplying the missing fields of a document
    pub default_val: Option<fn() -> Val>,
    /// what `Default` gives, for structs and enums that have one
    pub std_default: Option<fn() -> Val>,
    pub invariant: Option<fn(&Val) -> bool>,
}

pub trait Uni: Facet + Sized + 'static {
    const NAME: &'static str;
    fn kind() -> Kind;
    fn to_val(&self) -> Val;
    fn from_val(v: &Val) -> Self;
    fn deny_unknown() -> bool {
        false
    }
    fn default_val() -> Option<fn() -> Val> {
        None
    }
    fn std_default() -> Option<fn() -> Val> {
        Self::default_val()
    }
    fn invariant() -> Option<fn(&Val) -> bool> {
        None
    }
}

pub fn ft(name: &'static str, ty: TyRef) -> FieldTy {
    FieldTy { name, ty, rename: None, default: None, sensitive: false }
}

static TYS: Mutex<Option<HashMap<TypeId, &'static Ty>>> = Mutex::new(None);

pub fn ty<T: Uni>() -> &'static Ty {
    crate::alloc::off(|| {
        if let Some(t) = TYS.lock().unwrap().get_or_insert_with(HashMap::new).get(&TypeId::of::<T>()) {
            return *t;
        }
        let t: &'static Ty = Box::leak(Box::new(Ty {
            name: T::NAME,
            kind: T::kind(),
            deny_unknown: T::deny_unknown(),
            default_val: T::default_val(),
            std_default: T::std_default(),
            invariant: T::invariant(),
            ops: Ops {
                shape: T::SHAPE,
                size: size_of::<T>(),
                align: align_of::<T>(),
                alloc: || Wip::alloc::<T>(),
                put: |w, v| w.put::<T>(T::from_val(v)),
                mat: |h| {
                    let t = h.materialize::<T>()?;
                    let v = crate::alloc::off(|| t.to_val());
                    drop(t);
                    Ok(v)
                },
                emplace: |p, v| unsafe { (p as *mut T).write(T::from_val(v)) },
                read: |p| unsafe { crate::alloc::off(|| (*(p as *const T)).to_val()) },
                drop: |p| unsafe { std::ptr::drop_in_place(p as *mut T) },
            },
        }));
        TYS.lock().unwrap().as_mut().unwrap().insert(TypeId::of::<T>(), t);
        t
    })
}

pub fn fty<S, T: Uni>(_: fn(&S) -> &T) -> TyRef {
    ty::<T>
}

#[macro_export]
macro_rules! uni_struct {
    ($t:ty, $name:expr => { $($f:tt),* $(,)? } $(, $attr:expr)? $(; $($extra:item)*)?) => {
        impl $crate::model::Uni for $t {
            const NAME: &'static str = $name;
            fn kind() -> $crate::model::Kind {
                #[allow(unused_mut)]
                let mut fields: Vec<$crate::model::FieldTy> = vec![$( $crate::model::FieldTy {
                    name: stringify!($f),
                    ty: $crate::model::fty(|s: &$t| &s.$f),
                    rename: None, default: None, sensitive: false,
                } ),*];
                $( { let f: fn(&mut Vec<$crate::model::FieldTy>) = $attr; f(&mut fields); } )?
                let tuple = fields.first().map_or(false, |f| f.name.parse::<usize>().is_ok());
                $crate::model::Kind::Struct { tuple, fields }
            }
            fn to_val(&self) -> $crate::model::Val {
                $crate::model::Val::Struct(vec![$( $crate::model::Uni::to_val(&self.$f) ),*])
            }
            #[allow(unused_mut, unused_variables)]
            fn from_val(v: &$crate::model::Val) -> Self {
                let $crate::model::Val::Struct(x) = v else { panic!("model mismatch") };
                let mut it = x.iter();
                Self { $( $f: $crate::model::Uni::from_val(it.next().unwrap()) ),* }
            }
            $($($extra)*)?
        }
    };
}

#[macro_export]
macro_rules! uni_enum {
    ($t:ty, $name:expr => $b:tt $(; $($extra:item)*)?) => {
        $crate::uni_enum_body!([impl $crate::model::Uni for $t] [const NAME: &'static str = $name; $($($extra)*)?] $t => $b);
    };
}
#[macro_export]
macro_rules! uni_enum_as {
    ($tr:ident, $t:ty => $b:tt) => {
        $crate::uni_enum_body!([impl $tr for $t] [] $t => $b);
    };
}
#[macro_export]
macro_rules! uni_enum_body {
    ([$($head:tt)*] [$($name:tt)*] $t:ty => { $($v:ident { $($f:tt),* }),* $(,)? }) => {
        $($head)* {
            $($name)*
            #[allow(unreachable_patterns)]
            fn kind() -> $crate::model::Kind {
                $crate::model::Kind::Enum { variants: vec![ $( {
                    let fields: Vec<$crate::model::FieldTy> = vec![$( $crate::model::FieldTy {
                        name: stringify!($f),
                        ty: $crate::model::fty(|s: &$t| match s { Self::$v { $f: x, .. } => x, _ => unreachable!() }),
                        rename: None, default: None, sensitive: false,
                    } ),*];
                    $crate::model::VarTy {
                        name: stringify!($v),
                        tuple: fields.first().map_or(false, |f| f.name.parse::<usize>().is_ok()),
                        fields,
                    }
                } ),* ] }
            }
            #[allow(unreachable_patterns)]
            fn to_val(&self) -> $crate::model::Val {
                let names = [$( stringify!($v) ),*];
                $( if let Self::$v { .. } = self {
                    let i = names.iter().position(|n| *n == stringify!($v)).unwrap();
                    return $crate::model::Val::Enum(i, vec![$( match self { Self::$v { $f: x, .. } => $crate::model::Uni::to_val(x), _ => unreachable!() } ),*]);
                } )*
                unreachable!()
            }
            #[allow(unused_mut, unused_variables)]
            fn from_val(v: &$crate::model::Val) -> Self {
                let names = [$( stringify!($v) ),*];
                let $crate::model::Val::Enum(i, x) = v else { panic!("model mismatch") };
                let mut it = x.iter();
                $( if names[*i] == stringify!($v) {
                    return Self::$v { $( $f: $crate::model::Uni::from_val(it.next().unwrap()) ),* };
                } )*
                unreachable!()
            }
        }
    };
}

macro_rules! uni_int {
    ($($t:ident $bits:literal $signed:literal),*) => { $(
        impl Uni for $t {
            const NAME: &'static str = stringify!($t);
            fn kind() -> Kind { Kind::Int { bits: $bits, signed: $signed, nonzero: false } }
            fn to_val(&self) -> Val { Val::Int(*self as i128) }
            fn from_val(v: &Val) -> Self { let Val::Int(i) = v else { panic!("model mismatch") }; *i as $t }
        }
        impl Uni for std::num::NonZero<$t> {
            const NAME: &'static str = concat!("NonZero<", stringify!($t), ">");
            fn kind() -> Kind { Kind::Int { bits: $bits, signed: $signed, nonzero: true } }
            fn to_val(&self) -> Val { Val::Int(self.get() as i128) }
            fn from_val(v: &Val) -> Self { let Val::Int(i) = v else { panic!("model mismatch") }; Self::new(*i as $t).unwrap() }
        }
    )* };
}
uni_int!(u8 8 false, i8 8 true, u16 16 false, i16 16 true, u32 32 false, i32 32 true, u64 64 false, i64 64 true, usize 64 false, isize 64 true, i128 128 true);

impl Uni for u128 {
    const NAME: &'static str = "u128";
    fn kind() -> Kind {
        Kind::Int { bits: 128, signed: false, nonzero: false }
    }
    fn to_val(&self) -> Val {
        Val::UInt(*self)
    }
    fn from_val(v: &Val) -> Self {
        let Val::UInt(i) = v else { panic!("model mismatch") };
        *i
    }
}

impl Uni for std::num::NonZero<u128> {
    const NAME: &'static str = "NonZero<u128>";
    fn kind() -> Kind {
        Kind::Int { bits: 128, signed: false, nonzero: true }
    }
    fn to_val(&self) -> Val {
        Val::UInt(self.get())
    }
    fn from_val(v: &Val) -> Self {
        let Val::UInt(i) = v else { panic!("model mismatch") };
        Self::new(*i).unwrap()
    }
}

macro_rules! uni_simple {
    ($t:ty, $name:literal, $kind:expr, |$s:ident| $to:expr, |$v:ident| $from:expr) => {
        impl Uni for $t {
            const NAME: &'static str = $name;
            fn kind() -> Kind {
                $kind
            }
            fn to_val(&self) -> Val {
                let $s = self;
                $to
            }
            fn from_val($v: &Val) -> Self {
                $from
            }
        }
    };
}
uni_simple!((), "()", Kind::Unit, |_s| Val::Unit, |_v| ());
uni_simple!(bool, "bool", Kind::Bool, |s| Val::Bool(*s), |v| *v == Val::Bool(true));
uni_simple!(f32, "f32", Kind::F32, |s| Val::F32(s.to_bits()), |v| {
    let Val::F32(b) = v else { panic!("model mismatch") };
    f32::from_bits(*b)
});
uni_simple!(f64, "f64", Kind::F64, |s| Val::F64(s.to_bits()), |v| {
    let Val::F64(b) = v else { panic!("model mismatch") };
    f64::from_bits(*b)
});
uni_simple!(char, "char", Kind::Char, |s| Val::Char(*s), |v| {
    let Val::Char(b) = v else { panic!("model mismatch") };
    *b
});
uni_simple!(String, "String", Kind::Str, |s| Val::Str(s.clone()), |v| {
    let Val::Str(b) = v else { panic!("model mismatch") };
    b.clone()
});
uni_simple!(std::borrow::Cow<'static, str>, "Cow<str>", Kind::Str, |s| Val::Str(s.to_string()), |v| {
    let Val::Str(b) = v else { panic!("model mismatch") };
    std::borrow::Cow::Owned(b.clone())
});
uni_simple!(Tok, "Tok", Kind::Tok, |s| Val::Tok(s.label()), |v| {
    let Val::Tok(b) = v else { panic!("model mismatch") };
    Tok::new(*b)
});
uni_simple!(ZTok, "ZTok", Kind::ZTok, |_s| Val::ZTok, |_v| ZTok::new());

impl<T: Uni> Uni for Option<T> {
    const NAME: &'static str = "Option";
    fn kind() -> Kind {
        Kind::Opt(ty::<T>)
    }
    fn to_val(&self) -> Val {
        Val::Opt(self.as_ref().map(|x| Box::new(x.to_val())))
    }
    fn from_val(v: &Val) -> Self {
        let Val::Opt(o) = v else { panic!("model mismatch") };
        o.as_ref().map(|x| T::from_val(x))
    }
}
impl<T: Uni> Uni for Vec<T> {
    const NAME: &'static str = "Vec";
    fn kind() -> Kind {
        Kind::List(ty::<T>)
    }
    fn to_val(&self) -> Val {
        Val::List(self.iter().map(|x| x.to_val()).collect())
    }
    fn from_val(v: &Val) -> Self {
        let Val::List(o) = v else { panic!("model mismatch") };
        let mut r = Vec::new();
        for x in o {
            r.push(T::from_val(x));
        }
        r
    }
}
impl<T: Uni, const N: usize> Uni for [T; N] {
    const NAME: &'static str = "array";
    fn kind() -> Kind {
        Kind::Array(ty::<T>, N)
    }
    fn to_val(&self) -> Val {
        Val::List(self.iter().map(|x| x.to_val()).collect())
    }
    fn from_val(v: &Val) -> Self {
        let Val::List(o) = v else { panic!("model mismatch") };
        std::array::from_fn(|i| T::from_val(&o[i]))
    }
}
impl<T: Uni> Uni for Arc<T> {
    const NAME: &'static str = "Arc";
    fn kind() -> Kind {
        Kind::Ptr(ty::<T>)
    }
    fn to_val(&self) -> Val {
        Val::Ptr(Box::new((**self).to_val()))
    }
    fn from_val(v: &Val) -> Self {
        let Val::Ptr(o) = v else { panic!("model mismatch") };
        Arc::new(T::from_val(o))
    }
}
impl<K: Uni + Eq + std::hash::Hash, V: Uni> Uni for HashMap<K, V> {
    const NAME: &'static str = "HashMap";
    fn kind() -> Kind {
        Kind::Map { key: ty::<K>, val: ty::<V> }
    }
    fn to_val(&self) -> Val {
        Val::sort_maps(self.iter().map(|(k, v)| (k.to_val(), v.to_val())).collect())
    }
    fn from_val(v: &Val) -> Self {
        let Val::Map(o) = v else { panic!("model mismatch") };
        let mut r = HashMap::new();
        for (k, x) in o {
            r.insert(K::from_val(k), V::from_val(x));
        }
        r
    }
}
impl<K: Uni + Ord, V: Uni> Uni for BTreeMap<K, V> {
    const NAME: &'static str = "BTreeMap";
    fn kind() -> Kind {
        Kind::Map { key: ty::<K>, val: ty::<V> }
    }
    fn to_val(&self) -> Val {
        Val::sort_maps(self.iter().map(|(k, v)| (k.to_val(), v.to_val())).collect())
    }
    fn from_val(v: &Val) -> Self {
        let Val::Map(o) = v else { panic!("model mismatch") };
        let mut r = BTreeMap::new();
        for (k, x) in o {
            r.insert(K::from_val(k), V::from_val(x));
        }
        r
    }
}
macro_rules! uni_tuple {
    ($name:literal $($T:ident $i:tt),*) => {
        impl<$($T: Uni),*> Uni for ($($T,)*) {
            const NAME: &'static str = $name;
            fn kind() -> Kind {
                Kind::Struct { tuple: true, fields: vec![$( FieldTy { name: stringify!($i), ty: ty::<$T>, rename: None, default: None, sensitive: false } ),*] }
            }
            fn to_val(&self) -> Val { Val::Struct(vec![$( self.$i.to_val() ),*]) }
            fn from_val(v: &Val) -> Self {
                let Val::Struct(x) = v else { panic!("model mismatch") };
                ($( $T::from_val(&x[$i]), )*)
            }
        }
    };
}
uni_tuple!("tuple1" A 0);
uni_tuple!("tuple2" A 0, B 1);
uni_tuple!("tuple3" A 0, B 1, C 2);
uni_tuple!("tuple4" A 0, B 1, C 2, D 3);
uni_tuple!("tuple5" A 0, B 1, C 2, D 3, E 4);
uni_tuple!("tuple6" A 0, B 1, C 2, D 3, E 4, F 5);
uni_tuple!("tuple7" A 0, B 1, C 2, D 3, E 4, F 5, G 6);
uni_tuple!("tuple8" A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
uni_tuple!("tuple9" A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
uni_tuple!("tuple10" A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
uni_tuple!("tuple11" A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);
uni_tuple!("tuple12" A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);

/// How values are generated.
#[derive(Clone, Copy)]
pub struct Gen {
    /// only numbers and characters the text formats can carry
    pub finite: bool,
    pub max_len: usize,
    /// allow big strings and containers (length-class boundaries)
    pub big: bool,
    pub max_depth: usize,
    pub plain_strings: bool,
}

impl Default for Gen {
    fn default() -> Self {
        Gen { finite: true, max_len: 4, big: false, max_depth: 5, plain_strings: false }
    }
}

pub fn gen_int(ch: &mut Ch, bits: u32, signed: bool) -> i128 {
    let (lo, hi): (i128, i128) = match (bits, signed) {
        (128, true) => (i128::MIN, i128::MAX),
        (128, false) => (0, i128::MAX),
        (b, true) => (-(1i128 << (b - 1)), (1i128 << (b - 1)) - 1),
        (b, false) => (0, (1i128 << b) - 1),
    };
    let v = match ch.below(6) {
        0 => ch.below(10) as i128,
        1 => *ch.pick(&[lo, hi, hi - 1, lo + 1, 0]),
        2 => {
            let k = ch.below(bits as usize) as u32;
            let x = 1i128 << k.min(126);
            let x = x + ch.below(3) as i128 - 1;
            if ch.chance(1, 2) { -x } else { x }
        }
        3 => -(ch.below(300) as i128),
        4 => ch.below(70000) as i128,
        _ => {
            let x = ((ch.u64() as i128) << 64) | ch.u64() as i128;
            let range = hi.wrapping_sub(lo).wrapping_add(1);
            if range <= 0 { x } else { lo + x.rem_euclid(range) }
        }
    };
    v.clamp(lo, hi)
}

pub fn gen_str(ch: &mut Ch, g: &Gen) -> String {
    const CHARS: &[char] = &[
        'a', 'b', 'Z', '0', '9', ' ', '_', '-', '"', '\\', '/', '\n', '\r', '\t', '\u{8}', '\u{c}', '\u{0}', '\u{1}', '\u{1f}', '\u{7f}', '\u{80}', 'é', 'ß', '中', '\u{2028}', '\u{fffd}', '\u{ffff}', '😀', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '\u{10000}', '\u{103ff}', '\u{10fc00}', '{', '}', '[', ']', ':', ',', '\'', '#', '%', '&', '=', '+', '.', 'n', 'u', 'e', '<',
    ];
    if g.big && ch.chance(1, 4) {
        // a pattern over and over, with something else at some place
        let n = 1 + ch.below(8);
        let special = |ch: &mut Ch| if g.plain_strings { 'z' } else { *ch.pick(CHARS) };
        let unit: String = (0..n).map(|_| if ch.chance(1, 4) { special(ch) } else { (b'a' + ch.below(26) as u8) as char }).collect();
        let n = gen_size(ch, 5000);
        let mut s: Vec<char> = unit.chars().cycle().take(n).collect();
        for _ in 0..ch.below(4) {
            let at = gen_size(ch, n.max(2));
            let c = special(ch);
            s.insert(at.min(s.len()), c);
        }
        return s.into_iter().collect();
    }
    let n = match ch.below(8) {
        0 => 0,
        1..=5 => ch.below(6),
        6 => ch.below(40),
        _ => {
            if g.big {
                *ch.pick(&[31, 32, 33, 255, 256, 65535, 65536, 70000])
            } else {
                ch.below(20)
            }
        }
    };
    let mut s = String::new();
    if n > 100 {
        while s.len() < n {
            s.push((b'a' + (s.len() % 26) as u8) as char);
        }
        if !g.plain_strings && ch.chance(1, 2) {
            // more bytes than characters
            let mut at = ch.below(s.len());
            while !s.is_char_boundary(at) {
                at -= 1;
            }
            s.insert(at, *ch.pick(CHARS));
        }
        return s;
    }
    for _ in 0..n {
        if g.plain_strings {
            s.push((b'a' + ch.below(26) as u8) as char);
        } else if ch.chance(1, 2) {
            s.push(*ch.pick(CHARS));
        } else {
            s.push((b'a' + ch.below(26) as u8) as char);
        }
    }
    s
}

pub fn gen_f64(ch: &mut Ch, finite: bool) -> f64 {
    let x = match ch.below(7) {
        0 => ch.below(100) as f64,
        1 => *ch.pick(&[0.0, -0.0, 1.5, -2.25, 0.1, 1e300, -1e-300, 5e-324, f64::MAX, f64::MIN_POSITIVE, 9007199254740993.0, 1e21, 123456789.125]),
        2 => f64::from_bits(ch.u64()),
        3 => ch.below(1 << 30) as f64 / 1024.0,
        4 => -(ch.below(1000) as f64) / 10.0,
        5 => ch.u64() as f64,
        _ => *ch.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]),
    };
    if finite && !x.is_finite() { 2.5 } else { x }
}

/// A size of any magnitude up to `max`, often next to a power of two.
pub fn gen_size(ch: &mut Ch, max: usize) -> usize {
    let bits = ch.below(max.ilog2() as usize + 1);
    let p = 1usize << bits;
    let n = match ch.below(5) {
        0 => p - 1,
        1 => p,
        2 => p + 1,
        _ => p + ch.below(p),
    };
    n.min(max)
}

pub fn gen_len(ch: &mut Ch, g: &Gen) -> usize {
    if g.big && ch.chance(1, 6) {
        return *ch.pick(&[15, 16, 17, 255, 256, 300]);
    }
    if g.big && ch.chance(1, 4) {
        return gen_size(ch, 600);
    }
    ch.below(g.max_len + 1)
}

pub fn gen_val(t: &Ty, ch: &mut Ch, g: &Gen) -> Val {
    gen_at(t, ch, g, 0)
}

pub fn gen_at(t: &Ty, ch: &mut Ch, g: &Gen, depth: usize) -> Val {
    match &t.kind {
        Kind::Unit => Val::Unit,
        Kind::Bool => Val::Bool(ch.chance(1, 2)),
        Kind::Int { bits: 128, signed: false, nonzero } => {
            let v = if ch.chance(1, 4) { u128::MAX - ch.below(3) as u128 } else { gen_int(ch, 128, false) as u128 };
            Val::UInt(if *nonzero { v.max(1) } else { v })
        }
        Kind::Int { bits, signed, nonzero } => {
            let v = gen_int(ch, *bits, *signed);
            Val::Int(if *nonzero && v == 0 { 1 } else { v })
        }
        Kind::F32 => {
            let x = match ch.below(3) {
                0 => ch.below(100) as f32 / 4.0,
                1 => *ch.pick(&[0.0, -0.0, 0.1f32, f32::MAX, f32::MIN_POSITIVE, 1e-45, -3.3e38, 16777217.0]),
                _ => f32::from_bits(ch.u64() as u32),
            };
            Val::F32(if g.finite && !x.is_finite() { 0.5f32 } else { x }.to_bits())
        }
        Kind::F64 => Val::F64(gen_f64(ch, g.finite).to_bits()),
        Kind::Char => Val::Char({
            let s = gen_str(ch, &Gen { big: false, ..*g });
            s.chars().next().unwrap_or('x')
        }),
        Kind::Str => Val::Str(gen_str(ch, g)),
        Kind::Addr => Val::Str(gen_addr(t.name, ch)),
        Kind::Tok => Val::Tok(ch.below(1000) as u32),
        Kind::ZTok => Val::ZTok,
        Kind::Struct { fields, .. } => Val::Struct(fields.iter().map(|f| gen_at((f.ty)(), ch, g, depth + 1)).collect()),
        Kind::Enum { variants } => {
            let mut i = ch.below(variants.len());
            if depth >= g.max_depth {
                i = (0..variants.len()).min_by_key(|i| variants[*i].fields.len()).unwrap();
            }
            Val::Enum(i, variants[i].fields.iter().map(|f| gen_at((f.ty)(), ch, g, depth + 1)).collect())
        }
        Kind::Opt(t) => {
            if depth >= g.max_depth || ch.chance(1, 3) {
                Val::Opt(None)
            } else {
                Val::Opt(Some(Box::new(gen_at(t(), ch, g, depth + 1))))
            }
        }
        Kind::List(t) => {
            let n = if depth >= g.max_depth { 0 } else { gen_len(ch, g) };
            let g2 = Gen { big: g.big && n < 10, ..*g };
            Val::List((0..n).map(|_| gen_at(t(), ch, &g2, depth + 1)).collect())
        }
        Kind::Weak => Val::Unit,
        Kind::Slice(t) => {
            let n = ch.below(3);
            Val::List((0..n).map(|_| gen_at(t(), ch, &Gen { max_len: 1, plain_strings: true, ..*g }, depth + 1)).collect())
        }
        Kind::Array(t, n) => Val::List((0..*n).map(|_| gen_at(t(), ch, g, depth + 1)).collect()),
        Kind::Ptr(t) => Val::Ptr(Box::new(gen_at(t(), ch, g, depth + 1))),
        Kind::Map { key, val } => {
            let n = if depth >= g.max_depth { 0 } else { gen_len(ch, g) };
            let g2 = Gen { big: g.big && n < 10, ..*g };
            let mut v: Vec<(Val, Val)> = Vec::new();
            for i in 0..n {
                let mut k = gen_at(key(), ch, &Gen { big: false, ..g2 }, depth + 1);
                if v.iter().any(|(x, _)| *x == k) {
                    k = match k {
                        Val::Str(s) => Val::Str(format!("{s}{i}")),
                        Val::Tok(t) => Val::Tok(t + 1000 + i as u32),
                        _ => continue,
                    };
                    if v.iter().any(|(x, _)| *x == k) {
                        continue;
                    }
                }
                v.push((k, gen_at(val(), ch, &g2, depth + 1)));
            }
            Val::sort_maps(v)
        }
    }
}

/// Does the type contain, anywhere reachable, a kind satisfying `f`?
pub fn any_kind(t: &'static Ty, f: &dyn Fn(&Kind) -> bool) -> bool {
    fn go(t: &'static Ty, f: &dyn Fn(&Kind) -> bool, seen: &mut Vec<*const Ty>) -> bool {
        if seen.contains(&(t as *const Ty)) {
            return false;
        }
        seen.push(t);
        if f(&t.kind) {
            return true;
        }
        match &t.kind {
            Kind::Struct { fields, .. } => fields.iter().any(|x| go((x.ty)(), f, seen)),
            Kind::Enum { variants } => variants.iter().any(|v| v.fields.iter().any(|x| go((x.ty)(), f, seen))),
            Kind::Opt(t) | Kind::List(t) | Kind::Slice(t) | Kind::Array(t, _) | Kind::Ptr(t) => go(t(), f, seen),
            Kind::Map { key, val } => go(key(), f, seen) || go(val(), f, seen),
            _ => false,
        }
    }
    go(t, f, &mut Vec::new())
}

/// The canonical text of an address, if the text is one.
pub fn addr(name: &str, s: &str) -> Option<String> {
    use std::net::*;
    match name {
        "IpAddr" => s.parse::<IpAddr>().ok().map(|x| x.to_string()),
        "Ipv4Addr" => s.parse::<Ipv4Addr>().ok().map(|x| x.to_string()),
        "Ipv6Addr" => s.parse::<Ipv6Addr>().ok().map(|x| x.to_string()),
        _ => s.parse::<SocketAddr>().ok().map(|x| x.to_string()),
    }
}
fn gen_addr(name: &str, ch: &mut Ch) -> String {
    use std::net::*;
    let four = |ch: &mut Ch| Ipv4Addr::from(if ch.chance(1, 3) { u32::MAX } else { ch.u64() as u32 });
    let six = |ch: &mut Ch| Ipv6Addr::from(if ch.chance(1, 2) { ch.below(70000) as u128 } else { (ch.u64() as u128) << 64 | ch.u64() as u128 });
    let v4 = match name {
        "Ipv4Addr" => true,
        "Ipv6Addr" => false,
        _ => ch.chance(1, 2),
    };
    let ip: IpAddr = if v4 { four(ch).into() } else { six(ch).into() };
    if name == "SocketAddr" { SocketAddr::new(ip, ch.below(65536) as u16).to_string() } else { ip.to_string() }
}
macro_rules! uni_addr {
    ($($t:ident),*) => { $(
        impl Uni for std::net::$t {
            const NAME: &'static str = stringify!($t);
            fn kind() -> Kind { Kind::Addr }
            fn to_val(&self) -> Val { Val::Str(self.to_string()) }
            fn from_val(v: &Val) -> Self { let Val::Str(s) = v else { panic!("model mismatch") }; s.parse().unwrap() }
        }
    )* };
}
uni_addr!(IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr);
