//! Reads a value back through the reflective view only, checking the view against itself.
use crate::model::{Kind, Ty, Val};
use crate::world::violate;
use facet_core::{Def, PtrConst};
use facet_reflect::Peek;

macro_rules! bad {
    ($sig:expr, $($t:tt)*) => {{
        violate(concat!("reflective view: ", $sig), format!($($t)*));
        return None;
    }};
}

/// A scalar, or anything read natively after checking the recorded shape.
unsafe fn native(p: Peek<'_>, t: &'static Ty) -> Val {
    unsafe { (t.ops.read)(p.data().as_byte_ptr()) }
}

fn child<'a>(data: PtrConst<'a>, t: &'static Ty) -> Peek<'a> {
    unsafe { Peek::unchecked_new(data, t.ops.shape) }
}

/// A value is of its own kind and of no other.
fn kinds(p: Peek<'_>, t: &'static Ty) -> Option<()> {
    let is = [p.into_struct().is_ok(), p.into_enum().is_ok(), p.into_map().is_ok(), p.into_list().is_ok(), p.into_smart_pointer().is_ok(), p.into_option().is_ok()];
    let want = match &t.kind {
        Kind::Struct { .. } => 0,
        Kind::Enum { .. } => 1,
        Kind::Map { .. } => 2,
        Kind::List(_) => 3,
        Kind::Ptr(_) | Kind::Weak => 4,
        Kind::Opt(_) => 5,
        _ => 6,
    };
    // the types the view is not told the inside of (tokens, opaque ones) are read natively
    if want < 6 && (0..6).any(|i| is[i] != (i == want)) {
        bad!("wrong kind", "{}: {is:?}", t.name);
    }
    use facet_reflect::ScalarType as S;
    let sc = match t.name {
        "()" => Some(S::Unit),
        "bool" => Some(S::Bool),
        "&str" => Some(S::Str),
        "String" => Some(S::String),
        "Cow<str>" => Some(S::CowStr),
        "f32" => Some(S::F32),
        "f64" => Some(S::F64),
        "u8" => Some(S::U8),
        "u16" => Some(S::U16),
        "u32" => Some(S::U32),
        "u64" => Some(S::U64),
        "usize" => Some(S::USize),
        "i8" => Some(S::I8),
        "i16" => Some(S::I16),
        "i32" => Some(S::I32),
        "i64" => Some(S::I64),
        "isize" => Some(S::ISize),
        "SocketAddr" => Some(S::SocketAddr),
        "IpAddr" => Some(S::IpAddr),
        "Ipv4Addr" => Some(S::Ipv4Addr),
        "Ipv6Addr" => Some(S::Ipv6Addr),
        _ => None,
    };
    if p.scalar_type() != sc {
        bad!("scalar type", "{}: {:?} instead of {sc:?}", t.name, p.scalar_type());
    }
    if !p.ptr_eq(&p) || p.id() != p.id() {
        bad!("identity", "{} is not itself", t.name);
    }
    Some(())
}

/// The value as the reflective view tells it; None (and a violation) if the view is inconsistent.
pub fn read(p: Peek<'_>, t: &'static Ty) -> Option<Val> {
    if p.shape() != t.ops.shape {
        bad!("wrong shape", "expected {}, the view says {}", t.ops.shape, p.shape());
    }
    kinds(p, t)?;
    match &t.kind {
        Kind::Struct { fields, .. } => {
            let Ok(s) = p.into_struct() else { bad!("wrong kind", "{} is not a struct", t.name) };
            if s.def().fields.len() != fields.len() {
                bad!("field count", "{}: the definition has {}", t.name, s.def().fields.len());
            }
            if s.field_count() != fields.len() {
                bad!("field count", "{}: {}", t.name, s.field_count());
            }
            let mut out = Vec::new();
            let all: Vec<_> = s.fields().collect();
            if all.len() != fields.len() {
                bad!("field count", "{}: fields() gives {}", t.name, all.len());
            }
            for (i, f) in fields.iter().enumerate() {
                let Ok(a) = s.field(i) else { bad!("missing field", "{}.{}", t.name, f.name) };
                let Ok(b) = s.field_by_name(f.name) else { bad!("missing field", "{}.{} by name", t.name, f.name) };
                if a.id() != b.id() || all[i].1.id() != a.id() || all[i].0.name != f.name {
                    bad!("field differs by access path", "{}.{}", t.name, f.name);
                }
                out.push(read(a, (f.ty)())?);
            }
            if s.field(fields.len()).is_ok() || s.field_by_name("no such field").is_ok() {
                bad!("phantom field", "{}", t.name);
            }
            Some(Val::Struct(out))
        }
        Kind::Enum { variants } => {
            let Ok(e) = p.into_enum() else { bad!("wrong kind", "{} is not an enum", t.name) };
            let i = e.variant_index();
            let Some(v) = variants.get(i) else { bad!("variant", "{} index {i}", t.name) };
            if e.variant_name_active() != v.name || e.variant_name(i) != Some(v.name) || e.variant_count() != variants.len() {
                bad!("variant", "{} {i}: {}", t.name, e.variant_name_active());
            }
            if !std::ptr::eq(e.active_variant(), &e.variants()[i]) || e.def().variants.len() != variants.len() || e.variant_name(variants.len()).is_some() {
                bad!("variant", "{} {i}: differs by access path", t.name);
            }
            let by = (facet_reflect::peek_enum(t.ops.shape), facet_reflect::peek_enum_repr(t.ops.shape), facet_reflect::peek_enum_variants(t.ops.shape));
            match by {
                (Some(d), Some(r), Some(v)) if d.variants.len() == variants.len() && v.len() == variants.len() && r == e.repr() => {}
                _ => bad!("variant", "{}: the shape tells something else than the value", t.name),
            }
            let all: Vec<_> = e.fields().collect();
            if all.len() != v.fields.len() {
                bad!("field count", "{}::{}: {}", t.name, v.name, all.len());
            }
            let mut out = Vec::new();
            for (j, f) in v.fields.iter().enumerate() {
                let Some(a) = e.field(j) else { bad!("missing field", "{}::{}.{}", t.name, v.name, f.name) };
                // tuple fields are named _0, _1 by the macro
                let Some(b) = e.field_by_name(all[j].0.name) else { bad!("missing field", "{}::{}.{} by name", t.name, v.name, f.name) };
                if a.id() != b.id() || all[j].1.id() != a.id() || e.field_index(all[j].0.name) != Some(j) {
                    bad!("field differs by access path", "{}::{}.{}", t.name, v.name, f.name);
                }
                out.push(read(a, (f.ty)())?);
            }
            if e.field(v.fields.len()).is_some() || e.field_index("no such field").is_some() || e.field_by_name("").is_some() {
                bad!("phantom field", "{}::{}", t.name, v.name);
            }
            if let Some(d) = crate::native::discriminants(t) {
                if e.discriminant() != d[i] {
                    bad!("discriminant", "{} {i}: {} instead of {}", t.name, e.discriminant(), d[i]);
                }
            }
            Some(Val::Enum(i, out))
        }
        Kind::Opt(inner) => {
            let Ok(o) = p.into_option() else { bad!("wrong kind", "{} is not an option", t.name) };
            if o.is_some() == o.is_none() || o.is_some() != o.value().is_some() {
                bad!("option presence", "{}", t.name);
            }
            match o.value() {
                None => Some(Val::Opt(None)),
                Some(x) => Some(Val::Opt(Some(Box::new(read(x, inner())?)))),
            }
        }
        Kind::List(inner) => {
            let Ok(l) = p.into_list() else { bad!("wrong kind", "{} is not a list", t.name) };
            let n = l.len();
            let it: Vec<_> = l.iter().take(n + 2).collect();
            let mut half = l.iter();
            for _ in 0..n / 2 {
                half.next();
            }
            if half.len() != n - n / 2 || half.size_hint() != (n - n / 2, Some(n - n / 2)) || (&l).into_iter().count() != n {
                bad!("list length", "len {n}, what is left to iterate {:?}", half.size_hint());
            }
            if it.len() != n || l.is_empty() != (n == 0) || l.get(n).is_some() || l.get(usize::MAX).is_some() {
                bad!("list length", "len {n}, iterated {}", it.len());
            }
            let mut out = Vec::new();
            for (i, x) in it.iter().enumerate() {
                let Some(y) = l.get(i) else { bad!("missing element", "{i} of {n}") };
                if y.id() != x.id() {
                    bad!("element differs by access path", "{i} of {n}");
                }
                out.push(read(*x, inner())?);
            }
            Some(Val::List(out))
        }
        Kind::Map { key, val } => {
            let Ok(m) = p.into_map() else { bad!("wrong kind", "{} is not a map", t.name) };
            let n = m.len();
            let it: Vec<_> = m.iter().take(n + 2).collect();
            if it.len() != n || m.is_empty() != (n == 0) {
                bad!("map length", "len {n}, iterated {}", it.len());
            }
            let mut out = Vec::new();
            for (k, v) in it {
                let kd = read(k, key())?;
                let vd = read(v, val())?;
                let def = m.def();
                let got = unsafe { (def.vtable.get_value_ptr_fn)(p.data(), k.data()) };
                if !unsafe { (def.vtable.contains_key_fn)(p.data(), k.data()) } || got.map(|g| g.as_byte_ptr()) != Some(v.data().as_byte_ptr()) {
                    bad!("map lookup", "key {kd:?} is iterated but not found");
                }
                out.push((kd, vd));
            }
            Some(Val::sort_maps(out))
        }
        Kind::Slice(inner) => {
            let Def::Slice(def) = p.shape().def else { bad!("wrong kind", "{} is not a slice", t.name) };
            let n = unsafe { (def.vtable.len)(p.data()) };
            if n > 1 << 20 {
                bad!("slice length", "{n}");
            }
            let mut out = Vec::new();
            for i in 0..n {
                let q = unsafe { (def.vtable.get_item_ptr)(p.data(), i) };
                out.push(read(child(q, inner()), inner())?);
            }
            Some(Val::List(out))
        }
        Kind::Weak => {
            if p.into_smart_pointer().is_err() {
                bad!("wrong kind", "{} is not a smart pointer", t.name)
            }
            Some(Val::Unit)
        }
        Kind::Array(inner, n) => {
            let Def::Array(def) = p.shape().def else { bad!("wrong kind", "{} is not an array", t.name) };
            if def.n != *n {
                bad!("array length", "{} instead of {n}", def.n);
            }
            let mut out = Vec::new();
            for i in 0..*n {
                let q = unsafe { (def.vtable.get_item_ptr)(p.data(), i) };
                if q.as_byte_ptr() as usize != p.data().as_byte_ptr() as usize + i * inner().ops.size {
                    bad!("array element reached at a wrong index", "element {i} of {n}");
                }
                out.push(read(child(q, inner()), inner())?);
            }
            Some(Val::List(out))
        }
        Kind::Ptr(inner) => {
            let Ok(sp) = p.into_smart_pointer() else { bad!("wrong kind", "{} is not a smart pointer", t.name) };
            let Some(borrow) = sp.def().vtable.borrow_fn else { bad!("smart pointer", "{} cannot be borrowed", t.name) };
            let q = unsafe { borrow(p.data()) };
            Some(Val::Ptr(Box::new(read(child(q, inner()), inner())?)))
        }
        _ => Some(unsafe { native(p, t) }),
    }
}
