//! C01, C02, C03: histories of builder steps against a model of the partial value.
use crate::model::{FieldTy, Gen, Kind, Ty, TyRef, Val, any_kind, gen_at, gen_size, gen_val, ty};
use crate::rng::Ch;
use crate::tok::{DEFAULT_LABEL, Tok};
use crate::uni;
use crate::world::{self, Act, Caught, Cb, audit, count, sut, violate, violated};
use crate::{alloc, ev, view};
use facet_core::{Def, PtrConst};
use std::collections::{BTreeMap, HashMap};
use facet_reflect::{FrameMode, HeapValue, Peek, ReflectError, Wip};

type W = Wip<'static>;
type R = Result<W, ReflectError>;

/// What the model knows of a value under construction.
#[derive(Clone, Debug)]
pub enum P {
    Unset,
    Full(Val),
    Struct(Vec<P>),
    Enum(usize, Vec<P>),
}

impl P {
    fn complete(&self) -> bool {
        match self {
            P::Unset => false,
            P::Full(_) => true,
            P::Struct(v) | P::Enum(_, v) => v.iter().all(|p| p.complete()),
        }
    }
    fn val(&self) -> Val {
        match self {
            P::Unset => panic!("incomplete"),
            P::Full(v) => v.clone(),
            P::Struct(v) => Val::Struct(v.iter().map(|p| p.val()).collect()),
            P::Enum(i, v) => Val::Enum(*i, v.iter().map(|p| p.val()).collect()),
        }
    }
    fn empty(&self) -> bool {
        match self {
            P::Unset => true,
            P::Full(_) => false,
            P::Struct(v) => v.iter().all(|p| p.empty()),
            P::Enum(..) => false,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Role {
    Root,
    Field(usize),
    Elem,
    Key,
    Value,
    Some,
    None,
}

struct Fr {
    ty: &'static Ty,
    role: Role,
    p: P,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ex {
    Ok,
    Err,
    Either,
}

/// One builder and its model.
pub struct B {
    w: Option<W>,
    st: Vec<Fr>,
    root: &'static Ty,
    /// set once the root frame itself was popped
    rootp: Option<P>,
    pub steps: usize,
}

/// the fields of what the model frame is, if it has any
fn fields_of(f: &Fr) -> Option<&'static [FieldTy]> {
    match (&f.ty.kind, &f.p) {
        (Kind::Struct { fields, .. }, _) => Some(fields),
        (Kind::Enum { variants }, P::Enum(i, _)) => Some(&variants[*i].fields),
        (Kind::Enum { variants }, P::Full(Val::Enum(i, _))) => Some(&variants[*i].fields),
        _ => None,
    }
}

fn field_name(f: &Fr, i: usize) -> &'static str {
    match f.ty.ops.shape.def {
        Def::Struct(s) => s.fields[i].name,
        Def::Enum(e) => match &f.p {
            P::Enum(v, _) | P::Full(Val::Enum(v, _)) => e.variants[*v].data.fields[i].name,
            _ => "?",
        },
        _ => "?",
    }
}

/// the value of `Default`, for kinds that have one
pub fn default_val(t: &Ty) -> Option<Val> {
    Some(match &t.kind {
        Kind::Unit => Val::Unit,
        Kind::Bool => Val::Bool(false),
        Kind::Int { nonzero: true, .. } => return None,
        Kind::Int { bits: 128, signed: false, .. } => Val::UInt(0),
        Kind::Int { .. } => Val::Int(0),
        Kind::F32 => Val::F32(0),
        Kind::F64 => Val::F64(0),
        Kind::Char => Val::Char('\0'),
        Kind::Str if t.name == "&Path" => return None,
        Kind::Str => Val::Str(String::new()),
        Kind::Tok => Val::Tok(DEFAULT_LABEL),
        Kind::ZTok => Val::ZTok,
        Kind::Opt(_) => Val::Opt(None),
        Kind::List(_) => Val::List(vec![]),
        Kind::Map { .. } => Val::Map(vec![]),
        Kind::Struct { .. } | Kind::Enum { .. } => return t.std_default.map(|f| f()),
        _ => return None,
    })
}

/// does the model know for sure whether there is a default?
fn default_known(t: &Ty) -> bool {
    !matches!(t.kind, Kind::Array(..) | Kind::Ptr(_)) && !(matches!(t.kind, Kind::Struct { tuple: true, .. }) && t.name.starts_with("tuple"))
}

/// text that parses to the value, if the kind parses
pub fn parse_text(t: &Ty, v: &Val) -> Option<String> {
    Some(match (&t.kind, v) {
        (Kind::Bool, Val::Bool(b)) => b.to_string(),
        (Kind::Int { .. }, Val::Int(i)) => i.to_string(),
        (Kind::Int { .. }, Val::UInt(i)) => i.to_string(),
        (Kind::F32, Val::F32(b)) => format!("{:?}", f32::from_bits(*b)),
        (Kind::F64, Val::F64(b)) => format!("{:?}", f64::from_bits(*b)),
        (Kind::Char, Val::Char(c)) => c.to_string(),
        (Kind::Str, Val::Str(s)) if t.name == "String" || t.name == "PathBuf" => s.clone(),
        (Kind::Addr, Val::Str(s)) => s.clone(),
        (Kind::Tok, Val::Tok(l)) => format!("t{l}"),
        _ => return None,
    })
}

/// text that hardly anything parses
fn garbage(ch: &mut Ch, t: &Ty) -> String {
    let near = match &t.kind {
        Kind::Int { bits, signed, .. } if *bits < 128 => {
            let hi = if *signed { (1i128 << (bits - 1)) - 1 } else { (1i128 << bits) - 1 };
            let lo = if *signed { -hi - 1 } else { 0 };
            ch.pick(&[hi, hi + 1, lo, lo - 1, 0, 1, 10 * hi]).to_string()
        }
        Kind::Tok => format!("t{}", ch.below(9)),
        Kind::Bool => "true".into(),
        _ => "x".into(),
    };
    match ch.below(9) {
        0 => String::new(),
        1 => "~garbage~".into(),
        2 => format!("{near} "),
        3 => format!(" {near}"),
        4 => format!("+{near}"),
        5 => format!("{near}x"),
        6 => format!("0{near}"),
        _ => near,
    }
}

/// what the text means to a scalar
fn parsed(t: &Ty, s: &str) -> Option<Val> {
    Some(match &t.kind {
        Kind::Bool => Val::Bool(s.parse().ok()?),
        Kind::Int { bits: 128, signed: false, nonzero } => Val::UInt(s.parse().ok().filter(|x| *x != 0 || !nonzero)?),
        Kind::Int { bits: 128, nonzero, .. } => Val::Int(s.parse().ok().filter(|x| *x != 0 || !nonzero)?),
        Kind::Int { bits, signed, nonzero } => {
            let i: i128 = s.parse().ok()?;
            let (lo, hi) = if *signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) };
            if i < lo || i > hi || (*nonzero && i == 0) || (!signed && s.starts_with('-')) {
                return None;
            }
            Val::Int(i)
        }
        Kind::F32 => Val::F32(s.parse::<f32>().ok()?.to_bits()),
        Kind::F64 => Val::F64(s.parse::<f64>().ok()?.to_bits()),
        Kind::Char => Val::Char(s.parse().ok()?),
        Kind::Str if t.name == "String" || t.name == "PathBuf" => Val::Str(s.into()),
        Kind::Addr => Val::Str(crate::model::addr(t.name, s)?),
        Kind::Tok => Val::Tok(s.strip_prefix('t')?.parse().ok()?),
        Kind::Opt(i) => Val::Opt(Some(Box::new(parsed(i(), s)?))),
        _ => return None,
    })
}

/// now and then with something big in it
fn gb(ch: &mut Ch) -> Gen {
    Gen { big: ch.chance(1, 60), ..g() }
}

fn g() -> Gen {
    Gen { max_len: 3, max_depth: 5, ..Gen::default() }
}

impl B {
    pub fn new(root: &'static Ty) -> Option<B> {
        ev!("alloc {}", root.name);
        let w = sut(|| (root.ops.alloc)()).ok()?;
        let mut b = B { w: Some(w), st: vec![], root, rootp: None, steps: 0 };
        b.push(root, Role::Root, P::Unset);
        Some(b)
    }

    fn push(&mut self, t: &'static Ty, role: Role, p: P) {
        let p = match (&t.kind, p) {
            (Kind::Struct { fields, .. }, P::Unset) if role != Role::None => P::Struct(fields.iter().map(|_| P::Unset).collect()),
            (_, p) => p,
        };
        self.st.push(Fr { ty: t, role, p });
    }

    fn top(&self) -> &Fr {
        self.st.last().unwrap()
    }

    /// Runs one step; true if the builder goes on.
    fn op(&mut self, name: &str, ex: Ex, f: impl FnOnce(W) -> R) -> bool {
        self.steps += 1;
        let w = self.w.take().unwrap();
        let fired = world::fired();
        let r = sut(move || f(w));
        let injected = world::fired() > fired;
        match r {
            Ok(Ok(w)) => {
                ev!("{name}: ok");
                self.w = Some(w);
                if injected {
                    violate("a failure of user code was swallowed", name);
                }
                if ex == Ex::Err {
                    violate("impossible step accepted", format!("{name} on {}", self.where_()));
                }
                !violated()
            }
            Ok(Err(e)) => {
                let text = sut(move || {
                    let t = alloc::off(|| format!("{e}"));
                    drop(e);
                    t
                });
                match text {
                    Ok(t) => ev!("{name}: error {t}"),
                    Err(c) => violate("printing an error failed", format!("{name}: {c:?}")),
                }
                count("probe.step_rejected", 1);
                if ex == Ex::Ok && !injected {
                    violate("possible step rejected", format!("{name} on {}", self.where_()));
                }
                false
            }
            Err(Caught::Injected) => {
                ev!("{name}: unwound");
                count("probe.step_unwound", 1);
                false
            }
            Err(Caught::Panic(m, l)) => {
                violate("panic in a builder step", format!("{name} on {}: {m} at {l}", self.where_()));
                false
            }
        }
    }

    fn where_(&self) -> String {
        let mut s = String::new();
        for f in &self.st {
            s.push_str(&format!("/{}:{:?}", f.ty.name, f.role));
        }
        s
    }

    /// the current frame was just given `v` as a whole
    fn set(&mut self, v: Val) {
        self.st.last_mut().unwrap().p = P::Full(v);
    }

    /// expectation for putting a whole value here
    fn put_ex(&self) -> Ex {
        let t = self.top();
        if t.role == Role::None {
            Ex::Err
        } else if t.p.complete() {
            // repeating a step on something complete may be refused
            Ex::Either
        } else {
            Ex::Ok
        }
    }

    fn select(&mut self, i: usize, by_name: bool) -> bool {
        let t = self.top();
        let fs = if t.role == Role::None { None } else { fields_of(t) };
        let ok = fs.is_some_and(|f| i < f.len());
        let name = if ok { field_name(t, i) } else { "nope" };
        let r = if by_name {
            self.op(&format!("field_named {name}"), if ok { Ex::Ok } else { Ex::Err }, |w| w.field_named(name))
        } else {
            self.op(&format!("field {i}"), if ok { Ex::Ok } else { Ex::Err }, |w| w.field(i))
        };
        if !r {
            return false;
        }
        let f = self.st.last_mut().unwrap();
        let fty = (fields_of(f).unwrap()[i].ty)();
        if let P::Full(v) = &f.p {
            f.p = match v {
                Val::Struct(x) => P::Struct(x.iter().cloned().map(P::Full).collect()),
                Val::Enum(k, x) => P::Enum(*k, x.iter().cloned().map(P::Full).collect()),
                _ => unreachable!(),
            };
        }
        let (P::Struct(v) | P::Enum(_, v)) = &mut f.p else { unreachable!() };
        let p = std::mem::replace(&mut v[i], P::Unset);
        self.push(fty, Role::Field(i), p);
        true
    }

    fn variant(&mut self, i: usize, by_name: bool) -> bool {
        let t = self.top();
        let Kind::Enum { variants } = &t.ty.kind else {
            if by_name {
                return self.op("variant_named A", Ex::Err, |w| w.variant_named("A"));
            }
            return self.op(&format!("variant {i}"), Ex::Err, |w| w.variant(i));
        };
        let ok = t.role != Role::None && i < variants.len();
        let name = variants.get(i).map_or("Nope", |v| v.name);
        let ex = if ok { Ex::Ok } else { Ex::Err };
        if !t.p.empty() {
            count("probe.variant_selected_again", 1);
        }
        let r = if by_name {
            self.op(&format!("variant_named {name}"), ex, |w| w.variant_named(name))
        } else {
            self.op(&format!("variant {i}"), ex, |w| w.variant(i))
        };
        if r {
            self.st.last_mut().unwrap().p = P::Enum(i, variants[i].fields.iter().map(|_| P::Unset).collect());
        }
        r
    }

    fn put(&mut self, v: Val) -> bool {
        let (ex, t) = (self.put_ex(), self.top().ty);
        if self.top().p.complete() {
            count("probe.put_again", 1);
        } else if !self.top().p.empty() {
            count("probe.put_over_partial", 1);
        }
        let r = self.op(&format!("put {}", v.short()), ex, |w| (t.ops.put)(w, &v));
        if r {
            self.set(v);
        }
        r
    }

    /// give a clone of someone else's value
    fn put_peek(&mut self, v: Val) -> bool {
        let t = self.top().ty;
        let ex = if t.ops.shape.vtable.clone_into.is_some() { self.put_ex() } else { Ex::Err };
        let theirs = crate::docs::Value::new(t, &v);
        if !theirs.live {
            return true;
        }
        let peek = unsafe { Peek::unchecked_new(PtrConst::new(theirs.p as *const u8), t.ops.shape) };
        let r = self.op(&format!("put_peek {}", v.short()), ex, |w| w.put_peek(peek));
        if !violated() && theirs.read() != v {
            violate("put_peek changed the peeked value", format!("{}: {:?}", t.name, theirs.read()));
        }
        count("probe.put_peek", 1);
        if r {
            self.set(v);
        }
        r
    }

    fn put_inner(&mut self, ch: &mut Ch) -> bool {
        let Kind::Opt(inner) = &self.top().ty.kind else { unreachable!() };
        let big = gb(ch);
        let v = gen_at(inner(), ch, &big, self.st.len());
        let ex = self.put_ex();
        let r = self.op(&format!("put Some {}", v.short()), ex, |w| (inner().ops.put)(w, &v));
        if r {
            self.set(Val::Opt(Some(Box::new(v))));
        }
        r
    }

    fn put_wrong(&mut self, ch: &mut Ch) -> bool {
        let here = self.top().ty.ops.shape;
        let opt = match &self.top().ty.kind {
            Kind::Opt(i) => Some(i().ops.shape),
            _ => None,
        };
        let all = [ty::<u8>(), ty::<Tok>(), ty::<String>(), ty::<uni::TwoTok>(), ty::<Vec<Tok>>(), ty::<Option<String>>()];
        let t = *ch.pick(&all);
        if t.ops.shape == here || Some(t.ops.shape) == opt {
            return true;
        }
        let v = gen_val(t, ch, &g());
        self.op(&format!("put wrong {}", t.name), Ex::Err, |w| (t.ops.put)(w, &v))
    }

    fn parse(&mut self, ch: &mut Ch) -> bool {
        let (ex, t) = (self.put_ex(), self.top().ty);
        let v = gen_at(t, ch, &g(), self.st.len());
        match parse_text(t, &v) {
            Some(s) if !ch.chance(1, 6) => {
                let r = self.op(&format!("parse {s:?}"), ex, |w| w.parse(&s));
                if r {
                    self.set(v);
                }
                r
            }
            _ => {
                if matches!(t.kind, Kind::Str | Kind::Addr | Kind::Ptr(_) | Kind::Array(..)) {
                    return true; // any text is a string
                }
                let text = garbage(ch, t);
                let v = parsed(t, &text);
                let ex = if v.is_some() { self.put_ex() } else { Ex::Err };
                let r = self.op(&format!("parse {text:?}"), ex, |w| w.parse(&text));
                if let (true, Some(v)) = (r, v) {
                    self.set(v);
                }
                r
            }
        }
    }

    fn put_default(&mut self, from_fn: bool) -> bool {
        let t = self.top().ty;
        if !default_known(t) {
            return true;
        }
        let v = default_val(t);
        let ex = if v.is_some() { self.put_ex() } else { Ex::Err };
        let r = match t.ops.shape.vtable.default_in_place {
            Some(d) if from_fn && v.is_some() => self.op("put_from_fn", ex, |w| w.put_from_fn(d)),
            _ => self.op("put_default", ex, |w| w.put_default()),
        };
        if let (true, Some(v)) = (r, v) {
            self.set(v);
        }
        r
    }

    fn put_f64(&mut self, ch: &mut Ch) -> bool {
        let t = self.top().ty;
        let (n, v) = match &t.kind {
            Kind::Int { bits: 128, .. } => return true,
            Kind::Int { bits, signed, nonzero } => {
                // whole numbers only, and none between the limits and their rounding
                let hi = if *signed { (1i128 << (bits - 1)) - 1 } else { (1i128 << bits) - 1 };
                let lo = if *signed { -hi - 1 } else { 0 };
                let n = match ch.below(9) {
                    0 => 0,
                    1 if *bits < 64 => hi,
                    2 if *bits < 64 => hi + 1,
                    1 | 2 => (hi + 1) << ch.range(1, 20),
                    3 => lo,
                    4 if *bits < 64 => lo - 1,
                    4 => (lo - 1) * 3,
                    5 => (hi + 1) / 2,
                    6 => ch.below(300) as i128 - 100,
                    _ => 1 + ch.below(100) as i128,
                };
                if *nonzero && n < 0 {
                    return true; // negative ones may be refused
                }
                (n as f64, (n >= lo && n <= hi && (n != 0 || !nonzero)).then_some(Val::Int(n)))
            }
            Kind::F32 => {
                let n = match ch.below(4) {
                    0 => f32::MIN as f64,
                    1 => -0.0,
                    2 => 1.0 / 3.0,
                    _ => ch.below(1000) as f64 / 8.0,
                };
                (n, Some(Val::F32((n as f32).to_bits())))
            }
            Kind::F64 => {
                let n = *ch.pick(&[f64::MAX, -0.0, f64::MIN_POSITIVE, 1.0 / 3.0, 2.5, f64::INFINITY]);
                (n, Some(Val::F64(n.to_bits())))
            }
            _ => (1.0, None),
        };
        let ex = if v.is_some() { self.put_ex() } else { Ex::Err };
        let r = self.op(&format!("try_put_f64 {n}"), ex, |w| w.try_put_f64(n));
        if let (true, Some(v)) = (r, v) {
            self.set(v);
        }
        r
    }

    fn put_unset(&mut self) -> bool {
        let t = self.top();
        let d = match (&t.ty.kind, t.ty.std_default) {
            (Kind::Struct { .. }, Some(d)) if t.role != Role::None => Some(d()),
            (Kind::Struct { .. }, _) if !default_known(t.ty) => return true,
            _ => None,
        };
        let ex = if d.is_some() { Ex::Ok } else { Ex::Err };
        let r = self.op("put_default_in_unset_fields", ex, |w| w.put_default_in_unset_fields());
        if let (true, Some(Val::Struct(d))) = (r, d) {
            count("probe.unset_fields_defaulted", 1);
            if let P::Struct(v) = &mut self.st.last_mut().unwrap().p {
                for (p, d) in v.iter_mut().zip(d) {
                    if !p.complete() {
                        *p = P::Full(d);
                    }
                }
            }
        }
        r
    }

    fn put_empty(&mut self, map: bool) -> bool {
        let t = self.top();
        let right = if map { matches!(t.ty.kind, Kind::Map { .. }) } else { matches!(t.ty.kind, Kind::List(_)) };
        let ex = if right { self.put_ex() } else { Ex::Err };
        let r = if map { self.op("put_empty_map", ex, |w| w.put_empty_map()) } else { self.op("put_empty_list", ex, |w| w.put_empty_list()) };
        if r && right {
            self.set(if map { Val::Map(vec![]) } else { Val::List(vec![]) });
        }
        r
    }

    fn begin(&mut self, map: bool) -> bool {
        let t = self.top();
        let right = t.role != Role::None && if map { matches!(t.ty.kind, Kind::Map { .. }) } else { matches!(t.ty.kind, Kind::List(_)) };
        let ex = if right { Ex::Ok } else { Ex::Err };
        let r = if map { self.op("begin_map_insert", ex, |w| w.begin_map_insert()) } else { self.op("begin_pushback", ex, |w| w.begin_pushback()) };
        if r && right {
            self.begun(map);
        }
        r
    }

    fn begun(&mut self, map: bool) {
        if !self.top().p.complete() {
            self.set(if map { Val::Map(vec![]) } else { Val::List(vec![]) });
        }
    }

    fn push_elem(&mut self) -> bool {
        let t = self.top();
        let inner = match &t.ty.kind {
            Kind::List(i) if t.role != Role::None => Some(i()),
            _ => None,
        };
        let r = self.op("push", if inner.is_some() { Ex::Ok } else { Ex::Err }, |w| w.push());
        if let (true, Some(i)) = (r, inner) {
            self.begun(false);
            self.push(i, Role::Elem, P::Unset);
        }
        r
    }

    fn push_key(&mut self) -> bool {
        let t = self.top();
        let inner = match &t.ty.kind {
            Kind::Map { key, .. } if t.role != Role::None => Some(key()),
            _ => None,
        };
        let r = self.op("push_map_key", if inner.is_some() { Ex::Ok } else { Ex::Err }, |w| w.push_map_key());
        if let (true, Some(i)) = (r, inner) {
            self.begun(true);
            self.push(i, Role::Key, P::Unset);
        }
        r
    }

    fn push_value(&mut self) -> bool {
        let t = self.top();
        let ok = t.role == Role::Key && t.p.complete();
        let inner = if ok {
            let Kind::Map { val, .. } = &self.st[self.st.len() - 2].ty.kind else { unreachable!() };
            Some(val())
        } else {
            None
        };
        let r = self.op("push_map_value", if ok { Ex::Ok } else { Ex::Err }, |w| w.push_map_value());
        if let (true, Some(i)) = (r, inner) {
            self.push(i, Role::Value, P::Unset);
        }
        r
    }

    fn push_some(&mut self) -> bool {
        let t = self.top();
        let inner = match &t.ty.kind {
            Kind::Opt(i) if t.role != Role::None => Some(i()),
            _ => None,
        };
        let r = self.op("push_some", if inner.is_some() { Ex::Ok } else { Ex::Err }, |w| w.push_some());
        if let (true, Some(i)) = (r, inner) {
            self.push(i, Role::Some, P::Unset);
        }
        r
    }

    fn some_to_none(&mut self) -> bool {
        let t = self.top();
        let ok = t.role == Role::Some && !t.p.complete();
        let r = self.op("pop_some_push_none", if ok { Ex::Ok } else { Ex::Err }, |w| w.pop_some_push_none());
        if r && ok {
            let f = self.st.pop().unwrap();
            self.set(Val::Opt(None));
            self.push(f.ty, Role::None, P::Unset);
        }
        r
    }

    fn pop(&mut self) -> bool {
        let r = self.op("pop", if self.st.is_empty() { Ex::Err } else { Ex::Ok }, |w| w.pop());
        if r {
            self.model_pop();
        }
        r
    }

    /// what popping does; true if something provided was given up
    fn model_pop(&mut self) -> bool {
        let Some(f) = self.st.pop() else { return false };
        let done = f.p.complete();
        match f.role {
            Role::Root => {
                // kept outside the stack: only finishing can follow
                self.st.clear();
                self.popped_root(f.p);
                return false;
            }
            Role::Field(i) => {
                let parent = self.st.last_mut().unwrap();
                let (P::Struct(v) | P::Enum(_, v)) = &mut parent.p else { unreachable!() };
                v[i] = f.p;
                return false;
            }
            Role::Elem if done => {
                let P::Full(Val::List(l)) = &mut self.st.last_mut().unwrap().p else { unreachable!() };
                l.push(f.p.val());
                count("probe.element_pushed", 1);
                return false;
            }
            Role::Value if done => {
                let k = self.st.pop().unwrap().p.val();
                let P::Full(Val::Map(m)) = &mut self.st.last_mut().unwrap().p else { unreachable!() };
                if let Some(e) = m.iter_mut().find(|e| e.0 == k) {
                    count("probe.map_key_again", 1);
                    e.1 = f.p.val();
                } else {
                    m.push((k, f.p.val()));
                }
                let Val::Map(m) = Val::sort_maps(std::mem::take(m)) else { unreachable!() };
                self.set(Val::Map(m));
                return false;
            }
            Role::Some if done => {
                self.set(Val::Opt(Some(Box::new(f.p.val()))));
                return false;
            }
            Role::None => return false,
            _ => {}
        }
        count("fault.cancelled_with_a_detached_element", 1);
        true
    }

    fn popped_root(&mut self, p: P) {
        self.rootp = Some(p);
    }

    fn queries(&mut self, ch: &mut Ch) {
        let w = self.w.take().unwrap();
        let mut want = String::from("$");
        for (i, f) in self.st.iter().enumerate() {
            match f.role {
                Role::Root => {}
                Role::Field(k) => {
                    want.push('.');
                    want.push_str(field_name(&self.st[i - 1], k));
                }
                Role::Elem => want.push_str("[?]"),
                Role::Key => want.push_str(".key"),
                Role::Value => want.push_str(".value"),
                Role::Some => want.push_str(".some"),
                Role::None => want.push_str(".none"),
            }
        }
        let got = sut(|| w.path());
        let bad = |what: &str, d: String| violate(format!("builder reports a wrong {what}"), d);
        match got {
            Ok(p) if p == want => {}
            Ok(p) => bad("path", format!("{p} instead of {want}")),
            Err(c) => bad("path", format!("{c:?}")),
        }
        if w.frames_count() != self.st.len() {
            bad("depth", format!("{} instead of {}", w.frames_count(), self.st.len()));
        }
        if self.st.is_empty() {
            self.w = Some(w);
            return;
        }
        let t = self.top();
        if w.shape() != t.ty.ops.shape {
            bad("shape", format!("{} instead of {}", w.shape(), t.ty.ops.shape));
        }
        if w.in_option() != (t.role == Role::Some) {
            bad("mode", format!("in_option() is {}", w.in_option()));
        }
        let same = match (w.mode(), t.role) {
            (FrameMode::Root, Role::Root) | (FrameMode::Field, Role::Field(_)) | (FrameMode::ListElement, Role::Elem) | (FrameMode::MapKey, Role::Key) | (FrameMode::MapValue { .. }, Role::Value) | (FrameMode::OptionSome, Role::Some) | (FrameMode::OptionNone, Role::None) => true,
            _ => false,
        };
        if !same {
            bad("mode", format!("{:?} for {:?}", w.mode(), t.role));
        }
        if t.role != Role::None {
            let v = match (&t.ty.kind, &t.p) {
                (Kind::Enum { variants }, P::Enum(i, _) | P::Full(Val::Enum(i, _))) => Some(variants[*i].name),
                _ => None,
            };
            if w.selected_variant().map(|v| v.name) != v {
                bad("variant", format!("{:?} instead of {v:?}", w.selected_variant().map(|v| v.name)));
            }
            match &t.ty.kind {
                Kind::Enum { variants } => {
                    for (i, x) in variants.iter().enumerate() {
                        if w.find_variant(x.name).map(|(n, f)| (n, f.name)) != Some((i, x.name)) {
                            bad("variant", format!("{} of {} found at {:?}", x.name, t.ty.name, w.find_variant(x.name).map(|v| v.0)));
                        }
                    }
                    if w.find_variant("nope").is_some() {
                        bad("variant", format!("phantom variant of {}", t.ty.name));
                    }
                }
                _ if w.find_variant("A").is_some() => bad("variant", format!("{} has none", t.ty.name)),
                _ => {}
            }
            let num = matches!(t.ty.kind, Kind::Int { .. } | Kind::F32 | Kind::F64);
            if w.can_put_f64() != num {
                bad("number", format!("{}: {}", t.ty.name, !num));
            }
            if let Some(fs) = fields_of(t) {
                let n = fs.len();
                for i in 0..n {
                    let want = match &t.p {
                        P::Full(_) => true,
                        P::Struct(v) | P::Enum(_, v) => v[i].complete(),
                        P::Unset => false,
                    };
                    match w.is_field_set(i) {
                        Ok(b) if b == want => {}
                        o => bad("field state", format!("field {i} of {}: {:?} instead of {want}", t.ty.name, o.ok())),
                    }
                    if w.field_index(field_name(t, i)) != Some(i) {
                        bad("field index", format!("{} of {}", field_name(t, i), t.ty.name));
                    }
                }
                if w.is_field_set(n + ch.below(3)).is_ok() || w.field_index("nope").is_some() {
                    bad("field state", format!("phantom field of {}", t.ty.name));
                }
            } else if w.is_field_set(0).is_ok() {
                bad("field state", format!("{} has no fields", t.ty.name));
            }
            match (&t.ty.kind, w.element_shape(), w.key_shape()) {
                (Kind::List(i), Ok(s), Err(_)) if s == i().ops.shape => {}
                (Kind::Map { key, .. }, Err(_), Ok(s)) if s == key().ops.shape => {}
                (Kind::List(_) | Kind::Map { .. }, ..) => bad("element shape", t.ty.name.into()),
                (_, Err(_), Err(_)) => {}
                _ => bad("element shape", t.ty.name.into()),
            }
        }
        self.w = Some(w);
    }

    /// One random step. True if the builder goes on.
    fn random(&mut self, ch: &mut Ch) -> bool {
        if self.st.is_empty() {
            // only finishing makes sense now: everything else is an error
            return match ch.below(8) {
                0 => self.op("pop", Ex::Err, |w| w.pop()),
                1 => self.op("field 0", Ex::Err, |w| w.field(0)),
                2 => self.op("put", Ex::Err, |w| w.put(Tok::new(1))),
                3 => self.op("put_default", Ex::Err, |w| w.put_default()),
                4 => self.op("push", Ex::Err, |w| w.push()),
                5 => self.op("parse", Ex::Err, |w| w.parse("1")),
                6 => self.op("variant", Ex::Err, |w| w.variant(0)),
                _ => self.op("push_some", Ex::Err, |w| w.push_some()),
            };
        }
        let deep = self.st.len() > 9;
        if ch.chance(1, 14) {
            return self.odd(ch);
        }
        let t = self.top();
        if t.role == Role::None {
            return self.pop();
        }
        let complete = t.p.complete();
        if complete && t.role == Role::Key && ch.chance(5, 6) {
            return self.push_value();
        }
        // going up
        if self.st.len() > 1 && ch.chance(if complete { 3 } else { 1 }, 5) {
            if t.role == Role::Some && !complete && ch.chance(1, 2) {
                return self.some_to_none();
            }
            return self.pop();
        }
        if complete && !ch.chance(1, 4) && self.st.len() > 1 && !matches!(t.ty.kind, Kind::List(_) | Kind::Map { .. }) {
            return self.pop();
        }
        match &t.ty.kind {
            Kind::Struct { fields, .. } => {
                let n = fields.len();
                if t.ty.std_default.is_some() && ch.chance(1, 8) {
                    return self.put_unset();
                }
                if n == 0 || deep || ch.chance(1, 10) {
                    return self.whole(ch);
                }
                let i = ch.below(n);
                let by = ch.chance(1, 2);
                self.select(i, by)
            }
            Kind::Enum { variants } => {
                let n = variants.len();
                let nf = fields_of(t).map_or(0, |f| f.len());
                let chosen = fields_of(t).is_some();
                if deep || ch.chance(1, 10) {
                    return self.whole(ch);
                }
                if !chosen || ch.chance(1, 6) || nf == 0 {
                    if complete && nf == 0 && self.st.len() > 1 && !ch.chance(1, 4) {
                        return self.pop();
                    }
                    let i = ch.below(n);
                    let by = ch.chance(1, 2);
                    self.variant(i, by)
                } else {
                    let i = ch.below(nf);
                    let by = ch.chance(1, 2);
                    self.select(i, by)
                }
            }
            Kind::Opt(_) => match ch.below(6) {
                0 => self.whole(ch),
                1 => self.put_default(false),
                2 => self.put_inner(ch),
                _ if deep => self.whole(ch),
                _ => self.push_some(),
            },
            Kind::List(_) => match ch.below(8) {
                0 => self.whole(ch),
                1 => self.begin(false),
                2 => self.put_empty(false),
                _ if deep => self.whole(ch),
                _ => self.push_elem(),
            },
            Kind::Map { .. } => match ch.below(8) {
                0 => self.whole(ch),
                1 => self.begin(true),
                2 => self.put_empty(true),
                _ if deep => self.whole(ch),
                _ => self.push_key(),
            },
            _ => self.whole(ch),
        }
    }

    /// provide the current frame as a whole, some way or other
    fn whole(&mut self, ch: &mut Ch) -> bool {
        let t = self.top();
        let complete = t.p.complete();
        if complete && !ch.chance(1, 4) {
            return true;
        }
        let ty = t.ty;
        let scalar = matches!(ty.kind, Kind::Bool | Kind::Int { .. } | Kind::F32 | Kind::F64 | Kind::Char | Kind::Str | Kind::Addr | Kind::Tok);
        let k = ch.below(if scalar { 6 } else { 3 });
        match k {
            1 if default_val(ty).is_some() => {
                let f = ch.chance(1, 2);
                self.put_default(f)
            }
            3 => self.parse(ch),
            4 if matches!(ty.kind, Kind::Int { .. } | Kind::F32 | Kind::F64) => self.put_f64(ch),
            _ => {
                let big = gb(ch);
                let v = gen_at(ty, ch, &big, self.st.len());
                if ch.chance(1, 4) { self.put_peek(v) } else { self.put(v) }
            }
        }
    }

    /// a step that mostly does not apply here
    fn odd(&mut self, ch: &mut Ch) -> bool {
        match ch.below(17) {
            15 => self.put_unset(),
            0 => self.put_wrong(ch),
            1 => {
                let n = fields_of(self.top()).map_or(0, |f| f.len());
                self.select(n + ch.below(2), false)
            }
            2 => self.select(1000, true),
            3 => {
                let n = match &self.top().ty.kind {
                    Kind::Enum { variants } => variants.len(),
                    _ => 0,
                };
                let by = ch.chance(1, 2);
                self.variant(n, by)
            }
            4 => self.parse(ch),
            5 => self.put_default(false),
            6 => self.put_empty(false),
            7 => self.put_empty(true),
            8 => self.begin(false),
            9 => self.begin(true),
            10 => self.push_elem(),
            11 => self.push_key(),
            12 => self.push_value(),
            13 => self.push_some(),
            14 => self.some_to_none(),
            _ => self.put_f64(ch),
        }
    }

    fn how_many(&self, ch: &mut Ch) -> usize {
        if self.st.len() <= 2 && ch.chance(1, 100) { gen_size(ch, 300) } else { ch.below(4) }
    }

    /// Provides what the current frame still lacks.
    fn fill(&mut self, ch: &mut Ch) -> bool {
        if violated() {
            return false;
        }
        let t = self.top();
        if t.p.complete() || t.role == Role::None {
            return true;
        }
        if self.st.len() > 10 || ch.chance(1, 8) {
            let v = gen_at(t.ty, ch, &Gen { max_len: 1, ..g() }, self.st.len());
            return self.put(v);
        }
        match &t.ty.kind {
            Kind::Struct { fields, .. } => {
                let n = fields.len();
                if t.ty.std_default.is_some() && ch.chance(1, 3) {
                    return self.put_unset();
                }
                self.fill_fields(ch, n)
            }
            Kind::Enum { variants } => {
                if fields_of(t).is_none() {
                    let i = ch.below(variants.len());
                    let by = ch.chance(1, 2);
                    if !self.variant(i, by) {
                        return false;
                    }
                }
                let n = fields_of(self.top()).unwrap().len();
                self.fill_fields(ch, n)
            }
            Kind::Opt(_) => match ch.below(5) {
                0 => self.put_default(false),
                1 => self.put_inner(ch),
                2 => self.push_some() && self.some_to_none() && self.pop(),
                _ => self.push_some() && self.fill(ch) && self.pop(),
            },
            Kind::List(_) => {
                if !(if ch.chance(1, 2) { self.begin(false) } else { self.put_empty(false) }) {
                    return false;
                }
                for _ in 0..self.how_many(ch) {
                    if !(self.push_elem() && self.fill(ch) && self.pop()) {
                        return false;
                    }
                }
                true
            }
            Kind::Map { .. } => {
                if !(if ch.chance(1, 2) { self.begin(true) } else { self.put_empty(true) }) {
                    return false;
                }
                for _ in 0..self.how_many(ch) {
                    if !(self.push_key() && self.fill(ch) && self.push_value() && self.fill(ch) && self.pop()) {
                        return false;
                    }
                }
                true
            }
            _ => {
                if self.whole(ch) && !self.top().p.complete() {
                    let v = gen_at(self.top().ty, ch, &g(), self.st.len());
                    return self.put(v);
                }
                self.w.is_some()
            }
        }
    }

    fn fill_fields(&mut self, ch: &mut Ch, n: usize) -> bool {
        let start = ch.below(n.max(1));
        for k in 0..n {
            let i = (start + k) % n;
            let done = match &self.top().p {
                P::Struct(v) | P::Enum(_, v) => v[i].complete(),
                P::Full(_) => true,
                P::Unset => false,
            };
            if done && !ch.chance(1, 12) {
                continue;
            }
            let by = ch.chance(1, 2);
            if !(self.select(i, by) && self.fill(ch) && self.pop()) {
                return false;
            }
        }
        true
    }

    /// Completes everything on the way up to the root.
    fn finish(&mut self, ch: &mut Ch) -> bool {
        loop {
            if !self.fill(ch) {
                return false;
            }
            if self.st.len() <= 1 {
                return true;
            }
            if self.top().role == Role::Key {
                if !(self.push_value() && self.fill(ch)) {
                    return false;
                }
            }
            if !self.pop() {
                return false;
            }
        }
    }

    /// Finishes. The value and what it must be, if there is one.
    pub fn build(mut self) -> Option<(HeapValue<'static>, Val)> {
        let mut given_up = false;
        while !self.st.is_empty() {
            given_up |= self.model_pop();
        }
        let p = self.rootp.take().unwrap();
        let val = p.complete().then(|| p.val());
        let accepted = val.as_ref().is_some_and(|v| self.root.invariant.is_none_or(|f| f(v)));
        let ex = match (&val, accepted, given_up) {
            (None, _, _) => Ex::Err,
            (Some(_), false, _) => Ex::Err,
            (_, _, true) => Ex::Either,
            _ => Ex::Ok,
        };
        count(if val.is_none() { "probe.build_incomplete" } else if !accepted { "probe.build_rejected_by_invariant" } else { "probe.build_complete" }, 1);
        let w = self.w.take().unwrap();
        let fired = world::fired();
        let r = sut(move || w.build());
        let injected = world::fired() > fired;
        match r {
            Ok(Ok(hv)) => {
                ev!("build: ok");
                if injected {
                    violate("a failure of user code was swallowed", "build");
                }
                if ex == Ex::Err {
                    let why = if val.is_none() { "although a part is missing" } else { "although the invariant rejects it" };
                    violate(format!("build succeeded {why}"), self.root.name);
                    // it must not be looked at
                    std::mem::forget(hv);
                    return None;
                }
                Some((hv, val.unwrap()))
            }
            Ok(Err(e)) => {
                let text = alloc::off(|| format!("{e}"));
                let _ = sut(move || drop(e));
                ev!("build: error {text}");
                if ex == Ex::Ok && !injected {
                    violate("build refused a complete value", format!("{}: {text}", self.root.name));
                }
                None
            }
            Err(Caught::Injected) => {
                ev!("build: unwound");
                None
            }
            Err(Caught::Panic(m, l)) => {
                violate("panic in build", format!("{m} at {l}"));
                None
            }
        }
    }

    pub fn abandon(mut self) {
        ev!("dropped");
        count("fault.cancelled", 1);
        if let Some(w) = self.w.take() {
            world::sut_np("dropping a builder", move || drop(w));
        }
    }
}

/// All that can be done with a finished value.
pub fn consume(hv: HeapValue<'static>, t: &'static Ty, val: &Val, ch: &mut Ch, look: bool) {
    if look {
        if let Some(v) = view::read(hv.peek(), t) {
            if v != *val {
                violate("finished value differs, read through the view", format!("{} instead of {}", v.short(), val.short()));
            }
        }
        compare(&hv, t, val);
        if !violated() {
            beside(&hv, t, val, ch);
        }
    }
    if violated() {
        std::mem::forget(hv);
        return;
    }
    match ch.below(if look { 4 } else { 3 }) {
        0 => {
            ev!("value dropped");
            world::sut_np("dropping a finished value", move || drop(hv));
        }
        1 => {
            // not its type
            let same = ch.chance(1, 2);
            let roots: Vec<_> = uni::build_roots().into_iter().map(|r| r()).filter(|r| r.ops.shape != t.ops.shape && (!same || r.ops.shape.layout == t.ops.shape.layout)).collect();
            let o = match roots.len() {
                0 if t.ops.shape == ty::<uni::TwoTok>().ops.shape => ty::<Tok>(),
                0 => ty::<uni::TwoTok>(),
                n => roots[ch.below(n)],
            };
            if let Some(r) = world::sut_np("materialize", move || (o.ops.mat)(hv)) {
                match r {
                    Ok(_) => violate("taken out as another type", t.name),
                    Err(e) => {
                        ev!("materialize as {}: error", o.name);
                        let _ = sut(move || drop(e));
                    }
                }
            }
        }
        _ => {
            if let Some(r) = world::sut_np("materialize", move || (t.ops.mat)(hv)) {
                match r {
                    Ok(v) => {
                        ev!("materialized");
                        if v != *val {
                            violate("finished value differs, read natively", format!("{} instead of {}", v.short(), val.short()));
                        }
                    }
                    Err(e) => {
                        violate("not taken out as its own type", format!("{e}"));
                        let _ = sut(move || drop(e));
                    }
                }
            }
        }
    }
}

/// Compared and printed while type-erased, against a native value of the same content.
fn compare(hv: &HeapValue<'static>, t: &'static Ty, val: &Val) {
    let layout = t.ops.shape.layout;
    let mut buf: Vec<u128> = vec![0; layout.size() / 16 + 1];
    let p = buf.as_mut_ptr() as *mut u8;
    let _ = sut(|| unsafe { (t.ops.emplace)(p, val) });
    let twin = unsafe { Peek::unchecked_new(PtrConst::new(p as *const u8), t.ops.shape) };
    let vt = t.ops.shape.vtable;
    if vt.eq.is_some() {
        match sut(|| hv.peek() == twin) {
            Ok(true) => {}
            o => violate("finished value is not equal to its native twin", format!("{}: {o:?}", val.short())),
        }
    }
    if vt.debug.is_some() && !any_kind(t, &|k| matches!(k, Kind::Map { .. })) {
        let a = sut(|| format!("{hv:?}"));
        let b = sut(|| format!("{twin:?}"));
        if let (Ok(a), Ok(b)) = (&a, &b) {
            if a != b {
                violate("finished value prints differently from its native twin", format!("{a} / {b}"));
            }
        } else {
            violate("printing a finished value failed", t.name);
        }
        let _ = sut(move || drop((a, b)));
    }
    let _ = sut(|| unsafe { (t.ops.drop)(p) });
}

/// Two finished values beside each other: of one type, or of types that only look alike.
fn beside(hv: &HeapValue<'static>, t: &'static Ty, val: &Val, ch: &mut Ch) {
    let (o, v) = match ch.below(4) {
        0 => (t, val.clone()),
        1 => {
            let mut v = val.clone();
            crate::props::vals::change(&mut v, ch);
            (t, v)
        }
        2 => (t, gen_at(t, ch, &g(), 1)),
        _ => {
            let alike: Vec<_> = uni::build_roots().into_iter().map(|r| r()).filter(|r| r.ops.shape != t.ops.shape && r.ops.shape.layout == t.ops.shape.layout).collect();
            if alike.is_empty() {
                return;
            }
            let o = alike[ch.below(alike.len())];
            (o, gen_at(o, ch, &g(), 1))
        }
    };
    let w = match sut(|| (o.ops.put)((o.ops.alloc)(), &v).and_then(|w| w.build())) {
        Ok(Ok(w)) => w,
        Ok(Err(e)) => {
            let _ = sut(move || drop(e));
            return;
        }
        // an invariant of user code that fails
        Err(_) => return,
    };
    count("probe.compared_erased", 1);
    let vt = t.ops.shape.vtable;
    let (a, b) = (hv.peek().data(), w.peek().data());
    let same = std::ptr::eq(o, t);
    let eq = vt.eq.filter(|_| same).map(|f| sut(|| unsafe { f(a, b) }));
    let ord = vt.partial_ord.filter(|_| same).map(|f| sut(|| unsafe { f(a, b) }));
    match (sut(|| (*hv == w, w == *hv)), eq) {
        (Ok((x, y)), Some(Ok(e))) if (x, y) == (e, e) => {}
        (Ok((false, false)), None) => {}
        (Ok(r), e) => violate("comparing finished values", format!("{} / {}: {r:?}, the type says {:?}", val.short(), v.short(), e.map(|e| e.ok()))),
        _ => {}
    }
    match (sut(|| hv.partial_cmp(&w)), ord) {
        (Ok(x), Some(Ok(e))) if x == e => {}
        (Ok(None), None) => {}
        (Ok(r), e) => violate("ordering finished values", format!("{} / {}: {r:?}, the type says {:?}", val.short(), v.short(), e.map(|e| e.ok()))),
        _ => {}
    }
    for (what, none, a, b) in [
        ("display", vt.display.is_none(), sut(|| format!("{hv}")), sut(|| format!("{}", hv.peek()))),
        ("debug", vt.debug.is_none(), sut(|| format!("{hv:?}")), sut(|| format!("{:?}", hv.peek()))),
    ] {
        match (a, b) {
            (Ok(a), Ok(b)) if a != b || (none && a != format!("⟨{}⟩", t.ops.shape)) => violate("finished value prints differently from its view", format!("{what}: {a} / {b}")),
            _ => {}
        }
    }
    if vt.display.is_some() && same && *val == v {
        if let (Ok(a), Ok(b)) = (sut(|| format!("{hv}")), sut(|| format!("{}", w.peek()))) {
            if a != b {
                violate("finished value prints differently from its twin", format!("{a} / {b}"));
            }
            let _ = sut(move || drop((a, b)));
        }
    }
    world::sut_np("dropping a finished value", move || drop(w));
}

fn history(b: &mut B, ch: &mut Ch, steps: usize) -> bool {
    for _ in 0..steps {
        if ch.chance(1, 4) {
            b.queries(ch);
        }
        if violated() || !b.random(ch) {
            return false;
        }
    }
    true
}

/// As `history`, in bigger strokes: parts completed member by member, overwritten as a whole,
/// entered again, left half-way.
fn campaign(b: &mut B, ch: &mut Ch, rounds: usize) -> bool {
    for _ in 0..rounds {
        if violated() {
            return false;
        }
        if b.st.is_empty() {
            return true;
        }
        let up = b.st.len() > 1 && b.top().role != Role::None;
        let go = match ch.below(10) {
            0..=2 => b.fill(ch) && (!up || !ch.chance(1, 2) || b.pop()),
            3 | 4 if b.top().role != Role::None => {
                // again: another variant, another whole value, nothing
                match (&b.top().ty.kind, ch.below(6)) {
                    (Kind::Enum { variants }, 0..=3) => {
                        let n = variants.len();
                        let i = match &b.top().p {
                            P::Enum(i, _) | P::Full(Val::Enum(i, _)) if ch.chance(2, 3) => *i,
                            _ => ch.below(n),
                        };
                        b.variant(i, false)
                    }
                    (_, 0) if default_known(b.top().ty) => b.put_default(false),
                    (_, 1) => b.put_empty(matches!(b.top().ty.kind, Kind::Map { .. })),
                    _ => {
                        let v = gen_at(b.top().ty, ch, &g(), b.st.len());
                        b.put(v)
                    }
                }
            }
            5 | 6 => match fields_of(b.top()).map_or(0, |f| f.len()) {
                0 => b.random(ch),
                n => {
                    let i = ch.below(n);
                    b.select(i, false)
                }
            },
            7 if up => b.pop(),
            _ => b.random(ch) && (!ch.chance(1, 2) || b.st.is_empty() || b.random(ch)),
        };
        if !go {
            return false;
        }
    }
    true
}

fn pick_root(ch: &mut Ch) -> &'static Ty {
    let roots = uni::build_roots();
    let t = ch.pick(&roots)();
    count("probe.roots", 1);
    t
}

/// C01: given up at any point.
pub fn c01(ch: &mut Ch) {
    let t = pick_root(ch);
    let Some(mut b) = B::new(t) else { return };
    let n = *ch.pick(&[3, 8, 20, 40, 80]);
    let mut go = if ch.chance(1, 2) { campaign(&mut b, ch, n / 2) } else { history(&mut b, ch, n) };
    if go && ch.chance(1, 4) && !b.st.is_empty() {
        go = b.finish(ch);
    }
    if go {
        if ch.chance(1, 5) {
            if let Some((hv, v)) = b.build() {
                consume(hv, t, &v, ch, false);
            }
        } else {
            b.abandon();
        }
    }
    if !violated() {
        audit(true);
    }
}

/// C02: finished.
pub fn c02(ch: &mut Ch) {
    let t = pick_root(ch);
    let Some(mut b) = B::new(t) else { return };
    let n = *ch.pick(&[0, 0, 3, 8, 20]);
    let mut go = if ch.chance(1, 3) { campaign(&mut b, ch, n) } else { history(&mut b, ch, n) };
    if go && !ch.chance(1, 6) && !b.st.is_empty() {
        go = b.finish(ch);
        if go && ch.chance(1, 4) {
            b.queries(ch);
        }
        if go && ch.chance(1, 4) && !b.st.is_empty() {
            go = b.pop();
        }
    }
    if go {
        if let Some((hv, v)) = b.build() {
            consume(hv, t, &v, ch, true);
        }
    }
    if !violated() {
        audit(true);
    }
}

/// C03: user code fails somewhere.
pub fn c03(ch: &mut Ch) {
    // half of the runs on types that call much user code
    let calling: [TyRef; 14] = [
        ty::<uni::Inv>, ty::<uni::Inv>, ty::<uni::TokMaps>, ty::<uni::TokMaps>, ty::<uni::Maps>, ty::<uni::Flat>, ty::<uni::EColl>, ty::<uni::Opts>,
        ty::<HashMap<Tok, uni::E8>>, ty::<HashMap<uni::Pair2, Vec<uni::TwoTok>>>, ty::<BTreeMap<Tok, uni::TwoTok>>, ty::<BTreeMap<Tok, BTreeMap<Tok, Tok>>>,
        ty::<BTreeMap<uni::Pair2, uni::ENest>>, ty::<uni::Arrs>,
    ];
    let t = if ch.chance(1, 2) { ch.pick(&calling)() } else { pick_root(ch) };
    let n = *ch.pick(&[0, 5, 15, 40]);
    let act = if ch.chance(1, 3) { Act::Refuse } else { Act::Panic };
    if ch.chance(1, 2) {
        let m = *ch.pick(&[6, 20, 40]);
        let k = 1 + ch.below(m) as u64;
        world::with(|w| w.plan_any = Some((k, act)));
    } else {
        let cb: Cb = *ch.pick(&[Cb::Parse, Cb::Default, Cb::Hash, Cb::Eq, Cb::Eq, Cb::Cmp, Cb::Cmp, Cb::Invariant, Cb::Invariant, Cb::Clone]);
        let m = *ch.pick(&[2, 6, 12]);
        let k = 1 + ch.below(m) as u64;
        world::with(|w| w.plan.push((cb, k, act)));
    }
    let Some(mut b) = B::new(t) else { return };
    let mut go = if ch.chance(1, 3) { campaign(&mut b, ch, n) } else { history(&mut b, ch, n) };
    if go && !b.st.is_empty() {
        go = b.finish(ch);
    }
    if go {
        if ch.chance(3, 4) {
            if let Some((hv, v)) = b.build() {
                world::with(|w| {
                    w.plan.clear();
                    w.plan_any = None;
                });
                consume(hv, t, &v, ch, true);
            }
        } else {
            b.abandon();
        }
    }
    if !violated() {
        // buffers may stay behind after a panic; values may not
        let f = world::fired();
        audit(f == 0);
    }
}

/// A construction of its own; how it ended.
pub fn task(ch: &mut Ch) -> String {
    let t = pick_root(ch);
    let Some(mut b) = B::new(t) else { return "unwound".into() };
    let n = *ch.pick(&[3, 8, 20]);
    let mut go = if ch.chance(1, 2) { campaign(&mut b, ch, n) } else { history(&mut b, ch, n) };
    if go && !b.st.is_empty() && ch.chance(3, 4) {
        go = b.finish(ch);
    }
    if !go {
        return "stopped".into();
    }
    if ch.chance(1, 4) {
        b.abandon();
        return "given up".into();
    }
    match b.build() {
        Some((hv, v)) => {
            world::end_of_faults();
            consume(hv, t, &v, ch, true);
            v.short()
        }
        None => "not built".into(),
    }
}
