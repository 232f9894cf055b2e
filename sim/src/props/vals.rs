//! V01, V02: histories of type-erased operations on live values, against the native types.
use crate::model::{Gen, Kind, Ty, Val, gen_at, gen_val};
use crate::native::{self, Bytes, Nat};
use crate::props::build::{default_val, parse_text};
use crate::rng::Ch;
use crate::tok::Tok;
use crate::uni::TwoTok;
use crate::world::{self, Act, CBS, Caught, Cb, audit, count, sut, violate, violated};
use crate::{alloc, ev, view};
use facet_core::{Characteristic, Def, Facet, MarkerTraits, PtrConst, PtrMut, PtrUninit, Shape, TypeNameOpts};
use facet_reflect::Peek;
use std::alloc::Layout;
use std::sync::{Arc, Weak};

/// Memory for one value, from the simulated allocator.
struct Buf {
    p: *mut u8,
    l: Layout,
}
impl Buf {
    fn new(t: &Ty) -> Buf {
        let l = t.ops.shape.layout;
        // the recorded layout must do for the native value
        if l.size() != t.ops.size || l.align() != t.ops.align {
            violate("recorded layout differs", format!("{}: {l:?}, natively {} / {}", t.name, t.ops.size, t.ops.align));
        }
        let l = Layout::from_size_align(t.ops.size, t.ops.align).unwrap();
        let p = if l.size() == 0 { l.align() as *mut u8 } else { sut(|| alloc::obtain(l)).unwrap() };
        Buf { p, l }
    }
    fn uninit(&self) -> PtrUninit<'static> {
        PtrUninit::new(self.p)
    }
    fn c(&self) -> PtrConst<'static> {
        PtrConst::new(self.p as *const u8)
    }
    fn m(&self) -> PtrMut<'static> {
        PtrMut::new(self.p)
    }
}
impl Drop for Buf {
    fn drop(&mut self) {
        if self.l.size() > 0 {
            let (p, l) = (self.p, self.l);
            let _ = sut(|| unsafe { std::alloc::dealloc(p, l) });
        }
    }
}

struct Slot {
    nat: &'static Nat,
    t: &'static Ty,
    b: Buf,
    val: Val,
    /// which shared allocation an Arc or Weak belongs to
    grp: Option<usize>,
}

impl Slot {
    fn peek(&self) -> Peek<'static> {
        unsafe { Peek::unchecked_new(self.b.c(), self.t.ops.shape) }
    }
}

struct H {
    slots: Vec<Slot>,
    groups: usize,
}

fn gb(ch: &mut Ch) -> Gen {
    Gen { big: ch.chance(1, 60), ..g() }
}

fn g() -> Gen {
    Gen { max_len: 3, max_depth: 4, ..Gen::default() }
}

/// typed access to the reference counts, and the shape of the weak or strong counterpart
struct ArcOps {
    strong: fn(*const u8) -> (usize, usize),
    weak: fn(*const u8) -> (usize, usize),
    arc: &'static Nat,
    wk: &'static Nat,
}

fn find<T: crate::model::Uni>() -> &'static Nat {
    let t = crate::model::ty::<T>();
    native::all().iter().find(|n| std::ptr::eq((n.ty)(), t)).unwrap()
}

fn arc_ops(t: &Ty) -> Option<ArcOps> {
    fn mk<T: crate::model::Uni + Facet>() -> ArcOps {
        ArcOps {
            strong: |p| unsafe {
                let a = &*(p as *const Arc<T>);
                (Arc::strong_count(a), Arc::weak_count(a))
            },
            weak: |p| unsafe {
                let a = &*(p as *const Weak<T>);
                (a.strong_count(), a.weak_count())
            },
            arc: find::<Arc<T>>(),
            wk: find::<Weak<T>>(),
        }
    }
    let s = t.ops.shape;
    if s == <Arc<Tok>>::SHAPE || s == <Weak<Tok>>::SHAPE {
        Some(mk::<Tok>())
    } else if s == <Arc<String>>::SHAPE || s == <Weak<String>>::SHAPE {
        Some(mk::<String>())
    } else {
        None
    }
}

/// Runs a type-erased operation; None if it unwound (allowed only when a failure was injected).
fn op<R>(what: &str, t: &Ty, f: impl FnOnce() -> R) -> Option<R> {
    match sut(f) {
        Ok(r) => Some(r),
        Err(Caught::Injected) => {
            ev!("{what}: unwound");
            None
        }
        Err(Caught::Panic(m, l)) => {
            violate("panic in a type-erased operation", format!("{what} on {}: {m} at {l}", t.name));
            None
        }
    }
}

impl H {
    fn add(&mut self, nat: &'static Nat, b: Buf, val: Val, grp: Option<usize>) {
        self.slots.push(Slot { nat, t: (nat.ty)(), b, val, grp });
    }

    fn fresh(&mut self, ch: &mut Ch) {
        let all = native::all();
        let nat = &all[ch.below(all.len())];
        let big = gb(ch);
        let v = gen_val((nat.ty)(), ch, &big);
        self.fresh_of(nat, v);
    }

    fn fresh_of(&mut self, nat: &'static Nat, v: Val) -> bool {
        let t = (nat.ty)();
        let b = Buf::new(t);
        ev!("new {} {}", t.name, v.short());
        // native construction may call hash and comparison, too
        if sut(|| unsafe { (t.ops.emplace)(b.p, &v) }).is_err() {
            return false;
        }
        let grp = if arc_ops(t).is_some() && !matches!(t.kind, Kind::Weak) {
            self.groups += 1;
            Some(self.groups)
        } else {
            None
        };
        self.add(nat, b, v, grp);
        true
    }

    /// counts of live handles of a group: Arcs, Weaks
    fn handles(&self, grp: usize) -> (usize, usize) {
        let w = |s: &&Slot| matches!(s.t.kind, Kind::Weak);
        let of: Vec<&Slot> = self.slots.iter().filter(|s| s.grp == Some(grp)).collect();
        (of.iter().filter(|s| !w(s)).count(), of.iter().filter(|s| w(s)).count())
    }

    fn check_slot(&self, i: usize) {
        let s = &self.slots[i];
        let Some(r) = op("read", s.t, || unsafe { (s.t.ops.read)(s.b.p) }) else { return };
        if r != s.val {
            violate("value differs natively after type-erased operations", format!("{}: {} instead of {}", s.t.name, r.short(), s.val.short()));
            return;
        }
        if let Some(Some(v)) = op("view", s.t, || view::read(s.peek(), s.t)) {
            if v != s.val {
                violate("value differs through the view", format!("{}: {} instead of {}", s.t.name, v.short(), s.val.short()));
            }
        }
        if let (Some(a), Some(gid)) = (arc_ops(s.t), s.grp) {
            let (st, wk) = self.handles(gid);
            let weak = matches!(s.t.kind, Kind::Weak);
            let got = if weak { (a.weak)(s.b.p) } else { (a.strong)(s.b.p) };
            // a Weak reports 0 weak handles once the value is gone
            let want = if st == 0 { (0, if weak { got.1 } else { wk }) } else { (st, wk) };
            if got != want {
                violate("reference counts differ from the live handles", format!("{}: {got:?} instead of {want:?}", s.t.name));
            }
        }
    }

    fn clone(&mut self, i: usize) {
        let s = &self.slots[i];
        let Some(f) = s.t.ops.shape.vtable.clone_into else { return };
        let b = Buf::new(s.t);
        let (src, dst) = (s.b.c(), b.uninit());
        if let Some(p) = op("clone", s.t, || unsafe { f(src, dst) }) {
            ev!("clone of {} {}", s.t.name, s.val.short());
            count("probe.cloned", 1);
            if p.as_byte_ptr() != b.p as *const u8 {
                violate("operation answers with another address", "clone");
            }
            let (nat, v, grp) = (s.nat, s.val.clone(), s.grp);
            self.add(nat, b, v, grp);
            let n = self.slots.len() - 1;
            self.check_slot(n);
        }
    }

    fn drop_slot(&mut self, i: usize) {
        let s = self.slots.swap_remove(i);
        let before = world::with(|w| w.dropped);
        let vt = s.t.ops.shape.vtable;
        match vt.drop_in_place {
            Some(d) => {
                op("drop", s.t, || unsafe { d(s.b.m()) });
            }
            None => {
                if crate::model::any_kind(s.t, &|k| matches!(k, Kind::Tok | Kind::ZTok | Kind::Ptr(_) | Kind::List(_) | Kind::Map { .. })) {
                    violate("a value that owns something has no destructor", s.t.name);
                }
            }
        }
        ev!("drop {} destroyed {}", s.t.name, world::with(|w| w.dropped) - before);
    }

    fn default(&mut self, ch: &mut Ch) {
        let all = native::all();
        let nat = &all[ch.below(all.len())];
        let t = (nat.ty)();
        let Some(f) = t.ops.shape.vtable.default_in_place else { return };
        let b = Buf::new(t);
        if op("default", t, || unsafe { f(b.uninit()) }).is_none() {
            return;
        }
        let v = match nat.default {
            Some(d) => {
                let n = Buf::new(t);
                if sut(|| unsafe { d(n.p) }).is_err() {
                    // the reference was the one to fail: nothing to compare
                    let v = op("read", t, || unsafe { (t.ops.read)(b.p) });
                    self.add(nat, b, v.unwrap_or(Val::Unit), None);
                    let i = self.slots.len() - 1;
                    self.drop_slot(i);
                    return;
                }
                let v = unsafe { (t.ops.read)(n.p) };
                let _ = sut(|| unsafe { (t.ops.drop)(n.p) });
                v
            }
            None => {
                violate("a default the native type does not have", t.name);
                default_val(t).unwrap_or(Val::Unit)
            }
        };
        ev!("default of {}", t.name);
        count("probe.defaulted", 1);
        self.add(nat, b, v, None);
        let i = self.slots.len() - 1;
        self.check_slot(i);
    }

    fn parse(&mut self, ch: &mut Ch) {
        let all = native::all();
        let nat = &all[ch.below(all.len())];
        let t = (nat.ty)();
        let Some(f) = t.ops.shape.vtable.parse else { return };
        let v = gen_at(t, ch, &g(), 0);
        let text = match (parse_text(t, &v), ch.below(6)) {
            (Some(s), 1..) => s,
            _ => ch.pick(&["", "0", "-1", "256", "1e5", "nan", "tr", "x", "t7", "-0", "+3", "99999999999999999999999999999999999999999"]).to_string(),
        };
        let b = Buf::new(t);
        let fired = world::fired();
        let Some(r) = op("parse", t, || unsafe { f(&text, b.uninit()).is_ok() }) else { return };
        if world::fired() > fired {
            return;
        }
        let n = Buf::new(t);
        // an option parses as the value it then holds
        let (nok, nv) = match (nat.parse, &t.kind) {
            (Some(p), _) => match sut(|| unsafe { p(&text, n.p) }) {
                Ok(true) => {
                    let v = unsafe { (t.ops.read)(n.p) };
                    let _ = sut(|| unsafe { (t.ops.drop)(n.p) });
                    (true, Some(v))
                }
                Ok(false) => (false, None),
                Err(_) => (r, None),
            },
            (None, Kind::Opt(_)) => (r, r.then(|| unsafe { (t.ops.read)(b.p) })),
            (None, _) => {
                violate("parses although the native type does not", t.name);
                (r, None)
            }
        };
        ev!("parse {} {text:?}: {r}", t.name);
        if world::fired() > fired {
            // the reference was the one to fail: nothing to compare
            if r {
                let v = unsafe { (t.ops.read)(b.p) };
                self.add(nat, b, v, None);
            }
            return;
        }
        if r != nok {
            violate("parsing differs from the native type", format!("{} {text:?}: {r}, natively {nok}", t.name));
            return;
        }
        if r {
            let v = nv.unwrap_or_else(|| unsafe { (t.ops.read)(b.p) });
            self.add(nat, b, v, None);
            let i = self.slots.len() - 1;
            self.check_slot(i);
        }
    }

    /// a value placed in memory of its own, to be moved from
    fn temp(&self, t: &'static Ty, v: &Val) -> Option<Buf> {
        let b = Buf::new(t);
        sut(|| unsafe { (t.ops.emplace)(b.p, v) }).ok()?;
        Some(b)
    }

    fn list(&mut self, i: usize, ch: &mut Ch) {
        let (t, b) = (self.slots[i].t, self.slots[i].b.m());
        let Kind::List(inner) = &t.kind else { return };
        let inner = inner();
        let Def::List(def) = t.ops.shape.def else { return violate("not described as a list", t.name) };
        match ch.below(3) {
            0 => {
                let cap = ch.below(6);
                let nb = Buf::new(t);
                let Some(initf) = def.vtable.init_in_place_with_capacity else { return violate("list cannot be created", t.name) };
                if op("init list", t, || unsafe { initf(nb.uninit(), cap) }).is_some() {
                    ev!("empty {} with room for {cap}", t.name);
                    let nat = self.slots[i].nat;
                    self.add(nat, nb, Val::List(vec![]), None);
                }
            }
            _ => {
                let v = gen_at(inner, ch, &g(), 2);
                let Some(tmp) = self.temp(inner, &v) else { return };
                if op("push", t, || unsafe { (def.vtable.push)(b, tmp.m()) }).is_some() {
                    ev!("push {}", v.short());
                    if let Val::List(l) = &mut self.slots[i].val {
                        l.push(v);
                    }
                }
            }
        }
        self.check_slot(i);
    }

    fn map(&mut self, i: usize, ch: &mut Ch) {
        let (t, b) = (self.slots[i].t, self.slots[i].b.m());
        let Kind::Map { key, val } = &t.kind else { return };
        let (kt, vt) = (key(), val());
        let Def::Map(def) = t.ops.shape.def else { return violate("not described as a map", t.name) };
        let existing = match &self.slots[i].val {
            Val::Map(m) if !m.is_empty() && ch.chance(1, 3) => Some(m[ch.below(m.len())].0.clone()),
            _ => None,
        };
        let repeated = existing.is_some();
        let k = existing.unwrap_or_else(|| gen_at(kt, ch, &g(), 2));
        match ch.below(5) {
            0 => {
                let cap = ch.below(9);
                let nb = Buf::new(t);
                if op("init map", t, || unsafe { (def.vtable.init_in_place_with_capacity_fn)(nb.uninit(), cap) }).is_some() {
                    ev!("empty {} with room for {cap}", t.name);
                    let nat = self.slots[i].nat;
                    self.add(nat, nb, Val::Map(vec![]), None);
                }
            }
            1 => {
                // lookup
                let Some(tmp) = self.temp(kt, &k) else { return };
                let Val::Map(m) = &self.slots[i].val else { return };
                let want = m.iter().find(|(x, _)| *x == k).map(|(_, v)| v.clone());
                if let Some(has) = op("contains_key", t, || unsafe { (def.vtable.contains_key_fn)(b.as_const(), tmp.c()) }) {
                    if has != want.is_some() {
                        violate("map lookup differs", format!("contains_key {}: {has}", k.short()));
                    }
                }
                if let Some(got) = op("get", t, || unsafe { (def.vtable.get_value_ptr_fn)(b.as_const(), tmp.c()) }) {
                    let got = got.map(|p| unsafe { (vt.ops.read)(p.as_byte_ptr()) });
                    if got != want {
                        violate("map lookup differs", format!("get {}: {got:?} instead of {want:?}", k.short()));
                    }
                }
                ev!("lookup {}", k.short());
                let _ = sut(|| unsafe { (kt.ops.drop)(tmp.p) });
            }
            2 => {
                // iterate, perhaps not to the end
                let Some(it) = op("iter", t, || unsafe { (def.vtable.iter_fn)(b.as_const()) }) else { return };
                let Val::Map(m) = self.slots[i].val.clone() else { return };
                let stop = if ch.chance(1, 2) { usize::MAX } else { ch.below(m.len() + 1) };
                let mut seen: Vec<(Val, Val)> = Vec::new();
                let mut ended = false;
                while seen.len() < stop {
                    match op("next", t, || unsafe { (def.vtable.iter_vtable.next)(it) }) {
                        Some(Some((kp, vp))) => {
                            let e = unsafe { ((kt.ops.read)(kp.as_byte_ptr()), (vt.ops.read)(vp.as_byte_ptr())) };
                            if seen.iter().any(|(x, _)| *x == e.0) || !m.contains(&e) {
                                violate("map iteration differs", format!("{} reaches {} wrongly", t.name, e.0.short()));
                                break;
                            }
                            seen.push(e);
                        }
                        Some(None) => {
                            ended = true;
                            break;
                        }
                        None => break,
                    }
                }
                if ended && seen.len() != m.len() {
                    violate("map iteration differs", format!("{}: {} of {} entries", t.name, seen.len(), m.len()));
                }
                if ended && t.name == "BTreeMap" && seen.windows(2).any(|w| w[0].0.partial_cmp(&w[1].0) != Some(std::cmp::Ordering::Less)) {
                    violate("map iteration differs", "a sorted map is iterated out of order");
                }
                if !ended {
                    count("fault.iterator_abandoned", 1);
                }
                op("dealloc iterator", t, || unsafe { (def.vtable.iter_vtable.dealloc)(it) });
                ev!("iterated {} of {}", seen.len(), m.len());
            }
            _ => {
                let v = gen_at(vt, ch, &g(), 2);
                let (Some(kb), Some(vb)) = (self.temp(kt, &k), self.temp(vt, &v)) else { return };
                if repeated {
                    count("probe.map_key_repeated", 1);
                }
                if op("insert", t, || unsafe { (def.vtable.insert_fn)(b, kb.m(), vb.m()) }).is_some() {
                    ev!("insert {} {}", k.short(), v.short());
                    if let Val::Map(m) = &mut self.slots[i].val {
                        match m.iter_mut().find(|(x, _)| *x == k) {
                            Some(e) => e.1 = v,
                            None => m.push((k, v)),
                        }
                        let m = std::mem::take(m);
                        self.slots[i].val = Val::sort_maps(m);
                    }
                }
                let n = op("len", t, || unsafe { (def.vtable.len_fn)(b.as_const()) });
                if let (Some(n), Val::Map(m)) = (n, &self.slots[i].val) {
                    if n != m.len() {
                        violate("map length differs", format!("{n} instead of {}", m.len()));
                    }
                }
            }
        }
        self.check_slot(i);
    }

    fn option(&mut self, i: usize, ch: &mut Ch) {
        let (t, nat) = (self.slots[i].t, self.slots[i].nat);
        let Kind::Opt(inner) = &t.kind else { return };
        let inner = inner();
        let Def::Option(def) = t.ops.shape.def else { return violate("not described as an option", t.name) };
        let v = gen_at(inner, ch, &g(), 1);
        match ch.below(4) {
            0 => {
                let nb = Buf::new(t);
                if op("init_none", t, || unsafe { (def.vtable.init_none_fn)(nb.uninit()) }).is_some() {
                    ev!("new None");
                    self.add(nat, nb, Val::Opt(None), None);
                }
            }
            1 => {
                let Some(tmp) = self.temp(inner, &v) else { return };
                let nb = Buf::new(t);
                if op("init_some", t, || unsafe { (def.vtable.init_some_fn)(nb.uninit(), tmp.c()) }).is_some() {
                    ev!("new Some {}", v.short());
                    self.add(nat, nb, Val::Opt(Some(Box::new(v))), None);
                }
            }
            2 => {
                let p = self.slots[i].b.m();
                if op("replace_with None", t, || unsafe { (def.vtable.replace_with_fn)(p, None) }).is_some() {
                    ev!("taken");
                    self.slots[i].val = Val::Opt(None);
                }
            }
            _ => {
                let p = self.slots[i].b.m();
                let Some(tmp) = self.temp(inner, &v) else { return };
                if op("replace_with Some", t, || unsafe { (def.vtable.replace_with_fn)(p, Some(tmp.c())) }).is_some() {
                    ev!("replaced by {}", v.short());
                    self.slots[i].val = Val::Opt(Some(Box::new(v)));
                }
            }
        }
        self.check_slot(i);
    }

    fn pointer(&mut self, i: usize, ch: &mut Ch) {
        let t = self.slots[i].t;
        let Def::SmartPointer(def) = t.ops.shape.def else { return violate("not described as a smart pointer", t.name) };
        let weak = matches!(t.kind, Kind::Weak);
        let b = self.slots[i].b.m();
        match ch.below(3) {
            0 if !weak => {
                // a new one from a pointee
                let Kind::Ptr(inner) = &t.kind else { return };
                if t.name == "NonNull" {
                    // wraps an address, not a value
                    return;
                }
                let Some(f) = def.vtable.new_into_fn else { return violate("a shared pointer that cannot be created", t.name) };
                let v = gen_at(inner(), ch, &g(), 1);
                let Some(tmp) = self.temp(inner(), &v) else { return };
                let nb = Buf::new(t);
                if op("new_into", t, || unsafe { f(nb.uninit(), tmp.c()) }).is_some() {
                    ev!("new pointer to {}", v.short());
                    let nat = self.slots[i].nat;
                    let grp = arc_ops(t).map(|_| {
                        self.groups += 1;
                        self.groups
                    });
                    self.add(nat, nb, Val::Ptr(Box::new(v)), grp);
                    let n = self.slots.len() - 1;
                    self.check_slot(n);
                }
            }
            _ if weak => {
                let Some(a) = arc_ops(t) else { return };
                let Some(f) = def.vtable.upgrade_into_fn else { return violate("a weak pointer that cannot be upgraded", t.name) };
                let st = (a.arc.ty)();
                let nb = Buf::new(st);
                let grp = self.slots[i].grp;
                let alive = grp.is_some_and(|x| self.handles(x).0 > 0);
                let Some(r) = op("upgrade", t, || unsafe { f(b, nb.uninit()).is_some() }) else { return };
                ev!("upgrade: {r}");
                if r != alive {
                    violate("upgrade differs", format!("{}: {r} with {} strong handles", t.name, alive as u8));
                    return;
                }
                if r {
                    count("probe.upgraded", 1);
                    let v = self.slots.iter().find(|s| s.grp == grp && !matches!(s.t.kind, Kind::Weak)).unwrap().val.clone();
                    self.add(a.arc, nb, v, grp);
                    let n = self.slots.len() - 1;
                    self.check_slot(n);
                } else {
                    count("probe.upgrade_refused", 1);
                }
            }
            1 => {
                let Some(a) = arc_ops(t) else { return };
                let Some(f) = def.vtable.downgrade_into_fn else { return violate("a shared pointer that cannot be downgraded", t.name) };
                let wt = (a.wk.ty)();
                if def.weak.map(|w| w()) != Some(wt.ops.shape) {
                    violate("wrong description of the weak counterpart", t.name);
                }
                let nb = Buf::new(wt);
                if op("downgrade", t, || unsafe { f(b, nb.uninit()) }).is_some() {
                    ev!("downgraded");
                    let grp = self.slots[i].grp;
                    self.add(a.wk, nb, Val::Unit, grp);
                    let n = self.slots.len() - 1;
                    self.check_slot(n);
                }
            }
            _ => {
                let Kind::Ptr(inner) = &t.kind else { return };
                let Some(f) = def.vtable.borrow_fn else { return violate("a shared pointer that cannot be borrowed", t.name) };
                if let Some(p) = op("borrow", t, || unsafe { f(b.as_const()) }) {
                    let v = unsafe { (inner().ops.read)(p.as_byte_ptr()) };
                    ev!("borrowed {}", v.short());
                    if Val::Ptr(Box::new(v)) != self.slots[i].val {
                        violate("borrowed value differs", t.name);
                    }
                }
            }
        }
        self.check_slot(i);
    }

    fn step(&mut self, ch: &mut Ch) {
        if self.slots.is_empty() || (self.slots.len() < 12 && ch.chance(1, 5)) {
            return match ch.below(4) {
                1 => self.default(ch),
                2 => self.parse(ch),
                _ => self.fresh(ch),
            };
        }
        // the most recent values are the ones most worked on
        let n = self.slots.len();
        let i = if ch.chance(1, 2) { n - 1 } else { ch.below(n) };
        match ch.below(8) {
            0 => self.drop_slot(i),
            1 if n < 14 => self.clone(i),
            2 => {
                self.check_slot(i);
                outside(&self.slots[i], ch);
            }
            3 => {
                let j = ch.below(n);
                compare(&self.slots[i], &self.slots[j], ch);
            }
            _ => match &self.slots[i].t.kind {
                Kind::List(_) => self.list(i, ch),
                Kind::Map { .. } => self.map(i, ch),
                Kind::Opt(_) => self.option(i, ch),
                Kind::Ptr(_) | Kind::Weak => self.pointer(i, ch),
                _ if n < 14 => self.clone(i),
                _ => self.drop_slot(i),
            },
        }
    }

    fn end(&mut self, ch: &mut Ch) {
        while !self.slots.is_empty() && !violated() {
            let n = self.slots.len();
            let i = ch.below(n);
            self.drop_slot(i);
        }
        if violated() {
            for s in std::mem::take(&mut self.slots) {
                std::mem::forget(s);
            }
        }
    }
}

/// An item that isn't there is refused.
fn outside(s: &Slot, ch: &mut Ch) {
    let Val::List(l) = &s.val else { return };
    let get = match s.t.ops.shape.def {
        Def::List(d) => d.vtable.get_item_ptr,
        Def::Array(d) => d.vtable.get_item_ptr,
        Def::Slice(d) => d.vtable.get_item_ptr,
        _ => return,
    };
    let n = l.len();
    let k = *ch.pick(&[n, n, n + 1, 2 * n + 1, 1 << 31, usize::MAX / 8, usize::MAX]);
    if sut(|| unsafe { get(s.b.c(), k) }).is_ok() {
        violate("an item that is not there was handed out", format!("item {k} of {n} of {}", s.t.name));
    }
}

pub fn erased_hash(p: Peek<'static>) -> Option<Vec<u8>> {
    let f = p.shape().vtable.hash?;
    let mut h = Bytes::default();
    unsafe { f(p.data(), PtrMut::new(&mut h as *mut Bytes), |h, b| std::hash::Hasher::write(h.as_mut::<Bytes>(), b)) };
    Some(h.0)
}

/// Everything observable about two values of one type, type-erased against natively.
fn compare(a: &Slot, b: &Slot, ch: &mut Ch) {
    let t = a.t;
    let (pa, pb) = (a.peek(), b.peek());
    if !std::ptr::eq(a.t, b.t) {
        // values of different types are not equal, not ordered
        let r = op("compare types", t, || (pa == pb, Peek::eq(&pa, &pb), Peek::partial_cmp(&pa, &pb), PartialOrd::partial_cmp(&pa, &pb)));
        if r.is_some_and(|r| r.0 || r.1.is_some() || r.2.is_some() || r.3.is_some()) {
            violate("values of different types compare", format!("{} and {}", a.t.name, b.t.name));
        }
        return;
    }
    let (na, nb) = (a.b.p as *const u8, b.b.p as *const u8);
    let vt = t.ops.shape.vtable;
    ev!("compare {} {} / {}", t.name, a.val.short(), b.val.short());
    macro_rules! same {
        ($what:literal, $native:expr, $erased:expr) => {{
            let fired = world::fired();
            let n = sut(|| $native);
            let e = sut(|| $erased);
            let fired = world::fired() > fired;
            match (n, e) {
                (Ok(n), Ok(e)) => {
                    if n != e && !fired {
                        violate(concat!($what, " differs from the native type"), format!("{}: {e:?}, natively {n:?} for {} / {}", t.name, a.val.short(), b.val.short()));
                    }
                    let _ = sut(move || drop((n, e)));
                }
                (_, Err(Caught::Panic(m, l))) => violate(concat!("panic in ", $what), format!("{m} at {l}")),
                (n, e) => {
                    let _ = sut(move || drop((n.ok(), e.ok())));
                }
            }
        }};
    }
    if let (Some(n), Some(_)) = (a.nat.eq, vt.eq) {
        same!("equality", unsafe { n(na, nb) }, pa == pb);
        same!("equality", unsafe { Some(n(na, nb)) }, Peek::eq(&pa, &pb));
    }
    if let (Some(n), Some(_)) = (a.nat.pcmp, vt.partial_ord) {
        same!("partial order", unsafe { n(na, nb) }, Peek::partial_cmp(&pa, &pb));
        same!("partial order", unsafe { n(na, nb) }, PartialOrd::partial_cmp(&pa, &pb));
    }
    if let (Some(n), Some(e)) = (a.nat.cmp, vt.ord) {
        same!("order", unsafe { n(na, nb) }, unsafe { e(a.b.c(), b.b.c()) });
    }
    let has_map = crate::model::any_kind(t, &|k| matches!(k, Kind::Map { .. }));
    if let (Some(n), Some(_)) = (a.nat.hash, vt.hash) {
        same!("hash", unsafe { n(na) }, erased_hash(pa).unwrap());
    } else if vt.hash.is_some() && a.val == b.val && !crate::model::any_kind(t, &|k| matches!(k, Kind::F32 | Kind::F64)) {
        same!("hash of an equal value", erased_hash(pa), erased_hash(pb));
    }
    // the method of the view: the same bytes into whatever hasher is given
    if let Some(Ok(Some(x))) = Some(sut(|| erased_hash(pa))) {
        let mut h = native::Bytes::default();
        if let Ok(done) = sut(|| pa.hash(&mut h)) {
            if !done || h.0 != x {
                violate("hash differs by access path", format!("{}: {done} {:?} instead of {x:?}", t.name, h.0));
            }
        }
        let mut h = native::Bytes::default();
        if sut(|| std::hash::Hash::hash(&pa, &mut h)).is_ok() && h.0 != x {
            violate("hash differs by access path", format!("{}: {:?} instead of {x:?}", t.name, h.0));
        }
    } else if vt.hash.is_none() && sut(|| pa.hash(&mut native::Bytes::default())).is_ok_and(|x| x) {
        violate("a hash of a type that has none", t.name);
    }
    if pa.ptr_eq(&pb) != std::ptr::eq(na, nb) || (pa.id() == pb.id()) != std::ptr::eq(na, nb) {
        violate("identity differs", format!("{}: {} and {}", t.name, pa.id(), pb.id()));
    }
    if let (Some(n), Some(_)) = (a.nat.debug, vt.debug) {
        // layout options are the native type's business where it prints itself
        let o = if a.nat.strict && !has_map { ch.below(4) as u8 } else { 0 };
        same!("debug text", unsafe { n(na, o) }, native::debug_opt(&pa, o));
    }
    if let (Some(n), Some(_)) = (a.nat.display, vt.display) {
        let o = ch.below(4) as u8;
        same!("display text", unsafe { n(na, o) }, native::display_opt(&pa, o));
    }
    // a value that cannot print itself is shown by its type
    let shown = |what: &str, r: Result<String, Caught>, want: String| match r {
        Ok(x) if x != want => violate(format!("{what} text differs"), format!("{}: {x} instead of {want}", t.name)),
        Err(Caught::Panic(m, l)) => violate(format!("panic in {what}"), format!("{m} at {l}")),
        _ => {}
    };
    if vt.debug.is_none() {
        shown("debug", sut(|| format!("{pa:?}")), format!("⟨{}⟩", type_name(t, -1)));
    }
    if vt.display.is_none() {
        shown("display", sut(|| format!("{pa}")), format!("⟨{}⟩", type_name(t, -1)));
    } else if let (Kind::Array(i, n), true) = (&t.kind, t.ops.size > 0) {
        let (i, step) = (i().ops.shape, t.ops.size / n);
        let fired = world::fired();
        let one = |k: usize| native::text(format_args!("{}", unsafe { Peek::unchecked_new(PtrConst::new(na.add(k * step)), i) }));
        let all = sut(|| (0..*n).map(one).collect::<Vec<_>>().join(", "));
        if let (Ok(all), true) = (all, fired == world::fired()) {
            let r = sut(|| native::display_opt(&pa, 0));
            if fired == world::fired() {
                shown("display", r, format!("[{all}]"));
            }
        }
    }
    count("probe.compared", 1);
}

/// The name as the description gives it, to a depth.
fn type_name(t: &'static Ty, depth: isize) -> String {
    shape_name(t.ops.shape, depth)
}

fn shape_name(s: &'static Shape, depth: isize) -> String {
    struct N(&'static Shape, isize);
    impl std::fmt::Display for N {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            let mut o = TypeNameOpts::infinite();
            match self.1 {
                0 => o = TypeNameOpts::none(),
                1 => o = TypeNameOpts::one(),
                _ => o.recurse_ttl = self.1,
            }
            self.0.write_type_name(f, o)
        }
    }
    N(s, depth).to_string()
}

/// The names of containers are made of the names of their parts.
fn names(t: &'static Ty) {
    let base = match t.name {
        "Vec" | "HashMap" | "BTreeMap" | "Option" => t.name,
        "array" | "slice" => "",
        n if n.starts_with("tuple") => "",
        _ => return,
    };
    let parts = native::parts(t);
    for d in [-1isize, 0, 1, 2, 3] {
        let inner: Vec<_> = parts.iter().map(|p| type_name(p, if d > 0 { d - 1 } else { d })).collect();
        let inner = if d == 0 { None } else { Some(inner.join(", ")) };
        let (open, close) = match &t.kind {
            Kind::Array(_, n) => ("[".to_string(), format!("; {n}]")),
            Kind::Slice(_) => ("&[".into(), "]".into()),
            Kind::Struct { .. } => ("(".into(), ")".into()),
            _ => (format!("{base}<"), ">".into()),
        };
        let got = type_name(t, d);
        let ok = match &inner {
            Some(i) => got == format!("{open}{i}{close}") || (parts.len() == 1 && close == ")" && got == format!("({i},)")),
            None => ["⋯", "…"].iter().any(|x| got == format!("{open}{x}{close}")),
        };
        if !ok {
            violate("the name of a type is not made of its parts' names", format!("{} at {d}: {got}, with {inner:?}", t.name));
        }
        if d == -1 && format!("{}", t.ops.shape) != got {
            violate("a type displays as something else than its name", got);
        }
    }
}

/// What is asked of several types at once.
fn asked(nat: &'static Nat, c: Characteristic) {
    static SHAPES: std::sync::OnceLock<Vec<&'static Shape>> = std::sync::OnceLock::new();
    let all = SHAPES.get_or_init(|| alloc::off(|| native::all().iter().map(|n| (n.ty)().ops.shape).collect()));
    let i = native::all().iter().position(|n| std::ptr::eq(n, nat)).unwrap();
    let s = &all[i.saturating_sub(i % 4)..=i];
    let n = s.iter().filter(|s| s.is(c)).count();
    if (c.all(s), c.any(s), c.none(s)) != (n == s.len(), n > 0, n == 0) || !c.all(&[]) || c.any(&[]) || !c.none(&[]) {
        violate("a characteristic of several types differs", format!("{n} of {}", s.len()));
    }
    for o in s {
        if all[i].is_shape(o) != (all[i].id == o.id) || sut(|| all[i].assert_shape(o)).is_ok() != (all[i].id == o.id) {
            violate("a type is taken for another", format!("{} and {o}", all[i]));
        }
    }
}

/// What is offered: exactly what the native type offers (or what the parts of a container offer).
fn offers(nat: &'static Nat) {
    let t = (nat.ty)();
    let s = t.ops.shape;
    let vt = s.vtable;
    let ops: [(&str, bool, bool, Characteristic); 9] = [
        ("clone", nat.clone.is_some(), vt.clone_into.is_some(), Characteristic::Clone),
        ("default", nat.default.is_some(), vt.default_in_place.is_some(), Characteristic::Default),
        ("eq", nat.eq.is_some(), vt.eq.is_some(), Characteristic::PartialEq),
        ("pcmp", nat.pcmp.is_some(), vt.partial_ord.is_some(), Characteristic::PartialOrd),
        ("cmp", nat.cmp.is_some(), vt.ord.is_some(), Characteristic::Ord),
        ("hash", nat.hash.is_some(), vt.hash.is_some(), Characteristic::Hash),
        ("debug", nat.debug.is_some(), vt.debug.is_some(), Characteristic::Debug),
        ("display", nat.display.is_some(), vt.display.is_some(), Characteristic::Display),
        ("parse", nat.parse.is_some(), vt.parse.is_some(), Characteristic::FromStr),
    ];
    for (n, native, erased, c) in ops {
        let parts_have = || {
            native::parts(t).iter().all(|p| {
                let v = p.ops.shape.vtable;
                match n {
                    "clone" => v.clone_into.is_some(),
                    "eq" => v.eq.is_some(),
                    "pcmp" => v.partial_ord.is_some(),
                    "cmp" => v.ord.is_some(),
                    "hash" => v.hash.is_some(),
                    "debug" => v.debug.is_some(),
                    _ => true,
                }
            })
        };
        if nat.strict && native != erased {
            violate("offered operations differ from the native type", format!("{}: {n} {erased}, natively {native}", t.name));
        }
        if !nat.strict && native && !erased && native::passed_on(t).contains(&n) && parts_have() {
            violate("offered operations differ from the native type", format!("{}: {n} is missing", t.name));
        }
        // the container may not claim what a part cannot do
        if erased && !parts_have() {
            violate("an operation is offered that a part does not have", format!("{}: {n}", t.name));
        }
        let by_name = match c {
            Characteristic::Clone => s.is_clone(),
            Characteristic::Default => s.is_default(),
            Characteristic::PartialEq => s.is_partial_eq(),
            Characteristic::PartialOrd => s.is_partial_ord(),
            Characteristic::Ord => s.is_ord(),
            Characteristic::Hash => s.is_hash(),
            Characteristic::Debug => s.is_debug(),
            Characteristic::Display => s.is_display(),
            _ => s.is_from_str(),
        };
        if s.is(c) != erased || by_name != erased {
            violate("a characteristic differs from what is offered", format!("{}: {n}", t.name));
        }
        asked(nat, c);
    }
    names(t);
    let flags = [MarkerTraits::EQ, MarkerTraits::SEND, MarkerTraits::SYNC, MarkerTraits::COPY, MarkerTraits::UNPIN];
    for (i, f) in flags.into_iter().enumerate() {
        let e = vt.marker_traits.contains(f);
        if nat.strict && e != nat.marks[i] {
            violate("marker traits differ from the native type", format!("{}: {f:?} {e}", t.name));
        }
        let by_name = [s.is_eq(), s.is_send(), s.is_sync(), s.is_copy(), e][i];
        let c = [Characteristic::Eq, Characteristic::Send, Characteristic::Sync, Characteristic::Copy, Characteristic::Unpin][i];
        if by_name != e || s.is(c) != e {
            violate("a characteristic differs from what is offered", format!("{}: {f:?}", t.name));
        }
        // a container may pass on less than it could, not more
        if e && !nat.marks[i] {
            violate("a marker trait is claimed that the native type does not have", format!("{}: {f:?}", t.name));
        }
    }
}

pub fn change(v: &mut Val, ch: &mut Ch) {
    match v {
        Val::Int(i) => *i = if *i > 1 { *i - 1 } else { 2 },
        Val::UInt(i) => *i = if *i == 1 { 2 } else { *i ^ 1 },
        Val::Bool(b) => *b = !*b,
        Val::F32(b) => *b = (f32::from_bits(*b) + 1.0).to_bits(),
        Val::F64(b) => *b = (f64::from_bits(*b) + 1.0).to_bits(),
        Val::Char(c) => *c = if *c == 'q' { 'r' } else { 'q' },
        Val::Str(s) => {
            if ch.chance(1, 2) {
                s.push('!');
            } else {
                s.pop();
            }
        }
        Val::Tok(l) => *l = (*l + 1) % 1000,
        Val::Struct(x) | Val::Enum(_, x) | Val::List(x) if !x.is_empty() => {
            let i = ch.below(x.len());
            change(&mut x[i], ch);
        }
        Val::Opt(Some(x)) | Val::Ptr(x) => change(x, ch),
        Val::Map(m) if !m.is_empty() => {
            let i = ch.below(m.len());
            change(&mut m[i].1, ch);
        }
        _ => {}
    }
}

/// V01: who owns what, whatever happens and whatever fails.
pub fn v01(ch: &mut Ch) {
    if ch.chance(1, 2) {
        let act = if ch.chance(1, 3) { Act::Refuse } else { Act::Panic };
        if ch.chance(1, 2) {
            let k = 1 + ch.below(60) as u64;
            world::with(|w| w.plan_any = Some((k, act)));
        } else {
            let cb: Cb = *ch.pick(&CBS);
            let k = 1 + ch.below(12) as u64;
            world::with(|w| w.plan.push((cb, k, act)));
        }
    }
    let mut h = H { slots: vec![], groups: 0 };
    let n = *ch.pick(&[6, 15, 40]);
    for _ in 0..n {
        h.step(ch);
        if violated() {
            break;
        }
    }
    h.end(ch);
    if !violated() {
        audit(true);
    }
}

/// V02: what is observed.
pub fn v02(ch: &mut Ch) {
    let all = native::all();
    let mut h = H { slots: vec![], groups: 0 };
    if ch.chance(1, 3) {
        // values that have a history
        for _ in 0..*ch.pick(&[6, 15]) {
            h.step(ch);
            if violated() {
                break;
            }
        }
    } else {
        let nat = &all[ch.below(all.len())];
        let t = (nat.ty)();
        let big = gb(ch);
        let v = gen_val(t, ch, &big);
        let mut w = match ch.below(4) {
            0 => gen_val(t, ch, &g()),
            _ => v.clone(),
        };
        if ch.chance(1, 2) {
            change(&mut w, ch);
        }
        if h.fresh_of(nat, v) && h.fresh_of(nat, w) {
            h.check_slot(0);
            h.check_slot(1);
            if !violated() {
                compare(&h.slots[0], &h.slots[1], ch);
                compare(&h.slots[1], &h.slots[0], ch);
                compare(&h.slots[0], &h.slots[0], ch);
            }
        }
        offers(nat);
        typed_access(&h, ch);
    }
    if !violated() {
        let n = h.slots.len();
        for _ in 0..n {
            let (i, j) = (ch.below(n), ch.below(n));
            h.check_slot(i);
            if !violated() {
                compare(&h.slots[i], &h.slots[j], ch);
            }
        }
    }
    h.end(ch);
    if !violated() {
        audit(true);
    }
}

/// Access under a type: granted for the value's own, refused for every other.
fn typed_access(h: &H, ch: &mut Ch) {
    let Some(s) = h.slots.first() else { return };
    let p = s.peek();
    macro_rules! get {
        ($($t:ty),*) => { $( {
            let same = s.t.ops.shape == <$t as Facet>::SHAPE;
            match sut(|| p.get::<$t>().map(|x| x as *const $t as usize).map_err(drop)) {
                Ok(Ok(a)) => if !same || a != s.b.p as usize { violate("granted access under another type", format!("{} as {}", s.t.name, stringify!($t))) },
                Ok(Err(())) => if same { violate("refused access under its own type", s.t.name) },
                Err(_) => violate("panic in typed access", s.t.name),
            }
        } )* };
    }
    get!(u8, i8, u32, Tok, String, TwoTok, Vec<Tok>, Vec<u32>, Option<Tok>, Arc<Tok>, Weak<Tok>, (Tok, u32), [Tok; 3]);
    // lookup by typed keys through the view
    if let (Kind::Map { key, .. }, Val::Map(m)) = (&s.t.kind, &s.val) {
        if let Ok(pm) = p.into_map() {
            let n = m.len();
            let k = if n > 0 { Some(m[ch.below(n)].0.clone()) } else { None };
            let (has, wrong) = match (key().name, k) {
                ("String", Some(Val::Str(x))) => (op("contains_key", s.t, || pm.contains_key(&x) && pm.get(&x).is_some()), op("wrong key", s.t, || pm.contains_key(&7u8) || pm.get(&7u64).is_some())),
                ("u32", Some(Val::Int(x))) => (op("contains_key", s.t, || pm.contains_key(&(x as u32)) && pm.get(&(x as u32)).is_some()), op("wrong key", s.t, || pm.contains_key(&(x as i32)) || pm.get(&(x as u64)).is_some())),
                _ => return,
            };
            if has == Some(false) {
                violate("map lookup differs", "a present key is not found by its typed value");
            }
            if wrong == Some(true) {
                violate("map lookup differs", "a key of another type is found");
            }
        }
    }
}

#[allow(unused)]
fn unused() {
    let _ = alloc::st();
}

/// A history of operations on values of its own; all that was seen.
pub fn task(ch: &mut Ch, n: usize) -> String {
    let mut h = H { slots: vec![], groups: 0 };
    for _ in 0..n {
        h.step(ch);
        if violated() {
            break;
        }
    }
    world::end_of_faults();
    let mut out = String::new();
    for i in 0..h.slots.len() {
        if violated() {
            break;
        }
        h.check_slot(i);
        compare(&h.slots[i], &h.slots[0], ch);
        out += &h.slots[i].val.short();
        out.push(';');
    }
    h.end(ch);
    out
}
