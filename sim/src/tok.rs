//! Tracked leaf values: each knows whether it is alive, and its traits are user code the
//! simulator can make fail.
use crate::alloc;
use crate::world::{self, Act, Cb, callback, callback_may_panic, violate, with};
use facet_core::{ConstTypeId, Def, Facet, ScalarAffinity, ScalarDef, Shape, value_vtable};
use std::alloc::Layout;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::str::FromStr;

const MAGIC: u64 = 0x70CE_0000_A11F_E000;
pub const DEFAULT_LABEL: u32 = 7_000_001;

/// A heap-owning, tracked scalar.
pub struct Tok {
    magic: u64,
    id: u64,
    own: Box<u32>,
}

impl Tok {
    pub fn new(label: u32) -> Tok {
        let id = with(|w| {
            let id = w.next_id;
            w.next_id += 1;
            w.created += 1;
            w.alive.insert(id, label);
            id
        });
        Tok { magic: MAGIC ^ id, id, own: Box::new(label) }
    }
    fn ok(&self, what: &str) -> bool {
        let p = self as *const Tok as usize;
        if alloc::is_dead(p) {
            violate("use of released memory", format!("{what} of a tracked value at a released address"));
            return false;
        }
        if self.magic != MAGIC ^ self.id {
            violate("use of a value that was never produced", format!("{what} of garbage"));
            return false;
        }
        let id = self.id;
        if !with(|w| w.alive.contains_key(&id)) {
            violate("use of a destroyed value", format!("{what} of value {id} after its destruction"));
            return false;
        }
        true
    }
    pub fn label(&self) -> u32 {
        if self.ok("read") { *self.own } else { u32::MAX }
    }
    pub fn id(&self) -> u64 {
        self.id
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        let dead = alloc::is_dead(self as *const Tok as usize);
        if dead {
            violate("use of released memory", "destructor run at a released address");
        }
        if self.magic != MAGIC ^ self.id {
            violate("destruction of a value that was never produced", "destructor run on garbage");
            self.defuse();
            return;
        }
        let id = self.id;
        let gone = with(|w| {
            let r = w.alive.remove(&id);
            w.dropped += 1;
            r
        });
        if gone.is_none() {
            violate("value destroyed twice", format!("value {id}"));
            self.defuse();
        }
        let id = self.id;
        if world::with(|w| w.keep_log) {
            crate::ev!("destroyed value {id}");
        }
    }
}

impl Tok {
    /// keep the box field from being freed through a bad pointer
    fn defuse(&mut self) {
        let b = alloc::off(|| Box::new(0));
        std::mem::forget(std::mem::replace(&mut self.own, b));
    }
}

impl Default for Tok {
    fn default() -> Self {
        callback_may_panic(Cb::Default);
        Tok::new(DEFAULT_LABEL)
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        callback_may_panic(Cb::Clone);
        let l = self.label();
        Tok::new(l)
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Self) -> bool {
        callback_may_panic(Cb::Eq);
        self.label() == o.label()
    }
}
impl Eq for Tok {}
impl PartialOrd for Tok {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tok {
    fn cmp(&self, o: &Self) -> Ordering {
        callback_may_panic(Cb::Cmp);
        self.label().cmp(&o.label())
    }
}
impl Hash for Tok {
    fn hash<H: Hasher>(&self, h: &mut H) {
        callback_may_panic(Cb::Hash);
        h.write_u32(self.label());
    }
}
impl fmt::Debug for Tok {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match callback(Cb::Debug) {
            Some(Act::Refuse) => return Err(fmt::Error),
            Some(Act::Panic) => std::panic::resume_unwind(Box::new(world::Injected)),
            None => {}
        }
        write!(f, "Tok({})", self.label())
    }
}
impl fmt::Display for Tok {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match callback(Cb::Display) {
            Some(Act::Refuse) => return Err(fmt::Error),
            Some(Act::Panic) => std::panic::resume_unwind(Box::new(world::Injected)),
            None => {}
        }
        write!(f, "t{}", self.label())
    }
}
impl FromStr for Tok {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        match callback(Cb::Parse) {
            Some(Act::Refuse) => return Err("refused".into()),
            Some(Act::Panic) => std::panic::resume_unwind(Box::new(world::Injected)),
            None => {}
        }
        match s.strip_prefix('t').and_then(|x| x.parse().ok()) {
            Some(l) => Ok(Tok::new(l)),
            None => Err("not a token".into()),
        }
    }
}

unsafe impl Facet for Tok {
    const SHAPE: &'static Shape = &const {
        Shape::builder()
            .id(ConstTypeId::of::<Self>())
            .layout(Layout::new::<Self>())
            .def(Def::Scalar(ScalarDef::builder().affinity(ScalarAffinity::opaque().build()).build()))
            .vtable(value_vtable!(Tok, |f, _| write!(f, "Tok")))
            .build()
    };
}

/// A zero-sized value with a destructor.
pub struct ZTok(());
impl ZTok {
    pub fn new() -> Self {
        with(|w| {
            w.zst_alive += 1;
            w.zst_created += 1;
        });
        ZTok(())
    }
}
impl Drop for ZTok {
    fn drop(&mut self) {
        with(|w| {
            w.zst_alive -= 1;
            if w.zst_alive < 0 && w.violations.len() < 20 {
                w.violations.push(("zero-sized values not destroyed exactly once".into(), "destroyed more often than produced".into()));
            }
        });
    }
}
impl Default for ZTok {
    fn default() -> Self {
        callback_may_panic(Cb::Default);
        ZTok::new()
    }
}
impl Clone for ZTok {
    fn clone(&self) -> Self {
        callback_may_panic(Cb::Clone);
        ZTok::new()
    }
}
impl PartialEq for ZTok {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl Eq for ZTok {}
impl fmt::Debug for ZTok {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "ZTok")
    }
}
unsafe impl Facet for ZTok {
    const SHAPE: &'static Shape = &const {
        Shape::builder()
            .id(ConstTypeId::of::<Self>())
            .layout(Layout::new::<Self>())
            .def(Def::Scalar(ScalarDef::builder().affinity(ScalarAffinity::opaque().build()).build()))
            .vtable(value_vtable!(ZTok, |f, _| write!(f, "ZTok")))
            .build()
    };
}
