//! Reading a document with the code under test and comparing with what has to come out.
use crate::json::{Exp, same};
use crate::model::Val;
use crate::world::{self, Caught, count, sut, violate};
use crate::{alloc, ev};

pub struct Limits {
    pub allocs: (u64, u64),
    pub bytes: (usize, usize),
}

pub fn show(s: &str) -> String {
    if s.len() > 400 { format!("{:?}… ({} bytes)", s.chars().take(400).collect::<String>(), s.len()) } else { format!("{s:?}") }
}

/// `refusal`: an error may also be told by a panic (the documented way of some readers)
pub fn judge(name: &str, text: &str, exp: &Exp, lim: Option<Limits>, refusal: bool, read: impl FnOnce() -> Result<Val, String>) -> Option<Val> {
    world::take_fired();
    let (a0, t0) = (alloc::st().allocs, alloc::st().total_bytes);
    let r = sut(read);
    let fired = world::take_fired();
    let (a, t) = (alloc::st().allocs - a0, alloc::st().total_bytes - t0);
    if let Some(l) = lim {
        let n = text.len();
        if a > l.allocs.0 + l.allocs.1 * n as u64 {
            violate("work out of proportion", format!("{a} allocations for {n} bytes"));
        }
        if t > l.bytes.0 + l.bytes.1 * n {
            violate("memory out of proportion", format!("{t} bytes allocated for {n} bytes"));
        }
    }
    let rejected = |why: &str| {
        ev!("read: error");
        count("probe.rejected", 1);
        if exp.v.is_some() && exp.must && !fired {
            violate("rejected", format!("{name} from {}: {why}", show(text)));
        }
    };
    match r {
        Ok(Ok(v)) => {
            ev!("read: {}", v.short());
            count("probe.accepted", 1);
            match &exp.v {
                Some(x) if !same(x, &v) => violate("another value read", format!("{name} from {}: {} instead of {}", show(text), v.short(), x.short())),
                None if exp.must && !fired => violate("accepted", format!("{name} from {}: {}", show(text), v.short())),
                _ => {}
            }
            return Some(v);
        }
        Ok(Err(e)) => rejected(&e),
        Err(Caught::Injected) => {
            ev!("read: unwound");
            if !fired {
                violate("failure out of nowhere", "unwound");
            }
        }
        Err(Caught::Panic(m, l)) if refusal => rejected(&format!("{m} at {l}")),
        Err(Caught::Panic(m, l)) => violate("panic while reading", format!("{name} from {}: {m} at {l}", show(text))),
    }
    None
}
