//! M01, M02: MessagePack on simulated storage and damaged encodings.
use crate::docs::{self, Doc, Value, damage};
use crate::json::{ANY, ERR, Exp, all, must};
use crate::model::{Gen, Kind, Ty, Val, gen_val};
use crate::rng::Ch;
use crate::world::{self, Act, Caught, Cb, audit, count, sut, sut_np, violate};
use crate::{alloc, ev};

/// A MessagePack value to be encoded.
#[derive(Clone, Debug)]
enum M {
    Nil,
    Bool(bool),
    Int(i128),
    F32(f32),
    F64(f64),
    Str(Vec<u8>),
    Bin(Vec<u8>),
    Ext(u8, Vec<u8>),
    Arr(Vec<M>),
    Map(Vec<(M, M)>),
}

fn show(b: &[u8]) -> String {
    let mut s: String = b.iter().take(120).map(|x| format!("{x:02x}")).collect();
    if b.len() > 120 {
        s.push_str(&format!("… ({} bytes)", b.len()));
    }
    s
}

fn be(out: &mut Vec<u8>, x: u128, n: usize) {
    out.extend_from_slice(&x.to_be_bytes()[16 - n..]);
}

/// Encodes; with `wide`, in any of the encodings the format allows.
fn enc(ch: &mut Ch, wide: bool, m: &M, out: &mut Vec<u8>) {
    let up = |ch: &mut Ch, min: usize, max: usize| if wide && ch.chance(1, 3) { ch.range(min, max) } else { min };
    match m {
        M::Nil => out.push(0xc0),
        M::Bool(b) => out.push(0xc2 + *b as u8),
        M::Int(i) => {
            let i = *i;
            // candidates: (marker, bytes)
            let mut c: Vec<(u8, usize)> = Vec::new();
            if (0..128).contains(&i) || (-32..0).contains(&i) {
                c.push((i as u8, 0));
            }
            for (k, n) in [1usize, 2, 4, 8].into_iter().enumerate() {
                if i >= 0 && i < 1i128 << (8 * n) {
                    c.push((0xcc + k as u8, n));
                }
                let lim = 1i128 << (8 * n - 1);
                if i >= -lim && i < lim {
                    c.push((0xd0 + k as u8, n));
                }
            }
            if c.is_empty() {
                return out.push(0xc1);
            }
            let (m, n) = if wide { *ch.pick(&c) } else { c[0] };
            out.push(m);
            be(out, i as u128, n);
        }
        M::F32(x) => {
            out.push(0xca);
            be(out, x.to_bits() as u128, 4);
        }
        M::F64(x) => {
            out.push(0xcb);
            be(out, x.to_bits() as u128, 8);
        }
        M::Str(s) => {
            let min = match s.len() {
                0..=31 => 0,
                32..=255 => 1,
                256..=65535 => 2,
                _ => 3,
            };
            match up(ch, min, 3) {
                0 => out.push(0xa0 | s.len() as u8),
                k => {
                    out.push(0xd8 + k as u8);
                    be(out, s.len() as u128, 1 << (k - 1));
                }
            }
            out.extend_from_slice(s);
        }
        M::Bin(s) => {
            let min = match s.len() {
                0..=255 => 0,
                256..=65535 => 1,
                _ => 2,
            };
            let k = up(ch, min, 2);
            out.push(0xc4 + k as u8);
            be(out, s.len() as u128, 1 << k);
            out.extend_from_slice(s);
        }
        M::Ext(t, s) => {
            let fixed = [1, 2, 4, 8, 16].iter().position(|n| *n == s.len());
            match fixed {
                Some(k) if !(wide && ch.chance(1, 3)) => out.push(0xd4 + k as u8),
                _ => {
                    let min = if s.len() < 256 { 0 } else if s.len() < 65536 { 1 } else { 2 };
                    let k = up(ch, min, 2);
                    out.push(0xc7 + k as u8);
                    be(out, s.len() as u128, 1 << k);
                }
            }
            out.push(*t);
            out.extend_from_slice(s);
        }
        M::Arr(v) => {
            head(ch, wide, out, v.len(), 0x90, 0xdc);
            v.iter().for_each(|x| enc(ch, wide, x, out));
        }
        M::Map(v) => {
            head(ch, wide, out, v.len(), 0x80, 0xde);
            for (k, x) in v {
                enc(ch, wide, k, out);
                enc(ch, wide, x, out);
            }
        }
    }
}

fn head(ch: &mut Ch, wide: bool, out: &mut Vec<u8>, n: usize, fix: u8, m16: u8) {
    let min = if n < 16 { 0 } else if n < 65536 { 1 } else { 2 };
    match if wide && ch.chance(1, 3) { ch.range(min, 2) } else { min } {
        0 => out.push(fix | n as u8),
        1 => {
            out.push(m16);
            be(out, n as u128, 2);
        }
        _ => {
            out.push(m16 + 1);
            be(out, n as u128, 4);
        }
    }
}

// ------------------------------------------------------------ reference reader

struct R<'a> {
    b: &'a [u8],
    i: usize,
}

impl<'a> R<'a> {
    fn u8(&mut self) -> Option<u8> {
        let x = *self.b.get(self.i)?;
        self.i += 1;
        Some(x)
    }
    fn take(&mut self, n: u128) -> Option<&'a [u8]> {
        if n > (self.b.len() - self.i) as u128 {
            return None;
        }
        let r = &self.b[self.i..self.i + n as usize];
        self.i += n as usize;
        Some(r)
    }
    fn uint(&mut self, n: usize) -> Option<u128> {
        Some(self.take(n as u128)?.iter().fold(0, |a, x| a << 8 | *x as u128))
    }
    /// (bytes that follow, values that follow)
    fn shape_of(&mut self, m: u8) -> Option<(u128, u128)> {
        Some(match m {
            0x00..=0x7f | 0xe0..=0xff | 0xc0 | 0xc2 | 0xc3 => (0, 0),
            0x80..=0x8f => (0, 2 * (m & 15) as u128),
            0x90..=0x9f => (0, (m & 15) as u128),
            0xa0..=0xbf => ((m & 31) as u128, 0),
            0xc1 => return None,
            0xc4..=0xc6 => (self.uint(1 << (m - 0xc4))?, 0),
            0xc7..=0xc9 => (self.uint(1 << (m - 0xc7))? + 1, 0),
            0xca => (4, 0),
            0xcb => (8, 0),
            0xcc..=0xcf => (1 << (m - 0xcc), 0),
            0xd0..=0xd3 => (1 << (m - 0xd0), 0),
            0xd4..=0xd8 => ((1 << (m - 0xd4)) + 1, 0),
            0xd9..=0xdb => (self.uint(1 << (m - 0xd9))?, 0),
            0xdc => (0, self.uint(2)?),
            0xdd => (0, self.uint(4)?),
            0xde => (0, 2 * self.uint(2)?),
            0xdf => (0, 2 * self.uint(4)?),
        })
    }
    fn skip(&mut self) -> Option<()> {
        let mut left = 1u128;
        while left > 0 {
            left -= 1;
            let m = self.u8()?;
            let (bytes, values) = self.shape_of(m)?;
            self.take(bytes)?;
            left += values;
        }
        Some(())
    }
    fn int(&mut self) -> Option<i128> {
        let m = self.u8()?;
        Some(match m {
            0x00..=0x7f => m as i128,
            0xe0..=0xff => m as i8 as i128,
            0xcc..=0xcf => self.uint(1 << (m - 0xcc))? as i128,
            0xd0..=0xd3 => {
                let n = 1 << (m - 0xd0);
                let x = self.uint(n)? as i128;
                let s = 128 - 8 * n;
                (x << s) >> s
            }
            _ => return None,
        })
    }
    fn str(&mut self) -> Option<String> {
        let m = self.u8()?;
        if !matches!(m, 0xa0..=0xbf | 0xd9..=0xdb) {
            return None;
        }
        let (n, _) = self.shape_of(m)?;
        String::from_utf8(self.take(n)?.to_vec()).ok()
    }
}

/// Err(true): certainly an error; Err(false): left open
fn read(t: &'static Ty, r: &mut R) -> Result<Exp, bool> {
    match &t.kind {
        Kind::Bool => match r.u8() {
            Some(0xc2) => Ok(must(Val::Bool(false))),
            Some(0xc3) => Ok(must(Val::Bool(true))),
            _ => Err(true),
        },
        Kind::Int { bits, signed, nonzero: false } if *bits <= 64 && !t.name.ends_with("size") => {
            let x = r.int().ok_or(true)?;
            let (lo, hi) = if *signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) };
            if x < lo || x > hi {
                return Err(true);
            }
            Ok(must(Val::Int(x)))
        }
        Kind::Str if t.name == "String" => Ok(must(Val::Str(r.str().ok_or(true)?))),
        Kind::Struct { fields, .. } => {
            let m = r.u8().ok_or(true)?;
            if !matches!(m, 0x80..=0x8f | 0xde | 0xdf) {
                return Err(true);
            }
            let n = r.shape_of(m).ok_or(true)?.1 / 2;
            let mut got: Vec<Option<Exp>> = vec![None; fields.len()];
            for _ in 0..n {
                let k = r.str().ok_or(true)?;
                match fields.iter().position(|f| f.name == k) {
                    Some(i) => {
                        if got[i].is_some() {
                            return Err(true);
                        }
                        got[i] = Some(read((fields[i].ty)(), r)?);
                    }
                    None => r.skip().ok_or(true)?,
                }
            }
            let parts = got
                .into_iter()
                .zip(fields)
                .map(|(e, f)| match e {
                    Some(e) => e,
                    None if t.default_val.is_some() || f.default.is_some() => ANY,
                    None => ERR,
                })
                .collect();
            Ok(all(parts, Val::Struct))
        }
        _ => Err(false),
    }
}

fn expect(t: &'static Ty, b: &[u8]) -> Exp {
    let mut r = R { b, i: 0 };
    match read(t, &mut r) {
        Err(true) => ERR,
        Err(false) => ANY,
        Ok(_) if r.i != b.len() => ERR,
        Ok(e) => match (t.invariant, &e.v) {
            (Some(f), Some(v)) if !f(v) => ERR,
            _ => e,
        },
    }
}

fn check_read(ch: &mut Ch, d: &Doc, b: &[u8], exp: &Exp) {
    let shown = ch.chance(1, 8);
    world::take_fired();
    let (a0, t0) = (alloc::st().allocs, alloc::st().total_bytes);
    let r = sut(|| (d.mp_read)(b, shown));
    let fired = world::take_fired();
    let (a, t) = (alloc::st().allocs - a0, alloc::st().total_bytes - t0);
    if !shown {
        if a > 400 + d.t().ops.size as u64 + 40 * b.len() as u64 {
            violate("work out of proportion", format!("{} allocations for {} bytes", a, b.len()));
        }
        if t > 200_000 + 16 * d.t().ops.size + 3000 * b.len() {
            violate("memory out of proportion", format!("{} bytes allocated for {} bytes", t, b.len()));
        }
    }
    match r {
        Ok(Ok(v)) => {
            ev!("read: {}", v.short());
            count("probe.accepted", 1);
            match &exp.v {
                Some(x) if *x != v => violate("another value read", format!("{} from {}: {} instead of {}", d.t().name, show(b), v.short(), x.short())),
                None if exp.must && !fired => violate("accepted", format!("{} from {}: {}", d.t().name, show(b), v.short())),
                _ => {}
            }
        }
        Ok(Err(e)) => {
            ev!("read: error");
            count("probe.rejected", 1);
            if exp.v.is_some() && exp.must && !fired {
                violate("rejected", format!("{} from {}: {}", d.t().name, show(b), e));
            }
        }
        Err(Caught::Injected) => {
            ev!("read: unwound");
            if !fired {
                violate("failure out of nowhere", "unwound");
            }
        }
        Err(Caught::Panic(m, l)) => violate("panic while reading", format!("{} from {}: {m} at {l}", d.t().name, show(b))),
    }
}

fn m_of(t: &Ty, v: &Val) -> M {
    match (&t.kind, v) {
        (_, Val::Bool(b)) => M::Bool(*b),
        (_, Val::Int(i)) => M::Int(*i),
        (_, Val::Str(s)) => M::Str(s.clone().into_bytes()),
        (_, Val::F64(x)) => M::F64(f64::from_bits(*x)),
        (_, Val::F32(x)) => M::F32(f32::from_bits(*x)),
        (_, Val::Tok(l)) => M::Str(format!("t{l}").into_bytes()),
        (Kind::Struct { fields, .. }, Val::Struct(x)) => M::Map(fields.iter().zip(x).map(|(f, v)| (M::Str(f.name.into()), m_of((f.ty)(), v))).collect()),
        (Kind::List(i) | Kind::Array(i, _), Val::List(x)) => M::Arr(x.iter().map(|v| m_of(i(), v)).collect()),
        (Kind::Opt(i), Val::Opt(Some(v))) => m_of(i(), v),
        (Kind::Ptr(i), Val::Ptr(v)) => m_of(i(), v),
        (Kind::Map { key, val }, Val::Map(m)) => M::Map(m.iter().map(|(k, v)| (m_of(key(), k), m_of(val(), v))).collect()),
        _ => M::Nil,
    }
}

// ------------------------------------------------------------------------------- M01

fn gen_mp(ch: &mut Ch) -> Gen {
    Gen { finite: true, max_len: 4, big: ch.chance(1, 10), max_depth: 5, plain_strings: false }
}

fn stored(d: &Doc, val: &Val) -> Option<Vec<u8>> {
    let v = Value::new(d.t(), val);
    let b = sut_np("to_vec", || unsafe { (d.mp_write)(v.p) })?;
    let b2 = b.to_vec();
    drop(b);
    if v.read() != *val {
        violate("value modified by writing", format!("{}: {} became {}", d.t().name, val.short(), v.read().short()));
    }
    Some(b2)
}

pub fn m01(ch: &mut Ch) {
    alloc::off(|| m01_run(ch));
    audit(true);
}

fn m01_run(ch: &mut Ch) {
    let d = ch.pick(docs::mp_both());
    let g = gen_mp(ch);
    let val = gen_val(d.t(), ch, &g);
    ev!("{} = {}", d.t().name, val.short());
    let Some(b) = stored(d, &val) else { return };
    // the reference reader understands it
    match expect(d.t(), &b).v {
        Some(x) if x == val => {}
        x => violate("not the standard encoding", format!("{} {}: {} means {x:?}", d.t().name, val.short(), show(&b))),
    }
    // and it is no longer than the standard asks for
    let mut std = Vec::new();
    enc(ch, false, &m_of(d.t(), &val), &mut std);
    if b.len() > std.len() {
        violate("not the standard encoding", format!("{} {}: {} where {} will do", d.t().name, val.short(), show(&b), show(&std)));
    }
    check_read(ch, d, &b, &must(val.clone()));
    // another writer's choice of encodings
    if ch.chance(1, 3) {
        let mut w = Vec::new();
        enc(ch, true, &m_of(d.t(), &val), &mut w);
        ev!("encoded as {}", show(&w));
        check_read(ch, d, &w, &must(val.clone()));
    }
    for _ in 0..ch.range(1, 4) {
        let mut x = b.clone();
        match ch.below(4) {
            0 | 1 => {
                let k = ch.below(b.len().max(1));
                x.truncate(k);
                ev!("crash after {k} of {} bytes", b.len());
                count("fault.crash_during_write", 1);
                check_read(ch, d, &x, &ERR);
                continue;
            }
            2 => {
                let old = gen_val(d.t(), ch, &g);
                let Some(o) = stored(d, &old) else { return };
                let k = ch.below(b.len() + 1);
                x.truncate(k);
                if o.len() > k {
                    x.extend_from_slice(&o[k..]);
                }
                ev!("torn overwrite at {k}: {}", show(&x));
                count("fault.torn_overwrite", 1);
            }
            _ => {
                let k = ch.below(b.len() + 1);
                x.extend_from_slice(&b[k..]);
                ev!("tail from {k} written twice");
                count("fault.duplicated_write", 1);
            }
        }
        let e = expect(d.t(), &x);
        check_read(ch, d, &x, &e);
    }
}

// ------------------------------------------------------------------------------- M02

const ALPHA: &[u8] = &[
    0x00, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x91, 0x9f, 0xa0, 0xa1, 0xbf, 0xc0, 0xc1, 0xc2, 0xc3, 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd1, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6,
    0xd7, 0xd8, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xe0, 0xff,
];

fn rand_m(ch: &mut Ch, depth: usize) -> M {
    let bytes = |ch: &mut Ch| -> Vec<u8> {
        let n = *ch.pick(&[0usize, 1, 2, 3, 4, 8, 16, 17, 31, 32, 255, 256, 300]);
        (0..n).map(|i| (i as u8).wrapping_mul(7)).collect()
    };
    if depth < 3 && ch.chance(1, 80) {
        // sizes at the edges of two bytes
        let n = *ch.pick(&[32767usize, 32768, 32769, 40000, 65535, 65536, 65537]);
        return match ch.below(6) {
            0 => M::Str(vec![b'x'; n]),
            1 => M::Bin(vec![0xc1; n]),
            2 => M::Ext(7, vec![0xff; n]),
            3 => M::Arr(vec![M::Nil; n]),
            _ => M::Map(vec![(M::Nil, M::Int(1)); n]),
        };
    }
    match ch.below(if depth > 3 { 8 } else { 10 }) {
        0 => M::Nil,
        1 => M::Bool(ch.chance(1, 2)),
        2 | 3 => M::Int(crate::model::gen_int(ch, 65, true).clamp(-(1 << 63), (1 << 64) - 1)),
        4 => M::F64(ch.below(100) as f64),
        5 => M::F32(1.5),
        6 => M::Str(if ch.chance(1, 4) { bytes(ch) } else { crate::model::gen_str(ch, &Gen::default()).into_bytes() }),
        7 => {
            if ch.chance(1, 2) {
                M::Bin(bytes(ch))
            } else {
                M::Ext(ch.below(256) as u8, bytes(ch))
            }
        }
        8 => M::Arr((0..*ch.pick(&[0, 1, 2, 3, 15, 16, 20])).map(|_| rand_m(ch, depth + 2)).collect()),
        _ => M::Map((0..*ch.pick(&[0, 1, 2, 3, 15, 16])).map(|_| (rand_m(ch, depth + 2), rand_m(ch, depth + 2))).collect()),
    }
}

fn mutate(ch: &mut Ch, m: &mut M) {
    let stop = ch.chance(1, 3);
    match m {
        M::Map(v) if !v.is_empty() && !stop => {
            let i = ch.below(v.len());
            return mutate(ch, &mut v[i].1);
        }
        _ => {}
    }
    let key = |ch: &mut Ch| -> M {
        if ch.chance(1, 10) {
            return rand_m(ch, 2);
        }
        M::Str(ch.pick(&["a", "b", "c", "d", "f", "s", "t", "x", "y", "0", "1", "zz", "", "f0", "f62", "a0"]).as_bytes().to_vec())
    };
    match m {
        M::Map(v) if ch.chance(5, 6) => match ch.below(6) {
            0 if !v.is_empty() => {
                let i = ch.below(v.len());
                v.remove(i);
            }
            1 if !v.is_empty() => {
                let i = ch.below(v.len());
                let x = v[i].clone();
                let k = ch.below(v.len() + 1);
                v.insert(k, x);
            }
            2 if v.len() > 1 => {
                let (a, b) = (ch.below(v.len()), ch.below(v.len()));
                v.swap(a, b);
            }
            3 if !v.is_empty() => {
                let i = ch.below(v.len());
                v[i].0 = key(ch);
            }
            _ => {
                let at = ch.below(v.len() + 1);
                let x = (key(ch), rand_m(ch, 0));
                v.insert(at, x);
            }
        },
        M::Int(_) if ch.chance(2, 3) => *m = M::Int(crate::model::gen_int(ch, 65, true).clamp(-(1 << 63), (1 << 64) - 1)),
        m => *m = rand_m(ch, 0),
    }
}

fn hostile(ch: &mut Ch, t: &'static Ty, b: &mut Vec<u8>) {
    let n = *ch.pick(&[200usize, 2000, 60_000, 150_000]);
    let o: &[u8] = *ch.pick::<&[u8]>(&[b"\x91", b"\x81\xa1a", b"\xdd\xff\xff\xff\xff", b"\xdf\xff\xff\xff\xff", b"\x81\xa1k", b"\xdc\x00\x01", b"\x92\xc0"]);
    let mut w: Vec<u8> = Vec::new();
    (0..n).for_each(|_| w.extend_from_slice(o));
    if ch.chance(2, 3) {
        w.push(0xc0);
    }
    ev!("nesting {n} of {}", show(o));
    count("fault.hostile_nesting", 1);
    if ch.chance(2, 3) {
        let v = gen_val(t, ch, &Gen::default());
        let mut m = m_of(t, &v);
        let mut d = Vec::new();
        if let M::Map(x) = &mut m {
            x.insert(0, (M::Str(b"zz".to_vec()), M::Nil));
            enc(ch, false, &m, &mut d);
            if let Some(i) = d.windows(4).position(|w| w == b"\xa2zz\xc0") {
                d.splice(i + 3..i + 4, w);
                *b = d;
                return;
            }
        }
    }
    *b = w;
}

pub fn m02(ch: &mut Ch) {
    let faults = alloc::off(|| m02_run(ch));
    audit(!faults || world::fired() == 0);
}

fn m02_run(ch: &mut Ch) -> bool {
    let d = ch.pick(docs::mp_read());
    let t = d.t();
    let faults = ch.chance(1, 8);
    if faults {
        let act = if ch.chance(1, 2) { Act::Panic } else { Act::Refuse };
        world::with(|w| w.plan = vec![(Cb::Invariant, 1, act)]);
    }
    let mut b = Vec::new();
    if ch.chance(1, 60) {
        hostile(ch, t, &mut b);
    } else if ch.chance(1, 20) {
        // nothing but markers
        for _ in 0..ch.below(40) {
            b.push(if ch.chance(1, 2) { *ch.pick(ALPHA) } else { ch.below(256) as u8 });
        }
    } else {
        let g = gen_mp(ch);
        let v = gen_val(t, ch, &Gen { max_depth: 3, ..g });
        let mut m = m_of(t, &v);
        if let (M::Map(v), true) = (&mut m, ch.chance(1, 3)) {
            for i in (1..v.len()).rev() {
                let k = ch.below(i + 1);
                v.swap(i, k);
            }
        }
        for _ in 0..ch.weighted(&[4, 4, 2, 1]) {
            mutate(ch, &mut m);
            count("fault.document_edited", 1);
        }
        if let (M::Map(v), true) = (&mut m, ch.chance(1, 8)) {
            // unknown members, up to where the size of the map changes its encoding
            let to = *ch.pick(&[14usize, 15, 16, 17, 31, 32, 255, 256]);
            let to = if ch.chance(1, 60) { *ch.pick(&[65535, 65536]) } else { to };
            for k in v.len()..to {
                let x = if to < 40 && ch.chance(1, 8) { rand_m(ch, 3) } else { M::Int(*ch.pick(&[0, 1, 127, 128, -1, -32, -33, 255, 256])) };
                v.push((M::Str(format!("q{k}").into_bytes()), x));
            }
        }
        let wide = ch.chance(1, 2);
        enc(ch, wide, &m, &mut b);
        for _ in 0..ch.weighted(&[5, 3, 1]) {
            let k = damage(ch, &mut b, ALPHA);
            count(k, 1);
        }
    }
    ev!("{} from {}", t.name, show(&b));
    let e = expect(t, &b);
    check_read(ch, d, &b, &e);
    faults
}

/// A stored encoding of some type.
pub fn document(ch: &mut Ch) -> (&'static Doc, Vec<u8>) {
    let d = ch.pick(docs::mp_both());
    let g = Gen { finite: true, max_len: 3, big: false, max_depth: 4, plain_strings: true };
    let v = Value::new(d.t(), &gen_val(d.t(), ch, &g));
    let s = sut_np("to_vec", || unsafe { (d.mp_write)(v.p) }).unwrap_or_default();
    (d, s.clone())
}
