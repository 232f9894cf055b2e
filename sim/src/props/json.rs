//! J01, J02, J03: JSON on simulated sinks, simulated storage and damaged documents.
use crate::docs::{self, Doc, Value, damage};
use crate::json::{self, ANY, Exp, J, Style, decode, doc_of, jstr, parse, render, same, says, unwritable};
use crate::model::{Gen, Kind, Ty, Val, any_kind, gen_val};
use crate::rng::Ch;
use crate::sink::{Fail, Sink};
use crate::world::{self, Act, Caught, Cb, audit, count, sut, sut_np, violate};
use crate::{alloc, ev};
use std::io;

fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let c: String = s.chars().take(400).collect();
    if c.len() < s.len() { format!("{c:?}… ({} bytes)", b.len()) } else { format!("{c:?}") }
}

fn gen_write(ch: &mut Ch) -> Gen {
    Gen { finite: false, max_len: 3, big: ch.chance(1, 40), max_depth: 4, plain_strings: false }
}

// ------------------------------------------------------------------------------- J01

pub fn j01(ch: &mut Ch) {
    alloc::off(|| j01_run(ch));
    audit(true);
}

fn j01_run(ch: &mut Ch) {
    let d = if ch.chance(3, 5) { ch.pick(docs::json_write()) } else { ch.pick(docs::json_both()) };
    let g = gen_write(ch);
    let val = gen_val(d.t(), ch, &g);
    let v = Value::new(d.t(), &val);
    ev!("{} = {}", d.t().name, val.short());
    let writable = !unwritable(d.t(), &val);
    let mut none = Ch::replay(vec![]);

    // the text: what a perfect sink gets
    let text = {
        let mut s = Sink::perfect(&mut none);
        let Some(r) = sut_np("to_writer", || unsafe { (d.json_to_writer)(v.p, &mut s) }) else { return };
        match r {
            Ok(()) => Some(std::mem::take(&mut s.out)),
            Err(e) => {
                if writable {
                    violate("a writable value is refused", format!("{} {}: {e}", d.t().name, val.short()));
                }
                count("probe.unwritable", 1);
                drop(e);
                None
            }
        }
    };
    let full = match &text {
        Some(text) => {
            match parse(text) {
                None => violate("the text is not JSON", format!("{} {}: {}", d.t().name, val.short(), show(text))),
                Some(j) => {
                    if let Err(e) = says(d.t(), &val, &j) {
                        violate("the text says something else", format!("{}: {e}", d.t().name));
                    }
                }
            }
            // every entry point gives the same text
            let s = sut_np("to_string", || unsafe { (d.json_to_string)(v.p) });
            if s.as_ref().is_some_and(|s| s.as_bytes() != &text[..]) {
                violate("entry points disagree", format!("to_string {} / to_writer {}", show(s.as_ref().unwrap().as_bytes()), show(text)));
            }
            let s2 = sut_np("peek_to_string", || facet_json::peek_to_string(&v.peek()));
            if s2.as_ref().is_some_and(|s| s.as_bytes() != &text[..]) {
                violate("entry points disagree", format!("peek_to_string {} / to_writer {}", show(s2.as_ref().unwrap().as_bytes()), show(text)));
            }
            text.clone()
        }
        None => {
            // what came before the refusal
            let mut s = Sink::perfect(&mut none);
            let _ = sut_np("to_writer", || {
                let r = unsafe { (d.json_to_writer)(v.p, &mut s) };
                drop(r);
            });
            std::mem::take(&mut s.out)
        }
    };

    let rounds = ch.range(1, 3);
    for _ in 0..rounds {
        // user code called while writing: the Display of map keys
        let cb = any_kind(d.t(), &|k| matches!(k, Kind::Tok)) && ch.chance(1, 6);
        if cb {
            let n = ch.range(1, 4) as u64;
            let act = if ch.chance(1, 2) { Act::Panic } else { Act::Refuse };
            world::with(|w| {
                w.cb_calls = Default::default();
                w.plan = vec![(Cb::Display, n, act)];
            });
            world::take_fired();
        }
        let through_peek = ch.chance(1, 2);
        let mut s = Sink::drawn(ch, full.len());
        ev!("write {}", s.plan());
        let r = sut(|| if through_peek { facet_json::peek_to_writer(&v.peek(), &mut s) } else { unsafe { (d.json_to_writer)(v.p, &mut s) } });
        let (out, fail, failed) = (std::mem::take(&mut s.out), s.fail, s.failed);
        drop(s);
        let fired = {
            world::with(|w| w.plan.clear());
            world::take_fired()
        };
        if !full.starts_with(&out) {
            violate("delivered bytes are not a prefix of the text", format!("{} delivered {} of {}", d.t().name, show(&out), show(&full)));
        }
        match r {
            Ok(Ok(())) => {
                ev!("written {} bytes", out.len());
                if failed {
                    violate("sink failure not reported", format!("{fail:?} of {}", d.t().name));
                } else if fired {
                    violate("failure of a key's Display not reported", d.t().name.to_string());
                } else if out.len() != full.len() || text.is_none() {
                    violate("incomplete text reported as written", format!("{} of {} bytes", out.len(), full.len()));
                }
            }
            Ok(Err(e)) => {
                ev!("error {:?} after {} bytes", e.kind(), out.len());
                let want = match fail {
                    Fail::Err(k, _) if failed => Some(k),
                    Fail::Zero if failed => Some(io::ErrorKind::WriteZero),
                    _ => None,
                };
                match want {
                    Some(k) if k != e.kind() => violate("another failure reported", format!("{:?} instead of {k:?}", e.kind())),
                    None if !fired && text.is_some() => violate("failure out of nowhere", format!("{e}")),
                    _ => {}
                }
            }
            Err(Caught::Injected) => {
                ev!("unwound after {} bytes", out.len());
                if !fired && !(failed && fail == Fail::Panic) {
                    violate("failure out of nowhere", "unwound");
                }
            }
            Err(Caught::Panic(m, l)) => violate("panic in to_writer", format!("{m} at {l}")),
        }
        if v.read() != val {
            violate("value modified by writing", format!("{}: {} became {}", d.t().name, val.short(), v.read().short()));
        }
    }
}

// ------------------------------------------------------------------------------- reading

/// Reads a document and compares with what has to come out.
fn check_read(ch: &mut Ch, d: &Doc, b: &[u8], exp: &Exp, faults: bool) {
    let shown = ch.chance(1, 8);
    world::take_fired();
    let (a0, t0) = (alloc::st().allocs, alloc::st().total_bytes);
    let r = sut(|| (d.json_read)(b, shown));
    let fired = world::take_fired();
    let (a, t) = (alloc::st().allocs - a0, alloc::st().total_bytes - t0);
    if !shown {
        // growth only in proportion to the input (and to what the type itself needs)
        let fixed = 400 + d.t().ops.size as u64;
        if a > fixed + 40 * b.len() as u64 {
            violate("work out of proportion", format!("{} allocations for {} bytes", a, b.len()));
        }
        if t > 200_000 + 16 * d.t().ops.size + 3000 * b.len() {
            violate("memory out of proportion", format!("{} bytes allocated for {} bytes", t, b.len()));
        }
    }
    match r {
        Ok(Ok(v)) => {
            ev!("read: {}", v.short());
            count("probe.accepted", 1);
            match &exp.v {
                Some(x) if !same(x, &v) => violate("another value read", format!("{} from {}: {} instead of {}", d.t().name, show(b), v.short(), x.short())),
                None if exp.must && !fired => violate("accepted", format!("{} from {}: {}", d.t().name, show(b), v.short())),
                _ => {}
            }
        }
        Ok(Err(e)) => {
            ev!("read: error {}", if shown { e.len() } else { 0 });
            count("probe.rejected", 1);
            if exp.v.is_some() && exp.must && !fired {
                violate("rejected", format!("{} from {}: {}", d.t().name, show(b), e));
            }
        }
        Err(Caught::Injected) => {
            ev!("read: unwound");
            if !faults || !fired {
                violate("failure out of nowhere", "unwound");
            }
        }
        Err(Caught::Panic(m, l)) => violate("panic while reading", format!("{} from {}: {m} at {l}", d.t().name, show(b))),
    }
}

fn expect(t: &'static Ty, b: &[u8]) -> Exp {
    let Some(j) = parse(b) else { return json::ERR };
    let e = if j.depth() > 128 { ANY } else { decode(t, &j) };
    json::dispose(j);
    invariant(t, e)
}

/// The declared invariant has the last word on the outermost value; nested ones are not looked at.
fn invariant(t: &'static Ty, e: Exp) -> Exp {
    if let (Some(f), Some(v)) = (t.invariant, &e.v) {
        if !f(v) {
            return json::ERR;
        }
    }
    e
}

// ------------------------------------------------------------------------------- J02

pub fn j02(ch: &mut Ch) {
    alloc::off(|| j02_run(ch));
    audit(true);
}

fn stored(ch: &mut Ch, d: &Doc, val: &Val) -> Option<Vec<u8>> {
    let v = Value::new(d.t(), val);
    let mut s = Sink::perfect(ch);
    s.short = s.ch.chance(1, 3);
    s.interrupt = s.ch.chance(1, 4);
    let r = sut_np("to_writer", || unsafe { (d.json_to_writer)(v.p, &mut s) })?;
    if let Err(e) = r {
        violate("a writable value is refused", format!("{} {}: {e}", d.t().name, val.short()));
        return None;
    }
    Some(std::mem::take(&mut s.out))
}

fn j02_run(ch: &mut Ch) {
    let d = ch.pick(docs::json_both());
    let g = Gen { finite: true, max_len: 4, big: ch.chance(1, 40), max_depth: 5, plain_strings: false };
    let val = gen_val(d.t(), ch, &g);
    ev!("{} = {}", d.t().name, val.short());
    let Some(text) = stored(ch, d, &val) else { return };
    match parse(&text) {
        None => violate("the text is not JSON", format!("{}: {}", d.t().name, show(&text))),
        Some(j) => {
            if let Err(e) = says(d.t(), &val, &j) {
                violate("the text says something else", format!("{}: {e}", d.t().name));
            }
        }
    }
    check_read(ch, d, &text, &json::must(val.clone()), false);
    if ch.chance(1, 2) {
        // written by somebody else
        let mut j = doc_of(d.t(), &val);
        respell_all(ch, &mut j);
        if ch.chance(1, 2) {
            shuffle(ch, &mut j);
        }
        let style = Style { spaces: ch.chance(1, 2), escapes: ch.chance(1, 2) };
        let mut b = Vec::new();
        render(ch, style, &j, &mut b);
        ev!("otherwise: {}", show(&b));
        let e = expect(d.t(), &b);
        match &e.v {
            Some(v) if *v == val => {}
            _ => return violate("HARNESS", format!("{}: {} is not {}: {:?}", d.t().name, show(&b), val.short(), e)),
        }
        check_read(ch, d, &b, &e, false);
        count("probe.other_spelling", 1);
    }
    for _ in 0..ch.range(1, 4) {
        let mut b = text.clone();
        match ch.below(5) {
            0 | 1 => {
                let k = ch.below(text.len().max(1));
                b.truncate(k);
                ev!("crash after {k} of {} bytes", text.len());
                count("fault.crash_during_write", 1);
            }
            2 => {
                // the file held an older document, overwritten in place up to the crash
                let old = gen_val(d.t(), ch, &g);
                let Some(o) = stored(ch, d, &old) else { return };
                let k = ch.below(text.len() + 1);
                b.truncate(k);
                if o.len() > k {
                    b.extend_from_slice(&o[k..]);
                }
                ev!("torn overwrite at {k}: {}", show(&b));
                count("fault.torn_overwrite", 1);
            }
            3 if !b.is_empty() => {
                let sec = *ch.pick(&[1usize, 4, 16, 64]);
                let i = ch.below(b.len().div_ceil(sec)) * sec;
                let e = (i + sec).min(b.len());
                b[i..e].fill(0);
                ev!("sector {i}..{e} lost");
                count("fault.lost_sector", 1);
            }
            _ => {
                let k = ch.below(text.len() + 1);
                b.extend_from_slice(&text[k..]);
                ev!("tail from {k} written twice");
                count("fault.duplicated_write", 1);
            }
        }
        let mut e = expect(d.t(), &b);
        if e.v.is_none() && !e.must {
            // reading back what the writer wrote is never left open
            e = ANY;
        }
        check_read(ch, d, &b, &e, false);
    }
}

// ------------------------------------------------------------------------------- J03

const ALPHA: &[u8] = b"{}[]:,\"\\ntf0-+.eE9 1u/\n\x00\x1f\x7f\xc3";

/// The same number, written otherwise.
fn respell(ch: &mut Ch, n: &str) -> String {
    let (sign, m) = n.strip_prefix('-').map_or(("", n), |d| ("-", d));
    let (m, exp) = m.split_once(['e', 'E']).unwrap_or((m, "0"));
    let (int, frac) = m.split_once('.').unwrap_or((m, ""));
    let Ok(exp) = exp.trim_start_matches('+').parse::<i64>() else { return n.to_string() };
    if int.is_empty() || exp.abs() > 1_000_000 || !int.bytes().chain(frac.bytes()).all(|c| c.is_ascii_digit()) {
        return n.to_string();
    }
    // digits without zeros around them, and where the point is among them
    let d = format!("{int}{frac}");
    let lead = d.len() - d.trim_start_matches('0').len();
    let mut point = int.len() as i64 + exp - lead as i64;
    let mut d = d.trim_matches('0').to_string();
    let e = |ch: &mut Ch, x: i64| {
        let z = *ch.pick(&["", "", "0", "00"]);
        let s = if x < 0 { "-" } else { *ch.pick(&["", "+"]) };
        format!("{}{s}{z}{}", ch.pick(&["e", "E"]), x.abs())
    };
    if d.is_empty() {
        let x = ch.below(600) as i64 - 300;
        return format!("{sign}0{}{}", ch.pick(&["", ".0", ".000"]), if ch.chance(1, 2) { e(ch, x) } else { String::new() });
    }
    let more = *ch.pick(&[0, 0, 1, 2, 5, 20]);
    d.extend(std::iter::repeat_n('0', more));
    if (0..25).contains(&(point - d.len() as i64)) && ch.chance(1, 2) {
        // no exponent
        let n = point as usize - d.len();
        d.extend(std::iter::repeat_n('0', n));
        return format!("{sign}{d}{}", ch.pick(&["", ".0", "e0", "E+0", "e-0", ".00e00"]));
    }
    if point > 0 && point < d.len() as i64 && ch.chance(1, 3) {
        return format!("{sign}{}.{}", &d[..point as usize], &d[point as usize..]);
    }
    if ch.chance(1, 3) {
        // zeros after the point
        let z = ch.below(4);
        return format!("{sign}0.{}{d}{}", "0".repeat(z), e(ch, point + z as i64));
    }
    let at = ch.range(1, d.len());
    point -= at as i64;
    let (i, f) = d.split_at(at);
    format!("{sign}{i}{}{f}{}", if f.is_empty() { "" } else { "." }, e(ch, point))
}

/// Every number of the document, some written otherwise.
fn respell_all(ch: &mut Ch, j: &mut J) {
    match j {
        J::Num(n) if ch.chance(2, 3) => *n = respell(ch, n),
        J::Arr(v) => v.iter_mut().for_each(|x| respell_all(ch, x)),
        J::Obj(v) => v.iter_mut().for_each(|x| respell_all(ch, &mut x.1)),
        _ => {}
    }
}

fn rand_num(ch: &mut Ch) -> String {
    match ch.below(10) {
        9 => {
            // next to the middle between two numbers of 32 bits
            let x = f32::from_bits((ch.range(100, 180) as u32) << 23 | ch.u64() as u32 & 0x7f_ffff);
            let y = f32::from_bits(x.to_bits() + 1);
            let m = format!("{:.70}", (x as f64 + y as f64) / 2.0);
            match ch.below(3) {
                0 => m + "1",
                1 => m,
                _ => format!("{}4{}", m.trim_end_matches('0').strip_suffix('5').unwrap_or(&m), "9".repeat(60)),
            }
        }
        0 => ch.below(300).to_string(),
        1 => format!("-{}", ch.below(40000)),
        2 => {
            let bits = *ch.pick(&[7u32, 8, 15, 16, 31, 32, 63, 64, 126]);
            let x = (1i128 << bits) + ch.below(3) as i128 - 1;
            (if ch.chance(1, 2) { -x } else { x }).to_string()
        }
        3 => ch.pick(&["340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "-170141183460469231731687303715884105728", "170141183460469231731687303715884105728", "99999999999999999999999999999999999999999999999999", "-0", "0", "9007199254740993", "18446744073709551615", "18446744073709551616"]).to_string(),
        4 => ch.pick(&["1e2", "1.0", "12.5e1", "0.0", "-0.0", "1e400", "-1e400", "1e-400", "0e999999999999999999999", "1E+2", "100e-2", "150e-2", "2.50", "1e308", "1.7976931348623159e308", "5e-324", "2e-324", "1e18", "1e19", "12345678901234567890e-1", "16777217", "0.1", "3.4028236e38", "1e39"]).to_string(),
        5 => format!("{}.{}e{}{}", ch.below(1000), ch.below(1000), if ch.chance(1, 2) { "-" } else { "" }, ch.below(30)),
        6 => ch.pick(&["01", "+1", ".5", "1.", "1e", "1e+", "--1", "-", "0x10", "1_000", "NaN", "Infinity", "-Infinity", "1.e5", "00", "-01", "1e5.5", "0.", "1..2", "٣"]).to_string(),
        7 => (0..ch.range(1, 45)).map(|_| (b'0' + ch.below(10) as u8) as char).collect(),
        _ => format!("{:e}", f64::from_bits(ch.u64())),
    }
}

fn rand_j(ch: &mut Ch, depth: usize) -> J {
    match ch.below(if depth > 3 { 5 } else { 7 }) {
        0 => J::Null,
        1 => J::Bool(ch.chance(1, 2)),
        2 => J::Num(rand_num(ch)),
        3 => jstr(crate::model::gen_str(ch, &Gen::default())),
        4 => match ch.below(6) {
            0 => J::Str(None),
            1 => jstr(rand_num(ch)),
            2 => jstr(format!("t{}", ch.below(100))),
            3 => jstr(*ch.pick(&["true", "false", "null", "", "x", "t", "t-1", "t4294967296", "NaN", "inf", "+5", "007", "-0", " 1", "1 "])),
            4 => jstr("é"),
            _ => jstr("t5"),
        },
        5 => J::Arr((0..ch.below(4)).map(|_| rand_j(ch, depth + 1)).collect()),
        _ => J::Obj((0..ch.below(4)).map(|_| (Some(rand_key(ch)), rand_j(ch, depth + 1))).collect()),
    }
}

fn rand_key(ch: &mut Ch) -> String {
    match ch.below(3) {
        0 => ch.pick(&["a", "b", "c", "d", "e", "t", "v", "s", "kids", "n", "x", "0", "1", "", "renamed", "zz", "f0", "f62", "日本 / é", "d.e-f"]).to_string(),
        1 => crate::model::gen_str(ch, &Gen { max_len: 3, ..Gen::default() }),
        _ => format!("u{}", ch.below(50)),
    }
}

/// Edits the document's tree somewhere.
fn mutate(ch: &mut Ch, j: &mut J) {
    // pick a node by a random walk
    let stop = ch.chance(1, 4);
    match j {
        J::Arr(v) if !v.is_empty() && !stop => {
            let i = ch.below(v.len());
            return mutate(ch, &mut v[i]);
        }
        J::Obj(v) if !v.is_empty() && !stop => {
            let i = ch.below(v.len());
            return mutate(ch, &mut v[i].1);
        }
        _ => {}
    }
    match j {
        J::Obj(v) if ch.chance(4, 5) => match ch.below(8) {
            0 if !v.is_empty() => {
                let i = ch.below(v.len());
                v.remove(i);
            }
            1 if !v.is_empty() => {
                let i = ch.below(v.len());
                let x = v[i].clone();
                let k = ch.below(v.len() + 1);
                v.insert(k, x);
            }
            2 if !v.is_empty() => {
                let i = ch.below(v.len());
                let k = v[i].0.clone();
                let x = rand_j(ch, 0);
                let at = ch.below(v.len() + 1);
                v.insert(at, (k, x));
            }
            3 | 4 => {
                let at = ch.below(v.len() + 1);
                let x = (Some(rand_key(ch)), rand_j(ch, 0));
                v.insert(at, x);
            }
            5 if v.len() > 1 => {
                let (a, b) = (ch.below(v.len()), ch.below(v.len()));
                v.swap(a, b);
            }
            6 if !v.is_empty() => {
                let i = ch.below(v.len());
                v[i].0 = if ch.chance(1, 10) { None } else { Some(rand_key(ch)) };
            }
            _ => v.clear(),
        },
        J::Arr(v) if ch.chance(4, 5) => match ch.below(4) {
            0 if !v.is_empty() => {
                let i = ch.below(v.len());
                let x = v[i].clone();
                v.insert(i, x);
            }
            1 if !v.is_empty() => {
                let i = ch.below(v.len());
                v.remove(i);
            }
            _ => {
                let at = ch.below(v.len() + 1);
                v.insert(at, rand_j(ch, 1));
            }
        },
        J::Num(n) if ch.chance(1, 3) => *j = J::Num(respell(ch, n)),
        J::Num(_) if ch.chance(2, 3) => *j = J::Num(rand_num(ch)),
        j => *j = rand_j(ch, 0),
    }
}

/// A member nobody knows, with much in it, somewhere.
fn extra(ch: &mut Ch, j: &mut J) {
    match j {
        J::Arr(v) if !v.is_empty() => {
            let i = ch.below(v.len());
            extra(ch, &mut v[i])
        }
        J::Obj(v) => {
            if !v.is_empty() && ch.chance(1, 3) {
                let i = ch.below(v.len());
                if matches!(v[i].1, J::Obj(_) | J::Arr(_)) {
                    return extra(ch, &mut v[i].1);
                }
            }
            let x = if ch.chance(1, 2) {
                J::Arr((0..ch.range(1, 4)).map(|_| rand_j(ch, 1)).collect())
            } else {
                J::Obj((0..ch.range(1, 4)).map(|_| (Some(rand_key(ch)), rand_j(ch, 1))).collect())
            };
            let at = ch.below(v.len() + 1);
            v.insert(at, (Some(format!("u{}", ch.below(50))), x));
        }
        _ => {}
    }
}

fn shuffle(ch: &mut Ch, j: &mut J) {
    match j {
        J::Obj(v) => {
            for i in (1..v.len()).rev() {
                let k = ch.below(i + 1);
                v.swap(i, k);
            }
            v.iter_mut().for_each(|x| shuffle(ch, &mut x.1));
        }
        J::Arr(v) => v.iter_mut().for_each(|x| shuffle(ch, x)),
        _ => {}
    }
}

/// Missing members the type has defaults for.
fn omit(ch: &mut Ch, t: &'static Ty, j: &mut J) {
    match (&t.kind, j) {
        (Kind::Struct { fields, .. }, J::Obj(v)) => {
            v.retain(|(k, _)| {
                let has = t.default_val.is_some() || fields.iter().any(|f| f.default.is_some() && Some(f.key()) == k.as_deref());
                !(has && ch.chance(1, 2))
            });
            for (k, x) in v.iter_mut() {
                if let Some(f) = fields.iter().find(|f| Some(f.key()) == k.as_deref()) {
                    omit(ch, (f.ty)(), x);
                }
            }
        }
        (Kind::List(i), J::Arr(v)) => v.iter_mut().for_each(|x| omit(ch, i(), x)),
        (Kind::Opt(i), j) => omit(ch, i(), j),
        _ => {}
    }
}

fn plan_faults(ch: &mut Ch) -> bool {
    if !ch.chance(1, 5) {
        return false;
    }
    let n = ch.range(1, 6) as u64;
    let cb = *ch.pick(&[Cb::Parse, Cb::Parse, Cb::Default, Cb::Invariant]);
    let act = if ch.chance(1, 2) { Act::Panic } else { Act::Refuse };
    ev!("fault: {cb:?} {n} {act:?}");
    world::with(|w| w.plan = vec![(cb, n, act)]);
    true
}

pub fn j03(ch: &mut Ch) {
    let faults = alloc::off(|| j03_run(ch));
    audit(!faults || world::fired() == 0);
}

fn hostile(ch: &mut Ch, t: &'static Ty, out: &mut Vec<u8>) {
    let n = match ch.below(4) {
        0 => ch.below(300),
        1 => ch.range(100, 140),
        2 => ch.range(1000, 5000),
        _ => *ch.pick(&[20_000, 60_000, 120_000]),
    };
    let close = ch.chance(2, 3);
    let (o, c): (&[u8], &[u8]) = *ch.pick::<(&[u8], &[u8])>(&[
        (b"[", b"]"),
        (b"{\"k\":", b"}"),
        (b"{\"t\":\"t1\",\"kids\":[", b"]}"),
        (b"{\"t\":\"x\",\"n\":1,\"kids\":[", b"]}"),
        (b"[{\"a\":", b"}]"),
        (b"{\"t\":\"t1\",\"kids\":[],\"o\":[", b"]}"),
    ]);
    ev!("nesting {n} of {}", show(o));
    count("fault.hostile_nesting", 1);
    let mut w = Vec::new();
    (0..n).for_each(|_| w.extend_from_slice(o));
    if ch.chance(1, 2) {
        w.extend_from_slice(b"1");
    }
    if close {
        (0..n).for_each(|_| w.extend_from_slice(c));
    }
    if ch.chance(1, 2) {
        // inside a document, where it is unknown
        let v = gen_val(t, ch, &Gen::default());
        let mut d = Vec::new();
        render(ch, Style { spaces: false, escapes: false }, &doc_of(t, &v), &mut d);
        if d.last() == Some(&b'}') {
            d.pop();
            out.extend_from_slice(&d);
            out.extend_from_slice(if d.len() > 1 { b",\"zz\":" } else { b"\"zz\":" });
            out.extend_from_slice(&w);
            out.push(b'}');
            return;
        }
    }
    out.extend_from_slice(&w);
}

fn j03_run(ch: &mut Ch) -> bool {
    let d = ch.pick(docs::json_read());
    let t = d.t();
    let faults = plan_faults(ch);
    let mut b = Vec::new();
    if ch.chance(1, 200) {
        hostile(ch, t, &mut b);
    } else {
        let mut j = if ch.chance(1, 12) {
            rand_j(ch, 0)
        } else {
            let g = Gen { finite: true, max_len: 3, big: ch.chance(1, 60), max_depth: 4, plain_strings: ch.chance(1, 2) };
            let v = gen_val(t, ch, &g);
            doc_of(t, &v)
        };
        if ch.chance(1, 3) {
            shuffle(ch, &mut j);
        }
        if ch.chance(1, 2) {
            omit(ch, t, &mut j);
        }
        if ch.chance(1, 3) {
            extra(ch, &mut j);
            count("fault.unknown_member", 1);
        }
        let m = ch.weighted(&[5, 4, 2, 1]);
        for _ in 0..m {
            mutate(ch, &mut j);
            count("fault.document_edited", 1);
        }
        let style = Style { spaces: ch.chance(1, 3), escapes: ch.chance(1, 3) };
        render(ch, style, &j, &mut b);
        for _ in 0..ch.weighted(&[6, 2, 1]) {
            let k = damage(ch, &mut b, ALPHA);
            count(k, 1);
        }
    }
    let exp = expect(t, &b);
    ev!("{} from {}", t.name, show(&b));
    check_read(ch, d, &b, &exp, faults);
    faults
}

/// A stored document of some type, some damaged.
pub fn document(ch: &mut Ch) -> (&'static Doc, Vec<u8>) {
    let d = ch.pick(docs::json_both());
    let g = Gen { finite: true, max_len: 3, big: false, max_depth: 4, plain_strings: true };
    let v = Value::new(d.t(), &gen_val(d.t(), ch, &g));
    let s = sut_np("to_string", || unsafe { (d.json_to_string)(v.p) }).unwrap_or_default();
    (d, s.as_bytes().to_vec())
}
