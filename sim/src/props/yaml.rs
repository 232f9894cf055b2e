//! Y01: YAML documents on simulated storage, in many layouts, and damaged.
use super::read::{Limits, judge, show};
use crate::docs::{TDoc, damage, yaml_docs};
use crate::json::{ANY, ERR, Exp, all, may, must};
use crate::model::{Gen, Kind, Ty, Val, gen_val};
use crate::rng::Ch;
use crate::world::{self, Act, Cb, audit, count};
use crate::{alloc, ev};
use yaml_rust2::{Yaml, YamlLoader};

#[derive(Clone, Debug)]
enum Y {
    Str(String),
    /// any other scalar, as it is written
    Raw(String),
    Seq(Vec<Y>),
    Map(Vec<(Y, Y)>),
}

fn of(t: &Ty, v: &Val) -> Y {
    match (&t.kind, v) {
        (_, Val::Str(s)) => Y::Str(s.clone()),
        (_, Val::Tok(l)) => Y::Str(format!("t{l}")),
        (_, Val::Char(c)) => Y::Str(c.to_string()),
        (_, Val::Bool(b)) => Y::Raw(b.to_string()),
        (_, Val::Int(i)) => Y::Raw(i.to_string()),
        (_, Val::F64(x)) => Y::Raw(format!("{:?}", f64::from_bits(*x))),
        (_, Val::F32(x)) => Y::Raw(format!("{:?}", f32::from_bits(*x))),
        (Kind::Struct { fields, .. }, Val::Struct(x)) => Y::Map(fields.iter().zip(x).map(|(f, v)| (Y::Str(f.name.into()), of((f.ty)(), v))).collect()),
        (Kind::Enum { variants }, Val::Enum(i, x)) => {
            let w = &variants[*i];
            if w.fields.is_empty() {
                return Y::Str(w.name.into());
            }
            Y::Map(vec![(Y::Str(w.name.into()), Y::Map(w.fields.iter().zip(x).map(|(f, v)| (Y::Str(f.name.into()), of((f.ty)(), v))).collect()))])
        }
        (Kind::List(i) | Kind::Array(i, _), Val::List(x)) => Y::Seq(x.iter().map(|v| of(i(), v)).collect()),
        (Kind::Opt(i), Val::Opt(Some(v))) => of(i(), v),
        (Kind::Ptr(i), Val::Ptr(v)) => of(i(), v),
        (Kind::Map { key, val }, Val::Map(m)) => Y::Map(m.iter().map(|(k, v)| (of(key(), k), of(val(), v))).collect()),
        _ => Y::Raw("~".into()),
    }
}

// ---------------------------------------------------------------- meaning

fn decode(t: &'static Ty, y: &Yaml) -> Exp {
    match (&t.kind, y) {
        (Kind::Struct { fields, .. }, Yaml::Hash(h)) => {
            let mut got: Vec<Option<Exp>> = vec![None; fields.len()];
            let mut open = false;
            for (k, v) in h {
                let Some(k) = k.as_str() else {
                    open = true;
                    continue;
                };
                match fields.iter().position(|f| f.name == k) {
                    Some(i) => got[i] = Some(decode((fields[i].ty)(), v)),
                    // whether unknown members are refused is left open
                    None => open = true,
                }
            }
            let parts = got
                .into_iter()
                .zip(fields)
                .map(|(e, f)| match e {
                    Some(e) => e,
                    None if t.default_val.is_some() || f.default.is_some() || matches!((f.ty)().kind, Kind::Opt(_)) => ANY,
                    None => ERR,
                })
                .collect();
            let e = all(parts, Val::Struct);
            if open && e.v.is_some() { Exp { must: false, ..e } } else { e }
        }
        (Kind::Struct { .. }, _) => ERR,
        (Kind::Int { bits: 64, signed: false, nonzero: false }, y) if t.name == "u64" => {
            let text = |s: &str| match s.parse::<u64>() {
                Ok(x) => may(Val::Int(x as i128)),
                Err(_) => match s.parse::<f64>() {
                    Ok(x) if x.fract() == 0.0 && (0.0..1.8e19).contains(&x) => may(Val::Int(x as i128)),
                    _ => ERR,
                },
            };
            match y {
                Yaml::Integer(i) if *i >= 0 => must(Val::Int(*i as i128)),
                Yaml::Integer(_) => ERR,
                // what does not fit i64 is a real to the parser, but keeps its digits
                Yaml::Real(s) if s.parse::<u64>().is_ok() => must(Val::Int(s.parse::<u64>().unwrap() as i128)),
                Yaml::Real(s) => text(s),
                Yaml::String(s) => text(s),
                Yaml::Boolean(b) => may(Val::Int(*b as i128)),
                _ => ERR,
            }
        }
        (Kind::Str, y) if t.name == "String" => match y {
            Yaml::String(s) => must(Val::Str(s.clone())),
            _ => ERR,
        },
        // not supported by the reader: anything but a crash
        _ => ANY,
    }
}

fn expect(t: &'static Ty, s: &str) -> Exp {
    let Ok(d) = YamlLoader::load_from_str(s) else { return ERR };
    if d.len() != 1 {
        return ERR;
    }
    let e = decode(t, &d[0]);
    match (t.invariant, &e.v) {
        (Some(f), Some(v)) if !f(v) => ERR,
        _ => e,
    }
}

// ---------------------------------------------------------------- layout

fn string(ch: &mut Ch, s: &str, out: &mut String, indent: Option<usize>) {
    let simple = !s.is_empty() && s.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_' || c == b' ') && s.trim() == s && s.as_bytes()[0].is_ascii_alphabetic();
    let word = matches!(s.to_ascii_lowercase().as_str(), "true" | "false" | "yes" | "no" | "on" | "off" | "null" | "y" | "n" | "nan" | "inf");
    let printable = s.chars().all(|c| c >= ' ' && c as u32 != 127);
    match ch.below(5) {
        0 | 1 if simple && !word => out.push_str(s),
        2 if printable => {
            out.push('\'');
            out.push_str(&s.replace('\'', "''"));
            out.push('\'');
        }
        3 if indent.is_some() && !s.is_empty() && s.chars().all(|c| c == '\n' || (c >= ' ' && c as u32 != 127)) && !s.starts_with([' ', '\n']) && !s.ends_with('\n') => {
            out.push_str("|-\n");
            for (i, l) in s.split('\n').enumerate() {
                if i > 0 {
                    out.push('\n');
                }
                if !l.is_empty() {
                    out.push_str(&" ".repeat(indent.unwrap() + 2));
                    out.push_str(l);
                }
            }
        }
        _ => {
            out.push('"');
            for c in s.chars() {
                match c {
                    '"' => out.push_str("\\\""),
                    '\\' => out.push_str("\\\\"),
                    '\n' => out.push_str("\\n"),
                    '\t' => out.push_str("\\t"),
                    '\r' => out.push_str("\\r"),
                    '\0' => out.push_str("\\0"),
                    c if (c as u32) < 32 || c as u32 == 127 => out.push_str(&format!("\\x{:02x}", c as u32)),
                    c if ch.chance(1, 15) => out.push_str(&if c as u32 > 0xffff { format!("\\U{:08x}", c as u32) } else { format!("\\u{:04x}", c as u32) }),
                    c => out.push(c),
                }
            }
            out.push('"');
        }
    }
}

fn raw(ch: &mut Ch, s: &str, out: &mut String) {
    match s.parse::<u64>() {
        Ok(x) if x <= i64::MAX as u64 && ch.chance(1, 6) => match ch.below(3) {
            0 => out.push_str(&format!("0x{x:x}")),
            1 => out.push_str(&format!("0o{x:o}")),
            _ => out.push_str(&format!("+{x}")),
        },
        _ => out.push_str(s),
    }
}

fn flow(ch: &mut Ch, y: &Y, out: &mut String) {
    match y {
        Y::Str(s) => string(ch, s, out, None),
        Y::Raw(s) => raw(ch, s, out),
        Y::Seq(v) => {
            out.push('[');
            for (i, x) in v.iter().enumerate() {
                out.push_str(if i > 0 { ", " } else { "" });
                flow(ch, x, out);
            }
            out.push(']');
        }
        Y::Map(m) => {
            out.push('{');
            for (i, (k, x)) in m.iter().enumerate() {
                out.push_str(if i > 0 { ", " } else { "" });
                flow(ch, k, out);
                out.push_str(": ");
                flow(ch, x, out);
            }
            out.push('}');
        }
    }
}

fn block(ch: &mut Ch, y: &Y, ind: usize, step: usize, out: &mut String) {
    let Y::Map(m) = y else { return };
    for (k, x) in m {
        if ch.chance(1, 12) {
            out.push_str("# note: x\n");
        }
        if ch.chance(1, 12) {
            out.push('\n');
        }
        let pad = " ".repeat(ind);
        out.push_str(&pad);
        if ch.chance(1, 25) {
            out.push_str("? ");
            flow(ch, k, out);
            out.push('\n');
            out.push_str(&pad);
        } else {
            flow(ch, k, out);
        }
        out.push(':');
        match x {
            Y::Map(m) if !m.is_empty() && ch.chance(3, 4) => {
                out.push('\n');
                block(ch, x, ind + step, step, out);
                continue;
            }
            Y::Seq(v) if !v.is_empty() && ch.chance(3, 4) => {
                for x in v {
                    out.push('\n');
                    out.push_str(&pad);
                    out.push_str("  - ");
                    flow(ch, x, out);
                }
            }
            Y::Str(s) => {
                out.push(' ');
                string(ch, s, out, Some(ind));
            }
            x => {
                out.push(' ');
                flow(ch, x, out);
            }
        }
        if ch.chance(1, 12) && !matches!(x, Y::Str(_)) {
            out.push_str(" # c");
        }
        out.push('\n');
    }
}

fn spell(ch: &mut Ch, y: &Y) -> String {
    let mut out = String::new();
    if ch.chance(1, 5) {
        out.push_str("---\n");
    }
    match y {
        Y::Map(m) if !m.is_empty() && ch.chance(3, 4) => {
            let ind = *ch.pick(&[0, 0, 0, 2, 5]);
            let step = ch.range(1, 4);
            block(ch, y, ind, step, &mut out);
        }
        y => {
            flow(ch, y, &mut out);
            out.push('\n');
        }
    }
    if ch.chance(1, 10) {
        out.push_str("...\n");
    }
    out
}

// ---------------------------------------------------------------- runs

fn rand_y(ch: &mut Ch, depth: usize) -> Y {
    match ch.below(if depth > 2 { 5 } else { 7 }) {
        0 | 1 => Y::Raw(
            (*ch.pick(&["~", "null", "true", "false", "0", "-1", "-9223372036854775808", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1.5", "1.0", "1e3", ".inf", ".nan", "0x10", "-0", "", "!!str 12", "!!int 5", "!!int x"]))
                .into(),
        ),
        2..=4 => Y::Str((*ch.pick(&["", "x", "12", "-3", "true", "a: b", "# no", "- x", "t4", "é\u{1f600}", "two\nlines", "99999999999999999999"])).into()),
        5 => Y::Seq((0..ch.below(4)).map(|_| rand_y(ch, depth + 1)).collect()),
        _ => Y::Map((0..ch.below(4)).map(|_| (key(ch), rand_y(ch, depth + 1))).collect()),
    }
}

fn key(ch: &mut Ch) -> Y {
    if ch.chance(1, 10) {
        return rand_y(ch, 3);
    }
    Y::Str((*ch.pick(&["a", "b", "c", "d", "x", "y", "0", "1", "zz", ""])).into())
}

fn mutate(ch: &mut Ch, y: &mut Y) {
    let stop = ch.chance(1, 3);
    match y {
        Y::Map(v) if !v.is_empty() && !stop => {
            let i = ch.below(v.len());
            return mutate(ch, &mut v[i].1);
        }
        _ => {}
    }
    match y {
        Y::Map(v) if ch.chance(5, 6) => match ch.below(5) {
            0 | 1 if !v.is_empty() => {
                let i = ch.below(v.len());
                v.remove(i);
            }
            2 if !v.is_empty() => {
                let i = ch.below(v.len());
                let x = v[i].clone();
                v.push(x);
            }
            3 if !v.is_empty() => {
                let i = ch.below(v.len());
                v[i].0 = key(ch);
            }
            _ => v.push((key(ch), rand_y(ch, 0))),
        },
        y => *y = rand_y(ch, 0),
    }
}

const ALPHA: &[u8] = b":-{}[],&*#?|>'\"%@!\n\r\t 0129aext~.\\<";

pub fn y01(ch: &mut Ch) {
    let faults = alloc::off(|| run(ch));
    audit(!faults || world::fired() == 0);
}

fn check(ch: &mut Ch, d: &TDoc, s: &str, e: &Exp) {
    let shown = ch.chance(1, 8);
    let lim = (!shown).then_some(Limits { allocs: (3000 + d.t().ops.size as u64, 200), bytes: (1_000_000 + 16 * d.t().ops.size, 30_000) });
    judge(d.t().name, s, e, lim, false, || (d.read)(s, shown));
}

fn run(ch: &mut Ch) -> bool {
    let d = ch.pick(yaml_docs());
    let t = d.t();
    let faults = ch.chance(1, 10);
    if faults {
        let act = if ch.chance(1, 2) { Act::Panic } else { Act::Refuse };
        world::with(|w| w.plan = vec![(Cb::Invariant, 1, act)]);
    }
    let g = Gen { finite: false, max_len: 4, big: ch.chance(1, 30), max_depth: 5, plain_strings: ch.chance(1, 3) };
    let v = gen_val(t, ch, &g);
    let mut y = of(t, &v);
    if let Y::Map(m) = &mut y {
        for i in (1..m.len()).rev() {
            let k = ch.below(i + 1);
            m.swap(i, k);
        }
    }
    let s = spell(ch, &y);
    ev!("{} from {}", t.name, show(&s));
    let mut e = expect(t, &s);
    if e.must && e.v.is_some() {
        count("probe.plain_document", 1);
        if e.v.as_ref() == Some(&v) {
            count("probe.document_means_value", 1);
        } else {
            // the parser, which is not ours, takes this layout for something else
            e = ANY;
        }
    }
    check(ch, d, &s, &e);
    for _ in 0..ch.range(1, 4) {
        let mut text = s.clone();
        if ch.chance(1, 2) {
            let mut m = y.clone();
            for _ in 0..ch.weighted(&[0, 5, 2]) {
                mutate(ch, &mut m);
                count("fault.document_edited", 1);
            }
            text = spell(ch, &m);
        }
        let mut b = text.into_bytes();
        match ch.below(6) {
            0 => {
                b.truncate(ch.below(b.len() + 1));
                count("fault.crash_during_write", 1);
            }
            1 => {
                let mut l: Vec<Vec<u8>> = b.split_inclusive(|c| *c == b'\n').map(|x| x.to_vec()).collect();
                if l.is_empty() {
                    continue;
                }
                let i = ch.below(l.len());
                let k = ch.below(l.len());
                match ch.below(3) {
                    0 => drop(l.remove(i)),
                    1 => l.insert(k, l[i].clone()),
                    _ => l.swap(i, k),
                }
                b = l.concat();
                count("fault.lines_damaged", 1);
            }
            2 => {
                let o = of(t, &gen_val(t, ch, &g));
                let o = spell(ch, &o).into_bytes();
                let k = ch.below(b.len() + 1);
                b.truncate(k);
                if o.len() > k {
                    b.extend_from_slice(&o[k..]);
                }
                count("fault.torn_overwrite", 1);
            }
            3 => {}
            _ => {
                for _ in 0..ch.range(1, 2) {
                    let k = damage(ch, &mut b, ALPHA);
                    count(k, 1);
                }
            }
        }
        let text = String::from_utf8_lossy(&b).into_owned();
        ev!("then from {}", show(&text));
        let e = expect(t, &text);
        check(ch, d, &text, &e);
    }
    faults
}

/// A stored document of some type.
pub fn document(ch: &mut Ch) -> (&'static TDoc, String) {
    let d = ch.pick(yaml_docs());
    let g = Gen { finite: false, max_len: 3, big: false, max_depth: 4, plain_strings: true };
    let v = gen_val(d.t(), ch, &g);
    let y = of(d.t(), &v);
    (d, spell(ch, &y))
}
