//! A01: command lines, in every order, and damaged.
use super::read::judge;
use crate::docs::{ADoc, arg_docs};
use crate::json::{ANY, ERR, Exp, all, from_text, may, must};
use crate::model::{FieldTy, Gen, Kind, Ty, Val, gen_val};
use crate::rng::Ch;
use crate::world::{self, Act, Cb, audit, count};
use crate::{alloc, ev};

fn parse(t: &'static Ty, s: &str, named: bool) -> Exp {
    match &t.kind {
        Kind::Bool if named => must(Val::Bool(true)),
        Kind::Bool => match s {
            "true" => must(Val::Bool(true)),
            "false" => must(Val::Bool(false)),
            s if s.eq_ignore_ascii_case("true") => may(Val::Bool(true)),
            s if s.eq_ignore_ascii_case("false") => may(Val::Bool(false)),
            _ => ERR,
        },
        Kind::Str if t.name == "Cow<str>" => ANY,
        Kind::Addr => crate::model::addr(t.name, s).map_or(ERR, |x| must(Val::Str(x))),
        Kind::Int { .. } | Kind::F32 | Kind::F64 | Kind::Char | Kind::Str | Kind::Tok => from_text(t, s).map_or(ERR, |v| if v == Val::Int(0) && s.starts_with('-') { may(v) } else { must(v) }),
        _ => ANY,
    }
}

fn expect(d: &ADoc, args: &[String]) -> Exp {
    let t = d.t();
    let Kind::Struct { fields, .. } = &t.kind else { return ANY };
    let mut got: Vec<Option<Exp>> = vec![None; fields.len()];
    let mut by_name = vec![false; fields.len()];
    let mut open = false;
    let mut bad = false;
    let mut i = 0;
    let mut pos = d.positional.iter();
    let mut any_pos = false;
    while i < args.len() {
        let a = &args[i];
        i += 1;
        if let Some(k) = a.strip_prefix("--") {
            let Some(f) = fields.iter().position(|f| f.name == k) else {
                // -- alone and --name=value have customary meanings
                if k.is_empty() || k.split_once('=').is_some_and(|(k, _)| fields.iter().any(|f| f.name == k)) {
                    return ANY;
                }
                bad = true;
                break;
            };
            let ft = (fields[f].ty)();
            let e = if matches!(ft.kind, Kind::Bool) {
                parse(ft, "", true)
            } else {
                let Some(v) = args.get(i) else {
                    bad = true;
                    break;
                };
                i += 1;
                if v.starts_with("--") {
                    // an option where a value is expected
                    return ANY;
                }
                parse(ft, v, false)
            };
            if got[f].is_some() {
                // given twice: the first, the last or a refusal
                open = true;
                if got[f].as_ref().unwrap().v != e.v {
                    return ANY;
                }
            }
            by_name[f] = true;
            got[f] = Some(e);
        } else {
            any_pos = true;
            let Some(f) = pos.next() else {
                bad = true;
                break;
            };
            got[*f] = Some(parse((fields[*f].ty)(), a, false));
        }
    }
    // positional fields given by name as well: left open which argument goes where
    if any_pos && d.positional.iter().any(|f| by_name[*f]) {
        return ANY;
    }
    if bad {
        return ERR;
    }
    let parts = got
        .into_iter()
        .zip(fields)
        .map(|(e, f): (_, &FieldTy)| match e {
            Some(e) => e,
            // a flag that is not there may count as false
            None if matches!((f.ty)().kind, Kind::Bool) => may(Val::Bool(false)),
            None if t.default_val.is_some() || f.default.is_some() || matches!((f.ty)().kind, Kind::Opt(_)) => ANY,
            None => ERR,
        })
        .collect();
    let e = all(parts, Val::Struct);
    let e = match (t.invariant, &e.v) {
        (Some(f), Some(v)) if !f(v) => ERR,
        _ => e,
    };
    if open && e.v.is_some() { Exp { must: false, ..e } } else { e }
}

fn text(v: &Val) -> String {
    match v {
        Val::Str(s) => s.clone(),
        Val::Int(i) => i.to_string(),
        Val::UInt(i) => i.to_string(),
        Val::Bool(b) => b.to_string(),
        Val::F32(x) => f32::from_bits(*x).to_string(),
        Val::F64(x) => f64::from_bits(*x).to_string(),
        Val::Char(c) => c.to_string(),
        Val::Tok(l) => format!("t{l}"),
        Val::Opt(Some(v)) => text(v),
        _ => "?".into(),
    }
}

/// the words of one argument stay together
fn words(ch: &mut Ch, d: &ADoc, v: &Val) -> Vec<Vec<String>> {
    let (Kind::Struct { fields, .. }, Val::Struct(x)) = (&d.t().kind, v) else { return vec![] };
    let mut out: Vec<Vec<String>> = Vec::new();
    for (i, (f, v)) in fields.iter().zip(x).enumerate() {
        if d.positional.contains(&i) {
            continue;
        }
        out.push(match v {
            Val::Bool(false) => continue,
            Val::Bool(true) => vec![format!("--{}", f.name)],
            v => vec![format!("--{}", f.name), text(v)],
        });
    }
    for i in (1..out.len()).rev() {
        let k = ch.below(i + 1);
        out.swap(i, k);
    }
    // positional arguments in their order, anywhere
    let mut at = 0;
    for f in d.positional {
        at = ch.range(at, out.len());
        out.insert(at, vec![text(&x[*f])]);
        at += 1;
    }
    out
}

fn mutate(ch: &mut Ch, d: &ADoc, a: &mut Vec<String>) {
    let n = a.len();
    match ch.below(7) {
        0 if n > 0 => {
            let i = ch.below(n);
            a.remove(i);
            count("fault.word_lost", 1);
        }
        1 if n > 0 => {
            let i = ch.below(n);
            let k = ch.below(n + 1);
            let x = a[i].clone();
            a.insert(k, x);
            count("fault.word_duplicated", 1);
        }
        2 if n > 1 => {
            let (i, k) = (ch.below(n), ch.below(n));
            a.swap(i, k);
            count("fault.words_swapped", 1);
        }
        3 if n > 0 => {
            let i = ch.below(n);
            a.truncate(i);
            count("fault.command_line_cut", 1);
        }
        4 if n > 0 => {
            let i = ch.below(n);
            let mut b = std::mem::take(&mut a[i]).into_bytes();
            let k = crate::docs::damage(ch, &mut b, b"-=0x ");
            count(k, 1);
            a[i] = String::from_utf8_lossy(&b).into_owned();
        }
        5 if n > 0 => {
            let i = ch.below(n);
            a[i] = odd(ch, d);
            count("fault.word_replaced", 1);
        }
        _ => {
            let i = ch.below(n + 1);
            let x = odd(ch, d);
            a.insert(i, x);
            count("fault.word_added", 1);
        }
    }
}

fn odd(ch: &mut Ch, d: &ADoc) -> String {
    if let (Kind::Struct { fields, .. }, true) = (&d.t().kind, ch.chance(1, 3)) {
        if !fields.is_empty() {
            return format!("--{}", ch.pick(fields).name);
        }
    }
    (*ch.pick(&["", "-", "--", "---", "--zz", "-v", "true", "false", "TRUE", "yes", "0", "-1", "256", "99999999999999999999999", "1.5", "NaN", "t7", "x", "日本", "--a=1", "::1", "--0", "--1"])).into()
}

pub fn a01(ch: &mut Ch) {
    alloc::off(|| run(ch));
    audit(true);
}

fn check(d: &ADoc, a: &[String], e: &Exp) {
    let w: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let joined = format!("{w:?}");
    judge(d.t().name, &joined, e, None, true, || Ok((d.read)(&w)));
}

fn run(ch: &mut Ch) {
    let d = ch.pick(arg_docs());
    let t = d.t();
    if ch.chance(1, 6) {
        let k = *ch.pick(&[Cb::Parse, Cb::Parse, Cb::Invariant, Cb::Default]);
        let act = if ch.chance(1, 2) { Act::Panic } else { Act::Refuse };
        let n = ch.range(1, 4) as u64;
        world::with(|w| w.plan = vec![(k, n, act)]);
    }
    let g = Gen { finite: true, max_len: 3, big: ch.chance(1, 40), max_depth: 4, plain_strings: ch.chance(1, 3) };
    let v = gen_val(t, ch, &g);
    let a: Vec<String> = words(ch, d, &v).concat();
    ev!("{} from {a:?}", t.name);
    let e = expect(d, &a);
    if e.v.as_ref() == Some(&v) {
        count("probe.plain_command_line", 1);
    }
    check(d, &a, &e);
    for _ in 0..ch.range(1, 5) {
        let mut b = words(ch, d, &v).concat();
        for _ in 0..ch.weighted(&[1, 5, 3, 1]) {
            mutate(ch, d, &mut b);
        }
        ev!("then from {b:?}");
        let e = expect(d, &b);
        check(d, &b, &e);
    }
}

/// A command line for some type.
pub fn line(ch: &mut Ch) -> (&'static ADoc, Vec<String>) {
    let d = ch.pick(arg_docs());
    let g = Gen { finite: true, max_len: 3, big: false, max_depth: 4, plain_strings: true };
    let v = gen_val(d.t(), ch, &g);
    let mut a: Vec<String> = words(ch, d, &v).concat();
    if ch.chance(1, 4) {
        mutate(ch, d, &mut a);
    }
    (d, a)
}
