//! U01: URL-encoded form data, in every order and encoding, and damaged.
use super::read::{Limits, judge, show};
use crate::docs::{TDoc, damage, form_docs};
use crate::json::{ANY, ERR, Exp, all, may, must};
use crate::model::{Gen, Kind, Ty, Val, gen_val};
use crate::rng::Ch;
use crate::world::{self, Act, Cb, audit, count, violate};
use crate::{alloc, ev};

// ---------------------------------------------------------------- meaning

fn unescape(b: &[u8]) -> String {
    let mut r = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let hex = |k: usize| b.get(k).and_then(|c| (*c as char).to_digit(16));
        match b[i] {
            b'+' => r.push(b' '),
            b'%' if hex(i + 1).is_some() && hex(i + 2).is_some() => {
                r.push((hex(i + 1).unwrap() * 16 + hex(i + 2).unwrap()) as u8);
                i += 2;
            }
            c => r.push(c),
        }
        i += 1;
    }
    String::from_utf8_lossy(&r).into_owned()
}

#[derive(Default, Debug)]
struct Node {
    flat: Vec<String>,
    kids: Vec<(String, Node)>,
    /// given as a[..] at least once
    nested: bool,
}

/// None: a key whose brackets do not fit together
fn tree(s: &str) -> Option<Node> {
    let mut root = Node { nested: true, ..Node::default() };
    for pair in s.as_bytes().split(|c| *c == b'&').filter(|p| !p.is_empty()) {
        let mut kv = pair.splitn(2, |c| *c == b'=');
        let k = unescape(kv.next().unwrap());
        let v = unescape(kv.next().unwrap_or(b""));
        let mut path: Vec<&str> = Vec::new();
        let open = k.find('[').unwrap_or(k.len());
        path.push(&k[..open]);
        let mut rest = &k[open..];
        while !rest.is_empty() {
            let end = rest.find(']')?;
            if !rest.starts_with('[') {
                return None;
            }
            path.push(&rest[1..end]);
            rest = &rest[end + 1..];
        }
        if path.iter().any(|p| p.contains(['[', ']'])) || (path.len() > 1 && path[0].is_empty()) || path.len() > 20 {
            return None;
        }
        let mut n = &mut root;
        for p in path {
            n.nested = true;
            let i = match n.kids.iter().position(|x| x.0 == p) {
                Some(i) => i,
                None => {
                    n.kids.push((p.to_string(), Node::default()));
                    n.kids.len() - 1
                }
            };
            n = &mut n.kids[i].1;
        }
        n.flat.push(v);
    }
    Some(root)
}

fn decode(t: &'static Ty, n: &Node) -> Exp {
    match &t.kind {
        Kind::Struct { fields, .. } => {
            if !n.flat.is_empty() || !n.nested {
                return ERR;
            }
            let parts = fields
                .iter()
                .map(|f| match n.kids.iter().find(|x| x.0 == f.name) {
                    Some((_, n)) => decode((f.ty)(), n),
                    None if t.default_val.is_some() || f.default.is_some() || matches!((f.ty)().kind, Kind::Opt(_)) => ANY,
                    None => ERR,
                })
                .collect();
            let e = all(parts, Val::Struct);
            if t.deny_unknown && e.v.is_some() { Exp { must: false, ..e } } else { e }
        }
        Kind::Int { .. } | Kind::Str if t.name == "u64" || t.name == "String" => {
            if n.nested {
                return ERR;
            }
            let one = |s: &String| match t.kind {
                Kind::Str => must(Val::Str(s.clone())),
                _ => match s.parse::<u64>() {
                    Ok(x) if s.bytes().all(|c| c.is_ascii_digit()) => must(Val::Int(x as i128)),
                    Ok(x) => may(Val::Int(x as i128)),
                    Err(_) => ERR,
                },
            };
            let e: Vec<Exp> = n.flat.iter().map(one).collect();
            // given twice: the first, the last or a refusal
            if e.windows(2).all(|w| w[0].v == w[1].v) {
                let x = e[0].clone();
                if e.len() > 1 && x.v.is_some() { Exp { must: false, ..x } } else { x }
            } else {
                ANY
            }
        }
        _ => ANY,
    }
}

fn expect(t: &'static Ty, s: &str) -> Exp {
    if !matches!(t.kind, Kind::Struct { .. }) {
        return ANY;
    }
    let Some(n) = tree(s) else { return ANY };
    let e = decode(t, &n);
    match (t.invariant, &e.v) {
        (Some(f), Some(v)) if !f(v) => ERR,
        _ => e,
    }
}

// ---------------------------------------------------------------- encoding

type Pairs = Vec<(String, String)>;

fn pairs(t: &Ty, v: &Val, path: &str, out: &mut Pairs) {
    match (&t.kind, v) {
        (Kind::Struct { fields, .. }, Val::Struct(x)) => {
            for (f, v) in fields.iter().zip(x) {
                let p = if path.is_empty() { f.name.to_string() } else { format!("{path}[{}]", f.name) };
                pairs((f.ty)(), v, &p, out);
            }
        }
        (_, Val::Str(s)) => out.push((path.into(), s.clone())),
        (_, Val::Int(i)) => out.push((path.into(), i.to_string())),
        (_, Val::Bool(i)) => out.push((path.into(), i.to_string())),
        (_, Val::Tok(i)) => out.push((path.into(), format!("t{i}"))),
        (_, Val::Opt(Some(v))) => {
            if let Kind::Opt(t) = &t.kind {
                pairs(t(), v, path, out)
            }
        }
        _ => {}
    }
}

fn escape(ch: &mut Ch, s: &str, key: bool, out: &mut Vec<u8>) {
    let all = ch.chance(1, 10);
    for c in s.chars() {
        let mut buf = [0; 4];
        let bytes = c.encode_utf8(&mut buf).as_bytes();
        let safe = c.is_ascii_alphanumeric() || "-_.*".contains(c) || (key && "[]".contains(c));
        match c {
            ' ' if !all && ch.chance(3, 4) => out.push(b'+'),
            _ if safe && !all && !ch.chance(1, 30) => out.extend_from_slice(bytes),
            // what browsers leave alone, and what some forget to escape
            c if !all && "!'()~/:;@,$?[]{}|^`\"<>".contains(c) && ch.chance(1, 2) => out.extend_from_slice(bytes),
            '=' if !all && !key && ch.chance(1, 4) => out.push(b'='),
            c if !c.is_ascii() && !all && ch.chance(1, 4) => out.extend_from_slice(bytes),
            _ => {
                for b in bytes {
                    let s = if ch.chance(1, 2) { format!("%{b:02X}") } else { format!("%{b:02x}") };
                    out.extend_from_slice(s.as_bytes());
                }
            }
        }
    }
}

fn encode(ch: &mut Ch, p: &Pairs) -> String {
    let mut out = Vec::new();
    for (i, (k, v)) in p.iter().enumerate() {
        if i > 0 {
            out.push(b'&');
        }
        if ch.chance(1, 40) {
            out.push(b'&');
        }
        escape(ch, k, true, &mut out);
        if !v.is_empty() || ch.chance(3, 4) {
            out.push(b'=');
        }
        escape(ch, v, false, &mut out);
    }
    String::from_utf8_lossy(&out).into_owned()
}

fn shuffle(ch: &mut Ch, p: &mut Pairs) {
    for i in (1..p.len()).rev() {
        let k = ch.below(i + 1);
        p.swap(i, k);
    }
}

fn mutate(ch: &mut Ch, p: &mut Pairs) {
    let n = p.len();
    match ch.below(8) {
        0 if n > 0 => {
            let i = ch.below(n);
            p.remove(i);
            count("fault.pair_lost", 1);
        }
        1 if n > 0 => {
            let i = ch.below(n);
            let k = ch.below(n + 1);
            let x = p[i].clone();
            p.insert(k, x);
            count("fault.pair_duplicated", 1);
        }
        2 if n > 1 => {
            // two pairs mixed up
            let (i, k) = (ch.below(n), ch.below(n));
            p[i].1 = p[k].1.clone();
            count("fault.pair_damaged", 1);
        }
        3 if n > 0 => {
            let i = ch.below(n);
            p[i].1 = (*ch.pick(&["", "-1", "+1", " 1", "1 ", "00", "18446744073709551615", "18446744073709551616", "1.0", "0x1", "x", "١"])).into();
            count("fault.pair_damaged", 1);
        }
        4 if n > 0 => {
            let i = ch.below(n);
            let j = *ch.pick(&["[a]", "[]", "[", "]", "[x", "x", "[a][b]", "[0]"]);
            p[i].0.push_str(j);
            count("fault.key_damaged", 1);
        }
        5 if n > 0 => {
            let i = ch.below(n);
            let cut = p[i].0.rfind('[').unwrap_or(p[i].0.len());
            p[i].0.truncate(cut);
            count("fault.key_damaged", 1);
        }
        _ => {
            let k = *ch.pick(&["zz", "zz[a]", "a", "b", "a[x]", "", "[", "]", "[x]", "a]", "a[", "a[[b]]", "b[a][c]", "日本", "x[y]z"]);
            let at = ch.below(n + 1);
            p.insert(at, (k.into(), "7".into()));
            count("fault.pair_added", 1);
        }
    }
}

const ALPHA: &[u8] = b"&=%+[];09afAF\0 x";

pub fn u01(ch: &mut Ch) {
    let faults = alloc::off(|| run(ch));
    audit(!faults || world::fired() == 0);
}

fn check(ch: &mut Ch, d: &TDoc, s: &str, e: &Exp, twice: bool) {
    let lim = || Limits { allocs: (1000 + d.t().ops.size as u64, 40), bytes: (500_000 + 16 * d.t().ops.size, 5_000) };
    let mut err = [None, None];
    let v = judge(d.t().name, s, e, Some(lim()), false, || {
        let r = (d.read)(s, twice);
        if let Err(x) = &r {
            err[0] = Some(alloc::off(|| x.clone()));
        }
        r
    });
    if !twice || ch.chance(1, 2) {
        return;
    }
    // every table of the code under test gets another seed: nothing may depend on it
    for _ in 0..2 {
        count("probe.other_hash_seed", 1);
        let w = judge(d.t().name, s, e, None, false, || {
            let r = (d.read)(s, true);
            if let Err(x) = &r {
                err[1] = Some(alloc::off(|| x.clone()));
            }
            r
        });
        if v != w || err[0] != err[1] {
            violate("outcome depends on more than the data", format!("{} from {}: {v:?} {:?} and then {w:?} {:?}", d.t().name, show(s), err[0], err[1]));
            return;
        }
    }
}

fn run(ch: &mut Ch) -> bool {
    let d = ch.pick(form_docs());
    let t = d.t();
    if ch.chance(1, 200) {
        let n = *ch.pick(&[20usize, 200, 3000, 60_000]);
        let k = *ch.pick(&["a", "b", ""]);
        let s = match ch.below(3) {
            0 => format!("a{}=1", format!("[{k}]").repeat(n)),
            1 => format!("a{}=1", "[".repeat(n)),
            _ => (0..n).map(|i| format!("a[{i}][{k}]=1&")).collect(),
        };
        ev!("nesting {n}");
        count("fault.hostile_nesting", 1);
        check(ch, d, &s, &ANY, false);
        return false;
    }
    let faults = ch.chance(1, 12);
    if faults {
        let act = if ch.chance(1, 2) { Act::Panic } else { Act::Refuse };
        world::with(|w| w.plan = vec![(Cb::Invariant, 1, act)]);
    }
    let g = Gen { finite: true, max_len: 4, big: ch.chance(1, 30), max_depth: 5, plain_strings: ch.chance(1, 3) };
    let v = gen_val(t, ch, &g);
    let mut p = Vec::new();
    pairs(t, &v, "", &mut p);
    shuffle(ch, &mut p);
    let s = encode(ch, &p);
    ev!("{} from {}", t.name, show(&s));
    let e = expect(t, &s);
    if e.must && e.v.is_some() {
        count("probe.plain_document", 1);
        if e.v.as_ref() != Some(&v) {
            violate("simulator: form data misunderstood", format!("{} {} {}", t.name, v.short(), show(&s)));
        }
    }
    check(ch, d, &s, &e, !faults);
    for _ in 0..ch.range(1, 4) {
        let mut q = p.clone();
        for _ in 0..ch.weighted(&[2, 4, 3, 1]) {
            mutate(ch, &mut q);
        }
        let mut b = encode(ch, &q).into_bytes();
        match ch.below(4) {
            0 => {
                b.truncate(ch.below(b.len() + 1));
                count("fault.transmission_cut", 1);
            }
            1 => {
                for _ in 0..ch.range(1, 2) {
                    let k = damage(ch, &mut b, ALPHA);
                    count(k, 1);
                }
            }
            _ => {}
        }
        let text = String::from_utf8_lossy(&b).into_owned();
        ev!("then from {}", show(&text));
        let e = expect(t, &text);
        check(ch, d, &text, &e, !faults);
    }
    faults
}

/// Form data for some type.
pub fn document(ch: &mut Ch) -> (&'static TDoc, String) {
    let d = ch.pick(form_docs());
    let g = Gen { finite: true, max_len: 3, big: false, max_depth: 4, plain_strings: true };
    let v = gen_val(d.t(), ch, &g);
    let mut p = Vec::new();
    pairs(d.t(), &v, "", &mut p);
    shuffle(ch, &mut p);
    (d, encode(ch, &p))
}
