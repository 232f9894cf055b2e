//! T01: TOML documents on simulated storage, in every spelling, and damaged.
use super::read::{Limits, judge, show};
use crate::docs::{damage, toml_docs};
use crate::json::{ANY, ERR, Exp, all, may, must};
use crate::model::{Gen, Kind, Ty, Val, gen_val};
use crate::rng::Ch;
use crate::world::{self, Act, Cb, audit, count};
use crate::{alloc, ev};

#[derive(Clone, Debug, PartialEq)]
enum N {
    Bool(bool),
    Int(i64),
    Float(f64),
    Str(String),
    Date,
    Arr(Vec<N>),
    Tab(Vec<(String, N)>),
}
use N::Tab;

// ---------------------------------------------------------------- what a value looks like

/// The nearest value TOML can hold.
fn tame(t: &Ty, v: Val) -> Val {
    match (&t.kind, v) {
        (Kind::Int { signed: false, .. }, Val::Int(i)) => Val::Int(i & i64::MAX as i128),
        (Kind::Struct { fields, .. }, Val::Struct(x)) => Val::Struct(fields.iter().zip(x).map(|(f, v)| tame((f.ty)(), v)).collect()),
        (Kind::Enum { variants }, Val::Enum(i, x)) => Val::Enum(i, variants[i].fields.iter().zip(x).map(|(f, v)| tame((f.ty)(), v)).collect()),
        (Kind::Opt(i), Val::Opt(Some(v))) => match tame(i(), *v) {
            Val::Opt(None) => Val::Opt(None),
            v => Val::Opt(Some(Box::new(v))),
        },
        (Kind::List(i), Val::List(x)) => Val::List(x.into_iter().map(|v| tame(i(), v)).filter(|v| *v != Val::Opt(None)).collect()),
        (Kind::Map { key, val }, Val::Map(x)) => {
            Val::Map(x.into_iter().map(|(k, v)| (tame(key(), k), tame(val(), v))).filter(|(_, v)| *v != Val::Opt(None)).collect())
        }
        (_, v) => v,
    }
}

fn of(ch: &mut Ch, t: &Ty, v: &Val) -> Option<N> {
    Some(match (&t.kind, v) {
        (_, Val::Bool(b)) => N::Bool(*b),
        (_, Val::Int(i)) => N::Int(*i as i64),
        (_, Val::F32(x)) => N::Float(f32::from_bits(*x) as f64),
        (_, Val::F64(x)) => N::Float(f64::from_bits(*x)),
        (_, Val::Str(s)) => N::Str(s.clone()),
        (_, Val::Char(c)) => N::Str(c.to_string()),
        (_, Val::Tok(l)) => N::Str(format!("t{l}")),
        (Kind::Struct { fields, tuple }, Val::Struct(x)) => {
            let mut m: Vec<(String, N)> = fields.iter().zip(x).filter_map(|(f, v)| Some((f.name.to_string(), of(ch, (f.ty)(), v)?))).collect();
            if *tuple && m.len() == 1 && fields.len() == 1 && !matches!(m[0].1, Tab(_)) && ch.chance(3, 4) {
                return Some(m.pop().unwrap().1);
            }
            shuffle(ch, &mut m);
            Tab(m)
        }
        (Kind::Enum { variants }, Val::Enum(i, x)) => {
            let w = &variants[*i];
            if w.fields.is_empty() {
                return Some(if ch.chance(1, 4) { Tab(vec![(w.name.into(), Tab(vec![]))]) } else { N::Str(w.name.into()) });
            }
            let mut m: Vec<(String, N)> = w.fields.iter().zip(x).filter_map(|(f, v)| Some((f.name.to_string(), of(ch, (f.ty)(), v)?))).collect();
            if w.tuple && m.len() == 1 && w.fields.len() == 1 && !matches!(m[0].1, Tab(_)) && ch.chance(3, 4) {
                return Some(Tab(vec![(w.name.into(), m.pop().unwrap().1)]));
            }
            shuffle(ch, &mut m);
            Tab(vec![(w.name.into(), Tab(m))])
        }
        (_, Val::Opt(None)) => return None,
        (Kind::Opt(i), Val::Opt(Some(v))) => return of(ch, i(), v),
        (Kind::Ptr(i), Val::Ptr(v)) => return of(ch, i(), v),
        (Kind::List(i) | Kind::Array(i, _) | Kind::Slice(i), Val::List(x)) => N::Arr(x.iter().filter_map(|v| of(ch, i(), v)).collect()),
        (Kind::Map { key, val }, Val::Map(x)) => {
            let mut m: Vec<(String, N)> = Vec::new();
            for (k, v) in x {
                let k = match of(ch, key(), k) {
                    Some(N::Str(s)) => s,
                    k => format!("{k:?}"),
                };
                if let Some(v) = of(ch, val(), v) {
                    m.push((k, v));
                }
            }
            shuffle(ch, &mut m);
            Tab(m)
        }
        _ => N::Arr(vec![]),
    })
}

fn shuffle<T>(ch: &mut Ch, v: &mut [T]) {
    if v.len() > 1 && ch.chance(1, 2) {
        for i in (1..v.len()).rev() {
            let k = ch.below(i + 1);
            v.swap(i, k);
        }
    }
}

// ---------------------------------------------------------------- what a document means

fn one(fs: &crate::model::FieldTy, n: &N, f: impl FnOnce(Vec<Val>) -> Val) -> Exp {
    all(vec![decode((fs.ty)(), n)], f)
}

fn soften(e: Exp) -> Exp {
    if e.v.is_some() { Exp { must: false, ..e } } else { e }
}

fn decode(t: &'static Ty, n: &N) -> Exp {
    match (&t.kind, n) {
        (Kind::Opt(i), n) => all(vec![decode(i(), n)], |mut v| Val::Opt(Some(Box::new(v.pop().unwrap())))),
        (Kind::Struct { fields, .. }, Tab(m)) => {
            let mut open = false;
            let parts = fields
                .iter()
                .map(|f| match m.iter().find(|x| x.0 == f.name) {
                    Some((_, n)) => decode((f.ty)(), n),
                    None if t.default_val.is_some() || f.default.is_some() => {
                        open = true;
                        ANY
                    }
                    None if matches!((f.ty)().kind, Kind::Opt(_)) => must(Val::Opt(None)),
                    None => ERR,
                })
                .collect();
            let e = all(parts, Val::Struct);
            if t.deny_unknown && m.iter().any(|x| fields.iter().all(|f| f.name != x.0)) { soften(e) } else { e }
        }
        // a plain value for a wrapper
        (Kind::Struct { fields, tuple }, n) => match (fields.len(), n) {
            (1, n) if *tuple => one(&fields[0], n, Val::Struct),
            (1, n) => soften(one(&fields[0], n, Val::Struct)),
            (k, N::Arr(v)) if *tuple && k == v.len() => soften(all(fields.iter().zip(v).map(|(f, n)| decode((f.ty)(), n)).collect(), Val::Struct)),
            _ => ERR,
        },
        (Kind::Enum { variants }, N::Str(s)) => match variants.iter().position(|v| v.name == s) {
            Some(i) if variants[i].fields.is_empty() => must(Val::Enum(i, vec![])),
            Some(i) if variants[i].fields.iter().all(|f| matches!((f.ty)().kind, Kind::Opt(_))) => ANY,
            _ => ERR,
        },
        (Kind::Enum { variants }, Tab(m)) if m.len() == 1 => {
            let Some(i) = variants.iter().position(|v| v.name == m[0].0) else { return ERR };
            let w = &variants[i];
            match &m[0].1 {
                Tab(x) if w.fields.is_empty() => if x.is_empty() { must(Val::Enum(i, vec![])) } else { may(Val::Enum(i, vec![])) },
                _ if w.fields.is_empty() => may(Val::Enum(i, vec![])),
                Tab(x) => {
                    if w.tuple && w.fields.len() == 1 && x.iter().all(|e| e.0 != "0") {
                        // the payload itself, perhaps
                        return ANY;
                    }
                    let parts = w
                        .fields
                        .iter()
                        .map(|f| match x.iter().find(|x| x.0 == f.name) {
                            Some((_, n)) => decode((f.ty)(), n),
                            None if matches!((f.ty)().kind, Kind::Opt(_)) => may(Val::Opt(None)),
                            None => ERR,
                        })
                        .collect();
                    let e = all(parts, |v| Val::Enum(i, v));
                    if x.len() == w.fields.len() { e } else { soften(e) }
                }
                n if w.fields.len() == 1 => {
                    let e = one(&w.fields[0], n, |v| Val::Enum(i, v));
                    if w.tuple { e } else { soften(e) }
                }
                N::Arr(v) if w.tuple && v.len() == w.fields.len() => soften(all(w.fields.iter().zip(v).map(|(f, n)| decode((f.ty)(), n)).collect(), |v| Val::Enum(i, v))),
                _ => ERR,
            }
        }
        (Kind::List(i), N::Arr(v)) => all(v.iter().map(|n| decode(i(), n)).collect(), Val::List),
        (Kind::Map { key, val }, Tab(m)) => {
            let text = matches!(key().kind, Kind::Str);
            if !text && !m.is_empty() {
                return ANY;
            }
            let keys: Vec<Val> = m.iter().map(|x| Val::Str(x.0.clone())).collect();
            all(m.iter().map(|x| decode(val(), &x.1)).collect(), |v| Val::sort_maps(keys.into_iter().zip(v).collect()))
        }
        (Kind::Bool, N::Bool(b)) => must(Val::Bool(*b)),
        (Kind::Int { bits: 128, .. } | Kind::Int { nonzero: true, .. }, _) => ANY,
        (Kind::Int { bits, signed, .. }, N::Int(i)) => int(*i as i128, *bits, *signed, must),
        (Kind::Int { bits, signed, .. }, N::Float(x)) if x.fract() == 0.0 && x.abs() < 1e30 => int(*x as i128, *bits, *signed, may),
        (Kind::F64, N::Float(x)) => must(Val::F64(x.to_bits())),
        (Kind::F64, N::Int(i)) => may(Val::F64((*i as f64).to_bits())),
        (Kind::F32, N::Float(x)) => {
            let y = *x as f32;
            if x.is_finite() && !y.is_finite() { ERR } else { must(Val::F32(y.to_bits())) }
        }
        (Kind::F32, N::Int(i)) => may(Val::F32((*i as f32).to_bits())),
        (Kind::Str, N::Str(s)) => must(Val::Str(s.clone())),
        (Kind::Addr, N::Str(s)) => match crate::model::addr(t.name, s) {
            Some(s) => must(Val::Str(s)),
            None => ERR,
        },
        // not supported by the reader: anything but a crash
        (Kind::Char | Kind::Tok | Kind::ZTok | Kind::Unit | Kind::Array(..) | Kind::Slice(_) | Kind::Ptr(_) | Kind::Weak, _) => ANY,
        _ => ERR,
    }
}

fn int(i: i128, bits: u32, signed: bool, f: fn(Val) -> Exp) -> Exp {
    let (lo, hi) = if signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) };
    if i < lo || i > hi { ERR } else { f(Val::Int(i)) }
}

fn root(t: &'static Ty, n: &N) -> Exp {
    let e = decode(t, n);
    match (t.invariant, &e.v) {
        (Some(f), Some(v)) if !f(v) => ERR,
        _ => e,
    }
}

// ---------------------------------------------------------------- the grammar, trusted to toml_edit

fn parse(s: &str) -> Option<N> {
    use toml_edit::{Item, Value};
    fn val(v: &Value) -> N {
        match v {
            Value::String(s) => N::Str(s.value().clone()),
            Value::Integer(i) => N::Int(*i.value()),
            Value::Float(f) => N::Float(*f.value()),
            Value::Boolean(b) => N::Bool(*b.value()),
            Value::Datetime(_) => N::Date,
            Value::Array(a) => N::Arr(a.iter().map(val).collect()),
            Value::InlineTable(t) => Tab(t.iter().map(|(k, v)| (k.to_string(), val(v))).collect()),
        }
    }
    fn tab(t: &toml_edit::Table) -> N {
        Tab(t.iter().map(|(k, i)| (k.to_string(), item(i))).collect())
    }
    fn item(i: &Item) -> N {
        match i {
            Item::None => N::Date,
            Item::Value(v) => val(v),
            Item::Table(t) => tab(t),
            Item::ArrayOfTables(a) => N::Arr(a.iter().map(tab).collect()),
        }
    }
    let d: toml_edit::DocumentMut = s.parse().ok()?;
    Some(tab(d.as_table()))
}

// ---------------------------------------------------------------- spelling

fn basic(ch: &mut Ch, s: &str, out: &mut String, multi: bool) {
    let mut quote = true;
    let mut rest = s.chars().peekable();
    while let Some(c) = rest.next() {
        let next = rest.peek().copied();
        let q = quote;
        quote = c == '"';
        match c {
            '"' if multi && !q && next.is_some() && ch.chance(1, 2) => out.push('"'),
            '"' | '\\' => {
                out.push('\\');
                out.push(c);
            }
            '\n' if multi && ch.chance(3, 4) => out.push('\n'),
            '\t' if ch.chance(1, 2) => out.push('\t'),
            '\n' => out.push_str("\\n"),
            '\t' => out.push_str("\\t"),
            '\r' => out.push_str("\\r"),
            '\u{8}' => out.push_str("\\b"),
            '\u{c}' => out.push_str("\\f"),
            c if (c as u32) < 32 || c as u32 == 127 || ch.chance(1, 12) => {
                if c as u32 > 0xffff || ch.chance(1, 4) {
                    out.push_str(&format!("\\U{:08X}", c as u32));
                } else {
                    out.push_str(&format!("\\u{:04x}", c as u32));
                }
            }
            c => out.push(c),
        }
        if multi && !matches!(c, '\n' | ' ' | '\t') && next.is_some_and(|d| !matches!(d, '\n' | ' ' | '\t')) && ch.chance(1, 20) {
            // the line is folded
            out.push_str("\\\n  \n ");
            quote = false;
        }
    }
}

fn string(ch: &mut Ch, s: &str, out: &mut String) {
    let plain = |s: &str| s.chars().all(|c| c == '\t' || (c as u32 >= 32 && c as u32 != 127));
    match ch.weighted(&[5, 3, 1, 1]) {
        1 if plain(s) && !s.contains('\'') => {
            out.push('\'');
            out.push_str(s);
            out.push('\'');
        }
        2 => {
            out.push_str("\"\"\"");
            if s.starts_with('\n') || ch.chance(1, 2) {
                out.push('\n');
            }
            basic(ch, s, out, true);
            out.push_str("\"\"\"");
        }
        3 if s.split('\n').all(plain) && !s.contains("''") && !s.ends_with('\'') => {
            out.push_str("'''");
            if s.starts_with('\n') || ch.chance(1, 2) {
                out.push('\n');
            }
            out.push_str(s);
            out.push_str("'''");
        }
        _ => {
            out.push('"');
            basic(ch, s, out, false);
            out.push('"');
        }
    }
}

fn key(ch: &mut Ch, k: &str, out: &mut String) {
    let bare = !k.is_empty() && k.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'-' || c == b'_');
    let plain = k.chars().all(|c| c == '\t' || (c as u32 >= 32 && c as u32 != 127));
    if bare && !ch.chance(1, 8) {
        out.push_str(k);
    } else if plain && !k.contains('\'') && ch.chance(1, 2) {
        out.push('\'');
        out.push_str(k);
        out.push('\'');
    } else {
        out.push('"');
        basic(ch, k, out, false);
        out.push('"');
    }
}

fn path(ch: &mut Ch, p: &[String], out: &mut String) {
    for (i, k) in p.iter().enumerate() {
        if i > 0 {
            out.push_str(*ch.pick(&[".", ".", " . "]));
        }
        key(ch, k, out);
    }
}

fn under(ch: &mut Ch, digits: String) -> String {
    if digits.len() < 3 || !ch.chance(1, 6) {
        return digits;
    }
    let i = ch.range(1, digits.len() - 1);
    format!("{}_{}", &digits[..i], &digits[i..])
}

fn num(ch: &mut Ch, i: i64) -> String {
    if i >= 0 && ch.chance(1, 5) {
        return match ch.below(4) {
            0 => format!("0x{}", under(ch, format!("{i:x}"))),
            1 => format!("0x{}", under(ch, format!("{i:X}"))),
            2 => format!("0o{}", under(ch, format!("{i:o}"))),
            _ => format!("0b{}", under(ch, format!("{i:b}"))),
        };
    }
    let s = under(ch, i.unsigned_abs().to_string());
    match i {
        i if i < 0 => format!("-{s}"),
        _ if ch.chance(1, 8) => format!("+{s}"),
        _ => s,
    }
}

fn float(ch: &mut Ch, x: f64) -> String {
    if x.is_nan() {
        return (*ch.pick(&["nan", "+nan", "-nan"])).into();
    }
    if x.is_infinite() {
        return if x < 0.0 { "-inf".into() } else { (*ch.pick(&["inf", "+inf"])).into() };
    }
    let s = match ch.below(4) {
        0 | 1 => format!("{x:?}"),
        2 => format!("{x:e}"),
        _ => format!("{x:E}"),
    };
    if x.is_sign_positive() && ch.chance(1, 10) { format!("+{s}") } else { s }
}

fn gap(ch: &mut Ch, out: &mut String) {
    match ch.weighted(&[12, 2, 1, 1]) {
        0 => {}
        1 => out.push(' '),
        2 => out.push_str("\n  "),
        _ => out.push_str(" # note ]\n"),
    }
}

fn value(ch: &mut Ch, n: &N, out: &mut String) {
    match n {
        N::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        N::Int(i) => out.push_str(&num(ch, *i)),
        N::Float(x) => out.push_str(&float(ch, *x)),
        N::Str(s) => string(ch, s, out),
        N::Date => out.push_str(*ch.pick(&["1979-05-27T07:32:00Z", "1979-05-27", "07:32:00.5"])),
        N::Arr(v) => {
            out.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                gap(ch, out);
                value(ch, x, out);
                gap(ch, out);
            }
            if !v.is_empty() && ch.chance(1, 6) {
                out.push(',');
                gap(ch, out);
            }
            out.push(']');
        }
        Tab(m) => {
            out.push('{');
            let mut lines: Vec<(Vec<String>, &N)> = Vec::new();
            dotted(ch, &mut Vec::new(), m, &mut lines);
            for (i, (p, x)) in lines.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                out.push(' ');
                path(ch, p, out);
                out.push_str(" = ");
                value(ch, x, out);
            }
            out.push_str(" }");
        }
    }
}

fn dotted<'a>(ch: &mut Ch, p: &mut Vec<String>, m: &'a [(String, N)], out: &mut Vec<(Vec<String>, &'a N)>) {
    for (k, n) in m {
        p.push(k.clone());
        match n {
            Tab(x) if !x.is_empty() && p.len() < 20 && ch.chance(1, 3) => dotted(ch, p, x, out),
            n => out.push((p.clone(), n)),
        }
        p.pop();
    }
}

struct Doc<'c> {
    ch: &'c mut Ch,
    /// how often tables get sections of their own
    sections: usize,
    dots: usize,
}

impl Doc<'_> {
    fn eol(&mut self, out: &mut String) {
        match self.ch.weighted(&[20, 2, 2, 1]) {
            0 => out.push('\n'),
            1 => out.push_str(" # \"comment\" = [\n"),
            2 => out.push_str("\n\n"),
            _ => out.push_str("\r\n"),
        }
    }
    fn lines(&mut self, m: &[(Vec<String>, &N)], out: &mut String) {
        for (p, n) in m {
            if self.ch.chance(1, 10) {
                out.push_str("  ");
            }
            path(self.ch, p, out);
            out.push_str(*self.ch.pick(&[" = ", " = ", "=", "\t=  "]));
            value(self.ch, n, out);
            self.eol(out);
        }
    }
    /// a table at `p`; `head`: its header, where it has been decided
    fn table(&mut self, p: &mut Vec<String>, m: &[(String, N)], root: bool, item: bool, out: &mut String) {
        let mut lines: Vec<(Vec<String>, &N)> = Vec::new();
        let mut subs: Vec<&(String, N)> = Vec::new();
        for e in m {
            match &e.1 {
                Tab(_) if self.ch.chance(self.sections, 4) => subs.push(e),
                N::Arr(v) if !v.is_empty() && v.iter().all(|x| matches!(x, Tab(_))) && self.ch.chance(self.sections, 4) => subs.push(e),
                Tab(x) if !x.is_empty() && self.ch.chance(self.dots, 4) => {
                    let mut q = vec![e.0.clone()];
                    let mut l = Vec::new();
                    dotted(self.ch, &mut q, x, &mut l);
                    lines.extend(l);
                }
                _ => lines.push((vec![e.0.clone()], &e.1)),
            }
        }
        shuffle(self.ch, &mut lines);
        shuffle(self.ch, &mut subs);
        // a table known from its sub-tables needs no header of its own, or a late one
        let implied = subs.iter().any(|s| matches!(s.1, Tab(_)));
        let late = !root && !item && implied && self.ch.chance(1, 6);
        let none = !root && !item && implied && lines.is_empty() && self.ch.chance(1, 2);
        let mut own = String::new();
        if !root && !none {
            own.push_str(if item { "[[" } else { "[" });
            path(self.ch, p, &mut own);
            own.push_str(if item { "]]" } else { "]" });
            self.eol(&mut own);
        }
        self.lines(&lines, &mut own);
        if !late {
            out.push_str(&own);
        }
        for (k, n) in subs {
            p.push(k.clone());
            match n {
                Tab(x) => self.table(p, x, false, false, out),
                N::Arr(v) => v.iter().for_each(|x| {
                    if let Tab(x) = x {
                        self.table(p, x, false, true, out)
                    }
                }),
                _ => {}
            }
            p.pop();
        }
        if late {
            out.push_str(&own);
        }
    }
}

fn spell(ch: &mut Ch, n: &N) -> String {
    let mut out = String::new();
    let Tab(m) = n else { return out };
    if ch.chance(1, 20) {
        out.push_str("# a document\n");
    }
    let (sections, dots) = (ch.below(5), ch.below(5));
    Doc { ch, sections, dots }.table(&mut Vec::new(), m, true, false, &mut out);
    if out.ends_with('\n') && ch.chance(1, 8) {
        out.pop();
        if out.ends_with('\r') {
            out.pop();
        }
    }
    out
}

// ---------------------------------------------------------------- runs

fn rand_n(ch: &mut Ch, depth: usize) -> N {
    match ch.below(if depth > 3 { 8 } else { 10 }) {
        0 => N::Bool(ch.chance(1, 2)),
        1 | 2 => N::Int(crate::model::gen_int(ch, 64, true) as i64),
        3 => N::Float(*ch.pick(&[0.0, 1.0, -1.0, 255.0, 256.0, -0.5, 1.5, 1e10, 4294967296.0, 9.3e18, 1.9e19, 1e39, 3.4028236e38, 1e300, f64::INFINITY, f64::NAN])),
        4 | 5 => N::Str(
            (*ch.pick(&["", "A", "B", "Unit", "New", "Tup", "St", "One", "Deep", "C", "1", "true", "t5", "127.0.0.1", "::1", "1.2.3.4:80", "[::1]:9", "256.1.1.1", "x\ny"])).to_string(),
        ),
        6 => N::Date,
        7 | 8 => N::Arr((0..ch.below(4)).map(|_| rand_n(ch, depth + 1)).collect()),
        _ => {
            let mut m: Vec<(String, N)> = Vec::new();
            for _ in 0..ch.below(4) {
                let k = rand_key(ch);
                if m.iter().all(|x| x.0 != k) {
                    m.push((k, rand_n(ch, depth + 1)));
                }
            }
            Tab(m)
        }
    }
}

fn rand_key(ch: &mut Ch) -> String {
    (*ch.pick(&["a", "b", "c", "0", "1", "2", "A", "Unit", "New", "Tup", "St", "Deep", "x", "", "zz", "é \"", "kids", "n"])).to_string()
}

fn mutate(ch: &mut Ch, n: &mut N) {
    let stop = ch.chance(1, 3);
    match n {
        Tab(v) if !v.is_empty() && !stop => {
            let i = ch.below(v.len());
            return mutate(ch, &mut v[i].1);
        }
        N::Arr(v) if !v.is_empty() && !stop => {
            let i = ch.below(v.len());
            return mutate(ch, &mut v[i]);
        }
        _ => {}
    }
    match n {
        Tab(v) if ch.chance(5, 6) => match ch.below(5) {
            0 | 1 if !v.is_empty() => {
                let i = ch.below(v.len());
                v.remove(i);
            }
            2 if !v.is_empty() => {
                let i = ch.below(v.len());
                let x = v[i].clone();
                v.push(x);
            }
            3 if !v.is_empty() => {
                let i = ch.below(v.len());
                v[i].0 = rand_key(ch);
            }
            _ => v.push((rand_key(ch), rand_n(ch, 0))),
        },
        N::Arr(v) if ch.chance(1, 2) => {
            let x = rand_n(ch, 0);
            let i = ch.below(v.len() + 1);
            v.insert(i, x);
        }
        N::Int(i) if ch.chance(1, 2) => *i = crate::model::gen_int(ch, 64, true) as i64,
        N::Int(i) if ch.chance(1, 2) => *n = N::Float(*i as f64 + *ch.pick(&[0.0, 0.5])),
        n => *n = rand_n(ch, 0),
    }
}

fn hostile(ch: &mut Ch) -> String {
    let n = *ch.pick(&[60usize, 100, 2000, 40_000]);
    let k = *ch.pick(&["a", "m", "kids", "0", "New"]);
    count("fault.hostile_nesting", 1);
    ev!("nesting {n} of {k}");
    let dots = |n: usize| vec![k; n].join(".");
    match ch.below(5) {
        0 => format!("{} = 1\n", dots(n)),
        1 => format!("[{}]\nn = 1\n", dots(n)),
        2 => format!("{k} = {}1{}\n", "[".repeat(n), "]".repeat(n)),
        3 => format!("{k} = {}1{}\n", format!("{{{k}=").repeat(n), "}".repeat(n)),
        _ => format!("{k} = {}\n", "[".repeat(n)),
    }
}

const ALPHA: &[u8] = b"[]{}=.,\"'\\#\n\r\t -+_0129eExXobnatu:TZ";

pub fn t01(ch: &mut Ch) {
    let faults = alloc::off(|| run(ch));
    audit(!faults || world::fired() == 0);
}

fn check(ch: &mut Ch, d: &crate::docs::TDoc, s: &str, e: &Exp) {
    let shown = ch.chance(1, 8);
    // the grammar is third-party code; what is bounded is the growth
    let lim = (!shown).then_some(Limits { allocs: (3000 + d.t().ops.size as u64, 100), bytes: (1_000_000 + 16 * d.t().ops.size, 30_000) });
    judge(d.t().name, s, e, lim, false, || (d.read)(s, shown));
}

fn run(ch: &mut Ch) -> bool {
    let d = ch.pick(toml_docs());
    let t = d.t();
    if ch.chance(1, 300) {
        let s = hostile(ch);
        check(ch, d, &s, &ANY);
        return false;
    }
    let faults = ch.chance(1, 10);
    if faults {
        let act = if ch.chance(1, 2) { Act::Panic } else { Act::Refuse };
        world::with(|w| w.plan = vec![(Cb::Invariant, 1, act)]);
    }
    let g = Gen { finite: false, max_len: 4, big: ch.chance(1, 30), max_depth: 5, plain_strings: ch.chance(1, 3) };
    let v = tame(t, gen_val(t, ch, &g));
    let n = match of(ch, t, &v) {
        Some(n @ Tab(_)) => n,
        _ => rand_n(ch, 0),
    };
    let n = if matches!(n, Tab(_)) { n } else { Tab(vec![(rand_key(ch), n)]) };
    let s = spell(ch, &n);
    ev!("{} from {}", t.name, show(&s));
    // what the document was made from, not what a parser makes of it
    let e = root(t, &n);
    if e.must && e.v.is_some() {
        count("probe.plain_document", 1);
    }
    check(ch, d, &s, &e);
    for _ in 0..ch.range(1, 4) {
        let mut text = s.clone();
        if ch.chance(1, 2) {
            let mut m = n.clone();
            for _ in 0..ch.weighted(&[0, 5, 2]) {
                mutate(ch, &mut m);
                count("fault.document_edited", 1);
            }
            text = spell(ch, &m);
        }
        let mut b = text.into_bytes();
        match ch.below(6) {
            0 => {
                b.truncate(ch.below(b.len() + 1));
                count("fault.crash_during_write", 1);
            }
            1 => {
                // lines lost, doubled or moved
                let mut l: Vec<Vec<u8>> = b.split_inclusive(|c| *c == b'\n').map(|x| x.to_vec()).collect();
                if l.is_empty() {
                    continue;
                }
                let i = ch.below(l.len());
                let k = ch.below(l.len());
                match ch.below(3) {
                    0 => drop(l.remove(i)),
                    1 => l.insert(k, l[i].clone()),
                    _ => l.swap(i, k),
                }
                b = l.concat();
                count("fault.lines_damaged", 1);
            }
            2 => {
                let old = tame(t, gen_val(t, ch, &g));
                if let Some(o @ Tab(_)) = of(ch, t, &old) {
                    let o = spell(ch, &o).into_bytes();
                    let k = ch.below(b.len() + 1);
                    b.truncate(k);
                    if o.len() > k {
                        b.extend_from_slice(&o[k..]);
                    }
                }
                count("fault.torn_overwrite", 1);
            }
            3 => {}
            _ => {
                for _ in 0..ch.range(1, 2) {
                    let k = damage(ch, &mut b, ALPHA);
                    count(k, 1);
                }
            }
        }
        let text = String::from_utf8_lossy(&b).into_owned();
        ev!("then from {}", show(&text));
        let e = match parse(&text) {
            Some(n) => root(t, &n),
            None => ERR,
        };
        check(ch, d, &text, &e);
    }
    faults
}

/// A stored document of some type.
pub fn document(ch: &mut Ch) -> (&'static crate::docs::TDoc, String) {
    let d = ch.pick(toml_docs());
    let g = Gen { finite: false, max_len: 3, big: false, max_depth: 4, plain_strings: true };
    let v = tame(d.t(), gen_val(d.t(), ch, &g));
    let n = match of(ch, d.t(), &v) {
        Some(n @ Tab(_)) => n,
        _ => rand_n(ch, 0),
    };
    let n = if matches!(n, Tab(_)) { n } else { Tab(vec![(rand_key(ch), n)]) };
    (d, spell(ch, &n))
}
