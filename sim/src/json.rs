//! The JSON reference: a strict parser, a writer with every freedom the grammar gives, what a
//! document means for a type, and what the text of a value must say. Independent of facet-json.
use crate::model::{FieldTy, Kind, Ty, Val};
use crate::rng::Ch;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    /// None: holds an unpaired surrogate
    Str(Option<String>),
    Arr(Vec<J>),
    Obj(Vec<(Option<String>, J)>),
}

pub fn jstr(s: impl Into<String>) -> J {
    J::Str(Some(s.into()))
}

impl J {
    /// holds an unpaired surrogate somewhere
    pub fn lone(&self) -> bool {
        match self {
            J::Str(s) => s.is_none(),
            J::Arr(v) => v.iter().any(|x| x.lone()),
            J::Obj(v) => v.iter().any(|(k, x)| k.is_none() || x.lone()),
            _ => false,
        }
    }
    pub fn depth(&self) -> usize {
        // without recursion: documents can be very deep
        let mut max = 0;
        let mut todo = vec![(self, 0)];
        while let Some((j, d)) = todo.pop() {
            match j {
                J::Arr(v) => {
                    max = max.max(d + 1);
                    todo.extend(v.iter().map(|x| (x, d + 1)));
                }
                J::Obj(v) => {
                    max = max.max(d + 1);
                    todo.extend(v.iter().map(|x| (&x.1, d + 1)));
                }
                _ => {}
            }
        }
        max
    }
}

/// Takes a deep tree apart without recursion.
pub fn dispose(j: J) {
    let mut todo = vec![j];
    while let Some(j) = todo.pop() {
        match j {
            J::Arr(v) => todo.extend(v),
            J::Obj(v) => todo.extend(v.into_iter().map(|x| x.1)),
            _ => {}
        }
    }
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn peek(&self) -> Option<u8> {
        self.b.get(self.i).copied()
    }
    fn eat(&mut self, c: u8) -> Option<()> {
        if self.peek()? == c {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn digits(&mut self) -> Option<()> {
        let s = self.i;
        while matches!(self.peek(), Some(b'0'..=b'9')) {
            self.i += 1;
        }
        if self.i > s { Some(()) } else { None }
    }
    fn num(&mut self) -> Option<J> {
        let s = self.i;
        let _ = self.eat(b'-');
        if self.peek()? == b'0' {
            self.i += 1;
        } else {
            self.digits()?;
        }
        if self.peek() == Some(b'.') {
            self.i += 1;
            self.digits()?;
        }
        if matches!(self.peek(), Some(b'e' | b'E')) {
            self.i += 1;
            if matches!(self.peek(), Some(b'+' | b'-')) {
                self.i += 1;
            }
            self.digits()?;
        }
        Some(J::Num(String::from_utf8(self.b[s..self.i].to_vec()).unwrap()))
    }
    fn hex4(&mut self) -> Option<u32> {
        let mut v = 0;
        for _ in 0..4 {
            let d = (self.peek()? as char).to_digit(16)?;
            self.i += 1;
            v = v * 16 + d;
        }
        Some(v)
    }
    /// the outer None: not JSON
    fn str(&mut self) -> Option<Option<String>> {
        self.eat(b'"')?;
        let mut units: Vec<u8> = Vec::new();
        let mut lone = false;
        loop {
            match self.peek()? {
                b'"' => {
                    self.i += 1;
                    let s = String::from_utf8(units).ok()?;
                    return Some(if lone { None } else { Some(s) });
                }
                b'\\' => {
                    self.i += 1;
                    let c = self.peek()?;
                    self.i += 1;
                    let x = match c {
                        b'"' => '"',
                        b'\\' => '\\',
                        b'/' => '/',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let a = self.hex4()?;
                            if (0xd800..0xdc00).contains(&a) {
                                // paired with what follows?
                                let save = self.i;
                                let low = (|| {
                                    self.eat(b'\\')?;
                                    self.eat(b'u')?;
                                    self.hex4()
                                })();
                                match low {
                                    Some(l) if (0xdc00..0xe000).contains(&l) => char::from_u32(0x10000 + ((a - 0xd800) << 10) + (l - 0xdc00)).unwrap(),
                                    _ => {
                                        self.i = save;
                                        lone = true;
                                        '?'
                                    }
                                }
                            } else if (0xdc00..0xe000).contains(&a) {
                                lone = true;
                                '?'
                            } else {
                                char::from_u32(a).unwrap()
                            }
                        }
                        _ => return None,
                    };
                    let mut buf = [0; 4];
                    units.extend_from_slice(x.encode_utf8(&mut buf).as_bytes());
                }
                0..=0x1f => return None,
                c => {
                    units.push(c);
                    self.i += 1;
                }
            }
        }
    }
    fn lit(&mut self, s: &str) -> Option<()> {
        for c in s.bytes() {
            self.eat(c)?;
        }
        Some(())
    }
}

/// Strict RFC 8259; None if it isn't JSON.
pub fn parse(b: &[u8]) -> Option<J> {
    enum Open {
        A(Vec<J>),
        O(Vec<(Option<String>, J)>, Option<String>),
    }
    fn bad(open: Vec<Open>) -> Option<J> {
        for o in open {
            match o {
                Open::A(v) => dispose(J::Arr(v)),
                Open::O(v, _) => dispose(J::Obj(v)),
            }
        }
        None
    }
    let mut p = P { b, i: 0 };
    let mut open: Vec<Open> = Vec::new();
    macro_rules! req {
        ($e:expr) => {
            match $e {
                Some(x) => x,
                None => return bad(open),
            }
        };
    }
    macro_rules! key {
        () => {{
            p.ws();
            let k = req!(p.str());
            p.ws();
            req!(p.eat(b':'));
            k
        }};
    }
    loop {
        p.ws();
        let mut done = match req!(p.peek()) {
            b'{' => {
                p.i += 1;
                p.ws();
                if p.peek() == Some(b'}') {
                    p.i += 1;
                    J::Obj(vec![])
                } else {
                    let k = key!();
                    open.push(Open::O(vec![], k));
                    continue;
                }
            }
            b'[' => {
                p.i += 1;
                p.ws();
                if p.peek() == Some(b']') {
                    p.i += 1;
                    J::Arr(vec![])
                } else {
                    open.push(Open::A(vec![]));
                    continue;
                }
            }
            b'"' => J::Str(req!(p.str())),
            b't' => {
                req!(p.lit("true"));
                J::Bool(true)
            }
            b'f' => {
                req!(p.lit("false"));
                J::Bool(false)
            }
            b'n' => {
                req!(p.lit("null"));
                J::Null
            }
            b'-' | b'0'..=b'9' => req!(p.num()),
            _ => return bad(open),
        };
        loop {
            p.ws();
            match open.pop() {
                None => {
                    if p.i == b.len() {
                        return Some(done);
                    }
                    dispose(done);
                    return None;
                }
                Some(Open::A(mut v)) => {
                    v.push(done);
                    match p.peek() {
                        Some(b',') => {
                            p.i += 1;
                            open.push(Open::A(v));
                            break;
                        }
                        Some(b']') => {
                            p.i += 1;
                            done = J::Arr(v);
                        }
                        _ => {
                            open.push(Open::A(v));
                            return bad(open);
                        }
                    }
                }
                Some(Open::O(mut v, k)) => {
                    v.push((k, done));
                    match p.peek() {
                        Some(b',') => {
                            p.i += 1;
                            open.push(Open::O(v, None));
                            let k = key!();
                            if let Some(Open::O(_, slot)) = open.last_mut() {
                                *slot = k;
                            }
                            break;
                        }
                        Some(b'}') => {
                            p.i += 1;
                            done = J::Obj(v);
                        }
                        _ => {
                            open.push(Open::O(v, None));
                            return bad(open);
                        }
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- writing documents

/// How a document is spelled.
#[derive(Clone, Copy)]
pub struct Style {
    pub spaces: bool,
    pub escapes: bool,
}

fn put_ws(ch: &mut Ch, s: Style, out: &mut Vec<u8>) {
    if s.spaces {
        for _ in 0..ch.below(3) {
            out.push(*ch.pick(b" \t\n\r"));
        }
    }
}

pub fn put_str(ch: &mut Ch, s: Style, x: &str, out: &mut Vec<u8>) {
    out.push(b'"');
    for c in x.chars() {
        let must = c < ' ' || c == '"' || c == '\\';
        if !must && !(s.escapes && ch.chance(1, 4)) {
            let mut b = [0; 4];
            out.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
            continue;
        }
        let short = match c {
            '"' => Some('"'),
            '\\' => Some('\\'),
            '/' => Some('/'),
            '\u{8}' => Some('b'),
            '\u{c}' => Some('f'),
            '\n' => Some('n'),
            '\r' => Some('r'),
            '\t' => Some('t'),
            _ => None,
        };
        if let (Some(x), false) = (short, s.escapes && ch.chance(1, 2)) {
            out.push(b'\\');
            out.push(x as u8);
            continue;
        }
        let mut b = [0; 2];
        for u in c.encode_utf16(&mut b) {
            let t = if ch.chance(1, 2) { format!("\\u{u:04X}") } else { format!("\\u{u:04x}") };
            out.extend_from_slice(t.as_bytes());
        }
    }
    out.push(b'"');
}

pub fn render(ch: &mut Ch, s: Style, j: &J, out: &mut Vec<u8>) {
    put_ws(ch, s, out);
    match j {
        J::Null => out.extend_from_slice(b"null"),
        J::Bool(true) => out.extend_from_slice(b"true"),
        J::Bool(false) => out.extend_from_slice(b"false"),
        J::Num(t) => out.extend_from_slice(t.as_bytes()),
        J::Str(Some(t)) => put_str(ch, s, t, out),
        J::Str(None) => out.extend_from_slice(*ch.pick::<&[u8]>(&[b"\"\\ud800\"", b"\"x\\udc00y\"", b"\"\\ud83d\\u0041\"", b"\"\\ude00\\ud83d\""])),
        J::Arr(v) => {
            out.push(b'[');
            put_ws(ch, s, out);
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    out.push(b',');
                }
                render(ch, s, x, out);
            }
            out.push(b']');
        }
        J::Obj(v) => {
            out.push(b'{');
            put_ws(ch, s, out);
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    out.push(b',');
                    put_ws(ch, s, out);
                }
                match k {
                    Some(k) => put_str(ch, s, k, out),
                    None => out.extend_from_slice(b"\"\\udfff\""),
                }
                put_ws(ch, s, out);
                out.push(b':');
                render(ch, s, x, out);
            }
            out.push(b'}');
        }
    }
    put_ws(ch, s, out);
}

/// The plain document of a value: what the reader has to accept.
pub fn doc_of(t: &Ty, v: &Val) -> J {
    match (&t.kind, v) {
        (_, Val::Unit) | (_, Val::ZTok) => J::Null,
        (_, Val::Bool(b)) => J::Bool(*b),
        (_, Val::Int(i)) => J::Num(i.to_string()),
        (_, Val::UInt(i)) => J::Num(i.to_string()),
        (_, Val::F32(b)) => J::Num(float_text(&format!("{:?}", f32::from_bits(*b)))),
        (_, Val::F64(b)) => J::Num(float_text(&format!("{:?}", f64::from_bits(*b)))),
        (_, Val::Char(c)) => jstr(c.to_string()),
        (_, Val::Str(s)) => jstr(s.clone()),
        (_, Val::Tok(l)) => jstr(format!("t{l}")),
        (Kind::Struct { fields, .. }, Val::Struct(x)) => {
            J::Obj(fields.iter().zip(x).map(|(f, v)| (Some(f.key().to_string()), doc_of((f.ty)(), v))).collect())
        }
        (Kind::Opt(_), Val::Opt(None)) => J::Null,
        (Kind::Opt(i), Val::Opt(Some(v))) => doc_of(i(), v),
        (Kind::List(i) | Kind::Array(i, _) | Kind::Slice(i), Val::List(x)) => J::Arr(x.iter().map(|v| doc_of(i(), v)).collect()),
        (Kind::Ptr(i), Val::Ptr(v)) => doc_of(i(), v),
        (Kind::Map { key, val }, Val::Map(m)) => J::Obj(
            m.iter()
                .map(|(k, v)| {
                    let k = match doc_of(key(), k) {
                        J::Str(s) => s,
                        J::Num(n) => Some(n),
                        J::Bool(b) => Some(b.to_string()),
                        _ => Some("?".into()),
                    };
                    (k, doc_of(val(), v))
                })
                .collect(),
        ),
        (Kind::Enum { variants }, Val::Enum(i, x)) => {
            let w = &variants[*i];
            let mut parts: Vec<J> = w.fields.iter().zip(x).map(|(f, v)| doc_of((f.ty)(), v)).collect();
            let inner = match parts.len() {
                0 => return jstr(w.name),
                1 => parts.pop().unwrap(),
                _ if w.tuple => J::Arr(parts),
                _ => J::Obj(w.fields.iter().map(|f| Some(f.name.to_string())).zip(parts).collect()),
            };
            J::Obj(vec![(Some(w.name.to_string()), inner)])
        }
        _ => J::Null,
    }
}

fn float_text(s: &str) -> String {
    match s {
        "NaN" | "inf" | "-inf" => "null".into(),
        s => s.to_string(),
    }
}

// ---------------------------------------------------------------- meaning of a document

/// What reading a document into a type has to give.
#[derive(Clone, Debug)]
pub struct Exp {
    /// the value, if one can come out
    pub v: Option<Val>,
    /// true: exactly that value, or (if none) an error; false: an error will do, and if there
    /// is no value, anything
    pub must: bool,
}
pub const ERR: Exp = Exp { v: None, must: true };
pub const ANY: Exp = Exp { v: None, must: false };
pub fn must(v: Val) -> Exp {
    Exp { v: Some(v), must: true }
}
pub fn may(v: Val) -> Exp {
    Exp { v: Some(v), must: false }
}

/// Combines the parts of a value: an error anywhere is an error.
pub fn all(parts: Vec<Exp>, f: impl FnOnce(Vec<Val>) -> Val) -> Exp {
    if parts.iter().any(|p| p.must && p.v.is_none()) {
        return ERR;
    }
    if parts.iter().any(|p| p.v.is_none()) {
        return ANY;
    }
    let m = parts.iter().all(|p| p.must);
    Exp { v: Some(f(parts.into_iter().map(|p| p.v.unwrap()).collect())), must: m }
}

/// The integer a JSON number denotes, if it is one that fits 128 bits: (value, plain spelling)
pub fn integer(text: &str) -> Option<(bool, u128, bool)> {
    let (m, e) = text.split_once(['e', 'E']).unwrap_or((text, "0"));
    let plain = !text.contains(['e', 'E', '.']);
    let (neg, m) = m.strip_prefix('-').map_or((false, m), |m| (true, m));
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    let digits: String = format!("{i}{f}");
    let lead = digits.len() - digits.trim_start_matches('0').len();
    let sig = digits.trim_matches('0');
    if sig.is_empty() {
        return Some((neg, 0, plain));
    }
    // position of the decimal point after the significant digits
    let e: i128 = e.trim_start_matches('+').parse::<i128>().unwrap_or(if e.starts_with('-') { i128::MIN } else { i128::MAX }).clamp(i128::MIN / 4, i128::MAX / 4);
    let point = i.len() as i128 - lead as i128 + e;
    if point < sig.len() as i128 || point > 39 {
        return None;
    }
    let s = format!("{sig}{}", "0".repeat((point - sig.len() as i128) as usize));
    s.parse::<u128>().ok().map(|v| (neg, v, plain))
}

pub fn fits(neg: bool, v: u128, bits: u32, signed: bool, nonzero: bool) -> Option<Val> {
    if nonzero && v == 0 {
        return None;
    }
    if !signed {
        if neg && v != 0 {
            return None;
        }
        if bits < 128 {
            return (v >> bits == 0).then_some(Val::Int(v as i128));
        }
        return Some(Val::UInt(v));
    }
    let lim = 1u128 << (bits - 1);
    if neg && v <= lim {
        return Some(Val::Int((v as i128).wrapping_neg()));
    }
    (v < lim).then_some(Val::Int(v as i128))
}

pub fn int_from_str(s: &str, bits: u32, signed: bool, nonzero: bool) -> Option<Val> {
    let (neg, d) = match s.strip_prefix('-') {
        Some(d) => (true, d),
        None => (false, s.strip_prefix('+').unwrap_or(s)),
    };
    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) || (neg && !signed && d.bytes().any(|c| c != b'0')) {
        return None;
    }
    let t = d.trim_start_matches('0');
    let v = if t.is_empty() { 0 } else { t.parse::<u128>().ok()? };
    fits(neg, v, bits, signed, nonzero)
}

/// What parsing a text as a scalar gives.
pub fn from_text(t: &Ty, s: &str) -> Option<Val> {
    match &t.kind {
        Kind::Bool => s.parse().ok().map(Val::Bool),
        Kind::Int { bits, signed, nonzero } => int_from_str(s, *bits, *signed, *nonzero),
        Kind::F32 => s.parse::<f32>().ok().map(|x| Val::F32(x.to_bits())),
        Kind::F64 => s.parse::<f64>().ok().map(|x| Val::F64(x.to_bits())),
        Kind::Char => s.parse().ok().map(Val::Char),
        Kind::Str => Some(Val::Str(s.to_string())),
        Kind::Tok => s.strip_prefix('t').and_then(|x| x.parse().ok()).map(Val::Tok),
        _ => None,
    }
}

/// May the member go by this name? The field it certainly means, or the one it might mean.
fn field_of(fields: &[FieldTy], k: &str) -> Result<Option<usize>, usize> {
    if let Some(i) = fields.iter().position(|f| f.key() == k) {
        return Ok(Some(i));
    }
    match fields.iter().position(|f| f.name == k) {
        Some(i) => Err(i),
        None => Ok(None),
    }
}

pub fn decode(t: &'static Ty, j: &J) -> Exp {
    match (&t.kind, j) {
        // not supported by the reader: anything but a crash
        (Kind::Map { .. } | Kind::Enum { .. } | Kind::Array(..) | Kind::Ptr(_) | Kind::Unit | Kind::ZTok | Kind::Slice(_) | Kind::Weak | Kind::Addr, _) => ANY,
        (Kind::Str, _) if t.name == "Cow<str>" || t.name == "&str" => ANY,
        (Kind::Opt(_), J::Null) => must(Val::Opt(None)),
        (Kind::Opt(i), j) => all(vec![decode(i(), j)], |mut v| Val::Opt(Some(Box::new(v.pop().unwrap())))),
        (Kind::Struct { fields, .. }, J::Obj(m)) => {
            let mut got: Vec<Option<Exp>> = vec![None; fields.len()];
            let mut unsure = false;
            let mut bad = false;
            for (k, v) in m {
                let Some(k) = k else {
                    unsure = true;
                    continue;
                };
                match field_of(fields, k) {
                    Ok(Some(i)) => {
                        bad |= got[i].is_some();
                        got[i] = Some(decode((fields[i].ty)(), v));
                    }
                    Ok(None) => {
                        bad |= t.deny_unknown;
                        unsure |= v.lone();
                    }
                    Err(_) => unsure = true,
                }
            }
            if unsure {
                return ANY;
            }
            if bad {
                return ERR;
            }
            let dv = t.default_val.map(|f| f());
            let parts = got
                .into_iter()
                .enumerate()
                .map(|(i, e)| {
                    if let Some(e) = e {
                        return e;
                    }
                    if let Some(Val::Struct(d)) = &dv {
                        return must(d[i].clone());
                    }
                    match fields[i].default {
                        Some(f) => must(f()),
                        None => ERR,
                    }
                })
                .collect();
            all(parts, Val::Struct)
        }
        (Kind::List(i), J::Arr(v)) => all(v.iter().map(|x| decode(i(), x)).collect(), Val::List),
        (Kind::Bool, J::Bool(b)) => must(Val::Bool(*b)),
        (Kind::Int { bits, signed, nonzero }, J::Num(n)) => match integer(n) {
            Some((neg, v, plain)) => match fits(neg, v, *bits, *signed, *nonzero) {
                Some(x) if plain || n.len() < 60 => must(x),
                Some(x) => may(x),
                None => ERR,
            },
            None => ERR,
        },
        (Kind::F64, J::Num(n)) => match n.parse::<f64>() {
            Ok(x) if x.is_finite() => must(Val::F64(x.to_bits())),
            _ => ERR,
        },
        (Kind::F32, J::Num(n)) => match n.parse::<f32>() {
            Ok(x) if x.is_finite() => must(Val::F32(x.to_bits())),
            _ => ERR,
        },
        (Kind::Str, J::Str(Some(s))) => must(Val::Str(s.clone())),
        (Kind::Tok, J::Str(Some(s))) => match from_text(t, s) {
            Some(v) => must(v),
            None => ERR,
        },
        (_, J::Str(Some(s))) => match from_text(t, s) {
            Some(v) => may(v),
            None => ERR,
        },
        _ => ERR,
    }
}

pub fn same(a: &Val, b: &Val) -> bool {
    match (a, b) {
        // the sign of zero is not worth a quarrel when it was spelled "-0"
        (Val::F64(x), Val::F64(y)) => x == y || (f64::from_bits(*x).is_nan() && f64::from_bits(*y).is_nan()),
        (Val::F32(x), Val::F32(y)) => x == y || (f32::from_bits(*x).is_nan() && f32::from_bits(*y).is_nan()),
        (Val::Struct(x), Val::Struct(y)) | (Val::List(x), Val::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (Val::Enum(i, x), Val::Enum(k, y)) => i == k && x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (Val::Opt(Some(x)), Val::Opt(Some(y))) | (Val::Ptr(x), Val::Ptr(y)) => same(x, y),
        (Val::Map(x), Val::Map(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(&a.0, &b.0) && same(&a.1, &b.1)),
        _ => a == b,
    }
}

// ---------------------------------------------------------------- what a value's text must say

/// Can the writer be expected to write this? None: yes; Some: maybe not.
pub fn unwritable(t: &Ty, v: &Val) -> bool {
    match (&t.kind, v) {
        (Kind::Int { bits: 128, .. } | Kind::Char | Kind::Tok | Kind::ZTok | Kind::Unit | Kind::Array(..) | Kind::Slice(_) | Kind::Ptr(_) | Kind::Weak | Kind::Addr, _) => true,
        (Kind::Struct { fields, .. }, Val::Struct(x)) => fields.iter().zip(x).any(|(f, v)| unwritable((f.ty)(), v)),
        (Kind::Opt(i), Val::Opt(Some(v))) => unwritable(i(), v),
        (Kind::List(i), Val::List(x)) => x.iter().any(|v| unwritable(i(), v)),
        (Kind::Map { key, val }, Val::Map(m)) => m.iter().any(|(k, v)| matches!(key().kind, Kind::Struct { .. } | Kind::Enum { .. } | Kind::List(_)) || matches!(k, Val::Opt(_)) || unwritable(val(), v)),
        (Kind::Enum { variants }, Val::Enum(i, x)) => variants[*i].fields.iter().zip(x).any(|(f, v)| unwritable((f.ty)(), v)),
        _ => false,
    }
}

/// Does the text (parsed) say exactly what the value holds?
pub fn says(t: &Ty, v: &Val, j: &J) -> Result<(), String> {
    let no = |w: &str| Err(format!("{w}: {} but the text says {j:?}", v.short()));
    let ok = |b: bool| if b { Ok(()) } else { Err(format!("{} but the text says {j:?}", v.short())) };
    match (&t.kind, v, j) {
        (_, Val::F32(b), j) => {
            let x = f32::from_bits(*b);
            match j {
                J::Num(n) if x.is_finite() => ok(n.parse::<f32>().is_ok_and(|y| y.to_bits() == *b)),
                J::Null => ok(!x.is_finite()),
                _ => no("wrong kind"),
            }
        }
        (_, Val::F64(b), j) => {
            let x = f64::from_bits(*b);
            match j {
                J::Num(n) if x.is_finite() => ok(n.parse::<f64>().is_ok_and(|y| y.to_bits() == *b)),
                J::Null => ok(!x.is_finite()),
                _ => no("wrong kind"),
            }
        }
        (Kind::Int { bits: 128, .. } | Kind::Char | Kind::Tok | Kind::Unit | Kind::ZTok | Kind::Array(..) | Kind::Slice(_) | Kind::Ptr(_), ..) => Ok(()),
        (Kind::Opt(i), Val::Opt(Some(v)), j) => says(i(), v, j),
        (Kind::Opt(_), Val::Opt(None), j) => ok(*j == J::Null),
        (Kind::List(i), Val::List(x), J::Arr(y)) => {
            if x.len() != y.len() {
                return no("wrong length");
            }
            x.iter().zip(y).try_for_each(|(a, b)| says(i(), a, b))
        }
        (Kind::Struct { fields, .. }, Val::Struct(x), J::Obj(m)) => {
            if m.len() != fields.len() {
                return no("wrong members");
            }
            for (f, v) in fields.iter().zip(x) {
                match m.iter().find(|(k, _)| k.as_deref() == Some(f.key())) {
                    Some((_, j)) => says((f.ty)(), v, j)?,
                    None => return no("missing member"),
                }
            }
            Ok(())
        }
        (Kind::Map { key, val }, Val::Map(x), J::Obj(m)) => {
            if m.len() != x.len() {
                return no("wrong members");
            }
            for (k, v) in x {
                let name = match doc_of(key(), k) {
                    J::Str(s) => s,
                    J::Num(n) => Some(n),
                    J::Bool(b) => Some(b.to_string()),
                    _ => return Ok(()),
                };
                match m.iter().find(|(k, _)| *k == name) {
                    Some((_, j)) => says(val(), v, j)?,
                    None => return no("missing member"),
                }
            }
            Ok(())
        }
        (Kind::Enum { variants }, Val::Enum(i, x), j) => {
            let w = &variants[*i];
            if w.fields.is_empty() {
                return ok(*j == jstr(w.name));
            }
            let J::Obj(m) = j else { return no("wrong kind") };
            if m.len() != 1 || m[0].0.as_deref() != Some(w.name) {
                return no("wrong variant");
            }
            let inner = &m[0].1;
            if w.fields.len() == 1 {
                return says((w.fields[0].ty)(), &x[0], inner);
            }
            match inner {
                J::Arr(y) if w.tuple && y.len() == x.len() => w.fields.iter().zip(x).zip(y).try_for_each(|((f, a), b)| says((f.ty)(), a, b)),
                J::Obj(m) if !w.tuple && m.len() == x.len() => {
                    for (f, v) in w.fields.iter().zip(x) {
                        match m.iter().find(|(k, _)| k.as_deref() == Some(f.name)) {
                            Some((_, j)) => says((f.ty)(), v, j)?,
                            None => return no("missing member"),
                        }
                    }
                    Ok(())
                }
                _ => no("wrong variant content"),
            }
        }
        (_, v, j) => ok(*j == doc_of(t, v)),
    }
}
