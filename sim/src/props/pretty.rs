//! P01, P02: pretty-printing to simulated text sinks.
use crate::docs::{self, PDoc, Value};
use crate::model::{FieldTy, Gen, Kind, Ty, Val, any_kind, gen_val};
use crate::rng::Ch;
use crate::sink::TextSink;
use crate::world::{self, Act, Caught, Cb, audit, count, sut, sut_np, violate};
use crate::{alloc, ev};
use facet_pretty::{ColorGenerator, PrettyPrinter};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Config {
    colors: bool,
    indent: usize,
    depth: Option<usize>,
    tint: Option<(f32, f32, f32)>,
}
impl Config {
    fn drawn(ch: &mut Ch) -> Config {
        Config {
            colors: ch.chance(1, 2),
            indent: *ch.pick(&[2, 0, 4, 1, 9]),
            depth: if ch.chance(1, 5) { Some(ch.below(6)) } else { None },
            tint: if ch.chance(1, 6) { Some((*ch.pick(&[0.0, 180.0, 359.9, 720.5, -30.0]), *ch.pick(&[0.0, 0.5, 1.0, 2.0, -1.0]), *ch.pick(&[0.0, 0.4, 1.0, 1.5]))) } else { None },
        }
    }
    fn printer(&self) -> PrettyPrinter {
        let mut p = PrettyPrinter::new();
        if self.indent != 2 {
            p = p.with_indent_size(self.indent);
        }
        if !self.colors {
            p = p.with_colors(false);
        }
        if let Some(d) = self.depth {
            p = p.with_max_depth(d);
        }
        if let Some((h, s, l)) = self.tint {
            p = p.with_color_generator(ColorGenerator::new().with_base_hue(h).with_saturation(s).with_lightness(l));
        }
        p
    }
    fn is_default(&self) -> bool {
        *self == Config { colors: true, indent: 2, depth: None, tint: None }
    }
}

/// Without the colour sequences.
fn plain(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == 0x1b && b.get(i + 1) == Some(&b'[') {
            let mut j = i + 2;
            while j < b.len() && (b[j].is_ascii_digit() || b[j] == b';') {
                j += 1;
            }
            if b.get(j) == Some(&b'm') {
                i = j + 1;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    String::from_utf8(out).unwrap()
}

pub fn hides(t: &'static Ty) -> bool {
    fn sens(fs: &[FieldTy]) -> bool {
        fs.iter().any(|f| f.sensitive)
    }
    any_kind(t, &|k| match k {
        Kind::Struct { fields, .. } => sens(fields),
        Kind::Enum { variants } => variants.iter().any(|v| sens(&v.fields)),
        _ => false,
    })
}

/// Goes along the text and looks for everything the value has to be shown with, in order.
struct Walk<'a> {
    s: &'a str,
    at: usize,
    max: Option<usize>,
    /// something of unknown extent was shown: nothing after it is looked for
    hole: bool,
}
type R = Result<(), String>;
impl Walk<'_> {
    fn skip(c: char) -> bool {
        c.is_whitespace() || "{}[]():,.;<>⋯".contains(c)
    }
    /// position of `atom` if nothing but punctuation comes before it
    fn find(&self, atom: &str) -> Option<usize> {
        let mut p = self.at;
        loop {
            let r = &self.s[p..];
            if r.starts_with(atom) {
                return Some(p);
            }
            if r.starts_with("///") {
                p += r.find('\n')?;
                continue;
            }
            match r.chars().next() {
                Some(c) if Self::skip(c) => p += c.len_utf8(),
                _ => return None,
            }
        }
    }
    fn may(&mut self, atom: &str) -> bool {
        if self.hole {
            return false;
        }
        match self.find(atom) {
            Some(p) => {
                self.at = p + atom.len();
                true
            }
            None => false,
        }
    }
    fn must(&mut self, atom: &str) -> R {
        if atom.is_empty() || self.hole {
            return Ok(());
        }
        match self.find(atom) {
            Some(p) => {
                self.at = p + atom.len();
                Ok(())
            }
            None => Err(format!("{atom:?} expected at byte {} before {:?}", self.at, self.s[self.at..].chars().take(60).collect::<String>())),
        }
    }
    fn fields(&mut self, fs: &[FieldTy], vs: &[Val], named: bool, depth: usize) -> R {
        for (f, v) in fs.iter().zip(vs) {
            if named {
                self.must(f.name)?;
            }
            if f.sensitive {
                self.must("[REDACTED]")?;
            } else {
                self.value((f.ty)(), v, depth + 1)?;
            }
        }
        Ok(())
    }
    fn value(&mut self, t: &'static Ty, v: &Val, depth: usize) -> R {
        if self.max.is_some_and(|m| depth > m) {
            // cut off: whether something is shown here is open
            if let Some(p) = self.find("...") {
                self.at = p + 3;
                return Ok(());
            }
        }
        match (&t.kind, v) {
            (_, Val::Unit) => Ok(()),
            (_, Val::Bool(b)) => self.must(&b.to_string()),
            (_, Val::Int(i)) => self.must(&i.to_string()),
            (_, Val::UInt(i)) => self.must(&i.to_string()),
            (_, Val::F32(x)) => self.must(&f32::from_bits(*x).to_string()),
            (_, Val::F64(x)) => self.must(&f64::from_bits(*x).to_string()),
            (_, Val::Char(c)) => self.must(&plain(&c.to_string())),
            (_, Val::Str(s)) => self.must(&plain(s)),
            (_, Val::Tok(l)) => self.must(&format!("t{l}")),
            (_, Val::ZTok) => self.must("ZTok"),
            (Kind::Struct { fields, .. }, Val::Struct(vs)) => {
                self.may(&type_name(t));
                self.fields(fields, vs, true, depth)
            }
            (Kind::Enum { variants }, Val::Enum(i, vs)) => {
                self.may(&type_name(t));
                self.must(variants[*i].name)?;
                self.fields(&variants[*i].fields, vs, !variants[*i].tuple, depth)
            }
            (Kind::Opt(_), Val::Opt(None)) => {
                self.may(&type_name(t));
                self.must("None")
            }
            (Kind::Opt(t2), Val::Opt(Some(v))) => {
                self.may(&type_name(t));
                self.may("Some");
                self.value(t2(), v, depth)
            }
            (Kind::List(t2), Val::List(vs)) => {
                self.may(&type_name(t));
                for v in vs {
                    match v {
                        Val::Int(b) if t2().name == "u8" => self.must(&format!("{b:02x}"))?,
                        _ => self.value(t2(), v, depth + 1)?,
                    }
                }
                Ok(())
            }
            (Kind::Map { .. }, _) => {
                // the contents of maps are not shown
                self.may(&type_name(t));
                self.may("/* Map contents */");
                Ok(())
            }
            _ => {
                // shown as a whole, unless something in it is sensitive
                self.may("unsupported peek variant");
                if hides(t) {
                    if !self.may("[REDACTED]") && !self.may(&type_name(t)) {
                        self.hole = true;
                    }
                    return Ok(());
                }
                let x = Value::new(t, v);
                let d = sut_np("debug", || {
                    let s = format!("{:?}", x.peek());
                    alloc::off(|| s.clone())
                });
                self.must(&plain(&d.unwrap_or_default()))
            }
        }
    }
}

fn type_name(t: &'static Ty) -> String {
    struct N(&'static facet_core::Shape);
    impl std::fmt::Display for N {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            (self.0.vtable.type_name)(f, facet_core::TypeNameOpts::infinite())
        }
    }
    N(t.ops.shape).to_string()
}

fn shows(d: &PDoc, v: &Val, text: &str, c: &Config) -> R {
    let s = plain(text);
    let mut w = Walk { s: &s, at: 0, max: c.depth, hole: false };
    w.value(d.t(), v, 0)?;
    if !w.hole && c.depth.is_none() && s[w.at..].chars().any(|c| !Walk::skip(c)) {
        return Err(format!("left over at byte {}: {:?}", w.at, s[w.at..].chars().take(60).collect::<String>()));
    }
    Ok(())
}

pub fn show(s: &str) -> String {
    if s.len() > 600 { format!("{:?}… ({} bytes)", s.chars().take(600).collect::<String>(), s.len()) } else { format!("{s:?}") }
}

fn to_sink(d: &PDoc, v: &Value, c: &Config, s: &mut TextSink) -> Result<bool, Caught> {
    let p = c.printer();
    sut(move || unsafe { (d.pretty)(v.p, p, s) }.is_ok())
}

/// the complete text, through a sink that takes everything
fn complete(d: &PDoc, v: &Value, c: &Config) -> Option<String> {
    let mut s = TextSink::new(usize::MAX, true, false);
    match to_sink(d, v, c, &mut s) {
        Ok(true) => Some(s.out),
        Ok(false) => {
            violate("failure out of nowhere", format!("{} is not printed", d.t().name));
            None
        }
        Err(Caught::Panic(m, l)) => {
            violate("panic while printing", format!("{}: {m} at {l}", d.t().name));
            None
        }
        Err(Caught::Injected) => None,
    }
}

/// Prints to a failing sink; what was delivered.
fn cut(ch: &mut Ch, d: &PDoc, v: &Value, c: &Config, full: &str) {
    let at = match ch.below(4) {
        0 => ch.below(full.len().max(1)),
        1 => ch.below(full.len().min(40).max(1)),
        2 => full.len().saturating_sub(1 + ch.below(12)),
        _ => {
            // at the border of a piece
            let b: Vec<usize> = full.char_indices().filter(|(_, c)| "\n:,{}[]() ".contains(*c)).map(|x| x.0).collect();
            if b.is_empty() { 0 } else { *ch.pick(&b) }
        }
    };
    let mut s = TextSink::new(at, ch.chance(2, 3), ch.chance(1, 6));
    let cb = any_kind(d.t(), &|k| matches!(k, Kind::Tok)) && ch.chance(1, 5);
    if cb {
        s.at = usize::MAX;
        let n = ch.range(1, 4) as u64;
        let act = if ch.chance(1, 2) { Act::Panic } else { Act::Refuse };
        let which = if ch.chance(3, 4) { Cb::Display } else { Cb::Debug };
        world::with(|w| {
            w.cb_calls = Default::default();
            w.plan = vec![(which, n, act)];
        });
        world::take_fired();
    }
    ev!("sink fails at {} sticky {} panics {} callback {cb}", s.at, s.sticky, s.panics);
    let r = to_sink(d, v, c, &mut s);
    let fired = {
            world::with(|w| w.plan.clear());
            world::take_fired()
        };
    if !full.starts_with(&s.out) {
        violate("delivered text is not a prefix", format!("{}: delivered {} of {}", d.t().name, show(&s.out), show(full)));
    }
    match r {
        Ok(true) => {
            ev!("printed");
            if s.failed {
                violate("sink failure not reported", format!("{} failing at {at}", d.t().name));
            } else if fired {
                violate("failure of a value's Display not reported", d.t().name.to_string());
            } else if s.out.len() != full.len() {
                violate("incomplete text reported as printed", format!("{} of {} bytes", s.out.len(), full.len()));
            }
        }
        Ok(false) => {
            ev!("error after {} bytes", s.out.len());
            count("probe.print_failed", 1);
            if !s.failed && !fired {
                violate("failure out of nowhere", format!("{} is not printed", d.t().name));
            }
        }
        Err(Caught::Injected) => {
            ev!("unwound after {} bytes", s.out.len());
            count("probe.print_unwound", 1);
            if !fired && !(s.failed && s.panics) {
                violate("failure out of nowhere", "unwound");
            }
        }
        Err(Caught::Panic(m, l)) => violate("panic while printing", format!("{}: {m} at {l}", d.t().name)),
    }
}

/// The complete text, drawn from a seed (also in another process).
fn from_seed(seed: u64) -> Option<String> {
    let mut c = Ch::seeded(seed);
    let d = c.pick(docs::pretty_docs());
    let val = gen_val(d.t(), &mut c, &Gen { finite: false, max_len: 3, big: false, max_depth: 4, plain_strings: false });
    let k = Config::drawn(&mut c);
    let v = Value::new(d.t(), &val);
    complete(d, &v, &k)
}

/// `sim text SEED`: prints the text, for comparison between processes
pub fn text(seed: u64) {
    alloc::off(|| print!("{}", from_seed(seed).unwrap_or_default()));
}

/// The text another process (at other addresses) gives.
fn elsewhere(seed: u64) {
    let Some(here) = from_seed(seed) else { return };
    let Ok(o) = std::process::Command::new("/proc/self/exe").arg("text").arg(seed.to_string()).output() else { return };
    if !o.status.success() {
        return;
    }
    count("probe.compared_with_another_process", 1);
    let there = String::from_utf8_lossy(&o.stdout);
    if there != here {
        violate("another run of the program prints something else", format!("{} / {}", show(&here), show(&there)));
    }
}

fn gen_for(ch: &mut Ch) -> Gen {
    Gen { finite: false, max_len: 3, big: ch.chance(1, 60), max_depth: 5, plain_strings: false }
}

pub fn p01(ch: &mut Ch) {
    alloc::off(|| p01_run(ch));
    audit(true);
}

fn p01_run(ch: &mut Ch) {
    if ch.chance(1, 3000) {
        elsewhere(ch.u64());
        return;
    }
    let d = ch.pick(docs::pretty_docs());
    let g = gen_for(ch);
    let val = gen_val(d.t(), ch, &g);
    let v = Value::new(d.t(), &val);
    let rounds = ch.range(1, 2);
    for _ in 0..rounds {
        let c = Config::drawn(ch);
        ev!("{} = {} {c:?}", d.t().name, val.short());
        let Some(full) = complete(d, &v, &c) else { break };
        count("probe.printed", 1);
        if let Err(e) = shows(d, &val, &full, &c) {
            violate("something of the value is not shown", format!("{} {}: {e} in {}", d.t().name, val.short(), show(&plain(&full))));
        }
        // the same text on every run and through every entry point
        for k in 0..3 {
            let p = c.printer();
            let s = match k {
                0 => sut_np("format", || unsafe { (d.format)(v.p, &p) }),
                1 => sut_np("format_peek", || p.format_peek(v.peek())),
                _ if c.is_default() => sut_np("pretty", || unsafe { (d.plain)(v.p) }),
                _ => complete(d, &v, &c),
            };
            if let Some(s) = s {
                if s != full {
                    violate("entry points disagree", format!("{}: {} gives {} instead of {}", d.t().name, ["format", "format_peek", "pretty"][k], show(&s), show(&full)));
                }
                let _ = sut(move || drop(s));
            }
        }
        for _ in 0..ch.range(1, 4) {
            cut(ch, d, &v, &c, &full);
        }
    }
    if v.read() != val && !unordered(&val) {
        violate("the value was changed by printing", d.t().name.to_string());
    }
    drop(v);
}

/// contains something not equal to itself
fn unordered(v: &Val) -> bool {
    let mut s = false;
    if let Val::F32(_) | Val::F64(_) = v {
        s = true;
    }
    s
}

/// Other content for everything sensitive in it.
fn other(t: &'static Ty, v: &Val, ch: &mut Ch, g: &Gen, n: &mut usize) -> Val {
    let fs = |fs: &[FieldTy], vs: &[Val], ch: &mut Ch, n: &mut usize| -> Vec<Val> {
        fs.iter()
            .zip(vs)
            .map(|(f, v)| {
                if !f.sensitive {
                    return other((f.ty)(), v, ch, g, n);
                }
                for _ in 0..4 {
                    let x = gen_val((f.ty)(), ch, g);
                    if x != *v {
                        *n += 1;
                        return x;
                    }
                }
                v.clone()
            })
            .collect()
    };
    match (&t.kind, v) {
        (Kind::Struct { fields, .. }, Val::Struct(vs)) => Val::Struct(fs(fields, vs, ch, n)),
        (Kind::Enum { variants }, Val::Enum(i, vs)) => Val::Enum(*i, fs(&variants[*i].fields, vs, ch, n)),
        (Kind::Opt(t), Val::Opt(Some(x))) => Val::Opt(Some(Box::new(other(t(), x, ch, g, n)))),
        (Kind::Ptr(t), Val::Ptr(x)) => Val::Ptr(Box::new(other(t(), x, ch, g, n))),
        (Kind::List(t) | Kind::Array(t, _) | Kind::Slice(t), Val::List(vs)) => Val::List(vs.iter().map(|x| other(t(), x, ch, g, n)).collect()),
        (Kind::Map { key, val }, Val::Map(m)) => {
            let mut out: Vec<(Val, Val)> = Vec::new();
            for (k, x) in m {
                let mut o = other(key(), k, ch, g, n);
                if out.iter().any(|y| y.0 == o) || m.iter().any(|y| y.0 == o) {
                    o = k.clone();
                }
                if out.iter().any(|y| y.0 == o) {
                    continue;
                }
                out.push((o, other(val(), x, ch, g, n)));
            }
            Val::sort_maps(out)
        }
        _ => v.clone(),
    }
}

pub fn p02(ch: &mut Ch) {
    alloc::off(|| p02_run(ch));
    audit(true);
}

/// A field that is marked as sensitive in an attribute that says something else as well.
pub fn combined(_: &mut Ch) {
    let show = |b| PrettyPrinter::new().with_colors(false).format(&docs::PCombined { a: 7, b });
    if show(1_111_111) != show(2_222_222) {
        violate("sensitive content reaches the output", "PCombined { a: 7, b: 1111111 }: marked in a combined attribute");
    }
}

fn p02_run(ch: &mut Ch) {
    let d = ch.pick(docs::secret_docs());
    let g = gen_for(ch);
    let a = gen_val(d.t(), ch, &g);
    let mut n = 0;
    let b = other(d.t(), &a, ch, &g, &mut n);
    let (x, y) = (Value::new(d.t(), &a), Value::new(d.t(), &b));
    let c = Config::drawn(ch);
    ev!("{} = {} / {} {c:?}", d.t().name, a.short(), b.short());
    let (Some(s), Some(t)) = (complete(d, &x, &c), complete(d, &y, &c)) else { return };
    count("probe.secrets_exchanged", n as u64);
    if s != t {
        violate("sensitive content reaches the output", format!("{}: {} for {} and {} for {}", d.t().name, show(&plain(&s)), a.short(), show(&plain(&t)), b.short()));
    }
    if let Err(e) = shows(d, &a, &s, &c) {
        violate("something of the value is not shown", format!("{} {}: {e} in {}", d.t().name, a.short(), show(&plain(&s))));
    }
    // printing that is cut short delivers a part of the same text
    for _ in 0..ch.range(1, 3) {
        cut(ch, d, &x, &c, &t);
    }
    drop(x);
    drop(y);
}
