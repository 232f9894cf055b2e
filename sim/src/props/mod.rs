//! The properties and how each is decided.
use crate::rng::Ch;

pub mod args;
pub mod build;
pub mod conc;
pub mod form;
pub mod json;
pub mod msgp;
pub mod oom;
pub mod pretty;
pub mod read;
pub mod toml;
pub mod vals;
pub mod yaml;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ch),
    /// runs of the quick tier
    pub quick: u64,
    pub thorough_secs: u64,
    /// fewer events than this make a run trivial
    pub min_events: u64,
    pub rule: &'static str,
    pub level: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub probes: &'static [(&'static str, fn(&mut Ch))],
}

const MEM: &str = "the allocator is the simulator's: its own heap with bounds, layout and liveness checking and seeded address reuse; user code reached through vtables (Drop, Clone, Default, FromStr, Hash, Eq, Ord, Debug, invariants of the simulator's types) is the simulator's and fails when the schedule says so; hash seeds come from the run's seed";

const IO: &str = "sinks and storage are the simulator's (every write's length, interruption and failure is decided by the run; stored bytes are cut, torn, lost, duplicated and flipped by the run); the allocator is the simulator's (bounds, layout, liveness checked; seeded address reuse); callbacks of the simulator's leaf types fail when the schedule says so; hash seeds come from the run's seed";

const BASE: Prop = Prop {
    id: "",
    run: |_| {},
    quick: 1_000_000,
    thorough_secs: 1800,
    min_events: 4,
    rule: "",
    level: "exploration",
    real: "facet, facet-core, facet-reflect and the derive macro's output, compiled unmodified from /repo",
    stub: MEM,
    probes: &[],
};

const STEPS: &str = "a run draws a root type of the universe, a seeded history of builder steps (field, variant, item, map, option, pointer, default, parse and put steps, right and wrong ones, going back and overwriting, abandoning at any point), an allocator reuse policy and, for some runs, failing callbacks; non-trivial: at least 4 recorded events; distinct: another event sequence";
const OPS: &str = "a run draws live values of types of the universe and a seeded history of type-erased operations on them, shadowed by the native operations on native twins; non-trivial: at least 4 recorded events; distinct: another event sequence";

const JREAL: &str = "facet-json, facet-reflect, facet-core and the derive macro's output, compiled unmodified from /repo";
const MREAL: &str = "facet-msgpack, facet-reflect, facet-core and the derive macro's output, compiled unmodified from /repo";
const SINKS: &str = "a run draws a type, a value and schedules of short, interrupted, zero-length, failing and panicking writes; non-trivial: at least 2 recorded events; distinct: another event sequence";
const TURNS: &str = "a run draws 2 to 6 operations (writers, readers, printers, builders, histories of type-erased operations; some with failing sinks, damaged input or failing callbacks), runs each alone, then all together on 2 to 4 threads of which only the one whose turn it is runs, the turn changing hands where the run decides, then each alone again; non-trivial: at least 6 recorded events; distinct: another event sequence, which includes every change of turn";
const TURNSTUB: &str = "the scheduler is the simulator's: threads run one at a time and change at allocations, releases, calls of user code, sink writes and after a drawn number of machine instructions (single-stepped by the processor); allocator, sinks, hash seeds and the leaf types' user code are the simulator's; one memory order only (each thread's effects are seen at once)";
const STORE: &str = "a run draws a type and a value, writes it through a seeded sink to simulated storage, reads it back, and reads it again after seeded crashes, torn overwrites, lost sectors and repeated writes; non-trivial: at least 3 recorded events; distinct: another event sequence";
const DAMAGE: &str = "a run draws a target type, a document for it spelled in a seeded way, seeded edits of its tree and damage to its bytes (or hostile nesting), and failing callbacks; the expected outcome comes from an independent reader of the format; non-trivial: at least 2 recorded events; distinct: another event sequence";

const PREAL: &str = "facet-pretty (with its yansi), facet-reflect, facet-core and the derive macro's output, compiled unmodified from /repo";
const PRINT: &str = "a run draws a type, one value (P02: two values that differ in sensitive fields only), printer configurations, and text sinks that fail or panic at a seeded position or values whose Display or Debug fails; non-trivial: at least 2 recorded events; distinct: another event sequence";

const REFUSE: &str = "a run draws a scenario of another property and all its choices, counts its allocations undisturbed, and runs it again in separate processes with one seeded allocation (or every one from there on) refused; non-trivial: at least one refusal; distinct: another scenario or other outcomes";

static ALL: &[Prop] = &[
    Prop { id: "C01", run: build::c01, quick: 1_500_000, rule: STEPS, ..BASE },
    Prop { id: "C02", run: build::c02, quick: 1_500_000, rule: STEPS, ..BASE },
    Prop { id: "C03", run: build::c03, quick: 2_000_000, rule: STEPS, ..BASE },
    Prop { id: "C04", run: oom::c04, quick: 20_000, rule: REFUSE, real: "every crate of the other properties, compiled unmodified from /repo; the abort is the real one, in a process of its own", stub: IO, min_events: 2, ..BASE },
    Prop { id: "S01", run: conc::s01, quick: 30_000, rule: TURNS, real: "every crate of the other properties, compiled unmodified from /repo, on real threads", stub: TURNSTUB, min_events: 6, ..BASE },
    Prop { id: "V01", run: vals::v01, rule: OPS, ..BASE },
    Prop { id: "V02", run: vals::v02, rule: OPS, ..BASE },
    Prop { id: "J01", run: json::j01, rule: SINKS, real: JREAL, stub: IO, min_events: 2, ..BASE },
    Prop { id: "J02", run: json::j02, rule: STORE, real: JREAL, stub: IO, min_events: 3, ..BASE },
    Prop { id: "M01", run: msgp::m01, rule: STORE, real: MREAL, stub: IO, min_events: 2, ..BASE },
    Prop { id: "M02", run: msgp::m02, rule: DAMAGE, real: MREAL, stub: IO, min_events: 2, ..BASE },
    Prop { id: "T01", run: toml::t01, rule: DAMAGE, real: "facet-toml (with its toml_edit), facet-reflect, facet-core and the derive macro's output, compiled unmodified from /repo", stub: IO, min_events: 2, quick: 300_000, ..BASE },
    Prop { id: "Y01", run: yaml::y01, rule: DAMAGE, real: "facet-yaml (with its yaml-rust2), facet-reflect, facet-core and the derive macro's output, compiled unmodified from /repo", stub: IO, min_events: 2, quick: 300_000, ..BASE },
    Prop { id: "U01", run: form::u01, rule: DAMAGE, real: "facet-urlencoded (with its form_urlencoded), facet-reflect, facet-core and the derive macro's output, compiled unmodified from /repo", stub: IO, min_events: 2, quick: 300_000, ..BASE },
    Prop { id: "A01", run: args::a01, rule: DAMAGE, real: "facet-args, facet-reflect, facet-core and the derive macro's output, compiled unmodified from /repo", stub: IO, min_events: 2, quick: 600_000, ..BASE },
    Prop { id: "P01", run: pretty::p01, rule: PRINT, real: PREAL, stub: IO, min_events: 2, quick: 300_000, ..BASE },
    Prop { id: "P02", run: pretty::p02, rule: PRINT, real: PREAL, stub: IO, min_events: 2, quick: 300_000, probes: &[("combined-attribute", pretty::combined)], ..BASE },
    Prop { id: "J03", quick: 1_000_000, run: json::j03, rule: DAMAGE, real: JREAL, stub: IO, min_events: 2, ..BASE },
];

pub fn all() -> &'static [Prop] {
    ALL
}
