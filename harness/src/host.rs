//! Host environment given to Ferlium programs: every native appends to an event log that the
//! monitors read, and a small mutable store makes the order of reads and writes observable.
use ferlium::{
    CompilerSession,
    compiler::error::SourceFailureKind,
    hir::function::{
        BinaryNativeFnNNN, NullaryNativeFnN, UnaryNativeFnNFN, UnaryNativeFnNN, UnaryNativeFnRN,
    },
    module::{Module, ModuleId, Path},
    types::effects::{PrimitiveEffect, effect, effects, no_effects},
};
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    Emit(isize),
    EmitS(String),
    Sense(isize, isize),
    Poke(isize, isize),
    Trip(isize),
    TokNew(isize),
    TokClone(isize, isize),
    TokDrop(isize),
    TokUse(isize),
    Epi(isize),
}
impl Ev {
    pub fn is_host(&self) -> bool {
        matches!(self, Ev::Emit(_) | Ev::EmitS(_) | Ev::Sense(..) | Ev::Poke(..) | Ev::Trip(_))
    }
}

#[derive(Default)]
pub struct HostState {
    pub log: Vec<Ev>,
    pub cells: [isize; 4],
    /// id -> payload of every live token.
    pub live: HashMap<isize, isize>,
    pub dead: std::collections::HashSet<isize>,
    pub next: isize,
    /// Faults the token monitor saw: double drop, use of a dead or unknown token…
    pub faults: Vec<String>,
    pub reads: u64,
    pub writes: u64,
    pub fails: u64,
    /// Token operations left before a hook fails on purpose.
    pub clones: u64,
    pub drops: u64,
}
thread_local! {
    pub static HOST: RefCell<HostState> = RefCell::new(HostState::default());
}
pub const CELLS: [isize; 4] = [11, -3, 0, 7];
pub fn reset() {
    HOST.with(|h| {
        let mut h = h.borrow_mut();
        *h = HostState { cells: CELLS, next: 1, ..Default::default() };
    });
    crate::testing_mod::reset_fixtures();
}
pub fn take_log() -> Vec<Ev> {
    HOST.with(|h| std::mem::take(&mut h.borrow_mut().log))
}
fn with<R>(f: impl FnOnce(&mut HostState) -> R) -> R {
    HOST.with(|h| {
        let mut h = h.borrow_mut();
        if h.log.len() > 2_000_000 { h.log.clear(); h.faults.push("event log overflow".into()); }
        f(&mut h)
    })
}

fn emit(x: isize) {
    with(|h| { h.writes += 1; h.log.push(Ev::Emit(x)) })
}
fn emits(x: &ferlium::std::string::String) {
    let s = x.as_ref().to_string();
    with(|h| { h.writes += 1; h.log.push(Ev::EmitS(s)) })
}
fn sense(k: isize) -> isize {
    with(|h| {
        h.reads += 1;
        let v = h.cells[k.rem_euclid(4) as usize];
        h.log.push(Ev::Sense(k, v));
        v
    })
}
fn poke(k: isize, v: isize) {
    with(|h| {
        h.writes += 1;
        h.cells[k.rem_euclid(4) as usize] = v;
        h.log.push(Ev::Poke(k, v));
    })
}
/// Reads and writes; returns the previous content.
fn swap(k: isize, v: isize) -> isize {
    with(|h| {
        h.reads += 1;
        h.writes += 1;
        let old = std::mem::replace(&mut h.cells[k.rem_euclid(4) as usize], v);
        h.log.push(Ev::Sense(k, old));
        h.log.push(Ev::Poke(k, v));
        old
    })
}
/// Fails when the argument is negative; otherwise the identity. Pure but fallible.
fn trip(x: isize) -> Result<isize, SourceFailureKind> {
    if x < 0 {
        with(|h| h.fails += 1);
        Err(SourceFailureKind::Aborted(Some(format!("trip {x}"))))
    } else {
        Ok(x)
    }
}
/// An external, effectful and fallible operation.
fn probe(x: isize) -> Result<isize, SourceFailureKind> {
    with(|h| { h.writes += 1; h.log.push(Ev::Trip(x)) });
    if x < 0 {
        with(|h| h.fails += 1);
        Err(SourceFailureKind::Aborted(Some(format!("probe {x}"))))
    } else {
        Ok(x)
    }
}

// Tokens: linear bookkeeping of owned values. `tok_new` is effectful so that it is never run at
// compile time; the hooks called from `Value::clone`/`Value::drop` have to be declared pure.
fn tok_new(p: isize) -> isize {
    with(|h| {
        let id = h.next;
        h.next += 1;
        h.live.insert(id, p);
        h.log.push(Ev::TokNew(id));
        id
    })
}
fn tok_clone(id: isize) -> isize {
    with(|h| {
        h.clones += 1;
        let p = match h.live.get(&id) {
            Some(p) => *p,
            None => { h.faults.push(format!("clone of {} token {id}", if h.dead.contains(&id) { "dropped" } else { "unknown" })); 0 }
        };
        let n = h.next;
        h.next += 1;
        h.live.insert(n, p);
        h.log.push(Ev::TokClone(id, n));
        n
    })
}
fn tok_drop(id: isize) {
    with(|h| {
        h.drops += 1;
        h.log.push(Ev::TokDrop(id));
        if h.live.remove(&id).is_none() {
            let what = if h.dead.contains(&id) { "second drop of token" } else { "drop of unknown token" };
            h.faults.push(format!("{what} {id}"));
        }
        h.dead.insert(id);
    })
}
fn tok_use(id: isize) -> isize {
    with(|h| {
        h.reads += 1;
        h.log.push(Ev::TokUse(id));
        match h.live.get(&id) {
            Some(p) => *p,
            None => { h.faults.push(format!("use of {} token {id}", if h.dead.contains(&id) { "dropped" } else { "unknown" })); 0 }
        }
    })
}
/// Called from accessor epilogues: pairs with the prologue that logged the same number negated.
fn epi(id: isize) {
    with(|h| { h.writes += 1; h.log.push(Ev::Epi(id)) })
}

thread_local! {
    /// Inputs a program cannot know at compile time.
    pub static FEED: std::cell::RefCell<(Vec<i64>, Vec<f64>, Vec<String>)> = const { std::cell::RefCell::new((vec![], vec![], vec![])) };
}
fn feed(k: isize) -> isize { FEED.with(|f| f.borrow().0.get(k as usize).copied().unwrap_or(0) as isize) }
fn feedf(k: isize) -> ferlium::std::math::Float { ferlium::std::math::Float::new(FEED.with(|f| f.borrow().1.get(k as usize).copied().unwrap_or(0.0))).unwrap() }
fn feeds(k: isize) -> ferlium::std::string::String { ferlium::std::string::String::new(FEED.with(|f| f.borrow().2.get(k as usize).cloned().unwrap_or_default()).as_str()) }

pub fn host_module(id: ModuleId) -> Module {
    use PrimitiveEffect::*;
    let mut m = Module::new(id, Path::single_str("host"));
    m.add_function("emit".into(), UnaryNativeFnNN::description_with_default_ty(emit, ["x"], "log", effect(Write)));
    m.add_function("emits".into(), UnaryNativeFnRN::description_with_default_ty(emits, ["x"], "log", effect(Write)));
    m.add_function("sense".into(), UnaryNativeFnNN::description_with_default_ty(sense, ["k"], "read", effect(Read)));
    m.add_function("poke".into(), BinaryNativeFnNNN::description_with_default_ty(poke, ["k", "v"], "write", effect(Write)));
    m.add_function("swap".into(), BinaryNativeFnNNN::description_with_default_ty(swap, ["k", "v"], "swap", effects(&[Read, Write])));
    m.add_function("trip".into(), UnaryNativeFnNFN::description_with_default_ty(trip, ["x"], "fails below zero", effect(Fallible)));
    m.add_function("probe".into(), UnaryNativeFnNFN::description_with_default_ty(probe, ["x"], "fails below zero", effects(&[Write, Fallible])));
    m.add_function("tok_new".into(), UnaryNativeFnNN::description_with_default_ty(tok_new, ["p"], "new", effects(&[Read, Write])));
    m.add_function("tok_clone".into(), UnaryNativeFnNN::description_with_default_ty(tok_clone, ["id"], "clone hook", no_effects()));
    m.add_function("tok_drop".into(), UnaryNativeFnNN::description_with_default_ty(tok_drop, ["id"], "drop hook", no_effects()));
    m.add_function("tok_use".into(), UnaryNativeFnNN::description_with_default_ty(tok_use, ["id"], "use", effect(Read)));
    m.add_function("epi".into(), UnaryNativeFnNN::description_with_default_ty(epi, ["id"], "epilogue", effect(Write)));
    m.add_function("feed".into(), UnaryNativeFnNN::description_with_default_ty(feed, ["k"], "input", effect(Read)));
    m.add_function("feedf".into(), UnaryNativeFnNN::description_with_default_ty(feedf, ["k"], "input", effect(Read)));
    m.add_function("feeds".into(), UnaryNativeFnNN::description_with_default_ty(feeds, ["k"], "input", effect(Read)));
    m.add_function("nop".into(), NullaryNativeFnN::description_with_default_ty(|| (), [], "nothing", no_effects()));
    m
}

pub fn register(s: &mut CompilerSession) {
    let id = s.modules().next_id();
    s.register_module(Path::single_str("host"), host_module(id));
    crate::testing_mod::register(s);
}
