// run MODE FILE: compiles and runs one program (MODE: hir, mir or opt) and prints what it gave and
// what it told its host.
#![allow(deprecated)]
use ferlium::{
    CompilerSession, ExecutionTarget, MirOptimization,
    compiler::error::SourceFailureKind,
    execution::ReferenceInterpreterLimits,
    format::FormatWith,
    hir::function::{UnaryNativeFnNFN, UnaryNativeFnNN, UnaryNativeFnRN},
    module::{Module, Path},
    types::effects::{PrimitiveEffect, effect, effects, no_effects},
};
use std::cell::RefCell;
use std::collections::BTreeMap;
thread_local! {
    static LOG: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
    static TOK: RefCell<(isize, BTreeMap<isize, isize>)> = const { RefCell::new((0, BTreeMap::new())) };
}
fn log(s: String) { LOG.with(|l| l.borrow_mut().push(s)) }
fn emit(x: isize) { log(format!("{x}")) }
fn emits(x: &ferlium::std::string::String) { log(x.as_ref().to_string()) }
fn sense(x: isize) -> isize { log(format!("sense {x}")); x }
fn probe(x: isize) -> Result<isize, SourceFailureKind> {
    log(format!("probe {x}"));
    if x < 0 { Err(SourceFailureKind::Aborted(Some("probe".into()))) } else { Ok(x) }
}
fn tok_new(p: isize) -> isize { TOK.with(|t| { let mut t = t.borrow_mut(); t.0 += 1; let id = t.0; t.1.insert(id, p); id }) }
fn tok_use(id: isize) -> isize { TOK.with(|t| match t.borrow().1.get(&id) { Some(p) => *p, None => { log(format!("FAULT use {id}")); 0 } }) }
fn tok_clone(id: isize) -> isize { let p = tok_use(id); tok_new(p) }
fn tok_drop(id: isize) { if TOK.with(|t| t.borrow_mut().1.remove(&id)).is_none() { log(format!("FAULT drop {id}")) } }
fn main() {
    std::thread::Builder::new().stack_size(256 << 20).spawn(real).unwrap().join().unwrap();
}
fn real() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&a[2]).unwrap();
    let mut s = CompilerSession::new();
    s.set_allow_experimental(true);
    let id = s.modules().next_id();
    let mut m = Module::new(id, Path::single_str("host"));
    m.add_function("emit".into(), UnaryNativeFnNN::description_with_default_ty(emit, ["x"], "log", effect(PrimitiveEffect::Write)));
    m.add_function("emits".into(), UnaryNativeFnRN::description_with_default_ty(emits, ["x"], "log", effect(PrimitiveEffect::Write)));
    m.add_function("sense".into(), UnaryNativeFnNN::description_with_default_ty(sense, ["x"], "log", effect(PrimitiveEffect::Read)));
    m.add_function("probe".into(), UnaryNativeFnNFN::description_with_default_ty(probe, ["x"], "fails below zero", effects(&[PrimitiveEffect::Write, PrimitiveEffect::Fallible])));
    m.add_function("tok_new".into(), UnaryNativeFnNN::description_with_default_ty(tok_new, ["p"], "new", effects(&[PrimitiveEffect::Read, PrimitiveEffect::Write])));
    m.add_function("tok_use".into(), UnaryNativeFnNN::description_with_default_ty(tok_use, ["id"], "use", effect(PrimitiveEffect::Read)));
    m.add_function("tok_clone".into(), UnaryNativeFnNN::description_with_default_ty(tok_clone, ["id"], "clone", no_effects()));
    m.add_function("tok_drop".into(), UnaryNativeFnNN::description_with_default_ty(tok_drop, ["id"], "drop", no_effects()));
    s.register_module(Path::single_str("host"), m);
    let (t, o) = match a[1].as_str() {
        "hir" => (ExecutionTarget::Hir, MirOptimization::Disabled),
        "mir" => (ExecutionTarget::Mir, MirOptimization::Disabled),
        _ => (ExecutionTarget::Mir, MirOptimization::Enabled),
    };
    s.set_mir_optimization(o);
    let out = match s.compile_for(t, &src, "demo", Path::single_str("demo")) {
        Ok(o) => o,
        Err(e) => { println!("rejected: {}", format!("{}", e.format_with(s.source_table())).lines().next().unwrap_or("")); return }
    };
    let e = out.expr.expect("no expression");
    let ty = s.expect_fresh_module(out.module_id).get_function_by_id(e).unwrap().definition.ty_scheme.ty.ret;
    let lim = ReferenceInterpreterLimits::default().with_fuel_limit(Some(5_000_000));
    let shown = match s.run_entry_with_limits(t, out.module_id, e, vec![], lim) {
        Ok(v) => match s.value_to_string(out.module_id, v, ty) { Ok(t) => format!("value {t}"), Err(_) => "value ?".into() },
        Err(e) => match e.source_failure() { Some(f) => format!("failure {:?}", f.kind()), None => "other failure".into() },
    };
    let live = TOK.with(|t| t.borrow().1.len());
    println!("{shown}");
    LOG.with(|l| println!("host [{}]", l.borrow().join(", ")));
    println!("live {live}");
}
