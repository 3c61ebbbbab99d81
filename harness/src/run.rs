//! A compiler session plus the execution modes, with outcomes observed at the host boundary.
use crate::host::{self, Ev};
use ferlium::{
    CompilationOutput, CompilerSession, ExecutionTarget, MirOptimization,
    execution::ReferenceInterpreterLimits,
    eval::RuntimeError,
    format::FormatWith,
    hir::value::Value,
    module::{LocalFunctionId, ModuleId, Path},
    std::{buffer::Buffer, math::Float},
    types::r#type::Type,
};
use std::panic::{AssertUnwindSafe, catch_unwind};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Mode { Hir, Mir, Opt }
pub const MODES: [Mode; 3] = [Mode::Hir, Mode::Mir, Mode::Opt];
impl Mode {
    pub fn target(self) -> ExecutionTarget {
        match self { Mode::Hir => ExecutionTarget::Hir, _ => ExecutionTarget::Mir }
    }
    pub fn opt(self) -> MirOptimization {
        match self { Mode::Opt => MirOptimization::Enabled, _ => MirOptimization::Disabled }
    }
    pub fn name(self) -> &'static str {
        match self { Mode::Hir => "HIR", Mode::Mir => "MIR", Mode::Opt => "optimized MIR" }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Res {
    /// Structural rendering of the value.
    Val(String),
    /// Source failure (kind as text).
    Fail(String),
    /// Second failure during cleanup: (initial, during cleanup).
    Cleanup(String),
    /// A resource limit of the sandbox was hit.
    Sandbox(String),
}
impl Res {
    pub fn show(&self) -> String {
        match self {
            Res::Val(v) => format!("value {v}"),
            Res::Fail(v) => format!("failure {v}"),
            Res::Cleanup(v) => format!("failure during cleanup {v}"),
            Res::Sandbox(v) => format!("sandbox violation {v}"),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Out {
    pub res: Res,
    pub log: Vec<Ev>,
    pub faults: Vec<String>,
    pub live: usize,
    pub reads: u64,
    pub writes: u64,
    pub clones: u64,
    pub drops: u64,
    pub cells: [isize; 4],
    pub props: String,
}
impl Out {
    pub fn host_log(&self) -> Vec<&Ev> { self.log.iter().filter(|e| e.is_host()).collect() }
}

/// Structural, type-free rendering. Arrays are shown by content, not by their ring-buffer layout.
pub fn render(v: &Value) -> String {
    let mut s = String::new();
    render_to(v, &mut s, 0);
    s
}
pub fn array_items(fields: &[Value]) -> Option<Vec<&Value>> {
    if fields.len() != 4 { return None }
    let buffer = fields[1].as_primitive_ty::<Buffer>()?;
    let len = usize::try_from(*fields[2].as_primitive_ty::<isize>()?).ok()?;
    let start = usize::try_from(*fields[3].as_primitive_ty::<isize>()?).ok()?;
    let cap = buffer.capacity();
    (0..len).map(|i| buffer.get(if cap == 0 { 0 } else { (start + i) % cap })).collect()
}
fn render_to(v: &Value, s: &mut String, depth: usize) {
    if depth > 200 || s.len() > 200_000 { s.push('…'); return }
    if v.as_primitive_ty::<()>().is_some() { s.push_str("()"); return }
    if let Some(b) = v.as_primitive_ty::<bool>() { s.push_str(&b.to_string()); return }
    if let Some(b) = v.as_primitive_ty::<isize>() { s.push_str(&b.to_string()); return }
    if let Some(b) = v.as_primitive_ty::<Float>() { s.push_str(&fmt_float(b.into_inner())); return }
    if let Some(b) = v.as_primitive_ty::<ferlium::std::string::String>() { s.push_str(&format!("{:?}", b.as_ref())); return }
    if let Some(b) = v.as_primitive_ty::<Buffer>() {
        s.push_str("buf[");
        for i in 0..b.capacity() { if i > 0 { s.push_str(", ") } if let Some(x) = b.get(i) { render_to(x, s, depth + 1) } }
        s.push(']');
        return
    }
    match v {
        Value::Uninit => s.push_str("<uninit>"),
        Value::Native(n) => { let t = format!("{n:?}"); s.push_str(&t) }
        Value::Tuple(t) => {
            if let Some(items) = array_items(t) {
                s.push('[');
                for (i, x) in items.into_iter().enumerate() { if i > 0 { s.push_str(", ") } render_to(x, s, depth + 1) }
                s.push(']');
                return
            }
            s.push('(');
            for (i, x) in t.iter().enumerate() { if i > 0 { s.push_str(", ") } render_to(x, s, depth + 1) }
            s.push(')');
        }
        Value::Variant { tag, .. } => {
            s.push_str(tag.as_str());
            if let Some(p) = v.variant_payload() {
                if !p.is_unit() && !p.as_tuple().is_some_and(|t| t.is_empty()) { s.push(' '); render_to(p, s, depth + 1) }
            }
        }
        Value::Function(_) => s.push_str("<function>"),
        Value::Subscript(_) => s.push_str("<subscript>"),
    }
}
pub fn fmt_float(f: f64) -> String { format!("{f:?}f") }

pub struct Sess {
    pub s: CompilerSession,
    pub cases: usize,
}
pub fn res_of(e: &RuntimeError) -> Res {
    if let Some(f) = e.source_failure() { return Res::Fail(format!("{:?}", f.kind())) }
    if let Some(f) = e.failure_during_cleanup() {
        return Res::Cleanup(format!("{:?} then {:?}", f.initial().kind(), f.during_cleanup().kind()))
    }
    Res::Sandbox(format!("{:?}", e.sandbox_violation().unwrap().kind()))
}
pub fn limits(fuel: usize) -> ReferenceInterpreterLimits {
    ReferenceInterpreterLimits::default().with_fuel_limit(Some(fuel))
}
impl Sess {
    pub fn new() -> Self {
        let mut s = CompilerSession::new();
        host::register(&mut s);
        s.set_allow_experimental(true);
        Sess { s, cases: 0 }
    }
    pub fn compile(&mut self, src: &str) -> Result<CompilationOutput, String> {
        self.cases += 1;
        let r = self.s.compile_for(ExecutionTarget::Hir, src, "<t>", Path::single_str("t"));
        r.map_err(|e| format!("{}", e.format_with(self.s.source_table())))
    }
    pub fn type_text(&self, m: ModuleId, t: Type) -> String { let env = self.s.modules().env_for(self.s.expect_fresh_module(m)); format!("{}", t.format_with(&env)) }
    pub fn ret_type(&self, m: ModuleId, f: LocalFunctionId) -> Type {
        self.s.expect_fresh_module(m).get_function_by_id(f).unwrap().definition.ty_scheme.ty.ret
    }
    pub fn run(&mut self, m: ModuleId, f: LocalFunctionId, mode: Mode, lim: ReferenceInterpreterLimits) -> Out {
        self.run_keep(m, f, mode, lim).0
    }
    /// As `run`, also handing back the value.
    pub fn run_keep(&mut self, m: ModuleId, f: LocalFunctionId, mode: Mode, lim: ReferenceInterpreterLimits) -> (Out, Option<Value>) {
        host::reset();
        self.s.set_mir_optimization(mode.opt());
        let r = self.s.run_entry_with_limits(mode.target(), m, f, vec![], lim);
        let (res, val) = match r {
            Ok(v) => (Res::Val(render(&v)), Some(v)),
            Err(e) => (res_of(&e), None),
        };
        host::HOST.with(|h| {
            let mut h = h.borrow_mut();
            (Out {
                res,
                log: std::mem::take(&mut h.log),
                faults: std::mem::take(&mut h.faults),
                live: h.live.len(),
                reads: h.reads,
                writes: h.writes,
                clones: h.clones,
                drops: h.drops,
                cells: h.cells,
                props: crate::testing_mod::fixture_state(),
            }, val)
        })
    }
    pub fn run_discard(&mut self, m: ModuleId, f: LocalFunctionId, mode: Mode, lim: ReferenceInterpreterLimits) -> Out {
        let (o, v) = self.run_keep(m, f, mode, lim);
        if let Some(v) = v { v.discard_storage() }
        o
    }
    pub fn to_text(&mut self, m: ModuleId, v: Value, ty: Type) -> Result<String, String> {
        self.s.value_to_string(m, v, ty).map_err(|e| format!("{e:?}"))
    }
}

thread_local! {
    static PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}
/// Install a hook that records the message and place of a panic instead of printing it.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { "<non-text panic>".into() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("VH_BACKTRACE").is_some() { eprintln!("panic at {loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture()); }
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{loc}: {msg}")));
    }));
}
/// Run `f`, turning a panic into its message.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
    })
}
