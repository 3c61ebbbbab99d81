// Copied from the repository's own test harness so that snippets of its test suite can be used as
// seed programs: the host modules `testing`, `effects`, `props` and `deep::*`.
#![allow(dead_code, clippy::all)]
use ferlium::{
    CompilerSession, FxHashSet, Location,
    eval::{EvalControlFlowResult, EvalCtx, ValOrMut, cont},
    hir::function::{
        ArgConvention, BinaryNativeFnNNV, BinaryNativeFnRMN, BinaryNativeFnRRN, Callable,
        CallableDefinition, Function, NullaryNativeFnN, NullaryNativeFnV, UnaryNativeFnMN,
        UnaryNativeFnNN, UnaryNativeFnNV, UnaryNativeFnRN, UnaryNativeFnVN, UnaryNativeFnVV,
    },
    hir::value::{LiteralValue, NativeValueType, Value},
    module::{BlanketTraitImplSubKey, ELocalDecl, Module, ModuleEnv, ModuleFunction, ModuleId, Path, TraitId},
    std::core_traits_names::{ITERATOR_TRAIT_NAME, VALUE_TRAIT_NAME},
    std::{
        array::{array_type, array_value_from_vec},
        buffer::Buffer,
        logic::bool_type,
        math::int_type,
        string::string_type,
    },
    types::effects::{EffType, EffectVar, PrimitiveEffect, effect, effects, no_effects},
    types::r#trait::Trait,
    types::r#type::{FnType, Type, TypeDef, TypeDefProductDocs, TypeDefShapeDocs, TypeVar, variant_type},
    types::type_scheme::{PubTypeConstraint, TypeScheme},
};
use std::{cell::RefCell, sync::atomic::AtomicIsize};
use ustr::ustr;

fn ferlium_array_parts(value: &Value) -> Option<(&Buffer, usize, usize)> {
    let Value::Tuple(fields) = value else {
        return None;
    };
    if fields.len() != 4 {
        return None;
    }
    let buffer = fields[1].as_primitive_ty::<Buffer>()?;
    let len = usize::try_from(*fields[2].as_primitive_ty::<isize>()?).ok()?;
    let start = usize::try_from(*fields[3].as_primitive_ty::<isize>()?).ok()?;
    Some((buffer, len, start))
}

fn test_assoc_trait() -> Trait {
    Trait::new_with_self_input_type(
        "TestAssoc",
        "Test-only trait with one associated output type.",
        ["Output"],
        [(
            "project",
            CallableDefinition::new_infer_quantifiers(
                FnType::new_by_val([Type::variable_id(0)], Type::variable_id(1), no_effects()),
                ["value"],
                "Projects a test-only associated output type.",
            ),
        )],
    )
}

fn test_witnessed_project_trait() -> Trait {
    Trait::new_with_self_input_type(
        "TestWitnessedProject",
        "Test-only trait used to exercise structured trait improvement on a non-std trait name.",
        ["Output"],
        [(
            "witness_project",
            CallableDefinition::new_infer_quantifiers(
                FnType::new_by_val([Type::variable_id(0)], Type::variable_id(1), no_effects()),
                ["value"],
                "Projects the output witnessed by a constrained named type.",
            ),
        )],
    )
}

fn test_eff_trait() -> Trait {
    Trait::new_with_self_input_type(
        "TestEff",
        "Test-only trait with one associated output type and one output effect.",
        ["Output"],
        [(
            "eff_project",
            CallableDefinition::new_infer_quantifiers(
                FnType::new_by_val(
                    [Type::variable_id(0)],
                    Type::variable_id(1),
                    EffType::single_variable_id(0),
                ),
                ["value"],
                "Projects a test-only associated output type with a trait-determined effect.",
            ),
        )],
    )
    .with_output_effects(["E"])
}

fn test_eff_pair_trait() -> Trait {
    Trait::new_with_self_input_type(
        "TestEffPair",
        "Test-only trait with two output effect slots, each used by one method.",
        Vec::<&str>::new(),
        [
            (
                "eff_pair_first",
                CallableDefinition::new_infer_quantifiers(
                    FnType::new_by_val(
                        [Type::variable_id(0)],
                        int_type(),
                        EffType::single_variable_id(0),
                    ),
                    ["value"],
                    "Projects an int with the effect of the first slot.",
                ),
            ),
            (
                "eff_pair_second",
                CallableDefinition::new_infer_quantifiers(
                    FnType::new_by_val(
                        [Type::variable_id(0)],
                        int_type(),
                        EffType::single_variable_id(1),
                    ),
                    ["value"],
                    "Projects an int with the effect of the second slot.",
                ),
            ),
        ],
    )
    .with_output_effects(["E1", "E2"])
}

fn test_eff_join_trait() -> Trait {
    Trait::new_with_self_input_type(
        "TestEffJoin",
        "Test-only trait whose output effect is derived from multiple trait obligations.",
        Vec::<&str>::new(),
        [(
            "eff_join",
            CallableDefinition::new_infer_quantifiers(
                FnType::new_by_val(
                    [Type::variable_id(0)],
                    int_type(),
                    EffType::single_variable_id(0),
                ),
                ["value"],
                "Projects an int with the joined effect of the input.",
            ),
        )],
    )
    .with_output_effects(["E"])
}

fn option_type_def() -> TypeDef {
    TypeDef {
        name: ustr("Option"),
        doc: None,
        generic_params: vec![(ustr("T"), Location::new_synthesized())],
        generic_effect_params: vec![],
        shape: TypeScheme {
            ty_quantifiers: vec![TypeVar::new(0)],
            eff_quantifiers: FxHashSet::default(),
            ty: variant_type([
                ("None", Type::unit()),
                ("Some", Type::tuple([Type::variable_id(0)])),
            ]),
            constraints: vec![],
        },
        shape_docs: TypeDefShapeDocs::Enum(vec![]),
        span: Location::new_synthesized(),
        attributes: vec![],
        default_variant: None,
        has_custom_value_impl: false,
    }
}

fn map_iterator_type_def(iterator_trait: TraitId) -> TypeDef {
    TypeDef {
        name: ustr("MapIterator"),
        doc: None,
        generic_params: vec![
            (ustr("I"), Location::new_synthesized()),
            (ustr("T"), Location::new_synthesized()),
            (ustr("O"), Location::new_synthesized()),
        ],
        generic_effect_params: vec![],
        shape: TypeScheme {
            ty_quantifiers: vec![TypeVar::new(0), TypeVar::new(1), TypeVar::new(2)],
            eff_quantifiers: [EffectVar::new(0)].into_iter().collect(),
            ty: Type::record([
                (ustr("iterator"), Type::variable_id(0)),
                (
                    ustr("mapper"),
                    Type::function_by_val([Type::variable_id(1)], Type::variable_id(2)),
                ),
            ]),
            constraints: vec![PubTypeConstraint::new_have_trait(
                iterator_trait,
                vec![Type::variable_id(0)],
                vec![Type::variable_id(1)],
                vec![EffType::single_variable_id(0)],
                Location::new_synthesized(),
            )],
        },
        shape_docs: TypeDefShapeDocs::Struct(TypeDefProductDocs::Record(vec![])),
        span: Location::new_synthesized(),
        attributes: vec![],
        default_variant: None,
        has_custom_value_impl: false,
    }
}

fn witnessed_type_def(test_assoc_trait: TraitId) -> TypeDef {
    TypeDef {
        name: ustr("Witnessed"),
        doc: None,
        generic_params: vec![
            (ustr("Input"), Location::new_synthesized()),
            (ustr("Output"), Location::new_synthesized()),
        ],
        generic_effect_params: vec![],
        shape: TypeScheme {
            ty_quantifiers: vec![TypeVar::new(0), TypeVar::new(1)],
            eff_quantifiers: FxHashSet::default(),
            ty: Type::tuple([Type::variable_id(0)]),
            constraints: vec![PubTypeConstraint::new_have_trait(
                test_assoc_trait,
                vec![Type::variable_id(0)],
                vec![Type::variable_id(1)],
                vec![],
                Location::new_synthesized(),
            )],
        },
        shape_docs: TypeDefShapeDocs::Struct(TypeDefProductDocs::Tuple(vec![])),
        span: Location::new_synthesized(),
        attributes: vec![],
        default_variant: None,
        has_custom_value_impl: false,
    }
}

static TRACKED_CLONES: AtomicIsize = AtomicIsize::new(0);
static TRACKED_DROPS: AtomicIsize = AtomicIsize::new(0);

#[derive(Debug)]
pub struct CloneTrackedNative(isize);

impl NativeValueType for CloneTrackedNative {}

impl Clone for CloneTrackedNative {
    fn clone(&self) -> Self {
        TRACKED_CLONES.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        Self(self.0)
    }
}

fn make_clone_tracked() -> CloneTrackedNative {
    CloneTrackedNative(7)
}

fn clone_tracked_payload(value: &CloneTrackedNative) -> isize {
    value.0
}

fn reset_clone_tracked_clones() {
    TRACKED_CLONES.store(0, std::sync::atomic::Ordering::Relaxed);
}

fn clone_tracked_clone_count() -> isize {
    TRACKED_CLONES.load(std::sync::atomic::Ordering::Relaxed)
}

fn equal_clone_tracked(left: &CloneTrackedNative, right: &CloneTrackedNative) -> bool {
    left.0 == right.0
}

fn clone_tracked_to_string(value: &CloneTrackedNative) -> ferlium::std::string::String {
    ferlium::std::string::String::new(&format!("clone_tracked({})", value.0))
}

fn hash_clone_tracked(value: &CloneTrackedNative, state: &mut ferlium::std::hash::Hasher) {
    state.write_isize(value.0);
}

fn clone_clone_tracked(source: &CloneTrackedNative) -> CloneTrackedNative {
    source.clone()
}

fn drop_clone_tracked(_target: &mut CloneTrackedNative) {}

fn clone_tracked_value_clone_function() -> Function {
    Box::new(UnaryNativeFnRN::new(clone_clone_tracked)) as Function
}

fn clone_tracked_value_drop_function() -> Function {
    Box::new(UnaryNativeFnMN::new(drop_clone_tracked)) as Function
}

fn record_tracked_drop(value: isize) {
    // Wrapping arithmetic: the log accumulates across every test of the process until a test
    // resets it (wasm runs the whole suite in one process), so an unread log can exceed `isize`
    // — 32-bit on wasm. Tests that assert the log reset it first, and their short logs are exact.
    TRACKED_DROPS
        .fetch_update(
            std::sync::atomic::Ordering::Relaxed,
            std::sync::atomic::Ordering::Relaxed,
            |old| Some(old.wrapping_mul(10).wrapping_add(value)),
        )
        .unwrap();
}

fn reset_tracked_drops() {
    TRACKED_DROPS.store(0, std::sync::atomic::Ordering::Relaxed);
}

fn tracked_drop_log() -> isize {
    TRACKED_DROPS.load(std::sync::atomic::Ordering::Relaxed)
}

#[derive(Clone)]
struct ConstrainedNativeProbe;

impl Callable for ConstrainedNativeProbe {
    fn call(
        &self,
        args: Vec<ValOrMut>,
        _ctx: &mut EvalCtx,
        _locals: &[ELocalDecl],
    ) -> EvalControlFlowResult {
        let mut args = args.into_iter();
        assert!(matches!(args.next(), Some(ValOrMut::Dictionary(_))));
        match args.next() {
            Some(ValOrMut::Val(value)) => value.discard_storage(),
            Some(ValOrMut::Mut(_) | ValOrMut::Ref(_)) => {}
            Some(ValOrMut::Dictionary(_)) | None => panic!("expected one visible value argument"),
        }
        assert!(args.next().is_none());
        cont(Value::native(42isize))
    }

    fn visible_parameter_passing(&self) -> Option<&[ArgConvention]> {
        Some(&[ArgConvention::Let])
    }

    fn format_ind(
        &self,
        f: &mut std::fmt::Formatter,
        _locals: &[ELocalDecl],
        _env: &ModuleEnv<'_>,
        spacing: usize,
        indent: usize,
    ) -> std::fmt::Result {
        let indent_str = format!("{}{}", "  ".repeat(spacing), "⎸ ".repeat(indent));
        write!(f, "{indent_str}ConstrainedNativeProbe")
    }
}

fn testing_module(
    module_id: ModuleId,
    iterator_trait: TraitId,
    value_trait_id: TraitId,
    value_trait_def: &Trait,
) -> Module {
    let mut module = Module::new(module_id, Path::single_str("testing"));
    let test_assoc_trait = test_assoc_trait();
    let test_witnessed_project_trait = test_witnessed_project_trait();
    let test_assoc_trait_id = TraitId::new(module_id, module.add_trait(test_assoc_trait));
    let test_witnessed_project_trait_id =
        TraitId::new(module_id, module.add_trait(test_witnessed_project_trait));
    let option_type_def = option_type_def();
    let map_iterator_type_def = map_iterator_type_def(iterator_trait);
    let witnessed_type_def = witnessed_type_def(test_assoc_trait_id);
    module.add_concrete_impl_no_locals(
        test_assoc_trait_id,
        [string_type()],
        [int_type()],
        [],
        [
            Box::new(UnaryNativeFnRN::new(|_: &ferlium::std::string::String| {
                0isize
            })) as Function,
        ],
    );
    module.add_concrete_impl_no_locals(
        test_assoc_trait_id,
        [bool_type()],
        [string_type()],
        [],
        [Box::new(UnaryNativeFnNN::new(|value: bool| {
            ferlium::std::string::String::new(if value { "true" } else { "false" })
        })) as Function],
    );
    let option_type_def_id = module.add_type_def(option_type_def.name, option_type_def);
    module.add_type_def(map_iterator_type_def.name, map_iterator_type_def);
    let witnessed_type_def_id = module.add_type_def(witnessed_type_def.name, witnessed_type_def);
    module.add_blanket_impl_no_locals(
        test_witnessed_project_trait_id,
        BlanketTraitImplSubKey {
            input_tys: vec![Type::named(
                witnessed_type_def_id,
                [Type::variable_id(0), Type::variable_id(1)],
            )],
            ty_var_count: 2,
            eff_var_count: 0,
            constraints: vec![PubTypeConstraint::new_have_trait(
                test_assoc_trait_id,
                vec![Type::variable_id(0)],
                vec![Type::variable_id(1)],
                vec![],
                Location::new_synthesized(),
            )],
        },
        vec![Type::variable_id(1)],
        [],
        [Box::new(UnaryNativeFnVV::new(|_value: &Value| Value::unit())) as Function],
    );
    // Test trait with an output effect slot: a pure impl for int, an impl with
    // the read effect for bool, and a blanket impl over Option<T> forwarding
    // the effect of the inner type.
    let test_eff_trait_id = TraitId::new(module_id, module.add_trait(test_eff_trait()));
    module.add_concrete_impl_with_effects_no_locals(
        test_eff_trait_id,
        [int_type()],
        [int_type()],
        [no_effects()],
        [],
        [Box::new(UnaryNativeFnNN::new(|v: isize| v * 2)) as Function],
    );
    module.add_concrete_impl_with_effects_no_locals(
        test_eff_trait_id,
        [bool_type()],
        [int_type()],
        [effect(PrimitiveEffect::Read)],
        [],
        [Box::new(UnaryNativeFnNN::new(
            |v: bool| {
                if v { 1isize } else { 0isize }
            },
        )) as Function],
    );
    module.add_concrete_impl_with_effects_no_locals(
        test_eff_trait_id,
        [string_type()],
        [int_type()],
        [effect(PrimitiveEffect::Write)],
        [],
        [
            Box::new(UnaryNativeFnRN::new(|_: &ferlium::std::string::String| {
                0isize
            })) as Function,
        ],
    );
    module.add_blanket_impl_with_effects_no_locals(
        test_eff_trait_id,
        BlanketTraitImplSubKey {
            input_tys: vec![Type::named(option_type_def_id, [Type::variable_id(0)])],
            ty_var_count: 2,
            eff_var_count: 0,
            constraints: vec![PubTypeConstraint::new_have_trait(
                test_eff_trait_id,
                vec![Type::variable_id(0)],
                vec![Type::variable_id(1)],
                vec![EffType::single_variable_id(0)],
                Location::new_synthesized(),
            )],
        },
        vec![Type::variable_id(1)],
        vec![EffType::single_variable_id(0)],
        [],
        [Box::new(UnaryNativeFnVV::new(|_value: &Value| Value::unit())) as Function],
    );
    // Test trait with two output effect slots: the bool impl has different
    // effects in each slot, so any slot transposition swaps the methods'
    // effects and is caught by the tests.
    let test_eff_pair_trait_id = TraitId::new(module_id, module.add_trait(test_eff_pair_trait()));
    module.add_concrete_impl_with_effects_no_locals(
        test_eff_pair_trait_id,
        [bool_type()],
        [],
        [
            effect(PrimitiveEffect::Read),
            effect(PrimitiveEffect::Write),
        ],
        [],
        [
            Box::new(UnaryNativeFnNN::new(
                |v: bool| {
                    if v { 1isize } else { 0isize }
                },
            )) as Function,
            Box::new(UnaryNativeFnNN::new(
                |v: bool| {
                    if v { 2isize } else { 0isize }
                },
            )) as Function,
        ],
    );
    let test_eff_join_trait_id = TraitId::new(module_id, module.add_trait(test_eff_join_trait()));
    module.add_blanket_impl_with_effects_no_locals(
        test_eff_join_trait_id,
        BlanketTraitImplSubKey {
            input_tys: vec![Type::tuple([Type::variable_id(0), Type::variable_id(1)])],
            ty_var_count: 4,
            eff_var_count: 0,
            constraints: vec![
                PubTypeConstraint::new_have_trait(
                    test_eff_trait_id,
                    vec![Type::variable_id(0)],
                    vec![Type::variable_id(2)],
                    vec![EffType::single_variable_id(1)],
                    Location::new_synthesized(),
                ),
                PubTypeConstraint::new_have_trait(
                    test_eff_trait_id,
                    vec![Type::variable_id(1)],
                    vec![Type::variable_id(3)],
                    vec![EffType::single_variable_id(2)],
                    Location::new_synthesized(),
                ),
            ],
        },
        [],
        [EffType::single_variable_id(1).union(&EffType::single_variable_id(2))],
        [],
        [Box::new(UnaryNativeFnVN::new(|_value: &Value| 0isize)) as Function],
    );
    module.add_concrete_impl_for_trait_def_no_locals(
        value_trait_id,
        value_trait_def,
        [Type::primitive::<CloneTrackedNative>()],
        [],
        [
            LiteralValue::new_native(std::mem::size_of::<CloneTrackedNative>() as isize),
            LiteralValue::new_native(std::mem::align_of::<CloneTrackedNative>() as isize),
        ],
        [
            Box::new(BinaryNativeFnRRN::new(equal_clone_tracked)) as Function,
            Box::new(UnaryNativeFnRN::new(clone_tracked_to_string)) as Function,
            Box::new(BinaryNativeFnRMN::new(hash_clone_tracked)) as Function,
            clone_tracked_value_clone_function(),
            clone_tracked_value_drop_function(),
        ],
    );
    let generic_ty = Type::variable_id(0);
    module.add_function(
        "constrained_native_probe".into(),
        ModuleFunction::new_without_spans_nor_locals(
            CallableDefinition::new(
                TypeScheme::new_infer_quantifiers_with_constraints(
                    FnType::new_by_val([generic_ty], int_type(), no_effects()),
                    vec![PubTypeConstraint::new_have_trait(
                        value_trait_id,
                        vec![generic_ty],
                        vec![],
                        vec![],
                        Location::new_synthesized(),
                    )],
                ),
                vec![ustr("value")],
                Some(String::from(
                    "Test-only constrained native used to exercise first-class evidence capture.",
                )),
            ),
            Box::new(ConstrainedNativeProbe),
        ),
    );
    module.add_function(
        "some_int".into(),
        UnaryNativeFnNV::description_with_ty(
            |v: isize| Value::tuple_variant(ustr("Some"), [Value::native(v)]),
            ["option"],
            "Wraps an integer into an Option variant.",
            int_type(),
            Type::named(option_type_def_id, [int_type()]),
            no_effects(),
        ),
    );
    module.add_function(
        "some_bool".into(),
        UnaryNativeFnNV::description_with_ty(
            |v: bool| Value::tuple_variant(ustr("Some"), [Value::native(v)]),
            ["option"],
            "Wraps a boolean into an Option variant.",
            bool_type(),
            Type::named(option_type_def_id, [bool_type()]),
            no_effects(),
        ),
    );
    let pair_variant_type = variant_type([("Pair", Type::tuple([int_type(), int_type()]))]);
    module.add_function(
        "pair".into(),
        BinaryNativeFnNNV::description_with_ty(
            |a: isize, b: isize| {
                Value::tuple_variant(ustr("Pair"), [Value::native(a), Value::native(b)])
            },
            ["first", "second"],
            "Creates a Pair variant from two integers.",
            int_type(),
            int_type(),
            pair_variant_type,
            no_effects(),
        ),
    );
    module.add_function(
        "make_clone_tracked".into(),
        NullaryNativeFnN::description_with_default_ty(
            make_clone_tracked,
            [],
            "Creates a clone-counting native test value.",
            no_effects(),
        ),
    );
    module.add_function(
        "clone_tracked_payload".into(),
        UnaryNativeFnRN::description_with_default_ty(
            clone_tracked_payload,
            ["value"],
            "Returns the payload of a clone-counting native test value.",
            no_effects(),
        ),
    );
    module.add_function(
        "reset_clone_tracked_clones".into(),
        NullaryNativeFnN::description_with_default_ty(
            reset_clone_tracked_clones,
            [],
            "Resets the clone counter for clone-counting native test values.",
            effect(PrimitiveEffect::Write),
        ),
    );
    module.add_function(
        "clone_tracked_clone_count".into(),
        NullaryNativeFnN::description_with_default_ty(
            clone_tracked_clone_count,
            [],
            "Returns the clone counter for clone-counting native test values.",
            effect(PrimitiveEffect::Read),
        ),
    );
    module.add_function(
        "record_tracked_drop".into(),
        UnaryNativeFnNN::description_with_default_ty(
            record_tracked_drop,
            ["value"],
            // Declared pure because `Value::drop` is: the trait's method carries no effects, so an
            // impl that records the drop cannot declare one either. The folding pass does not
            // remove unit-returning calls, which is what keeps this instrumentation observable.
            "Records a dropped test value in the drop log.",
            no_effects(),
        ),
    );
    module.add_function(
        "reset_tracked_drops".into(),
        NullaryNativeFnN::description_with_default_ty(
            reset_tracked_drops,
            [],
            "Resets the tracked drop log.",
            effect(PrimitiveEffect::Write),
        ),
    );
    module.add_function(
        "tracked_drop_log".into(),
        NullaryNativeFnN::description_with_default_ty(
            tracked_drop_log,
            [],
            "Returns the tracked drop log.",
            effect(PrimitiveEffect::Read),
        ),
    );
    module
}

/// The natives above that touch the process-global counters declare `Read` or `Write`
/// accordingly, and must keep doing so. A native declaring neither is *asserted* by its host to be
/// pure and deterministic, and the compiler may then execute it at compile time — zero times, once,
/// or many (see `doc/runtime-sandboxing.md`). A drop counter declared pure gets folded to whatever
/// it happened to read during compilation.
fn test_effect_module(module_id: ModuleId) -> Module {
    let mut module = Module::new(module_id, Path::single_str("effects"));
    module.add_function(
        "read".into(),
        NullaryNativeFnN::description_with_default_ty(
            || (),
            [],
            "Performs a read effect.",
            effect(PrimitiveEffect::Read),
        ),
    );
    module.add_function(
        "write".into(),
        NullaryNativeFnN::description_with_default_ty(
            || (),
            [],
            "Performs a write effect.",
            effect(PrimitiveEffect::Write),
        ),
    );
    module.add_function(
        "read_write".into(),
        NullaryNativeFnN::description_with_default_ty(
            || (),
            [],
            "Performs both read and write effects.",
            effects(&[PrimitiveEffect::Read, PrimitiveEffect::Write]),
        ),
    );
    module.add_function(
        "take_read".into(),
        UnaryNativeFnVN::description_with_in_ty(
            |_value: &Value| (),
            ["value"],
            "Takes a first-class function that performs a read effect, and fake call it.",
            Type::function_type(FnType::new(
                vec![],
                Type::unit(),
                effect(PrimitiveEffect::Read),
            )),
            effect(PrimitiveEffect::Read),
        ),
    );
    module
}

static INT_PROPERTY_VALUE: AtomicIsize = AtomicIsize::new(0);

pub fn set_property_value(value: isize) {
    INT_PROPERTY_VALUE.store(value, std::sync::atomic::Ordering::Relaxed);
}

pub fn get_property_value() -> isize {
    INT_PROPERTY_VALUE.load(std::sync::atomic::Ordering::Relaxed)
}

thread_local! {
    static INT_ARRAY_PROPERTY_VALUE: RefCell<Vec<isize>> = const { RefCell::new(Vec::new()) };
}

pub fn get_array_property_value() -> Value {
    INT_ARRAY_PROPERTY_VALUE.with(|cell| int_vec_to_array_value(&cell.borrow()))
}

fn get_array_property_value_value() -> Value {
    get_array_property_value()
}

fn set_array_property_value_value_ref(value: &Value) {
    INT_ARRAY_PROPERTY_VALUE.with(|cell| *cell.borrow_mut() = int_vec_from_array_value(value));
}
fn int_vec_to_array_value(value: &[isize]) -> Value {
    let values = value.iter().copied().map(Value::native).collect::<Vec<_>>();
    array_value_from_vec(values)
}

fn int_vec_from_array_value(value: &Value) -> Vec<isize> {
    let (buffer, len, start) =
        ferlium_array_parts(value).expect("test property my_array only stores arrays");
    let mut result = Vec::with_capacity(len);
    for index in 0..len {
        let physical = if buffer.capacity() == 0 {
            0
        } else {
            (start + index) % buffer.capacity()
        };
        let item = *buffer
            .get(physical)
            .unwrap()
            .as_primitive_ty::<isize>()
            .expect("test property my_array only stores ints");
        result.push(item);
    }
    result
}

fn test_property_module(module_id: ModuleId) -> Module {
    let mut module = Module::new(module_id, Path::single_str("props"));
    module.add_function(
        "@get my_scope.my_var".into(),
        NullaryNativeFnN::description_with_default_ty(
            get_property_value,
            [],
            "Gets the value of my_scope.my_var.",
            effect(PrimitiveEffect::Read),
        ),
    );
    module.add_function(
        "@set my_scope.my_var".into(),
        UnaryNativeFnNN::description_with_default_ty(
            set_property_value,
            ["value"],
            "Sets the value of my_scope.my_var.",
            effect(PrimitiveEffect::Write),
        ),
    );
    module.add_function(
        "@get my_scope.my_array".into(),
        NullaryNativeFnV::description_with_ty(
            get_array_property_value_value,
            [],
            "Gets the value of my_scope.my_array.",
            array_type(int_type()),
            effect(PrimitiveEffect::Read),
        ),
    );
    module.add_function(
        "@set my_scope.my_array".into(),
        UnaryNativeFnVN::description_with_in_ty(
            set_array_property_value_value_ref,
            ["value"],
            "Sets the value of my_scope.my_array.",
            array_type(int_type()),
            effect(PrimitiveEffect::Write),
        ),
    );
    module
}

macro_rules! ferlium {
    ($name:expr, $file:literal) => {
        ($name, $file, include_str!($file))
    };
}

fn add_deep_modules(session: &mut CompilerSession) {
    for (name, file, code) in [
        ferlium!("deep::level1", "deep_module1.fer"),
        ferlium!("deep::deeper::level2", "deep_module2.fer"),
    ] {
        let path = Path::new(name.split("::").map(ustr).collect());
        session.compile(code, file, path).unwrap();
    }
}

pub fn reset_fixtures() {
    set_property_value(3);
    INT_ARRAY_PROPERTY_VALUE.with(|cell| *cell.borrow_mut() = vec![1, 2, 3]);
    reset_tracked_drops();
    reset_clone_tracked_clones();
}
pub fn fixture_state() -> String {
    format!("{} {:?}", get_property_value(), INT_ARRAY_PROPERTY_VALUE.with(|cell| cell.borrow().clone()))
}
pub fn register(s: &mut CompilerSession) {
    let it = s.std_module().get_trait_id_str(ITERATOR_TRAIT_NAME).unwrap();
    let vt = s.std_module().get_trait_id_str(VALUE_TRAIT_NAME).unwrap();
    let m = testing_module(s.modules().next_id(), it, vt, s.std_module().trait_def(vt));
    s.register_module(Path::single_str("testing"), m);
    let id = s.modules().next_id();
    s.register_module(Path::single_str("effects"), test_effect_module(id));
    let id = s.modules().next_id();
    s.register_module(Path::single_str("props"), test_property_module(id));
    add_deep_modules(s);
}
