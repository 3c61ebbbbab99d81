From 28b083dd590a23d070014b88921220eeef78fce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 01/33] fix: resolve f-string interpolations of variables
 captured by a closure

---
 src/desugar/expr.rs | 8 ++++----
 src/desugar/mod.rs  | 1 -
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/desugar/expr.rs b/src/desugar/expr.rs
index 922a151..5144a1f 100644
--- a/src/desugar/expr.rs
+++ b/src/desugar/expr.rs
@@ -178,12 +178,12 @@ pub(crate) fn desugar(
         )?),
         Abstract(data) => {
             let AbstractData { args, body } = *data;
-            // we swap the locals with the lambda arguments, as we do not capture the outer scope
-            let mut other_vars = args.iter().map(|(name, _)| *name).collect::<Vec<_>>();
-            mem::swap(&mut other_vars, &mut ctx.locals);
+            // The body sees the lambda arguments on top of the captured outer scope.
+            let env_size = ctx.locals.len();
+            ctx.locals.extend(args.iter().map(|(name, _)| *name));
             let body = desugar(body, ctx, parsed_arena, desugared_arena, modules_used)?;
             let result = ExprKind::abstract_(args, body);
-            mem::swap(&mut other_vars, &mut ctx.locals);
+            ctx.locals.truncate(env_size);
             result
         }
         Apply(data) => {
diff --git a/src/desugar/mod.rs b/src/desugar/mod.rs
index 85b94ca..5abf519 100644
--- a/src/desugar/mod.rs
+++ b/src/desugar/mod.rs
@@ -7,7 +7,6 @@
 // Unless required by applicable law or agreed to in writing, software distributed under the License is distributed on an "AS IS" BASIS, WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied. See the License for the specific language governing permissions and limitations under the License.
 //
 use itertools::process_results;
-use std::mem;
 
 mod import_resolver;
 
-- 
2.43.0


From bea212f77bb70f0b8b0e51265e259e9c577b8f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 02/33] fix: type a record variant pattern that only has a
 wildcard as having a payload

---
 src/hir/match.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hir/match.rs b/src/hir/match.rs
index 2fba41b..890903f 100644
--- a/src/hir/match.rs
+++ b/src/hir/match.rs
@@ -284,7 +284,7 @@ impl TypeInference {
                             .collect::<Result<Vec<_>, _>>()?;
                         // Process the inner types
                         let (inner_tys, variant_inner_ty) = match named_vars.len() {
-                            0 => (vec![], Type::unit()),
+                            0 if !has_wildcard => (vec![], Type::unit()),
                             n => {
                                 let inner_tys = self.fresh_type_var_tys(n);
                                 let variant_inner_ty = if kind.is_tuple() {
-- 
2.43.0


From bcfa0c3ba0fa59e1f17d9a12a5045c4d76cab4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:22 +0000
Subject: [PATCH 03/33] fix: do not evaluate calls with effectful function
 arguments at compile time

---
 src/mir/const_eval.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/mir/const_eval.rs b/src/mir/const_eval.rs
index f817643..f2bca88 100644
--- a/src/mir/const_eval.rs
+++ b/src/mir/const_eval.rs
@@ -264,6 +264,15 @@ impl<'a> ConstEvaluator<'a> {
             ConstArgument::discard_all(arguments);
             return Err(NotFoldable::NoBody);
         }
+        // The call-site effects may leave out what a known function argument does when the callee
+        // calls it, so such a function has to be evaluable at compile time on its own account.
+        if !arguments
+            .iter()
+            .all(|argument| self.argument_allows_const_eval(argument))
+        {
+            ConstArgument::discard_all(arguments);
+            return Err(NotFoldable::Effectful);
+        }
 
         // A fresh interpreter per attempt is what makes compile-time evaluation isolated: its
         // environment and its poisoning state die with it. Bodies come from the raw stage, since
@@ -286,6 +295,20 @@ impl<'a> ConstEvaluator<'a> {
             .map_err(classify)
     }
 
+    /// Whether calling this argument, if it is a function, is allowed at compile time.
+    fn argument_allows_const_eval(&self, argument: &ConstArgument) -> bool {
+        let ConstArgument::Value(Value::Function(function)) = argument else {
+            return true;
+        };
+        let id = function.function;
+        self.session
+            .expect_fresh_module(id.module)
+            .get_function_by_id(id.function)
+            .is_some_and(|function| {
+                effects_allow_const_eval(&function.definition.ty_scheme.ty.effects)
+            })
+    }
+
     /// Whether the compiler can run this callee at all: a script function needs a lowered body, a
     /// native needs none.
     fn callee_has_body(&self, callee: FunctionId) -> bool {
-- 
2.43.0


From 8a1f05ae85b463e9d8cd8108bd5e03df457b41ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:22 +0000
Subject: [PATCH 04/33] fix: clean up closure-call locals instead of asserting
 the environment length

---
 src/hir/function.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/hir/function.rs b/src/hir/function.rs
index 8e94774..b134634 100644
--- a/src/hir/function.rs
+++ b/src/hir/function.rs
@@ -590,15 +590,10 @@ impl Callable for ScriptFunction {
 
         ctx.call_depth -= 1;
         if ret.is_ok() {
+            // As at the end of a block, slots of locals that own nothing may still be filled.
             let expected_len = ctx.frame_base + arg_count;
-            if ctx.environment.len() > expected_len
-                && ctx.environment[expected_len..]
-                    .iter()
-                    .all(|entry| matches!(entry, ValOrMut::Val(Value::Uninit)))
-            {
-                ctx.truncate_environment_storage(expected_len);
-            }
-            assert_eq!(ctx.environment.len(), expected_len);
+            let span = arena[self.entry_node_id].span;
+            ctx.assert_no_owned_local_leaks_before_truncate(locals_arg, expected_len, span);
         }
         ctx.truncate_environment_storage(ctx.frame_base);
         ctx.frame_base = old_frame_base;
-- 
2.43.0


From 42b8cffcd811f63d95143679d41565bf55e8a090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:22 +0000
Subject: [PATCH 05/33] fix: do not accumulate strings in place across a stack
 restore

---
 src/mir/pass/string_accumulate.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mir/pass/string_accumulate.rs b/src/mir/pass/string_accumulate.rs
index 8e7d7dd..43f3d63 100644
--- a/src/mir/pass/string_accumulate.rs
+++ b/src/mir/pass/string_accumulate.rs
@@ -311,6 +311,14 @@ fn plan_static_append(
     {
         return None;
     }
+    // The append will read the static text, whose slot must not have been released by then.
+    let between = materialization.index.as_index()..push.index.as_index();
+    if func.block(push.block).operations()[between]
+        .iter()
+        .any(|operation| matches!(operation.kind, OperationKind::StackRestore))
+    {
+        return None;
+    }
     Some(StaticAppend {
         materialization,
         push,
-- 
2.43.0


From 0bbe795b93ee6cb2f64b7e4b4fd468811c6e76d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:10 +0000
Subject: [PATCH 06/33] fix: let MIR value reads see through loaded place
 pointers

---
 src/mir/interpreter.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mir/interpreter.rs b/src/mir/interpreter.rs
index e486d6a..d78b56e 100644
--- a/src/mir/interpreter.rs
+++ b/src/mir/interpreter.rs
@@ -2503,7 +2503,16 @@ impl<'a> Interpreter<'a> {
                         .target_ref(&self.ctx)
                         .expect("operand is an invalid open projection"),
                 ),
-                Some(Binding::Value(value)) => use_value(value),
+                // A loaded place pointer designates its value, as in `place_operand`.
+                Some(Binding::Value(value)) => match value.as_primitive_ty::<PlaceResult>() {
+                    Some(result) => use_value(
+                        result
+                            .place()
+                            .target_ref(&self.ctx)
+                            .expect("operand is an invalid place"),
+                    ),
+                    None => use_value(value),
+                },
                 Some(Binding::StackMarker(_)) => {
                     panic!("expected a value but {operand} is bound to a stack marker")
                 }
-- 
2.43.0


From c6f3af1a49414b46692a57bc8210188cefe5df35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:10 +0000
Subject: [PATCH 07/33] fix: do not leak temporaries of dictionary calls in the
 tree interpreter

---
 src/eval.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eval.rs b/src/eval.rs
index 89d9eed..1b8fda3 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -1996,6 +1996,9 @@ fn eval_call_dictionary_function_with(
     eval_args_fn: EvalArgsFn,
 ) -> EvalControlFlowResult {
     let dictionary = eval_or_return!(eval_dictionary_metadata_node(arena, node.dictionary, ctx));
+    // As in `eval_resolved_runtime_call_with_args`, keep caller-frame temporaries that argument
+    // evaluation initializes out of the scratch space truncated after the call.
+    ctx.reserve_current_frame_slots(locals);
     let temp_start = ctx.environment.len();
     let mut arguments = eval_or_return!(eval_args_fn(
         arena,
-- 
2.43.0


From 4364f05384f2979a80b27607d94c91a6923306f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:10 +0000
Subject: [PATCH 08/33] fix: do not move outer locals out when breaking from a
 loop with their value

---
 src/types/type_inference/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/type_inference/expr.rs b/src/types/type_inference/expr.rs
index 971d4c7..84619b7 100644
--- a/src/types/type_inference/expr.rs
+++ b/src/types/type_inference/expr.rs
@@ -1954,7 +1954,7 @@ impl TypeInference {
             Loop(data) => {
                 let label = self.fresh_loop_id();
                 let result_ty = self.fresh_type_var();
-                let local_scope_start = env.cur_locals.len();
+                let local_scope_start = env.all_locals.len();
                 env.loop_frames.push(LoopFrame::new(
                     label,
                     data.label,
-- 
2.43.0


From 0646e245b95d4efeac6e568ef02a12f87f629c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:17 +0000
Subject: [PATCH 09/33] fix: captured locals do not own the closure
 environment's storage

---
 src/types/type_inference/expr.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/types/type_inference/expr.rs b/src/types/type_inference/expr.rs
index 84619b7..8b07337 100644
--- a/src/types/type_inference/expr.rs
+++ b/src/types/type_inference/expr.rs
@@ -43,11 +43,11 @@ use crate::{
     },
     internal_compilation_error,
     module::{
-        DeferredLocalStorage, FunctionId, LocalAssignmentMode, LocalDecl, LocalDeclId, ModuleEnv,
-        ModuleFunctionSpans, PendingFunctionBody, PendingLocalClone, PendingLocalDrop,
-        PendingModuleFunction, PendingTakeLocalValueMode, ProjectionIndex, ProjectionKey,
-        ResolvedLocalDrop, SubscriptId, SubscriptMember, SubscriptMemberKind, TraitId,
-        TypeDefLookupResult, YieldProvenance, id::Id,
+        DeferredLocalStorage, FunctionId, LocalAssignmentMode, LocalDecl, LocalDeclId,
+        LocalStorage, ModuleEnv, ModuleFunctionSpans, PendingFunctionBody, PendingLocalClone,
+        PendingLocalDrop, PendingModuleFunction, PendingTakeLocalValueMode, ProjectionIndex,
+        ProjectionKey, ResolvedLocalDrop, SubscriptId, SubscriptMember, SubscriptMemberKind,
+        TraitId, TypeDefLookupResult, YieldProvenance, id::Id,
     },
     parser::location::Location,
     std::{
@@ -606,6 +606,8 @@ impl TypeInference {
                 capture_tys.push(local.ty);
                 let mut inner_local = local.clone();
                 inner_local.scope = span; // the local's scope is the whole lambda
+                // The closure environment owns the captured value, the body only views it.
+                inner_local.storage = LocalStorage::NonOwning;
                 let inner_id = LocalDecl::push_with_next_slot(&mut fn_all_locals, inner_local);
                 capture_args.push(inner_id);
             }
-- 
2.43.0


From 0e7a4ad86aece55ce93768dd119f7131c8d23d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:56 +0000
Subject: [PATCH 10/33] fix: mark the calls of derived serialization code as
 fallible

---
 src/hir/value_dispatch.rs | 28 ++++++++++++++++++++++++++--
 src/std/serde.rs          | 22 ++++++++++++++--------
 2 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/hir/value_dispatch.rs b/src/hir/value_dispatch.rs
index 6514f1f..d2c1404 100644
--- a/src/hir/value_dispatch.rs
+++ b/src/hir/value_dispatch.rs
@@ -222,9 +222,33 @@ pub(crate) fn static_apply_generated_with_locals(
     arguments: impl IntoIterator<Item = (NodeId, Type)>,
     ret_ty: Type,
     span: Location,
+) -> Result<NodeId, InternalCompilationError> {
+    static_apply_generated_with_effects(
+        arena,
+        locals,
+        trait_solver,
+        function,
+        arguments,
+        ret_ty,
+        EffType::empty(),
+        span,
+    )
+}
+
+/// Same as [`static_apply_generated_with_locals`], for a callee performing `effects`.
+#[allow(clippy::too_many_arguments)]
+pub(crate) fn static_apply_generated_with_effects(
+    arena: &mut NodeArena,
+    locals: &mut Vec<LocalDecl>,
+    trait_solver: &mut TraitSolver<'_>,
+    function: FunctionId,
+    arguments: impl IntoIterator<Item = (NodeId, Type)>,
+    ret_ty: Type,
+    effects: EffType,
+    span: Location,
 ) -> Result<NodeId, InternalCompilationError> {
     let (mut arguments, args_tys): (Vec<_>, Vec<_>) = arguments.into_iter().unzip();
-    let fn_ty = FnType::new_by_val(args_tys, ret_ty, EffType::empty());
+    let fn_ty = FnType::new_by_val(args_tys, ret_ty, effects.clone());
     let prepared = prepare_generated_call_arguments_with_locals(
         arena,
         locals,
@@ -242,7 +266,7 @@ pub(crate) fn static_apply_generated_with_locals(
             span,
         ),
         ret_ty,
-        EffType::empty(),
+        effects,
         span,
     ));
 
diff --git a/src/std/serde.rs b/src/std/serde.rs
index f49154b..fab231a 100644
--- a/src/std/serde.rs
+++ b/src/std/serde.rs
@@ -21,7 +21,7 @@ use crate::{
         function::CallableDefinition,
         value_dispatch::{
             materialize_static_string, prepare_generated_call_arguments_with_locals,
-            static_apply_generated_with_locals,
+            static_apply_generated_with_effects,
         },
     },
     module::{
@@ -88,13 +88,14 @@ fn build_serialize_projection(
         span,
         arena,
     )?;
-    static_apply_generated_with_locals(
+    static_apply_generated_with_effects(
         arena,
         locals,
         solver,
         function,
         [(project_node, member_ty)],
         data_value_type(),
+        EffType::single_primitive(PrimitiveEffect::Fallible),
         span,
     )
 }
@@ -386,13 +387,14 @@ impl Deriver for AlgebraicTypeDeserializeDeriver {
                                  ty: Type| {
             let function =
                 solver.solve_impl_method(trait_id, &[ty], TraitMethodIndex::new(0), span, arena)?;
-            static_apply_generated_with_locals(
+            static_apply_generated_with_effects(
                 arena,
                 locals,
                 solver,
                 function,
                 [(data, data_value_type())],
                 ty,
+                EffType::single_primitive(PrimitiveEffect::Fallible),
                 Location::new_synthesized(),
             )
         };
@@ -493,7 +495,7 @@ impl Deriver for AlgebraicTypeDeserializeDeriver {
                             FnArgType::new_by_val(int_type()),
                         ],
                         data_value_ty,
-                        EffType::empty(),
+                        EffType::single_primitive(PrimitiveEffect::Fallible),
                     );
                     let mut arguments = arguments;
                     let prepared = prepare_generated_call_arguments_with_locals(
@@ -598,13 +600,14 @@ impl Deriver for AlgebraicTypeDeserializeDeriver {
                         span,
                         arena,
                     )?;
-                    static_apply_generated_with_locals(
+                    static_apply_generated_with_effects(
                         arena,
                         &mut locals,
                         solver,
                         function,
                         [(get_entry, data_value_type())],
                         ty,
+                        EffType::single_primitive(PrimitiveEffect::Fallible),
                         Location::new_synthesized(),
                     )
                 })
@@ -773,13 +776,14 @@ fn build_panic(
 
     let build_string = materialize_static_string(arena, locals, solver, message, span)?;
     let function = solver.get_function(span, &module::Path::single_str("std"), ustr("panic"))?;
-    static_apply_generated_with_locals(
+    static_apply_generated_with_effects(
         arena,
         locals,
         solver,
         function,
         [(build_string, string_type())],
         Type::never(),
+        EffType::single_primitive(PrimitiveEffect::Fallible),
         span,
     )
 }
@@ -854,13 +858,14 @@ fn build_data_value_to_x(
         &module::Path::single_str("std"),
         ustr(&format!("data_value_to_{what}")),
     )?;
-    static_apply_generated_with_locals(
+    static_apply_generated_with_effects(
         arena,
         locals,
         solver,
         function,
         [(data_value_node, data_value_type())],
         ret_ty,
+        EffType::single_primitive(PrimitiveEffect::Fallible),
         span,
     )
 }
@@ -885,13 +890,14 @@ fn build_expect_data_value_record_entry(
         &module::Path::single_str("std"),
         ustr("expect_data_value_record_entry"),
     )?;
-    static_apply_generated_with_locals(
+    static_apply_generated_with_effects(
         arena,
         locals,
         solver,
         function,
         [(fields, payload_ty), (name_node, string_type())],
         data_value_type(),
+        EffType::single_primitive(PrimitiveEffect::Fallible),
         span,
     )
 }
-- 
2.43.0


From 0849b258876c691f06b0bed7be5dcaf5132ee6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:18 +0000
Subject: [PATCH 11/33] fix: give a program ending in an aliasing let its unit
 result

---
 src/emit_mir.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/emit_mir.rs b/src/emit_mir.rs
index a62e4a3..f840871 100644
--- a/src/emit_mir.rs
+++ b/src/emit_mir.rs
@@ -2115,6 +2115,9 @@ impl<'a> Emitter<'a> {
                 if !self.local_declaration(n.id).owns_storage() {
                     let aliasee = self.lower_as_place(&self.hir_arena[n.value]);
                     self.context.locals.insert(n.id, aliasee);
+                    if destination.is_some() && self.hir_arena[n.value].ty != Type::never() {
+                        self.store_unit_result(node.span, destination);
+                    }
                     return;
                 }
                 let clone = self.local_declaration(n.id).clone;
-- 
2.43.0


From 4a3c055a6ef942bccb9f79383512d2755269cf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:38 +0000
Subject: [PATCH 12/33] fix: clone a value read through nested yielded
 projections

---
 src/types/type_inference/expr.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/types/type_inference/expr.rs b/src/types/type_inference/expr.rs
index 8b07337..fa6a833 100644
--- a/src/types/type_inference/expr.rs
+++ b/src/types/type_inference/expr.rs
@@ -4821,7 +4821,7 @@ impl TypeInference {
         span: Location,
     ) -> NodeId {
         if let NodeKind::WithYielded(mut node) = env.ir_arena[value].kind.clone()
-            && node_is_place_reference(env.ir_arena, node.body)
+            && Self::yielded_body_is_place(env.ir_arena, node.body)
         {
             node.body = self.materialize_owned_value(env, node.body, span);
             let ty = env.ir_arena[value].ty;
@@ -4860,6 +4860,14 @@ impl TypeInference {
         self.materialize_owned_stable_place(env, value, span)
     }
 
+    /// Whether the innermost body of (possibly nested) yielded projections is a place.
+    fn yielded_body_is_place(arena: &NodeArena, body: NodeId) -> bool {
+        match &arena[body].kind {
+            NodeKind::WithYielded(node) => Self::yielded_body_is_place(arena, node.body),
+            _ => node_is_place_reference(arena, body),
+        }
+    }
+
     fn node_is_scoped_place_value(arena: &NodeArena, node_id: NodeId) -> bool {
         match &arena[node_id].kind {
             NodeKind::WithYielded(node) => node_is_place_reference(arena, node.body),
-- 
2.43.0


From 99af9714d39ad020db3017d07d4bc0a3c59d8185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:38 +0000
Subject: [PATCH 13/33] fix: a redefined place also redefines its untracked
 parts in the relational analysis

---
 src/mir/pass/relations.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/mir/pass/relations.rs b/src/mir/pass/relations.rs
index b7a62fb..d11e86c 100644
--- a/src/mir/pass/relations.rs
+++ b/src/mir/pass/relations.rs
@@ -528,8 +528,9 @@ pub(crate) struct State {
     /// definition that minted it, so that reading a slot is one lookup on a word key instead of a
     /// lookup followed by an interning of a composite name.
     ///
-    /// A place absent from here has never been written in this function, and takes
-    /// [`DefSite::Entry`].
+    /// A place absent from here has not been written since its nearest tracked ancestor was, and
+    /// takes that ancestor's definition; without one it has never been written in this function, and
+    /// takes [`DefSite::Entry`].
     current: FxHashMap<PlaceId, SymbolId>,
     /// What is known about a symbol. A symbol absent from here is an unknown quantity, which is
     /// still a quantity: it can be named, and two uses of it are the same value.
@@ -542,10 +543,22 @@ pub(crate) struct State {
 impl State {
     /// The symbol a place's current contents are.
     pub(crate) fn symbol_of(&self, place: PlaceId, interner: &mut Interner) -> SymbolId {
-        match self.current.get(&place) {
-            Some(symbol) => *symbol,
-            None => interner.symbol(Symbol::Stored(place, DefSite::Entry)),
+        if let Some(symbol) = self.current.get(&place) {
+            return *symbol;
         }
+        // Whatever last defined an enclosing slot as a whole also defined this one.
+        let mut def = DefSite::Entry;
+        let mut ancestor = place;
+        while let Some(above) = interner.places.parent(ancestor) {
+            ancestor = above;
+            if let Some(symbol) = self.current.get(&above) {
+                if let Symbol::Stored(_, site) = interner.symbols.name(*symbol) {
+                    def = *site;
+                }
+                break;
+            }
+        }
+        interner.symbol(Symbol::Stored(place, def))
     }
 
     pub(crate) fn fact(&self, symbol: SymbolId) -> Option<&Fact> {
-- 
2.43.0


From 6d21e58d5d50af1dc101fdaa3a65aa45e59ca72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:47 +0000
Subject: [PATCH 14/33] fix: do not fold reads of an array across a write
 through an element's place

---
 src/mir/pass/dataflow.rs  |  5 ++++-
 src/mir/pass/relations.rs | 15 ++++++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/mir/pass/dataflow.rs b/src/mir/pass/dataflow.rs
index d90afdc..0686e7b 100644
--- a/src/mir/pass/dataflow.rs
+++ b/src/mir/pass/dataflow.rs
@@ -873,8 +873,11 @@ pub(crate) fn escaping_roots(
                 // does change is its result place, which the transfer function kills. Anything the
                 // callee may write through — a `MutableRef` argument — escapes.
                 Some(call) => {
+                    // A place a call returns may lie inside any argument it was given, whatever
+                    // that argument's convention, and be written through later.
+                    let returns_place = ty.returns_place();
                     for (operand, convention) in &call.arguments {
-                        if matches!(convention, ArgConvention::MutableRef)
+                        if (returns_place || matches!(convention, ArgConvention::MutableRef))
                             && !mutations_modelled(operation)
                         {
                             escape_operand(operand, escaped);
diff --git a/src/mir/pass/relations.rs b/src/mir/pass/relations.rs
index d11e86c..638c3fe 100644
--- a/src/mir/pass/relations.rs
+++ b/src/mir/pass/relations.rs
@@ -953,7 +953,20 @@ pub(crate) fn analyze(
     // what the transfer function does. Folding cannot say either, which is why it escapes both —
     // and why an array read only for its length would otherwise be untracked from its own drop.
     let (escaped, register_places) = escaping_roots(func, &|operation| {
-        matches!(operation.kind, OperationKind::Drop { .. }) || semantics.of(operation).is_some()
+        match &operation.kind {
+            OperationKind::Drop { .. } => true,
+            // Writing through the place of an array element cannot change what this analysis
+            // states about the array, which is its length.
+            OperationKind::Call { ty, .. } if ty.returns_place() => {
+                semantics.of(operation).is_some()
+                    || call_operands(&operation.operands, ty).is_some_and(|call| {
+                        call.arguments
+                            .iter()
+                            .all(|(_, convention)| !matches!(convention, ArgConvention::MutableRef))
+                    })
+            }
+            _ => semantics.of(operation).is_some(),
+        }
     });
 
     let types = RootTypes::new(func);
-- 
2.43.0


From 757c2963dbd747dd864757d60ffe3d0446cdc313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:31 +0000
Subject: [PATCH 15/33] fix: let Value blanket implementations with unbound
 requirement effects apply

The check that materializes the dictionaries of a Value blanket implementation
compared the solved effects of each requirement with effect variables that
nothing had bound, so the implementation was silently skipped and a structural
one was derived instead. HashSet and HashMap were compared, hashed and printed
by their bucket layout.
---
 src/types/trait_solver.rs | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/types/trait_solver.rs b/src/types/trait_solver.rs
index 8fdb8ef..b46f694 100644
--- a/src/types/trait_solver.rs
+++ b/src/types/trait_solver.rs
@@ -2781,6 +2781,24 @@ impl<'a> TraitSolver<'a> {
         requirements
     }
 
+    /// Return whether an implementation has the outputs of a runtime requirement.
+    /// Effect variables of the requirement that nothing bound resolve to the empty effect,
+    /// as they do for the outputs of a materialized implementation.
+    fn impl_outputs_match_requirement(
+        imp: &TraitImpl,
+        output_tys: &[Type],
+        output_effs: &[EffType],
+    ) -> bool {
+        imp.output_tys == output_tys
+            && imp
+                .output_effs
+                .iter()
+                .zip(output_effs)
+                .all(|(solved_eff, required_eff)| {
+                    *solved_eff == EffType::multiple_primitive(&required_eff.inner_non_vars())
+                })
+    }
+
     fn validate_runtime_requirements(
         &mut self,
         resolved_requirements: &[ResolvedRuntimeRequirement],
@@ -2827,12 +2845,7 @@ impl<'a> TraitSolver<'a> {
             };
             let dict_impl_data = self.get_impl_data_by_id(dict_id);
             if validate_outputs
-                && (dict_impl_data.output_tys != *output_tys
-                    || !dict_impl_data
-                        .output_effs
-                        .iter()
-                        .zip(output_effs.iter())
-                        .all(|(solved_eff, constraint_eff)| solved_eff == constraint_eff))
+                && !Self::impl_outputs_match_requirement(dict_impl_data, output_tys, output_effs)
             {
                 return Ok(false);
             }
@@ -2894,12 +2907,7 @@ impl<'a> TraitSolver<'a> {
             };
             let dict_impl_data = self.get_impl_data_by_id(dict_id);
             if validate_outputs
-                && (dict_impl_data.output_tys != *output_tys
-                    || !dict_impl_data
-                        .output_effs
-                        .iter()
-                        .zip(output_effs.iter())
-                        .all(|(solved_eff, constraint_eff)| solved_eff == constraint_eff))
+                && !Self::impl_outputs_match_requirement(dict_impl_data, output_tys, output_effs)
             {
                 return Ok(None);
             }
-- 
2.43.0


From 5618fe0f50eef51400298b174dabf48f147ddd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:26 +0000
Subject: [PATCH 16/33] fix: compare hash maps by their entries

The equality of maps asked for an iterator of internal entries, but maps iterate
over key-value pairs: the constraint could not be met, so the implementation was
never selected and maps compared, hashed and printed by their bucket layout.
---
 src/std/prelude/hash_collections.fer | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/std/prelude/hash_collections.fer b/src/std/prelude/hash_collections.fer
index c94b778..0125f80 100644
--- a/src/std/prelude/hash_collections.fer
+++ b/src/std/prelude/hash_collections.fer
@@ -356,12 +356,12 @@ where
     }
 }
 
-fn hash_map_contains_entry<K, V>(collection: HashMap<K, V>, entry: HashMapEntry<K, V>) -> bool
+fn hash_map_contains_entry<K, V>(collection: HashMap<K, V>, entry: (K, V)) -> bool
 where
     K: Value,
     V: Value
 {
-    map_contains_key_value(collection, entry.key, entry.value)
+    map_contains_key_value(collection, entry.0, entry.1)
 }
 
 impl<K, V> Iterator for <Self = HashMapIterator<K, V> |-> Item = (K, V)>
-- 
2.43.0


From 81f8142d6fc7d69035260696ded205969f663751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:34 +0000
Subject: [PATCH 17/33] fix: wrap integer division, remainder and absolute
 value at the minimum

idiv, idiv_euclid, rem and mod of the smallest integer by -1 panicked inside the
native function and brought the process down; abs did so in builds that check
overflow. They wrap, as the other integer operations do.
---
 src/std/math.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/std/math.rs b/src/std/math.rs
index c3704c0..aa284ee 100644
--- a/src/std/math.rs
+++ b/src/std/math.rs
@@ -516,7 +516,7 @@ pub fn add_to_module(to: &mut Module) {
             b(BinaryFn::new(Int::wrapping_sub)) as Function,
             b(BinaryFn::new(Int::wrapping_mul)) as Function,
             b(UnaryFn::new(Int::wrapping_neg)) as Function,
-            b(UnaryFn::new(Int::abs)) as Function,
+            b(UnaryFn::new(Int::wrapping_abs)) as Function,
             b(UnaryFn::new(Int::signum)) as Function,
             b(UnaryFn::new(identity::<Int>)) as Function,
         ],
@@ -567,7 +567,7 @@ pub fn add_to_module(to: &mut Module) {
                 if rhs == 0 {
                     Err(DivisionByZero)
                 } else {
-                    Ok(lhs / rhs)
+                    Ok(lhs.wrapping_div(rhs))
                 }
             },
             ["left", "right"],
@@ -582,7 +582,7 @@ pub fn add_to_module(to: &mut Module) {
                 if rhs == 0 {
                     Err(DivisionByZero)
                 } else {
-                    Ok(lhs.div_euclid(rhs))
+                    Ok(lhs.wrapping_div_euclid(rhs))
                 }
             },
             ["left", "right"],
@@ -597,7 +597,7 @@ pub fn add_to_module(to: &mut Module) {
                 if rhs == 0 {
                     Err(RemainderByZero)
                 } else {
-                    Ok(ops::Rem::rem(lhs, rhs))
+                    Ok(lhs.wrapping_rem(rhs))
                 }
             },
             ["left", "right"],
@@ -612,7 +612,7 @@ pub fn add_to_module(to: &mut Module) {
                 if rhs == 0 {
                     Err(RemainderByZero)
                 } else {
-                    Ok(lhs.rem_euclid(rhs))
+                    Ok(lhs.wrapping_rem_euclid(rhs))
                 }
             },
             ["left", "right"],
-- 
2.43.0


From 6363bb9051bb5a76376b67e6753ca760344be307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:49 +0000
Subject: [PATCH 18/33] fix: accept float literals whose fraction starts with a
 zero

---
 src/parser/helpers.rs     | 30 +++++++++++++++++++++++-------
 src/parser/parser.lalrpop |  6 ++++++
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/parser/helpers.rs b/src/parser/helpers.rs
index 20b43d0..2557ede 100644
--- a/src/parser/helpers.rs
+++ b/src/parser/helpers.rs
@@ -354,6 +354,16 @@ where
     }
 }
 
+/// The value of an expression that is an integer literal
+fn int_literal(expr: PExprId, arena: &PExprArena) -> Option<isize> {
+    // Extract the integer literal value without holding a borrow across the match
+    if let ExprKind::Literal(literal, _ty) = &arena[expr].kind {
+        literal.clone().into_value().into_primitive_ty::<isize>()
+    } else {
+        None
+    }
+}
+
 /// Create a projection, or a float literal if the lhs is a number
 pub(crate) fn proj_or_float<L, T>(
     lhs: PExprId,
@@ -361,12 +371,7 @@ pub(crate) fn proj_or_float<L, T>(
     arena: &PExprArena,
 ) -> Result<PExprKind, ParseError<L, T, LocatedError>> {
     use ExprKind::*;
-    // Extract the integer literal value without holding a borrow across the match
-    let int_val = if let Literal(literal, _ty) = &arena[lhs].kind {
-        literal.clone().into_value().into_primitive_ty::<isize>()
-    } else {
-        None
-    };
+    let int_val = int_literal(lhs, arena);
     if let Some(value) = int_val {
         let index = rhs.0;
         let float_value = format!("{value}.{index}");
@@ -378,6 +383,7 @@ pub(crate) fn proj_or_float<L, T>(
 pub(crate) enum PExprSuffixTail {
     Field(UstrSpan),
     TupleIndex((usize, Location)),
+    FractionDigits(UstrSpan),
     Index(PExprId, Location),
     Apply(Vec<PExprId>, Location),
     NamedSubscript(UstrSpan, Vec<PExprId>, Location),
@@ -386,7 +392,9 @@ pub(crate) enum PExprSuffixTail {
 impl PExprSuffixTail {
     fn span(&self) -> Location {
         match self {
-            Self::Field((_, span)) | Self::TupleIndex((_, span)) => *span,
+            Self::Field((_, span))
+            | Self::TupleIndex((_, span))
+            | Self::FractionDigits((_, span)) => *span,
             Self::Index(_, span) | Self::Apply(_, span) | Self::NamedSubscript(_, _, span) => *span,
         }
     }
@@ -427,6 +435,13 @@ fn suffix_tail_kind<L, T>(
     match tail {
         PExprSuffixTail::Field(field) => Ok(ExprKind::field_access(receiver, *field)),
         PExprSuffixTail::TupleIndex(index) => proj_or_float(receiver, *index, arena),
+        PExprSuffixTail::FractionDigits((digits, span)) => match int_literal(receiver, arena) {
+            Some(value) => parse_num_literal::<Float, L, T>(&format!("{value}.{digits}"), *span),
+            None => error(
+                format!("{digits} is not a valid tuple index, because it starts with a zero"),
+                *span,
+            ),
+        },
         PExprSuffixTail::Index(index, _) => Ok(ExprKind::index(receiver, *index)),
         PExprSuffixTail::Apply(args, _) => {
             Ok(ExprKind::apply(receiver, args.clone(), UnnamedArg::None))
@@ -780,6 +795,7 @@ fn resolve_token_names(names: Vec<String>) -> Vec<String> {
     static NAME_MAP: LazyLock<FxHashMap<&'static str, &'static str>> = LazyLock::new(|| {
         let mut m = FxHashMap::default();
         m.insert(r##"r#"[1-9][0-9]*|0"#"##, "natural number");
+        m.insert(r##"r#"0[0-9]+"#"##, "digits");
         m.insert(r##"r#"[\\p{L}_][\\p{L}\\p{N}_]*"#"##, "identifier");
         m.insert(r##"r#"\\\"([^\\\\\\\"]|\\\\.)*\\\""#"##, "string literal");
         m.insert(
diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index 9173f7b..133d9a7 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -974,6 +974,7 @@ SuffixTailListAfterNamedSubscript: Vec<PExprSuffixTail> = {
 NonNamedSuffixTail: PExprSuffixTail = {
     "." <f:Sp<FieldIdentifier>> => PExprSuffixTail::Field(f),
     "." <i:Sp<UIntValue>> => PExprSuffixTail::TupleIndex(i),
+    "." <d:Sp<ZeroLedDigits>> => PExprSuffixTail::FractionDigits(d),
     <l:@L> "[" <i:Expr> "]" <r:@R> => PExprSuffixTail::Index(i, span(l, r, source_id)),
     <l:@L> "(" <a:Sep<Es<TopExpr<"">>, ",">> ")" <r:@R> => PExprSuffixTail::Apply(a, span(l, r, source_id)),
 }
@@ -981,6 +982,7 @@ NonNamedSuffixTail: PExprSuffixTail = {
 NonApplyNonNamedSuffixTail: PExprSuffixTail = {
     "." <f:Sp<FieldIdentifier>> => PExprSuffixTail::Field(f),
     "." <i:Sp<UIntValue>> => PExprSuffixTail::TupleIndex(i),
+    "." <d:Sp<ZeroLedDigits>> => PExprSuffixTail::FractionDigits(d),
     <l:@L> "[" <i:Expr> "]" <r:@R> => PExprSuffixTail::Index(i, span(l, r, source_id)),
 }
 
@@ -992,6 +994,7 @@ SuffixTail: PExprSuffixTail = {
 PipeCalleeSuffixTail: PExprSuffixTail = {
     "." <f:Sp<FieldIdentifier>> => PExprSuffixTail::Field(f),
     "." <i:Sp<UIntValue>> => PExprSuffixTail::TupleIndex(i),
+    "." <d:Sp<ZeroLedDigits>> => PExprSuffixTail::FractionDigits(d),
     <l:@L> "[" <i:Expr> "]" <r:@R> => PExprSuffixTail::Index(i, span(l, r, source_id)),
 }
 
@@ -1500,6 +1503,9 @@ UIntValue: usize = <l:@L> <s:r"[1-9][0-9]*|0"> <r:@R> =>? match parse_num::<usiz
     Err(msg) => error(msg, span(l, r, source_id)),
 };
 
+// The fraction of a float literal, when it starts with a zero.
+ZeroLedDigits: Ustr = r"0[0-9]+" => ustr(<>);
+
 StringLiteral: (LiteralValue, IrType) = StringToken => (string_literal(<>), string_type());
 
 UString: Ustr = StringToken => ustr(&parse_string(<>));
-- 
2.43.0


From 65df16f9602601b0a10f6bafb1e845680c5b597d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:18 +0000
Subject: [PATCH 19/33] fix: read back variants with a single record payload
 from data text

---
 src/std/prelude/serde_impl.fer | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/std/prelude/serde_impl.fer b/src/std/prelude/serde_impl.fer
index 6a00d36..fb3990d 100644
--- a/src/std/prelude/serde_impl.fer
+++ b/src/std/prelude/serde_impl.fer
@@ -63,6 +63,8 @@ pub fn data_value_to_tuple(v: DataValue) {
 	match (v) {
 		DataValue::Tuple(a) => a,
 		DataValue::Array(a) => a,
+		// Data text reads `Some({ a: 1 })` as a variant with a record payload.
+		DataValue::Record(o) => [DataValue::Record(o)],
 		_ => panic("Expected Tuple or Array data value")
 	}
 }
-- 
2.43.0


From b6c8962b0477e4a5ff8e2999206dca885dd4bc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:18 +0000
Subject: [PATCH 20/33] fix: read back large floats from data text

---
 src/std/data_text.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/std/data_text.rs b/src/std/data_text.rs
index 50ecece..775a3cf 100644
--- a/src/std/data_text.rs
+++ b/src/std/data_text.rs
@@ -433,20 +433,18 @@ impl<'a> Parser<'a> {
             }
         }
         let text = &self.input[start..self.pos];
-        if is_float {
-            let value = text
-                .parse::<f64>()
-                .map_err(|_| self.error("Invalid float literal"))?;
-            if !value.is_finite() {
-                return Err(self.error("Invalid non-finite float literal"));
-            }
-            Ok(data_variant("Float", float_value(value)))
-        } else {
-            let value = text
-                .parse::<isize>()
-                .map_err(|_| self.error("Invalid int literal"))?;
-            Ok(data_variant("Int", int_value(value)))
+        if !is_float && let Ok(value) = text.parse::<isize>() {
+            return Ok(data_variant("Int", int_value(value)));
+        }
+        // Large floats are written without a fraction, so they do not fit in an int.
+        let kind = if is_float { "float" } else { "int" };
+        let value = text
+            .parse::<f64>()
+            .map_err(|_| self.error(&format!("Invalid {kind} literal")))?;
+        if !value.is_finite() {
+            return Err(self.error(&format!("Invalid non-finite {kind} literal")));
         }
+        Ok(data_variant("Float", float_value(value)))
     }
 }
 
-- 
2.43.0


From 42726bc143fc01306676f260f8efd500e2f0364a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 21/33] fix: keep the constants 0.0 and -0.0 apart

---
 src/hir/value.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/hir/value.rs b/src/hir/value.rs
index 82e7f85..3790240 100644
--- a/src/hir/value.rs
+++ b/src/hir/value.rs
@@ -24,7 +24,7 @@ use crate::{
     format::write_with_separator,
     hir::function::NativeTrivialCopy,
     module::{FunctionId, ModuleEnv, SubscriptId, TraitDictionaryId},
-    std::string::StaticStr,
+    std::{math::Float, string::StaticStr},
     types::r#type::{Type, TypeKind},
 };
 
@@ -104,7 +104,28 @@ impl<T: NativeValue + NativeTrivialCopy + Hash + Eq + NativeDisplay> LiteralNati
 }
 
 dyn_clone::clone_trait_object!(LiteralNativeValue);
-dyn_eq::eq_trait_object!(LiteralNativeValue);
+/// Two literals are equal when they have the same representation. This is finer than run-time
+/// equality for floats: the signed zeros compare equal, but are distinct constants.
+impl PartialEq for dyn LiteralNativeValue {
+    fn eq(&self, other: &Self) -> bool {
+        let (left, right) = (
+            LiteralNativeValue::as_any(self),
+            LiteralNativeValue::as_any(other),
+        );
+        match (left.downcast_ref::<Float>(), right.downcast_ref::<Float>()) {
+            (Some(left), Some(right)) => {
+                left.into_inner().to_bits() == right.into_inner().to_bits()
+            }
+            _ => self.dyn_eq(right),
+        }
+    }
+}
+impl Eq for dyn LiteralNativeValue {}
+impl PartialEq<&Self> for B<dyn LiteralNativeValue> {
+    fn eq(&self, other: &&Self) -> bool {
+        self == *other
+    }
+}
 dyn_hash::hash_trait_object!(LiteralNativeValue);
 
 #[derive(Debug, Clone, PartialEq, Eq)]
-- 
2.43.0


From dbd768a4ed80911af375d31d8f2a21a6ee3a926d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:22 +0000
Subject: [PATCH 22/33] fix: hash the two zeros alike, as they are equal

---
 src/std/math.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/std/math.rs b/src/std/math.rs
index aa284ee..d558d1a 100644
--- a/src/std/math.rs
+++ b/src/std/math.rs
@@ -299,7 +299,8 @@ fn hash_int(value: Int, state: &mut Hasher) {
 }
 
 fn hash_float(value: Float, state: &mut Hasher) {
-    state.write_u64(value.into_inner().to_bits());
+    // The signed zeros are equal, so they must hash the same.
+    state.write_u64((value.into_inner() + 0.0).to_bits());
 }
 
 fn equal_float(lhs: Float, rhs: Float) -> bool {
-- 
2.43.0


From 92b09eba539d217ff2128ebae827d3a31c7cae92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:18 +0000
Subject: [PATCH 23/33] fix: renormalize when appended text starts with any
 character that may compose

---
 src/std/string.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/std/string.rs b/src/std/string.rs
index 5c17b07..887392a 100644
--- a/src/std/string.rs
+++ b/src/std/string.rs
@@ -161,8 +161,9 @@ impl String {
 
     /// Appends already-NFC text, restoring the invariant when the join breaks it.
     ///
-    /// NFC is not closed under concatenation: text beginning with a combining mark composes with
-    /// whatever precedes it, so only that case needs to re-normalize the whole result.
+    /// NFC is not closed under concatenation: text beginning with a combining mark, or with another
+    /// character that may compose with whatever precedes it (such as a Hangul vowel or final
+    /// consonant), needs the whole result to be re-normalized.
     fn push_normalized(&mut self, value: &str) {
         debug_assert!(
             unicode_normalization::is_nfc(value),
@@ -171,8 +172,11 @@ impl String {
         let needs_normalization = value
             .chars()
             .next()
-            .map(unicode_normalization::char::is_combining_mark)
-            .unwrap_or(false);
+            .is_some_and(|first| {
+                unicode_normalization::char::is_combining_mark(first)
+                    || unicode_normalization::is_nfc_quick(std::iter::once(first))
+                        != unicode_normalization::IsNormalized::Yes
+            });
 
         if needs_normalization {
             self.0 = Rc::new(self.0.chars().chain(value.chars()).nfc().collect());
-- 
2.43.0


From 125f41dbefc83dcad1680ddb963a09cec6d90046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:16 +0000
Subject: [PATCH 24/33] fix: bind match patterns to a snapshot of a mutable
 scrutinee

---
 src/hir/match.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/hir/match.rs b/src/hir/match.rs
index 890903f..42d9f0f 100644
--- a/src/hir/match.rs
+++ b/src/hir/match.rs
@@ -160,11 +160,11 @@ impl TypeInference {
 
         // Infer the condition expression and get the pattern type.
         // Currently the type must be the same for all alternatives.
-        let (condition_node_id, _) = self.infer_expr(env, cond_expr)?;
+        let (mut condition_node_id, condition_mut_ty) = self.infer_expr(env, cond_expr)?;
         let condition_node = &env.ir_arena[condition_node_id];
         let condition_ty = condition_node.ty;
         let condition_span = condition_node.span;
-        let cond_eff = condition_node.effects.clone();
+        let mut cond_eff = condition_node.effects.clone();
         if is_definitely_uninhabited(condition_node.ty, env) {
             return Ok(self.diverging_prefix_result(env, [condition_node_id], cond_eff));
         }
@@ -333,6 +333,15 @@ impl TypeInference {
                 })
                 .process_results(|iter| iter.unzip())?;
 
+            // The bindings are projections into the matched value, so an arm that writes to a
+            // mutable scrutinee must not change them: match on a snapshot of it.
+            let has_bindings = exprs.iter().any(|(_, vars)| !vars.is_empty());
+            if has_bindings && condition_mut_ty != MutType::constant() {
+                condition_node_id =
+                    self.materialize_owned_value(env, condition_node_id, condition_span);
+                cond_eff = env.ir_arena[condition_node_id].effects.clone();
+            }
+
             // Code to store the variant value in the environment.
             let (store_variant, l_match_condition) = store_new_local(
                 condition_node_id,
-- 
2.43.0


From 146993bda12083f6db502e2f2be769c3a1277c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:16 +0000
Subject: [PATCH 25/33] fix: accept non-trait constraints when checking overlap
 of blanket implementations

---
 src/types/coherence.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/types/coherence.rs b/src/types/coherence.rs
index 8b8cd65..9a24f05 100644
--- a/src/types/coherence.rs
+++ b/src/types/coherence.rs
@@ -422,9 +422,18 @@ fn constraints_may_be_satisfiable(
 
     let constraint = pending.pop().unwrap();
     let constraint = ty_inf.substitute_in_constraint(&constraint);
-    let (trait_id, input_tys, output_tys, output_effs, _span) = constraint
-        .into_have_trait()
-        .expect("Non trait constraint in blanket impl overlap check");
+    let Ok((trait_id, input_tys, output_tys, output_effs, _span)) = constraint.into_have_trait()
+    else {
+        // Structural constraints are not decided here, so assume that they can be satisfied.
+        return constraints_may_be_satisfiable(
+            current,
+            others,
+            ty_inf,
+            pending,
+            next_ty_var_index,
+            stack,
+        );
+    };
     if input_tys.iter().all(Type::is_constant) && output_tys.iter().all(Type::is_constant) {
         let mut trait_solver = TraitSolverProbe::from_module(current, others);
         let mut arena = NodeArena::default();
-- 
2.43.0


From e88df1538123afccdc54bc7b5e712203358f180f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:16 +0000
Subject: [PATCH 26/33] fix: release the type lock before instantiating in the
 projection conflict check

---
 src/hir/emit_subscripts.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hir/emit_subscripts.rs b/src/hir/emit_subscripts.rs
index 6bfe30f..8d9ac67 100644
--- a/src/hir/emit_subscripts.rs
+++ b/src/hir/emit_subscripts.rs
@@ -204,7 +204,8 @@ fn reject_accessible_structural_projection_conflict(
     field: ast::UstrSpan,
     receiver_span: Location,
 ) -> Result<(), InternalCompilationError> {
-    let TypeKind::Named(named) = &*receiver_ty.data() else {
+    // Do not hold the type data, as instantiating the shape stores types.
+    let TypeKind::Named(named) = receiver_ty.data().clone() else {
         return Ok(());
     };
     let type_def = env.type_def(named.def);
-- 
2.43.0


From dfc1a8abf8e70d4e7afc10d345c03a8a326c97f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:16 +0000
Subject: [PATCH 27/33] fix: keep the canonical names of addressor subscripts
 independent of type interning

---
 src/module/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/module/mod.rs b/src/module/mod.rs
index 6b80837..7729c49 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -734,13 +734,13 @@ impl Module {
             CallResultConvention::ADDRESSOR_PLACE
         );
         let signature = SubscriptSignature::from_callable_definition(&function.definition);
+        // The identity ends up in the canonical name that compiled-std snapshots store, so it must
+        // not depend on interned type handles, which differ with the interner's insertion order.
+        // A module has a single subscript of a given name, which therefore suffices.
         let canonical_identity = format!(
-            "subscript={}; member={}; args={:?}; return={:?}; effects={:?}; result={:?}; provenance={:?}",
+            "subscript={}; member={}; result={:?}; provenance={:?}",
             name,
             SubscriptMemberFunctionKind::RefMut.keyword(),
-            function.definition.ty_scheme.ty.args,
-            function.definition.ty_scheme.ty.ret,
-            function.definition.ty_scheme.ty.effects,
             function.definition.result_convention,
             YieldProvenance::AddressorPlace,
         );
-- 
2.43.0


From 0f0131e9f41fd367386dc4c562e1fadba1d4de63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:16 +0000
Subject: [PATCH 28/33] fix: expand pending effect dependencies of expressions
 after defaulting

---
 src/hir/emit_expr.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hir/emit_expr.rs b/src/hir/emit_expr.rs
index 0d34aae..5e68000 100644
--- a/src/hir/emit_expr.rs
+++ b/src/hir/emit_expr.rs
@@ -291,6 +291,8 @@ fn emit_expr_unsafe_inner(
         elaborate_generated_functions(module, others, &mut pending_functions, generated)?;
     }
 
+    ty_inf.finalize_effect_dependencies()?;
+
     // Substitute everything using ty_inf (single pass, includes all defaults).
     ty_inf.substitute_in_node(expr_arena, node_id);
     for lambda_id in lambda_functions.iter() {
-- 
2.43.0


From 661af6984a2ae5b54a900157506abb55815e6db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:17 +0000
Subject: [PATCH 29/33] fix: require a mutable receiver for writes through
 projection evidence

---
 src/types/type_inference/expr.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/types/type_inference/expr.rs b/src/types/type_inference/expr.rs
index fa6a833..14ba32b 100644
--- a/src/types/type_inference/expr.rs
+++ b/src/types/type_inference/expr.rs
@@ -3534,6 +3534,7 @@ impl TypeInference {
                 let projection_receiver_needs_temp =
                     matches!(&*place_ty.data(), TypeKind::Variable(_))
                         && !node_is_place_reference(env.ir_arena, place_node);
+                let receiver_is_place = node_is_place_reference(env.ir_arena, place_node);
                 let temp_start_index = env.cur_locals.len();
                 let mut temp_stores = Vec::new();
                 let place_node = if projection_receiver_needs_temp {
@@ -3549,6 +3550,15 @@ impl TypeInference {
                         env, place_node, place_ty, place_mut, mode, *base_span, *name, *step_span,
                     )?;
                 let result = if uses_projection_evidence {
+                    // The accessor yields a mutable place only from a mutable receiver.
+                    if matches!(mode, SubscriptMemberKind::Mut) && receiver_is_place {
+                        self.add_mut_be_at_least_constraint(
+                            place_mut,
+                            *base_span,
+                            MutType::mutable(),
+                            expr_span,
+                        );
+                    }
                     self.infer_prepared_accessor_with_body(
                         env,
                         NamedSubscriptCall {
-- 
2.43.0


From 8d1b99485b6678b68bd7efb8b213190b43ba70c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:15 +0000
Subject: [PATCH 30/33] fix: report a lambda with more or fewer parameters than
 the expected function

---
 src/types/type_inference/expr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/types/type_inference/expr.rs b/src/types/type_inference/expr.rs
index 14ba32b..849dbc2 100644
--- a/src/types/type_inference/expr.rs
+++ b/src/types/type_inference/expr.rs
@@ -5806,7 +5806,9 @@ impl TypeInference {
         // Functions abstraction
         if let Abstract(data) = &expr.kind {
             let ty_data = expected_ty.data();
-            if let TypeKind::Function(fn_ty) = &*ty_data {
+            if let TypeKind::Function(fn_ty) = &*ty_data
+                && fn_ty.args.len() == data.args.len()
+            {
                 let fn_ty = fn_ty.clone();
                 drop(ty_data);
                 let (node_id, node_ty, actual_mut, _) =
-- 
2.43.0


From 2e343294406813c2964f0eb302db2713e6d77164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:56 +0000
Subject: [PATCH 31/33] fix: relate open output effects of implementations to
 the application that selects them

---
 src/types/type_inference/unify.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/types/type_inference/unify.rs b/src/types/type_inference/unify.rs
index 3c93129..fed3e03 100644
--- a/src/types/type_inference/unify.rs
+++ b/src/types/type_inference/unify.rs
@@ -1176,6 +1176,23 @@ impl UnifiedTypeInference {
             {
                 return Ok(None);
             }
+            // Selecting an implementation for constant inputs takes the output effects that it
+            // leaves open as pure, so first relate those to the effects of this application.
+            let improved = output_effs.iter().any(EffType::has_variables)
+                && trait_solver.try_improve_trait_application(
+                    self,
+                    trait_id,
+                    &input_tys,
+                    Some(&output_tys),
+                    Some(&output_effs),
+                    assumptions,
+                    span,
+                    arena,
+                )?;
+            if improved {
+                self.normalize_types_in_place(&mut output_tys);
+                self.substitute_in_effect_types_in_place(&mut output_effs);
+            }
             // Fully resolved, validate the trait implementation.
             let (impl_output_tys, impl_output_effs) = trait_solver.solve_application_outputs(
                 trait_id,
@@ -1185,6 +1202,9 @@ impl UnifiedTypeInference {
                 span,
                 arena,
             )?;
+            if improved {
+                return Ok(None);
+            }
             // Found, unify the output types and resolve the output effects.
             assert_eq!(output_tys.len(), impl_output_tys.len());
             for (cur_ty, exp_ty) in output_tys.iter().zip(impl_output_tys.iter()) {
-- 
2.43.0


From 0bfc0e355c61b004d4136fc8704a88a3d0682bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:00 +0000
Subject: [PATCH 32/33] fix: report a record with more or fewer fields than the
 expected record

---
 src/types/type_inference/unify.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/types/type_inference/unify.rs b/src/types/type_inference/unify.rs
index fed3e03..8df01cb 100644
--- a/src/types/type_inference/unify.rs
+++ b/src/types/type_inference/unify.rs
@@ -753,6 +753,15 @@ impl UnifiedTypeInference {
                 Ok(())
             }
             (Record(cur), Record(exp)) => {
+                if cur.len() != exp.len() {
+                    return Err(internal_compilation_error!(TypeMismatch {
+                        current_ty,
+                        current_span,
+                        expected_ty,
+                        expected_span,
+                        sub_or_same,
+                    }));
+                }
                 for (cur_field, exp_field) in cur.into_iter().zip(exp) {
                     if cur_field.0 != exp_field.0 {
                         return Err(internal_compilation_error!(TypeMismatch {
-- 
2.43.0


From f77647d4584b698a63eac4738f24e33ec5601178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:25 +0000
Subject: [PATCH 33/33] fix: evaluate the condition of a match that has only a
 default arm

---
 src/desugar/expr.rs | 55 ++++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/src/desugar/expr.rs b/src/desugar/expr.rs
index 5144a1f..b80c986 100644
--- a/src/desugar/expr.rs
+++ b/src/desugar/expr.rs
@@ -418,29 +418,42 @@ pub(crate) fn desugar(
                 alternatives,
                 default,
             } = *data;
-            ExprKind::match_(
-                desugar(expr, ctx, parsed_arena, desugared_arena, modules_used)?,
-                alternatives
-                    .into_iter()
-                    .map(|(pat, expr_id)| {
-                        let env_size = ctx.locals.len();
-                        if let Some((_path, _kind, vars)) = pat.kind.as_variant() {
-                            for var in vars {
-                                if let Some(name) = var.as_named() {
-                                    ctx.locals.push(name.0);
+            if alternatives.is_empty()
+                && let Some(default) = default
+            {
+                // Nothing is selected, so evaluate the condition for its effects, then the default.
+                Block(desugar_exprs(
+                    vec![expr, default],
+                    ctx,
+                    parsed_arena,
+                    desugared_arena,
+                    modules_used,
+                )?)
+            } else {
+                ExprKind::match_(
+                    desugar(expr, ctx, parsed_arena, desugared_arena, modules_used)?,
+                    alternatives
+                        .into_iter()
+                        .map(|(pat, expr_id)| {
+                            let env_size = ctx.locals.len();
+                            if let Some((_path, _kind, vars)) = pat.kind.as_variant() {
+                                for var in vars {
+                                    if let Some(name) = var.as_named() {
+                                        ctx.locals.push(name.0);
+                                    }
                                 }
                             }
-                        }
-                        let expr =
-                            desugar(expr_id, ctx, parsed_arena, desugared_arena, modules_used)?;
-                        ctx.locals.truncate(env_size);
-                        Ok((pat, expr))
-                    })
-                    .collect::<Result<Vec<_>, _>>()?,
-                default
-                    .map(|e| desugar(e, ctx, parsed_arena, desugared_arena, modules_used))
-                    .transpose()?,
-            )
+                            let expr =
+                                desugar(expr_id, ctx, parsed_arena, desugared_arena, modules_used)?;
+                            ctx.locals.truncate(env_size);
+                            Ok((pat, expr))
+                        })
+                        .collect::<Result<Vec<_>, _>>()?,
+                    default
+                        .map(|e| desugar(e, ctx, parsed_arena, desugared_arena, modules_used))
+                        .transpose()?,
+                )
+            }
         }
         ForLoop(for_loop) => {
             let ForLoopData {
-- 
2.43.0

