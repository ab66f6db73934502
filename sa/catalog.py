"""The properties: what must hold, and which constructs of the repository decide it.

Selectors (relative to the package `effectful`; `*` matches anything):
  f:  functions, methods and registered cases
  c:  classes (bases, class attributes, fields, decorators)
  m:  module-level definitions (`module.name`), and `module` itself for its other effects
"""

CORE = ["effectful/internals/runtime.py", "effectful/ops/semantics.py", "effectful/ops/types.py"]

P = []


def prop(id, title, statement, over, text, why, files, mech, sel, rules=(), state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, sel=sel, rules=list(rules), state=list(state), observe=list(observe)))


def P01():
    prop(
        "P01", "Leaving a handler scope restores the enclosing interpretation",
        "When a block that installs handlers or an interpretation ends, whether normally, by an exception at any point, "
        "or by a generator being closed, the interpretation in force is the one that was in force when the block was entered. "
        "Nothing else in the library changes which interpretation is in force.",
        ["fault_sequences", "histories", "programs"],
        "every nesting of handler scopes and every point at which an exception can leave the body",
        "tests enter and leave scopes normally and with a few sampled exceptions; the claim is about every exit edge of the scope and every write of the current interpretation",
        CORE, [("try/finally of the scope context manager", "effectful/internals/runtime.py:interpreter"),
               ("handler installs through it", "effectful/ops/semantics.py:handler")],
        ["f:internals.runtime.interpreter", "f:internals.runtime.get_runtime", "f:internals.runtime.get_interpretation",
         "f:ops.semantics.handler", "c:internals.runtime.Runtime", "m:internals.runtime*"],
        ["scope_restored", "interp_writers", "scopes_are_with"],
        state=[("current interpretation", "the handlers in force on this thread", "effectful/internals/runtime.py:Runtime.interpretation")])


def P02():
    prop(
        "P02", "Installed interpretations are never modified",
        "Installing, composing or running under an interpretation never modifies the mapping the caller supplied, "
        "and changing that mapping after it was installed does not change the handlers in force. "
        "Composing two interpretations yields a new mapping.",
        ["inputs", "histories"],
        "every interpretation mapping, and every later change to it by its owner",
        "tests compare results, not the identity and contents of the mappings they pass; aliasing shows only under later mutation",
        CORE + ["effectful/internals/product_n.py"],
        [("the scope installs a copy", "effectful/internals/runtime.py:interpreter"),
         ("coproduct starts from a copy", "effectful/ops/semantics.py:coproduct"),
         ("products build new mappings", "effectful/internals/product_n.py:productN")],
        ["f:internals.runtime.interpreter", "f:ops.semantics.coproduct", "f:ops.semantics.handler", "f:internals.product_n.productN",
         "f:internals.runtime._set_prompt", "f:internals.runtime._save_args"],
        ["interp_immutable", "interp_copied"])


def P03():
    prop(
        "P03", "Interpretations are per thread",
        "Each thread has its own current interpretation, which starts empty: handlers installed on one thread are never seen by another, "
        "and threads never disturb one another's handler scopes.",
        ["schedules"], "every interleaving of threads that install and leave handlers",
        "the suite has no concurrent schedules; thread-locality is a fact about where the state is stored",
        ["effectful/internals/runtime.py"], [("the state is a threading.local subclass", "effectful/internals/runtime.py:Runtime")],
        ["c:internals.runtime.Runtime", "f:internals.runtime.get_runtime", "f:internals.runtime.get_interpretation", "f:internals.runtime.interpreter",
         "m:internals.runtime*"],
        ["thread_local", "no_shared_state"])


def P04():
    prop(
        "P04", "Coproduct handles what either side handles, the right side first",
        "The composition of two interpretations handles exactly the operations handled by either; where both handle one, the right one runs, "
        "and forwarding from it runs the left one, with the current arguments when none are given and with the given ones otherwise. "
        "Forwarding is bound per operation and per call, so that nested calls and other operations do not see each other's continuation.",
        ["programs", "inputs"], "every pair of interpretations, nesting of compositions and call of forwarding",
        "tests sample a few stacks of handlers; the rule has to hold for every operation, argument pattern and depth",
        CORE, [("composition", "effectful/ops/semantics.py:coproduct"), ("argument saving and prompts", "effectful/internals/runtime.py:_set_prompt/_save_args/_restore_args")],
        ["f:ops.semantics.coproduct", "f:ops.semantics.handler", "f:ops.semantics.fwd", "f:internals.runtime._set_prompt", "f:internals.runtime._save_args",
         "f:internals.runtime._restore_args", "f:internals.runtime._get_args", "m:ops.semantics*", "m:internals.runtime*"],
        ["arity_preserving_wrappers"])


def P05():
    prop(
        "P05", "An operation call dispatches handler, then apply, then default rule",
        "Calling an operation runs its handler if the current interpretation has one, with forwarding bound to its default rule; otherwise it goes through the "
        "generic application operation of its class, whose default runs the default rule, which runs the definition and builds a term when the definition declines. "
        "Arguments and keyword arguments reach whichever runs unchanged.",
        ["programs", "inputs"], "every operation, interpretation and argument list, including handlers of the generic application operation",
        "dispatch is exercised by tests on a handful of operations; the order must hold for every operation and operation subclass",
        ["effectful/ops/types.py"], [("call protocol", "effectful/ops/types.py:Operation.__call__"), ("default rule", "effectful/ops/types.py:Operation.__default_rule__"),
                                     ("apply", "effectful/ops/types.py:__apply__")],
        ["f:ops.types.Operation.__call__", "f:ops.types.Operation.__default_rule__", "f:ops.types.__apply__", "f:ops.types.Operation.__init_subclass__",
         "c:ops.types.Operation", "c:ops.types.NotHandled", "m:ops.types", "f:internals.runtime._restore_args"],
        ["handler_not_swallowed"])


def P06():
    prop(
        "P06", "Operations are compared by identity and always defined fresh",
        "Every definition yields a new operation that equals no other, even with the same name, body or type; equality, hashing and ordering of operations agree with identity "
        "and stay fixed for their lifetime. Copying an operation keeps its signature and name but not its default rule.",
        ["programs", "histories"], "every pair of operations and every way of defining one (callable, type, operation, builtin, static, class and instance method, dispatched function)",
        "a handful of definitions are compared in tests; freshness has to hold across all the definition routes",
        ["effectful/ops/types.py"], [("comparison methods", "effectful/ops/types.py:Operation"), ("definition routes", "effectful/ops/types.py:Operation.define")],
        ["f:ops.types.Operation.__eq__", "f:ops.types.Operation.__hash__", "f:ops.types.Operation.__lt__", "f:ops.types.Operation.__gt__", "f:ops.types.Operation.__le__",
         "f:ops.types.Operation.__ge__", "f:ops.types.Operation.__init__", "f:ops.types.Operation.define*", "f:ops.types.Operation.__repr__", "f:ops.types.Operation.__str__",
         "f:ops.types.Operation.__signature__", "f:ops.types.Operation._signature", "c:ops.types.Operation", "f:ops.types._CustomSingleDispatchCallable.*",
         "c:ops.types._CustomSingleDispatchCallable", "m:ops.syntax*", "f:ops.types._OperationDefine.__call__", "c:ops.types._OperationDefine", "f:ops.types._ClassMethodOpDescriptor.*",
         "c:ops.types._ClassMethodOpDescriptor"],
        ["eq_hash_consistent", "define_never_cached"])


def P07():
    prop(
        "P07", "Method operations bind to instances and classes faithfully",
        "Accessing an operation defined as a method gives, for one instance, one operation that is the same object on every access and different for different instances, "
        "and for a term or an instance with free variables the plain method on it. Calling it runs the class-level operation on that instance, and the terms it leaves mention the instance's operation.",
        ["programs", "histories"], "every instance, term and class, and every order of accesses",
        "tests access a few methods once or twice; the identity of instance operations matters over the whole history of an instance",
        ["effectful/ops/types.py", "effectful/ops/syntax.py"], [("descriptor", "effectful/ops/types.py:Operation.__get__"), ("class methods", "effectful/ops/types.py:_ClassMethodOpDescriptor")],
        ["f:ops.types.Operation.__get__", "f:ops.types.Operation.__set_name__", "f:ops.types._ClassMethodOpDescriptor.*", "c:ops.types._ClassMethodOpDescriptor",
         "m:ops.types.INSTANCE_OP_PREFIX", "f:handlers.llm.template.Template.__get__", "f:ops.types.Operation.define.register(*"],
        ["per_instance_cache"])


def P08():
    prop(
        "P08", "Evaluation rebuilds every container with its parts evaluated",
        "Evaluating a container gives a container of the same kind with every element, key, value or field evaluated exactly once and in order, with nothing added, dropped or moved; "
        "values that are no containers, strings and bytes included, are returned as they are.",
        ["inputs"], "every nesting of tuples, named tuples, lists, mappings, default dictionaries, views and dataclasses",
        "tests evaluate a few shapes; the recursion has a separate case per container kind and every element position matters",
        ["effectful/ops/semantics.py"], [("dispatch and cases", "effectful/ops/semantics.py:evaluate and its registered cases")],
        ["f:ops.semantics.evaluate", "f:ops.semantics.evaluate.register(collections*", "f:ops.semantics.evaluate.register(object)", "f:ops.semantics.evaluate.register(str)",
         "f:ops.semantics.evaluate.register(bytes)", "f:ops.semantics.evaluate.register(tuple)", "f:ops.semantics.evaluate.register(types*",
         "f:ops.semantics.evaluate.register(effectful*", "f:ops.types._CustomSingleDispatchCallable.*", "m:ops.semantics"],
        ["recursion_covers_parts"])


def P09():
    prop(
        "P09", "Evaluating a term applies its operation to its evaluated arguments",
        "Evaluating a term evaluates all its arguments and keyword arguments under the current (or given) interpretation and then calls its operation with them in the same positions; "
        "an operation standing as an argument becomes the operation it is mapped to, and stays itself when it is mapped to no operation. Giving an interpretation has the effect of installing it for just that evaluation.",
        ["programs", "inputs"], "every term and interpretation",
        "tests evaluate particular terms under particular handlers; the structural rule is what every other part of the library relies on",
        ["effectful/ops/semantics.py"], [("term case", "effectful/ops/semantics.py:_evaluate_term"), ("operation case", "effectful/ops/semantics.py:_evaluate_operation")],
        ["f:ops.semantics.evaluate", "f:ops.semantics.evaluate.register(effectful.ops.types*", "f:internals.runtime.interpreter", "f:ops.types.Operation.__call__"],
        ["recursion_covers_parts"])


def P10():
    prop(
        "P10", "Building a term renames its bound variables without capture",
        "Every term that binds variables is built with those variables replaced, throughout the arguments they scope over and nowhere else, by fresh ones that occur in no other term; "
        "the free variables of the arguments are left as they are. So substituting an open term under a binder never captures its variables.",
        ["programs", "inputs"], "every operation with scoping annotations, every argument list and every later substitution",
        "capture needs a specific combination of nested binders and open arguments, which samples reach only by chance",
        ["effectful/ops/syntax.py", "effectful/ops/types.py"], [("renaming at construction", "effectful/ops/syntax.py:defdata"), ("bound variables", "effectful/ops/types.py:Operation.__fvs_rule__")],
        ["f:ops.syntax.defdata", "f:ops.syntax.defdata.register(*", "f:ops.types.Operation.__fvs_rule__", "f:ops.syntax.Scoped.analyze", "f:ops.types.Operation.define.register(collections*",
         "f:ops.types.Operation.define", "f:ops.semantics.evaluate.register(effectful.ops.types*", "f:ops.semantics.evaluate", "f:ops.syntax._BaseTerm.*", "c:ops.syntax._BaseTerm"],
        ["renaming_complete"])


def P11():
    prop(
        "P11", "Scoping annotations determine exactly the bound variables",
        "From the annotations of a signature, and for any arguments, an argument binds exactly the variables of the parameters whose scope lies within that argument's scope but not within the result's; "
        "unannotated parameters share the root scope and bind nothing. Inference keeps the explicit annotations, and variadic parameters and variables nested in containers count like others.",
        ["inputs", "programs"], "every signature with scoping annotations and every bound argument list",
        "tests use a few binders; the rule quantifies over the ordinals of all parameters",
        ["effectful/ops/syntax.py"], [("analysis", "effectful/ops/syntax.py:Scoped")],
        ["f:ops.syntax.Scoped.*", "c:ops.syntax.Scoped", "f:ops.types.Operation.__fvs_rule__", "f:ops.types.Operation.__signature__", "f:ops.types.Operation._signature", "c:ops.types.Annotation", "f:ops.types.Annotation.*"],
        ["scoped_postconditions"])


def P12():
    prop(
        "P12", "Free variables and types of expressions follow the term structure",
        "The free variables of an expression are the operations occurring in it less those bound around their occurrence; the type of a term is computed from its operation's annotations and its arguments' types. "
        "Neither computation runs any default rule or handler, or changes the expression.",
        ["inputs"], "every expression", "tests check chosen terms; each analysis is an interpretation that has to treat every operation and argument alike",
        ["effectful/ops/semantics.py", "effectful/ops/types.py"], [("free variables", "effectful/ops/semantics.py:fvsof"), ("types", "effectful/ops/semantics.py:typeof"), ("type rule", "effectful/ops/types.py:Operation.__type_rule__")],
        ["f:ops.semantics.fvsof", "f:ops.semantics.typeof", "f:ops.semantics._simple_type", "f:ops.types.Operation.__type_rule__", "f:ops.types.Operation.__fvs_rule__", "c:internals.unification.Box",
         "f:ops.semantics.evaluate", "f:ops.semantics.evaluate.register(effectful.ops.types*"],
        ["analyses_isolated"])


def P13():
    prop(
        "P13", "Printing gives distinct names to distinct operations",
        "The printed form of a term shows every operation, argument and keyword argument in order, and within one term two operations get the same printed name exactly when they are the same operation; "
        "printing never runs default rules or user handlers.",
        ["inputs"], "every term, including ones with many operations of the same name",
        "tests print particular terms; numbering must be right for every mix of equal names",
        ["effectful/ops/types.py"], [("string form", "effectful/ops/types.py:Term.__str__")],
        ["f:ops.types.Term.*", "f:ops.types.pretty_term", "c:ops.types.Term", "f:ops.types.Operation.__str__", "f:ops.types.Operation.__repr__"],
        ["analyses_isolated"])


def P14():
    prop(
        "P14", "Syntactic equality is structural and symmetric",
        "Two expressions are syntactically equal exactly when they have the same shape: equal operations with equal arguments and keyword arguments for terms, equal keys and elements in order for mappings and sequences, "
        "and equal values otherwise. A term never equals a value, and the answer does not depend on the order of the two sides.",
        ["inputs"], "every pair of expressions", "tests compare a handful of pairs; the cases of the dispatch have to cover both sides",
        ["effectful/ops/syntax.py", "effectful/handlers/torch.py", "effectful/handlers/jax/_terms.py"], [("cases", "effectful/ops/syntax.py:syntactic_eq")],
        ["f:ops.syntax.syntactic_eq*", "f:ops.types._CustomSingleDispatchCallable.*"],
        ["syntactic_eq_cases"])


def P15():
    prop(
        "P15", "Arithmetic on symbolic numbers builds the term of the operator used",
        "Every arithmetic, comparison, bitwise, rounding and conversion operator applied to a symbolic number, on either side, builds the term of that operator with the operands in source order, "
        "and evaluates on concrete numbers to what the operator gives. Reflected operators swap their operands; truth and hashing behave as for the underlying number.",
        ["inputs"], "every operator and every mix of symbolic and concrete operands",
        "tests use a few operators; the table has one entry per operator and per side",
        ["effectful/ops/syntax.py"], [("operator table", "effectful/ops/syntax.py:_NumberTerm")],
        ["f:ops.syntax._NumberTerm.*", "c:ops.syntax._NumberTerm", "c:ops.syntax._ComplexTerm", "c:ops.syntax._RealTerm", "c:ops.syntax._RationalTerm", "c:ops.syntax._IntegralTerm", "c:ops.syntax._BoolTerm",
         "f:ops.types.Operation.define.register(types.Builtin*"],
        ["number_table"])


def P16():
    prop(
        "P16", "Terms take the form their operation's return type calls for",
        "A term is given the representation registered for its operation's computed type, which supports that type's syntax: calls on symbolic functions, iteration on symbolic streams, field access on symbolic dataclasses, arithmetic on numbers. "
        "It keeps its operation, arguments and keyword arguments, and is never represented as something else.",
        ["inputs", "programs"], "every operation return type and argument list",
        "tests cover the types they happen to use",
        ["effectful/ops/syntax.py"], [("term construction", "effectful/ops/syntax.py:defdata"), ("representations", "effectful/ops/syntax.py")],
        ["f:ops.syntax.defdata*", "f:ops.syntax._BaseTerm.*", "c:ops.syntax._BaseTerm", "c:ops.syntax._*Term", "f:ops.syntax._CallableTerm.*", "f:ops.syntax._IterableTerm.*", "f:ops.syntax._IteratorTerm.*", "f:ops.syntax._DataclassTermMeta.*",
         "f:ops.syntax._construct_dataclass_term", "c:ops.syntax._DataclassTermMeta", "f:ops.semantics.typeof", "f:ops.semantics._simple_type", "m:ops.syntax*"],
        ["term_accessors"])


def P17():
    prop(
        "P17", "Functions, application, streams and traced functions as terms",
        "A symbolic function binds its parameters in its body; applying one to arguments evaluates the body with each parameter replaced by the argument in its position or of its name, "
        "and only when the function is known. A traced Python function, and a symbolic stream, stand for what the original computes.",
        ["programs", "inputs"], "every symbolic function, argument list and stream",
        "beta reduction is exercised on a few lambdas",
        ["effectful/ops/syntax.py"], [("functions", "effectful/ops/syntax.py:deffn"), ("application", "effectful/ops/syntax.py:_CallableTerm"), ("streams", "effectful/ops/syntax.py:defstream"), ("tracing", "effectful/ops/syntax.py:trace")],
        ["f:ops.syntax.deffn", "f:ops.syntax._CallableTerm.*", "c:ops.syntax._CallableTerm", "f:ops.syntax.defstream", "f:ops.syntax.trace", "f:ops.syntax._IterableTerm.*", "f:ops.syntax._IteratorTerm.*", "c:ops.syntax._IterableTerm", "c:ops.syntax._IteratorTerm", "m:ops.syntax*"],
        ["positional_zip"])


def P18():
    prop(
        "P18", "Handler classes implement exactly the operations they declare",
        "An instance of a handler class is an interpretation whose keys are exactly the operations its class and bases declare implementations for, the most derived one winning, each bound to that instance. "
        "Declaring implementations in one class never affects another class.",
        ["programs", "histories"], "every class hierarchy and definition order of handler classes",
        "registration happens through class-creation side effects whose leakage between classes shows only for particular definition orders",
        ["effectful/ops/syntax.py"], [("class protocol", "effectful/ops/syntax.py:ObjectInterpretation"), ("declaration", "effectful/ops/syntax.py:implements")],
        ["f:ops.syntax.ObjectInterpretation.*", "c:ops.syntax.ObjectInterpretation", "f:ops.syntax._ImplementedOperation.*", "c:ops.syntax._ImplementedOperation", "f:ops.syntax.implements", "c:ops.types.Interpretation", "f:ops.types.Interpretation.*",
         "c:ops.types._InterpretationMeta", "f:ops.types._InterpretationMeta.*"],
        ["implementations_reset"])


def P19():
    prop(
        "P19", "Product interpretations run each component on its own arguments",
        "Under a product of named interpretations every operation is run once per component, each seeing only its own component of every argument, and the results are collected under the component names; "
        "components may refer to one another's values for the same call but are computed at most once per call. Values that are no products are shared by all components, and operations outside the product behave as before.",
        ["programs", "inputs"], "every number of components, operation and nesting of product values in arguments",
        "tests use small products; sharing and call-by-need show only with cross-component references",
        ["effectful/internals/product_n.py"], [("products", "effectful/internals/product_n.py:productN")],
        ["f:internals.product_n.*", "c:internals.product_n.*", "m:internals.product_n*"],
        ["call_by_need"])


def P20():
    prop(
        "P20", "Unification finds a most general consistent substitution or fails",
        "Unifying a declared type with an actual one yields a substitution that makes the declared type accept the actual one, extends the substitution given, keeps earlier bindings consistent with later ones, and leaves its inputs alone; "
        "when no substitution exists it fails with a type error instead of returning one.",
        ["inputs"], "every pair of type expressions and every prior substitution",
        "tests sample pairs of types; each rule has to compose with every other",
        ["effectful/internals/unification.py"], [("unification rules", "effectful/internals/unification.py:unify")],
        ["f:internals.unification.unify", "f:internals.unification._unify*", "f:internals.unification._freshen", "f:internals.unification._get_typeddict_hints", "f:internals.unification._is_typeddict_type", "f:internals.unification.canonicalize*",
         "f:internals.unification.substitute", "f:internals.unification.freetypevars", "m:internals.unification*"],
        ["substitution_threaded"])


def P21():
    prop(
        "P21", "Type traversals rebuild a type with exactly its parts replaced",
        "Substituting in, evaluating, canonicalising and collecting the variables of a type expression visit every part of it once, whatever its form (generic, union, annotated, literal, callable, alias, new type, parameter specification), "
        "and rebuild the same form; literals and annotation metadata are kept.",
        ["inputs"], "every type expression", "each form is a separate case and tests reach some",
        ["effectful/internals/unification.py"], [("type traversal", "effectful/internals/unification.py:TypeEvaluator"), ("canonical forms", "effectful/internals/unification.py:canonicalize")],
        ["f:internals.unification.TypeEvaluator*", "c:internals.unification.TypeEvaluator", "f:internals.unification.canonicalize*", "f:internals.unification.substitute", "f:internals.unification.freetypevars"],
        ["type_cases"])


def P22():
    prop(
        "P22", "The type computed for a value describes all of it",
        "The type inferred for a value is that of the value's own class, applied to the inferred types of its contents: all the element, key and value types of a collection, the positions of a tuple, the signature of a callable, the declared type of a term.",
        ["inputs"], "every nesting of collections, callables, terms and operations", "tests infer types of a few values",
        ["effectful/internals/unification.py"], [("inference", "effectful/internals/unification.py:nested_type")],
        ["f:internals.unification.nested_type*", "c:internals.unification.Box", "f:ops.types.Operation.__type_rule__"],
        [])


def P23():
    prop(
        "P23", "Operators and methods of symbolic tensors apply the tensor operation",
        "Every operator on a symbolic torch tensor, on either side, applies the torch operation that the operator denotes on tensors, with the operands in source order. "
        "Torch functions called on symbolic tensors go to the corresponding operation with all their arguments.",
        ["inputs"], "every operator, torch function and mix of symbolic and concrete operands",
        "the table has an entry per operator; tests use a few",
        ["effectful/handlers/torch.py"], [("operator table", "effectful/handlers/torch.py:_TensorTerm"), ("torch function protocol", "effectful/handlers/torch.py:_torch_function")],
        ["f:handlers.torch._TensorTerm.*", "c:handlers.torch._TensorTerm", "f:handlers.torch._torch_function", "f:handlers.torch._EagerTensorTerm.__torch_function__", "f:handlers.torch._register_torch_op", "m:handlers.torch*"],
        ["torch_operators"])


def P24():
    prop(
        "P24", "Tensors with named dimensions behave as the tensors they stand for",
        "A concrete tensor with named dimensions reports the shape, size, rank, type, device and gradient state of its positional part, indexes only its positional dimensions, and prints and converts as the tensor it stands for; "
        "operations on it apply to the positional dimensions for each index of the named ones.",
        ["inputs"], "every tensor, set of named dimensions and accessor",
        "accessors differ only when named and positional dimensions are mixed in particular orders",
        ["effectful/handlers/torch.py"], [("eager tensors", "effectful/handlers/torch.py:_EagerTensorTerm")],
        ["f:handlers.torch._EagerTensorTerm.*", "c:handlers.torch._EagerTensorTerm", "f:ops.syntax.defdata.register(torch.Tensor)", "f:ops.syntax.syntactic_eq.register(torch.Tensor)", "f:handlers.torch.torch_getitem", "f:handlers.torch._getitem_ellipsis_and_none", "f:internals.tensor_utils*"],
        [])


def P25():
    prop(
        "P25", "Indexing a tensor with any key selects what plain indexing selects",
        "Indexing with any mix of integers, slices, ellipses, None, tensors and named indices selects the elements that indexing the plain tensor selects, keeps the dimension order that torch gives, "
        "and turns named indices into named dimensions of the size of the dimension they index.",
        ["inputs"], "every key of every length, on tensors of every rank",
        "keys combine freely; tests fix a few combinations",
        ["effectful/handlers/torch.py", "effectful/internals/tensor_utils.py", "effectful/handlers/jax/_handlers.py"],
        [("torch indexing", "effectful/handlers/torch.py:torch_getitem"), ("key desugaring", "effectful/internals/tensor_utils.py:_desugar_tensor_index"), ("jax indexing", "effectful/handlers/jax/_handlers.py:jax_getitem")],
        ["f:handlers.torch.torch_getitem", "f:handlers.torch._getitem_ellipsis_and_none", "f:internals.tensor_utils*", "f:handlers.jax._handlers.jax_getitem", "f:handlers.torch._TensorTerm.__getitem__", "f:handlers.jax._terms._ArrayTerm.__getitem__",
         "f:handlers.torch._EagerTensorTerm.__getitem__", "f:handlers.jax._terms._IndexUpdate*", "m:internals.tensor_utils*"],
        ["desugar_symmetric"])


def P26():
    prop(
        "P26", "Named dimensions have one size each",
        "The named dimensions of an expression are exactly the index operations applied to concrete arrays in it, each with the size of the array dimension it indexes; "
        "an index used with two different sizes is an error, reported before anything is computed.",
        ["inputs"], "every expression with named dimensions", "conflicts are sampled by a few tests",
        ["effectful/handlers/torch.py", "effectful/handlers/jax/_handlers.py"], [("size collection", "effectful/handlers/torch.py:sizesof"), ("size collection", "effectful/handlers/jax/_handlers.py:sizesof")],
        ["f:handlers.torch.sizesof", "f:handlers.jax._handlers.sizesof", "f:handlers.indexed.indices_of"],
        ["size_conflict_raises"])


def P27():
    prop(
        "P27", "Partial evaluation applies an operation over all named dimensions",
        "Applying a torch or jax operation to arrays with named dimensions computes it for every index of every named dimension of every argument, and gives back an array with those same named dimensions; "
        "an operation on arrays that are not all concrete stays a term, with its arguments in place.",
        ["inputs"], "every operation, argument structure and set of named dimensions",
        "the order of dimensions and mixed concrete or symbolic arguments are combinatorial",
        ["effectful/handlers/torch.py", "effectful/handlers/jax/_handlers.py"], [("torch", "effectful/handlers/torch.py:_partial_eval"), ("jax", "effectful/handlers/jax/_handlers.py:_partial_eval")],
        ["f:handlers.torch._partial_eval", "f:handlers.torch._register_torch_op", "f:handlers.jax._handlers._partial_eval", "f:handlers.jax._handlers._register_jax_op*", "f:handlers.jax._handlers.is_eager_array", "f:handlers.torch.sizesof", "f:handlers.jax._handlers.sizesof",
         "f:handlers.torch.bind_dims*", "f:handlers.jax._handlers.bind_dims*", "m:handlers.torch*", "m:handlers.jax._handlers*"],
        ["all_dims_bound"])


def P28():
    prop(
        "P28", "Binding and unbinding named dimensions are inverse and order-preserving",
        "Binding named dimensions of a value turns them into leading positional dimensions in the order given and leaves every other dimension, named or positional, in place; unbinding gives the leading dimensions names in the order given. "
        "Values other than arrays are mapped through, and names that do not occur are ignored.",
        ["inputs"], "every value, set and order of dimensions",
        "dimension order errors show only for particular shapes",
        ["effectful/handlers/torch.py", "effectful/handlers/jax/_handlers.py", "effectful/handlers/pyro.py", "effectful/handlers/numpyro.py"],
        [("torch", "effectful/handlers/torch.py:bind_dims/unbind_dims"), ("jax", "effectful/handlers/jax/_handlers.py:bind_dims/unbind_dims")],
        ["f:handlers.torch.bind_dims*", "f:handlers.torch.unbind_dims*", "f:handlers.jax._handlers.bind_dims*", "f:handlers.jax._handlers.unbind_dims*"],
        [])


def P29():
    prop(
        "P29", "Function transforms treat named dimensions as batch dimensions",
        "Gradients, Jacobians, Hessians, vmap, jvp, vjp and jit of functions on arrays with named dimensions pass every argument, keyword argument and option on to the underlying transform, and compute it for each index of the named dimensions of arguments and captured values alike.",
        ["inputs", "programs"], "every function, argument and option list",
        "options and keyword arguments are rarely exercised",
        ["effectful/handlers/torch.py", "effectful/handlers/jax/_handlers.py"], [("torch transforms", "effectful/handlers/torch.py:_indexed_func_wrapper"), ("jax transforms", "effectful/handlers/jax/_handlers.py:_indexed_func_wrapper")],
        ["f:handlers.torch._indexed_func_wrapper*", "c:handlers.torch._indexed_func_wrapper*", "f:handlers.torch.grad", "f:handlers.torch.jac*", "f:handlers.torch.hessian", "f:handlers.torch.jvp", "f:handlers.torch.vjp", "f:handlers.torch.vmap",
         "f:handlers.jax._handlers._indexed_func_wrapper*", "c:handlers.jax._handlers._indexed_func_wrapper*", "f:handlers.jax._handlers.jit", "m:handlers.torch*", "m:handlers.jax*"],
        ["transforms_forward"])


def P30():
    prop(
        "P30", "Operators and methods of symbolic arrays apply the array operation",
        "Every operator, method and property of a symbolic jax array applies the jax operation of that name, with the array first and all other arguments passed on; reflected operators swap their operands.",
        ["inputs"], "every operator and method, and every mix of symbolic and concrete operands",
        "there are about ninety entries; tests use a few",
        ["effectful/handlers/jax/_terms.py"], [("operator and method table", "effectful/handlers/jax/_terms.py:_ArrayTerm")],
        ["f:handlers.jax._terms.*", "c:handlers.jax._terms.*", "m:handlers.jax._terms*", "f:ops.syntax.defdata.register(jax.Array)", "f:ops.syntax.syntactic_eq.register(jax.Array)", "m:handlers.jax*"],
        ["jax_operators"])


def P31():
    prop(
        "P31", "Index sets select, combine and slice worlds consistently",
        "An index set denotes for each name the set of worlds selected; union joins name by name, gathering selects along every named dimension of an expression exactly the worlds listed, stacking puts values at their positions along a new named dimension, and the conditional takes each element from the branch its condition selects.",
        ["inputs"], "every index set, name and expression",
        "tests use one or two names and small ranges",
        ["effectful/handlers/indexed.py"], [("index sets", "effectful/handlers/indexed.py")],
        ["f:handlers.indexed.*", "c:handlers.indexed.*", "m:handlers.indexed*"],
        ["cond_branches"])


def P32():
    prop(
        "P32", "Symbolic pyro distributions rebuild the distribution they came from",
        "Evaluating a pyro distribution rebuilds one of the same family with every parameter evaluated and none lost, swapped or changed; the wrappers for expanding, masking, independence and folding keep their base distribution and settings.",
        ["inputs"], "every distribution family and parameterisation",
        "there are some forty families; tests sample some and construct them one way",
        ["effectful/handlers/pyro.py"], [("per-family cases", "effectful/handlers/pyro.py"), ("constructor wrapper", "effectful/handlers/pyro.py:_register_distribution_op")],
        ["f:ops.semantics.evaluate.register(pyro*", "f:handlers.pyro._register_distribution_op", "m:handlers.pyro*"],
        ["pyro_embeddings"])


def P33():
    prop(
        "P33", "Indexed pyro distributions sample, score and report per index",
        "A pyro distribution with named dimensions has the shapes, support, constraints and capabilities of its base distribution, and samples and scores once per index of the named dimensions, whose results carry those names.",
        ["inputs"], "every distribution with named dimensions, sample shape and value",
        "shape bookkeeping depends on combinations of batch, event and named dimensions",
        ["effectful/handlers/pyro.py", "effectful/handlers/torch.py"], [("distribution terms", "effectful/handlers/pyro.py:_DistributionTerm")],
        ["f:handlers.pyro._DistributionTerm.*", "c:handlers.pyro._DistributionTerm", "f:handlers.torch.bind_dims.register(pyro*", "f:handlers.torch.unbind_dims.register(pyro*", "f:handlers.pyro.Naming.*", "c:handlers.pyro.Naming"],
        ["term_accessors"])


def P34():
    prop(
        "P34", "The pyro shim translates sample sites faithfully and undoes itself",
        "Sample statements run under the shim keep their name, observation, mask and inference settings, draw once, and return a value whose batch dimensions are named; the shim leaves pyro's stack and the messages of other sites as it found them, also when the model fails.",
        ["programs", "fault_sequences"], "every model, and every point at which it may fail",
        "tests run a few models to completion",
        ["effectful/handlers/pyro.py"], [("shim", "effectful/handlers/pyro.py:PyroShim"), ("naming", "effectful/handlers/pyro.py:Naming")],
        ["f:handlers.pyro.PyroShim.*", "c:handlers.pyro.PyroShim", "f:handlers.pyro.Naming.*", "c:handlers.pyro.Naming", "f:handlers.pyro.pyro_sample", "f:handlers.pyro.pyro_module_shim*", "c:handlers.pyro.pyro_module_shim*", "m:handlers.pyro*"],
        ["shim_reentrant"])


def P35():
    prop(
        "P35", "Each numpyro distribution operation, term and evaluation agree",
        "For every distribution family the operation, the term class and the evaluation of a concrete instance use the same constructor and the same parameters in the same order: evaluating a concrete distribution rebuilds it with its own parameters, and calling the operation on concrete parameters builds that distribution.",
        ["inputs"], "every family and parameterisation", "there are some forty families in three places each; tests sample a few",
        ["effectful/handlers/numpyro.py"], [("triples", "effectful/handlers/numpyro.py")],
        ["f:ops.semantics.evaluate.register(numpyro*", "f:handlers.numpyro.*Term.__init__", "c:handlers.numpyro.*Term", "f:handlers.numpyro.?*", "m:handlers.numpyro*"],
        ["numpyro_triples"])


def P36():
    prop(
        "P36", "Indexed numpyro distributions sample, score and report per index",
        "A numpyro distribution with named dimensions behaves as its base distribution for every index: sampling, scoring, moments, entropy and enumeration compute once per index and their results carry the named dimensions; "
        "while any parameter is symbolic every such query stays a term of that query.",
        ["inputs"], "every distribution with named dimensions, sample shape and value",
        "shape bookkeeping depends on combinations of batch, event and named dimensions",
        ["effectful/handlers/numpyro.py", "effectful/handlers/jax/_handlers.py"], [("distribution terms", "effectful/handlers/numpyro.py:_DistributionTerm")],
        ["f:handlers.numpyro._DistributionTerm.*", "c:handlers.numpyro._DistributionTerm", "f:handlers.numpyro._DistributionMethodTerm.*", "c:handlers.numpyro._DistributionMethodTerm", "f:handlers.numpyro._broadcast_to_named", "f:handlers.numpyro.expand_to_batch_shape",
         "f:handlers.numpyro.Naming.*", "c:handlers.numpyro.Naming", "f:handlers.jax._handlers.bind_dims.register(numpyro*", "f:handlers.jax._handlers.unbind_dims.register(numpyro*"],
        ["numpyro_methods"])


def P37():
    prop(
        "P37", "A failed template call leaves the agent's history unchanged",
        "An agent's history is extended by a template call only when the call completes, all at once and only by the outermost call; a call that fails at any point, or a nested call, leaves it as it was. "
        "The messages of one agent are never visible to another agent or to templates of no agent.",
        ["fault_sequences", "histories"], "every point of failure in every sequence and nesting of template calls",
        "tests make the model fail at one or two points",
        ["effectful/handlers/llm/completions.py", "effectful/handlers/llm/template.py"], [("transaction", "effectful/handlers/llm/completions.py:LiteLLMProvider._call"), ("per-instance history", "effectful/handlers/llm/template.py:Agent")],
        ["f:handlers.llm.completions.LiteLLMProvider.*", "c:handlers.llm.completions.LiteLLMProvider", "f:handlers.llm.completions._get_history", "f:handlers.llm.completions.append_message", "f:handlers.llm.completions._make_message",
         "f:handlers.llm.template.Agent.*", "c:handlers.llm.template.Agent", "f:handlers.llm.template.Template.__get__", "c:handlers.llm.completions._NoActiveHistoryException"],
        ["history_transaction"],
        state=[("agent history", "the messages of completed calls", "effectful/handlers/llm/template.py:Agent.__history__")])


def P38():
    prop(
        "P38", "Retrying keeps failed attempts out of the history",
        "When decoding a response fails, the failed message and its feedback are shown to the model on the next attempt only; after success the history gains exactly the successful message, and when attempts run out the original error is raised and the history is unchanged. "
        "Failing tools are reported to the model as that call's result only for the exception types configured, and raise otherwise.",
        ["fault_sequences", "histories"], "every sequence of failing and succeeding attempts",
        "tests fix a short sequence of failures",
        ["effectful/handlers/llm/completions.py"], [("retrying", "effectful/handlers/llm/completions.py:RetryLLMHandler"), ("errors", "effectful/handlers/llm/completions.py:DecodingError")],
        ["f:handlers.llm.completions.RetryLLMHandler.*", "c:handlers.llm.completions.RetryLLMHandler", "f:handlers.llm.completions.*Error.*", "c:handlers.llm.completions.*Error", "f:handlers.llm.completions.append_message", "f:handlers.llm.completions._make_message", "f:handlers.llm.completions._get_history"],
        ["retry_isolated"])


def P39():
    prop(
        "P39", "Tool calls run the named tool with the decoded arguments, once, in order",
        "Every tool call the model makes is decoded against the tool it names and that tool's signature, run once with exactly the decoded arguments, in the order given, and answered with its result under its own call id; the exchange continues until the model answers without calling tools. "
        "A call that cannot be decoded raises an error carrying the call and the message, before any tool of that response runs.",
        ["inputs", "histories"], "every response of the model and every set of tools",
        "tests script a few responses",
        ["effectful/handlers/llm/completions.py", "effectful/handlers/llm/encoding.py"], [("decoding", "effectful/handlers/llm/completions.py:call_assistant"), ("execution", "effectful/handlers/llm/completions.py:call_tool")],
        ["f:handlers.llm.completions.call_assistant", "f:handlers.llm.completions.call_tool", "f:handlers.llm.completions.completion", "f:handlers.llm.completions.LiteLLMProvider._call", "f:handlers.llm.encoding._validate_tool*", "f:handlers.llm.encoding._serialize_tool*",
         "f:handlers.llm.encoding.TypeToPydanticType.register(effectful.handlers*", "c:handlers.llm.encoding.DecodedToolCall", "c:handlers.llm.completions.*Error", "m:handlers.llm.completions*", "c:handlers.llm.completions._BoxedResponse"],
        ["errors_wrapped"])


def P40():
    prop(
        "P40", "A template's tools are those in its lexical scope",
        "A template sees the variables of the scopes that lexically enclose its definition, with its arguments shadowing them, and of its callers none; the tools offered to the model are exactly the tools and templates among these and of the agents among these, "
        "each once, without itself unless declared recursive. A template whose prompt names something not in scope is rejected when defined.",
        ["programs"], "every nesting of functions, classes and modules around a definition",
        "tests define templates in a few places",
        ["effectful/handlers/llm/template.py", "effectful/handlers/llm/completions.py"], [("lexical capture", "effectful/handlers/llm/template.py:Template.define"), ("tool collection", "effectful/handlers/llm/completions.py:collect_tools")],
        ["f:handlers.llm.template.Template.*", "c:handlers.llm.template.Template", "f:handlers.llm.template.Tool.*", "c:handlers.llm.template.Tool", "f:handlers.llm.template._IsRecursive*", "c:handlers.llm.template._IsRecursive*", "f:handlers.llm.template._is_recursive_signature",
         "f:handlers.llm.completions.collect_tools", "f:handlers.llm.completions.LexicalReaders.*", "c:handlers.llm.completions.LexicalReaders", "f:handlers.llm.completions._LexicalVariableTool.*", "c:handlers.llm.completions._LexicalVariableTool", "f:handlers.llm.completions.LiteLLMProvider._call", "m:handlers.llm.template*"],
        ["frames_lexical"])


def P41():
    prop(
        "P41", "Prompts contain the text and values of the template in order",
        "The user message of a call is the template's text with every field replaced by the encoding of the value it names, conversions and format specifications applied, images and other blocks kept as blocks in place; nothing is lost, repeated or reordered. "
        "Turning an encoded value into message blocks keeps all its text, so that joined together it is the JSON of the value.",
        ["inputs"], "every template text and argument value",
        "tests render some templates; interleavings of text and blocks are unbounded",
        ["effectful/handlers/llm/completions.py", "effectful/handlers/llm/encoding.py"], [("rendering", "effectful/handlers/llm/completions.py:call_user"), ("content blocks", "effectful/handlers/llm/encoding.py:to_content_blocks")],
        ["f:handlers.llm.completions.call_user", "f:handlers.llm.completions.call_system", "f:handlers.llm.encoding.to_content_blocks", "m:handlers.llm.encoding*", "f:handlers.llm.completions.append_message", "f:handlers.llm.completions._make_message", "m:handlers.llm.completions*"],
        ["buffers_flushed"])


def P42():
    prop(
        "P42", "Encoding and decoding of a type use one layout",
        "For every supported type, the layout the encoder writes, the layout the decoder reads and the schema announced are the same: same field names, order, nesting and element codecs, with the decoding context passed on to parts. Types that cannot be represented are refused.",
        ["inputs"], "every type expression and value of it", "round trips are tested for some types",
        ["effectful/handlers/llm/encoding.py"], [("codecs", "effectful/handlers/llm/encoding.py:TypeToPydanticType")],
        ["f:handlers.llm.encoding.TypeToPydanticType*", "c:handlers.llm.encoding.TypeToPydanticType", "f:handlers.llm.encoding._serialize*", "f:handlers.llm.encoding._validate_complex", "f:handlers.llm.encoding._validate_image", "f:handlers.llm.encoding._validate_tool*", "f:handlers.llm.encoding._inline_refs", "c:handlers.llm.encoding.*",
         "f:handlers.llm.encoding.Encodable*", "m:handlers.llm.encoding*", "f:handlers.llm.encoding._create_typed*"],
        ["codec_pairs"])


def P43():
    prop(
        "P43", "Generated functions are checked before they run",
        "A function the model generates is parsed, checked to end in a function definition of the required parameters, checked against the template's source when available, compiled and only then executed, and the function returned is the one defined last; any of these checks failing prevents execution. "
        "Execution sees the template's names and cannot rebind them.",
        ["inputs"], "every generated source and expected signature", "tests decode a few sources",
        ["effectful/handlers/llm/encoding.py", "effectful/handlers/llm/evaluation.py"], [("pipeline", "effectful/handlers/llm/encoding.py:_pydantic_callable"), ("splicing", "effectful/handlers/llm/evaluation.py:splice_into_source")],
        ["f:handlers.llm.encoding.TypeToPydanticType.register(collections.abc.Callable)", "f:handlers.llm.encoding._validate_signature*", "f:handlers.llm.evaluation.scan_non_nestable", "f:handlers.llm.evaluation.splice_into_source", "f:handlers.llm.evaluation._recover_template_def",
         "f:handlers.llm.evaluation._find_def_at_lineno", "f:handlers.llm.evaluation._def_nodes", "f:handlers.llm.evaluation.parse", "f:handlers.llm.evaluation.compile", "f:handlers.llm.evaluation.exec", "f:handlers.llm.evaluation.type_check", "f:handlers.llm.evaluation.UnsafeEvalProvider.*", "c:handlers.llm.evaluation.UnsafeEvalProvider",
         "f:handlers.llm.encoding.TypeToPydanticType.register(types.CodeType)", "c:handlers.llm.encoding.SynthesizedFunction", "f:handlers.llm.encoding._create_typed*"],
        ["checks_dominate_exec"])


def P44():
    prop(
        "P44", "Restricted execution installs its guards last",
        "Code run by the restricted provider is compiled by the restricted compiler under the policy given and executed with the guarded builtins, attribute access, iteration and printing, which neither the supplied scope nor earlier code can replace; "
        "the bindings it makes are returned to the scope, the guards are not.",
        ["inputs"], "every generated program and every scope", "tests run some programs",
        ["effectful/handlers/llm/evaluation.py"], [("restricted provider", "effectful/handlers/llm/evaluation.py:RestrictedEvalProvider")],
        ["f:handlers.llm.evaluation.RestrictedEvalProvider.*", "c:handlers.llm.evaluation.RestrictedEvalProvider", "f:handlers.llm.evaluation._StdoutPrintCollector.*", "c:handlers.llm.evaluation._StdoutPrintCollector"],
        ["guards_last"])


def P45():
    prop(
        "P45", "A session keeps its bindings and output to itself",
        "Snippets run in one session see the bindings of earlier ones and return exactly the output they produced, tracebacks included; a failing snippet leaves the session usable. "
        "Each template call has its own session, whose bindings never reach the surrounding scope or another call.",
        ["histories", "fault_sequences"], "every sequence of snippets, failing ones included, and nesting of calls",
        "tests run short sequences",
        ["effectful/handlers/llm/evaluation.py", "effectful/handlers/llm/completions.py"], [("session", "effectful/handlers/llm/evaluation.py:ReplSession"), ("session scope", "effectful/handlers/llm/completions.py:PythonRepl")],
        ["f:handlers.llm.evaluation.ReplSession.*", "c:handlers.llm.evaluation.ReplSession", "f:handlers.llm.evaluation._repl_session", "f:handlers.llm.evaluation._OpCommandCompiler.*", "c:handlers.llm.evaluation._OpCommandCompiler", "f:handlers.llm.completions.PythonRepl.*", "c:handlers.llm.completions.PythonRepl",
         "f:handlers.llm.evaluation._splice_repl", "f:handlers.llm.encoding.TypeToPydanticType.register(types.CodeType)"],
        ["session_scoped"])


def P46():
    prop(
        "P46", "Type checking reports the checked region's errors and cleans up",
        "Checking source fails exactly when the checker reports an error inside the region given, open ends being unbounded; a checker that could not run is an error of its own and never counts as success. "
        "Its temporary files are removed however the check ends.",
        ["inputs", "fault_sequences"], "every source, region and checker outcome", "tests check a few sources and never fail the checker midway",
        ["effectful/handlers/llm/evaluation.py"], [("mypy run", "effectful/handlers/llm/evaluation.py:_mypy_check_region"), ("region filter", "effectful/handlers/llm/evaluation.py:_region_errors")],
        ["f:handlers.llm.evaluation._mypy_check_region", "f:handlers.llm.evaluation._region_errors", "f:handlers.llm.evaluation.*.type_check", "f:handlers.llm.evaluation.splice_into_source", "f:handlers.llm.evaluation._splice_repl", "m:handlers.llm.evaluation*"],
        ["tempdir_removed"])


for _f in [v for k, v in sorted(globals().items()) if k.startswith("P") and k[1:].isdigit()]:
    _f()

NOT_APPLICABLE = []


def na(id, title, statement, over, text, why, files, mech, reason):
    P_NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=[], observe=[]))
    NOT_APPLICABLE.append(dict(property=id, reason=reason))


P_NA = []
na("N01", "Batched computation equals computing per index, numerically",
   "For every operation, gradient and named dimension, the numbers computed with named dimensions equal those computed separately for each index, up to floating-point tolerance.",
   ["inputs"], "every array value and operation", "numerical equality over all values", ["effectful/handlers/torch.py", "effectful/handlers/jax/_handlers.py"],
   [("vmap", "effectful/handlers/torch.py:_partial_eval")],
   "numeric equality of vectorised kernels depends on array values and on torch/jax kernels; no static argument over this repository's source bounds it")
na("N02", "Log densities and samples of indexed distributions are numerically right",
   "For every distribution with named dimensions, log densities, moments and the law of samples equal those of the plain distribution at each index.",
   ["inputs"], "every parameter value and random seed", "laws of samples and floating-point values", ["effectful/handlers/pyro.py", "effectful/handlers/numpyro.py"],
   [("distribution terms", "effectful/handlers/pyro.py:_DistributionTerm")],
   "a statistical and numerical claim about third-party samplers and densities; only parameter plumbing (P32, P33, P35, P36) is visible in the source")
na("N03", "Decoding an encoded value gives an equal value",
   "For every value of every supported type, decoding its encoding yields an equal value.",
   ["inputs"], "every value", "values are unbounded", ["effectful/handlers/llm/encoding.py"], [("codecs", "effectful/handlers/llm/encoding.py")],
   "equality after a round trip runs through pydantic, PIL and json at run time; statically only the agreement of the two layouts can be decided, which is P42")
na("N04", "Evaluation terminates and does not depend on the order of reduction",
   "Evaluating any well-typed term under handlers that terminate terminates, and gives the same result in whichever order its subterms are reduced.",
   ["programs"], "every term and handler", "termination and confluence for arbitrary user handlers", ["effectful/ops/semantics.py"], [("evaluation", "effectful/ops/semantics.py:evaluate")],
   "termination and confluence for arbitrary user-supplied handlers are undecidable and are not consequences of this repository's source alone")
na("N05", "Model answers satisfy the template's request",
   "The value a template call returns satisfies what its prompt asks for.",
   ["inputs"], "every prompt and model", "depends on the model", ["effectful/handlers/llm/completions.py"], [("provider", "effectful/handlers/llm/completions.py:LiteLLMProvider")],
   "depends on an external language model; nothing in the source determines it")
