TRUST = ("Trusts the interpreter in sa/ (its model of Python and of the built-in types) and that the analysed code runs as written; "
         "a construct it cannot represent gives an UNDECIDED line and no verdict. ")
AI = "summary-based abstract interpretation of the syntax tree (path-sensitive value provenance)"

prop("C04", "Equal objects have equal hashes",
     "Whenever two objects of the library compare equal and are hashable, their hashes are equal, so that sets and dictionaries never hold two equal members. "
     "This also holds after an object has been hashed once, and for objects restored from a pickle under another hash seed.",
     ["inputs", "histories"], "all pairs of formulas, terms, functions, actions and metrics, before and after hashing, copying and pickling",
     TESTS + "agreement of equality and hash is a statement about every pair of objects, and stale hashes need a second interpreter.",
     ["pddl/logic/base.py", "pddl/logic/terms.py", "pddl/logic/predicates.py", "pddl/logic/functions.py", "pddl/logic/effects.py", "pddl/action.py", "pddl/helpers/cache_hash.py"],
     [("__hash__ and __eq__ of every value class", "pddl/logic, pddl/action.py"), ("remembered hash", "pddl/helpers/cache_hash.py")],
     AI + ": hash reads only what equality fixes",
     TRUST + "For every class with equality: every hash path is rewritten under the equalities of every true path of __eq__.")

prop("C05", "Equality compares kind and every component",
     "Two objects of the library are equal only if they are of the same kind and agree in every component given at construction (constants: in their name, whatever their declared type), and unequal only if they differ in one of these. "
     "Equality is reflexive and symmetric.",
     ["inputs"], "all pairs of domains, problems, plans, actions, formulas, effects, functions, metrics and terms",
     TESTS + "a component that equality forgets shows only for two objects that differ in just that component.",
     ["pddl/core.py", "pddl/action.py", "pddl/logic/base.py", "pddl/logic/terms.py", "pddl/logic/predicates.py", "pddl/logic/functions.py", "pddl/logic/effects.py"],
     [("__eq__ of every class", "pddl/core.py, pddl/action.py, pddl/logic")],
     AI + ": facts on every True path of equality cover every constructor argument",
     TRUST + "Components are found by interpreting the constructor, not by name.")

prop("C06", "Ordering is strict, total within a kind, and agrees with equality",
     "For any two objects of the same orderable kind exactly one of less, equal, greater holds, and less-than is transitive. ",
     ["inputs"], "all pairs and triples of objects of one orderable kind",
     TESTS + "sorted output depends on the order being strict and total for every pair.",
     ["pddl/logic/base.py", "pddl/logic/terms.py", "pddl/logic/predicates.py", "pddl/logic/functions.py", "pddl/logic/effects.py", "pddl/requirements.py"],
     [("__lt__ of every class", "pddl/logic, pddl/requirements.py")],
     AI + " and a finite sign table over the compared components",
     TRUST + "Components themselves are assumed to be totally ordered (strings, numbers, tuples and sorted lists of such, or objects with an order that is itself checked).")

prop("C01", "Printed formulas, effects, actions and plan steps parse back as themselves",
     "The text printed for any formula, effect, action or plan step that the grammar can express parses back to an object equal to the printed one. "
     "Operators keep their keyword, operands keep their order and number, and nested parts keep their place. "
     "Typed parameters and quantified variables keep their types.",
     ["inputs"], "all formulas, effects, actions and plan steps that can be written in the supported language",
     TESTS + "a printing slip in one operator, one arity or one typing shape needs that very object to be printed and read again.",
     ["pddl/logic/base.py", "pddl/logic/predicates.py", "pddl/logic/functions.py", "pddl/logic/effects.py", "pddl/logic/helpers.py", "pddl/action.py",
      "pddl/parser/grammar.lark", "pddl/parser/domain.py", "pddl/parser/problem.py"],
     [("__str__ of every printed class", "pddl/logic, pddl/action.py"), ("callbacks of the parsers", "pddl/parser/domain.py, problem.py, plan.py")],
     AI + ": printed template matched against the grammar and re-read through the interpreted callbacks",
     TRUST + "The template of __str__ is matched symbolically with the productions, and the value the callbacks build from the match is compared, field by field, with the printed object.")

prop("C20", "Parsing is total: a proper value or a proper error",
     "For every text the grammar accepts, the parser either returns an object of the documented kind or raises one of the errors of the library (or a value error); "
     "no production lacks a meaning, and no text makes the parser fail with an unrelated error or hand back a half-built value.",
     ["inputs"], "all texts accepted by the grammars of domains, problems and plans",
     TESTS + "every production in every context of use has to be covered, including the ones no fixture contains.",
     ["pddl/parser/base.py", "pddl/parser/domain.py", "pddl/parser/problem.py", "pddl/parser/plan.py", "pddl/parser/grammar.lark", "pddl/parser/typed_list_parser.py"],
     [("parser callbacks", "pddl/parser/domain.py, problem.py, plan.py"), ("productions", "pddl/parser/grammar.lark")],
     AI + " of every callback on every expansion of every production",
     TRUST + "Errors raised by the parser generator itself for texts outside the grammar are not examined.")

prop("C21", "Nothing a text says is dropped by the parser",
     "Every name, operand, parameter, number and section that a text carries ends up in the value built from it, in the order of the text where order matters; "
     "texts that differ in one such part never give the same value by the parser forgetting it.",
     ["inputs"], "all texts accepted by the grammars of domains, problems and plans",
     TESTS + "a dropped operand only shows for a production with that many operands in that place.",
     ["pddl/parser/domain.py", "pddl/parser/problem.py", "pddl/parser/plan.py", "pddl/parser/grammar.lark"],
     [("parser callbacks", "pddl/parser/domain.py, problem.py, plan.py")],
     AI + ": provenance of every child of every production in the returned value",
     TRUST + "Keywords and brackets carry nothing; typed lists are left to the property on typed lists.")

prop("C15", "Constructs are accepted exactly when the declared requirements allow them",
     "The parser accepts disjunctions, implications, quantified conditions, equality of terms, non-deterministic effects and type hierarchies exactly when the declared requirements, with those they imply, allow them. "
     "Otherwise it reports a missing requirement, and never one that was declared. "
     "A problem that declares no requirements at all is not restricted; negation and numeric comparison are accepted everywhere.",
     ["inputs", "configurations"], "all sets of declared requirements and all accepted texts",
     TESTS + "the product of requirement sets and constructs is far larger than the fixtures, which declare all they need.",
     ["pddl/parser/domain.py", "pddl/parser/problem.py", "pddl/parser/base.py", "pddl/requirements.py", "pddl/parser/grammar.lark"],
     [("requirement gates of the callbacks", "pddl/parser/domain.py, problem.py"), ("extension of declared requirements", "pddl/requirements.py")],
     AI + ": each callback interpreted under the recorded requirements of every declaration considered",
     TRUST + "Declarations considered: none, all, each single requirement, and in the thorough tier every pair.")

prop("C02", "Printed domains and problems hold every component, in grammar order",
     "The text printed for any domain or problem is of the form the grammar asks for: each section at most once, in the order of the grammar, with the right keyword and balanced brackets. "
     "Each component that is not empty is printed in full and nothing else is: every requirement, type, constant, predicate, function, derived predicate, action, object, fact, goal and metric, once.",
     ["inputs", "configurations"], "all domains and problems, for every combination of empty and non-empty components",
     TESTS + "a section that is lost or misplaced for one combination of components needs that combination.",
     ["pddl/core.py", "pddl/formatter.py", "pddl/_validation.py", "pddl/parser/grammar.lark", "pddl/helpers/base.py"],
     [("__str__ of domain and problem", "pddl/core.py"), ("printing of sections", "pddl/formatter.py"), ("order of sections", "pddl/parser/grammar.lark")],
     AI + ": text of every path of __str__ cut into sections and matched with the start rules of the grammar; coverage of each collection by the guards of what is printed",
     TRUST + "Paths are enumerated per emptiness of the components; the elements of one collection are one symbolic element with every guard.")

prop("C03", "Typed lists are printed so that every name keeps its type",
     "In every printed list of types, constants, objects, functions, predicate variables and parameters, each name is followed by exactly the type, or the alternatives, it was declared with; "
     "a name without a type is never placed where it would take over the type of another one, and one with a type never loses it.",
     ["inputs"], "all typed lists of domains and problems, for every mix of typed, untyped and alternative-typed entries",
     TESTS + "groups and their order depend on the mix of types, of which the fixtures show a handful.",
     ["pddl/formatter.py", "pddl/helpers/base.py", "pddl/core.py", "pddl/action.py", "pddl/parser/grammar.lark"],
     [("typed lists in printed sections", "pddl/formatter.py"), ("type definition of a variable", "pddl/helpers/base.py")],
     AI + ": printed token patterns of each group read with the grouping rule of typed lists, for every kind of type",
     TRUST + "Grouping by type is modelled by a keyed group whose elements share the key.")

prop("C10", "Printing a parsed domain, problem or plan and parsing it again changes nothing",
     "If parsing a text gives a domain, a problem or a plan, then printing that object succeeds, the printed text is of the grammar and parses, and the object parsed from it holds the same as the first: name, requirements, types, constants or objects, predicates, functions, derived predicates, actions, initial state, goal and metric, with the types of all variables, or the steps of the plan with their arguments, in order. "
     "This is so whatever the names are and however printing sorts them. "
     "Nothing is lost, duplicated, regrouped or retyped on the way.",
     ["inputs"], "all texts that parse",
     TESTS + "what is lost on the way shows only for particular combinations of types, orders of declaration, empty parts and nesting.",
     ["pddl/formatter.py", "pddl/core.py", "pddl/action.py", "pddl/parser/domain.py", "pddl/parser/problem.py", "pddl/logic"],
     [("printers", "pddl/formatter.py, pddl/core.py, pddl/action.py"), ("readers", "pddl/parser/domain.py, pddl/parser/problem.py")],
     AI + ": reader, printer and reader again are interpreted in turn on skeleton texts with symbolic names; the printed text is parsed with the grammar file and the two abstract objects are compared",
     TRUST + "Followed on about three hundred skeletons, each for names sorted in one order and the opposite one; the names stand for any names that are different as in the skeleton. Tokens are assumed to be separated as printed.")
prop("C11", "Domains accept exactly the types that are available",
     "A domain can be built only if every type mentioned anywhere in it (constants, predicates, functions, derived predicates, action parameters, preconditions and effects, however deeply nested) is declared, is a supertype of a declared type, or is the universal type, and only if typing is declared or implied when any type is mentioned. "
     "A domain that fulfils this is never rejected on account of its types.",
     ["inputs", "configurations"], "all domains, with and without declared types, for all requirement sets",
     TESTS + "one kind of node that is not visited lets an unknown type through in just that place.",
     ["pddl/_validation.py", "pddl/core.py"],
     [("type checker", "pddl/_validation.py"), ("constructor of the domain", "pddl/core.py")],
     AI + ": coverage of every part that can hold a term, and entailment of the rule by the path facts",
     TRUST + "The rule on one term is compared with the path facts of each normal return and of each rejection.")

prop("C13", "A problem that holds a domain agrees with it",
     "Whenever a problem holds a domain, given at construction or assigned later, the names agree, the requirements of the problem are among those of the domain, and the types of all objects, facts, the goal and the metric are available in the domain. "
     "A domain that does not agree is refused and leaves the problem unchanged; one that agrees is accepted.",
     ["inputs", "histories"], "all problems and domains, whether joined at construction, by assignment, or checked explicitly",
     TESTS + "a part that is not checked, or a domain stored before the check, shows only for a mismatch in just that part.",
     ["pddl/core.py", "pddl/_validation.py"],
     [("constructor, domain setter and check of the problem", "pddl/core.py"), ("type checker", "pddl/_validation.py")],
     AI + ": coverage of every part, comparison facts and order of writes on every path",
     TRUST + "Objects, facts, goal and metric are followed to the type checker as for domains.")

prop("C12", "Type hierarchies are accepted exactly when they are sound",
     "A domain accepts a type hierarchy exactly when typing is declared or implied if any type has a supertype, the universal type has no supertype, and no type is, through its supertypes, a supertype of itself. "
     "An empty hierarchy is always accepted.",
     ["inputs", "configurations"], "all type hierarchies and requirement sets",
     TESTS + "cycles come in every length and place, and every requirement set that implies typing has to be accepted.",
     ["pddl/_validation.py", "pddl/helpers/base.py", "pddl/requirements.py", "pddl/core.py"],
     [("check of the types", "pddl/_validation.py"), ("search for cycles", "pddl/helpers/base.py"), ("extension of requirements", "pddl/requirements.py")],
     AI + ": path facts evaluated over every hierarchy of three names; worklist invariant of the search for cycles",
     TRUST + "The facts speak of one entry at a time, so that three names cover the cases they distinguish; the search is checked step by step for hierarchies of any size.")

prop("C28", "Numeric functions and action costs need their requirements",
     "A domain that declares the total cost is accepted only if action costs are declared, and one that declares any other numeric function only if numeric fluents are declared or implied. "
     "A domain whose functions are covered in this way is never rejected on account of them.",
     ["inputs", "configurations"], "all sets of functions and all requirement sets",
     TESTS + "each mix of the total cost with other functions meets each requirement set.",
     ["pddl/_validation.py", "pddl/requirements.py", "pddl/core.py"],
     [("check of the functions", "pddl/_validation.py"), ("extension of requirements", "pddl/requirements.py")],
     AI + ": path facts evaluated for every mix of functions under every subset of the requirements",
     TRUST + "The facts speak of one function at a time.")

prop("C23", "The initial state of a problem holds literals only",
     "A problem is built only if every fact of its initial state is an atomic formula or the negation of one. "
     "An initial state of such facts is never rejected for their form.",
     ["inputs"], "all initial states, with and without a domain",
     TESTS + "a non-literal of any of some thirty kinds can hide among the facts.",
     ["pddl/core.py", "pddl/logic/base.py"],
     [("constructor of the problem", "pddl/core.py"), ("literals", "pddl/logic/base.py")],
     AI + ": path facts evaluated for facts of every class, plain and negated, alone and among literals",
     TRUST + "Atomic formulas are the subclasses of the base class of atomic formulas.")

prop("C09", "Instantiation replaces exactly the free occurrences of mapped variables",
     "Instantiating a formula, an effect, a function or a derived predicate with a mapping yields the same construct in which every free occurrence of a mapped variable, and nothing else, is replaced, all at once, by its term; what a quantifier binds stays as it is. "
     "Instantiating an action does so for its parameters and needs exactly one term for each; a plan yields the instance of each of its steps, in order, and refuses a step without a schema. "
     "Applying a predicate or function symbol to terms yields the symbol with exactly these terms, and refuses a wrong number of them.",
     ["inputs"], "all formulas, effects, functions, derived predicates, actions and plans, and all mappings (the metric of a problem, which has no free variables, stays as it is)",
     TESTS + "an occurrence that is missed, or replaced under a quantifier that binds its name, shows only for that nesting and that mapping.",
     ["pddl/logic/base.py", "pddl/logic/effects.py", "pddl/logic/functions.py", "pddl/logic/predicates.py", "pddl/action.py", "pddl/core.py"],
     [("instantiation of operators and quantifiers", "pddl/logic/base.py"), ("instantiation of predicates", "pddl/logic/predicates.py"), ("instantiation of functions", "pddl/logic/functions.py"), ("instantiation of actions", "pddl/action.py"), ("instantiation of plans", "pddl/core.py")],
     AI + ": result of every class compared with the constructor applied to the substituted parts, by induction on the structure",
     TRUST + "Parts are instantiated according to their own class (induction); path facts and results are compared over terms that are mapped, unmapped, bound, constant, repeated or swapped. Capture of variables in the inserted terms is not considered.")

prop("C14", "A plan is valid exactly when its steps fit the domain and the problem",
     "Checking a plan against a domain and a problem succeeds if every step, wherever it stands, names an action of the domain, has as many arguments as that action has parameters, and uses only objects of the problem and constants of the domain. "
     "It fails if any step does not.",
     ["inputs"], "all plans, domains and problems (the types of the arguments and the preconditions are not part of this check)",
     TESTS + "each step and each argument can be the wrong one.",
     ["pddl/core.py"],
     [("check of a plan", "pddl/core.py")],
     AI + ": path facts evaluated for right plans and for plans wrong in one step or argument, in every place",
     TRUST + "The facts speak of one step and one argument at a time; plans of up to three steps are considered.")

prop("C27", "Only conjunctions and disjunctions are simplified, and only as they may be",
     "Building a conjunction or disjunction replaces every nested operator of the same kind by its operands, leaves out repetitions, keeps the order of what is left, and stands for the operand itself if just one is left; nothing else is dropped, added or moved. "
     "Every other operator, comparison or list of effects keeps its operands exactly as given, in order and with repetitions.",
     ["inputs"], "all operators and all sequences of operands, nested to any depth",
     TESTS + "depth, order and repetition of the operands are unbounded.",
     ["pddl/logic/base.py", "pddl/logic/functions.py", "pddl/logic/effects.py"],
     [("construction of operators", "pddl/logic/base.py"), ("numeric operators", "pddl/logic/functions.py")],
     AI + ": one iteration of the worklist from an arbitrary state for every class of operand (loop invariant), and results for operands up to order and repetition",
     TRUST + "The loop is a loop over one worklist; other forms of the algorithm give no verdict.")

prop("C07", "Values do not share collections with the outside",
     "What a domain, problem, plan, action, formula, effect or term was built from can be changed afterwards without any effect on it, as it holds no collection of its maker. "
     "Nothing that a hashable value gives out, and none of its components, lets its user change it, so that it can stay a member of a set or the key of a dictionary.",
     ["inputs", "history"], "all constructors and all public attributes of the hashable values (of domains, problems and plans the collections held, not those given out)",
     TESTS + "sharing shows only when somebody changes a collection later.",
     ["pddl/core.py", "pddl/action.py", "pddl/logic/base.py", "pddl/logic/effects.py", "pddl/logic/functions.py", "pddl/logic/predicates.py", "pddl/logic/terms.py", "pddl/helpers/base.py", "pddl/_validation.py"],
     [("copies of collections", "pddl/helpers/base.py"), ("constructors", "pddl/core.py"), ("public attributes", "pddl/logic/base.py")],
     AI + ": the fields of every new object compared with the arguments, and the public attributes with the fields (aliasing)",
     TRUST + "Members of collections are taken to be immutable themselves; access to private attributes is not considered.")

prop("C08", "Asking about a value changes nothing",
     "Printing, comparing, hashing, checking, instantiating or reading a domain, problem, plan, action, formula or term changes neither that value nor anything it is given. "
     "Building a value does not change what it is built from, and nothing is left behind in objects shared by all callers (a memorised result apart).",
     ["inputs", "history"], "all public methods of the value classes and all functions offered to the user that are not helpers of others",
     TESTS + "a change shows only when the value is used again.",
     ["pddl/core.py", "pddl/action.py", "pddl/formatter.py", "pddl/logic/base.py", "pddl/logic/effects.py", "pddl/logic/functions.py", "pddl/logic/predicates.py", "pddl/logic/terms.py", "pddl/_validation.py"],
     [("printing", "pddl/formatter.py"), ("checks", "pddl/core.py"), ("instantiation", "pddl/logic/base.py")],
     "effect analysis over the syntax tree: points-to with inlined calls; no store may hit a parameter, anything reached from it, or a module-level object",
     "Trusted: the points-to analysis and its table of library functions; user-supplied callables are taken to have no effect, and reflection other than setattr is not followed. A store into an attribute read only by the storing function counts as a memorised result.")

prop("C18", "A parser's answer depends only on the text it is given",
     "Parsing a text gives the same result, or the same error, whatever texts the same parser or other parsers were given before, and whether these were accepted or not. "
     "No object that outlives a call is changed by the library.",
     ["histories", "inputs"], "all sequences of accepted and rejected texts given to one parser of domains, problems or plans; all functions of the package",
     TESTS + "a leftover shows only when a particular second text follows a particular first one, often one that failed half-way.",
     ["pddl/parser/base.py", "pddl/parser/domain.py", "pddl/parser/problem.py", "pddl/parser/plan.py"],
     [("parser call", "pddl/parser/base.py"), ("state of the transformers", "pddl/parser/domain.py, problem.py")],
     "abstract interpretation of the parser call from an arbitrary earlier state, with an effect analysis of what the callbacks write",
     TRUST + "A Lark object is taken to keep no state of its own apart from its transformer. A table used by one function alone is taken to hold memorised results and is left undecided.")

prop("C19", "Library calls leave the process as they found it",
     "Whether a library call returns or raises, settings of the running interpreter and process (traceback limit, recursion limit, working directory, warning filters and the like) are afterwards what they were before; importing the library changes none of them. "
     "Every file it opens is closed. The command-line tool, which owns its process, is not meant.",
     ["inputs", "faults"], "all functions of the package, with every call into unknown code both returning and raising",
     TESTS + "a setting that is not put back shows only after a call that failed at a particular point.",
     ["pddl/parser/base.py", "pddl/__init__.py"],
     [("traceback limit during parsing", "pddl/parser/base.py"), ("reading of files", "pddl/__init__.py")],
     "path-sensitive abstract interpretation with exceptional outcomes of every unknown call; syntactic rule for files and module level",
     TRUST + "Settings are attributes of library modules and a table of library functions; changes hidden behind reflection or in classes with __enter__/__exit__ are left undecided.")

prop("C25", "The printed text does not show how unordered things are stored",
     "Printing an object gives the same text whatever the hash seed of the interpreter and whatever the order in which the members of its unordered components "
     "(requirements, constants, predicates, types, functions, actions, facts, alternative types, quantified variables) were given or stored. ",
     ["inputs", "histories"], "all printable objects of the library",
     TESTS + "an order that leaks shows only under another hash seed or another order of construction.",
     ["pddl/formatter.py", "pddl/core.py", "pddl/action.py", "pddl/logic/base.py", "pddl/logic/effects.py", "pddl/logic/predicates.py", "pddl/logic/functions.py"],
     [("printing", "pddl/formatter.py"), ("__str__ of every class", "pddl")],
     AI + ": order-provenance of every repetition in the printed text",
     TRUST + "A sort without a key is by the order of the elements, which is examined on its own (strict and total within a kind). Fields typed as sequences are ordered by what was given.")

prop("C17", "Names in objects are names of the grammar, and no keywords",
     "Whatever string is given as the name of a domain, problem, action, predicate, function, constant, variable or type, the construction succeeds exactly if the string is a name of the PDDL grammar and not a keyword that would be mistaken for one. "
     "A type may be called object and a function total-cost. "
     "Other strings raise a value or validation error, so that no object holds a name that cannot be written to a file and read back.",
     ["inputs"], "all strings, for every place where a name is given",
     TESTS + "a single character class, anchor or keyword out of step shows only for a name that has it.",
     ["pddl/custom_types.py", "pddl/helpers/base.py", "pddl/parser/symbols.py", "pddl/parser/grammar.lark", "pddl/core.py", "pddl/action.py", "pddl/logic/terms.py", "pddl/logic/predicates.py", "pddl/logic/functions.py", "pddl/_validation.py"],
     [("class of names", "pddl/custom_types.py, pddl/helpers/base.py"), ("keywords", "pddl/parser/symbols.py"), ("constructors", "pddl/core.py, pddl/action.py, pddl/logic, pddl/_validation.py")],
     "automata: equality of the languages of two regular expressions, LR automaton of the grammar; " + AI + " of every constructor with every keyword",
     TRUST + "Names of plan steps are references and are not examined; words that are keywords only where no name can stand may be accepted or rejected.")

prop("C24", "In typed lists every name gets the type that follows it",
     "When a typed list of types, constants, objects or parameters is read, every name gets the type (or all the alternatives) after the next dash, names after the last typed group get none, and parameters keep the order and number of the text. "
     "A name that occurs with two different types is refused, and so is a type, constant or object that occurs twice; nothing else is refused because of its place in the list.",
     ["inputs"], "typed lists of up to four groups with equal or different names and types, through every rule of the grammar that takes one",
     TESTS + "the lists in the fixtures never mix repeated names, alternatives and an untyped rest.",
     ["pddl/parser/typed_list_parser.py", "pddl/parser/domain.py", "pddl/parser/problem.py"],
     [("TypedListParser", "pddl/parser/typed_list_parser.py"), ("callbacks that take a typed list", "pddl/parser/domain.py, pddl/parser/problem.py")],
     AI + " of the callbacks on skeletons of token lists: every pattern of groups and equalities, with symbols for the names and types",
     TRUST + "Skeletons of more than four groups are not followed.")

prop("C22", "Every requirement has one keyword, read and printed alike",
     "Each requirement flag prints as a keyword that the grammar reads, no two flags print alike, and a domain or problem text with that keyword gets exactly that flag. "
     "A text that lists several requirements gets all of them.",
     ["inputs", "configurations"], "all requirement flags, in domains and in problems",
     TESTS + "most flags appear in no fixture.",
     ["pddl/requirements.py", "pddl/parser/symbols.py", "pddl/parser/grammar.lark", "pddl/parser/domain.py", "pddl/parser/problem.py"],
     [("flags", "pddl/requirements.py"), ("requirements sections", "pddl/parser/domain.py, pddl/parser/problem.py")],
     AI + " of the callbacks and of the text of every flag, compared with the keywords of the grammar",
     TRUST)

prop("C30", "Derived predicates are accepted exactly when they fit their declaration",
     "A domain text with a derived predicate is accepted only if the predicate in its head is declared with as many parameters, and every type that the head gives to a parameter is declared for it or lies, by any number of steps, below a type declared for it. "
     "A parameter declared with no type or with the universal type takes every available type, and a parameter without a type in the head takes the declared ones; a head that fits is never refused. "
     "A text is refused with one of the errors of the library.",
     ["inputs"], "all heads of derived predicates, declarations and type hierarchies",
     TESTS + "what is below what shows only for particular hierarchies, positions and alternatives of types.",
     ["pddl/parser/domain.py"],
     [("derived predicates", "pddl/parser/domain.py")],
     AI + ": callbacks and constructors along skeleton texts (every combination of hierarchy, declared type and type in the head) against the definition",
     TRUST + "Six hierarchies of up to three steps, one to three parameters, alternatives of two types; the names stand for any names that are different as in the skeleton.")

prop("C31", "Objects give back what they were built from",
     "Every public attribute of a domain, problem, plan, action, formula, effect, function, metric or term holds exactly what was given for it: ordered components (terms, operands, parameters, steps) with the same members in the same order, repeated ones included, unordered ones with all their members, and nothing else. "
     "Members that share a name but differ otherwise are all kept. "
     "What is left out is empty or absent, or, in a problem, taken from its domain.",
     ["inputs"], "all arguments of all constructors of value classes (operands of conjunctions and disjunctions of the same kind are the subject of C27)",
     TESTS + "a component that is merged, reordered or dropped shows only for members that agree in part.",
     ["pddl/core.py", "pddl/action.py", "pddl/logic/base.py", "pddl/logic/effects.py", "pddl/logic/functions.py", "pddl/logic/predicates.py", "pddl/logic/terms.py", "pddl/helpers/base.py", "pddl/custom_types.py"],
     [("constructors and attributes", "pddl/core.py, pddl/action.py, pddl/logic")],
     AI + ": objects built from descriptions by interpreting the constructors on symbolic names, every attribute compared with the description",
     TRUST + "About five hundred descriptions: each argument absent, empty, single and several, with members that agree in name, in part or in order only; names stand for any different names.")

prop("C26", "Occurrences of names refer to the innermost declaration",
     "In what is parsed, every occurrence of a variable in a precondition, effect, condition or goal has the types declared by the innermost quantifier that lists it; failing that, those of the parameters of its own action, or of the head of the derived predicate (completed from the declared predicate); failing that, none. "
     "Constants and objects have the types with which they are declared, whatever variables or predicates are called the same, and a constant that the domain does not declare is refused. "
     "Nothing declared in one action, quantifier or derived predicate shows in another.",
     ["inputs"], "all formulas, effects, actions and derived predicates of a text",
     TESTS + "a declaration that leaks or is lost shows only where quantifiers, parameters and constants with equal names meet.",
     ["pddl/parser/domain.py", "pddl/parser/problem.py", "pddl/parser/_update_type_tags.py", "pddl/logic/predicates.py", "pddl/logic/terms.py"],
     [("types of occurrences", "pddl/parser/_update_type_tags.py"), ("declarations", "pddl/parser/domain.py, pddl/parser/problem.py")],
     AI + ": a proof by structural induction, class by class, for the function that gives occurrences their types; callbacks along skeleton texts with symbolic names against a reader with lexical scoping",
     TRUST + "Induction covers every formula for the function itself; the callbacks are followed on about two hundred and fifty skeletons whose names stand for any names that are different as in the skeleton. Types of constants in goals are not examined.")

prop("C29", "Files are read in full, and the command line prints only what it has checked",
     "Parsing a domain, problem or plan by the name of a file gives the answer of the parser of that kind for all the file holds, and changes no file. "
     "The command line parses every file it is given, checks the problem against the domain and the plan against both, and prints each of them once, in this order, after its own check and those before it; when told to be quiet it prints nothing and still checks everything. "
     "If any reading, parsing or check fails, it does not end as if it had succeeded.",
     ["inputs", "faults"], "all files, all combinations of arguments, a failure of any call",
     TESTS + "the command line is tested on files that fit each other.",
     ["pddl/__init__.py", "pddl/__main__.py"],
     [("reading by name", "pddl/__init__.py"), ("command line", "pddl/__main__.py")],
     AI + " with every unknown call returning and raising; provenance of the parsed text, and order of the effects on every path that returns",
     TRUST + "Trusts click to pass the arguments on and the parser itself (see the other properties).")

na("C33", "Formulas of any depth are handled",
   "However deeply formulas, effects and numeric expressions are nested, parsing, printing, comparing and instantiating them succeeds as long as memory lasts.",
   ["inputs"], "all nesting depths",
   TESTS + "depth is a number without a bound.",
   ["pddl/logic/base.py", "pddl/_validation.py", "pddl/parser/_update_type_tags.py"],
   [("recursion over formulas", "pddl/logic, pddl/_validation.py, pddl/parser")],
   "The depth that the interpreter's stack allows is a runtime quantity (recursion limit, frame sizes, the stack of the caller); the source shows that the functions recurse on sub-formulas, which they are meant to do, and no static bound follows from it.")

na("C34", "The language that is read is PDDL as the manual defines it",
   "A text is accepted exactly if it is a domain, problem or plan of PDDL 3.1 in the fragment that the library documents.",
   ["inputs"], "all texts",
   TESTS + "a language has infinitely many members.",
   ["pddl/parser/grammar.lark"],
   [("grammar", "pddl/parser/grammar.lark")],
   "There is no formal definition of the fragment in the repository to compare with: the grammar file is its definition. What follows from the grammar alone is covered by C15, C17, C20 and C21.")
