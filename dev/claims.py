CLAIMS = {
 'C02': dict(level='proof', technique='contracts on DeclarationsScope discharged by pyvc + z3; bounded replay suite',
   note='reserve_variable / declare_variable return a name not taken before, for every table of taken names and every base name; induction over any history gives pairwise different names. The join of type and name (join_ctype_and_name) is bounded only.',
   rule='random request histories over up to 4 scopes sharing names; non-trivial: more than two requests'),
 'C03': dict(level='proof', technique='contracts on ParseTupleParameters discharged by pyvc + z3; bounded exhaustive replay suite',
   note='Tables for arbitrary many registrations equal the spec fold; refusal exactly when a required argument follows an optional one or only some are named.',
   rule='every sequence of up to 4 registrations over optional x prepended x named, plus random longer ones; non-trivial: two or more'),
 'C01': dict(level='proof', technique='contracts on CodeBlock discharged by pyvc + z3 for all histories; bounded replay suite',
   note='Every CodeBlock operation meets its contract for arbitrary live-cleanup tables, texts and predecessor chains (induction over the representation invariant). Assumes the encoded Python semantics and callers that use blocks through these operations.',
   rule='random histories of cleanup operations over chains of up to 3 blocks; non-trivial: more than two operations'),
 'C07': dict(level='proof', technique='contracts on code sinks discharged by pyvc + z3; bounded replay suite',
   note='Every code sink operation meets its contract for arbitrary lines, levels and contents.',
   rule='random write/indent/flush histories over three memory sinks and a file sink; non-trivial: more than two operations'),
 'C05': dict(level='exploration', technique='contracts of the type parser as executable pre/postconditions, checked over a grammar of type spellings (bounded)',
   note='bounded: the character-level tokenizer and the recursive parser are outside the verifier (character loops over unbounded strings); abstract types up to a stated size are rendered in every spelling and read back by an independent parser.',
   rule='abstract types (base, qualifiers, pointer/reference levels, nested templates) x spellings; non-trivial: has a qualifier, level or template'),
 'C06': dict(level='proof', technique='contracts on TypeMatcher discharged by pyvc + z3; bounded replay suite against a model',
   note='register, register_transformation, add_type_alias, alias lookup (recursion against its own contract) and lookup meet their contracts for arbitrary tables, with normalisation and modifier stripping as uninterpreted contracts (C05). Bounded: at most two reverse aliases per name in the alias step.',
   rule='random matchers (register/alias/transformation/lookup histories) against a model; non-trivial: more than three operations'),
}
EMIT = 'Every emitted C function of the corpus is evaluated symbolically on all its paths and for all run-time inputs (minic + z3) against the contract derived from its declaration; the declarations themselves are a bounded grid, so nothing here counts as proved for every declaration. Loops in emitted code are cut by an invariant. '
EASM = ['contracts of the CPython C API (minic/capi.py): which calls need the lock, may fail, own or borrow references, which C types conversion units take',
        'the declaration grid (suites/grid.py and the module scripts of tests/ and examples/) stands for all declarations',
        'LP64 data model for the sizes of C types']
CLAIMS['C11'] = dict(level='translation_validation', technique='contracts of the Python C API checked at every call of every emitted function by a VC generator for the emitted C (all paths, all inputs per function; bounded grid of declarations)',
   note=EMIT + 'Obligation per conversion unit: the right number of arguments, each of the C type the unit reads or writes (size, and signedness where the unit has one), every variable declared.',
   rule='emitted functions with at least one conversion unit; non-trivial: distinct (function, number of units)', assumptions=EASM)
CLAIMS['C12'] = dict(level='translation_validation', technique='typestate contracts of the interpreter lock discharged on all paths of every emitted function (bounded grid of declarations)',
   note=EMIT + 'Obligations: lock held at every Python C API call, entry and exit states equal, released around the C++ call iff asked for, proxies acquire and release once.',
   rule='emitted functions; non-trivial: wrappers asked to release the lock and virtual proxies', assumptions=EASM)
CLAIMS['C13'] = dict(level='translation_validation', technique='exception contracts derived from the declaration, discharged on all exceptional paths of every emitted wrapper (bounded grid of declarations)',
   note=EMIT + 'Obligations: the catch list is the declared list in order, by const reference; on every path through a handler exactly one Python exception of the declared type and message is set, all references acquired are released exactly once, and the error value is returned.',
   rule='wrappers with declared exceptions; non-trivial: distinct (kind, exceptions, parameters, threading)', assumptions=EASM)
CLAIMS['C10'] = dict(level='translation_validation', technique='range contracts of 8/16-bit integers discharged by z3 on all paths of every emitted function (bounded grid of declarations)',
   note=EMIT + 'Obligations: on every path to the C++ call (or back to C++ from an override, or into a variable) the value reduced to the C type equals the Python integer, which lies in its range; on every error path decided by the integer it lies outside; the unit read covers the C type; no conversion in the emitted code narrows a value.',
   rule='wrappers, proxies, setters and converters with an 8- or 16-bit integer read from Python; non-trivial: distinct (kind, parameters, return)', assumptions=EASM)
CLAIMS['C04'] = dict(level='translation_validation', technique='contracts on BuildValueParameters discharged by pyvc + z3 for all registration sequences; order contracts discharged on all paths of every emitted wrapper (bounded grid of declarations)',
   note='BuildValueParameters: format, values and cleanup handles follow the registrations in order for arbitrarily many registrations (proved). ' + EMIT + 'Obligations: the k-th value returned is made of the k-th of [return value] + output parameters, no result gives None, one is bare; the k-th value unpacked from an override reaches the k-th of the same list; the k-th argument of an override is the k-th input; maps iterate as (key, value).',
   rule='wrappers with no or several results, proxies, map iterators; non-trivial: distinct (kind, parameters, return)', assumptions=EASM)
CLAIMS['C09'] = dict(level='translation_validation', technique='contracts of dispatchers and overload slots discharged on all paths of every emitted dispatcher and overload (bounded declarations, up to 6 overloads quick, 12 thorough); a dispatcher is checked against the contract of its overloads, an overload against its own',
    note=EMIT + 'Obligations of a dispatcher: overloads called one after the other in declaration order, with the arguments of the call and an exception slot of their own; the first that accepts ends it with its result and no error touched; TypeError with the messages of all, in order, only when all refused; each collected exception released once. Of an overload: refused arguments give their exception to the slot, leave no error set and return the failure value; once the C++ call is made nothing is reported as refused. Overloads skipped by the generator are left out and the others stay in order.',
    rule='dispatchers over at least two overloads and each overload; non-trivial: distinct (kind, number) / parameter lists', assumptions=EASM)
CLAIMS['C17'] = dict(level='translation_validation', technique='contracts of method, getset and module tables evaluated on every emitted table together with the function contract of each entry (bounded grid of declarations)',
    note=EMIT + 'Obligations: each table is used by its type or module and ends with a sentinel, names are declared names (custom name where given), one row per name, the function of a row is defined exactly once, the flags of a row match the arguments the function takes and unpacks, every declared function, method, class and enum is in the table of its owner and nothing else is.',
    rule='tables and rows of emitted modules, random trees of namespaces and classes; non-trivial: distinct (owner kind, flags, signature)', assumptions=EASM)
CLAIMS['C18'] = dict(level='translation_validation', technique='custodian/ward contracts discharged on all paths of every emitted wrapper (bounded grid of declarations); refusal contracts on the declarations',
    note=EMIT + 'Obligations: on every path on which the wrapper returns a result and both ends exist, the ward is held by the custodian (list made once, object appended unless it is there); no relation is made on any other path or with a NULL or None end; relations with no end are refused when declared.',
    rule='wrappers with one or two custodian/ward relations over kinds of ends; non-trivial: distinct (kind, relation, ends)', assumptions=EASM)
CLAIMS['C19'] = dict(level='translation_validation', technique='access contracts discharged on all paths of every emitted getter, setter and container converter, and on every attribute table (bounded grid of declarations)',
    note=EMIT + 'Obligations: each declared attribute has one row under its name, whose accessors are defined with the right signature; every value a getter returns is made of the declared member (or the declared getter on the wrapped object) and the getter stores nothing; every setter path that succeeds stores exactly one value, converted from the one given, into that member (or calls the declared setter once), every path that fails stores nothing and has an error set; no path passes on the NULL of a deletion; converters write their destination only on success.',
    rule='attribute tables; getters and setters of declared attributes; non-trivial: distinct (accessor kind, type, options)', assumptions=EASM)
CLAIMS['C08'] = dict(level='proof', technique='contracts on call_with_error_handling, eval_param and eval_retval discharged by pyvc + z3 for every callback and handler; bounded differential suite for the rest of the generator',
    note='Proved: which errors the handler decides, that the original error propagates otherwise, and that the callback runs once. Bounded: modules with failing functions, methods, virtual and protected methods, constructors, attributes, special methods and overloads, failing at each stage with each error, are generated and compared with the same modules without the failing declarations (pieces of the text, in any order), and with declining, absent and continuing handlers.',
    rule='random modules with failing declarations x error x handler; non-trivial: distinct (module, error, stage)',
    assumptions=['exceptions are told apart by the classes they are instances of'])
CLAIMS['C16'] = dict(level='proof', technique='contracts on mangle_name, get_mangled_name and the custom_name properties discharged by pyvc + z3 for all strings and histories; bounded suite for whole modules',
    note='Proved for every string: the mangled name has identifier characters only (character sets tracked through replace and re.sub), identifiers are unchanged, mangling twice changes nothing; custom names are reported back, visible, and removed again from any state. Bounded: exhaustive mangling of short strings; C symbols, tables and overrides of whole modules with unusual C++ names; histories of custom names and clones.',
    rule='names with a character no identifier has; modules; custom name histories; non-trivial: distinct names, modules and histories')
CLAIMS['C15'] = dict(level='translation_validation', technique='contracts on matches_signature, get_construct_name, write_create_instance, constructor wrappers and the helper class discharged by pyvc + z3; constructor contracts discharged on all paths of the emitted tp_init functions of inheritance trees (bounded) against a model of abstractness',
    note='Proved: two methods count as the same exactly if name, template arguments, parameter types and constness agree, for parameter lists of any length; blocked classes have no construct name; constructor wrappers create the class itself only when that is allowed and the constructor is public; the helper class is disabled exactly by pure virtual methods that cannot be wrapped and are not implemented nearer. Bounded: which classes count as abstract is decided for trees of up to 5 classes (all placements of pure, overriding, non-virtual and differently typed methods over chains, siblings, diamonds; random trees), and every emitted function of these modules is checked to construct no blocked class. ' + EMIT,
    rule='classes of the trees whose abstractness does not depend on whether inheritance is virtual in the C++ sense; non-trivial: distinct trees', assumptions=EASM)
CLAIMS['C14'] = dict(level='translation_validation', technique='ownership contracts (a ledger of who has to free each object) discharged on all paths of every emitted wrapper, proxy, accessor, tp_dealloc and tp_clear (bounded grid of declarations)',
    note=EMIT + 'Obligations: per path, the responsibilities for each object (new, owned results, references taken, wrappers that own, arguments handed over, delete, release functions) add up as declared, also when the wrapper fails; existing wrappers are never made to hold another object; a result is the object itself or a copy, as declared, and NULL becomes None; tp_dealloc and tp_clear free what is owned once, and nothing else; pointers of undeclared ownership are refused.',
    rule='wrappers that pass, return, copy or destroy objects of every kind of class; non-trivial: distinct (kind, type, policies)', assumptions=EASM)
CLAIMS['C20'] = dict(level='translation_validation', technique='contracts on the wrapper registries discharged for all names (pyvc + minic); the registry invariant discharged on all paths of every emitted function that creates, looks up, fills, empties or destroys wrappers (bounded grid of declarations)',
    note='Proved for every name: what recording, looking up and removing a wrapper emit does exactly that to exactly the record of the object, in the module that publishes the registry and in modules that import it; the null registry emits nothing. ' + EMIT + 'Obligations: whoever gives a wrapper an object records it for the address of that object, whoever takes it away or destroys the wrapper removes that record and no other; a wrapper is only made for an object that was looked up and not found, or was just made; a wrapper found is what Python gets; a class and its first bases use one registry; without a registry nothing of this is emitted. Not covered: objects addressed through a second base (other address), objects C++ destroys while a wrapper that does not own them lives.',
    rule='emitted functions that create, look up, fill, empty or destroy wrappers; non-trivial: distinct (role, kind of class, events)', assumptions=EASM + ['std::map operations as in the C++ standard', 'object expressions handed to the registry are postfix expressions, names are distinct (C02)'])
NA = {'C21': 'the front end needs castxml + pygccxml: an external program whose output has no contract to verify against; outside deductive verification of this code'}

# contracts discharged for all names, on the functions of the generator, besides the evaluation of emitted text
_W = 'every handler of a wrapped class (each memory policy, copyable or not, subclassable, helper class, type narrowing, with and without registry) and of a container'
CLAIMS['C03']['note'] += ' Proved as well, for any names and defaults: every builtin handler, ' + _W + ' registers one item per input, passes what was parsed and the default when absent; generate_body for arbitrary handlers. Bounded: callbacks, enums, arrays.'
for _p, _t in [
    ('C04', 'every builtin handler, ' + _W + ': one value per result, in order, made of what was given; iterating a container of any builtin type.'),
    ('C09', 'generate_body as an overload for arbitrary handlers; dispatchers of up to 4 overloads; ' + _W + ' takes and releases no reference of NULL.'),
    ('C11', 'every builtin handler, ' + _W + ': units and variables agree and all that is used is declared.'),
    ('C14', _W + ': the accounts add up on every path and each wrapper made is handed on; constructors with any parameters, copies, destruction of classes, containers and iterators; handing over in generate_body.'),
    ('C17', 'flags of wrappers with arbitrary handlers; the rows of functions and methods for any names.'),
    ('C19', 'getters and setters with an arbitrary handler; converters to and from Python with an arbitrary handler; the converter of a container.'),
    ('C20', 'every handler of a wrapped class, constructors with any parameters, copies and destruction keep the invariant of the registry.')]:
    CLAIMS[_p]['note'] += ' Proved on the generator, for any names (contracts in the evidence): ' + _t
    CLAIMS[_p]['technique'] = 'contracts on the generator functions discharged by pyvc + z3, emitted text by minic; ' + CLAIMS[_p]['technique']
