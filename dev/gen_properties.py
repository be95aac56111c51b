import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    P.append(d)
B='pybindgen/typehandlers/base.py'
p('C01','Every exit of generated code runs exactly the live cleanups, newest first',
 'At any point while a wrapper function is being generated, an error exit written there emits the failure-specific cleanup first, then exactly the cleanup actions registered and not yet cancelled at that moment, each once and newest first - those of the current code block before those of its predecessor blocks - and last the error return statement. The normal-exit cleanup emits the same live actions in the same order, emitting never consumes them, and cancelling one action removes that action and no other.',
 ['histories'],'every sequence of add / cancel / error-check / cleanup / clear operations on any chain of code blocks, with any action texts',
 'The existing tests compare a few whole generated modules; they never vary the order of registration, cancellation and error checks, and no test builds a predecessor chain in an unusual order.',
 [B],[('CodeBlock.add_cleanup_code / remove_cleanup_code',B),('CodeBlock.get_cleanup_code (reverse order, predecessor chain)',B),('CodeBlock.write_error_check / write_error_return / write_cleanup',B)],
 ['text of the code block sink'],[('cleanup table','position -> cleanup text of live actions',B),('last position','largest position ever handed out since clear',B)])
p('C02','Variables declared for one generated function never clash',
 'Within one generated function, every variable declaration or name reservation is given a name different from every name given out before in the same scope (shared parent scopes included), whatever base names are requested and in whatever order, and a base name nobody holds yet is given unchanged. The declaration text declares exactly the returned name, with the requested C type, array suffix and initializer, once and in request order; clearing the scope forgets all names and declarations.',
 ['histories','inputs'],'every sequence of declare / reserve / clear requests over any base names, C types, arrays and initializers, in a scope or a chain of scopes sharing names',
 'Tests only declare the few fixed names the wrappers use; a clash needs a particular combination of base names (for instance a parameter called like a numbered variant of another).',
 [B],[('DeclarationsScope.declare_variable / reserve_variable numbering',B),('join_ctype_and_name',B),('CodeBlock.declare_variable',B)],
 ['returned variable names','declarations sink text'],[('declared names','names already handed out in the scope',B)])
p('C03','Argument parsing: format, destinations and keywords describe the same arguments',
 'For every sequence of argument registrations, the format string, the list of C destinations and the keyword list produced for the Python argument parser describe the same arguments in the same order (registration order, prepended ones first), and exactly one optional marker stands immediately before the first optional argument, none if there is none. A required argument after an optional one, or naming only some of the arguments, is refused with an error instead of producing a table; asking for the tables never changes them and clearing empties them.',
 ['histories','inputs'],'every sequence of registrations with any format units, destination lists, names, prepend and optional flags, of any length',
 'Tests exercise a handful of signatures; the relation has to hold for any number and mix of required, optional, prepended and unnamed arguments.',
 [B],[('ParseTupleParameters.add_parameter',B),('ParseTupleParameters.get_parameters',B),('ParseTupleParameters.get_keywords',B),('ForwardWrapperBase.generate_body parse call',B)],
 ['PyArg_ParseTupleAndKeywords call in generated code'])
p('C04','Results come back in order: return value first, then output parameters',
 'A wrapped call hands its results to Python as the C return value first (if not void), followed by the output and in-out parameters in declaration order; no results give None, a single result is returned bare. When C++ calls a Python override, the Python result is unpacked in the same order: the return value first, then the output and in-out parameters in declaration order. The same format/value pairing holds for every value list built, whatever mixture of value kinds is involved; iterating a container gives each element once, the pair (key, value) for a map.',
 ['configurations','inputs'],'every combination of return type handler and list of parameter handlers with directions, for functions, methods and virtual method overrides, and every sequence of value registrations',
 'Tests cover few return-type / output-parameter combinations, mostly ints; the order is decided separately inside each of the type handlers, so each pair is its own case.',
 [B,'pybindgen/typehandlers/inttype.py','pybindgen/typehandlers/stringtype.py','pybindgen/typehandlers/booltype.py','pybindgen/typehandlers/floattype.py','pybindgen/typehandlers/doubletype.py','pybindgen/typehandlers/pyobjecttype.py','pybindgen/typehandlers/smart_ptr.py','pybindgen/container.py','pybindgen/cppclass.py'],
 [('BuildValueParameters.add_parameter / get_parameters',B),('convert_c_to_python of return values (prepend)','pybindgen/typehandlers/*.py'),('convert_python_to_c of return values (prepend)','pybindgen/typehandlers/*.py')],
 ['Py_BuildValue / PyArg_ParseTuple calls in generated code'])
p('C05','C type spellings: normalisation is stable and keeps the meaning of the type',
 'All spellings of one C/C++ object type that differ only in white space (outside qualified names) or in whether a const stands before or after the base type name normalise to the same string, and normalising a normalised string changes nothing. Normalising never adds, drops or moves a const across a pointer or reference, and the derived facts - is it a pointer, a reference, is the pointed-to type const, what is the type without const, without reference, or the pointed-to type - are those of the C type.',
 ['inputs'],'every C type built from a (possibly qualified, possibly templated, possibly multi-word) base name, const placements and any nesting of pointers with at most one outer reference, in every spelling; function types excluded',
 'Unit tests list a few dozen spellings; pointer depth, const placement and template nesting multiply without bound.',
 ['pybindgen/typehandlers/ctypeparser.py'],[('tokenizer and CTypeTokenizer','pybindgen/typehandlers/ctypeparser.py'),('parse_type, reorder_modifiers','pybindgen/typehandlers/ctypeparser.py'),('TypeTraits','pybindgen/typehandlers/ctypeparser.py')])
p('C06','Type lookup finds exactly the handler registered for that type',
 'Looking up a C type yields the handler registered under that type with const and volatile left out (those inside template arguments stay); failing that, the handler of a type it is declared an alias of or that is declared an alias of it, directly or through further aliases; failing that, the handler of the untransformed type for the first registered type transformation, in registration order, that applies and whose untransformed type is known, together with that transformation; otherwise a lookup error. A type that is already registered cannot be registered again, and failed registrations or lookups change nothing.',
 ['histories','inputs'],'every history of register / alias / transformation registrations and every looked-up type name',
 'Tests use the global matcher filled once; alias chains, several transformations and duplicate registrations are sampled by a handful of cases at best.',
 [B],[('TypeMatcher.register',B),('TypeMatcher.lookup',B),('TypeMatcher alias lookup',B)],None,[('type table','normalised type -> handler class',B),('aliases','both directions of declared aliases',B),('transformations','ordered list',B)])
p('C07','Code sinks keep every line once, in order, with the right indentation',
 'Every line written to a code sink is delivered exactly once and in the order written, indented by the sink\'s indentation level at the time of writing plus, when a memory sink is flushed into another sink, the level of that sink at flush time; embedded newlines start new lines indented alike. Flushing empties the sink, undoing an indentation restores exactly the previous level, and the null sink keeps nothing.',
 ['histories','inputs'],'every sequence of write / indent / unindent / flush operations with any text, over any chain of memory and file sinks',
 'Two doctest-style examples exist; nothing varies nesting of indentation levels, multi-line text and chained flushes.',
 ['pybindgen/typehandlers/codesink.py'],[('CodeSink._format_code, indent, unindent','pybindgen/typehandlers/codesink.py'),('MemoryCodeSink.writeln / flush / flush_to','pybindgen/typehandlers/codesink.py'),('FileCodeSink.writeln','pybindgen/typehandlers/codesink.py')])
p('C08','A wrapper that cannot be generated leaves nothing behind',
 'When generating one function, method, constructor or attribute wrapper fails with a code generation, type configuration or not-supported error and the installed error handler chooses to continue, the emitted code contains no part of that wrapper, no table refers to it, and every other wrapper is emitted exactly as if the failing one had never been declared (helper classes still mirror all the C++ constructors of their class). If the handler declines, or none is installed, the original error propagates to the caller; errors of any other kind always propagate and are never offered to the handler as skippable.',
 ['fault_sequences','configurations'],'every set of wrappers failing at any stage of generation, every error class, and every error-handler decision',
 'Tests never install an error handler together with failing wrappers at several positions; failures inside overload sets, constructors and attributes are not exercised.',
 ['pybindgen/utils.py','pybindgen/overloading.py','pybindgen/function.py','pybindgen/cppmethod.py','pybindgen/cppclass.py','pybindgen/module.py','pybindgen/cppattribute.py'],
 [('call_with_error_handling','pybindgen/utils.py'),('OverloadedWrapper.generate / _normalize_py_method_flags','pybindgen/overloading.py'),('generate into a temporary sink before writing','pybindgen/function.py, pybindgen/cppmethod.py')])
p('C09','Overloads are tried in declaration order and the first that accepts wins',
 'A call to an overloaded function, method or constructor tries the overloads in the order they were declared, stops at the first one whose arguments parse and returns its result - also when that call itself raises - and raises TypeError carrying one message per overload only if every one of them refused the arguments. Every exception collected from a refused overload is released exactly once on every path, and each overload is given its own slot.',
 ['inputs','configurations'],'every number of overloads and every pattern of which overloads refuse their arguments',
 'Tests have overload sets of size 2-3 and do not check reference counts of collected exceptions on any path.',
 ['pybindgen/overloading.py'],[('OverloadedWrapper.generate dispatcher','pybindgen/overloading.py'),('parse error return storing the exception','pybindgen/overloading.py')],['generated dispatcher function'])
p('C10','8- and 16-bit integers are passed unchanged or refused, never silently altered',
 'For every C integer type of 8 or 16 bits, signed or unsigned, a Python integer passed as argument, returned by a Python override, or stored through an in or in-out parameter reaches the C variable with exactly its value, or the conversion fails with an exception: it is never wrapped or truncated. Every value representable in the C type is accepted.',
 ['inputs'],'every Python integer value, every narrow integer type and every conversion path (input, in-out, return from override)',
 'Tests pass two or three in-range values; the boundaries and the whole out-of-range space are never tried for most of the types.',
 ['pybindgen/typehandlers/inttype.py'],[('range checks after parsing','pybindgen/typehandlers/inttype.py'),('parser format codes','pybindgen/typehandlers/inttype.py')],['generated range checks and PyArg format units'])
p('C11','Conversion codes agree with the C variables they read and write',
 'In every generated argument-parsing or value-building call, each format unit is paired with exactly the arguments that unit takes, each a pointer to (parsing) or a value of (building) the C type the unit reads or writes - same size and, where the unit has one, signedness. No argument is missing, left over, or taken from a variable that was never declared; every function and variable a conversion uses is declared where it is used.',
 ['configurations'],'every built-in parameter and return type handler, every direction it supports, with and without default value, for functions, methods and virtual overrides',
 'The compiler cannot check these variadic calls and tests run only part of the handlers, with values small enough to survive a wrong size.',
 ['pybindgen/typehandlers/inttype.py','pybindgen/typehandlers/floattype.py','pybindgen/typehandlers/doubletype.py','pybindgen/typehandlers/booltype.py','pybindgen/typehandlers/stringtype.py','pybindgen/typehandlers/pyobjecttype.py'],
 [('add_parameter calls of the handlers','pybindgen/typehandlers/*.py')],['PyArg_Parse*/Py_BuildValue calls in generated code'])
p('C12','The interpreter lock is held exactly where generated code needs it',
 'In a wrapper that releases the interpreter lock around the C++ call, the lock is released only after all argument conversion, no Python API is used while it is released, and every path through the wrapper that released it re-acquires it exactly once before the next use of Python and before returning, including when a declared C++ exception is thrown. A C++ virtual method forwarding to a Python override acquires the lock before its first use of Python and releases it exactly once on every path, after its last use.',
 ['programs','configurations'],'every path of every generated wrapper, for any parameters, return value, declared exceptions, custodian policies and default-implementation fallbacks',
 'A wrong lock state shows up only under real thread switches or on error paths the tests never take.',
 [B,'pybindgen/function.py','pybindgen/cppmethod.py'],[('ForwardWrapperBase.generate_body unblock_threads',B),('ReverseWrapperBase._generate_gil_code',B),('generate_call try/catch','pybindgen/function.py, pybindgen/cppmethod.py')],['generated wrapper functions'])
p('C13','Declared C++ exceptions become the matching Python exception',
 'When a wrapped function, method or constructor throws one of the C++ exceptions declared for it, the generated wrapper catches it by const reference, releases everything acquired so far exactly once, sets the Python exception declared for that C++ exception (the one mapped standard error, or the generated exception type, with the message expression if one was given), and returns the wrapper\'s error value; exceptions are matched in the order declared. Code without declared exceptions is emitted without any handler, and no declared exception is dropped.',
 ['configurations','programs'],'every list of declared exceptions (own types, standard errors, message expressions, inheritance, nested namespaces) on every kind of wrapper and signature',
 'Tests declare one or two exceptions on a few functions and look only at the exception type, not at the cleanup on the exceptional path.',
 ['pybindgen/cppexception.py','pybindgen/function.py','pybindgen/cppmethod.py'],[('try/catch emission in generate_call','pybindgen/function.py, pybindgen/cppmethod.py'),('CppException.write_convert_to_python','pybindgen/cppexception.py')],['generated wrapper functions'])
p('C14','Object ownership follows the declared policy',
 'For every pointer, reference, smart-pointer or by-value parameter or return value of a wrapped class, exactly the declared side owns the object afterwards: an owned result is freed by its Python wrapper, a not-owned result never is; a transferred argument is no longer freed by its Python wrapper while a non-transferred one is left as it was; and by-value results are copied into an object the wrapper owns. A pointer return value or parameter whose ownership was not declared is refused when declared, and a null pointer result becomes None. Copies, constructed objects and containers are owned by the wrapper made for them; on every path that succeeds, each wrapper made is handed on or released, so that what it owns is freed; and destroying a wrapper (or the iterator of a container) frees or releases what it owns exactly once and nothing else.',
 ['configurations'],'every class kind (plain, reference counted, automatic or copyable or not), every handler and every combination of its policies',
 'Ownership errors are silent leaks or double frees at some later time; tests check a few destructor counts for a few of the combinations.',
 ['pybindgen/cppclass.py','pybindgen/typehandlers/smart_ptr.py'],[('CppClassPtrReturnValue / CppClassPtrParameter','pybindgen/cppclass.py'),('CppClassReturnValue / CppClassRefReturnValue','pybindgen/cppclass.py'),('ReferenceCountingPolicy subclasses','pybindgen/cppclass.py')],['flags and reference operations in generated wrappers'])
p('C15','Abstract or non-constructible classes cannot be instantiated from Python',
 'A class that declares or inherits a pure virtual method for which no class strictly between it and the declaring class, nor itself, declares a virtual, non-pure method of the same signature (C++ name, template arguments, parameter types as normalised, constness), or that is declared not constructible, gets no code anywhere that constructs it directly: constructing the class itself raises TypeError, and only a Python subclass going through the generated helper class - which then implements every such method - may be constructed. Conversely a class with a declared public constructor and no such method stays constructible, private and protected constructors construct nothing directly, and inheritance counts the same at every depth and along every base.',
 ['configurations'],'every inheritance tree with any placement of pure virtual, overriding and non-virtual methods and any constructibility declarations',
 'Tests contain one or two abstract classes; deep or multiple inheritance with partially overridden pure virtuals is not sampled.',
 ['pybindgen/cppclass.py','pybindgen/cppmethod.py'],[('CppClass.get_construct_name / set_cannot_be_constructed / get_all_implemented_methods','pybindgen/cppclass.py'),('CppMethod.matches_signature','pybindgen/cppmethod.py'),('CppConstructor.generate_call','pybindgen/cppmethod.py')])
p('C16','Names derived from C++ names are valid C identifiers, and consistent',
 'Every name of a C symbol derived from a C++ class, method or function name - with template arguments, namespaces, pointers or references - is a valid C identifier, the same input always gives the same name, and a plain identifier is left unchanged. A custom name replaces the derived Python-visible name everywhere and is reported back as the custom name, and removing it restores the derived one.',
 ['inputs'],'every C++ (template-)name made of identifiers, spaces and the characters < > , : & * ( ), with any list of template arguments',
 'Tests use a handful of template names.',
 ['pybindgen/utils.py','pybindgen/function.py','pybindgen/cppmethod.py','pybindgen/cppclass.py'],[('mangle_name / get_mangled_name','pybindgen/utils.py'),('custom_name properties','pybindgen/function.py, pybindgen/cppmethod.py')])
p('C17','Module and method tables list each entry once, with matching flags and signature',
 'The method tables of a generated module or class contain one entry for every successfully generated function or method name, all overloads of a name sharing one entry, and end with the null sentinel; the calling-convention flags of an entry agree with the parameters of the C function it names, and that function is defined in the output. Every registered class, enum value, exception, and submodule is added to its module exactly once and in a scope where its name was declared.',
 ['configurations'],'every set of functions, overloads, methods, static methods, enums, classes and submodules, in any declaration order',
 'Tests build a fixed set of modules; the tables are cast to untyped function pointers so the compiler cannot see a mismatch.',
 ['pybindgen/module.py','pybindgen/function.py','pybindgen/cppmethod.py','pybindgen/cppclass.py','pybindgen/overloading.py','pybindgen/enum.py'],[('ModuleBase._do_generate__module','pybindgen/module.py'),('get_py_method_def / get_py_method_def_flags','pybindgen/function.py, pybindgen/cppmethod.py, pybindgen/overloading.py'),('CppClass method table','pybindgen/cppclass.py'),('Enum.generate','pybindgen/enum.py')])
p('C18','Custodian and ward relations bind the declared objects at the right time',
 'For every declared custodian/ward relation the generated wrapper makes exactly the named custodian (return value, self, or n-th parameter) keep exactly the named ward alive, once, before the C++ call for pre-call relations and after it for post-call ones; a relation involving the return value is always post-call and asking otherwise is refused. No relation is added that was not declared.',
 ['configurations'],'every list of relations over return value, self and any parameter of functions, methods and constructors, explicit or attached to a parameter or return value, with any postcall setting',
 'Tests declare three or four relations; indices and the pre/post choice are not varied.',
 ['pybindgen/cppclass.py','pybindgen/function.py','pybindgen/cppmethod.py'],[('scan_custodians_and_wards','pybindgen/cppclass.py'),('implement_parameter_custodians_precall / _postcall / _add_ward','pybindgen/cppclass.py'),('add_custodian_and_ward','pybindgen/function.py, pybindgen/cppmethod.py')])
p('C19','Attributes are exposed with exactly the declared access',
 'Every declared instance or static attribute appears exactly once in the attribute table of its class, under its own name, with a getter that reads the declared C++ member (or calls the declared getter) and - if and only if it was not declared constant - a setter that writes that same member (or calls the declared setter); a constant attribute never gets a setter. A setter stores only after the conversion succeeded and refuses to delete the attribute, and an attribute whose accessors cannot be generated is left out of the table. A converter used to store a value writes its destination exactly when it reports success, with the value given: an element of a list that cannot be converted is an error, and leaves the destination as it was.',
 ['configurations'],'every list of instance, static and custom attributes with any getter/setter/constness options and value types',
 'Tests use few attributes; the pairing of entries and accessors is not checked.',
 ['pybindgen/cppattribute.py','pybindgen/cppcustomattribute.py'],[('PyGetter / PySetter generation','pybindgen/cppattribute.py'),('PyMetaclass / GetSet tables','pybindgen/cppattribute.py')])
p('C20','One C++ object has one live Python wrapper when a registry is used',
 'With a wrapper registry enabled, every generated place that creates a Python wrapper for a C++ object records it under that object\'s address after the wrapper\'s object pointer is set, every place that destroys a wrapper removes the record of that same object, and handing a C++ object that is already registered to Python returns the registered wrapper with one new reference instead of a second wrapper. With no registry, no such code is emitted.',
 ['histories','configurations'],'every class kind, every code path that creates, looks up or destroys a wrapper, and each kind of registry',
 'Identity breaks only when the same object crosses the boundary twice along particular paths; tests check one such pair.',
 ['pybindgen/wrapper_registry.py','pybindgen/cppclass.py'],[('StdMapWrapperRegistry','pybindgen/wrapper_registry.py'),('write_register_new_wrapper / write_unregister_wrapper / write_lookup_wrapper call sites','pybindgen/cppclass.py')])
p('C21','Scanning headers produces bindings equivalent to the declarations',
 'Bindings produced by scanning C++ headers expose exactly the public declarations of the scanned headers that can be wrapped, with the types, defaults, constness and annotations written there.',
 ['programs'],'every C++ header accepted by the scanner',
 'The set of C++ headers is unbounded and the scanner front end is an external program.',
 ['pybindgen/castxmlparser.py'],[('ModuleParser scanning','pybindgen/castxmlparser.py')])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
