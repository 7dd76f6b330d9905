PROPS = []


def P(id, title, statement, over, quant, why, files, mech, technique=None, note=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      technique=technique, note=note, na=na))


AI = "abstract interpretation (points-to/effect analysis over the syntax tree, calls inlined)"

P("H01", "Mistakes are reported as PFA errors, never as internal Python errors",
  "No code path of the package fails for reasons of its own: every name it reads is defined and every local has been assigned on some path to "
  "the read, calls of the package's functions and classes fit their parameters, properties are not called, format strings get the values they name "
  "and messages with places to fill in are formatted, an exception that is made is raised, what is raised is an exception, and values are not compared by identity.",
  ["programs", "inputs"], "every function of every module of the package: all name reads, calls of package code, format strings, raise statements and comparisons",
  "Error paths are the least tested code; a slip there turns a refused document or input into an internal error.",
  ["titus"],
  [("errors", "titus/errors.py"), ("reader", "titus/reader.py"), ("checks", "titus/pfaast.py"), ("library", "titus/lib")],
  technique="name resolution, may-be-bound dataflow, arity checking of resolved calls, format-string checking over the syntax trees of all modules",
  note="Only certain failures are reported: a local that no path assigns, a call that cannot fit. Values of attributes and results of unknown calls are not typed.")

P("L01", "Library functions never modify their arguments",
  "Evaluating a PFA library function never changes, in place, a value it was given (an array, map or record passed as "
  "an argument, or anything nested inside one) nor a value handed back by a user-defined function it called. Results "
  "are built in new containers.",
  ["inputs", "programs"], "all library functions, all arguments of the declared types, all user functions passed in",
  "A test compares one return value for a handful of literal arguments and rarely looks at the argument afterwards; "
  "mutation appears only for particular branches and aliasing patterns.",
  ["titus/lib/", "titus/util.py"],
  [("library function bodies", "titus/lib/**.py: classes deriving from titus.fcn.LibFcn, method __call__"),
   ("copies before update", "e.g. titus/lib/map.py, titus/lib/array.py, titus/lib/stat/sample.py")],
  technique=AI,
  note="Sound for the Python constructs used in titus/lib up to: values reached only through external libraries "
       "(numpy results count as fresh), user functions modelled as returning an unknown shared object. Assumes declared "
       "signature types describe the arguments.")

P("L02", "Library functions are deterministic and stateless",
  "A library function's result depends only on its arguments and, for the functions specified to be random, on the "
  "engine's own seeded random number generator. Evaluating one leaves nothing behind that a later call, another engine "
  "or another thread can see: no module or class variable, default argument, function object or engine state is "
  "changed, and the clock, environment, files, object identities, hash seeds and global random generators are not read.",
  ["inputs", "histories"], "all library functions, all call histories in one process",
  "Leaked state shows only in a second call with particular earlier inputs; tests call each function a few times with "
  "unrelated data and always with a fixed seed.",
  ["titus/lib/"],
  [("library function bodies", "titus/lib/**.py: __call__"), ("seeded generator", "titus/lib/rand.py: state.rand"),
   ("the one lazy initialisation", "titus/lib/regex.py: Regexer.__init__")],
  technique=AI,
  note="Flow of effects only: set iteration order and floating-point platform differences are not modelled. The list "
       "of functions specified to be random is spec/random_functions.json. Lazy initialisation of a class attribute from "
       "no input is tolerated.")

P("L03", "Library errors carry the function's own code, name and call position",
  "Every runtime error raised by a library function carries an error code from that function's own range, the code the "
  "language assigns to that message, the name of the function the user called and the source position of the call. No "
  "code is shared by two functions.",
  ["inputs", "programs"], "every raise reachable from every library function, through every helper",
  "Tests check that an error is raised, seldom its code, name or position; most raise sites are reached by no test.",
  ["titus/lib/", "titus/errors.py"],
  [("error code ranges", "titus/lib/**.py: errcodeBase"), ("exception", "titus/errors.py: PFARuntimeException"),
   ("code table", "spec/error_codes.json (in /verif)")],
  technique="abstract interpretation with constant propagation through helper calls; table comparison",
  note="A code that cannot be folded to constants is listed in the evidence and not judged (none today). The code table "
       "was extracted from the tree and reviewed; messages absent from it are judged by range and uniqueness only.")

P("L04", "Library registration, signatures and generated calls agree",
  "Every library function is registered exactly once under its own name and reachable from the default function table. "
  "The code generated for a call evaluates each argument once, in order and with the laziness the body expects, and "
  "an inlined form computes the same expression as the body; the body accepts every declared number of arguments, calls "
  "user functions with the declared number of arguments, and every path ends in a value of the declared kind (null, boolean, whole or floating-point number, string, array, map).",
  ["programs", "inputs"], "all 449 named library functions, all declared signatures, all paths of each body",
  "Tests call most functions through one signature with one argument shape; a path that ends without a value or an "
  "inline form that differs from the body goes unnoticed until a document takes it.",
  ["titus/lib/", "titus/fcn.py", "titus/pfaast.py"],
  [("call generation", "titus/fcn.py: LibFcn.genpy and overrides in titus/lib"),
   ("registration", "titus/lib/**.py: provide; titus/pfaast.py: FunctionTable.blank"),
   ("signatures", "titus/lib/**.py: sig")],
  technique="abstract interpretation of genpy over a string-template domain; signature/body cross-checks",
  note="Values read out of records and results of numpy and of user functions are not typed. 25 "
       "functions that dispatch on argument shape without an else branch are listed as exempt from the no-value rule.")

P("L05", "Array and map functions return the elements they are documented to",
  "Each function of the array and map libraries that selects, reorders, combines, compares or searches elements, or that "
  "applies a given function to them (a.head, a.subseq, a.subseqto, a.insert, a.rotate, a.rindex, a.endswith, a.cycle, "
  "a.sortLT, a.maxN, a.argminN, a.reduceRight, a.filterMap, a.zipmap, a.slidingWindow, map.update, map.split, map.argmin, "
  "map.zipmapWithKey and the like) returns exactly the elements its documentation says, in the order it says, and calls the "
  "given function with the documented arguments. It refuses exactly the arguments it is documented to refuse (an empty "
  "array, an index out of range, misaligned arrays or maps). Code a function generates for its calls returns the same.",
  ["inputs"], "111 functions, containers of up to five opaque elements, all relevant indices, equalities and orders of elements",
  "Tests sample one array and a few indices per function; an off-by-one at the last index, a tie decided the other way or "
  "a negative bound that crosses a positive one goes unnoticed.",
  ["titus/lib/array.py", "titus/lib/map.py", "titus/util.py"],
  [("array functions", "titus/lib/array.py: __call__"), ("map functions", "titus/lib/map.py: __call__"),
   ("ranges and indices", "titus/util.py: startEnd, negativeIndex, checkRange")],
  technique="abstract interpretation of the functions over containers of opaque elements; comparison with a table of their documented results",
  note="container sizes up to five")
P("A01", "The call graph of a document is complete",
  "The call graph an engine reports (used by calledBy, callDepth, isRecursive, hasSideEffects and the deadlock check) "
  "has an entry for begin, action, end, merge and every user function, and each entry lists every function and special "
  "form used anywhere inside: at any depth of nesting, in every part of every special form. Every part of every special "
  "form is type-checked.",
  ["programs"], "all 48 expression classes, every child position, every return path of their walk methods",
  "Tests build call graphs for a few flat documents; a call lost in one sub-part of one special form shows only when "
  "that position holds a side effect.",
  ["titus/pfaast.py", "titus/genpy.py"],
  [("call collection", "titus/pfaast.py: walk methods, walkPath, walkBlock"),
   ("graph assembly", "titus/genpy.py: GeneratePython.__call__ (EngineConfig.Context branch)"),
   ("use", "titus/genpy.py: PFAEngine.calledBy, hasSideEffects, checkForDeadlock")],
  technique="abstract interpretation of the walk methods and of the engine generator: every child's calls must flow into the reported set",
  note="Flow is judged per child position and per element of a list of children; run-time values in generated code are not followed.")

P("A02", "Collect and replace reach every part of a syntax tree",
  "Collecting from a syntax tree visits every node at every depth, and replacing rebuilds the tree with every matching "
  "node substituted, each replaced part in its own slot, nothing dropped, and every other part of each node (names, "
  "types, literals, options, source position) kept as it was.",
  ["programs"], "all 49 syntax-tree classes, every child and every non-child field",
  "Tests replace one literal in a few small documents; a child skipped or a field dropped in one class passes them.",
  ["titus/pfaast.py"],
  [("traversal", "titus/pfaast.py: collect methods"), ("rebuilding", "titus/pfaast.py: replace methods")],
  technique="abstract interpretation of collect/replace per class with children as inputs; constructor slots compared with their sources",
  note="Child fields are read from the constructors' own type checks plus spec/ast_fields.json.")

P("G01", "Special forms evaluate their parts in the specified order, once, lazily",
  "The code generated for every special form evaluates each of the form's parts in the order the language prescribes, "
  "each exactly once, and only when its turn comes: only the chosen branch of if/cond/cast, loop bodies once per "
  "round with the condition tested first (or last for do-until forms), short-circuited operands only when needed, the "
  "result taken from the last expression of a block; 'try' turns exactly the errors its filter (if any) names by message or code into a missing value, never a time-out.",
  ["programs", "inputs"], "all special forms, every combination of optional parts, every path through the code generated",
  "Order and laziness show only when a part has a side effect or fails; tests use pure parts almost everywhere.",
  ["titus/genpy.py", "titus/pfaast.py"],
  [("code templates", "titus/genpy.py: GeneratePython.__call__ and the Context classes' fields"),
   ("run-time helpers", "titus/genpy.py: functions named in the sandbox of the generated class"),
   ("reference", "spec/forms_ref.py (in /verif): one short function per form")],
  technique="abstract interpretation of the code generator to symbolic templates; automaton (labelled transition system) comparison with a reference",
  note="Loops are compared as automata over evaluation events, so any number of rounds is covered. Values passed between "
       "parts are not compared. Call, FcnRef and FcnRefFill are left to L04 and G07.")

P("G07", "Variables resolve to the nearest enclosing scope",
  "In generated code, reading a symbol gives the value held by the innermost enclosing scope that declares it, 'let' "
  "declares in the current scope only, 'set' changes the scope that declares the symbol (each name in its own) and no "
  "other. A user function called by a library function gets its arguments by name in a new scope, a library function "
  "gets them in order, and the result is passed on.",
  ["programs", "inputs"], "all scope chains (told apart up to depth 8), all symbol names, all paths",
  "Tests nest scopes one or two deep and set one name at a time.",
  ["titus/util.py"],
  [("scopes", "titus/util.py: DynamicScope.get, let, set"), ("references", "titus/util.py: callfcn")],
  technique="symbolic-term dataflow over all paths (typestate on the scope chain)",
  note="Chains deeper than 8 scopes are not told apart. Names are terms; aliasing between two different names is not modelled.")

P("G02", "Text from a document cannot change the code generated for it",
  "Strings, names, paths, messages, types and numbers from a PFA document enter the generated Python only as quoted "
  "Python literals of exactly that value, as checked identifiers or as checked numbers. No text in a document "
  "(quotes, escapes, newlines, infinite numbers, null/true/false defaults) can break the generated code, be executed, or come "
  "out as a different value; a name of an engine, symbol or function that is not an identifier is rejected.",
  ["inputs", "programs"], "all holes of all templates of generated code (special forms, library calls, engine class)",
  "Tests use plain names and strings; a quote, newline, infinity or null default at one of hundreds of template holes is never tried.",
  ["titus/genpy.py", "titus/pfaast.py", "titus/fcn.py", "titus/lib/"],
  [("code templates", "titus/genpy.py: GeneratePython.__call__, reprPath"), ("calls", "titus/fcn.py: LibFcn.genpy and overrides"),
   ("name checks", "titus/pfaast.py: validSymbolName, validFunctionName, EngineConfig.walk"),
   ("known names", "titus/genpy.py: the sandbox of the generated class")],
  technique="abstract interpretation of the code generator over string templates; taint classification of every hole by lexical position",
  note="Symbol and function names checked by their class are trusted between quotes; other text is not.")

P("G04", "Shared state changes under its lock, and updates cannot deadlock",
  "Every change of a shared cell or pool item, together with reading the old value and running the update function on "
  "it, happens while holding that item's lock, which is released on every way out, exceptions and time-outs included. "
  "Nothing else changes stored values. A document whose update function may itself update or delete from a cell or "
  "pool, directly or through functions it calls, is rejected before it runs; update functions that only read are accepted.",
  ["schedules", "programs", "inputs"], "all interleavings of engines sharing cells and pools, all ways out of an update",
  "Tests run engines in one thread; a lock left held or not taken is invisible until a second thread or a failing update.",
  ["titus/genpy.py", "titus/pfaast.py"],
  [("stored state", "titus/genpy.py: classes Cell and Pool"), ("deadlock check", "titus/genpy.py: checkForDeadlock"),
   ("side effects", "titus/genpy.py: PFAEngine.hasSideEffects, calledBy"), ("generated updates", "titus/pfaast.py: CellTo, PoolTo, PoolDel and their templates")],
  technique="lockset/typestate analysis over all paths of the storage classes; abstract interpretation of the deadlock check per syntax-tree class",
  note="The call form with an update inside is a known finding. Reads without the lock (snapshot semantics) are allowed. "
       "Lock objects are terms: one lock per cell, one per pool key.")

P("A04", "The type-checker refuses parts of the wrong type",
  "Walking a document's syntax tree ends normally only if every part has a type allowed in its place: conditions are boolean; new values of "
  "set, for, attr-to, cell-to and pool-to (values, update functions and init), items and fields, results of functions, actions and merges, pack values and call "
  "arguments are accepted by what is declared there; a foreach goes over an array, forkeyval over a map, unpack over bytes, ifnotnull over a "
  "union with null; a cast names only possible cases and, unless partial, all of them; path indexes fit what they index; an error-only expression is no value.",
  ["programs"], "every special form with every combination of its optional parts, each operand's type in turn the wrong one",
  "Tests try some ill-typed documents per form; a guard weakened for one operand, or for the second of several, accepts documents that fail only while scoring.",
  ["titus/pfaast.py"],
  [("guards", "titus/pfaast.py: walk methods of the syntax tree classes"), ("paths", "titus/pfaast.py: HasPath.walkPath")],
  technique="abstract interpretation of each walk with an oracle for the type questions: one refused answer must leave no normal end",
  note="Two children stand for any number in lists. What accepts decides is D01; which signature fits a call is asked of the library function.")

P("A05", "Names are declared, looked up and assigned by the scope rules",
  "Parts used as operands are walked in a scope that may not reassign outer symbols; blocks get their own scope, where exactly the names "
  "introduced for them are visible with their types. let, for, foreach, forkeyval and unpack refuse names that are taken or not valid; "
  "set and for-steps need a declared and reassignable symbol; references need a symbol, cell, pool or function that exists. "
  "The symbol table finds the nearest declaration, and only lets outer symbols be reassigned when no scope between is sealed.",
  ["programs"], "every special form with every combination of optional parts; symbol tables three deep with every placement of a name and seals",
  "Tests sample a few shadowing and sealing cases; each form has its own scope arguments that any edit can flip.",
  ["titus/pfaast.py"],
  [("scopes", "titus/pfaast.py: walk methods, newScope calls"), ("table", "titus/pfaast.py: SymbolTable")],
  technique="abstract interpretation of each walk recording scopes, declarations and questions to the symbol table; exhaustive decision table for SymbolTable",
  note="Names of ifnotnull cases and function parameters need only be valid; names of cast cases are unconstrained.")

P("A06", "The type found for a form is the type of its value",
  "The type the type-checker finds for a form is that of the value the form gives: null for loops, declarations and forms without their last branch, the last "
  "expression's for do, the end of the path for attr, cell and pool reads, the whole object for updates, the declared type where there is one. "
  "A form with branches has the narrowest common type of all branches that do not end in an error (null if all do). The common "
  "type of a list of types is the shared type, the broader number, the container of the common item type, or the union of all of them.",
  ["programs"], "every special form with every combination of optional parts and branch types; the common type for every pair of kinds of types",
  "Inferred types only show in the next guard up; a wrong one makes the engine accept or refuse unrelated documents.",
  ["titus/pfaast.py", "titus/signature.py"],
  [("result types", "titus/pfaast.py: Context(...) made by each walk"), ("common type", "titus/signature.py: LabelData.broadestType")],
  technique="abstract interpretation of each walk and of broadestType with symbolic types, result rendered and compared with the specified one",
  note="Types of library calls are L04 and D04.")

P("A07", "Functions exist only in the versions their lifespan says",
  "Versions are ordered by major, then minor, then release. A signature with a lifespan exists from its birth up to its death and is deprecated from its "
  "deprecation on; outside it does not exist. A reference to a library function needs exactly one signature alive in the version asked for, and any "
  "use of a deprecated signature is reported. Every part of a document is checked with the same version, options, function table and task.",
  ["programs"], "all orders of the three version numbers; every lifespan against every position of a version; every form handing its arguments to its parts",
  "Almost no library signature has a lifespan, so tests never see a dead or deprecated one.",
  ["titus/signature.py", "titus/fcn.py", "titus/pfaast.py"],
  [("order and lifespan", "titus/signature.py: PFAVersion, Lifespan"), ("references", "titus/pfaast.py: FcnRef.walk, FcnRefFill.walk"),
   ("report", "titus/fcn.py: LibFcn.deprecationWarning")],
  technique="decision tables read off all paths of the comparison methods; abstract interpretation of each walk tracking what is handed to children",
  note="User functions have no lifespan. When two signatures of one function are alive, which of them a call takes is D04.")

P("B01", "Binary formats are packed and unpacked exactly as named",
  "Every documented format word of pack and unpack, in any of its spellings and with any byte-order prefix, selects the "
  "number of bytes, byte order, signedness and type its name says; other words are rejected when the document is checked. "
  "Packing writes exactly those bytes (a size that does not match or does not fit the length byte is a coded error); "
  "unpacking takes exactly those bytes, passes on the rest, and treats too few or left-over bytes as a mismatch, never as data.",
  ["inputs", "programs"], "all documented format words and spellings, all byte strings, all paths of the packing helpers",
  "Tests pack and unpack a few formats with matching data; most spellings, byte orders and truncated inputs are never tried.",
  ["titus/pfaast.py", "titus/genpy.py"],
  [("format words", "titus/pfaast.py: BinaryFormatter.formatToDeclare and the Declare classes"),
   ("run-time helpers", "titus/genpy.py: pack, unpackOne, unpack, unpackElse")],
  technique="constant folding of the format table; linear-offset dataflow over all paths of the packing helpers",
  note="Slices are compared by linear offsets; forms outside that are listed in the evidence, not judged. Floating-point rounding is not covered.")

P("G03", "A failing action or merge leaves cells and pools with rollback unchanged",
  "If an action or merge ends in any exception (runtime error, user error, time-out or other), every cell and pool marked "
  "for rollback holds exactly the value it had when the call began, and the exception goes on to the caller unchanged; "
  "nothing is rolled back after a call that ends normally, nor where rollback is off. Updating a stored value never "
  "changes in place a container that the backup or an earlier reader still holds.",
  ["inputs", "fault_sequences", "histories"], "all engine variants, all exceptions at any statement, all paths of the storage classes and of update",
  "Tests make one action fail with one kind of error and look at one cell; pools, merge, nested values and other exceptions are not combined.",
  ["titus/genpy.py"],
  [("engine methods", "titus/genpy.py: templates of action and merge"), ("backups", "titus/genpy.py: Cell and Pool maybeSaveBackup, maybeRestoreBackup"),
   ("updates", "titus/genpy.py: update")],
  technique="path exploration of the generated engine methods with failing statements; points-to write analysis of update",
  note="Two cells and two pools stand for any number. Exceptions outside Exception (KeyboardInterrupt) are not considered.")

P("D04", "A call is accepted exactly when its arguments fit the function's signature",
  "An argument fits a pattern of the same simple type or a wider number (a narrower one in parameters of function arguments, only the same inside unions and records); "
  "containers, records, unions and functions fit when their parts, field names, sizes, symbols and number of parameters do; a wildcard fits the types it allows. All "
  "arguments of a label decide its type together, which a function argument must be able to take. Of several signatures the first that fits is "
  "used, with parameter and result types as resolved.",
  ["programs"], "every kind of pattern against every kind of type, in each position (plain, strict, function parameter); signatures of two parameters with one to three arguments",
  "The pairs of pattern and type number in the thousands; tests call functions with fitting arguments.",
  ["titus/signature.py"],
  [("matching", "titus/signature.py: Sig.check"), ("resolution", "titus/signature.py: Sig.assign, assignRet, accepts, Sigs.accepts"), ("labels", "titus/signature.py: LabelData")],
  technique="abstract interpretation of the matching code for each pair of pattern and type kind, parts answered by an oracle; answers compared with the specified table",
  note="Parts are one level deep (deeper ones recur through the same code). The pairing of union members is judged only as far as strictness and refusal go.")

P("E01", "Each routine sees exactly its documented symbols, counters and tally",
  "While begin, action, end or merge runs, exactly the predefined symbols documented for it are bound, to the engine's "
  "current values, and the type-checker puts exactly those in scope, read-only and with their documented types. Its "
  "statements run once each in document order; actionsStarted is counted once before the code and actionsFinished once "
  "after a normal end; a fold's tally starts as zero and becomes the last statement's value only after a normal end, and "
  "map, fold and merge return that value.",
  ["programs", "inputs", "histories"], "every combination of method, begin, end, merge and version; every way a statement may end",
  "Tests look at a counter or tally after ordinary runs; symbols in rarely used routines, versions and failing calls are not combined.",
  ["titus/genpy.py", "titus/pfaast.py"],
  [("generated routines", "titus/genpy.py: templates of begin, action, merge, end"), ("scopes", "titus/pfaast.py: EngineConfig.walk")],
  technique="path exploration of the generated engine methods with failing statements; abstract interpretation of the engine's type-check",
  note="Two statements per routine stand for any number. The input is taken as given or as returned by checkData.")

P("G08", "Generated code refers only to things that exist and calls them as declared",
  "Every name read by the Python code generated for a special form or an engine is bound in that code or in the name "
  "table it is executed in; every member of the engine, execution state or scope it uses exists; and every call it makes "
  "to a run-time helper or method gives arguments that fit the parameters. A type-checked document therefore never fails "
  "with a NameError, AttributeError or TypeError of the generated code itself.",
  ["programs"], "every special form, every choice of its optional parts, every kind of engine",
  "Python reports such a mistake only when the very line runs; forms and options no test executes keep it hidden.",
  ["titus/genpy.py", "titus/pfaast.py", "titus/util.py"],
  [("templates", "titus/genpy.py: GeneratePython.__call__; titus/pfaast.py: Context classes"), ("name table", "titus/genpy.py: PFAEngine.fromAst")],
  technique="abstract interpretation of the code generator to templates; name resolution and call binding over their syntax trees",
  note="Code of library calls is covered by L04. Names built from parts of the document are covered by G02.")

P("G06", "Engines made together are isolated except for what is declared shared",
  "Engines made from one document have their own tables of cells, pools and functions, their own random generator and "
  "their own private cells and pools; a shared cell or pool is the same object in all of them, and the one already in the "
  "shared state if there is one. Each starts from its own declaration's decoded initial value. With a random seed in the "
  "document every generator depends on the seed and the engine's position only; every engine is checked and initialized "
  "before it is handed out.",
  ["inputs", "histories"], "every method, shared or private storage, seeded or not, with no, empty or filled shared state",
  "Tests make one engine, or several and run only the first; aliasing shows when two engines run alternately.",
  ["titus/genpy.py"],
  [("construction", "titus/genpy.py: PFAEngine.fromAst"), ("storage", "titus/genpy.py: Cell, Pool, SharedState")],
  technique="abstract interpretation of engine construction with allocation-site aliasing",
  note="Two engines, two cells and two pools stand for any number; exec of the generated class is modelled by its constructor's assignments.")

P("D01", "Type acceptance is exactly Avro-style substitutability",
  "AvroType.accepts (and FcnType.accepts) says yes exactly when a value of the given type may be used where the other is "
  "expected: equal simple types; int, long, float, double widening only in that order; arrays and maps by their items; fixed by "
  "full name and size; enums by full name and a subset of the symbols; records by full name and fields, extra fields allowed, "
  "missing ones only with a default. A union is accepted when every member is, and accepts what any member accepts; functions take "
  "wider arguments and return narrower results. The decision always ends, also for recursive records.",
  ["inputs"], "every pair out of 54 example types covering every kind of type, nested and recursive ones included",
  "The type-checker rests on this relation for every pair of types; tests try a few pairs, mostly accepted ones.",
  ["titus/datatype.py"],
  [("relation", "titus/datatype.py: AvroType.accepts, FcnType.accepts, _recordFieldsOkay")],
  technique="abstract interpretation of the accepts methods over a universe of example types, compared with the specified relation",
  note="Two-member containers, unions and records stand for any size.")

P("D02", "Values cross the boundary only if they belong to the declared type",
  "checkData (input), jsonDecoder (initial values, literals) and jsonEncoder (output) take every Python form in which a value of the type "
  "can appear, including bytes, and refuse forms that cannot belong to it (a Boolean is not a number, an enum string is a symbol in the codecs, "
  "a fixed value has the declared size). What they return is again a value of the type: items, map values and fields are converted "
  "with their own type, union tags name the type used and are left out throughout when asked to be, left-out fields come from their default. Refusals are AvroException from the codecs "
  "and TypeError from checkData, never another exception.",
  ["inputs"], "every kind of Avro type with every kind of Python value (None, booleans, int, float, str, bytes, list, tuple, dict); records with present, missing and defaulted fields",
  "Tests push typical values through each type; unusual forms (bytes after conversion, Booleans for numbers, falsy defaults) stay untested.",
  ["titus/datatype.py"],
  [("codecs", "titus/datatype.py: jsonDecoder, jsonEncoder"), ("input check", "titus/datatype.py: checkData")],
  technique="path exploration of the conversion functions per Avro type and value form (dataflow over dispatch on types)",
  note="Documented leniency (numbers and null, true, false as strings, iterables as arrays) is not restricted. Value ranges are not considered.")

P("D03", "Comparison of values is the order Avro defines for their type",
  "compare returns -1, 0 or 1 for any two values of a type in any of their Python forms: false before true, numbers and strings in natural order, "
  "NaN equal to itself and after every number, enums in the order of their symbols, arrays item by item and then by length, records "
  "by the first differing field in field order, reversed for descending and skipping ignored fields.",
  ["inputs"], "every simple type with every pair of value forms, ranks and NaN; arrays and records with every outcome of an element comparison",
  "Sorting, minima and comparisons in scoring rest on this order; tests seldom mix forms, NaN, descending and ignored fields.",
  ["titus/datatype.py"],
  [("order", "titus/datatype.py: compare")],
  technique="path exploration of compare with abstract ranks for the values, compared with the specified order",
  note="The order between different members of a union is not judged.")

P("R01", "Each JSON form of a document is read as the form it stands for",
  "An object with exactly the keys of an expression, function, cell, pool, cast-case or engine form is read as that form: each part is taken from its "
  "own key, missing parts get the documented default, and the form carries its position in the document. Null, booleans, numbers by range, strings "
  "and one-string arrays are read as the literals or references they stand for. An object with a key missing or one too many, a part of the "
  "wrong JSON type, an impossible name or a number out of range is refused with PFASyntaxException.",
  ["inputs"], "every form with every combination of its optional keys (none, each, all for the engine), every part in each of its shapes, every missing or additional key, wrong types per part",
  "The reader decides by sets of keys; a slip changes what a valid document means or lets an invalid one through, and tests have one document per form.",
  ["titus/reader.py", "titus/pfaast.py"],
  [("reader", "titus/reader.py: _readArgument, _readFcnDef, _readCastCase, _readCell, _readPool, _readEngineConfig")],
  technique="abstract interpretation of the reader with symbolic JSON parts; the form built and the origin of each of its parts compared with the table of forms",
  note="The contents of Avro types, the regular expressions for names, base64 and the YAML front end are not judged.")

P("A03", "A form written as JSON is read as the same form",
  "The JSON written for any expression, function, cast-case, cell, pool or engine document is accepted by the reader and gives a form of the "
  "same class with the same parts (apart from positions). The position is written exactly when line numbers are requested, and the parts are written "
  "with the same choice and the same record of the type names already written.",
  ["inputs"], "every form with every combination of its optional keys, each part in every shape it can have, empty and with one and two elements, falsy values included",
  "Documents are stored, exchanged, snapshotted and rewritten through this JSON; tests compare a few documents, mostly with common keys.",
  ["titus/pfaast.py", "titus/reader.py"],
  [("writer", "titus/pfaast.py: jsonNode of the forms"), ("reader", "titus/reader.py")],
  technique="abstract interpretation: reader, jsonNode and reader again on symbolic documents, the two forms compared part by part",
  note="The JSON of Avro types and base64 contents is taken to be inverse. The generated name of a nameless document is not compared.")

P("S01", "A snapshot is the engine's document with its current cell and pool values",
  "PFAEngine.snapshot() gives a document with every part of the document the engine was made from, except that each cell and each pool, "
  "none missing and none added, has the value it holds at that moment as its initial value, with its type, shared, rollback and source unchanged. "
  "A pool's initial items are exactly the items it holds.",
  ["inputs"], "every document, any number of cells and pools of any sharing, holding any values and items",
  "Model state is checkpointed and moved between hosts through snapshots; the tests snapshot one or two small engines and compare values.",
  ["titus/genpy.py"],
  [("snapshot", "titus/genpy.py: PFAEngine.snapshot")],
  technique="abstract interpretation of snapshot on a symbolic engine: each constructor argument traced to the part of the engine it comes from",
  note="Values are traced to the text json.dumps gives; that text leaves union members untagged, as the tests require.")

P("G05", "The clock of a routine is checked against the timeout of its own run",
  "Every run of begin, action, merge or end makes its own execution state, which takes its timeout from the engine's options (the host's value, else the "
  "document's, else none) and the time it started. checkTime raises PFATimeoutException exactly when there is a timeout and more than that many milliseconds "
  "have gone since the start. Library functions that go through all combinations or permutations call it as they go.",
  ["inputs", "histories"], "every routine of every kind of engine, every combination of document and host options, every elapsed time and timeout",
  "A deadline that is measured in the wrong unit, from the wrong start or not at all shows only when something runs too long; tests use one timeout and one endless loop.",
  ["titus/genpy.py", "titus/options.py", "titus/lib/array.py"],
  [("clock", "titus/genpy.py: ExecutionState"), ("routines", "titus/genpy.py: generated begin, action, merge and end"), ("options", "titus/options.py: EngineOptions")],
  technique="path exploration of checkTime with conditions brought to linear normal form; abstract interpretation of the options; path check of generated routines",
  note="That loops of the language check the time in every round is part of G01.")

P("D05", "A type's JSON describes exactly that type",
  "The JSON of a type has its kind and every part (size, symbols, items, values, members in order, fields in order with their types, defaults, null "
  "included, and orders) and its name and namespace the first time, only its full name afterwards, however often it is written. An Avro schema is taken for a type of "
  "its kind with that schema's parts, a type made from parts has a schema of those parts, and looking a type up by name, kind or description gives that type.",
  ["inputs"], "every kind of type, with and without namespace, default, order, any number of parts, written before or not",
  "Types are written and read again at every cast, snapshot and exchange of documents; a part lost or confused shows only for the kind of type concerned.",
  ["titus/datatype.py"],
  [("writer", "titus/datatype.py: jsonNode of the types"), ("reader", "titus/datatype.py: schemaToAvroType, ForwardDeclarationParser.getAvroType"), ("constructors", "titus/datatype.py: constructors and properties of the types")],
  technique="abstract interpretation of the type classes on symbolic schemas, with names, namespaces, defaults and the record of written names enumerated",
  note="The Avro library itself and the order in which forward references are resolved are not judged.")

P("H02", "Run-time errors carry the code, name and position of the form that failed",
  "A failed path access in attr, attr-to, cell, cell-to, pool or pool-to is reported with the array or map error code of that "
  "form, that form's name and its position in the document, however deep in the path it happens; failures of pack carry "
  "pack's codes, and an error form carries its own message and code. The exception keeps its message, code, name and position as attributes.",
  ["inputs", "programs"], "every form whose generated code can raise, every raise statement the helpers can reach",
  "Tests look at these codes for one-step paths at most; a code lost in the recursion along a path, or the position, is "
  "seen by no test, and users filter errors by code.",
  ["titus/genpy.py", "titus/errors.py", "titus/pfaast.py"],
  [("path helpers", "titus/genpy.py: get, update, Cell.update, Pool.update"), ("calls generated", "titus/genpy.py: GeneratePythonBasic.__call__"),
   ("packing", "titus/genpy.py: pack"), ("exceptions", "titus/errors.py: PFARuntimeException, PFAUserException")],
  technique="abstract interpretation of the helpers with symbolic arguments (parametricity), and of the generator to call templates; table comparison",
  note="The error codes of the six forms are pinned from the PFA specification.")

P("P01", "PrettyPFA text means the PFA it stands for",
  "Each construct of the PrettyPFA grammar becomes the PFA form, type, JSON value, cell, pool or function it stands for, with "
  "every part taken from its own place, and each section of a document becomes the part of the engine it names, in any order "
  "of sections. Operators bind and group in the documented order, and operators, brackets and reserved words are read as the tokens they stand for.",
  ["inputs", "programs"], "every construct of the grammar built from arbitrary parts; every section of a document; every pair of operators",
  "Tests parse sample programs; a part swapped or dropped in a less used construct, or one order of sections, or one pair of "
  "operators, is reached by no test.",
  ["titus/prettypfa.py"],
  [("grammar actions", "titus/prettypfa.py: p_*"), ("mini syntax tree", "titus/prettypfa.py: Mini*.asExpr, asType, asJson, asCell, asPool, asFcn"),
   ("sections", "titus/prettypfa.py: Section, p_document"), ("precedences", "titus/prettypfa.py: precedence"), ("tokens", "titus/prettypfa.py: t_*, reserved")],
  technique="abstract interpretation of the grammar's actions over derivations with symbolic parts; comparison with a table of constructs; evaluation of the precedence table and of the token patterns",
  note="The parser generator (ply) is trusted to apply productions by the precedence table. Constructs whose productions cannot be found are listed in the evidence and not judged.")
P("P02", "Python code means the PFA it stands for",
  "pfa() and fcn() turn each Python statement and expression they take into the PFA form it stands for: let for a new name and set for a known "
  "one within its block, foreach, forkey, while, if and cond, error, log, operators, chained comparisons, calls with keyword parts, attributes and "
  "indexes as the path of an attr, cell or pool, literals, each with every part taken from its own place and in order. Anything else is refused "
  "with PythonToPfaException, never left out.",
  ["inputs", "programs"], "every statement and expression form of Python, built from arbitrary parts",
  "Tests convert few snippets; a part swapped or dropped in a less used form, or a form silently ignored, is reached by none.",
  ["titus/producer/expression.py"],
  [("entry points", "titus/producer/expression.py: pfa, fcn"), ("forms", "titus/producer/expression.py: _form, _statement, _expression, _ifchain, _unfold, _literal")],
  technique="abstract interpretation of the converter over Python syntax trees with symbolic parts; comparison with a table of forms",
  note="Forms whose outcome depends on unknown values are listed in the evidence and not judged.")
P("P04", "A chain of documents does what its steps do one after another",
  "In a chain made by titus.producer.chain each step's action gets what the one before returns or emits, begin and end run in order, and what a step "
  "reads of its engine (name, instance, metadata, version, counters) is what the chain's engine has. Every form, type, cell, pool and function of a step "
  "is carried over with all its parts and initial values, under names that are used consistently and differ between steps, while types passed "
  "between steps get one name and the types of the chain's input and output keep theirs.",
  ["inputs", "programs"], "every kind of form, type, cell, pool and function in a step; map and emit steps in every neighbouring pair (fold is refused)",
  "Tests chain a few small scorers; a part not renamed or lost in a less used form, or in one combination of methods, is reached by none.",
  ["titus/producer/chain.py", "titus/pfaast.py"],
  [("chaining", "titus/producer/chain.py: ast"), ("replacement", "titus/pfaast.py: replace of every form"), ("options", "titus/producer/chain.py: engine, json")],
  technique="abstract interpretation of the chaining code over chains of documents with symbolic names and parts; comparison of each form of the result with the step it stems from",
  note="The kinds of form and combinations of methods are those of the constructed chains; parts inside them are symbolic.")
