EXACT = "element operators are total functions (num_traits::Num / std operators modelled as uninterpreted spec functions; no overflow panics)"
VEC = "Vec::with_capacity(n) allocates capacity exactly n; rows*cols of any constructed matrix fits usize"
N = "Every function named in the property is proved, for all shapes and values, against a contract stating the property; the concrete oracle also runs."
FLOAT = "machine floats: f64 is an abstract type whose operators are uninterpreted total functions; comparisons are those of an order embedding of the non-NaN doubles into the reals; all NaNs are identified"
INTO = "T: Into<f64> is a pure conversion"
ERR = "anyhow::Error is opaque; errors are told apart only by the enum they were made from"
MATF = "Matrix<f64> operations have the contracts that C01-C05 prove for every element type (assumed here)"
CELLS = "Rc<RefCell<GenericNode>> / Weak<..> are cells of an explicit heap: a field read of a borrowed node is a read of its cell, upgrade and try_borrow give that cell or fail (failure is always allowed); only existing nodes are named"
FLUXFN = "flux function pointers are one of the three formulas or a custom one about which only its effect relation is assumed (it does not rewire nodes); calling the pointer calls that formula"
WORDS = [FLOAT, ERR, "words are interned strings (two words are equal exactly when the strings are); str::split, trim, chars, contains, format! and f64::from_str are what their names say", "std HashMap is a finite map; a context binds only names that are not operator characters, to numbers, variables or functions"]
UNITS = {
 "C01": dict(units=["C01"], harness="hm", note=N, assumptions=[EXACT, VEC]),
 "C02": dict(units=["C02"], harness="hm", note=N, assumptions=[EXACT, VEC, "row arguments name rows of the matrix (others panic through the checked index)"]),
 "C03": dict(units=["C03"], harness="hm", note=N, assumptions=[EXACT, VEC]),
 "C04": dict(units=["C04"], harness="hm", note=N, assumptions=[EXACT, VEC, "subset ranges are given in order (first <= last)"]),
 "C05": dict(units=["C05"], harness="hm", note=N, assumptions=[EXACT, VEC, "std: Vec::from_iter(zip(a,b).map(f)) applies f to the pairs in order", "termination of the operator impls is not proved"]),
 "C06": dict(units=["C06"], harness="hm", smt=True, note=N + " Verus proves dispatch, frame and the error cases; the stored entries are symbolically executed from the source and the products with the original are discharged as real polynomial identities by z3/cvc5.", assumptions=[EXACT, VEC, "exact arithmetic: elements form a field read as the reals; == is equality"]),
 "C07": dict(units=["C07"], harness="hm", note=N, assumptions=[EXACT, VEC, "exact arithmetic: an interpretation re() of elements as reals commutes with the operators"]),
 "C08": dict(units=["C08"], harness="hg", note=N, assumptions=[FLOAT, INTO]),
 "C09": dict(units=["C09"], harness="hg", note=N, assumptions=[FLOAT, ERR, "the function passed in is a relation between argument and result (f.ensures); it may be evaluated at any point"]),
 "C10": dict(units=["C10"], harness="hg", note=N, assumptions=[FLOAT, ERR, MATF, "Matrix::try_inplace_invert leaves what C06/C07 prove to be the inverse; the product is the one of C03 (both named by uninterpreted relations here)", "std HashMap is a finite map whose keys() lists every key once", "nearf: equal up to the rounding of adding and taking away a step (reflexive, symmetric, transitive)", "the functions passed in are relations between a point and a result; they may be evaluated at any point"]),
 "C11": dict(units=["C11"], harness="hg", note=N, assumptions=WORDS + ["variable cells keep their value during one evaluation", "function pointers are pure and total on the argument count their entry declares; the arguments reach them last-to-first (as C13's formulas expect)", "-1 * v is the negation of v", "new_context() yields the builtins (C13)"]),
 "C12": dict(units=["C12"], harness="hg", note=N + " Malformed is stated as the negation of local conditions on neighbouring words and on parentheses (wellformed in units/C12.vt); panic freedom is part of what Verus checks.", assumptions=WORDS + ["function pointers do not panic on the argument count their entry declares"]),
 "C13": dict(units=["C13"], harness="hg", note=N, assumptions=[FLOAT, INTO, "std HashMap is a finite map; a function pointer has the requirements and results of the function it was made from", "fsin, fcos, ... name what the std methods of those names compute", "the evaluator hands a function its arguments last to first (checked by the concrete oracle through eval_str)"]),
 "C14": dict(units=["C11", "C14"], harness="hg", note=N + " The first unit re-proves the shunting yard and the evaluator, the second compile_to_fn (its closure included, and that a call leaves the heap as later calls expect it), compile_equation_to_fn, newton_raphson and both solvers; sides are related to their values for every equation whose white space is blanks.", assumptions=WORDS + ["variable cells live in an explicit heap: borrow_mut().set() writes a cell, a new Rc<RefCell<..>> is a cell not there before; between compiling and solving nobody else writes the context's variables", "Variable::set stores a value that depends only on the bounds and the request (C08)", "check_expression has the contract C12 proves", "get_legal_variables_iter yields the names in the text, none of them an operator character", "iter().filter() keeps exactly the entries the closure accepts; HashSet keeps one of each", "str::trim takes white space off the ends; format! concatenates", "-1 * v is the negation of v", "new_context() yields the builtins (C13)"]),
 "C15": dict(units=["C15"], harness="hg", note=N, assumptions=[FLOAT, INTO, ERR, "std HashMap is a finite map, HashSet keeps one of each, format! concatenates, str::split cuts at every occurrence", "get_legal_variables_iter yields the names occurring in the text (regex and string tables not under contract)", "compile_to_fn_of_hashmap, when it succeeds, returns the function that evaluates the given text under the given bindings (its closure is not under contract; the harness evaluates it)"]),
 "C16": dict(units=["C11", "C16"], harness="hg", note=N + " The first unit re-proves the shunting yard and the evaluator, the second compile_to_fn_of_hashmap (its closure included), compile_equation_to_fn_of_hashmap, multivariate_newton_raphson, System::specify_variable, System::solve and SystemBuilder's new, try_constrain_with, try_fully_constrain_with and build_system (which establish the invariant solve needs: every unknown is bound to a cell of its own, every boxed equation stands for one of the texts); residuals are related to the sides' values for every equation whose white space is blanks.", assumptions=WORDS + [MATF, "variable cells live in an explicit heap: borrow_mut().set() writes a cell; during one solve nobody else writes the context's variables", "each call of a boxed equation during Newton's method finds the heap as an earlier call left it, with nothing but values of unknowns changed (vx_bind)", "Variable::set stores a value that depends only on the bounds and the request (C08)", "check_expression has the contract C12 proves", "get_legal_variables_iter yields the names in the text, none of them an operator character", "std HashMap is a finite map; iteration, keys() and iter_mut() visit every entry once", "Matrix::try_inplace_invert leaves what C06/C07 prove to be the inverse", "nearf: equal up to the rounding of adding and taking away a step", "-1 * v is the negation of v"]),
 "C17": dict(units=["C17"], harness="hn", note=N, assumptions=[FLOAT, MATF, CELLS, FLUXFN]),
 "C18": dict(units=["C18"], harness="hn", note=N, assumptions=[FLOAT, MATF, CELLS, FLUXFN, "contracts of the flux formulas are those proved in C17 and C19", "termination (sources in a loop) is not proved"]),
 "C19": dict(units=["C19"], harness="hn", note=N, assumptions=[FLOAT, MATF, CELLS, FLUXFN, "contract of get_flux_discrepancy is the one proved in C18", "difference and balance are equations between machine floats (the IEEE sum / difference of the operands)"]),
 "C20": dict(units=["C20", "C20a", "C20b"], harness="hn", note=N + " run_study is proved whole (heap rewritten): the network it builds from the model, the functions it gives the solver (the closure's body is a function of its own, proved for any state the network may be in), the state it leaves after applying the solution, and the report. The second unit re-proves, for the current source, what the built-in constructors make and that asking an element or a node leaves the network as it was; the third proves the builder (what a study is asked is what was configured and added) and which constructor each built-in element name stands for.", assumptions=[FLOAT, MATF, CELLS, FLUXFN, "binding a closure: the function handed to the solver behaves as its body, a function of its own proved for every state of the nodes (vx_part_body); calling it any number of times leaves the nodes in such a state", "multivariate_newton_raphson: the contract proved in C09; get_flux and get_flux_discrepancy: those proved in C18", "a constructor the user adds to the configurator makes elements as the built-in ones do", "std HashMap, Vec and String are finite maps, sequences and texts: iteration visits every entry once, insert overwrites, m[k] panics when k is missing; decimal numerals of different numbers differ and contain no dot", "at most 2^32 nodes and components", "termination (sources in a loop) is not proved"]),
 "C21": dict(units=["C21"], harness="hx", note=N + " Derived units are stated quantity by quantity for the table unit_data builds; convert is related to that table for every pair of texts.", assumptions=[FLOAT, "std HashMap is a finite map: iteration visits every entry once, extend overwrites, m[k] panics when k is missing; filter keeps exactly the entries its closure accepts, map applies its closure to each", "format! concatenates", "units.json has the quantities the generators name (raw_unit_data parses it: checked by the concrete harness)", "the lazily initialised table of convert is one that unit_data built", "ratios are machine floats: there-and-back equals one exactly only in exact arithmetic"]),
 "C22": dict(units=["C22"], harness="hx", note=N + " The text is a sequence of characters; a pattern's matches in a text are an assumed function of pattern and text (which texts the pattern literals match is exercised by the oracle; the unit names the literals it was written for, so a changed pattern leaves the proof undecided and the oracle decides). Proved over them: which matches are removed or replaced, by what, what is recorded, that everything between the matches stays, how a block becomes a call (with the replacement of the comparison sign written out character by character), and how the steps are chained and recorded in the context and the declarations.", assumptions=["the regex crate: find_iter, captures_iter and replace_all visit the same matches, from the left, not overlapping; the groups of the seven patterns always take part; what @N matched is a number once its blanks are taken out; a conversion token contains its arrow; an if block has five rows (the pattern literals are pinned by the unit: another literal is undecided)", "std str: split, replace, replacen, contains, parse, to_string, join and format! as written out in the unit; the text a number is printed as is an uninterpreted function of the number", "const_data (consts.json), convert (C21) and eval_str (C08 to C13) are functions of the text they are given", "std HashMap and Vec behave as finite maps and sequences: iteration visits every entry once", "add_const_to_ctx: the contract proved in C13", "termination of `conditionals` is not proved", FLOAT, ERR]),
 "C23": dict(units=["C11", "C14", "C16", "C23"], harness="hx", note=N + " The first unit re-proves the shunting yard and the evaluator, the second and third, for the current source, the contracts of solve_equation_with_context, SystemBuilder and System that the last takes as given; the last proves try_solve_single_unknown_eqn, try_solve_subsystem_of_equations, basic_solve and solve_with_preprocessors over them: that what holds keeps holding as more becomes known is a lemma over the meaning of expressions, by induction on their structure. An equation's sides are related to their values when its white space is blanks.", assumptions=WORDS + ["variable cells live in an explicit heap (Rc<RefCell<_>> rewritten); nothing else refers to them while a program is solved", FLOAT, INTO, ERR, "the caller's context binds only names that are words, and its variables' cells exist", "std HashMap and Vec and String behave as finite maps, sequences and texts: iteration visits every entry once, filter keeps what its closure accepts, clone and to_owned give an equal value, str::split cuts at every occurrence, format! gives some text (the log's wording is not specified)", "compile, the preprocessor, only binds further names to numbers (C22 proves it) and those names are words (what the pattern for a name matches)", "the contracts of solve_equation_with_context, SystemBuilder::{new, try_constrain_with, build_system}, System::{specify_variable, solve} and Variable::set are restated in this unit in the shared terms of solved.vt and systems.vt, as proved by the other units"]),
 "C24": dict(units=["C24"], harness="hx", note="The objects C holds are a ghost map from addresses to typed objects, carried through every extern function (raw pointers, Box::from_raw/into_raw and dereferences are rewritten onto it, a catch_unwind closure becomes a function of its own whose owned boxes are released when it is left, calls that may panic return that); every function is proved to leave all objects but its receiver untouched, its receiver an object of its kind, and nothing to unwind. The property for every call sequence follows by induction: each postcondition gives the precondition of the next call. The C++ header classes are outside.", assumptions=["a fresh Box or CString has an address no live object has, and never 0", "panics arise only from the functions listed as able to panic in the unit (matrix operations on rows or cells out of range, the expression and system solvers, expect, printing); catch_unwind catches them (panic=unwind); stack exhaustion and failed allocation abort", "C passes pointers to live objects of the documented type and nul-terminated strings, and one call at a time per object", "the Rust operations behind the interface keep their receivers valid (they are safe Rust; C01-C07, C14-C16 state what they do)", "Text, CStr, String conversions and format! do not panic; CString::new may fail", "new_context, ContextHashMap::new, HashMap::new do not panic"]),
}
NA = {}

# units whose contracts a property's own units take for granted: proved again in the same run; if one of them fails, the
# property is undecided (its own check is the one that reports it) unless the oracle finds a failing input
DEPS = {"C07": ["C02"], "C10": ["C01", "C03", "C04", "C05", "C06", "C07"], "C11": ["C13"], "C12": ["C13"], "C14": ["C08", "C12", "C13"],
        "C16": ["C03", "C06", "C07", "C08", "C12", "C13"], "C17": ["C01", "C02", "C05"], "C18": ["C17", "C19"], "C19": ["C18"],
        "C20": ["C10", "C17", "C18", "C19"], "C22": ["C11", "C13", "C21"], "C23": ["C08", "C12", "C13", "C22"]}
for _p, _d in DEPS.items(): UNITS[_p]["deps"] = _d
