#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the entries stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
p("C01","Well-formed expressions evaluate to their conventional mathematical value",
 "Evaluating any well-formed expression built from numbers, named constants and variables, + - * / ^, unary minus, parentheses and (nested, multi-argument) function calls gives the value of ordinary arithmetic: ^ binds tighter than unary minus, then * and /, then + and -; equal precedence associates to the left except ^, which associates to the right; a function applies to exactly its parenthesised, comma-separated arguments. The built-in functions and constants (sin..tanh, ln, log10, log(base,x), abs, if(a,op,b,t,f), pi, e) compute what their names say, and extra spaces or redundant parentheses never change the value. Dividing by zero is an error, never a value.",
 ["inputs"],"every well-formed expression (any nesting depth, operator mix, spelling of names and numbers) and every assignment to its names",
 "the tests evaluate a handful of fixed strings and one token order; precedence, associativity and argument order are properties of all token sequences",
 ["geqslib/src/shunting.rs","geqslib/src/context.rs"],[("operator-precedence parsing to postfix","geqslib/src/shunting.rs"),("postfix evaluation","geqslib/src/shunting.rs"),("built-in functions","geqslib/src/context.rs")],
 ["eval_str","eval_str_with_context","compile_to_fn","compile_to_fn_of_hashmap"])
p("C02","Malformed expressions are rejected with an error, never a value or a panic",
 "Evaluating or compiling any text that is not a well-formed expression over the given names - empty text, missing or doubled operands or operators, unbalanced or misplaced parentheses or commas, wrong number of arguments, a function without arguments, unknown names or malformed numbers - returns an error. It never returns a value, panics, or loops, and a later evaluation of a well-formed expression is unaffected.",
 ["inputs"],"every token sequence outside the grammar, of any length",
 "the tests contain next to no malformed input; the set of malformed texts is infinite and each parser state rejects differently",
 ["geqslib/src/shunting.rs"],[("placement and arity checks while parsing","geqslib/src/shunting.rs")],["eval_str","eval_str_with_context","compile_to_fn","compile_to_fn_of_hashmap"])
p("C03","Compiled expressions use the current variable values, whatever ran before",
 "Calling a compiled expression assigns the given values to the named variables (each clamped to its variable's domain) and returns the value of the expression at the resulting variable values; variables not named in the call keep the value they last received from any function compiled with the same context. The result depends on nothing else: not on the number, order or interleaving of earlier calls, evaluations or compilations. A call that names something that is not a variable of the context is an error, and so is compiling a function of one number with a context that does not have exactly one variable.",
 ["histories","inputs"],"every sequence of compile, call and evaluate operations over contexts with shared variables",
 "the tests call each compiled function once; aliasing between functions compiled from one context and state left by earlier calls only shows in sequences",
 ["geqslib/src/shunting.rs","geqslib/src/context.rs","geqslib/src/variable.rs"],[("variables shared by reference between context and compiled functions","geqslib/src/shunting.rs")],
 ["compile_to_fn","compile_to_fn_of_hashmap","eval_str_with_context"],[("variable store","values shared by all functions of a context","geqslib/src/context.rs")])
p("C04","A variable's value is always inside its domain",
 "After construction, any assignment, and any in-place addition, subtraction, multiplication or division, the value of a variable is the mathematically resulting value if that lies in the closed domain [min, max], and otherwise the bound that was crossed. The domain itself never changes through these operations.",
 ["histories","inputs"],"every sequence of operations with finite or infinite operands and every domain, including half-open infinite and single-point domains",
 "one doctest sets two values; the guarantee is an invariant over all operation sequences",
 ["geqslib/src/variable.rs"],[("clamping assignment","geqslib/src/variable.rs")],["Variable"],[("value","current value","geqslib/src/variable.rs")])
p("C05","One-variable root finding returns only accepted roots, errors otherwise",
 "The one-variable root finder follows Newton's method from the given guess and returns a point only when both the function value and the next step there are within the margin in magnitude, examining at most `limit` points. If no such point is reached within the limit it returns an error, an error of the function is returned to the caller, and a margin that is not positive is rejected without a result; it never panics.",
 ["inputs","fault_sequences"],"every function (including ones that fail at some evaluation, have zero, negative or undefined slope), guess, margin and limit",
 "the tests find a few roots of fixed functions; acceptance on every sign combination, the exact budget and failing functions are not exercised",
 ["geqslib/src/newton.rs"],[("acceptance test on value and step","geqslib/src/newton.rs"),("iteration budget","geqslib/src/newton.rs")],["newton_raphson"])
p("C06","Multi-variable root finding returns only accepted roots, errors otherwise",
 "The multi-variable root finder follows Newton's method from the given guess and returns a point, with exactly the variables of the guess, only when the magnitudes of the function vector and of the next step there are both within the margin, examining at most `limit` points. A system whose number of functions differs from its number of unknowns, a singular system, a failing function, a margin that is not positive or an exhausted limit gives an error, never a wrong point or a panic. The result does not depend on the order of the functions or the names of the unknowns.",
 ["inputs","fault_sequences"],"every system of functions, guess, margin and limit, any number of unknowns",
 "the tests solve two fixed 2x2 systems",
 ["geqslib/src/newton.rs","gmatlib/src/lib.rs"],[("acceptance test on the norms of value and step","geqslib/src/newton.rs"),("finite-difference jacobian and its inverse","geqslib/src/newton.rs")],["multivariate_newton_raphson"])
p("C07","A system builder accepts exactly the equations that constrain the system",
 "While a system has fewer equations than unknowns, a valid equation that adds at most one new unknown is added (its unknown with it) and reported as constraining, and one that adds more is left out and reported as not constraining; once they are equal in number nothing more is added and every equation is reported as over-constraining. Adding from a list keeps adding acceptable equations until the system is fully constrained or none is acceptable, and reports which. The list of unknowns is always exactly the names that the added equations use and the context does not define, a rejected or invalid equation changes nothing, and a system can be built exactly when it is fully constrained.",
 ["histories","inputs"],"every sequence of offered equations, valid or not, in any order, over any context",
 "the tests offer two or three equations in one order",
 ["geqslib/src/system.rs","geqslib/src/lib.rs"],[("count of equations against unknowns","geqslib/src/system.rs"),("unknown discovery against the context","geqslib/src/system.rs")],["SystemBuilder::new","SystemBuilder::try_constrain_with","SystemBuilder::try_fully_constrain_with","SystemBuilder::is_fully_constrained","SystemBuilder::get_vars","SystemBuilder::build_system"],[("unknowns and equations of the builder","what has been added so far","geqslib/src/system.rs")])
p("C08","Solving a built system gives values for its unknowns that satisfy every equation",
 "Solving a constrained system returns a value for each unknown of the system and for nothing else; those values satisfy every added equation within the margin and lie inside the domains given for the unknowns, and for a regular linear system with sufficient iterations the solve succeeds and returns its unique solution; the search starts from the guesses given last, so that a guess beyond the outermost root of one equation leads to that root. The solution does not depend on the order in which the equations were added, on the names used, or on the known values being written as constants or numbers. A system without a solution inside the domains gives an error, and specifying a name that is not an unknown of the system is refused.",
 ["inputs","programs","histories"],"every solvable or unsolvable system of any size and structure (chained, coupled, non-linear), every order, guess and domain",
 "the tests solve a few 2- and 3-unknown systems whose first equation names every unknown",
 ["geqslib/src/system.rs","geqslib/src/newton.rs","geqslib/src/lib.rs"],[("compilation of equations against the full set of unknowns","geqslib/src/system.rs"),("Newton iteration","geqslib/src/newton.rs")],["System::solve","System::specify_variable"])
p("C09","Solving one equation finds its single unknown and a value that satisfies it",
 "Solving a single equation identifies the one name that the context does not define and returns it with a value that satisfies the equation within the margin and lies inside the given domain, found from the given guess: where the equation has several roots, a guess beyond the outermost root on either side leads to that root. Text without exactly one '=', an invalid side, no unknown or more than one unknown gives an error, as does an equation without a root inside the domain. The caller's context defines the same names with the same values afterwards, whether the solve succeeds or fails.",
 ["inputs","histories"],"every equation, context, guess, domain and limit, and repeated solves on one context",
 "the tests solve a few linear equations once each, all from guess 1 and without a domain",
 ["geqslib/src/lib.rs","geqslib/src/newton.rs"],[("unknown inference","geqslib/src/lib.rs"),("residual compilation and Newton iteration","geqslib/src/lib.rs")],["solve_equation_with_context","solve_equation_from_str"])
p("C10","Solving a program returns values that satisfy all its equations, in any order",
 "For a program of equations that can be solved one unknown at a time or by subsystems in which each further equation brings at most one new unknown, the solver returns for every variable a value such that all equations hold within the margin; values found earlier are known values in the equations solved later. The result does not depend on the order of the equations or the names of the variables, initial guesses and domains apply wherever their variable is solved, and unknowns that are not determined are left out of the result. A program whose solved part has no solution (non-convergent, singular, outside the domain, malformed) gives an error.",
 ["programs","inputs"],"every program text: any mixture of single equations and coupled groups, any order, any context of known values and any declared guesses and domains",
 "the tests solve one or two fixed programs in one order",
 ["nexsys/src/lib.rs","geqslib/src/system.rs"],[("single-unknown elimination","nexsys/src/lib.rs"),("subsystem search","nexsys/src/lib.rs")],["nexsys::basic_solve","nexsys::solve_with_preprocessors"],[("equation pool and solved values","what is left to solve and what is known","nexsys/src/lib.rs")])
p("C21","The procedure reported with a solution is a valid way to solve the program",
 "The procedure that comes with the solution of a program lists the steps in the order in which they were taken. Each step names equations of the program, as written, of which none was used by an earlier step: either one equation, together with its single unknown, or a set of as many equations as they have unknowns, where the values found by earlier steps are known. The unknowns of all steps together are exactly the variables that have a value in the result beyond those known beforehand, and no equation with a single unknown is left over.",
 ["programs","histories"],"every solvable program, in any order of its equations, with any mixture of single equations and coupled groups",
 "the tests ignore the procedure; whether a step is justified depends on all steps before it",
 ["nexsys/src/lib.rs"],[("log of the steps taken","nexsys/src/lib.rs")],["nexsys::basic_solve","nexsys::solve_with_preprocessors","nxc output (Procedure)"],[("equation pool and solved values","what is left to solve and what is known","nexsys/src/lib.rs")])
p("C11","Comments, declarations and substitutions in a program mean what they say",
 "Comments have no effect; `const n = v` makes n the known value v in every equation (with its sign, also under an exponent); `#name` stands for the named physical constant and `[a->b]` for the conversion factor wherever they appear; `guess v for x` and `keep x on [a, b]` set the initial guess and the domain of exactly x, and nothing else of what was declared or known before the program is compiled. This holds for any number, order and position of such items, for names that contain or extend one another, upper or lower case keywords and any spacing the syntax allows. An unknown constant or unit gives an error, and text that is none of these items is passed on unchanged.",
 ["programs","inputs"],"every program text with any combination and repetition of these items",
 "the tests preprocess three fixed snippets",
 ["nexsys/src/parsing/mod.rs"],[("pattern-based passes over the text","nexsys/src/parsing/mod.rs")],["parsing::compile","parsing::comments","parsing::consts","parsing::conversions","parsing::guess_values","parsing::domains","solve_with_preprocessors"])
p("C12","A conditional block contributes exactly the equation its condition selects",
 "An if/else/end block, nested to any depth in either branch and indented in any way, acts as the equation of the branch that the condition selects: the values it is solved with satisfy that branch's equation. All six comparison operators (==, <=, >=, <, >, !=) decide as in ordinary arithmetic, including when both sides are equal, and names that contain the words if, else or end stay intact. A comparison with an invalid operator is an error.",
 ["programs","inputs"],"every nesting of blocks, operator, branch equation and value of the compared expressions",
 "the tests convert three fixed blocks and solve one",
 ["nexsys/src/parsing/conditionals.rs","geqslib/src/context.rs"],[("innermost-first rewriting to a function call","nexsys/src/parsing/conditionals.rs"),("operator codes","nexsys/src/parsing/conditionals.rs and geqslib/src/context.rs")],["parsing::conditionals","solve_with_preprocessors"])
p("C13","Unit conversion factors are correct, reversible and consistent",
 "The factor for converting between two units of the same quantity is the ratio of their sizes: every listed unit has its physical size, derived units (areas, volumes, speeds, pressures, energies, powers, flows, frequencies, stiffnesses, viscosities) have the size that follows from the units they are composed of, and so a->a is 1, a->b times b->a is 1 and a->b times b->c is a->c. Converting between different quantities, or from or to an unknown unit, is an error. Each named physical constant has its listed value.",
 ["inputs"],"every ordered pair and triple of units of every quantity, and every constant",
 "the tests convert three pairs of several thousand",
 ["nexsys/src/units/mod.rs","nexsys/src/units/units.json","nexsys/src/units/consts.json"],[("table of base units and rules for derived ones","nexsys/src/units/mod.rs")],["units::convert","units::unit_data","units::const_data"])
p("C14","Matrix operations compute their algebraic definition and reject bad shapes",
 "Every matrix constructor, element access, row operation, scaling, sum, difference, product, augmentation, subset, transpose and trace gives exactly the matrix, shape or number of its algebraic definition and leaves every other element and its operands unchanged, for every shape, every element type and every sequence of operations; the text form lists the elements row by row. An operation whose shapes or indices do not fit is reported (an error where the operation returns a result, otherwise a panic before anything is changed) and never reads or writes another element.",
 ["inputs","histories"],"every shape (square, wide, tall, single row or column, empty), element value and sequence of operations",
 "the tests apply each operation to one or two small, mostly square matrices",
 ["gmatlib/src/lib.rs","gmatlib/src/trait_impls.rs"],[("flat row-major storage","gmatlib/src/lib.rs"),("shape and bounds checks","gmatlib/src/lib.rs")],["Matrix"],[("elements","row-major vector with row and column counts","gmatlib/src/lib.rs")])
p("C15","Matrix inversion gives the inverse, or an error and an untouched matrix",
 "Inverting an invertible square matrix of floating-point numbers of any size - whatever the order of its rows and columns and wherever its zeros are - succeeds and leaves a matrix whose product with the original is the identity within rounding. Inverting a matrix that is not square, or is recognisably singular (a zero row or column, two equal rows, or any singular matrix of small whole numbers up to 4x4), is an error and leaves the matrix as it was.",
 ["inputs"],"every square matrix of every size from 1 up, invertible or singular, and every non-square shape",
 "the tests invert one matrix per size, none with a zero pivot",
 ["gmatlib/src/lib.rs"],[("closed forms for small sizes","gmatlib/src/lib.rs"),("elimination with pivoting","gmatlib/src/lib.rs")],["Matrix::try_inplace_invert"])
p("C16","The matrix C interface keeps handles valid and mirrors the library",
 "Through any sequence of C calls on matrix handles, each call has the effect, result and documented status of the corresponding matrix operation: a failing call reports it (null, 0, or the documented code) and leaves every live matrix as it was; a successful one changes only its target. A handle stays valid, and its matrix independent of all others, until it is freed exactly once, by free; nothing is freed twice, used after being freed, or leaked.",
 ["histories","fault_sequences"],"every sequence of calls, including failing ones, over any number of live handles",
 "no test touches the C interface",
 ["gmatlib/src/ffi.rs"],[("ownership of boxed matrices across the boundary","gmatlib/src/ffi.rs")],["the extern \"C\" functions of gmatlib"],[("live handles","matrices owned by the caller","gmatlib/src/ffi.rs")])
p("C17","The solver C interfaces keep handles valid and mirror the library",
 "Through any sequence of C calls on contexts, builders, systems, declarations and solution strings, each call has the effect and the result (solution text, status code, or null on failure) of the corresponding library operation. Creating builders or solving single equations leaves the caller's context valid and unchanged; building consumes the builder, solving consumes the system, and everything else stays valid until it is freed once; nothing is freed twice, used after being freed, or leaked.",
 ["histories","fault_sequences"],"every sequence of calls, including failing ones",
 "no test touches the C interfaces",
 ["geqslib/src/ffi.rs","nexsys/src/ffi.rs"],[("ownership of boxed objects across the boundary","geqslib/src/ffi.rs"),("status codes and solution text","geqslib/src/ffi.rs and nexsys/src/ffi.rs")],["the extern \"C\" functions of geqslib and nexsys"],[("live objects","contexts, builders, systems and strings owned by the caller","geqslib/src/ffi.rs")])
p("C18","A solved network obeys the element laws and balances at every free node",
 "In the result of a solved study every resistor, conductor and convection interface carries the flux given by its gain and its end potentials, every voltage source or temperature difference holds its output that much above its input, every current or heat source carries its set flux, every fixed node has its set potential, and at every node that is not fixed the fluxes in and out balance. This holds whatever the order of the elements, the numbering of the nodes, the direction of an element or the arrangement of sources (grounded, floating, chained, parallel to others), and a connected grounded network of such elements is solved successfully. A study without a solution (sources push a net flux into an ungrounded part, or a source contradicts the potentials fixed nodes or other sources give its ends) gives an error, and so an undetermined one never gives values that break these laws.",
 ["inputs","configurations"],"every network: any number of nodes and elements, any topology, order, orientation and gains",
 "the tests run one grounded series circuit and do not look at its result",
 ["neapolitan/src/lib.rs","neapolitan/src/flux_formulas.rs","neapolitan/src/dc_circuits.rs","neapolitan/src/heat_transfer.rs","neapolitan/src/modelling/node.rs","neapolitan/src/modelling/element.rs"],[("flux balance per free node","neapolitan/src/modelling/node.rs"),("sources driving one of their nodes","neapolitan/src/flux_formulas.rs")],["NodalAnalysisStudyBuilder::run_study"],[("node potentials","state shared by the elements of a study","neapolitan/src/lib.rs")])
p("C19","Invalid network models give errors and saved models load back unchanged",
 "A model with an unknown study type, an unknown element type, a node index out of range, a wrong number of gain or potential values, or text that is not a model is refused with an error, when it is built or when it is run, and never panics; adding an element type twice is refused. Saving a model and loading the text back gives the same model (numbers up to a rounding of the last digit), with the same study results.",
 ["inputs","configurations","histories"],"every sequence of builder calls and every model text",
 "the tests build one valid model and never load one",
 ["neapolitan/src/lib.rs","neapolitan/src/modelling/mod.rs","neapolitan/src/dc_circuits.rs","neapolitan/src/heat_transfer.rs"],[("validation when adding and running","neapolitan/src/lib.rs"),("json representation","neapolitan/src/modelling/mod.rs")],["NodalAnalysisStudyBuilder","NodalAnalysisModel"])
p("C20","The command-line programs report success or failure and never harm their input",
 "nxc and neapolitan exit with status 0 and deliver the solution (on standard output, or in a separate file named after the input) exactly when the program or model is solved with the given margin and iteration limit (unknowns that are not determined are left out); otherwise they say what failed and exit with status 1, without crashing and without writing a solution. No combination of options, missing option values or input file names makes them change or overwrite the input file.",
 ["inputs","configurations"],"every combination and order of options and values, input file name and content",
 "no test runs the programs",
 ["nexsys/src/main.rs","neapolitan/src/main.rs"],[("option loop","nexsys/src/main.rs and neapolitan/src/main.rs"),("output path","nexsys/src/main.rs and neapolitan/src/main.rs")],["the nxc and neapolitan executables"])
p("C22","Tags built into the page appear once, with their callbacks, and ids stay unique",
 "An id is known to the application once it is registered, generated or built into the page: registering it again is an error, and a generated id is one that was not known. Building a tag puts exactly one element of its type, with its id, class and content, into the parent's element, after what is there or in place of it, and changes nothing else in the page: elements keep their content, their position and their callbacks. The callbacks set for a tag (the last one set for each event) are those its element responds with. A handle yields the current element with its id, with the tag's callbacks, and throws when there is none. An id is dropped only if it is known and no element has it. This holds for any text as an id or class, in the TypeScript sources and in the compiled scripts alike.",
 ["inputs","histories"],"every sequence of registering, generating, building, looking up, dropping and removing, over any ids, nesting and callbacks",
 "no test touches the user interface; what an element still responds to depends on everything built after it",
 ["ngineer_js/src/tagbuilder.ts","ngineer_js/target/tagbuilder.js"],[("registered ids","ngineer_js/src/tagbuilder.ts"),("building by markup and attaching callbacks","ngineer_js/src/tagbuilder.ts")],["TagBuilder","registerElementId","generateUniqueElementId","dropTagFromApplication"],[("registered ids","ids known to the application","ngineer_js/src/tagbuilder.ts"),("page","elements and their callbacks","the document")])
p("C23","File tabs, side panels and messages of the interface follow what the user does",
 "Clicking a listed file opens one tab for it at the end of the tab bar, unless it is open already; the close button of a tab closes that tab and no other, and a closed file can be opened again. Clicking the Files or the Model tab shows that panel and highlights its tab; the other panel comes back as it was left, with every entry still responding, however often and in whatever order the tabs are clicked. A message replaces the previous one, in the colour of its kind, warnings and errors with their prefix. This holds for any file names, among them the names that the window's own parts have, in the TypeScript sources and in the compiled scripts alike.",
 ["inputs","histories"],"every sequence of listing, opening and closing files, switching panels and printing messages, with any file names",
 "no test touches the user interface; a click works or not depending on what was opened, closed and shown before",
 ["ngineer_js/src/leftRibbonMenu.ts","ngineer_js/src/panelManager.ts","ngineer_js/src/debugRibbon.ts","ngineer_js/src/index.ts","ngineer_js/src/common.ts","index.html"],[("opening and closing tabs","ngineer_js/src/leftRibbonMenu.ts"),("switching panels","ngineer_js/src/panelManager.ts"),("messages","ngineer_js/src/debugRibbon.ts")],["createLeftRibbonMenuFileItem","LEFT_PANEL_MANAGER","DebugRibbon","index.html"],[("window","listed files, open tabs, panel shown and message","the document")])
p("C24","C++ matrix objects are values with the operations of the library",
 "gmatlib.h compiles as C and as C++11 and later. A C++ matrix object is a value: construction, copying, assignment (also to itself), passing and returning by value, keeping it in containers and swapping give every object a matrix of its own with the right shape and elements, and each operation gives what its algebraic definition says and changes at most the object it is called on; the text lists the elements row by row. An operation that does not fit throws a runtime_error that says what failed (naming the rows or columns) and changes nothing; setting an element that does not exist gives false and changes nothing. Whatever is thrown, every matrix of the library is freed exactly once, when its object goes, and none is used after that.",
 ["histories","fault_sequences"],"every sequence of operations on any number of objects, new or assigned to, including failing ones",
 "no test compiles the header",
 ["gmatlib/gmatlib.h"],[("ownership of a library matrix by an object","gmatlib/gmatlib.h"),("shape kept beside the library's matrix","gmatlib/gmatlib.h"),("exceptions for failed operations","gmatlib/gmatlib.h")],["ngineer::Matrix"],[("objects","each with a matrix","gmatlib/gmatlib.h")])
p("C25","C++ contexts, builders and systems own what they hold and report failures",
 "geqslib.h compiles as C and as C++11 and later. Through any sequence of making, using, moving and letting go of context, builder and system objects, each call has the effect, status or solution of the corresponding library operation; several builders can be made from one context, which stays as it was. An equation that cannot be used, a system that is not fully constrained and one that cannot be solved are told by a runtime_error; building uses a builder up and solving uses a system up, and using them again is told by an error as well. Everything the library holds for an object, solution texts included, is freed exactly once and never used after that.",
 ["histories","fault_sequences"],"every sequence of calls and moves on any number of objects, including failing ones",
 "no test compiles the header",
 ["geqslib/geqslib.h"],[("ownership of library objects","geqslib/geqslib.h"),("use of an object that is used up","geqslib/geqslib.h")],["ngineer::ContextHashMap","ngineer::SystemBuilder","ngineer::ConstrainedSystem"],[("live objects","contexts, builders and systems owned by C++ objects","geqslib/geqslib.h")])
p("C26","Nodes and elements used by hand keep the laws of a network after every call",
 "Whatever is done with nodes and elements outside of a study - creating nodes, setting, reading and locking them, making elements of the library's types and of one's own, dropping nodes and elements - the flux of every element is what its formula gives for the present potentials, the gain and the direction it was given; the balance of a node is the sum of the fluxes into it less those out of it, over the elements connected to it; a source drives its output, or its input when the output is locked, and the driven node follows the other one. An element exists as long as someone holds it or a node connected to it exists. A call that cannot be done - a node that was dropped or is borrowed, gains of the wrong number, both nodes of a source locked, a flux of the wrong dimension, sources driving each other in a circle - gives an error and changes nothing; nothing panics or never ends.",
 ["histories","inputs"],"every sequence of calls on any number of nodes and elements, with any gains and own flux formulas, of any dimension",
 "the tests make single elements and whole studies; the order of locking, creating and dropping and what formulas of one's own do is not tested",
 ["neapolitan/src/modelling/element.rs","neapolitan/src/modelling/node.rs","neapolitan/src/flux_formulas.rs","neapolitan/src/dc_circuits.rs","neapolitan/src/heat_transfer.rs","neapolitan/src/lib.rs"],[("creating and connecting an element","neapolitan/src/modelling/element.rs"),("driving a node","neapolitan/src/flux_formulas.rs"),("locking","neapolitan/src/lib.rs")],["GenericNode::new","GenericElement::try_new","GenericElement::get_flux","get_flux_discrepancy","set_node_potential","get_node_potential","lock_node","is_locked"],[("nodes","potential, lock and connected elements","neapolitan/src/modelling/node.rs"),("elements","gain, nodes and what they drive","neapolitan/src/modelling/element.rs")])
p("C27","Programs that mix all features of the language are solved to what these say",
 "A program that uses everything together - equations with constants, values solved elsewhere, functions, powers, if(...), unit conversions and physical constants in any nesting; coupled equations; conditional blocks, nested, as an equation of their own or as one of a coupled group, comparing any such expressions; constants, guesses, domains and comments anywhere, also inside blocks - is solved to exactly one value for each constant and each determined unknown, with which every equation and the selected branch of every block holds, inside the domains. This holds for every order of the lines, every choice of names and every spelling. Unknowns that are not determined are left out. A conversion or constant that does not exist, a text that is no equation, or a domain without the solution, anywhere in such a program, gives an error.",
 ["inputs"],"all programs made of such parts that can be solved one unknown at a time or by coupled groups that are linear in what is solved together",
 "the tests solve a handful of programs with one or two features each; how the preprocessing of one feature reads the text of another is not tested",
 ["nexsys/src/lib.rs","nexsys/src/parsing/mod.rs","nexsys/src/parsing/conditionals.rs","nexsys/src/units/mod.rs","geqslib/src/shunting.rs","geqslib/src/system.rs"],[("preprocessing passes over the text","nexsys/src/parsing/mod.rs"),("conditionals as equations","nexsys/src/parsing/conditionals.rs"),("solving by steps","nexsys/src/lib.rs")],["solve_with_preprocessors"],[("values known so far","constants and solved unknowns","nexsys/src/lib.rs")])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for q in P:
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
