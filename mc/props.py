WHY = "The repository's tests run 26 sample programs with fixed values; no such list covers "
EXH = "exhaustive enumeration of a bounded program space on the real compiler and VM, against a reference interpreter"
NOTE = ("Every program of the stated bounded space is compiled and executed by the april built from /repo, at optimize levels 0 and 2, and all output is compared "
        "with the reference model; nothing is sampled. ")
X = "modules/compile/expression.cpp"
CM = "modules/exec/commands.cpp"
CO = "modules/core/core.cpp"
EE = "modules/core/expression_executor.cpp"
VT = "modules/core/__vtype_traits.h"
ST = "modules/compile/statements.cpp"
PROPS = [
 dict(id="C01", title="Integer arithmetic is exact modular arithmetic of the result type",
  statement="For every pair of integer types and every operand values, +, -, *, /, %, unary + and -, ++, -- and the compound assignments yield the mathematical result reduced to the width and signedness of the result type, with division truncating toward zero and % taking the sign of the dividend. The result does not depend on where the operands live (local, parameter, field, struct field, array element, property, call result, literal), nor on whether it was computed when compiling or when running.",
  over=["inputs", "programs"], quantifier="all operators x 8x8 integer types x operand places x boundary values of each type, literal or computed",
  why=WHY + "the product of operators, types, operand places and boundary values, each of which has a VM instruction of its own.",
  files=[X, CM, EE, VT, "modules/core/xil.cpp"],
  mechanism=[("result types of binary operations", VT), ("arithmetic instructions, one per type pair", CM + " __al_command_t"), ("constant folding", EE), ("selection of instructions", X + " __compile_add ..")],
  technique=EXH, note=NOTE + "Bounds: boundary values of each type (thorough: all powers of two +-1). Division by zero and the most negative value divided by -1 are outside (the process is killed by SIGFPE; see DESIGN.md)."),
 dict(id="C02", title="Bitwise and shift operators act on the bits of the promoted operands",
  statement="For all integer types and values, &, |, ^, ~, << and >> (and their compound assignments) act on the two's complement bits of the operands after promotion; >> is arithmetic on signed and logical on unsigned operands. The result is the same wherever the operands live and at every optimize level.",
  over=["inputs", "programs"], quantifier="all bitwise operators x 8x8 types x operand places x boundary values; all shift counts within the width",
  why=WHY + "the product of operators, types, shift counts and operand places.",
  files=[X, CM, EE, VT], mechanism=[("bit instructions", CM + " __bit_command_t"), ("constant folding", EE), ("selection of instructions", X + " __compile_bit_and ..")],
  technique=EXH, note=NOTE + "Bounds: boundary values, shift counts 0 to width-1."),
 dict(id="C03", title="Comparisons order values by their number; boolean operators short-circuit",
  statement="<, <=, >, >=, == and != on numbers, characters and booleans give the mathematical order of the operands in their common type, and !, && and || give the boolean result, evaluating the second operand only when the first does not decide. The result is the same as a value, as a condition of if, while, for and ?:, negated, and combined, wherever the operands live and at every optimize level.",
  over=["inputs", "programs"], quantifier="all comparison operators x type pairs x places x boundary values x uses; all boolean expressions up to 3 operators over all assignments",
  why=WHY + "all comparisons, each used as a value and as a jump condition, and all boolean formulas.",
  files=[X, CM, EE, VT, ST], mechanism=[("compare instructions", CM + " __cmp_command_t"), ("short-circuit jumps", X + " __compile_logic_and, __compile_logic_or"), ("constant folding", EE)],
  technique=EXH, note=NOTE + "Bounds: boundary values; boolean formulas of at most 3 binary operators."),
 dict(id="C04", title="Floating point arithmetic is IEEE arithmetic of the result type",
  statement="For float and double operands, also mixed with every integer type, +, -, *, /, unary -, ++, --, compound assignments and comparisons give the IEEE single or double result of the operands converted to the result type. The result is the same wherever the operands live, folded or computed, and literals denote the nearest representable value.",
  over=["inputs", "programs"], quantifier="all operators x numeric type pairs with a floating type x operand places x values",
  why=WHY + "the product of operators, type pairs and operand places, each with an instruction of its own.",
  files=[X, CM, EE, VT, "algorithm/numeric.cpp"], mechanism=[("arithmetic instructions", CM + " __al_command_t"), ("result types", VT), ("literals", "algorithm/numeric.cpp")],
  technique=EXH, note=NOTE + "Bounds: ten values per floating type; results are compared by their six printed digits and, where a short literal denotes them exactly, by ==. Negative zero is outside."),
 dict(id="C05", title="Numeric conversions keep or wrap the value, in every context",
  statement="An explicit cast between numeric types wraps integers to the destination's width, truncates floating values toward zero, and rounds integers to the nearest floating value; an implicit widening conversion keeps the value. This holds for every source place and every context that converts: initialisation, assignment to any kind of variable, argument, return value, constructor, property and ?:, at every optimize level.",
  over=["inputs", "programs"], quantifier="10x10 numeric type pairs x source places x 16 converting contexts x boundary values; all pairs of casts in a row",
  why=WHY + "the product of type pairs, source places and converting contexts.",
  files=[X, CM, CO, "modules/compile/xilx.cpp"], mechanism=[("conversion to the required type", X + " __post_compile_expression"), ("convert instructions", CM + " push convert"), ("implicit conversion rules", CO)],
  technique=EXH, note=NOTE + "Bounds: boundary values; floating values outside the destination's range are outside (undefined)."),
 dict(id="C06", title="Expressions evaluate by precedence, left to right, each operand once",
  statement="Every expression built from the operators means what the precedence and associativity of the operators say, with or without parentheses. Operands are evaluated left to right and exactly once, an assignment, ++ or compound assignment stores the right value in exactly the named variable, and its own value is the value stored (or, for postfix, the value before), at every optimize level.",
  over=["programs"], quantifier="all operator trees up to three operators with and without parentheses; all operand evaluation orders; all assignment forms x kinds of variables",
  why=WHY + "all operator combinations, and the order and number of operand evaluations in each.",
  files=[X, "modules/compile/analyze_stack.cpp", "modules/compile/ast.cpp", EE],
  mechanism=[("precedence of operators", "modules/compile/ast.cpp"), ("evaluation order and results of assignments", X)],
  technique=EXH, note=NOTE + "Outside: the order between the assigned value and the subexpressions of the target. Recorded defects: compound assignments evaluate the subexpressions of their target twice."),
 dict(id="C07", title="Statements run exactly the paths their conditions select",
  statement="if, while, do, for, switch, break, continue, return and blocks, nested in any way, execute exactly the statements, in the order, that the sequence of condition values selects; switch goes to the section whose label equals the value, or to default wherever it is written. This holds for conditions known when compiling as well, with or without braces, and at every optimize level.",
  over=["programs", "inputs"], quantifier="all statement trees up to 4 nodes (5 over smaller alphabets) x all sequences of 4 decisions; all switch label partitions x switch types",
  why=WHY + "all nestings of statements with jumps under all sequences of decisions.",
  files=[ST, "modules/compile/xilx.cpp", CM], mechanism=[("compilation of statements to jumps", ST), ("jumps and switch tables", CM + " __jmp_command_template_t, __switch_jmp_command_t"), ("removal of unreached code", ST)],
  technique=EXH, note=NOTE + "Bounds: 4 nodes, thorough 6; 16 decision sequences each. goto and foreach are outside."),
 dict(id="C08", title="Exceptions reach the nearest matching handler; finally always runs once",
  statement="A thrown exception goes to the innermost enclosing catch, in this method or a caller, whose type matches the thrown object; nothing after the throw runs, and every finally block left on the way runs exactly once, innermost first, also when it is left by return, break, continue, rethrow or another exception. Values returned, local variables and the statements after the try are those the language defines, and an exception no handler matches ends the program with a report of it.",
  over=["programs", "histories"], quantifier="all nestings of try/catch/finally with throw, return, break, continue, rethrow up to the bound, in one method and across calls, x all exception types of a hierarchy",
  why=WHY + "all nestings of handlers with all ways of leaving them.",
  files=[ST, CM, "modules/compile/xilx.cpp", "modules/exec/parser.cpp"], mechanism=[("compilation of try statements", ST), ("leaving protected blocks, unwinding", CM), ("table of protected blocks", "modules/exec/parser.cpp")],
  technique=EXH, note=NOTE + "Bounds: statement trees of the sizes in the evidence file; catch .. when is outside (unsupported)."),
 dict(id="C09", title="Calls pass every argument, return every value and keep the caller's state",
  statement="A call of a static method, instance method, constructor or property evaluates its arguments and passes each, whatever its type and position, to the parameter it is written for; ref and out parameters are the caller's variable itself; the returned value arrives unchanged. Local variables and pending operands of every active call are its own, at every depth of direct and mutual recursion, and the overload called is the one whose parameters match.",
  over=["programs", "inputs"], quantifier="all parameter lists up to length 3 over 22 kinds of values (thorough: longer), x call forms, return kinds, ref/out, recursion shapes, overload sets",
  why=WHY + "all parameter lists, whose stack layout differs for every sequence of types.",
  files=[X, CM, "modules/rt/layout.cpp", "modules/exec/parser.cpp"], mechanism=[("arguments and calls", X), ("call, ret and parameter instructions", CM), ("layout of parameters and locals", "modules/rt/layout.cpp")],
  technique=EXH, note=NOTE + "Bounds in the evidence file."),
 dict(id="C10", title="Every variable, field and element keeps its own value",
  statement="Whatever the kinds, number and order of the fields of a class or struct (own and inherited), the elements of an array or the locals of nested and sibling blocks, a fresh field or element has its default value, and a write to one of them changes exactly that one: all others keep the values last written to them, at every optimize level.",
  over=["programs", "histories"], quantifier="all field lists up to 3 of 17 kinds of values, splits over base and derived classes, placements of structs, array shapes, and block nestings of up to 4 locals, each variable written in turn",
  why=WHY + "all layouts: offsets and sizes differ for every sequence of types.",
  files=["modules/rt/layout.cpp", "modules/exec/parser.cpp", CM, "modules/compile/xilx.cpp"],
  mechanism=[("layout of types", "modules/rt/layout.cpp"), ("layout of locals", "modules/exec/parser.cpp"), ("field, element and local instructions", CM)],
  technique=EXH, note=NOTE + "Bounds in the evidence file."),
 dict(id="C11", title="Structs are copied, objects are shared",
  statement="Assigning, passing, returning, storing or boxing a struct copies its whole value, so later writes to either copy do not show in the other; assigning a class reference, an array or a box shares the object, so writes by one reference show by every other. This holds for every history of copies and writes over locals, fields, elements, nested structs, parameters, returned values and boxes.",
  over=["histories", "programs"], quantifier="all histories of up to 2 operations of the full alphabet and up to 4 (thorough 5) of smaller ones",
  why=WHY + "aliasing, which shows only in histories of copies and writes.",
  files=[X, CM, "modules/rt/layout.cpp"], mechanism=[("copying of structs", X + " __need_object_copy"), ("object copy instructions", CM)],
  technique=EXH, note=NOTE + "The state of all variables after each history is compared with a heap model."),
 dict(id="C12", title="Calls run the method the receiver's type selects",
  statement="A virtual or interface call runs the most derived override that the dynamic type of the receiver has for the method named, a non-virtual call (or a call of a method hidden by new) the one the static type declares, and overloads are chosen by the argument types. This holds for all hierarchies, interface lists, declaration orders, argument and return types, receivers and properties.",
  over=["programs"], quantifier="all chains of up to 4 classes x declaration of up to 3 methods at each level (none, plain, virtual, override, new, new virtual, abstract, sealed), x interface lists, each call by every static type on every dynamic type",
  why=WHY + "all hierarchies and all pairs of static and dynamic types.",
  files=["modules/rt/rt.cpp", "modules/exec/parser.cpp", CM, X, CO], mechanism=[("virtual tables and interface tables", "modules/exec/parser.cpp"), ("virtual and interface call instructions", CM), ("choice of the method", CO)],
  technique=EXH, note=NOTE + "Outside: base.F(), explicit interface implementations, generics, overloads declared at several levels."),
 dict(id="C13", title="Type tests, casts and boxing follow the dynamic type",
  statement="x is T is true exactly when the object x refers to is a T; x as T gives the same object or null; a cast gives the same object or raises InvalidCastException, and null casts to null. Boxing a value of any type by any conversion to object makes a copy that tests as exactly that type and unboxes to that value; unboxing to another type raises InvalidCastException, and unboxing null NullReferenceException.",
  over=["programs", "inputs", "histories"], quantifier="all dynamic types (null, primitives, arrays, classes, structs) x all target types x static types of the reference; all kinds x sources x boxing contexts; all histories of up to 4 operations on boxes",
  why=WHY + "all pairs of types, sources and contexts.",
  files=[X, CM, "modules/exec/utils.cpp", "modules/rt/layout.cpp"], mechanism=[("subtype test", "modules/exec/utils.cpp"), ("cast, box and unbox instructions", CM), ("boxing when compiling", X)],
  technique=EXH, note=NOTE + "Recorded defect: unboxing to another custom struct is not checked (an existing test relies on it). Enums are outside (they cannot be boxed)."),
 dict(id="C14", title="An array access is the named element or OutOfRangeException",
  statement="An array of any element kind, rank and lengths reports its rank, its total length and the length of each dimension, has all its elements default or as its initialiser says, and an access with indexes inside every dimension is exactly that element, distinct from all others; any access with an index outside its dimension, negative length or missing dimension raises OutOfRangeException and changes nothing. This holds for every index type, element kind, holder of the array (local, field, parameter, result, element of a struct) and optimize level.",
  over=["programs", "inputs"], quantifier="all shapes with lengths 0..3 (ranks 1-3, selected to 10) x element kinds x all indexes from -1 to the length in every dimension, read and written; all initialiser lists up to the bound; index types x index forms; holders",
  why=WHY + "all shapes and all indexes around their borders.",
  files=[CM, "modules/mm/mm.cpp", "include/modules/mm.h", X, "modules/rtlib/array.cpp", "core_lib/System/System.cs"], mechanism=[("bounds and element addresses", CM + " array element instructions"), ("creation", "modules/mm/mm.cpp"), ("lengths", "modules/rtlib/array.cpp")],
  technique=EXH, note=NOTE + "Outside: long indexes beyond the int range, initialisers of arrays of structs, arrays of arrays (unsupported)."),
 dict(id="C15", title="Every fault raises its exception and the program goes on from the handler",
  statement="Every use of a null reference, of an index out of range and every wrong cast raises NullReferenceException, OutOfRangeException or InvalidCastException, in whatever expression or statement it occurs; nothing that comes after it in the evaluation happens, everything before it has happened, and after the handler all variables and the pending work of all callers are intact. Without a handler the program reports the exception and runs nothing more. No fault crashes the machine.",
  over=["programs", "histories"], quantifier="all faulting expressions x all contexts of use, all faulting statements, x place of the handler (same method, caller, instance, virtual, in finally, in a loop), pairs of faults",
  why=WHY + "the product of faulting instructions and contexts with operands pending.",
  files=[CM, X, "include/modules/exec.h", "modules/exec/utils.cpp"], mechanism=[("null and bounds tests", CM), ("raising from instructions", "include/modules/exec.h"), ("unwinding", CM)],
  technique=EXH, note=NOTE + "Outside: integer division by zero (the process is killed by SIGFPE)."),
 dict(id="C16", title="Calling a delegate is calling its method on its object",
  statement="A delegate made from a static, instance, virtual or interface method, whichever way it is made, passed, copied, stored or returned, calls that method on the object it was made with: arguments, result, dispatch to the override, exceptions and the caller's pending work are those of the direct call. Copies are values: assigning one variable does not change the others. A delegate without a method, or of an instance method on null, raises NullReferenceException.",
  over=["programs", "histories"], quantifier="all targets x ways of making x chains of up to 2 (thorough 3) holders; all histories of 2 (3) assignments over 4 variables; call contexts; parameter lists up to 2 and all return kinds; faults",
  why=WHY + "the product of targets, holders, signatures and contexts of call.",
  files=[CM, X, "include/modules/exec.h", CO, "core_lib/System/System.cs"], mechanism=[("delegate_init and delegate_invoke instructions", CM), ("making and calling delegates", X + " __compile_method_variable, __compile_delegate")],
  technique=EXH, note=NOTE + "Outside: delegates of struct instances, calls of an element or result directly (a[0](3), Get()(3)), h.d(3) from outside the class, lambdas, multicast delegates (unsupported)."),
 dict(id="C17", title="The optimize level does not change what a program does",
  statement="At every optimize level (0 to 3) a program prints the same. Variables that are folded as constants, expressions computed at compile time, operations with neutral operands that are dropped, short-circuits and conditions that are decided at compile time, and code that is removed as unreached never change a value, its type, the calls made or their order, nor where exceptions and jumps go.",
  over=["programs", "configurations"], quantifier="constant variables x ways of writing x contexts x reads; operations with neutral constants, alone and nested; constant expressions of 2 operators over the numeric types; boolean formulas up to 2 (thorough 3) operators with constants; blocks nested to 2 with constant conditions and jumps; all at levels 0 to 3",
  why=WHY + "the optimize levels above 0 on more than the handful of samples.",
  files=[X, EE, ST, "modules/compile/xilx.cpp", "modules/april/compiler.cpp"], mechanism=[("constant variables", "modules/compile/xilx.cpp local_assign_xilx_t"), ("neutral operands", X + " __compile_add .."), ("constant folding", EE), ("removal of unreached code", ST)],
  technique=EXH.replace("VM,", "VM at all four optimize levels,"), note=NOTE.replace("levels 0 and 2", "levels 0, 1, 2 and 3") + "Outside: expression statements that are not calls, assignments, increments or new (F() + 1;), which C# does not have either."),
 dict(id="C18", title="Splitting a program over files and assemblies does not change what it does",
  statement="A program does the same whether its types lie in one file or several, in any order, in one assembly or spread over several that import each other, given in any order on the command line, compiled and run from source or run from the compiled .apl files, at any optimize level. Across assemblies both sides agree on field layouts, virtual and interface dispatch, overload choice, parameter passing, casts, exceptions, properties, arrays and delegates.",
  over=["programs", "configurations"], quantifier="all monotone placements of class chains, interfaces, exceptions and casts over 3 assemblies; field sequences up to 2 (thorough 3) kinds; signatures up to 2 parameters with all modes; overload pairs; all partitions of 6 types into files and assemblies with orders of the command line; source and .apl",
  why=WHY + "the placements of types in assemblies, each of which takes other metadata references and resolves them by name at run time.",
  files=["modules/core/assembly_writer.cpp", "modules/core/assembly_reader.cpp", "modules/core/assembly_layout.cpp", "modules/rt/rt.cpp", "modules/rt/assembly_loader.cpp", CM, "modules/april/compiler.cpp"],
  mechanism=[("references to the members of other assemblies", "modules/core/assembly_writer.cpp __commit_*_ref"), ("reading assemblies", "modules/core/assembly_reader.cpp"), ("resolution of references at run time", "modules/rt/rt.cpp assembly_analyzer_t"), ("the april command line", "modules/april/compiler.cpp")],
  technique=EXH, note=NOTE.replace("at optimize levels 0 and 2", "from source at level 0 and from compiled assemblies at level 2 (thorough: five combinations)") + "At most 3 assemblies of one package. Outside: generic types of other assemblies other than the library's own, attributes, nested types."),
 dict(id="C20", title="Programs that break a rule are rejected; well-formed programs are accepted",
  statement="A program that uses an undefined name, type or member, meets a type with a value that does not convert to it (initialisation, assignment to anything, argument, return), applies an operator to operands it does not have, calls a method with arguments no overload takes, passes ref or out wrongly, declares a thing twice, overrides nothing, misses a result on a path, or is not in the grammar, is rejected: an error is printed, nothing is executed or written, and the exit code is not zero, wherever the mistake stands, in whichever file, at every optimize level. The same program without the mistake is accepted and runs.",
  over=["programs"], quantifier="22x22 types x up to 11 converting contexts; 18 binary, 8 unary and the compound operators x 14x14 types; parameter lists x argument lists up to 2 (thorough 3); modes x types; undefined names in 60 positions and types in 28; 15 mistakes x 23 places; every punctuation token of a program removed",
  why=WHY + "no ill-formed program at all.",
  files=["modules/core/ast_utils.cpp", CO, X, "modules/compile/ast.cpp", "modules/lang_cs/ast_builder.cpp", "modules/april/compiler.cpp", "include/april/april.h"],
  mechanism=[("conversion rules", CO), ("operators of types", VT), ("choice of a method", CO), ("checks of assignments and declarations", "modules/core/ast_utils.cpp"), ("stopping after errors", "modules/april/compiler.cpp")],
  technique="exhaustive enumeration of programs with and without one broken rule, on the real compiler, against the verdict of a model of the rules", note="Every program of the stated space is given to april, at optimize level 0 or 2, and must be rejected (with an error, exit code 1, nothing written or executed) or accepted and executed as the model of the rules says; every broken program has a well-formed counterpart. Outside: rules april does not check at all (listed in DESIGN.md), the wording and position of messages."),
 dict(id="C21", title="A name means the declaration in scope, and access modifiers are enforced",
  statement="A simple name means the innermost declaration of it: local of the block, parameter or local of the method, member of the class, then of its base classes; a type name means the type of the innermost enclosing namespace that has one, then of the namespaces in using directives, and a qualified type name exactly the named one. this.x, base.x and o.x mean the member of the class, of the base class and of the static type of o, and base.F() calls the base class's implementation. A member declared public, protected, internal or private (the default) can be used exactly where that allows, within and across assemblies; any other use is rejected.",
  over=["programs"], quantifier="all sets of places declaring a name x all forms of use x all writes; all hidings in chains of 4 (thorough 5) classes; all sets of namespaces declaring a type x all namespaces using it x usings; every spelling of the access modifiers (also protected internal and private protected, in both orders) x 8 kinds of members x 7 relations of the user, in one and over two assemblies",
  why=WHY + "the sets of declarations of one name, or any access which is forbidden.",
  files=["modules/compile/ast_utils.cpp", "modules/compile/ast.cpp", CO, X], mechanism=[("lookup of names in expressions", "modules/compile/ast_utils.cpp __walk_expression_t"), ("lookup of types in namespaces", "modules/compile/ast.cpp"), ("lookup and access of members", CO), ("this and base", X)],
  technique=EXH, note=NOTE + "Uses which the rules forbid must be rejected as in C20. Outside: qualified type names in expressions (A.Q.F()), using aliases, partial classes (unsupported), ambiguous usings, private constructors and setters (not enforced)."),
 dict(id="C19", title="Literals, identifiers, comments and white space are read as the language defines",
  statement="An integer literal in any radix (decimal, 0x, 0, 0b) with any suffix, a floating literal with any exponent and suffix, a character or string literal with any characters and escapes denotes exactly its value, and has the type its suffix and size select. Comments and white space between any two tokens mean nothing, tokens that need no separation may stand together, each is read the longest way, and a sign after an operand is an operator. Any word that is not a keyword is an identifier, however close to one it is.",
  over=["inputs", "programs"], quantifier="all powers of 2 and 10 and their neighbours x 5 radixes x suffixes; mantissas x exponent forms x suffixes; all printable characters and escapes; all strings up to 2 (thorough 3) of 20 special characters; 18 separators at every gap of 5 programs with all tokens; 9 variants of every keyword as local, field and method; 18 x 19 operands x 14 operators written together",
  why=WHY + "the literals and the ways to separate tokens.",
  files=["algorithm/numeric.cpp", "modules/compile/token_reader.cpp", "modules/lang_cs/cs_token_reader.cpp", "modules/lang_cs/cs_token_type.cpp"], mechanism=[("numbers", "algorithm/numeric.cpp"), ("strings, comments, names", "modules/compile/token_reader.cpp"), ("tokens", "modules/lang_cs/cs_token_reader.cpp")],
  technique=EXH, note=NOTE + "Hexadecimal literals are unsigned and decimal ones int, long or ulong, as april defines. Outside: \\x and \\u escapes, @ identifiers, suffixes d and m, 1e3 (exponent without point or sign), non-ASCII characters, form feeds as white space, a cast of a unary expression without brackets ((int)-x)."),
 dict(id="C22", title="The result depends on the program alone, not on memory",
  statement="Compiling and running a program gives the same verdict, the same messages and the same output every time: nothing depends on the addresses at which the compiler or the machine happens to place its data, on whether freed memory is used again, or on what memory held before; and as long as blocks lie in the same order, the assembly that is written is the same byte for byte (no uninitialised bits are written).",
  over=["programs", "schedules"], quantifier="24 (thorough 48) heap layouts (growing, shrinking or alternating addresses x immediate or no reuse x distance x 4 fills) x some 1100 (thorough 12000) programs drawn from the spaces of all other checks, accepted and rejected ones",
  why=WHY + "one memory layout per run, and never twice the same one.",
  files=["modules/compile/analyze_tree.cpp", "modules/core/__xil.h", "modules/core/assembly_writer.cpp", "modules/compile/ast.cpp", "algorithm", CM, "include/modules/exec.h"], mechanism=[("ambiguous parses ordered by address", "modules/compile/analyze_tree.cpp __leaf_less"), ("commands written as they lie in memory", "modules/core/__xil.h operator <<"), ("tables written in map order", "modules/core/assembly_writer.cpp")],
  technique="exhaustive product of programs and heap layouts under a controlled allocator (LD_PRELOAD) that decides where every block lies and what fresh and freed memory holds, on the real compiler and VM; outputs against the reference models, messages and assemblies against each other", note="The allocator is the scheduler here: its policies are enumerated completely, for programs which are a fixed selection (evenly spaced) of the spaces of the other checks. The order of the tables of an assembly does depend on addresses; only what runs from it does not. Outside: the order of blocks beyond the 3 directions, threads (april has none)."),
 dict(id="C23", title="Constants, enums, properties and constructors mean what they declare",
  statement="An enum member has the value its declaration gives it (its initialiser, or one more than the member before, whatever order members and enums refer to each other in) in the underlying type; a cast between the enum and any numeric type converts the value, everywhere a value can be held. A constant has the value of its expression, in whatever order and classes constants refer to each other, wherever it is used. Reading a property runs its getter once and writing it its setter once with the value, through the class, a base class, an interface or an override. new runs exactly the constructor its arguments select, after the arguments, on an object whose other fields have their default values.",
  over=["programs"], quantifier="all initialiser sequences of up to 3 enum members (none, number, negative, any member, member of another enum) x underlying types; all underlying x numeric types at the bounds x 8 places; all acyclic graphs of up to 3 constants; every kind of constant x place; every kind of property value x 8 forms; 36 uses of properties with effects x 4 contexts; all sets of up to 2 (thorough 3) constructors of 11 signatures; all pairs of kinds of fields set by constructors",
  why=WHY + "the ways declarations refer to each other and the underlying types.",
  files=["modules/compile/ast.cpp", CO, EE, X, CM, "include/modules/core.h"], mechanism=[("values of enum members and constants", "modules/compile/ast.cpp __fields_init_stub_t"), ("enums as value types", "include/modules/core.h is_value_type"), ("calls of getters and setters", X + " __compile_property_variable"), ("new", X + " __sys_t<new_expression_t>")],
  technique=EXH, note=NOTE + "Outside: shifts in constant expressions, arithmetic on enums other than ==, != and the bit operators, default(S) of a struct, compound assignment to and assignment as a value of a property, indexers, field initialisers and calls of other constructors (unsupported or recorded as defects in DESIGN.md), struct constructors that leave fields unset."),
 dict(id="C24", title="No statement leaves anything behind: loops run without using up the stack",
  statement="Every statement leaves the evaluation stack as it found it, whichever way it is left (normally, by continue or break, or by an exception raised anywhere inside it and caught around it), so a loop may run any number of times: it never exhausts or corrupts the stack, and the variables of the method, its parameters and its caller keep their values. Exceptions, calls, boxing and object creation repeated more than a million times do not run out of anything.",
  over=["programs", "histories"], quantifier="250 statements of all kinds x loops of 2^20+1000 iterations (the stack has 2^20 units) at two optimize levels; thorough: x 11 loops and nestings (for, while, do, nested, inside and around try, catch and finally, switch, else, a method)",
  why=WHY + "loops long enough to notice one unit too many per iteration.",
  files=[X, ST, CM, "include/modules/exec.h"], mechanism=[("values picked or popped", X + " is_effective"), ("results that are not used", X + " __try_pop_empty_for_method"), ("unwinding restores the stack", CM + " __process_exception"), ("the stack", "include/modules/exec.h")],
  technique="exhaustive enumeration of statement kinds x loop nestings, each repeated on the real compiler and VM more often than the stack has units, so that any imbalance becomes a fault", note="One unit per iteration in either direction overruns the stack within the loop; sentinel variables around it are checked afterwards. An imbalance that cancels out within one statement would not be seen. Outside: a return inside try with finally (40 us each, too slow to repeat a million times)."),
 dict(id="C25", title="The core library computes what its names say",
  statement="Math.Max, Min, Abs and Sign of every numeric type give the mathematical result in that type, and Sqrt, Pow, the (hyperbolic, inverse) trigonometric functions, Log and Log10 the correctly computed value, wherever arguments and results are held and however calls are nested. Console.Write and WriteLine of every type print exactly that value, in program order, with a line end only after WriteLine. Rank, Length and GetLength of an array describe the shape it was created with and refuse other dimensions with OutOfRangeException. An exception keeps the message and inner exception it was constructed with however often it is thrown, caught, wrapped and thrown on. GetType gives one type object per class, whatever the object is seen as; a DateTime keeps its ticks.",
  over=["programs"], quantifier="all overloads x all pairs of boundary values x 5 places; 15 functions x 20 arguments and all pairs of functions; all pairs (thorough: triples) of console writes of 15 kinds x both forms; every printable character; all array shapes up to rank 3 with sizes 0..5 x element types x 4 places x dimensions -2..rank+1; all chains of up to 4 (5) exceptions x 5 ways to throw; all sequences of up to 3 (4) catch actions; all pairs of classes x static types",
  why=WHY + "overloads, boundary values, places and the order of calls.",
  files=["core_lib/System/Math.cs", "core_lib/System/Console.cs", "core_lib/System/System.cs", "core_lib/System/DateTime.cs", "modules/rtlib/math.cpp", "modules/rtlib/system.cpp", "modules/rtlib/array.cpp", "modules/rtlib/reflection.cpp"], mechanism=[("choice of overload", "modules/compile/ast_utils.cpp find_method"), ("internal calls", "modules/rtlib/rtlib.cpp get_libfunc"), ("console output", "modules/rtlib/system.cpp"), ("array shapes", "modules/rtlib/array.cpp"), ("library sources", "core_lib/System")],
  technique=EXH, note=NOTE + "Floating results are compared as printed (6 significant digits). Outside: results that are not numbers, Tuple, reflection other than GetType, and Type.Name (returns a fixed text)."),
 dict(id="C26", title="Creating an object runs the constructors of its whole chain of classes",
  statement="new runs, for every class from the root to the class of the object, exactly one constructor: the one the arguments of new or of the base call select, or the default one where none is written. Arguments of a base call are evaluated once, in order, before the base constructor; fields have their initial values before the body of a constructor of their class runs; the object has its final class from the start. An exception in any of them abandons the rest and leaves the target as it was. A class without a constructor gets a default one; constructors are not inherited: a new or base call for which the class itself has no matching constructor is rejected. This also holds when base and derived class are in different assemblies.",
  over=["programs"], quantifier="all chains of up to 3 classes x sets of constructors of arity 0..2 x base calls x 3 forms of arguments x initial values x 7 uses; all pairs of 22 kinds of base arguments, ref and out; all pairs of initial values x 3 placements x 3 constructors; every failure point x 5 contexts; all override and call patterns; classes derived from library exceptions; all pairs of constructor sets x arities called, accepted or rejected; chains over 2 and 3 assemblies",
  why=WHY + "chains of classes, constructor sets and failure points.",
  files=["modules/compile/ast.cpp", "modules/compile/ast_utils.cpp", X, "include/modules/core.h", "core_lib/System/System.cs"], mechanism=[("base call and initial values at the start of a constructor", "modules/compile/ast.cpp revise_constructor"), ("default constructors", "modules/compile/ast.cpp __append_default_constructor"), ("choice of constructor", "modules/compile/ast_utils.cpp find_constructor"), ("new", X + " __sys_t<new_expression_t>")],
  technique=EXH, note=NOTE + "Outside: calls of other constructors of the same class (no syntax), initial values that are not constant (rejected) and those of structs, static constructors."),
 dict(id="C27", title="Programs mean the same at every size",
  statement="The meaning of a program does not depend on how many of something it has: any number of locals, parameters, fields, methods, types, enum members, constants, literals, switch labels, catch clauses, operands, files; any depth of blocks, loops, tries, calls, inheritance, namespaces; any length of names, strings, comments, arrays; any distance of a jump; and any position of a variable among its neighbours. Every element takes part, with its own value, at every optimize level.",
  over=["programs", "sizes"], quantifier="60 dimensions of size, among them all storages x 12 types x 6 operations at a position, x the sizes 1..17 and every power of two with its neighbours up to the top of the dimension (100 to 65537) x 2 optimize levels",
  why=WHY + "every size: encodings, tables and buffers change at boundaries (15 positions in an instruction, 255 jumps) that small test programs do not reach.",
  files=["modules/core/__xil.h", "modules/compile/xilx.cpp", X, "modules/rt/layout.cpp", "modules/core/assembly_writer.cpp"], mechanism=[("position and jump encodings", "modules/core/__xil.h"), ("tables of an assembly", "modules/core/assembly_writer.cpp"), ("layouts and caches of commands", "modules/rt/layout.cpp and modules/exec/commands.cpp"), ("depth of expressions and blocks", "modules/compile")],
  technique=EXH, note=NOTE + "Outside: more than 511 members of one type or parameters of one method, which the assembly format cannot hold (refused with an internal error), and recursion beyond the fixed stack of the VM."),
 dict(id="C28", title="Projects, solutions and file patterns build and run exactly what they name",
  statement="A command line of sources, folders and patterns, a project file or a solution file (projects by path or written in it) compiles exactly the files it names, each once, and no others lying beside them; every project becomes one assembly of its name in the output folder, whatever the order in which projects and files are given and however often a file is matched, and other projects import it by that name. run executes the one assembly with an entry point, or the one chosen by -e; absent files, empty projects, malformed files, mixed kinds, an unknown or not executable choice and an undecided one are refused with a non-zero exit code, and nothing runs.",
  over=["command lines", "project files"], quantifier="all placements of 4 types in up to 3 projects x 12 layouts of files, patterns and decoys x 5 forms (solution, inline, projects, pattern of projects, one by one) x all orders x from source or from assemblies x optimize levels; all sets of executables x all choices; 16 ways to name sources x orders; 33 well-formed and broken configurations",
  why=WHY + "combinations of layouts, patterns and orders; only two project files are in the repository and neither is in the tests.",
  files=["modules/april/compiler.cpp", "modules/april/parser.cpp", "modules/april/util.h", "lib/file.cpp", "include/lib.h"], mechanism=[("files of a project", "modules/april/compiler.cpp april_compiler_t::add_file"), ("project and solution files", "modules/april/parser.cpp"), ("patterns", "lib/file.cpp split_path_filter, include/lib.h __wildcard_to_regex"), ("choice of the assembly to run", "modules/april/compiler.cpp __pick_default_execute_assembly, __get_assembly")],
  technique="exhaustive enumeration of placements, layouts, forms and orders of command lines, projects and solutions, each built and run by the real april, against a model of which files and assemblies a name means", note="Every configuration is written to a scratch folder and built and run by the april built from /repo; output and the set of assemblies written are compared. Projects that import each other in a cycle are outside."),
]
NOT_APPLICABLE = []
