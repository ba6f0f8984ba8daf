"""One entry per property: what it says (-> properties.jsonl) and which harnesses decide it (-> MANIFEST.json)."""
H = lambda name, bounds="", covers=(), time=(60, 1200), **k: dict(name=name, bounds=bounds, covers=list(covers), time=time, **k)
CHECKS = {}
def P(pid, title, statement, over, text, why, files, mech, src, mods, harnesses, assumptions=(), observe=(), note="", state=(), flags=()):
    CHECKS[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, src=src, mods=mods,
                       harnesses=harnesses, assumptions=list(assumptions), observe=list(observe), note=note, state=list(state), flags=list(flags))
OPS = "include/mqt-core/ir/operations/"
SOP = "src/ir/operations/"
A_REAL = "floating-point angles are treated as reals (exact trigonometry, comparisons with the tolerances of the code); rounding is outside the model"
A_SEM = "the reference semantics (harness/ref.h, harness/sem.h: textbook gate matrices, dense state vectors, classical branches) is the oracle"
A_STD = "libstdc++ and libc are compiled in from their headers or called concretely"

P("I01", "Gate canonicalisation keeps the gate",
  "However a gate of the phase, two-parameter or three-parameter family is constructed, the operation that the library stores (it may pick a named gate such as Hadamard or T for special angles) denotes the unitary that was asked for, and it has as many parameters as its type requires. This holds for all angles, not only the special ones.",
  ["inputs"], "all angles in [-8,8] (reals)", "tests construct gates for a dozen special angles; the canonicalisation branches on conditions over all reals",
  [SOP+"StandardOperation.cpp", OPS+"StandardOperation.hpp"],
  [dict(name="parseU3/parseU2/parseU1/checkUgate/setup", where=SOP+"StandardOperation.cpp")],
  ["h_gates.cpp"], ["ir", "src/dd/GateMatrixDefinitions.cpp"],
  [H("canonP", "P(l), l in [-8,8] symbolic real", ["z", "s", "sdg", "t", "tdg", "i", "p"]), H("canonU2", "U2(p,l), both symbolic in [-8,8]", ["h", "ry", "v", "vdg", "u2"]), H("canonU", "U(t,p,l), all symbolic in [-8,8]", ["x", "y", "u", "p", "u2"])],
  [A_REAL, "non-zero angles below 1e-4 are left out except those below 1e-13"])
P("I02", "Inverting a gate or a circuit yields its inverse",
  "Inverting any unitary operation or any unitary circuit gives an operation or circuit whose composition with the original is the identity, including the global phase, controls of both signs, compound operations and classically controlled gates. Inverting twice gives back the original function, and names stay consistent with types.",
  ["inputs", "programs"], "all standard gates, all angles in the stated ranges, all qubit positions and control signs on up to 3 qubits",
  "tests invert a few fixed circuits and check the result against hand-written ones; angles, gates and control patterns are sampled",
  [SOP+"StandardOperation.cpp", SOP+"CompoundOperation.cpp", OPS+"ClassicControlledOperation.hpp", "include/mqt-core/ir/QuantumComputation.hpp", "src/ir/QuantumComputation.cpp"],
  [dict(name="StandardOperation::invert", where=SOP+"StandardOperation.cpp"), dict(name="CompoundOperation::invert", where=SOP+"CompoundOperation.cpp"), dict(name="QuantumComputation::invert", where="src/ir/QuantumComputation.cpp")],
  ["h_gates.cpp", "h_ir.cpp"], ["ir", "src/dd/GateMatrixDefinitions.cpp"],
  [H("inv1", "every one-qubit gate, all parameters symbolic in [-8,8]", ["inv1"]), H("inv2", "every two-qubit gate and target order, parameters symbolic in [-8,8]", ["inv2"]),
   H("invCircSym", "circuits of 3 gates on 2 qubits, first and last gate and their positions/controls free, angles symbolic in [0.1,1.5]", ["inv"]),
   H("invCirc", "every gate in every position with up to 2 controls of both signs on 3 qubits, angles from a list of 6 special values, also inside a compound operation", ["inv"]),
   H("invCC", "classically controlled gate of every type, bit or 2-bit register condition with all comparison kinds, all register values", ["inv"])],
  [A_REAL, A_SEM])
P("I03", "Equality, hashing, inverse and commutation queries are sound",
  "Operations that compare equal act identically and have equal hashes, and equality is symmetric. When two operations are reported to be inverses of each other their product is the identity, and when they are reported to commute on all their qubits, exchanging them does not change the result.",
  ["inputs", "programs"], "pairs of operations of every kind, positions and controls on up to 3 qubits",
  "tests compare a few hand-picked pairs; soundness is a statement about all pairs",
  [OPS+"Operation.hpp", SOP+"Operation.cpp", SOP+"StandardOperation.cpp", OPS+"CommutationRules.hpp", SOP+"CompoundOperation.cpp", OPS+"ClassicControlledOperation.hpp", SOP+"NonUnitaryOperation.cpp"],
  [dict(name="Operation::equals / isInverseOf / hash", where=SOP+"Operation.cpp"), dict(name="commutesAtQubit rules", where=SOP+"StandardOperation.cpp")],
  ["h_ir.cpp"], ["ir"],
  [H("eqOps", "pairs of standard operations: same type with any positions and up to 2 controls of both signs on 3 qubits; any two types on 2 qubits", ["equal", "inverse"]), H("eqKinds", "pairs of operations of all kinds (measure, reset, barrier, classically controlled, compound) on 2 qubits and 2 bits", ["equal"], time=(100, 1200)),
   H("compInv", "pairs of compound operations of 2 gates on 2 qubits", ["inverse", "commutes"], time=(80, 1200)), H("commute", "pairs of standard operations with up to 1 control on 3 qubits", ["commutes"], time=(80, 1200))],
  [A_SEM])
P("I04", "Copies, added controls and relabelling keep the meaning",
  "Cloned operations and copied circuits equal and act like the original. Adding a control to an operation gives the controlled operation and removing it again restores the original; relabelling the qubits of an operation gives the same action on the relabelled qubits.",
  ["inputs", "programs"], "operations of every kind on up to 3 qubits; all permutations of 3 qubits",
  "tests clone and permute a few fixed operations and compare fields",
  [OPS+"Operation.hpp", SOP+"StandardOperation.cpp", SOP+"CompoundOperation.cpp", OPS+"ClassicControlledOperation.hpp", "src/ir/Permutation.cpp"],
  [dict(name="clone / copy constructors", where=OPS), dict(name="addControl/removeControl/clearControls", where=SOP+"CompoundOperation.cpp"), dict(name="Operation::apply(Permutation)", where=SOP+"Operation.cpp")],
  ["h_ir.cpp"], ["ir"],
  [H("cloneOp", "operations of all kinds on 2 qubits, 2 bits; clone, copied circuit, assigned circuit", ["clone"]), H("compCtrl", "compound operations of 2 gates on 2 qubits plus a control of both signs", ["ctrl"]), H("permOp", "every gate with up to 2 controls of both signs on 3 qubits under all 6 permutations", ["perm"])],
  [A_SEM])
P("I05", "Exported OpenQASM reads back as the same circuit",
  "Exporting a circuit to OpenQASM 2 or 3 and reading the text back gives a circuit with the same registers, the same action on every input and classical state (up to global phase), the same barriers, initial layout and output permutation.",
  ["programs", "inputs"], "every gate with up to 3 controls of both signs over two registers, conditions on bits and registers with every comparison, every list of measured qubits and bits, all layouts of 3 qubits, sequences of 3 (4) operations",
  "tests export a few circuits and compare strings",
  ["src/ir/QuantumComputation.cpp", SOP+"StandardOperation.cpp", SOP+"NonUnitaryOperation.cpp", SOP+"ClassicControlledOperation.cpp", SOP+"CompoundOperation.cpp", "src/qasm3/Importer.cpp"],
  [dict(name="dumpOpenQASM", where="src/ir/QuantumComputation.cpp"), dict(name="dumpGateType", where=SOP+"StandardOperation.cpp"), dict(name="Importer::imports", where="src/qasm3/Importer.cpp")],
  ["h_export.cpp"], ["ir", "qasm3"],
  [H("rtGate", "every gate, all positions on 3 qubits with up to 1 control, 2-3 controls on 4 qubits, 7 angles, plain or in a compound operation", ["gate"]), H("rtCC", "10 gate types, with a control or in a compound body, all conditions", ["cc"]), H("rtMeas", "measure/reset/barrier of any list of 1-3 qubits (and any bits) over three register splits", ["meas"]),
   H("rtLayout", "all layouts and all output permutations whose logical qubits are 0..k-1", ["layout"]), H("rtSeq", "3 (4) operations of 11 kinds", ["seq"])],
  [A_SEM], note="the global phase, nested conditions, conditional measurements, partial outputs that skip logical qubits and symbolic parameters are not covered; angles are compared to the 15 digits that are written")
P("I06", "Registers, layouts, ancillae and garbage stay consistent",
  "After any sequence of adding registers, marking qubits as ancillary or garbage, removing and re-adding qubits, stripping idle qubits, copying or resetting, every qubit of a circuit lies in exactly one register, the layout maps qubits one-to-one, the counts of qubits and ancillae match the flags, and garbage qubits are no outputs. A qubit in use is never removed and surviving qubits keep their roles; a reset circuit behaves like a new one.",
  ["histories", "inputs"], "sequences of up to 3 (thorough 4) operations, registers of up to 2 qubits",
  "tests run a few scripted sequences; the bookkeeping must hold after every history",
  ["src/ir/QuantumComputation.cpp", "include/mqt-core/ir/QuantumComputation.hpp", "include/mqt-core/ir/Register.hpp"],
  [dict(name="addQubitRegister/addAncillaryRegister/setLogicalQubitAncillary/setLogicalQubitGarbage", where="src/ir/QuantumComputation.cpp"), dict(name="removeQubit/addQubit/addAncillaryQubit/stripIdleQubits", where="src/ir/QuantumComputation.cpp")],
  ["h_qc.cpp"], ["ir"],
  [H("registers", "3 (thorough 4) operations out of add register / add ancillae / mark ancillary / mark garbage", ["done", "rejected"]), H("registerRanges", "1-3 qubits and 0-2 ancillae, 2 (3) steps of unifying registers, marking ranges, adding bits", ["done","unified","rejected"]), H("strip", "3 (4) qubits, any layout of 3, any output set, any two used qubits", ["strip"]), H("removeAdd", "remove any of 3 qubits, add any physical qubit back", ["done"]), H("resetCirc", "all combinations of global phase, ancillae, garbage, symbolic operations", ["reset"])],
  [])
P("I07", "Measurements and output permutation describe the same outputs",
  "Deriving the output permutation from measurements pairs every qubit with the bit of its first measurement and makes exactly the remaining logical qubits garbage. Appending measurements according to the output permutation, or measuring all qubits, measures each output qubit into its designated bit.",
  ["inputs", "programs"], "up to 3 qubits, up to 2 measurements of up to 2 qubits each, all bit assignments",
  "tests fix a handful of measurement patterns",
  ["src/ir/QuantumComputation.cpp"],
  [dict(name="initializeIOMapping", where="src/ir/QuantumComputation.cpp"), dict(name="appendMeasurementsAccordingToOutputPermutation / measureAll", where="src/ir/QuantumComputation.cpp")],
  ["h_qc.cpp"], ["ir"],
  [H("ioMapping", "3 qubits, 3 bits, up to 2 measurements of 1-2 qubits, with and without given outputs", ["measured", "io"]), H("measureAll", "1-3 qubits, 0-3 existing bits, all basis states, rotated output permutations", ["append", "all"])],
  [A_SEM])
P("I08", "Symbolic expressions follow the rules of arithmetic",
  "Adding, subtracting, negating, scaling and dividing symbolic expressions gives expressions whose value, under every assignment, is the result of the arithmetic on the values; like terms are merged, vanishing terms removed. Expressions compare equal only if they have the same value everywhere, and evaluation fails exactly if a variable has no value.",
  ["inputs"], "all coefficients, constants, factors and assignments in [-4,4] (reals), expressions of up to 2 terms over 3 variables, every operator overload",
  "tests use a few integer coefficients",
  [OPS+"Expression.hpp", SOP+"Expression.cpp"],
  [dict(name="sym::Expression operators", where=OPS+"Expression.hpp"), dict(name="Expression::evaluate, sortTerms, aggregateEqualTerms", where=OPS+"Expression.hpp")],
  ["h_sym.cpp"], ["ir"],
  [H("exprArith", "21 operators on 7 forms of expressions, all coefficients symbolic", ["arith"]), H("exprEq", "all pairs of 7 forms, coefficients symbolic", ["equal", "unequal"]), H("exprPartial", "all subsets of assigned variables", ["missing", "value"])],
  [A_REAL, "non-zero coefficients below 1e-3 (around the tolerance of 1e-9) are left out"])
P("I09", "Symbolic operations instantiate to the gate they describe",
  "Substituting values into a symbolic operation or circuit, at any nesting level, gives the gate with those parameters; nothing symbolic remains and names fit types. Symbolic operations that compare equal are the same gate under every assignment, inversion commutes with instantiation, and the variables of a circuit are those of its parameters.",
  ["inputs", "programs"], "every parameterised gate with up to 1 control on 2 qubits, every mixture of numbers (special angles) and expressions, circuits of 2 operations nested in compound and classically controlled operations",
  "tests instantiate one long circuit at one point and compare types for a few mixtures",
  [SOP+"SymbolicOperation.cpp", OPS+"SymbolicOperation.hpp", "src/ir/QuantumComputation.cpp"],
  [dict(name="SymbolicOperation::instantiate/getInstantiatedOperation/checkSymbolicUgate/equals/invert", where=SOP+"SymbolicOperation.cpp"), dict(name="QuantumComputation::instantiate/isVariableFree/addVariable", where="src/ir/QuantumComputation.cpp")],
  ["h_sym.cpp"], ["ir"],
  [H("symInst", "13 gate types, 8 kinds of parameters each, inverted or not", ["symbolic", "numeric"]), H("symEq", "pairs of operations of 5 types with different mixtures", ["equal"]), H("symCirc", "2 operations, five ways to nest", ["symbolic", "numeric"]), H("symVars", "2 operations, three assignments", ["partial", "total"])],
  [A_SEM])
P("I10", "Reordering and circuit queries agree with the circuit's function",
  "Bringing a circuit into canonical order never changes what it does, is idempotent and does not depend on the order of independent neighbours. Queries (depth, operation counts, idle qubits, last operation on a qubit, whether the circuit is dynamic) and circuits built from compound operations agree with the circuit's operations.",
  ["programs"], "circuits of up to 3 (thorough 4) operations on 2-3 qubits and 1-2 bits, all operation kinds",
  "tests reorder two or three fixed circuits",
  ["src/ir/QuantumComputation.cpp", "include/mqt-core/ir/QuantumComputation.hpp", SOP+"Operation.cpp"],
  [dict(name="reorderOperations", where="src/ir/QuantumComputation.cpp"), dict(name="getDepth/isDynamic/isIdleQubit/isLastOperationOnQubit/fromCompoundOperation", where="src/ir/QuantumComputation.cpp")],
  ["h_qc.cpp"], ["ir"],
  [H("reorder", "3 (4) operations of all kinds after a fixed state preparation, 2 qubits, 2 bits", ["reorder"]), H("reorderCanon", "3 X/CX gates on 3 qubits, swapped independent neighbours", ["canon"]), H("dynamic", "up to 3 operations, 2 qubits, 2 bits", ["dyn"]), H("dynamicSym", "symbolic operations", ["dyn"]), H("metrics", "3 operations on 3 qubits", ["metrics"]), H("fromCompound", "2 operations, nested or flat", ["from"])],
  [A_SEM])
P("I11", "Building circuits appends the operations that were asked for",
  "Every method of a circuit that appends a gate, a controlled or multi-controlled gate, a measurement, a reset, a barrier or a conditional gate appends exactly that operation with exactly the given operands and parameters, numeric or symbolic, and rejects qubits or bits that are not part of the circuit without changing it, also after qubits have been removed. Global phases add up modulo a full turn for every angle, and the names of operation types are unique and read back as the type.",
  ["inputs"], "all 33 gate methods in all three forms, all parameters in [0.1,0.7] (away from angles with special gates: I01), all placements on 3 of 4 indices; all placements and bits for the other methods on 2 qubits and 3 bits; 43 operation types; global phases in [-20,20] and extreme values",
  "tests call each method once with one set of operands",
  ["src/ir/QuantumComputation.cpp", SOP+"OpType.cpp", OPS+"OpType.hpp", OPS+"OpType.inc"],
  [dict(name="mc*/c*/plain gate methods, measure, reset, barrier, classicControlled, gphase", where="src/ir/QuantumComputation.cpp"), dict(name="checkQubitRange / checkBitRange / checkClassicalRegister", where="src/ir/QuantumComputation.cpp"), dict(name="opTypeFromString / toString", where=SOP+"OpType.cpp")],
  ["h_build.cpp"], ["ir"],
  [H("buildGate", "33 methods, 3 forms, 2 placements, symbolic parameters", ["gate"]), H("buildArgs", "10 (33) methods, 3 forms, any distinct operands out of 4 indices", ["appended", "rejected"]), H("buildSymbolic", "12 methods, 3 forms, every mixture of numbers and expressions", ["symbolic", "numeric"]),
   H("buildOther", "13 methods on 2 qubits and 3 bits", ["appended", "rejected"]), H("buildPhase", "one or two phases", ["phase", "extreme"]), H("buildNames", "all pairs of types", ["names"]), H("buildRemoved", "one or two of three qubits removed", ["rejected", "used"])],
  [A_SEM])
P("I12", "Shuttling operations invert, compare and are written exactly",
  "AOD operations report exactly the movements they were made of, in whichever way they were constructed; inverting one undoes it (movements are reversed, activation and deactivation exchanged, name and type stay consistent) and doing so twice gives it back. Two of them are equal exactly if type, qubits and movements agree, and they are written with every digit of their positions and all their qubits, leaving the text around them alone.",
  ["inputs"], "all three kinds, 1-2 qubits, up to 2 (3) movements in two dimensions over 2-3 (6) positions, five constructors",
  "tests construct one operation of each kind",
  [SOP+"AodOperation.cpp", OPS+"AodOperation.hpp"],
  [dict(name="AodOperation::invert / equals / dumpOpenQASM / getStarts / getEnds / getDistances", where=SOP+"AodOperation.cpp")],
  ["h_build.cpp"], ["ir"],
  [H("aodInvert", "up to 2 (3) movements, five constructors", ["aod"]), H("aodEqual", "pairs with up to 1 (2) movements each", ["equal"]), H("aodWrite", "up to 2 movements over 3 (6) positions", ["written"])],
  ["positions are members of a finite grid, each decided on its own path"])
P("I13", "Printed circuits show every operation under its qubits",
  "A circuit is printed as its name, a row with the initial layout, one row per operation and a row with the output permutation, all with one column per qubit. Every row shows, for any layout and after removing qubits, exactly in the columns of the qubits an operation acts on what it does there (gate, positive or negative control, classical bit measured into, reset, barrier), and behind them its parameters or its classical condition as it is; printing never fails, for single operations and groups alike.",
  ["inputs"], "circuits of two operations on 3 (4) qubits with any layout, one removed qubit, every output permutation shape; every kind of operation with up to two controls, single-bit and register conditions with all comparisons",
  "tests print a few circuits with trivial layouts and do not look at the text",
  ["src/ir/QuantumComputation.cpp", SOP+"Operation.cpp", SOP+"CompoundOperation.cpp", SOP+"NonUnitaryOperation.cpp", SOP+"ClassicControlledOperation.cpp"],
  [dict(name="QuantumComputation::print, Operation::print / printParameters and overrides", where=SOP+"Operation.cpp")],
  ["h_print.cpp"], ["ir"],
  [H("printCircuit", "3 (4) qubits, three (all) layouts, up to one qubit removed", ["printed"], time=(120, 900)), H("printOp", "single operations and groups of two with any prefix width up to 3", ["alone", "group"])],
  ["layouts, qubits, kinds and values are members of finite domains, each decided on its own path; symbolic parameters are printed by their numeric part and not stated here"])
P("D01", "Gate matrices are the textbook unitaries",
  "For every gate the library supports, the matrix it uses for simulation and construction of decision diagrams is the gate's textbook unitary, for all values of its parameters.",
  ["inputs"], "all one- and two-qubit gates, all parameters in [-8,8]",
  "tests compare matrices at a few angles",
  ["src/dd/GateMatrixDefinitions.cpp", "include/mqt-core/dd/GateMatrixDefinitions.hpp"],
  [dict(name="opToSingleQubitGateMatrix / opToTwoQubitGateMatrix", where="src/dd/GateMatrixDefinitions.cpp")],
  ["h_gates.cpp"], ["ir", "src/dd/GateMatrixDefinitions.cpp"],
  [H("mat1", "every one-qubit gate, parameters symbolic in [-8,8]", ["mat1"]), H("mat2", "every two-qubit gate, parameters symbolic in [-8,8]", ["mat2"])],
  [A_REAL, A_SEM])
QP = ["src/qasm3/Parser.cpp", "src/qasm3/Scanner.cpp", "src/qasm3/Importer.cpp", "src/qasm3/passes/TypeCheckPass.cpp", "src/qasm3/passes/ConstEvalPass.cpp", "src/qasm3/Gate.cpp", "include/mqt-core/qasm3"]
P("Q01", "Reading OpenQASM always ends in a circuit or an error",
  "Whatever text is given to the OpenQASM importer, it terminates with a circuit or with an exception: it never crashes, hangs, reads out of bounds or dereferences a missing declaration.",
  ["inputs"], "any byte string of up to 3 (thorough 4) bytes for the scanner; any sequence of 3 (4) tokens in every syntactic position for the importer",
  "tests feed a few dozen malformed programs; malformed programs are unbounded in kind",
  QP, [dict(name="Scanner::next", where="src/qasm3/Scanner.cpp"), dict(name="Parser::parse*", where="src/qasm3/Parser.cpp"), dict(name="OpenQASM3Parser visitors, evaluateGateCall", where="src/qasm3/Importer.cpp")],
  ["h_qasm.cpp"], ["ir", "qasm3"],
  [H("scan2", "2 symbolic bytes", ["eof"]), H("scan3", "3 (4) symbolic bytes", ["eof"])] + [H(n, "3 (4) tokens " + w, ["rejected"]) for n, w in
   [("tokExpr", "as a gate argument"), ("tokCond", "as a condition"), ("tokOperand", "as gate operands"), ("tokMod", "as modifiers of a gate call"), ("tokAssign", "as an assignment"), ("tokDecl", "as a declaration"), ("tokGate", "as a gate definition"), ("tokLayout", "in a comment")]] + [H("tokIf", "2 (3) statements in an if-block", ["rejected"])],
  [A_STD], note="longer malformed fragments and programs, include files")
P("Q02", "OpenQASM literals and constant expressions have their exact value",
  "Integer literals of every base and arithmetic on constants (integers of both signs, floating-point functions, comparisons, bit operations, operator precedence and associativity) evaluate to their mathematical or two's complement value, or are rejected where they have none.",
  ["inputs"], "all digits of two-digit literals, all 64-bit operands of every binary and unary integer operator, all expressions of up to 4 (5) tokens",
  "tests evaluate a handful of expressions",
  ["src/qasm3/Scanner.cpp", "src/qasm3/Parser.cpp", "src/qasm3/passes/ConstEvalPass.cpp"], [dict(name="ConstEvalPass::visit", where="src/qasm3/passes/ConstEvalPass.cpp"), dict(name="Scanner::consumeNumberLiteral", where="src/qasm3/Scanner.cpp"), dict(name="Parser::parseExpression", where="src/qasm3/Parser.cpp")],
  ["h_qasm.cpp"], ["ir", "qasm3"],
  [H("literal", "two symbolic digits in bases 2, 8, 10, 16, both letter cases, optional underscore", ["int"]), H("constInt", "all pairs of 64-bit operands, linear and bitwise operators and comparisons, all signedness combinations", ["value"]),
   H("constIntNl", "all pairs of 64-bit operands for *, /, %, <<, >>", ["value", "rejected"]), H("constPow", "integer powers, base and exponent symbolic in small ranges"), H("exprText", "expressions of up to 4 (5) tokens compared with an independent evaluator")],
  [A_STD], note="`**` is not accepted by the parser and not claimed")
P("Q03", "OpenQASM gate calls mean what the language defines",
  "Every standard-library gate call becomes an operation with the unitary that the language defines, for both language versions. Modifiers (ctrl, negctrl, inv, and combinations), broadcasting over registers and user-defined gates with parameters expand to the defined action.",
  ["inputs", "programs"], "every gate of the library, every operand order on up to 4 qubits, modifier stacks of up to 2 (3), registers of up to 2 qubits, definitions of up to 3 statements",
  "tests import a sample of gates and compare strings",
  QP, [dict(name="STANDARD_GATES, evaluateGateCall, applyQuantumOperation", where="src/qasm3/Importer.cpp")],
  ["h_qasm.cpp"], ["ir", "qasm3"],
  [H("stdGate", "every built-in gate, all operand orders on 3 qubits"), H("libGate", "gates of the standard headers given by definitions"), H("mcGates", "mcx, mcx_gray, mcphase, mcx_vchain, mcx_recursive on 2-7 qubits in 4 orders, 4 modifiers, directly and within a gate definition"), H("modifiers", "stacks of modifiers on gates, with and without own controls"), H("broadcast", "scalar/register operand combinations"), H("gateDefs", "definitions with parameters, nested, with modifiers and shadowed names")],
  [A_SEM])
P("Q04", "OpenQASM statements act on the declared registers",
  "Conditions, measurements, resets, barriers and assignments of an imported program act on exactly the qubits (declared or hardware ones) and bits that the program names, in program order, with both branches of a condition guarded by the condition and its complement.",
  ["programs"], "all comparison operators, both operand orders, bit and register conditions with all values, whole and single registers in two registers of different sizes, sequences of 3 statements",
  "tests import a sample of conditions and measurements",
  QP, [dict(name="visitIfStatement, visitAssignmentStatement, visitMeasure/visitReset/visitBarrier", where="src/qasm3/Importer.cpp")],
  ["h_qasm.cpp"], ["ir", "qasm3"],
  [H("conditions", "bit and register conditions with every operator, negation and operand order, if/else"), H("measures", "measure, reset and barrier of registers and single qubits in every spelling"), H("hardwareQubits", "sequences of 2 (3) statements on 3 hardware qubits"), H("stmts", "sequences of 3 statements over two qubit and two bit registers")],
  [A_SEM])
P("Q05", "Layout comments set the initial layout and output permutation",
  "Dedicated layout comments of an OpenQASM file (`// i` and `// o`) define the initial layout and the output permutation exactly as written; any other comment has no effect on the circuit.",
  ["inputs"], "all permutations of up to 3 qubits in both comments, arbitrary comment text of a few tokens",
  "tests read two layouts",
  ["src/qasm3/Importer.cpp", "src/qasm3/Parser.cpp", "src/qasm3/Scanner.cpp"], [dict(name="visitInitialLayout/visitOutputPermutation", where="src/qasm3/Importer.cpp"), dict(name="parseInitialLayout/parseOutputPermutation", where="src/qasm3/Parser.cpp")],
  ["h_qasm.cpp"], ["ir", "qasm3"],
  [H("layoutComment", "all layouts and (partial) outputs on 3 qubits, other comments in between")])

CO = "src/circuit_optimizer/CircuitOptimizer.cpp"
P("O01", "Gate-level optimisations keep the circuit's function",
  "Cancelling CNOTs, reconstructing SWAPs, fusing single-qubit gates, decomposing SWAPs, replacing controlled X by controlled Z, removing identities or selected operations, and flattening groups leave the action of every circuit unchanged on all inputs and classical states, including circuits with measurements, resets, conditions and nested groups; each pass leaves none of the operations it eliminates.",
  ["programs", "inputs"], "circuits of 3-5 operations on 2-3 qubits out of alphabets of 7 to 19 operations; the input state has symbolic amplitudes",
  "tests check the resulting operation lists of a few fixed circuits",
  [CO, "include/mqt-core/circuit_optimizer/CircuitOptimizer.hpp"],
  [dict(name=n, where=CO) for n in ("swapReconstruction", "cancelCNOTs", "singleQubitGateFusion", "decomposeSWAP", "replaceMCXWithMCZ", "flattenOperations", "removeOperation")],
  ["h_opt.cpp"], ["ir", "opt"],
  [H("optCancelLong", "4 (5) operations: CNOTs on all pairs of 3 qubits and SWAP, two passes", ["shorter", "same"]), H("optCancelWide", "3 operations of 18 kinds on 3 qubits, two passes", ["shorter", "same"]),
   H("optFuseLong", "5 (6) operations of 6 kinds, symbolic rotation angle", ["shorter", "same"]), H("optFuseWide", "3 operations of 27 kinds on 2 qubits", ["shorter", "same"]),
   H("optRewrite", "2 (3) operations of 12 kinds, nested up to two levels, seven pass variants", ["rewrite"]), H("optRemoveOp", "2 operations of 7 kinds, all type sets and sizes", ["removed"])],
  [A_SEM])
P("O02", "Measurement and dynamic-circuit passes keep the outcomes",
  "Removing diagonal gates before measurements, removing final measurements, eliminating resets and deferring measurements keep the joint distribution of all classical bits (and of the unmeasured qubits) for every circuit they accept (deferring: circuits in which a measured qubit is not changed afterwards); only final measurements are removed, no reset remains and no measurement is followed by another operation.",
  ["programs"], "circuits of 3-4 (thorough 4-5) operations on 2-3 qubits out of 12 to 16 kinds, including groups, conditions and multi-qubit measurements",
  "tests check the resulting operation lists of a few fixed circuits",
  [CO], [dict(name=n, where=CO) for n in ("removeDiagonalGatesBeforeMeasure", "removeFinalMeasurements", "eliminateResets", "deferMeasurements")],
  ["h_opt.cpp"], ["ir", "opt"],
  [H("optDiag", "3 (4) operations of 16 kinds, 8 ways to measure 3 qubits", ["shorter", "same"]), H("optFinal", "3 (4) operations of 14 kinds", ["removed", "same"]), H("optResets", "3 (4) operations of 14 kinds on an entangled state", ["reset", "none"]), H("optDefer", "4 (5) operations of 17 kinds (measurements and conditions also within groups) on 3 qubits and 2 bits; measured qubits are only used as controls afterwards", ["deferred"])],
  [A_SEM], note="deferring measurements of qubits that are changed after being measured (existing tests fix a result that moves the measurement behind those changes)")
P("O03", "Permutation passes keep the logical circuit",
  "Eliding SWAPs and backpropagating the output permutation keep the circuit's action between logical inputs and outputs: no uncontrolled SWAP remains after eliding, and following the SWAPs of a circuit from the backpropagated initial layout (a complete one-to-one layout) leads exactly to the output permutation.",
  ["programs", "inputs"], "all layouts and (partial) output permutations of 3 qubits, 2-3 (3-4) operations, nested groups, measurements, conditions",
  "tests check a handful of circuits",
  [CO], [dict(name=n, where=CO) for n in ("elidePermutations", "backpropagateOutputPermutation")],
  ["h_opt.cpp"], ["ir", "opt"],
  [H("optElide", "2 (3) operations of 10 kinds, all 6 layouts, all output permutations of 1-3 qubits", ["elide"]), H("optBackprop", "3 (4) operations of 7 kinds, all partial output permutations", ["backprop"])],
  [A_SEM])
P("O04", "Collecting blocks keeps the circuit's function",
  "Grouping the operations of a circuit into blocks of bounded size keeps the action of every circuit; no new block acts on more qubits than allowed.",
  ["programs", "inputs"], "3 (4) operations of 12 kinds on 4 qubits, block sizes 1-4; symbolic amplitudes for unitary circuits",
  "tests check the blocks of a few fixed circuits",
  [CO], [dict(name="collectBlocks, DSU", where=CO)],
  ["h_opt.cpp"], ["ir", "opt"],
  [H("optBlocks", "3 (4) operations of 12 kinds on 4 qubits", ["unitary", "dynamic"])],
  [A_SEM])

PK, PKI = "src/dd/Package.cpp", "include/mqt-core/dd/Package.hpp"
A_FP = "amplitudes are concrete doubles in the harnesses without symbolic draws (floating-point arithmetic is then exact as compiled); results are compared with tolerances of 1e-7 to 1e-9"
A_DENSE = "the dense meaning of a decision diagram is read off its nodes by harness/ddsem.h, independently of the library"
P("D02", "Circuits simulate and build to what they mean",
  "The decision diagram of every gate (and of its inverse) is the gate's matrix; building the functionality of a circuit, in sequence or recursively, gives the circuit's unitary between logical inputs and outputs for every initial layout and output permutation, and simulating it from any state gives that unitary's action on the state, including the global phase. Ancillary and garbage qubits are reduced as documented, and every named or given state is built with exactly its amplitudes.",
  ["programs", "inputs"], "every gate type with all positions, up to 2 (all) controls of both signs on 3 (4) qubits; circuits of up to 2 (3) operations of 16 kinds; all layouts and output permutations of 3 qubits; all sets of ancillary and garbage qubits; states on up to 4 qubits",
  "tests build a few named circuits and compare with hand-written matrices; the statement is about all gate sequences under all layouts",
  ["src/dd/FunctionalityConstruction.cpp", "src/dd/Operations.cpp", "src/dd/Simulation.cpp", "include/mqt-core/dd/Operations.hpp", PK, "src/dd/GateMatrixDefinitions.cpp"],
  [dict(name="getDD / getInverseDD / changePermutation", where="include/mqt-core/dd/Operations.hpp"), dict(name="buildFunctionality(Recursive)", where="src/dd/FunctionalityConstruction.cpp"), dict(name="simulate", where="src/dd/Simulation.cpp"), dict(name="makeGateDD, makeTwoQubitGateDD, make*State", where=PK)],
  ["h_dd.cpp"], ["ir", "dd"],
  [H("ddGate", "every gate type on 3 (4) qubits, all positions, up to 2 controls of both signs, global phases with any controls; 1 (3) parameter sets", ["plain", "controlled"]),
   H("ddBuild", "circuits of 0-2 (3) operations of 16 kinds (nested groups, controlled SWAPs, barriers, global phases), all layouts and output permutations of 3 qubits (up to 1 operation; 4 output permutations for 2)", ["circuit"]),
   H("ddBuildLong", "96 circuits of 3-7 operations: all shapes of the recursive construction's tree", ["circuit"]),
   H("ddAncilla", "2 (3) operations of 8 kinds, all sets of ancillary and garbage qubits, both constructions and simulation", ["both", "one"]),
   H("ddStates", "zero, basis, GHZ, W and product states on 1-4 qubits, vectors over 5 amplitudes on 1-2 (3) qubits; all access functions", ["vector", "named"])],
  [A_SEM, A_DENSE, A_FP])

P("D04", "Decision-diagram arithmetic is linear algebra",
  "Sum, product, adjoint, conjugate, inner product, fidelity, expectation value, Kronecker product, (partial) trace, reduction of ancillary and garbage qubits, deletion of vector edges and transfer between packages give, for every operand, the result dense linear algebra gives, also when an operation is repeated and its cached result is used. Entries are read correctly one by one, densely or sparsely, and a matrix counts as close to the identity only if it is (up to a factor and, where asked for, up to garbage qubits).",
  ["inputs", "histories"], "14 families of matrices (identities on some levels, projectors, nilpotent, dense, zero, block-diagonal, factors) and 8 of vectors on 1-4 qubits, in all positions and pairs",
  "tests use a few standard gates; the recursions branch on where levels are skipped, which operand is zero, identical or cached",
  [PK, PKI, "src/dd/Edge.cpp", "include/mqt-core/dd/Edge.hpp", "include/mqt-core/dd/ComputeTable.hpp", "include/mqt-core/dd/UnaryComputeTable.hpp"],
  [dict(name="add / multiply / kronecker / trace / reduce* / conjugate*", where=PKI), dict(name="Edge access", where="src/dd/Edge.cpp"), dict(name="ComputeTable", where="include/mqt-core/dd/ComputeTable.hpp")],
  ["h_ddops.cpp"], ["ir", "dd"],
  [H("ddMatOps", "pairs of matrices on 2-3 (1-3) qubits: sum, both products, adjoint, each repeated", ["binary"]),
   H("ddMatVec", "matrix and two vectors on 2-3 (3) qubits: product, sum, conjugate, inner product, fidelity, expectation value, fidelity of permuted measurement outcomes", ["vectors"]),
   H("ddUnary", "one matrix on 1-3 (4) qubits: access, trace, every partial trace", ["eliminated", "none"]),
   H("ddClose", "matrices on 1-3 qubits with any one entry perturbed a little or visibly", ["close", "identity"]),
   H("ddKron", "two Kronecker products in a row sharing the upper factor, total size up to 3 (4) qubits", ["vectors", "matrices"]),
   H("ddReduce", "matrices on 2-3 qubits, all sets of ancillary or garbage qubits, both orientations, with and without magnitudes", ["ancilla", "garbage"]),
   H("ddReduceV", "vectors on 1-3 (4) qubits, all sets of garbage qubits", ["garbage"]),
   H("ddCopy", "transfer of matrices and vectors on 1-3 (4) qubits, deletion of every vector edge", ["matrix", "vector"])],
  [A_DENSE, A_FP])

P("D05", "Garbage collection and resets never change a held decision diagram",
  "A decision diagram to which a reference is held keeps its meaning through any sequence of operations, reference changes, garbage collections and reductions, and exactly the nodes and numbers reachable from held references survive a collection. No operation ever returns a result computed for nodes that have since been collected, and a package that has been reset behaves like a new one.",
  ["histories"], "histories of 3 (4) cached computations out of 12 with collections or resets between them; histories of 4 (6) steps of 8 kinds; resets followed by new diagrams and collections",
  "stale cache entries and early reuse of freed memory only show for particular orders of collecting and reallocating, which tests do not visit",
  [PK, PKI, "include/mqt-core/dd/UniqueTable.hpp", "src/dd/MemoryManager.cpp", "src/dd/RealNumberUniqueTable.cpp", "include/mqt-core/dd/ComputeTable.hpp", "include/mqt-core/dd/UnaryComputeTable.hpp"],
  [dict(name="garbageCollect / reset / clearComputeTables", where=PK), dict(name="incRef / decRef", where="include/mqt-core/dd/UniqueTable.hpp"), dict(name="MemoryManager", where="src/dd/MemoryManager.cpp")],
  ["h_ddmem.cpp"], ["ir", "dd"],
  [H("ddStaleStatic", "2 (3) computations out of 12 on operands whose numbers are never collected, a collection after each", ["static", "kept"]), H("ddStale", "3 (4) computations out of 12 (each on fresh operands that are released), a collection, a reset or nothing between them", ["collect", "reset"]),
   H("ddRefs", "4 (6) steps: build, apply a gate, share, release, reduce, reduce an identity, collect; held diagrams are re-read after every step and the survivors of a collection are counted", ["collected"]),
   H("ddReset", "1-3 diagrams before and after a reset of either kind, two collections with reallocation", ["reset"])],
  [A_DENSE, A_FP], state=[])

P("D06", "Measuring and sampling follow the state's probabilities",
  "For every state and every sequence of random draws in [0,1), measuring one or all qubits gives the outcome whose probability interval contains the draw and leaves the projected (or unchanged) state, with references kept correctly. Sampling a circuit gives, shot by shot, the classical bits (or the qubits, if nothing is measured) that running the circuit with these draws produces, for static and dynamic circuits under every layout and output permutation.",
  ["inputs", "programs"], "all values of the draws (symbolic reals); 7 families of states on 1-3 (4) qubits; static circuits of 1 (3) gates on 3 qubits with 7 ways to measure, dynamic circuits of 3 (4) operations of 16 kinds on 2 qubits and bits, 3 (4) shots",
  "tests compare histograms with wide tolerances; a swapped bit or a wrong interval for some layout passes them",
  ["src/dd/Simulation.cpp", PK, PKI],
  [dict(name="sample / simulate", where="src/dd/Simulation.cpp"), dict(name="measureAll / measureOneCollapsing / determineMeasurementProbabilities", where=PK)],
  ["h_ddsamp.cpp"], ["ir", "dd"],
  [H("ddMeasureAll", "7 families of states on 1-3 (4) qubits, symbolic draws", ["collapsed", "kept"]), H("ddMeasureOne", "2 (3) measurements of any qubits in a row, symbolic draws", ["measured"]),
   H("ddSampleStatic", "one (3) operation(s) of 6 kinds on 3 qubits, 7 ways to measure (one qubit into two bits, two qubits into one bit), layouts and output permutations, one shot", ["measured", "unmeasured"]),
   H("ddSampleDynamic", "3 (4) operations of 16 kinds on 2 qubits: mid-circuit measurements, resets, conditions", ["dynamic"]), H("ddSampleShots", "3 (4) shots of 4 circuits", ["shots"]),
   H("ddSampleMapped", "2 operations of 6 kinds, measured subsets whose output permutation is derived by initializeIOMapping", ["mapped"])],
  [A_SEM, A_DENSE, "std::uniform_real_distribution<double> is replaced by symbolic reals in [0,1) (harness stub draw.h); the uniformity of the generator itself is outside", "draws closer than 1e-6 to a border of two outcomes are left out"], flags=["-include", "draw.h"])

P("D07", "Decision diagrams read back as they were written",
  "Writing a vector or matrix decision diagram as text or binary and reading it into the same or another package gives the same vector or matrix (in the same package the same node). States, matrices, gates and files that exceed the qubits of a package, and arrays that are no vectors or matrices, are rejected with an exception, and the package stays usable.",
  ["inputs"], "14 families of matrices and 8 of vectors on 1-3 (4) qubits, vectors made of 6 kinds of blocks and 3 factors, circuits of 3 (4) operations of 7 kinds; all combinations of package size (0-3) and needed size (0-4)",
  "tests serialise two or three diagrams",
  ["include/mqt-core/dd/Export.hpp", "src/dd/Export.cpp", PKI, PK],
  [dict(name="serialize", where="include/mqt-core/dd/Export.hpp"), dict(name="deserialize, argument checks", where=PKI)],
  ["h_ddio.cpp"], ["ir", "dd"],
  [H("ddSerialM", "14 families of matrices on 1-3 (4) qubits, text and binary, with a collection in between", ["binary", "text"]), H("ddSerialV", "8 families of vectors on 1-3 (4) qubits", ["binary", "text"]),
   H("ddSerialShape", "vectors on 3 (4) qubits made of blocks that share nodes up to factors", ["shape"]), H("ddCircuitIO", "functionality and state of circuits of 3 (4) operations", ["circuit"]),
   H("ddArgs", "14 ways to ask for more than the package has, package sizes 0-3, needed sizes 0-4", ["rejected", "accepted"])],
  [A_DENSE, A_FP])

P("D08", "Noise and density matrices follow the channels",
  "Applying gates and noise to a density matrix (amplitude damping, phase flips, depolarisation, any combination, with one probability for single-qubit and one for multi-qubit gates) gives the density matrix of the circuit followed on each of its qubits by these channels; entries, sparse forms, outcome probabilities and the trace are read off accordingly, and measuring a qubit selects the outcome of the draw and leaves the projected, normalised matrix. Averaged over the draws, stochastic noise gives the same channels, whatever noise models used the package before.",
  ["inputs", "programs"], "circuits of 2 (3) noisy operations of 7 (9) kinds on 1-2 qubits, one noisy and one more operation on 3 qubits, 8 noise models (8 combinations of effects with 4 sets of probabilities); symbolic draws for measurements; for stochastic noise all draws of a grid on which every border lies",
  "tests compare one 4-qubit circuit with recorded values, for stochastic noise with a tolerance of 0.1",
  ["src/dd/NoiseFunctionality.cpp", "src/dd/Node.cpp", "src/dd/Edge.cpp", PK, PKI],
  [dict(name="DeterministicNoiseFunctionality / StochasticNoiseFunctionality", where="src/dd/NoiseFunctionality.cpp"), dict(name="applyOperationToDensity / measureOneCollapsing", where=PK), dict(name="trace / multiply2 / add2 on density matrices", where=PKI)],
  ["h_ddnoise.cpp"], ["ir", "dd"],
  [H("ddNoiseDet", "2 (3) noisy operations on 1-2 qubits, prepared in 4 ways, with a collection in between", ["noisy", "collected"], time=(90, 1200)), H("ddNoiseDet3", "a noisy operation and one more on 3 qubits", ["noisy"], time=(90, 1200)),
   H("ddDensStale", "2 (3) density matrices one after the other, prepared, made noisy, released and collected or not, its numbers kept in use or not", ["collected", "kept"]), H("ddDensMeasure", "a noisy operation on 1-2 (3) qubits and 2 measurements", ["measured"]), H("ddNoiseStoch", "one operation on 1-2 qubits, 5 (7) combinations of effects, 4 sets of probabilities, another noise model before", ["averaged", "two models"])],
  [A_SEM, A_DENSE, A_FP, "std::uniform_real_distribution<double> is replaced (harness stub draw.h): symbolic reals in [0,1) for measurements, every combination of the midpoints of 4, 8 or 16 intervals for stochastic noise"], flags=["-include", "draw.h"])

P("D03", "Numbers and functions are represented once",
  "Looking up a number gives an entry within the tolerance of it: an existing one whenever there is one, otherwise a new one with exactly this value; an entry is always found again under its own value (and, with the sign flipped, under its negative), and a collection removes exactly the unreferenced ones. Equal vectors and equal matrices are the same edge however they were computed, no two nodes have the same successors, and a circuit followed by its inverse is the identity edge. Complex arithmetic is exact up to rounding.",
  ["inputs", "histories"], "all triples (quadruples) of numbers around bucket borders, around 0, 1/2, sqrt(1/2), 1 and beyond (symbolic reals); 14 families of matrices and 8 of vectors combined in 7 and 5 ways; circuits of 3 (4) operations",
  "collisions within the tolerance and at bucket borders need numbers that tests do not choose",
  ["src/dd/RealNumberUniqueTable.cpp", "src/dd/RealNumber.cpp", "src/dd/ComplexNumbers.cpp", "src/dd/ComplexValue.cpp", "include/mqt-core/dd/UniqueTable.hpp", PKI],
  [dict(name="lookup / garbageCollect", where="src/dd/RealNumberUniqueTable.cpp"), dict(name="UniqueTable::lookup", where="include/mqt-core/dd/UniqueTable.hpp"), dict(name="makeDDNode, normalize", where=PKI)],
  ["h_ddnum.cpp"], ["ir", "dd"],
  [H("ddNumbers", "3 (4) lookups of symbolic numbers within half a bucket of a border or of 0, 1/2, sqrt(1/2), 1 or 2, tolerance an eighth of a bucket; then every known number with both signs", ["found", "added"]),
   H("ddNumbersGC", "2 (3) lookups, references taken and released, a collection and another lookup", ["collected"], time=(120, 1200)),
   H("ddComplex", "sum, product, quotient, scaling of symbolic complex values in [-2,2]", ["arithmetic"]),
   H("ddCanonM", "pairs of matrices on 2 (1-3) qubits, 7 operations", ["matrix"]), H("ddCanonV", "pairs of vectors on 1-3 (4) qubits, 5 operations", ["vector"]), H("ddInverse", "circuits of 3 (4) operations of 10 kinds on 3 qubits", ["circuit"])],
  [A_DENSE, "in the number-table harnesses doubles are exact rationals (rounding is outside), and the tolerance is set to 2^-19"])

P("Z01", "The ZX-diagram of a circuit denotes the circuit",
  "For every circuit that is reported as transformable, with standard or symbolic parameters, any layout, controls and nested operations, the constructed ZX-diagram denotes the circuit's unitary up to a non-zero factor, its wires being ordered by the initial layout. A circuit is reported as transformable exactly if the construction succeeds, and every other circuit is rejected with an exception.",
  ["inputs", "programs"], "single operations of all types with up to 2 controls of either sign on 3 qubits under 3 layouts; symbolic parameters of 4 forms on 2 qubits, all values of the variables (symbolic reals); runs of 3 (4) operations around swaps; angles from pi/2^40 to 10^10",
  "tests compare a handful of circuits with their inverses, in which a wrong decomposition cancels out",
  ["src/zx/FunctionalityConstruction.cpp", "src/zx/Rational.cpp", "src/zx/ZXDiagram.cpp"],
  [dict(name="buildFunctionality / parseOp / checkSwap / transformableToZX", where="src/zx/FunctionalityConstruction.cpp"), dict(name="PiRational(double)", where="src/zx/Rational.cpp")],
  ["h_zx.cpp"], ["ir", "zx"],
  [H("zxGate", "one operation of 33 types, 7 other kinds of operations", ["diagram", "unsupported"]), H("zxAngle", "about 1000 angles in 6 families, 4 rotations", ["diagram"]),
   H("zxSymGate", "12 types with parameters of 4 forms in two symbolic variables", ["diagram", "symbolic"]), H("zxSwaps", "3 (4) operations out of 9", ["diagram"])],
  [A_SEM, A_DENSE, "GMP is not used (boost's own rationals)"])

P("Z02", "Rewriting ZX-diagrams keeps the linear map",
  "Every rewrite rule whose check succeeds, every simplification pass, the graph-like form, the simplification of parallel edges and the removal of disconnected spiders keep the linear map of every diagram up to a non-zero factor. Adjoints, concatenation, ancillas and added qubits give the adjoint, the product, the projected map and the map with another wire, and only diagrams of the identity are reported as the identity.",
  ["inputs", "programs"], "graph-like diagrams with 4 spiders, 6 kinds of phases and all edges and boundaries; 3 spiders of both colours with all edges; two phase gadgets on three targets; circuits of 2 (3) operations of 14 kinds for 13 passes, of 5 (6) operations for the reductions, of 3 (4) on 3 qubits; pairs of 6 circuits composed",
  "a rewriting error needs a particular neighbourhood, and circuits followed by their inverse hide it",
  ["src/zx/Rules.cpp", "src/zx/Simplify.cpp", "src/zx/ZXDiagram.cpp", "include/mqt-core/zx/Simplify.hpp"],
  [dict(name="check* / localComp / pivot / removeId / fuseSpiders / checkAndFuseGadget", where="src/zx/Rules.cpp"), dict(name="*Simp / fullReduce", where="src/zx/Simplify.cpp"), dict(name="concat / invert / makeAncilla / addEdgeParallelAware / isIdentity", where="src/zx/ZXDiagram.cpp")],
  ["h_zx.cpp"], ["ir", "zx"],
  [H("zxCompose", "pairs of 6 circuits on 2-3 qubits, inverted or not, reduced or not, 5 ways to add or remove qubits", ["plain", "ancilla", "added"]),
   H("zxPasses", "2 (3) operations of 14 kinds, 13 passes on plain, graph-like and fused diagrams", ["spiderSimp", "fullReduce", "gadgetSimp"]), H("zxReduce", "5 (6) operations of 5 (7) kinds on 2 qubits", ["reduced"]),
   H("zxReduce3", "3 (4) operations of 8 kinds on 3 qubits", ["reduced"]), H("zxEquiv", "2 operations of 13 kinds against the adjoint of a changed copy", ["identity", "same"]),
   H("zxRules", "4 rules, 4 spiders", ["localComp", "pivotPauli", "pivot", "pivotGadget"]), H("zxGraphs", "full (and Clifford) reduction of all graph-like diagrams with 4 spiders, 2 inputs and 2 outputs, 3 (4) phases each"), H("zxFuse", "3 spiders of both colours", ["removeId", "fuseSpiders", "parallel"]),
   H("zxGadget", "two hubs with leaves on 3 targets", ["fuseGadget", "gadget"]), H("zxIsIdentity", "8 two-wire diagrams", ["identity", "checked"])],
  [A_DENSE, "phases are multiples of pi/4 or symbols; symbols are evaluated at one generic point when diagrams are compared (the map depends on them polynomially)", "diagrams with loops are outside, except for loops the rules create themselves"])

P("Z03", "Phases and the graph of a ZX-diagram are exact",
  "Multiples of pi are kept as reduced fractions in (-1, 1] and their arithmetic and comparisons are exact modulo 2; phases are classified as Pauli or Clifford, and rounded, exactly if they are (within the tolerance of) multiples of pi or pi/2. After any sequence of additions and removals of vertices, edges, wires and phases, all queries of a diagram describe the same graph.",
  ["inputs", "histories"], "fractions with numerators -5..5 and 4 (6) denominators, with each other and with integers up to 4*10^9; 210 phases around multiples of pi/2; 4 (5) operations of 7 kinds on diagrams with 0, 1 or 2 wires; iterators over all graphs with up to 4 vertices and deleted ones",
  "reduction modulo 2 and reused vertex indices need particular values and histories",
  ["include/mqt-core/zx/Rational.hpp", "src/zx/Rational.cpp", "src/zx/Utils.cpp", "src/zx/ZXDiagram.cpp"],
  [dict(name="PiRational", where="src/zx/Rational.cpp"), dict(name="VertexIterator / EdgeIterator / roundToClifford", where="src/zx/Utils.cpp"), dict(name="addVertex / removeVertex / addEdge / removeEdge / getAdjMat / getConnectedSet", where="src/zx/ZXDiagram.cpp")],
  ["h_zx.cpp"], ["ir", "zx"],
  [H("zxRational", "numerators -5..5, 4 (6) denominators of both signs", ["fraction"]), H("zxRound", "3 tolerances, 5 multiples, 7 distances", ["kept", "rounded"]),
   H("zxGraph", "4 (5) operations", ["graph", "deleted", "removed"], time=(150, 600)), H("zxIterators", "graphs with up to 4 vertices", ["iterated"])],
  ["GMP is not used (boost's own rationals)", "loops are only added right before their vertex is removed"])

P("N01", "Neutral-atom computations are validated exactly",
  "For all coordinates and all sequences of operations, a computation is reported as valid exactly if every atom is loaded before it is moved or stored and stored before it is loaded again, no operation lists an atom twice, and atoms moved together keep their rows, columns and relative order and end at different places. The location of every atom after every operation, the order and distance of locations, the extent of zones and the text describe the operations.",
  ["inputs", "histories"], "two atoms and 3 (4) operations of 7 kinds, three atoms moved together, all coordinates (symbolic reals); three atoms and 3 (4) operations with repeated atoms; pairs and triples of symbolic locations; texts of up to 2 operations of 9 kinds",
  "tests use one violation of each kind at fixed integer coordinates",
  ["src/na/NAComputation.cpp", "include/mqt-core/na/entities/Location.hpp", "src/na/entities/Zone.cpp", "src/na/operations/LoadOp.cpp", "src/na/operations/StoreOp.cpp"],
  [dict(name="validate / getLocationOfAtomAfterOperation / toString", where="src/na/NAComputation.cpp"), dict(name="Location", where="include/mqt-core/na/entities/Location.hpp"), dict(name="Zone::contains", where="src/na/entities/Zone.cpp")],
  ["h_na.cpp"], ["ir", "na"],
  [H("naPairs", "2 atoms, 3 (4) operations, symbolic coordinates", ["valid", "invalid"]), H("naTriples", "3 atoms, symbolic coordinates", ["triple"]),
   H("naProtocol", "3 atoms, 3 (4) operations, 8 lists of atoms", ["valid", "invalid"]), H("naGeometry", "symbolic locations and extents, 49 distances", ["geometry", "distance"]), H("naText", "up to 3 atoms and 2 operations", ["text"])],
  ["coordinates are exact reals (comparisons only)", "only atoms moved by the same operation constrain each other"])

P("S01", "Layers schedule a circuit without changing it",
  "Executing, in any order, operations that the layer of a circuit reports as executable eventually executes every operation exactly once, and the result is the circuit: the same unitary, the same outcomes and final states if there are measurements, conditions and resets, and no operation is moved across a barrier. Operations that are not executable are rejected, without commutation rules exactly the next operations are executable, and the executable operations of a type and the interaction graph describe the executable set, also after the layer was moved or copied.",
  ["programs", "schedules"], "every schedule of every circuit of 4 (5) operations out of 6 with global rotations, of 5-6 (6-7) operations out of 7 with rotations on two of three qubits (the first of them fixed), of 4 (5) operations out of 9 on two qubits, of 4 (5) with compound operations, of 4 (5) with measurements, conditions, resets and barriers; pairs of operations of 20 (28) types on all qubits; 3 operations with symbolic angles",
  "tests execute one schedule of one circuit; a schedule that changes the circuit needs inverse operations around others and a particular order",
  ["src/datastructures/Layer.cpp", "include/mqt-core/datastructures/Layer.hpp", "src/ir/operations/StandardOperation.cpp", "src/ir/operations/CompoundOperation.cpp"],
  [dict(name="constructDAG / constructInteractionGraph / getExecutablesOfType", where="src/datastructures/Layer.cpp"), dict(name="DAGVertex::execute", where="include/mqt-core/datastructures/Layer.hpp"), dict(name="commutesAtQubit / isInverseOf", where="src/ir/operations/StandardOperation.cpp")],
  ["h_layer.cpp"], ["ir", "ds"],
  [H("layGlobal", "4 (5) operations: rotations of all qubits in both directions, rz, cz, h", ["in order", "reordered"]), H("layDiag", "4 (5) operations: diagonal rotations of all qubits, cx, h, cz, rz", ["reordered"]),
   H("layPairs", "5 (6) operations: rotations of two of three qubits in both directions, h, cx", ["reordered"]), H("layTwoPairs", "6 (7) operations, the first three being a rotation and its inverse around h", ["reordered"]), H("layTwo", "4 (5) operations of 9 kinds on two qubits", ["reordered"]),
   H("laySymbolicAngles", "3 operations of 7 kinds, symbolic angles", ["reordered"]), H("layCompound", "4 (5) operations, 6 kinds of compound operations", ["reordered"]),
   H("layAnyPair", "two operations of 20 (28) types with up to one control on 3 qubits", ["reordered", "commute"]), H("laySymbolic", "pairs of operations with symbolic parameters", ["in order", "reordered"]),
   H("layClassic", "4 (5) operations of 10 (12) kinds on 2 qubits and 2 bits", ["dynamic"]), H("layQueries", "3 operations of 8 kinds, 4 ways to move or copy, 7 queries", ["graph", "sequential"])],
  [A_SEM])

P("S02", "Graphs and disjoint sets answer for their history",
  "After any sequence of additions, directed, acyclic and undirected graphs report exactly the vertices, edges, degrees, neighbours and edge values that were added; an edge is rejected by an acyclic graph exactly if it would close a cycle, reachability is the transitive closure, and the topological order lists every vertex once, after its predecessors. Two elements of a disjoint set have the same representative exactly if they were joined, and both halves of a symmetric matrix agree.",
  ["histories"], "4 (5) additions of any edges among 4 vertices to directed, acyclic and undirected graphs (loops and edges added twice included), 3 (4) unions of 5 elements, symmetric matrices of size 0-4",
  "tests add one sequence of edges, in which every path grows at its end",
  ["include/mqt-core/datastructures/DirectedAcyclicGraph.hpp", "include/mqt-core/datastructures/DirectedGraph.hpp", "include/mqt-core/datastructures/UndirectedGraph.hpp", "include/mqt-core/datastructures/DisjointSet.hpp", "include/mqt-core/datastructures/SymmetricMatrix.hpp"],
  [dict(name="addEdge / isReachable / orderTopologically", where="include/mqt-core/datastructures/DirectedAcyclicGraph.hpp"), dict(name="UndirectedGraph", where="include/mqt-core/datastructures/UndirectedGraph.hpp"), dict(name="DisjointSet", where="include/mqt-core/datastructures/DisjointSet.hpp")],
  ["h_graph.cpp"], ["ir", "ds"],
  [H("grDirected", "4 (5) additions among 4 vertices, acyclic or not", ["cycle", "plain", "dag"]), H("grUndirected", "4 (5) additions among 4 vertices", ["twice", "loop", "undirected"]), H("grEdges", "pairs of edges", ["edges"]),
   H("grDisjointSet", "3 (4) unions of 5 elements", ["joined"]), H("grSymmetricMatrix", "sizes 0-4, two writes", ["matrix"])],
  [])

P("A01", "Generated circuits compute what their names say",
  "For every size, hidden string, target, phase and state, measuring the generated Bernstein-Vazirani circuits gives the hidden string, Grover's finds the target with the probability of the best number of iterations, phase estimation gives every outcome with its exact probability, the Fourier transforms are the Fourier transform (big-endian, also when measured, and in the iterative form for inputs that arrive one by one), and GHZ, W and arbitrary states are prepared amplitude by amplitude. Invalid amplitudes are rejected, random instances are determined by their seed, and random Clifford circuits map Paulis to Paulis.",
  ["inputs"], "all hidden strings of 1-7 (9) bits, all Grover targets of 1-5 (7) bits, Fourier transforms of up to 5 (6) qubits on all inputs, iterative ones of up to 5 (6) on products of 4 states, phases in 64 (128) steps with 1-5 (7) bits, states of up to 3 qubits with amplitudes from 2-5 values, GHZ and W states of up to 6 (8) qubits, 40 (200) seeds",
  "tests compare some sizes by the size of their decision diagrams or the most probable outcome",
  ["src/algorithms/BernsteinVazirani.cpp", "src/algorithms/Grover.cpp", "src/algorithms/QFT.cpp", "src/algorithms/QPE.cpp", "src/algorithms/StatePreparation.cpp", "src/algorithms/GHZState.cpp", "src/algorithms/WState.cpp", "src/algorithms/RandomCliffordCircuit.cpp"],
  [dict(name="createBernsteinVazirani / createGrover / createQFT / createQPE and iterative forms", where="src/algorithms/"), dict(name="createStatePreparationCircuit", where="src/algorithms/StatePreparation.cpp")],
  ["h_alg.cpp"], ["ir", "opt", "alg"],
  [H("algBV", "1-7 (9) bits, four generators", ["bv"]), H("algGrover", "1-5 (7) bits", ["grover"]), H("algQFT", "0-5 (6) qubits", ["qft"]), H("algIterativeQFT", "1-5 (6) bits, 4 states per input", ["iterative qft"]),
   H("algQPE", "1-5 (7) bits", ["qpe"]), H("algStates", "1-6 (8) qubits", ["states"]), H("algPrepare", "0-3 qubits", ["prepared", "rejected"]), H("algPrepareArgs", "sizes 0-9", ["size"]), H("algRandom", "1-3 qubits, 40 (200) seeds, 6 generators", ["clifford", "random"])],
  [A_SEM, A_FP, "parameters are integers and members of finite grids, each decided on its own path; the circuits they give are executed exactly"])
