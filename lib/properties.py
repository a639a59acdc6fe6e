TECH = {"": "TLA+ specification (TLC): behaviours generated from the specification, replayed on the real library, every observation compared"}
NA = []
GEN = ("Random behaviours of the TLA+ abstract machine, generated by TLC (-simulate, seeded), are executed on the real library "
       "in several build configurations and every answer is compared with the answer the specification computes. ")

prop("P01", "Scalar evaluation returns the value of the expression",
     "Evaluating any scalar expression returns, up to rounding, the value its formula has for the current values of its variables and parameters. This holds for every operator and elementary function, for operands of every kind (variables, parameters, named and nested expressions, numbers on either side), for named expressions and for formulas evaluated directly.",
     ["programs", "inputs", "configurations"], "all formulas over the scalar operators, all operand kinds, all values in the domain, real and complex builds",
     TESTS + "no test varies operand kinds or nesting systematically, or complex values away from the real axis.",
     [S + "Expression.hpp", S + "CommonFunctions.hpp", S + "BinaryOps/", S + "UnaryOps/"],
     [("operator nodes evaluate their operands", S + "BinaryOps/*.hpp, UnaryOps/*.hpp: eval"), ("Expression evaluates its statements", "src/Scalar/Expression.cpp: eval")],
     ["CoolDiff::TensorR1::Eval"],
     note=GEN + "Every operator with every combination of operand kinds and ~100 nested shapes (quick; 943 shapes thorough), plus compiled random trees.")

prop("P02", "Forward-mode derivatives are exact",
     "The forward-mode derivative of any scalar expression with respect to any variable equals, up to rounding, the mathematical partial derivative at the current values wherever it exists. It is zero for variables the expression does not depend on, and vector and matrix forms agree entry by entry with the scalar form.",
     ["programs", "inputs", "configurations"], "all formulas, variables and points, real and complex builds",
     TESTS + "a derivative rule wrong for one operand kind, sign region or nesting is not sampled.",
     [S + "BinaryOps/", S + "UnaryOps/", S + "Expression.hpp", S + "CommonFunctions.hpp", "src/Scalar/Expression.cpp"],
     [("forward rules of the operators", S + "BinaryOps/*.hpp, UnaryOps/*.hpp: devalF")], ["CoolDiff::TensorR1::DevalF", "CoolDiff::TensorR2::DevalF(expression, variables)"],
     note=GEN)

prop("P03", "Reverse-mode derivatives are exact",
     "After preparing any scalar expression for reverse mode, the derivative read for any variable equals, up to rounding, the mathematical partial derivative at the current values wherever it exists, also when subexpressions are shared, and zero for variables the expression does not depend on. The Jacobian of a scalar expression lists these derivatives in the order of the given variables.",
     ["programs", "inputs", "configurations"], "all formulas including shared subexpressions, variables and points, real and complex builds",
     TESTS + "adjoint accumulation over shared subexpressions, repeated preparation and operand kinds is not covered.",
     [S + "BinaryOps/", S + "UnaryOps/", S + "Expression.hpp", S + "CommonFunctions.hpp", "src/Scalar/Expression.cpp"],
     [("reverse traversal and adjoint caches", S + "**: traverse, m_cache"), ("preparation", S + "CommonFunctions.hpp: PreComp, PreCompCache")],
     ["CoolDiff::TensorR1::DevalR", "CoolDiff::TensorR2::JacobianR", "CoolDiff::TensorR2::DevalR"],
     [("adjoint cache", "accumulated adjoint per variable", S + "IVariable.hpp: m_cache"), ("visited flags", "what the current pass has seen", S + "IVariable.hpp: m_visited")],
     note=GEN)

prop("P04", "Symbolic derivatives are expressions that denote the derivative",
     "The symbolic derivative of any expression with respect to any variable is an expression whose value equals the mathematical derivative for the values variables have when it is evaluated, now and after later assignments to variables. It can itself be evaluated, composed and differentiated again in every mode and to any order; symbolic and numeric Gradients, Jacobians and Hessians list the exact partial derivatives at the right positions.",
     ["programs", "histories", "inputs"], "all formulas, orders up to three and more, variable lists and later values of the variables",
     TESTS + "symbolic results are evaluated once at the point where they were taken.",
     [S + "BinaryOps/", S + "UnaryOps/", S + "Expression.hpp", S + "CommonFunctions.hpp", M + "CommonMatFunctions.hpp"],
     [("symbolic rules", S + "**: symEval, symDeval"), ("Hessians and gradients", M + "CommonMatFunctions.hpp, " + S + "CommonFunctions.hpp: HessianR, SymHessian, SymGradient")],
     ["TensorR1::SymDiff", "TensorR2::SymGradient", "TensorR2::SymHessian", "TensorR2::HessianR", "TensorR2::SymMatDiff"],
     note=GEN)

prop("P05", "Answers depend only on the current state, not on the history of queries",
     "Whatever sequence of assignments, evaluations and derivative queries of any mode, on any of the expressions, came before, every query answers as a freshly built program in the same state would. No query changes the value of a variable, parameter or expression, and no result is stale after an assignment.",
     ["histories", "programs"], "all interleavings of assignments to variables, parameters and expressions with queries of every mode over expressions that share subexpressions",
     TESTS + "no test interleaves queries and assignments over shared subexpressions.",
     [S + "IVariable.hpp", S + "Expression.hpp", S + "CommonFunctions.hpp", "src/Scalar/Expression.cpp"],
     [("visited flags and reset", S + "Expression.hpp: reset, resetImpl"), ("query entry points", S + "CommonFunctions.hpp")],
     ["TensorR1::Eval", "TensorR1::DevalF", "TensorR1::DevalR", "TensorR1::SymDiff"],
     [("visited flags", "node already evaluated in this pass", S + "IVariable.hpp"), ("adjoint caches", "adjoints of the last pass", S + "IVariable.hpp"), ("symbolic caches", "cached symbolic value and derivatives", S + "IVariable.hpp: mp_tmp, mp_dtmp")],
     note=GEN + "Histories of 30 actions over six expressions that share each other; additionally every history of a small instance is checked by an implementation-shaped model.")

prop("P06", "Assignments to an expression behave as sequential statements",
     "Assigning a formula that does not mention the expression replaces its meaning. Assigning a formula that mentions the expression itself uses the value it had before, so that a sequence of such assignments computes and differentiates like the same sequence of statements in a program, in every derivative mode.",
     ["programs", "histories"], "all sequences of plain and self-referring assignments, also through other expressions, interleaved with queries",
     TESTS + "the tests contain a handful of fixed recursive programs.",
     [S + "Expression.hpp", "src/Scalar/Expression.cpp"], [("statement list and self-reference test", S + "Expression.hpp: operator=, findMe")],
     ["TensorR1::Eval", "TensorR1::DevalF", "TensorR1::DevalR", "TensorR1::SymDiff"],
     [("statements", "the list of assigned formulas", S + "Expression.hpp: m_gh_vec")], note=GEN)

prop("P07", "Copies of variables, parameters and expressions share what they should",
     "A copy of a variable or parameter denotes the same quantity: a value assigned through either is seen by both and by all expressions that use either, and derivatives with respect to either agree. A copied expression follows its original; assigning a fresh variable or parameter separates again.",
     ["histories", "programs"], "all interleavings of copy construction, copy assignment, value assignment, re-targeting and queries",
     TESTS + "copying is not tested together with later assignments and derivatives.",
     [S + "Variable.hpp", S + "Parameter.hpp", S + "Expression.hpp", "src/Scalar/"], [("copy and assignment operators", "src/Scalar/Variable.cpp, Parameter.cpp, Expression.cpp")],
     ["TensorR1::Eval", "TensorR1::DevalF", "TensorR1::DevalR"], note=GEN)

MT = "The 47 tests use matrix expressions with fixed entries and sizes, each queried once; "
MX = M + "CommonMatFunctions.hpp"
MQ = ["TensorR2::Eval", "TensorR2::DevalF", "TensorR2::DevalR"]

prop("P08", "Matrix evaluation returns the value of the expression",
     "Evaluating any matrix expression whose sizes fit (sums, products, Hadamard products, negation, scalar-matrix operations, transpose, inverse, determinant, vec, elementwise functions, nested in any way) returns the matrix its formula has for the current entries of its operands, with the right size and every entry in its place. Operands may be matrices of variables, of numbers, of parameters, of scalar expressions, other matrix expressions and scalars of every kind.",
     ["programs", "inputs", "configurations"], "all formulas, operand kinds, sizes (square or not, down to 1x1) and entries, real and complex builds",
     MT + "sizes, operand kinds and nesting are not varied systematically.",
     [M + "BinaryOps/", M + "UnaryOps/", M + "MatrixHandler/", MX, M + "MatrixInterface/"],
     [("operator nodes evaluate their operands and call a handler", M + "BinaryOps/*.hpp, UnaryOps/*.hpp: eval"), ("handlers do the arithmetic", M + "MatrixHandler/")],
     ["TensorR2::Eval"], note=GEN + "About 280 shapes (quick; 500 thorough) over sizes 1, a, b chosen per behaviour, with assigned expressions nested in each other.")

prop("P09", "Forward-mode matrix derivatives are exact and laid out as documented",
     "The forward-mode derivative of any matrix expression with respect to any matrix of variables is the block matrix whose block (i,j) holds the partial derivatives of entry (i,j) by every entry of that matrix, equal up to rounding to the mathematical ones at the current values. It is zero, with the full size, for variables the expression does not depend on, and matrices holding copies of the same variables are differentiated by those variables.",
     ["programs", "inputs", "configurations"], "all formulas, operand kinds, sizes and entries, real and complex builds",
     MT + "the Kronecker layout for non-square operands, operand kinds and nested rules are not covered.",
     [M + "BinaryOps/", M + "UnaryOps/", M + "MatrixHandler/", MX, M + "MatrixInterface/"],
     [("forward rules", M + "BinaryOps/*.hpp, UnaryOps/*.hpp: devalF"), ("leaves", M + "MatrixInterface/MatrixUtils.ipp: setDevalF")],
     ["TensorR2::DevalF"], note=GEN)

prop("P10", "Reverse-mode matrix derivatives are exact",
     "After preparing a matrix expression with a 1x1 result for reverse mode, the derivative read for any matrix of variables or any scalar variable equals, up to rounding, the mathematical gradient at the current values, in the shape of that matrix, also when subexpressions are shared. It is zero for variables the expression does not depend on.",
     ["programs", "inputs", "configurations"], "all formulas with a 1x1 result, sizes and entries, real and complex builds",
     MT + "adjoints of shared and nested matrix subexpressions are not covered.",
     [M + "BinaryOps/", M + "UnaryOps/", M + "MatrixHandler/", MX, M + "MatrixInterface/"],
     [("adjoint propagation", M + "BinaryOps/*.hpp, UnaryOps/*.hpp: traverse, m_cache"), ("preparation", MX + ": PreComp")],
     ["TensorR2::PreComp", "TensorR2::DevalR"],
     [("adjoint cache", "accumulated adjoint per matrix", M + "IMatrix.hpp: m_cache")], note=GEN)

prop("P11", "The matrix function library computes its documented functions",
     "Row, column and total sums, trace, Frobenius norm, softmax, broadcasting, concatenation, right division, elementwise division, integer powers, truncated matrix exponential and logarithm evaluate to their mathematical definition for every operand whose size fits. Their forward derivatives, and reverse derivatives of scalar results built from them, equal up to rounding the mathematical ones.",
     ["programs", "inputs", "configurations"], "all operands, sizes, nestings and entries, real and complex builds",
     MT + "several of these functions are not tested at all, none for sizes and nesting.",
     [MX, M + "CommonMatFunctions.hpp", M + "BinaryOps/", M + "UnaryOps/"],
     [("composite functions", MX + ": Sigma, SoftMax, trace, MatrixExp, ...")], MQ, note=GEN)

prop("P12", "Convolution and its derivatives follow the definition",
     "The convolution of two matrix expressions with any stride and padding in both directions evaluates to the sliding sum of products over the zero-padded first operand, in the size the definition gives. Its forward and reverse derivatives by either operand, also nested in other operators or other convolutions, equal up to rounding the mathematical ones.",
     ["programs", "inputs", "configurations"], "all operands, sizes, strides, paddings and entries, real and complex builds",
     MT + "a few fixed sizes, strides and paddings are tested.",
     [M + "BinaryOps/GenericMatConv.hpp", M + "MatrixHandler/", MX], [("convolution node", M + "BinaryOps/: eval, devalF, traverse")], MQ, note=GEN)

prop("P13", "Matrices behave as values: access, copies, moves, blocks and views",
     "Reading, writing, copying, moving, reshaping, padding, and reading or writing blocks, rows and columns of matrices do what they say to the matrices they name and change no other matrix, whatever the sizes and the history, and whether a result matrix is new or reused. A matrix built on a user's array shares it; copies own their entries; copies of matrices of variables hold the same variables, also for derivatives.",
     ["histories", "inputs"], "all interleavings of the container operations over several matrices, sizes and entries, with expressions over these matrices",
     MT + "container operations are tested one at a time on fresh objects.",
     [M + "Matrix.hpp", M + "MatrixInterface/", "include/MemoryManager/"],
     [("container operations", M + "MatrixInterface/*.ipp")], ["Matrix::operator()", "Matrix::getBlockMat", "Matrix::setBlockMat", "Matrix::pad", "TensorR2::Eval", "TensorR2::DevalF"],
     [("buffers", "allocator, size and ownership of a matrix", M + "Matrix.hpp: mp_allocator, m_rows, m_cols, m_dest")], note=GEN + "Specification MatStore; also replayed under AddressSanitizer and UBSan.")

prop("P14", "Every matrix backend computes the same results",
     "Switching at run time between the Eigen and the naive handlers changes no answer beyond rounding, for values and derivatives of every expression both can compute, whatever was evaluated before under the other handler.",
     ["configurations", "histories", "programs"], "all formulas over operators both handlers implement, all interleavings of switches and queries",
     MT + "the naive handlers are exercised by a few fixed expressions in one order.",
     [M + "MatrixHandler/"], [("handler selection", M + "MatrixHandler/; TensorR2 handler type lists")], MQ, note=GEN)

prop("P15", "Results and constants survive later queries",
     "A result matrix returned by a query keeps its contents while other expressions are evaluated or differentiated. Queries and matrix operations change no operand, and the constant matrices (identity, ones, zeros) hold their definition for every size after any history.",
     ["histories", "programs"], "all histories of queries over several expressions, with earlier results still referenced",
     MT + "no test looks at a result, an operand or a constant matrix after a later query.",
     [M + "CommonMatFunctions.hpp", M + "MatrixBasics.hpp", M + "MatrixInterface/"], [("constant matrix registry", "TensorR2::MatrixBasics::Eye, Ones, Zeros")], MQ, note=GEN)

prop("P16", "Matrix answers depend only on the current state, not on the history",
     "Whatever sequence of assignments of entries, assignments of matrix expressions (plain, or mentioning the expression itself, which then stands for its previous meaning) and queries of any mode came before, every matrix query answers as a freshly built program in the same state would. No result is stale after an assignment to an entry, a parameter, a scalar or an inner expression.",
     ["histories", "programs"], "all interleavings of assignments and queries of every mode over matrix expressions that share subexpressions",
     MT + "no test interleaves assignments and queries of different modes and sizes.",
     [M + "Matrix.hpp", M + "MatrixInterface/", MX], [("visited flags, reset, result buffers", M + "MatrixInterface/: reset, eval, devalF; MatrixPool")], MQ,
     [("result buffers", "value and derivative of a node, reused across queries", M + "**: mp_result, mp_dresult"), ("visited flags", "node evaluated in this pass", M + "**: m_visited, m_eval, m_devalf")], note=GEN)

prop("P18", "All build configurations compute the same semantics",
     "Real and complex, single and double precision, and sequential and parallel builds give, within the precision of the scalar type, the same values and derivatives for every scalar and matrix expression, including the functions only real builds have (ReLU, leaky ReLU, absolute value).",
     ["configurations", "programs", "inputs"], "scalar types float, double, complex float, complex double; execution policies; all expressions",
     TESTS + "and are built with one scalar type and one execution policy.",
     ["include/CommonHeader.hpp", S, M], [("scalar type and execution policy", "include/CommonHeader.hpp: COOLDIFF_SCALAR_TYPE, EXECUTION_*")],
     ["TensorR1::Eval", "TensorR1::DevalF", "TensorR1::DevalR"] + MQ, note=GEN + "Configurations dr, fr, fc, np here; dc and dr in every other check.")

prop("P19", "Scalar and matrix expressions compose",
     "Scalar variables, parameters and expressions used as scalar operands of matrix operators or as entries of matrices take part in values and derivatives as their formula says: matrix values follow their current values, and forward derivatives by a matrix holding those scalar variables and reverse derivatives by the scalar variables equal up to rounding the mathematical ones.",
     ["programs", "histories", "inputs"], "all scalar-matrix operators, scalar operand kinds, matrices of scalar expressions, nestings and histories",
     MT + "differentiating matrix expressions by scalar variables is not tested beyond fixed examples.",
     [M + "UnaryOps/", M + "MatrixInterface/", S + "Expression.hpp"], [("scalar-matrix nodes", M + "UnaryOps/, MatOperators.hpp"), ("entries that are expressions", M + "MatrixInterface/MatrixUtils.ipp: setEval, setDevalF")], MQ, note=GEN)

prop("P17", "Plain C++ numbers mix with expressions of any scalar type",
     "An integer or real literal combined with a variable, parameter or expression by any arithmetic operator, on either side, acts as that number: values and derivatives equal those of the formula with the number converted to the scalar type. This holds in complex builds as in real ones.",
     ["programs", "configurations"], "all operators, sides, literal values and operand kinds, real and complex builds",
     TESTS + "the tests are built in one configuration only.",
     [S + "BinaryOps/", "include/CommonHeader.hpp"], [("operator overloads for numbers", S + "BinaryOps/*.hpp: operator templates")],
     ["TensorR1::Eval", "TensorR1::DevalF", "TensorR1::DevalR"], note=GEN)

prop("P20", "User-defined operators behave as built-in ones",
     "A unary or binary scalar operator defined by a user from a function and its derivative functions evaluates to that function and differentiates with those derivatives in forward and reverse mode, wherever it is nested and however it is combined with other operators and shared subexpressions.",
     ["programs", "histories", "inputs"], "all formulas over user-defined and built-in operators and all query histories",
     TESTS + "one fixed formula per predefined operator is tested.",
     [S + "BinaryOps/GenericScalarBinary.hpp", S + "UnaryOps/GenericScalarUnary.hpp"], [("operator templates", "UNARY_SCALAR_OPERATOR, BINARY_SCALAR_OPERATOR")],
     ["TensorR1::Eval", "TensorR1::DevalF", "TensorR1::DevalR"], note=GEN)

prop("P21", "Expression programs are memory safe",
     "Programs that build, assign, copy, move and destroy matrices and expressions and query them in any order, within the documented usage, read and write only memory that is alive and theirs, and execute no undefined arithmetic, whatever the sizes and the history.",
     ["histories", "programs", "inputs"], "all interleavings of construction, copying, moving, destruction, container operations, assignments and queries",
     TESTS + "and without a sanitizer.",
     ["include/", "src/"], [("memory management", "include/MemoryManager/; Matrix allocators; nodes owned by the expression arena")], ["AddressSanitizer and UBSan reports during replay; the observations themselves"],
     note="Behaviours of the TLA+ specifications are replayed on a build with AddressSanitizer and UBSan.")
