TEST = "The 8 runnable tests only cover the multiple-precision matrix class on a few 5x5 matrices of doubles; "

prop('C01', "Exact matrix sum, difference and product",
	"The exact sum, difference and product of two real multiple-precision matrices (or matrices of doubles), through the functions or through the matrix class, equal the results of rational arithmetic bit for bit, for any magnitudes, any conformable (also rectangular) shapes and whatever the working precision. "
	"Operands of non conformable sizes, and operands that are not real matrices, are rejected with a ValueError, non-finite entries propagate entry-wise without failing, and neither the operands nor the working precision are modified.",
	['inputs'], "all pairs of finite dyadic matrices, all shapes, all working precisions; NaN/infinite entries; all non conformable shapes",
	TEST + "they multiply by the identity only, never with rectangular operands, cancellations, large exponents or low precision.",
	['fixif/func_aux/mpf_matrix_fadd.py', 'fixif/func_aux/mpf_matrix_fsub.py', 'fixif/func_aux/mpf_matrix_fmul.py', 'fixif/func_aux/MPFMatrix.py'],
	[('mpf_matrix_fadd/fsub/fmul', 'fixif/func_aux/mpf_matrix_f*.py'), ('MPFMatrix.add_exact/sub_exact/mul_exact', 'fixif/func_aux/MPFMatrix.py')],
	technique="property-based testing (Hypothesis) against exact rational arithmetic")

prop('C02', "Exact inverse of unit lower-triangular matrices",
	"For every square real matrix that is lower triangular with ones on its diagonal, the exact inverse X satisfies L.X = X.L = I exactly (rational arithmetic), whatever the working precision, and L is left unchanged. "
	"A matrix that is not square, has a diagonal entry different from one or a non-zero entry above the diagonal (however small the difference) is rejected with a ValueError.",
	['inputs'], "all unit lower-triangular dyadic matrices (any size, magnitude, working precision) and all matrices that violate one condition by a single entry",
	TEST + "one random 5x5 inverse is compared with a tolerance, and no rejection is tested.",
	['fixif/func_aux/mpf_matrix_lt_inverse.py', 'fixif/func_aux/MPFMatrix.py'],
	[('mpf_matrix_lt_inverse', 'fixif/func_aux/mpf_matrix_lt_inverse.py'), ('MPFMatrix.inv_lowtr', 'fixif/func_aux/MPFMatrix.py')],
	technique="property-based testing (Hypothesis) against exact rational arithmetic")

prop('C03', "Lossless conversions of numbers and matrices",
	"Conversions from doubles to multiple precision are exact and come back bit for bit; conversions from multiple precision to doubles give the nearest double; the integer representation (y, n) of a number satisfies a = y.2^n exactly, entry by entry for matrices, and NaN or infinities are rejected. "
	"Exports to lists of Sollya numbers are exact and ordered row by row, hexadecimal text files read back bit for bit and decimal text files to the displayed precision, for any (rectangular) shape; objects of another type are refused.",
	['inputs'], "all finite doubles (subnormals included), all dyadic multiple-precision numbers, all matrix shapes",
	TEST + "only the conversion of a 5x5 matrix of doubles to numpy is checked.",
	['fixif/func_aux/python2mpf_matrix.py', 'fixif/func_aux/mpf_to_numpy.py', 'fixif/func_aux/mpf_get_representation.py', 'fixif/func_aux/mpf_matrix_get_representation.py', 'fixif/func_aux/mpf_matrix_to_sollya.py', 'fixif/func_aux/sollya_matrix_to_numpy.py', 'fixif/func_aux/write_matrix_hex.py', 'fixif/func_aux/write_matrix_mpf.py', 'fixif/func_aux/MPFMatrix.py'],
	[('python2mpf_matrix / mpf_to_numpy', 'fixif/func_aux'), ('mpf_get_representation', 'fixif/func_aux/mpf_get_representation.py'), ('MPFMatrix.to_numpy / get_int_representation / to_sollya', 'fixif/func_aux/MPFMatrix.py')],
	technique="property-based testing (Hypothesis): round trips and exact rational oracle", note="Sollya is not installed: the exports are checked with a stand-in for its number type.")

prop('C04', "Products of multiple-precision polynomials",
	"The product of two real or complex multiple-precision polynomials is their convolution, and the product of the monomials (z + p_i), for all i or for all i but one given index, has the coefficients of that polynomial, highest degree first, up to the working precision and for any number of factors (including one). "
	"Taking the real part of a complex matrix keeps every real part, at its place, exactly.",
	['inputs'], "all lists of real or complex coefficients, degrees, left-out index, working precision",
	"No runnable test covers these functions.",
	['fixif/func_aux/mpf_poly_mult.py', 'fixif/func_aux/mp_poly_product.py', 'fixif/func_aux/mpc_get_real.py'],
	[('mpf_poly_mult', 'fixif/func_aux/mpf_poly_mult.py'), ('mp_poly_product', 'fixif/func_aux/mp_poly_product.py')],
	technique="property-based testing (Hypothesis) against exact rational convolution")

prop('C05', "Multiple-precision matrices behave as matrix values",
	"The operators +, - and * of the multiple-precision matrix class accept another such matrix, an mpmath matrix, a numpy matrix or a numpy array, and give the matrix sum, difference and product to the working precision, with the right shape and without modifying their operands; unknown types and non conformable sizes raise ValueError. "
	"Equality holds exactly when all the entries are exactly equal, closeness exactly when all entries are within the given bound (absolutely or relatively), and a matrix object shares no data with the matrix it was built from.",
	['inputs'], "all conformable operands of all accepted types and all pairs of matrices that differ by zero, one or two entries",
	TEST + "operators are only tested with zeros and identities, and comparisons only on equal matrices.",
	['fixif/func_aux/MPFMatrix.py'], [('MPFMatrix', 'fixif/func_aux/MPFMatrix.py')],
	technique="property-based testing (Hypothesis) against exact rational arithmetic")

LTI = 'fixif/LTI/'

prop('C06', "Transfer functions: construction and algebra",
	"A transfer function built from any numerator and denominator (lists, arrays or matrices, any lengths, any non-null leading denominator coefficient) represents exactly that ratio: its impulse response is the one of the recurrence, its leading denominator coefficient is one and both polynomials have the length order+1. "
	"The sum, difference and product (also with constants, on both sides) of transfer functions have the sum, difference and convolution of the impulse responses, including strictly proper ones; invalid operands and constructions raise ValueError, and closeness holds exactly when coefficients are close.",
	['inputs'], "all pairs of numerators/denominators (leading zeros, different lengths, non normalised), all operand types",
	"The repository's transfer-function tests do not run here (optional packages are missing) and compare a few random same-length filters.",
	[LTI + 'dTF.py'], [('dTF', LTI + 'dTF.py')],
	technique="property-based testing (Hypothesis): metamorphic relations on exact impulse responses (rational arithmetic)")

prop('C07', "Transfer function and state-space conversions keep the filter",
	"Converting a transfer function into a state-space (each of the documented forms) and a single-input single-output state-space into a transfer function, or there and back, keeps the impulse response (up to rounding), the dimensions and the order; the controllable and observable forms have the canonical matrices of their name; unknown forms and multi-variable systems are rejected with ValueError. "
	"The same holds for the conversions of the multiple-precision state-spaces and transfer functions at the working precision.",
	['inputs'], "all proper transfer functions (any lengths of numerator and denominator) and all single-input single-output state-spaces",
	"No runnable test covers the conversions; the others use a handful of random stable filters.",
	[LTI + 'dTF.py', LTI + 'dSS.py', LTI + 'dTFmp.py', LTI + 'dSSmp.py'], [('dTF.to_dSS', LTI + 'dTF.py'), ('dSS.to_dTF', LTI + 'dSS.py'), ('dSSmp.to_dTFmp', LTI + 'dSSmp.py'), ('dTFmp.to_dSSmp', LTI + 'dTFmp.py')],
	technique="property-based testing (Hypothesis): differential on exact impulse responses")

prop('C08', "State-space interconnections, selections and simplifications",
	"The sum, difference, product by a constant, series connection and selection of inputs/outputs of state-spaces have the corresponding impulse response (sum, difference, scaling, convolution, sub-matrix) for any conformable multi-variable systems, and do not modify their operands. "
	"Non conformable connections and inconsistent matrices raise ValueError; a change of coordinates keeps the impulse response and changes the matrices as documented; simplification keeps the impulse response when it removes undriven states; closeness of two systems holds exactly when their first responses are close.",
	['inputs'], "all pairs of multi-variable state-spaces, all slices, all mismatched dimensions",
	"No runnable test covers state-spaces; the others use square random systems.",
	[LTI + 'dSS.py'], [('dSS.__add__/__sub__/__mul__/__getitem__', LTI + 'dSS.py'), ('dSS.simplify', LTI + 'dSS.py')],
	technique="property-based testing (Hypothesis): metamorphic relations on exact impulse responses")

prop('C09', "Gramians, H2 norm, WCPG and DC gain",
	"For every stable state-space, the controllability and observability Gramians are the solutions of their Lyapunov equations whatever the solver, the H2 norm is the square root of the energy of the impulse response, the worst-case peak gain is the sum of the absolute values of the impulse response, and the DC gain is the sum of the response. "
	"They stay so after any sequence of changes of coordinates and repeated accesses (cached values are never stale).",
	['inputs', 'histories'], "all stable multi-variable state-spaces and histories of similarity transformations and readings",
	"The caches and the numerical solvers can only be confronted with independent sums over many systems and histories.",
	[LTI + 'dSS.py'], [('dSS.Wo / dSS.Wc / H2norm / WCPG / DC_gain / similarity', LTI + 'dSS.py')],
	technique="stateful property-based testing (Hypothesis) against truncated sums of the impulse response", note="The external WCPG library is not installed: a stand-in computes the sum; what is checked is how FiXiF calls it and what it gives back.")

prop('C10', "Multiple-precision state-spaces: exact sums and simulations",
	"Sums and differences of multiple-precision state-spaces, and exact simulations, are exact (bit for bit in rational arithmetic) for any magnitudes, dimensions, initial states and working precisions; simulations in double precision or rounded to a least significant bit round each new state as documented. "
	"Conversions to double-precision state-spaces round each coefficient to the nearest, the worst-case peak gain is within the absolute error asked, invalid sizes or types raise ValueError, and the working precision is never changed.",
	['inputs'], "all multiple-precision or double state-spaces, initial states, input sequences and working precisions",
	"No runnable test covers them.",
	[LTI + 'dSSmp.py'], [('dSSmp', LTI + 'dSSmp.py')],
	technique="property-based testing (Hypothesis) against exact rational simulation", note="Sollya is replaced by a stand-in in the rounded simulation.")

prop('C11', "Multiple-precision transfer functions",
	"A multiple-precision transfer function keeps the ratio it is built from (numerator and denominator of any lengths, normalised by the leading denominator coefficient, inputs not modified); its conversion to a state-space is exact whatever the working precision; from a state-space it has the same impulse response. Invalid constructions raise ValueError.",
	['inputs'], "all coefficient lists of doubles or multiple-precision numbers, any lengths and working precisions",
	"No runnable test covers them.",
	[LTI + 'dTFmp.py', LTI + 'dSSmp.py'], [('dTFmp', LTI + 'dTFmp.py')],
	technique="property-based testing (Hypothesis) against exact rational arithmetic")

prop('C12', "Filters: conversions, stability, names and random generators",
	"A filter built from a transfer function, numerator and denominator, or a state-space gives the same behaviour whichever representation is asked, tells correctly its dimensions and stability, and rejects incomplete or contradictory definitions with ValueError. "
	"Random filters, transfer functions and state-spaces have the sizes and orders asked, are stable when promised, and are reproduced by their seed or name.",
	['inputs', 'configurations'], "all filter definitions; all sizes, ranges and seeds of the random generators",
	"Tests draw a few random filters without checking orders, parities and reproducibility.",
	[LTI + 'Filter.py', LTI + 'Butter.py', LTI + 'Elliptic.py', LTI + 'dSS.py', LTI + 'dTF.py', LTI + 'dTFmp.py'], [('Filter', LTI + 'Filter.py'), ('random_* / iter_random_*', LTI)],
	technique="property-based testing (Hypothesis)")

prop('C13', "Butterworth and elliptic filters meet their specification",
	"Every Butterworth or elliptic filter built is stable, has the order and type asked, and its frequency response has the half-power cut-off (Butterworth) or the pass-band ripple and stop-band attenuation (elliptic) of its specification, for low-pass, high-pass, band-pass and band-stop types.",
	['inputs'], "all orders, types and cut-off frequencies of the designs",
	"The designs are only sampled by tests that need the Matlab engine or that do not run.",
	[LTI + 'Butter.py', LTI + 'Elliptic.py'], [('Butter', LTI + 'Butter.py'), ('Elliptic', LTI + 'Elliptic.py')],
	technique="property-based testing (Hypothesis): frequency response computed independently")

prop('C14', "Frequency specifications (Gabarit) and their designs",
	"A frequency specification keeps its bands in order with their types, gains and normalised frequencies, rejects inconsistent definitions with ValueError, and the transfer function designed from it (with scipy, or with Matlab from the parameters given to it) is stable and inside the pass-band and stop-band limits of the specification.",
	['inputs'], "all low-pass, high-pass, band-pass and band-stop specifications",
	"No runnable test covers specifications.",
	[LTI + 'Gabarit.py'], [('Gabarit', LTI + 'Gabarit.py')],
	technique="property-based testing (Hypothesis): frequency response computed independently")

S_ = 'fixif/SIF/'
prop('C15', "SIF: input/output behaviour is the one of its implicit equations",
	"For every specialized implicit form (J, K, L, M, N, P, Q, R, S) the simulation, the associated state-space (AZ, BZ, CZ, DZ), the transfer function and the exact multiple-precision state-space describe the behaviour of the equations J.t = M.x + N.u, x+ = K.t + P.x + Q.u, y = L.t + R.x + S.u; the exact one is exact bit for bit. "
	"The matrices are given back as given, inconsistent dimensions are rejected with a ValueError, the input matrices are not aliased, and generated worst-case inputs are bounded and reach the largest output.",
	['inputs'], "all dimensions (l possibly 0) and coefficients of the nine matrices, all input sequences",
	"No runnable test covers the SIF.",
	[S_ + 'SIF.py'], [('SIF', S_ + 'SIF.py')],
	technique="property-based testing (Hypothesis) against exact rational simulation of the implicit equations")

prop('C16', "SIF: everything derived stays consistent after any modification",
	"After any sequence of assignments of the matrices Z, J to S, dZ, dJ to dS, interleaved with readings, everything derived from them (Z and its blocks, AZ to DZ, inverse of J, Gramians, auxiliary systems, sensitivities, number of operations, simulation) is the same as for a new SIF built from the current matrices, and the matrices read are the ones last assigned.",
	['histories'], "all sequences of assignments and readings",
	"Stale caches only show after particular orders of readings and assignments.",
	[S_ + 'SIF.py', S_ + 'SIF_sensibility.py'], [('setters of SIF', S_ + 'SIF.py'), ('Hu / Hepsilon / Hzeta caches', S_ + 'SIF.py')],
	technique="stateful (model-based) property-based testing with Hypothesis: history versus fresh object")

prop('C17', "SIF: internal-variable and error systems",
	"The system from the inputs to the internal variables (Hu, Hzeta) has as outputs the intermediate variables, states and outputs that the algorithm computes; the system from the round-off errors to the outputs (Hepsilon and the error SIF) has as output the difference between the outputs computed with errors added on each line and without errors.",
	['inputs'], "all SIF, input sequences and error sequences",
	"No runnable test covers them.",
	[S_ + 'SIF.py'], [('SIF.Hu / Hzeta / Hepsilon / computeDeltaSIF', S_ + 'SIF.py')],
	technique="property-based testing (Hypothesis) against exact rational simulation with injected errors")

prop('C18', "Coefficient sensitivities of transfer function and poles",
	"The transfer-function sensitivity of every coefficient is the L2 norm of the derivative of the impulse response with respect to that coefficient (weighted by dZ: null for exactly represented coefficients) and the measure is the sum of their squares; the pole sensitivities are the derivatives of the poles (or of their moduli), combined in the measure over the non trivial coefficients.",
	['inputs'], "all stable SIF, multi-variable included, and all their coefficients",
	"No runnable test covers them; formulas are only comparable with derivatives computed independently.",
	[S_ + 'SIF_sensibility.py'], [('dTFsensitivity / poleSensitivity', S_ + 'SIF_sensibility.py')],
	technique="property-based testing (Hypothesis) against complex-step and high-precision differentiation")

prop('C19', "Trivial coefficients, operation counts and matrix displays",
	"A coefficient is trivial exactly when it is null or a power of two up to sign and relative threshold; the numbers of multiplications and additions of a SIF are the ones of its equations; the TikZ and LaTeX displays show every non-null coefficient at its place with its right symbol or value.",
	['inputs'], "all SIF and all values around powers of two",
	"No runnable test covers them.",
	[S_ + 'SIF.py'], [('isTrivial / nbOp / getTiKZSparseMatrix / getZtpmatrixLaTeX', S_ + 'SIF.py')],
	technique="property-based testing (Hypothesis): parsing of the texts produced and counting model")

T_ = 'fixif/Structures/'
prop('C20', "Every structure realizes the filter it is given",
	"Each realization structure (direct forms I and II and transposed, state-spaces, rho direct form II transposed, LGS, LCW, LWDF), with each of its options, gives for every filter it accepts a realization whose input/output behaviour is the one of the filter, with unit lower-triangular J, consistent dimensions and variable names (the surnames of the inputs, outputs and states are the ones of the variables); a filter that a structure does not accept is refused.",
	['inputs', 'configurations'], "all accepted filters, structures and options",
	"The tests of structures do not run here and compare a few random filters.",
	[T_ + 'DirectForms', T_ + 'State_Space', T_ + 'rhoDFIIt', T_ + 'LGS_LCW', T_ + 'LWDF', T_ + 'Structure.py'], [('make* of each structure', T_)],
	technique="property-based testing (Hypothesis): differential on impulse responses", note="slycot (balanced state-spaces) and the Matlab engine (LWDF) are replaced by stand-ins: what is checked is how FiXiF calls them and uses their results.")

prop('C22', "rho direct form II transposed: operators and l2 scaling",
	"The rho direct form II transposed uses the gamma and Delta asked: its states follow the operators (z - gamma_i)/Delta_i, its polynomial coefficients are the ones of the filter in that basis, and the automatic scaling gives unit (or power-of-two relaxed) l2 norms of the transfer functions from the input to the states.",
	['inputs', 'configurations'], "all filters, all gamma and Delta, all options of scaling",
	"No runnable test covers it.",
	[T_ + 'rhoDFIIt'], [('makeRhoDFIIt', T_ + 'rhoDFIIt/rhoDFIIt.py')],
	technique="property-based testing (Hypothesis) against an independent model of the operators")

prop('C23', "Algorithm texts compute the realization",
	"The algorithm text produced for a realization, executed line by line as pseudo-code, computes the outputs of the realization for every input sequence, whatever the options; the LaTeX algorithm has the same instructions.",
	['programs', 'inputs'], "all realizations (structures, names, options) and input sequences",
	"Tests only check that texts are produced.",
	[S_ + 'Realization_algorithms.py', 'fixif/SoP'], [('algorithmTxt / algorithmLaTeX', S_ + 'Realization_algorithms.py')],
	technique="property-based testing (Hypothesis): interpretation of the text produced versus simulation")

prop('C24', "Generated C code computes the realization",
	"The C code generated in double precision for a realization compiles, and running it gives the outputs of the simulation of that realization (and not of another one compiled before), for every number of inputs, outputs and states.",
	['programs', 'inputs', 'histories'], "all realizations and input sequences, sequences of realizations in the same process",
	"Tests run a few single-variable filters.",
	[S_ + 'Realization_implementation.py', S_ + 'templates'], [('implementCdouble / runCdouble', S_ + 'Realization_implementation.py')],
	technique="property-based testing (Hypothesis): differential between compiled code and simulation")

prop('C25', "Variable names and sum-of-products texts",
	"Names of variables are distinct, follow the surnames, indexes and shifts asked, and the text of a sum of products, evaluated as an expression, is the sum of the products of the non-null coefficients by their variables. "
	"The fixed-point formats of a sum of products hold every product, its drawing shows the formats in the order asked, and inconsistent arguments are rejected.",
	['inputs'], "all coefficients, variable lists and formats",
	"No runnable test covers them.",
	['fixif/SoP/SoP.py', 'fixif/SoP/VarName.py', 'fixif/SoP/FxPSoP.py'], [('SoP.toAlgoStr', 'fixif/SoP/SoP.py'), ('generateNames', 'fixif/SoP/VarName.py')],
	technique="property-based testing (Hypothesis): evaluation of the text produced")

prop('C26', "Fixed-point formats: no overflow and error budget",
	"The most significant bit positions computed for inputs bounded by the given bounds are large enough for every internal variable of the algorithm and not larger than needed by the worst-case peak gain; the word-length thresholds computed tell exactly from which word-length these positions are representable; the least significant bits and the word-lengths computed (uniform or per variable) bring the worst-case output error under the bound asked without being larger than needed, and the optimization problem written in the AMPL data file carries exactly these data.",
	['inputs'], "all stable realizations, input bounds and error bounds",
	"No runnable test covers them.",
	[S_ + 'Realization_FxP.py', S_ + 'templates'], [('R_FxP', S_ + 'Realization_FxP.py')],
	technique="property-based testing (Hypothesis) against worst-case gains computed independently and adversarial inputs")

prop('C27', "Quantized realizations and quantization-error systems",
	"Quantizing a realization gives a new realization whose coefficients are the fixed-point roundings of the original ones on the word-length asked (the original being unchanged, and everything derived recomputed); the error SIF built for given quantized coefficients outputs exactly the difference between the exact and quantized outputs plus the propagated round-off errors.",
	['inputs'], "all realizations and word-lengths, input and error sequences",
	"No runnable test covers them.",
	[S_ + 'Realization.py', S_ + 'SIF_tilde_error.py'], [('Realization.quantize', S_ + 'Realization.py'), ('SIFH_to_SIFHstar', S_ + 'SIF_tilde_error.py')],
	technique="property-based testing (Hypothesis) against exact rational simulation", note="The fixed-point constant package is replaced by a stand-in.")

prop('C28', "Simulink diagrams are imported as the SIF they describe",
	"The realization imported from a Simulink diagram made of inputs, outputs, gains, sums, delays and (nested) subsystems computes, for every input sequence, the outputs of the diagram, its inputs and outputs being in the order of the port numbers, whatever the order in which blocks and lines are written, however the blocks are grouped in subsystems and the sums are chained, and even if a block is used several times in a sum; a diagram with an algebraic loop is rejected rather than imported as something else.",
	['inputs', 'histories'], "all block diagrams of the supported blocks (a gain does not feed a gain directly: documented limit), all input sequences",
	"One sample diagram is imported (by a test that cannot run here), without comparing behaviours.",
	[T_ + 'Simulink'], [('importSimulink', T_ + 'Simulink')],
	technique="property-based testing (Hypothesis): generated diagrams versus direct simulation of the diagram")

prop('C31', "Registry of structures and iteration over realizations",
	"Iterating over the structures and their options for a filter yields every accepted combination exactly once, each realization named after its structure and options and realizing the filter; a structure not registered is rejected with ValueError, and a realization asked by name is the one of that structure, including the structures registered by the user.",
	['configurations'], "all filters, structures and options",
	"No runnable test covers it.",
	[T_ + 'Structure.py'], [('Structure / iterAllRealizations', T_ + 'Structure.py')],
	technique="property-based testing (Hypothesis) against an enumeration of the declared options")


prop('C29', "Verification of a transfer function against a specification",
	"The verification of a transfer function against a frequency specification succeeds exactly when the modulus of its frequency response is, in every band, inside the limits of the band widened (or narrowed when it is negative) by the margin given. "
	"The minimum margin found is the initial one when it is enough, and otherwise makes the verification succeed without being larger than needed; the polynomials given to Sollya have exactly the coefficients of the transfer function (of doubles or of multiple-precision numbers); without Sollya the verifications are refused; nothing is modified.",
	['inputs', 'configurations'], "all specifications (any number of bands, sampling frequencies), all transfer functions and margins",
	"The tests need Sollya and Matlab (not installed) and only use four specifications.",
	[LTI + 'Gabarit.py', LTI + 'dTF.py', LTI + 'dTFmp.py', LTI + 'gabarit.sol'], [('Gabarit.check_dTF / findMinimumMargin / Band.sollyaConstraint', LTI + 'Gabarit.py'), ('to_Sollya', LTI + 'dTF.py'), ('to_Sollya (multiple precision)', LTI + 'dTFmp.py')],
	technique="property-based testing (Hypothesis) against an independent evaluation of the frequency response", note="Sollya is not installed: a stand-in provides its numbers and polynomials, and the procedure of gabarit.sol that decides on the unit circle; the script itself is not executed.")

prop('C30', "Plots show the frequency response and the specification",
	"The Bode diagram of a transfer function shows, on the frequencies asked, the magnitude in decibels and the phase of its frequency response; the plot of a frequency specification shows each band at its frequencies and gains, and the modulus of the transfer function given, in decibels or not, at the right frequencies.",
	['inputs', 'configurations'], "all transfer functions and specifications, with or without a sampling frequency",
	"No test looks at the figures.",
	[LTI + 'dTF.py', LTI + 'Gabarit.py'], [('dTF.bode', LTI + 'dTF.py'), ('Gabarit.plot / Band.Rectangle', LTI + 'Gabarit.py')],
	technique="property-based testing (Hypothesis): the figure is read back and compared with an independent evaluation")

prop('C32', "Displays of objects show what they contain",
	"The texts that display state-spaces, SIFs, realizations, filters, frequency specifications and multiple-precision matrices show their names, dimensions, all their values (to the displayed precision, each at its place) and bands, for any size and values, and displaying an object does not modify it.",
	['inputs'], "all state-spaces, SIFs, realizations, filter names, specifications, multiple-precision matrices",
	"No runnable test reads the texts.",
	[LTI + 'dSS.py', LTI + 'Gabarit.py', LTI + 'Filter.py', S_ + 'SIF.py', S_ + 'Realization.py', 'fixif/func_aux/MPFMatrix.py'], [('dSS.__str__', LTI + 'dSS.py'), ('SIF.__str__', S_ + 'SIF.py'), ('Gabarit.__str__ / Band.__str__', LTI + 'Gabarit.py')],
	technique="property-based testing (Hypothesis): the texts are read back")

prop('C33', "Results do not depend on what was done before",
	"The result of any operation (conversion, realization, code or text generation, design, import, analysis, simulation) depends only on its inputs: it is the same whatever operations were done before, in the same process, on other objects or on the same ones without modifying them, including operations that were refused; and no operation changes the global state (current directory, precision of mpmath, display and error options of numpy, environment, module path, random generators of the deterministic operations).",
	['histories'], "all histories of operations on several objects",
	"The tests call each operation once, in the order of the file.",
	[LTI + 'dSS.py', LTI + 'dSSmp.py', LTI + 'Filter.py', S_ + 'SIF.py', S_ + 'Realization.py', 'fixif/Structures/Structure.py'], [('Structure.makeRealization', 'fixif/Structures/Structure.py'), ('dSSmp.to_dTFmp', LTI + 'dSSmp.py'), ('Realization', S_ + 'Realization.py'), ('generateNames', 'fixif/SoP/VarName.py')],
	technique="property-based testing (Hypothesis) of histories, against the same operation alone in a new process")
