prop("P01", "Elliptic-curve point operations obey the group law",
     "For every curve coefficient and every pair of points, addition, subtraction, doubling, negation, equality, the neutral-element test and conversion between the extended and affine representations give the result of the affine chord-and-tangent group law. This includes the neutral element, equal, opposite and two-torsion operands, every mix of representations, and results stored over an operand; operands not used as the result are left unchanged.",
     ["inputs"], "all field elements, curve coefficients (0, 1, -1, general), operand classes, representations and aliasings",
     "The curve tests need the generated field and are not part of the stable suite; they sample one curve with a = 0 and a few points, never a = +-1, mixed aliasing, or neutral affine operands.",
     ["c/curve.cpp", "c/curve.hpp"], [("addition, doubling, conversion formulas", "c/curve.cpp"), ("representation overloads", "c/curve.hpp")],
     "abstract interpretation of the compiled templates over an exact polynomial value domain, partitioned on operand class and aliasing, compared as polynomial identities with the affine group law",
     "Exhaustive over operand classes, representations and aliasings; all field values at once (polynomial identities). Assumes exact field operations, which other properties decide.")
prop("P02", "Extension-field towers are rings with correct inverse and Frobenius",
     "For every quadratic non-residue and all elements, addition, multiplication, squaring, doubling, negation, conjugation, inversion, division, scalar products and special multiplications in the quadratic, sextic and dodecic extensions equal the arithmetic of the defining polynomial rings, and the Frobenius maps are the coefficientwise power maps times the declared constants. Results may share storage with operands; predicates are true exactly when the elements are equal, zero or one.",
     ["inputs"], "all coefficient values, non-residues and aliasings of result and operands",
     "The tests exercise the quadratic extension with non-residue -1 on a few literals; identities over all coefficients, other non-residues and in-place calls are never sampled.",
     ["c/f2field.cpp", "c/f6field.cpp", "c/f12field.cpp"], [("Karatsuba products, squares, norms", "c/f2field.cpp, c/f6field.cpp, c/f12field.cpp")],
     "abstract interpretation over an exact polynomial value domain; results compared with the defining ring modulo its minimal polynomial",
     "All coefficients at once; every aliasing; the base ring's operations are taken as exact.")
prop("P03", "The built-in BN254 parameters are mutually consistent",
     "Every literal constant of the built-in pairing-friendly curve is right: both generators lie on their curves in the right subgroup, the twist coefficient and the Frobenius constants are the declared powers of the sextic non-residue, and every place that states the parameters states the same ones.",
     ["configurations"], "every constant compiled into the library and its static engine",
     "A wrong digit in a constant only shows in a pairing or a subgroup test, neither of which the stable tests run.",
     ["c/alt_bn128.cpp", "c/alt_bn128.hpp", "c/f6field.cpp", "c/f12field.cpp"], [("literal constants", "c/alt_bn128.cpp, c/f6field.cpp, c/f12field.cpp")],
     "constants reaching the field objects collected by constant propagation from the constructors, then checked against the algebraic definition of the parameters",
     "Complete: all constants are enumerated from the compiled constructors.")
prop("P04", "Scalar multiplication and exponentiation equal the scalar's multiple",
     "For every scalar of every byte length, the signed-digit recoding represents the scalar exactly with digits 0, 1 and -1, never two adjacent nonzero, inside the documented buffer; and scalar multiplication of a point and exponentiation in the dodecic field return exactly that multiple or power of the base. Base and result may be the same object.",
     ["inputs"], "all scalars, bases and digit strings, lengths including the empty scalar",
     "Tests multiply by a handful of literal scalars; recodings that carry past the top byte, in-place calls and all-zero scalars are not sampled.",
     ["c/naf.cpp", "c/exp.hpp", "c/f12field.cpp"], [("signed-digit table and carry chain", "c/naf.cpp"), ("double-and-add loop", "c/exp.hpp"), ("square-and-multiply loop", "c/f12field.cpp")],
     "abstract interpretation with partition merging at loop heads: an exact digit-sum invariant for the recoder, affine-relation (Karr) joins for the ladders",
     "All digit strings of each analysed length (0-4 and 8 bytes quick, up to 48/96 thorough); lengths are parameters of the analysis.")
prop("P05", "Windowed multi-scalar multiplication returns the exact sum",
     "For every number of points, scalar length, thread count and every scalar value, the windowed multi-scalar multiplication returns the sum of each point times its scalar, with or without a thread limit; the column-limited form returns the sum over exactly the elements inside their column's size. All table, scalar and accumulator accesses stay in bounds and every buffer is released.",
     ["inputs", "configurations"], "all scalar values and points; point counts, scalar lengths and thread counts enumerated",
     "The multi-exponentiation tests need generated code and are not in the stable suite; window boundaries, carries between windows, short scalars and empty columns depend on size and value combinations no sample covers.",
     ["c/multiexp.cpp", "c/multiexp.hpp"], [("window extraction, table, packing and reduction", "c/multiexp.cpp")],
     "abstract interpretation with exact partition merging (step-function algebra over scalar bits) and an OpenMP task model; the result form is compared with the sum of scalar times point",
     "Exhaustive in scalar values and points for each analysed (count, length, threads) triple. Group operations are taken as exact.")
prop("P06", "Signed-bucket multi-scalar multiplication returns the exact sum",
     "For every number of points, scalar length, window width, pool size and scalar value, the bucket method returns the sum of each point times its scalar: signed digits recode the scalar exactly, no carry is lost, every bucket is counted with its weight. Accesses stay inside the buffers and every pool task has finished on return.",
     ["inputs", "configurations"], "all scalar values and points; point counts, scalar lengths, window widths and thread counts enumerated",
     "A lost carry needs scalars whose top window overflows; no stable test runs this code at all.",
     ["c/msm.cpp", "c/msm.hpp"], [("signed digits", "c/msm.cpp"), ("bucket accumulation and chunk combination", "c/msm.cpp"), ("window extraction", "c/msm.hpp")],
     "abstract interpretation with exact partition merging (step-function algebra over scalar bits) and a thread-pool task model; the result form is compared with the sum of scalar times point",
     "Exhaustive in scalar values and points for each analysed size and window width.")
prop("P07", "The number-theoretic transform and its inverse are exact",
     "For every prime field, domain size, vector length within the domain, thread count and vector, the root table holds the powers of a root of unity of exactly the domain's order, the forward transform is the evaluation at those powers, and the inverse undoes it. A domain the field cannot support is rejected with an exception, and every resource is released on success and on rejection.",
     ["inputs", "configurations"], "all vectors; sizes, fields and thread counts enumerated",
     "The transform tests need the generated field, check only that the inverse undoes the forward transform, and use one field and one size.",
     ["c/fft.cpp", "c/fft.hpp"], [("root and scale tables", "c/fft.cpp"), ("bit-reversal permutation", "c/fft.cpp"), ("butterflies and inverse scaling", "c/fft.cpp")],
     "abstract interpretation: constants for the root search, exact linear forms modulo the field prime for the vectors, bit-level forms for the index reversal, init/clear typestate for the big integers",
     "Exhaustive in vectors for each analysed size; index reversal for all positions of every width up to 32 bits.")
prop("P08", "Parallel work is race-free, complete and awaited",
     "For every thread count and range length, parallel loops and blocks split the work into consecutive disjoint chunks that cover the range once, give concurrently running chunks distinct thread numbers, and return only after every chunk has finished. In the multi-scalar multiplications and the transform, parts that may run at the same time never write memory another part uses, and a temporary thread limit is undone on return.",
     ["schedules", "configurations"], "all schedules of the tasks; all range lengths (symbolic) per thread count",
     "Races and missing waits show only under particular timings and thread counts; the stable tests run no parallel code.",
     ["c/misc.hpp", "c/multiexp.cpp", "c/msm.cpp", "c/fft.cpp"], [("work division and parallel loops", "c/misc.hpp"), ("OpenMP regions", "c/multiexp.cpp"), ("pool regions", "c/msm.cpp, c/fft.cpp")],
     "effect analysis: per-task read and write sets from abstract interpretation, intersected for tasks that may run concurrently; symbolic range lengths for the division of work",
     "Range length symbolic for each thread count 1-9 (1-17, 24, 33, 64 thorough); task effects for enumerated problem sizes.")
prop("P09", "Worker threads hand over tasks without loss or deadlock",
     "Under every interleaving, also of several client threads, a task given to a worker thread runs exactly once and has finished when waiting returns, a task is not replaced before it has run, waiting on an idle worker returns at once, no wakeup is lost, the thread sleeps only when it has nothing to do and ends only when asked to, and destruction wakes and joins it. Shared state is touched only under the common lock, atomically, or by the side that owns it.",
     ["schedules"], "all interleavings of clients with the worker, including spurious wakeups and a second client submitting while a task is pending",
     "A lost wakeup or early return depends on a window of a few instructions between a check and a sleep.",
     ["c/misc.hpp"], [("worker loop, submit, wait and destruction", "c/misc.hpp")],
     "lockset and condition-variable typestate analysis of the compiled methods: every path between synchronisation points, with the other side's operations as interference",
     "All paths of the worker for up to two submissions and the destruction, and a second client against a pending task; assumes that a task does not submit to its own worker.")
prop("P10", "Generated field arithmetic is exact on all three back ends",
     "For every prime modulus, all canonical operands and every aliasing of result and operands, the multi-word addition, subtraction, negation, Montgomery multiplication, squaring, multiplication by one word, conversion to and from Montgomery form, and mixed word additions and subtractions return exactly the specified residue, below the modulus, on the assembly and portable back ends. Routines touch only their operands and keep the calling convention.",
     ["inputs", "configurations"], "all operand values; primes of 1-12 words including full-width ones, three back ends, all aliasings",
     "The generated library is outside the stable suite; carries out of the top word or between carry chains occur with probability near 2^-64 on random operands and only for some primes.",
     ["src/montgomerybuilder.js", "src/add.asm.ejs", "src/sub.asm.ejs", "src/neg.asm.ejs", "src/armbuilder.js", "src/fr_raw_generic.cpp.ejs"],
     [("x86-64 Montgomery and carry code", "src/montgomerybuilder.js, src/asmbuilder.js, src/add.asm.ejs, src/sub.asm.ejs"), ("AArch64 code", "src/armbuilder.js"), ("portable code", "src/fr_raw_generic.cpp.ejs")],
     "abstract interpretation of the rendered assembly and of the compiled portable code: words as exact multilinear forms with carry atoms, ranges and path facts; the result form is compared with the specification modulo the prime",
     "Exhaustive in operand values for each analysed prime, back end and aliasing (6 primes quick, 14 thorough). The templates are rendered by the repository's own generator.")
prop("P11", "Generated bitwise, shift, compare and move routines are exact",
     "For every prime modulus, all canonical operands, every shift count and every aliasing, the multi-word and, or, xor, complement and shifts return the bits of the integer operation cut to the modulus' length and reduced below the modulus, equality, zero test and comparison answer correctly, and copy, clear, swap and sign extension move every word, on all three back ends.",
     ["inputs", "configurations"], "all operand values and shift counts; primes of 1-12 words, three back ends, all aliasings",
     "Wrong masks, a lost reduction at exactly the modulus, in-place shifts and word-aligned counts need particular operands and are outside the stable suite.",
     ["src/binops.asm.ejs", "src/cmpops.asm.ejs", "src/copy.asm.ejs", "src/armbuilder.js", "src/fr_raw_generic.cpp.ejs"],
     [("x86-64 bit operations and shifts", "src/binops.asm.ejs"), ("copies", "src/copy.asm.ejs"), ("AArch64 code", "src/armbuilder.js"), ("portable code", "src/fr_raw_generic.cpp.ejs")],
     "abstract interpretation of the rendered assembly and of the compiled portable code: words as exact forms with bit-slice atoms, ranges and path facts, compared with the specified bit operation",
     "Exhaustive in operand values for each analysed prime, back end, aliasing and shift count (word boundaries and neighbours quick, every count thorough).")
prop("P12", "Binary container files are read exactly or rejected",
     "For every file content and size, opening a container succeeds exactly when the type, version, section directory and every section fit in the file, and lookups report each section's stated position and size. Reads are little-endian, advance by what they return and never leave the file; every rejection throws a standard exception by value and releases the memory, mapping and descriptor, which are also released when the object is destroyed.",
     ["inputs", "fault_sequences"], "all file sizes and bytes, section directories up to the analysed count, and failures of open, stat, map and allocation",
     "The reader is not compiled by the stable suite; truncated files, sizes above 32 bits, wrapped additions and failing system calls need hostile files no test has.",
     ["c/binfile_utils.cpp", "c/binfile_utils.hpp"], [("directory parsing and bounds checks", "c/binfile_utils.cpp"), ("resource release", "c/binfile_utils.cpp")],
     "abstract interpretation of the compiled reader over a symbolic file (size and bytes are unknowns) with bound facts; an obligation per file access, resource typestate, outcome compared with the format",
     "Section counts 0-3 (0-6 thorough) with all sizes symbolic, plus any directory in files up to 47 (59) bytes. A violation needs a concrete file the analysis can name.")
prop("P13", "Witness and proving-key headers are read exactly",
     "For every container content, loading the header of a witness or of a proving key returns exactly the stored counts, prime integers, element sizes and section positions, and is rejected with an exception when the protocol, a prime length or a section size is not the one the format requires. A rejected load releases everything it had acquired, and sizes are compared without wrapping.",
     ["inputs"], "all header fields and section sizes",
     "The stable tests load a handful of good headers; sizes that wrap in 32 bits, zero lengths and leaks on rejection need hostile files.",
     ["c/wtns_utils.cpp", "c/zkey_utils.cpp"], [("witness header", "c/wtns_utils.cpp"), ("proving-key header", "c/zkey_utils.cpp")],
     "abstract interpretation of the compiled loaders over symbolic file fields; fields compared with the format, big-integer and heap typestate on every path including exceptions",
     "All field values at once. The container reader is taken at its specification, which another property decides.")
prop("P14", "Parenthesised lists are split into exactly their parts",
     "Splitting terminates for every text. For every balanced list it returns exactly the top-level parts, in order, without enclosing parentheses or surrounding whitespace, and unbalanced text is rejected with an exception.",
     ["inputs"], "all texts over parentheses, separators, whitespace and other characters up to the analysed length",
     "The stable tests split a few literal lists; deeper nesting, adjacent groups, blank parts and a single part take other paths (one recursed for ever).",
     ["c/splitparstr.cpp"], [("tokeniser and parenthesis matching", "c/splitparstr.cpp")],
     "abstract interpretation of the compiled splitter over strings of character classes, partitioned by class pattern; parts compared with the grammar, recursion bounded by a repeated-argument rule",
     "All class patterns up to 5 characters (6 thorough), balanced ones up to 8 (10), and deep nestings.")
prop("P15", "Text forms of field extensions and curve points are exact",
     "For every element or point and every radix, the text is the parenthesised, comma-separated list of its coordinates' texts in order, affine coordinates for a point, and parsing the text gives the element back. Any nesting, blanks or missing outer parentheses the splitter accepts denote the same element; another number of parts is rejected with an exception. Fields and curves made from texts have exactly the parameters the texts denote.",
     ["inputs"], "all coordinate values (opaque texts), radices, representations of points, list shapes and part counts",
     "The text tests need the generated field; none uses another radix, a point with a denominator, a wrong number of parts or a curve made from texts over an extension.",
     ["c/f2field.cpp", "c/f6field.cpp", "c/f12field.cpp", "c/curve.cpp"], [("formatting and parsing of elements", "c/f2field.cpp, c/f6field.cpp, c/f12field.cpp"), ("points and construction from texts", "c/curve.cpp")],
     "abstract interpretation of the compiled templates with opaque coordinate texts followed character by character through strings and streams; the result is compared with the list grammar",
     "All coordinate values at once; the three towers, the composed degree-12 tower and curves over both fields; part counts 0-5.")
prop("P16", "Generated field objects and conversions are exact",
     "For every prime modulus above 31 bits and every operand, the generated field class's arithmetic, division, exponentiation, comparison and conversions from and to texts, machine integers, big integers and big-endian bytes give exactly the residue denoted, in canonical form, and undo each other. The tagged elements' conversions, division, remainder, power and inverse do so for every tag. Every temporary is released once, and nothing is read before it is written.",
     ["inputs", "configurations"], "all operand values, tags, exponent lengths, radices, machine integers by sign and size; one- to six-word primes",
     "The generated library is outside the stable suite; negative machine integers, values above the modulus, zero written as bytes and leaks of temporaries are not sampled anywhere.",
     ["src/fr.cpp.ejs", "src/fr.hpp.ejs"], [("field class", "src/fr.cpp.ejs"), ("conversions of tagged elements", "src/fr.cpp.ejs")],
     "abstract interpretation of the rendered class over exact residue polynomials with the raw routines at their specification; big-integer typestate; results compared with the field operation modulo the prime",
     "All operand values at once for each analysed prime (2 quick, 8 thorough). Assumes nonzero divisors and well-formed number texts; the raw routines are decided by other properties.")
prop("P17", "Generated libraries are complete and every output file is written",
     "For every odd prime up to 768 bits and every name, the generated files form a complete library on each back end: all are accepted, everything the public header offers is defined exactly once under the linkage it is declared with, and sizes, tags and public constants are those of the prime. Each text is written to a file of its own, under the name the other files refer to, for every combination of options, and a field's texts do not depend on fields generated before or at the same time.",
     ["inputs", "configurations", "histories"], "primes at the edges of the word grid, back ends, command-line options, sequences of generations in one process",
     "The stable suite never runs the generator; a missing symbol shows only when a user links that back end, and lost outputs only with certain options.",
     ["src/buildzqfield.js", "src/fr.hpp.ejs", "src/fr_element.hpp.ejs", "src/fr.asm.ejs", "src/fr_raw_arm64.s.ejs"], [("outputs and command line", "src/buildzqfield.js"), ("declarations", "src/fr.hpp.ejs"), ("definitions", "src/fr.asm.ejs, src/fr_generic.cpp.ejs, src/fr_raw_generic.cpp.ejs, src/fr_raw_arm64.s.ejs")],
     "symbol and linkage analysis of the objects and the header's syntax tree per configuration, compile-time layout witnesses, abstract evaluation of the generator's command line over uninterpreted texts, effect analysis of its modules",
     "The command line is decided for all option combinations, names and texts; the library is rendered for about 14 primes (100 thorough) at word boundaries.")
prop("P18", "Generated element operations are exact for every representation",
     "For every prime modulus above 31 bits, every mix of operand representations (short, long, each in plain or Montgomery form), every value and every aliasing of result and operands, addition, subtraction, multiplication, squaring, negation, bit operations, shifts, comparisons, logical operations and conversions of field elements give the residue, integer or truth value defined on the values denoted. The result is again in a valid representation, and conversion to a machine integer fails exactly for values that do not fit.",
     ["inputs", "configurations"], "all operand values and representation tags, all aliasings; one- to six-word primes, assembly and portable versions",
     "The generated library is outside the stable suite; each operation dispatches over some sixteen tag combinations and in-place use, each with its own conversions, of which samples reach few.",
     ["src/mul.asm.ejs", "src/add.asm.ejs", "src/sub.asm.ejs", "src/binops.asm.ejs", "src/cmpops.asm.ejs", "src/copy.asm.ejs", "src/logicalops.asm.ejs", "src/utils.asm.ejs", "src/montgomery.asm.ejs", "src/fr_generic.cpp.ejs"],
     [("x86-64 dispatch over representations", "src/*.asm.ejs"), ("portable dispatch over representations", "src/fr_generic.cpp.ejs")],
     "abstract interpretation of the rendered assembly and of the compiled portable code for every tag combination and aliasing, the multi-word routines at their specification; results compared as residues, signed representatives and bit patterns",
     "All operand values at once for each analysed prime (3 quick, 10 thorough), tag combination and aliasing. Products of two shorts on moduli under 63 bits are a recorded finding.")
prop("P19", "Operations share no hidden state",
     "Every operation of the generated field library, the extension towers, the curves, the transform, the recoding and the number and text helpers writes only its result and its own temporaries: it keeps nothing between calls, and changes neither its other operands nor the field, curve or transform object it is called on. So, once static initialisation is over, calls on separate results give the same outcomes in any order and under any interleaving, even when they share objects and operands.",
     ["schedules", "histories"], "all interleavings and call sequences, by bounding what each function can write on any path",
     "A static temporary, a cached member or an operand changed and put back gives right results in every sequential test; only a particular interleaving or re-entry shows it.",
     ["c/curve.cpp", "c/f2field.cpp", "c/f6field.cpp", "c/f12field.cpp", "c/fft.cpp", "c/exp.hpp", "c/naf.cpp", "c/misc.cpp", "c/splitparstr.cpp", "c/binfile_utils.cpp", "src/fr.cpp.ejs", "src/fr_generic.cpp.ejs", "src/fr_raw_generic.cpp.ejs"],
     [("write effects of operations", "c/curve.cpp, c/f2field.cpp, c/f6field.cpp, c/f12field.cpp, c/fft.cpp, c/exp.hpp"), ("static objects and their initialisation", "c/naf.cpp, c/misc.cpp, c/alt_bn128.cpp, src/fr.cpp.ejs"), ("static data of the assembly", "src/fr.asm.ejs, src/fr_raw_arm64.s.ejs")],
     "interprocedural write-effect analysis (access paths from arguments and static objects, summaries to a fixed point) over the linked intermediate code of the templates instantiated on the rendered library; store targets of the assembly",
     "Every function with a body is analysed on all paths for both back ends. Updates made under a lock or atomically are left to the worker-protocol property or reported undecided; calls through function objects are analysed as functions of their own.")
prop("P20", "Static initialisation does not depend on link order",
     "Whatever the order in which translation units are linked, and so initialised, every static initialiser and every constructor of a field, tower, curve or transform object uses only what is ready by then: constants, its arguments, and what it or an earlier initialiser of its own unit sets up. Operations on objects a program constructs during its own static initialisation need no other unit's initialiser either, so the library's constants and results are the same in every build.",
     ["configurations"], "all link orders and all static constructions in client code, by what each initialiser, constructor and operation can read on any path",
     "A test binary has one link order, usually a lucky one; an object used before its initialiser has run is all zeros and nothing reports it.",
     ["c/alt_bn128.cpp", "c/alt_bn128.hpp", "c/f2field.cpp", "c/f6field.cpp", "c/f12field.cpp", "c/curve.cpp", "c/fft.cpp", "c/fft.hpp", "c/naf.cpp", "c/misc.cpp", "src/fr.cpp.ejs", "src/fr.hpp.ejs"],
     [("initialisers of the BN254 objects", "c/alt_bn128.cpp"), ("constructors", "c/f2field.cpp, c/f6field.cpp, c/f12field.cpp, c/curve.cpp, c/fft.cpp, src/fr.cpp.ejs"), ("tables", "c/naf.cpp, c/misc.cpp")],
     "interprocedural read/write-effect analysis over the linked intermediate code, per initialiser in order of execution within a unit and without any order between units",
     "Every initialiser, constructor and operation of the linked program, both back ends. Objects handed to a constructor are assumed constructed; writes to objects without constructors count as setting them up.")
