#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  The properties live here so that they are easy to review and edit."""
import json, os
EW='bandersnatch/errorsWithData/'; FE='bandersnatch/fieldElements/'; CP='bandersnatch/curvePoints/'
PS='bandersnatch/pointserializer/'; EX='bandersnatch/exponents/'; CO='bandersnatch/common/'; IN='internal/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=observe
    assert len(title)<=80,(id,len(title)); P.append(d)

p('E01','Error message interpolation is total and follows the documented language',
 "For every format string, creating an error from it and rendering it never panics and terminates, and for every syntactically valid format string the rendered message is exactly what the documented language prescribes: escapes (\\\\, \\%, \\$, \\{, \\}) stand for the literal character, %verb{Name} renders the named parameter of the error itself, $verb{Name} renders the parameter passed from the wrapping error, %w and $w insert the wrapped error's message without and with passing on the outer parameters, m/map/parameters/params with a leading ! render all parameters, and the conditions m=0 and m>0 select their (possibly nested) sub-message by whether the respective parameter map is empty. Missing parameters, unsupported verbs and malformed strings show up as a descriptive in-message error, and the parsing error is reported by validation.",
 ['inputs'],'all format strings over the token alphabet of the language up to a bounded number of tokens, times parameter maps, times wrapped errors (none, plain, interpolating)',
 'The tests render a few dozen hand-picked strings; nesting, escapes at odd positions and malformed prefixes form an infinite language.',
 [EW+'formatting_tokenize.go',EW+'formatting_parse.go',EW+'formatting_interpolate.go',EW+'errorsWithData.go'],
 [('tokenizer',EW+'formatting_tokenize.go'),('parser state machine (parse_error / stack)',EW+'formatting_parse.go'),('AST interpolation',EW+'formatting_interpolate.go')])
p('E02','Validation of error messages agrees with what rendering does',
 "Syntax validation accepts a format string exactly if it is well-formed, including everything inside conditional sub-messages; the base/final validation additionally accepts an error exactly if every parameter that rendering needs is available and usable. An error accepted by the strictest validation renders without any in-message complaint, an error whose rendering contains such a complaint is rejected by it, and validation itself never panics for any documented argument (a nil map means the error's own parameters).",
 ['inputs'],'all format strings up to a token bound, times parameter maps, times wrapped errors; every validator on each',
 'Tests validate only a handful of samples, and never compare the verdict of a validator with the rendering of the same string.',
 [EW+'validate.go',EW+'formatting_interpolate.go',EW+'errorsWithData.go'],
 [('VerifyParameters_direct / _passed, HandleErrors',EW+'formatting_interpolate.go'),('ValidateError_*',EW+'validate.go')])
p('E03','Data attached to errors survives wrapping, deletion and overrides as documented',
 "An error created by wrapping carries exactly the data of the wrapped error, with added entries merged according to the selected precedence (replace previous data, prefer previous data, or assert equality) and deleted entries removed; getters, parameter presence tests and the map view always agree with this result. Operations on one error never change the data or message of any other, previously created error, nor does mutating a map that was passed in or handed out.",
 ['histories','inputs'],'all histories of create/wrap/add/delete operations up to a depth over a small alphabet of keys, values and precedence modes, with every error of the history re-observed after every step',
 'Each test runs one short history; aliasing between an error and its ancestors only shows after a specific sequence.',
 [EW+'errorsWithData.go',EW+'modify_errors.go',EW+'plainErrorWithParams.go',EW+'dataOverride.go'],
 [('merge of parameter maps',EW+'dataOverride.go'),('NewErrorWithData_* / AddDataToError_* / DeleteParameterFromError',EW+'modify_errors.go')])
p('E04','Errors typed with a data struct always yield that struct',
 "Whenever construction of an error with guaranteed data of a struct type T succeeds, retrieving T from it returns the struct with exactly the values that are in effect, and the guarantee cannot be violated by data inherited from the wrapped error: missing, ill-typed or non-nil-able values make the construction fail (or be reported as documented) and never surface later as a panic on retrieval. Embedded structs are flattened, values are stored under their field names, and nil is accepted exactly for field types that can be nil.",
 ['inputs','histories'],'struct types (plain, pointer/interface fields, embedded, empty) times values times data of the wrapped error times precedence modes, through every typed constructor and getter',
 'Tests use single struct types with well-typed previous data; the combination of precedence mode and ill-typed inherited data is not sampled.',
 [EW+'params_to_data.go',EW+'modify_errors.go',EW+'errorsWithData.go'],
 [('ensureTIsValid / ensureCanMakeStructFromParameters',EW+'params_to_data.go'),('struct type lookup cache',EW+'params_to_data.go')])
p('E05','Incomparable wrapping and error chains keep identity, data and message',
 "Making a sentinel error incomparable yields an error that is never equal to anything by ==, but keeps the message, the data and the position in error chains: errors.Is finds the original sentinel (and everything the original wraps) from the wrapped error and from every error that further wraps it, and unrelated sentinels are never found. Unboxing returns the original error, and boxing or unboxing twice changes nothing.",
 ['histories'],'all chains up to a depth of sentinel creation, wrapping with and without data, incomparable boxing, unboxing; every pair of errors of the chain compared with Is/As/==',
 'Tests try one box around one error; chains that mix boxing and wrapping in different orders are not enumerated.',
 [EW+'incomparableWrapper.go',EW+'dummyErrorWithParams.go',EW+'plainErrorWithParams.go'],
 [('MakeErrorIncomparable / UnboxError',EW+'incomparableWrapper.go')])
p('E06','Errors can be rendered, validated and queried concurrently',
 "Under every schedule, goroutines that concurrently render, validate, wrap or query the same error obtain the same results as sequential execution, with no data race and no panic. The same holds for concurrent first use of typed error constructors and getters for the same struct type.",
 ['schedules'],'all interleavings at statement granularity of two to three goroutines with at most two preemptions',
 'The tests are single-threaded; sentinel errors are package-level variables that all goroutines share.',
 [EW+'formatting_interpolate.go',EW+'errorsWithData.go',EW+'params_to_data.go'],
 [('lazily annotated AST shared by all users of a sentinel',EW+'formatting_parse.go'),('struct lookup cache behind RWMutex',EW+'params_to_data.go')])

p('X01','Exponents form the ring of integers modulo the group order',
 "For all values, addition, subtraction, negation, doubling, multiplication and comparison of exponents (all aliasings of receiver and arguments) agree with integer arithmetic modulo the order of the full curve group, conversions from integers of any sign and size and back to integers (modulo the full and modulo the subgroup order) give the canonical residue, and arguments are left unchanged.",
 ['inputs','histories'],'all pairs from a boundary-complete value set (around 0, the prime order and its multiples, word boundaries), all aliasings, and all operation sequences up to a depth',
 'Tests compare a few random or hand-picked exponents; reductions only misbehave in narrow ranges next to multiples of the order.',
 [EX+'exponents.go',EX+'exponent_constants.go'],[('Exponent arithmetic and reduction',EX+'exponents.go')])
p('X02','Scalar decompositions reconstruct the scalar and respect their size bounds',
 "The two-dimensional (endomorphism) decomposition of any exponent yields two short scalars u, v with u + v*lambda equal to the exponent modulo the subgroup order, each of documented bit length; every signed-digit or sliding-window recoding of a scalar has only odd digits bounded by the window size, digit positions that are strictly monotone and non-overlapping, and digits that sum up exactly to the scalar.",
 ['inputs'],'all scalars of up to 12 bits exhaustively plus boundary scalars of every bit length, times all window sizes',
 'Tests check random scalars with fixed windows; carries running through a whole scalar and rounding at the lattice boundary are measure-zero events for sampling.',
 [EX+'glv_transform.go',FE+'uint256.go'],[('GLV decomposition, signed-adic decomposition',EX+'glv_transform.go'),('SlidingWindowDecomposition',FE+'uint256.go')])

p('C01','Field element byte orders are faithful, mutually consistent and validated',
 "For every 256-bit value, each supported byte order (little, big and explicitly given endianness) writes the 32-byte encoding it is named after, reads back exactly the value it wrote, and 64-bit word access agrees with the standard byte orders; buffers that are too short cause a documented panic and bytes outside the first 32 are untouched. The set of accepted custom byte orders is exactly big and little endian.",
 ['inputs'],'a byte-position-complete value set, all endianness values, all buffer lengths 0..40, and all subsets of standard, wrapped and permuted custom orders',
 'Tests write one or two values; an index error in one word or byte is only seen by a value set that distinguishes all positions.',
 [CO+'fe_endianness.go'],[('FieldElementEndianness',CO+'fe_endianness.go')])
p('C02','Prefix bits, bit headers and shared constants are validated and lossless',
 "A bit header can be created exactly for lengths up to eight with prefix bits that fit the length, equals only identical headers, and reports back the bits and length it was made from; a rejected request leaves the header unchanged and valid; the exported helpers and constants (group orders, cofactor, field modulus) satisfy their defining equations.",
 ['inputs'],'all pairs (prefix, length) in 0..255 x 0..255 and all named constants',
 'Tests check some accepted lengths only.',
 [CO+'embedded_params.go',CO+'common_constants.go',CO+'call_fixNil.go',CO+'fe_endianness_old.go'],[('BitHeader / PrefixBits',CO+'embedded_params.go')])

p('C03','Operations on values of different goroutines do not interfere',
 "Goroutines that concurrently operate on values of their own (field elements, big integers, exponents, curve points of every type, slices of them, serializers obtained from the shared global ones, and the error values that arise) obtain exactly the results of sequential execution, without data race, panic or deadlock: no operation of the library keeps hidden shared mutable state (scratch buffers, lazily initialized constants, caches) that is not properly synchronized; the same holds if user code that the library calls (streams, Stringers, handlers) uses the library itself, and after such code has panicked.",
 ['schedules'],'all schedules with a bounded number of preemptions of two and three goroutines, over all pairs and triples of a catalogue of operations covering every package',
 'The tests are single-threaded; a shared scratch variable or a lazily initialized table gives correct results in every sequential run.',
 [FE+'field_element_montgomery.go',FE+'field_element_square_root.go',FE+'uint256.go',CP+'curve_point_impl.go',CP+'batch_operations.go',PS+'serialize_curve_point.go',EX+'exponents.go',EW+'params_to_data.go'],
 [('package-level constants shared by all goroutines',FE+'field_element_constants.go'),('square root tables',FE+'field_element_square_root.go'),('global serializers and their WithParameter copies',PS+'parameterModification.go')])

p('C04','Named constants have the specified values and no use of the library alters them',
 "Every exported constant of the library (group orders, cofactor, exponent, eigenvalue, curve parameters, the field size in all its formats, the special field elements, the root of unity, and the special points of every point type) has the value specified for it, consistently in all packages and representations. No sequence of calls changes the value of a constant: not when constants are passed as arguments or used as receivers of read-only methods, and not when callers afterwards overwrite what a function returned or the arguments they own; and what functions return does not depend on such overwriting.",
 ['inputs','sequences'],'all exported methods of the field element, integer, exponent, point and serializer types and the exported functions, on all argument tuples from pools that contain the constants, each followed by overwriting results and arguments',
 'Constants are plain variables, many of them pointers copied between packages; a method which hands out such a pointer or uses an argument as scratch space gives correct results in each test, and corrupts all later computations of the process.',
 [CO+'common_constants.go',FE+'field_element_constants.go',CP+'bandersnatch_constants.go',CP+'curve_point_xtw.go',CP+'curve_point_axtw.go',CP+'curve_point_doubleproj.go',EX+'exponent_constants.go'],
 [('shared constants',CO+'common_constants.go'),('constants of the field',FE+'field_element_constants.go'),('constants of the curve',CP+'bandersnatch_constants.go')])

p('C05','Operations depend on nothing but the values of their arguments',
 "Every exported operation on field elements, integers, exponents, points, point slices, serializers and headers is a function of the values of its arguments: what it returns (including errors and their texts, and whether it panics) and what it leaves in its arguments is the same whichever operations were performed before, with whatever arguments, and wherever the arguments live - in particular when a variable or buffer is reused for another value between two calls.",
 ['sequences','inputs'],'all histories of two calls (every operation after itself for all pairs of argument tuples, and after every other operation), with the arguments in the same variables throughout',
 'A memo or cache, a reused scratch buffer or an early exit for the same pointer gives correct results in tests, which use fresh variables; the wrong result needs a second call with a reused variable, or one particular operation before.',
 [FE+'field_element_montgomery.go',CP+'serializer_curve_field.go',CP+'curve_point_xtw.go',CP+'batch_operations.go',CP+'curve_point_axtw.go',CP+'curve_point_doubleproj.go'],
 [('field elements',FE+'field_element_montgomery.go'),('points',CP+'curve_point_xtw.go'),('points from coordinates',CP+'serializer_curve_field.go')])

p('F01','256- and 512-bit integer arithmetic is exact',
 "For all operands and all aliasings of receiver and arguments, the fixed-width integer operations (add, subtract, multiply, square, increment, decrement, shift, compare, bit length, conversions to and from big integers) return exactly the mathematical result modulo the width, together with the exact carry, borrow or shifted-out words; arguments that are not receivers stay unchanged.",
 ['inputs'],'all pairs over an alphabet of words combined limb-wise (carry-complete), all shift counts, all aliasings',
 'Random limbs practically never produce the carry patterns (runs of all-ones or zero limbs) in which carry chains go wrong.',
 [FE+'uint256.go'],[('Uint256 / Uint512 integer operations',FE+'uint256.go')])
p('F02','Modular arithmetic is correct for every representative its contract admits',
 "For all operands within the documented reducedness range, modular add, subtract, double, negate, multiply, square, reduce, exponentiate, invert and Jacobi symbol on 256-bit integers yield a value congruent modulo the field prime to the mathematical result, inside the documented output range; reducedness predicates are exact and a zero operand is rejected by inversion.",
 ['inputs'],'all pairs over a value set that is dense around 0, p, 2p, 2^256-p, 2^256 and limb boundaries, filtered by the input contract of every function; all aliasings',
 'Non-canonical representatives near the range limits occur with probability about 2^-60 in random tests.',
 [FE+'uint256_modular.go',FE+'modulus.go'],[('*_a/_b/_c/_f reduction contracts',FE+'uint256_modular.go')])
p('F03','Montgomery arithmetic is correct for every representative its contract admits',
 "For all operands within the documented range, Montgomery multiplication, squaring, exponentiation and conversion from and to Montgomery form return values congruent to the mathematically prescribed ones and within the documented output range, for all aliasings; converting back and forth is the identity modulo p.",
 ['inputs'],'as F02, over the Montgomery functions',
 'The final conditional subtraction matters only on a tiny fraction of inputs which random tests do not hit.',
 [FE+'uint256_montgomery.go'],[('MulMontgomery_c and friends',FE+'uint256_montgomery.go')])
p('F04','Field elements behave as the prime field regardless of internal representation',
 "For all field elements, in every admissible internal representation of the value and for every aliasing of receiver and arguments, addition, subtraction, negation, doubling, multiplication, squaring, division, the small-integer variants and equality, zero, one, sign and absolute-value comparison agree with arithmetic modulo p, and depend on the values only. Operations leave non-receiver arguments unchanged in value, and changing the representation (normalizing or re-randomizing) never changes the value.",
 ['inputs','histories'],'all states (value, representation) over a boundary value set, all operations, all aliasings, and all operation sequences up to a depth from given seeds',
 'Only a minority of values have more than one representation and they cluster at range ends; random tests see only the common one.',
 [FE+'field_element_montgomery.go',FE+'field_element.go',FE+'field_element_constants.go'],[('bsFieldElement_MontgomeryNonUnique',FE+'field_element_montgomery.go')])
p('F05','Inversion, square roots, Jacobi symbol and exponentiation are correct',
 "For all field elements, inversion gives the multiplicative inverse (and panics on zero only), the Jacobi symbol is 0, 1 or -1 exactly for zero, squares and non-squares, the square root succeeds exactly on squares, returns a root of its argument, and leaves the receiver unchanged on failure; exponentiation equals repeated multiplication for every 256-bit exponent.",
 ['inputs'],'every element of the 2-power torsion coset structure (all 2^32-th-root-of-unity order classes and all digit positions of the discrete logarithm), boundary values and their squares and non-squares, in all representations; exponent boundary set',
 'The square root works with a discrete logarithm in a group of order 2^32 by table lookup; a wrong table entry affects a small fraction of the inputs.',
 [FE+'field_element_square_root.go',FE+'field_element_montgomery.go',FE+'modulus.go'],[('Tonelli-Shanks with precomputed tables',FE+'field_element_square_root.go')])
p('F06','Batch field operations equal their one-by-one counterparts',
 "For every slice, including empty ones, slices with zeros, duplicates and aliased receivers, multi-product, multi-sum and batch inversion return what the elementwise operations return; batch inversion in the presence of zeros either leaves all arguments unmodified and reports exactly which and how many elements are zero, or (skipping variant) inverts the rest and returns exactly the indices of the zeros.",
 ['inputs'],'all slices up to length 5 (quick) over an alphabet with zero (in both representations), one, minus one and generic values',
 'Zero patterns at arbitrary positions are combinatorial; tests use random non-zero elements and a few zero positions.',
 [FE+'field_element_batch.go',FE+'errors.go'],[('MultiInvertEq*, MultiplyMany/Slice, SummationMany/Slice',FE+'field_element_batch.go')])
p('F07','Field element serialization is canonical, lossless and strict',
 "For every value, internal representation, byte order and prefix, serialization writes the unique canonical 32-byte encoding with the prefix in the most significant bits, deserialization reads it back exactly and consumes exactly 32 bytes, and two representations of the same value serialize identically. Non-canonical numbers, wrong prefixes, values that do not fit beside the prefix and invalid prefix lengths are each reported by their designated error.",
 ['inputs'],'boundary values x representations x endianness x all prefixes of all lengths, and all deserialization inputs around p and the prefix boundaries',
 'Prefix and canonicity checks meet only at a few encodings next to the modulus and at exact bit boundaries.',
 [FE+'field_element_serialize.go',FE+'uint256_serialize.go',FE+'errors.go'],[('Serialize/Deserialize(WithPrefix, AndGetPrefix, WithExpectedPrefix)',FE+'field_element_serialize.go')])
p('F08','I/O faults during field element (de)serialization are reported exactly',
 "For every point at which reading or writing fails (an error of the stream or a premature end), serialization and deserialization of field elements and 256-bit integers return an error that wraps the stream's error (end of file after zero bytes is EOF, later is unexpected EOF), report the exact number of bytes transferred and whether it was partial, and leave the receiver untouched.",
 ['fault_sequences'],'every fault offset 0..32 x fault kind x chunking of the stream x every (de)serialization entry point x byte order',
 'Fault offsets are sampled at a few points in the tests and not for all entry points.',
 [FE+'field_element_serialize.go',FE+'uint256_serialize.go'],[('io error handling and BytesRead/BytesWritten data',FE+'uint256_serialize.go')])
p('F09','Conversions between field elements, integers and strings are exact',
 "For every value, conversion of field elements from and to signed and unsigned machine integers, 256-bit integers, big integers, raw byte images and strings is exact: reading back gives the canonical residue modulo p, narrowing fails with the designated error exactly if the value does not fit and then leaves no partial result, and formatting prints the canonical value.",
 ['inputs'],'boundary-complete integer values of all widths and signs in all representations and all formatting verbs',
 'Off-by-one errors at the 63/64-bit boundary and the sign handling at p/2 require specific values.',
 [FE+'field_element_montgomery.go',FE+'field_element_bigInt.go',FE+'field_element.go',FE+'utility.go'],[('To/Set*; Format; InitFieldElementFromString',FE+'field_element_montgomery.go')])
p('F10','All implementations of the field element interface agree with the prime field',
 "Every exported implementation of the generic field element interface (the Montgomery implementation and the big.Int based reference implementation) realizes the field of integers modulo p through every method of the interface: after any sequence of assignments, arithmetic (with any aliasing, with field elements and with machine integers), and predicates, each implementation holds the residue of the mathematical value, its getters, comparisons, Jacobi symbol, square root, string and byte forms agree with it, operations without a result panic or report as documented, and the generic helpers over the interface compute the same for both.",
 ['inputs','histories'],'all ordered pairs of boundary values with every operation and aliasing, and all operation sequences on two registers to a depth, each for every implementation',
 'The reference implementation is what other code is tested against; a wrong sign, missed reduction or shared big.Int shows only after particular sequences and aliasings.',
 [FE+'field_element_bigInt.go',FE+'field_element.go',FE+'field_element_montgomery.go'],[('bsFieldElement_BigInt',FE+'field_element_bigInt.go'),('FieldElementInterface and generic helpers',FE+'field_element.go')])
p('F11','Precomputed data for an arbitrary modulus is exact',
 "For every modulus for which precomputation is offered, the derived reciprocal and correction terms used by modular reduction are the exact integers their definitions require (also for powers of two and their neighbours, where the reciprocal just reaches or exceeds its word size), and moduli outside the supported range are refused instead of yielding wrong constants.",
 ['inputs'],'all moduli with each leading bit pattern at each magnitude, powers of two, divisors near powers of two and their neighbours',
 'The derivation is only ever run on the one modulus of the package; its boundary cases (normalization, quotient overflow) need specific moduli.',
 [FE+'modulus.go'],[('makeModulus / reciprocal computation',FE+'modulus.go')])

p('P01','Point arithmetic is the elliptic-curve group law in every coordinate system',
 "For all points of the curve, in every point type and every projective representative, and for all aliasings and combinations of argument types, addition, subtraction, doubling, negation and their in-place forms give the group-law result, including neutral elements, equal and opposite arguments, points at infinity and points of small order; prime-subgroup types never leave the subgroup. The group axioms (commutativity, associativity, inverses) hold across types.",
 ['inputs','histories'],'all pairs of an explicit finite set of points closed under the exceptional cases (all 2-torsion, infinity points, small multiples, their translates), times representatives, types and aliasings; operation sequences to a depth',
 'Exceptional cases form a measure-zero set, and each of the type x aliasing combinations runs its own code path.',
 [CP+'curve_point_impl_add.go',CP+'curve_point_impl_double.go',CP+'curve_point_impl_torsion.go',CP+'curve_point_xtw.go',CP+'curve_point_axtw.go',CP+'curve_point_doubleproj.go'],
 [('addition formulas (safe/unsafe, mixed types)',CP+'curve_point_impl_add.go'),('receiver methods with aliasing',CP+'curve_point_xtw.go')])
p('P02','Equality, predicates and coordinate reads depend on the point only',
 "Equality, neutral-element, infinity and 2-torsion predicates, and every affine and projective coordinate getter give answers determined by the mathematical point alone (for subgroup types: modulo nothing else), for every type and representative, and reading coordinates, comparing, normalizing or cloning a point never changes the point. Copies made by cloning are independent of the original.",
 ['inputs','histories'],'all ordered pairs of points of the finite set x types x representatives x every getter; normalizations interleaved',
 'Getters normalize lazily, so the outcome may depend on the call history.',
 [CP+'curve_point_impl_equality.go',CP+'curve_point_xtw.go',CP+'curve_point_axtw.go',CP+'curve_point_doubleproj.go'],[('IsEqual dispatch',CP+'curve_point_impl_equality.go'),('lazy normalization',CP+'curve_point_xtw.go')])
p('P03','Subgroup membership and conversions between point types are exact',
 "A curve point is reported to be in the prime-order subgroup exactly if it is, for every type and representative; conversion to a subgroup type of untrusted input succeeds exactly for subgroup points and otherwise leaves the receiver unchanged and reports failure; conversion between any two types preserves the point and converting something that the target type cannot hold is refused.",
 ['inputs'],'all points of the finite set (covering all cosets of the subgroup) x all ordered pairs of types x representatives x trust levels',
 'Tests sample random points in a few type combinations.',
 [CP+'curve_point_impl_subgroupcheck.go',CP+'curve_point_xtw.go',CP+'curve_point_axtw.go',CP+'curve_point_doubleproj.go'],[('legendre checks',CP+'curve_point_impl_subgroupcheck.go'),('SetFrom / SetFromSubgroupPoint',CP+'curve_point_xtw.go')])
p('P04','Invalid points (NaPs) are contained and always reported',
 "Operating on an uninitialized or otherwise invalid point never silently yields a valid point: every arithmetic result, conversion or copy derived from an invalid input is again invalid (or refused); every comparison, predicate, normalization and checked conversion that meets an invalid point reports it to the configured error handler (comparisons as such, normalizations and conversions not), and comparisons and predicates then return the handler's answer where the handler decides, the documented one otherwise; if the handler panics, the panic reaches the caller and invalid arguments are still invalid, valid ones unchanged.",
 ['inputs'],'all operations x all types x all argument positions holding an invalid point x aliasings x handler answers',
 'Tests cover NaPs for a subset of operations only.',
 [CP+'error_handler.go',CP+'curve_point_xtw.go',CP+'curve_point_axtw.go',CP+'curve_point_doubleproj.go'],[('napEncountered',CP+'error_handler.go')])
p('P05','The efficient endomorphism is the designated group endomorphism',
 "For all points, types and representatives, the endomorphism maps the neutral element to itself, is additive, acts on the prime-order subgroup as multiplication by the published eigenvalue, its square acts as multiplication by -2, it agrees between all point types and between the in-place and the two-argument form, and its kernel consists exactly of the documented points.",
 ['inputs'],'all points of the finite set x types x representatives x aliasings',
 'Exceptional points (2-torsion, infinity) are separately coded and measure-zero.',
 [CP+'curve_point_impl_endo.go',CP+'bandersnatch_constants.go'],[('Endo formulas and special cases',CP+'curve_point_impl_endo.go')])
p('P06','Batch normalization equals individual normalization and reports exceptions',
 "For every slice of points, batch normalization leaves every point unchanged as a point, makes every normalizable point affine-normalized, and reports exactly those indices that cannot be normalized (points at infinity, and invalid points whose relevant coordinate vanishes, which are also reported to the error handler) while leaving these the points they were; invalid points stay invalid; all this also holds at the moment the handler is called and after a handler that panics; the slice wrappers index the same underlying elements.",
 ['inputs'],'all slices up to length 4 over an alphabet of normal, normalized, neutral, infinite and invalid points, for every point type',
 'Special points can be at any position of a batch inversion; tests use few patterns.',
 [CP+'batch_operations.go',CP+'curve_point_slice.go'],[('BatchNormalizeForZ/Y',CP+'batch_operations.go')])
p('P07','Recovering points from coordinates accepts exactly the valid ones',
 "Constructing a point from a coordinate and sign, or from two coordinates, or from the short or long encoding values, returns that very point if and only if the data describes a rational point on the curve (and lies in the subgroup, where a subgroup type is requested); everything else is rejected with its designated error and without a point for untrusted input, and trusted input yields the same point as untrusted for all valid data.",
 ['inputs'],'all coordinate values of the finite point set and their perturbations (negated, shifted by one, swapped, zero, twist points) x signs x trust levels x functions',
 'The check that a candidate is on the curve or in the subgroup is a conjunction of conditions; a missing one is invisible on valid data.',
 [CP+'serializer_curve_field.go'],[('CurvePointFrom* functions',CP+'serializer_curve_field.go')])
p('P08','The invalid-point handler can be swapped concurrently',
 "Under every schedule, goroutines that replace the handler for invalid points while others trigger it see either the old or the new handler, completely, and every trigger invokes exactly one handler exactly once; a handler that itself queries or replaces the handler does not deadlock.",
 ['schedules'],'all interleavings at statement granularity of two to three goroutines with at most two preemptions',
 'The tests never run handlers concurrently.',
 [CP+'error_handler.go'],[('handler variable with mutex',CP+'error_handler.go')])

p('P09','Validation, special points, sampling and naive reference operations are exact',
 "For every point type, the self-validation answers true exactly for coordinates that describe a point the type can hold (on the curve, consistent redundant coordinates, in the prime-order subgroup up to the affine two-torsion point for subgroup types) and false for everything else including invalid points; setters of the neutral, affine two-torsion and infinite points give exactly those points; translation by two-torsion points, switching and rerandomizing of internal representations do to every point exactly what they say, after any sequence; random sampling yields valid points of the type, sampling of invalid points yields invalid ones; the naive reference addition and exponentiation agree with the group law.",
 ['inputs','histories'],'all corruptions of one or two raw coordinates of all model points in every type, all sequences of representation-changing operations to a depth, all sampling seeds and indices of a range',
 'A validation that misses one of the equations, or a representation change that is wrong only for some type, accepts wrong points silently; tests use this very code as the oracle.',
 [CP+'curve_point_impl_sampling.go',CP+'curve_point_impl_torsion.go',CP+'curve_point_naive.go',CP+'curve_point_xtw.go',CP+'curve_point_axtw.go',CP+'curve_point_doubleproj.go',CP+'curve_point_impl_subgroupcheck.go'],
 [('Validate / isPointOnCurve',CP+'curve_point_impl_subgroupcheck.go'),('torsionAdd*',CP+'curve_point_impl_torsion.go'),('sampling',CP+'curve_point_impl_sampling.go')])

p('P10','A point variable behaves like the value it was last given',
 "Whatever sequence of assignments, arithmetic in place, conversions, normalizations, copies and queries a point variable of any type has gone through, including being uninitialized, invalid or infinite before, every query about it (coordinates, predicates, comparisons, validation, subgroup membership, serialization) gives the answer for the value it holds now; nothing of an earlier value, failed conversion or earlier query shows.",
 ['histories'],'all sequences of writes and reads up to a depth, in every type, from uninitialized, infinite and generic variables, all queries after each step',
 'Any state kept with a point besides its value (flags, cached results) must be updated by every writing operation; the tests use fresh variables.',
 [CP+'curve_point_xtw.go',CP+'curve_point_axtw.go',CP+'curve_point_doubleproj.go',CP+'batch_operations.go',CP+'curve_point_impl_torsion.go'],
 [('receiver methods writing the coordinates',CP+'curve_point_xtw.go'),('methods of the double-projective types',CP+'curve_point_doubleproj.go')])

p('S01','Point serialization round-trips and is canonical in every format',
 "For every subgroup or curve point that a point serializer supports, every point type and representative, and both byte orders, deserializing what was serialized returns an equal point, consumes exactly the announced number of bytes, and equal points serialize to identical bytes; the short form's sign handling and the long form's coordinates follow the documented Banderwagon and Bandersnatch formats.",
 ['inputs'],'all points of the finite set x types x representatives x serializers x endianness',
 'Tests use random points; sign ties, zero coordinates and non-unique representatives are special.',
 [PS+'serialize_curve_point.go',PS+'basic_serializers.go',PS+'values_serializers.go',PS+'oop.go'],[('pointSerializer*',PS+'basic_serializers.go')])
p('S02','Malformed or hostile point encodings are rejected',
 "Deserializing untrusted bytes never panics and never yields a point that is off the curve or (where the subgroup is required) outside the prime-order subgroup; every byte string is either rejected with an error and an untouched receiver, or is the canonical encoding of the returned point, so that re-serializing gives the same bytes.",
 ['inputs'],'for every valid encoding of the finite set: all single-bit flips, all header variants, all boundary field elements in each coordinate slot, all coordinate sign combinations and twist or cofactor-translated points',
 'The adversarial set is combinatorial, and a forgotten check accepts only a thin set of bad inputs.',
 [PS+'basic_serializers.go',PS+'values_serializers.go',PS+'serialize_curve_point.go',CP+'serializer_curve_field.go'],[('sign/canonicity/subgroup checks',PS+'basic_serializers.go')])
p('S03','I/O faults in point serialization are reported and leave no partial result',
 "For every position at which the stream fails or ends, serializing or deserializing points returns an error wrapping the stream's error (EOF only if nothing was read), reports exactly the number of bytes transferred and whether it stopped midway, and a read that fails before the point's own encoding is complete leaves the receiver unchanged; without faults the byte count equals the announced length.",
 ['fault_sequences'],'every fault offset from 0 to the full length x fault kind x serializer x entry point',
 'Each format reads several fields in sequence; tests inject faults at few offsets.',
 [PS+'basic_serializers.go',PS+'values_serializers.go',PS+'headerSerializer.go'],[('updateReadError / updateWriteError',PS+'utils.go')])
p('S04','Slice and batch serialization is right about headers, sizes, partial results',
 "For every slice length and header configuration, serialized slices carry exactly the configured headers, separators, footers and the length, round-trip to equal points with the exact byte count, and mismatching headers, truncated streams or too-small buffers are reported with the number of points that were actually transferred, which are then correct, while buffer elements after the first incompletely read point are left alone.",
 ['inputs','fault_sequences'],'slice lengths 0..3 x header configurations x every truncation offset x every byte corrupted in framing x buffer sizes x batch entry points',
 'The combination of framing, element index and fault offset is not covered by tests.',
 [PS+'serialize_curve_points.go',PS+'headerSerializer.go'],[('SerializeSlice/DeserializeSlice/SerializeBatch',PS+'serialize_curve_points.go')])
p('S05','Configuring serializers never affects other serializers and is consistent',
 "Deriving a serializer with a changed parameter (byte order, subgroup restriction, header, and so on) returns one that differs in exactly this parameter, reports it back, and leaves the original and all other derived serializers unchanged; unsupported or ill-typed parameters are refused by a panic, never ignored.",
 ['histories','configurations'],'all sequences of up to three parameter modifications over the parameter alphabet for every serializer, with all serializers of the history re-observed at the end',
 'Copies share structure; interference only shows after particular sequences.',
 [PS+'parameterModification.go',PS+'oop.go',PS+'headerSerializer.go'],[('WithParameter / WithEndianness / Clone',PS+'parameterModification.go')])

p('I01','Call counters form a consistent tree of counts',
 "For every history of counter creation, increment, hierarchical attachment, correction and reset, every counter's reported value equals the number of its own increments plus the signed contributions of its sub-counters since the last reset, querying an unknown counter is reported and not fatal, and structured reports list every displayed counter below its parents with its current count.",
 ['histories'],'all histories up to a depth over a small alphabet of counters and operations',
 'Tests check one history.',
 [IN+'callcounters/callcounters.go'],[('call counter registry',IN+'callcounters/callcounters.go')])
p('I02','The fault-injecting buffer fails exactly where it is told to',
 "For every threshold and sequence of reads and writes, the fault-injecting buffer transfers exactly the bytes before the threshold faithfully, then fails with the designated error itself and keeps failing (with an error that wraps it) until reset; before the threshold it behaves as an ordinary buffer including end of file.",
 ['histories','fault_sequences'],'all operation sequences up to a depth x thresholds x chunk sizes, against a reference model',
 'A test double is trusted by all I/O tests yet its own tests use single calls.',
 [IN+'testutils/failingIO.go'],[('FaultyBuffer',IN+'testutils/failingIO.go')])
p('I03','Internal containers and list utilities meet their specification',
 "For every operation sequence the stack behaves as a last-in-first-out sequence of values, and the list helpers (containment, element comparison, sublist and set comparison, duplicates, aliasing detection) decide exactly their set-theoretic definitions.",
 ['histories','inputs'],'all stack histories up to a depth; all pairs of lists up to length 4 over a 3-letter alphabet, and all pairs of sub-slices of an array',
 'The tests use a few fixed lists.',
 [IN+'stack/stack.go',IN+'utils/listcontainment.go',IN+'utils/compareSlice.go',IN+'testutils/slicealias.go'],[('Stack',IN+'stack/stack.go'),('list utilities',IN+'utils/compareSlice.go')])
p('I04','Precomputed values are deterministic under concurrent access',
 "Under every schedule, concurrent requests of precomputed elements for the same key return the prefix of one and the same deterministic sequence, every requested length is met, elements once handed out never change, caches for different keys do not influence each other, and the cache stays usable when a user-provided function panics at any call or itself requests elements of another key.",
 ['schedules','histories'],'all interleavings at statement granularity of two goroutines with at most two preemptions, and all sequential request histories up to a depth',
 'Tests access the cache from one goroutine with one history.',
 [IN+'testutils/precomputation_meta.go'],[('PrecomputedCache',IN+'testutils/precomputation_meta.go')])
p('I05','Reflection and panic helpers used by tests decide exactly',
 "The helper that checks whether a call panics returns true exactly if it does and otherwise passes results through; nil-ability, method calls by name and field flattening by reflection agree with the language's own rules for every kind of type.",
 ['inputs'],'all type kinds x values, functions that panic/return/exit with values including nil panics',
 'Tests instantiate a few kinds.',
 [IN+'testutils/checkpanic.go',IN+'utils/reflect_type.go',IN+'utils/reflect_call.go',IN+'utils/getAllFields.go',IN+'utils/bigIntConversion.go',CO+'call_fixNil.go'],[('CheckPanic',IN+'testutils/checkpanic.go'),('IsNilable',IN+'utils/reflect_type.go')])
p('I06','Error transformation, I/O error data and cloning helpers keep data and identity',
 "For every chain of errors, turning EOF into unexpected-EOF does so exactly if the chain wraps EOF, keeps all attached data and the guaranteed data struct, leaves any other error (and nil) untouched, is idempotent and does not modify the original; derived I/O error data flags an operation as partial exactly if some but not all bytes were transferred and travels unchanged through errors; designated error values are distinct except for documented wrapping; the free Clone function returns an equal, independent copy for every admissible form of Clone method and refuses types without one.",
 ['inputs'],'all chains of wrappers up to a depth over all kinds of base errors and data structs, all pairs of byte counts, all forms of Clone methods',
 'Callers distinguish end-of-stream from truncation by these helpers; losing data or identity shows only for particular chains.',
 ['internal/errorTransform/error_transform.go','internal/errorTransform/serializer_errors.go','internal/errorconsts/errorconsts.go','bandersnatch/bandersnatchErrors/serializer_errors.go','bandersnatch/common/clone.go'],
 [('UnexpectEOF, UnexpectEOF2','internal/errorTransform/error_transform.go'),('NewIntermediate*ErrorData','internal/errorconsts/errorconsts.go'),('Clone','bandersnatch/common/clone.go')])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
