EQ='exhaustive enumeration of a bounded input state space, every state executed through both interfaces of the real code and compared bit for bit (differential model checking)'
p('C26','The typed interface is the same functions','Every method of the typed interface Libm<f16>, Libm<f32>, Libm<f64> and Libm<f128> returns, for every argument, bit for bit what the corresponding free function of the crate returns (any NaN equal to any NaN). No method forwards to another function or another format.',['inputs','configurations'],'every method of the four typed interfaces, every argument','no test executes the typed interface at all, so a forwarding mistake compiles and passes',['libm/src/libm_helper.rs','libm/src/lib.rs'],[('macro-generated forwarding methods','libm/src/libm_helper.rs')],EQ,'Input lattices of C25 (all binary16 values, exponent x leading-bit product lattices for the wider formats, pairs and triples of shape alphabets). Says nothing about inputs outside those lattices; forwarding has no data-dependent control, so one state per forwarding path already decides it.')
p('C27','The exported C symbols compute the Rust functions','Every C symbol exported by the compiler-builtins style build returns, for every argument, bit for bit what the Rust function of the same name returns, stores the additional results of functions with several results through the right pointer, and writes nothing else. The exported signatures follow the C ABI of their format.',['inputs','configurations'],'every exported symbol, every argument, with guard words around every output location','the suite only compiles this crate; no test ever calls an exported symbol',['crates/compiler-builtins-smoke-test/src/math.rs','libm/configure.rs',S+'mod.rs'],[('no_mangle wrappers generated by a macro, hand-written ones for out-parameters','crates/compiler-builtins-smoke-test/src/math.rs'),('configuration without the standard feature set','libm/configure.rs')],EQ,'Input lattices of C25. Checks the x86-64 ABI only.')
p('C28','Hexadecimal float text is read and written exactly','Hexadecimal floating-point text is accepted exactly when it is well formed and is converted with one correct rounding in each of the four rounding modes, for every format of up to 119 fraction bits, with the overflow, underflow and inexact flags raised exactly when they apply; the strict form refuses exactly the text that is not representable. Formatting a value gives text that reads back to the same value.',['inputs'],'every text (up to 500 million digits), every target format, every rounding mode; every value to be formatted','tests parse a list of literals and round-trip one 16-bit format; exponents at the integer limits, sticky digits beyond 128 bits and the directed modes are not covered',[S+'support/hex_float.rs',S+'support/env.rs',S+'support/macros.rs'],[('digit accumulation with a sticky bit, two-step rounding',S+'support/hex_float.rs'),('status flags as a bit set',S+'support/env.rs')],'exhaustive enumeration of a bounded text space against an arbitrary-precision reference reader and writer','All strings of up to 4 symbols over 19, all bodies of up to 6 (8) symbols over 11 after 0x, every binary16 value and rounding boundary in 8 spellings, boundary lattices of the wider formats, digit patterns of every length up to 48 (80), exponents around every power of two and ten up to 60 digits, all 3101 supported formats over 306 texts. Formats without fraction bits are outside the property.',observe=['return value and status of libm::support::hex_float::parse_any / parse_hex_exact / hf16..hf128','output of the Hexf formatter'])

TL='crates/libm-test/src/'
p('C29','Wide integers and the integer/float support layer are exact','The 256-bit integers and the helper traits behind the generic algorithms compute exactly modulo the width of the type: widening and overflowing arithmetic, shifts inside the width, comparison, casts between all integer and float types, halves and widenings. The constants and bit accessors of every float type describe its IEEE 754 layout, and widening or narrowing between formats rounds once to nearest-even.',['inputs'],'every operand pattern and every pair of operand patterns, for every integer and float type','tests multiply and shift a list of constants; carries between limbs, comparisons that differ in one limb only and casts between less used types are not covered',[S+'support/big.rs',S+'support/int_traits.rs',S+'support/float_traits.rs',S+'support/env.rs'],[('limb-wise multiplication, shifts by whole limbs',S+'support/big.rs'),('casts and halves by macros over all type pairs',S+'support/int_traits.rs'),('layout constants derived from the number of significand bits',S+'support/float_traits.rs')],EN+' (exact wide integers; bit-level definitions)','Complete for 8-bit types and binary16; 16- to 256-bit types over runs of ones at every place, limbs over a small alphabet and single- and double-bit patterns. Shifts of the 256-bit types by 256 or more, absolute value of unsigned types and subnormality of zero are outside the property.',observe=['results of the traits and types exported by libm::support'])
p('C30','Stepping and spacing of test inputs is exact','Moving up or down by one or by n representable values lands exactly n places further on the number line (both zeros being one place, saturating at the infinities, NaN unchanged), for every float format including the 8-bit test format. Logarithmically and linearly spaced sequences start at the given start, advance by a constant number of places or integers (the range divided by the intervals, rounded down, at least one), stay inside the range, never repeat, and have exactly the announced length, for every request of at least two points.',['inputs'],'every start value, distance, range and number of points','tests enumerate the 8-bit format and a few sequences; the wider formats, saturation near the limits of the integer type and long ranges are not covered',[TL+'num.rs',TL+'f8_impl.rs'],[('integer arithmetic on representations with saturation',TL+'num.rs'),('an 8-bit IEEE format',TL+'f8_impl.rs')],EN+' (number-line model)','8-bit format complete (all pairs, all ranges and counts); one step complete for binary16 and (thorough) binary32; n steps for all binary16 values (thorough: all 2^32 pairs); boundary values and distances above.',observe=['FloatExt, logspace, linear_ints, f8 of libm_test'])
p('C31','The test comparison accepts exactly what is within tolerance','Comparing an actual with an expected result succeeds exactly when both are NaN, or both have the same sign and are both finite or both infinite and their distance is at most the allowed number of representable values; integers must be equal and every component of a multi-part result must pass. Deviations are excused only for the routines, bases and inputs documented as special cases, never for listed cases checked against exact results, and a deviation expected to fail is reported when it does not. The default tolerance is zero for every operation that has to be exact and at most the documented worst case of the others.',['inputs','configurations'],'every routine, basis, generator kind, input, tolerance and pair of results','the comparator is what the tests are written in: nothing tests it, and a comparator that accepts too much makes every test pass',[TL+'test_traits.rs',TL+'precision.rs',TL+'run_cfg.rs'],[('distance of representations after sign and class checks',TL+'test_traits.rs'),('table of special cases and tolerances',TL+'precision.rs')],EN+' (acceptance model)','All routines x 3 bases x 5 generator kinds x inputs at the edges of every special case x all pairs of representative results; boundary results x distances around each tolerance; all binary16 results with their neighbours.',observe=['CheckOutput::validate, default_ulp, CheckCtx::new of libm_test'])
ML='crates/libm-macros/src/'
p('C32','The function table and its macros cover every routine exactly once','Iterating over the functions with the table macro calls back exactly once for every public routine that is not skipped (or that is listed), with the right name, float type, argument and result types, exactly the attributes whose list names the routine, its own extra expression, and the shared extra tokens, whatever the order of the fields; invocations that name unknown routines, repeat a routine or miss a required field are refused. The identifiers and base names of the test library enumerate the same routines exactly once, and converting between text, identifier, base name and types is consistent.',['inputs','configurations'],'every combination of fields of the macro, every routine','every generated test goes through this table: a routine that is silently skipped, or mapped to the wrong base, loses its tests without a failure',[ML+'lib.rs',ML+'parse.rs',ML+'enums.rs',ML+'shared.rs',TL+'op.rs'],[('table of signatures and name lists',ML+'shared.rs'),('skip / only / attribute matching',ML+'lib.rs'),('identifier and base name enums',ML+'enums.rs')],'exhaustive enumeration of macro invocations, expanded by the real procedural macros in the real compiler, and comparison of every callback with a model of the table','Groups of routines that separate every ordered pair of routines for only, skip, attributes and fn_extra; every subset of the type fields and every order of the fields; one refused invocation per rule. Does not enumerate all subsets of routines.',observe=['tokens passed to the callback macro','diagnostics of refused invocations','Identifier and BaseName of libm_test'])
p('C33','The evaluator prints the result of exactly the given input','Evaluating a binary32 or binary64 routine of this crate on the command line prints the result of that routine, in decimal and hexadecimal form, for exactly the values the arguments denote in their order: decimal text rounded once to nearest, hexadecimal floats, bit patterns written in hexadecimal or binary, and integers in decimal, hexadecimal or binary with their sign. An unknown routine, basis or subcommand, a wrong number of arguments, or text that denotes no value ends with a non-zero exit status and prints no result.',['inputs'],'every command line','the tool has no tests; it is what a developer trusts when investigating one input',['crates/util/src/main.rs'],[('dispatch by macro over all routines','crates/util/src/main.rs'),('radix prefixes and hex floats','crates/util/src/main.rs')],'exhaustive enumeration of a bounded space of command lines, each run with the real program and judged by exact rational arithmetic','All binary32/binary64 routines x boundary values (ordered products for several arguments), every spelling of boundary values, powers of two and ten and rounding ties, integers in three bases, and every kind of refused text in every argument position. Only the basis "libm" (the others need C libraries that are not part of the build here); binary16 and binary128 text needs MPFR.',observe=['exit status and standard output of the util binary'])
p('C34','Test input generators deliver what they announce','Every generator of test inputs yields exactly the announced number of items. Edge cases are the product, each tuple once, of argument values that include zeros, ones, infinities, NaNs, the ends of the region of the routine, its asymptotes, the largest subnormal and for exponents the limits of the format, with the configured number of neighbours; spaced inputs are all patterns when they fit into the requested number and otherwise the equally spaced points of the region; random inputs are reproducible from the seed, cover all bits and keep integers in range. The environment selects exactly the named routines and refuses unknown ones, and calling a routine with a tuple puts every argument and every additional result in its place.',['inputs','configurations'],'every routine, generator, requested number of inputs and environment','a generator that silently loses inputs makes every generated test weaker, and no test fails',[TL+'generate.rs',TL+'generate/edge_cases.rs',TL+'generate/spaced.rs',TL+'generate/random.rs',TL+'domain.rs',TL+'run_cfg.rs',TL+'test_traits.rs'],[('nested iterators with products of counts',TL+'generate/spaced.rs'),('lists of points with neighbours, sorted and deduplicated',TL+'generate/edge_cases.rs'),('table of regions per function',TL+'domain.rs'),('iteration counts and environment variables',TL+'run_cfg.rs')],'exhaustive enumeration of generator configurations, every generated item checked against a model of the set and of the product','Every routine; spaced inputs with 2 to 65537 points per argument and the default numbers, iterated completely up to 2^21 (2^26) items and by announced length and prefix beyond; products are compared through a factorising 128-bit sum. Requests of fewer than two points are outside the property.',observe=['items and announced length of edge_cases, spaced and random get_test_cases','skip_extensive_test','TupleCall'])
p('C35','Every target computes the same results','For every function and argument the library built for 32-bit x86 with SSE2 and for wasm32, the latter both portable and with its wasm instructions, returns bit for bit the result of the x86-64 build (any NaN equal to any NaN). On x86 without SSE2, where intermediate results are wider, the routines whose result needs no rounding (rounding to an integer by ceil, floor and trunc, minimum and maximum, sign operations, fmod, square root, decomposition, scaling and next value) return it too.',['inputs','configurations'],'every function and argument on every target whose code can be executed','the suite runs on the host only; target-specific files and width-dependent integer code are not executed by it at all',[S+'arch/mod.rs',S+'arch/wasm32.rs',S+'arch/i686.rs',S+'arch/i586.rs','libm/configure.rs',S+'support/int_traits.rs'],[('routines replaced per target',S+'arch/mod.rs'),('replacements for the x87 unit',S+'arch/i586.rs'),('wasm instructions',S+'arch/wasm32.rs'),('target-dependent configuration','libm/configure.rs')],'exhaustive enumeration of a bounded input space, the code of all targets executed in lock step (differential): 32-bit programs on the processor, wasm modules in node','Input lattices of C25. binary16 and binary128 on x86-64 and i686 only. The aarch64 routines cannot be executed here. The wasm build with intrinsics is compiled from a copy in which one renamed intrinsic is spelled the way the available toolchain wants it.')
p('C36','Build configuration follows the features and the target','For every set of features, target and build environment, the build scripts enable exactly the code paths asked for: compiler intrinsics and architecture-specific code only when their feature is on and never together with force-soft-floats, binary16 and binary128 only with unstable-float, never with no-f16-f128 and never on an architecture or system documented as not supporting the type, the x87 replacements exactly on 32-bit x86 without SSE, and expensive tests only when optimising. Every condition a script sets is declared to the compiler and logged with the features it came from.',['configurations'],'every combination of features, architecture, operating system, target features and optimisation level','the suite is built for one target with one set of features',['libm/configure.rs','libm/build.rs','crates/compiler-builtins-smoke-test/build.rs','crates/libm-test/build.rs'],[('feature logic of the build script','libm/configure.rs'),('table of unsupported architectures','libm/configure.rs')],'exhaustive enumeration of the configuration space: the real build scripts compiled for every feature set and run in every build environment, compared with a model','29 architectures; features that no build script reads are left out. Whether the enabled code computes the same results is C25 and C35.',observe=['cargo: lines printed by the build scripts'])
