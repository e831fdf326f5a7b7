CHECKS = {
    "C01": dict(harness=["c01_vector.cpp"], lib="core",
                bounds={"quick": "all histories of <=5 operations (15 kinds, all positions, counts 0-3, sizes 0-5) on two vectors; <=4 with one refused allocation; operations given elements of the vector itself; containers of up to 257 elements and more, around every power of two, each operation at the edges", "thorough": "<=7 operations, <=5 with refused allocation"},
                assumptions=["elements are opaque to the template, so states are merged by size, capacity and allocator", "emplace_back_args with elements of the vector itself is not called"]),
    "C02": dict(harness=["c02_list.cpp"], lib="core",
                bounds={"quick": "all histories of <=7 operations (17 kinds, every position) on two lists, <=6 with one refused allocation; containers of up to 257 elements and more, around every power of two, each operation at the edges", "thorough": "<=9 / <=8"},
                assumptions=["elements are opaque to the template, so states are merged by sizes, allocators and the equality pattern of the values"]),
    "C03": dict(harness=["c03_hashmap.cpp"], lib="core",
                bounds={"quick": "all histories of <=6 operations on two maps, 3 keys, 1/2/5 buckets, 3 hash functions; string keys <=5; containers of up to 257 elements and more, around every power of two, each operation at the edges", "thorough": "<=7 / <=6"},
                assumptions=["keys with equal 64-bit hashes are the same key (documented identity of the map)", "values are opaque to the template"]),
    "C04": dict(harness=["c04_string.cpp"], lib="core", hang=120,
                bounds={"quick": "all histories of <=4 operations (19 kinds, 5 texts, every position/length) on two strings of up to 6 characters (grown from at most 3); operations given text of the string itself; integer formatting for structured values in bases 2-16 and all buffer lengths; containers of up to 257 elements and more, around every power of two, each operation at the edges", "thorough": "<=5 operations, strings grown from at most 5 characters; all 2^32 decimal conversions"},
                assumptions=["emplace_back_args with characters of the string itself is not called (the references dangle after the first growth)"]),
    "C05": dict(harness=["c05_alloc.cpp"], lib="core",
                bounds={"quick": "all histories of <=5 allocate/deallocate requests (8 sizes incl. SIZE_MAX, 4 alignments) on buffers of 0-48 bytes at 2 misalignments; every (alignment<=128, offset<64, size<=80, space<=80) of the aligner; scoped/construct histories; buffers of up to 1 MiB filled with blocks of up to 65537 bytes", "thorough": "<=6 requests, 4 misalignments"},
                assumptions=["alignments are powers of two (documented)", "blocks are released with their own size or size 0"]),
    "C07": dict(harness=["c07_callable.cpp"], lib="core",
                bounds={"quick": "all histories of <=10 operations (construct from 7 target kinds, assign functor lvalue/const/rvalue, copy/move construct and assign incl. self, reset, invoke) on two callables, for Callable with two allocators and HeapCallable; <=7 with one refused allocation; 6 argument signatures (references, values, returned references, derived objects) x 6 ways of holding a function, member function or functor x 5 histories; functions with 0-3 unnamed arguments x 5 histories; functors of 1-80 bytes at alignments 1-16", "thorough": "<=14 / <=10"},
                assumptions=["an empty callable is not invoked"]),
    "C06": dict(harness=["c06_graph.cpp"], lib="full", libs=["-lSPIRV-Tools"],
                bounds={"quick": "all histories of <=7 graph operations on <=4 nodes and <=6 edges (parallel edges and self loops included); every function of <=3 blocks with every terminator; every call structure over <=4 functions with <=2 calls each (unordered call pairs at 4); every expression DAG of <=4 nodes with <=2 parallel edges; graphs, functions and call graphs of up to 130 nodes in several shapes", "thorough": "<=10 graph operations, functions of <=4 blocks, ordered call pairs, DAGs of <=5 nodes"},
                assumptions=["expression graphs are acyclic", "disconnect may remove one or all of several parallel edges"]),
    "C08": dict(harness=["c08_literals.cpp"], lib="full", libs=["-lSPIRV-Tools"],
                bounds={"quick": "every value of bool, char, signed/unsigned 8- and 16-bit types, structured values of the 32- and 64-bit types; every string of <=7 bytes over 2-5 bytes including 0x01, 0x80, 0xff, every length up to 268; every list of <=4 operands of 9 kinds under 5 opcodes", "thorough": "strings of <=9 bytes and lengths up to 4208; operand lists of <=5"},
                assumptions=["an instruction has at most 65535 words (limit of the format)"]),
    "C12": dict(max_violations=4000, harness=["c12_grammar.cpp"], lib="full", libs=["-lSPIRV-Tools"],
                bounds={"quick": "every opcode 0-65535, every number 0-511 of both extended instruction sets, every operand kind with every enumerant value of the specification, all values below 32768 and all single bits", "thorough": "the same (the space is finite and covered)"},
                technique="exhaustive enumeration of the table's whole key space against the Khronos machine-readable grammar",
                assumptions=["the reference is the SPIR-V grammar of the installed spirv-headers (1.6.1+1.3.275, committed as harness/spec_grammar.h); entries only the library knows are newer and not judged", "enumerants with several names may be recorded under any of them; minimum version 1.0 may be recorded as 0"]),
    "C10": dict(harness=["c10_roundtrip.cpp"], lib="full", libs=["-lSPIRV-Tools"], max_violations=4000,
                bounds={"quick": "every instruction of the Khronos grammar the library knows (core, GLSL.std.450, OpenCL.std, OpSpecConstantOp), with every alternative of every operand slot one at a time (every enumerant with its parameters, every pair of mask bits, all bits, optional/repeated operands, strings, boundary literals); modules of <=2 functions with 0-2 parameters, 0-3 blocks, 0-2 entry points; every pair of 30 module-section features; modules with 7-1025 of each of 24 things (scale.h)", "thorough": "two operand slots at a time; <=3 functions; every triple of section features"},
                assumptions=["the reference decoder is SPIRV-Tools' binary parser", "the names of extensions, imports and entry points are not empty (the library rejects them deliberately)"]),
    "C11": dict(harness=["c11_malformed.cpp"], lib="full", libs=["-lSPIRV-Tools"], max_violations=4000,
                bounds={"quick": "a module with every section and type kind (363 words): every truncation, every word replaced by every id in use and 11 hostile values, every first word by every opcode below 400 and 9 word counts, every instruction removed/shortened/lengthened; every known instruction with operands missing or surplus or the stream ending inside it (2 variants); every stream of <=4 words over 20 hostile words; every sequence of <=2 of 236 small instructions referring to each other, themselves or nothing; large modules (scale.h) with ten kinds of defects at six places", "thorough": "every id and opcode, exchanged and inserted instructions, 12 variants per instruction, streams of <=5, sequences of <=3"},
                assumptions=["lengths that depend on types (OpConstant, OpSwitch) and block structure are not among the defects the reader must report", "after a successful read the whole pipeline (resolve, names, types, finalize) must survive arbitrary operands"]),
    "C09": dict(harness=["c09_valid.cpp"], lib="full", libs=["-lSPIRV-Tools"], max_violations=400,
                bounds={"quick": "every program of <=3 steps out of 49 uses of the builder API (the third out of the 22 that change the module structure) plus finalizing in between; every program is also finalized and written twice; modules with 7-1025 of each of 24 things (scale.h)", "thorough": "programs of <=4 steps (the fourth out of 22)"},
                assumptions=["steps are documented uses of the API with legal arguments; illegal arguments are the subject of C15-C17 and C31", "the validator is SPIRV-Tools (universal environment of the module's version, block layout not checked)"]),
    "C24": dict(harness=["c24_sink.cpp"], lib="full", libs=["-lSPIRV-Tools"],
                bounds={"quick": "every program of <=2 steps out of 49 (the second out of 22) and one with all steps in both orders: every word of the binary is the one the sink rejects, once and from there on, for Module::write, Module::finalizeAndWrite and every Instruction::write; every one-step program without terminator; modules with 7-1025 of each of 24 things (scale.h)", "thorough": "every pair of the 46 steps"},
                assumptions=["Function::write and BasicBlock::write return nothing, so there is nothing they could report"]),
    "C23": dict(harness=["c23_moves.cpp"], lib="full", libs=["-lSPIRV-Tools"],
                bounds={"quick": "every history of <=3 operations on two modules with separate allocators (7 build steps, finalize+write, read, destroy and move construct, move assign, self-assign, reset, swap, destroy, in either direction); every function with 1-3 blocks, named and called or not, move constructed, move assigned over an empty or a built function or assigned to itself at every stage of being built; modules with 7-1025 of each of 24 things (scale.h)", "thorough": "histories of <=4 operations with 12 build steps"},
                assumptions=["functions are moved within one module", "pointers to functions, blocks and instructions stay usable after their module was moved (list nodes keep their address)"]),
    "C22": dict(harness=["c22_remove.cpp"], lib="full", libs=["-lSPIRV-Tools"], max_violations=400,
                bounds={"quick": "a module with every section (about 190 instructions, 5 functions, 11 blocks) under construction, finalized, read from a binary, or with an unfinished block: every instruction, function, entry point and block removed, with and without replacement; every pair of removals under construction; every instruction replaced by 2 others, uses gathered with and without replacement; modules with 7-1025 of each of 24 things (scale.h)", "thorough": "every pair of removals in all four states; every instruction replaced by 12 others"},
                assumptions=["uses of something removed without replacement become null operands, which the caller has to fill in; until then writing reports failure"]),
    "C21": dict(harness=["c21_names.cpp"], lib="full", libs=["-lSPIRV-Tools"], max_violations=400,
                bounds={"quick": "every history of <=3 operations on a module with 5 kinds of targets: naming them with 7 names (prefixes of each other, control character, UTF-8), naming 3 members of 2 structs, removing targets, writing and reading the module, requesting an existing type or constant with a name; all 14 calls that create something named, built, read back and moved; up to 1025 names of five styles", "thorough": "histories of <=4 with 7 targets, 9 names, 4 member indices"},
                assumptions=["a target named several times may report any of its names"]),
    "C19": dict(harness=["c19_interface.cpp"], lib="full", libs=["-lSPIRV-Tools"], max_violations=400,
                bounds={"quick": "every call relation of two entry points and 3 helpers (recursion included), before and from SPIR-V 1.4; 17 instruction forms with variables in every subset of their operand slots, 11 storage classes, 4 versions, in the first or a later block, a helper or a helper of a helper; every history of <=3 edits (add or remove a use or a call, raise the version, finalize, write and read) of a module with 4 functions and 3 variables; up to 300 functions, variables or entry points in eight shapes", "thorough": "histories of <=5 edits"},
                assumptions=["a variable counts as used when an instruction of the call tree has it as an operand"]),
    "C18": dict(harness=["c18_flow.cpp"], lib="full", libs=["-lSPIRV-Tools"], max_violations=400,
                bounds={"quick": "every program of <=4 statements (emit, if, if/else, loop, return, kill, unreachable, break, continue; nesting <=3) built with callbacks or with blocks, with and without given merge block, in every combination of outer and inner style; every assignment of truth values to the first 6 conditions executed; every terminator ending every kind of branch; large programs (many statements, deep nesting)", "thorough": "programs of <=5 statements, 7 conditions"},
                assumptions=["the user terminates the innermost merge block of a nested construct, as the helpers do not know where it continues", "conditions and continue blocks are straight-line code; blocks passed ready-made are not empty"]),
    "C29": dict(harness=["c29_files.cpp"], lib="full", libs=["-Wl,--wrap=fread"], max_violations=400,
                bounds={"quick": "every file of 0-24 bytes with every offset and length up to 5 beyond its size and 8 huge ones, by constructor and by read(); every history of <=4 requests (get, drain, 7 files incl. missing, misaligned, empty, a directory, 4 ranges, no path, files that deliver less than their size) on one reader; every history of <=5 operations (put, open 2 files/an impossible path/a full device, close) on a writer with 4 buffer sizes and 4 initial paths with one of the first 3 allocations refused, then destroyed; every length up to 2200 words with 5 buffer sizes", "thorough": "files up to 48 bytes, 5 requests, 7 operations, 4200 words"},
                assumptions=["put is used while the writer is open", "a full device shows when the file is closed (stdio buffering)"]),
    "C20": dict(harness=["c20_required.cpp"], lib="full", libs=["-lSPIRV-Tools"], max_violations=400,
                bounds={"quick": "every instruction of the library's grammar in a module that declares nothing, what the user wants, or everything, by the three ways of adding requirements, twice; every pair of distinct requirement sets in 5 placements; every extended instruction; every capability with its closure; every history of <=4 declarations, removals, imports, version requests and requirement scans; up to 200 capabilities, extensions and imports in eight orders, built, moved and read, some removed", "thorough": "histories of <=5"},
                assumptions=["the reference is the Khronos grammar; the library's grammar has no requirements of enumerants, so only those of instructions are judged"]),
    "C32": dict(harness=["c32_types.cpp"], lib="full", max_violations=400,
                bounds={"quick": "about 400 descriptions (every kind, scalar widths and signs, vectors, matrices, 13 images, arrays, pointers, functions and structures up to depth 3) built in 16 ways over 5 earlier contents; every predicate with every argument on each; every ordered pair of descriptions; every history of <=5 operations out of 22 on two descriptions; 85 C++ types; structure names through pointers, arrays and nesting; structures and signatures of up to 257 members, types nested 65 deep", "thorough": "histories of <=7"},
                assumptions=["members are present where a predicate looks at them (vectors and matrices are complete)"]),
    "C13": dict(harness=["c13_dedupe.cpp"], lib="full", libs=["-lSPIRV-Tools"], max_violations=400,
                bounds={"quick": "about 400 types and 80 constants requested in one module starting with each of them, then again; every tree of structures, pointers, arrays and two scalars with <=6 nodes (8000) in one module, 16 starts; every specialisation constant; 22 constants and every ordered pair of 27 types through the C++ interface; every history of <=3 requests out of 38 (types, constants, named or not, numbering, writing, own instructions); up to 300 types or constants of nine kinds, or ones that differ in one place of 300", "thorough": "trees of <=7 nodes, histories of <=4"},
                assumptions=["descriptions are complete (a pointer has a pointee, a pipe an access qualifier)", "descriptions the library says it does not implement (opaque types, specialisation operations) are not requested"]),
    "C14": dict(harness=["c14_reconstruct.cpp"], lib="full", libs=["-lSPIRV-Tools"], max_violations=400,
                bounds={"quick": "about 400 types each alone (aggregates also twice) and all in one binary starting with each; every tree of structures, pointers, arrays and two scalars with <=6 nodes; every type in the binary against every 7th other; 137 constants and specialisation constants each alone and repeated, and all in one; 23x23 values by the C++ interface; every program step and pair of structural steps; histories of 3 requests, rereads and reconstructions over 14 starting binaries; 21 special modules; four manners of reading; modules with 7-1025 of each of 24 things (scale.h)", "thorough": "every pair of types, triples of structural steps, histories of 4"},
                assumptions=["types no description can express (recursive pointers, opaque types, arrays sized by an operation on specialisation constants) and constants made of undefined values have to be reported as failure"]),
    "C15": dict(harness=["c15_ops.cpp"], lib="full", libs=["-lSPIRV-Tools"], max_violations=400,
                bounds={"quick": "93 operations with every combination of operand types out of 58 (12 scalars, their vectors, 9 matrices, structures, arrays, pointers, sampler), 9 conversion widths and 58 bitcast results; the generic operations also in their 4 other forms; bit field operations with 4 operands; pointer conversions and comparisons out of 23 types; every allowed operation on specialisation constants by both ways, declared before and after its operands", "thorough": "all vector lengths and 9 float matrix shapes"},
                assumptions=["which combinations must be accepted follows the SPIR-V rules restricted to the signedness the operation is named for; everything accepted is judged by the validator"]),
    "C16": dict(harness=["c16_composites.cpp"], lib="full", libs=["-lSPIRV-Tools"], max_violations=400,
                bounds={"quick": "every index list (all indices in range, three out of range, one too many) into 28 nested types in 9 storage classes, by both index forms and 7 kinds of index instructions with right and wrong result types; all lists of up to 5 constituents out of 11 types for 19 results; all shuffles of 2-4 components; selections of 15x15 objects under 8 conditions; loads, stores and copies of 13 types in 7 classes; all lists of up to 3 arguments for 8 signatures in 4 forms; merges of 8x8 types; 254 members or arguments and types nested 129 deep, right and wrong in one place", "thorough": "some 600 types nested three levels deep, argument lists of 4"},
                assumptions=["constant indices beyond a vector, matrix or array count as not fitting; the length of an array sized by a specialisation constant is its default (known finding of C14)"]),
    "C17": dict(harness=["c17_glsl.cpp"], lib="full", libs=["-lSPIRV-Tools"], max_violations=400,
                bounds={"quick": "every helper with every type (unary) or pair of types (binary) out of some 40, third operands equal or standard; interpolation of 11 types in 4 classes with 11 second operands; the numbers of all 81 instructions; all sequences of 4 uses, imports, writes and reads", "thorough": "all triples of some 50 types; sequences of 6"},
                assumptions=["the sign of an integer result and FaceForward-like combinations the set leaves open are the library's choice"]),
    "C31": dict(harness=["c31_images.cpp"], lib="full", libs=["-lSPIRV-Tools"], max_violations=400,
                bounds={"quick": "17 sampling, fetch, gather, read and write helpers with some 110 declarable image types: 25 coordinate types and 18 depth references, components or texels under fitting image operands, some 330 sets of image operands (masks, missing, surplus, misplaced, wrong type, not constant) at fitting coordinates; 9 queries and conversions on all images and other things; kernels; channels of all formats", "thorough": "every component type for every image, larger coordinates with all operand sets"},
                assumptions=["combinations only extensions allow, and components other than 32 bits wide, may be taken or reported; a result of OpImageRead may have the channels of the format or four components", "depth comparisons on images of void are left out (the validator takes no result type at all)"]),
    "C27": dict(harness=["c27_reflection.cpp"], lib="full", libs=["-lSPIRV-Tools"], max_violations=400,
                bounds={"quick": "every history of <=3 declarations out of 29 (plain, member, id and string decorations, groups, names; values and member indices equal to decoration codes) over 10 targets, each queried as built, as written and as read with 14 decorations and 5 values; every list of <=3 execution modes out of 13 on two entry points; every list of <=4 variables over 8 storage classes; every operand name and kind on every variant of every instruction (core, GLSL, OpenCL); up to 300 variables and decorations", "thorough": "histories of <=4 declarations, 5 modes, 6 variables, pairs of operand deviations"},
                assumptions=["decorations other than OpDecorate and OpMemberDecorate may or may not count for queries without value", "parameters of enumerants may count as operands of their kind"]),
    "C35": dict(harness=["c35_options.cpp"], lib="none", variant_src="c35_variant.cpp", libs=["-lSPIRV-Tools"],
                variants={n: ["-D" + d + "=1" for d in ("SPVGENTWO_ENABLE_OPERANDVALIDATION", "SPVGENTWO_LOGGING", "SPVGENTWO_REPLACE_PLACEMENTNEW", "SPVGENTWO_REPLACE_TRAITS") if d not in off] for n, off in {
                    "all": [], "own_traits_off": ["SPVGENTWO_REPLACE_TRAITS"], "own_new_off": ["SPVGENTWO_REPLACE_PLACEMENTNEW"], "logging_off": ["SPVGENTWO_LOGGING"], "validation_off": ["SPVGENTWO_ENABLE_OPERANDVALIDATION"],
                    "none": ["SPVGENTWO_ENABLE_OPERANDVALIDATION", "SPVGENTWO_LOGGING", "SPVGENTWO_REPLACE_PLACEMENTNEW", "SPVGENTWO_REPLACE_TRAITS"]}.items()},
                bounds={"quick": "every program of <=2 steps (all building steps), every shape of large modules with 9, 33 and 129 parts, every history of 4 out of 11 operations on 11 kinds of containers, 2 modules with every word damaged in 6 ways, 31 calls with every pair of 14 operands (fitting or not), under six combinations of the four options", "thorough": "programs of 3 steps (the third out of 8), modules of 7 sizes up to 257 parts, histories of 5, 4 modules damaged in 8 ways"},
                assumptions=["SPVGENTWO_DEBUG_HEAP_ALLOC needs the debug runtime of MSVC and is not built", "with operand validation off only legal programs (and reading) are promised to behave alike"]),
    "C36": dict(harness=["c36_independence.cpp"], lib="full", libs=["-lSPIRV-Tools", "-pthread"], max_violations=400,
                bounds={"quick": "every program of <=2 building steps and every shape of large modules (9 and 33 parts) under 5 allocators (address orders, contents of fresh memory, reuse); every interleaving of the 5 + 5 groups of calls that start, extend, write and print, read, and rewrite two modules (every step against 9); two threads building modules with one preemption at every 12th allocation, deallocation, word written or read, and a second one", "thorough": "programs of 3 steps, large modules of up to 130 parts, every pair of steps interleaved, a preemption at every 4th point with 2 places for the second"},
                assumptions=["modules do not share an allocator, logger, reader or writer; the grammar is shared and not modified", "control passes between threads at calls of the allocator, reader and writer and between building steps only"]),
    "C37": dict(harness=["c37_logging.cpp"], lib="full", libs=["-lSPIRV-Tools"], max_violations=400,
                bounds={"quick": "every history of <=4 filter changes (5 filters), callback changes (3) and messages (5 levels in 5 ways: log, by name, by the module, with a condition that holds or not) from 3 constructions; every pair of combined level and filter; the console logger's output under all 32 filters; every triple of sets out of 5 bits (the lowest and highest) for every flag operation; every version, every generator with 6 versions", "thorough": "histories of 5"},
                assumptions=["the format of the console is 'Level: message'"]),
    "C28": dict(harness=["c28_vulkan.cpp"], lib="full", libs=["-lSPIRV-Tools"], max_violations=400,
                bounds={"quick": "every resource type (sampler, acceleration structure, images and sampled images of 7 dimensions x depth x arrayed x multisampled x sampled, 3 structures with 6 decorations, 3 others) alone and in 4 array nestings in 9 storage classes, as built and as read; every list of <=3 variables out of 7 kinds with up to 7 set/binding assignments; execution models 0-70000; every image format with 4 earlier contents; up to 129 shared bindings in four orders", "thorough": "lists of <=4 variables"},
                assumptions=["undecorated buffer blocks, sampled buffers and images the rules do not allow are open", "normalised formats as floats may be wider than the format"]),
    "C26": dict(harness=["c26_printer.cpp"], lib="full", libs=["-lSPIRV-Tools"], max_violations=400,
                bounds={"quick": "every variant of every instruction of the grammar (every alternative of every operand, every extended instruction), with and without names of ids, with all 128 option subsets for every eighth variant and the 16 smallest and largest subsets for the others, and whole modules of them; 3 modules with every option subset, indentation, colours and kind of printer; constants of 13 types with 31 values with every option subset; modules built by every program of <=2 steps as built and as read; modules with 7-1025 of each of 24 things (scale.h)", "thorough": "pairs of operand deviations, programs of <=3 steps"},
                assumptions=["combined masks print as number or as joined names", "strings print as they are", "half constants may print as word"]),
    "C25": dict(harness=["c25_linker.cpp"], lib="full", libs=["-lSPIRV-Tools"], max_violations=400,
                bounds={"quick": "42 features of exported functions (types, constants, specialisation constants, variables, blocks, callees, exported callees, control flow, images, extended instructions, extensions, lines, undefined values) x 10 consumers x every subset of the 8 import options for the minimal consumer (subsets lacking at most one for the others) x other options; every ordered pair of features x consumers x 4 option sets; 4 x 4 versions; 5 mismatches of name or type; two libraries one after the other in both orders; definitions turned into declarations (every subset of the functions) and linked again; libraries with up to 300 instructions, blocks, functions or symbols", "thorough": "all 256 subsets of the import options x 8 of the others for every consumer, named and unnamed; declarations of every pair of features"},
                assumptions=["an item the consumer has already may be reported or found when its option is off", "types and constants an imported item consists of come along with it", "types of a callee's signature count as present", "group decorations are not transferred", "the consumer is unspecified after a failed import"]),
    "C30": dict(harness=["c30_tools.cpp"], lib="full", libs=["-lSPIRV-Tools"], max_violations=400, tools=True,
                bounds={"quick": "disassembler: every list of <=3 of 12 options on 3 modules, output compared with the printer's, serialized.spv with the writer's; every tool on ~300 (disassembler ~700) missing, empty, truncated (every word) and damaged files; reflector: every list of <=2 of 24 options on 3 modules, every section compared with the binary; linker: 5 library lists x 32 option sets x 3 spellings x rotations (all orders for two option sets) x output or in place x verbose, output compared with the library's; unknown options at every position, arguments cut at every position, unwritable outputs; patching every id and name as import, export, export with variables in all argument orders; splitting by every subset of functions and linking again", "thorough": "lists of <=4 and <=3 options, all files, all argument orders for every fourth option set"},
                assumptions=["the file is the first argument of disassembler and reflector", "what the printer, reader and linker library should do is decided by C11, C25 and C26", "the linker without any argument prints its options", "whether a module with damaged operands is readable is decided by C11"]),
    "C33": dict(harness=["c33_operands.cpp"], lib="full", libs=["-lSPIRV-Tools"], max_violations=400,
                bounds={"quick": "about 230 builder calls x every instruction operand x 16 stand-ins (error instruction, the operand's type, void type, function, label, string, imported set, the instruction itself, empty instruction, store, function type, value of an unrelated structure, array type, pointer to the operand, value that is not constant, constant of an unrelated type) and the good operand; the same stand-ins for every two operands of a call at once; afterwards the instruction is removed and the rest of the module validated", "thorough": "the same (the space is finite and covered entirely by the quick check)"},
                assumptions=["null pointers are not operands (most calls require an instruction)","calls that take any instruction with an id (opExtInst, opSpecConstantOp, the ids of OpDecorateId) leave it to the caller which one fits","an empty instruction may be filled later: it has to be noticed when the module is written"]),
    "C34": dict(harness=["c34_continue.cpp"], lib="full", libs=["-lSPIRV-Tools"], max_violations=400,
                bounds={"quick": "49 building steps (22 structural ones for the longer histories) before, the same steps and 22 edits of what was read (code, variables, calls and control flow added to a read entry point, execution modes, names, decorations, removal, replaced constants, lookups by name, new uses of read types and constants) after writing and reading: all histories of 1+1, 2+1 and 1+2 steps, and two round trips with one step each; each is compared word for word with the module built in one go; modules with 7-1025 of each of 24 things (scale.h)", "thorough": "all 49 steps in the histories of 2+1 and 1+2, 1+1+1 with two round trips"},
                assumptions=["every entry point is complete before its module is written", "the module built in one go is finalized where the other one is written"]),
}
