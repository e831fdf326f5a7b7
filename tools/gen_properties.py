#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). The single source of the property texts."""
import json, os
L = "lib/include/spvgentwo/"; S = "lib/source/"; CI = "common/include/common/"; CS = "common/source/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "The dynamic array behaves as a sequence under every operation history",
 "After any sequence of vector operations (construct, copy, move, assign, insert, append, resize, reserve, fill, clear) the vector holds exactly the elements, in the order, that an abstract sequence would hold, and reports a matching size and emptiness. Every element object is constructed and destroyed exactly once, and no operation reads or writes outside the live elements or leaks or double-frees its storage.",
 ["histories", "inputs"], "all operation sequences up to a bounded length over small value, position and count domains, on two vectors that can be copied, moved and assigned to each other",
 "No unit test exercises the vector directly; it is only used through a few module tests with one growth pattern, so shrink/grow, middle insertion and cross-assignment histories are never reached.",
 [L+"Vector.h", S+"Allocator.cpp"], [("growth and relocation", L+"Vector.h: reserve/grow/resize"), ("middle insertion", L+"Vector.h: insert/assign")],
 ["size()", "element values", "constructor/destructor counts", "allocator balance"])
prop("C02", "The linked list stays a consistent doubly linked sequence under every history",
 "After any sequence of list operations (append, prepend, insert before/after an iterator, erase, pop, clear, copy, move, assign, find, iterator arithmetic) a forward walk and a backward walk both visit exactly the elements an abstract sequence would hold, first/last/size agree, and elements that were not erased keep their address. Every element is constructed and destroyed exactly once and all nodes are returned to the allocator they came from.",
 ["histories", "inputs"], "all operation sequences up to a bounded length over two lists, every iterator position including end, small value domain",
 "The list is only tested indirectly with appends; insert-before, erase in the middle, assignment between lists of different length and backward traversal after such edits are not sampled.",
 [L+"List.h", L+"Entry.h", L+"EntryIterator.h"], [("node linking", L+"Entry.h: append/prepend/insertBefore/insertAfter/remove"), ("list bookkeeping", L+"List.h")],
 ["forward/backward traversal", "size()", "element addresses", "allocator balance"])
prop("C03", "The hash map agrees with an abstract multimap under every operation history",
 "After any sequence of hash map operations (emplace, unique emplace, insert, lookup by key, count, ranges over equal keys, erase of an entry or a range, clear, move, iteration) lookups find exactly the values stored under that key, a unique emplace never adds a second entry for a key nor replaces the stored value, erasing affects only the addressed entries, and iteration visits every entry exactly once with the reported size. Keys that fall in the same bucket never affect each other.",
 ["histories", "inputs"], "all operation sequences up to a bounded length over a key set that is forced to collide in buckets, for bucket counts 1 to 4",
 "Tests only reach the map through module lookups with the default bucket count, so same-bucket collisions, erasure, ranges and rehash are not exercised.",
 [L+"HashMap.h", L+"HashMapIterator.h", L+"FNV1aHasher.h"], [("bucket chains", L+"HashMap.h: emplace/emplaceUnique/find/getRange/erase/rehash")],
 ["find/get/count/getRange results", "elements()", "iteration"])
prop("C04", "Strings equal their abstract value and stay null-terminated after every edit",
 "After any sequence of string operations (construct, append, assign, insert, concatenate, extract a substring, clear, compare, copy, move) the string's characters and size equal those of an abstract string, the character after the last one is a terminator, and comparison and hashing agree with the abstract value. Integer-to-text conversion yields the exact decimal digits for every value and never writes past the buffer it was given.",
 ["histories", "inputs"], "all operation sequences up to a bounded length over empty, one-character and longer literals; all buffer sizes against boundary integers",
 "Strings are only exercised as names in module tests (plain construction and c_str); mutation sequences and boundary lengths are never sampled.",
 [L+"String.h", S+"String.cpp"], [("terminator maintenance", S+"String.cpp"), ("integer formatting", S+"String.cpp: uintToString")],
 ["c_str()", "size()", "comparison operators"])
prop("C05", "Allocators hand out aligned, in-bounds, non-overlapping memory",
 "Every block an allocator returns lies inside its backing memory, is aligned as requested and overlaps no live block; when a request cannot be met it returns null and the allocator keeps serving requests that fit. Scoped helpers release exactly what they acquired and the aligner never hands back a block that does not fit the remaining space.",
 ["histories", "inputs"], "all sequences of allocate/deallocate requests up to a bounded length over small sizes and power-of-two alignments, for every small buffer size and buffer misalignment",
 "One test checks three fixed alignments; exhaustion, misaligned buffers, LIFO release and requests after a failure are not covered.",
 [L+"Allocator.h", S+"Allocator.cpp", CI+"ExternalMemoryAllocator.h", CS+"ExternalMemoryAllocator.cpp", CS+"HeapAllocator.cpp"],
 [("alignment", S+"Allocator.cpp: alignPowerOf2"), ("bump allocation", CS+"ExternalMemoryAllocator.cpp")], ["returned addresses"])
prop("C06", "Graphs mirror their program and expression graphs evaluate each node once",
 "In every graph, after any sequence of adding nodes, connecting, disconnecting and erasing, an edge appears in a node's outputs exactly when it appears in the target's inputs, and no edge names an erased node. The control flow graph of a function has one node per basic block and exactly the branch edges of the terminators, the call graph has one node per reachable function and one edge per call site, and evaluating an expression graph calls each node that the exit depends on exactly once, after all of its inputs.",
 ["histories", "programs"], "all node/edge operation sequences up to a bound; all functions with up to 4 blocks and all terminator choices; all call relations over up to 3 functions; all acyclic expression graphs up to 4 nodes",
 "One test evaluates a single 3-node expression graph; erasure, disconnect, cycles and control flow or call graphs are not tested.",
 [CI+"Graph.h", CI+"Node.h", CI+"ControlFlowGraph.h", CI+"FunctionCallGraph.h", CS+"FunctionCallGraph.cpp", CI+"ExprGraph.h", CI+"Expression.h"],
 [("edge symmetry", CI+"Node.h: connect/disconnect"), ("node removal", CI+"Graph.h: erase"), ("evaluation order", CI+"ExprGraph.h")], ["node inputs/outputs", "evaluation trace"])
prop("C07", "Type-erased callables call the right target and never leak or share it",
 "A callable holding a function, member function or functor forwards its arguments to exactly that target and returns its result, after any sequence of copies, moves, assignments and resets. A copy owns its own functor, a moved-from or reset callable is empty, and every stored functor is destroyed exactly once.",
 ["histories"], "all construct/copy/move/assign/reset/invoke sequences up to a bounded length over several callables and target kinds",
 "Callables are only used once by the expression graph test, with no copy, move, reassignment or reset.",
 [CI+"Callable.h", CI+"HeapCallable.h"], [("ownership", CI+"Callable.h: Callable copy/move/reset")], ["invocation results", "functor live count"])
prop("C08", "Literals and strings are encoded into words exactly and decode back unchanged",
 "Every literal value of any supported scalar type and every string is turned into the number of 32-bit words SPIR-V prescribes, low-order word first, strings packed as little-endian bytes with a terminating zero byte and zero padding, and reading those words back gives the original value. An instruction's reported word count equals the number of words it writes and its first word combines that count with its opcode.",
 ["inputs"], "all boundary values of each scalar type, all strings up to a bounded length over an alphabet containing the extreme byte values, as operands at any position of an instruction",
 "Tests write a handful of fixed strings and literals; string lengths around the 4-byte boundary, high bytes and small or 64-bit literals are not covered.",
 [L+"Operand.h", S+"Operand.cpp", L+"InstructionTemplate.inl", S+"Instruction.cpp"],
 [("literal packing", L+"Operand.h: appendLiteralsToContainer"), ("string decoding", S+"Instruction.cpp: getLiteralString/skipLiteralString/compareLiteralString"), ("word count", S+"Instruction.cpp: getWordCount/getOpCode/write")], ["words written"])
prop("C09", "Every module built through the API is written as a valid SPIR-V binary",
 "A finalized module produced by any sequence of builder calls that the library accepted serializes to a binary with the correct magic number and version, an id bound larger than every id, distinct nonzero result ids, no reference to an undefined id, exact word counts, and sections in SPIR-V logical layout order with definitions before uses. An independent SPIR-V validator accepts that binary.",
 ["programs", "histories"], "all bounded builder programs over types, constants, globals, functions, blocks, arithmetic, memory, composite and call operations, for each supported SPIR-V version and shader stage in the alphabet",
 "The tests validate about twenty fixed modules; the guarantee is for every program the builder accepts.",
 [S+"Module.cpp", L+"ModuleTemplate.inl", S+"Function.cpp", S+"BasicBlock.cpp", S+"EntryPoint.cpp"],
 [("id assignment", S+"Module.cpp: assignIDs"), ("serialization order", S+"Module.cpp: write/iterateModuleInstructions"), ("finalize", S+"Module.cpp/Function.cpp: finalize")], ["binary written", "spirv-val verdict"])
prop("C10", "Reading a valid binary and writing it back preserves every instruction",
 "Parsing any valid SPIR-V binary built from supported instructions succeeds, and writing the module again without reassigning ids yields the same instructions with the same operands, ids and relative order within each section of the module layout (capabilities, extensions and instruction-set imports are unordered sets; whole functions and line information outside functions may be regrouped; every definition stays before its uses), the same version and schema, and a bound that covers all ids. A second read-write pass is word-for-word identical, and resolving ids only replaces an id reference by the instruction that defines it; assigning fresh ids afterwards is a consistent renaming.",
 ["programs", "inputs"], "every binary from a bounded grammar-driven generator: each opcode the grammar knows, in module or function position, with every operand-kind alternative and optional/variadic count up to a bound, plus builder-made modules",
 "The tests read five fixed modules and only check that reading succeeds, never that what is written matches what was read.",
 [S+"Module.cpp", S+"Instruction.cpp", S+"Function.cpp", S+"BasicBlock.cpp", S+"Grammar.cpp"],
 [("parsing", S+"Module.cpp: read; Instruction.cpp: readOperands"), ("id resolution", S+"Module.cpp: resolveIDs")], ["binary written after read"])
prop("C11", "Reading malformed or truncated input fails cleanly",
 "Parsing any word stream terminates, never reads or writes outside its own memory and never crashes, whatever the words are. If the input ends early, lacks the magic number, has a wrong or zero word count, an unknown opcode, or an unterminated string, parsing reports failure instead of success, and the module can still be destroyed, reset or reused.",
 ["inputs", "fault_sequences"], "every truncation point of each corpus binary, every single-word replacement from a set of hostile values at every position, all short word streams over a hostile word alphabet",
 "No test feeds a damaged binary; the space of damaged inputs is every prefix and corruption.",
 [S+"Module.cpp", S+"Instruction.cpp", S+"Function.cpp", S+"BasicBlock.cpp", L+"Reader.h"],
 [("stream checks", S+"Module.cpp: read; Instruction.cpp: readOperands")], ["return value of read/resolve", "sanitizer verdict"])
prop("C12", "The built-in grammar agrees with the SPIR-V specification",
 "For every core instruction and every GLSL and OpenCL extended instruction the library knows, the recorded name, operand kinds, optional and variadic markers, required capabilities, required extensions and minimum version agree with the machine-readable SPIR-V grammar. For every enumerant it knows, the recorded name, parameters, capabilities, extensions and version agree as well, and the result-id and result-type predicates and terminator/type/constant classifications match the specification.",
 ["inputs"], "every opcode from 0 to 65535, every extended instruction number, every operand kind and every enumerant value of the official grammar files",
 "No test looks at the grammar table; it has thousands of entries and is generated.",
 [S+"Grammar.cpp", L+"Grammar.h", L+"Spv.h", L+"SpvDefines.h"], [("tables", S+"Grammar.cpp"), ("predicates", L+"Spv.h: HasResultAndType")], ["getInfo/getOperandInfo results"])
prop("C13", "Types and constants are unique, distinct when different, and defined before use",
 "Asking a module twice for structurally equal types or constants yields the same instruction (specialisation constants excepted: each request makes a new one, since each can be specialised separately), and asking for types or constants that differ in any property yields different instructions, whatever was requested before. Each such instruction encodes exactly the requested type or value, everything it refers to precedes it in the module, and looking up its type or constant gives back what was requested.",
 ["histories", "inputs"], "all sequences up to a bounded length of type and constant requests drawn from an alphabet covering every type constructor, nesting, and constant kind; all pairs for distinctness",
 "Tests request a few types once; collisions between near-identical types or constants and order dependence over request histories are not explored.",
 [S+"Module.cpp", L+"ModuleTemplate.inl", S+"Type.cpp", L+"Type.h", L+"Constant.h", S+"Constant.cpp"],
 [("deduplication", S+"Module.cpp: addType/addConstant"), ("hashing", L+"Type.h/Constant.h: Hasher")], ["returned instruction", "emitted words", "getType/getConstant"])
prop("C14", "Type and constant information is reconstructed faithfully from a binary",
 "After reading a binary, resolving its ids and reconstructing type and constant information, every type and constant instruction maps to a description equal to the one it was created from, and every value's type is reported accordingly. Further requests for an equal type or constant reuse the instruction from the binary instead of adding a duplicate.",
 ["programs", "inputs"], "all types from a bounded constructor alphabet with nesting, all constant kinds over them, written, read back and compared",
 "Reconstruction is only run on three fixed modules by the disassembler tests with no comparison of the result.",
 [S+"Module.cpp", S+"Type.cpp", S+"Constant.cpp"], [("reconstruction", S+"Module.cpp: reconstructTypeAndConstantInfo")], ["Instruction type/constant lookups"])
prop("C15", "Arithmetic, logic and conversion operations infer legal types or are rejected",
 "For every arithmetic, bitwise, comparison, logical, conversion, derivative, matrix and bit operation and every combination of operand types, the library either emits an instruction whose opcode and result type are legal under the SPIR-V rules for those operands, or reports an error instruction. It does not reject operand combinations the rules and its documentation allow, and the generic operators choose the integer, unsigned, float or boolean form that matches the operands.",
 ["inputs", "programs"], "every operation in the builder API against every pair (triple where applicable) of operand types from scalars, vectors and matrices of all component kinds and widths in the alphabet",
 "Tests use a few same-type 32-bit operands; the rule is over the full operation-by-type matrix.",
 [S+"Instruction.cpp", L+"Instruction.h", S+"TypeInferenceAndValiation.cpp", L+"SpvDefines.h", S+"Operators.cpp"],
 [("type checks", S+"Instruction.cpp: scalarVecOp/intFloatOp/Mul/Div"), ("inference", S+"TypeInferenceAndValiation.cpp: inferResultType")], ["emitted opcode and result type", "spirv-val verdict"])
prop("C16", "Composite and pointer operations follow the type structure they index",
 "Every access chain, load, store, composite construct, extract, insert, shuffle, select, phi and call emitted by the library has the result type obtained by walking the operand's type along the given indices, with pointers keeping their storage class. Index lists, argument lists or operand types that do not fit that structure are rejected with an error instruction and never produce a mistyped instruction.",
 ["inputs", "programs"], "all index paths up to the nesting depth (plus out-of-range ones) into all bounded nested struct/array/matrix/vector types, each storage class, static and list-based forms of each operation",
 "Tests index a few fixed structures with valid indices only.",
 [S+"Instruction.cpp", L+"InstructionTemplate.inl", S+"Type.cpp", L+"Type.h"], [("type walk", S+"Type.cpp/Type.h: getSubType"), ("composite ops", S+"Instruction.cpp")], ["emitted instruction and result type"])
prop("C17", "Extended GLSL instructions carry the right number, operands and result type",
 "Each extended instruction helper emits the instruction number the extended instruction set assigns to that operation, passes its operands in specification order, imports the set exactly once per module, and gives a result type legal for the operand types. Operand types the set does not allow are rejected with an error instruction.",
 ["inputs"], "every helper against every tuple of operand types from the scalar/vector/matrix alphabet",
 "Only two helpers are used in tests, with valid operands.",
 [L+"GLSL450Instruction.h", S+"GLSL450Instruction.cpp", L+"Glsl.h"], [("operand checks", S+"GLSL450Instruction.cpp")], ["emitted OpExtInst words", "spirv-val verdict"])
prop("C18", "Structured control flow helpers build the control flow the callbacks describe",
 "For every nesting of if, if/else and loop helpers, including branches that are empty or that end in return or kill, every block has exactly one terminator and it is the last instruction, every header names its merge (and continue) block, and the blocks form valid structured control flow. Executing the resulting blocks visits the emitted instructions in the order the source-level program describes.",
 ["programs"], "all nestings of if, if/else, loop and early exits up to a bounded depth and length, with every truth assignment of the conditions and bounded loop counts",
 "One test builds one if/else and one loop with non-empty bodies and never executes the result.",
 [L+"BasicBlockTemplate.inl", S+"BasicBlock.cpp", S+"Function.cpp"], [("If/Loop", L+"BasicBlockTemplate.inl, "+S+"BasicBlock.cpp")], ["interpreted trace of the written binary", "spirv-val verdict"])
prop("C19", "Entry points list exactly the global variables their call tree uses",
 "After finalizing, the interface of every entry point contains each global variable that the entry function or any function it transitively calls refers to in any operand position, restricted before SPIR-V 1.4 to inputs and outputs, with no duplicates and nothing unrelated. Finalizing again or after further edits leaves the interface correct.",
 ["programs", "histories"], "all assignments of bounded reference sites (operand positions, call depth, shared callees, recursion) of variables in each storage class to functions, for versions below and from 1.4",
 "Tests contain single-function shaders referencing each variable in a simple load or store.",
 [S+"Function.cpp", S+"Module.cpp", S+"EntryPoint.cpp"], [("reference collection", S+"Function.cpp: collectReferencedVariables"), ("finalize", S+"Module.cpp: finalizeEntryPoints")], ["OpEntryPoint operands"])
prop("C20", "Required capabilities, extensions and version are declared completely",
 "After adding required capabilities and extensions and setting the required version from the grammar, the module declares, for every core and extended instruction it contains, at least one of the alternative capabilities and extensions the grammar requires, and its version is at least the minimum of every instruction it uses. Declaring a capability with everything it implies declares exactly its closure. Declaring a capability or extension again never duplicates it, removing one removes it, nothing the user declared is dropped, and nothing is declared without a reason.",
 ["programs", "histories", "configurations"], "every instruction of the grammar placed singly and in pairs in a module; every capability and its implication closure; all add/remove/has sequences up to a bound",
 "Tests declare capabilities by hand and rely on the validator for a few modules.",
 [S+"Module.cpp", L+"SpvDefines.h", S+"Grammar.cpp"], [("implied capabilities", S+"Module.cpp: addCapability; "+L+"SpvDefines.h: getBaseCapability"), ("requirement scan", S+"Module.cpp: addRequiredCapabilities/addRequiredExtensions/setRequiredVersion")], ["declared capabilities/extensions/version"])
prop("C21", "Names are found for exactly the instruction and member they were given to",
 "After any sequence of naming instructions and struct members, looking up a name for an instruction or member returns the one assigned to that target and nothing for unnamed targets, and looking up an instruction by name returns a target with exactly that name. This also holds after writing, reading and resolving the module, and after named instructions are removed.",
 ["histories", "programs"], "all naming sequences up to a bound over several targets, members and names (prefixes of each other, empty, repeated), before and after a round trip",
 "Names are assigned in tests but only one lookup is checked.",
 [S+"Module.cpp", S+"Instruction.cpp", L+"HashMap.h"], [("name lookup map", S+"Module.cpp: addName/addMemberName/getName/getNames/getInstructionByName")], ["getName", "getInstructionByName", "OpName words"])
prop("C22", "Removing and replacing instructions leaves no dangling references",
 "After removing an instruction, block, function, entry point or global variable from a module, no remaining instruction, name or decoration refers to the removed object, lookups no longer return it, everything else is unchanged and the module can still be written. Replacing an instruction redirects every use of the old one to the new one and changes no other operand.",
 ["histories", "programs"], "every removable object of every bounded module, in every order of up to three removals, each followed by write and validation",
 "No test removes anything from a module.",
 [S+"Module.cpp", S+"Function.cpp", S+"BasicBlock.cpp"], [("removal", S+"Module.cpp: remove*; Function.cpp: remove"), ("replacement", S+"Module.cpp: replace")], ["binary written", "sanitizer verdict"])
prop("C23", "Moving, resetting and destroying modules keeps them valid and leaks nothing",
 "After any sequence of move construction, move assignment, self-assignment and reset on modules and functions, the destination writes exactly the binary the source would have written and can be extended further, the moved-from module is empty and can be assigned to again, a reset module is empty and as usable as a new one, and every byte allocated is released exactly once when the objects are destroyed.",
 ["histories"], "all move/assign/reset/extend/destroy sequences up to a bounded length over two modules with each bounded content",
 "One test moves a module once and compares a single binary.",
 [S+"Module.cpp", S+"Function.cpp", S+"EntryPoint.cpp", S+"BasicBlock.cpp", L+"List.h", L+"HashMap.h"], [("parent fix-up", S+"Module.cpp: move constructor/assignment"), ("reset", S+"Module.cpp: reset")], ["binary written", "allocator balance", "sanitizer verdict"])
prop("C24", "A failing writer makes serialization report failure",
 "If the output sink rejects any word, serializing the module or instruction reports failure, and it reports success only when every word of the binary was accepted in order. A failed attempt changes nothing: serializing again to a working sink yields the complete binary.",
 ["fault_sequences"], "for each bounded module, the sink failing at every single word position (transient or permanent)",
 "Every test writes to a sink that never fails.",
 [S+"Module.cpp", S+"Instruction.cpp", S+"BasicBlock.cpp", S+"Function.cpp", L+"Writer.h"], [("put result propagation", S+"Instruction.cpp: write; Module.cpp: write")], ["return value of write", "words accepted"])
prop("C25", "Linking replaces imports by the exported definitions and nothing else",
 "Linking a library into a consumer binds each imported function or variable to the library's export of the same name and type, brings in what that definition needs as permitted by the selected options, and yields a module the validator accepts with no import left for resolved symbols. Name or type mismatches and needed items that the options exclude are reported as failure, the library module is unchanged, and options not selected have no effect.",
 ["programs", "configurations"], "all pairs of bounded library/consumer modules (symbols, types, referenced constants, globals, callees, names, decorations) crossed with subsets of the linker options",
 "One test links one function with all options.",
 [CS+"LinkerHelper.cpp", CI+"LinkerHelper.h", "link/source/link.cpp"], [("symbol resolution", CS+"LinkerHelper.cpp: import"), ("instruction transfer", CS+"LinkerHelper.cpp: transferInstruction")], ["linked binary", "import result", "spirv-val verdict"])
prop("C26", "The disassembly names every instruction and operand correctly",
 "For every module that can be read, the printed text contains one line per instruction in binary order, with the correct opcode name, result id, operand ids, enumerant names, literal numbers and strings of that instruction and no others, independent of colour or name options. Each print option removes or adds only the parts it documents.",
 ["programs", "configurations"], "all binaries of the bounded grammar-driven corpus crossed with all print option subsets; names and strings up to a bound",
 "Tests only check that disassembling five modules exits with 0; the text is never compared.",
 [CS+"ModulePrinter.cpp", CI+"ModulePrinter.h", "dis/source/dis.cpp"], [("printing", CS+"ModulePrinter.cpp: printInstruction/printModule")], ["printed text"])
prop("C27", "Reflection reports exactly the declared decorations, variables and sizes",
 "Queries for local size, for global variables by storage class, for decorations of a target, for targets carrying a decoration with or without a value, for decoration literals and for grammar operands return exactly what the module's instructions declare, for any mix of plain and member decorations with and without literals. Queries on targets without the requested information report its absence.",
 ["programs", "inputs"], "all multisets of up to three decorations over targets, members, kinds and values crossed with every query; all execution mode combinations",
 "No test covers the reflection helpers.",
 [CS+"ReflectionHelper.cpp", CI+"ReflectionHelperTemplate.inl", CS+"GrammarHelper.cpp"], [("queries", CS+"ReflectionHelper.cpp")], ["query results"])
prop("C28", "Vulkan stage and descriptor classification matches the Vulkan rules",
 "Every execution model maps to the Vulkan shader stage that corresponds to it or is reported incompatible, and every resource variable maps to the descriptor type Vulkan prescribes for its storage class, type and decorations, through pointers and arrays. Image formats translate to the component type and channel count their names state.",
 ["inputs"], "every execution model value; every combination of storage class, resource type (image dimension, sampled flag, buffer block decorations) and array nesting; every image format",
 "No test covers the Vulkan interop functions and one covers a single image format.",
 [CS+"VulkanInterop.cpp", CI+"VulkanInterop.h", S+"Type.cpp", L+"SpvDefines.h"], [("mapping", CS+"VulkanInterop.cpp"), ("formats", S+"Type.cpp: fromImageFormat; SpvDefines.h: getImageChannelCount")], ["returned enums"])
prop("C29", "Binary files are written and read back word for word",
 "Words written through the file writer appear in the file in order once it is closed or destroyed, and the file reader returns exactly the words of the requested offset and length and then reports the end. Missing files, unreadable paths, sizes that are not a whole number of words and out-of-range offsets or lengths are reported as failure and deliver no words.",
 ["histories", "inputs", "fault_sequences"], "all word sequences up to a bound, all file sizes in bytes up to a bound crossed with all offset/length requests, all open/put/close sequences up to a bound",
 "File classes are used by the tools with whole, valid files only.",
 [CS+"BinaryFileReader.cpp", CS+"BinaryFileWriter.cpp", CI+"BinaryVectorWriter.h"], [("range handling", CS+"BinaryFileReader.cpp: read")], ["words delivered", "file contents"])
prop("C30", "Command line tools report success exactly when they did their job",
 "The disassembler, reflector and linker tools exit with success and produce the documented output for valid inputs, and exit with an error, without crashing or hanging, for missing arguments, missing files, damaged binaries, output that can't be written or a failed link. Unknown options are reported and otherwise have no effect. Options may appear in any order with the same effect.",
 ["inputs", "configurations"], "all argument lists up to a bounded length over the documented options and valid, missing, empty and damaged files",
 "Tests run the disassembler on five valid modules with one option; the reflector and linker tools are never run.",
 ["dis/source/dis.cpp", "refl/source/refl.cpp", "link/source/link.cpp"], [("argument parsing", "dis/refl/link main")], ["exit status", "stdout", "output files"])
prop("C31", "Image operations get the operands and result type their kind requires",
 "For every image sampling, fetch, gather, read, write and query helper and every image type, coordinate type and image operand combination, the library either emits an instruction whose operand order, operand mask and result type are legal under the SPIR-V rules, or reports it (an error instruction or an error message). Combinations the rules allow are emitted without any complaint.",
 ["inputs"], "every image helper against every image type (dimension, arrayed, multisampled, sampled, component type), coordinate type and optional operand set in the alphabet",
 "Two tests sample one 2D image and read one storage image.",
 [S+"Instruction.cpp", L+"InstructionTemplate.inl", S+"TypeInferenceAndValiation.cpp"], [("coordinate check", S+"Instruction.cpp: checkImageCoordinateType"), ("operand check", S+"TypeInferenceAndValiation.cpp: validateImageOperandType")], ["emitted instruction", "spirv-val verdict"])
prop("C32", "Type descriptions name and compare types faithfully",
 "Building a type description through any constructor path, copying, moving, wrapping or resetting it gives a description that equals another one exactly when all their properties and members are equal, and whose predicates (kind, width, sign, vector length, matrix shape, containment) answer according to those properties. The readable name of a type is the same for equal types and differs for types whose documented spelling differs.",
 ["histories", "inputs"], "all types of a bounded constructor alphabet and nesting depth, all pairs, every predicate, and all copy/move/assign/reset sequences up to a bound",
 "Tests check a few C++ type mappings once.",
 [L+"Type.h", S+"Type.cpp", CS+"TypeHelper.cpp"], [("comparison and reset", S+"Type.cpp"), ("naming", S+"Type.cpp: getString; "+CS+"TypeHelper.cpp")], ["operator==", "predicates", "type names"])
prop("C33", "An operand that cannot be used never gets into a module unnoticed",
 "Every builder call given an operand it cannot use (the result of a failed operation, a type where a value is needed, void or function types, a function, label, string or imported instruction set, the instruction itself, an instruction without a result, a value of an unrelated type) either returns the error instruction or reports an error and never crashes; an operand that is still an empty instruction is reported at the call or when the module is written, and no reference to an instruction without an id is ever written. Operands that fit are accepted without complaint, and once the refused instruction is removed the rest of the module is still written and valid.",
 ["inputs", "histories"], "every builder call, every one and every two of its operands, every kind of unusable stand-in",
 "Tests pass fitting operands only.",
 [L+"InstructionTemplate.inl", S+"Instruction.cpp", S+"GLSL450Instruction.cpp", S+"Operand.cpp", S+"TypeInferenceAndValiation.cpp"], [("operand check", S+"TypeInferenceAndValiation.cpp: validateOperands"), ("writing operands", S+"Operand.cpp: write"), ("error instruction", S+"Instruction.cpp: error")], ["returned instruction", "logged errors", "spirv-val verdict after removal"])
prop("C34", "A module that is written and read back can be extended like the one it came from",
 "Writing a module and reading it back into a new one at any point of its construction changes nothing about what can be built afterwards: every further building step and every edit of what was read (new code, variables, calls and control flow in read functions, new users of read types, constants and variables, execution modes, names, decorations, removals and replacements) is accepted exactly as it is without the round trip, and the finished module is the same, valid binary. Editing a module while other functions are under construction reports no errors.",
 ["histories"], "all histories of building steps and edits up to a length, with one or two round trips between them",
 "Tests read modules and print them; none continues to build on one.",
 [S+"Module.cpp", S+"Function.cpp", S+"EntryPoint.cpp", S+"Instruction.cpp"], [("reading", S+"Module.cpp: read, resolveIDs, reconstructNames, reconstructTypeAndConstantInfo"), ("reading functions", S+"Function.cpp: read"), ("reading entry points", S+"EntryPoint.cpp")], ["binary", "logged errors", "spirv-val verdict"])

prop("C35", "Build options do not change what the library does",
 "The documented build options (own placement new, own type traits instead of the standard library's, logging, operand validation) select how the library is built, not what it does: every legal program of building steps gives the same binary, the same text, and the same result when read back and written again under every combination of options; damaged modules are refused or read alike; unsuitable operands are refused alike wherever operand validation is on; and every history of container operations constructs, copies, moves, assigns and destroys the same elements with the same values in the same order.",
 ["configurations", "histories"], "all programs and container histories up to a length, large modules of every shape, under each combination of options",
 "Tests run in the default configuration only.",
 [L+"stdreplacement.h", L+"Vector.h", L+"List.h", L+"HashMap.h", L+"InstructionTemplate.inl", S+"TypeInferenceAndValiation.cpp", "CMakeLists.txt"], [("trait and placement-new replacements", L+"stdreplacement.h"), ("options", "CMakeLists.txt: SPVGENTWO_* options")], ["binary", "printed text", "element construction/destruction trace"])

prop("C36", "What a module becomes depends only on the calls made on it",
 "Building, writing, printing, reading and rewriting a module gives the same binary and text every time: whatever the addresses its allocator hands out, whatever fresh memory contains, whatever other modules are built, read or destroyed in between, and whatever other threads do with modules of their own.",
 ["histories", "schedules", "environments"], "all programs up to a length under allocators with different address orders and memory contents; all interleavings of the calls on two modules; schedules of two threads with bounded preemptions at allocations, words written and words read",
 "Tests build one module at a time with one allocator.",
 [S+"Module.cpp", S+"EntryPoint.cpp", S+"Type.cpp", L+"HashMap.h", L+"Module.h", CS+"ModulePrinter.cpp"], [("shared state", S+"Module.cpp: default type inference; common HeapAllocator instance; shared Grammar"), ("iteration order", L+"HashMap.h; "+S+"EntryPoint.cpp: interface collection")], ["binary", "printed text", "rewritten binary"])

prop("C37", "Messages reach the logger exactly when their level is enabled, flags are sets",
 "Under every history of filter and callback changes a message arrives exactly once, unchanged, with the enabled part of its level and the logger it was sent to, when its level passes the filter and a callback is set, and not at all otherwise; messages tied to a condition arrive only when it does not hold, and the call answers the condition; the console logger prints one line per message. Flags behave as sets of bits under every operation, and version and generator numbers keep their parts.",
 ["histories", "inputs"], "all histories of filters, callbacks and messages up to a length; all combinations of small sets under every flag operation; all versions",
 "Tests attach a logger and never look at what arrives.",
 [L+"Logger.h", L+"Flag.h", L+"SpvDefines.h", L+"ModuleTemplate.inl", CS+"ConsoleLogger.cpp"], [("filter", L+"Logger.h: ILogger::log"), ("conditions", L+"ModuleTemplate.inl: Module::log"), ("sets", L+"Flag.h"), ("printing", CS+"ConsoleLogger.cpp")], ["callback arguments", "stdout", "return values"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
