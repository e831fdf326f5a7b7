#!/usr/bin/env python3
"""writes DESIGN.md from design_intro.md, properties.jsonl, checks.py, known_findings.json and seeded/"""
import json,os,re,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V)
from checks import CHECKS
O={}   # oracle and what is compared
F={}   # false alarms / refinements
O["C01"]="An abstract sequence of lifetime-checked elements beside each vector; after every operation size, content, capacity, iterators, return values, allocator balance and the life of every element are compared. Allocation refusals are one more choice per request."
O["C02"]="An abstract sequence per list plus a full walk in both directions (links, owner, cached size), iterator stability of untouched nodes, element lifetimes, allocator balance, refused allocations."
O["C03"]="An abstract multimap with insertion order per key; find/count/getRange/iteration/unique emplacement compared after each step, with hash functions chosen to collide."
O["C04"]="`std::string` as abstract value, terminator and size checked after each edit; `std::to_chars`/`snprintf` for the formatting functions, buffers of every length in exact-size heap blocks (ASan red zones)."
O["C05"]="Interval bookkeeping of every live block (aligned, inside the buffer, disjoint), the lowest-address alignment computed arithmetically, exhaustion only when the request really does not fit, contents kept."
O["C06"]="An abstract multigraph after every edit; for functions the successors in the written terminator words; for call graphs the OpFunctionCall words; for expression graphs a call counter per node and the order of dependencies."
O["C07"]="Each target records which object was called with what; copies must be independent, moved/empty state must be reported, every functor constructed is destroyed once (lifetime bookkeeping), no allocation leaks, refusals leave the callable consistent."
O["C08"]="The written words are decoded arithmetically (width, sign extension, little endian strings, zero padding) and compared with the value; instruction word counts and operand views compared with what was appended."
O["C09"]="SPIRV-Tools validator on every binary, SPIRV-Tools parser for header, layout, id bound and id uniqueness; second finalize and write must give the same words."
O["C10"]="Word-level comparison of the multiset/sequence of instructions of every section under the bijection of ids, per section in order; second round trip must be a fixed point."
O["C11"]="Return value and error log: a stream that the SPIRV-Tools parser rejects for a structural reason must be reported; never a crash, hang, sanitizer report or leak; the pipeline behind a successful read must survive."
O["C12"]="Generated table (tools/gen_spec.py) of the Khronos machine-readable grammar."
O["C13"]="An independent structural key of each description decides equal/different ids; the words written for each description are computed from it; definition order checked in the binary."
O["C14"]="A decoder of type and constant instructions written against the specification gives the expected description of each id; the library's is compared, and requesting each again must find the existing instruction."
O["C15"]="Acceptance table written from the SPIR-V rules (which type combinations each operation takes) plus the result type the rule implies; everything accepted is written and judged by the validator; everything the rules forbid must be reported."
O["C16"]="A walk over the described type gives the type each index list reaches; accepted forms must have exactly this result type, wrong ones be reported; everything accepted is validated."
O["C17"]="Operand and result rules of every GLSL.std.450 instruction, numbers from the Khronos grammar; validator on everything accepted."
O["C18"]="An interpreter executes the written binary under every assignment of truth values and compares the sequence of emitted markers with an interpreter of the abstract program; plus merge/continue structure (validator)."
O["C19"]="Reachability over the calls and operand ids in the binary gives the set each OpEntryPoint has to list (storage classes by version)."
O["C20"]="Khronos grammar: minimum version, capabilities (any of), extensions of each instruction; closure of implied capabilities; repeated declarations absent."
O["C21"]="An abstract set of (target, member, name); OpName/OpMemberName words in the binary; getName/getInstructionByName-style queries compared after every step, also after reading and moving."
O["C22"]="Every operand of every remaining instruction is walked before and after: nothing refers to the removed object, all former uses refer to the replacement, all others are unchanged; gathered uses equal the computed set."
O["C23"]="Two abstract modules; after each step both are written and compared with a module built by the same history without the moves; allocator balance and isolation of the two allocators; ASan for stale references."
O["C24"]="The sink counts words: a rejected word must make the call return false; an accepted stream must return true and be complete."
O["C25"]="A matcher maps every library item to its image in the linked binary (bijection over ids); option gates decide which items must/may/must not come; everything else must be the consumer's; validator; ids option equivalence."
O["C26"]="The expected line of every instruction is composed from the operand kinds of the Khronos grammar and compared token by token with the printed text."
O["C27"]="The declared decorations/modes/variables of the history (abstract list) answer every query; operand queries are answered from the grammar."
O["C28"]="Descriptor rules of the Vulkan specification as a function of the declared type; stage bits from the Vulkan registry values (constants in the harness)."
O["C29"]="File bytes are compared with the words put; for readers the words delivered until the end equal the file's words in the requested range; impossible requests must be reported; refused allocations and short reads injected."
O["C30"]="The tools run as processes in a scratch directory; exit code, output and written files are compared with what printer, writer, reflection and linker library say for the same input and options."
O["C31"]="A rule table over image description (dimension, depth, arrayed, multisampled, sampled, format) and operand masks; accepted calls are validated, forbidden ones must be reported, result type compared."
O["C32"]="An abstract description tree beside each Type; every predicate and comparison has a one-line definition over the tree."
O["C33"]="The call table states for each operand which stand-ins would fit after all (renaming anything with an id, copying objects of any type, ...); for all others the call has to return the error instruction or log an error (or, for an empty instruction, finalizeAndWrite has to fail); the SPIRV-Tools validator judges the module after the refused instruction was removed."
O["C34"]="The same history without the round trip: both modules are built side by side by the same calls (what was read is addressed by its place), and their binaries have to be equal word for word; the validator judges the result."
O["C35"]="The default configuration: six configurations of the library are compiled from the current tree into one process under namespaces of their own (renamed by the preprocessor), run the same program or container history, and must agree on every word, character and element event."
O["C36"]="The same program built alone in the process. Interleavings are executed by one thread that picks whose call is next; schedules by two real threads of which the explorer lets one run at a time, handing over at the chosen allocation, deallocation, word written or read."
O["C37"]="A filter mask, the current callback and the list of messages expected so far; integers for flags; the parts themselves for versions."
F["C05"]="blocks of size 0 counted as overlapping (removed); byte accounting of the heap allocator is not promised (dropped)."
F["C06"]="UBSan `null` fires where a reference to an element is merely formed (disabled for that class); an overwrite report came from dead-store-eliminated destructors (build with -fno-lifetime-dse)."
F["C09"]="nested emplacing calls and repeated member decorations were errors of harness steps."
F["C10"]="capabilities, extensions and imports are sets, functions and lines may be regrouped, empty names are rejected deliberately, a memory model is always written: statement refined."
F["C11"]="type-dependent lengths, missing terminators and misplaced labels are not among the defects the reader must report."
F["C12"]="entries newer than the installed specification are not judged."
F["C13"]="the harness did not show the qualifier of pipes; specialisation constants are new for each request by design."
F["C14"]="functions were compared in list order although reading regroups imported ones; types no description can express need only be reported."
F["C15"]="left and right operand were the same undef."
F["C16"]="bools in interface classes, pointers in module-scope classes, ids compared before numbering. Not covered: opCopyMemorySized, opVariable."
F["C17"]="FindILsb is not limited to 32 bits."
F["C18"]="the order of ready-made blocks is the user's."
F["C20"]="the library's grammar has no requirements of enumerants (statement restricted to instructions); non-numeric versions in the JSON."
F["C23"]="moved-from containers lose their allocator by design; iterating an unfinished block logs an error."
F["C25"]="types of callees' signatures count as present; OpModuleProcessed needs 1.1; debug strings are not needed when sources are copied."
F["C26"]="empty names fall through; ids may be named without definition; LongConstantCompositeINTEL alias; member number ~0."
F["C27"]="open by assumption: id/string decorations in queries without value, parameters counted as operands, group decorations are not resolved."
F["C28"]="OpVariable without operands. Open: undecorated buffer blocks, UniformConstant structs, sampled Buffer images, float width of normalised formats."
F["C30"]="unknown options as errors was too strong (the project's own test passes one): now \"reported and otherwise without effect\"; damaged operand values are C11's business."
F["C31"]="\"reports\" means error instruction or error message; Dref on void images excluded."
F["C32"]="function parameters are spelled by their name when named (excluded)."
F["C33"]="a function as target of opExecutionMode, structures copied by opCopyObject or selected by opSelect, and any instruction with an id as target of opName/opDecorate are legal (declared usable); empty instructions are accepted by the library on purpose because they may be filled later (judged when written)."
F["C34"]="functions were first mapped by their place in the function list, but declarations are written before functions with a body (mapped by the written order now)."
F["C35"]="the first version asked for more building steps than there are (null step)."
out=[open(f"{V}/tools/design_intro.md").read().rstrip(),"\n\n## Properties\n"]
kf=json.load(open(f"{V}/known_findings.json"))
fixed={}
for s in kf["fixed"]:
    m=re.match(r"fixed: property=(C\d+) (\w+) (.*)",s); fixed.setdefault(m[1],[]).append((m[2],m[3]))
cost={}
try: cost=json.load(open(f"{V}/tools/cost.json"))
except FileNotFoundError: pass
for l in open(f"{V}/properties.jsonl"):
    p=json.loads(l); i=p["id"]; c=CHECKS.get(i,{})
    out.append(f"\n### {i} {p['title']}\n\n")
    out.append(f"*Specified:* {p['statement']}\n\n")
    out.append(f"*Enumerated (quick):* {c['bounds']['quick']}.\n*Thorough:* {c['bounds']['thorough']}.\n\n")
    out.append(f"*Oracle:* {O[i]}\n\n")
    out.append(f"*Why tests cannot settle it:* {p['why_tests_cant']}\n\n")
    if c.get("assumptions"): out.append("*Assumptions:* "+"; ".join(c["assumptions"])+".\n\n")
    if i in F: out.append(f"*False alarms met and corrected / limits:* {F[i]}\n\n")
    co=cost.get(i,{}); 
    if co: out.append("*Cost:* "+", ".join(f"{k} about {v} s" for k,v in sorted(co.items()))+" on 8 cores (plus up to 10 s to build).\n\n")
    if i in fixed: out.append(f"*Found and repaired:* {len(fixed[i])}: "+"; ".join(f"{b} ({a[:7]})" for a,b in fixed[i])+".\n")
out.append("\n## Known findings (recorded, not repaired)\n\n")
for f in kf["findings"]: out.append(f"* `{f['id']}` ({f['property']}): {f['what']}\n")
out.append("\n## Planted bugs\n\nEach was confirmed in a scratch copy (builds, 23 stable tests pass, demo fails with the change and passes without) and then run against the quick checks. `caught by` is what reported it.\n\n| id | property | needs | caught by |\n|---|---|---|---|\n")
try: caught=json.load(open(f"{V}/tools/caught.json"))
except FileNotFoundError: caught={}
for s in sorted(os.listdir(f"{V}/seeded")):
    m=json.load(open(f"{V}/seeded/{s}/meta.json")); out.append(f"| {s} | {m['property']} | {m['needs'].replace('|','/')} | {caught.get(s,'-')} |\n")
ex=f"{V}/tools/design_tail.md"
if os.path.exists(ex): out.append("\n"+open(ex).read())
open(f"{V}/DESIGN.md","w").write("".join(out))
