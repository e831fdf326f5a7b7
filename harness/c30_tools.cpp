// C30: the command line tools report success exactly when they did their job.
#include "ir.h"
#include "common/LinkerHelper.h"
#include "common/ModulePrinter.h"
#include "spvgentwo/String.h"
#include <algorithm>
#include <fcntl.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
using namespace spvgentwo;
using namespace ir;

namespace
{
	using Args = std::vector<std::string>;
	struct Res { int code = -1; bool crashed = false, hung = false; std::string out, err; };
	std::string dir() { return mc::scratch(); }
	std::string path(const std::string& n) { return dir() + "/" + n; }
	std::string slurp(const std::string& p) { std::string s; if (FILE* f = fopen(p.c_str(), "rb")) { char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); } return s; }
	void spill(const std::string& p, const std::string& s) { unlink(p.c_str()); FILE* f = fopen(p.c_str(), "wb"); if (!f) mc::broken("can't write %s", p.c_str()); fwrite(s.data(), 1, s.size(), f); fclose(f); }
	bool exists(const std::string& p) { struct stat st; return lstat(p.c_str(), &st) == 0; }
	std::string bytes(const Words& w) { return std::string(reinterpret_cast<const char*>(w.data()), w.size() * 4); }
	Words asWords(const std::string& s) { Words w(s.size() / 4); memcpy(w.data(), s.data(), w.size() * 4); return w; }
	std::string join(const Args& a) { std::string s; for (auto& x : a) s += (s.empty() ? "" : " ") + (x.empty() ? std::string("''") : x); return s; }

	// runs a tool in the scratch directory, names of files are relative to it
	Res run(const char* tool, const Args& args)
	{
		const char* exe = getenv(tool); if (!exe) mc::broken("%s not set", tool); Res r; const std::string out = path("stdout"), err = path("stderr"); std::vector<char*> argv{ const_cast<char*>(exe) }; for (auto& a : args) argv.push_back(const_cast<char*>(a.c_str())); argv.push_back(nullptr);
		char asan[] = "ASAN_OPTIONS=exitcode=99:detect_leaks=0:abort_on_error=0:quarantine_size_mb=2:malloc_context_size=2", ubsan[] = "UBSAN_OPTIONS=exitcode=99:halt_on_error=1"; char* env[] = { asan, ubsan, nullptr };
		posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_addchdir_np(&fa, dir().c_str()); posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0); posix_spawn_file_actions_addopen(&fa, 1, out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); posix_spawn_file_actions_addopen(&fa, 2, err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
		pid_t pid; const int e = posix_spawn(&pid, exe, &fa, nullptr, argv.data(), env); posix_spawn_file_actions_destroy(&fa); if (e) mc::broken("%s can't be started: %s", exe, strerror(e));
		int st = 0; unsigned waited = 0, step = 200; while (true) { const pid_t p = waitpid(pid, &st, WNOHANG); if (p == pid) break; if (waited > 30u * 1000 * 1000) { kill(pid, SIGKILL); waitpid(pid, &st, 0); r.hung = true; break; } usleep(step); waited += step; if (waited > 20000) step = 2000; }
		r.crashed = !r.hung && (WIFSIGNALED(st) || WEXITSTATUS(st) == 99); r.code = WIFEXITED(st) ? WEXITSTATUS(st) : -1; r.out = slurp(out); r.err = slurp(err); if (r.err.find("Sanitizer") != std::string::npos || r.err.find("runtime error") != std::string::npos) r.crashed = true;
		if (mc::tracing()) mc::note("%s %s -> %d%s\n%s%s", tool, join(args).c_str(), r.code, r.crashed ? " CRASH" : "", r.out.substr(0, 4000).c_str(), r.err.substr(0, 3000).c_str()); return r;
	}
	Res ran(const char* tool, const Args& args)
	{
		Res r = run(tool, args); mc::state(mc::mix(mc::hashStr((join(args) + tool).c_str()), mc::hashStr((r.out + std::to_string(r.code)).c_str())));
		MC_CHECK(!r.hung, "hang", "%s %s does not terminate", tool, join(args).c_str()); if (r.crashed) { std::string why = r.err.substr(0, 600); MC_CHECK(false, "crash", "%s %s crashes (%d): %s", tool, join(args).c_str(), r.code, why.c_str()); } mc::checked(); return r;
	}
	// text without the lines of the logger
	std::string plain(const std::string& s) { std::string o; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); e = e == std::string::npos ? s.size() : e + 1; const std::string l = s.substr(p, e - p); bool log = false; for (const char* k : { "Info: ", "Warning: ", "Error: ", "Debug: ", "Fatal: " }) if (!l.compare(0, strlen(k), k)) log = true; if (!log) o += l; p = e; } return o; }
	// unknown options are reported, the tool may go on without them
	bool ignored(const Res& r, const std::vector<std::string>& unknown, const std::string& cmd)
	{
		for (auto& u : unknown) { bool named = false; size_t p = 0; while (p < r.out.size()) { size_t e = r.out.find('\n', p); if (e == std::string::npos) e = r.out.size(); const std::string l = r.out.substr(p, e - p); if ((!l.compare(0, 7, "Error: ") || !l.compare(0, 9, "Warning: ")) && l.find(u, 6) != std::string::npos) named = true; p = e + 1; } MC_CHECK(r.code != 0 || named || r.err.find(u) != std::string::npos, "unknown option", "%s: \"%s\" is not reported", cmd.c_str(), u.c_str()); }
		return r.code != 0 && !unknown.empty();
	}
	std::string uncoloured(const std::string& s) { std::string o; for (size_t p = 0; p < s.size(); ++p) { if (s[p] == 27) { while (p < s.size() && s[p] != 'm') ++p; } else o += s[p]; } return o; }
	std::vector<std::string> lines(const std::string& s) { std::vector<std::string> r; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size(); r.push_back(s.substr(p, e - p)); p = e + 1; } return r; }
	std::vector<std::string> tokens(const std::string& s) { std::vector<std::string> r; std::string t; for (char c : s + " ") if (isspace(uint8_t(c))) { if (!t.empty()) r.push_back(t); t.clear(); } else t += c; return r; }

	// ---- modules ----------------------------------------------------------------------------------------------
	const char* SHADER =
		"OpCapability Shader\n%glsl = OpExtInstImport \"GLSL.std.450\"\nOpMemoryModel Logical GLSL450\nOpEntryPoint Fragment %main \"main\" %in\nOpExecutionMode %main OriginUpperLeft\nOpName %main \"main\"\nOpName %helper \"helper\"\nOpName %digits \"2d\"\nOpName %loop \"loop\"\nOpName %time \"time\"\nOpName %tex \"tex\"\nOpName %local \"local\"\nOpName %x \"x\"\nOpName %sum \"sum\"\nOpName %B \"Block\"\nOpMemberName %B 0 \"member\"\nOpName %in \"in\"\n"
		"OpDecorate %in Location 3\nOpDecorate %in Flat\nOpDecorate %tex DescriptorSet 2\nOpDecorate %tex Binding 1\nOpDecorate %B Block\nOpMemberDecorate %B 0 Offset 0\nOpDecorate %ubo DescriptorSet 0\nOpDecorate %ubo Binding 4\nOpDecorate %sum RelaxedPrecision\nOpDecorate %spec SpecId 11\n"
		"%void = OpTypeVoid\n%fnv = OpTypeFunction %void\n%float = OpTypeFloat 32\n%int = OpTypeInt 32 1\n%bool = OpTypeBool\n%v2 = OpTypeVector %float 2\n%v4 = OpTypeVector %float 4\n%fn = OpTypeFunction %float %float\n%fn0 = OpTypeFunction %float\n%pp = OpTypePointer Private %float\n%pf = OpTypePointer Function %float\n%pin = OpTypePointer Input %float\n%img = OpTypeImage %float 2D 0 0 0 1 Unknown\n%simg = OpTypeSampledImage %img\n%psi = OpTypePointer UniformConstant %simg\n%B = OpTypeStruct %v4\n%pB = OpTypePointer Uniform %B\n%pu = OpTypePointer Uniform %v4\n"
		"%c1 = OpConstant %float 1.5\n%i0 = OpConstant %int 0\n%i1 = OpConstant %int 1\n%i4 = OpConstant %int 4\n%spec = OpSpecConstant %float 2\n%time = OpVariable %pp Private\n%anon = OpVariable %pp Private\n%in = OpVariable %pin Input\n%tex = OpVariable %psi UniformConstant\n%ubo = OpVariable %pB Uniform\n"
		"%helper = OpFunction %float None %fn\n%x = OpFunctionParameter %float\n%he = OpLabel\n%local = OpVariable %pf Function\n%ht = OpLoad %float %time\nOpStore %local %ht\n%sum = OpFAdd %float %ht %x\n%hs = OpExtInst %float %glsl Sin %sum\nOpReturnValue %hs\nOpFunctionEnd\n"
		"%digits = OpFunction %float None %fn0\n%de = OpLabel\n%dc = OpFunctionCall %float %helper %c1\n%dt = OpLoad %float %time\n%dr = OpFSub %float %dc %dt\nOpReturnValue %dr\nOpFunctionEnd\n"
		"%loop = OpFunction %float None %fn\n%lx = OpFunctionParameter %float\n%le = OpLabel\nOpBranch %lh\n%lh = OpLabel\n%li = OpPhi %int %i0 %le %ln %lc\n%lt = OpSLessThan %bool %li %i4\nOpLoopMerge %lm %lc None\nOpBranchConditional %lt %lb %lm\n%lb = OpLabel\nOpBranch %lc\n%lc = OpLabel\n%ln = OpIAdd %int %li %i1\nOpBranch %lh\n%lm = OpLabel\n%la = OpLoad %float %anon\n%lr = OpFMul %float %lx %la\nOpReturnValue %lr\nOpFunctionEnd\n"
		"%main = OpFunction %void None %fnv\n%me = OpLabel\n%mi = OpLoad %float %in\n%m0 = OpFunctionCall %float %helper %mi\n%m1 = OpFunctionCall %float %digits\n%m2 = OpFunctionCall %float %loop %spec\n%mp = OpAccessChain %pu %ubo %i0\n%ml = OpLoad %v4 %mp\nOpStore %time %m0\nOpReturn\nOpFunctionEnd\n";
	const char* MESH = "OpCapability MeshShadingEXT\nOpExtension \"SPV_EXT_mesh_shader\"\nOpMemoryModel Logical GLSL450\nOpEntryPoint TaskEXT %main \"mesh_entry\"\nOpExecutionMode %main LocalSize 8 4 2\n%void = OpTypeVoid\n%fn = OpTypeFunction %void\n%uint = OpTypeInt 32 0\n%u1 = OpConstant %uint 1\n%f = OpFunction %void None %fn\n%fe = OpLabel\nOpReturn\nOpFunctionEnd\n%main = OpFunction %void None %fn\n%e = OpLabel\n%c = OpFunctionCall %void %f\nOpEmitMeshTasksEXT %u1 %u1 %u1\nOpFunctionEnd\n";
	const char* COMPUTE = "OpCapability Shader\nOpMemoryModel Logical GLSL450\nOpEntryPoint GLCompute %main \"comp\"\nOpEntryPoint GLCompute %other \"other one\"\nOpExecutionMode %main LocalSize 16 2 1\nOpExecutionMode %other LocalSize 16 2 1\nOpName %main \"comp\"\nOpName %w \"\"\nOpDecorate %w Restrict\nOpDecorate %w Coherent\nOpDecorate %S BufferBlock\nOpMemberDecorate %S 0 Offset 0\nOpMemberDecorate %S 0 NonWritable\nOpDecorate %w DescriptorSet 0\nOpDecorate %w Binding 0\n%void = OpTypeVoid\n%fn = OpTypeFunction %void\n%float = OpTypeFloat 32\n%S = OpTypeStruct %float\n%p = OpTypePointer Uniform %S\n%w = OpVariable %p Uniform\n%main = OpFunction %void None %fn\n%e = OpLabel\nOpReturn\nOpFunctionEnd\n%other = OpFunction %void None %fn\n%oe = OpLabel\nOpReturn\nOpFunctionEnd\n";
	const char* LIB = "OpCapability Shader\nOpCapability Linkage\nOpCapability Float64\nOpMemoryModel Logical GLSL450\n%src = OpString \"lib.glsl\"\nOpSource GLSL 450 %src\nOpName %f \"lib_f\"\nOpName %x \"x\"\nOpName %h \"lib_h\"\nOpName %v \"lib_v\"\nOpDecorate %f LinkageAttributes \"f\" Export\nOpDecorate %v LinkageAttributes \"v\" Export\nOpDecorate %t RelaxedPrecision\n%float = OpTypeFloat 32\n%v2 = OpTypeVector %float 2\n%fn = OpTypeFunction %float %float\n%pp = OpTypePointer Private %float\n%c = OpConstant %float 3\n%v = OpVariable %pp Private %c\n%w = OpVariable %pp Private\n%f = OpFunction %float None %fn\n%x = OpFunctionParameter %float\n%e = OpLabel\nOpLine %src 1 2\n%t = OpLoad %float %w\n%a = OpCompositeConstruct %v2 %t %c\n%b = OpCompositeExtract %float %a 1\n%r = OpFunctionCall %float %h %b\nOpReturnValue %r\nOpFunctionEnd\n%h = OpFunction %float None %fn\n%hx = OpFunctionParameter %float\n%he = OpLabel\nOpReturnValue %hx\nOpFunctionEnd\n";
	const char* LIBG = "OpCapability Shader\nOpCapability Linkage\nOpMemoryModel Logical GLSL450\nOpName %g \"lib_g\"\nOpDecorate %g LinkageAttributes \"g\" Export\n%float = OpTypeFloat 32\n%fn = OpTypeFunction %float %float\n%g = OpFunction %float None %fn\n%x = OpFunctionParameter %float\n%e = OpLabel\nOpReturnValue %x\nOpFunctionEnd\n";
	const char* LIBBAD = "OpCapability Shader\nOpCapability Linkage\nOpMemoryModel Logical GLSL450\nOpDecorate %f LinkageAttributes \"f\" Export\n%int = OpTypeInt 32 1\n%fn = OpTypeFunction %int %int\n%f = OpFunction %int None %fn\n%x = OpFunctionParameter %int\n%e = OpLabel\nOpReturnValue %x\nOpFunctionEnd\n";
	const char* CONS = "OpCapability Shader\nOpCapability Linkage\nOpMemoryModel Logical GLSL450\nOpEntryPoint Fragment %main \"main\"\nOpExecutionMode %main OriginUpperLeft\nOpName %f \"f\"\nOpDecorate %f LinkageAttributes \"f\" Import\nOpDecorate %g LinkageAttributes \"g\" Import\nOpDecorate %v LinkageAttributes \"v\" Import\n%void = OpTypeVoid\n%fnv = OpTypeFunction %void\n%float = OpTypeFloat 32\n%fn = OpTypeFunction %float %float\n%pp = OpTypePointer Private %float\n%c = OpConstant %float 7\n%v = OpVariable %pp Private\n%f = OpFunction %float None %fn\n%fx = OpFunctionParameter %float\nOpFunctionEnd\n%g = OpFunction %float None %fn\n%gx = OpFunctionParameter %float\nOpFunctionEnd\n%main = OpFunction %void None %fnv\n%e = OpLabel\n%q = OpFunctionCall %float %f %c\n%q2 = OpFunctionCall %float %g %q\nOpStore %v %q2\nOpReturn\nOpFunctionEnd\n";
	enum { M_SHADER, M_MESH, M_COMPUTE, M_LIB, M_LIBG, M_LIBBAD, M_CONS, NMODS };
	const Words& mod(unsigned k) { static Words w[NMODS]; static const char* t[NMODS] = { SHADER, MESH, COMPUTE, LIB, LIBG, LIBBAD, CONS }; if (w[k].empty()) { w[k] = assemble(t[k]); w[k][1] = k == M_MESH ? 0x00010400 : 0x00010000; const std::string v = validate(w[k]); if (!v.empty()) mc::broken("module %u invalid: %s", k, v.c_str()); } return w[k]; }
	void put(const char* name, unsigned k) { spill(path(name), bytes(mod(k))); }

	// ---- what the library says (the printer, reader and linker have checks of their own) ------------------------------
	bool load(Module& m, const Words& w) { Reader r(w); return m.readAndInit(r, grammar()); }
	struct Dis { bool ok = false; std::string text; Words serialized; };
	const Dis& disassembly(unsigned k, bool assign, unsigned off, bool colours, const std::string& tabs)
	{
		static std::map<std::string, Dis> cache; Dis& d = cache[std::to_string(k) + "," + std::to_string(assign) + "," + std::to_string(off) + "," + std::to_string(colours) + tabs]; if (d.ok) return d; HeapAllocator al; Log log; Module m(&al, &log); if (!load(m, mod(k))) mc::broken("module not read"); if (assign) m.assignIDs(); std::string& s = d.text; auto p = ModulePrinter::ModuleSimpleFuncPrinter([&s](const char* t) { s += t; }, colours);
		using B = ModulePrinter::PrintOptionsBits; ModulePrinter::PrintOptions o{ B::All }; if (off & 1) o ^= B::InstructionName; if (off & 2) o ^= B::OperandName; if (off & 4) o ^= B::Preamble; if (!ModulePrinter::printModule(m, grammar(), p, o, tabs.c_str())) mc::broken("not printed"); Writer w; if (!m.finalizeAndWrite(w)) mc::broken("not written"); d.serialized = w.words; d.ok = true; return d;
	}
	void noFiles(const std::vector<const char*>& names) { for (auto n : names) { unlink(path(n).c_str()); rmdir(path(n).c_str()); } }
	std::string text(const Words& w) { return w.empty() ? "(none)" : disasm(w); }

	struct Kind { std::string name, data; int kind; bool arbitrary = false; }; // 0 file, 1 missing, 2 directory
	const std::vector<Kind>& damaged()
	{
		static const std::vector<Kind> all = [] { std::vector<Kind> r; r.push_back({ "missing", "", 1 }); r.push_back({ "directory", "", 2 }); r.push_back({ "empty", "", 0 }); const std::string s = bytes(mod(M_SHADER)), l = bytes(mod(M_LIB)), c = bytes(mod(M_CONS)); for (size_t n : { 1, 2, 3, 4, 5, 8, 16, 19, 20, 21, 22, 23 }) r.push_back({ "first " + std::to_string(n) + " bytes", s.substr(0, n), 0 });
			std::string x = s; x[0] ^= 1; r.push_back({ "wrong magic", x, 0 }); x = s; std::swap(x[0], x[3]); std::swap(x[1], x[2]); r.push_back({ "swapped magic", x, 0 }); r.push_back({ "text", "#version 450\nvoid main() {}\n", 0 }); for (size_t n : { 1, 2, 3 }) r.push_back({ "trailing bytes", s + std::string(n, 'x'), 0 }); r.push_back({ "trailing zero word", s + std::string(4, '\0'), 0 });
			for (auto* m : { &s, &l, &c }) { for (size_t w = 6; w < m->size() / 4; ++w) r.push_back({ "truncated to " + std::to_string(w) + " words", m->substr(0, w * 4), 0 }); for (size_t w = 5; w < m->size() / 4; w += 7) r.push_back({ "truncated to " + std::to_string(w) + ".5 words", m->substr(0, w * 4 + 2), 0 }); }
			for (size_t w = 5; w < s.size() / 4; ++w) { std::string y = s; y[w * 4 + 3] = char(0x7f); r.push_back({ "high byte of word " + std::to_string(w), y, 0, true }); y = s; y[w * 4 + 2] = y[w * 4 + 3] = 0; r.push_back({ "no length at word " + std::to_string(w), y, 0, true }); } return r; }(); return all;
	}
	void place(const char* name, const Kind& k) { const std::string p = path(name); unlink(p.c_str()); rmdir(p.c_str()); if (k.kind == 0) spill(p, k.data); else if (k.kind == 2) mkdir(p.c_str(), 0700); }
	bool readable(const Kind& k) { if (k.kind || k.data.size() % 4 || k.data.empty()) return false; Words w = asWords(k.data); HeapAllocator al; Log log; Module m(&al, &log); return load(m, w); }
	bool surelyBad(const Kind& k) { return !k.arbitrary && (k.kind || k.data.size() % 4 || k.data.empty() || !parse(asWords(k.data)).ok); }
	bool surelyGood(const Kind& k) { return !k.kind && k.data.size() % 4 == 0 && validate(asWords(k.data)).empty(); }
}

MC_SCENARIO(disassembler, 2)
{
	// every list of options; the file comes first
	struct Tok { const char* a; const char* b; bool bad; }; const Tok T[] = { { "-assignids" }, { "-assignIDs" }, { "-noinstrnames" }, { "-noopnames" }, { "-nopreamble" }, { "-colors" }, { "-tabs", "  " }, { "-tabs", "-colors" }, { "-serialize" }, { "-unknown", nullptr, true }, { "-tabs", nullptr, false }, { "--colors", nullptr, true } }; std::vector<std::string> unknown;
	const unsigned nt = sizeof T / sizeof *T, k = mc::choose(3, "module"), n = mc::choose(mc::bound(3, 4) + 1, "options"); Args a{ "in.spv" }; bool assign = false, colours = false, serialize = false, bad = false, tabsPending = false; unsigned off = 0; std::string tabs = "\t\t";
	for (unsigned q = 0; q < n; ++q)
	{
		const Tok& t = T[mc::choose(nt)]; a.push_back(t.a); const std::string o = t.a; if (tabsPending) { tabs = o; tabsPending = false; if (t.b) { a.push_back(t.b); if (std::string(t.b) == "  ") unknown.push_back(t.b); else colours = true; } continue; } if (t.bad) unknown.push_back(o);
		if (o == "-tabs") { if (t.b) { tabs = t.b; a.push_back(t.b); } else tabsPending = true; continue; } if (o == "-assignids" || o == "-assignIDs") assign = true; if (o == "-noinstrnames") off |= 1; if (o == "-noopnames") off |= 2; if (o == "-nopreamble") off |= 4; if (o == "-colors") colours = true; if (o == "-serialize") serialize = true;
	}
	if (tabsPending) bad = true; put("in.spv", k); noFiles({ "serialized.spv" }); const Res r = ran("MC_TOOL_DIS", a); const std::string cmd = "dis " + join(a);
	if (bad) { MC_CHECK(r.code != 0, "invalid arguments accepted", "%s: exit status 0", cmd.c_str()); mc::outcome("rejected"); return; }
	if (ignored(r, unknown, cmd)) { mc::outcome("rejected"); return; } const Dis& d = disassembly(k, assign, off, colours, tabs); MC_CHECK(r.code == 0, "valid arguments rejected", "%s: exit status %d", cmd.c_str(), r.code); MC_CHECK(plain(r.out) == d.text, "output", "%s: the output is not the disassembly with these options", cmd.c_str());
	MC_CHECK(exists(path("serialized.spv")) == serialize, "serialized", "%s: serialized.spv is %swritten", cmd.c_str(), serialize ? "not " : ""); if (serialize) { const Words w = asWords(slurp(path("serialized.spv"))); MC_CHECK(w == d.serialized, "serialized", "%s: serialized.spv is not the module", cmd.c_str()); } MC_CHECK(slurp(path("in.spv")) == bytes(mod(k)), "input changed", "%s: the input changes", cmd.c_str()); mc::outcome("printed");
}

MC_SCENARIO(files, 2)
{
	// damaged and missing files for every tool
	const auto& all = damaged(); const unsigned use = mc::choose(6, "use"), k = mc::choose(unsigned(all.size()), "file"); const Kind& f = all[k]; if (!mc::thorough() && k > 40 && (use ? k % 11 != use * 2 : f.arbitrary && k % 3)) return; mc::op("file: %s", f.name.c_str()); place("bad.spv", f); put("lib.spv", M_LIB); put("libg.spv", M_LIBG); put("cons.spv", M_CONS); noFiles({ "out.spv", "serialized.spv" }); Args a; const char* tool = "MC_TOOL_DIS";
	switch (use) { case 0: a = { "bad.spv" }; break; case 1: a = { "bad.spv", "-funcs", "-vars", "-types", "-deco", "-localsize" }; tool = "MC_TOOL_REFL"; break; case 2: a = { "-l", "bad.spv", "-c", "cons.spv", "-o", "out.spv", "-auto" }; break; case 3: a = { "-l", "lib.spv", "-c", "bad.spv", "-o", "out.spv", "-auto" }; break; case 4: a = { "-p", "bad.spv", "-o", "out.spv", "-e", "helper", "exported" }; break; default: a = { "-l", "lib.spv", "-l", "bad.spv", "-c", "cons.spv", "-auto", "-o", "out.spv" }; break; } if (use >= 2) tool = "MC_TOOL_LINK";
	const Res r = ran(tool, a); const std::string cmd = std::string(tool + 8) + " " + join(a); if (surelyBad(f)) { MC_CHECK(r.code != 0, "damaged file accepted", "%s: exit status 0 although bad.spv is damaged (%s)", cmd.c_str(), f.name.c_str()); MC_CHECK(!exists(path("out.spv")), "output of failure", "%s: output written although bad.spv is damaged (%s)", cmd.c_str(), f.name.c_str()); mc::outcome("damaged"); }
	else { if (surelyGood(f) && use != 4) MC_CHECK(r.code == 0 || use >= 2, "valid file rejected", "%s: exit status %d (%s)", cmd.c_str(), r.code, f.name.c_str()); if (!readable(f)) MC_CHECK(r.code != 0, "unreadable file accepted", "%s: exit status 0 (%s)", cmd.c_str(), f.name.c_str()); else if (use == 0) { HeapAllocator al; Log log; Module m(&al, &log); load(m, asWords(f.data)); std::string s; auto p = ModulePrinter::ModuleSimpleFuncPrinter([&s](const char* t) { s += t; }, false); const bool ok = ModulePrinter::printModule(m, grammar(), p); MC_CHECK((r.code == 0) == ok, "printed", "%s: exit status %d although printing returns %d (%s)", cmd.c_str(), r.code, ok, f.name.c_str()); if (ok) MC_CHECK(plain(r.out) == s, "output", "%s: not the disassembly (%s)", cmd.c_str(), f.name.c_str()); } if (use >= 2) MC_CHECK(exists(path("out.spv")) == (r.code == 0), "output", "%s: exit status %d, output %s (%s)", cmd.c_str(), r.code, exists(path("out.spv")) ? "written" : "not written", f.name.c_str()); mc::outcome(r.code ? "refused" : "accepted"); }
	noFiles({ "bad.spv" });
}

MC_SCENARIO(reflector, 2)
{
	struct Tok { const char* a; const char* b; }; const unsigned k = mc::choose(3, "module"); const Words& w = mod(k); const Bin bin = parse(w); std::map<uint32_t, std::string> names; std::map<uint32_t, std::vector<const Ins*>> decos; std::vector<const Ins*> allDecos, globals, types; bool body = false; std::map<uint32_t, const Ins*> def; bool fun = false; const char* lsize = k == M_MESH ? "LocalSize: x 8 y 4 z 2" : k == M_COMPUTE ? "LocalSize: x 16 y 2 z 1" : nullptr; (void)body;
	for (auto& i : bin.ins) { if (i.op == 54) fun = true; if (i.op == 5) names[i.w[1]] = litString(i, 2); if (i.op == 71 || i.op == 72) { decos[i.w[1]].push_back(&i); allDecos.push_back(&i); } if (i.id) def[i.id] = &i; if (!fun && i.op == 59) globals.push_back(&i); else if (!fun && ((i.op >= 19 && i.op <= 39) || (i.op >= 41 && i.op <= 52))) types.push_back(&i); }
	static const char* DN[] = { "Location", "Binding", "Flat", "Restrict", "Block", "Offset", "NonWritable", "SpecId" }; static const uint32_t DV[] = { 30, 33, 14, 19, 2, 35, 24, 1 };
	const unsigned n = mc::choose(mc::bound(2, 3) + 1, "options"); Args a{ "in.spv" }; bool funcs = false, vars = false, typ = false, deco = false, lsz = false, col = false, bad = false; std::set<uint32_t> which; std::vector<std::string> unknown; std::string var, id; bool hasVar = false, hasId = false;
	for (unsigned q = 0; q < n; ++q)
	{
		const unsigned t = mc::choose(24); const char* simple[] = { "-funcs", "-vars", "-types", "-deco", "-localsize", "-colors" }; if (t < 6) { a.push_back(simple[t]); (t == 0 ? funcs : t == 1 ? vars : t == 2 ? typ : t == 3 ? deco : t == 4 ? lsz : col) = true; }
		else if (t < 14) { a.push_back("-deco"); a.push_back(DN[t - 6]); deco = true; which.insert(DV[t - 6]); } else if (t < 19) { const char* ns[] = { "tex", "helper", "sum", "comp", "nothing" }; a.push_back("-var"); var = ns[t - 14]; hasVar = true; a.push_back(var); }
		else if (t < 22) { uint32_t x = t == 19 ? (k == M_SHADER ? 0u : 1u) : 0u; if (t == 19) { for (auto& g : globals) x = g->id; if (!x || globals.empty()) x = 1; } else if (t == 20) { for (auto& i : bin.ins) if (i.op == 54) x = i.id; } else x = 4000; id = std::to_string(x); hasId = true; a.push_back("-id"); a.push_back(id); }
		else if (t == 22) { a.push_back("-unknown"); unknown.push_back("-unknown"); } else { a.push_back(q + 1 == n ? "-id" : "-deco"); if (q + 1 == n) bad = true; else { a.push_back("NoDecoration"); unknown.push_back("NoDecoration"); deco = true; } }
	}
	put("in.spv", k); const Res r = ran("MC_TOOL_REFL", a); const std::string cmd = "refl " + join(a) + (k == M_SHADER ? " (shader)" : k == M_MESH ? " (mesh)" : " (compute)"); uint32_t sel = 0; bool missing = false;
	if (hasVar) { for (auto& i : bin.ins) if (i.op == 5 && !sel && litString(i, 2) == var) sel = i.w[1]; missing = !sel; } else if (hasId) { sel = uint32_t(strtoul(id.c_str(), nullptr, 10)); missing = !def.count(sel); }
	if (bad || missing) { MC_CHECK(r.code != 0, bad ? "invalid arguments accepted" : "missing instruction", "%s: exit status 0", cmd.c_str()); mc::outcome("rejected"); return; }
	if (ignored(r, unknown, cmd)) { mc::outcome("rejected"); return; } MC_CHECK(r.code == 0, "valid arguments rejected", "%s: exit status %d", cmd.c_str(), r.code); std::string out = plain(r.out); MC_CHECK(col || out.find('\033') == std::string::npos, "colours", "%s: colour codes without the option", cmd.c_str()); const std::vector<std::string> l = lines(uncoloured(out));
	if (col && ((vars && !globals.empty()) || funcs || typ)) MC_CHECK(out.find('\033') != std::string::npos, "colours", "%s: no colour codes", cmd.c_str());
	auto section = [&](const char* head, bool& present) { std::vector<std::string> s; present = false; static const char* heads[] = { "Functions:", "Global Variables:", "Types and Constants:", "Decorations:" }; bool in = false; for (auto& x : l) { bool h = x == var + ":" && hasVar; for (auto hd : heads) if (x == hd) h = true; if (h) { in = x == head; present = present || in; continue; } if (in) s.push_back(x); } return s; };
	auto has = [](const std::vector<std::string>& t, const std::string& x) { return std::find(t.begin(), t.end(), x) != t.end(); };
	auto decoText = [&](const Ins& i) { std::vector<std::string> r; r.push_back(i.op == 71 ? "OpDecorate" : "OpMemberDecorate"); const size_t d = i.op == 71 ? 2 : 3; static const std::map<uint32_t, const char*> dn = { { 30, "Location" }, { 33, "Binding" }, { 34, "DescriptorSet" }, { 14, "Flat" }, { 19, "Restrict" }, { 23, "Coherent" }, { 2, "Block" }, { 3, "BufferBlock" }, { 35, "Offset" }, { 24, "NonWritable" }, { 1, "SpecId" }, { 0, "RelaxedPrecision" } }; auto f = dn.find(i.w[d]); if (f == dn.end()) mc::broken("decoration %u", i.w[d]); r.push_back(f->second); for (size_t q = d + 1; q < i.w.size(); ++q) r.push_back(std::to_string(i.w[q])); return r; };
	auto isDeco = [&](const std::string& s, const Ins& i) { const auto t = tokens(s); size_t q = 0; const uint32_t d = i.w[i.op == 71 ? 2 : 3]; for (auto& x : decoText(i)) if (++q == 2 ? !has(t, x) && !has(t, std::to_string(d)) : !has(t, x)) return false; return true; };
	auto opOf = [&](const Ins& i) { const auto* info = grammar().getInfo(i.op); return std::string(info ? info->name : "?"); }; bool present;
	// local size
	if (lsz && lsize) MC_CHECK(has(l, lsize), "local size", "%s: no line \"%s\"", cmd.c_str(), lsize); else for (auto& x : l) MC_CHECK(x.find("LocalSize:") != 0, "local size", "%s: \"%s\"", cmd.c_str(), x.c_str());
	// targets with their decorations
	auto targets = [&](const char* head, const std::vector<const Ins*>& ts, bool wanted) { const auto s = section(head, present); MC_CHECK(present == wanted, "section", "%s: section \"%s\" is %sprinted", cmd.c_str(), head, wanted ? "not " : ""); if (!wanted) return; size_t p = 0; auto next = [&]() -> std::string { while (p < s.size() && tokens(s[p]).empty()) ++p; return p < s.size() ? s[p++] : ""; };
		for (auto* i : ts) { const std::string x = next(); const auto t = tokens(x); MC_CHECK(has(t, opOf(*i)) && has(t, "%" + std::to_string(i->id)), "listing", "%s: \"%s\" instead of %%%u (%s)", cmd.c_str(), x.c_str(), i->id, opOf(*i).c_str()); const std::string nm = names.count(i->id) ? names[i->id] == "" ? "[EMPTY]:" : names[i->id] + ":" : "[UNNAMED]:"; MC_CHECK(!t.empty() && (t[0] == nm || (nm == "[EMPTY]:" && t[0] == "[UNNAMED]:")), "listing", "%s: name \"%s\" instead of \"%s\"", cmd.c_str(), t.empty() ? "" : t[0].c_str(), nm.c_str()); for (auto* d : decos[i->id]) { const std::string y = next(); MC_CHECK(isDeco(y, *d), "listing", "%s: \"%s\" is not a decoration of %%%u", cmd.c_str(), y.c_str(), i->id); } } const std::string rest = next(); MC_CHECK(rest.empty() || rest.find("LocalSize") == 0 || sel, "listing", "%s: \"%s\" after the last one", cmd.c_str(), rest.c_str()); };
	targets("Global Variables:", globals, vars); targets("Types and Constants:", types, typ);
	// functions
	{ const auto s = section("Functions:", present); MC_CHECK(present == funcs, "section", "%s: functions", cmd.c_str()); if (funcs) { size_t ops = 0, want = 0; for (auto& x : s) if (has(tokens(x), "OpFunction")) ++ops; for (auto& i : bin.ins) { if (i.op == 54) { ++want; bool line = false; for (auto& x : s) if (has(tokens(x), "OpFunction") && has(tokens(x), "%" + std::to_string(i.id))) line = true; MC_CHECK(line, "function listing", "%s: function %%%u is not listed", cmd.c_str(), i.id); if (names.count(i.id) && !names[i.id].empty()) { bool nm = false; for (auto& x : s) if (x.find(names[i.id]) == 0) nm = true; MC_CHECK(nm, "function listing", "%s: no line starts with the name %s", cmd.c_str(), names[i.id].c_str()); } } if (i.op == 15) { static const std::map<uint32_t, const char*> mn = { { 4, "Fragment" }, { 5, "GLCompute" }, { 5364, "TaskEXT" } }; const std::string want2 = litString(i, 3) + " [EP " + mn.at(i.w[1]) + "]"; MC_CHECK(has(s, want2), "function listing", "%s: no line \"%s\"", cmd.c_str(), want2.c_str()); } } MC_CHECK(ops == want || sel, "function listing", "%s: %zu functions listed instead of %zu", cmd.c_str(), ops, want); } }
	// decorations
	{ auto s = section("Decorations:", present); MC_CHECK(present == deco, "section", "%s: decorations", cmd.c_str()); if (deco) { std::vector<std::string> ds; for (auto& x : s) { if (tokens(x).empty()) break; ds.push_back(x); } std::vector<const Ins*> want; for (auto* d : allDecos) if (which.empty() || which.count(d->w[d->op == 71 ? 2 : 3])) want.push_back(d); MC_CHECK(ds.size() == want.size(), "decorations", "%s: %zu decorations instead of %zu", cmd.c_str(), ds.size(), want.size()); for (size_t q = 0; q < want.size(); ++q) MC_CHECK(isDeco(ds[q], *want[q]), "decorations", "%s: \"%s\" is another decoration", cmd.c_str(), ds[q].c_str()); } }
	// instruction
	if (sel) { const Ins& i = *def[sel]; std::vector<std::string> tail; for (auto& x : l) tail.push_back(x); size_t at = tail.size(); for (size_t q = 0; q < tail.size(); ++q) { const auto t = tokens(tail[q]); if (has(t, opOf(i)) && has(t, "%" + std::to_string(sel)) && (t[0] == (names.count(sel) ? names[sel] == "" ? "[EMPTY]:" : names[sel] + ":" : "[UNNAMED]:") || (names.count(sel) && names[sel] == "" && t[0] == "[UNNAMED]:"))) at = q; } MC_CHECK(at < tail.size(), "instruction", "%s: %%%u is not printed", cmd.c_str(), sel); std::vector<const Ins*> want; for (auto* d : decos[sel]) if (which.empty() || which.count(d->w[2])) want.push_back(d); std::vector<std::string> ds; for (size_t q = at + 1; q < tail.size(); ++q) if (tail[q].find("Decorate") != std::string::npos) ds.push_back(tail[q]); MC_CHECK(ds.size() == want.size(), "instruction", "%s: %zu decorations of %%%u instead of %zu", cmd.c_str(), ds.size(), sel, want.size()); for (size_t q = 0; q < want.size(); ++q) MC_CHECK(isDeco(ds[q], *want[q]), "instruction", "%s: \"%s\" is another decoration", cmd.c_str(), ds[q].c_str()); if (i.type) { bool ty = false; for (size_t q = at + 1; q < tail.size(); ++q) if (has(tokens(tail[q]), opOf(*def[i.type]))) ty = true; MC_CHECK(ty, "instruction", "%s: the type of %%%u is not printed", cmd.c_str(), sel); } }
	if (n == 0) for (auto& x : l) MC_CHECK(tokens(x).empty(), "output", "%s: \"%s\" without any option", cmd.c_str(), x.c_str()); mc::outcome("printed");
}

namespace
{
	namespace LH = LinkerHelper; using Bit = LH::LinkerOptionBits; struct Opt { const char* l; const char* s; Bit b; };
	const Opt OPTS[] = { { "-ImportMissingTypes", "-types", Bit::ImportMissingTypes }, { "-ImportMissingConstants", "-constants", Bit::ImportMissingConstants }, { "-ImportMissingExtensionSets", "-extsets", Bit::ImportMissingExtensionSets }, { "-ImportReferencedDecorations", "-refdecos", Bit::ImportReferencedDecorations }, { "-ImportReferencedNames", "-refnames", Bit::ImportReferencedNames }, { "-ImportReferencedFunctions", "-reffuncs", Bit::ImportReferencedFunctions }, { "-ImportReferencedVariables", "-refvars", Bit::ImportReferencedVariables }, { "-ImportReferencedStrings", "-refstrings", Bit::ImportReferencedStrings }, { "-RemoveLinkageCapability", "-rmcap", Bit::RemoveLinkageCapability }, { "-AutoAddRequiredCapabilitiesAndExtensions", "-addcaps", Bit::AutoAddRequiredCapabilitiesAndExtensions }, { "-UpdateEntryPointGlobalVarInterface", "-variface", Bit::UpdateEntryPointGlobalVarInterface }, { "-CopyOpSourceStringInstructions", "-srcstrings", Bit::CopyOpSourceStringInstructions }, { "-CopyOpLineInstructions", "-lines", Bit::CopyOpLineInstructions }, { "-CopyOpModuleProcessedInstructions", "-processed", Bit::CopyOpModuleProcessedInstructions } };
	// what linking the modules with these options gives, empty = failure
	const Words& linked(const std::vector<unsigned>& libs, Flag<Bit> flags)
	{
		std::string key = std::to_string(static_cast<unsigned int>(flags)); for (unsigned l : libs) key += "," + std::to_string(l); static std::map<std::string, Words> cache; auto f = cache.find(key); if (f != cache.end()) return f->second; HeapAllocator al; Log log; Module C(&al, &log); if (!load(C, mod(M_CONS))) mc::broken("consumer not read"); bool ok = true; LH::LinkerOptions o; o.flags = flags; o.flags |= Bit::AssignResultIDs; o.grammar = &grammar();
		for (unsigned l : libs) { Module L(&al, &log); if (!load(L, mod(l))) mc::broken("library not read"); if (!(ok = LH::import(L, C, o))) break; } Words w; if (ok) { C.finalizeEntryPoints(); Writer wr; if (!C.write(wr)) mc::broken("not written"); w = wr.words; } return cache.emplace(key, w).first->second;
	}
}

MC_SCENARIO(linker, 2)
{
	// modules, output and options in every order
	const unsigned libs = mc::choose(5, "libraries"), out = mc::choose(2, "output"), fl = mc::choose(4 + 14 + 14, "flags"); const std::vector<std::vector<unsigned>> L = { { M_LIB, M_LIBG }, { M_LIBG, M_LIB }, { M_LIB }, { M_LIBBAD }, { M_LIBG } }; std::vector<Args> groups; std::vector<unsigned> ls = L[libs]; Flag<Bit> flags{ 0u }; Args flagArgs; const unsigned spelling = mc::choose(3, "spelling");
	auto spell = [&](const Opt& o) { std::string s = spelling == 0 ? o.s : o.l; if (spelling == 2) for (auto& c : s) c = char(isupper(uint8_t(c)) ? tolower(c) : toupper(c)); flagArgs.push_back(s); flags |= o.b; };
	if (fl == 1) { flagArgs = { spelling == 0 ? "-auto" : spelling == 1 ? "-AllOptions" : "-aLLoPTIONS" }; flags |= Bit::All; } else if (fl == 2) { for (unsigned b = 0; b < 8; ++b) spell(OPTS[b]); } else if (fl == 3) { for (unsigned b = 0; b < 14; ++b) spell(OPTS[13 - b]); } else if (fl >= 18) { for (unsigned b = 0; b < 14; ++b) if (b != fl - 18) spell(OPTS[b]); } else if (fl >= 4) { for (unsigned b = 0; b < 8; ++b) spell(OPTS[b]); if (fl >= 12) spell(OPTS[fl - 4]); else { flagArgs.clear(); flags = Flag<Bit>{ 0u }; spell(OPTS[fl - 4]); } }
	const char* files[] = { "a.spv", "b.spv" }; for (size_t q = 0; q < ls.size(); ++q) { put(files[q], ls[q]); groups.push_back({ spelling ? "-lib" : "-l", files[q] }); } put("cons.spv", M_CONS); groups.push_back({ spelling ? "-consumer" : "-c", "cons.spv" }); if (out) groups.push_back({ spelling ? "-out" : "-o", "out.spv" }); if (!flagArgs.empty()) groups.push_back(flagArgs); noFiles({ "out.spv" });
	if (!mc::thorough() && spelling == 2 && libs) return; std::vector<unsigned> order; for (unsigned q = 0; q < groups.size(); ++q) order.push_back(q);
	// libraries keep their relative order
	Args a; std::vector<unsigned> left = order; const bool all = (mc::thorough() && fl % 4 == 0) || fl == 1 || (fl == 3 && spelling == 1); size_t nextLib = 0; if (!all) { const unsigned rot = mc::choose(unsigned(left.size())); std::rotate(left.begin(), left.begin() + rot, left.end()); std::vector<unsigned> o2; for (unsigned g : left) if (g < ls.size()) o2.push_back(unsigned(nextLib++)); else o2.push_back(g); for (unsigned g : o2) for (auto& x : groups[g]) a.push_back(x); }
	else while (!left.empty()) { std::vector<unsigned> can; for (unsigned g : left) if (g >= ls.size() || g == nextLib) can.push_back(g); const unsigned g = can[mc::choose(unsigned(can.size()))]; if (g < ls.size()) ++nextLib; for (auto& x : groups[g]) a.push_back(x); left.erase(std::find(left.begin(), left.end(), g)); }
	if (mc::choose(2, "verbose")) a.push_back("-verbose"); const Res r = ran("MC_TOOL_LINK", a); const std::string cmd = "link " + join(a); const Words& want = linked(ls, flags); const std::string target = slurp(path(out ? "out.spv" : "cons.spv")); const std::string cons = bytes(mod(M_CONS));
	if (want.empty()) { MC_CHECK(r.code != 0, "failed link accepted", "%s: exit status 0 although the import fails", cmd.c_str()); MC_CHECK(out ? !exists(path("out.spv")) : target == cons, "output of failure", "%s: output written although the import fails", cmd.c_str()); mc::outcome("failed"); return; }
	MC_CHECK(r.code == 0, "valid arguments rejected", "%s: exit status %d", cmd.c_str(), r.code); MC_CHECK(asWords(target) == want, "linked module", "%s: the output is not the linked module:\n%s\ninstead of\n%s", cmd.c_str(), text(asWords(target)).c_str(), text(want).c_str()); if (out) MC_CHECK(slurp(path("cons.spv")) == cons, "input changed", "%s: the consumer changes although the output is another file", cmd.c_str()); for (size_t q = 0; q < ls.size(); ++q) MC_CHECK(slurp(path(files[q])) == bytes(mod(ls[q])), "input changed", "%s: a library changes", cmd.c_str()); mc::outcome("linked");
}

MC_SCENARIO(invalid, 2)
{
	// something wrong at every position of otherwise valid arguments
	const unsigned base = mc::choose(5, "base"), what = mc::choose(6, "defect"); const std::vector<Args> B = { { "in.spv", "-colors", "-tabs", " " }, { "in.spv", "-vars", "-deco", "Binding", "-id", "1" }, { "-l", "lib.spv", "-l", "libg.spv", "-c", "cons.spv", "-auto", "-o", "out.spv" }, { "-p", "in.spv", "-e", "helper", "name", "-vars", "-i", "loop", "other", "-o", "out.spv" }, { "-l", "lib.spv", "-c", "cons.spv", "-auto" } }; Args a = B[base]; put("in.spv", M_SHADER); put("lib.spv", M_LIB); put("libg.spv", M_LIBG); put("cons.spv", M_CONS); noFiles({ "out.spv", "serialized.spv" }); const char* tool = base == 0 ? "MC_TOOL_DIS" : base == 1 ? "MC_TOOL_REFL" : "MC_TOOL_LINK"; bool mayPass = false; std::vector<std::string> unknown;
	const std::string consB = bytes(mod(M_CONS)), inB = bytes(mod(M_SHADER));
	switch (what)
	{
	case 0: { const unsigned p = mc::choose(unsigned(a.size()) + 1); const std::string prev = p ? a[p - 1] : "", prev2 = p > 1 ? a[p - 2] : ""; a.insert(a.begin() + p, "-bogus"); const bool file = prev == "-l" || prev == "-c" || prev == "-p" || (base < 2 && p == 0), value = prev == "-o" || prev == "-e" || prev == "-i" || prev2 == "-e" || prev2 == "-i" || prev == "-tabs" || prev == "-id"; mayPass = !file; if (!file && !value) unknown.push_back("-bogus"); break; }
	case 1: { const unsigned p = mc::choose(unsigned(a.size())); a.erase(a.begin() + p, a.end()); if (base == 0) mayPass = p > 0 && p != 3; else if (base == 1) mayPass = p > 0 && p != 5; else if (base == 2) mayPass = p >= 7 && p != 8; else if (base == 3) mayPass = p == 5 || p == 6 || p == 9 || p == 10 ? p != 10 : false; else mayPass = false; if (base >= 2 && p == 0) mayPass = true; break; }
	case 2: { const unsigned p = mc::choose(4); if (base < 2) return; for (size_t q = 0; q + 1 < a.size(); ++q) if (a[q] == "-o") { a.erase(a.begin() + q, a.begin() + q + 2); break; } a.push_back("-o"); a.push_back(p == 0 ? "nowhere/out.spv" : p == 1 ? "folder" : p == 2 ? "full" : ""); mkdir(path("folder").c_str(), 0700); unlink(path("full").c_str()); if (symlink("/dev/full", path("full").c_str())) mc::broken("symlink"); break; }
	case 3: { const unsigned p = mc::choose(2); if (base != 0) return; a = { "in.spv", "-serialize" }; if (p == 0) mkdir(path("serialized.spv").c_str(), 0700); else if (symlink("/dev/full", path("serialized.spv").c_str())) mc::broken("symlink"); break; }
	case 4: if (base < 2) a = {}; else if (base == 2) a = { "-c", "cons.spv", "-o", "out.spv" }; else if (base == 3) a = { "-p", "in.spv", "-o", "out.spv" }; else a = { "-l", "lib.spv", "-o", "out.spv" }; break;
	default: if (base == 3) a = { "-e", "helper", "name", "-o", "out.spv" }; else if (base == 2) a = { "-l", "libg.spv", "-l", "nothing.spv", "-c", "cons.spv", "-o", "out.spv", "-auto" }; else if (base == 4) a = { "-l", "lib.spv", "-c", "nothing.spv", "-o", "out.spv", "-auto" }; else a = { "nothing.spv" }; break;
	}
	const Res r = ran(tool, a); const std::string cmd = std::string(tool + 8) + " " + join(a); ignored(r, unknown, cmd); if (!mayPass) { MC_CHECK(r.code != 0, "invalid arguments accepted", "%s: exit status 0", cmd.c_str()); MC_CHECK(!exists(path("out.spv")), "output of failure", "%s: output written", cmd.c_str()); MC_CHECK(slurp(path("cons.spv")) == consB && slurp(path("in.spv")) == inB, "input changed", "%s: an input changes although the tool fails", cmd.c_str()); } mc::outcome(r.code ? "rejected" : "accepted"); noFiles({ "full", "folder", "serialized.spv", "out.spv", "-bogus" });
}

MC_SCENARIO(patcher, 2)
{
	// exports and imports of every id and every name of the shader
	const Words& w = mod(M_SHADER); const Bin bin = parse(w); std::vector<std::string> ts; std::vector<uint32_t> ids; std::map<uint32_t, const Ins*> def; std::map<uint32_t, bool> global; uint32_t fn = 0, ep = 0; for (auto& i : bin.ins) { if (i.op == 15) ep = i.w[2]; if (i.op == 54) fn = i.id; if (i.id) { def[i.id] = &i; global[i.id] = !fn; ts.push_back(std::to_string(i.id)); ids.push_back(i.id); } if (i.op == 56) fn = 0; } for (auto& i : bin.ins) if (i.op == 5) { ts.push_back(litString(i, 2)); ids.push_back(i.w[1]); } for (const char* x : { "nothing", "0", "4000", "-1", "member", "4294967295", "1x" }) { ts.push_back(x); ids.push_back(0); }
	const unsigned t = mc::choose(unsigned(ts.size()), "target"), mode = mc::choose(3, "import/export/export -vars"), order = mc::choose(6, "order"), o = mc::choose(2, "output"); std::vector<Args> g; g.push_back({ mode ? "-e" : "-import", ts[t], "sym bol" }); if (mode == 2) g[0].push_back("-vars"); g.push_back({ order & 1 ? "-patchspv" : "-p", "in.spv" }); if (o) g.push_back({ "-o", "out.spv" }); if (!o && order > 1) return; std::vector<unsigned> perm; for (unsigned q = 0; q < g.size(); ++q) perm.push_back(q); for (unsigned q = 0; q < order; ++q) std::next_permutation(perm.begin(), perm.end()); Args a; for (unsigned q : perm) for (auto& x : g[q]) a.push_back(x);
	put("in.spv", M_SHADER); noFiles({ "out.spv" }); const Res r = ran("MC_TOOL_LINK", a); const std::string cmd = "link " + join(a); const uint32_t id = ids[t]; const bool valid = id && ((def[id]->op == 54 && id != ep) || (def[id]->op == 59 && global[id])); bool unnamed = false; size_t vars = 0; if (valid && mode == 2 && def[id]->op == 54) { for (auto& i : bin.ins) if (i.op == 5 && i.w[1] == id) { unnamed = litString(i, 2) == "loop"; vars = unnamed ? 0 : 1; } }
	const std::string before = bytes(w), after = slurp(path(o ? "out.spv" : "in.spv"));
	if (!valid || unnamed) { MC_CHECK(r.code != 0, "invalid target accepted", "%s: exit status 0", cmd.c_str()); MC_CHECK(o ? !exists(path("out.spv")) : after == before, "output of failure", "%s: output written although it fails", cmd.c_str()); mc::outcome("rejected"); return; }
	MC_CHECK(r.code == 0, "valid arguments rejected", "%s: exit status %d", cmd.c_str(), r.code); const Words ow = asWords(after); const Bin b = parse(ow); MC_CHECK(b.ok, "patched module", "%s: the output is malformed: %s", cmd.c_str(), b.error.c_str()); const std::string v = validate(ow); MC_CHECK(v.empty(), ("invalid: " + sig(v)).c_str(), "%s: the output is invalid: %s", cmd.c_str(), v.c_str());
	std::map<unsigned, int> ops; bool body = false, cut = false; uint32_t cur = 0; std::set<uint32_t> gone; for (auto& i : bin.ins) { if (i.op == 54) { cur = i.id; body = false; } if (i.op == 248) body = true; if (i.op == 56) { body = false; } cut = cur == id && body && !mode; if (cut) { if (i.id) gone.insert(i.id); } else ++ops[i.op]; if (i.op == 56) cur = 0; } for (auto& i : bin.ins) if ((i.op == 5 || i.op == 71) && gone.count(i.w[1])) --ops[i.op]; ++ops[17]; ops[71] += 1 + int(vars); for (auto& i : b.ins) --ops[i.op]; for (auto& x : ops) MC_CHECK(x.second == 0, "patched module", "%s: %d instructions of opcode %u too %s", cmd.c_str(), abs(x.second), x.first, x.second > 0 ? "few" : "many");
	size_t links = 0; std::map<uint32_t, unsigned> kind; for (auto& i : b.ins) { if (i.id) kind[i.id] = i.op; } for (auto& i : b.ins) if (i.op == 71 && i.w[2] == 41) { ++links; const std::string n = litString(i, 3); const bool main = n == "sym bol"; MC_CHECK(i.w.back() == (mode ? 0u : 1u) && (main ? kind[i.w[1]] == def[id]->op : kind[i.w[1]] == 59 && n == "time"), "linkage", "%s: linkage of \"%s\"", cmd.c_str(), n.c_str()); } MC_CHECK(links == 1 + vars, "linkage", "%s: %zu symbols", cmd.c_str(), links); if (o) MC_CHECK(slurp(path("in.spv")) == before, "input changed", "%s: the input changes", cmd.c_str()); mc::outcome("patched");
}

MC_SCENARIO(pipeline, 2)
{
	// a shader split into library and consumer and linked again is the shader
	const unsigned mask = mc::choose(7, "functions") + 1, order = mc::choose(2), withVar = mc::choose(2), flags = mc::choose(2); const char* F[] = { "helper", "2d", "loop" }; put("in.spv", M_SHADER); noFiles({ "lib.spv", "cons.spv", "out.spv" }); Args e{ "-p", "in.spv", "-o", "lib.spv" }, i{ "-p", "in.spv", "-o", "cons.spv" };
	for (unsigned q = 0; q < 3; ++q) { const unsigned f = order ? 2 - q : q; if (!(mask >> f & 1)) continue; for (Args* a : { &e, &i }) { a->push_back(a == &e ? "-e" : "-i"); a->push_back(F[f]); a->push_back(std::string("sym_") + F[f]); } } if (withVar) for (Args* a : { &e, &i }) { a->push_back(a == &e ? "-e" : "-i"); a->push_back("time"); a->push_back("time"); }
	Res r = ran("MC_TOOL_LINK", e); MC_CHECK(r.code == 0, "split", "link %s: exit status %d", join(e).c_str(), r.code); r = ran("MC_TOOL_LINK", i); MC_CHECK(r.code == 0, "split", "link %s: exit status %d", join(i).c_str(), r.code); Args l{ "-l", "lib.spv", "-c", "cons.spv", "-o", "out.spv" }; if (flags) l.push_back("-auto"); else for (const char* x : { "-types", "-constants", "-extsets", "-refdecos", "-refnames", "-reffuncs", "-refvars", "-rmcap" }) l.push_back(x); r = ran("MC_TOOL_LINK", l); MC_CHECK(r.code == 0, "linked again", "link %s: exit status %d", join(l).c_str(), r.code);
	const Words w = asWords(slurp(path("out.spv"))); const std::string v = validate(w); MC_CHECK(v.empty(), ("invalid: " + sig(v)).c_str(), "%s; %s: the output is invalid: %s", join(e).c_str(), join(l).c_str(), v.c_str()); const Bin a = parse(mod(M_SHADER)), b = parse(w); std::map<unsigned, int> ops; for (auto& x : a.ins) ++ops[x.op]; for (auto& x : b.ins) --ops[x.op]; for (auto& x : b.ins) { MC_CHECK(!(x.op == 71 && x.w[2] == 41), "linked again", "%s: a symbol is left", join(l).c_str()); MC_CHECK(!(x.op == 17 && x.w[1] == 5), "linked again", "%s: Linkage is left", join(l).c_str()); } if (!(mask & 2) || mask & 1) for (unsigned q : { 54, 61, 62, 57, 129, 131, 133, 12, 248, 245, 246, 253, 254 }) MC_CHECK(ops[q] == 0, "linked again", "%s; %s: %d instructions of opcode %u too %s", join(i).c_str(), join(l).c_str(), abs(ops[q]), q, ops[q] > 0 ? "few" : "many"); mc::outcome("same");
}
