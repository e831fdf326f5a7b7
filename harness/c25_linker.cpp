// C25: linking replaces imports by the exported definitions and nothing else.
#include "ir.h"
#include "programs.h"
#include "common/LinkerHelper.h"
#include "common/ModulePrinter.h"
#include "spvgentwo/String.h"
#include "spvgentwo/ModuleTemplate.inl"
#include <functional>
using namespace spvgentwo;
using namespace ir;

namespace
{
	namespace LH = LinkerHelper; using Bit = LH::LinkerOptionBits;
	enum : unsigned { TYPES = 0, CONSTS, EXTSETS, DECOS, NAMES, FUNCS, VARS, STRINGS, IDS, RMCAP, ADDCAPS, IFACE, SOURCES, LINES, PROCESSED, NOPT };
	const Bit BITS[NOPT] = { Bit::ImportMissingTypes, Bit::ImportMissingConstants, Bit::ImportMissingExtensionSets, Bit::ImportReferencedDecorations, Bit::ImportReferencedNames, Bit::ImportReferencedFunctions, Bit::ImportReferencedVariables, Bit::ImportReferencedStrings, Bit::AssignResultIDs, Bit::RemoveLinkageCapability, Bit::AutoAddRequiredCapabilitiesAndExtensions, Bit::UpdateEntryPointGlobalVarInterface, Bit::CopyOpSourceStringInstructions, Bit::CopyOpLineInstructions, Bit::CopyOpModuleProcessedInstructions };
	const char* OPTNAMES[NOPT] = { "types", "constants", "extsets", "refdecos", "refnames", "reffuncs", "refvars", "refstrings", "ids", "rmcap", "addcaps", "variface", "srcstrings", "lines", "processed" };
	constexpr unsigned on(unsigned b) { return 1u << b; }
	constexpr unsigned GATES = 255, ALLOPT = (1u << NOPT) - 1, USUAL = GATES | 1u << IDS;
	std::string optText(unsigned o) { std::string s; for (unsigned b = 0; b < NOPT; ++b) if (o >> b & 1) s += std::string(s.empty() ? "" : " ") + OPTNAMES[b]; return s.empty() ? "none" : s; }

	// ---- source text of modules -------------------------------------------------------------------------------
	struct Def { const char* name; const char* line; const char* extra; const char* names; }; // extra: decorations
	const Def DEFS[] = {
		{ "void", "OpTypeVoid" }, { "bool", "OpTypeBool" }, { "float", "OpTypeFloat 32" }, { "int", "OpTypeInt 32 1" }, { "uint", "OpTypeInt 32 0" }, { "double", "OpTypeFloat 64" }, { "v3", "OpTypeVector %float 3" }, { "v4", "OpTypeVector %float 4" }, { "v2", "OpTypeVector %float 2" }, { "mat", "OpTypeMatrix %v3 3" },
		{ "fnv", "OpTypeFunction %void" }, { "fn", "OpTypeFunction %float %float" }, { "fni", "OpTypeFunction %float %int" }, { "fn2", "OpTypeFunction %float %float %float" }, { "fnp", "OpTypeFunction %float %ptrF" }, { "fnvf", "OpTypeFunction %void %float" },
		{ "ptrF", "OpTypePointer Function %float" }, { "ptrP", "OpTypePointer Private %float" }, { "ptrI", "OpTypePointer Input %float" }, { "ptrPi", "OpTypePointer Private %int" },
		{ "c2", "OpConstant %float 2" }, { "c3", "OpConstant %float 3" }, { "c16", "OpConstant %float 16" }, { "i0", "OpConstant %int 0" }, { "i1", "OpConstant %int 1" }, { "i4", "OpConstant %int 4" }, { "u2", "OpConstant %uint 2" }, { "d5", "OpConstant %double 5" }, { "true", "OpConstantTrue %bool" },
		{ "cv", "OpConstantComposite %v3 %c2 %c3 %c2" }, { "null", "OpConstantNull %v3" }, { "undef", "OpUndef %float" },
		{ "spec", "OpSpecConstant %float 4", "OpDecorate %spec SpecId 7" , "OpName %spec \"spec\"" }, { "spec2", "OpSpecConstant %float 4", "OpDecorate %spec2 SpecId 8" }, { "si", "OpSpecConstant %int 4", "OpDecorate %si SpecId 9" }, { "specv", "OpSpecConstantComposite %v3 %spec %c2 %spec2" }, { "sop", "OpSpecConstantOp %int IAdd %si %i1" }, { "strue", "OpSpecConstantTrue %bool", "OpDecorate %strue SpecId 10" },
		{ "arr", "OpTypeArray %float %u2" }, { "arrs", "OpTypeArray %v4 %u2", "OpDecorate %arrs ArrayStride 16" }, { "ptrA", "OpTypePointer Function %arr" },
		{ "S", "OpTypeStruct %float %v4", "OpMemberDecorate %S 0 Offset 0\nOpMemberDecorate %S 1 Offset 16\nOpDecorate %S Block", "OpName %S \"Block\"\nOpMemberName %S 0 \"first\"\nOpMemberName %S 1 \"second\"" }, { "ptrS", "OpTypePointer Uniform %S" }, { "ptrUf", "OpTypePointer Uniform %float" }, { "ubo", "OpVariable %ptrS Uniform", "OpDecorate %ubo DescriptorSet 0\nOpDecorate %ubo Binding 3", "OpName %ubo \"ubo\"" },
		{ "N", "OpTypeStruct %arrs %float", "OpMemberDecorate %N 0 Offset 0\nOpMemberDecorate %N 1 Offset 32", "OpName %N \"Nested\"" }, { "SN", "OpTypeStruct %N", "OpMemberDecorate %SN 0 Offset 0\nOpDecorate %SN Block" }, { "ptrSN", "OpTypePointer Uniform %SN" }, { "nubo", "OpVariable %ptrSN Uniform", "OpDecorate %nubo DescriptorSet 1\nOpDecorate %nubo Binding 4" },
		{ "T", "OpTypeStruct %float %v4", "OpMemberDecorate %T 0 Offset 0\nOpMemberDecorate %T 1 Offset 64\nOpDecorate %T Block" }, { "ptrT", "OpTypePointer Uniform %T" }, { "tubo", "OpVariable %ptrT Uniform", "OpDecorate %tubo DescriptorSet 0\nOpDecorate %tubo Binding 5" },
		{ "P", "OpTypeStruct %float %int" }, { "ptrPP", "OpTypePointer Private %P" }, { "pvar", "OpVariable %ptrPP Private" },
		{ "gv", "OpVariable %ptrP Private %c3", "", "OpName %gv \"gv\"" }, { "gu", "OpVariable %ptrP Private", "OpDecorate %gu RelaxedPrecision", "OpName %gu \"gu\"" }, { "ev", "OpVariable %ptrP Private", "", "OpName %ev \"exported\"" }, { "in", "OpVariable %ptrI Input", "OpDecorate %in Location 2", "OpName %in \"in\"" },
		{ "img", "OpTypeImage %float 2D 0 0 0 1 Unknown" }, { "simg", "OpTypeSampledImage %img" }, { "ptrSI", "OpTypePointer UniformConstant %simg" }, { "tex", "OpVariable %ptrSI UniformConstant", "OpDecorate %tex DescriptorSet 0\nOpDecorate %tex Binding 1", "OpName %tex \"tex\"" },
	};
	const std::map<std::string, const Def*>& defs() { static const auto m = [] { std::map<std::string, const Def*> r; for (auto& d : DEFS) r[d.name] = &d; return r; }(); return m; }
	struct Text
	{
		std::set<std::string> caps, exts, done; std::string imports, eps, modes, strings, names, processed, decos, types, functions; bool named = false, glsl = false; unsigned version = 0x00010100;
		void use(const std::string& n) { auto f = defs().find(n); if (f == defs().end() || !done.insert(n).second) return; scan(f->second->line); types += "%" + n + " = " + f->second->line + "\n"; if (f->second->extra) decos += f->second->extra + std::string("\n"); if (named && f->second->names) names += f->second->names + std::string("\n"); if (n == "double") caps.insert("Float64"); }
		void scan(const std::string& s) { for (size_t p = s.find('%'); p != std::string::npos; p = s.find('%', p + 1)) { size_t e = p + 1; while (e < s.size() && (isalnum(uint8_t(s[e])) || s[e] == '_')) ++e; use(s.substr(p + 1, e - p - 1)); } }
		void add(const std::string& body) { scan(body); if (body.find("%glsl") != std::string::npos && !glsl) { glsl = true; imports += "%glsl = OpExtInstImport \"GLSL.std.450\"\n"; } functions += body; }
		Words words() const { std::string t; for (auto& c : caps) t += "OpCapability " + c + "\n"; for (auto& c : exts) t += "OpExtension \"" + c + "\"\n"; t += imports + "OpMemoryModel Logical GLSL450\n" + eps + modes + strings + names + processed + decos + types + functions; Words w = assemble(t); w[1] = version; return w; }
	};
	// what an exported function does: @x input, @r result, @k unique suffix
	struct Feature { const char* name; const char* vars; const char* body; const char* more; const char* caps; const char* exts; };
	const Feature FEATURES[] = {
		{ "nothing", "", "@r = OpCopyObject %float @x\n" },
		{ "constant", "", "@r = OpFMul %float @x %c2\n" },
		{ "known constant", "", "@r = OpFMul %float @x %c16\n" },
		{ "vector type", "", "%a@k = OpCompositeConstruct %v3 @x @x @x\n@r = OpCompositeExtract %float %a@k 0\n" },
		{ "matrix type", "", "%a@k = OpCompositeConstruct %v3 @x @x @x\n%m@k = OpCompositeConstruct %mat %a@k %a@k %a@k\n@r = OpCompositeExtract %float %m@k 0 1\n" },
		{ "local variable", "%l@k = OpVariable %ptrF Function\n", "OpStore %l@k @x\n@r = OpLoad %float %l@k\n" },
		{ "initialised local", "%l@k = OpVariable %ptrF Function %c2\n", "@r = OpLoad %float %l@k\n" },
		{ "initialised global", "", "@r = OpLoad %float %gv\nOpStore %gv @x\n" },
		{ "decorated global", "", "@r = OpLoad %float %gu\nOpStore %gu @x\n" },
		{ "exported variable", "", "@r = OpLoad %float %ev\nOpStore %ev @x\n" },
		{ "uniform block", "", "%p@k = OpAccessChain %ptrUf %ubo %i0\n@r = OpLoad %float %p@k\n" },
		{ "nested block", "", "%p@k = OpAccessChain %ptrUf %nubo %i0 %i0 %i1 %i0\n@r = OpLoad %float %p@k\n" },
		{ "private struct", "", "%p@k = OpAccessChain %ptrP %pvar %i0\nOpStore %p@k @x\n@r = OpLoad %float %p@k\n" },
		{ "callee", "", "@r = OpFunctionCall %float %h @x\n", "h" },
		{ "callee twice", "", "%q@k = OpFunctionCall %float %h @x\n@r = OpFunctionCall %float %h %q@k\n", "h" },
		{ "chain of callees", "", "@r = OpFunctionCall %float %hh @x\n", "h hh" },
		{ "exported callee", "", "@r = OpFunctionCall %float %g @x\n" },
		{ "pointer callee", "%l@k = OpVariable %ptrF Function\n", "OpStore %l@k @x\n@r = OpFunctionCall %float %hp %l@k\n", "hp" },
		{ "void callee", "", "%v@k = OpFunctionCall %void %hv @x\n@r = OpCopyObject %float @x\n", "hv" },
		{ "extended instruction", "", "@r = OpExtInst %float %glsl Sin @x\n" },
		{ "loop", "", "OpBranch %b@k\n%b@k = OpLabel\nOpBranch %h@k\n%h@k = OpLabel\n%i@k = OpPhi %int %i0 %b@k %n@k %c@k\n%s@k = OpPhi %float @x %b@k %t@k %c@k\n%lt@k = OpSLessThan %bool %i@k %i4\nOpLoopMerge %m@k %c@k None\nOpBranchConditional %lt@k %y@k %m@k\n%y@k = OpLabel\n%t@k = OpFAdd %float %s@k @x\nOpBranch %c@k\n%c@k = OpLabel\n%n@k = OpIAdd %int %i@k %i1\nOpBranch %h@k\n%m@k = OpLabel\n@r = OpCopyObject %float %s@k\n" },
		{ "selection", "", "%lt@k = OpFOrdLessThan %bool @x %c2\nOpSelectionMerge %m@k None\nOpBranchConditional %lt@k %y@k %z@k 3 4\n%y@k = OpLabel\nOpBranch %m@k\n%z@k = OpLabel\nOpBranch %m@k\n%m@k = OpLabel\n@r = OpPhi %float %c2 %y@k @x %z@k\n" },
		{ "switch", "", "%j@k = OpConvertFToS %int @x\nOpSelectionMerge %m@k None\nOpSwitch %j@k %d@k 0 %y@k 5 %d@k\n%y@k = OpLabel\nOpBranch %d@k\n%d@k = OpLabel\nOpBranch %m@k\n%m@k = OpLabel\n@r = OpConvertSToF %float %j@k\n" },
		{ "line", "", "OpLine %file 3 4\n@r = OpFNegate %float @x\nOpNoLine\n", "file" },
		{ "undefined value", "", "%u@k = OpUndef %float\n@r = OpFAdd %float @x %u@k\n" },
		{ "module scope undefined value", "", "@r = OpFAdd %float @x %undef\n" },
		{ "spec constant", "", "@r = OpFAdd %float @x %spec\n" },
		{ "two spec constants", "", "%q@k = OpFAdd %float %spec2 %spec\n@r = OpFAdd %float @x %q@k\n" },
		{ "spec composite", "", "%q@k = OpCompositeExtract %float %specv 0\n@r = OpFAdd %float @x %q@k\n" },
		{ "spec composite and its parts", "", "%q@k = OpCompositeExtract %float %specv 0\n%w@k = OpFAdd %float %spec %q@k\n@r = OpFAdd %float @x %w@k\n" },
		{ "spec operation", "", "%q@k = OpConvertSToF %float %sop\n@r = OpFAdd %float @x %q@k\n" },
		{ "spec bool", "", "@r = OpSelect %float %strue @x %c2\n" },
		{ "composite constant", "", "@r = OpCompositeExtract %float %cv 1\n" },
		{ "null constant", "", "@r = OpCompositeExtract %float %null 1\n" },
		{ "bool constant", "", "@r = OpSelect %float %true @x %c3\n" },
		{ "double", "", "%d@k = OpFConvert %double @x\n%e@k = OpFMul %double %d@k %d5\n@r = OpFConvert %float %e@k\n" },
		{ "extension", "", "%j@k = OpConvertFToS %int @x\n%e@k = OpExpectKHR %int %j@k %i1\n@r = OpConvertSToF %float %e@k\n", "", "ExpectAssumeKHR", "SPV_KHR_expect_assume" },
		{ "sampled image", "", "%s@k = OpLoad %simg %tex\n%q@k = OpCompositeConstruct %v2 @x @x\n%e@k = OpImageSampleExplicitLod %v4 %s@k %q@k Lod %c2\n@r = OpCompositeExtract %float %e@k 0\n" },
		{ "array", "%l@k = OpVariable %ptrA Function\n", "%p@k = OpAccessChain %ptrF %l@k %i1\nOpStore %p@k @x\n@r = OpLoad %float %p@k\n" },
		{ "input", "", "@r = OpLoad %float %in\n" },
		{ "library import", "", "@r = OpFunctionCall %float %missing @x\n", "imp" },
		{ "named and decorated results", "", "%nd@k = OpFAdd %float @x @x\n@r = OpFNegate %float %nd@k\n", "nd" },
	};
	constexpr unsigned NF = sizeof FEATURES / sizeof *FEATURES;
	std::string subst(std::string s, const std::string& x, const std::string& r, unsigned k) { std::string o; for (size_t p = 0; p < s.size(); ++p) { if (s[p] == '@') { ++p; o += s[p] == 'x' ? x : s[p] == 'r' ? r : "_" + std::to_string(k); } else o += s[p]; } return o; }
	struct LibSpec { std::vector<unsigned> features; bool named = false; unsigned version = 0x00010100; const char* fname = "f"; bool gCallsF = false, two = false; std::string prefix; };
	Text library(const LibSpec& s)
	{
		Text t; t.caps = { "Linkage", "Shader" }; t.named = s.named; t.version = s.version; std::set<std::string> more; auto link = [&](const char* id, const std::string& n) { t.decos += std::string("OpDecorate %") + id + " LinkageAttributes \"" + s.prefix + n + "\" Export\n"; };
		std::string vars, body, x = "%x"; unsigned k = 0; for (unsigned f : s.features) { const Feature& e = FEATURES[f]; const std::string r = "%r" + std::to_string(k); vars += subst(e.vars ? e.vars : "", x, r, k); body += subst(e.body, x, r, k); if (e.more) { std::string w; for (const char* p = e.more;; ++p) { if (*p && *p != ' ') w += *p; else { if (w == "nd") { t.decos += "OpDecorate %nd_" + std::to_string(k) + " RelaxedPrecision\nOpDecorate %r" + std::to_string(k) + " NoContraction\n"; if (s.named) t.names += "OpName %nd_" + std::to_string(k) + " \"sum\"\n"; } else if (!w.empty()) more.insert(w); w.clear(); if (!*p) break; } } } if (e.caps) t.caps.insert(e.caps); if (e.exts) t.exts.insert(e.exts); x = r; ++k; }
		if (s.named) t.names += "OpName %f \"lib_f\"\nOpName %x \"x\"\nOpName %fe \"entry\"\nOpName %g \"lib_g\"\n";
		link("f", s.fname); link("g", "g"); link("ev", "ev"); if (more.count("file")) t.strings = "%file = OpString \"lib.glsl\"\n";
		t.use("ev"); t.processed = "OpModuleProcessed \"lib pass\"\n"; t.strings += "%src = OpString \"other.glsl\"\nOpSource GLSL 450 %src\n";
		if (more.count("imp")) t.add("%missing = OpFunction %float None %fn\n%missingx = OpFunctionParameter %float\nOpFunctionEnd\n"), t.decos += "OpDecorate %missing LinkageAttributes \"missing\" Import\n";
		if (more.count("h")) t.add("%h = OpFunction %float Inline %fn\n%hx = OpFunctionParameter %float\n%hl = OpLabel\n%hr = OpFSub %float %hx %hx\nOpReturnValue %hr\nOpFunctionEnd\n"), t.decos += "OpDecorate %hr RelaxedPrecision\nOpDecorate %hx RelaxedPrecision\n", t.names += s.named ? "OpName %h \"helper\"\nOpName %hx \"hx\"\n" : "";
		if (more.count("hh")) t.add("%hh = OpFunction %float None %fn\n%hhx = OpFunctionParameter %float\n%hhl = OpLabel\n%hhr = OpFunctionCall %float %h %hhx\nOpReturnValue %hhr\nOpFunctionEnd\n");
		if (more.count("hp")) t.add("%hp = OpFunction %float None %fnp\n%hpx = OpFunctionParameter %ptrF\n%hpl = OpLabel\n%hpr = OpLoad %float %hpx\nOpReturnValue %hpr\nOpFunctionEnd\n");
		if (more.count("hv")) t.add("%hv = OpFunction %void None %fnvf\n%hvx = OpFunctionParameter %float\n%hvl = OpLabel\nOpReturn\nOpFunctionEnd\n");
		if (s.two) t.add("%unused = OpFunction %float None %fn\n%ux = OpFunctionParameter %float\n%ul = OpLabel\n%ur = OpFMul %float %ux %c3\nOpReturnValue %ur\nOpFunctionEnd\n");
		t.add("%g = OpFunction %float None %fn\n%gx = OpFunctionParameter %float\n%gl = OpLabel\n" + std::string(s.gCallsF ? "%gr = OpFunctionCall %float %f %gx\n" : "%gr = OpFAdd %float %gx %gx\n") + "OpReturnValue %gr\nOpFunctionEnd\n");
		t.add("%f = OpFunction %float Pure %fn\n%x = OpFunctionParameter %float\n%fe = OpLabel\n" + vars + body + "OpReturnValue " + x + "\nOpFunctionEnd\n"); return t;
	}
	enum Cons { MINIMAL, RICH, G_FIRST, F_FIRST, OTHERS, BLOCK_SAME, BLOCK_OTHER, OWN, DECL_NAMES, UNUSED, NCONS };
	const char* CONSNAMES[NCONS] = { "minimal", "rich", "imports g, f, ev", "imports f, g, ev", "exports and open import", "same block", "other block", "own functions", "named declaration", "import never called" };
	Text consumer(unsigned kind, unsigned version, bool intArg = false, bool variable = false)
	{
		Text t; t.caps = { "Linkage", "Shader" }; t.version = version; t.named = true; auto link = [&](const char* id, const char* n, const char* k = "Import") { t.decos += std::string("OpDecorate %") + id + " LinkageAttributes \"" + n + "\" " + k + "\n"; };
		std::string iface, calls, decl; t.modes = "OpExecutionMode %main OriginUpperLeft\n"; auto declare = [&](const char* id) { decl += std::string("%") + id + " = OpFunction %float None %fn\n%" + id + "x = OpFunctionParameter %float\nOpFunctionEnd\n"; link(id, id); };
		t.use("c16"); unsigned n = 0; std::string x = "%c16"; auto call = [&](const char* id) { const std::string r = "%q" + std::to_string(n++); calls += r + " = OpFunctionCall %float %" + id + " " + x + "\n"; x = r; }; const bool from14 = version >= 0x10400;
		if (kind == RICH) { for (const char* d : { "v3", "v4", "v2", "mat", "ptrF", "ptrP", "ptrUf", "c2", "c3", "i0", "i1", "i4", "u2", "cv", "null", "true", "arr", "ptrA", "fnp", "fnvf", "P", "ptrPP", "img", "simg", "ptrSI" }) t.use(d); t.add(""); t.glsl = true; t.imports = "%glsl = OpExtInstImport \"GLSL.std.450\"\n"; }
		if (variable) { t.use("ptrP"); t.types += "%f = OpVariable %ptrP Private\n"; link("f", "f"); calls += "OpStore %f %c16\n"; if (from14) iface += " %f"; }
		else if (intArg) { t.use("i1"); t.use("fni"); decl += "%f = OpFunction %float None %fni\n%fx = OpFunctionParameter %int\nOpFunctionEnd\n"; link("f", "f"); x = "%i1"; call("f"); }
		else if (kind == G_FIRST || kind == F_FIRST) { for (const char* id : { kind == G_FIRST ? "g" : "f", kind == G_FIRST ? "f" : "g" }) { declare(id); call(id); } t.use("ev"); link("ev", "ev"); calls += "OpStore %ev %c16\n"; if (from14) iface += " %ev"; }
		else { declare("f"); if (kind != UNUSED) call("f"); }
		if (kind == OTHERS) { declare("missing"); call("missing"); decl += ""; t.types += ""; }
		if (kind == BLOCK_SAME || kind == BLOCK_OTHER) { const char* v = kind == BLOCK_SAME ? "ubo" : "tubo"; t.use(v); t.use("i0"); t.use("ptrUf"); calls += std::string("%bp = OpAccessChain %ptrUf %") + v + " %i0\n%bl = OpLoad %float %bp\n"; if (from14) iface += std::string(" %") + v; }
		if (kind == OWN) { t.use("gv"); t.use("gu"); t.names += "OpName %h \"helper\"\n"; calls += "%hc = OpFunctionCall %float %h %c16\nOpStore %gv %hc\nOpStore %gu %hc\n"; if (from14) iface += " %gv %gu"; }
		if (kind == DECL_NAMES) { t.names += "OpName %f \"my_f\"\nOpName %fx \"my_x\"\n"; t.decos += "OpDecorate %fx RelaxedPrecision\n"; }
		t.add(decl); if (kind == OWN) t.add("%h = OpFunction %float None %fn\n%hx = OpFunctionParameter %float\n%hl = OpLabel\n%hr = OpFAdd %float %hx %hx\nOpReturnValue %hr\nOpFunctionEnd\n");
		if (kind == OTHERS) { t.add("%mine = OpFunction %float None %fn\n%mx = OpFunctionParameter %float\n%ml = OpLabel\n%mr = OpFunctionCall %float %f %mx\nOpReturnValue %mr\nOpFunctionEnd\n"); link("mine", "mine", "Export"); }
		t.add("%main = OpFunction %void None %fnv\n%entry = OpLabel\n" + calls + "OpReturn\nOpFunctionEnd\n"); t.eps = "OpEntryPoint Fragment %main \"main\"" + iface + "\n"; t.names += "OpName %main \"main\"\n"; return t;
	}

	// ---- views of binaries ------------------------------------------------------------------------------------
	bool isType(unsigned op) { return op >= 19 && op <= 39; }
	bool isConst(unsigned op) { return (op >= 41 && op <= 46) || (op >= 48 && op <= 52); }
	struct Link { uint32_t id; std::string name; unsigned type; };
	struct View
	{
		Bin b; std::map<uint32_t, size_t> def; std::map<uint32_t, std::pair<size_t, size_t>> fun; std::vector<Link> links; std::map<uint32_t, std::vector<size_t>> decos, names; std::set<uint32_t> globals;
		explicit View(const Words& w) : b(parse(w))
		{
			if (!b.ok) return; uint32_t f = 0;
			for (size_t k = 0; k < b.ins.size(); ++k)
			{
				const Ins& i = b.ins[k]; if (i.id) def[i.id] = k; if (i.op == 54) { f = i.id; fun[f].first = k; } if (i.op == 56) { fun[f].second = k + 1; f = 0; } if (!f && i.op == 59) globals.insert(i.id);
				if (i.op == 71 && i.w[2] == 41) links.push_back({ i.w[1], litString(i, 3), i.w.back() }); else if (i.op == 71 || i.op == 72 || i.op == 332 || i.op == 5632 || i.op == 5633) decos[i.w[1]].push_back(k); if (i.op == 5 || i.op == 6) names[i.w[1]].push_back(k);
			}
		}
		const Ins& at(uint32_t id) const { auto f = def.find(id); if (f == def.end()) mc::broken("id %u not defined", id); return b.ins[f->second]; }
		bool has(uint32_t id) const { return def.count(id) != 0; }
	};
	// Structural equality of module scope values and the image of the library's definitions in the linked module.
	struct Matcher
	{
		const View& lib; const View& out; const View& cons; std::map<uint32_t, uint32_t> m; std::set<uint32_t> hit; std::set<size_t> used; std::string why; std::set<uint32_t> symbols; // consumer's symbols that were imports
		bool no(const char* f, ...) { if (why.empty()) { char s[300]; va_list a; va_start(a, f); vsnprintf(s, sizeof s, f, a); va_end(a); why = s; } return false; }
		bool operands(const Ins& a, const Ins& b, bool skipControl = false)
		{
			if (a.op != b.op || a.w.size() != b.w.size()) return no("opcode %u with %zu words instead of %u with %zu", b.op, b.w.size(), a.op, a.w.size());
			std::vector<bool> id(a.w.size()); if (a.type) id[1] = true; for (auto& o : a.ops) if (isIdT(o.type)) for (unsigned q = 0; q < o.n; ++q) id[o.off + q] = true;
			for (size_t k = 1; k < a.w.size(); ++k) { if (a.id && k == (a.type ? 2u : 1u)) continue; if (id[k]) { if (!same(a.w[k], b.w[k])) return no("%%%u is not the image of %%%u in opcode %u", b.w[k], a.w[k], a.op); } else if (a.w[k] != b.w[k] && !(skipControl && k == 3)) return no("literal %u instead of %u in opcode %u", b.w[k], a.w[k], a.op); }
			return true;
		}
		bool same(uint32_t a, uint32_t b)
		{
			auto f = m.find(a); if (f != m.end()) return f->second == b; if (!lib.has(a) || !out.has(b)) return no("%%%u undefined", b); const Ins &x = lib.at(a), &y = out.at(b); if (x.op != y.op) return no("%%%u has opcode %u instead of %u", b, y.op, x.op);
			const bool isNew = !cons.has(b), identity = x.op == 59 || x.op == 54 || x.op == 48 || x.op == 49 || x.op == 50;
			if (identity) { if (!isNew) return no("%%%u of the consumer stands for %%%u of the library", b, a); if (!hit.insert(b).second) return no("%%%u stands for two definitions", b); }
			m[a] = b; if (isNew) used.insert(out.def.at(b)); if (x.op == 54) return function(a, b, false); return operands(x, y);
		}
		bool function(uint32_t a, uint32_t b, bool symbol)
		{
			auto fa = lib.fun.find(a), fb = out.fun.find(b); if (fa == lib.fun.end() || fb == out.fun.end()) return no("no function"); const size_t n = fa->second.second - fa->second.first; if (fb->second.second - fb->second.first != n) return no("the function has %zu instructions instead of %zu", fb->second.second - fb->second.first, n); m[a] = b;
			for (size_t k = 0; k < n; ++k) { const Ins &x = lib.b.ins[fa->second.first + k], &y = out.b.ins[fb->second.first + k]; used.insert(fb->second.first + k); if (x.op != y.op) return no("opcode %u instead of %u", y.op, x.op); if (k && x.id) { if (!y.id) return no("no result"); m[x.id] = y.id; hit.insert(y.id); } }
			for (size_t k = 0; k < n; ++k) if (!operands(lib.b.ins[fa->second.first + k], out.b.ins[fb->second.first + k], k == 0 && symbol)) return false; return true;
		}
	};
	// structural key of a module scope value without identity, "" otherwise
	std::string key(const View& v, uint32_t id) { const Ins& i = v.at(id); if (!(isType(i.op) || isConst(i.op) || i.op == 11) || (i.op >= 48 && i.op <= 50)) return ""; std::string s = std::to_string(i.op) + "("; std::set<unsigned> ids; if (i.type) ids.insert(1); for (auto& o : i.ops) if (isIdT(o.type)) for (unsigned q = 0; q < o.n; ++q) ids.insert(o.off + q); for (unsigned k = 1; k < i.w.size(); ++k) { if (i.id && k == (i.type ? 2u : 1u)) continue; if (ids.count(k)) { const std::string t = key(v, i.w[k]); if (t.empty()) return ""; s += t; } else s += std::to_string(i.w[k]); s += ","; } return s + ")"; }

	// what importing the symbols needs: options without which it has to fail / may fail
	struct Need { unsigned must = 0, may = 0; };
	Need needs(const View& lib, const View& cons, const std::map<uint32_t, uint32_t>& bound)
	{
		Need n; std::set<std::string> have; for (auto& d : cons.def) { const Ins& i = cons.at(d.first); if (isType(i.op) || isConst(i.op) || i.op == 11) { const std::string k = key(cons, d.first); if (!k.empty()) have.insert(k); } } std::set<uint32_t> seen, fseen, direct_; std::vector<uint32_t> fs;
		for (auto& s : bound) if (lib.fun.count(s.first)) fs.push_back(s.first);
		std::function<void(uint32_t, bool)> item = [&](uint32_t id, bool direct)
		{
			if (!seen.insert(id * 2 + direct).second || bound.count(id)) return; const Ins& i = lib.at(id); unsigned bit; if (isType(i.op)) bit = on(TYPES); else if (isConst(i.op) || i.op == 1) bit = on(CONSTS); else if (i.op == 59) bit = on(VARS); else if (i.op == 54) { bit = on(FUNCS); n.must |= bit; fs.push_back(id); return; } else if (i.op == 7) bit = on(STRINGS); else if (i.op == 11) bit = on(EXTSETS); else return;
			const std::string k = key(lib, id); const bool present = !k.empty() && have.count(k); n.may |= bit; if (direct && !present) { if (isType(i.op)) direct_.insert(id); else n.must |= bit; } for (auto& o : i.ops) if (isIdT(o.type) && o.type != SPV_OPERAND_TYPE_RESULT_ID) for (unsigned q = 0; q < o.n; ++q) item(i.w[o.off + q], i.op == 59 || i.op == 1);
		};
		std::set<uint32_t> sigs; // types of callees' signatures come with the callee
		for (size_t q = 0; q < fs.size(); ++q)
		{
			if (!fseen.insert(fs[q]).second) continue; auto r = lib.fun.at(fs[q]); std::set<uint32_t> local; if (!bound.count(fs[q])) for (size_t k = r.first; k < r.second && lib.b.ins[k].op >= 54 && lib.b.ins[k].op <= 55; ++k) sigs.insert(lib.b.ins[k].type); for (size_t k = r.first; k < r.second; ++k) if (lib.b.ins[k].id) local.insert(lib.b.ins[k].id);
			for (size_t k = r.first; k < r.second; ++k) { const Ins& i = lib.b.ins[k]; for (auto& o : i.ops) if (isIdT(o.type) && o.type != SPV_OPERAND_TYPE_RESULT_ID) for (unsigned w = 0; w < o.n; ++w) if (!local.count(i.w[o.off + w])) item(i.w[o.off + w], i.op != 54 && i.op != 55); }
		}
		for (uint32_t id : direct_) if (!sigs.count(id)) n.must |= on(TYPES); return n;
	}
	std::string decoKey(const View& v, size_t k, const std::map<uint32_t, uint32_t>* m) { const Ins& i = v.b.ins[k]; std::string s = std::to_string(i.op); for (size_t q = 2; q < i.w.size(); ++q) { uint32_t x = i.w[q]; if (m) for (auto& o : i.ops) if (isIdT(o.type) && o.off == q) { auto f = m->find(x); x = f == m->end() ? 0 : f->second; } s += " " + std::to_string(x); } return s; }
	std::set<uint32_t> reachable(const View& v, uint32_t f) { std::set<uint32_t> seen, vars; std::vector<uint32_t> todo = { f }; while (!todo.empty()) { const uint32_t x = todo.back(); todo.pop_back(); if (!seen.insert(x).second || !v.fun.count(x)) continue; auto r = v.fun.at(x); for (size_t k = r.first; k < r.second; ++k) { const Ins& i = v.b.ins[k]; if (i.op == 57) todo.push_back(i.w[3]); for (auto& o : i.ops) if (isIdT(o.type)) for (unsigned w = 0; w < o.n; ++w) if (v.globals.count(i.w[o.off + w])) vars.insert(i.w[o.off + w]); } } return vars; }

	LH::LinkerOptions options(unsigned o, track::Allocator* al = nullptr) { LH::LinkerOptions r; for (unsigned b = 0; b < NOPT; ++b) if (o >> b & 1) r.flags |= BITS[b]; if (o >> ADDCAPS & 1) r.grammar = &grammar(); if (al) r.allocator = al; return r; }
	Words writeNow(const Module& m) { Writer w; if (!m.write(w)) return {}; return w.words; }
	bool load(Module& m, const Words& w) { Reader r(w); return m.readAndInit(r, grammar()); }
	bool opaque(unsigned) { return false; }

	// Imports library module L into consumer module C with the options and judges the result. Returns false if the import reports failure.
	bool judge(const Module& L, Module& C, unsigned o, Log& log, const char* what)
	{
		const Words lw = writeNow(L), cw = writeNow(C); if (lw.empty() || cw.empty()) mc::broken("modules can't be written"); const View lib(lw), cons(cw); if (!lib.b.ok || !cons.b.ok) mc::broken("input not well-formed");
		const std::string text = std::string(what) + ", options: " + optText(o); const unsigned errors = log.errors; const bool ok = LH::import(L, C, options(o));
		MC_CHECK(writeNow(L) == lw, "library changed", "%s: the import changes the library", text.c_str());
		// symbols
		std::map<uint32_t, uint32_t> bound; std::set<uint32_t> open; bool mismatch = false, exports = false; std::string kinds;
		for (auto& c : cons.links) if (c.type == 1) { bool found = false; for (auto& l : lib.links) if (l.type == 0 && l.name == c.name) { found = true; const Ins &a = lib.at(l.id), &b = cons.at(c.id); const bool same = a.op == b.op && (a.op == 54 ? key(lib, a.w[4]) == key(cons, b.w[4]) : key(lib, a.type) == key(cons, b.type)); if (!same) mismatch = true; else bound[l.id] = c.id; } if (!found) open.insert(c.id); } else exports = true;
		std::map<uint32_t, uint32_t> alias = bound; for (auto& l : lib.links) if (l.type == 1) for (auto& c : cons.links) if (c.name == l.name && !alias.count(l.id)) alias[l.id] = c.id;
		Need n = needs(lib, cons, alias); if (o >> SOURCES & 1) n.must &= ~on(STRINGS); /* copied anyway */ const unsigned gates = n.must & ~o;
		if (mismatch) { MC_CHECK(!ok, "mismatch accepted", "%s: importing a symbol of another type succeeds", text.c_str()); }
		else if (gates) { MC_CHECK(!ok, "excluded item", "%s: the import succeeds although it needs %s", text.c_str(), optText(gates).c_str()); }
		else if (!(n.may & ~o & GATES)) { if (!ok) mc::outcome("unexpected failure"); MC_CHECK(ok, ("import fails: " + firstLine(log.last)).c_str(), "%s: the import fails (%s)", text.c_str(), log.last.c_str()); }
		if (!ok) { MC_CHECK(log.errors > errors, "silent failure", "%s: the import fails without any message", text.c_str()); return false; }
		mc::state(mc::mix(hashWords(lw), mc::mix(hashWords(cw), o))); if (!(o >> IDS & 1)) return true;
		Words ow = writeNow(C); if (ow.empty()) { MC_CHECK(false, "not written", "%s: the linked module can't be written: %s", text.c_str(), log.last.c_str()); } if (mc::tracing()) mc::note("LIBRARY\n%s\nCONSUMER\n%s\nLINKED (%s)\n%s", disasm(lw).c_str(), disasm(cw).c_str(), optText(o).c_str(), disasm(ow).c_str());
		const View pre(ow); MC_CHECK(pre.b.ok, "malformed", "%s: the linked module is malformed: %s", text.c_str(), pre.b.error.c_str());
		// entry points
		auto eps = [](const View& v) { std::vector<const Ins*> r; for (auto& i : v.b.ins) if (i.op == 15) r.push_back(&i); return r; }; { auto a = eps(cons), b = eps(pre); bool eq = a.size() == b.size(); for (size_t k = 0; eq && k < a.size(); ++k) eq = a[k]->w == b[k]->w; if (!(o >> IFACE & 1)) MC_CHECK(eq, "interface", "%s: the interface of an entry point changes", text.c_str()); else { C.finalizeEntryPoints(); MC_CHECK(writeNow(C) == ow, "interface", "%s: the interface is not up to date", text.c_str()); } }
		C.finalizeEntryPoints(); ow = writeNow(C); const View out(ow); if (!out.b.ok) MC_CHECK(false, "malformed", "%s: %s", text.c_str(), out.b.error.c_str());
		for (auto* e : eps(out)) { std::multiset<uint32_t> got; unsigned first = 0; for (auto& x : e->ops) if (x.type == SPV_OPERAND_TYPE_ID || x.type == SPV_OPERAND_TYPE_OPTIONAL_ID) { if (!first) { first = 1; continue; } got.insert(e->w[x.off]); } std::set<uint32_t> vars = reachable(out, e->w[2]), want; for (uint32_t v : vars) { const uint32_t sc = out.at(v).w[3]; if (out.b.version >= 0x10400 || sc == 1 || sc == 3) want.insert(v); } MC_CHECK(got.size() == want.size() && std::set<uint32_t>(got.begin(), got.end()) == want, "interface", "%s: the interface lists %zu instead of %zu variables", text.c_str(), got.size(), want.size()); }
		// definitions
		Matcher mt{ lib, out, cons }; for (auto& s : alias) { mt.m[s.first] = s.second; mt.hit.insert(s.second); if (bound.count(s.first)) mt.symbols.insert(s.second); }
		for (auto& s : bound) if (lib.fun.count(s.first)) MC_CHECK(mt.function(s.first, s.second, true), "definition", "%s: the imported function differs from the library's: %s", text.c_str(), mt.why.c_str()); else MC_CHECK(mt.operands(lib.at(s.first), out.at(s.second)) || lib.at(s.first).w.size() != out.at(s.second).w.size(), "definition", "%s: the imported variable differs: %s", text.c_str(), mt.why.c_str());
		// linkage
		size_t fresh = 0; for (auto& l : lib.links) if (l.type == 1 && mt.m.count(l.id) && !alias.count(l.id)) ++fresh;
		for (auto& l : out.links) { bool was = false; for (auto& x : lib.links) if (x.type == 1 && l.type == 1 && x.name == l.name && mt.m.count(x.id) && mt.m[x.id] == l.id) was = true; for (auto& c : cons.links) if (c.id == l.id && c.name == l.name && c.type == l.type) was = true; MC_CHECK(was, "linkage added", "%s: the linked module %s \"%s\" although the consumer does not", text.c_str(), l.type ? "imports" : "exports", l.name.c_str()); MC_CHECK(!mt.symbols.count(l.id), "import left", "%s: \"%s\" is still an import", text.c_str(), l.name.c_str()); } MC_CHECK(out.links.size() + bound.size() == cons.links.size() + fresh, "linkage lost", "%s: %zu linkage decorations are left of %zu after %zu imports", text.c_str(), out.links.size(), cons.links.size(), bound.size());
		// copies of strings, lines, processing
		auto list = [](const View& v, auto pred) { std::vector<size_t> r; bool f = false; for (size_t k = 0; k < v.b.ins.size(); ++k) { if (v.b.ins[k].op == 54) f = true; if (pred(v.b.ins[k].op) && !f) r.push_back(k); if (v.b.ins[k].op == 56) f = false; } return r; };
		auto copies = [&](bool sel, auto pred, const char* name)
		{
			auto a = list(lib, pred), b = list(cons, pred), c = list(out, pred); size_t q = 0; for (size_t k : c) { const Ins& i = out.b.ins[k]; if (q < b.size() && i.w == cons.b.ins[b[q]].w) { ++q; continue; } bool image = mt.used.count(k) != 0; if (sel && !image) for (size_t z : a) { if (lib.b.ins[z].id && mt.m.count(lib.b.ins[z].id)) continue; std::map<uint32_t, uint32_t> save = mt.m; const std::string w = mt.why; if (lib.b.ins[z].w.size() == i.w.size() && lib.b.ins[z].op == i.op) { if (lib.b.ins[z].id) mt.m[lib.b.ins[z].id] = i.id; if (mt.operands(lib.b.ins[z], i)) { image = true; break; } } mt.m = save; mt.why = w; } MC_CHECK(image, name, "%s: an instruction with opcode %u appears that is neither the consumer's nor selected", text.c_str(), i.op); mt.used.insert(k); }
			MC_CHECK(q == b.size(), name, "%s: instructions of the consumer are lost", text.c_str()); if (sel) { size_t news = 0; for (size_t k : c) news += mt.used.count(k); MC_CHECK(news == a.size(), name, "%s: %zu of %zu instructions are copied", text.c_str(), news, a.size()); }
		};
		copies(o >> SOURCES & 1, [](unsigned op) { return op == 7 || op == 2 || op == 3 || op == 4; }, "source strings"); copies(o >> PROCESSED & 1, [](unsigned op) { return op == 330; }, "processed"); copies(o >> LINES & 1, [](unsigned op) { return op == 8 || op == 317; }, "lines");
		// types and constants that come with others
		std::map<std::string, uint32_t> known; for (auto& d : lib.def) { const Ins& i = lib.at(d.first); if (isType(i.op) || isConst(i.op)) { const std::string k = key(lib, d.first); if (!k.empty()) known[k] = d.first; } }
		std::set<std::string> distinct; for (auto& d : out.def) { const Ins& i = out.at(d.first); if (!(isType(i.op) || isConst(i.op))) continue; const std::string k = key(out, d.first); if (k.empty() || mt.used.count(d.second) || cons.has(d.first)) continue; MC_CHECK(known.count(k), "new type", "%s: a type or constant (opcode %u) appears that nothing of the library needs", text.c_str(), i.op); MC_CHECK(false, "unreferenced", "%s: a type or constant (opcode %u) is added without being used by the imported definitions", text.c_str(), i.op); }
		// names and decorations
		std::map<uint32_t, uint32_t> back; std::set<uint32_t> targets; for (auto& p : mt.m) back[p.second] = p.first; for (auto& p : out.decos) targets.insert(p.first); for (auto& p : out.names) targets.insert(p.first); for (auto& p : back) targets.insert(p.first); for (auto& p : cons.decos) targets.insert(p.first); for (auto& p : cons.names) targets.insert(p.first);
		for (uint32_t t : targets)
		{
			auto all = [&](const View& v, uint32_t id, bool names, const std::map<uint32_t, uint32_t>* mm) { std::multiset<std::string> r; auto& src = names ? v.names : v.decos; auto f = src.find(id); if (f != src.end()) for (size_t k : f->second) r.insert(decoKey(v, k, mm)); return r; };
			const bool had = cons.has(t), image = back.count(t) != 0; const auto cd = all(cons, t, false, nullptr), od = all(out, t, false, nullptr), cn = all(cons, t, true, nullptr), on_ = all(out, t, true, nullptr); std::multiset<std::string> ld, ln; if (image) { ld = all(lib, back[t], false, &mt.m); ln = all(lib, back[t], true, &mt.m); }
			std::set<std::string> want(cd.begin(), cd.end()); if (o >> DECOS & 1) want.insert(ld.begin(), ld.end()); const unsigned op = out.has(t) ? out.at(t).op : 0;
			if (had && image && isType(op) && o >> DECOS & 1 && ld != cd) { MC_CHECK(op != 30 && op != 28, "merged type", "%s: a decorated type of the library becomes the consumer's type with other decorations", text.c_str()); }
			MC_CHECK(std::set<std::string>(od.begin(), od.end()) == want, "decorations", "%s: %%%u (opcode %u) has %zu instead of %zu decorations", text.c_str(), t, op, od.size(), want.size()); MC_CHECK(od.size() == want.size() || od == cd, "repeated decorations", "%s: %%%u (opcode %u) has %zu decorations, %zu of them different", text.c_str(), t, op, od.size(), want.size());
			const auto wn = !cn.empty() ? cn : (o >> NAMES & 1) ? ln : std::multiset<std::string>{}; MC_CHECK(on_ == wn, "names", "%s: %%%u (opcode %u) has %zu names instead of %zu", text.c_str(), t, op, on_.size(), wn.size());
		}
		// everything else is the consumer's
		auto rest = [&](const View& v, bool isOut) { std::vector<Words> r; for (size_t k = 0; k < v.b.ins.size(); ++k) { const Ins& i = v.b.ins[k]; if (i.op == 17 || i.op == 10 || i.op == 5 || i.op == 6 || i.op == 71 || i.op == 72 || i.op == 332 || i.op == 5632 || i.op == 5633 || i.op == 15 || i.op == 7 || i.op == 2 || i.op == 3 || i.op == 4 || i.op == 330) continue; bool sym = false; for (uint32_t s : mt.symbols) { auto f = v.fun.find(s); if (f != v.fun.end() && k >= f->second.first && k < f->second.second) sym = true; } if (sym || (isOut && mt.used.count(k))) continue; if (i.op == 11 && isOut && !cons.has(i.id)) { MC_CHECK(mt.hit.count(i.id) || back.count(i.id), "extension set", "%s: an extension set is added that nothing needs", text.c_str()); continue; } r.push_back(i.w); } return r; };
		const auto rc = rest(cons, false), ro = rest(out, true); for (size_t k = 0; k < std::max(rc.size(), ro.size()); ++k) { MC_CHECK(k < ro.size(), "consumer changed", "%s: an instruction of the consumer (opcode %u) is lost", text.c_str(), rc[k][0] & 0xffff); MC_CHECK(k < rc.size(), "additional instruction", "%s: an instruction (opcode %u) appears that the imported definitions don't need", text.c_str(), ro[k][0] & 0xffff); MC_CHECK(ro[k] == rc[k], "consumer changed", "%s: instruction %zu: opcode %u instead of %u or other operands", text.c_str(), k, ro[k][0] & 0xffff, rc[k][0] & 0xffff); }
		// header, capabilities, extensions
		auto caps = [](const View& v) { std::set<uint32_t> r; for (auto& i : v.b.ins) if (i.op == 17) r.insert(i.w[1]); return r; }; auto exts = [](const View& v) { std::set<std::string> r; for (auto& i : v.b.ins) if (i.op == 10) r.insert(litString(i, 1)); return r; };
		std::set<uint32_t> wc = caps(cons); auto oc = caps(out); const bool keepLinkage = !(o >> RMCAP & 1) || exports || !open.empty() || fresh; if (!keepLinkage) wc.erase(5); if (o >> ADDCAPS & 1) { for (uint32_t c : wc) MC_CHECK(oc.count(c), "capabilities", "%s: capability %u is lost", text.c_str(), c); if (!keepLinkage) MC_CHECK(!oc.count(5), "capabilities", "%s: Linkage is kept", text.c_str()); MC_CHECK(!oc.count(52), "capabilities", "%s: a capability of the library that nothing needs is added", text.c_str()); } else { for (uint32_t c : caps(lib)) if (c != 5) wc.insert(c); MC_CHECK(oc == wc, oc.count(5) != wc.count(5) ? "linkage capability" : "capabilities", "%s: the linked module has other capabilities (%zu instead of %zu)", text.c_str(), oc.size(), wc.size()); auto we = exts(cons); for (auto& e : exts(lib)) we.insert(e); MC_CHECK(exts(out) == we, "extensions", "%s: the linked module has other extensions", text.c_str()); }
		const uint32_t wv = std::max(lib.b.version, cons.b.version); MC_CHECK(o >> ADDCAPS & 1 ? out.b.version >= wv : out.b.version == wv, "version", "%s: version %x instead of %x", text.c_str(), out.b.version, wv);
		bool decorated = false; for (auto& p : mt.m) if (lib.decos.count(p.first)) decorated = true; if (o >> DECOS & 1 || !decorated) { static std::map<uint64_t, std::string> verdicts; const uint64_t hw = hashWords(ow); auto known2 = verdicts.find(hw); if (known2 == verdicts.end()) known2 = verdicts.emplace(hw, validate(ow)).first; const std::string& v = known2->second; MC_CHECK(v.empty(), ("invalid: " + sig(v)).c_str(), "%s: the linked module is not valid: %s", text.c_str(), v.c_str()); }
		mc::checked(); return true;
	}
	// without on-the-fly ids the result is the same module
	void idsAgree(const Words& lw, const Words& cw, unsigned o, const char* what)
	{
		Words r[2]; bool ok[2]; for (int k = 0; k < 2; ++k) { track::Allocator al; Log log; { Module L(&al, &log), C(&al, &log); if (!load(L, lw) || !load(C, cw)) mc::broken("input not read"); const unsigned x = k ? o | on(IDS) : o & ~on(IDS); ok[k] = LH::import(L, C, options(x, &al)); if (ok[k]) { Writer w; C.finalizeAndWrite(w); r[k] = w.words; } } al.expectEmpty("import"); }
		MC_CHECK(ok[0] == ok[1] && r[0] == r[1], "ids option", "%s: assigning ids while importing changes the result (options %s)", what, optText(o).c_str());
	}
	void run(const Words& lw, const Words& cw, unsigned o, const std::string& what) { track::Allocator al; Log log; { Module L(&al, &log), C(&al, &log); if (!load(L, lw) || !load(C, cw)) mc::broken("input not read: %s", log.last.c_str()); mc::outcome(judge(L, C, o, log, what.c_str()) ? "linked" : "reported"); } al.expectEmpty("linked modules"); }
	const Words& cached(const std::string& k, const std::function<Words()>& f) { static std::map<std::string, Words> m; auto i = m.find(k); if (i == m.end()) { Words w = f(); const std::string v = validate(w); if (!v.empty()) mc::broken("invalid input %s: %s\n%s", k.c_str(), v.c_str(), disasm(w).c_str()); i = m.emplace(k, w).first; } return i->second; }
	const Words& libWords(const LibSpec& s) { std::string k = "lib" + std::to_string(s.version) + s.fname + s.prefix + (s.named ? "n" : "") + (s.gCallsF ? "g" : "") + (s.two ? "2" : ""); for (unsigned f : s.features) k += "," + std::to_string(f); return cached(k, [&] { return library(s).words(); }); }
	const Words& consWords(unsigned kind, unsigned version, bool i = false, bool v = false) { return cached("cons" + std::to_string(kind) + "," + std::to_string(version) + "," + std::to_string(i) + std::to_string(v), [&] { return consumer(kind, version, i, v).words(); }); }
	const unsigned VERSIONS[] = { 0x00010100, 0x00010300, 0x00010400, 0x00010500 };
}

MC_SCENARIO(options_, 3)
{
	// every feature × consumer × subsets of the options
	const unsigned f = mc::choose(NF, "feature"), c = mc::choose(NCONS, "consumer"), named = mc::choose(2), misc = mc::choose(8); LibSpec s; s.features = { f }; s.named = named; mc::op("library: %s%s; consumer: %s", FEATURES[f].name, named ? " (names)" : "", CONSNAMES[c]); const std::string what = std::string(FEATURES[f].name) + " into " + CONSNAMES[c];
	const unsigned fixed = (misc & 1 ? on(RMCAP) : 0) | (misc & 2 ? on(ADDCAPS) | on(IFACE) : 0) | (misc & 4 ? on(SOURCES) | on(LINES) | on(PROCESSED) : 0) | on(IDS);
	for (unsigned g = 0; g < 256; ++g) { if (!mc::thorough() && (misc || named || c != MINIMAL) && __builtin_popcount(g) < 7 && g) continue; if (!mc::thorough() && misc && misc != 7 && c != MINIMAL) continue; run(libWords(s), consWords(c, VERSIONS[0]), g | fixed, what); }
	idsAgree(libWords(s), consWords(c, VERSIONS[0]), GATES | fixed, what.c_str());
}

MC_SCENARIO(pairs, 2)
{
	const unsigned f = mc::choose(NF, "feature"), g = mc::choose(NF, "feature"), c = mc::choose(NCONS, "consumer"); LibSpec s; s.features = { f, g }; s.named = true; s.gCallsF = c != G_FIRST && (f + g) % 2; if (f == 16 || g == 16) s.gCallsF = false; mc::op("library: %s, %s; consumer: %s", FEATURES[f].name, FEATURES[g].name, CONSNAMES[c]);
	for (unsigned o : { ALLOPT, USUAL, GATES & ~on(DECOS) & ~on(NAMES) | on(IDS), USUAL | on(RMCAP) | on(IFACE) }) run(libWords(s), consWords(c, VERSIONS[0]), o, std::string(FEATURES[f].name) + ", " + FEATURES[g].name + " into " + CONSNAMES[c]);
}

MC_SCENARIO(versions, 2)
{
	const unsigned f = mc::choose(NF, "feature"), c = mc::choose(NCONS, "consumer"), lv = mc::choose(4), cv = mc::choose(4); LibSpec s; s.features = { f }; s.two = true; s.version = VERSIONS[lv]; mc::op("library %x: %s; consumer %x: %s", VERSIONS[lv], FEATURES[f].name, VERSIONS[cv], CONSNAMES[c]);
	for (unsigned o : { ALLOPT, USUAL, USUAL | on(IFACE) }) run(libWords(s), consWords(c, VERSIONS[cv]), o, std::string(FEATURES[f].name) + " into " + CONSNAMES[c]);
}

MC_SCENARIO(mismatches, 2)
{
	const unsigned f = mc::choose(NF, "feature"), k = mc::choose(5), o = mc::choose(4); LibSpec s; s.features = { f }; mc::op("library: %s; mismatch %u", FEATURES[f].name, k); unsigned opt = o == 0 ? ALLOPT : o == 1 ? USUAL : o == 2 ? on(IDS) : USUAL | on(RMCAP);
	if (k == 1) s.fname = "F"; if (k == 2) s.fname = "f1"; if (k == 4) s.fname = ""; run(libWords(s), consWords(MINIMAL, VERSIONS[0], k == 0, k == 3), opt, "mismatch");
}

MC_SCENARIO(twoLibraries, 2)
{
	// one library after the other, both directions of order; the second provides what is still open
	const unsigned f = mc::choose(NF, "feature"), g = mc::choose(NF, "feature"), order = mc::choose(2), o = mc::choose(3); LibSpec a, b; a.features = { f }; a.named = true; b.features = { g }; b.named = true; b.fname = "missing"; b.prefix = ""; if (!strcmp(FEATURES[g].name, "library import")) return; mc::op("libraries: %s, %s; order %u", FEATURES[f].name, FEATURES[g].name, order); const unsigned opt = o == 0 ? ALLOPT : o == 1 ? USUAL : USUAL | on(RMCAP);
	track::Allocator al; Log log; { Module A(&al, &log), B(&al, &log), C(&al, &log); if (!load(A, libWords(a)) || !load(B, libWords(b)) || !load(C, consWords(OTHERS, VERSIONS[0]))) mc::broken("input not read"); Module &first = order ? B : A, &second = order ? A : B; const std::string what = std::string(FEATURES[f].name) + " and " + FEATURES[g].name; if (judge(first, C, opt, log, (what + " (first)").c_str())) judge(second, C, opt, log, (what + " (second)").c_str()); }
	al.expectEmpty("linked modules");
}

MC_SCENARIO(declarations, 2)
{
	// definitions turned into declarations and linked again
	const unsigned f = mc::choose(NF, "feature"), g = mc::thorough() ? mc::choose(NF, "feature") : (f * 7 + 3) % NF, named = mc::choose(2), mask = mc::choose(31, "bodies") + 1, o = mc::choose(2); LibSpec s; s.features = { f, g }; s.named = named; s.two = true; s.gCallsF = true; if (f == 16 || g == 16) s.gCallsF = false;
	track::Allocator al; Log log; Words lw; { Module m(&al, &log); if (!load(m, libWords(s))) mc::broken("input not read"); lw = writeNow(m); } const View lib(lw); std::vector<uint32_t> fs; for (auto& x : lib.fun) if (lib.b.ins[x.second.first + 2].op == 248 || lib.b.ins[x.second.first + 1].op == 248) fs.push_back(x.first); std::sort(fs.begin(), fs.end(), [&](uint32_t a, uint32_t b) { return lib.fun.at(a).first < lib.fun.at(b).first; });
	std::set<uint32_t> gone; for (size_t k = 0; k < fs.size(); ++k) if (mask >> std::min<size_t>(k, 4) & 1) gone.insert(fs[k]); if (mask >> fs.size()) return; mc::op("library: %s, %s%s; bodies removed: %x", FEATURES[f].name, FEATURES[g].name, named ? " (names)" : "", mask); const std::string what = std::string(FEATURES[f].name) + " and " + FEATURES[g].name;
	{
		Module L(&al, &log), C(&al, &log); if (!load(L, lw) || !load(C, lw)) mc::broken("input not read"); std::map<uint32_t, std::string> names;
		// what linkage decorations say
		for (const Instruction& d : C.getDecorations()) { Instruction* sym = nullptr; String n(&al); const auto k = LH::getLinkageTypeFromDecoration(&d, &sym, &n); const auto k2 = LH::getLinkageTypeFromDecoration(&d); const Link* want = nullptr; for (auto& l : lib.links) if (sym && l.id == uint32_t(sym->getResultId()) && d.getOperation() == spv::Op::OpDecorate && l.name == std::string(n.c_str() ? n.c_str() : "")) want = &l; MC_CHECK(k == k2 && (k == spv::LinkageType::Max ? n.empty() : want && want->type == unsigned(k)), "linkage of decoration", "%s: linkage %u, name \"%s\" of a decoration", what.c_str(), unsigned(k), n.c_str()); if (k != spv::LinkageType::Max) names[want->id] = want->name; }
		MC_CHECK(names.size() == lib.links.size(), "linkage of decoration", "%s: %zu of %zu linkage decorations found", what.c_str(), names.size(), lib.links.size());
		for (auto* list : { &C.getNames(), &C.getTypesAndConstants() }) for (const Instruction& d : *list) MC_CHECK(LH::getLinkageTypeFromDecoration(&d) == spv::LinkageType::Max, "linkage of decoration", "%s: an instruction that is no decoration has a linkage", what.c_str());
		MC_CHECK(LH::getLinkageTypeFromDecoration(nullptr) == spv::LinkageType::Max, "linkage of decoration", "no instruction has a linkage");
		// linkage of used variables
		for (auto* M : { &C }) for (Function& fn : M->getFunctions()) { const uint32_t id = uint32_t(fn.getFunction()->getResultId()); if (!gone.count(id)) continue; Module V(&al, &log); if (!load(V, lw)) mc::broken("input not read"); Function* vf = nullptr; for (Function& x : V.getFunctions()) if (uint32_t(x.getFunction()->getResultId()) == id) vf = &x; const auto used = reachable(lib, id); bool all = true; std::multiset<std::string> want, got; for (auto& l : lib.links) want.insert(std::to_string(l.id) + l.name + std::to_string(l.type)); for (uint32_t v : used) { auto n = lib.names.find(v); if (n == lib.names.end()) all = false; else want.insert(std::to_string(v) + litString(lib.b.ins[n->second[0]], 2) + "0"); }
			const bool ok = LH::addLinkageDecorateForUsedGlobalVariables(*vf, spv::LinkageType::Export, &al); MC_CHECK(ok == all, "variables' linkage", "%s: exporting the variables of %%%u returns %d", what.c_str(), id, ok); const View v(writeNow(V)); MC_CHECK(v.b.ok, "malformed", "%s: exporting variables makes the module malformed: %s", what.c_str(), v.b.error.c_str()); for (auto& l : v.links) got.insert(std::to_string(l.id) + l.name + std::to_string(l.type)); MC_CHECK(got == want, "variables' linkage", "%s: %zu instead of %zu linkage decorations after exporting the variables of %%%u", what.c_str(), got.size(), want.size(), id); MC_CHECK(!LH::addLinkageDecorateForUsedGlobalVariables(*vf, spv::LinkageType::Max), "variables' linkage", "no linkage accepted"); }
		// remove bodies
		for (Function& fn : C.getFunctions()) if (gone.count(uint32_t(fn.getFunction()->getResultId()))) MC_CHECK(LH::removeFunctionBody(fn), "body not removed", "%s: removing the body of %%%u fails", what.c_str(), uint32_t(fn.getFunction()->getResultId()));
		std::set<uint32_t> inside; std::set<size_t> cut; for (uint32_t id : gone) { auto r = lib.fun.at(id); bool body = false; for (size_t k = r.first; k + 1 < r.second; ++k) { if (lib.b.ins[k].op == 248) body = true; if (body) { cut.insert(k); if (lib.b.ins[k].id) inside.insert(lib.b.ins[k].id); } } }
		auto parts = [&](const View& v, bool skip) { std::map<uint32_t, std::vector<Words>> r; uint32_t fn = 0; for (size_t k = 0; k < v.b.ins.size(); ++k) { const Ins& i = v.b.ins[k]; if (i.op == 54) fn = i.id; const bool target = i.op == 5 || i.op == 6 || i.op == 71 || i.op == 72 || i.op == 332 || i.op == 5632; if (!(skip && (cut.count(k) || (target && inside.count(i.w[1])) || ((i.op == 8 || i.op == 317) && !fn)))) r[fn].push_back(i.w); if (i.op == 56) fn = 0; } return r; };
		const Words dw = writeNow(C); MC_CHECK(!dw.empty(), "not written", "%s: a module with declarations can't be written: %s", what.c_str(), log.last.c_str()); const View d(dw); MC_CHECK(d.b.ok, "malformed", "%s: module with declarations: %s", what.c_str(), d.b.error.c_str()); const auto pa = parts(lib, true), pb = parts(d, false); if (mc::tracing()) for (auto& x : pa) { auto y = pb.count(x.first) ? pb.at(x.first) : std::vector<Words>(); mc::note("%u: %zu / %zu", x.first, x.second.size(), y.size()); for (size_t k = 0; k < std::min(y.size(), x.second.size()); ++k) if (y[k] != x.second[k]) { mc::note("differs at %zu: %s / %s", k, words(x.second[k]).c_str(), words(y[k]).c_str()); break; } }
		MC_CHECK(pa == pb, "removed body", "%s: removing the bodies changes something else", what.c_str());
		std::set<const Instruction*> alive; C.iterateInstructions([&](const Instruction& i) { alive.insert(&i); return false; }); for (auto& n : C.getNameLookupMap()) MC_CHECK(alive.count(n.key), "stale name", "%s: the name \"%s\" of a removed instruction is still known", what.c_str(), n.value.name.c_str());
		// link again
		for (auto it = C.getDecorations().begin(); it != C.getDecorations().end();) { Instruction* sym = nullptr; if (LH::getLinkageTypeFromDecoration(it.operator->(), &sym) != spv::LinkageType::Max && gone.count(uint32_t(sym->getResultId()))) it = C.getDecorations().erase(it); else ++it; }
		for (uint32_t id : gone) { const bool was = names.count(id); if (!was) names[id] = "private " + std::to_string(id); for (auto* M : { &L, &C }) for (Function& fn : M->getFunctions()) if (uint32_t(fn.getFunction()->getResultId()) == id && (M == &C || !was)) { Instruction* dec = LH::addLinkageDecoration(fn.getFunction(), M == &C ? spv::LinkageType::Import : spv::LinkageType::Export, names[id].c_str()); Instruction* sym = nullptr; String n(&al); MC_CHECK(dec && LH::getLinkageTypeFromDecoration(dec, &sym, &n) == (M == &C ? spv::LinkageType::Import : spv::LinkageType::Export) && sym == fn.getFunction() && n == names[id].c_str(), "linkage added", "%s: adding linkage to a function", what.c_str()); } }
		MC_CHECK(!LH::addLinkageDecoration(nullptr, spv::LinkageType::Export, "x") && !LH::addLinkageDecoration(&*C.getTypesAndConstants().begin(), spv::LinkageType::Export, "x"), "linkage added", "linkage of something else than a function or variable accepted");
		for (auto* M : { &L, &C }) { Writer w; if (!M->finalizeAndWrite(w)) mc::broken("not written: %s", log.last.c_str()); const std::string v = validate(w.words); MC_CHECK(v.empty(), ("invalid: " + sig(v)).c_str(), "%s: %s is invalid: %s", what.c_str(), M == &L ? "the library" : "the module of declarations", v.c_str()); }
		mc::outcome(judge(L, C, o ? USUAL : ALLOPT, log, what.c_str()) ? "linked" : "reported");
	}
	al.expectEmpty("linked modules");
}

// large libraries and many symbols
MC_SCENARIO(large, 1)
{
	static const unsigned SIZES[] = { 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300 }; static const char* shapes[] = { "instructions and constants", "blocks", "callees called one by the next", "callees called by the exported function", "global variables", "array types", "symbols imported in reverse", "exports of which one is imported", "struct members", "nested structs", "imports of which the library exports every other one" };
	const unsigned n = SIZES[mc::choose(unsigned(sizeof SIZES / sizeof *SIZES), "number")], shape = mc::choose(unsigned(sizeof shapes / sizeof *shapes), "shape"), o = mc::choose(4, "options"); const unsigned opts[] = { ALLOPT, USUAL, GATES & ~on(NAMES) | on(IDS) | on(RMCAP), GATES }; if (mc::bound(0, 1) == 0 && shape == 9 && n > 130) return; mc::op("%u %s, options: %s", n, shapes[shape], optText(opts[o]).c_str());
	auto id = [](const char* p, unsigned i) { return std::string("%zz") + p + std::to_string(i); }; const std::string key = "large" + std::to_string(shape) + "," + std::to_string(n); const bool many = shape == 6 || shape == 10;
	auto link = [](Text& t, const std::string& i, const std::string& name, const char* k) { t.decos += "OpDecorate " + i + " LinkageAttributes \"" + name + "\" " + k + "\n"; };
	const Words& lw = cached("lib" + key, [&] {
		Text t; t.caps = { "Linkage", "Shader" }; for (const char* d : { "float", "fn", "c2", "ptrF", "ptrP", "int", "i0", "uint" }) t.use(d); std::string vars, body, more; std::string x = "%x";
		auto helper = [&](unsigned i, const std::string& callee) { std::string r = "OpReturnValue " + id("hr", i) + "\n"; if (!callee.empty()) r = id("hc", i) + " = OpFunctionCall %float " + callee + " " + id("hr", i) + "\nOpReturnValue " + id("hc", i) + "\n"; more += id("h", i) + " = OpFunction %float None %fn\n" + id("hx", i) + " = OpFunctionParameter %float\n" + id("hl", i) + " = OpLabel\n" + id("hr", i) + " = OpFAdd %float " + id("hx", i) + " %c2\n" + r + "OpFunctionEnd\n"; t.names += "OpName " + id("h", i) + " \"helper" + std::to_string(i) + "\"\n"; if (i % 3 == 0) t.decos += "OpDecorate " + id("hr", i) + " RelaxedPrecision\n"; };
		auto step = [&](unsigned i, const std::string& rest) { body += id("r", i) + " = " + rest + "\n"; x = id("r", i); };
		switch (shape)
		{
		case 0: for (unsigned i = 0; i < n; ++i) { t.types += id("k", i) + " = OpConstant %float " + std::to_string(i + 100) + "\n"; step(i, "OpFAdd %float " + x + " " + id("k", i)); } break;
		case 1: for (unsigned i = 0; i < n; ++i) { body += "OpBranch " + id("b", i) + "\n" + id("b", i) + " = OpLabel\n"; step(i, "OpFAdd %float " + x + " %c2"); } break;
		case 2: for (unsigned i = n; i-- > 0;) helper(i, i + 1 < n ? id("h", i + 1) : ""); step(0, "OpFunctionCall %float " + id("h", 0) + " " + x); break;
		case 3: for (unsigned i = 0; i < n; ++i) { helper(i, ""); step(i, "OpFunctionCall %float " + id("h", i) + " " + x); } break;
		case 4: for (unsigned i = 0; i < n; ++i) { t.types += id("v", i) + " = OpVariable %ptrP Private" + (i % 2 ? " %c2" : "") + "\n"; t.names += "OpName " + id("v", i) + " \"var" + std::to_string(i) + "\"\n"; if (i % 3 == 0) t.decos += "OpDecorate " + id("v", i) + " RelaxedPrecision\n"; body += id("l", i) + " = OpLoad %float " + id("v", i) + "\n"; step(i, "OpFAdd %float " + x + " " + id("l", i)); } break;
		case 5: for (unsigned i = 0; i < n; ++i) { t.types += id("k", i) + " = OpConstant %uint " + std::to_string(i + 50) + "\n" + id("t", i) + " = OpTypeArray %float " + id("k", i) + "\n" + id("p", i) + " = OpTypePointer Function " + id("t", i) + "\n"; vars += id("v", i) + " = OpVariable " + id("p", i) + " Function\n"; body += id("a", i) + " = OpAccessChain %ptrF " + id("v", i) + " %i0\nOpStore " + id("a", i) + " " + x + "\n"; } break;
		case 6: case 7: case 10: for (unsigned i = 0; i < n; ++i) { helper(i, i ? id("h", i - 1) : ""); if (shape != 10 || i % 2 == 0) link(t, id("h", i), "sym" + std::to_string(i), "Export"); } break;
		case 8: { std::string m; for (unsigned i = 0; i < n; ++i) { m += i % 2 ? " %int" : " %float"; t.names += "OpMemberName %zzS " + std::to_string(i) + " \"member" + std::to_string(i) + "\"\n"; t.decos += "OpMemberDecorate %zzS " + std::to_string(i) + " Offset " + std::to_string(i * 4) + "\n"; } t.types += "%zzS = OpTypeStruct" + m + "\n%zzp = OpTypePointer Uniform %zzS\n%zzpf = OpTypePointer Uniform %float\n%zzu = OpVariable %zzp Uniform\n%zzi = OpConstant %int " + std::to_string((n - 1) / 2 * 2) + "\n"; t.decos += "OpDecorate %zzS Block\nOpDecorate %zzu Binding 3\nOpDecorate %zzu DescriptorSet 1\n"; body += "%zza = OpAccessChain %zzpf %zzu %zzi\n"; step(0, "OpLoad %float %zza"); break; }
		default: { std::string in = "%float", idx; for (unsigned i = 0; i < n; ++i) { t.types += id("t", i) + " = OpTypeStruct " + in + "\n"; in = id("t", i); idx += " %i0"; } t.types += "%zzp = OpTypePointer Private " + in + "\n%zzv = OpVariable %zzp Private\n"; body += "%zza = OpAccessChain %ptrP %zzv" + idx + "\n"; step(0, "OpLoad %float %zza"); break; }
		}
		t.add(more + "%f = OpFunction %float Pure %fn\n%x = OpFunctionParameter %float\n%fe = OpLabel\n" + vars + body + "OpReturnValue " + x + "\nOpFunctionEnd\n"); link(t, "%f", "f", "Export"); t.names += "OpName %f \"lib_f\"\n"; return t.words(); });
	const Words& cw = many ? cached("cons" + key, [&] { Text t; t.caps = { "Linkage", "Shader" }; for (const char* d : { "float", "void", "fn", "fnv", "c16" }) t.use(d); std::string decl, calls, x = "%c16"; for (unsigned k = 0; k < n; ++k) { const unsigned i = shape == 6 ? n - 1 - k : k; decl += id("d", i) + " = OpFunction %float None %fn\n" + id("dx", i) + " = OpFunctionParameter %float\nOpFunctionEnd\n"; link(t, id("d", i), "sym" + std::to_string(i), "Import"); calls += id("q", i) + " = OpFunctionCall %float " + id("d", i) + " " + x + "\n"; x = id("q", i); t.names += "OpName " + id("d", i) + " \"declared" + std::to_string(i) + "\"\n"; }
		t.modes = "OpExecutionMode %main OriginUpperLeft\n"; t.add(decl + "%main = OpFunction %void None %fnv\n%entry = OpLabel\n" + calls + "OpReturn\nOpFunctionEnd\n"); t.eps = "OpEntryPoint Fragment %main \"main\"\n"; return t.words(); }) : consWords(MINIMAL, VERSIONS[0]);
	run(lw, cw, opts[o], shapes[shape]); mc::state(mc::mix(mc::mix(n, shape), o));
}
