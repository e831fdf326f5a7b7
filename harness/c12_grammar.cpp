// C12: the library's grammar tables against the Khronos machine-readable grammar, entry by entry.
#include "ir.h"
#include "spec.h"
using namespace spvgentwo;
using namespace ir;

namespace
{
	using K = Grammar::OperandKind;
	const char* const kindNames[] = { "ImageOperands", "FPFastMathMode", "SelectionControl", "LoopControl", "FunctionControl", "MemorySemantics", "MemoryAccess", "KernelProfilingInfo", "RayFlags", "FragmentShadingRate", "SourceLanguage", "ExecutionModel", "AddressingModel", "MemoryModel", "ExecutionMode", "StorageClass", "Dim", "SamplerAddressingMode", "SamplerFilterMode", "ImageFormat", "ImageChannelOrder", "ImageChannelDataType", "FPRoundingMode", "FPDenormMode", "QuantizationModes", "FPOperationMode", "OverflowModes", "LinkageType", "AccessQualifier", "HostAccessQualifier", "FunctionParameterAttribute", "Decoration", "BuiltIn", "Scope", "GroupOperation", "KernelEnqueueFlags", "Capability", "RayQueryIntersection", "RayQueryCommittedIntersectionType", "RayQueryCandidateIntersectionType", "PackedVectorFormat", "CooperativeMatrixOperands", "CooperativeMatrixLayout", "CooperativeMatrixUse", "InitializationModeQualifier", "LoadCacheControl", "StoreCacheControl", "IdResultType", "IdResult", "IdMemorySemantics", "IdScope", "IdRef", "LiteralInteger", "LiteralString", "LiteralFloat", "LiteralContextDependentNumber", "LiteralExtInstInteger", "LiteralSpecConstantOpInteger", "PairLiteralIntegerIdRef", "PairIdRefLiteralInteger", "PairIdRefIdRef" };
	static_assert(unsigned(K::ImageOperands) == 0 && unsigned(K::PairIdRefIdRef) == sizeof kindNames / sizeof *kindNames - 1 && unsigned(K::MemoryAccess) == 6 && unsigned(K::Decoration) == 31 && unsigned(K::IdRef) == 51, "operand kinds renumbered: adapt the table");
	const char* categoryName(Grammar::OperandCategory c) { switch (c) { case Grammar::OperandCategory::BitEnum: return "BitEnum"; case Grammar::OperandCategory::ValueEnum: return "ValueEnum"; case Grammar::OperandCategory::Id: return "Id"; case Grammar::OperandCategory::Literal: return "Literal"; default: return "Composite"; } }
	char quant(Grammar::Quantifier q) { return q == Grammar::Quantifier::One ? '1' : q == Grammar::Quantifier::ZeroOrOne ? '?' : '*'; }

	std::vector<spec::Op> lib(const Vector<Grammar::Operand>& o, const char* what)
	{
		std::vector<spec::Op> r;
		for (auto& x : o)
		{
			const std::string k = kindNames[unsigned(x.kind)]; r.push_back({ k, quant(x.quantifier) });
			const auto it = spec::g().kinds.find(k);
			MC_CHECK(it == spec::g().kinds.end() || it->second.category == categoryName(x.category), "operand-category", "%s: operand kind %s has category %s, specification says %s", what, k.c_str(), categoryName(x.category), it->second.category.c_str());
			MC_CHECK(x.name != nullptr, "operand-name", "%s: operand without name", what);
		}
		return r;
	}
	bool same(const std::vector<spec::Op>& a, const std::vector<spec::Op>& b) { return spec::text(a) == spec::text(b); }
	// the specification's capabilities and extensions without those that are newer than the library's tables
	std::set<unsigned> known(const std::set<unsigned>& c) { std::set<unsigned> r; for (unsigned x : c) if (grammar().getOperandName(K::Capability, x)) r.insert(x); return r; }
	std::set<std::string> known(const std::set<std::string>& e) { std::set<std::string> r; for (auto& x : e) for (auto n : spv::ExtensionNames) if (n && x == n) r.insert(x); return r; }
	using spec::newer;
	std::string sigOf(const char* what, const std::string& name) { return std::string(what) + ":" + name; }
}

MC_SCENARIO(instructions, 1)
{
	const unsigned hi = mc::choose(256, "high"), lo = mc::choose(256, "low"), op = hi * 256 + lo;
	const auto it = spec::g().ins.find(op); const Grammar::Instruction* i = grammar().getInfo(op); mc::op("instruction(%u)", op); mc::state(op);
	if (it == spec::g().ins.end()) { mc::outcome(i ? "only in the library" : "unknown"); return; }
	const spec::Ins& s = it->second; const char* n = s.names[0].c_str();
	if (i == nullptr) { MC_CHECK(newer().count(n), sigOf("missing", n).c_str(), "%s (%u) is not in the library's grammar", n, op); mc::outcome("only in the specification"); return; }
	MC_CHECK(spec::anyName(s.names, i->name), sigOf("name", n).c_str(), "opcode %u is named %s, specification says %s", op, i->name, n);
	const auto ops = lib(i->operands, n);
	MC_CHECK(same(ops, s.ops), sigOf("operands", n).c_str(), "%s: operands are [%s], specification says [%s]", n, spec::text(ops).c_str(), spec::text(s.ops).c_str());
	std::set<unsigned> caps; for (auto c : i->capabilities) MC_CHECK(caps.insert(unsigned(c)).second, sigOf("capability-duplicate", n).c_str(), "%s: capability %u is recorded twice", n, unsigned(c));
	MC_CHECK(caps == known(s.caps), sigOf("capabilities", n).c_str(), "%s: %zu capabilities recorded, specification lists %zu (or others)", n, caps.size(), s.caps.size());
	std::set<std::string> exts; for (auto e : i->extensions) exts.insert(spv::ExtensionNames[unsigned(e)]);
	MC_CHECK(exts == known(s.exts) || exts == known(s.allExts), sigOf("extensions", n).c_str(), "%s: extensions differ from the specification (%zu recorded, %zu listed)", n, exts.size(), s.exts.size());
	const unsigned v = s.version == "none" ? 0u : unsigned(std::stoul(s.version));
	MC_CHECK(i->version == v || (v == 0x10000 && i->version == 0), sigOf("version", n).c_str(), "%s: version %x recorded, specification says %x", n, i->version, v);
	// predicates and classification
	bool r = false, t = false; spv::HasResultAndType(spv::Op(op), &r, &t);
	MC_CHECK(r == s.hasId() && t == s.hasType(), sigOf("has-result", n).c_str(), "%s: HasResultAndType says %d/%d, specification %d/%d", n, int(r), int(t), int(s.hasId()), int(s.hasType()));
	MC_CHECK(spv::HasResult(spv::Op(op)) == s.hasId() && spv::HasResultType(spv::Op(op)) == s.hasType(), sigOf("has-result", n).c_str(), "%s: HasResult/HasResultType says %d/%d, specification %d/%d", n, int(spv::HasResult(spv::Op(op))), int(spv::HasResultType(spv::Op(op))), int(s.hasId()), int(s.hasType()));
	MC_CHECK(hasResultAndTypeId(spv::Op(op)) == (s.hasId() && s.hasType()), sigOf("has-result", n).c_str(), "%s: hasResultAndTypeId", n);
	const std::string nm = s.names[0];
	const std::set<std::string> term = { "OpBranch", "OpBranchConditional", "OpSwitch", "OpReturn", "OpReturnValue", "OpKill", "OpUnreachable", "OpTerminateInvocation", "OpIgnoreIntersectionKHR", "OpTerminateRayKHR", "OpEmitMeshTasksEXT" };
	MC_CHECK(isTerminatorOp(spv::Op(op)) == bool(term.count(nm)), sigOf("terminator", n).c_str(), "%s: isTerminatorOp is %d", n, int(isTerminatorOp(spv::Op(op))));
	MC_CHECK(spv::IsTypeOp(spv::Op(op)) == (nm.rfind("OpType", 0) == 0), sigOf("type-op", n).c_str(), "%s: IsTypeOp is %d", n, int(spv::IsTypeOp(spv::Op(op))));
	MC_CHECK(spv::IsConstantOp(spv::Op(op)) == (nm.rfind("OpConstant", 0) == 0), sigOf("constant-op", n).c_str(), "%s: IsConstantOp is %d", n, int(spv::IsConstantOp(spv::Op(op))));
	MC_CHECK(spv::IsSpecConstantOp(spv::Op(op)) == (nm.rfind("OpSpecConstant", 0) == 0), sigOf("spec-constant-op", n).c_str(), "%s: IsSpecConstantOp is %d", n, int(spv::IsSpecConstantOp(spv::Op(op))));
	MC_CHECK(isSpecOrConstantOp(spv::Op(op)) == (nm.rfind("OpConstant", 0) == 0 || nm.rfind("OpSpecConstant", 0) == 0), sigOf("constant-op", n).c_str(), "%s: isSpecOrConstantOp", n);
	MC_CHECK(getOperation(unsigned(makeOpCode(spv::Op(op), 7))) == spv::Op(op) && getOperandCount(makeOpCode(spv::Op(op), 0xfff0)) == 0xfff0, "opcode-word", "%s: opcode word round trip", n);
	mc::outcome(s.cls.c_str());
}
MC_SCENARIO(extended_instructions, 1)
{
	const unsigned set = 1 + mc::choose(2, "set"), n = mc::choose(512, "number"); mc::op("extended(%u, %u)", set, n); mc::state(set * 1024 + n);
	const auto it = spec::g().ext[set].find(n); const Grammar::Instruction* i = grammar().getInfo(n, set == 1 ? Grammar::Extension::Glsl : Grammar::Extension::OpenCl);
	if (it == spec::g().ext[set].end()) { MC_CHECK(i == nullptr, "extended-unknown", "extended instruction %u of set %u does not exist but has an entry", n, set); mc::outcome("unknown"); return; }
	const spec::Ext& s = it->second; MC_CHECK(i != nullptr, sigOf("extended-missing", s.name).c_str(), "%s (%u) is not in the library's grammar", s.name.c_str(), n);
	MC_CHECK(s.name == i->name, sigOf("extended-name", s.name).c_str(), "extended instruction %u of set %u is named %s, specification says %s", n, set, i->name, s.name.c_str());
	const auto ops = lib(i->operands, s.name.c_str()); MC_CHECK(same(ops, s.ops), sigOf("extended-operands", s.name).c_str(), "%s: operands are [%s], specification says [%s]", s.name.c_str(), spec::text(ops).c_str(), spec::text(s.ops).c_str());
	std::set<unsigned> caps; for (auto c : i->capabilities) caps.insert(unsigned(c)); MC_CHECK(caps == s.caps, sigOf("extended-capabilities", s.name).c_str(), "%s: capabilities differ", s.name.c_str());
	mc::outcome(set == 1 ? "GLSL.std.450" : "OpenCL.std");
}
// enumerants: every value of the specification plus all values below 2^15 and all single bits must agree
MC_SCENARIO(enumerants, 2)
{
	const unsigned k = mc::choose(sizeof kindNames / sizeof *kindNames, "kind"), page = mc::choose(34, "page"); const K kind = K(k); const auto it = spec::g().kinds.find(kindNames[k]);
	mc::op("enumerants(%s, page %u)", kindNames[k], page); mc::state(k * 64 + page);
	MC_CHECK(it != spec::g().kinds.end(), "kind", "operand kind %s is unknown to the specification", kindNames[k]); const spec::Kind& s = it->second;
	std::vector<uint32_t> vals; if (page < 32) for (unsigned i = 0; i < 1024; ++i) vals.push_back(page * 1024 + i); else if (page == 32) for (unsigned i = 0; i < 32; ++i) vals.push_back(1u << i); else for (auto& v : s.vals) vals.push_back(v.first);
	const bool isEnum = s.category == "ValueEnum" || s.category == "BitEnum"; bool anyParams = false; for (auto& v : s.vals) anyParams |= !v.second.params.empty();
	if (page == 0 && anyParams) MC_CHECK(Grammar::hasOperandParameters(kind), sigOf("has-parameters", s.name).c_str(), "%s: the specification has parameters, the library denies it", s.name.c_str());
	if (page == 0)
	{
		const auto* b = grammar().getOperandBases(kind);
		if (s.category == "Composite") { MC_CHECK(b != nullptr, sigOf("bases", s.name).c_str(), "%s has no bases", s.name.c_str()); std::vector<std::string> n; for (auto& x : *b) n.push_back(kindNames[unsigned(x.kind)]); MC_CHECK(n == s.bases, sigOf("bases", s.name).c_str(), "%s: bases differ from the specification", s.name.c_str()); lib(*b, s.name.c_str()); }
		else MC_CHECK(b == nullptr, sigOf("bases", s.name).c_str(), "%s is no composite but has bases", s.name.c_str());
	}
	for (uint32_t v : vals)
	{
		const char* n = grammar().getOperandName(kind, v); const auto* p = grammar().getOperandParameters(kind, v); const auto e = s.vals.find(v);
		if (e == s.vals.end() || !isEnum) { if (!isEnum) MC_CHECK(n == nullptr && p == nullptr, sigOf("no-enum", s.name).c_str(), "%s value %u: not an enumeration but has an entry", s.name.c_str(), v); if (n) mc::outcome("only in the library"); continue; }
		if (n == nullptr) { MC_CHECK(newer().count(s.name + "." + e->second.names[0]), sigOf("enumerant-missing", s.name + "." + e->second.names[0]).c_str(), "%s %s is not recorded", s.name.c_str(), e->second.names[0].c_str()); MC_CHECK(p == nullptr, "parameters-only", "%s value %u has parameters but no name", s.name.c_str(), v); mc::outcome("only in the specification"); continue; }
		MC_CHECK(spec::anyName(e->second.names, n) || (s.name == "Capability" && v == 6089 && std::string(n) == "LongConstantCompositeINTEL") || (isdigit((unsigned char)e->second.names[0][0]) && n == s.name + e->second.names[0]), sigOf("enumerant-name", e->second.names[0]).c_str(), "%s value %u is named %s, specification says %s", s.name.c_str(), v, n ? n : "(nothing)", e->second.names[0].c_str());
		const auto ops = p ? lib(*p, n) : std::vector<spec::Op>();
		MC_CHECK(same(ops, e->second.params), sigOf("parameters", e->second.names[0]).c_str(), "%s %s: parameters are [%s], specification says [%s]", s.name.c_str(), n, spec::text(ops).c_str(), spec::text(e->second.params).c_str());
		mc::outcome("enumerant");
	}
}
