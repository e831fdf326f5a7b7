// Parsed view of the Khronos machine-readable grammar (spec_grammar.h).
#pragma once
#include "spec_grammar.h"
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace spec
{
	struct Op { std::string kind; char q; }; // q: '1', '?', '*'
	struct Val { uint32_t value; std::vector<std::string> names; std::string version, last; std::set<unsigned> caps; std::set<std::string> exts; std::vector<Op> params; };
	struct Kind { std::string name, category; std::vector<std::string> bases; std::map<uint32_t, Val> vals; };
	struct Ins { unsigned op; std::vector<std::string> names; std::string cls, version, last; std::set<unsigned> caps; std::set<std::string> exts, allExts; std::vector<Op> ops; bool hasType() const { return !ops.empty() && ops[0].kind == "IdResultType"; } bool hasId() const { return (!ops.empty() && ops[0].kind == "IdResult") || (ops.size() > 1 && ops[1].kind == "IdResult"); } };
	struct Ext { unsigned num; std::string name; std::set<unsigned> caps; std::vector<Op> ops; };
	struct G { std::map<std::string, Kind> kinds; std::map<unsigned, Ins> ins; std::map<unsigned, Ext> ext[3]; };

	inline const G& g()
	{
		static const G s = []
		{
			G g;
			auto caps = [](const std::string& t) { std::set<unsigned> r; if (t != "-") { std::stringstream s(t); std::string x; while (std::getline(s, x, ',')) r.insert(unsigned(std::stoul(x))); } return r; };
			auto exts = [](const std::string& t) { std::set<std::string> r; if (t != "-") { std::stringstream s(t); std::string x; while (std::getline(s, x, ',')) r.insert(x); } return r; };
			auto ops = [](std::stringstream& s) { std::vector<Op> r; std::string x; while (s >> x) { char q = '1'; if (x.back() == '?' || x.back() == '*') { q = x.back(); x.pop_back(); } r.push_back({ x, q }); } return r; };
			for (auto p = specGrammarText; *p; ++p)
			{
				std::stringstream s(*p); char t; s >> t; std::string a, b, c, d, e, f;
				if (t == 'C') { s >> a; Kind& k = g.kinds[a]; k.name = a; k.category = "Composite"; while (s >> b) k.bases.push_back(b); }
				else if (t == 'K') { s >> a >> b; g.kinds[a].name = a; g.kinds[a].category = b; }
				else if (t == 'V') { uint32_t v; s >> a >> v >> b >> c >> d >> e >> f; Val& x = g.kinds[a].vals[v]; if (x.names.empty()) { x.value = v; x.version = c; x.last = d; x.caps = caps(e); x.exts = exts(f); x.params = ops(s); } else { auto k = caps(e); auto y = exts(f); x.caps.insert(k.begin(), k.end()); x.exts.insert(y.begin(), y.end()); } x.names.push_back(b); }
				else if (t == 'I') { unsigned op; s >> op >> a >> b >> c >> d >> e >> f; Ins& i = g.ins[op]; if (i.names.empty()) { i.op = op; i.cls = b; i.version = c; i.last = d; i.caps = caps(e); i.exts = exts(f); i.ops = ops(s); } for (auto& y : exts(f)) i.allExts.insert(y); i.names.push_back(a); }
				else if (t == 'E') { unsigned set, n; s >> set >> n >> a >> e; Ext& x = g.ext[set][n]; x.num = n; x.name = a; x.caps = caps(e); x.ops = ops(s); }
			}
			return g;
		}();
		return s;
	}
	inline std::string text(const std::vector<Op>& o) { std::string r; for (auto& x : o) { r += (r.empty() ? "" : " ") + x.kind; if (x.q != '1') r += x.q; } return r; }
	inline bool anyName(const std::vector<std::string>& n, const char* s) { for (auto& x : n) if (s && x == s) return true; return false; }
	// entries of the reference that were added after the library's tables were generated
	inline const std::set<std::string>& newer()
	{
		static const std::set<std::string> n = { "BuiltIn.HitKindBackFacingMicroTriangleNV", "BuiltIn.HitKindFrontFacingMicroTriangleNV", "BuiltIn.HitMicroTriangleVertexBarycentricsNV", "BuiltIn.HitMicroTriangleVertexPositionsNV", "Capability.AtomicFloat16VectorNV", "Capability.DisplacementMicromapNV", "Capability.FPGAClusterAttributesV2INTEL", "Capability.FloatControls2", "Capability.GlobalVariableFPGADecorationsINTEL", "Capability.GlobalVariableHostAccessINTEL", "Capability.MaskedGatherScatterINTEL", "Capability.QuadControlKHR", "Capability.RayTracingDisplacementMicromapNV", "Capability.RegisterLimitsINTEL", "Capability.TextureBlockMatch2QCOM", "Decoration.BlockMatchSamplerQCOM", "Decoration.HostAccessINTEL", "Decoration.ImplementInRegisterMapINTEL", "Decoration.InitModeINTEL", "Decoration.StallFreeINTEL", "Decoration.StridesizeINTEL", "Decoration.WordsizeINTEL", "Decoration.TrueDualPortINTEL", "ExecutionMode.FPFastMathDefault", "ExecutionMode.MaximallyReconvergesKHR", "ExecutionMode.MaximumRegistersINTEL", "ExecutionMode.MaximumRegistersIdINTEL", "ExecutionMode.NamedMaximumRegistersINTEL", "ExecutionMode.QuadDerivativesKHR", "ExecutionMode.RequireFullQuadsKHR", "FPFastMathMode.AllowTransform", "OpCompositeConstructContinuedINTEL", "OpFetchMicroTriangleVertexBarycentricNV", "OpFetchMicroTriangleVertexPositionNV", "OpGroupNonUniformQuadAllKHR", "OpGroupNonUniformQuadAnyKHR", "OpImageBlockMatchGatherSADQCOM", "OpImageBlockMatchGatherSSDQCOM", "OpImageBlockMatchWindowSADQCOM", "OpImageBlockMatchWindowSSDQCOM", "OpMaskedGatherINTEL", "OpMaskedScatterINTEL", "SourceLanguage.Slang", "SourceLanguage.Zig" };
		return n;
	}
}
