// Grammar-driven corpus of SPIR-V binaries: every instruction of the Khronos grammar with every alternative of
// every operand, placed in a small module. Independent of the library's own tables.
#pragma once
#include "ir.h"
#include "spec.h"

namespace corpus
{
	using namespace ir;
	using spec::Op;

	inline Words str(const std::string& s) { Words w((s.size() + 4) / 4, 0); for (size_t i = 0; i < s.size(); ++i) w[i / 4] |= uint32_t(uint8_t(s[i])) << (8 * (i % 4)); return w; }
	inline Words op(unsigned code, const Words& ops = {}) { Words w = { uint32_t(ops.size() + 1) << 16 | code }; w.insert(w.end(), ops.begin(), ops.end()); return w; }
	inline Words cat(Words a, const Words& b) { a.insert(a.end(), b.begin(), b.end()); return a; }

	// fixed ids of the skeleton
	enum : uint32_t { GLSL = 1, VOID = 2, BOOL = 3, INT = 4, UINT = 5, FLOAT = 6, VEC4 = 7, LONG = 8, DOUBLE = 9, BYTE = 10, FUNTYPE = 11, CINT = 12, CFLOAT = 13, CUINT = 14, STRUCT = 15, PTR = 16, VAR = 17, MAIN = 18, ENTRY = 19, NEXT = 20, CLONG = 21, CVEC = 22, OCL = 23, FILENAME = 24, VAL = 25, HELPER = 26, HENTRY = 27, TEST = 60, LAST = 64 };

	struct Parts
	{
		std::vector<Words> caps, exts, imports, memory, entries, modes, strings, names, processed, annotations, types, body, functions;
		uint32_t version = 0x00010600, generator = 0x00170000, bound = LAST;
		Words header() const { return { 0x07230203, version, generator, bound, 0 }; }
		Words words() const { Words w = header(); for (auto s : { &caps, &exts, &imports, &memory, &entries, &modes, &strings, &names, &processed, &annotations, &types, &body, &functions }) for (auto& i : *s) w.insert(w.end(), i.begin(), i.end()); return w; }
	};
	inline Parts skeleton()
	{
		Parts p;
		p.caps = { op(17, { 1 }), op(17, { 11 }), op(17, { 10 }), op(17, { 5 }), op(17, { 6 }) }; // Shader, Int64, Float64, Linkage, Kernel
		p.imports = { op(11, cat({ GLSL }, str("GLSL.std.450"))), op(11, cat({ OCL }, str("OpenCL.std"))) };
		p.memory = { op(14, { 0, 1 }) };
		p.entries = { op(15, cat(cat({ 5, MAIN }, str("main")), { VAR })) };
		p.modes = { op(16, { MAIN, 17, 1, 1, 1 }) };
		p.strings = { op(7, cat({ FILENAME }, str("a.comp"))) };
		p.names = { op(5, cat({ MAIN }, str("main"))) };
		p.annotations = { op(71, { VAR, 30, 0 }) };
		p.types = { op(19, { VOID }), op(20, { BOOL }), op(21, { INT, 32, 1 }), op(21, { UINT, 32, 0 }), op(22, { FLOAT, 32 }), op(23, { VEC4, FLOAT, 4 }), op(21, { LONG, 64, 1 }), op(22, { DOUBLE, 64 }), op(21, { BYTE, 8, 0 }), op(33, { FUNTYPE, VOID }),
			op(43, { INT, CINT, 7 }), op(43, { FLOAT, CFLOAT, 0x3f800000 }), op(43, { UINT, CUINT, 3 }), op(43, { LONG, CLONG, 5, 0 }), op(44, { VEC4, CVEC, CFLOAT, CFLOAT, CFLOAT, CFLOAT }), op(30, { STRUCT, INT, FLOAT }), op(32, { PTR, 6, INT }), op(59, { PTR, VAR, 6 }) };
		p.functions = { op(54, { VOID, MAIN, 0, FUNTYPE }), op(248, { ENTRY }), op(128, { INT, VAL, CINT, CINT }), op(249, { NEXT }), op(248, { NEXT }), op(253), op(56),
			op(54, { VOID, HELPER, 1, FUNTYPE }), op(248, { HENTRY }), op(253), op(56) };
		return p;
	}
	inline void inBody(Parts& p, const Words& i, bool terminator)
	{
		auto& f = p.functions; f.insert(f.begin() + 3, i); if (terminator) f.erase(f.begin() + 4);
	}

	using Alts = std::vector<Words>;
	inline bool& globalScope() { static bool b = false; return b; } // ids usable by types and constants only
	inline Alts strings() { return { str("main"), str("a"), str("abc"), str("abcdefg"), str("\xff\x80\x01"), str("a rather long name, longer than one would expect 0123456789"), str("") }; }
	inline Alts alts(const std::string& kind, int depth = 0);

	// all alternatives of one operand slot including quantifier; every alternative is the complete list of words
	inline Alts slot(const Op& o, int depth = 0)
	{
		Alts one = alts(o.kind, depth); if (o.q == '1' || one.empty()) return one;
		Alts r = one; r.insert(r.begin() + 1, Words{});
		if (o.q == '*') { r.push_back(cat(one[0], one[std::min<size_t>(1, one.size() - 1)])); r.push_back(cat(cat(one[0], one.back()), one[0])); }
		return r;
	}
	inline Alts sequence(const std::vector<Op>& ops, int depth = 0)
	{
		std::vector<Alts> s; for (auto& o : ops) s.push_back(slot(o, depth)); Words def; for (auto& a : s) { if (a.empty()) return {}; def = cat(def, a[0]); }
		Alts r = { def };
		for (size_t i = 0; i < s.size(); ++i) for (size_t k = 1; k < s[i].size(); ++k) { if (s[i][k].empty() && i + 1 < s.size()) continue; Words w; for (size_t j = 0; j < s.size(); ++j) w = cat(w, s[j][j == i ? k : 0]); r.push_back(w); }
		return r;
	}
	inline Alts alts(const std::string& kind, int depth)
	{
		const auto it = spec::g().kinds.find(kind); if (it == spec::g().kinds.end()) return {};
		const spec::Kind& k = it->second;
		if (k.category == "Composite") { std::vector<Op> o; for (auto& b : k.bases) o.push_back({ b, '1' }); return sequence(o, depth + 1); }
		if (kind == "IdResultType") return { { INT }, { LONG }, { FLOAT }, { VEC4 } };
		if (kind == "IdResult") return { { TEST } };
		if (kind == "IdScope" || kind == "IdMemorySemantics") return { { CUINT }, { CINT } };
		if (kind == "IdRef") { if (depth > 1) return { { CINT } }; if (globalScope()) return { { CINT }, { INT }, { CVEC } }; return { { CINT }, { VAR }, { NEXT }, { HELPER }, { INT } }; }
		if (kind == "LiteralInteger" || kind == "LiteralFloat") { if (depth > 1) return { { CINT }, { 0xffffffffu } }; return { { CINT }, { 0 }, { 0xffffffffu }, { 0x80000001u } }; }
		if (kind == "LiteralString") { if (depth > 1) return { str("entry"), str("abc") }; return strings(); }
		if (k.category == "ValueEnum" || k.category == "BitEnum")
		{
			Alts r; std::vector<const spec::Val*> bits;
			for (auto& v : k.vals)
			{
				if (spec::newer().count(kind + "." + v.second.names[0]) || v.second.last != "0") continue; // unknown to the library, or removed
				if (k.category == "BitEnum" && (v.first & (v.first - 1)) == 0 && v.first) bits.push_back(&v.second);
				if (v.second.params.empty() || depth > 2) r.push_back({ v.first }); else for (auto& a : sequence(v.second.params, depth + 1)) r.push_back(cat({ v.first }, a));
			}
			// masks: every pair and all bits; parameters follow in bit order
			auto def = [&](const spec::Val* v) { return v->params.empty() ? Words{} : sequence(v->params, depth + 1)[0]; };
			for (size_t i = 0; i < bits.size(); ++i) for (size_t j = i + 1; j < bits.size(); ++j) r.push_back(cat(cat({ bits[i]->value | bits[j]->value }, def(bits[i])), def(bits[j])));
			if (bits.size() > 2) { Words w = { 0 }; for (auto b : bits) { w[0] |= b->value; w = cat(w, def(b)); } r.push_back(w); }
			return r;
		}
		return {};
	}
	struct Case { Words ins; };
	// operands that can be used with OpSpecConstantOp: opcode and its operands; literals marked by the kind
	inline Alts specOps()
	{
		Alts r; const unsigned ids1[] = { 113, 114, 115, 126, 127, 200, 168, 116, 110, 109, 111, 112, 122, 121 /* kernel casts */, 124 };
		const unsigned ids2[] = { 128, 130, 132, 134, 135, 137, 138, 139, 194, 195, 196, 197, 198, 199, 166, 167, 164, 165, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 129, 131, 133, 136, 140, 141 };
		for (auto o : ids1) r.push_back({ o, CINT }); for (auto o : ids2) r.push_back({ o, CINT, CUINT });
		r.push_back({ 169, CINT, CINT, CUINT }); // select
		for (uint32_t lit : { 0u, 3u, uint32_t(CINT), uint32_t(CFLOAT), uint32_t(TEST) }) { r.push_back({ 81, CVEC, lit }); r.push_back({ 81, CVEC, lit, 1 }); r.push_back({ 82, CFLOAT, CVEC, lit }); r.push_back({ 79, CVEC, CVEC, lit, 1, 5, 0xffffffffu }); }
		for (unsigned o : { 65u, 66u }) { r.push_back({ o, VAR }); r.push_back({ o, VAR, CINT }); r.push_back({ o, VAR, CINT, CUINT }); }
		for (unsigned o : { 67u, 70u }) { r.push_back({ o, VAR, CINT }); r.push_back({ o, VAR, CINT, CUINT }); }
		return r;
	}
	enum class Place { Body, Terminator, Types, Annotation, Names, Strings, Processed, Modes, Caps, Exts, Imports, Memory, Entry, Structure };
	inline Place placeOf(unsigned code, const spec::Ins& i)
	{
		const std::string& n = i.names[0]; auto starts = [&](const char* s) { return n.rfind(s, 0) == 0; };
		if (code == 17) return Place::Caps; if (code == 10) return Place::Exts; if (code == 11) return Place::Imports; if (code == 14) return Place::Memory; if (code == 15) return Place::Entry; if (code == 16 || code == 331) return Place::Modes;
		if (code == 5 || code == 6) return Place::Names; if (code == 7 || code == 2 || code == 3 || code == 4) return Place::Strings; if (code == 330) return Place::Processed;
		if (starts("OpDecorate") || starts("OpMemberDecorate") || starts("OpGroupDecorate") || starts("OpGroupMemberDecorate") || code == 73) return Place::Annotation;
		if (starts("OpType") || starts("OpConstant") || starts("OpSpecConstant")) return Place::Types;
		if (code == 54 || code == 55 || code == 56 || code == 248) return Place::Structure;
		static const std::set<std::string> term = { "OpBranch", "OpBranchConditional", "OpSwitch", "OpReturn", "OpReturnValue", "OpKill", "OpUnreachable", "OpTerminateInvocation", "OpIgnoreIntersectionKHR", "OpTerminateRayKHR", "OpEmitMeshTasksEXT" };
		return term.count(n) ? Place::Terminator : Place::Body;
	}
	inline const std::vector<const spec::Ins*>& instructions()
	{
		static const std::vector<const spec::Ins*> v = [] { std::vector<const spec::Ins*> r; for (auto& i : spec::g().ins) if (grammar().getInfo(i.first)) r.push_back(&i.second); return r; }();
		return v;
	}
	// every variant of one instruction: one operand slot (thorough: two) deviates from the default at a time
	inline const Alts& variants(const spec::Ins& i, bool pairs)
	{
		static std::map<std::pair<unsigned, bool>, Alts> cache; Alts& out = cache[{ i.op, pairs }]; if (!out.empty()) return out;
		if (i.op == 12) // OpExtInst
		{
			for (int set = 1; set <= 2; ++set) for (auto& e : spec::g().ext[set]) for (auto& s : sequence(e.second.ops)) out.push_back(cat({ INT, TEST, set == 1 ? uint32_t(GLSL) : uint32_t(OCL), e.first }, s));
			return out;
		}
		if (i.op == 52) { for (auto& s : specOps()) out.push_back(cat({ INT, TEST }, s)); return out; }
		if (i.op == 43 || i.op == 50) { for (uint32_t v : { 0u, 1u, 0x80000000u, 0xffffffffu }) for (uint32_t t : { uint32_t(INT), uint32_t(UINT), uint32_t(FLOAT) }) out.push_back({ t, TEST, v }); for (uint32_t v : { 0u, 7u, 0xffffffffu }) for (uint32_t t : { uint32_t(LONG), uint32_t(DOUBLE) }) out.push_back({ t, TEST, v, ~v }); out.push_back({ BYTE, TEST, 255 }); return out; }
		if (i.op == 251) // OpSwitch: 32 and 64 bit selectors
		{
			for (unsigned n = 0; n < 4; ++n) for (uint32_t sel : { uint32_t(CINT), uint32_t(VAL), uint32_t(CLONG) }) for (uint32_t lit : { 0u, uint32_t(CINT), 0xffffffffu }) { Words w = { sel, NEXT }; for (unsigned k = 0; k < n; ++k) { w.push_back(lit + k); if (sel == CLONG) w.push_back(k); w.push_back(NEXT); } out.push_back(w); }
			return out;
		}
		globalScope() = placeOf(i.op, i) == Place::Types;
		std::vector<Alts> s; for (auto& o : i.ops) { s.push_back(slot(o)); if (s.back().empty()) return out; }
		auto build = [&](const std::map<size_t, size_t>& dev) { Words w; bool gone = false; for (size_t j = 0; j < s.size(); ++j) { auto d = dev.find(j); const Words& x = s[j][d == dev.end() ? 0 : d->second]; if (i.ops[j].q != '1' && x.empty()) gone = true; if (gone && i.ops[j].q != '1') continue; w = cat(w, x); } out.push_back(w); };
		build({});
		for (size_t a = 0; a < s.size(); ++a) for (size_t k = 1; k < s[a].size(); ++k) build({ { a, k } });
		if (pairs) for (size_t a = 0; a < s.size(); ++a) for (size_t b = a + 1; b < s.size(); ++b) for (size_t k = 1; k < s[a].size(); ++k) for (size_t l = 1; l < s[b].size(); ++l) if (s[a].size() * s[b].size() < 4000) build({ { a, k }, { b, l } });
		std::sort(out.begin() + 1, out.end()); out.erase(std::unique(out.begin() + 1, out.end()), out.end());
		return out;
	}
	inline Words module(const spec::Ins& i, const Words& operands)
	{
		Parts p = skeleton(); const Words w = op(i.op, operands);
		if (i.last != "0" && !i.last.empty()) { const unsigned v = unsigned(std::stoul(i.last)); if (v) p.version = v; }
		switch (placeOf(i.op, i))
		{
		case Place::Caps: p.caps.push_back(w); break; case Place::Exts: p.exts.push_back(w); break; case Place::Imports: p.imports.push_back(w); break; case Place::Memory: p.memory = { w }; break;
		case Place::Entry: { Words e = w; if (e.size() > 2) e[2] = MAIN; p.entries = { e }; break; }
		case Place::Modes: p.modes.push_back(w); break; case Place::Strings: p.strings.push_back(w); break; case Place::Names: p.names.push_back(w); break; case Place::Processed: p.processed.push_back(w); break;
		case Place::Annotation: p.annotations.push_back(w); break; case Place::Types: p.types.push_back(w); break; case Place::Terminator: inBody(p, w, true); break; case Place::Body: inBody(p, w, false); break;
		default: break;
		}
		return p.words();
	}
}
