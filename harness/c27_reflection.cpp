// C27: reflection queries return exactly what the module declares.
#include "corpus.h"
#include "common/ReflectionHelperTemplate.inl"
#include "common/GrammarHelper.h"
using namespace spvgentwo;
using namespace ir;

namespace
{
	namespace RH = ReflectionHelper;
	using D = spv::Decoration;
	constexpr unsigned NONE = 0xffffffffu;

	// ---- decorations and names of targets ----
	enum Target { V0, V1, V2, S, F, C0, FLT, GROUP, LABEL, UNTOUCHED, TARGETS };
	const char* targetName[] = { "v0", "v1", "v2", "S", "function", "c0", "float", "group", "label", "v3" };
	struct Step { const char* what; spv::Op op; Target t; int member; D deco; std::vector<unsigned> lit; const char* text; std::vector<Target> ids; };
	const std::vector<Step>& steps()
	{
		using O = spv::Op;
		static const std::vector<Step> s = {
			{ "v0 Binding 0", O::OpDecorate, V0, -1, D::Binding, { 0 }, nullptr, {} },
			{ "v0 Binding 1", O::OpDecorate, V0, -1, D::Binding, { 1 }, nullptr, {} },
			{ "v0 DescriptorSet 0", O::OpDecorate, V0, -1, D::DescriptorSet, { 0 }, nullptr, {} },
			{ "v1 DescriptorSet 1", O::OpDecorate, V1, -1, D::DescriptorSet, { 1 }, nullptr, {} },
			{ "v1 Binding 1", O::OpDecorate, V1, -1, D::Binding, { 1 }, nullptr, {} },
			{ "v0 NonWritable", O::OpDecorate, V0, -1, D::NonWritable, {}, nullptr, {} },
			{ "v1 NonWritable", O::OpDecorate, V1, -1, D::NonWritable, {}, nullptr, {} },
			{ "S Block", O::OpDecorate, S, -1, D::Block, {}, nullptr, {} },
			{ "S.0 Offset 0", O::OpMemberDecorate, S, 0, D::Offset, { 0 }, nullptr, {} },
			{ "S.1 Offset 16", O::OpMemberDecorate, S, 1, D::Offset, { 16 }, nullptr, {} },
			{ "S.2 Offset 33", O::OpMemberDecorate, S, 2, D::Offset, { 33 }, nullptr, {} }, // member index = Block, literal = Binding
			{ "S.2 NonWritable", O::OpMemberDecorate, S, 2, D::NonWritable, {}, nullptr, {} },
			{ "S.24 Block", O::OpMemberDecorate, S, 24, D::Block, {}, nullptr, {} }, // member index = NonWritable
			{ "S.33 Binding 1", O::OpMemberDecorate, S, 33, D::Binding, { 1 }, nullptr, {} },
			{ "v2 Location 33", O::OpDecorate, V2, -1, D::Location, { 33 }, nullptr, {} },
			{ "c0 SpecId 1", O::OpDecorate, C0, -1, D::SpecId, { 1 }, nullptr, {} },
			{ "v2 UniformId c0", O::OpDecorateId, V2, -1, D::UniformId, {}, nullptr, { C0 } },
			{ "v2 UserSemantic", O::OpDecorateString, V2, -1, D::UserSemantic, {}, "abc", {} },
			{ "S.0 UserSemantic", O::OpMemberDecorateString, S, 0, D::UserSemantic, {}, "d", {} },
			{ "function LinkageAttributes", O::OpDecorate, F, -1, D::LinkageAttributes, {}, "fun", {} },
			{ "v2 BuiltIn Position", O::OpDecorate, V2, -1, D::BuiltIn, { 0 }, nullptr, {} },
			{ "group", O::OpDecorationGroup, GROUP, -1, D::Max, {}, nullptr, {} },
			{ "group Binding 1", O::OpDecorate, GROUP, -1, D::Binding, { 1 }, nullptr, {} },
			{ "group of v0 v1", O::OpGroupDecorate, GROUP, -1, D::Max, {}, nullptr, { V0, V1 } },
			{ "group of S.1", O::OpGroupMemberDecorate, GROUP, 1, D::Max, {}, nullptr, { S } },
			{ "name v0", O::OpName, V0, -1, D::Max, {}, "a", {} },
			{ "another name v0", O::OpName, V0, -1, D::Max, {}, "b", {} },
			{ "name S.1", O::OpMemberName, S, 1, D::Max, {}, "m", {} },
			{ "name label", O::OpName, LABEL, -1, D::Max, {}, "l", {} },
		};
		return s;
	}
	bool isName(spv::Op o) { return o == spv::Op::OpName || o == spv::Op::OpMemberName; }
	bool plain(const Step& s) { return s.op == spv::Op::OpDecorate || s.op == spv::Op::OpMemberDecorate; }
	// literal words that follow the decoration
	std::vector<unsigned> literals(const Step& s)
	{
		std::vector<unsigned> r = s.lit; if (!s.text) return r; const Words w = corpus::str(s.text); r.insert(r.end(), w.begin(), w.end());
		if (s.deco == D::LinkageAttributes) r.push_back(0); return r; // Export
	}
	void emit(Module& m, const Step& s, Instruction* const* t)
	{
		Instruction* i = isName(s.op) ? m.addNameInstr() : m.addDecorationInstr(); i->setOperation(s.op);
		if (s.op == spv::Op::OpDecorationGroup) { i->addOperand(InvalidId); return; }
		i->addOperand(t[s.t]); if (s.op == spv::Op::OpGroupMemberDecorate) { for (Target x : s.ids) { i->addOperand(t[x]); i->addOperand(literal_t(unsigned(s.member))); } return; }
		if (s.member >= 0) i->addOperand(literal_t(unsigned(s.member))); if (s.deco != D::Max) i->addOperand(literal_t(unsigned(s.deco)));
		for (unsigned w : literals(s)) i->addOperand(literal_t(w)); for (Target x : s.ids) i->addOperand(t[x]);
	}
	// the instruction is the one the step stands for (by position), decs/names in order of declaration
	struct Decl { const Step* s; const Instruction* i; };
	void queries(Module& m, const std::vector<Decl>& decs, const std::vector<Decl>& names, Instruction* const* t, const char* when)
	{
		const D kinds[] = { D::Binding, D::DescriptorSet, D::NonWritable, D::Block, D::Offset, D::Location, D::SpecId, D::UniformId, D::UserSemantic, D::LinkageAttributes, D::BuiltIn, D::RelaxedPrecision, D(50), D::Uniform };
		auto showL = [&](const std::vector<const Instruction*>& v) { std::string r = "{"; for (auto* p : v) { std::string n = "?"; for (auto& d : decs) if (d.i == p) n = d.s->what; for (auto& d : names) if (d.i == p) n = d.s->what; for (int k = 0; k < TARGETS; ++k) if (t[k] == p) n = targetName[k]; r += " " + n + ";"; } return r + " }"; };
		for (int k = 0; k < TARGETS; ++k)
		{
			if (!t[k]) continue; std::vector<const Instruction*> want, wantN, got, got2, gotN;
			for (auto& d : decs) if (d.s->op != spv::Op::OpDecorationGroup && t[d.s->t] == t[k]) want.push_back(d.i); for (auto& d : names) if (t[d.s->t] == t[k]) wantN.push_back(d.i);
			List<Instruction*> l(m.getAllocator()); RH::getDecorations(t[k], l); for (auto* p : l) got.push_back(p); RH::getDecorationsFunc(t[k], [&](Instruction* p) { got2.push_back(p); }); RH::getNamesFunc(t[k], [&](Instruction* p) { gotN.push_back(p); });
			MC_CHECK(got == want, "getDecorations", "%s: getDecorations(%s) returns %s, declared are %s", when, targetName[k], showL(got).c_str(), showL(want).c_str());
			MC_CHECK(got2 == want, "getDecorationsFunc", "%s: getDecorationsFunc(%s) visits %s, declared are %s", when, targetName[k], showL(got2).c_str(), showL(want).c_str());
			MC_CHECK(gotN == wantN, "getNamesFunc", "%s: getNamesFunc(%s) visits %s, declared are %s", when, targetName[k], showL(gotN).c_str(), showL(wantN).c_str());
			for (D d : kinds)
			{
				const Instruction* out = nullptr; const unsigned v = RH::getDecorationLiteralFromTarget(d, t[k], &out), v2 = RH::getDecorationLiteralFromTarget(d, t[k]);
				const Decl* match = nullptr; for (auto& x : decs) if (!match && plain(*x.s) && x.s->deco == d && t[x.s->t] == t[k] && !literals(*x.s).empty()) match = &x;
				MC_CHECK(v == v2, "getDecorationLiteralFromTarget:out", "%s: the value for %s depends on whether the instruction is asked for", when, targetName[k]);
				if (!match) { MC_CHECK(v == NONE && !out, "getDecorationLiteralFromTarget:absent", "%s: %s has no decoration %u with a literal, but %u%s is returned", when, targetName[k], unsigned(d), v, out ? " and an instruction" : ""); continue; }
				MC_CHECK(v == literals(*match->s)[0] && out == match->i, "getDecorationLiteralFromTarget", "%s: decoration %u of %s is '%s' but %u of %s is returned", when, unsigned(d), targetName[k], match->s->what, v, showL({ out }).c_str());
			}
		}
		for (D d : kinds) for (int val = -1; val < 5; ++val)
		{
			const unsigned values[] = { 0, 1, 16, 33, 2 }; const unsigned* p = val < 0 ? nullptr : &values[val];
			std::vector<const Instruction*> must, may, got, got2;
			for (auto& x : decs)
			{
				if (x.s->deco != d) continue; const std::vector<unsigned> l = literals(*x.s);
				if (plain(*x.s) && (!p || (!l.empty() && l[0] == *p))) must.push_back(t[x.s->t]);
				else if (!plain(*x.s) && !p) may.push_back(t[x.s->t]); // neither OpDecorate nor OpMemberDecorate, not spelled out
			}
			List<const Instruction*> o(m.getAllocator()); RH::getVariablesWithDecoration(m, d, o, p); for (auto* i : o) got.push_back(i);
			RH::getVariablesWithDecorationFunc(m, d, [&](const Instruction* i) { got2.push_back(i); }, p);
			for (auto* g : { &got, &got2 })
			{
				std::vector<const Instruction*> rest = *g; bool ok = true; for (auto* w : must) { auto f = std::find(rest.begin(), rest.end(), w); if (f == rest.end()) ok = false; else rest.erase(f); }
				for (auto* r : rest) if (std::find(may.begin(), may.end(), r) == may.end()) ok = false;
				MC_CHECK(ok, p ? "getVariablesWithDecoration:value" : "getVariablesWithDecoration", "%s: targets with decoration %u%s are %s, declared are %s", when, unsigned(d), p ? (" = " + std::to_string(*p)).c_str() : "", showL(*g).c_str(), showL(must).c_str());
			}
		}
		std::vector<Decl> all = decs; all.insert(all.end(), names.begin(), names.end());
		for (auto& x : all)
		{
			const D k = RH::getSpvDecorationKindFromDecoration(x.i), want = plain(*x.s) ? x.s->deco : D::Max; const std::vector<unsigned> l = literals(*x.s);
			if (plain(*x.s) || x.s->deco == D::Max) MC_CHECK(k == want, "getSpvDecorationKindFromDecoration", "%s: kind of '%s' is %u", when, x.s->what, unsigned(k));
			else MC_CHECK(k == x.s->deco || k == D::Max, "getSpvDecorationKindFromDecoration:other", "%s: kind of '%s' is %u", when, x.s->what, unsigned(k));
			D outD = D::Max; unsigned outV = 77777; const bool r = RH::getSpvDecorationAndLiteralFromDecoration(x.i, outD, outV);
			if (plain(*x.s)) MC_CHECK(r && outD == x.s->deco && outV == (l.empty() ? 77777 : l[0]), "getSpvDecorationAndLiteralFromDecoration", "%s: '%s' yields %d, decoration %u, value %u", when, x.s->what, r, unsigned(outD), outV);
			else MC_CHECK(!r && outD == D::Max && outV == 77777, "getSpvDecorationAndLiteralFromDecoration:other", "%s: '%s' is neither OpDecorate nor OpMemberDecorate but yields %d, decoration %u, value %u", when, x.s->what, r, unsigned(outD), outV);
			for (D d : kinds)
			{
				const unsigned v = RH::getLiteralFromDecoration(d, x.i); const bool has = x.s->op == spv::Op::OpDecorate && x.s->deco == d && !l.empty();
				if (x.s->op == spv::Op::OpMemberDecorate && x.s->deco == d && !l.empty()) MC_CHECK(v == l[0] || v == NONE, "getLiteralFromDecoration:member", "%s: '%s' yields %u", when, x.s->what, v);
				else MC_CHECK(v == (has ? l[0] : NONE), "getLiteralFromDecoration", "%s: literal of decoration %u in '%s' is %u", when, unsigned(d), x.s->what, v);
			}
		}
	}
	// instructions that are no decorations
	void strangers(Module& m, const char* when)
	{
		auto ask = [&](const Instruction& i)
		{
			if (i.getOperation() == spv::Op::OpDecorate || i.getOperation() == spv::Op::OpMemberDecorate) return; D d = D::Max; unsigned v = 77777;
			MC_CHECK(RH::getSpvDecorationKindFromDecoration(&i) == D::Max, "stranger:kind", "%s: an instruction with opcode %u has a decoration kind", when, unsigned(i.getOperation()));
			MC_CHECK(!RH::getSpvDecorationAndLiteralFromDecoration(&i, d, v) && v == 77777, "stranger:literal", "%s: an instruction with opcode %u yields decoration %u, %u", when, unsigned(i.getOperation()), unsigned(d), v);
			for (D k : { D::RelaxedPrecision, D::SpecId, D::Block, D::Binding }) MC_CHECK(RH::getLiteralFromDecoration(k, &i) == NONE, "stranger:value", "%s: an instruction with opcode %u yields a literal", when, unsigned(i.getOperation()));
		};
		for (auto& i : m.getTypesAndConstants()) ask(i); for (auto& i : m.getGlobalVariables()) ask(i); for (auto& i : m.getNames()) ask(i); for (Function& f : m.getFunctions()) { ask(*f.getFunction()); ask(*f.getFunctionEnd()); for (auto& b : f) { ask(*b.getLabel()); for (auto& i : b) ask(i); } }
		D d = D::Max; unsigned v = 77777; MC_CHECK(RH::getSpvDecorationKindFromDecoration(nullptr) == D::Max && !RH::getSpvDecorationAndLiteralFromDecoration(nullptr, d, v) && RH::getLiteralFromDecoration(D::Binding, nullptr) == NONE && RH::getDecorationLiteralFromTarget(D::Binding, nullptr) == NONE, "null", "no instruction has a decoration");
		List<Instruction*> l(m.getAllocator()); RH::getDecorations(nullptr, l); unsigned n = 0; RH::getDecorationsFunc(nullptr, [&](Instruction*) { ++n; }); RH::getNamesFunc(nullptr, [&](Instruction*) { ++n; }); MC_CHECK(l.empty() && !n, "null", "no target has decorations");
	}
	using SC = spv::StorageClass;
	void storage(Module& m, const std::map<const Instruction*, SC>& vars, const char* when)
	{
		for (unsigned c = 0; c < 13; ++c)
		{
			std::vector<const Instruction*> got; List<const Instruction*> l(m.getAllocator()); RH::getGlobalVariablesByStorageClass(m, SC(c), l); for (auto* p : l) got.push_back(p); size_t n = 0; bool ok = true;
			for (auto& v : vars) if (v.second == SC(c)) { ++n; if (std::count(got.begin(), got.end(), v.first) != 1) ok = false; }
			MC_CHECK(ok && n == got.size(), "getGlobalVariablesByStorageClass", "%s: %zu variables of class %u are returned, declared are %zu", when, got.size(), c, n);
		}
	}
}

MC_SCENARIO(declarations, 3)
{
	const unsigned len = mc::bound(3, 4); std::vector<const Step*> seq; const unsigned n = unsigned(steps().size());
	for (unsigned k = 0; k < len; ++k) { const unsigned x = mc::choose(n + 1); if (x == n) break; seq.push_back(&steps()[x]); mc::op("%s", steps()[x].what); }
	track::Allocator al; Log log;
	{
		Module m(&al, &log); m.addCapability(spv::Capability::Shader); m.addCapability(spv::Capability::Linkage); m.setMemoryModel(spv::AddressingModel::Logical, spv::MemoryModel::GLSL450);
		Instruction* t[TARGETS] = {}; Instruction* f32 = m.type<float>(); Instruction* vec = m.type<vector_t<float, 4>>(); Instruction* i32 = m.type<int>();
		{ Type s = m.newType(); s.Struct(); s.Member().Float(); s.Member().VectorElement(4).Float(); s.Member().Int(); t[S] = m.addType(s); } auto ptr = [&](Instruction* b, SC c) { return m.addType(b->getType()->wrapPointer(c)); };
		Instruction* pu = ptr(t[S], SC::Uniform); Instruction* img = m.type<dyn_sampled_image_t>(dyn_sampled_image_t{ dyn_image_t{ spv::Op::OpTypeFloat } }); Instruction* pi = ptr(img, SC::UniformConstant); Instruction* pin = ptr(vec, SC::Input);
		t[V0] = m.variable(pu, SC::Uniform); t[V1] = m.variable(pi, SC::UniformConstant); t[V2] = m.variable(pin, SC::Input); t[UNTOUCHED] = m.variable(pin, SC::Input); t[FLT] = f32; t[C0] = m.constant(7u, true);
		Function& f = m.addFunction<void>("f"); BasicBlock& bb = *f; bb.returnValue(); t[F] = f.getFunction(); t[LABEL] = bb.getLabel();
		m.getNames().clear(); // the name of the function
		std::map<const Instruction*, SC> vars = { { t[V0], SC::Uniform }, { t[V1], SC::UniformConstant }, { t[V2], SC::Input }, { t[UNTOUCHED], SC::Input } };
		std::vector<Decl> decs, names;
		for (const Step* s : seq)
		{
			if (s->t == GROUP) { if (s->op == spv::Op::OpDecorationGroup ? t[GROUP] != nullptr : !t[GROUP]) { mc::outcome("not applicable"); return; } }
			emit(m, *s, t); const Instruction* i = isName(s->op) ? &m.getNames().back() : &m.getDecorations().back(); if (s->op == spv::Op::OpDecorationGroup) t[GROUP] = const_cast<Instruction*>(i); (isName(s->op) ? names : decs).push_back({ s, i });
		}
		queries(m, decs, names, t, "as built"); storage(m, vars, "as built"); strangers(m, "as built");
		Writer w; if (!m.finalizeAndWrite(w)) mc::broken("the module cannot be written"); if (mc::tracing()) mc::note("%s", disasm(w.words).c_str());
		queries(m, decs, names, t, "as written"); mc::state(hashWords(w.words));
		Module r(&al, &log); Reader rd(w.words); if (!r.readAndInit(rd, grammar())) mc::broken("the module cannot be read");
		Instruction* rt[TARGETS] = {}; for (int k = 0; k < TARGETS; ++k) if (t[k]) { rt[k] = r.getInstructionById(t[k]->getResultId()); if (!rt[k]) mc::broken("an instruction is lost by reading"); }
		std::map<const Instruction*, SC> rvars; for (int k : { V0, V1, V2, UNTOUCHED }) rvars[rt[k]] = vars[t[k]];
		auto remap = [&](std::vector<Decl>& v, List<Instruction>& l) { size_t k = 0; for (auto& i : l) if (k < v.size()) v[k++].i = &i; if (l.size() != v.size() || k != v.size()) mc::broken("declarations are lost by reading"); };
		remap(decs, r.getDecorations()); remap(names, r.getNames()); queries(r, decs, names, rt, "as read"); storage(r, rvars, "as read"); strangers(r, "as read");
		mc::checked(); mc::outcome("answered");
	}
}

// ---- local size ----
namespace
{
	struct Mode { const char* what; spv::ExecutionMode mode; bool ids; std::vector<unsigned> args; };
	const Mode modes[] = {
		{ "LocalSize 1 2 3", spv::ExecutionMode::LocalSize, false, { 1, 2, 3 } }, { "LocalSize 17 18 38", spv::ExecutionMode::LocalSize, false, { 17, 18, 38 } }, { "LocalSizeHint 7 8 9", spv::ExecutionMode::LocalSizeHint, false, { 7, 8, 9 } },
		{ "LocalSizeId 0 1 2", spv::ExecutionMode::LocalSizeId, true, { 0, 1, 2 } }, { "LocalSizeId 3 4 0", spv::ExecutionMode::LocalSizeId, true, { 3, 4, 0 } }, { "LocalSizeId 5 6 1", spv::ExecutionMode::LocalSizeId, true, { 5, 6, 1 } }, { "LocalSizeHintId 2 1 3", spv::ExecutionMode::LocalSizeHintId, true, { 2, 1, 3 } }, { "LocalSizeId 7 2 1", spv::ExecutionMode::LocalSizeId, true, { 7, 2, 1 } },
		{ "OriginUpperLeft", spv::ExecutionMode::OriginUpperLeft, false, {} }, { "Invocations 17", spv::ExecutionMode::Invocations, false, { 17 } }, { "VecTypeHint 17", spv::ExecutionMode::VecTypeHint, false, { 17 } }, { "MaxWorkgroupSizeINTEL 4 5 6", spv::ExecutionMode::MaxWorkgroupSizeINTEL, false, { 4, 5, 6 } }, { "SubgroupsPerWorkgroupId 0", spv::ExecutionMode::SubgroupsPerWorkgroupId, true, { 0 } },
	};
}
MC_SCENARIO(localSize, 3)
{
	const unsigned len = mc::bound(3, 5), n = sizeof modes / sizeof *modes; std::vector<const Mode*> seq; std::vector<unsigned> on;
	for (unsigned k = 0; k < len; ++k) { const unsigned x = mc::choose(n + 1); if (x == n) break; seq.push_back(&modes[x]); on.push_back(mc::choose(2)); mc::op("%s for entry point %u", modes[x].what, on.back()); }
	track::Allocator al; Log log;
	{
		Module m(&al, &log); m.addCapability(spv::Capability::Kernel); m.addCapability(spv::Capability::Shader); m.addCapability(spv::Capability::Int64); m.setMemoryModel(spv::AddressingModel::Logical, spv::MemoryModel::GLSL450); m.setSpvVersion(makeVersion(1u, 5u));
		Instruction* u = m.type<unsigned>(); Instruction* c[8] = { m.constant(10u), m.constant(11u), m.constant(12u), m.constant(13u, true), m.constant(const_null_t<unsigned>{}), nullptr, nullptr, nullptr }; const unsigned val[8] = { 10, 11, 12, 13, 0, 0, 0, 14 };
		{ Instruction* i = m.addConstantInstr(); i->opSpecConstantOp(u, spv::Op::OpIAdd, c[0], c[1]); c[5] = i; } c[6] = m.constant(const_null_t<unsigned>{}); c[7] = m.constant((unsigned short)14);
		Instruction* ep[2]; for (int k = 0; k < 2; ++k) { EntryPoint& e = m.addEntryPoint<void>(spv::ExecutionModel::GLCompute, k ? "b" : "a"); (*e).returnValue(); ep[k] = e.getFunction(); }
		bool has = false; unsigned want[3] = { 77, 77, 77 };
		for (size_t k = 0; k < seq.size(); ++k)
		{
			Instruction* i = m.addExtensionModeInstr(); i->setOperation(seq[k]->ids ? spv::Op::OpExecutionModeId : spv::Op::OpExecutionMode); i->addOperand(ep[on[k]]); i->addOperand(literal_t(unsigned(seq[k]->mode))); for (unsigned a : seq[k]->args) if (seq[k]->ids) i->addOperand(c[a]); else i->addOperand(literal_t(a));
			using X = spv::ExecutionMode; const X x = seq[k]->mode; if (!has && (x == X::LocalSize || x == X::LocalSizeHint || x == X::LocalSizeId || x == X::LocalSizeHintId)) { has = true; for (int j = 0; j < 3; ++j) want[j] = seq[k]->ids ? val[seq[k]->args[j]] : seq[k]->args[j]; }
		}
		auto ask = [&](Module& q, const char* when) { unsigned x = 77, y = 77, z = 77; const bool r = RH::getLocalSize(q, x, y, z); MC_CHECK(r == has && x == want[0] && y == want[1] && z == want[2], has ? "getLocalSize" : "getLocalSize:absent", "%s: getLocalSize returns %d with %u %u %u, expected %d with %u %u %u", when, r, x, y, z, has, want[0], want[1], want[2]); };
		ask(m, "as built"); Writer w; if (!m.finalizeAndWrite(w)) mc::broken("the module cannot be written: %s", log.last.c_str()); mc::state(hashWords(w.words)); ask(m, "as written");
		Module r(&al, &log); Reader rd(w.words); if (!r.readAndInit(rd, grammar())) mc::broken("the module cannot be read: %s", log.last.c_str()); ask(r, "as read"); mc::checked(); mc::outcome("answered");
	}
}

// ---- storage classes ----
MC_SCENARIO(storageClasses, 3)
{
	const SC cls[] = { SC::UniformConstant, SC::Input, SC::Uniform, SC::Output, SC::Workgroup, SC::Private, SC::StorageBuffer, SC::PushConstant }; const unsigned len = mc::bound(4, 6); std::vector<SC> seq; for (unsigned k = 0; k < len; ++k) { const unsigned x = mc::choose(9); if (x == 8) break; seq.push_back(cls[x]); mc::op("variable of class %u", unsigned(cls[x])); }
	track::Allocator al; Log log;
	{
		Module m(&al, &log); m.addCapability(spv::Capability::Shader); m.addCapability(spv::Capability::Linkage); m.setMemoryModel(spv::AddressingModel::Logical, spv::MemoryModel::GLSL450); Instruction* f32 = m.type<float>(); std::map<const Instruction*, SC> vars;
		for (SC c : seq) { Instruction* p = m.addType(f32->getType()->wrapPointer(c)); vars[m.variable(p, c)] = c; }
		Function& f = m.addFunction<void>("f"); BasicBlock& bb = *f; f.variable<float>(); bb.returnValue(); storage(m, vars, "as built");
		Writer w; if (!m.finalizeAndWrite(w)) mc::broken("the module cannot be written"); mc::state(hashWords(w.words)); Module r(&al, &log); Reader rd(w.words); if (!r.readAndInit(rd, grammar())) mc::broken("the module cannot be read");
		std::map<const Instruction*, SC> rv; for (auto& v : vars) rv[r.getInstructionById(v.first->getResultId())] = v.second; storage(r, rv, "as read"); mc::checked(); mc::outcome("answered");
	}
}

// ---- operands by kind and by name ----
namespace
{
	using namespace corpus;
	// word offset (without the first word) of each grammar operand, -1 if absent; params: kind and offset of the parameters of enumerants
	struct Place2 { std::vector<int> at; std::vector<std::pair<std::string, int>> inner; bool ok = true; };
	size_t stringWords(const Words& w, size_t p) { size_t n = 0; while (p + n < w.size()) { const uint32_t x = w[p + n++]; if (!(x >> 24) || !(x >> 16 & 255) || !(x >> 8 & 255) || !(x & 255)) break; } return n; }
	void skip(const std::string& kind, const Words& w, size_t& p, Place2& r)
	{
		const spec::Kind& k = spec::g().kinds.at(kind);
		if (kind == "LiteralString") { p += stringWords(w, p); return; }
		if (kind == "LiteralContextDependentNumber") { p = w.size(); return; }
		if (k.category == "Composite") { p = w.size(); return; }
		const uint32_t v = w[p++]; if (k.category != "ValueEnum" && k.category != "BitEnum") return;
		auto params = [&](uint32_t x) { auto f = k.vals.find(x); if (f == k.vals.end()) return; for (auto& o : f->second.params) { if (p >= w.size()) { if (o.q == '1') r.ok = false; return; } do { r.inner.push_back({ o.kind, int(p) }); skip(o.kind, w, p, r); } while (o.q == '*' && p < w.size()); } };
		if (k.category == "BitEnum") { for (uint32_t b = 1; b; b <<= 1) if (v & b) params(b); } else params(v);
	}
	Place2 places(const std::vector<spec::Op>& ops, const Words& w, size_t p)
	{
		Place2 r; for (auto& o : ops) { if (p >= w.size()) { r.at.push_back(-1); if (o.q == '1') r.ok = false; continue; } r.at.push_back(int(p)); do skip(o.kind, w, p, r); while (o.q == '*' && p < w.size()); }
		if (p != w.size()) r.ok = false; return r;
	}
	uint32_t wordOf(const Operand& o) { return o.isInstruction() ? (o.instruction ? uint32_t(o.instruction->getResultId()) : 0) : o.isBranchTarget() ? uint32_t(o.branchTarget->getLabel()->getResultId()) : o.isId() ? uint32_t(o.id) : o.literal.value; }
	const Instruction* find(Module& m, unsigned op, const Words& w)
	{
		const Instruction* r = nullptr; auto look = [&](const Instruction& i) { if (unsigned(i.getOperation()) != op || i.size() != w.size()) return; size_t k = 0; bool same = true; for (auto& o : i) if (wordOf(o) != w[k++]) { same = false; break; } if (same) r = &i; };
		for (auto& n : m.getCapabilities()) look(n.value); for (auto& n : m.getExtensions()) look(n.value); for (auto& n : m.getExtInstrImports()) look(n.value); look(m.getMemoryModel()); for (EntryPoint& e : m.getEntryPoints()) look(*e.getEntryPoint());
		for (auto* l : { &m.getExecutionModes(), &m.getSourceStrings(), &m.getNames(), &m.getModulesProcessed(), &m.getDecorations(), &m.getTypesAndConstants(), &m.getGlobalVariables(), &m.getUndefs(), &m.getLines() }) for (auto& i : *l) look(i);
		auto fun = [&](Function& f) { look(*f.getFunction()); for (auto& i : f.getParameters()) look(i); for (BasicBlock& b : f) { look(*b.getLabel()); for (auto& i : b) look(i); } look(*f.getFunctionEnd()); };
		for (Function& f : m.getFunctions()) fun(f); for (EntryPoint& e : m.getEntryPoints()) fun(e); return r;
	}
	void operandQueries(const Instruction& i, const Words& w, const Grammar::Instruction& info, const std::vector<spec::Op>& ops, const Place2& pl, Grammar::Extension ext, const char* what)
	{
		if (info.operands.size() != ops.size()) { mc::outcome("grammar differs from the reference"); return; }
		auto offset = [&](Instruction::Iterator it) -> int { int k = 0; for (auto x = i.begin(); x != i.end(); ++x, ++k) if (x == it) return k; return it == nullptr ? -1 : -2; };
		std::vector<std::string> names; for (auto& o : info.operands) if (o.name) names.push_back(o.name);
		std::set<std::string> ask(names.begin(), names.end()); for (auto& n : names) { ask.insert(n.substr(0, n.size() / 2)); ask.insert(n + "x"); } for (const char* n : { "", "Interface", "Sampled", "Value", "Memory Access", "Memory Operand" }) ask.insert(n);
		for (auto& n : ask)
		{
			int want = -1; for (size_t k = 0; k < ops.size() && want < 0; ++k) { const char* m = info.operands[k].name; if (m && n == m) { want = pl.at[k]; if (want < 0) want = -3; } } if (want == -3) want = -1;
			const int got = offset(GrammarHelper::getOperandByName(&i, grammar(), n.c_str(), ext));
			MC_CHECK(got == want, got >= 0 && want < 0 ? "getOperandByName:absent" : "getOperandByName", "%s: operand '%s' is found at %d, it is at %d", what, n.c_str(), got, want);
		}
		MC_CHECK(GrammarHelper::getOperandByName(&i, grammar(), nullptr, ext) == nullptr, "getOperandByName:null", "%s: an operand without name is found", what);
		std::map<Grammar::OperandKind, std::pair<std::string, int>> first; for (size_t k = 0; k < ops.size(); ++k) if (pl.at[k] >= 0 && !first.count(info.operands[k].kind)) first[info.operands[k].kind] = { ops[k].kind, pl.at[k] };
		for (unsigned k = 0; k <= 60; ++k)
		{
			auto f = first.find(Grammar::OperandKind(k)); const int want = f == first.end() ? -1 : f->second.second, got = offset(GrammarHelper::getFirstOperandOfKind(&i, grammar(), Grammar::OperandKind(k), ext));
			bool ok = got == want; // parameters of enumerants may count as operands
			if (!ok && got >= 0 && (want < 0 || got < want)) for (auto& p : pl.inner) if (p.second == got) ok = true;
			MC_CHECK(ok, got >= 0 && want < 0 ? "getFirstOperandOfKind:absent" : "getFirstOperandOfKind", "%s: the first operand of kind %u is found at %d, it is at %d", what, k, got, want);
		}
	}
}
MC_SCENARIO(operands, 1)
{
	auto& all = instructions(); const spec::Ins& ins = *all[mc::choose(unsigned(all.size()), "instruction")]; auto& vs = variants(ins, mc::thorough()); if (vs.empty()) { mc::outcome("no variants"); return; }
	const unsigned step = 40, chunk = mc::choose(unsigned((vs.size() + step - 1) / step)); mc::op("%s", ins.names[0].c_str());
	for (size_t k = chunk * step; k < std::min(vs.size(), size_t(chunk + 1) * step); ++k)
	{
		const Words mod = module(ins, vs[k]); const Bin b = parse(mod); if (!b.ok) continue; const spv::Op op = spv::Op(ins.op);
		Words w = vs[k]; for (auto& i : b.ins) if (i.op == ins.op && i.w.size() == w.size() + 1 && ins.op == 15) w.assign(i.w.begin() + 1, i.w.end());
		track::Allocator al; Log log; Module m(&al, &log); Reader r(mod); if (!m.read(r, grammar())) { mc::outcome("not read"); continue; } const Instruction* i = find(m, ins.op, w); if (!i) { mc::outcome("instruction not kept as it is"); continue; }
		(void)op; const Grammar::Instruction* info = grammar().getInfo(ins.op); const Place2 pl = places(ins.ops, w, 0); if (pl.ok || ins.op == 12 || ins.op == 52) operandQueries(*i, w, *info, ins.ops, pl, Grammar::Extension::Core, ins.names[0].c_str()); else mc::outcome("operands not modelled");
		if (ins.op == 12)
		{
			const bool gl = w[2] == GLSL; auto& e = spec::g().ext[gl ? 1 : 2].at(w[3]); const auto x = gl ? Grammar::Extension::Glsl : Grammar::Extension::OpenCl; const Place2 ep = places(e.ops, w, 4); const Grammar::Instruction* ei = grammar().getInfo(w[3], x); if (ei && ep.ok) operandQueries(*i, w, *ei, e.ops, ep, x, e.name.c_str());
		}
		else for (auto x : { Grammar::Extension::Glsl, Grammar::Extension::OpenCl }) { MC_CHECK(GrammarHelper::getFirstOperandOfKind(i, grammar(), Grammar::OperandKind::IdRef, x) == nullptr && GrammarHelper::getOperandByName(i, grammar(), "x", x) == nullptr, "operands:extension", "%s is no instruction of an extended set but has operands in it", ins.names[0].c_str()); }
		mc::state(hashWords(w)); mc::checked(); mc::outcome("answered");
	}
}

// ---- many variables with many decorations ----
MC_SCENARIO(many, 1)
{
	static const unsigned SIZES[] = { 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300 }; const unsigned n = SIZES[mc::choose(unsigned(sizeof SIZES / sizeof *SIZES), "number")], kind = mc::choose(4, "kind"); static const char* kinds[] = { "variables with one decoration each", "variables with several decorations", "decorations of one variable", "names and decorations of one struct's members" }; mc::op("%u %s", n, kinds[kind]); track::Allocator al; Log log;
	{
		Module m(&al, &log); m.addCapability(spv::Capability::Shader); m.addCapability(spv::Capability::Linkage); m.setMemoryModel(spv::AddressingModel::Logical, spv::MemoryModel::GLSL450); struct V { Instruction* i; SC sc; std::vector<std::pair<D, unsigned>> decos; }; std::vector<V> vars; unsigned total = 0;
		auto add = [&](V& v, D d, unsigned l) { Instruction* i = m.addDecorationInstr(); i->setOperation(spv::Op::OpDecorate); i->addOperand(v.i); i->addOperand(literal_t(unsigned(d))); if (d != D::RelaxedPrecision && d != D::Flat) i->addOperand(literal_t(l)); v.decos.push_back({ d, l }); ++total; };
		const D more[] = { D::Location, D::Component, D::Index, D::XfbBuffer, D::XfbStride, D::Offset, D::Stream }; const SC classes[] = { SC::Input, SC::Output, SC::Private };
		if (kind < 2) { for (unsigned k = 0; k < n; ++k) { V v{ m.variable<float>(classes[k % 3]), classes[k % 3], {} }; vars.push_back(v); } for (unsigned k = 0; k < n; ++k) { V& v = vars[(k * 7) % n == (k * 7 + n) % n ? n - 1 - k : k]; add(v, D::Location, k % 50); if (kind == 1) { add(v, D::RelaxedPrecision, 0); add(v, D::Component, k % 4); if (k % 2) add(v, D::Index, k); } } vars.push_back({ m.variable<float>(SC::Input), SC::Input, {} }); }
		else if (kind == 2) { vars.push_back({ m.variable<float>(SC::Input), SC::Input, {} }); vars.push_back({ m.variable<float>(SC::Input), SC::Input, {} }); for (unsigned k = 0; k < n; ++k) { if (k % 5 == 4) add(vars[1], more[k % 7], k); add(vars[0], more[k % 7], k + 1000); } }
		else { Type t = m.newType(); t.Struct(); for (unsigned k = 0; k < n; ++k) t.FloatM(); Instruction* s = m.addType(t, "S"); for (unsigned k = 0; k < n; ++k) { m.addMemberName(s, ("m" + std::to_string(k)).c_str(), k); Instruction* i = m.addDecorationInstr(); i->setOperation(spv::Op::OpMemberDecorate); i->addOperand(s); i->addOperand(literal_t(k)); i->addOperand(literal_t(unsigned(D::Offset))); i->addOperand(literal_t(k * 4)); ++total; } vars.push_back({ s, SC::Max, {} }); }
		auto ask = [&](Module& q, const char* when)
		{
			std::map<const Instruction*, SC> want; for (auto& v : vars) if (v.sc != SC::Max) want[v.i] = v.sc; storage(q, want, when); if (q.getDecorations().size() != total) mc::broken("%zu decorations", size_t(q.getDecorations().size()));
			for (auto& v : vars)
			{
				List<Instruction*> l(q.getAllocator()); RH::getDecorations(v.i, l); std::vector<std::pair<D, unsigned>> got; unsigned f = 0, names = 0; RH::getDecorationsFunc(v.i, [&](Instruction*) { ++f; }); RH::getNamesFunc(v.i, [&](Instruction*) { ++names; });
				MC_CHECK(l.size() == (kind == 3 ? n : v.decos.size()) && f == l.size(), "getDecorations:many", "%s: %zu (%u) decorations are returned, %zu are declared", when, size_t(l.size()), f, kind == 3 ? size_t(n) : v.decos.size()); MC_CHECK(names == (kind == 3 ? n + 1 : 0), "getNamesFunc:many", "%s: %u names are returned", when, names); if (kind == 3) { unsigned k = 0; for (Instruction* i : l) { D d = D::Max; unsigned val = 0; MC_CHECK(RH::getSpvDecorationAndLiteralFromDecoration(i, d, val) && d == D::Offset && val == 4 * k, "member-offset", "%s: member %u has offset %u", when, k, val); ++k; } continue; }
				for (Instruction* i : l) { D d = D::Max; unsigned val = 0; MC_CHECK(RH::getSpvDecorationAndLiteralFromDecoration(i, d, val), "decoration:many", "%s: a decoration is not understood", when); got.push_back({ d, val }); } MC_CHECK(got == v.decos, "decorations:many", "%s: the decorations of a variable are others than declared", when);
				for (D d : more) { unsigned first = NONE; for (auto& x : v.decos) if (x.first == d) { first = x.second; break; } const unsigned r = RH::getDecorationLiteralFromTarget(d, v.i); bool any = false; for (auto& x : v.decos) if (x.first == d && x.second == r) any = true; MC_CHECK(first == NONE ? r == NONE : any, "literal:many", "%s: decoration %u of a variable has the literal %u, declared was %u", when, unsigned(d), r, first); }
			}
			for (D d : more) for (unsigned value : { ~0u, 0u, 1u, 3u, 7u, 49u, n - 1, n / 2, n + 999, 1000u })
			{
				const unsigned* p = value == ~0u ? nullptr : &value; std::multiset<const Instruction*> want2, got; for (auto& v : vars) for (auto& x : v.decos) if (x.first == d && (!p || x.second == value)) want2.insert(v.i); if (kind == 3) continue;
				List<const Instruction*> l(q.getAllocator()); RH::getVariablesWithDecoration(q, d, l, p); for (auto* i : l) got.insert(i); std::multiset<const Instruction*> f; RH::getVariablesWithDecorationFunc(q, d, [&](const Instruction* i) { f.insert(i); }, p); MC_CHECK(got == want2 && f == want2, "getVariablesWithDecoration:many", "%s: %zu (%zu) targets with decoration %u%s are returned, declared are %zu", when, got.size(), f.size(), unsigned(d), p ? (" = " + std::to_string(value)).c_str() : "", want2.size());
			}
		};
		ask(m, "as built"); Writer w; if (!m.finalizeAndWrite(w)) mc::broken("the module cannot be written: %s", log.last.c_str()); ask(m, "as written"); mc::state(hashWords(w.words));
		Module r(&al, &log); Reader rd(w.words); if (!r.readAndInit(rd, grammar())) mc::broken("the module cannot be read: %s", log.last.c_str()); for (auto& v : vars) { v.i = r.getInstructionById(v.i->getResultId()); if (!v.i) mc::broken("an instruction is lost by reading"); } ask(r, "as read"); mc::outcome("answered");
	}
	al.expectEmpty("many");
}
