// Modules with many of one thing: the shapes that make a module large, for every number at which a table, a word or
// a buffer might end. Used with the steps of programs.h.
#pragma once
#include "programs.h"

namespace scale
{
	using namespace spvgentwo; using namespace ir; using prog::Ctx;

	inline const std::vector<unsigned>& sizes() { static const std::vector<unsigned> s = { 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025 }; return s; }
	// a branch to a case of its own for every value; what the cases compute is joined
	inline void switchOver(Ctx& c, unsigned n)
	{
		Instruction* fallback = c.m.constant(0.5f); BasicBlock& head = *c.bb; std::vector<BasicBlock*> cases; for (unsigned k = 0; k < n; ++k) cases.push_back(&c.fun->addBasicBlock()); BasicBlock& merge = c.fun->addBasicBlock();
		std::vector<Instruction*> values; for (unsigned k = 0; k < n; ++k) { values.push_back(cases[k]->Add(c.f, c.m.constant(float(k)))); (*cases[k])->opBranch(&merge); }
		head->opSelectionMerge(&merge, spv::SelectionControlMask::MaskNone); Instruction* s = head.addInstruction(); s->setOperation(spv::Op::OpSwitch); s->addOperand(c.i); s->addOperand(&merge); for (unsigned k = 0; k < n; ++k) { s->addOperand(literal_t{ k * 3 }); s->addOperand(cases[k]); }
		Instruction* phi = merge.addInstruction(); phi->setOperation(spv::Op::OpPhi); phi->addOperand(c.m.type<float>()); phi->addOperand(InvalidId); phi->addOperand(fallback); phi->addOperand(&head); for (unsigned k = 0; k < n; ++k) { phi->addOperand(values[k]); phi->addOperand(cases[k]); }
		c.bb = &merge; c.f = phi;
	}
	struct Shape { const char* name; unsigned most; void (*run)(Ctx&, unsigned n); };
	inline const std::vector<Shape>& shapes()
	{
		static const std::vector<Shape> s = {
			{ "instructions", 70000, [](Ctx& c, unsigned n) { BasicBlock& b = *c.bb; Instruction* k = c.m.constant(2.5f); for (unsigned i = 0; i < n; ++i) c.f = i % 2 ? b.Mul(c.f, k) : b.Add(c.f, k); } },
			{ "blocks", 1025, [](Ctx& c, unsigned n) { for (unsigned i = 0; i < n; ++i) { BasicBlock& next = c.fun->addBasicBlock(); (*c.bb)->opBranch(&next); c.bb = &next; c.f = c.bb->Add(c.f, c.f); } } },
			{ "conditions", 300, [](Ctx& c, unsigned n) { for (unsigned i = 0; i < n; ++i) { Instruction* k = c.bb->Less(c.f, c.m.constant(float(i))); c.bb = &c.bb->If(k, [&](BasicBlock& t) { t.Add(c.f, c.f); }); } } },
			{ "nested conditions", 129, [](Ctx& c, unsigned n) { std::vector<BasicBlock*> merges; for (unsigned i = 0; i < n; ++i) { Instruction* k = c.bb->Less(c.f, c.m.constant(float(i))); BasicBlock& t = c.fun->addBasicBlock(); BasicBlock& m = c.fun->addBasicBlock(); (*c.bb)->opSelectionMerge(&m, spv::SelectionControlMask::MaskNone); (*c.bb)->opBranchConditional(k, &t, &m); merges.push_back(&m); c.bb = &t; }
				while (!merges.empty()) { (*c.bb)->opBranch(merges.back()); c.bb = merges.back(); merges.pop_back(); } } },
			{ "functions called one by the next", 257, [](Ctx& c, unsigned n) { Function* last = nullptr; for (unsigned i = 0; i < n; ++i) { Function& h = c.m.addFunction<float, float>((c.name("chain") + "_" + std::to_string(i)).c_str()); BasicBlock& b = *h; Instruction* x = b.Add(h.getParameter(0), c.m.constant(float(i))); if (last) x = b->call(last, x); b.returnValue(x); last = &h; }
				c.f = (*c.bb)->call(last, c.f); } },
			{ "functions called by the entry point", 300, [](Ctx& c, unsigned n) { for (unsigned i = 0; i < n; ++i) { Function& h = c.m.addFunction<float, float>((c.name("leaf") + "_" + std::to_string(i)).c_str()); BasicBlock& b = *h; b.returnValue(h.getParameter(0)); c.f = (*c.bb)->call(&h, c.f); } } },
			{ "global variables", 1025, [](Ctx& c, unsigned n) { for (unsigned i = 0; i < n; ++i) { Instruction* v = c.m.variable<float>(i % 3 ? spv::StorageClass::Private : spv::StorageClass::Input, (c.name("global") + "_" + std::to_string(i)).c_str()); if (i % 3 == 0) c.m.addDecorationInstr()->opDecorate(v, spv::Decoration::Location, i); Instruction* x = (*c.bb)->opLoad(v); c.f = c.bb->Add(c.f, x); } } },
			{ "global variables used by functions", 200, [](Ctx& c, unsigned n) { Function* last = nullptr; for (unsigned i = 0; i < n; ++i) { Instruction* v = c.m.variable<float>(i % 2 ? spv::StorageClass::Private : spv::StorageClass::Output); Function& h = c.m.addFunction<void>((c.name("user") + "_" + std::to_string(i)).c_str()); BasicBlock& b = *h; Instruction* k = c.m.constant(float(i)); b->opStore(v, k); if (last) b->call(last); b.returnValue(); last = &h; }
				(*c.bb)->call(last); } },
			{ "local variables", 1025, [](Ctx& c, unsigned n) { for (unsigned i = 0; i < n; ++i) { Instruction* v = i % 2 ? c.fun->variable<float>() : c.fun->variable(float(i), (c.name("local") + "_" + std::to_string(i)).c_str()); Instruction* x = (*c.bb)->opLoad(v); c.f = c.bb->Add(c.f, x); } } },
			{ "parameters", 255, [](Ctx& c, unsigned n) { Function& h = c.m.addFunction(); h.setReturnType(c.m.type<float>()); for (unsigned i = 0; i < n; ++i) h.addParameters(c.m.type<float>()); h.finalize(spv::FunctionControlMask::MaskNone, c.name("wide").c_str()); BasicBlock& b = h.addBasicBlock(); Instruction* x = h.getParameter(0); x = b.Add(x, h.getParameter(n - 1)); b.returnValue(x);
				Instruction* call = c.bb->addInstruction(); call->setOperation(spv::Op::OpFunctionCall); call->addOperand(c.m.type<float>()); call->addOperand(InvalidId); call->addOperand(h.getFunction()); for (unsigned i = 0; i < n; ++i) call->addOperand(c.f); c.f = call; } },
			{ "members", 1025, [](Ctx& c, unsigned n) { Type t = c.m.newType(); t.Struct(); for (unsigned i = 0; i < n; ++i) { if (i % 2) t.IntM(); else t.FloatM(); } Instruction* ti = c.m.addType(t, c.name("Large").c_str()); for (unsigned i = 0; i < n; ++i) c.m.addMemberName(ti, (c.name("m") + "_" + std::to_string(i)).c_str(), i);
				Instruction* v = c.m.variable(t, spv::StorageClass::Private, c.name("large").c_str()); const unsigned at = (n - 1) / 2 * 2; Instruction* p = (*c.bb)->opAccessChain(v, at); c.f = (*c.bb)->opLoad(p); } },
			{ "constituents", 1025, [](Ctx& c, unsigned n) { Type t = c.m.newType(); t.ArrayElement(n).Float(); Constant k = c.m.newConstant(); k.getType() = t; k.setOperation(spv::Op::OpConstantComposite); for (unsigned i = 0; i < n; ++i) k.Component().make(float(i)); Instruction* ki = c.m.addConstant(k); Instruction* x = (*c.bb)->opCompositeExtract(ki, n - 1); c.f = c.bb->Add(c.f, x); } },
			{ "constants", 1025, [](Ctx& c, unsigned n) { for (unsigned i = 0; i < n; ++i) { if (i % 2) c.i = c.bb->Add(c.i, c.m.constant(int(i))); else c.f = c.bb->Add(c.f, c.m.constant(float(i) + 0.25f)); } } },
			{ "types", 513, [](Ctx& c, unsigned n) { for (unsigned i = 0; i < n; ++i) { Type t = c.m.newType(); t.ArrayElement(i + 1 + c.n).Float(); Instruction* v = c.m.variable(t, spv::StorageClass::Private); Instruction* p = (*c.bb)->opAccessChain(v, i); c.f = (*c.bb)->opLoad(p); } } },
			{ "nested types", 200, [](Ctx& c, unsigned n) { Type t = c.m.newType(); t.Float(); for (unsigned i = 0; i < n; ++i) { Type o = c.m.newType(); o.Struct(); o.Member(&t); t = o; } Instruction* v = c.m.variable(t, spv::StorageClass::Private, c.name("deep").c_str()); HeapAllocator a; List<unsigned> idx(&a); for (unsigned i = 0; i < n; ++i) idx.emplace_back(0u); Instruction* p = (*c.bb)->opAccessChain(v, idx); c.f = (*c.bb)->opLoad(p); } },
			{ "long names", 200000, [](Ctx& c, unsigned n) { std::string s(n, 'n'); for (unsigned i = 0; i < n; ++i) s[i] = char('a' + i * 7 % 26); s += c.name("_"); Instruction* v = c.m.variable<float>(spv::StorageClass::Private, s.c_str()); c.f = (*c.bb)->opLoad(v); Instruction* f = c.m.addSourceStringInstr()->opString(s.c_str()); c.m.addSourceStringInstr()->opSource(spv::SourceLanguage::GLSL, 450u, f, s.c_str()); } },
			{ "entry points", 129, [](Ctx& c, unsigned n) { for (unsigned i = 0; i < n; ++i) { Instruction* v = c.m.variable<float>(spv::StorageClass::Input); c.f = (*c.bb)->opLoad(v); prog::finish(c); prog::newEntry(c, i % 2 ? spv::ExecutionModel::GLCompute : spv::ExecutionModel::Vertex); } } },
			{ "cases", 1025, [](Ctx& c, unsigned n) { switchOver(c, n); } },
			{ "undefined values", 1025, [](Ctx& c, unsigned n) { for (unsigned i = 0; i < n; ++i) { Instruction* u = c.m.addUndefInstr()->opUndef(c.m.type<float>()); c.f = c.bb->Add(c.f, u); } } },
			{ "lines and strings", 1025, [](Ctx& c, unsigned n) { for (unsigned i = 0; i < n; ++i) { Instruction* s = c.m.addSourceStringInstr()->opString((c.name("file") + std::to_string(i)).c_str()); (*c.bb)->opLine(s, i, n - i); c.f = c.bb->Add(c.f, c.f); } } },
			{ "specialization constants", 1025, [](Ctx& c, unsigned n) { for (unsigned i = 0; i < n; ++i) { Instruction* s = c.m.specConstant(int(i), (c.name("spec") + "_" + std::to_string(i)).c_str()); c.m.addDecorationInstr()->opDecorate(s, spv::Decoration::SpecId, i + c.n * 2000); c.i = c.bb->Add(c.i, s); } } },
			{ "imported functions", 300, [](Ctx& c, unsigned n) { for (unsigned i = 0; i < n; ++i) { const std::string nm = c.name("imp") + "_" + std::to_string(i); Function& h = c.m.addFunction<float, float>(nm.c_str(), spv::FunctionControlMask::Const, false); LinkerHelper::addLinkageDecoration(h.getFunction(), spv::LinkageType::Import, ("@" + nm).c_str()); c.f = (*c.bb)->call(&h, c.f); } } },
			{ "extensions", 300, [](Ctx& c, unsigned n) { for (unsigned i = 0; i < n; ++i) { c.m.addExtensionInstructionImport(("NonSemantic." + c.name("set") + std::to_string(i)).c_str()); } c.m.addExtension("SPV_KHR_non_semantic_info"); } },
			{ "locals loaded and stored", 300, [](Ctx& c, unsigned n) { Instruction* v = c.fun->variable<float>(); for (unsigned i = 0; i < n; ++i) { (*c.bb)->opStore(v, c.f); c.f = (*c.bb)->opLoad(v); } } },
		};
		return s;
	}
	// chooses a shape and a size
	struct Pick { const Shape* shape; unsigned n, index; };
	inline Pick choose(unsigned stride = 1, unsigned limit = 5000)
	{
		const unsigned k = mc::choose(unsigned(shapes().size()), "shape"); const Shape& s = shapes()[k]; std::vector<unsigned> l; unsigned at = k; for (unsigned n : sizes()) if (n <= s.most && at++ % stride == 0) l.push_back(n);
		const unsigned most = s.most < limit ? s.most : limit; if (l.back() != most) l.push_back(most); 
		const unsigned n = l[mc::choose(unsigned(l.size()), "number")]; mc::op("%u %s", n, s.name); return { &s, n, k };
	}
}
