// Programs written against the builder API, as sequences of steps. Every step is documented use of the API that the
// library has to accept and whose result is a valid module, whatever steps came before.
#pragma once
#include "ir.h"
#include "spvgentwo/Templates.h"
#include "spvgentwo/Operators.h"
#include "spvgentwo/TypeAlias.h"
#include "spvgentwo/GLSL450Instruction.h"
#include "common/LinkerHelper.h"

namespace prog
{
	using namespace spvgentwo; using namespace ir;

	struct Ctx
	{
		Module& m; EntryPoint* ep = nullptr; Function* fun = nullptr; BasicBlock* bb = nullptr; // where code goes
		Instruction *f = nullptr, *i = nullptr, *v = nullptr; // float, int and vec4 values available in bb
		std::vector<Function*> helpers; unsigned n = 0, entries = 0; bool inHelper = false;
		explicit Ctx(Module& x) : m(x) {}
		std::string name(const char* p) { return std::string(p) + std::to_string(n); }
		void values() { f = m.constant(1.5f); i = m.constant(3); v = m.constant(make_vector(1.f, 2.f, 3.f, 4.f)); }
	};
	inline void newEntry(Ctx& c, spv::ExecutionModel model)
	{
		EntryPoint& e = c.m.addEntryPoint(model, c.entries ? ("main" + std::to_string(c.entries)).c_str() : "main"); ++c.entries;
		if (model == spv::ExecutionModel::Fragment) e.addExecutionMode(spv::ExecutionMode::OriginUpperLeft);
		if (model == spv::ExecutionModel::GLCompute) e.addExecutionMode(spv::ExecutionMode::LocalSize, 8u, 4u, 2u);
		c.ep = &e; c.fun = &e; c.bb = &*e; c.values();
	}
	inline void start(Ctx& c, spv::ExecutionModel model = spv::ExecutionModel::Fragment)
	{
		c.m.addCapability(spv::Capability::Shader); c.m.addCapability(spv::Capability::Linkage); c.m.setMemoryModel(spv::AddressingModel::Logical, spv::MemoryModel::GLSL450); newEntry(c, model);
	}
	inline void finish(Ctx& c) { c.bb->returnValue(); }

	struct Step { const char* name; void (*run)(Ctx&); };
	inline const std::vector<Step>& steps()
	{
		static const std::vector<Step> s = {
			{ "float arithmetic", [](Ctx& c) { BasicBlock& b = *c.bb; Instruction* x = b.Add(c.f, c.m.constant(2.5f)); x = b.Mul(x, c.f); x = b.Sub(x, c.f); c.f = b.Div(x, c.m.constant(3.f)); c.f = b->opFNegate(c.f); } },
			{ "integer arithmetic", [](Ctx& c) { BasicBlock& b = *c.bb; Instruction* x = b.Add(c.i, c.m.constant(7)); x = b.Div(x, c.i); c.i = b->opBitwiseAnd(x, c.m.constant(255)); c.i = b->opNot(c.i); } },
			{ "vector arithmetic", [](Ctx& c) { BasicBlock& b = *c.bb; Instruction* x = b.Add(c.v, c.v); x = b.Mul(x, c.f); c.v = x; c.f = b->opDot(c.v, x); } },
			{ "constants", [](Ctx& c) { c.m.constant(make_vector(1, 2, int(c.n))); c.m.constant(make_array(1.f, 2.f)); c.m.constant(true); c.m.constant(c.n); c.m.constant(make_matrix(make_vector(1.f, 0.f), make_vector(0.f, 1.f))); c.i = c.bb->Add(c.i, c.m.constant(int(c.n))); } },
			{ "spec constant", [](Ctx& c) { Instruction* s = c.m.specConstant(int(c.n), c.name("spec").c_str()); c.m.addDecorationInstr()->opDecorate(s, spv::Decoration::SpecId, c.n); c.i = c.bb->Add(c.i, s); } },
			{ "input", [](Ctx& c) { Instruction* x = c.m.input<glsl::vec4>(c.name("in").c_str()); c.m.addDecorationInstr()->opDecorate(x, spv::Decoration::Location, c.n); c.v = (*c.bb)->opLoad(x); } },
			{ "output", [](Ctx& c) { Instruction* x = c.m.output<glsl::vec4>(c.name("out").c_str()); c.m.addDecorationInstr()->opDecorate(x, spv::Decoration::Location, c.n); (*c.bb)->opStore(x, c.v); } },
			{ "uniform block", [](Ctx& c) {
				Type t = c.m.newType(); t.Struct(); t.FloatM(); t.Member().VectorElement(4).Float(); t.IntM(); Instruction* ti = c.m.addType(t, "Block"); Instruction* u = c.m.uniform(t, c.name("block").c_str());
				if (c.m.getName(ti, 0) == nullptr) { c.m.addMemberName(ti, "a", 0); c.m.addMemberName(ti, "b", 1); c.m.addDecorationInstr()->opMemberDecorate(ti, 0, spv::Decoration::Offset, 0u); c.m.addDecorationInstr()->opMemberDecorate(ti, 1, spv::Decoration::Offset, 16u); c.m.addDecorationInstr()->opMemberDecorate(ti, 2, spv::Decoration::Offset, 32u); }
				c.m.addDecorationInstr()->opDecorate(u, spv::Decoration::DescriptorSet, 0u); c.m.addDecorationInstr()->opDecorate(u, spv::Decoration::Binding, c.n);
				BasicBlock& b = *c.bb; Instruction* p = b->opAccessChain(u, 1u); c.v = b->opLoad(p); p = b->opAccessChain(u, 1u, 2u); c.f = b->opLoad(p); p = b->opAccessChain(u, 2u); c.i = b->opLoad(p); } },
			{ "local variable", [](Ctx& c) { Instruction* x = c.fun->variable<float>(c.name("local").c_str()); (*c.bb)->opStore(x, c.f); c.f = (*c.bb)->opLoad(x); Instruction* y = c.fun->variable(42); c.i = (*c.bb)->opLoad(y); } },
			{ "private variable", [](Ctx& c) { Instruction* x = c.m.variable<glsl::vec4>(spv::StorageClass::Private, c.name("priv").c_str(), c.m.constant(make_vector(1.f, 2.f, 3.f, 4.f))); Instruction* p = (*c.bb)->opAccessChain(x, 2u); c.f = (*c.bb)->opLoad(p); } },
			{ "helper function", [](Ctx& c) {
				Function& h = c.m.addFunction<float, float, int>(c.name("helper").c_str()); BasicBlock& b = *h; Instruction* x = b.Mul(h.getParameter(0), h.getParameter(0)); b->opConvertSToF(h.getParameter(1)); b.returnValue(x);
				c.helpers.push_back(&h); c.f = (*c.bb)->call(&h, c.f, c.i); } },
			{ "call again", [](Ctx& c) { if (!c.helpers.empty()) c.f = (*c.bb)->call(c.helpers.front(), c.f, c.i); } },
			{ "if", [](Ctx& c) { BasicBlock& b = *c.bb; Instruction* cond = b.Less(c.f, c.m.constant(0.5f)); c.bb = &b.If(cond, [&](BasicBlock& t) { t.Add(c.f, c.f); }); } },
			{ "if else with phi", [](Ctx& c) { BasicBlock& b = *c.bb; Instruction* cond = b.Greater(c.i, c.m.constant(0)); Instruction *x = nullptr, *y = nullptr; BasicBlock& mg = b.If(cond, [&](BasicBlock& t) { x = t.Add(c.f, c.f); }, [&](BasicBlock& e) { y = e.Mul(c.f, c.f); }); c.bb = &mg; c.f = mg->opPhi(x, y); } },
			{ "if returning", [](Ctx& c) { BasicBlock& b = *c.bb; Instruction* cond = b.Equal(c.i, c.m.constant(int(c.n))); c.bb = &b.If(cond, [&](BasicBlock& t) { t.returnValue(); }); } },
			{ "loop", [](Ctx& c) {
				Instruction* var = c.fun->variable(0, c.name("it").c_str()); Instruction* sum = c.fun->variable<float>(c.name("sum").c_str()); (*c.bb)->opStore(sum, c.f);
				c.bb = &c.bb->Loop([&](BasicBlock& k) -> Instruction* { Instruction* x = k->opLoad(var); return k.Less(x, c.m.constant(10)); },
					[&](BasicBlock& k) { Instruction* x = k->opLoad(var); x = k.Add(x, c.m.constant(1)); k->opStore(var, x); }, [&](BasicBlock& k) { Instruction* x = k->opLoad(sum); x = k.Add(x, x); k->opStore(sum, x); });
				c.f = (*c.bb)->opLoad(sum); } },
			{ "extended instruction", [](Ctx& c) { c.f = c.bb->glsl()->opSqrt(c.f); c.v = c.bb->glsl()->opNormalize(c.v); } },
			{ "names and lines", [](Ctx& c) { Instruction* s = c.m.addSourceStringInstr()->opString(c.name("file.frag").c_str()); c.m.addSourceStringInstr()->opSource(spv::SourceLanguage::GLSL, 450u, s, "void main(){}"); c.m.addSourceStringInstr()->opSourceExtension("GL_x"); (*c.bb)->opLine(s, 3, 4); c.f = c.bb->Add(c.f, c.f); c.m.addName(c.f, c.name("value").c_str()); (*c.bb)->opNoLine(); } },
			{ "imported function", [](Ctx& c) { Function& h = c.m.addFunction<float, float>(c.name("imported").c_str(), spv::FunctionControlMask::Const, false); LinkerHelper::addLinkageDecoration(h.getFunction(), spv::LinkageType::Import, c.name("@f").c_str()); c.f = (*c.bb)->call(&h, c.f); } },
			{ "exported function", [](Ctx& c) { Function& h = c.m.addFunction<int, int>(c.name("exported").c_str()); LinkerHelper::addLinkageDecoration(h.getFunction(), spv::LinkageType::Export, c.name("@e").c_str()); BasicBlock& b = *h; b.returnValue(b.Add(h.getParameter(0), h.getParameter(0))); } },
			{ "entry point", [](Ctx& c) { finish(c); newEntry(c, c.entries % 2 ? spv::ExecutionModel::GLCompute : spv::ExecutionModel::Vertex); } },
			{ "sampled image", [](Ctx& c) { dyn_sampled_image_t d{}; d.imageType.depth = 0; d.imageType.samplerAccess = SamplerImageAccess::Sampled; Instruction* t = c.m.uniformConstant(c.name("tex").c_str(), d); Instruction* img = (*c.bb)->opLoad(t); Instruction* uv = (*c.bb)->opVectorShuffle(c.v, c.v, 0u, 1u); c.v = (*c.bb)->opImageSampleExplicitLodLevel(img, uv, c.f); } },
			{ "storage buffer", [](Ctx& c) {
				c.m.ensureSpvVersion(1, 3); Type t = c.m.newType(); t.Struct(); t.UIntM(); t.Member().RuntimeArrayElement().Float(); Instruction* u = c.m.storageBuffer(t, c.name("buf").c_str()); Instruction* ti = c.m.getTypeInstr(t);
				if (c.m.getName(ti) == nullptr) { c.m.addName(ti, "Buf"); c.m.addDecorationInstr()->opDecorate(ti, spv::Decoration::Block); c.m.addDecorationInstr()->opMemberDecorate(ti, 0, spv::Decoration::Offset, 0u); c.m.addDecorationInstr()->opMemberDecorate(ti, 1, spv::Decoration::Offset, 16u); c.m.addDecorationInstr()->opDecorate(c.m.getTypeInstr(t.getSubTypes().back()), spv::Decoration::ArrayStride, 4u); }
				BasicBlock& b = *c.bb; b->opArrayLength(u, 1u); Instruction* p = b->opAccessChain(u, 1u, 5u); b->opStore(p, c.f); c.f = b->opLoad(p); } },
			{ "composites", [](Ctx& c) { BasicBlock& b = *c.bb; Instruction* x = b->opCompositeExtract(c.v, 1u); c.v = b->opCompositeInsert(c.v, x, 2u); c.v = b->opCompositeConstruct(c.m.type<glsl::vec4>(), x, x, c.f, x); c.f = b->opVectorExtractDynamic(c.v, c.m.constant(1u)); c.v = b->opVectorInsertDynamic(c.v, c.f, c.i); } },
			{ "matrix", [](Ctx& c) { Instruction* x = c.m.variable<glsl::mat4>(spv::StorageClass::Private, c.name("mat").c_str()); BasicBlock& b = *c.bb; Instruction* k = b->opLoad(x); k = b.Mul(k, k); c.v = b.Mul(k, c.v); k = b->opTranspose(k); b->opOuterProduct(c.v, c.v); } },
			{ "select and compare", [](Ctx& c) { BasicBlock& b = *c.bb; Instruction* k = b.LessEqual(c.f, c.m.constant(4.f)); c.f = b->opSelect(k, c.f, c.m.constant(1.f)); k = b->opLogicalNot(k); k = b->opLogicalAnd(k, k); c.i = b->opSelect(k, c.i, c.m.constant(1)); } },
			{ "conversions", [](Ctx& c) { BasicBlock& b = *c.bb; c.i = b->opConvertFToS(c.f); c.f = b->opConvertSToF(c.i); c.i = b->bitcast<int>(c.f); } },
			{ "undef and copy", [](Ctx& c) { Instruction* u = c.m.addUndefInstr()->opUndef(c.m.type<float>()); c.f = c.bb->Add(c.f, u); c.v = (*c.bb)->opCopyObject(c.v); } },
			{ "version 1.4", [](Ctx& c) { c.m.ensureSpvVersion(1, 4); } },
			{ "version 1.6", [](Ctx& c) { c.m.ensureSpvVersion(1, 6); } },
			{ "double and 64-bit", [](Ctx& c) { c.m.addCapability(spv::Capability::Float64, true); c.m.addCapability(spv::Capability::Int64); BasicBlock& b = *c.bb; Instruction* d = b->opFConvert(c.f, 64u); d = b.Add(d, c.m.constant(1.25)); c.f = b->opFConvert(d, 32u); Instruction* l = b->opSConvert(c.i, 64u); l = b.Mul(l, c.m.constant(0x123456789ll)); c.i = b->opSConvert(l, 32u); } },
			{ "module processed", [](Ctx& c) { c.m.ensureSpvVersion(1, 1); Instruction* p = c.m.addModuleProccessedInstr(); p->setOperation(spv::Op::OpModuleProcessed); p->appendLiterals(c.name("pass").c_str()); Instruction* s = c.m.addSourceStringInstr()->opString(c.name("unit.cl").c_str()); c.m.addLineInstr()->opLine(s, 1, c.n); c.m.addLineInstr()->opNoLine(); } },
			{ "extensions", [](Ctx& c) { (void)c; c.m.addExtension("SPV_KHR_vulkan_memory_model"); c.m.addExtension(spv::Extension::SPV_KHR_variable_pointers); c.m.addExtensionInstructionImport("OpenCL.std"); } },
			{ "pointer comparison", [](Ctx& c) { c.m.addCapability(spv::Capability::VariablePointersStorageBuffer); c.m.addExtension(spv::Extension::SPV_KHR_variable_pointers); Type t = c.m.newType(); t.Struct(); t.UIntM(); t.UIntM(); Instruction* a = c.m.storageBuffer(t, c.name("pa").c_str()); Instruction* ti = c.m.getTypeInstr(t);
				if (c.m.getName(ti) == nullptr) { c.m.addName(ti, "Pair"); c.m.addDecorationInstr()->opDecorate(ti, spv::Decoration::Block); c.m.addDecorationInstr()->opMemberDecorate(ti, 0, spv::Decoration::Offset, 0u); c.m.addDecorationInstr()->opMemberDecorate(ti, 1, spv::Decoration::Offset, 4u); }
				c.m.addExtension(spv::Extension::SPV_KHR_storage_buffer_storage_class); BasicBlock& b = *c.bb; Instruction* p = b->opAccessChain(a, 0u); Instruction* q = b->opAccessChain(a, 1u); Instruction* e = b->opPtrEqual(p, q); c.f = b->opSelect(e, c.f, c.m.constant(0.f)); b->opPtrNotEqual(p, q); } },
			{ "copy memory", [](Ctx& c) { Instruction* x = c.m.input<glsl::vec4>(c.name("src").c_str()); Instruction* y = c.m.output<glsl::vec4>(c.name("dst").c_str()); (*c.bb)->opCopyMemory(y, x); } },
			{ "helper using globals", [](Ctx& c) { Instruction* x = c.m.input<float>(c.name("gin").c_str()); Instruction* y = c.m.output<float>(c.name("gout").c_str()); Function& inner = c.m.addFunction<float>(c.name("inner").c_str()); Instruction* l = (*inner)->opLoad(x); (*inner)->opStore(y, l); (*inner).returnValue(l); Function& outer = c.m.addFunction<float>(c.name("outer").c_str()); Instruction* r = (*outer)->call(&inner); (*outer).returnValue(r); c.f = (*c.bb)->call(&outer); } },
			{ "function built by hand", [](Ctx& c) { Function& h = c.m.addFunction(); h.setReturnType(c.m.type<int>()); h.addParameters(c.m.type<float>(), c.m.type<int>()); h.finalize(spv::FunctionControlMask::Inline, c.name("hand").c_str()); BasicBlock& b = h.addBasicBlock(); b.returnValue(b.Add(h.getParameter(1), c.m.constant(9))); c.i = (*c.bb)->call(&h, c.f, c.i); } },
			{ "entry point built by hand", [](Ctx& c) { finish(c); EntryPoint& e = c.m.addEntryPoint(); e.finalize(spv::ExecutionModel::GLCompute, spv::FunctionControlMask::MaskNone, ("hand" + std::to_string(c.entries)).c_str()); ++c.entries; e.addExecutionMode(spv::ExecutionMode::LocalSize, 1u, 1u, 1u); c.ep = &e; c.fun = &e; c.bb = &e.addBasicBlock("top"); c.values(); } },
			{ "nested control flow", [](Ctx& c) { BasicBlock& b = *c.bb; Instruction* k = b.NotEqual(c.i, c.m.constant(2)); Instruction* var = c.fun->variable(0); BasicBlock& join = c.fun->addBasicBlock(c.name("join").c_str()); c.bb = &b.If(k, [&](BasicBlock& t) {
				BasicBlock& m = t.Loop([&](BasicBlock& k2) -> Instruction* { Instruction* x = k2->opLoad(var); return k2.Less(x, c.m.constant(3)); }, [&](BasicBlock& k2) { Instruction* x = k2->opLoad(var); x = k2.Add(x, c.m.constant(1)); k2->opStore(var, x); }, [&](BasicBlock& k2) { k2->opStore(var, c.i); });
				m->opBranch(&join); }, &join); } },
			{ "arrays", [](Ctx& c) { using A = array_t<array_t<float, 4>, 3>; Instruction* x = c.fun->variable<A>(c.name("arr").c_str()); BasicBlock& b = *c.bb; Instruction* p = b->opAccessChain(x, 2u, 1u); b->opStore(p, c.f); c.f = b->opLoad(p); Instruction* whole = b->opLoad(x); c.f = b->opCompositeExtract(whole, 1u, 2u); } },
			{ "small types", [](Ctx& c) { c.m.addCapability(spv::Capability::Float16); c.m.addCapability(spv::Capability::Int16); c.m.addCapability(spv::Capability::Int8); BasicBlock& b = *c.bb; Instruction* h = b->opFConvert(c.f, 16u); h = b.Add(h, h); c.f = b->opFConvert(h, 32u); Instruction* s = b->opSConvert(c.i, 16u); s = b.Add(s, c.m.constant(short(-3))); c.i = b->opSConvert(s, 32u); s = b->opSConvert(c.i, 8u); s = b.Add(s, c.m.constant(char(5))); c.i = b->opSConvert(s, 32u); } },
			{ "separate image and sampler", [](Ctx& c) { dyn_image_t d{}; d.depth = 0; d.samplerAccess = SamplerImageAccess::Sampled; Instruction* t = c.m.uniformConstant(c.name("img").c_str(), d); Instruction* s = c.m.uniformConstant<sampler_t>(c.name("smp").c_str()); BasicBlock& b = *c.bb; Instruction* img = b->opLoad(t); Instruction* smp = b->opLoad(s); Instruction* si = b->opSampledImage(img, smp); Instruction* uv = b->opVectorShuffle(c.v, c.v, 0u, 1u); c.v = b->opImageSampleExplicitLodLevel(si, uv, c.m.constant(0.f)); } },
			{ "specialization expression", [](Ctx& c) { Instruction* s = c.m.specConstant(5u, c.name("len").c_str()); Instruction* one = c.m.constant(1u); Instruction* e = c.m.addConstantInstr()->opSpecConstantOp(c.m.type<unsigned int>(), spv::Op::OpIAdd, s, one); c.m.addName(e, c.name("expr").c_str()); Instruction* t = c.m.specConstant(true); c.f = (*c.bb)->opSelect(t, c.f, c.m.constant(2.f)); c.i = (*c.bb)->bitcast<int>(e); } },
			{ "member names", [](Ctx& c) { Type t = c.m.newType(); t.Struct(); t.FloatM(); t.IntM(); for (unsigned k = 0; k < c.n; ++k) t.FloatM(); Instruction* ti = c.m.addType(t, c.name("S").c_str()); c.m.addMemberName(ti, "first", 0); c.m.addMemberName(ti, "second", 1); Instruction* x = c.m.variable(t, spv::StorageClass::Private, c.name("s").c_str()); Instruction* p = (*c.bb)->opAccessChain(x, 1u); c.i = (*c.bb)->opLoad(p); } },
			{ "null and composite constants", [](Ctx& c) { Instruction* k = c.m.specConstant(make_vector(1.f, 2.f, 3.f, 4.f), c.name("sv").c_str()); c.v = c.bb->Add(c.v, k); c.v = c.bb->Mul(c.v, c.m.constant(make_vector(0.f, -0.f, 1.f, 2.f))); c.m.constant(const_null_t<int>{}); c.m.constant(make_array(make_vector(1, 2), make_vector(3, 4))); } },
			{ "geometry entry point", [](Ctx& c) {
				finish(c); c.m.addCapability(spv::Capability::Geometry); EntryPoint& e = c.m.addEntryPoint(spv::ExecutionModel::Geometry, ("geo" + std::to_string(c.entries)).c_str()); ++c.entries;
				e.addExecutionMode(spv::ExecutionMode::Triangles); e.addExecutionMode(spv::ExecutionMode::Invocations, 1u); e.addExecutionMode(spv::ExecutionMode::OutputTriangleStrip); e.addExecutionMode(spv::ExecutionMode::OutputVertices, 3u);
				c.ep = &e; c.fun = &e; c.bb = &*e; c.values(); (*c.bb)->opEmitVertex(); (*c.bb)->opEndPrimitive(); } },
			{ "local size ids", [](Ctx& c) {
				finish(c); c.m.ensureSpvVersion(1, 2); Instruction *x = c.m.constant(8u), *y = c.m.specConstant(4u, c.name("size").c_str()); EntryPoint& e = c.m.addEntryPoint(spv::ExecutionModel::GLCompute, ("ids" + std::to_string(c.entries)).c_str()); ++c.entries;
				e.addExecutionMode(spv::ExecutionMode::LocalSizeId, x, y, x); c.ep = &e; c.fun = &e; c.bb = &*e; c.values(); } },
			{ "source in parts", [](Ctx& c) { c.m.addSourceStringInstr()->opSource(spv::SourceLanguage::HLSL, 600u, nullptr, nullptr); Instruction* file = c.m.addSourceStringInstr()->opString(c.name("part.frag").c_str()); c.m.addSourceStringInstr()->opSource(spv::SourceLanguage::GLSL, 460u, file, "void main"); c.m.addSourceStringInstr()->opSourceContinued("() {}"); c.f = c.bb->Add(c.f, c.f); } },
		};
		return s;
	}
	// the steps that change the structure of a module, used where the full list is too long
	inline const std::vector<unsigned>& core()
	{
		static std::vector<unsigned> v; if (v.empty()) for (const char* n : { "constants", "spec constant", "input", "output", "uniform block", "local variable", "helper function", "if else with phi", "if returning", "loop", "extended instruction", "names and lines", "imported function", "entry point", "sampled image", "undef and copy", "version 1.4", "pointer comparison", "helper using globals", "function built by hand", "entry point built by hand", "specialization expression" })
		{ bool f = false; for (unsigned i = 0; i < steps().size(); ++i) if (!strcmp(steps()[i].name, n)) { v.push_back(i); f = true; } if (!f) mc::broken("no step %s", n); }
		return v;
	}
	// the program a number stands for: steps in the order of their digits
	inline void build(Module& m, const std::vector<unsigned>& seq, bool end = true) { Ctx c(m); start(c); for (unsigned s : seq) { ++c.n; steps()[s].run(c); } if (end) finish(c); }
}
