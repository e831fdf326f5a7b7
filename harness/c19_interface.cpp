// C19: entry points list exactly the global variables their call tree uses.
#include "programs.h"
#include <functional>
using namespace spvgentwo;
using namespace ir;

namespace
{
	using SC = spv::StorageClass;
	const SC CLASSES[] = { SC::Input, SC::Output, SC::Private, SC::Uniform, SC::StorageBuffer, SC::PushConstant, SC::Workgroup, SC::UniformConstant, SC::Image, SC::CrossWorkgroup, SC::AtomicCounter };
	struct M
	{
		Module m; std::vector<EntryPoint*> eps; std::vector<Function*> fs; std::vector<Instruction*> vars; std::vector<SC> cls; // fs: entry points first
		std::vector<std::vector<unsigned>> calls, uses; // the model, per function
		M(IAllocator* a, ILogger* l) : m(a, l) { m.addCapability(spv::Capability::Shader); m.addCapability(spv::Capability::Linkage); }
		unsigned entry(bool byHand, const char* name, spv::ExecutionModel x = spv::ExecutionModel::Fragment)
		{
			EntryPoint* e; if (byHand) { e = &m.addEntryPoint(); e->finalize(x, spv::FunctionControlMask::MaskNone, name); e->addBasicBlock(); } else e = &m.addEntryPoint(x, name);
			MC_CHECK(e->getExecutionModel() == x, "execution-model", "an entry point %s reports execution model %u", byHand ? "finalized by hand" : "created with its signature", unsigned(e->getExecutionModel())); eps.push_back(e); fs.push_back(e); calls.push_back({}); uses.push_back({}); return unsigned(fs.size() - 1);
		}
		unsigned helper() { Function& f = m.addFunction<void>(); fs.push_back(&f); calls.push_back({}); uses.push_back({}); return unsigned(fs.size() - 1); }
		unsigned var(SC s) { vars.push_back(m.variable<glsl::vec4>(s)); cls.push_back(s); return unsigned(vars.size() - 1); }
		Instruction* raw(BasicBlock& b, spv::Op op, std::vector<Operand> ops) { Instruction* i = b.addInstruction(); i->setOperation(op); for (auto& o : ops) i->addOperand(o); return i; }
		void call(unsigned f, unsigned g, BasicBlock* b = nullptr) { if (!b) b = &fs[f]->back(); (*b)->call(fs[g]); calls[f].push_back(g); }
		void use(unsigned f, unsigned v, BasicBlock* b = nullptr) { if (!b) b = &fs[f]->back(); (*b)->opLoad(vars[v]); uses[f].push_back(v); }
		std::set<unsigned> expected(unsigned e, bool v14) const
		{
			std::set<unsigned> seen{ e }, r; std::vector<unsigned> todo{ e }; while (!todo.empty()) { unsigned f = todo.back(); todo.pop_back(); for (unsigned v : uses[f]) if (v14 || cls[v] == SC::Input || cls[v] == SC::Output) r.insert(v); for (unsigned g : calls[f]) if (seen.insert(g).second) todo.push_back(g); } return r;
		}
		void check(const char* what)
		{
			const bool v14 = m.getSpvVersion() >= 0x10400; for (unsigned e = 0; e < eps.size(); ++e)
			{
				std::vector<const Instruction*> got; for (const Operand& o : eps[e]->getInterfaceVariables()) got.push_back(o.getInstruction()); const auto want = expected(e, v14);
				std::set<const Instruction*> g(got.begin(), got.end()); MC_CHECK(g.size() == got.size(), "duplicate", "the interface of entry point %u lists a variable twice (%s)", e, what);
				for (unsigned v = 0; v < vars.size(); ++v) { const bool w = want.count(v), h = g.count(vars[v]); MC_CHECK(!w || h, "missing", "variable %u (storage class %u) is used but not in the interface of entry point %u, version %x (%s)", v, unsigned(cls[v]), e, m.getSpvVersion(), what); MC_CHECK(w || !h, "unrelated", "variable %u (storage class %u) is in the interface of entry point %u without need, version %x (%s)", v, unsigned(cls[v]), e, m.getSpvVersion(), what); }
				MC_CHECK(g.size() == want.size(), "foreign", "the interface of entry point %u has %zu entries, expected %zu (%s)", e, g.size(), want.size(), what);
				Instruction* ep = eps[e]->getEntryPoint(); auto it = ep->begin(); (void)it; MC_CHECK((ep->begin() + 1u)->getInstruction() == eps[e]->getFunction(), "entry-function", "OpEntryPoint refers to another function (%s)", what);
			}
		}
		void binary(const char* what)
		{
			Writer w; MC_CHECK(m.write(w), "write", "writing fails"); const Bin b = parse(w.words); MC_CHECK(b.ok, "malformed", "the binary is malformed: %s (%s)", b.error.c_str(), what); std::map<uint32_t, unsigned> id; for (unsigned v = 0; v < vars.size(); ++v) id[uint32_t(vars[v]->getResultId())] = v;
			unsigned e = 0; for (auto& i : b.ins) if (i.op == uint32_t(spv::Op::OpEntryPoint)) { std::set<unsigned> got; for (auto& o : i.ops) if (isIdT(o.type) && id.count(i.w[o.off])) got.insert(id[i.w[o.off]]); MC_CHECK(e < eps.size() && got == expected(e, m.getSpvVersion() >= 0x10400), "binary-interface", "the written OpEntryPoint %u lists other variables (%s)", e, what); ++e; } MC_CHECK(e == eps.size(), "entry-points", "%u entry points are written", e);
		}
	};
	void graphs()
	{
		const bool v14 = mc::flip("version"); const unsigned ee = mc::choose(8, "entry calls"), hh = mc::choose(512, "helper calls"); track::Allocator al; Log log; mc::op("entry point calls %u, helpers call %u, SPIR-V %s", ee, hh, v14 ? "1.4" : "1.3");
		{
			M x(&al, &log); if (v14) x.m.ensureSpvVersion(1, 4); x.entry(false, "main"); x.entry(true, "other"); for (unsigned i = 0; i < 3; ++i) x.helper();
			const unsigned shared = x.var(SC::Output); for (unsigned f = 0; f < 5; ++f) { const unsigned a = x.var(SC::Input), b = x.var(SC::Private); x.use(f, a); x.use(f, b); x.use(f, shared); x.use(f, a); } x.var(SC::Input); x.var(SC::Uniform);
			for (unsigned i = 0; i < 3; ++i) { if (ee >> i & 1) x.call(0, 2 + i); if (!(ee >> i & 1)) x.call(1, 2 + i); for (unsigned k = 0; k < 3; ++k) if (hh >> (i * 3 + k) & 1) x.call(2 + i, 2 + k); }
			for (Function* f : x.fs) f->back().returnValue(); x.m.finalize(&grammar()); x.check("finalized"); x.m.finalize(&grammar()); x.check("finalized again"); if (hh % 16 == 3) x.binary("finalized"); MC_CHECK(log.errors == 0, "error", "the library reports an error: %s", log.last.c_str());
			mc::state(mc::mix(mc::mix(ee, hh), v14)); mc::outcome("call graph");
		}
		al.expectEmpty("call graph");
	}
	// every operand position of instructions that take pointers, in every block of a function
	struct Form { const char* name; spv::Op op; unsigned slots; bool term; };
	const Form FORMS[] = { { "load", spv::Op::OpLoad, 1, false }, { "store", spv::Op::OpStore, 2, false }, { "access chain", spv::Op::OpAccessChain, 2, false }, { "in-bounds access chain", spv::Op::OpInBoundsAccessChain, 1, false }, { "copy memory", spv::Op::OpCopyMemory, 2, false }, { "call", spv::Op::OpFunctionCall, 3, false }, { "select", spv::Op::OpSelect, 3, false },
		{ "phi", spv::Op::OpPhi, 2, false }, { "extended instruction", spv::Op::OpExtInst, 3, false }, { "atomic", spv::Op::OpAtomicIAdd, 4, false }, { "texel pointer", spv::Op::OpImageTexelPointer, 3, false }, { "array length", spv::Op::OpArrayLength, 1, false }, { "return", spv::Op::OpReturnValue, 1, true }, { "local variable", spv::Op::OpVariable, 1, false }, { "pointer comparison", spv::Op::OpPtrEqual, 2, false }, { "copy", spv::Op::OpCopyObject, 1, false }, { "composite", spv::Op::OpCompositeConstruct, 4, false } };
	void forms()
	{
		const unsigned fi = mc::choose(sizeof FORMS / sizeof *FORMS, "form"), ci = mc::choose(unsigned(sizeof CLASSES / sizeof *CLASSES), "class"), where = mc::choose(4, "where"), vi = mc::choose(4, "version"); const Form& f = FORMS[fi]; const unsigned slots = mc::choose(1u << f.slots, "slots"); if (slots == 0) return;
		static const unsigned char minor[] = { 0, 3, 4, 6 }; track::Allocator al; Log log; static const char* places[] = { "the entry block", "a later block", "a helper", "a helper of a helper" }; mc::op("%s in %s, variables in slots %u, class %u, SPIR-V 1.%u", f.name, places[where], slots, unsigned(CLASSES[ci]), minor[vi]);
		{
			M x(&al, &log); x.m.ensureSpvVersion(1, minor[vi]); x.entry(fi % 2, "main"); const unsigned h = x.helper(), h2 = x.helper(); std::vector<unsigned> v; for (unsigned i = 0; i < 4; ++i) v.push_back(x.var(i % 2 ? SC::Input : CLASSES[ci])); Instruction* k = x.m.constant(1u);
			x.call(0, h); x.call(h, h2); const unsigned fn = where < 2 ? 0 : where == 2 ? h : h2; BasicBlock* b = &**x.fs[fn]; if (where == 1) { BasicBlock& n = x.fs[0]->addBasicBlock(); (*b)->opBranch(&n); b = &n; }
			std::vector<Operand> ops; bool res = false, type = false; spv::HasResultAndType(f.op, &res, &type); if (type) ops.push_back(x.m.type<float>()); if (res) ops.push_back(InvalidId);
			if (f.op == spv::Op::OpFunctionCall) ops.push_back(x.fs[h2]->getFunction()); if (f.op == spv::Op::OpExtInst) { ops.push_back(x.m.addExtensionInstructionImport("GLSL.std.450")); ops.push_back(literal_t{ 35u }); } if (f.op == spv::Op::OpVariable) ops.push_back(literal_t{ unsigned(SC::Function) });
			for (unsigned i = 0; i < f.slots; ++i) { if (slots >> i & 1) { ops.push_back(x.vars[v[i]]); x.uses[fn].push_back(v[i]); } else ops.push_back(k); if (f.op == spv::Op::OpPhi) ops.push_back(b->getLabel()); } if (f.op == spv::Op::OpFunctionCall) x.calls[fn].push_back(h2);
			x.raw(*b, f.op, ops); for (Function* g : x.fs) if (!g->back().getTerminator()) g->back().returnValue(); x.m.finalize(vi % 2 ? &grammar() : nullptr); x.check("finalized"); x.m.finalizeEntryPoints(); x.check("finalized again"); mc::state(mc::mix(mc::mix(fi, ci), mc::mix(where * 4 + vi, slots))); mc::outcome(f.name);
		}
		al.expectEmpty("forms");
	}
	// edits between finalizations
	void edits(const unsigned depth)
	{
		track::Allocator al; Log log;
		{
			M x(&al, &log); x.entry(false, "main"); x.entry(true, "a_longer_name"); x.helper(); x.helper(); const unsigned in = x.var(SC::Input), pr = x.var(SC::Private), out = x.var(SC::Output); (void)in; (void)pr; (void)out; for (Function* f : x.fs) { BasicBlock& b = f->addBasicBlock(); (**f)->opBranch(&b); f->back().returnValue(); }
			std::vector<std::vector<std::pair<Instruction*, unsigned>>> added(4); uint64_t h = 1;
			for (unsigned d = 0; d < depth; ++d)
			{
				unsigned k = mc::choose(1 + 12 + 8 + 4 + 3 + 1, "op"); if (k-- == 0) break; h = mc::mix(h, k);
				if (k < 12) { const unsigned f = k / 3, v = k % 3; mc::op("function %u uses variable %u", f, v); BasicBlock& b = **x.fs[f]; Instruction* i = &b.emplace_front(&b, spv::Op::OpNop); i->opLoad(x.vars[v]); x.uses[f].push_back(v); added[f].push_back({ i, v }); }
				else if ((k -= 12) < 8) { const unsigned f = k / 2, g = 2 + k % 2; mc::op("function %u calls function %u", f, g); BasicBlock& b = **x.fs[f]; Instruction* i = &b.emplace_front(&b, spv::Op::OpNop); i->call(x.fs[g]); x.calls[f].push_back(g); added[f].push_back({ i, 100 + g }); }
				else if ((k -= 8) < 4) { if (added[k].empty()) return; auto [i, v] = added[k].back(); mc::op("function %u loses its last use", k); added[k].pop_back(); x.m.remove(i); auto& l = v >= 100 ? x.calls[k] : x.uses[k]; l.erase(std::find(l.begin(), l.end(), v >= 100 ? v - 100 : v)); }
				else if ((k -= 4) < 3) { static const char* n[] = { "finalized", "finalized without grammar", "written and read" }; mc::op("the module is %s", n[k]); if (k == 0) x.m.finalize(&grammar()); else if (k == 1) x.m.finalize(); else
					{
						x.m.finalize(&grammar()); x.check("before writing"); x.binary("written"); Writer w; x.m.write(w); Reader r(w.words); Module m2(&al, &log); MC_CHECK(m2.readAndInit(r, grammar()), "read", "reading fails: %s", log.last.c_str());
						x.m = std::move(m2); x.vars.clear(); x.fs.clear(); x.eps.clear(); for (auto& i : x.m.getGlobalVariables()) x.vars.push_back(&i); for (auto& e : x.m.getEntryPoints()) { x.eps.push_back(&e); x.fs.push_back(&e); MC_CHECK(e.getExecutionModel() == spv::ExecutionModel::Fragment, "execution-model", "an entry point that was read reports execution model %u", unsigned(e.getExecutionModel())); } for (auto& f : x.m.getFunctions()) x.fs.push_back(&f); for (auto& a : added) a.clear();
						MC_CHECK(x.eps.size() == 2 && x.fs.size() == 4 && x.vars.size() == 3, "lost", "functions or variables are lost");
					} x.check(n[k]); }
				else { mc::op("the version is raised to 1.4"); x.m.ensureSpvVersion(1, 4); }
			}
			mc::state(h); x.m.finalize(&grammar()); x.check("at the end"); x.binary("at the end"); MC_CHECK(log.errors == 0, "error", "the library reports an error: %s", log.last.c_str()); mc::outcome("edited");
		}
		al.expectEmpty("edits");
	}
}
MC_SCENARIO(call_graphs, 1) { graphs(); }
MC_SCENARIO(operand_positions, 1) { forms(); }
MC_SCENARIO(edits_between, 2) { edits(mc::bound(4, 5)); }

// many functions, variables or entry points at once
MC_SCENARIO(large, 1)
{
	static const unsigned SIZES[] = { 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300 }; static const char* shapes[] = { "functions called one by the next", "functions called by the entry point", "functions that call two more", "functions in a circle", "functions every one of which calls all later ones in steps", "entry points with a common helper", "variables used by one function", "variables not used" };
	const unsigned n = SIZES[mc::choose(unsigned(sizeof SIZES / sizeof *SIZES), "number")], shape = mc::choose(8, "shape"), late = mc::choose(3, "when"); const bool v14 = mc::flip("version"); track::Allocator al; Log log; mc::op("%u %s, SPIR-V %s, %s", n, shapes[shape], v14 ? "1.4" : "1.3", late == 0 ? "at once" : late == 1 ? "the last call or use between two finalizations" : "the first call or use between two finalizations");
	{
		M x(&al, &log); if (v14) x.m.ensureSpvVersion(1, 4); x.entry(false, "main"); const unsigned out = x.var(SC::Output); x.use(0, out); std::vector<unsigned> h; std::vector<std::function<void()>> edges;
		if (shape < 5) for (unsigned i = 0; i < n; ++i) { const unsigned f = x.helper(); h.push_back(f); const unsigned a = x.var(i % 2 ? SC::Input : SC::Private); x.use(f, a); x.use(f, i % 3 ? a : out); }
		switch (shape)
		{
		case 0: edges.push_back([&] { x.call(0, h[0]); }); for (unsigned i = 1; i < n; ++i) edges.push_back([&x, &h, i] { x.call(h[i - 1], h[i]); }); break;
		case 1: for (unsigned i = 0; i < n; ++i) edges.push_back([&x, &h, i] { x.call(0, h[i]); }); break;
		case 2: edges.push_back([&] { x.call(0, h[0]); }); for (unsigned i = 1; i < n; ++i) edges.push_back([&x, &h, i] { x.call(h[(i - 1) / 2], h[i]); }); break;
		case 3: edges.push_back([&] { x.call(0, h[n / 2]); }); for (unsigned i = 0; i < n; ++i) edges.push_back([&x, &h, i, n] { x.call(h[i], h[(i + 1) % n]); }); break;
		case 4: edges.push_back([&] { x.call(0, h[0]); }); for (unsigned i = 0; i < n; ++i) for (unsigned k = 1; i + k < n; k *= 4) edges.push_back([&x, &h, i, k] { x.call(h[i], h[i + k]); }); break;
		case 5: { std::vector<unsigned> es; for (unsigned i = 0; i < n; ++i) es.push_back(x.entry(i % 2, ("entry" + std::to_string(i)).c_str(), i % 3 ? spv::ExecutionModel::Vertex : spv::ExecutionModel::Fragment)); const unsigned f = x.helper(), a = x.var(SC::Input); x.use(f, a); for (unsigned i = 0; i < n; ++i) { const unsigned e = es[i], own = x.var(i % 2 ? SC::Output : SC::Private); x.use(e, own); if (i % 4) edges.push_back([&x, e, f] { x.call(e, f); }); } break; }
		case 6: { const unsigned f = x.helper(); x.call(0, f); for (unsigned i = 0; i < n; ++i) { const unsigned a = x.var(i % 2 ? SC::Input : SC::Private); edges.push_back([&x, f, a] { x.use(f, a); }); } break; }
		default: for (unsigned i = 0; i < n; ++i) x.var(i % 2 ? SC::Input : SC::Private); edges.push_back([&x, n] { x.use(0, n / 2); }); break;
		}
		const size_t held = late == 0 ? edges.size() : late == 1 ? edges.size() - 1 : 0; for (size_t i = 0; i < edges.size(); ++i) if (i != held) edges[i](); 
		if (late) { for (Function* f : x.fs) { BasicBlock& b = f->addBasicBlock(); (**f)->opBranch(&b); b.returnValue(); } x.m.finalize(&grammar()); x.check("finalized once"); for (Function* f : x.fs) { Instruction* t = f->back().getTerminator(); f->back().remove(t); } edges[held](); }
		for (Function* f : x.fs) f->back().returnValue(); x.m.finalize(&grammar()); x.check("finalized"); x.binary("finalized"); x.m.finalize(); x.check("finalized again"); MC_CHECK(log.errors == 0, "error", "the library reports an error: %s", log.last.c_str());
		mc::state(mc::mix(mc::mix(n, shape), late * 2 + v14)); mc::outcome(shapes[shape]);
	}
	al.expectEmpty("large");
}
