// C23: moving, resetting and destroying modules and functions keeps them valid and leaks nothing.
#include "scale.h"
#include <optional>
using namespace spvgentwo;
using namespace ir;

namespace
{
	// the steps a module is built from; chosen so that every member of a module takes part
	const std::vector<unsigned>& menu()
	{
		static std::vector<unsigned> v; if (v.empty()) for (const char* n : { "helper function", "uniform block", "if else with phi", "extended instruction", "names and lines", "undef and copy", "entry point", "version 1.4", "local variable", "spec constant", "imported function", "pointer comparison" })
		{ for (unsigned i = 0; i < prog::steps().size(); ++i) if (!strcmp(prog::steps()[i].name, n)) v.push_back(i); } if (v.size() != 12) mc::broken("missing steps"); return v;
	}
	enum : unsigned { FINALIZE = 100, READ = 200 };
	using Plan = std::vector<unsigned>; // what an abstract module was built from: steps, FINALIZE in between, READ at the start

	const Words& source() { static const Words w = [] { HeapAllocator a; Log l; Module m(&a, &l); prog::Ctx c(m); prog::start(c); for (unsigned k : { 0u, 1u, 2u }) { ++c.n; prog::steps()[menu()[k]].run(c); } m.setSpvGenerator(0x70001); prog::finish(c); Writer w; m.finalizeAndWrite(w, &grammar()); return w.words; }(); return w; }

	struct Slot
	{
		track::Allocator& al; Log& log; std::optional<Module> m; std::optional<prog::Ctx> c; Plan plan; bool gone = false; // moved from, good for assignment and destruction only
		void step(unsigned k) { if (k == FINALIZE) { if (c->bb->getTerminator() == nullptr) prog::finish(*c); Writer w; MC_CHECK(m->finalizeAndWrite(w, &grammar()), "write", "finalizing and writing fails: %s", log.last.c_str()); m->setSpvSchema(m->getSpvSchema() + 3u); prog::newEntry(*c, spv::ExecutionModel::Vertex); } else if (k == READ) { Reader r(source()); MC_CHECK(m->readAndInit(r, grammar()), "read", "reading a valid binary fails: %s", log.last.c_str()); } else { if (!c) { c.emplace(*m); prog::start(*c); } ++c->n; prog::steps()[menu()[k]].run(*c); } }
		void adopt(Slot& o) { plan = o.plan; o.plan.clear(); gone = o.gone; o.gone = true; if (o.c) { prog::Ctx& s = *o.c; c.emplace(*m); c->ep = s.ep; c->fun = s.fun; c->bb = s.bb; c->f = s.f; c->i = s.i; c->v = s.v; c->helpers = s.helpers; c->n = s.n; c->entries = s.entries; } else c.reset(); o.c.reset(); }
	};
	Words finishAndWrite(Module& m, prog::Ctx* c, Log& log) { if (c && c->bb->getTerminator() == nullptr) prog::finish(*c); Writer w; MC_CHECK(m.finalizeAndWrite(w, &grammar()), "write", "finalizing and writing fails: %s", log.last.c_str()); return w.words; }
	// header of the module as it is before it is finished
	struct Header { unsigned version, bound, schema, generator; IAllocator* al; bool operator==(const Header& o) const { return version == o.version && bound == o.bound && schema == o.schema && generator == o.generator; } };
	Header header(Module& m) { return { m.getSpvVersion(), m.getSpvBound(), m.getSpvSchema(), m.getGeneratorVersion(), m.getAllocator() }; }
	std::map<Plan, Header>& headers() { static std::map<Plan, Header> h; return h; }
	const Words& expected(const Plan& p)
	{
		static std::map<Plan, Words> memo; auto it = memo.find(p); if (it != memo.end()) return it->second;
		HeapAllocator a; Log log; static track::Allocator dummy; Slot s{ dummy, log }; s.m.emplace(&a, &log); for (unsigned k : p) s.step(k);
		headers()[p] = header(*s.m);
		Words w = finishAndWrite(*s.m, s.c ? &*s.c : nullptr, log); s.c.reset(); s.m.reset(); return memo.emplace(p, w).first->second;
	}
	void parents(Module& m, const char* what)
	{
		auto fun = [&](Function& f)
		{
			MC_CHECK(f.getModule() == &m, "function-parent", "a function names another module as its parent (%s)", what);
			MC_CHECK(f.getFunction()->getFunction() == &f && f.getFunctionEnd()->getFunction() == &f, "function-instruction-parent", "OpFunction or OpFunctionEnd names another function as its parent (%s)", what);
			for (Instruction& p : f.getParameters()) MC_CHECK(p.getFunction() == &f && p.getModule() == &m, "parameter-parent", "a function parameter names another function as its parent (%s)", what);
			for (BasicBlock& b : f) { MC_CHECK(b.getFunction() == &f && b.getModule() == &m && b.getLabel()->getBasicBlock() == &b, "block-parent", "a basic block names another function as its parent (%s)", what); for (Instruction& i : b) MC_CHECK(i.getBasicBlock() == &b && i.getModule() == &m, "instruction-parent", "an instruction of a block names another block as its parent (%s)", what); }
		};
		for (Function& f : m.getFunctions()) fun(f);
		for (EntryPoint& f : m.getEntryPoints()) { fun(f); MC_CHECK(f.getEntryPoint()->getModule() == &m && f.getFunction()->getModule() == &m, "entry-parent", "OpEntryPoint belongs to another module (%s)", what); }
		m.iterateInstructions([&](Instruction& i) { MC_CHECK(i.getModule() == &m, "module-parent", "an instruction (opcode %u) names another module as its parent (%s)", unsigned(i.getOperation()), what); });
		MC_CHECK(m.getErrorInstr()->getModule() == &m, "error-parent", "the error instruction belongs to another module (%s)", what);
	}
	void empty(Module& m, const char* what)
	{
		MC_CHECK(m.getFunctions().empty() && m.getEntryPoints().empty() && m.getNames().empty() && m.getDecorations().empty() && m.getTypesAndConstants().empty() && m.getGlobalVariables().empty() && m.getUndefs().empty() && m.getLines().empty() && m.getExecutionModes().empty() && m.getSourceStrings().empty() && m.getModulesProcessed().empty(), "not-empty", "a section of the %s module is not empty", what);
		MC_CHECK(m.getCapabilities().elements() == 0 && m.getExtensions().elements() == 0 && m.getExtInstrImports().elements() == 0 && m.getNameLookupMap().elements() == 0, "not-empty", "a table of the %s module is not empty", what);
	}
	void modules(const unsigned depth)
	{
		track::Allocator a0, a1; Log log;
		{
			Slot s[2] = { { a0, log }, { a1, log } }; s[0].m.emplace(&a0, &log); s[1].m.emplace(&a1, &log); const unsigned K = unsigned(mc::bound(7, 12));
			auto key = [&](unsigned x) { uint64_t h = s[x].m.has_value(); for (unsigned k : s[x].plan) h = mc::mix(h, k + 1); return h; };
			uint64_t hist = 7;
			for (unsigned d = 0; d < depth; ++d)
			{
				const unsigned ops = K + 2 + 6; unsigned k = mc::choose(ops * 2 + 1, "op"); if (k == 0) break; --k; const unsigned x = k / ops, y = 1 - x; k %= ops; Slot &p = s[x], &q = s[y];
				hist = mc::mix(hist, k * 2 + x);
				if (!p.m) { if (k != 0) return; mc::op("module %u is created", x); p.m.emplace(&p.al, &log); p.plan.clear(); p.gone = false; continue; }
				if (p.gone && k < K + 2) return;
				if (k < K) { mc::op("module %u: %s", x, prog::steps()[menu()[k]].name); p.step(k); p.plan.push_back(k); }
				else if (k == K) { if (p.c == std::nullopt) return; mc::op("module %u is finalized and written", x); p.step(FINALIZE); p.plan.push_back(FINALIZE); }
				else if (k == K + 1) { if (!p.plan.empty()) return; mc::op("module %u reads a binary", x); p.step(READ); p.plan.push_back(READ); }
				else if (k == K + 2) { mc::op("module %u is destroyed and move constructed from module %u", x, y); if (!q.m) return; p.c.reset(); p.m.reset(); p.m.emplace(std::move(*q.m)); p.adopt(q); }
				else if (k == K + 3) { mc::op("module %u is move assigned from module %u", x, y); if (!q.m) return; p.c.reset(); *p.m = std::move(*q.m); p.adopt(q); }
				else if (k == K + 4) { mc::op("module %u is assigned to itself", x); Module& r = *p.m; *p.m = std::move(r); }
				else if (k == K + 5) { mc::op("module %u is reset", x); p.c.reset(); p.m->reset(); p.plan.clear(); p.gone = false; empty(*p.m, "reset"); }
				else if (k == K + 6) { mc::op("module %u is swapped with module %u", x, y); if (!q.m || x) return; Module t(std::move(*p.m)); *p.m = std::move(*q.m); *q.m = std::move(t); Slot h{ a0, log }; h.plan = p.plan; h.gone = p.gone; std::optional<prog::Ctx> pc; if (p.c) pc.emplace(*p.c); p.adopt(q); q.plan = h.plan; q.gone = h.gone; if (pc) { q.c.emplace(*q.m); q.c->ep = pc->ep; q.c->fun = pc->fun; q.c->bb = pc->bb; q.c->f = pc->f; q.c->i = pc->i; q.c->v = pc->v; q.c->helpers = pc->helpers; q.c->n = pc->n; q.c->entries = pc->entries; } }
				else { mc::op("module %u is destroyed", x); p.c.reset(); p.m.reset(); p.plan.clear(); }
				MC_CHECK(log.errors == 0, ("error:" + sig(log.last)).c_str(), "the library reports an error: %s", log.last.c_str());
				for (unsigned z : { 0u, 1u }) if (s[z].m) { parents(*s[z].m, z == x ? "the module operated on" : "the other module"); if (s[z].plan.empty()) empty(*s[z].m, "moved-from or reset"); if (!s[z].gone) { expected(s[z].plan); const Header h = header(*s[z].m), &e = headers()[s[z].plan]; MC_CHECK(h == e, "header", "version, bound, schema or generator of module %u is %x %u %u %u, of a module built without moves %x %u %u %u", z, h.version, h.bound, h.schema, h.generator, e.version, e.bound, e.schema, e.generator); } } log.errors = 0; // iterating over an unfinished block is reported

			}
			mc::state(hist);
			for (unsigned z : { 0u, 1u }) if (s[z].m && !s[z].gone)
			{
				const Words w = finishAndWrite(*s[z].m, s[z].c ? &*s[z].c : nullptr, log); const Words& e = expected(s[z].plan);
				parents(*s[z].m, "finished"); MC_CHECK(w == e, s[z].plan.empty() ? "empty-differs" : "binary-differs", "module %u writes another binary than a module built the same way without moves\nwritten%s\nexpected%s", z, trace(w).c_str(), trace(e).c_str());
				// every module can be reused after a reset
				s[z].c.reset(); s[z].m->reset(); s[z].plan = { 0u, 3u }; for (unsigned k : s[z].plan) s[z].step(k);
				const Words v = finishAndWrite(*s[z].m, &*s[z].c, log); MC_CHECK(v == expected(s[z].plan), "rebuilt-differs", "module %u, reset and built again, writes another binary\nwritten%s\nexpected%s", z, trace(v).c_str(), trace(expected(s[z].plan)).c_str());
			}
			mc::outcome("history of two modules");
		}
		a0.expectEmpty("first allocator"); a1.expectEmpty("second allocator");
	}
}
namespace
{
	// modules with many of one thing, moved before, between or after what makes them large
	void large()
	{
		const scale::Pick p = scale::choose(unsigned(mc::bound(2, 1)), 3000); const unsigned how = mc::choose(4, "how"), when = mc::choose(3, "when"); static const char* hows[] = { "move constructed", "move assigned over an empty module", "move assigned over the same kind of module", "swapped with the same kind of module" }; mc::op("%s %s", hows[how], when == 0 ? "when it is made large" : when == 1 ? "when it is finished" : "when it is finalized and written");
		track::Allocator a0, a1; Log log; auto fill = [&](prog::Ctx& c) { ++c.n; p.shape->run(c, p.n); };
		{
			Words want; { HeapAllocator a; Log l; Module m(&a, &l); prog::Ctx c(m); prog::start(c); fill(c); c.f = c.bb->Add(c.f, c.f); prog::finish(c); Writer w; MC_CHECK(m.finalizeAndWrite(w, &grammar()), "write", "writing fails: %s", l.last.c_str()); want = w.words; }
			std::optional<Module> m, o; m.emplace(&a0, &log); std::optional<prog::Ctx> c; c.emplace(*m); prog::start(*c); fill(*c); if (when) { c->f = c->bb->Add(c->f, c->f); prog::finish(*c); } if (when == 2) { Writer w; MC_CHECK(m->finalizeAndWrite(w, &grammar()), "write", "writing fails: %s", log.last.c_str()); MC_CHECK(w.words == want, "nondeterministic", "a large module built the same way writes another binary"); }
			Words other; if (how) { o.emplace(how == 3 ? &a1 : &a0, &log); if (how > 1) { prog::Ctx d(*o); prog::start(d); fill(d); prog::finish(d); if (how == 3) { Writer w; o->finalizeAndWrite(w, &grammar()); other = w.words; } } }
			prog::Ctx old = *c; c.reset(); Module* at = nullptr; if (how == 0) { o.emplace(std::move(*m)); at = &*o; } else if (how < 3) { *o = std::move(*m); at = &*o; } else { Module t(std::move(*m)); *m = std::move(*o); *o = std::move(t); at = &*o; }
			if (how < 3) { empty(*m, "moved-from"); m.reset(); } parents(*at, "moved large module"); if (how == 3) parents(*m, "swapped large module"); log.errors = 0;
			c.emplace(*at); c->ep = old.ep; c->fun = old.fun; c->bb = old.bb; c->f = old.f; c->i = old.i; c->v = old.v; c->helpers = old.helpers; c->n = old.n; c->entries = old.entries; if (!when) { c->f = c->bb->Add(c->f, c->f); prog::finish(*c); }
			Writer w; MC_CHECK(at->finalizeAndWrite(w, &grammar()), "write", "writing fails: %s", log.last.c_str()); MC_CHECK(w.words == want, "binary-differs", "a large module that was moved writes another binary than one that was not (%zu and %zu words)", w.words.size(), want.size());
			if (how == 3) { Writer v; MC_CHECK(m->finalizeAndWrite(v, &grammar()) && v.words == other, "swapped-differs", "a large module that was swapped writes another binary"); }
			at->reset(); empty(*at, "reset"); prog::Ctx d(*at); prog::start(d); fill(d); d.f = d.bb->Add(d.f, d.f); prog::finish(d); Writer v; MC_CHECK(at->finalizeAndWrite(v, &grammar()), "write", "writing fails: %s", log.last.c_str()); MC_CHECK(v.words == want, "rebuilt-differs", "a large module, reset and built again, writes another binary (%zu and %zu words)", v.words.size(), want.size());
			mc::state(mc::mix(mc::mix(p.index, p.n), how * 3 + when)); mc::outcome(p.shape->name);
		}
		a0.expectEmpty("first allocator"); a1.expectEmpty("second allocator");
	}
}
MC_SCENARIO(large_modules, 1) { large(); }
MC_SCENARIO(modules, 3) { modules(mc::bound(3, 4)); }

namespace
{
	// functions are moved into a slot of the module before, while or after they are built; the same program without the move is the oracle
	enum How { NONE, CONSTRUCT, ASSIGN_EMPTY, ASSIGN_BUILT, SELF };
	const char* howName[] = { "not moved", "move constructed", "move assigned over an empty function", "move assigned over a built function", "assigned to itself" };
	void signature(Module& m, Function& f) { f.setReturnType(m.type<float>()); f.addParameters(m.type<float>(), m.type<int>()); }
	Words build(IAllocator& al, Log& log, const unsigned stage, const unsigned how, const unsigned body, const unsigned refs)
	{
		Module m(&al, &log); prog::Ctx c(m); prog::start(c); Words w;
		{
			Function* f = &m.addFunction(); // where the moved function ends up
			std::optional<Function> tmp; unsigned at = 0; Function* cur = f; if (how != NONE && how != SELF) { tmp.emplace(&m); cur = &*tmp; }
			auto move = [&]
			{
				if (at++ != stage) return;
				switch (how)
				{
				case NONE: return;
				case CONSTRUCT: { Function& g = m.getFunctions().emplace_back(&m, std::move(*cur)); auto it = m.getFunctions().begin(); m.getFunctions().erase(it); cur = f = &g; break; }
				case ASSIGN_EMPTY: *f = std::move(*cur); cur = f; break;
				case ASSIGN_BUILT: f->setReturnType(m.type<int>()); f->addParameters(m.type<int>()); f->finalize(spv::FunctionControlMask::Pure); { BasicBlock& b = f->addBasicBlock(); b.returnValue(f->getParameter(0)); } *f = std::move(*cur); cur = f; break;
				case SELF: { Function& r = *f; *f = std::move(r); break; }
				}
				MC_CHECK(cur->getModule() == &m && cur->getFunction()->getFunction() == cur && cur->getFunctionEnd()->getFunction() == cur, "moved-parent", "a moved function or its OpFunction has another parent");
				for (Instruction& p : cur->getParameters()) MC_CHECK(p.getFunction() == cur, "parameter-parent", "a parameter of a moved function names another function as its parent");
				for (BasicBlock& b : *cur) MC_CHECK(b.getFunction() == cur && b.getLabel()->getBasicBlock() == &b, "block-parent", "a block of a moved function names another function as its parent");
				if (tmp) { MC_CHECK(tmp->empty() && tmp->getParameters().empty(), "moved-from", "a function that was moved from still has blocks or parameters"); tmp.reset(); }
			};
			m.type<int>(); // both programs know the type the overwritten function uses, and its function type
			{ Type t(m.newType()); t.Function(); t.IntM(); t.IntM(); m.addType(t); }
			move(); signature(m, *cur); move();
			cur->finalize(spv::FunctionControlMask::Inline); move();
			BasicBlock* b = &cur->addBasicBlock(); Instruction* x = (*b)->opFMul(cur->getParameter(0), cur->getParameter(0)); Instruction* i = (*b)->opConvertSToF(cur->getParameter(1)); move();
			if (body) { Instruction* k = b->Less(x, i); Instruction *p = nullptr, *q = nullptr; BasicBlock& mg = b->If(k, [&](BasicBlock& t) { p = t.Add(x, i); }, [&](BasicBlock& e) { q = e.Mul(x, i); }); b = &mg; x = mg->opPhi(p, q); move(); }
			{ Instruction* v = cur->variable<float>(); (*b)->opStore(v, x); x = (*b)->opLoad(v); }
			b->returnValue(x); move();
			if (refs & 1) m.addName(cur->getFunction(), "moved");
			Instruction* call = nullptr; if (refs & 2) { call = (*c.bb)->call(cur, c.f, c.i); c.f = call; }
			const bool late = at == stage; move();
			if (late && how != SELF && how != NONE)
			{
				if (refs & 1) MC_CHECK((m.getNames().back().begin())->getInstruction() == cur->getFunction(), "moved-references:name", "the OpName of a moved function refers to the function object it was moved from");
				if (refs & 2) MC_CHECK((call->begin() + 2u)->getInstruction() == cur->getFunction(), "moved-references:call", "a call of a moved function refers to the function object it was moved from");
			}
			MC_CHECK(cur->isFinalized() && cur->getReturnType().isFloat() && cur->getParameter(1) != nullptr && cur->getParameter(1)->getFunction() == cur, "moved-unusable", "a moved function does not answer as before");
			if (refs & 1) MC_CHECK(cur->getName() && !strcmp(cur->getName(), "moved"), "moved-name", "a moved function lost its name");
			c.f = (*c.bb)->call(cur, c.f, c.i); prog::finish(c);
		}
		Writer wr; MC_CHECK(m.finalizeAndWrite(wr, &grammar()), "write", "writing fails: %s", log.last.c_str()); return wr.words;
	}
	void functions()
	{
		const unsigned body = mc::choose(2, "body"), refs = mc::choose(4, "refs"), how = 1 + mc::choose(4, "how"), stage = mc::choose(8, "stage");
		track::Allocator al; Log log; HeapAllocator h;
		mc::op("a function %s, %s, is %s at stage %u", body ? "with branches" : "of one block", refs == 0 ? "not referred to" : refs == 1 ? "named" : refs == 2 ? "called" : "named and called", howName[how], stage);
		if (stage > (body ? 6u : 5u)) return;
		{
			const Words w = build(al, log, stage, how, body, refs); MC_CHECK(log.errors == 0, ("error:" + sig(log.last)).c_str(), "the library reports an error: %s", log.last.c_str());
			const Words e = build(h, log, stage, NONE, body, refs);
			MC_CHECK(w == e, "function-differs", "the binary differs from that of the program without the move\nwritten%s\nexpected%s", trace(w).c_str(), trace(e).c_str());
			mc::state(mc::mix(mc::mix(body, refs), mc::mix(how, stage))); mc::outcome("moved function");
		}
		al.expectEmpty("functions");
	}
}
MC_SCENARIO(functions, 0) { functions(); }
