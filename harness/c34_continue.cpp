// C34: a module that is written and read back can be extended like the module it came from.
#include "scale.h"
#include <memory>
#include <cstring>
#include <functional>
using namespace spvgentwo;
using namespace ir;

namespace
{
	void settle(prog::Ctx& c) { if (c.bb->getTerminator() == nullptr) prog::finish(c); }
	// declarations are written before the functions with a body
	unsigned indexOf(Module& m, const Function* f) { unsigned k = 0; for (bool bodies : { false, true }) for (Function& g : m.getFunctions()) { if (g.empty() == bodies) continue; if (&g == f) return k; ++k; } mc::broken("helper not found"); return 0; }
	Function* at(Module& m, unsigned i) { for (Function& g : m.getFunctions()) if (i-- == 0) return &g; mc::fail("function lost", "a function is missing after reading"); return nullptr; }
	// the instructions of a binary by what they are: ids are replaced by the instructions they refer to
	Words written(Module& m, Log& log, const char* what) { Writer w; MC_CHECK(m.finalizeAndWrite(w, &grammar()), "write", "%s can not be written: %s", what, log.last.c_str()); return w.words; }
	const std::vector<unsigned>& all() { static const std::vector<unsigned> a = [] { std::vector<unsigned> v; for (unsigned k = 0; k < prog::steps().size(); ++k) v.push_back(k); return v; }(); return a; }

	// edits of what was there before the module was written and read; everything is addressed by its place
	Instruction* nth(List<Instruction>& l, unsigned n) { for (Instruction& i : l) if (n-- == 0) return &i; return nullptr; }
	unsigned count(const List<Instruction>& l) { unsigned n = 0; for (auto& i : l) { (void)i; ++n; } return n; }
	Instruction* global(Module& m, bool last) { auto& g = m.getGlobalVariables(); Instruction* r = nullptr; for (Instruction& i : g) { const Type* t = i.getType(); if (!t || i.getStorageClass() == spv::StorageClass::StorageBuffer) continue; if (!r || last) r = &i; } return r; }
	EntryPoint& first(Module& m) { return m.getEntryPoints().front(); }
	// the code is put before the return of a block
	void reopen(Function& f, const std::function<void(BasicBlock&)>& code) { BasicBlock& b = f.back(); Instruction* t = b.getTerminator(); if (!t || t->getOperation() != spv::Op::OpReturn) return; if (!b.remove(t)) mc::fail("edit", "the terminator of a block can not be removed"); code(b); b.returnValue(); }
	struct Edit { const char* name; void (*run)(prog::Ctx& c); };
	const std::vector<Edit>& edits()
	{
		static const std::vector<Edit> e = {
			{ "load the first global in the first entry point", [](prog::Ctx& c) { Instruction* g = global(c.m, false); if (g) reopen(first(c.m), [&](BasicBlock& b) { b->opLoad(g); }); } },
			{ "load the last global in the first entry point", [](prog::Ctx& c) { Instruction* g = global(c.m, true); if (g) reopen(first(c.m), [&](BasicBlock& b) { b->opLoad(g); }); } },
			{ "load the last global in the new entry point", [](prog::Ctx& c) { Instruction* g = global(c.m, true); if (g) (*c.bb)->opLoad(g); } },
			{ "local variable in the first entry point", [](prog::Ctx& c) { Instruction* v = first(c.m).variable<float>(c.name("late").c_str()); Instruction* k = c.m.constant(0.25f); reopen(first(c.m), [&](BasicBlock& b) { b->opStore(v, k); b->opLoad(v); }); } },
			{ "initialized local variable in the first entry point", [](prog::Ctx& c) { Instruction* v = first(c.m).variable(0.125f, c.name("late").c_str()); reopen(first(c.m), [&](BasicBlock& b) { b->opLoad(v); }); } },
			{ "new input used in the first entry point", [](prog::Ctx& c) { Instruction* v = c.m.input<float>(c.name("lateIn").c_str()); c.m.addDecorationInstr()->opDecorate(v, spv::Decoration::Location, 20u + c.n); reopen(first(c.m), [&](BasicBlock& b) { b->opLoad(v); }); } },
			{ "call from the first entry point", [](prog::Ctx& c) { if (c.helpers.empty()) return; Instruction *x = c.m.constant(1.5f), *y = c.m.constant(4); reopen(first(c.m), [&](BasicBlock& b) { b->call(c.helpers.back(), x, y); }); } },
			{ "structured if in the first entry point", [](prog::Ctx& c) { Instruction* k = c.m.constant(true); EntryPoint& e = first(c.m); BasicBlock& b = e.back(); Instruction* t = b.getTerminator(); if (!t || t->getOperation() != spv::Op::OpReturn) return; b.remove(t); BasicBlock& m = b.If(k, [&](BasicBlock& t) { Instruction* x = c.m.constant(2.f); t.Add(x, x); }); m.returnValue(); } },
			{ "new helper called from the first entry point", [](prog::Ctx& c) { Function& h = c.m.addFunction<float, float>(c.name("lateHelper").c_str()); { BasicBlock& b = *h; Instruction* r = b.Mul(h.getParameter(0), h.getParameter(0)); b.returnValue(r); } Instruction* x = c.m.constant(1.5f); reopen(first(c.m), [&](BasicBlock& b) { b->call(&h, x); }); } },
			{ "execution mode of the first entry point", [](prog::Ctx& c) { first(c.m).addExecutionMode(spv::ExecutionMode::EarlyFragmentTests); } },
			{ "name and decorate the first global", [](prog::Ctx& c) { if (Instruction* g = global(c.m, false)) { c.m.addName(g, c.name("other").c_str()); c.m.addDecorationInstr()->opDecorate(g, spv::Decoration::RelaxedPrecision); } } },
			{ "name the first entry point and its block", [](prog::Ctx& c) { EntryPoint& e = first(c.m); c.m.addName(e.getFunction(), c.name("entry").c_str()); c.m.addName(e.front().getLabel(), c.name("block").c_str()); } },
			{ "remove the last name", [](prog::Ctx& c) { if (unsigned n = count(c.m.getNames())) c.m.remove(nth(const_cast<List<Instruction>&>(c.m.getNames()), n - 1)); } },
			{ "remove the first decoration", [](prog::Ctx& c) { (void)c; if (Instruction* d = nth(const_cast<List<Instruction>&>(c.m.getDecorations()), 0)) if (d->getOperation() == spv::Op::OpDecorate && d->getFirstActualOperand().next()->getLiteral().value == unsigned(spv::Decoration::RelaxedPrecision)) c.m.remove(d); } },
			{ "replace a constant", [](prog::Ctx& c) { Instruction *a = c.m.constant(1.5f), *b = c.m.constant(6.5f); c.m.replaceUses(a, b); c.values(); } },
			{ "find by name", [](prog::Ctx& c) { for (const char* n : { "in1", "priv1", "out1", "spec1" }) if (Instruction* x = c.m.getInstructionByName(n)) { if (x->getOperation() == spv::Op::OpVariable) (*c.bb)->opLoad(x); else c.i = c.bb->Add(c.i, x); } } },
			{ "struct of read types", [](prog::Ctx& c) { Instruction* f = c.m.type<float>(); Instruction* v = c.m.type<glsl::vec4>(); Instruction* t = c.m.compositeType(spv::Op::OpTypeStruct, f, v); c.m.addName(t, c.name("Pair").c_str()); Instruction* k = (*c.bb)->opCompositeConstruct(t, c.f, c.v); c.f = (*c.bb)->opCompositeExtract(k, 0u); } },
			{ "again the same constants", [](prog::Ctx& c) { c.m.constant(make_vector(1, 2, 1)); c.m.constant(make_array(1.f, 2.f)); c.m.constant(true); Instruction* a = c.m.constant(1.5f); c.f = c.bb->Add(a, c.m.constant(2.5f)); } },
			{ "same import and extensions", [](prog::Ctx& c) { c.m.addExtension("SPV_KHR_vulkan_memory_model"); c.m.addExtensionInstructionImport("GLSL.std.450"); c.m.addCapability(spv::Capability::Shader); c.f = c.bb->glsl()->opSqrt(c.f); } },
			{ "source string and line", [](prog::Ctx& c) { Instruction* s = c.m.addSourceStringInstr()->opString(c.name("late.frag").c_str()); (*c.bb)->opLine(s, 3, 4); c.f = c.bb->Add(c.f, c.f); } },
			{ "call functions found by name", [](prog::Ctx& c) { for (bool bodies : { false, true }) for (Function& f : c.m.getFunctions()) { const char* n = f.getName(); if (f.empty() == bodies || !n || !(!strncmp(n, "imported", 8) || !strncmp(n, "exported", 8) || !strncmp(n, "hand", 4) || !strncmp(n, "outer", 5))) continue; List<Instruction*> args(c.m.getAllocator()); bool ok = true, first = true; for (const Type& t : f.getFunctionType().getSubTypes()) { if (first) { first = false; continue; } Instruction* a = t.isFloat() ? c.f : t.isInt() ? c.i : nullptr; if (a) args.emplace_back(a); else ok = false; } if (ok) (*c.bb)->callDynamic(&f, args); } } },
			{ "finalize", [](prog::Ctx& c) { settle(c); c.m.finalize(&grammar()); prog::newEntry(c, spv::ExecutionModel::GLCompute); } },
		};
		return e;
	}

	void run(const unsigned before, const unsigned after, const bool coreOnly, const unsigned rounds, const bool editing)
	{
		track::Allocator al; Log log, log2; auto& st = prog::steps(); auto& ed = edits(); const auto& pick = coreOnly ? prog::core() : all(); uint64_t key = rounds;
		{
			// one module is built in one go, the other passes through a binary before every part after the first
			std::unique_ptr<Module> whole(new Module(&al, &log)), parts(new Module(&al, &log2)); prog::Ctx c(*whole); std::unique_ptr<prog::Ctx> d(new prog::Ctx(*parts)); prog::start(c); prog::start(*d); bool done = false;
			for (unsigned r = 0; r <= rounds && !done; ++r)
			{
				if (r)
				{
					settle(c); settle(*d); mc::op("write and read");
					const Words w = written(*parts, log2, "the module"); std::unique_ptr<Module> next(new Module(&al, &log2)); Reader rd(w); MC_CHECK(next->readAndInit(rd, grammar()) && log2.errors == 0, "read", "reading the binary fails: %s", log2.last.c_str());
					std::unique_ptr<prog::Ctx> e(new prog::Ctx(*next)); for (Function* f : d->helpers) e->helpers.push_back(at(*next, indexOf(*parts, f))); e->n = d->n; e->entries = d->entries; e->inHelper = d->inHelper; d = std::move(e); parts = std::move(next); whole->finalize(&grammar());
					if (r % 2) { prog::newEntry(c, spv::ExecutionModel::GLCompute); prog::newEntry(*d, spv::ExecutionModel::GLCompute); } else { prog::newEntry(c, spv::ExecutionModel::Vertex); prog::newEntry(*d, spv::ExecutionModel::Vertex); }
				}
				for (unsigned k = 0; k < (r == 0 ? before : after); ++k)
				{
					const unsigned P = unsigned(pick.size()), s = mc::choose(1 + P + (r && editing ? unsigned(ed.size()) : 0), r ? "after" : "before"); if (s == 0) break;
					if (s > P) { const Edit& x = ed[s - 1 - P]; mc::op("%s", x.name); key = mc::mix(key, 1000 + s); ++c.n; x.run(c); ++d->n; x.run(*d); MC_CHECK(log.errors == 0, "edit rejected", "the library rejects '%s': %s", x.name, log.last.c_str()); MC_CHECK(log2.errors == 0, ("rejected after reading:" + sig(log2.last)).c_str(), "'%s' is rejected for a module that was read: %s", x.name, log2.last.c_str()); continue; }
					const unsigned n = pick[s - 1]; mc::op("%s", st[n].name); key = mc::mix(key, n * 2 + (r > 0));
					++c.n; st[n].run(c); ++d->n; st[n].run(*d);
					MC_CHECK(log.errors == 0, "rejected", "the library rejects documented use: %s", log.last.c_str()); MC_CHECK(log2.errors == 0, ("rejected after reading:" + sig(log2.last)).c_str(), "'%s' is rejected for a module that was read: %s", st[n].name, log2.last.c_str());
				}
				key = mc::mix(key, 77);
			}
			mc::state(key); settle(c); settle(*d); const Words a = written(*whole, log, "the module built in one go"), b = written(*parts, log2, "the module that was read"); mc::checked();
			const std::string v = validate(b); MC_CHECK(v.empty(), ("invalid:" + sig(v)).c_str(), "the extended module is invalid: %s%s", v.c_str(), trace(b).c_str());
			MC_CHECK(a == b, "different", "the module differs from the one built in one go:\n%s\ninstead of\n%s", trace(b).c_str(), trace(a).c_str()); mc::outcome("same");
		}
		al.expectEmpty("after destruction");
	}
}
MC_SCENARIO(steps, 2) { run(1, 1, false, 1, true); }
MC_SCENARIO(before, 3) { run(2, 1, !mc::thorough(), 1, true); }
MC_SCENARIO(after, 3) { run(1, 2, !mc::thorough(), 1, true); }
MC_SCENARIO(twice, 2) { run(mc::bound(0, 1), 1, true, 2, true); }

// many of one thing before, and more of the same after writing and reading
MC_SCENARIO(large, 3)
{
	track::Allocator al; Log log, log2;
	{
		std::unique_ptr<Module> whole(new Module(&al, &log)), parts(new Module(&al, &log2)); prog::Ctx c(*whole), d(*parts); prog::start(c); prog::start(d); const scale::Pick p = scale::choose(mc::bound(3, 1)); const unsigned then = mc::choose(3, "then");
		++c.n; p.shape->run(c, p.n); ++d.n; p.shape->run(d, p.n); settle(c); settle(d); mc::op("write and read"); const Words w = written(*parts, log2, "the module"); std::unique_ptr<Module> next(new Module(&al, &log2)); Reader rd(w); MC_CHECK(next->readAndInit(rd, grammar()) && log2.errors == 0, "read", "reading the binary fails: %s", log2.last.c_str());
		prog::Ctx e(*next); e.n = d.n; e.entries = d.entries; whole->finalize(&grammar()); prog::newEntry(c, spv::ExecutionModel::GLCompute); prog::newEntry(e, spv::ExecutionModel::GLCompute); mc::state(mc::mix(mc::mix(p.index, p.n), then));
		if (then == 0) { ++c.n; p.shape->run(c, p.n < 300 ? p.n : 300); ++e.n; p.shape->run(e, p.n < 300 ? p.n : 300); }
		else if (then == 1) { ++c.n; scale::shapes()[6].run(c, 70); ++e.n; scale::shapes()[6].run(e, 70); }
		else for (const Edit& x : edits()) if (!strcmp(x.name, "find by name") || !strcmp(x.name, "call functions found by name") || !strcmp(x.name, "load the last global in the first entry point") || !strcmp(x.name, "again the same constants")) { mc::op("%s", x.name); ++c.n; x.run(c); ++e.n; x.run(e); }
		MC_CHECK(log.errors == 0, "rejected", "the library rejects documented use: %s", log.last.c_str()); MC_CHECK(log2.errors == 0, ("rejected after reading:" + sig(log2.last)).c_str(), "rejected for a module that was read: %s", log2.last.c_str());
		settle(c); settle(e); const Words a = written(*whole, log, "the module built in one go"), b = written(*next, log2, "the module that was read"); mc::checked(); const std::string v = validate(b); MC_CHECK(v.empty(), ("invalid:" + sig(v)).c_str(), "the extended module is invalid: %s", v.c_str());
		size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; MC_CHECK(a == b, "different", "the module differs from the one built in one go at word %zu of %zu (%zu)", i, a.size(), b.size()); mc::outcome("same");
	}
	al.expectEmpty("after destruction");
}
