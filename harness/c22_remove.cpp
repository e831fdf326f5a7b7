// C22: removing and replacing instructions leaves no dangling references.
#include "scale.h"
using namespace spvgentwo;
using namespace ir;

namespace
{
	// a snapshot of a module, taken by walking its containers
	struct Op1 { Operand::Type t; const void* p; uint32_t v; bool operator==(const Op1& o) const { return t == o.t && p == o.p && v == o.v; } };
	struct Rec { const Instruction* p; spv::Op op; std::vector<Op1> ops; const void* home; const char* sec; };
	using Snap = std::vector<Rec>;
	std::vector<Op1> operands(const Instruction& i) { std::vector<Op1> r; for (const Operand& o : i) r.push_back(o.isInstruction() ? Op1{ o.type, o.instruction, 0 } : o.isBranchTarget() ? Op1{ o.type, o.branchTarget, 0 } : o.isId() ? Op1{ o.type, nullptr, uint32_t(o.id) } : Op1{ o.type, nullptr, o.literal.value }); return r; }
	Snap snap(Module& m)
	{
		Snap s; auto add = [&](const Instruction& i, const void* home, const char* sec) { s.push_back({ &i, i.getOperation(), operands(i), home, sec }); };
		for (auto& n : m.getCapabilities()) add(n.value, nullptr, "capability"); for (auto& n : m.getExtensions()) add(n.value, nullptr, "extension"); for (auto& n : m.getExtInstrImports()) add(n.value, nullptr, "import");
		add(m.getMemoryModel(), nullptr, "memory model"); for (EntryPoint& e : m.getEntryPoints()) add(*e.getEntryPoint(), &e, "entry point");
		for (auto& i : m.getExecutionModes()) add(i, nullptr, "execution mode"); for (auto& i : m.getSourceStrings()) add(i, nullptr, "string"); for (auto& i : m.getNames()) add(i, nullptr, "name"); for (auto& i : m.getModulesProcessed()) add(i, nullptr, "processed");
		for (auto& i : m.getDecorations()) add(i, nullptr, "decoration"); for (auto& i : m.getTypesAndConstants()) add(i, nullptr, "type or constant"); for (auto& i : m.getGlobalVariables()) add(i, nullptr, "global"); for (auto& i : m.getUndefs()) add(i, nullptr, "undef"); for (auto& i : m.getLines()) add(i, nullptr, "line");
		auto fun = [&](Function& f) { add(*f.getFunction(), &f, "function"); for (auto& i : f.getParameters()) add(i, &f, "parameter"); for (BasicBlock& b : f) { add(*b.getLabel(), &b, "label"); for (auto& i : b) add(i, &b, "body"); } add(*f.getFunctionEnd(), &f, "function end"); };
		for (Function& f : m.getFunctions()) fun(f); for (EntryPoint& e : m.getEntryPoints()) fun(e); return s;
	}
	bool annotates(spv::Op o) { switch (o) { case spv::Op::OpName: case spv::Op::OpMemberName: case spv::Op::OpDecorate: case spv::Op::OpMemberDecorate: case spv::Op::OpDecorateId: case spv::Op::OpDecorateString: case spv::Op::OpMemberDecorateString: case spv::Op::OpExecutionMode: case spv::Op::OpExecutionModeId: case spv::Op::OpGroupDecorate: case spv::Op::OpGroupMemberDecorate: return true; default: return false; } }
	std::string show(const Rec& r) { std::string s = std::string(r.sec) + " op" + std::to_string(unsigned(r.op)); for (auto& o : r.ops) { char b[40]; if (o.t == Operand::Type::Literal || o.t == Operand::Type::Id) snprintf(b, sizeof b, " %s%u", o.t == Operand::Type::Id ? "%" : "", o.v); else snprintf(b, sizeof b, " %s", o.p ? (o.t == Operand::Type::Instruction ? "instr" : "block") : "null"); s += b; } return s; }

	// what the module looks like after the instructions in gone (and the blocks) were removed; uses are redirected to repl/replB
	struct Removal { std::set<const void*> gone; const void* label = nullptr; const BasicBlock* block = nullptr; Operand::Type rt = Operand::Type::Instruction; const void* repl = nullptr; const void* target = nullptr; };
	Snap after(const Snap& s, const Removal& r, std::vector<const Instruction*>& users)
	{
		Snap out; for (const Rec& i : s)
		{
			if (r.gone.count(i.p)) continue; if (annotates(i.op) && !i.ops.empty() && (i.ops[0].t == Operand::Type::Instruction || i.ops[0].t == Operand::Type::BranchTarget) && i.ops[0].p && r.gone.count(i.ops[0].p)) continue;
			Rec n = i; n.ops.clear(); bool used = false;
			// names of the interface of an entry point, and targets of a decoration group, are dropped
			size_t str = i.ops.size(); if (i.op == spv::Op::OpEntryPoint) { str = 2; while (str < i.ops.size() && i.ops[str].t == Operand::Type::Literal) ++str; }
			for (size_t k = 0; k < i.ops.size(); ++k)
			{
				Op1 o = i.ops[k]; const bool hit = (o.t == Operand::Type::Instruction || o.t == Operand::Type::BranchTarget) && o.p && (r.gone.count(o.p) || o.p == r.block);
				if (hit && i.op == spv::Op::OpEntryPoint && k >= str) { used = true; continue; }
				if (hit && i.op == spv::Op::OpGroupDecorate && k > 0) continue;
				if (hit) { used = true; const bool t = o.p == r.target || o.p == r.label || o.p == r.block; o = t ? Op1{ r.rt, r.repl, 0 } : Op1{ Operand::Type::Instruction, nullptr, 0 }; if (!o.p) o.t = i.ops[k].t; }
				n.ops.push_back(o);
			}
			if (used) users.push_back(i.p); out.push_back(n);
		}
		return out;
	}
	void compare(const Snap& e, const Snap& a, const char* what)
	{
		for (size_t k = 0; k < std::max(e.size(), a.size()); ++k)
		{
			if (k >= a.size() || (k < e.size() && a[k].p != e[k].p)) { bool there = false; if (k < e.size()) for (auto& r : a) if (r.p == e[k].p) there = true; if (k >= e.size() || there) mc::fail((std::string("left:") + (k < a.size() ? a[k].sec : "?")).c_str(), "%s stays although it should be gone after %s", show(a[k]).c_str(), what); mc::fail((std::string("lost:") + e[k].sec).c_str(), "%s is gone after %s", show(e[k]).c_str(), what); }
			if (k >= e.size()) mc::fail((std::string("left:") + a[k].sec).c_str(), "%s stays although it should be gone after %s", show(a[k]).c_str(), what);
			auto norm = [](std::vector<Op1> v) { for (auto& o : v) if (!o.p && (o.t == Operand::Type::BranchTarget)) o.t = Operand::Type::Instruction; return v; };
			MC_CHECK(a[k].op == e[k].op && norm(a[k].ops) == norm(e[k].ops) && a[k].home == e[k].home, (std::string("operands:") + e[k].sec).c_str(), "after %s: is '%s', expected '%s'", what, show(a[k]).c_str(), show(e[k]).c_str());
		}
	}
	struct Known { std::map<const Instruction*, Type> types; std::map<const Instruction*, Constant> consts; std::map<const Instruction*, std::vector<std::pair<unsigned, std::string>>> names; };
	bool same(const Constant& a, const Constant& b) { if (a.getOperation() != b.getOperation() || !(a.getType() == b.getType()) || !std::equal(a.getData().begin(), a.getData().end(), b.getData().begin(), b.getData().end()) || a.getComponents().size() != b.getComponents().size()) return false; auto i = a.getComponents().begin(), j = b.getComponents().begin(); for (; i != a.getComponents().end(); ++i, ++j) if (!same(*i, *j)) return false; return true; }
	Known lookups(Module& m, const Snap& s)
	{
		Known k; for (auto& r : s) { if (const Type* t = m.getTypeInfo(r.p)) k.types.emplace(r.p, *t); if (const Constant* c = m.getConstantInfo(r.p)) k.consts.emplace(r.p, *c); std::vector<std::pair<unsigned, std::string>> v; for (auto& n : m.getNames(r.p)) v.push_back({ n.memberIndex, n.name }); std::sort(v.begin(), v.end()); if (!v.empty()) k.names[r.p] = v; } return k;
	}
	void compareLookups(Module& m, const Known& k, const Snap& now, const std::set<const void*>& gone, const char* what)
	{
		const Known n = lookups(m, now); std::set<const Instruction*> alive; for (auto& r : now) alive.insert(r.p);
		for (auto& [p, t] : k.types) { if (gone.count(p)) { Instruction* f = m.getTypeInstr(t); MC_CHECK(!f || alive.count(f), "type-lookup", "looking up a removed type finds the removed instruction after %s", what); } else { auto it = n.types.find(p); MC_CHECK(it != n.types.end() && it->second == t, "type-info", "the type of another instruction is no longer known after %s", what); Instruction* f = m.getTypeInstr(t); MC_CHECK(f && alive.count(f), "type-unknown", "a type is no longer found after %s", what); } }
		for (auto& [p, c] : k.consts) if (!gone.count(p)) { auto it = n.consts.find(p); MC_CHECK(it != n.consts.end() && same(it->second, c), "constant-info", "the value of another constant is no longer known after %s", what); }
		for (auto& [p, v] : k.names) if (!gone.count(p)) { auto it = n.names.find(p); MC_CHECK(it != n.names.end() && it->second == v, "names", "the names of another instruction changed after %s", what); }
		for (auto& [p, v] : k.names) { if (gone.count(p)) MC_CHECK(m.getName(p) == nullptr, "name-of-removed", "a removed instruction still has a name after %s", what); for (auto& x : v) if (x.first == ~0u) { Instruction* f = m.getInstructionByName(x.second.c_str()); MC_CHECK(!f || alive.count(f), "name-lookup", "looking up '%s' finds a removed instruction after %s", x.second.c_str(), what); if (!gone.count(p)) MC_CHECK(f, "name-lost", "looking up '%s' finds nothing after %s", x.second.c_str(), what); } }
		for (auto& node : m.getNameLookupMap()) MC_CHECK(alive.count(node.key), "name-map", "the table of names refers to a removed instruction after %s", what);
		for (auto& node : m.getCapabilities()) MC_CHECK(node.value.front().getLiteral() == unsigned(node.key), "map", "a table is inconsistent after %s", what);
	}

	struct Prog { Module m; std::vector<Function*> funs; Prog(IAllocator* a, ILogger* l) : m(a, l) {} };
	void build(Module& m, bool finished)
	{
		prog::Ctx c(m); prog::start(c); m.addExtension("SPV_KHR_a"); m.addExtension("SPV_KHR_b");
		auto step = [&](const char* n) { for (auto& s : prog::steps()) if (!strcmp(s.name, n)) { ++c.n; s.run(c); return; } mc::broken("no step %s", n); };
		step("uniform block"); step("helper function"); step("if else with phi"); step("names and lines"); step("spec constant"); step("output"); step("imported function"); step("undef and copy");
		Instruction* a = m.specConstant(77, "twinA"); Instruction* b = m.specConstant(77, "twinB"); m.addDecorationInstr()->opDecorate(a, spv::Decoration::SpecId, 91u); m.addDecorationInstr()->opDecorate(b, spv::Decoration::SpecId, 92u); c.i = c.bb->Add(c.i, a);
		m.constant(123456); Type t = m.newType(); t.Struct(); t.FloatM(); t.FloatM(); t.FloatM(); Instruction* ti = m.addType(t, "Unused"); m.addMemberName(ti, "x", 0); m.addMemberName(ti, "y", 1);
		Instruction* g = m.addDecorationInstr(); g->setOperation(spv::Op::OpDecorationGroup); g->addOperand(InvalidId); m.addName(g, "group"); Instruction* v = m.variable<float>(spv::StorageClass::Private, "lonely"); Instruction* v2 = m.variable<float>(spv::StorageClass::Private, "lonely2"); m.addDecorationInstr()->opDecorate(g, spv::Decoration::RelaxedPrecision); Instruction* gd = m.addDecorationInstr(); gd->setOperation(spv::Op::OpGroupDecorate); gd->addOperand(g); gd->addOperand(v); gd->addOperand(v2);
		{ Instruction* mp = m.addModuleProccessedInstr(); mp->setOperation(spv::Op::OpModuleProcessed); mp->appendLiterals("tool"); } m.addExtensionInstructionImport("OpenCL.std"); step("extended instruction");
		Function& u = m.addFunction<void, float>("unusedHelper"); { BasicBlock& ub = *u; ub.Add(u.getParameter(0), u.getParameter(0)); ub.returnValue(); } m.addName(u.getParameter(0), "param"); m.addDecorationInstr()->opDecorate(u.getParameter(0), spv::Decoration::RelaxedPrecision);
		step("call again"); step("loop"); prog::finish(c); prog::newEntry(c, spv::ExecutionModel::GLCompute); step("call again"); step("local variable"); m.addName(c.bb->getLabel(), "top"); if (finished) prog::finish(c);
	}
	const Words& binary() { static const Words w = [] { HeapAllocator a; Log l; Module m(&a, &l); build(m, true); Writer w; m.finalizeAndWrite(w, &grammar()); return w.words; }(); return w; }

	struct Block { Function* f; BasicBlock* b; };
	void makeLarge(Module& m, const scale::Pick& p, const unsigned state, Log& log)
	{
		auto fill = [&](Module& x) { prog::Ctx c(x); prog::start(c); ++c.n; p.shape->run(c, p.n); prog::finish(c); };
		if (state == 2) { Words w; { HeapAllocator a; Log l; Module x(&a, &l); fill(x); Writer wr; if (!x.finalizeAndWrite(wr, &grammar())) mc::fail("write", "writing a large module fails: %s", l.last.c_str()); w = wr.words; } Reader r(w); if (!m.readAndInit(r, grammar())) mc::fail("read", "reading a large module fails: %s", log.last.c_str()); }
		else { fill(m); if (state == 1) m.finalize(&grammar()); }
	}
	void run(const unsigned depth, const unsigned state, const scale::Pick* large = nullptr)
	{
		track::Allocator al; Log log;
		{
			Module m(&al, &log); static const char* names[] = { "a module under construction", "a finalized module", "a module read from a binary", "a module with an unfinished block" }; mc::op("%s", names[state]);
			if (large) makeLarge(m, *large, state, log);
			else if (state == 2) { Reader r(binary()); if (!m.readAndInit(r, grammar())) mc::fail("read", "reading a valid binary fails: %s", log.last.c_str()); } else { build(m, state != 3); if (state == 1) m.finalize(&grammar()); }
			log.errors = 0; std::set<const void*> goneAll;
			for (unsigned d = 0; d < depth; ++d)
			{
				Snap s = snap(m); Known k = lookups(m, s); std::vector<Function*> funs; std::vector<Block> blocks; for (Function& f : m.getFunctions()) funs.push_back(&f); for (EntryPoint& e : m.getEntryPoints()) funs.push_back(&e); for (Function* f : funs) for (BasicBlock& b : *f) blocks.push_back({ f, &b });
				const unsigned I = unsigned(s.size()), F = unsigned(funs.size()), B = unsigned(blocks.size());
				unsigned c = 0; const unsigned all = I + 2 * F + 2 * B;
				if (large) { const unsigned q = mc::choose(8 + 6, "which"); c = q < 8 ? 1 + (I - 1) * q / 7 : 1 + I + (2 * F + 2 * B - 1) * (q - 8) / 5; if (c > all) return; } // spread over the instructions, then over the functions and blocks
				else c = mc::choose(1 + all, d ? "second" : "first"); if (c == 0) break; Removal r; std::vector<const Instruction*> users; List<Instruction*> uses(&al); bool reported = false; std::string what;
				if (c <= I)
				{
					const Rec& x = s[c - 1]; const bool fixed = !strcmp(x.sec, "memory model") || !strcmp(x.sec, "function") || !strcmp(x.sec, "function end") || !strcmp(x.sec, "label") || !strcmp(x.sec, "entry point");
					what = "removing the " + show(x); mc::op("%s", what.c_str()); const bool viaBlock = !strcmp(x.sec, "body") && c % 2; const bool ok = viaBlock ? x.p->getBasicBlock()->remove(x.p) : m.remove(x.p);
					MC_CHECK(ok == !fixed, "result", "%s reports %s", what.c_str(), ok ? "success" : "failure"); if (!fixed) { r.gone.insert(x.p); r.target = x.p; }
					if (x.op == spv::Op::OpName || x.op == spv::Op::OpMemberName)
					{
						std::string text; const bool mem = x.op == spv::Op::OpMemberName; for (size_t j = mem ? 2 : 1; j < x.ops.size(); ++j) for (unsigned by = 0; by < 4; ++by) if (char ch = char(x.ops[j].v >> 8 * by)) text += ch;
						auto& v = k.names[static_cast<const Instruction*>(x.ops[0].p)]; auto it = std::find(v.begin(), v.end(), std::make_pair(mem ? x.ops[1].v : ~0u, text)); if (it != v.end()) v.erase(it); if (v.empty()) k.names.erase(static_cast<const Instruction*>(x.ops[0].p));
					}
				}
				else if (c <= I + 2 * F)
				{
					const unsigned z = c - 1 - I; Function* f = funs[z % F]; Function* rep = nullptr; if (z >= F) { for (Function* g : funs) if (g != f && !g->isEntryPoint()) { rep = g; break; } if (!rep) return; }
					what = std::string("removing ") + (f->isEntryPoint() ? "an entry point" : "a function") + (rep ? " with a replacement" : ""); mc::op("%s %u", what.c_str(), z % F);
					for (auto& x : s) if (x.home == f) r.gone.insert(x.p); for (auto& b : blocks) if (b.f == f) for (auto& x : s) if (x.home == b.b) r.gone.insert(x.p);
					r.target = f->getFunction(); if (rep) r.repl = rep->getFunction(); for (auto& b : blocks) if (b.f == f) r.gone.insert(b.b); uses = m.remove(f, rep); reported = true;
				}
				else
				{
					const unsigned z = c - 1 - I - 2 * F; Block b = blocks[z % B]; BasicBlock* rep = nullptr; if (z >= B) { for (auto& o : blocks) if (o.f == b.f && o.b != b.b) { rep = o.b; break; } if (!rep) return; }
					what = rep ? "removing a block with a replacement" : "removing a block"; mc::op("%s %u", what.c_str(), z % B);
					for (auto& x : s) if (x.home == b.b) r.gone.insert(x.p); r.block = b.b; r.label = b.b->getLabel(); r.rt = Operand::Type::BranchTarget; r.repl = rep; uses = b.f->remove(b.b, rep); reported = true;
				}
				const Snap e = after(s, r, users); Snap a = snap(m);
				// a use of the label of a removed block may be redirected to the block or to its label
				compare(e, a, what.c_str());
				if (reported) { std::set<const Instruction*> got, want(users.begin(), users.end()); for (Instruction* i : uses) got.insert(i); for (auto* i : got) MC_CHECK(want.count(i), "uses-wrong", "an instruction that does not use what was removed (or was removed itself) is reported as a use after %s", what.c_str()); for (auto* i : want) MC_CHECK(got.count(i), "uses-missing", "an instruction that used what was removed is not reported after %s", what.c_str()); }
				goneAll.insert(r.gone.begin(), r.gone.end()); compareLookups(m, k, a, r.gone, what.c_str());
				mc::state(mc::mix(mc::mix(state, c), d));
			}
			const Snap s = snap(m); bool nulls = false, open = false; for (auto& r : s) for (auto& o : r.ops) if ((o.t == Operand::Type::Instruction || o.t == Operand::Type::BranchTarget) && !o.p) nulls = true;
			auto ends = [&](Function& f) { for (BasicBlock& b : f) if (!b.getTerminator()) open = true; }; for (Function& f : m.getFunctions()) ends(f); for (Function& f : m.getEntryPoints()) ends(f);
			Writer w; const bool ok = m.finalizeAndWrite(w, &grammar());
			if (!nulls && !open) { MC_CHECK(ok, "write", "the module can not be written any more: %s", log.last.c_str()); std::vector<Words> raw; MC_CHECK(split(w.words, raw), "word-count", "the word counts of the written binary do not add up"); size_t bodies = 0; for (auto& r : snap(m)) (void)r, ++bodies; MC_CHECK(raw.size() == bodies, "written-count", "%zu instructions are written, the module has %zu", raw.size(), bodies); mc::outcome("written"); }
			else { MC_CHECK(!ok, "write-null", "a module in which %s is written successfully", open ? "a block has no terminator" : "an operand refers to nothing"); mc::outcome("not writable"); }
		}
		al.expectEmpty("after destruction");
	}
	void replace(const unsigned state)
	{
		track::Allocator al; Log log;
		{
			Module m(&al, &log); if (state == 2) { Reader r(binary()); m.readAndInit(r, grammar()); } else { build(m, state != 3); if (state == 1) m.finalize(&grammar()); }
			const Snap s = snap(m); const unsigned I = unsigned(s.size()); const unsigned a = mc::choose(I, "old"), how = mc::choose(3, "how"), b = (a + 1 + mc::choose(unsigned(mc::bound(2, 12)), "new")) % I; if (how == 2 && b != (a + 1) % I) return;
			mc::op("%s of '%s' %s", how == 0 ? "replaceUses" : how == 1 ? "gatherUses with a replacement" : "gatherUses", show(s[a]).c_str(), how == 2 ? "" : ("by '" + show(s[b]) + "'").c_str());
			Instruction *x = const_cast<Instruction*>(s[a].p), *y = const_cast<Instruction*>(s[b].p); List<Instruction*> uses(&al); if (how == 0) m.replaceUses(x, y); else m.gatherUses(x, uses, how == 1 ? y : nullptr);
			Snap e = s; std::multiset<const Instruction*> users; for (auto& r : e) for (auto& o : r.ops) if (o.t == Operand::Type::Instruction && o.p == x) { users.insert(r.p); if (how != 2) o.p = y; }
			compare(e, snap(m), "replacing"); if (how) { std::multiset<const Instruction*> got; for (Instruction* i : uses) got.insert(i); MC_CHECK(std::set<const Instruction*>(got.begin(), got.end()) == std::set<const Instruction*>(users.begin(), users.end()), "gathered", "%zu uses are reported, there are %zu", got.size(), users.size()); }
			mc::state(mc::mix(mc::mix(a, b), how * 4 + state)); mc::outcome(users.empty() ? "unused" : "used");
		}
		al.expectEmpty("replace");
	}
}
MC_SCENARIO(remove_one, 0) { const unsigned state = mc::choose(4, "state"); run(1, state); }
MC_SCENARIO(large, 1) { const scale::Pick p = scale::choose(unsigned(mc::bound(4, 2)), 300); const unsigned state = 1 + mc::choose(2, "state"); run(1, state, &p); }
MC_SCENARIO(remove_two, 1) { const unsigned state = mc::choose(mc::thorough() ? 4 : 1, "state"); run(2, state); }
MC_SCENARIO(replaced, 0) { const unsigned state = mc::choose(4, "state"); replace(state); }
// what does not belong to the container (or is nothing) can not be removed from it: nothing changes
MC_SCENARIO(foreign, 2)
{
	track::Allocator al; Log log;
	{
		Module m(&al, &log), other(&al, &log); build(m, true); build(other, true); const Snap s = snap(m), t = snap(other);
		std::vector<Function*> funs; std::vector<Block> blocks; for (Function& f : m.getFunctions()) funs.push_back(&f); for (EntryPoint& e : m.getEntryPoints()) funs.push_back(&e); for (Function* f : funs) for (BasicBlock& b : *f) blocks.push_back({ f, &b });
		const unsigned kind = mc::choose(6, "kind"); bool ok = false; size_t uses = 0;
		if (kind == 0) { const unsigned i = mc::choose(unsigned(t.size()) + 1, "instruction"); const Instruction* x = i < t.size() ? t[i].p : nullptr; mc::op("Module::remove(%s)", x ? ("of another module: " + show(t[i])).c_str() : "nullptr"); mc::state(i); ok = m.remove(x); }
		if (kind == 1) { const unsigned b = mc::choose(unsigned(blocks.size()), "block"), i = mc::choose(unsigned(s.size()) + 1, "instruction"); const Instruction* x = i < s.size() ? s[i].p : nullptr; if (i < s.size() && s[i].home == blocks[b].b && strcmp(s[i].sec, "label")) return; mc::op("BasicBlock %u remove(%s)", b, x ? show(s[i]).c_str() : "nullptr"); mc::state(mc::mix(b, i) + 1); ok = blocks[b].b->remove(x); }
		if (kind == 2) { const unsigned f = mc::choose(unsigned(funs.size()), "function"), b = mc::choose(unsigned(blocks.size()) + 1, "block"); if (b < blocks.size() && blocks[b].f == funs[f]) return; mc::op("Function %u remove(block %u)", f, b); mc::state(mc::mix(f, b) + 2); uses = funs[f]->remove(b < blocks.size() ? blocks[b].b : nullptr).size(); }
		if (kind == 3) { std::vector<Function*> theirs{ nullptr }; for (Function& f : other.getFunctions()) theirs.push_back(&f); for (EntryPoint& e : other.getEntryPoints()) theirs.push_back(&e); const unsigned f = mc::choose(unsigned(theirs.size()), "function"); mc::op("Module::remove(function %u of another module)", f); mc::state(f + 3); uses = m.remove(theirs[f]).size(); }
		if (kind == 4) { static const spv::Capability caps[] = { spv::Capability::Kernel, spv::Capability::Int64, spv::Capability::RayTracingKHR }; const unsigned c = mc::choose(3, "capability"); for (auto& n : m.getCapabilities()) if (n.key == caps[c]) return; mc::op("removeCapability(%u)", unsigned(caps[c])); mc::state(c + 4); ok = m.removeCapability(caps[c]); }
		if (kind == 5) { const unsigned i = mc::choose(unsigned(s.size()), "instruction"), j = mc::choose(2, "from"); mc::op("replaceUses(%s) of %s", j ? "instruction of another module" : "itself", show(s[i]).c_str()); mc::state(mc::mix(i, j) + 5); Instruction* x = const_cast<Instruction*>(s[i].p); if (j) m.replaceUses(const_cast<Instruction*>(t[i].p), x); else m.replaceUses(x, x); }
		MC_CHECK(!ok && !uses, "foreign removed", "removing something that is not part of the container reports success"); compare(s, snap(m), "a removal which fails"); compare(t, snap(other), "a removal from another module"); mc::outcome("unchanged");
	}
	al.expectEmpty("foreign");
}
