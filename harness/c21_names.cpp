// C21: names are found for exactly the instruction and member they were given to.
#include "programs.h"
#include <optional>
using namespace spvgentwo;
using namespace ir;

namespace
{
	const char* const NAMES[] = { "a", "ab", "\x01", "abcd", "abcdefgh", "main", "\xc3\xa4", "abcdef", "" };
	const char* const ASKED[] = { "a", "ab", "\x01", "abcd", "abcdefgh", "main", "\xc3\xa4", "abcdef", "", "b", "abc", "abcde", "\x02", "mai", "mainx", "abcdefghi", "FunctionEntry" };
	const unsigned MEMBERS[] = { 0, 1, 97, 0xfffffffe };
	// the targets: a variable, a function, a struct, a second struct, a constant, a block, a parameter
	struct Mod
	{
		std::optional<Module> m; std::vector<Instruction*> t; unsigned n = 0;
		void build(IAllocator& a, Log& l)
		{
			m.emplace(&a, &l); prog::Ctx c(*m); m->addCapability(spv::Capability::Shader); m->addCapability(spv::Capability::Linkage);
			Instruction* v = m->variable<float>(spv::StorageClass::Private); Function& f = m->addFunction<void, float>(nullptr, spv::FunctionControlMask::MaskNone, false); BasicBlock& b = f.addBasicBlock(); b.returnValue();
			Type s(m->newType()); s.Struct(); s.FloatM(); s.FloatM(); Instruction* s1 = m->addType(s); s.IntM(); Instruction* s2 = m->addType(s); Instruction* k = m->constant(42u); t = { v, f.getFunction(), s1, s2, k, b.getLabel(), f.getParameter(0) };
		}
		void find() // the same targets in a module that was read
		{
			t.assign(7, nullptr); t[0] = m->getGlobalVariables().empty() ? nullptr : &m->getGlobalVariables().front(); if (!m->getFunctions().empty()) { Function& f = m->getFunctions().front(); t[1] = f.getFunction(); t[5] = (*f).getLabel(); t[6] = f.getParameter(0); }
			for (Instruction& i : m->getTypesAndConstants()) { if (i.getOperation() == spv::Op::OpTypeStruct) { (t[2] ? t[3] : t[2]) = &i; } if (i.getOperation() == spv::Op::OpConstant) t[4] = &i; }
		}
	};
	using Model = std::map<std::pair<unsigned, unsigned>, std::vector<std::string>>; // (target, member) -> names, member ~0 for the target itself

	void check(Module& m, const std::vector<Instruction*>& t, const Model& model, const std::set<unsigned>& gone, const char* what)
	{
		for (unsigned x = 0; x < t.size(); ++x) if (!gone.count(x))
		{
			size_t count = 0;
			for (unsigned idx : { ~0u, 0u, 1u, 2u, 97u, 0xfffffffeu, 0xfffffffdu })
			{
				auto it = model.find({ x, idx }); const char* got = idx == ~0u ? m.getName(t[x]) : m.getName(t[x], idx); const char* viaInstr = t[x]->getName(idx);
				MC_CHECK(got == viaInstr, "two-answers", "Module::getName and Instruction::getName differ (%s)", what);
				if (it == model.end()) MC_CHECK(got == nullptr, "named", "target %u (member %d) has the name '%s' but was never given one (%s)", x, int(idx), got, what);
				else { MC_CHECK(got != nullptr, "unnamed", "target %u (member %d) has lost its name '%s' (%s)", x, int(idx), it->second[0].c_str(), what); MC_CHECK(std::find(it->second.begin(), it->second.end(), got) != it->second.end(), "wrong-name", "target %u (member %d) is called '%s', it was named '%s' (%s)", x, int(idx), got, it->second[0].c_str(), what); count += it->second.size(); }
			}
			std::multiset<std::pair<unsigned, std::string>> all, want; for (auto& n : m.getNames(t[x])) all.insert({ n.memberIndex, n.name }); for (auto& [k, v] : model) if (k.first == x) for (auto& s : v) want.insert({ k.second, s });
			MC_CHECK(all == want, "names", "%zu names are listed for target %u, it was given %zu (%s)", all.size(), x, want.size(), what);
			if (x == 1) for (Function& f : m.getFunctions()) if (f.getFunction() == t[1]) { const char* fn = f.getName(); MC_CHECK((fn == nullptr) == (model.count({ 1, ~0u }) == 0), "function-name", "Function::getName answers differently (%s)", what); }
		}
		for (const char* a : ASKED)
		{
			Instruction* f = m.getInstructionByName(a); bool any = false, right = false; for (auto& [k, v] : model) if (k.second == ~0u) for (auto& s : v) if (s == a) { any = true; if (f == t[k.first]) right = true; }
			if (any) { MC_CHECK(f != nullptr, "by-name-missing", "no instruction is found for '%s' (%s)", a, what); MC_CHECK(right, "by-name-wrong", "the instruction found for '%s' has another name (%s)", a, what); }
			else MC_CHECK(f == nullptr, "by-name-ghost", "an instruction is found for '%s', which is the name of none (%s)", a, what);
		}
	}
	void run(const unsigned depth)
	{
		track::Allocator al; Log log;
		{
			Mod d; d.build(al, log); Model model; std::set<unsigned> gone; uint64_t h = 1; const unsigned N = unsigned(mc::bound(7, 9)), T = unsigned(mc::bound(5, 7)), M = unsigned(mc::bound(3, 4)), MN = 3;
			for (unsigned s = 0; s < depth; ++s)
			{
				const unsigned ops = T * N + 2 * M * MN + T + 2 + 2; unsigned k = mc::choose(1 + ops, "op"); if (k-- == 0) break; h = mc::mix(h, k);
				if (k < T * N) { const unsigned x = k / N; const char* n = NAMES[k % N]; if (gone.count(x)) return; mc::op("target %u is named '%s'", x, n); d.m->addName(d.t[x], n); model[{ x, ~0u }].push_back(n); }
				else if ((k -= T * N) < 2 * M * MN) { const unsigned x = 2 + k / (M * MN), i = MEMBERS[k % M]; const char* n = NAMES[k / M % MN]; if (gone.count(x)) return; mc::op("member %u of struct %u is named '%s'", i, x, n); d.m->addMemberName(d.t[x], n, i); model[{ x, i }].push_back(n); }
				else if ((k -= 2 * M * MN) < T) { if (k == 1 || k >= 5 || gone.count(k)) return; mc::op("target %u is removed", k); MC_CHECK(d.m->remove(d.t[k]), "remove", "removing fails"); gone.insert(k); for (auto it = model.begin(); it != model.end();) it = it->first.first == k ? model.erase(it) : std::next(it); }
				else if ((k -= T) < 2)
				{
					if (gone.count(2) && !gone.count(3)) return; // the targets are found by their order afterwards
					mc::op(k ? "the module is written, read and initialized" : "the module is written, read, resolved and its names reconstructed"); Writer w; MC_CHECK(d.m->finalizeAndWrite(w, &grammar()), "write", "writing fails: %s", log.last.c_str());
					Mod r; r.m.emplace(&al, &log); Reader rd(w.words); if (k) MC_CHECK(r.m->readAndInit(rd, grammar()), "read", "reading fails: %s", log.last.c_str()); else MC_CHECK(r.m->read(rd, grammar()) && r.m->resolveIDs() && r.m->reconstructNames(), "read", "reading fails: %s", log.last.c_str());
					r.find(); d.m.reset(); d.m.emplace(std::move(*r.m)); d.t = r.t;
				}
				else { k -= 2; // naming something that already exists through the call that returns it
					if (k == 0) { if (gone.count(4)) return; mc::op("the existing constant is requested with a name"); if (d.m->constant(42u) != d.t[4]) return; const bool had = model.count({ 4, ~0u }); d.m->constant(42u, false, "ab"); if (!had) model[{ 4, ~0u }].push_back("ab"); }
					else { if (gone.count(2)) return; mc::op("the existing struct is requested with a name"); Type st(d.m->newType()); st.Struct(); st.FloatM(); st.FloatM(); if (d.m->getTypeInstr(st) != d.t[2]) return; const bool had = model.count({ 2, ~0u }); d.m->addType(st, "a"); if (!had) model[{ 2, ~0u }].push_back("a"); } }
				check(*d.m, d.t, model, gone, "after this"); mc::state(h);
			}
			// and the binary carries them
			Writer w; MC_CHECK(d.m->finalizeAndWrite(w, &grammar()), "write", "writing fails: %s", log.last.c_str()); Mod r; r.m.emplace(&al, &log); Reader rd(w.words); MC_CHECK(r.m->readAndInit(rd, grammar()), "read", "reading fails: %s", log.last.c_str());
			if (!gone.count(2) || gone.count(3)) { r.find(); check(*r.m, r.t, model, gone, "in the module read back"); }
			mc::outcome(gone.empty() ? "names" : "names and removals");
		}
		al.expectEmpty("after destruction");
	}
	// names given through the calls that create what they name
	void created()
	{
		track::Allocator al; Log log; const unsigned kind = mc::choose(14, "kind"), ni = mc::choose(8, "name"), mode = mc::choose(3, "mode"); const char* n = NAMES[ni];
		{
			std::optional<Module> m; m.emplace(&al, &log); prog::Ctx c(*m); prog::start(c); Instruction* i = nullptr; BasicBlock& b = *c.bb; mc::op("creator %u with the name '%s', %s", kind, n, mode == 0 ? "built" : mode == 1 ? "read" : "moved"); if (ni == 5) return; // 'main' names the entry point
			const EntryPoint* ep = nullptr;
			switch (kind)
			{
			case 0: i = m->variable<float>(spv::StorageClass::Private, n); break;
			case 1: i = m->input<glsl::vec4>(n); break;
			case 2: i = c.fun->variable<float>(n); break;
			case 3: i = m->addFunction<float, float>(n).getFunction(); break;
			case 4: i = m->constant(1234, false, n); break;
			case 5: i = m->specConstant(1234, n); break;
			case 6: { Type t(m->newType()); t.Struct(); t.FloatM(); i = m->addType(t, n); break; }
			case 7: i = c.fun->addBasicBlock(n).getLabel(); break;
			case 8: { EntryPoint& e = m->addEntryPoint(spv::ExecutionModel::Vertex, n); i = e.getFunction(); (*e).returnValue(); ep = &e; break; }
			case 9: { EntryPoint& e = m->addEntryPoint(); e.finalize(spv::ExecutionModel::Vertex, spv::FunctionControlMask::MaskNone, n); e.addBasicBlock().returnValue(); i = e.getFunction(); ep = &e; break; }
			case 10: { Function& f = m->addFunction(); f.setReturnType(m->type<int>()); f.addParameters(m->type<int>()); i = f.finalize(spv::FunctionControlMask::Pure, n); f.addBasicBlock().returnValue(f.getParameter(0)); break; }
			case 11: i = m->storageBuffer(m->newType<float>(), n); break;
			case 12: i = m->variable(m->newType<float>(), spv::StorageClass::Private, n); break;
			case 13: i = c.fun->variable(5, n); break;
			}
			(void)b; const bool dead = kind == 7; if (kind == 3) { Function& f = m->getFunctions().back(); (*f).returnValue(f.getParameter(0)); } if (dead) c.fun->back().addInstruction()->opUnreachable(); if (!dead) prog::finish(c); else (*c.fun)->opReturn();
			auto ask = [&](Module& x, Instruction* t, const char* what) { MC_CHECK(t != nullptr, "created-lost", "the instruction is gone (%s)", what); const char* g = x.getName(t); MC_CHECK(g && !strcmp(g, n), "created-name", "what creator %u made is called '%s' instead of '%s' (%s)", kind, g ? g : "nothing", n, what); Instruction* f = x.getInstructionByName(n); MC_CHECK(f == t, "created-by-name", "looking up '%s' does not find what creator %u made (%s)", n, kind, what); };
			ask(*m, i, "built"); if (ep) { const char* g = ep->getName(); MC_CHECK(g && !strcmp(g, n), "entry-name", "the entry point is called '%s' instead of '%s'", g ? g : "nothing", n); }
			if (mode == 0) { mc::outcome("built"); return; }
			if (mode == 2) { Module x(std::move(*m)); ask(x, i, "moved"); if (ep) MC_CHECK(!strcmp(ep->getName(), n), "entry-name", "a moved entry point lost its name"); Module y(&al, &log); y = std::move(x); ask(y, i, "moved twice"); mc::outcome("moved"); return; }
			Writer w; MC_CHECK(m->finalizeAndWrite(w, &grammar()), "write", "writing fails: %s", log.last.c_str()); const spv::Id id = i->getResultId(); std::optional<Module> r; r.emplace(&al, &log); Reader rd(w.words); MC_CHECK(r->read(rd, grammar()) , "read", "reading fails"); Instruction* t = r->getInstructionById(id); MC_CHECK(r->resolveIDs() && r->reconstructNames(), "read", "reading fails: %s", log.last.c_str()); ask(*r, t, "read");
			if (ep) for (EntryPoint& e : r->getEntryPoints()) if (e.getFunction() == t) { const char* g = e.getName(); MC_CHECK(g && !strcmp(g, n), "entry-name-read", "the entry point read back is called '%s' instead of '%s'", g ? g : "nothing", n); }
			mc::outcome("read");
		}
		al.expectEmpty("created");
	}
}
MC_SCENARIO(named, 2) { run(mc::bound(3, 4)); }
MC_SCENARIO(created_named, 0) { created(); }

// many names at once, long ones, and ones that differ late: every one is found, and nothing else
MC_SCENARIO(many_names, 1)
{
	static const unsigned SIZES[] = { 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1025 }; const unsigned n = SIZES[mc::choose(unsigned(sizeof SIZES / sizeof *SIZES), "number")], style = mc::choose(5, "style"), target = mc::choose(3, "target"), mode = mc::choose(4, "mode");
	auto text = [&](unsigned i) -> std::string { switch (style) { case 0: return "v" + std::to_string(i); case 1: return "a_common_prefix_of_many_words_" + std::to_string(i); case 2: return std::to_string(i) + "_and_the_same_end"; case 3: return std::string(i + 1, 'x'); default: return std::string(n, 'y') + char('a' + i % 26) + std::to_string(i / 26); } };
	const unsigned count = style == 3 && n > 300 ? 300 : style == 4 ? (n < 40 ? n : 40) : n; track::Allocator al; Log log; mc::op("%u %s with names of style %u, %s", count, target == 0 ? "variables" : target == 1 ? "members of two structs" : "functions and variables", style, mode == 0 ? "built" : mode == 1 ? "read" : mode == 2 ? "moved" : "every third removed");
	{
		std::optional<Module> m; m.emplace(&al, &log); prog::Ctx c(*m); prog::start(c); std::vector<Instruction*> t; std::vector<std::string> names; std::vector<unsigned> member; Instruction* structs[2] = {};
		for (unsigned i = 0; i < count; ++i) names.push_back(text(i));
		if (target == 1) for (unsigned k = 0; k < 2; ++k) { Type st(m->newType()); st.Struct(); for (unsigned i = 0; i < count; ++i) { if (k) st.IntM(); else st.FloatM(); } structs[k] = m->addType(st, k ? "SecondStruct" : "FirstStruct"); }
		for (unsigned i = 0; i < count; ++i)
		{
			const char* s = names[i].c_str(); member.push_back(~0u);
			if (target == 0) t.push_back(m->variable<float>(spv::StorageClass::Private, s)); else if (target == 1) { t.push_back(structs[i % 2]); member.back() = i; m->addMemberName(structs[i % 2], s, i); m->addMemberName(structs[1 - i % 2], ("other" + names[i]).c_str(), i); }
			else if (i % 2) t.push_back(m->variable<int>(spv::StorageClass::Private, s)); else { Function& f = m->addFunction<void>(s); (*f).returnValue(); t.push_back(f.getFunction()); }
		}
		prog::finish(c); std::vector<bool> gone(count, false); Module* at = &*m; std::optional<Module> r;
		auto check = [&](const char* what)
		{
			for (unsigned i = 0; i < count; ++i) if (!gone[i])
			{
				const char* g = at->getName(t[i], member[i]); MC_CHECK(g && names[i] == g, "wrong-name", "name %u is reported as '%.60s' (%s)", i, g ? g : "nothing", what); if (target != 1) { Instruction* f = at->getInstructionByName(names[i].c_str()); MC_CHECK(f == t[i], "by-name-wrong", "looking up name %u finds %s (%s)", i, f ? "something else" : "nothing", what); }
				else { const char* o = at->getName(structs[1 - i % 2], i); MC_CHECK(o && "other" + names[i] == o, "wrong-name", "the member %u of the other struct is called '%.60s' (%s)", i, o ? o : "nothing", what); }
			}
			for (unsigned i = 0; i < count; ++i) if (gone[i]) MC_CHECK(!at->getInstructionByName(names[i].c_str()), "by-name-ghost", "looking up name %u of a removed instruction finds one (%s)", i, what);
			if (style != 3) for (unsigned i : { 0u, count / 2, count - 1 }) { const std::string& s = names[i]; for (const std::string& x : { s + "_", s.substr(0, s.size() - 1) + "?", "?" + s.substr(1) }) MC_CHECK(!at->getInstructionByName(x.c_str()), "by-name-ghost", "an instruction is found for '%.60s', which is the name of none (%s)", x.c_str(), what); }
			if (target == 1) for (Instruction* s : structs) MC_CHECK(at->getNames(s).size() == count + 1, "names", "%zu names are listed for a struct that was given %u (%s)", size_t(at->getNames(s).size()), count + 1, what); else for (unsigned i = 0; i < count; ++i) if (!gone[i]) MC_CHECK(at->getNames(t[i]).size() == 1, "names", "%zu names are listed for an instruction that was given one (%s)", size_t(at->getNames(t[i]).size()), what);
		};
		check("built"); if (mode == 3) { if (target == 1) return; for (unsigned i = 0; i < count; i += 3) { gone[i] = true; if (t[i]->getOperation() == spv::Op::OpFunction) { for (Function& f : m->getFunctions()) if (f.getFunction() == t[i]) { m->remove(&f); break; } } else MC_CHECK(m->remove(t[i]), "remove", "removing fails"); } check("after removing every third"); }
		if (mode == 2) { r.emplace(std::move(*m)); at = &*r; check("moved"); }
		Writer w; MC_CHECK(at->finalizeAndWrite(w, &grammar()), "write", "writing fails: %s", log.last.c_str()); check("written");
		if (mode == 1 || mode == 3)
		{
			std::vector<spv::Id> ids; for (unsigned i = 0; i < count; ++i) ids.push_back(gone[i] ? InvalidId : t[i]->getResultId()); const spv::Id sid[2] = { structs[0] ? structs[0]->getResultId() : InvalidId, structs[1] ? structs[1]->getResultId() : InvalidId };
			r.emplace(&al, &log); Reader rd(w.words); MC_CHECK(r->read(rd, grammar()), "read", "reading fails: %s", log.last.c_str()); for (unsigned i = 0; i < count; ++i) if (!gone[i]) t[i] = r->getInstructionById(ids[i]); for (unsigned k = 0; k < 2; ++k) if (structs[k]) structs[k] = r->getInstructionById(sid[k]); MC_CHECK(r->resolveIDs() && r->reconstructNames(), "read", "reading fails: %s", log.last.c_str()); at = &*r; check("read");
		}
		mc::state(mc::mix(mc::mix(n, style), target * 4 + mode)); mc::outcome(mode == 0 ? "built" : mode == 1 ? "read" : mode == 2 ? "moved" : "removed");
	}
	al.expectEmpty("many names");
}
