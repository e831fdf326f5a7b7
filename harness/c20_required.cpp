// C20: required capabilities, extensions and version are declared completely.
#include "programs.h"
#include "spec.h"
#include "corpus.h"
using namespace spvgentwo;
using namespace ir;

namespace
{
	using Caps = std::set<unsigned>; using Exts = std::set<std::string>;
	const std::map<uint32_t, spec::Val>& capSpec() { return spec::g().kinds.at("Capability").vals; }
	Caps closure(const Caps& in) { Caps r; std::vector<unsigned> todo(in.begin(), in.end()); while (!todo.empty()) { const unsigned c = todo.back(); todo.pop_back(); if (!r.insert(c).second) continue; auto it = capSpec().find(c); if (it != capSpec().end()) for (unsigned d : it->second.caps) todo.push_back(d); } return r; }
	Caps caps(const Module& m) { Caps r; for (auto& [k, v] : m.getCapabilities()) { (void)v; r.insert(unsigned(k)); } return r; }
	// what the written module declares; everything at most once
	void declared(Module& m, Caps& c, Exts& e, Exts* imports = nullptr)
	{
		Writer w; MC_CHECK(m.write(w), "write", "writing fails"); std::vector<Words> ins; MC_CHECK(split(w.words, ins), "malformed", "the binary is malformed"); c.clear(); e.clear();
		for (auto& i : ins) { const unsigned op = i[0] & 0xffff; auto text = [&](unsigned at) { std::string s; for (unsigned k = at; k < i.size(); ++k) for (int b = 0; b < 4; ++b) { const char x = char(i[k] >> (8 * b)); if (!x) return s; s += x; } return s; }; if (op == 17) MC_CHECK(c.insert(i[1]).second, "duplicate", "capability %u is declared twice", i[1]); if (op == 10) { const std::string s = text(1); MC_CHECK(e.insert(s).second, "duplicate", "extension %s is declared twice", s.c_str()); } if (op == 11 && imports) { const std::string s = text(2); MC_CHECK(imports->insert(s).second, "duplicate", "%s is imported twice", s.c_str()); } }
	}
	unsigned versionOf(const std::string& v) { if (v.empty() || !isdigit((unsigned char)v[0])) return 0; return unsigned(std::stoul(v, nullptr, 0)); }
	struct Need { std::string name; Caps caps; Exts exts; unsigned version; };
	Need need(const spec::Ins& i) { return { i.names[0], i.caps, i.allExts, versionOf(i.version) }; }
	void satisfied(const Need& n, const Caps& c, const Exts& e, unsigned version, const char* how)
	{
		if (!n.caps.empty()) { bool ok = false; const Caps all = closure(c); for (unsigned x : n.caps) ok = ok || all.count(x); MC_CHECK(ok, "capability", "no capability that %s requires is declared (%s)", n.name.c_str(), how); }
		bool ok = n.version != 0 && version >= n.version; if (n.version == 0 && n.exts.empty()) ok = true; for (auto& x : n.exts) ok = ok || e.count(x); if (!ok) MC_CHECK(n.exts.size() != 0 || false, "version", "the version is %x but %s needs %x (%s)", version, n.name.c_str(), n.version, how); MC_CHECK(ok, "extension", "no extension that %s requires is declared and the version is %x (%s)", n.name.c_str(), version, how);
	}
	struct Item { const spec::Ins* ins; Words module; };
	const std::vector<Item>& items()
	{
		static const std::vector<Item> v = [] { std::vector<Item> r; for (auto i : corpus::instructions()) { if (!grammar().getInfo(i->op) || corpus::placeOf(i->op, *i) == corpus::Place::Structure) continue; const auto& k = corpus::variants(*i, false); if (k.empty()) continue; r.push_back({ i, corpus::module(*i, k[0]) }); } return r; }(); return v;
	}
	bool load(Module& m, const Words& w) { Reader r(w); return m.readAndInit(r, grammar()); }
	void strip(Module& m) { for (unsigned c : caps(m)) m.removeCapability(spv::Capability(c)); m.getExtensions().clear(); }
	enum How { SEPARATE, FINALIZE, ASSIGN };
	const char* const HOW[] = { "required capabilities, extensions and version added", "finalized with the grammar", "ids assigned with the grammar" };
	void require(Module& m, How how) { switch (how) { case SEPARATE: m.addRequiredCapabilities(grammar()); m.addRequiredExtensions(grammar()); { const unsigned v = m.getRequiredVersion(grammar()); const unsigned s = m.setRequiredVersion(grammar()); m.assignIDs(); MC_CHECK(v == s && m.getSpvVersion() == s, "set-version", "setRequiredVersion sets %x, reports %x, required is %x", m.getSpvVersion(), s, v); } break; case FINALIZE: m.finalize(&grammar()); break; default: m.assignIDs(&grammar()); break; } }
	// every instruction of the library's grammar in an otherwise legal module that declares nothing, something the user wants, or everything
	void single()
	{
		const auto& all = items(); const unsigned k = mc::choose(unsigned(all.size()), "instruction"); const Item& it = all[k]; const How how = How(mc::choose(3, "how")); const unsigned before = mc::choose(3, "before"); const Need n = need(*it.ins); if (it.ins->op == 17 || it.ins->op == 10) return;
		mc::op("%s, %s", n.name.c_str(), HOW[how]); track::Allocator al; Log log;
		{
			Module m(&al, &log); if (!load(m, it.module)) { mc::outcome("not readable"); return; } const Caps had = caps(m); Exts e; if (before < 2) strip(m); if (before == 0) m.setSpvVersion(1, 0); Caps user; Exts uext; if (before == 1) { user = { unsigned(spv::Capability::SubgroupDispatch), unsigned(spv::Capability::Sampled1D) }; uext = { "SPV_user_extension" }; m.addCapability(spv::Capability::SubgroupDispatch); m.addCapability(spv::Capability::Sampled1D); m.addExtension("SPV_user_extension"); m.setSpvVersion(1, 1); } if (before == 2) user = had; const unsigned was = m.getSpvVersion();
			for (unsigned round = 0; round < 2; ++round)
			{
				require(m, how); Caps c; declared(m, c, e); MC_CHECK(c == caps(m), "declared", "the written capabilities are not those the module reports"); satisfied(n, c, e, m.getSpvVersion(), HOW[how]); for (unsigned x : user) MC_CHECK(c.count(x), "user-capability", "capability %u of the user is dropped", x); for (auto& x : uext) MC_CHECK(e.count(x), "user-extension", "extension %s of the user is dropped", x.c_str()); if (how != SEPARATE) MC_CHECK(m.getSpvVersion() >= was, "user-version", "the version is lowered from %x to %x", was, m.getSpvVersion());
				// nothing is declared that neither the user nor an instruction of the module asks for
				Caps may = user; Exts mayE = uext; if (before == 2) mayE = e; m.iterateInstructions([&](Instruction& i) { auto f = spec::g().ins.find(unsigned(i.getOperation())); if (f != spec::g().ins.end()) { may.insert(f->second.caps.begin(), f->second.caps.end()); mayE.insert(f->second.allExts.begin(), f->second.allExts.end()); } }); for (unsigned x : c) MC_CHECK(closure(may).count(x), "unrelated", "capability %u is declared for no reason", x); for (auto& x : e) MC_CHECK(mayE.count(x), "unrelated", "extension %s is declared for no reason", x.c_str());
			}
			mc::state(mc::mix(k, how * 3 + before)); mc::outcome("required");
		}
		al.expectEmpty("required");
	}
	// one instruction for every combination of requirements, in pairs: in the body of one or of two functions
	void pairs()
	{
		static const std::vector<const spec::Ins*> rep = [] { std::vector<const spec::Ins*> r; std::set<std::string> seen; for (auto& it : items()) { if (corpus::placeOf(it.ins->op, *it.ins) != corpus::Place::Body) continue; const Need n = need(*it.ins); std::string k = std::to_string(n.version); for (unsigned c : n.caps) k += "," + std::to_string(c); for (auto& e : n.exts) k += "," + e; if (seen.insert(k).second) r.push_back(it.ins); } return r; }();
		const unsigned a = mc::choose(unsigned(rep.size()), "first"); const How how = How(mc::choose(3, "how")); const unsigned where = mc::choose(5, "where"); mc::op("%s and another, %s", rep[a]->names[0].c_str(), HOW[how]);
		for (unsigned b = 0; b < rep.size(); ++b)
		{
			track::Allocator al; Log log; { Module m(&al, &log); EntryPoint& e = m.addEntryPoint(spv::ExecutionModel::Fragment, "main"); Function& f = m.addFunction<void>("f"); BasicBlock& e2 = e.addBasicBlock(); (*e)->opBranch(&e2); BasicBlock* blocks[] = { &*e, &e2, &*f }; static const unsigned char at[5][2] = { { 0, 0 }, { 0, 1 }, { 1, 2 }, { 2, 0 }, { 2, 2 } };
				unsigned k = 0; for (const spec::Ins* i : { rep[a], rep[b] }) { BasicBlock* bb = blocks[at[where][k++]]; Instruction& x = bb->emplace_front(bb, spv::Op::OpNop); x.setOperation(spv::Op(i->op)); if (i->hasType()) x.addOperand(m.type<float>()); if (i->hasId()) x.addOperand(InvalidId); } f->opNop(); e2.returnValue(); (*f).returnValue(); m.setSpvVersion(1, 0);
				require(m, how); Caps c; Exts x; declared(m, c, x); satisfied(need(*rep[a]), c, x, m.getSpvVersion(), HOW[how]); satisfied(need(*rep[b]), c, x, m.getSpvVersion(), HOW[how]); } al.expectEmpty("pair"); mc::checked();
		}
		mc::state(mc::mix(a, how * 5 + where)); mc::outcome("pairs");
	}
	// extended instructions
	void extended()
	{
		const unsigned set = mc::choose(2, "set"); static const char* names[] = { "GLSL.std.450", "OpenCL.std" }; const auto& t = spec::g().ext[set == 0 ? 1 : 2]; const unsigned n = mc::choose(unsigned(t.size()), "instruction"); auto it = t.begin(); std::advance(it, n); const How how = How(mc::choose(3, "how")); mc::op("%s, %s", it->second.name.c_str(), HOW[how]); track::Allocator al; Log log;
		{
			Module m(&al, &log); Function& f = m.addFunction<void>("f"); Instruction* imp = m.addExtensionInstructionImport(names[set]); BasicBlock& b = *f; Instruction* x = b.addInstruction(); x->setOperation(spv::Op::OpExtInst); x->addOperand(m.type<float>()); x->addOperand(InvalidId); x->addOperand(imp); x->addOperand(literal_t{ it->first }); b.returnValue(); require(m, how); Caps c; Exts e; declared(m, c, e);
			if (!it->second.caps.empty()) { bool ok = false; for (unsigned q : it->second.caps) ok = ok || closure(c).count(q); MC_CHECK(ok, "extended-capability", "no capability that %s requires is declared (%s)", it->second.name.c_str(), HOW[how]); } mc::state(mc::mix(set, n * 3 + how)); mc::outcome("extended");
		}
		al.expectEmpty("extended");
	}
	// what a capability implies
	void implied()
	{
		static const std::vector<unsigned> all = [] { std::vector<unsigned> r; for (auto& [v, x] : capSpec()) { bool known = false; for (auto& n : x.names) known = known || !spec::newer().count("Capability." + n); if (known) r.push_back(v); } return r; }();
		const unsigned a = all[mc::choose(unsigned(all.size()), "capability")]; const unsigned first = mc::choose(3, "first"); mc::op("capability %u with everything it implies", a); track::Allocator al; Log log; static const unsigned other[] = { ~0u, unsigned(spv::Capability::Shader), unsigned(spv::Capability::Kernel) };
		{
			Module m(&al, &log); Caps want = closure({ a }); if (other[first] != ~0u) { m.addCapability(spv::Capability(other[first])); want.insert(other[first]); } m.addCapability(spv::Capability(a), true); m.addCapability(spv::Capability(a), true); Caps c; Exts e; declared(m, c, e);
			for (unsigned x : want) MC_CHECK(c.count(x), ("implied:" + std::to_string(a) + "-" + std::to_string(x)).c_str(), "capability %u (%s) implies %u (%s), which is not declared", a, capSpec().at(a).names[0].c_str(), x, capSpec().at(x).names[0].c_str()); for (unsigned x : c) MC_CHECK(want.count(x), ("not-implied:" + std::to_string(a) + "-" + std::to_string(x)).c_str(), "capability %u (%s) does not imply %u (%s), which is declared", a, capSpec().at(a).names[0].c_str(), x, capSpec().count(x) ? capSpec().at(x).names[0].c_str() : "?");
			for (unsigned x : c) MC_CHECK(m.checkCapability(spv::Capability(x)), "check", "capability %u is declared but not found", x); MC_CHECK(m.removeCapability(spv::Capability(a)) && !m.checkCapability(spv::Capability(a)) && !m.removeCapability(spv::Capability(a)), "remove", "removing capability %u", a); want.erase(a); declared(m, c, e); MC_CHECK(c == want, "remove", "removing capability %u changes others", a); mc::state(mc::mix(a, first)); mc::outcome("implied");
		}
		al.expectEmpty("implied");
	}
	// histories of declarations
	void history(unsigned depth)
	{
		using C = spv::Capability; static const C cs[] = { C::Shader, C::Matrix, C::Kernel, C::Int64, C::Geometry }; static const char* es[] = { "SPV_KHR_16bit_storage", "SPV_a", "SPV_ab" }; static const char* is[] = { "GLSL.std.450", "OpenCL.std", "GLSL" }; track::Allocator al; Log log;
		{
			Module m(&al, &log); Caps c; Exts e, im; std::map<std::string, Instruction*> imp; unsigned version = m.getSpvVersion(); uint64_t h = 1; bool use = false;
			for (unsigned d = 0; d < depth; ++d)
			{
				unsigned k = mc::choose(1 + 5 + 3 + 5 + 3 + 1 + 3 + 3 + 3, "op"); if (k-- == 0) break; h = mc::mix(h, k);
				if (k < 5) { mc::op("declare capability %u", unsigned(cs[k])); m.addCapability(cs[k]); c.insert(unsigned(cs[k])); }
				else if ((k -= 5) < 3) { const C x = k == 0 ? C::Geometry : k == 1 ? C::Shader : C::Int64Atomics; mc::op("declare capability %u and what it implies", unsigned(x)); m.addCapability(x, true); for (unsigned y : closure({ unsigned(x) })) c.insert(y); }
				else if ((k -= 3) < 5) { mc::op("remove capability %u", unsigned(cs[k])); MC_CHECK(m.removeCapability(cs[k]) == (c.erase(unsigned(cs[k])) == 1), "remove", "removing capability %u reports the opposite", unsigned(cs[k])); }
				else if ((k -= 5) < 3) { mc::op("declare extension %s", es[k]); m.addExtension(es[k]); e.insert(es[k]); }
				else if ((k -= 3) < 1) { mc::op("declare extension by number"); m.addExtension(spv::Extension::SPV_KHR_16bit_storage); e.insert(es[0]); }
				else if ((k -= 1) < 3) { mc::op("import %s", is[k]); Instruction* i = m.addExtensionInstructionImport(is[k]); MC_CHECK(i != nullptr, "import", "importing fails"); auto [p, fresh] = imp.insert({ is[k], i }); MC_CHECK(fresh || p->second == i, "import", "importing %s again gives another instruction", is[k]); im.insert(is[k]); }
				else if ((k -= 3) < 3) { static const unsigned char v[] = { 0, 3, 5 }; mc::op("ensure version 1.%u", v[k]); m.ensureSpvVersion(1, v[k]); version = std::max(version, 0x10000u + v[k] * 0x100); }
				else { k -= 3; if (k == 0) { if (use) return; use = true; mc::op("an instruction is used"); Function& f = m.addFunction<void>("f"); (*f)->opKill(); }
					else if (k == 1) { mc::op("required capabilities"); m.addRequiredCapabilities(grammar()); if (use) c.insert(unsigned(C::Shader)); } else { mc::op("finalized"); m.finalize(&grammar()); if (use) c.insert(unsigned(C::Shader)); } }
				MC_CHECK(caps(m) == c, "capabilities", "the module reports other capabilities than were declared"); for (C x : cs) MC_CHECK(m.checkCapability(x) == bool(c.count(unsigned(x))), "check", "capability %u is reported %s", unsigned(x), c.count(unsigned(x)) ? "missing" : "declared"); for (auto n : is) MC_CHECK((m.getExtensionInstructionImport(n) != nullptr) == bool(im.count(n)), "import", "import of %s is reported %s", n, im.count(n) ? "missing" : "present"); MC_CHECK(m.getSpvVersion() == version, "version", "the version is %x instead of %x", m.getSpvVersion(), version);
			}
			mc::state(h); m.assignIDs(); Caps dc; Exts de, di; declared(m, dc, de, &di); MC_CHECK(dc == c, "capabilities", "%zu capabilities are written, %zu declared", dc.size(), c.size()); MC_CHECK(de == e, "extensions", "%zu extensions are written, %zu declared", de.size(), e.size()); MC_CHECK(di == im, "imports", "%zu imports are written, %zu declared", di.size(), im.size()); mc::outcome("history");
		}
		al.expectEmpty("history");
	}
}
MC_SCENARIO(every_instruction, 1) { single(); }
MC_SCENARIO(instruction_pairs, 1) { pairs(); }
MC_SCENARIO(extended_instructions, 1) { extended(); }
MC_SCENARIO(implied_capabilities, 1) { implied(); }
MC_SCENARIO(declaration_histories, 2) { history(mc::bound(4, 5)); }
// many capabilities, extensions and imports at once, in several orders, some removed again
MC_SCENARIO(many, 1)
{
	static const unsigned SIZES[] = { 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200 }; static const unsigned STRIDES[] = { 1, 7, 31, 101 }; const unsigned n = SIZES[mc::choose(unsigned(sizeof SIZES / sizeof *SIZES), "number")], order = mc::choose(8, "order"), cut = mc::choose(4, "removed"), mode = mc::choose(3, "mode"); track::Allocator al; Log log;
	std::vector<unsigned> all; for (auto& [k, v] : capSpec()) { (void)v; all.push_back(k); } std::vector<unsigned> list; for (unsigned i = 0; i < n && i < all.size(); ++i) { unsigned at = unsigned(uint64_t(i) * STRIDES[order % 4] % all.size()); if (order >= 4) at = unsigned(all.size()) - 1 - at; if (std::find(list.begin(), list.end(), all[at]) == list.end()) list.push_back(all[at]); }
	mc::op("%zu capabilities, %u extensions and imports, order %u, %s removed, %s", list.size(), n, order, cut == 0 ? "none" : cut == 1 ? "every other one" : cut == 2 ? "every third" : "all but the last", mode == 0 ? "built" : mode == 1 ? "moved" : "read");
	{
		Module first(&al, &log); Caps c; Exts e, im; std::map<std::string, Instruction*> imports; Module* m = &first; auto gone = [&](size_t i, size_t of) { return cut == 1 ? i % 2 == 0 : cut == 2 ? i % 3 == 1 : cut == 3 ? i + 1 < of : false; };
		auto check = [&](const char* what) { MC_CHECK(caps(*m) == c, "capabilities", "the module reports other capabilities than were declared (%s)", what); for (unsigned x : all) MC_CHECK(m->checkCapability(spv::Capability(x)) == bool(c.count(x)), "check", "capability %u is reported %s (%s)", x, c.count(x) ? "missing" : "declared", what); MC_CHECK(m->getExtensions().elements() == e.size(), "extensions", "%zu of %zu extensions are known (%s)", size_t(m->getExtensions().elements()), e.size(), what); MC_CHECK(m->getExtInstrImports().elements() == im.size(), "imports", "%zu of %zu imports are known (%s)", size_t(m->getExtInstrImports().elements()), im.size(), what); };
		for (unsigned x : list) { m->addCapability(spv::Capability(x)); c.insert(x); } for (unsigned i = 0; i < n; ++i) { const std::string x = "SPV_X_" + std::to_string(i * 3) + (i % 2 ? "_long_enough_to_need_memory_of_its_own" : ""); m->addExtension(x.c_str()); e.insert(x); const std::string s = "NonSemantic." + std::to_string(i); imports[s] = m->addExtensionInstructionImport(s.c_str()); im.insert(s); }
		check("declared"); for (unsigned x : list) m->addCapability(spv::Capability(x)); for (auto& x : e) m->addExtension(x.c_str()); for (auto& [s, i] : imports) MC_CHECK(m->addExtensionInstructionImport(s.c_str()) == i, "import", "importing %s again makes another import", s.c_str()); check("declared again");
		for (size_t i = 0; i < list.size(); ++i) if (gone(i, list.size())) { MC_CHECK(m->removeCapability(spv::Capability(list[i])) && !m->removeCapability(spv::Capability(list[i])), "remove", "removing capability %u reports the opposite", list[i]); c.erase(list[i]); } check("removed");
		Module second(&al, &log); if (mode == 1) { second = std::move(first); m = &second; check("moved"); for (auto& [s, i] : imports) MC_CHECK(m->addExtensionInstructionImport(s.c_str()) == i, "import", "importing %s again after a move makes another import", s.c_str()); }
		m->assignIDs(); Caps dc; Exts de, di; declared(*m, dc, de, &di); MC_CHECK(dc == c && de == e && di == im, "declared", "%zu capabilities, %zu extensions and %zu imports are written instead of %zu, %zu and %zu", dc.size(), de.size(), di.size(), c.size(), e.size(), im.size());
		if (mode == 2) { Writer w; MC_CHECK(m->write(w), "write", "writing fails"); MC_CHECK(load(second, w.words), "read", "reading fails: %s", log.last.c_str()); m = &second; check("read"); for (size_t i = 0; i < list.size(); ++i) if (i % 4 == 3) { MC_CHECK(m->removeCapability(spv::Capability(list[i])) == bool(c.erase(list[i])), "remove", "removing capability %u after reading reports the opposite", list[i]); } for (auto& x : e) m->addExtension(x.c_str()); for (auto& s : im) m->addExtensionInstructionImport(s.c_str()); check("read and edited"); }
		mc::state(mc::mix(mc::mix(n, order), cut * 3 + mode)); mc::outcome("declared");
	}
	al.expectEmpty("many");
}
