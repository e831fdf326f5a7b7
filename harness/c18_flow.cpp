// C18: structured control flow helpers build the control flow the callbacks describe.
#include "programs.h"
using namespace spvgentwo;
using namespace ir;

namespace
{
	enum Kind { EMIT, IF, IFELSE, LOOP, RETURN, KILL, UNREACHABLE, BREAK, CONTINUE };
	struct St { Kind k; unsigned id; std::vector<St> a, b; };
	using Seq = std::vector<St>;
	// --- the programs: all statement sequences with at most `left` statements
	void gen(Seq& s, unsigned& left, unsigned& ids, bool inLoop, unsigned depth)
	{
		while (left)
		{
			unsigned n = 7 + (inLoop ? 2 : 0); unsigned k = mc::choose(n + 1, "statement"); if (k-- == 0) return;
			--left; s.push_back({ Kind(k), ids++, {}, {} }); St st = s.back();
			if (k == IF || k == IFELSE || k == LOOP) { if (depth < 3) { gen(st.a, left, ids, inLoop || k == LOOP, depth + 1); if (k == IFELSE) gen(st.b, left, ids, inLoop, depth + 1); } s.back() = std::move(st); }
			else if (k >= RETURN) return; // nothing follows an exit
		}
	}
	std::string text(const Seq& s)
	{
		std::string r; static const char* n[] = { "emit", "if", "if", "loop", "return", "kill", "unreachable", "break", "continue" };
		for (auto& x : s) { if (!r.empty()) r += "; "; r += n[x.k]; if (x.k <= LOOP) r += "#" + std::to_string(x.id); if (x.k == IF || x.k == LOOP || x.k == IFELSE) r += " { " + text(x.a) + " }"; if (x.k == IFELSE) r += " else { " + text(x.b) + " }"; } return r;
	}
	unsigned nesting(const Seq& s) { unsigned r = 0; for (auto& x : s) if (x.k == IF || x.k == IFELSE || x.k == LOOP) r = std::max(r, 1 + std::max(nesting(x.a), nesting(x.b))); return r; }
	// --- what a program does: trace of events, driven by the truth values of the conditions in order
	enum Ev : unsigned { E_EMIT = 1000, E_COND = 2000, E_NEXT = 3000, E_TEST = 4000, E_RETURN = 5000, E_KILL, E_UNREACHABLE, E_MORE, E_BROKEN };
	using Trace = std::vector<unsigned>;
	struct Oracle { std::vector<bool> bits; size_t pos = 0; bool more = false; bool next() { if (pos == bits.size()) { more = true; return false; } return bits[pos++]; } };
	enum Out { NEXT, BRK, CONT, END };
	Out run(const Seq& s, Oracle& o, Trace& t)
	{
		for (auto& x : s) switch (x.k)
		{
		case EMIT: t.push_back(E_EMIT + x.id); break;
		case RETURN: t.push_back(E_RETURN); return END;
		case KILL: t.push_back(E_KILL); return END;
		case UNREACHABLE: t.push_back(E_UNREACHABLE); return END;
		case BREAK: return BRK;
		case CONTINUE: return CONT;
		case IF: case IFELSE:
		{
			t.push_back(E_TEST + x.id); const bool c = o.next(); if (o.more) { t.push_back(E_MORE); return END; } const Out r = run(c ? x.a : x.b, o, t); if (r != NEXT) return r; break;
		}
		case LOOP:
			for (;;)
			{
				t.push_back(E_COND + x.id); t.push_back(E_TEST + x.id); const bool c = o.next(); if (o.more) { t.push_back(E_MORE); return END; } if (!c) break;
				const Out r = run(x.a, o, t); if (r == END) return r; if (r == BRK) break; t.push_back(E_NEXT + x.id);
			}
			break;
		}
		return NEXT;
	}
	// --- building it with the library
	enum Style { CALLBACKS, CALLBACKS_MERGE, BLOCKS, BLOCKS_MERGE };
	struct Builder
	{
		Module& m; Function& f; Instruction* out; std::map<unsigned, Instruction*> flags; std::vector<Instruction*> kept; unsigned style[2]; bool skip = false; std::vector<std::pair<BasicBlock*, BasicBlock*>> heads; // header, returned merge
		struct Loop { BasicBlock *merge, *cont; };
		Instruction* flag(unsigned id) { auto& v = flags[id]; if (!v) v = m.variable<bool>(spv::StorageClass::Private); return v; }
		void mark(BasicBlock& b, unsigned e) { Instruction* c = m.constant(e); b->opStore(out, c); }
		Instruction* test(BasicBlock& b, unsigned id) { Instruction* v = flag(id); return b->opLoad(v); }
		BasicBlock* continueOf(BasicBlock* merge) { for (BasicBlock& b : f) for (Instruction& i : b) if (i.getOperation() == spv::Op::OpLoopMerge && i.front().getBranchTarget() == merge) return (i.begin() + 1u)->getBranchTarget(); return nullptr; }
		// returns the block in which code after s goes, nullptr after an exit
		BasicBlock* seq(const Seq& s, BasicBlock* b, const Loop& loop, unsigned depth)
		{
			for (auto& x : s)
			{
				const unsigned st = style[depth % 2]; static const spv::SelectionControlMask sm[] = { spv::SelectionControlMask::MaskNone, spv::SelectionControlMask::Flatten, spv::SelectionControlMask::DontFlatten }; static const spv::LoopControlMask lm[] = { spv::LoopControlMask::Unroll, spv::LoopControlMask::MaskNone, spv::LoopControlMask::DontUnroll };
				switch (x.k)
				{
				case EMIT: mark(*b, E_EMIT + x.id); break;
				case RETURN: b->returnValue(); return nullptr;
				case KILL: (*b)->opKill(); return nullptr;
				case UNREACHABLE: (*b)->opUnreachable(); return nullptr;
				case BREAK: if (!loop.merge) { skip = true; return nullptr; } (*b)->opBranch(loop.merge); return nullptr;
				case CONTINUE: { BasicBlock* c = loop.cont ? loop.cont : loop.merge ? continueOf(loop.merge) : nullptr; if (!c) { skip = true; return nullptr; } (*b)->opBranch(c); return nullptr; }
				case IF: case IFELSE:
				{
					const bool els = x.k == IFELSE; Instruction* c = test(*b, x.id); BasicBlock *ta = nullptr, *tb = nullptr, *at = nullptr, *bt = nullptr, *merge = nullptr; const auto mask = sm[x.id % 3];
					if (st <= CALLBACKS_MERGE)
					{
						if (st == CALLBACKS_MERGE) merge = &f.addBasicBlock();
						auto fa = [&](BasicBlock& t) { at = &t; ta = seq(x.a, &t, loop, depth + 1); }; auto fb = [&](BasicBlock& t) { bt = &t; tb = seq(x.b, &t, loop, depth + 1); };
						BasicBlock& r = els ? b->If(c, fa, fb, merge, mask) : b->If(c, fa, merge, mask); if (merge) MC_CHECK(&r == merge, "merge", "If does not return the merge block it was given"); merge = &r;
						if (ta && ta != at) (*ta)->opBranch(merge); if (tb && tb != bt) (*tb)->opBranch(merge);
					}
					else
					{
						at = &f.addBasicBlock(); ta = seq(x.a, at, loop, depth + 1); if (els) { bt = &f.addBasicBlock(); tb = seq(x.b, bt, loop, depth + 1); } if (ta == at && at->empty()) (*at)->opNop(); if (bt && tb == bt && bt->empty()) (*bt)->opNop();
						if (st == BLOCKS_MERGE) merge = &f.addBasicBlock(); BasicBlock& r = els ? b->If(c, *at, *bt, merge, mask) : b->If(c, *at, merge, mask); if (merge) MC_CHECK(&r == merge, "merge", "If does not return the merge block it was given"); merge = &r;
						if (ta && ta != at) (*ta)->opBranch(merge); if (tb && tb != bt) (*tb)->opBranch(merge);
					}
					heads.push_back({ b, merge }); Instruction* sel = nullptr; for (Instruction& i : *b) if (i.getOperation() == spv::Op::OpSelectionMerge) sel = &i; MC_CHECK(sel && sel->front().getBranchTarget() == merge && (sel->begin() + 1u)->getLiteral().value == unsigned(mask), "selection-merge", "the header does not name the merge block and the control mask it was given");
					b = merge; break;
				}
				case LOOP:
				{
					BasicBlock *merge = nullptr, *body = nullptr, *tail = nullptr, *cont = nullptr; const auto mask = lm[x.id % 3];
					if (st <= CALLBACKS_MERGE)
					{
						if (st == CALLBACKS_MERGE) merge = &f.addBasicBlock(); BasicBlock* given = merge;
						BasicBlock& r = b->Loop([&](BasicBlock& c) -> Instruction* { mark(c, E_COND + x.id); return test(c, x.id); }, [&](BasicBlock& c) { cont = &c; mark(c, E_NEXT + x.id); }, [&](BasicBlock& t) { body = &t; tail = seq(x.a, &t, { given, nullptr }, depth + 1); }, merge, mask);
						if (merge) MC_CHECK(&r == merge, "merge", "Loop does not return the merge block it was given"); merge = &r;
					}
					else
					{
						BasicBlock& head = f.addBasicBlock(); (*b)->opBranch(&head); BasicBlock& c = f.addBasicBlock(); mark(c, E_COND + x.id); Instruction* t = test(c, x.id); body = &f.addBasicBlock();
						tail = seq(x.a, body, { nullptr, nullptr }, depth + 1); if (skip) return nullptr; cont = &f.addBasicBlock(); mark(*cont, E_NEXT + x.id); if (st == BLOCKS_MERGE) merge = &f.addBasicBlock(); // the order of ready-made blocks is the user's
						BasicBlock& r = head.Loop(t, *cont, *body, merge, mask); if (merge) MC_CHECK(&r == merge, "merge", "Loop does not return the merge block it was given"); merge = &r;
					}
					if (skip) return nullptr;
					if (tail && tail != body) (*tail)->opBranch(cont); BasicBlock* k = continueOf(merge); MC_CHECK(k == cont, "loop-merge", "the header does not name the merge and the continue block");
					b = merge; break;
				}
				}
				if (skip) return nullptr;
			}
			return b;
		}
	};
	// --- executing the written blocks
	struct Code
	{
		struct Block { std::vector<const Ins*> ins; }; Bin bin; std::map<uint32_t, Block> blocks; std::map<uint32_t, uint32_t> constants; uint32_t entry = 0, out = 0; std::map<uint32_t, unsigned> flags, loads;
		std::string load(const Words& w)
		{
			bin = parse(w); if (!bin.ok) return bin.error; uint32_t cur = 0; for (auto& i : bin.ins) { if (i.op == uint16_t(spv::Op::OpConstant)) constants[i.id] = i.w[3]; if (i.op == uint16_t(spv::Op::OpLabel)) { cur = i.id; if (!entry) entry = cur; blocks[cur]; } else if (cur) blocks[cur].ins.push_back(&i); if (i.op == uint16_t(spv::Op::OpFunctionEnd)) cur = 0; } return {};
		}
		Trace run(Oracle& o)
		{
			Trace t; uint32_t cur = entry; std::map<uint32_t, uint32_t> from;
			for (unsigned steps = 0; steps < 20000; ++steps)
			{
				auto it = blocks.find(cur); if (it == blocks.end()) { t.push_back(E_BROKEN); return t; } bool moved = false;
				for (const Ins* i : it->second.ins)
				{
					switch (spv::Op(i->op))
					{
					case spv::Op::OpStore: if (i->w[1] == out) t.push_back(constants[i->w[2]]); break;
					case spv::Op::OpLoad: from[i->id] = i->w[3]; break;
					case spv::Op::OpBranch: cur = i->w[1]; moved = true; break;
					case spv::Op::OpBranchConditional: { t.push_back(E_TEST + flags[from[i->w[1]]]); const bool c = o.next(); if (o.more) { t.push_back(E_MORE); return t; } cur = c ? i->w[2] : i->w[3]; moved = true; break; }
					case spv::Op::OpReturn: t.push_back(E_RETURN); return t;
					case spv::Op::OpKill: t.push_back(E_KILL); return t;
					case spv::Op::OpUnreachable: t.push_back(E_UNREACHABLE); return t;
					default: break;
					}
					if (moved) break;
				}
				if (!moved) { t.push_back(E_BROKEN); return t; }
			}
			t.push_back(E_BROKEN); return t;
		}
	};
	std::string show(const Trace& t)
	{
		std::string s; for (unsigned e : t) { if (!s.empty()) s += ' '; if (e >= E_RETURN) s += e == E_RETURN ? "return" : e == E_KILL ? "kill" : e == E_UNREACHABLE ? "unreachable" : e == E_MORE ? "..." : "stuck"; else s += (e >= E_TEST ? "test#" : e >= E_NEXT ? "next#" : e >= E_COND ? "cond#" : "emit#") + std::to_string(e % 1000); } return s;
	}
	const char* sn[] = { "callbacks", "callbacks with given merge", "blocks", "blocks with given merge" };
	void execute(const Seq& s, unsigned so, unsigned si, std::vector<std::vector<bool>> todo, unsigned bits);
	void program(unsigned size, unsigned bits)
	{
		Seq s; unsigned left = size, ids = 0; gen(s, left, ids, false, 0); const unsigned deep = nesting(s); const unsigned so = deep ? mc::choose(4, "style") : 0, si = deep > 1 ? mc::choose(4, "inner style") : so;
		mc::op("%s [%s, %s]", text(s).c_str(), sn[so], sn[si]); execute(s, so, si, { {} }, bits);
	}
	// long and deeply nested programs; assignments that pick one condition, none, all or some
	void large()
	{
		static const unsigned SIZES[] = { 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200 }; const unsigned n = SIZES[mc::choose(unsigned(sizeof SIZES / sizeof *SIZES), "number")], shape = mc::choose(9, "shape"), so = mc::choose(4, "style"), si = mc::choose(4, "inner style");
		static const char* shapes[] = { "ifs", "if/elses", "loops", "nested ifs", "nested if/elses", "nested loops", "else ifs", "statements in a loop", "ifs that return" }; if (si != so && shape < 3) return; if (shape == 5 && n > 65) return; mc::op("%u %s [%s, %s]", n, shapes[shape], sn[so], sn[si]);
		Seq s; unsigned ids = 0; auto emit = [&] { return St{ EMIT, ids++, {}, {} }; };
		auto one = [&](Kind k) { St t{ k, ids++, {}, {} }; t.a.push_back(emit()); if (k == IFELSE) t.b.push_back(emit()); return t; };
		switch (shape)
		{
		case 0: for (unsigned i = 0; i < n; ++i) s.push_back(one(IF)); s.push_back(emit()); break;
		case 1: for (unsigned i = 0; i < n; ++i) s.push_back(one(IFELSE)); s.push_back(emit()); break;
		case 2: for (unsigned i = 0; i < n; ++i) s.push_back(one(LOOP)); s.push_back(emit()); break;
		case 3: case 4: case 5: { St in = emit(); for (unsigned i = 0; i < n; ++i) { St t{ shape == 3 ? IF : shape == 4 ? IFELSE : LOOP, ids++, {}, {} }; t.a.push_back(emit()); t.a.push_back(std::move(in)); t.a.push_back(emit()); if (shape == 4) t.b.push_back(emit()); in = std::move(t); } s.push_back(std::move(in)); break; }
		case 6: { St in = emit(); for (unsigned i = 0; i < n; ++i) { St t{ IFELSE, ids++, {}, {} }; t.a.push_back(emit()); t.b.push_back(std::move(in)); in = std::move(t); } s.push_back(std::move(in)); break; }
		case 7: { St l{ LOOP, ids++, {}, {} }; for (unsigned i = 0; i < n; ++i) { l.a.push_back(emit()); if (i % 3 == 0) { St t{ IF, ids++, {}, {} }; t.a.push_back(St{ i % 2 ? BREAK : CONTINUE, ids++, {}, {} }); l.a.push_back(std::move(t)); } } s.push_back(std::move(l)); s.push_back(emit()); break; }
		default: for (unsigned i = 0; i < n; ++i) { St t{ IF, ids++, {}, {} }; t.a.push_back(emit()); t.a.push_back(St{ i % 3 == 0 ? RETURN : i % 3 == 1 ? KILL : UNREACHABLE, ids++, {}, {} }); s.push_back(std::move(t)); } s.push_back(emit()); break;
		}
		if (ids > 900) mc::broken("too many statements"); const unsigned total = 2 * n + 2; std::vector<std::vector<bool>> a{ std::vector<bool>(total), std::vector<bool>(total, true), std::vector<bool>(total), std::vector<bool>(total) }; for (unsigned i = 0; i < total; ++i) { a[2][i] = i % 2; a[3][i] = i % 3 != 0; }
		for (unsigned i : { 0u, 1u, n / 3, n / 2, n - 2, n - 1, n }) { std::vector<bool> v(total), w(total, true); v[i] = true; w[i] = false; a.push_back(v); a.push_back(w); } execute(s, so, si, a, 0);
	}
	void execute(const Seq& s, const unsigned so, const unsigned si, std::vector<std::vector<bool>> todo, unsigned bits)
	{
		const unsigned deep = nesting(s); track::Allocator al; Log log;
		{
			Module m(&al, &log); m.addCapability(spv::Capability::Shader); EntryPoint& e = m.addEntryPoint(spv::ExecutionModel::Fragment, "main"); e.addExecutionMode(spv::ExecutionMode::OriginUpperLeft); Instruction* out = m.variable<unsigned>(spv::StorageClass::Private, "out");
			Builder b{ m, e, out, {}, {}, { so, si }, false, {} }; BasicBlock* end = b.seq(s, &*e, { nullptr, nullptr }, 0); if (b.skip) { mc::outcome("no way to say it"); return; } if (end) { if (nullptr == end->getTerminator()) end->returnValue(); }
			for (BasicBlock& x : e) { unsigned n = 0; for (Instruction& i : x) n += i.isTerminator(); MC_CHECK(n != 0, "no-terminator", "a block has no terminator: %s", text(s).c_str()); MC_CHECK(n == 1, "terminators", "a block has %u terminators: %s", n, text(s).c_str()); MC_CHECK(x.back().isTerminator(), "terminator-last", "the terminator is not the last instruction: %s", text(s).c_str()); }
			m.finalize(&grammar()); Writer w; MC_CHECK(m.write(w), "write", "writing fails: %s", log.last.c_str()); MC_CHECK(log.errors == 0, "error", "the library reports an error: %s", log.last.c_str());
			Code c; const std::string err = c.load(w.words); MC_CHECK(err.empty(), "malformed", "%s", err.c_str()); c.out = uint32_t(out->getResultId()); for (auto& [id, v] : b.flags) c.flags[uint32_t(v->getResultId())] = id;
			const std::string v = validate(w.words); MC_CHECK(v.empty(), ("invalid: " + sig(v)).c_str(), "%s for %s%s", v.c_str(), text(s).c_str(), trace(w.words).c_str());
			// every assignment of truth values
			uint64_t h = 0;
			while (!todo.empty())
			{
				Oracle a; a.bits = todo.back(); todo.pop_back(); Oracle x; x.bits = a.bits; Trace want; if (run(s, a, want) == NEXT) want.push_back(E_RETURN); const Trace got = c.run(x); mc::checked();
				if (want != got) MC_CHECK(false, "order", "%s executes as %s instead of %s%s", text(s).c_str(), show(got).c_str(), show(want).c_str(), trace(w.words).c_str());
				for (unsigned e : want) h = mc::mix(h, e); if (a.more && a.bits.size() < bits) for (bool z : { false, true }) { auto n = a.bits; n.push_back(z); todo.push_back(std::move(n)); }
			}
			mc::state(mc::mix(h, so * 4 + si)); mc::outcome(deep == 0 ? "straight" : deep == 1 ? "one level" : deep == 2 ? "two levels" : "three or more levels");
		}
		al.expectEmpty("program");
	}
	// every instruction that ends a block, as the end of a branch, a loop body and a helper
	void endings()
	{
		static const spv::Op ops[] = { spv::Op::OpReturn, spv::Op::OpReturnValue, spv::Op::OpKill, spv::Op::OpUnreachable, spv::Op::OpTerminateInvocation, spv::Op::OpIgnoreIntersectionKHR, spv::Op::OpTerminateRayKHR, spv::Op::OpEmitMeshTasksEXT, spv::Op::OpBranch, spv::Op::OpBranchConditional, spv::Op::OpSwitch };
		const unsigned oi = mc::choose(sizeof ops / sizeof *ops, "ending"), place = mc::choose(7, "place"); const spv::Op op = ops[oi]; static const char* pn[] = { "if (callback)", "then of if/else (callback)", "else (callback)", "loop body (callback)", "if (block)", "else (block)", "loop body (block)" }; mc::op("opcode %u ends the %s", unsigned(op), pn[place]);
		track::Allocator al; Log log;
		{
			Module m(&al, &log); m.addCapability(spv::Capability::Shader); Function& f = m.addFunction<float>("f"); BasicBlock& e = *f; Instruction* k = m.constant(1.f); Instruction* t = m.constant(true); Instruction* n = m.constant(1u); BasicBlock& other = f.addBasicBlock(); other.returnValue(k);
			BasicBlock* ended = nullptr; auto end = [&](BasicBlock& b) { ended = &b; b->opFNegate(k); Instruction* i = b.addInstruction(); i->setOperation(op); switch (op) { case spv::Op::OpReturnValue: i->addOperand(k); break; case spv::Op::OpBranch: i->addOperand(&other); break; case spv::Op::OpBranchConditional: i->addOperand(t); i->addOperand(&other); i->addOperand(&other); break; case spv::Op::OpSwitch: i->addOperand(n); i->addOperand(&other); break; case spv::Op::OpEmitMeshTasksEXT: for (unsigned j = 0; j < 3; ++j) i->addOperand(n); break; default: break; } };
			auto plain = [&](BasicBlock& b) { b->opFNegate(k); }; auto cond = [&](BasicBlock& b) -> Instruction* { return b->opLogicalNot(t); }; BasicBlock *merge = nullptr; BasicBlock& x = f.addBasicBlock(); BasicBlock& y = f.addBasicBlock(); BasicBlock& z = f.addBasicBlock();
			switch (place)
			{
			case 0: merge = &e.If(t, end); break; case 1: merge = &e.If(t, end, plain); break; case 2: merge = &e.If(t, plain, end); break; case 3: merge = &e.Loop(cond, plain, end); break;
			case 4: end(x); merge = &e.If(t, x); break; case 5: plain(x); end(y); merge = &e.If(t, x, y); break; default: { BasicBlock& h = f.addBasicBlock(); e->opBranch(&h); Instruction* q = cond(x); end(y); plain(z); merge = &h.Loop(q, z, y); } }
			merge->returnValue(k); MC_CHECK(ended->back().getOperation() == op, "after-exit", "something follows opcode %u in the %s", unsigned(op), pn[place]);
			for (BasicBlock& b : f) { unsigned c = 0; for (Instruction& i : b) c += i.isTerminator(); if (!b.empty()) MC_CHECK(c == 1 && b.back().isTerminator(), "terminators", "a block has %u terminators after opcode %u in the %s", c, unsigned(op), pn[place]); }
			mc::state(mc::mix(oi, place)); mc::outcome("ending");
		}
		al.expectEmpty("ending");
	}
}
MC_SCENARIO(programs, 4) { program(mc::bound(4, 5), mc::bound(6, 7)); }
MC_SCENARIO(large_programs, 1) { large(); }
MC_SCENARIO(endings, 1) { endings(); }
