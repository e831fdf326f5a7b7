// A module with undefined operands of any type, and operations tried in it whose fate is known in advance.
#pragma once
#include "typebin.h"
#include "spvgentwo/ModuleTemplate.inl"
#include "spvgentwo/InstructionTemplate.inl"
#include <memory>
#include <optional>
using namespace types;
using namespace ir;

namespace
{
	using I = Instruction*;
	const M B = leaf(Op::OpTypeBool), F32 = leaf(Op::OpTypeFloat, 32), I32 = leaf(Op::OpTypeInt, 32, true), U32 = leaf(Op::OpTypeInt, 32), F64 = leaf(Op::OpTypeFloat, 64);
	M vec(const M& s, unsigned n) { return wrap(Op::OpTypeVector, s, n); }
	M mat(const M& s, unsigned cols, unsigned rows) { return wrap(Op::OpTypeMatrix, vec(s, rows), cols); }
	const char* keep(const std::string& s) { static std::set<std::string> k; return k.insert(s).first->c_str(); }

	// what the check needs declared in every module
	void setup(Module& m);
	struct Mod
	{
		track::Allocator al; Log log; std::unique_ptr<Module> m; Function* f = nullptr; BasicBlock* bb = nullptr; std::map<std::string, I> undefs, vars, nulls; Words last;
		Mod() : m(new Module(&al, spv::AddressingModel::Logical, spv::MemoryModel::GLSL450, &log))
		{
			setup(*m); f = &m->addFunction<void>("f", spv::FunctionControlMask::MaskNone); bb = &**f;
		}
		I type(const M& t) { Type q(&al); plain(q, t); return m->addType(q); }
		I undef(const M& t, unsigned n = 0) { I& u = undefs[types::show(t) + "#" + std::to_string(n)]; if (!u) { I ty = type(t); u = m->addUndefInstr()->opUndef(ty); } return u; }
		// a variable of that class holding that type
		I var(SC sc, const M& t, unsigned n = 0) { I& u = vars[std::to_string(unsigned(sc)) + types::show(t) + "#" + std::to_string(n)]; if (!u) { I ty = type(ptr(sc, t)); u = sc == SC::Function ? f->variable(ty) : m->variable(ty, sc); } return u; }
		// the null constant of that type
		I null(const M& t) { I& u = nulls[types::show(t)]; if (!u) { Constant c(&al); plain(c, K{ Op::OpConstantNull, t, {}, {} }); u = m->addConstant(c); } return u; }
		I add() { return bb->addInstruction(); }
		Words write() { Writer w; if (!m->finalizeAndWrite(w)) mc::fail("write", "the module cannot be written: %s", log.last.c_str()); return last = w.words; }
	};
	// one use of an operation, and what has to come of it: nothing but a rejection unless there is an opcode
	// free: not known in advance, the validator decides; soft: a message alone counts as rejection; statement: has no result
	struct Try { const char* name; std::string what; std::function<I(Mod&)> emit; Op op = Op::OpNop; M type; std::function<std::vector<uint32_t>(Mod&, const Table&)> operands; I res = nullptr; size_t errors = 0; std::vector<uint32_t> exp; bool free = false; std::optional<M> other; bool soft = false, statement = false, reported = false; };
	uint32_t id(I i) { return uint32_t(i->getResultId()); }
	void report(Mod& x, Try& t, const Bin& bin, const Table& tab)
	{
		mc::checked(); if (t.reported) { MC_CHECK(t.op == Op::OpNop || t.free, keep(std::string(t.name) + ": complaint"), "%s is complained about though it fits the type", t.what.c_str()); mc::outcome("reported"); return; } if (!t.res) { mc::fail(keep(std::string(t.name) + ": null"), "%s returns no instruction", t.what.c_str()); }
		if (t.res->isErrorInstr()) { MC_CHECK(t.op == Op::OpNop || t.free, keep(std::string(t.name) + ": rejected"), "%s is rejected though it fits the type", t.what.c_str()); MC_CHECK(t.errors > 0, keep(std::string(t.name) + ": silent"), "%s is rejected without any message", t.what.c_str()); mc::outcome("rejected"); return; }
		MC_CHECK(t.op != Op::OpNop || t.free, keep(std::string(t.name) + ": accepted"), "%s is accepted though it does not fit the type", t.what.c_str()); if (t.op == Op::OpNop) return;
		if (t.statement) { const std::vector<uint32_t> exp = t.operands(x, tab); bool found = false; for (auto& i : bin.ins) if (Op(i.op) == t.op && std::vector<uint32_t>(i.w.begin() + 1, i.w.end()) == exp) found = true; MC_CHECK(found, keep(std::string(t.name) + ": operands"), "%s has no instruction with its operands: %s%s", t.what.c_str(), ir::trace(exp).c_str(), disasm(x.last).c_str()); mc::outcome("accepted"); return; }
		const Ins* in = nullptr; for (auto& i : bin.ins) if (i.id == id(t.res)) in = &i; MC_CHECK(in != nullptr, keep(std::string(t.name) + ": not in the binary"), "%s has no instruction", t.what.c_str()); if (!in) return;
		MC_CHECK(Op(in->op) == t.op, keep(std::string(t.name) + ": opcode"), "%s emits opcode %u, not %u", t.what.c_str(), in->op, unsigned(t.op)); auto ty = tab.type.find(in->type); MC_CHECK(ty != tab.type.end(), keep(std::string(t.name) + ": no type"), "%s has no result type", t.what.c_str()); if (ty == tab.type.end()) return;
		if (t.other && ty->second == *t.other) t.type = *t.other; MC_CHECK(ty->second == t.type, keep(std::string(t.name) + ": result type"), "%s has the result type %s instead of %s", t.what.c_str(), types::show(ty->second).c_str(), types::show(t.type).c_str()); const Type* said = t.res->getType(); MC_CHECK(said && differs(*said, t.type).empty(), keep(std::string(t.name) + ": reported type"), "the type reported for %s is not the emitted one", t.what.c_str());
		if (t.operands) { const std::vector<uint32_t> exp = t.operands(x, tab), got(in->w.begin() + 3, in->w.end()); MC_CHECK(got == exp, keep(std::string(t.name) + ": operands"), "%s has other operands: %s instead of %s", t.what.c_str(), ir::trace(got).c_str(), ir::trace(exp).c_str()); }
		mc::outcome("accepted");
	}
	std::string run(std::vector<Try>& ts, size_t from, size_t to)
	{
		Mod x; for (size_t k = from; k < to; ++k) { const size_t before = x.log.errors; ts[k].res = ts[k].emit(x); ts[k].errors = x.log.errors - before; ts[k].reported = ts[k].soft && ts[k].errors && ts[k].res && !ts[k].res->isErrorInstr(); if (ts[k].reported) x.bb->remove(ts[k].res); if (x.m->getErrorInstr()->getOperation() != Op::OpNop || !x.m->getErrorInstr()->empty()) mc::fail("error-changed", "%s changes the error instruction", ts[k].what.c_str()); }
		x.add()->opReturn(); const Words w = x.write(); const std::string e = validate(w); if (!e.empty()) return e + ir::trace(w); const Bin bin = parse(w); const Table tab = decode(bin); for (size_t k = from; k < to; ++k) report(x, ts[k], bin, tab); return {};
	}
	void judge(std::vector<Try>& ts)
	{
		const size_t step = 4000; for (size_t at = 0; at < ts.size(); at += step)
		{
			const size_t end = std::min(ts.size(), at + step); if (run(ts, at, end).empty()) continue; bool found = false;
			for (size_t k = at; k < end; ++k) { const std::string e = run(ts, k, k + 1); if (!e.empty()) { found = true; mc::fail(keep(std::string(ts[k].name) + ": " + sig(e)), "%s is accepted but invalid: %s", ts[k].what.c_str(), e.c_str()); } }
			if (!found) mc::fail(keep(std::string(ts[at].name) + ": together"), "%s is invalid together with others", ts[at].what.c_str());
		}
	}
}
