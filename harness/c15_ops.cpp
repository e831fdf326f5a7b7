// C15: operations infer legal result types or are rejected, for every combination of operand types.
#include "typebin.h"
#include "spvgentwo/Operators.h"
#include "spvgentwo/ModuleTemplate.inl"
#include "spvgentwo/InstructionTemplate.inl"
#include <memory>
#include <optional>
using namespace types;
using namespace ir;

namespace
{
	using I = Instruction*;
	struct Want { Op op; M type; };
	using W = std::optional<Want>;
	const M B = leaf(Op::OpTypeBool), F32 = leaf(Op::OpTypeFloat, 32), I32 = leaf(Op::OpTypeInt, 32, true), U32 = leaf(Op::OpTypeInt, 32);
	M vec(const M& s, unsigned n) { return n == 1 ? s : wrap(Op::OpTypeVector, s, n); }
	M mat(const M& s, unsigned cols, unsigned rows) { return wrap(Op::OpTypeMatrix, vec(s, rows), cols); }
	unsigned len(const M& t) { return t.isV() ? t.w : 1; }
	const M& comp(const M& t) { return t.isV() ? t.sub[0] : t; }
	bool num(const M& t) { return t.scalar() || t.isV(); }
	bool fl(const M& t) { return num(t) && comp(t).isF(); } bool in(const M& t) { return num(t) && comp(t).isI(); } bool bo(const M& t) { return num(t) && comp(t).isB(); } bool un(const M& t) { return in(t) && !comp(t).sign; } bool si(const M& t) { return in(t) && comp(t).sign; }
	bool hasSigned(const M& t) { if (t.isI() && t.sign) return true; for (auto& s : t.sub) if (hasSigned(s)) return true; return false; }
	bool same(const M& a, const M& b) { return len(a) == len(b) && comp(a).w == comp(b).w; }
	M withSign(const M& t, bool s) { M r = t; r.base().sign = s; return r; }
	M withComp(const M& t, const M& c) { return vec(c, len(t)); }

	const std::vector<M>& domain()
	{
		static const std::vector<M> v = []
		{
			std::vector<M> r; for (const M& s : scalars()) for (unsigned n : { 1u, 2u, 3u, 4u }) if (n < 4 || mc::thorough() || s.w == 32) r.push_back(vec(s, n));
			for (unsigned c : { 2u, 3u, 4u }) for (unsigned k : { 2u, 3u, 4u }) if (mc::thorough() || c == k || c + k == 5) r.push_back(mat(F32, c, k)); r.push_back(mat(leaf(Op::OpTypeFloat, 64), 2, 2)); r.push_back(mat(leaf(Op::OpTypeFloat, 16), 2, 3)); r.push_back(mat(leaf(Op::OpTypeFloat, 64), 3, 2));
			r.push_back(strct({ F32, I32 })); r.push_back(wrap(Op::OpTypeArray, F32, 2)); r.push_back(wrap(Op::OpTypeArray, I32, 3)); r.push_back(ptr(SC::Function, F32)); r.push_back(ptr(SC::Function, I32)); r.push_back(leaf(Op::OpTypeSampler)); return r;
		}(); return v;
	}
	struct D { const char* name; char rest; bool kernel; std::function<I(Instruction&, I*, unsigned)> call; std::function<W(const M&, const M&, unsigned)> must; };
	W no() { return {}; }
	W yes(Op o, const M& t) { return Want{ o, t }; }
	// the generic operations: the form matching the operands
	W add(const M& a, const M& b, Op i, Op f) { if (in(a) && in(b) && same(a, b)) return yes(i, a); if (fl(a) && a == b) return yes(f, a); return no(); }
	W vts(const M& a, const M& b) { if (a.isV() && fl(a) && b.isF() && comp(a) == b) return yes(Op::OpVectorTimesScalar, a); return no(); }
	W mts(const M& a, const M& b) { if (a.isM() && b.isF() && a.base() == b) return yes(Op::OpMatrixTimesScalar, a); return no(); }
	W vtm(const M& a, const M& b) { if (a.isV() && b.isM() && a.sub[0] == b.base() && b.sub[0].w == a.w) return yes(Op::OpVectorTimesMatrix, vec(a.sub[0], b.w)); return no(); }
	W mtv(const M& a, const M& b) { if (a.isM() && b.isV() && a.base() == b.sub[0] && a.w == b.w) return yes(Op::OpMatrixTimesVector, a.sub[0]); return no(); }
	W mtm(const M& a, const M& b) { if (a.isM() && b.isM() && a.base() == b.base() && a.w == b.sub[0].w) return yes(Op::OpMatrixTimesMatrix, mat(a.base(), b.w, a.sub[0].w)); return no(); }
	W mul(const M& a, const M& b) { if (W w = add(a, b, Op::OpIMul, Op::OpFMul)) return w; for (auto f : { vts, mts }) { if (W w = f(a, b)) return w; if (W w = f(b, a)) return w; } if (W w = vtm(a, b)) return w; if (W w = mtv(a, b)) return w; return mtm(a, b); }
	W div(const M& a, const M& b) { if (un(a) && a == b) return yes(Op::OpUDiv, a); if (in(a) && in(b) && same(a, b)) return si(a) && si(b) ? yes(Op::OpSDiv, withSign(a, true)) : no(); if (fl(a) && a == b) return yes(Op::OpFDiv, a); if (vts(a, b) && b.w >= 32) return yes(Op::OpVectorTimesScalar, a); return no(); }
	W eq(const M& a, const M& b, Op i, Op f, Op l) { if (in(a) && in(b) && same(a, b)) return yes(i, withComp(a, B)); if (fl(a) && a == b) return yes(f, withComp(a, B)); if (bo(a) && a == b) return yes(l, a); return no(); }
	W cmp(const M& a, const M& b, Op u, Op s, Op f) { if (in(a) && in(b) && same(a, b)) { if (un(a) && un(b)) return yes(u, withComp(a, B)); if (si(a) && si(b)) return yes(s, withComp(a, B)); return no(); } if (fl(a) && a == b) return yes(f, withComp(a, B)); return no(); }
	unsigned bits(const M& t) { return num(t) && !comp(t).isB() ? len(t) * comp(t).w : 0; }

	const std::vector<D>& defs()
	{
		static const std::vector<D> v = []
		{
			std::vector<D> r;
#define UN(fn, Opc, cond, ty) r.push_back({ #fn, '-', false, [](Instruction& i, I* o, unsigned) { return i.fn(o[0]); }, [](const M& a, const M&, unsigned) -> W { (void)a; if (cond) return yes(Op::Opc, ty); return no(); } })
#define KUN(fn, Opc, cond, ty) UN(fn, Opc, cond, ty); r.back().kernel = true
#define BI(fn, Opc, cond, ty) r.push_back({ #fn, 'T', false, [](Instruction& i, I* o, unsigned) { return i.fn(o[0], o[1]); }, [](const M& a, const M& b, unsigned) -> W { if (cond) return yes(Op::Opc, ty); return no(); } })
#define FN(fn, e) r.push_back({ #fn, 'T', false, [](Instruction& i, I* o, unsigned) { return i.fn(o[0], o[1]); }, [](const M& a, const M& b, unsigned) -> W { return e; } })
			UN(opConvertFToU, OpConvertFToU, fl(a), withComp(a, leaf(Op::OpTypeInt, comp(a).w))); UN(opConvertFToS, OpConvertFToS, fl(a), withComp(a, leaf(Op::OpTypeInt, comp(a).w, true)));
			UN(opConvertSToF, OpConvertSToF, si(a) && comp(a).w > 8, withComp(a, leaf(Op::OpTypeFloat, comp(a).w))); UN(opConvertUToF, OpConvertUToF, un(a) && comp(a).w > 8, withComp(a, leaf(Op::OpTypeFloat, comp(a).w)));
			UN(opSNegate, OpSNegate, si(a), a); UN(opFNegate, OpFNegate, fl(a), a); UN(opNot, OpNot, in(a), a); UN(opBitReverse, OpBitReverse, in(a), a); UN(opBitCount, OpBitCount, in(a), a); UN(opLogicalNot, OpLogicalNot, bo(a), a);
			UN(opAny, OpAny, bo(a) && a.isV(), B); UN(opAll, OpAll, bo(a) && a.isV(), B); UN(opIsNan, OpIsNan, fl(a), withComp(a, B)); UN(opIsInf, OpIsInf, fl(a), withComp(a, B));
			KUN(opIsFinite, OpIsFinite, fl(a), withComp(a, B)); KUN(opIsNormal, OpIsNormal, fl(a), withComp(a, B)); KUN(opSignBitSet, OpSignBitSet, fl(a), withComp(a, B)); KUN(opSatConvertSToU, OpSatConvertSToU, un(a), a); KUN(opSatConvertUToS, OpSatConvertUToS, un(a), a);
#define DX(fn) UN(op##fn, Op##fn, fl(a) && comp(a).w == 32, a)
			DX(DPdx); DX(DPdy); DX(Fwidth); DX(DPdxFine); DX(DPdyFine); DX(FwidthFine); DX(DPdxCoarse); DX(DPdyCoarse); DX(FwidthCoarse);
			UN(opQuantizeToF16, OpQuantizeToF16, fl(a) && comp(a).w == 32, a); UN(opTranspose, OpTranspose, a.isM(), mat(a.base(), a.sub[0].w, a.w)); UN(opCopyObject, OpCopyObject, true, a);
			UN(Not, OpNot, in(a), a); r.back().must = [](const M& a, const M&, unsigned) -> W { if (in(a)) return yes(Op::OpNot, a); if (bo(a)) return yes(Op::OpLogicalNot, a); return no(); };
			auto conv = [&](const char* n, std::function<I(Instruction&, I*, unsigned)> c, Op o, bool (*p)(const M&)) { r.push_back({ n, 'W', false, std::move(c), [o, p](const M& a, const M&, unsigned w) -> W { const bool legal = (w == 16 || w == 32 || w == 64) || (w == 8 && comp(a).isI()); if (p(a) && comp(a).w != w && legal) { M c = comp(a); c.w = w; return yes(o, withComp(a, c)); } return no(); } }); };
			conv("opUConvert", [](Instruction& i, I* o, unsigned w) { return i.opUConvert(o[0], w); }, Op::OpUConvert, un); conv("opSConvert", [](Instruction& i, I* o, unsigned w) { return i.opSConvert(o[0], w); }, Op::OpSConvert, si); conv("opFConvert", [](Instruction& i, I* o, unsigned w) { return i.opFConvert(o[0], w); }, Op::OpFConvert, fl);
			r.push_back({ "opBitcast", 'R', false, [](Instruction& i, I* o, unsigned) { return i.opBitcast(o[1], o[0]); }, [](const M& a, const M& b, unsigned) -> W { if (!(a == b) && bits(a) && bits(a) == bits(b)) return yes(Op::OpBitcast, b); if (a.op == Op::OpTypePointer && b.op == Op::OpTypePointer && !(a == b)) return yes(Op::OpBitcast, b); return no(); } });
#define IB(fn) BI(op##fn, Op##fn, in(a) && in(b) && same(a, b), a)
#define FB(fn) BI(op##fn, Op##fn, fl(a) && a == b, a)
			IB(IAdd); IB(ISub); IB(IMul); FB(FAdd); FB(FSub); FB(FMul); FB(FDiv); FB(FRem); FB(FMod); BI(opUDiv, OpUDiv, un(a) && a == b, a); BI(opUMod, OpUMod, un(a) && a == b, a);
#define SB(fn) BI(op##fn, Op##fn, in(a) && in(b) && same(a, b), withSign(a, true))
			SB(SDiv); SB(SRem); SB(SMod); IB(BitwiseOr); IB(BitwiseXor); IB(BitwiseAnd);
#define SH(fn) BI(op##fn, Op##fn, in(a) && in(b) && len(a) == len(b), a)
			SH(ShiftRightLogical); SH(ShiftRightArithmetic); SH(ShiftLeftLogical);
			BI(opIAddCarry, OpIAddCarry, un(a) && a == b, strct({ a, a })); BI(opISubBorrow, OpISubBorrow, un(a) && a == b, strct({ a, a })); BI(opUMulExtended, OpUMulExtended, un(a) && a == b, strct({ a, a })); BI(OpSMulExtended, OpSMulExtended, si(a) && a == b, strct({ a, a }));
			FN(opVectorTimesScalar, vts(a, b)); FN(opMatrixTimesScalar, mts(a, b)); FN(opVectorTimesMatrix, vtm(a, b)); FN(opMatrixTimesVector, mtv(a, b)); FN(opMatrixTimesMatrix, mtm(a, b));
			BI(opOuterProduct, OpOuterProduct, a.isV() && b.isV() && fl(a) && fl(b) && a.sub[0] == b.sub[0], wrap(Op::OpTypeMatrix, a, b.w)); BI(opDot, OpDot, a.isV() && fl(a) && a == b, a.sub[0]);
#define LB(fn) BI(op##fn, Op##fn, bo(a) && a == b, a)
			LB(LogicalEqual); LB(LogicalNotEqual); LB(LogicalOr); LB(LogicalAnd);
#define IC(fn) BI(op##fn, Op##fn, in(a) && in(b) && same(a, b), withComp(a, B))
			IC(IEqual); IC(INotEqual); IC(UGreaterThan); IC(UGreaterThanEqual); IC(SGreaterThan); IC(SGreaterThanEqual); IC(ULessThan); IC(ULessThanEqual); IC(SLessThan); IC(SLessThanEqual);
#define FC(fn) BI(op##fn, Op##fn, fl(a) && a == b, withComp(a, B))
			FC(FOrdEqual); FC(FUnordEqual); FC(FOrdNotEqual); FC(FUnordNotEqual); FC(FOrdLessThan); FC(FUnordLessThan); FC(FOrdGreaterThan); FC(FUnordGreaterThan); FC(FOrdLessThanEqual); FC(FUnordLessThanEqual); FC(FOrdGreaterThanEqual); FC(FUnordGreaterThanEqual);
			FC(Ordered); r.back().kernel = true; FC(Unordered); r.back().kernel = true;
			FN(Add, add(a, b, Op::OpIAdd, Op::OpFAdd)); FN(Sub, add(a, b, Op::OpISub, Op::OpFSub)); FN(Mul, mul(a, b)); FN(Div, div(a, b)); FN(Equal, eq(a, b, Op::OpIEqual, Op::OpFOrdEqual, Op::OpLogicalEqual)); FN(NotEqual, eq(a, b, Op::OpINotEqual, Op::OpFOrdNotEqual, Op::OpLogicalNotEqual));
			FN(Greater, cmp(a, b, Op::OpUGreaterThan, Op::OpSGreaterThan, Op::OpFOrdGreaterThan)); FN(GreaterEqual, cmp(a, b, Op::OpUGreaterThanEqual, Op::OpSGreaterThanEqual, Op::OpFOrdGreaterThanEqual)); FN(Less, cmp(a, b, Op::OpULessThan, Op::OpSLessThan, Op::OpFOrdLessThan)); FN(LessEqual, cmp(a, b, Op::OpULessThanEqual, Op::OpSLessThanEqual, Op::OpFOrdLessThanEqual));
			r.push_back({ "Div(keep)", 'T', false, [](Instruction& i, I* o, unsigned) { return i.Div(o[0], o[1], false); }, [](const M& a, const M& b, unsigned) -> W { W w = div(a, b); if (w && w->op == Op::OpVectorTimesScalar) return no(); return w; } });
			return r;
		}(); return v;
	}
	const std::vector<unsigned> widths{ 8, 16, 32, 64, 0, 1, 7, 24, 128 };
	const char* keep(const std::string& s) { static std::set<std::string> k; return k.insert(s).first->c_str(); }

	struct Mod
	{
		track::Allocator al; Log log; std::unique_ptr<Module> m; BasicBlock* bb = nullptr; std::map<std::string, I> undefs;
		explicit Mod(bool kernel) : m(new Module(&al, spv::AddressingModel::Logical, spv::MemoryModel::GLSL450, &log))
		{
			using C = spv::Capability; for (C c : { C::Linkage, C::Int8, C::Int16, C::Int64, C::Float16, C::Float64, C::DerivativeControl }) m->addCapability(c); m->addCapability(C::Shader); if (kernel) m->addCapability(C::Kernel);
			Function& f = m->addFunction<void>("f", spv::FunctionControlMask::MaskNone); bb = &*f;
		}
		I type(const M& t) { Type q(&al); plain(q, t); return m->addType(q); }
		I undef(const M& t) { I& u = undefs[show(t)]; if (!u) { I ty = type(t); u = m->addUndefInstr()->opUndef(ty); } return u; }
		Words write() { Writer w; if (!m->finalizeAndWrite(w)) mc::fail("write", "the module cannot be written: %s", log.last.c_str()); return w.words; }
	};
	struct Case { unsigned right; I res; size_t errors; I o[4]; };

	unsigned rights(const D& d) { return d.rest == '-' ? 1 : d.rest == 'W' ? widths.size() : domain().size(); }
	std::string text(const D& d, const M& a, unsigned r) { return std::string(d.name) + " " + show(a) + (d.rest == '-' ? "" : d.rest == 'W' ? " to " + std::to_string(widths[r]) : ", " + show(domain()[r])); }
	// what was emitted for one accepted combination
	void emitted(const D& d, const M& a, const M& b, unsigned r, const Case& c, const Bin& bin, const Table& t)
	{
		const unsigned w = d.rest == 'W' ? widths[r] : 0; const W want = d.must(a, b, w); const uint32_t id = uint32_t(c.res->getResultId()); const Ins* in = nullptr; for (auto& i : bin.ins) if (i.id == id) in = &i;
		MC_CHECK(in != nullptr, keep(std::string(d.name) + ": not in the binary"), "%s has no instruction", text(d, a, r).c_str()); if (!in) return; auto ty = t.type.find(in->type); if (ty == t.type.end()) return;
		const Type* said = c.res->getType(); MC_CHECK(said && differs(*said, ty->second).empty(), keep(std::string(d.name) + ": reported type"), "the type reported for %s is not the emitted one", text(d, a, r).c_str());
		if (!want) { mc::outcome("accepted otherwise"); return; }
		MC_CHECK(Op(in->op) == want->op, keep(std::string(d.name) + ": opcode"), "%s emits opcode %u, not %u", text(d, a, r).c_str(), in->op, unsigned(want->op)); MC_CHECK(ty->second == want->type, keep(std::string(d.name) + ": result type"), "%s has the result type %s instead of %s", text(d, a, r).c_str(), show(ty->second).c_str(), show(want->type).c_str());
		std::vector<uint32_t> got(in->w.begin() + 3, in->w.end()), exp; exp.push_back(uint32_t(c.o[0]->getResultId())); if (d.rest == 'T') exp.push_back(uint32_t(c.o[1]->getResultId()));
		if (got != exp && (want->op == Op::OpVectorTimesScalar || want->op == Op::OpMatrixTimesScalar)) { if (strcmp(d.name, "Div") == 0) { exp[1] = 0; for (auto& i : bin.ins) if (got.size() == 2 && i.id == got[1] && Op(i.op) == Op::OpFDiv && i.w.size() == 5 && i.w[4] == uint32_t(c.o[1]->getResultId())) { auto k = t.con.find(i.w[3]); const bool one = k != t.con.end() && k->second.type == b && (b.w == 32 ? k->second.data == std::vector<unsigned>{ 0x3f800000 } : k->second.data == std::vector<unsigned>{ 0, 0x3ff00000 }); if (one) exp[1] = got[1]; } } else if (strcmp(d.name, "Mul") == 0 && exp.size() == 2 && !a.isV() && !a.isM()) std::swap(exp[0], exp[1]); }
		MC_CHECK(got == exp, keep(std::string(d.name) + ": operands"), "%s has other operands", text(d, a, r).c_str());
	}
	// all right operands from..to in one module; empty when it is valid
	std::string batch(const D& d, const M& a, unsigned from, unsigned to, bool report)
	{
		Mod x(d.kernel); std::vector<Case> cs; for (unsigned r = from; r < to; ++r) { const M b = d.rest == 'T' || d.rest == 'R' ? domain()[r] : M(); Case c{ r, nullptr, x.log.errors, { x.undef(a), d.rest == 'T' ? x.undef(b) : d.rest == 'R' ? x.type(b) : nullptr } }; I i = x.bb->addInstruction(); c.res = d.call(*i, c.o, d.rest == 'W' ? widths[r] : 0); cs.push_back(c); }
		x.bb->addInstruction()->opReturn(); const Words w = x.write(); const std::string e = validate(w); if (!e.empty()) return e + trace(w); if (!report) return {};
		const Bin bin = parse(w); const Table t = decode(bin); unsigned acc = 0;
		for (const Case& c : cs)
		{
			const M b = d.rest == 'T' || d.rest == 'R' ? domain()[c.right] : M(); mc::checked();
			MC_CHECK(c.res != nullptr, "null", "%s returns no instruction", text(d, a, c.right).c_str()); if (!c.res) continue;
			if (c.res->isErrorInstr()) { MC_CHECK(!d.must(a, b, d.rest == 'W' ? widths[c.right] : 0), keep(std::string(d.name) + ": rejected"), "%s is rejected though the rules allow it", text(d, a, c.right).c_str()); continue; }
			++acc; emitted(d, a, b, c.right, c, bin, t);
		}
		mc::outcome(acc == cs.size() ? "all accepted" : acc ? "some accepted" : "rejected"); return {};
	}
}
MC_SCENARIO(operands, 2)
{
	const auto& ds = defs(); const D& d = ds[mc::choose(ds.size(), "operation")]; const auto& dom = domain(); const unsigned l = mc::choose(dom.size(), "left"); const M& a = dom[l];
	if (d.kernel && hasSigned(a)) return;
	mc::op("%s with %s", d.name, show(a).c_str()); mc::state(mc::mix(mc::hashStr(d.name), l));
	std::vector<unsigned> ok; const unsigned n = rights(d);
	if (d.kernel && d.rest == 'T') { for (unsigned r = 0; r < n; ++r) if (!hasSigned(domain()[r])) { std::string e = batch(d, a, r, r + 1, true); if (!e.empty()) mc::fail(keep(std::string(d.name) + ": " + sig(e)), "%s is accepted but invalid: %s", text(d, a, r).c_str(), e.c_str()); } return; }
	if (batch(d, a, 0, n, true).empty()) return;
	bool found = false; for (unsigned r = 0; r < n; ++r) { std::string e = batch(d, a, r, r + 1, true); if (!e.empty()) { found = true; mc::fail(keep(std::string(d.name) + ": " + sig(e)), "%s is accepted but invalid: %s", text(d, a, r).c_str(), e.c_str()); } }
	if (!found) mc::fail(keep(std::string(d.name) + ": together"), "%s: invalid only with all right operands together", text(d, a, 0).c_str());
}
namespace
{
	// every combination of up to four operands out of a list of types, all in one module per first two
	void emittedN(const char* name, Mod& x, I res, const std::vector<I>& o, const W& want, const std::string& what, const Bin& bin, const Table& t)
	{
		mc::checked(); if (!res) { mc::fail(keep(std::string(name) + ": null"), "%s returns no instruction", what.c_str()); } if (res->isErrorInstr()) { MC_CHECK(!want, keep(std::string(name) + ": rejected"), "%s is rejected though the rules allow it", what.c_str()); return; } (void)x;
		const Ins* in = nullptr; for (auto& i : bin.ins) if (i.id == uint32_t(res->getResultId())) in = &i; MC_CHECK(in != nullptr, keep(std::string(name) + ": not in the binary"), "%s has no instruction", what.c_str()); if (!in) return; auto ty = t.type.find(in->type); const Type* said = res->getType(); MC_CHECK(ty != t.type.end() && said && differs(*said, ty->second).empty(), keep(std::string(name) + ": reported type"), "the type reported for %s is not the emitted one", what.c_str()); if (ty == t.type.end()) return;
		if (want) { MC_CHECK(Op(in->op) == want->op, keep(std::string(name) + ": opcode"), "%s emits opcode %u, not %u", what.c_str(), in->op, unsigned(want->op)); MC_CHECK(ty->second == want->type, keep(std::string(name) + ": result type"), "%s has the result type %s instead of %s", what.c_str(), show(ty->second).c_str(), show(want->type).c_str()); }
		std::vector<uint32_t> got(in->w.begin() + 3, in->w.end()), exp; for (I i : o) exp.push_back(uint32_t(i->getResultId())); MC_CHECK(got == exp, keep(std::string(name) + ": operands"), "%s has other operands", what.c_str());
	}
}
MC_SCENARIO(bit_fields, 2)
{
	static const std::vector<M> small = [] { std::vector<M> r; for (const M& s : scalars()) r.push_back(s); for (const M& s : { I32, U32, F32, B, leaf(Op::OpTypeInt, 64) }) for (unsigned n : { 2u, 3u }) r.push_back(vec(s, n)); r.push_back(mat(F32, 2, 2)); r.push_back(strct({ I32 })); return r; }();
	const unsigned op = mc::choose(3, "operation"), l = mc::choose(domain().size(), "base"); const M& a = domain()[l]; static const char* names[] = { "opBitFieldInsert", "opBitFieldSExtract", "opBitFieldUExtract" }; mc::op("%s of %s", names[op], show(a).c_str()); mc::state(mc::mix(op, l));
	std::vector<std::vector<M>> rest; for (const M& o : small) for (const M& c : small) { if (op) rest.push_back({ o, c }); else rest.push_back({ a, o, c }); } if (op == 0) for (const M& i : domain()) if (!(i == a)) for (const M& o : { I32, U32, F32 }) rest.push_back({ i, o, I32 });
	auto must = [&](const std::vector<M>& r) -> W { if (!in(a)) return no(); if (op == 0 && !(r[0] == a)) return no(); const M& o = r[r.size() - 2]; const M& c = r.back(); if (!o.isI() || !c.isI()) return no(); return yes(op == 0 ? Op::OpBitFieldInsert : op == 1 ? Op::OpBitFieldSExtract : Op::OpBitFieldUExtract, a); };
	auto run = [&](size_t from, size_t to) -> std::string
	{
		Mod x(false); struct C { I res; std::vector<I> o; size_t k; }; std::vector<C> cs; for (size_t k = from; k < to; ++k) { C c{ nullptr, { x.undef(a) }, k }; for (const M& m : rest[k]) c.o.push_back(x.undef(m)); I i = x.bb->addInstruction(); c.res = op == 0 ? i->opBitFieldInsert(c.o[0], c.o[1], c.o[2], c.o[3]) : op == 1 ? i->opBitFieldSExtract(c.o[0], c.o[1], c.o[2]) : i->opBitFieldUExtract(c.o[0], c.o[1], c.o[2]); cs.push_back(c); }
		x.bb->addInstruction()->opReturn(); const Words w = x.write(); const std::string e = validate(w); if (!e.empty()) return e + trace(w); const Bin bin = parse(w); const Table t = decode(bin); for (const C& c : cs) { std::string what = std::string(names[op]) + " " + show(a); for (const M& m : rest[c.k]) what += ", " + show(m); emittedN(names[op], x, c.res, c.o, must(rest[c.k]), what, bin, t); } mc::outcome("bit fields"); return {};
	};
	if (run(0, rest.size()).empty()) return; for (size_t k = 0; k < rest.size(); ++k) { const std::string e = run(k, k + 1); if (!e.empty()) { std::string what; for (const M& m : rest[k]) what += ", " + show(m); mc::fail(keep(std::string(names[op]) + ": " + sig(e)), "%s of %s%s is accepted but invalid: %s", names[op], show(a).c_str(), what.c_str(), e.c_str()); } }
}
// the generic operations in a block, on the last instruction of a block and as operators are those of the instruction
MC_SCENARIO(generic_forms, 2)
{
	using BB = BasicBlock; struct G { const char* name; I (*one)(Instruction&, I, I); void (*two)(BB&, I, I); void (*last)(BB&, I); void (*sym)(BB&, I); void (*ref)(BB&, Instruction&); };
	using namespace spvgentwo::ops;
#define G_(n, o) { #n, [](Instruction& i, I a, I b) { return i.n(a, b); }, [](BB& bb, I a, I b) { bb.n(a, b); }, [](BB& bb, I b) { bb.n(b); }, [](BB& bb, I b) { bb o b; }, [](BB& bb, Instruction& b) { bb o b; } }
	static const G gs[] = { { "Add", [](Instruction& i, I a, I b) { return i.Add(a, b); }, [](BB& bb, I a, I b) { bb.Add(a, b); }, [](BB& bb, I b) { bb.Add(b); }, [](BB& bb, I b) { bb + b; }, [](BB& bb, Instruction& b) { bb + b; } }, G_(Sub, -), G_(Mul, *), { "Div", [](Instruction& i, I a, I b) { return i.Div(a, b); }, [](BB& bb, I a, I b) { bb.Div(a, b); }, [](BB& bb, I b) { bb.Div(b); }, [](BB& bb, I b) { bb / b; }, [](BB& bb, Instruction& b) { bb / b; } }, G_(Equal, ==), G_(NotEqual, !=), G_(Less, <), G_(LessEqual, <=), G_(Greater, >), G_(GreaterEqual, >=),
		{ "Not", [](Instruction& i, I a, I) { return i.Not(a); }, [](BB& bb, I a, I) { bb.Not(a); }, [](BB& bb, I) { bb.Not(); }, [](BB& bb, I) { !bb; }, [](BB& bb, Instruction&) { !bb; } } };
	const unsigned k = mc::choose(sizeof gs / sizeof *gs, "operation"), l = mc::choose(domain().size(), "left"); const G& g = gs[k]; const M& a = domain()[l]; mc::op("%s with %s", g.name, show(a).c_str()); mc::state(mc::mix(k, l));
	Mod x(false); I u = x.undef(a); struct Out { Instruction* op; Instruction* type; std::vector<I> rest; };
	for (unsigned r = 0; r < (k == 10 ? 1 : domain().size()); ++r)
	{
		const M& b = domain()[r]; I v = r == l ? x.m->addUndefInstr()->opUndef(x.type(b)) : x.undef(b); I one; { Instruction* i = x.bb->addInstruction(); one = g.one(*i, u, v); } MC_CHECK(one != nullptr, "null", "%s returns nothing", g.name); if (!one) return; const bool ok = !one->isErrorInstr(); if (ok) MC_CHECK(one == &x.bb->back(), "not-last", "the result of %s %s, %s is not the last instruction", g.name, show(a).c_str(), show(b).c_str());
		for (unsigned form = 0; form < 4; ++form)
		{
			static const char* const F[] = { "in a block", "on the last instruction", "as operator", "as operator on a reference" }; I left = u; const unsigned before = x.bb->size(); if (form) { left = x.bb->addInstruction()->opCopyObject(u); }
			switch (form) { case 0: g.two(*x.bb, u, v); break; case 1: g.last(*x.bb, v); break; case 2: g.sym(*x.bb, v); break; case 3: g.ref(*x.bb, *v); break; } mc::checked();
			Instruction& got = x.bb->back(); if (x.bb->size() <= before) { mc::fail(keep(std::string(g.name) + ": nothing"), "%s %s adds no instruction", g.name, F[form]); }
			const bool gok = &got != left && got.getOperation() != Op::OpNop; MC_CHECK(gok == ok, keep(std::string(g.name) + ": form"), "%s of %s, %s is %s, but %s %s", g.name, show(a).c_str(), show(b).c_str(), ok ? "accepted" : "rejected", gok ? "accepted" : "rejected", F[form]); if (!ok || !gok) continue;
			MC_CHECK(got.getOperation() == one->getOperation() && got.getResultTypeInstr() == one->getResultTypeInstr(), keep(std::string(g.name) + ": form differs"), "%s of %s, %s gives another instruction %s", g.name, show(a).c_str(), show(b).c_str(), F[form]); auto p = one->getFirstActualOperand(), q = got.getFirstActualOperand(); for (; p != one->end() && q != got.end(); ++p, ++q) { I pi = p->getInstruction(), qi = q->getInstruction(); if (pi == u) pi = left; MC_CHECK(pi == qi || (strcmp(g.name, "Div") == 0 && pi && qi && pi->getOperation() == Op::OpFDiv && qi->getOperation() == Op::OpFDiv), keep(std::string(g.name) + ": form operands"), "%s of %s, %s has other operands %s", g.name, show(a).c_str(), show(b).c_str(), F[form]); } MC_CHECK(p == one->end() && q == got.end(), keep(std::string(g.name) + ": form operands"), "%s has another number of operands %s", g.name, F[form]);
		}
	}
	x.bb->addInstruction()->opReturn(); const Words w = x.write(); const std::string e = validate(w); MC_CHECK(e.empty(), keep(std::string(g.name) + " forms: " + sig(e)), "%s forms: %s%s", g.name, e.c_str(), trace(w).c_str()); mc::outcome("forms");
}
namespace
{
	K specOf(const M& t) { K k; k.type = t; if (t.isB()) { k.op = Op::OpSpecConstantTrue; k.data = { 1 }; } else if (t.scalar()) { k.op = Op::OpSpecConstant; k.data.assign(t.w > 32 ? 2 : 1, 1); } else { k.op = Op::OpSpecConstantComposite; const size_t n = t.op == Op::OpTypeStruct ? t.sub.size() : t.w; for (size_t i = 0; i < n; ++i) k.sub.push_back(specOf(t.op == Op::OpTypeStruct ? t.sub[i] : t.sub[0])); } return k; }
	bool constable(const M& t) { return t.op != Op::OpTypePointer && t.op != Op::OpTypeSampler; }
	I specConst(Mod& x, const M& t) { I& u = x.undefs["K" + show(t)]; if (!u) { Constant c(&x.al); plain(c, specOf(t)); u = x.m->addConstant(c); } return u; }
	bool inSpec(Op o) { switch (o) { case Op::OpSConvert: case Op::OpUConvert: case Op::OpSNegate: case Op::OpNot: case Op::OpIAdd: case Op::OpISub: case Op::OpIMul: case Op::OpUDiv: case Op::OpSDiv: case Op::OpUMod: case Op::OpSRem: case Op::OpSMod: case Op::OpShiftRightLogical: case Op::OpShiftRightArithmetic: case Op::OpShiftLeftLogical: case Op::OpBitwiseOr: case Op::OpBitwiseXor: case Op::OpBitwiseAnd: case Op::OpLogicalOr: case Op::OpLogicalAnd: case Op::OpLogicalNot: case Op::OpLogicalEqual: case Op::OpLogicalNotEqual: case Op::OpIEqual: case Op::OpINotEqual: case Op::OpULessThan: case Op::OpSLessThan: case Op::OpUGreaterThan: case Op::OpSGreaterThan: case Op::OpULessThanEqual: case Op::OpSLessThanEqual: case Op::OpUGreaterThanEqual: case Op::OpSGreaterThanEqual: case Op::OpQuantizeToF16: return true; default: return false; } }
}
// operations on specialisation constants
MC_SCENARIO(spec_operations, 2)
{
	const auto& ds = defs(); const D& d = ds[mc::choose(ds.size(), "operation")]; const unsigned l = mc::choose(domain().size(), "left"); const M& a = domain()[l]; if (!constable(a) || a.isM()) return; mc::op("%s with constant %s", d.name, show(a).c_str()); mc::state(mc::mix(mc::hashStr(d.name), l)); if (d.kernel || d.rest == 'R') return;
	Mod x(false); x.m->setSpvVersion(1, 4); struct C { I res; std::vector<I> o; Want want; std::string what; uint32_t id = 0; }; std::vector<C> cs; Instruction* const err = x.m->getErrorInstr(); unsigned bad = 0;
	for (unsigned r = 0; r < rights(d); ++r)
	{
		const M b = d.rest == 'T' ? domain()[r] : M(); if (d.rest == 'T' && (!constable(b) || b.isM())) continue; const W want = d.must(a, b, d.rest == 'W' ? widths[r] : 0); if (want ? !inSpec(want->op) : bad > 2) continue; I i = r % 2 ? nullptr : x.m->addConstantInstr(); I o[2] = { specConst(x, a), d.rest == 'T' ? specConst(x, b) : nullptr };
		if (!i) i = x.m->addConstantInstr(); I res = d.call(*i, o, d.rest == 'W' ? widths[r] : 0); if (res != i) { MC_CHECK(!want, keep(std::string(d.name) + ": rejected for constants"), "%s is rejected for constants", text(d, a, r).c_str()); ++bad; I again = res->toSpecOp(); MC_CHECK(again == err && err->isErrorInstr() && err->getOperation() == Op::OpNop && err->empty(), "error-converted", "converting the rejected %s damages the error instruction", text(d, a, r).c_str()); x.m->remove(i); continue; }
		if (!want) { x.m->remove(i); continue; } I spec = i->toSpecOp(); mc::checked(); MC_CHECK(spec == i, "spec-op", "toSpecOp of %s gives another instruction", text(d, a, r).c_str()); C c{ i, { o[0] }, *want, text(d, a, r) }; if (o[1]) c.o.push_back(o[1]); cs.push_back(c);
		// the same by hand
		I j = x.m->addConstantInstr(), ty = x.type(want->type); I h = o[1] ? j->opSpecConstantOp(ty, want->op, o[0], o[1]) : j->opSpecConstantOp(ty, want->op, o[0]); MC_CHECK(h == j, "spec-op", "opSpecConstantOp of %s gives another instruction", c.what.c_str()); c.res = j; cs.push_back(c);
	}
	x.bb->addInstruction()->opReturn(); const Words w = x.write(); const std::string e = validate(w); MC_CHECK(e.empty(), keep(std::string(d.name) + " spec: " + sig(e)), "%s of constants: %s%s", d.name, e.c_str(), trace(w).c_str()); const Bin bin = parse(w); const Table t = decode(bin);
	for (const C& c : cs) { const Ins* in = nullptr; for (auto& i : bin.ins) if (i.id == uint32_t(c.res->getResultId())) in = &i; MC_CHECK(in && Op(in->op) == Op::OpSpecConstantOp && in->w.size() == 4 + c.o.size() && Op(in->w[3]) == c.want.op, "spec-op", "%s is not the specialisation constant operation", c.what.c_str()); for (size_t k = 0; in && k < c.o.size() && 4 + k < in->w.size(); ++k) MC_CHECK(in->w[4 + k] == uint32_t(c.o[k]->getResultId()), "spec-operands", "%s has other operands", c.what.c_str()); auto ty = in ? t.type.find(in->type) : t.type.end(); MC_CHECK(ty != t.type.end() && ty->second == c.want.type, "spec-type", "%s has another type", c.what.c_str()); }
	mc::outcome(cs.empty() ? "no such operation" : "converted");
}
// conversions between physical pointers and integers, and comparisons of pointers
MC_SCENARIO(pointers, 2)
{
	static const std::vector<M> ptrs = [] { std::vector<M> r; for (SC s : { SC::PhysicalStorageBuffer, SC::Function, SC::StorageBuffer, SC::Workgroup }) for (const M& p : { F32, I32, vec(F32, 4), strct({ F32, U32 }) }) r.push_back(ptr(s, p)); for (const M& m : { I32, U32, F32, leaf(Op::OpTypeInt, 64), leaf(Op::OpTypeInt, 64, true), vec(U32, 2), leaf(Op::OpTypeInt, 16) }) r.push_back(m); return r; }();
	const unsigned op = mc::choose(4, "operation"), l = mc::choose(ptrs.size(), "left"); const M& a = ptrs[l]; static const char* names[] = { "opConvertPtrToU", "opConvertUToPtr", "opPtrEqual", "opPtrNotEqual" }; mc::op("%s with %s", names[op], show(a).c_str()); mc::state(mc::mix(op, l)); auto phys = [](const M& m) { return m.op == Op::OpTypePointer && m.sc == SC::PhysicalStorageBuffer; };
	for (unsigned r = 0; r < (op == 0 ? widths.size() : ptrs.size()); ++r)
	{
		Mod x(false); using C = spv::Capability; for (C c : { C::PhysicalStorageBufferAddresses, C::VariablePointers, C::VariablePointersStorageBuffer }) x.m->addCapability(c); x.m->addExtension(spv::Extension::SPV_KHR_physical_storage_buffer); x.m->addExtension(spv::Extension::SPV_KHR_variable_pointers); x.m->setMemoryModel(spv::AddressingModel::PhysicalStorageBuffer64, spv::MemoryModel::GLSL450); x.m->setSpvVersion(1, 4);
		const M& b = ptrs[r < ptrs.size() ? r : 0]; I u = x.undef(a), v = op == 1 ? x.type(b) : x.undef(b), i = x.bb->addInstruction(), res = op == 0 ? i->opConvertPtrToU(u, widths[r]) : op == 1 ? i->opConvertUToPtr(v, u) : op == 2 ? i->opPtrEqual(u, v) : i->opPtrNotEqual(u, v); x.bb->addInstruction()->opReturn(); const Words w = x.write(); const std::string e = validate(w); const std::string what = std::string(names[op]) + " " + show(a) + (op == 0 ? " to " + std::to_string(widths[r]) : ", " + show(b)); MC_CHECK(e.empty(), keep(std::string(names[op]) + ": " + sig(e)), "%s is accepted but invalid: %s%s", what.c_str(), e.c_str(), trace(w).c_str());
		W want; if (op == 0 && phys(a) && (widths[r] == 64 || widths[r] == 32)) want = yes(Op::OpConvertPtrToU, leaf(Op::OpTypeInt, widths[r])); if (op == 1 && phys(b) && a.isI() && !a.sign && a.w == 64) want = yes(Op::OpConvertUToPtr, b); if (op >= 2 && a == b && a.op == Op::OpTypePointer && (a.sc == SC::StorageBuffer || a.sc == SC::Workgroup)) want = yes(op == 2 ? Op::OpPtrEqual : Op::OpPtrNotEqual, B);
		const Bin bin = parse(w); emittedN(names[op], x, res, op >= 2 ? std::vector<I>{ u, v } : std::vector<I>{ u }, want, what, bin, decode(bin));
	}
	mc::outcome("pointers");
}
