// C17: the helpers of the extended GLSL instruction set emit the right instruction for what the set allows, and nothing for the rest.
#include "ops.h"
#include "spvgentwo/GLSL450Instruction.h"
#include "spvgentwo/Grammar.h"
#include <spirv/unified1/GLSL.std.450.h>

namespace
{
	using G = GLSL450Intruction;
	const M F16 = leaf(Op::OpTypeFloat, 16);
	void setup(Module& m)
	{
		using C = spv::Capability; for (C c : { C::Linkage, C::Shader, C::Int8, C::Int16, C::Int64, C::Float16, C::Float64, C::InterpolationFunction }) m.addCapability(c);
	}
	const M& comp(const M& t) { return t.isV() ? t.sub[0] : t; }
	unsigned len(const M& t) { return t.isV() ? t.w : 1; }
	M withComp(const M& t, const M& c) { return t.isV() ? vec(c, t.w) : c; }
	bool num(const M& t) { return t.scalar() || t.isV(); }
	bool fl(const M& t) { return num(t) && comp(t).isF(); } bool in(const M& t) { return num(t) && comp(t).isI(); }
	bool fl32(const M& t) { return fl(t) && comp(t).w <= 32; }
	const std::vector<M>& domain()
	{
		static const std::vector<M> v = []
		{
			std::vector<M> r; for (const M& s : scalars()) for (unsigned n : { 1u, 2u, 3u, 4u }) if (n < 2 || n == 3 || mc::thorough() || s.w == 32) r.push_back(n == 1 ? s : vec(s, n));
			for (unsigned c : { 2u, 3u, 4u }) for (unsigned k : { 2u, 3u, 4u }) if (mc::thorough() || c == k || c + k == 5) r.push_back(mat(F32, c, k)); r.push_back(mat(F64, 2, 2)); r.push_back(mat(F16, 3, 3)); if (mc::thorough()) { r.push_back(mat(F64, 4, 4)); r.push_back(mat(F16, 3, 2)); }
			r.push_back(strct({ F32, I32 })); r.push_back(wrap(Op::OpTypeArray, F32, 2)); r.push_back(strct({})); r.push_back(leaf(Op::OpTypeSampler)); r.push_back(ptr(SC::Function, F32)); r.push_back(ptr(SC::Input, vec(F32, 4))); return r;
		}(); return v;
	}
	using Must = std::function<const M*(const M&, const M&, const M&)>;
	// number of operands, number in the set, the call, and the result type where the set allows the operands; maybe: allowed by the set, but not necessarily offered
	struct D { const char* name; unsigned args; unsigned number; std::function<I(G&, I*)> call; std::function<std::optional<M>(const M&, const M&, const M&)> must; };
	using R = std::optional<M>;
	const std::vector<D>& defs()
	{
		static const std::vector<D> v = []
		{
			std::vector<D> r;
#define ONE(fn, num, cond, ty) r.push_back({ #fn, 1, GLSLstd450##num, [](G& g, I* o) { return g.fn(o[0]); }, [](const M& a, const M&, const M&) -> R { if (cond) return ty; return {}; } })
#define TWO(fn, num, cond, ty) r.push_back({ #fn, 2, GLSLstd450##num, [](G& g, I* o) { return g.fn(o[0], o[1]); }, [](const M& a, const M& b, const M&) -> R { if (cond) return ty; return {}; } })
#define THREE(fn, num, cond, ty) r.push_back({ #fn, 3, GLSLstd450##num, [](G& g, I* o) { return g.fn(o[0], o[1], o[2]); }, [](const M& a, const M& b, const M& c) -> R { if (cond) return ty; return {}; } })
#define F1(n) ONE(op##n, n, fl(a), a)
			F1(Round); F1(RoundEven); F1(Trunc); F1(FAbs); F1(FSign); F1(Floor); F1(Ceil); F1(Fract); F1(Sqrt); F1(InverseSqrt); F1(Normalize);
#define H1(n) ONE(op##n, n, fl32(a), a)
			H1(Radians); H1(Degrees); H1(Sin); H1(Cos); H1(Tan); ONE(opASin, Asin, fl32(a), a); ONE(opACos, Acos, fl32(a), a); ONE(opATan, Atan, fl32(a), a); H1(Sinh); H1(Cosh); H1(Tanh); H1(Asinh); H1(Acosh); H1(Atanh); H1(Exp); H1(Log); H1(Exp2); H1(Log2);
			ONE(opSAbs, SAbs, in(a) && comp(a).sign, a); ONE(opSSign, SSign, in(a) && comp(a).sign, a);
			TWO(opAtan2, Atan2, fl32(a) && a == b, a); TWO(opPow, Pow, fl32(a) && a == b, a);
			ONE(opDeterminant, Determinant, a.isM() && a.w == a.sub[0].w, a.base()); ONE(opMatrixInverse, MatrixInverse, a.isM() && a.w == a.sub[0].w, a);
			ONE(opModfStruct, ModfStruct, fl(a), strct({ a, a })); ONE(opFrexpStruct, FrexpStruct, fl(a), strct({ a, withComp(a, I32) }));
#define F2(n) TWO(op##n, n, fl(a) && a == b, a)
			F2(FMin); F2(FMax); F2(Step); F2(NMin); F2(NMax); F2(Reflect);
#define F3(n) THREE(op##n, n, fl(a) && a == b && b == c, a)
			F3(FClamp); F3(FMix); F3(SmoothStep); F3(Fma); F3(NClamp); F3(FaceForward);
			TWO(opUMin, UMin, in(a) && !comp(a).sign && a == b, a); TWO(opUMax, UMax, in(a) && !comp(a).sign && a == b, a); TWO(opSMin, SMin, in(a) && comp(a).sign && a == b, a); TWO(opSMax, SMax, in(a) && comp(a).sign && a == b, a);
			THREE(opUClamp, UClamp, in(a) && !comp(a).sign && a == b && b == c, a); THREE(opSClamp, SClamp, in(a) && comp(a).sign && a == b && b == c, a);
			TWO(opLdexp, Ldexp, fl(a) && in(b) && len(a) == len(b) && a.isV() == b.isV() && comp(b).w == 32, a);
#define PK(n, k) ONE(op##n, n, a == vec(F32, k), U32)
			PK(PackSnorm4x8, 4); PK(PackUnorm4x8, 4); PK(PackSnorm2x16, 2); PK(PackUnorm2x16, 2); PK(PackHalf2x16, 2); ONE(opPackDouble2x32, PackDouble2x32, a == vec(U32, 2) || a == vec(I32, 2), F64);
#define UP(n, k) ONE(op##n, n, a.isI() && a.w == 32, vec(F32, k))
			UP(UnpackSnorm4x8, 4); UP(UnpackUnorm4x8, 4); UP(UnpackSnorm2x16, 2); UP(UnpackUnorm2x16, 2); UP(UnpackHalf2x16, 2); ONE(opUnpackDouble2x32, UnpackDouble2x32, a == F64, vec(U32, 2));
			ONE(opLength, Length, fl(a), comp(a)); TWO(opDistance, Distance, fl(a) && a == b, comp(a)); TWO(opCross, Cross, a.isV() && a.w == 3 && fl(a) && a == b, a); THREE(opRefract, Refract, fl32(a) && a == b && c == comp(a), a);
#define I1(n, w) ONE(op##n, n, in(a) && (w), a)
			I1(FindILsb, true); I1(FindSMsb, comp(a).w == 32); I1(FindUMsb, comp(a).w == 32);
			return r;
		}(); return v;
	}
	// the sign of an integer result is the library's choice
	bool anySign(const D& d) { return strncmp(d.name, "opPack", 6) == 0 || strncmp(d.name, "opUnpackD", 9) == 0 || strcmp(d.name, "opFrexpStruct") == 0; }
	void wrongSign(M& t) { if (t.isI()) t.sign = !t.sign; for (auto& s : t.sub) wrongSign(s); }
	// combinations outside the set's own restrictions, which the validator may let pass
	bool open(const D& d, const M* o) { const std::string n = d.name; if (n == "opLdexp") return fl(o[0]) && in(o[1]); if (n == "opRefract") return true; return false; }
}
MC_SCENARIO(operands, 2)
{
	const unsigned di = mc::choose(defs().size(), "helper"), ai = mc::choose(domain().size(), "first"); const D& d = defs()[di]; const M& a = domain()[ai]; mc::op("%s of %s", d.name, show(a).c_str()); mc::state(mc::mix(di, ai)); std::vector<Try> ts;
	auto add = [&](std::vector<M> o)
	{
		std::string what = d.name; for (auto& m : o) what += " " + show(m); Try y{ d.name, what }; auto operand = [](Mod& x, const M& m, unsigned n) { return m.op == Op::OpTypePointer ? x.var(m.sc, m.sub[0], n) : x.undef(m, n); };
		y.emit = [=, &d](Mod& x) -> I { I p[3]{}; for (size_t k = 0; k < o.size(); ++k) p[k] = operand(x, o[k], k); G* g = x.bb->ext<G>(); return d.call(*g, p); };
		M full[3]; for (size_t k = 0; k < o.size(); ++k) full[k] = o[k]; if (R r = d.must(full[0], full[1], full[2])) { y.op = Op::OpExtInst; y.type = *r; y.operands = [=, &d](Mod& x, const Table&) { I set = x.m->getExtensionInstructionImport("GLSL.std.450"); std::vector<uint32_t> e{ set ? id(set) : 0, d.number }; for (size_t k = 0; k < o.size(); ++k) e.push_back(id(operand(x, o[k], k))); return e; }; if (anySign(d)) { y.other = *r; wrongSign(*y.other); } } else y.free = open(d, full);
		ts.push_back(std::move(y));
	};
	if (d.args == 1) add({ a }); else for (const M& b : domain()) { if (d.args == 2) add({ a, b }); else { if (a == b || mc::thorough()) for (const M& c : domain()) add({ a, b, c }); else for (const M* c : { &a, &b, &F32, &I32 }) add({ a, b, *c }); } }
	judge(ts);
}
// interpolation functions take a pointer to an input
MC_SCENARIO(interpolation, 3)
{
	static const std::vector<M> held{ F32, vec(F32, 2), vec(F32, 4), I32, vec(I32, 2), F64, vec(F64, 2), F16, mat(F32, 2, 2), strct({ F32 }), wrap(Op::OpTypeArray, F32, 2) }; static const std::vector<SC> cls{ SC::Input, SC::Output, SC::Private, SC::Function };
	static const std::vector<M> seconds{ I32, U32, leaf(Op::OpTypeInt, 16), leaf(Op::OpTypeInt, 64, true), F32, vec(F32, 2), vec(F32, 3), vec(F64, 2), vec(I32, 2), B, strct({ F32 }) };
	const unsigned op = mc::choose(3, "helper"), ci = mc::choose(cls.size() + 1, "class"), hi = mc::choose(held.size(), "type"); const M& t = held[hi]; static const char* const names[] = { "opInterpolateAtCentroid", "opInterpolateAtSample", "opInterpolateAtOffset" }; const char* name = names[op]; mc::op("%s of %s in class %u", name, show(t).c_str(), ci); mc::state(mc::mix(mc::mix(op, ci), hi)); std::vector<Try> ts; const bool value = ci == cls.size(); const SC sc = value ? SC::Input : cls[ci];
	for (const M& s : seconds)
	{
		Try y{ name, std::string(name) + " " + (value ? "value " : "") + show(ptr(sc, t)) + (op ? ", " + show(s) : "") }; y.emit = [=](Mod& x) -> I { I p = value ? x.undef(t) : x.var(sc, t), u = x.undef(s, 1); G* g = x.bb->ext<G>(); return op == 0 ? g->opInterpolateAtCentroid(p) : op == 1 ? g->opInterpolateAtSample(p, u) : g->opInterpolateAtOffset(p, u); };
		const bool fit = !value && sc == SC::Input && fl(t) && comp(t).w == 32 && (op == 0 || (op == 1 ? s == I32 || s == U32 : s == vec(F32, 2)));
		if (fit) { y.op = Op::OpExtInst; y.type = t; y.operands = [=](Mod& x, const Table&) { I set = x.m->getExtensionInstructionImport("GLSL.std.450"); std::vector<uint32_t> e{ set ? id(set) : 0, unsigned(GLSLstd450InterpolateAtCentroid) + op, id(x.var(sc, t)) }; if (op) e.push_back(id(x.undef(s, 1))); return e; }; }
		ts.push_back(std::move(y)); if (op == 0) break;
	}
	judge(ts);
}
// the numbers of the set
MC_SCENARIO(numbers, 1)
{
	static const std::vector<std::pair<glslstd450::Op, unsigned>> n{
#define N(x) { glslstd450::Op::x, GLSLstd450##x }
		N(Round), N(RoundEven), N(Trunc), N(FAbs), N(SAbs), N(FSign), N(SSign), N(Floor), N(Ceil), N(Fract), N(Radians), N(Degrees), N(Sin), N(Cos), N(Tan), N(Asin), N(Acos), N(Atan), N(Sinh), N(Cosh), N(Tanh), N(Asinh), N(Acosh), N(Atanh), N(Atan2), N(Pow), N(Exp), N(Log), N(Exp2), N(Log2), N(Sqrt), N(InverseSqrt), N(Determinant), N(MatrixInverse), N(Modf), N(ModfStruct), N(FMin), N(UMin), N(SMin), N(FMax), N(UMax), N(SMax), N(FClamp), N(UClamp), N(SClamp), N(FMix), N(IMix), N(Step), N(SmoothStep), N(Fma), N(Frexp), N(FrexpStruct), N(Ldexp), N(PackSnorm4x8), N(PackUnorm4x8), N(PackSnorm2x16), N(PackUnorm2x16), N(PackHalf2x16), N(PackDouble2x32), N(UnpackSnorm2x16), N(UnpackUnorm2x16), N(UnpackHalf2x16), N(UnpackSnorm4x8), N(UnpackUnorm4x8), N(UnpackDouble2x32), N(Length), N(Distance), N(Cross), N(Normalize), N(FaceForward), N(Reflect), N(Refract), N(FindILsb), N(FindSMsb), N(FindUMsb), N(InterpolateAtCentroid), N(InterpolateAtSample), N(InterpolateAtOffset), N(NMin), N(NMax), N(NClamp) };
	const unsigned k = mc::choose(n.size(), "instruction"); mc::op("number %u", n[k].second); mc::state(k); mc::checked(); MC_CHECK(unsigned(n[k].first) == n[k].second, "number", "instruction %u of the set is called %u", n[k].second, unsigned(n[k].first)); mc::outcome("number");
}
// the set is imported once, however and however often it is used: before or after other sets, across write and read
MC_SCENARIO(imports, 3)
{
	const unsigned depth = mc::bound(4, 6); std::unique_ptr<track::Allocator> al(new track::Allocator); Log log; auto m = std::make_unique<Module>(al.get(), spv::AddressingModel::Logical, spv::MemoryModel::GLSL450, &log); setup(*m); m->setSpvVersion(1, 4); Function* f = &m->addFunction<void>("f", spv::FunctionControlMask::MaskNone); BasicBlock* bb = &**f; I u = nullptr; { I ty = m->type<float>(); u = m->addUndefInstr()->opUndef(ty); }
	bool used = false, other = false, done = false; unsigned uses = 0, others = 0; uint64_t h = 1;
	for (unsigned s = 0; s < depth; ++s)
	{
		const unsigned a = mc::choose(6, "step"); static const char* const A[] = { "stop", "use", "rejected use", "import by hand", "use of another set", "write and read" }; mc::op("%s", A[a]); h = mc::mix(h, a); mc::state(h); if (a == 0) break;
		if (a == 1) { I r = bb->ext<G>()->opSin(u); MC_CHECK(r && !r->isErrorInstr(), "use", "opSin is rejected"); used = true; ++uses; }
		if (a == 2) { I k = m->constant<int>(1); I r = bb->ext<G>()->opSin(k); MC_CHECK(r && r->isErrorInstr(), "rejected", "opSin accepts an integer"); if (m->getExtensionInstructionImport("GLSL.std.450")) used = used || true; }
		if (a == 3) { I i = m->addExtensionInstructionImport("GLSL.std.450"); MC_CHECK(i && i == m->getExtensionInstructionImport("GLSL.std.450"), "import", "the import is not the one found"); used = true; }
		if (a == 4) { I ty = m->type<float>(); I r = bb->addInstruction()->opExtInst(ty, "OpenCL.std", 62u, u); MC_CHECK(r && !r->isErrorInstr(), "other", "the other set is rejected"); other = true; ++others; }
		if (a == 5)
		{
			bb->addInstruction()->opReturn(); Writer w; MC_CHECK(m->finalizeAndWrite(w), "write", "cannot be written: %s", log.last.c_str()); Reader rd(w.words); auto n = std::make_unique<Module>(al.get(), &log); MC_CHECK(n->readAndInit(rd, grammar()), "read", "cannot be read: %s", log.last.c_str()); m = std::move(n); MC_CHECK(m->getFunctions().size() == 1, "read", "the function is missing"); f = &m->getFunctions().front(); bb = &**f; MC_CHECK(bb->remove(&bb->back()), "read", "the terminator cannot be removed"); u = nullptr; for (Instruction& i : m->getUndefs()) u = &i; MC_CHECK(u, "read", "the operand is missing");
		}
	}
	(void)done; bb->addInstruction()->opReturn(); Writer w; MC_CHECK(m->finalizeAndWrite(w), "write", "cannot be written: %s", log.last.c_str()); if (!other) { const std::string e = validate(w.words); MC_CHECK(e.empty(), keep("imports: " + sig(e)), "%s%s", e.c_str(), ir::trace(w.words).c_str()); }
	const Bin bin = parse(w.words); std::map<std::string, unsigned> sets; std::map<uint32_t, std::string> by; unsigned got = 0, gotOther = 0; for (auto& i : bin.ins) { if (Op(i.op) == Op::OpExtInstImport) { const std::string s(reinterpret_cast<const char*>(&i.w[2])); ++sets[s]; by[i.id] = s; } if (Op(i.op) == Op::OpExtInst) { if (by[i.w[3]] == "GLSL.std.450" && i.w[4] == GLSLstd450Sin) ++got; else if (by[i.w[3]] == "OpenCL.std" && i.w[4] == 62) ++gotOther; else mc::fail("set", "an instruction belongs to the wrong set: %s", ir::trace(w.words).c_str()); } }
	mc::checked(); MC_CHECK(sets["GLSL.std.450"] <= 1 && sets["OpenCL.std"] <= 1, "twice", "a set is imported twice%s", ir::trace(w.words).c_str()); MC_CHECK(!used || sets["GLSL.std.450"] == 1, "missing", "the set is not imported"); MC_CHECK(got == uses && gotOther == others, "uses", "%u uses of the set, %u in the binary", uses, got); mc::outcome(used ? "imported" : "not imported");
}
