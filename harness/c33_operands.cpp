// C33: an operand that cannot be used is reported and never gets into the module unnoticed.
#include "ops.h"
#include "spvgentwo/GLSL450Instruction.h"
#include "spvgentwo/EntryPoint.h"

namespace
{
	void setup(Module& mod)
	{
		using C = spv::Capability; for (C c : { C::Linkage, C::Shader, C::Addresses, C::Int64, C::Float64, C::Geometry, C::GeometryStreams, C::ImageQuery, C::DerivativeControl, C::VariablePointers, C::VariablePointersStorageBuffer, C::InterpolationFunction, C::Int8, C::Image1D, C::Int16 }) mod.addCapability(c);
		mod.addExtension(spv::Extension::SPV_KHR_variable_pointers); mod.setSpvVersion(1, 4);
	}
	using A = std::vector<I>;
	enum Where { Body, Ret, Branch, Glsl, Name, Deco, Text, Line, Mode, Entry, Undef, Global };
	struct Call { const char* name; const char* slots; Where where; I (*run)(I i, const A& a, Mod& x); };
	const M IMG = image(F32, spv::Dim::Dim2D, 0, false, false, SamplerImageAccess::Sampled), MSI = image(F32, spv::Dim::Dim2D, 0, false, true, SamplerImageAccess::Sampled), LIN = image(F32, spv::Dim::Dim2D, 0, false, false, SamplerImageAccess::Storage), ST = strct({ F32, I32 }), BUF = strct({ U32, wrap(Op::OpTypeRuntimeArray, F32) });
#define U1(OP, S) { #OP, S, Body, [](I i, const A& a, Mod&) -> I { return i->OP(a[0]); } }
#define U2(OP, S) { #OP, S, Body, [](I i, const A& a, Mod&) -> I { return i->OP(a[0], a[1]); } }
#define U3(OP, S) { #OP, S, Body, [](I i, const A& a, Mod&) -> I { return i->OP(a[0], a[1], a[2]); } }
#define U4(OP, S) { #OP, S, Body, [](I i, const A& a, Mod&) -> I { return i->OP(a[0], a[1], a[2], a[3]); } }
#define G1(OP, S) { "glsl " #OP, S, Glsl, [](I i, const A& a, Mod&) -> I { return ((GLSL450Intruction*)i)->OP(a[0]); } }
#define G2(OP, S) { "glsl " #OP, S, Glsl, [](I i, const A& a, Mod&) -> I { return ((GLSL450Intruction*)i)->OP(a[0], a[1]); } }
#define G3(OP, S) { "glsl " #OP, S, Glsl, [](I i, const A& a, Mod&) -> I { return ((GLSL450Intruction*)i)->OP(a[0], a[1], a[2]); } }
#define X(NAME, S, W, ...) { NAME, S, W, [](I i, const A& a, Mod& x) -> I { (void)x; (void)a; __VA_ARGS__; } }
	const std::vector<Call>& calls()
	{
		static const std::vector<Call> c = {
			U1(opFNegate, "f"), U1(opSNegate, "i"), U1(opConvertFToU, "f"), U1(opConvertFToS, "v"), U1(opConvertSToF, "i"), U1(opConvertUToF, "u"), U1(opSatConvertSToU, "i"), U1(opSatConvertUToS, "u"), U1(opNot, "i"), U1(opBitReverse, "i"), U1(opBitCount, "i"), U1(opAny, "c"), U1(opAll, "c"), U1(opLogicalNot, "b"), U1(opTranspose, "m"), U1(opCopyObject, "f"), U1(opIsNan, "f"), U1(opIsInf, "v"), U1(opIsFinite, "f"), U1(opIsNormal, "f"), U1(opSignBitSet, "f"), U1(Not, "b"),
			U1(opDPdx, "f"), U1(opDPdy, "v"), U1(opFwidth, "f"), U1(opDPdxFine, "f"), U1(opDPdyFine, "f"), U1(opFwidthFine, "f"), U1(opDPdxCoarse, "f"), U1(opDPdyCoarse, "f"), U1(opFwidthCoarse, "f"), U1(opSizeOf, "p"), U1(opLoad, "p"), U1(opImage, "z"), U1(opImageQuerySize, "k"), U1(opImageQueryLevels, "a"),
			U2(opIAdd, "ii"), U2(opFAdd, "ff"), U2(opISub, "ui"), U2(opFSub, "vv"), U2(opIMul, "ii"), U2(opFMul, "ff"), U2(opUDiv, "uu"), U2(opSDiv, "ii"), U2(opFDiv, "ff"), U2(opUMod, "uu"), U2(opSRem, "ii"), U2(opSMod, "ii"), U2(opFRem, "ff"), U2(opFMod, "ff"), U2(opVectorTimesScalar, "vf"), U2(opMatrixTimesScalar, "mf"), U2(opVectorTimesMatrix, "vm"), U2(opMatrixTimesVector, "mv"), U2(opMatrixTimesMatrix, "mm"), U2(opOuterProduct, "vv"), U2(opDot, "vv"), U2(opIAddCarry, "uu"), U2(opISubBorrow, "uu"), U2(opUMulExtended, "uu"), U2(opOrdered, "ff"), U2(opUnordered, "ff"),
			U2(opLogicalEqual, "bb"), U2(opLogicalNotEqual, "bb"), U2(opLogicalOr, "bb"), U2(opLogicalAnd, "cc"), U2(opIEqual, "ii"), U2(opINotEqual, "ii"), U2(opUGreaterThan, "uu"), U2(opUGreaterThanEqual, "uu"), U2(opSGreaterThan, "ii"), U2(opSGreaterThanEqual, "ii"), U2(opULessThan, "uu"), U2(opULessThanEqual, "uu"), U2(opSLessThan, "ii"), U2(opSLessThanEqual, "ii"), U2(opFOrdEqual, "ff"), U2(opFUnordEqual, "ff"), U2(opFOrdNotEqual, "ff"), U2(opFUnordNotEqual, "ff"), U2(opFOrdLessThan, "ff"), U2(opFUnordLessThan, "ff"), U2(opFOrdGreaterThan, "ff"), U2(opFUnordGreaterThan, "ff"), U2(opFOrdLessThanEqual, "ff"), U2(opFUnordLessThanEqual, "ff"), U2(opFOrdGreaterThanEqual, "ff"), U2(opFUnordGreaterThanEqual, "ff"),
			U2(opShiftRightLogical, "ii"), U2(opShiftRightArithmetic, "ii"), U2(opShiftLeftLogical, "ii"), U2(opBitwiseOr, "ii"), U2(opBitwiseXor, "ii"), U2(opBitwiseAnd, "ii"), U2(opVectorExtractDynamic, "vi"), U2(opPtrEqual, "qq"), U2(opPtrNotEqual, "qq"), U2(opSampledImage, "as"), U2(opImageQuerySizeLod, "ai"), U2(opImageSampleImplictLod, "zw"), U2(opImageFetch, "ay"), U2(opImageRead, "ky"), U2(opImageQueryLod, "zw"),
			U2(Add, "ff"), U2(Sub, "ii"), U2(Mul, "vf"), U2(Mul, "mm"), U2(Mul, "ii"), U2(Div, "uu"), U2(Div, "vf"), U2(Equal, "ff"), U2(Equal, "bb"), U2(NotEqual, "ii"), U2(Less, "uu"), U2(LessEqual, "ff"), U2(Greater, "ii"), U2(GreaterEqual, "ff"),
			U3(opSelect, "bff"), U3(opSelect, "cvv"), U3(opVectorInsertDynamic, "vfi"), U3(opBitFieldSExtract, "iii"), U3(opBitFieldUExtract, "iii"), U4(opBitFieldInsert, "iiii"), U3(opImageSampleDrefImplictLod, "dwf"), U3(opImageSampleExplicitLodLevel, "zwf"), U3(opImageGather, "zwe"), U3(opImageDrefGather, "dwf"),
			X("opFConvert", "f", Body, return i->opFConvert(a[0], 64)), X("opSConvert", "i", Body, return i->opSConvert(a[0], 64)), X("opUConvert", "u", Body, return i->opUConvert(a[0], 64)), X("opBitcast", "Ii", Body, return i->opBitcast(a[0], a[1])),
			X("opVectorShuffle", "vv", Body, return i->opVectorShuffle(a[0], a[1], 0u, 5u)), X("opCompositeExtract", "t", Body, return i->opCompositeExtract(a[0], 1u)), X("opCompositeExtractDynamic", "t", Body, List<unsigned int> l(&x.al); l.emplace_back(1u); return i->opCompositeExtractDynamic(a[0], l)), X("opCompositeInsert", "tf", Body, return i->opCompositeInsert(a[0], a[1], 0u)),
			X("opCompositeConstruct", "Tfi", Body, return i->opCompositeConstruct(a[0], a[1], a[2])), X("opCompositeConstructDynamic", "Tfi", Body, List<I> l(&x.al); l.emplace_back(a[1]); l.emplace_back(a[2]); return i->opCompositeConstructDynamic(a[0], l)),
			X("opAccessChain", "P", Body, return i->opAccessChain(a[0], 1u)), X("opAccessChain(list)", "P", Body, List<unsigned int> l(&x.al); l.emplace_back(0u); return i->opAccessChain(a[0], l)), X("opAccessChain(typed)", "QPe", Body, return i->opAccessChain(a[0], a[1], a[2])), X("opInBoundsAccessChain", "QPe", Body, return i->opInBoundsAccessChain(a[0], a[1], a[2])), X("opArrayLength", "R", Body, return i->opArrayLength(a[0], 1u)),
			X("opStore", "pf", Body, i->opStore(a[0], a[1]); return i), X("opCopyMemory", "pp", Body, i->opCopyMemory(a[0], a[1]); return i), X("opCopyMemorySized", "ppu", Body, i->opCopyMemorySized(a[0], a[1], a[2]); return i), X("opFunctionCall", "FHf", Body, return i->opFunctionCall(a[0], a[1], a[2])), X("opFunctionCallDynamic", "FHf", Body, List<I> l(&x.al); l.emplace_back(a[2]); return i->opFunctionCallDynamic(a[0], a[1], l)), X("call", "f", Body, return i->call(x.undefs["helper"]->getFunction(), a[0])),
			X("opPhi", "xx", Body, return i->opPhi(a[0], a[1])), X("opPhiDynamic", "xx", Body, List<I> l(&x.al); l.emplace_back(a[0]); l.emplace_back(a[1]); return i->opPhiDynamic(l)), X("opEmitStreamVertex", "e", Body, return i->opEmitStreamVertex(a[0])), X("opEndStreamPrimitive", "e", Body, return i->opEndStreamPrimitive(a[0])), X("opSpecConstantOp", "UEE", Body, return i->opSpecConstantOp(a[0], Op::OpIAdd, a[1], a[2])),
			X("opExtInst", "IGf", Body, return i->opExtInst(a[0], a[1], unsigned(glslstd450::Op::Sin), a[2])), X("opExtInst(name)", "If", Body, return i->opExtInst(a[0], "GLSL.std.450", unsigned(glslstd450::Op::Sin), a[1])), X("opImageWrite", "kyv", Body, return i->opImageWrite(a[0], a[1], a[2])),
			X("opReturnValue", "f", Ret, i->opReturnValue(a[0]); return i), X("opBranchConditional", "b", Branch, BasicBlock* t = i->getBasicBlock(); i->opBranchConditional(a[0], x.undefs["then"]->getBasicBlock(), x.undefs["merge"]->getBasicBlock()); (void)t; return i), X("opLine", "N", Body, i->opLine(a[0], 1, 2); return i),
			X("opUndef", "I", Undef, return i->opUndef(a[0])), X("opName", "V", Name, i->opName(a[0], "n"); return i), X("opMemberName", "T", Name, i->opMemberName(a[0], 1, "n"); return i), X("opDecorate", "V", Deco, i->opDecorate(a[0], spv::Decoration::RelaxedPrecision); return i), X("opMemberDecorate", "T", Deco, i->opMemberDecorate(a[0], 0, spv::Decoration::RelaxedPrecision); return i), X("opDecorateId", "Ve", Deco, i->opDecorateId(a[0], spv::Decoration::UniformId, a[1]); return i), X("opSource", "N", Text, i->opSource(spv::SourceLanguage::GLSL, 450, a[0], "text"); return i), X("opLine(module)", "N", Line, i->opLine(a[0], 1, 2); return i),
			X("opExecutionMode", "H", Mode, i->opExecutionMode(a[0], spv::ExecutionMode::OriginUpperLeft); return i), X("opExecutionModeId", "Heee", Mode, i->opExecutionModeId(a[0], spv::ExecutionMode::LocalSizeId, a[1], a[2], a[3]); return i), X("opVariable", "K", Global, return i->opVariable(a[0], SC::Private, nullptr)), X("opVariable(initialized)", "Kr", Global, return i->opVariable(a[0], SC::Private, a[1])),
			G1(opRound, "f"), G1(opFAbs, "v"), G1(opSAbs, "i"), G1(opSin, "f"), G2(opAtan2, "ff"), G2(opPow, "ff"), G1(opDeterminant, "m"), G1(opMatrixInverse, "m"), G1(opModfStruct, "f"), G2(opFMin, "ff"), G2(opUMin, "uu"), G2(opSMin, "ii"), G3(opFClamp, "fff"), G3(opUClamp, "uuu"), G3(opFMix, "fff"), G3(opFma, "vvv"), G1(opFrexpStruct, "f"), G2(opLdexp, "fi"), G1(opPackSnorm4x8, "v"), G1(opUnpackUnorm4x8, "u"), G1(opLength, "v"), G2(opDistance, "vv"), G2(opCross, "hh"), G1(opNormalize, "v"), G2(opReflect, "vv"), G3(opRefract, "vvf"), G3(opFaceForward, "vvv"), G1(opFindILsb, "i"), G1(opInterpolateAtCentroid, "n"), G2(opInterpolateAtSample, "ni"), G2(opInterpolateAtOffset, "nw"),
			X("opImageSampleExplicitLodGrad", "zwww", Body, return i->opImageSampleExplicitLodGrad(a[0], a[1], a[2], spv::ImageOperandsMask::MaskNone, a[3])), X("opImageSampleProjImplictLod", "zh", Body, return i->opImageSampleProjImplictLod(a[0], a[1])), X("opImageSampleProjExplicitLodLevel", "zhf", Body, return i->opImageSampleProjExplicitLodLevel(a[0], a[1], a[2])), X("opImageSampleProjExplicitLodGrad", "zhww", Body, return i->opImageSampleProjExplicitLodGrad(a[0], a[1], a[2], spv::ImageOperandsMask::MaskNone, a[3])), X("opImageSampleDrefExplicitLodLevel", "dwff", Body, return i->opImageSampleDrefExplicitLodLevel(a[0], a[1], a[2], a[3])), X("opImageSampleDrefExplicitLodGrad", "dwfww", Body, return i->opImageSampleDrefExplicitLodGrad(a[0], a[1], a[2], a[3], spv::ImageOperandsMask::MaskNone, a[4])), X("opImageSampleProjDrefImplictLod", "dhf", Body, return i->opImageSampleProjDrefImplictLod(a[0], a[1], a[2])), X("opImageSampleProjDrefExplicitLodLevel", "dhff", Body, return i->opImageSampleProjDrefExplicitLodLevel(a[0], a[1], a[2], a[3])), X("opImageSampleProjDrefExplicitLodGrad", "dhfww", Body, return i->opImageSampleProjDrefExplicitLodGrad(a[0], a[1], a[2], a[3], spv::ImageOperandsMask::MaskNone, a[4])), X("opImageSampleImplictLod(bias)", "zwf", Body, return i->opImageSampleImplictLod(a[0], a[1], spv::ImageOperandsMask::Bias, a[2])), X("opImageSampleExplicitLodLevel(offset)", "zwfy", Body, return i->opImageSampleExplicitLodLevel(a[0], a[1], a[2], spv::ImageOperandsMask::Offset, a[3])), X("opImageFetch(lod)", "ayi", Body, return i->opImageFetch(a[0], a[1], spv::ImageOperandsMask::Lod, a[2])), U1(opImageQuerySamples, "l"), U1(opQuantizeToF16, "f"), G1(opACos, "f"), G1(opASin, "f"), G1(opATan, "f"), G1(opAcosh, "f"), G1(opAsinh, "f"), G1(opAtanh, "f"), G1(opCeil, "f"), G1(opCos, "f"), G1(opCosh, "f"), G1(opDegrees, "f"), G1(opExp, "f"), G1(opExp2, "f"), G1(opFSign, "f"), G1(opFloor, "f"), G1(opFract, "f"), G1(opInverseSqrt, "f"), G1(opLog, "f"), G1(opLog2, "f"), G1(opRadians, "f"), G1(opRoundEven, "f"), G1(opSinh, "f"), G1(opSqrt, "f"), G1(opTan, "f"), G1(opTanh, "f"), G1(opTrunc, "f"), G1(opFindSMsb, "i"), G1(opSSign, "i"), G1(opFindUMsb, "u"), G1(opUnpackHalf2x16, "u"), G1(opUnpackSnorm2x16, "u"), G1(opUnpackSnorm4x8, "u"), G1(opUnpackUnorm2x16, "u"), G1(opPackHalf2x16, "w"), G1(opPackSnorm2x16, "w"), G1(opPackUnorm2x16, "w"), G1(opPackUnorm4x8, "v"), G2(opFMax, "ff"), G2(opNMax, "ff"), G2(opNMin, "ff"), G2(opStep, "ff"), G2(opSMax, "ii"), G2(opUMax, "uu"), G3(opNClamp, "fff"), G3(opSmoothStep, "fff"), G3(opSClamp, "iii"), G1(opPackDouble2x32, "j"), G1(opUnpackDouble2x32, "D"),
		};
		return c;
	}
	bool isTypeSlot(char s) { return strchr("ITUFQK", s) != nullptr; }
	I made(Mod& x, char s, unsigned n)
	{
		switch (s)
		{
		case 'f': return x.undef(F32, n); case 'v': return x.undef(vec(F32, 4), n); case 'h': return x.undef(vec(F32, 3), n); case 'w': return x.undef(vec(F32, 2), n); case 'y': return x.undef(vec(I32, 2), n); case 'j': return x.undef(vec(U32, 2), n); case 'D': return x.undef(F64, n); case 'i': return x.undef(I32, n); case 'u': return x.undef(U32, n); case 'b': return x.undef(B, n); case 'c': return x.undef(vec(B, 4), n); case 'm': return x.undef(mat(F32, 4, 4), n); case 't': return x.undef(ST, n);
		case 'p': return x.var(SC::Private, F32, n); case 'q': return x.var(SC::StorageBuffer, F32, n); case 'P': return x.var(SC::Private, ST, n); case 'n': return x.var(SC::Input, F32, n); case 'R': return x.var(SC::StorageBuffer, BUF, n);
		case 'a': case 'k': case 'l': case 's': case 'z': case 'd': { const M t = s == 's' ? leaf(Op::OpTypeSampler) : s == 'a' ? IMG : s == 'l' ? MSI : s == 'k' ? LIN : wrap(Op::OpTypeSampledImage, s == 'z' ? IMG : image(F32, spv::Dim::Dim2D, 1, false, false, SamplerImageAccess::Sampled)); I& l = x.undefs[std::string("load") + s]; if (!l) { I v = x.var(SC::UniformConstant, t); l = x.add()->opLoad(v); } return l; }
		case 'e': return x.m->constant<unsigned>(n % 2); case 'E': return x.m->constant<unsigned>(n, true); case 'I': return x.type(F32); case 'U': return x.type(U32); case 'T': return x.type(ST); case 'F': return x.type(F32); case 'Q': return x.type(ptr(SC::Private, F32)); case 'H': return x.undefs["helper"]; case 'G': return x.m->addExtensionInstructionImport("GLSL.std.450"); case 'K': return x.type(ptr(SC::Private, F32)); case 'r': return x.m->constant<float>(1.f); case 'N': return x.undefs["string"]; case 'V': return x.undef(F32, n); case 'x': return x.undefs["sum"];
		}
		mc::broken("slot %c", s); return nullptr;
	}

	enum Bad { Good, Error, TypeOf, Void, Func, Label, String, Import, Self, Nop, Store, FuncType, Other, Block, Pointer, Dynamic, Null, Bads };
	const char* const bads[] = { "good operands", "the error instruction", "the type", "the void type", "a function", "a label", "a string", "an imported instruction set", "the instruction itself", "an empty instruction", "a store", "a function type", "a value of another type", "an array type", "a pointer to it", "a value that is not constant", "a constant of another type" };
	I bad(Mod& x, const M& t, char slot, Bad b, I self)
	{
		switch (b)
		{
		case Error: return x.m->getErrorInstr(); case TypeOf: return isTypeSlot(slot) ? x.undef(t, 9) : x.type(t); case Void: return x.type(leaf(Op::OpTypeVoid)); case Func: return x.f->getFunction(); case Label: return x.bb->getLabel(); case String: return x.undefs["string"]; case Import: return x.m->addExtensionInstructionImport("OpenCL.std"); case Self: return self;
		case Nop: return x.undefs["nop"]; case Store: return x.undefs["store"]; case FuncType: return x.f->getFunctionTypeInstr(); case Other: return x.undef(strct({ B, F64, F32 }), 3); case Block: return x.type(wrap(Op::OpTypeArray, B, 3)); case Pointer: return x.var(SC::Private, t, 7); case Dynamic: return x.undef(t, 11); case Null: return x.null(strct({ B, F64, F32 })); default: return nullptr;
		}
	}
	M typeOf(char s)
	{
		switch (s) { case 'v': return vec(F32, 4); case 'h': return vec(F32, 3); case 'w': return vec(F32, 2); case 'y': return vec(I32, 2); case 'j': return vec(U32, 2); case 'D': return F64; case 'l': return MSI; case 'i': return I32; case 'u': case 'e': case 'E': case 'U': return U32; case 'b': return B; case 'c': return vec(B, 4); case 'm': return mat(F32, 4, 4); case 't': case 'T': return ST; case 'p': case 'Q': case 'K': return ptr(SC::Private, F32); case 'q': return ptr(SC::StorageBuffer, F32); case 'P': return ptr(SC::Private, ST); case 'n': return ptr(SC::Input, F32); case 'R': return ptr(SC::StorageBuffer, BUF); case 'a': return IMG; case 'k': return LIN; case 's': return leaf(Op::OpTypeSampler); case 'z': case 'd': return wrap(Op::OpTypeSampledImage, IMG); default: return F32; }
	}
	// calls that take any instruction with an id by themselves: whether it fits is up to the caller
	bool raw(const Call& c) { const std::string n = c.name; return n.find("opExtInst") == 0 || n == "opSpecConstantOp"; }
	// whether that stand-in can be used there after all
	bool usable(const Call& c, unsigned k, Bad b)
	{
		const char s = c.slots[k]; const std::string n = c.name;
		if (b == Pointer && s == 'p') return n == "opLoad" || n == "opSizeOf" || n == "opCopyMemorySized";
		if (b == Pointer && n == "opCopyObject") return true;
		if (b == Dynamic && !strchr("eErNHx", s) && !isTypeSlot(s)) return true;
		if (b == Dynamic && n == "opImageGather") return true; // only Vulkan requires a constant
		if (s == 'V') return b != Error && b != Self && b != Nop && b != Store; // anything with an id can be named and decorated
		if (s == 'N') return b == String;
		if (s == 'H') return n.find("Mode") != std::string::npos && b == Func; // another function
		if (n == "opCopyObject" || n == "opCompositeExtract" || n == "opCompositeExtractDynamic") return b == Other || b == Null;
		if (n == "opUndef") return b == Block;
		return false;
	}
}
namespace
{
	struct Swap { unsigned k; Bad b; };
	bool needsId(Bad b) { return b == Error || b == Self || b == Nop || b == Store; }
	// the call with those operands replaced by stand-ins
	void replace(const Call& c, const std::vector<Swap>& swaps)
	{
		std::string what; for (const Swap& s : swaps) what += std::string(what.empty() ? "" : " and ") + bads[s.b] + " for operand " + std::to_string(s.k + 1);
		const unsigned n = strlen(c.slots); mc::op("%s(%s) with %s", c.name, c.slots, what.c_str());
		bool lax = true, ok = true, empty = false; for (const Swap& s : swaps) { lax &= s.b != Good && (usable(c, s.k, s.b) || ((raw(c) || ((c.where == Deco || c.where == Mode) && s.k > 0)) && !needsId(s.b))); ok &= s.b == Good || usable(c, s.k, s.b); empty |= s.b == Nop; }
		if (lax && !ok) return; // up to the caller
		auto alike = [&](Bad b, Bad d) { return (b == Pointer && d == Pointer) || ((b == Other || b == Null) && (d == Other || d == Null)); };
		if (swaps.size() == 2 && alike(swaps[0].b, swaps[1].b) && (c.slots[swaps[0].k] == c.slots[swaps[1].k] || c.name == std::string("opStore"))) return; // may fit each other
		Mod x; I type = x.type(F32); Function& h = x.m->addFunction<float, float>("helper", spv::FunctionControlMask::MaskNone); { BasicBlock& hb = *h; I r = hb->opFNegate(h.getParameter(0)); hb.returnValue(r); } x.undefs["helper"] = h.getFunction(); x.undefs["string"] = x.m->addSourceStringInstr()->opString("file"); (void)type;
		I one = x.undef(F32), sum = x.add()->opFAdd(one, one); x.undefs["sum"] = sum; I var = x.var(SC::Private, F32); I store = x.add(); store->opStore(var, one); x.undefs["store"] = store; I nop = x.add(); nop->opNop(); x.undefs["nop"] = nop;
		BasicBlock* at = x.bb; Function* extra = nullptr;
		if (c.where == Ret) { extra = &x.m->addFunction(); extra->setReturnType(x.type(F32)); extra->finalize(spv::FunctionControlMask::MaskNone, "extra"); at = &extra->addBasicBlock("at"); }
		if (c.where == Branch) { extra = &x.m->addFunction(); extra->setReturnType(x.type(leaf(Op::OpTypeVoid))); extra->finalize(spv::FunctionControlMask::MaskNone, "extra"); at = &extra->addBasicBlock("at"); BasicBlock &t = extra->addBasicBlock("t"), &e = extra->addBasicBlock("e"); t.addInstruction()->opBranch(&e); e.addInstruction()->opReturn(); at->addInstruction()->opSelectionMerge(&e, spv::SelectionControlMask::MaskNone); x.undefs["then"] = t.getLabel(); x.undefs["merge"] = e.getLabel(); }
		A a; for (unsigned i = 0; i < n; ++i) a.push_back(made(x, c.slots[i], i));
		A out; for (const Swap& s : swaps) out.push_back(bad(x, typeOf(c.slots[s.k]), c.slots[s.k], s.b, nullptr)); I ins = nullptr;
		switch (c.where) { case Body: case Ret: case Branch: ins = at->addInstruction(); break; case Glsl: ins = (Instruction*)at->ext<GLSL450Intruction>(); break; case Name: ins = x.m->addNameInstr(); break; case Deco: ins = x.m->addDecorationInstr(); break; case Text: ins = x.m->addSourceStringInstr(); break; case Line: ins = x.m->addLineInstr(); break; case Mode: ins = x.m->addExtensionModeInstr(); break; case Undef: ins = x.m->addUndefInstr(); break; case Global: ins = x.m->addGlobalVariableInstr(); break; default: break; }
		for (size_t i = 0; i < swaps.size(); ++i) if (swaps[i].b != Good) a[swaps[i].k] = swaps[i].b == Self ? ins : out[i];
		MC_CHECK(x.log.errors == 0, "preparation", "preparing the call reports %s", x.log.last.c_str()); const I r = c.run(ins, a, x); mc::checked(); const bool refused = r == nullptr || r->isErrorInstr(), said = x.log.errors > 0;
		const std::string key = std::string(c.name) + ": "; MC_CHECK(r != nullptr, keep(key + "null"), "%s returns no instruction", c.name); if (ok) { MC_CHECK(!refused && !said, keep(key + "complaint"), "%s(%s) with %s is complained about: %s", c.name, c.slots, what.c_str(), x.log.last.c_str()); MC_CHECK(r->getOperation() != Op::OpNop, keep(key + "nothing"), "%s emits nothing", c.name); }
		else if (empty && !refused && !said)
		{
			// an empty instruction may be filled later, it is noticed when it is not
			if (c.where == Ret || c.where == Branch) {} else x.add()->opReturn();
			Writer w; MC_CHECK(!x.m->finalizeAndWrite(w) && x.log.errors > 0, keep(key + "unnoticed " + what), "%s(%s) with %s is written", c.name, c.slots, what.c_str()); mc::outcome("noticed when written"); return;
		}
		else MC_CHECK(refused || said, keep(key + "unnoticed " + what), "%s(%s) with %s goes unnoticed", c.name, c.slots, what.c_str());
		mc::outcome(ok ? "accepted" : refused ? "refused" : "reported");
		// without the instruction the module is as good as before
		if (!ok || swaps[0].b == Good) { if (r != ins && !r->isErrorInstr()) at->remove(r); if (ins->getBasicBlock()) at->remove(ins); else x.m->remove(ins); if (c.where == Ret || c.where == Branch) { if (c.where == Branch) at->remove(&at->back()); at->addInstruction()->opUnreachable(); } x.add()->opReturn(); const Words w = x.write(); const std::string e = validate(w); MC_CHECK(e.empty(), keep(key + sig(e)), "after %s(%s) with %s: %s%s", c.name, c.slots, what.c_str(), e.c_str(), ir::trace(w).c_str()); }
	}
}
MC_SCENARIO(operands, 3)
{
	const unsigned ci = mc::choose(calls().size(), "call"); const Call& c = calls()[ci]; const unsigned k = mc::choose(strlen(c.slots), "operand"), b = mc::choose(Bads, "stand-in"); mc::state(mc::mix(mc::mix(ci, k), b));
	if (b == Good && k) return;
	replace(c, { { k, Bad(b) } });
}
// two operands at once: neither hides the other
MC_SCENARIO(pairs, 5)
{
	const unsigned ci = mc::choose(calls().size(), "call"); const Call& c = calls()[ci]; const unsigned n = strlen(c.slots), k = mc::choose(n, "operand"), l = mc::choose(n, "other operand"); if (k >= l) return;
	const unsigned b = 1 + mc::choose(Bads - 1, "stand-in"), d = 1 + mc::choose(Bads - 1, "other stand-in"); mc::state(mc::mix(mc::mix(mc::mix(ci, k), b), mc::mix(l, d)));
	replace(c, { { k, Bad(b) }, { l, Bad(d) } });
}
// the size of a copy: unsigned or not negative, not zero
MC_SCENARIO(sizes, 3)
{
	static const long long values[] = { 0, 1, 4, 0x7f, 0x7fff, 0x7fffffff, 0x80000000ll, 0xffffffffll, 0x100000000ll, -1, -4, -0x80, -0x8000, (-0x7fffffffll - 1), (long long)(1ull << 63) };
	const unsigned w = mc::choose(3, "width"), sign = mc::flip("signed"), v = mc::choose(std::size(values), "value"); mc::state(mc::mix(w * 2 + sign, v));
	Mod x; I p = x.var(SC::Private, F32, 0), q = x.var(SC::Private, F32, 1), size = nullptr; const long long n = values[v]; bool ok = false;
	auto take = [&](auto val) { if ((long long)val != n) return false; size = x.m->constant(val); ok = val > 0; return true; };
	if (!(w == 0 ? (sign ? take((short)n) : take((unsigned short)n)) : w == 1 ? (sign ? take((int)n) : take((unsigned)n)) : sign ? take(n) : take((unsigned long long)n))) return;
	mc::op("copy of %lld bytes, %u bit %ssigned", n, 16u << w, sign ? "" : "un"); I ins = x.add(); ins->opCopyMemorySized(p, q, size); mc::checked(); const bool made = ins->getOperation() == Op::OpCopyMemorySized;
	MC_CHECK(made == ok && (x.log.errors == 0) == ok, ok ? "size rejected" : "size accepted", "opCopyMemorySized of %lld bytes (%u bit %ssigned constant) is %s: %s", n, 16u << w, sign ? "" : "un", made ? "accepted" : "rejected", x.log.last.c_str());
	if (!made) x.bb->remove(ins); x.add()->opReturn(); const Words out = x.write(); const std::string e = validate(out); MC_CHECK(e.empty(), "invalid size", "%s%s", e.c_str(), ir::trace(out).c_str()); mc::outcome(ok ? "copied" : "refused");
}
// execution modes with operands of the wrong kind or number are reported
MC_SCENARIO(modes, 2)
{
	const unsigned how = mc::choose(6, "operands"), id = mc::flip("mode with ids"); mc::state(how * 2 + id); static const char* names[] = { "no operands", "literals", "instructions", "a literal and instructions", "the error instruction", "instructions without a result" };
	HeapAllocator al; Log log; Module m(&al, &log); m.addCapability(spv::Capability::Shader); m.setMemoryModel(spv::AddressingModel::Logical, spv::MemoryModel::GLSL450); m.setSpvVersion(1, 3);
	EntryPoint& e = m.addEntryPoint(spv::ExecutionModel::GLCompute, "main"); (*e).returnValue(); if (id) { e.addExecutionMode(spv::ExecutionMode::LocalSize, 1u, 1u, 1u); m.addCapability(spv::Capability::SubgroupDispatch); m.setSpvVersion(1, 2); } Instruction *k = m.constant(2u), *n = m.addUndefInstr(); n->opNop(); mc::op("%s with %s", id ? "LocalSizeId" : "LocalSize", names[how]);
	const auto mode = id ? spv::ExecutionMode::LocalSizeId : spv::ExecutionMode::LocalSize; MC_CHECK(log.errors == 0, "preparation", "%s", log.last.c_str()); if (how == 0) return; Instruction* err = m.getErrorInstr();
	switch (how) { case 1: e.addExecutionMode(mode, 1u, 2u, 3u); break; case 2: e.addExecutionMode(mode, k, k, k); break; case 3: e.addExecutionMode(mode, 1u, k, k); break; case 4: e.addExecutionMode(mode, err, k, k); break; case 5: e.addExecutionMode(mode, k, k, n); break; default: break; }
	const bool good = (id && how == 2) || (!id && how == 1); mc::checked(); if (good) MC_CHECK(log.errors == 0, "mode complaint", "%s is complained about: %s", names[how], log.last.c_str());
	else if (log.errors == 0) { Writer w; MC_CHECK(!m.finalizeAndWrite(w) && log.errors > 0, keep(std::string("mode unnoticed: ") + names[how]), "%s with %s is accepted", id ? "LocalSizeId" : "LocalSize", names[how]); }
	mc::outcome(good ? "accepted" : "reported");
}
