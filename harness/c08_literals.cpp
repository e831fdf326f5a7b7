// C08: literal and string encoding against the SPIR-V rules, written words against word counts.
#include "ir.h"
#include <limits>
#include <cmath>
using namespace spvgentwo;
using namespace ir;

namespace
{
	Words refString(const std::string& s)
	{
		std::string p = s; p.push_back('\0'); while (p.size() % 4) p.push_back('\0'); Words w;
		for (size_t i = 0; i < p.size(); i += 4) w.push_back(uint32_t(uint8_t(p[i])) | uint32_t(uint8_t(p[i + 1])) << 8 | uint32_t(uint8_t(p[i + 2])) << 16 | uint32_t(uint8_t(p[i + 3])) << 24);
		return w;
	}
	template <class T> Words refLit(T v)
	{
		if constexpr (std::is_floating_point_v<T>) { if constexpr (sizeof(T) == 4) { uint32_t u; memcpy(&u, &v, 4); return { u }; } else { uint64_t u; memcpy(&u, &v, 8); return { uint32_t(u), uint32_t(u >> 32) }; } }
		else if constexpr (sizeof(T) == 8) { const uint64_t u = uint64_t(v); return { uint32_t(u), uint32_t(u >> 32) }; }
		else if constexpr (std::is_signed_v<T>) return { uint32_t(int32_t(v)) };
		else return { uint32_t(v) };
	}
	template <class T> std::vector<T> values()
	{
		std::vector<T> r;
		if constexpr (std::is_same_v<T, bool>) return { false, true };
		else if constexpr (std::is_floating_point_v<T>)
		{
			using L = std::numeric_limits<T>; r = { T(0), -T(0), T(1), T(-1), T(0.5), T(3.14159265358979), T(-123456.789), L::min(), -L::min(), L::max(), L::lowest(), L::denorm_min(), L::epsilon(), L::infinity(), -L::infinity(), L::quiet_NaN() };
			for (int e = -30; e < 30; ++e) r.push_back(std::ldexp(T(1), e) + T(1));
		}
		else if constexpr (sizeof(T) <= 2) { for (long v = std::numeric_limits<T>::min(); v <= long(std::numeric_limits<T>::max()); ++v) r.push_back(T(v)); }
		else
		{
			std::set<T> s; const unsigned bits = sizeof(T) * 8; using U = std::make_unsigned_t<T>;
			for (unsigned b = 0; b < bits; ++b) for (int d = -1; d <= 1; ++d) { s.insert(T((U(1) << b) + U(d))); s.insert(T(~((U(1) << b) + U(d)))); }
			for (unsigned i = 0; i < bits / 8; ++i) s.insert(T(U(0xA5) << (8 * i)));
			s.insert(T(0x0123456789ABCDEFull)); s.insert(T(0xFEDCBA9876543210ull));
			r.assign(s.begin(), s.end());
		}
		return r;
	}
	template <class T> void scalar(const char* name)
	{
		const std::vector<T> vals = values<T>(); const unsigned block = 256;
		const unsigned b = mc::choose((vals.size() + block - 1) / block, name);
		track::Allocator al; Log log;
		{
			Module m(&al, &log);
			for (size_t i = b * block; i < vals.size() && i < (b + 1) * block; ++i)
			{
				const T v = vals[i]; const Words ref = refLit(v); mc::op("literal_%s", name); mc::state(mc::mix(hashWords(ref), sizeof(T) * 8 + std::is_signed_v<T> * 4 + std::is_floating_point_v<T>));
				{ Vector<unsigned int> vec(&al); appendLiteralsToContainer(vec, v); MC_CHECK(Words(vec.begin(), vec.end()) == ref, "literal-words", "%s value %zu: encoded as %s, expected %s", name, i, words(Words(vec.begin(), vec.end())).c_str(), words(ref).c_str()); }
				{
					// between other operands, so that a wrong count would move the neighbours
					Instruction ins(&m, spv::Op::OpNop, 0x1111u, v, 0x2222u); Words want = { 0 }; want.push_back(0x1111); want.insert(want.end(), ref.begin(), ref.end()); want.push_back(0x2222); want[0] = uint32_t(want.size()) << 16;
					Writer w; const bool ok = ins.write(w);
					MC_CHECK(ok && w.words == want, "instruction-words", "%s value %zu: instruction %s, expected %s", name, i, words(w.words).c_str(), words(want).c_str());
					MC_CHECK(ins.getWordCount() == want.size() && ins.getOpCode() == want[0], "word-count", "%s: reported word count %u, wrote %zu", name, ins.getWordCount(), want.size());
				}
				if constexpr (!std::is_same_v<T, bool> && traits::is_primitive_type_v<T>)
				{
					Constant c(&al); c.make(v); const T* back = c.getDataAs<T>();
					MC_CHECK(Words(c.getData().begin(), c.getData().end()) == ref, "constant-words", "%s value %zu: constant data %s, expected %s", name, i, words(Words(c.getData().begin(), c.getData().end())).c_str(), words(ref).c_str());
					MC_CHECK(back && memcmp(back, &v, sizeof v) == 0, "constant-value", "%s value %zu: the constant does not read back", name, i);
				}
			}
		}
		al.expectEmpty("after destruction"); mc::outcome(name);
	}
	const char alphabet[] = { 'a', '\x80', '\xff', '\x01', 'Z' };

	void checkString(Module& m, IAllocator* al, const std::string& s)
	{
		const Words ref = refString(s); mc::op("string(%zu bytes)", s.size()); mc::state(mc::mix(mc::hashStr(s), 77));
		{ Vector<unsigned int> vec(al); appendLiteralsToContainer(vec, s.c_str()); MC_CHECK(Words(vec.begin(), vec.end()) == ref, "string-words", "string of %zu bytes: encoded as %s, expected %s", s.size(), words(Words(vec.begin(), vec.end())).c_str(), words(ref).c_str()); }
		for (unsigned pre = 0; pre < 2; ++pre)
		{
			Instruction ins(&m, spv::Op::OpNop); if (pre) ins.addOperand(literal_t{ 0x61626364u }); ins.appendLiterals(s.c_str()); ins.addOperand(literal_t{ 0x7u }); ins.addOperand(spv::Id(9));
			Words want = { 0 }; if (pre) want.push_back(0x61626364u); want.insert(want.end(), ref.begin(), ref.end()); want.push_back(7); want.push_back(9); want[0] = uint32_t(want.size()) << 16;
			Writer w; MC_CHECK(ins.write(w) && w.words == want, "string-instruction", "string of %zu bytes: instruction %s, expected %s", s.size(), words(w.words).c_str(), words(want).c_str());
			MC_CHECK(ins.getWordCount() == want.size(), "word-count", "string of %zu bytes: word count %u, wrote %zu", s.size(), ins.getWordCount(), want.size());
			auto first = ins.begin(); if (pre) ++first;
			String out(al); auto next = getLiteralString(out, first, ins.end());
			MC_CHECK(out.size() == s.size() && (s.empty() || memcmp(out.c_str(), s.data(), s.size()) == 0), "string-decode", "string of %zu bytes reads back as %zu bytes", s.size(), size_t(out.size()));
			MC_CHECK(next != nullptr && next != ins.end() && next->isLiteral() && next->getLiteral().value == 7u && next.next()->isId(), "string-next", "getLiteralString of %zu bytes does not stop behind the string", s.size());
			MC_CHECK(skipLiteralString(first) == next, "string-skip", "skipLiteralString of %zu bytes does not stop behind the string", s.size());
			MC_CHECK(compareLiteralString(s.c_str(), first, ins.end()), "string-compare", "compareLiteralString: a string of %zu bytes does not equal itself", s.size());
			std::vector<std::string> others = { s + "a", s + "\xff", "a" + s, s + "abcd" }; if (!s.empty()) { others.push_back(s.substr(0, s.size() - 1)); others.push_back(s.substr(1)); for (size_t i = 0; i < s.size(); ++i) { auto t = s; t[i] = t[i] == 'q' ? 'r' : 'q'; others.push_back(t); } }
			for (auto& o : others) if (o != s) MC_CHECK(!compareLiteralString(o.c_str(), first, ins.end()), "string-compare", "compareLiteralString: \"%s\" equals \"%s\"", o.c_str(), s.c_str());
			// explicit length: the text need not be terminated
			std::vector<char> raw(s.begin(), s.end()); if (raw.empty()) raw.push_back('x');
			MC_CHECK(compareLiteralString(raw.data(), first, ins.end(), s.size()), "string-compare-length", "compareLiteralString with length %zu: a string does not equal itself", s.size());
			if (!s.empty()) MC_CHECK(!compareLiteralString(raw.data(), first, ins.end(), s.size() - 1), "string-compare-length", "compareLiteralString with length %zu accepts a string of %zu bytes", s.size() - 1, s.size());
		}
	}
}

MC_SCENARIO(scalars, 2)
{
	switch (mc::choose(12, "type"))
	{
	case 0: scalar<bool>("bool"); break; case 1: scalar<char>("char"); break; case 2: scalar<signed char>("signed_char"); break; case 3: scalar<unsigned char>("unsigned_char"); break;
	case 4: scalar<short>("short"); break; case 5: scalar<unsigned short>("unsigned_short"); break; case 6: scalar<int>("int"); break; case 7: scalar<unsigned int>("unsigned_int"); break;
	case 8: scalar<long long>("int64"); break; case 9: scalar<unsigned long long>("uint64"); break; case 10: scalar<float>("float"); break; case 11: scalar<double>("double"); break;
	}
}
// every string of <=L bytes over the alphabet
MC_SCENARIO(strings, 3)
{
	const unsigned max = mc::bound(7, 9); std::string s; const unsigned n = mc::choose(max + 1, "length"), letters = n <= 4 ? 5 : n <= 7 ? 3 : 2;
	for (unsigned i = 0; i + 1 < n; ++i) s.push_back(alphabet[mc::choose(letters, "byte")]);
	track::Allocator al; Log log;
	{
		Module m(&al, &log);
		if (n == 0) checkString(m, &al, s);
		else for (unsigned k = 0; k < letters; ++k) checkString(m, &al, s + alphabet[k]);
	}
	al.expectEmpty("after destruction"); char o[24]; snprintf(o, sizeof o, "%u bytes", n); mc::outcome(o);
}
MC_SCENARIO(long_strings, 1)
{
	const unsigned n = 8 + mc::choose(mc::bound(260, 4200), "length"); track::Allocator al; Log log;
	{ Module m(&al, &log); std::string s; for (unsigned i = 0; i < n; ++i) s.push_back(char(1 + (i * 7) % 255)); checkString(m, &al, s); }
	al.expectEmpty("after destruction"); mc::outcome("long");
}
// every operand list of <=4 operands of every kind, for several opcodes; copies and moves of operands keep them
MC_SCENARIO(operand_lists, 2)
{
	track::Allocator al; Log log;
	{
		Module m(&al, &log); Function& f = m.addFunction<void>("f", spv::FunctionControlMask::MaskNone, false); BasicBlock& bb = f.addBasicBlock(); bb.returnValue();
		const spv::Op ops[] = { spv::Op::OpNop, spv::Op::OpDecorate, spv::Op::OpImageQueryLod, spv::Op(0xFFFE), spv::Op(4416) }; const spv::Op op = ops[mc::choose(5, "opcode")];
		Instruction* t = m.type<float>(); m.assignIDs(); Instruction ins(&m, spv::Op::OpNop); ins.setOperation(op); Words want = { 0 };
		const unsigned n = mc::choose(mc::bound(5, 6), "operands");
		for (unsigned i = 0; i < n; ++i) switch (mc::choose(9, "kind"))
		{
		case 0: ins.addOperand(literal_t{ 0xFFFFFFFFu }); want.push_back(~0u); break;
		case 1: ins.addOperand(spv::Id(0x12345u)); want.push_back(0x12345u); break;
		case 2: ins.addOperand(t); want.push_back(unsigned(t->getResultId())); break;
		case 3: ins.addOperand(&bb); want.push_back(unsigned(bb.getLabel()->getResultId())); break;
		case 4: ins.appendLiterals(-2.5); { auto r = refLit(-2.5); want.insert(want.end(), r.begin(), r.end()); } break;
		case 5: ins.appendLiterals("abcd"); { auto r = refString("abcd"); want.insert(want.end(), r.begin(), r.end()); } break;
		case 6: ins.appendLiterals(short(-3), 7u, 1.5f); { want.push_back(uint32_t(-3)); want.push_back(7); auto r = refLit(1.5f); want.insert(want.end(), r.begin(), r.end()); } break;
		case 7: { Operand o(literal_t{ 5u }), p(spv::Id(6)); o = p; Operand q(o); Operand r(std::move(q)); p = Operand(t); MC_CHECK(p.isInstruction() && p.getInstruction() == t && p == t && p != spv::Id(6), "operand-copy", "assigned operand changed"); ins.addOperand(std::move(r)); want.push_back(6); break; }
		case 8: { Operand o(&bb); Operand q(o); o = Operand(literal_t{ 3u }); MC_CHECK(o.isLiteral() && o.getLiteral().value == 3u && o == literal_t{ 3u }, "operand-copy", "assigned operand changed"); MC_CHECK(q == &bb && q.getBranchTarget() == &bb, "operand-copy", "copied operand changed"); ins.addOperand(q); want.push_back(unsigned(bb.getLabel()->getResultId())); break; }
		}
		want[0] = uint32_t(want.size()) << 16 | uint32_t(op); mc::op("write(%zu words)", want.size()); mc::state(hashWords(want));
		Writer w; MC_CHECK(ins.write(w) && w.words == want, "operand-words", "wrote %s, expected %s", words(w.words).c_str(), words(want).c_str());
		MC_CHECK(ins.getWordCount() == want.size() && ins.getOpCode() == want[0], "word-count", "word count %u opcode word %x, expected %zu %x", ins.getWordCount(), ins.getOpCode(), want.size(), want[0]);
		char o[24]; snprintf(o, sizeof o, "%zu words", want.size()); mc::outcome(o);
	}
	al.expectEmpty("after destruction");
}
