// Shared pieces of the harnesses that drive the SPIR-V IR: sinks, sources, loggers and an independent
// view of the written binary (SPIRV-Tools parser and validator).
#pragma once
#include "mc.h"
#include "track.h"
#include "spvgentwo/SpvGenTwo.h"
#include "spvgentwo/Grammar.h"
#include "common/HeapAllocator.h"
#include "spirv-tools/libspirv.h"
#include <vector>
#include <string>
#include <map>
#include <set>
#include <algorithm>
#include <cstdarg>
#include <cstring>

namespace ir
{
	using namespace spvgentwo;
	using Words = std::vector<uint32_t>;

	struct Log : ILogger
	{
		unsigned errors = 0, warnings = 0, total = 0; std::string last;
		Log() : ILogger(&Log::cb) {}
		static void cb(ILogger* self, LogLevel level, const char* fmt, ...)
		{
			Log& l = *static_cast<Log*>(self); ++l.total; if (unsigned(level) & (unsigned(LogLevel::Error) | unsigned(LogLevel::Fatal))) ++l.errors; else if (level == LogLevel::Warning) ++l.warnings;
			char buf[1024]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); l.last = buf; if (mc::tracing()) mc::note("log: %s", buf);
		}
	};
	struct Writer : IWriter
	{
		Words words; size_t failAt = ~size_t(0); size_t calls = 0; bool failOnce = false;
		bool put(unsigned int w) override { const size_t n = calls++; if (failOnce ? n == failAt : n >= failAt) return false; words.push_back(w); return true; }
		virtual ~Writer() = default;
	};
	struct Reader : IReader
	{
		const Words& w; size_t pos = 0; explicit Reader(const Words& x) : w(x) {}
		bool get(unsigned int& o) override { if (pos >= w.size()) return false; o = w[pos++]; return true; }
	};
	inline const Grammar& grammar() { static Grammar g(HeapAllocator::instance()); return g; }
	inline const ITypeInferenceAndVailation& infer() { static ITypeInferenceAndVailation i; return i; }

	struct Opnd { unsigned off, n; spv_operand_type_t type; };
	struct Ins { uint16_t op; Words w; uint32_t type, id; std::vector<Opnd> ops; uint16_t extSet = 0; };
	struct Bin { bool ok = false; std::string error; uint32_t version = 0, generator = 0, bound = 0, schema = 0; std::vector<Ins> ins; };

	inline bool isIdT(spv_operand_type_t t) { return t == SPV_OPERAND_TYPE_ID || t == SPV_OPERAND_TYPE_TYPE_ID || t == SPV_OPERAND_TYPE_RESULT_ID || t == SPV_OPERAND_TYPE_MEMORY_SEMANTICS_ID || t == SPV_OPERAND_TYPE_SCOPE_ID; }
	inline spv_target_env envFor(uint32_t version)
	{
		switch ((version >> 8) & 0xff) { case 0: return SPV_ENV_UNIVERSAL_1_0; case 1: return SPV_ENV_UNIVERSAL_1_1; case 2: return SPV_ENV_UNIVERSAL_1_2; case 3: return SPV_ENV_UNIVERSAL_1_3; case 4: return SPV_ENV_UNIVERSAL_1_4; case 5: return SPV_ENV_UNIVERSAL_1_5; default: return SPV_ENV_UNIVERSAL_1_6; }
	}
	inline spv_context context(spv_target_env e) { static std::map<int, spv_context> m; auto& c = m[int(e)]; if (!c) c = spvContextCreate(e); return c; }
	inline std::string diagStr(spv_diagnostic d) { std::string s = d ? d->error : "no diagnostic"; if (d) spvDiagnosticDestroy(d); return s; }

	// raw split by word count only: no knowledge of operands needed
	inline bool split(const Words& w, std::vector<Words>& out)
	{
		size_t i = 5; while (i < w.size()) { const unsigned n = w[i] >> 16; if (n == 0 || i + n > w.size()) return false; out.emplace_back(w.begin() + i, w.begin() + i + n); i += n; } return true;
	}
	inline Bin parse(const Words& w)
	{
		Bin b; spv_diagnostic d = nullptr;
		if (w.size() < 5 || w[0] != 0x07230203) { b.error = "bad header"; return b; }
		b.version = w[1]; b.generator = w[2]; b.bound = w[3]; b.schema = w[4];
		const spv_result_t r = spvBinaryParse(context(envFor(b.version)), &b, w.data(), w.size(), nullptr,
			[](void* u, const spv_parsed_instruction_t* p) -> spv_result_t
			{
				Ins i; i.op = p->opcode; i.w.assign(p->words, p->words + p->num_words); i.type = p->type_id; i.id = p->result_id; i.extSet = uint16_t(p->ext_inst_type);
				for (unsigned k = 0; k < p->num_operands; ++k) i.ops.push_back({ p->operands[k].offset, p->operands[k].num_words, p->operands[k].type });
				static_cast<Bin*>(u)->ins.push_back(std::move(i)); return SPV_SUCCESS;
			}, &d);
		b.ok = r == SPV_SUCCESS; if (!b.ok) b.error = diagStr(d); else if (d) spvDiagnosticDestroy(d);
		return b;
	}
	// empty when valid
	inline std::string validate(const Words& w, spv_target_env env, bool relaxLogical = false)
	{
		static spv_validator_options opt[2] = { nullptr, nullptr }; auto& o = opt[relaxLogical];
		if (!o) { o = spvValidatorOptionsCreate(); spvValidatorOptionsSetSkipBlockLayout(o, true); spvValidatorOptionsSetAllowLocalSizeId(o, true); if (relaxLogical) spvValidatorOptionsSetRelaxLogicalPointer(o, true); }
		spv_const_binary_t bin{ w.data(), w.size() }; spv_diagnostic d = nullptr;
		const spv_result_t r = spvValidateWithOptions(context(env), o, &bin, &d);
		if (r == SPV_SUCCESS) { if (d) spvDiagnosticDestroy(d); return {}; }
		std::string s = diagStr(d); return s.empty() ? "invalid" : s;
	}
	inline std::string validate(const Words& w, bool relaxLogical = false) { return w.size() < 5 ? "no header" : validate(w, envFor(w[1]), relaxLogical); }
	inline std::string disasm(const Words& w, uint32_t opts = SPV_BINARY_TO_TEXT_OPTION_NO_HEADER | SPV_BINARY_TO_TEXT_OPTION_INDENT)
	{
		spv_text t = nullptr; spv_diagnostic d = nullptr; std::string s;
		if (spvBinaryToText(context(SPV_ENV_UNIVERSAL_1_6), w.data(), w.size(), opts, &t, &d) == SPV_SUCCESS && t) s = t->str; else s = "<" + (d ? std::string(d->error) : "?") + ">";
		if (t) spvTextDestroy(t); if (d) spvDiagnosticDestroy(d); return s;
	}
	inline Words assemble(const std::string& text, spv_target_env env = SPV_ENV_UNIVERSAL_1_6, bool preserveIds = true)
	{
		spv_binary b = nullptr; spv_diagnostic d = nullptr; Words w;
		const spv_result_t r = spvTextToBinaryWithOptions(context(env), text.data(), text.size(), preserveIds ? SPV_TEXT_TO_BINARY_OPTION_PRESERVE_NUMERIC_IDS : 0, &b, &d);
		if (r == SPV_SUCCESS && b) w.assign(b->code, b->code + b->wordCount);
		else mc::broken("assemble: %s in\n%s", d ? d->error : "?", text.c_str());
		if (b) spvBinaryDestroy(b); if (d) spvDiagnosticDestroy(d); return w;
	}
	inline std::string words(const Words& w) { std::string s; char b[16]; for (size_t i = 0; i < w.size() && i < 400; ++i) { snprintf(b, sizeof b, "%x ", w[i]); s += b; } return s; }
	inline std::string trace(const Words& w) { return mc::tracing() ? "\n" + disasm(w) : std::string(); }
	inline std::string firstLine(const std::string& s) { return s.substr(0, s.find('\n')); }
	// validator message without the ids and quoted names, usable as a signature
	inline std::string sig(const std::string& s)
	{
		std::string o; bool q = false; for (char c : s) { if (c == '\'') { q = !q; if (q) o += "'N'"; continue; } if (q) continue; if (c == '\n' || o.size() > 90) break; if (isdigit((unsigned char)c)) { if (o.empty() || o.back() != 'N') o += 'N'; continue; } o += c; } return o;
	}
	inline uint64_t hashWords(const Words& w) { return mc::hashBytes(w.data(), w.size() * 4); }
	inline std::string litString(const Ins& i, unsigned word) { std::string s; for (; word < i.w.size(); ++word) for (int b = 0; b < 4; ++b) { char c = char(i.w[word] >> (8 * b)); if (!c) return s; s += c; } return s; }
}
