// C09: every module built through the API is written as a valid SPIR-V binary.
#include "scale.h"
using namespace spvgentwo;
using namespace ir;

namespace
{
	void check(const Words& w, const Module& m, const char* what)
	{
		MC_CHECK(w.size() > 5 && w[0] == 0x07230203, "header", "the binary does not start with the magic number (%s)", what);
		MC_CHECK(w[1] == m.getSpvVersion() && (w[1] >> 16) == 1, "version", "the header has version %x, the module %x (%s)", w[1], m.getSpvVersion(), what);
		MC_CHECK(w[4] == 0, "schema", "the header has schema %u (%s)", w[4], what);
		std::vector<Words> raw; MC_CHECK(split(w, raw), "word-count", "the word counts do not add up (%s)", what);
		const Bin b = parse(w); MC_CHECK(b.ok, ("malformed:" + sig(b.error)).c_str(), "the binary is malformed: %s (%s)%s", b.error.c_str(), what, trace(w).c_str());
		std::set<uint32_t> ids; for (auto& i : b.ins) if (i.id) { MC_CHECK(i.id < b.bound, "bound", "id %u is not below the bound %u (%s)", i.id, b.bound, what); MC_CHECK(ids.insert(i.id).second, "duplicate-id", "id %u is defined twice (%s)", i.id, what); }
		for (auto& i : b.ins) for (auto& o : i.ops) if (isIdT(o.type)) MC_CHECK(ids.count(i.w[o.off]), "undefined-id", "%s refers to id %u, which nothing defines (%s)", words(i.w).c_str(), i.w[o.off], what);
		const std::string v = validate(w); MC_CHECK(v.empty(), ("invalid:" + sig(v)).c_str(), "the validator rejects the binary: %s (%s)%s", v.c_str(), what, trace(w).c_str());
	}
	void run(const unsigned depth, bool typeInference)
	{
		track::Allocator al; Log log; auto& st = prog::steps(); const unsigned N = unsigned(st.size());
		{
			Module m(&al, &log, typeInference ? const_cast<ITypeInferenceAndVailation*>(&infer()) : nullptr); prog::Ctx c(m); prog::start(c); mc::op("module with a fragment entry point"); uint64_t key = 1;
			for (unsigned d = 0; d < depth; ++d)
			{
				// the last step of the longest programs is one that changes the structure
				const bool last = d + 1 == depth && depth > 2; unsigned k = mc::choose(last ? unsigned(prog::core().size()) + 3 : N + 3, "step"); if (k == 0) break;
				if (last) k = k <= prog::core().size() ? prog::core()[k - 1] + 1 : N + k - unsigned(prog::core().size());
				if (k <= N) { ++c.n; mc::op("%s", st[k - 1].name); st[k - 1].run(c); }
				else if (k == N + 1) { mc::op("finalize"); if (c.bb->getTerminator() == nullptr) { prog::finish(c); } m.finalize(&grammar()); Writer w; MC_CHECK(m.write(w), "write", "writing fails: %s", log.last.c_str()); check(w.words, m, "in between"); prog::newEntry(c, spv::ExecutionModel::GLCompute); }
				else { mc::op("finalize without grammar"); if (c.bb->getTerminator() == nullptr) prog::finish(c); m.finalize(); prog::newEntry(c, spv::ExecutionModel::Vertex); }
				MC_CHECK(log.errors == 0, ("rejected:" + sig(log.last)).c_str(), "the library rejects documented use: %s", log.last.c_str());
				key = mc::mix(key, k);
			}
			mc::state(key); prog::finish(c);
			Writer w; MC_CHECK(m.finalizeAndWrite(w, &grammar()), "write", "finalizing and writing fails: %s", log.last.c_str());
			MC_CHECK(log.errors == 0, ("rejected:" + sig(log.last)).c_str(), "the library reports an error: %s", log.last.c_str());
			check(w.words, m, "final");
			Writer again; MC_CHECK(m.finalizeAndWrite(again, &grammar()) && again.words == w.words, "again", "finalizing and writing again gives another binary\nfirst%s\nthen%s", trace(w.words).c_str(), trace(again.words).c_str());
			mc::outcome("valid module");
		}
		al.expectEmpty("after destruction");
	}
}
MC_SCENARIO(programs, 3) { run(mc::bound(3, 4), false); }
// many of one thing
MC_SCENARIO(large, 2)
{
	track::Allocator al; Log log;
	{
		Module m(&al, &log); prog::Ctx c(m); prog::start(c); ++c.n; const bool v14 = mc::flip("version 1.4"); if (v14) m.ensureSpvVersion(1, 4);
		const scale::Pick p = scale::choose(1, 200000); p.shape->run(c, p.n); MC_CHECK(log.errors == 0, ("rejected:" + sig(log.last)).c_str(), "the library rejects documented use: %s", log.last.c_str()); prog::finish(c); mc::state(mc::mix(p.index, p.n * 2 + v14));
		Writer w; MC_CHECK(m.finalizeAndWrite(w, &grammar()), "write", "finalizing and writing fails: %s", log.last.c_str()); MC_CHECK(log.errors == 0, ("rejected:" + sig(log.last)).c_str(), "the library reports an error: %s", log.last.c_str());
		check(w.words, m, "large"); Writer again; MC_CHECK(m.finalizeAndWrite(again, &grammar()) && again.words == w.words, "again", "finalizing and writing again gives another binary"); mc::outcome("valid module");
	}
	al.expectEmpty("after destruction");
}
