// C29: binary files are written and read back word for word.
#include "mc.h"
#include "track.h"
#include "common/BinaryFileReader.h"
#include "common/BinaryFileWriter.h"
#include "common/BinaryVectorWriter.h"
#include <vector>
#include <string>
#include <memory>
#include <cstring>
#include <cstdio>
#include <sys/stat.h>
#include <unistd.h>
using namespace spvgentwo;

static int g_short = -1; // the next fread delivers at most this many items
extern "C" size_t __real_fread(void* p, size_t s, size_t n, FILE* f);
extern "C" size_t __wrap_fread(void* p, size_t s, size_t n, FILE* f) { if (g_short >= 0 && n > size_t(g_short)) n = size_t(g_short); return __real_fread(p, s, n, f); }

namespace
{
	using Words = std::vector<unsigned>;
	std::string dir() { return mc::scratch(); }
	std::string path(const char* n) { return dir() + "/" + n; }
	void store(const std::string& p, const std::string& bytes) { FILE* f = fopen(p.c_str(), "wb"); if (!f || fwrite(bytes.data(), 1, bytes.size(), f) != bytes.size() || fclose(f)) mc::broken("cannot write %s", p.c_str()); }
	bool slurp(const std::string& p, std::string& out) { out.clear(); FILE* f = fopen(p.c_str(), "rb"); if (!f) return false; char b[4096]; size_t n; while ((n = __real_fread(b, 1, sizeof b, f)) > 0) out.append(b, n); fclose(f); return true; }
	std::string bytesOf(unsigned n, unsigned seed = 1) { std::string s; for (unsigned i = 0; i < n; ++i) s += char(i * 37 + seed * 11 + (i % 5 == 0 ? 0 : 128)); return s; }
	Words wordsOf(const std::string& b) { Words w(b.size() / 4); if (!w.empty()) memcpy(w.data(), b.data(), w.size() * 4); return w; }
	std::string raw(const Words& w) { return std::string(reinterpret_cast<const char*>(w.data()), w.size() * 4); }
	// what a request delivers; ok = false when it has to be refused
	bool expected(const std::string& file, sgt_size_t off, sgt_size_t len, Words& out)
	{
		out.clear(); if (off > file.size()) return false; const sgt_size_t rest = file.size() - off; if (len > rest) return false; if (len == 0) len = rest; if (len % 4) return false; out = wordsOf(file.substr(off, len)); return true;
	}
	Words drain(BinaryFileReader& r, unsigned limit = 1u << 20) { Words w; unsigned x = 0; while (w.size() < limit && r.get(x)) w.push_back(x); return w; }
	void same(const Words& got, const Words& want, const char* sig, const std::string& what)
	{
		MC_CHECK(got.size() == want.size(), sig, "%zu words instead of %zu: %s", got.size(), want.size(), what.c_str()); for (size_t i = 0; i < got.size(); ++i) MC_CHECK(got[i] == want[i], sig, "word %zu is %x instead of %x: %s", i, got[i], want[i], what.c_str());
	}
	const sgt_size_t HUGE_[] = { sgt_size_t(1) << 31, (sgt_size_t(1) << 32), (sgt_size_t(1) << 32) + 4, (sgt_size_t(1) << 63) - 1, sgt_size_t(1) << 63, ~sgt_size_t(0), ~sgt_size_t(0) - 3, ~sgt_size_t(0) - 7 };
	void ranges(unsigned maxSize)
	{
		const unsigned size = mc::choose(maxSize + 1, "size"); const unsigned n = size + 6, hn = sizeof HUGE_ / sizeof *HUGE_; unsigned oi = mc::choose(n + hn, "offset"); const sgt_size_t off = oi < n ? oi : HUGE_[oi - n]; const std::string f = bytesOf(size); const std::string p = path("ranges.bin"); store(p, f);
		for (unsigned li = 0; li < n + hn; ++li)
		{
			const sgt_size_t len = li < n ? li : HUGE_[li - n]; char what[128]; snprintf(what, sizeof what, "%u byte file, offset %zu, length %zu", size, size_t(off), size_t(len)); if (mc::tracing()) mc::op("%s", what); Words want; const bool ok = expected(f, off, len, want);
			for (bool ctor : { false, true })
			{
				track::Allocator al; { std::unique_ptr<BinaryFileReader> r; bool res = true; if (ctor) { r.reset(new BinaryFileReader(al, p.c_str(), off, len)); res = bool(*r) || (ok && want.empty()); } else { r.reset(new BinaryFileReader(al)); res = r->read(p.c_str(), off, len); }
					if (!ok) { MC_CHECK(!res, "accepted", "reading succeeds: %s", what); MC_CHECK(!bool(*r), "delivered", "the reader claims to have words: %s", what); same(drain(*r), {}, "delivered", what); }
					else { MC_CHECK(res || want.empty(), "refused", "reading fails: %s", what); if (!want.empty()) MC_CHECK(bool(*r), "refused", "the reader claims to be empty: %s", what); same(drain(*r), want, "words", what); unsigned x = 7; MC_CHECK(!r->get(x), "end", "the reader goes on after the end: %s", what); } }
				al.expectEmpty("reader");
			}
			mc::outcome(ok ? "read" : "refused");
		}
		mc::state(mc::mix(size, oi)); remove(p.c_str());
	}
	// requests to one reader, one after the other
	void readers(unsigned depth)
	{
		struct File { const char* name; std::string bytes; bool exists; }; static std::vector<File> files; static std::string here; if (here != dir()) { here = dir(); files = { { "a.bin", bytesOf(12, 3), true }, { "b.bin", bytesOf(32, 4), true }, { "odd.bin", bytesOf(10, 5), true }, { "empty.bin", "", true }, { "missing.bin", "", false }, { "no/such/dir.bin", "", false } }; for (auto& f : files) if (f.exists) store(path(f.name), f.bytes); files.push_back({ ".", "", false }); }
		track::Allocator al;
		{
			BinaryFileReader r(al); Words left; size_t pos = 0; uint64_t h = 1; bool fresh = true; mc::op("new reader");
			for (unsigned d = 0; d < depth; ++d)
			{
				unsigned k = mc::choose(1 + 2 + unsigned(files.size()) * 4 + 1 + 2, "op"); if (k-- == 0) break; h = mc::mix(h, k);
				if (k < 2) { mc::op(k ? "read to the end" : "get one word"); unsigned x = 0; do { const bool g = r.get(x); MC_CHECK(g == (pos < left.size()), "get", "get %s with %zu of %zu words delivered", g ? "succeeds" : "fails", pos, left.size()); if (!g) break; MC_CHECK(x == left[pos], "words", "word %zu is %x instead of %x", pos, x, left[pos]); ++pos; } while (k == 1); }
				else if ((k -= 2) < files.size() * 4)
				{
					const File& f = files[k / 4]; static const sgt_size_t off[] = { 0, 4, 0, 8 }, len[] = { 0, 0, 8, 100 }; mc::op("read %s from %zu, %zu bytes", f.name, size_t(off[k % 4]), size_t(len[k % 4])); Words w; const bool ok = f.exists && expected(f.bytes, off[k % 4], len[k % 4], w); const bool res = r.read(path(f.name).c_str(), off[k % 4], len[k % 4]);
					if (ok) { if (!w.empty()) MC_CHECK(res, "refused", "reading %s again fails", f.name); } else MC_CHECK(!res, "accepted", "reading %s succeeds", f.name); left = ok ? w : Words(); pos = 0; fresh = false;
				}
				else if ((k -= unsigned(files.size()) * 4) == 0) { mc::op("read without a path"); MC_CHECK(!r.read(nullptr), "accepted", "reading without a path succeeds"); left.clear(); pos = 0; }
				else { const unsigned cut = k - 1; mc::op("read b.bin, the file delivers %u words", cut); g_short = int(cut); const bool res = r.read(path("b.bin").c_str()); g_short = -1; MC_CHECK(!res, "accepted", "reading a file that delivers only %u of 8 words succeeds", cut); left.clear(); pos = 0; }
				MC_CHECK(bool(r) == !left.empty(), "delivered", "the reader claims %s words with %zu expected", bool(r) ? "to have" : "not to have", left.size());
			}
			(void)fresh; mc::state(h); const Words rest = drain(r); same(rest, Words(left.begin() + pos, left.end()), "words", "at the end"); mc::outcome("history");
		}
		al.expectEmpty("reader");
	}
	// a writer: words reach the file that was open when they were put
	void writers(unsigned depth)
	{
		static const char* names[] = { "w0.bin", "w1.bin" }; static const unsigned sizes[] = { 0, 1, 2, 2048 }; std::string want[2]; bool exists[2] = {}; for (auto n : names) remove(path(n).c_str()); const unsigned bi = mc::choose(4, "buffer"), first = mc::choose(4, "path"); const unsigned refuse = mc::choose(4, "refused request");
		track::Allocator al; if (refuse) al.failAt = refuse; static const char* fp[] = { "no path", "w0.bin", "a path that cannot be opened", "/dev/full" }; mc::op("new writer, buffer of %u words, %s, allocation %u is refused", sizes[bi], fp[first], refuse);
		{
			auto start = [&](unsigned which) { return which == 0 ? std::string() : which == 1 ? path(names[0]) : which == 2 ? path("no/such/dir.bin") : std::string("/dev/full"); };
			std::string p0 = start(first); std::unique_ptr<BinaryFileWriter> w(new BinaryFileWriter(al, first ? p0.c_str() : nullptr, sizes[bi])); int open = first == 1 ? 0 : first == 3 ? 2 : -1; if (open == 0) exists[0] = true, want[0].clear(); Words pend; unsigned next = 0x01020304; uint64_t h = mc::mix(bi, first); bool loose = false;
			auto opened = [&] { MC_CHECK(w->isOpen() == (open >= 0) && bool(*w) == (open >= 0), "is-open", "the writer reports to be %s", w->isOpen() ? "open" : "closed"); };
			auto settle = [&](bool res, bool known) { if (open == 2) { if (known && !pend.empty()) MC_CHECK(!res, "full", "closing a file on a full device reports success"); } else if (open >= 0) { if (known) MC_CHECK(res, "close", "closing fails"); want[open] = raw(pend); exists[open] = true; } pend.clear(); open = -1; loose = false; };
			auto verify = [&] { for (unsigned i = 0; i < 2; ++i) if (open != int(i)) { std::string got; const bool e = slurp(path(names[i]), got); MC_CHECK(e == exists[i], "file", "%s %s", names[i], e ? "exists" : "does not exist"); if (e) MC_CHECK(got == want[i], "contents", "%s has %zu bytes, expected %zu%s", names[i], got.size(), want[i].size(), got.size() == want[i].size() ? ", contents differ" : ""); } }; opened();
			for (unsigned d = 0; d < depth; ++d)
			{
				unsigned k = mc::choose(8, "op"); if (k-- == 0) break; h = mc::mix(h, k);
				if (k < 2) { const unsigned n = k ? 5 : 1; if (open < 0) return; mc::op("put %u words", n); for (unsigned i = 0; i < n; ++i) { const unsigned was = al.refused; const bool r = w->put(next); MC_CHECK(r == (al.refused == was), "put", "put %s although the allocation was %s", r ? "succeeds" : "fails", al.refused == was ? "granted" : "refused"); if (r) pend.push_back(next); next = next * 3 + 1; } }
				else if (k < 6) { const unsigned t = k - 2; mc::op("open %s", t < 2 ? names[t] : t == 2 ? "an impossible path" : "/dev/full"); const std::string p = t < 2 ? path(names[t]) : start(t); const bool r = w->open(p.c_str()); MC_CHECK(r == (open < 0 && t != 2), "open", "opening %s", r ? "succeeds" : "fails"); if (open < 0 && t != 2) { open = t < 2 ? int(t) : 2; if (t < 2) exists[t] = true, want[t].clear(); pend.clear(); } opened(); }
				else { mc::op("close"); const bool was = open >= 0; const bool r = w->close(); settle(r, was); opened(); verify(); }
			}
			mc::state(h); mc::op("destroyed"); w.reset(); settle(false, false); verify(); mc::outcome("history"); (void)loose;
		}
		al.expectEmpty("writer");
	}
	// a writer and a reader, all lengths around the buffer sizes
	void lengths(unsigned most)
	{
		const unsigned n = mc::choose(most + 1, "words"); static const unsigned sizes[] = { 0, 1, 7, 64, 2048 }; const unsigned b = sizes[mc::choose(5, "buffer")]; const bool destroy = mc::flip("destroy"); mc::op("%u words, buffer %u, %s", n, b, destroy ? "destroyed" : "closed"); const std::string p = path("len.bin"); track::Allocator al; Words want;
		{
			BinaryFileWriter* w = new BinaryFileWriter(al, p.c_str(), b); for (unsigned i = 0; i < n; ++i) { const unsigned v = i * 2654435761u; want.push_back(v); MC_CHECK(w->put(v), "put", "put fails"); } if (!destroy) { MC_CHECK(w->close(), "close", "closing fails"); MC_CHECK(w->close() || true, "close", ""); } delete w;
			std::string got; MC_CHECK(slurp(p, got), "file", "there is no file"); MC_CHECK(got == raw(want), "contents", "%zu bytes for %u words", got.size(), n); BinaryFileReader r(al, p.c_str()); same(drain(r), want, "words", "read back"); mc::state(mc::mix(n, b * 2 + destroy));
		}
		al.expectEmpty("lengths"); mc::outcome("length");
	}
	void vectors()
	{
		const unsigned n = mc::choose(9, "words"), refuse = mc::choose(6, "refused"); mc::op("%u words into a vector, allocation %u refused", n, refuse); track::Allocator al; if (refuse) al.failAt = refuse; { Vector<unsigned> v(&al); BinaryVectorWriter<Vector<unsigned>> w(v); std::vector<unsigned> sv; BinaryVectorWriter<std::vector<unsigned>> ws(sv); Words want, all; for (unsigned i = 0; i < n; ++i) { const unsigned was = al.refused; const bool r = w.put(i * 77 + 5); MC_CHECK(r == (al.refused == was), "put", "put %s although the allocation was %s", r ? "succeeds" : "fails", al.refused == was ? "granted" : "refused"); if (r) want.push_back(i * 77 + 5); MC_CHECK(ws.put(i), "put", "put fails"); all.push_back(i); } MC_CHECK(v.size() == want.size(), "words", "%zu words", size_t(v.size())); for (unsigned i = 0; i < want.size(); ++i) MC_CHECK(v[i] == want[i], "words", "word %u differs", i); MC_CHECK(sv == all, "words", "the standard vector differs"); mc::state(mc::mix(n, refuse)); } al.expectEmpty("vectors"); mc::outcome("vector");
	}
}
MC_SCENARIO(requests, 1) { ranges(mc::bound(24, 48)); }
MC_SCENARIO(reader_histories, 2) { readers(mc::bound(4, 5)); }
MC_SCENARIO(writer_histories, 3) { writers(mc::bound(5, 7)); }
MC_SCENARIO(lengths_written, 1) { lengths(mc::bound(2200, 4200)); }
MC_SCENARIO(vector_writers, 1) { vectors(); }
