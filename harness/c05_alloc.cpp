// C05: allocators against a bump/interval reference model.
#include "mc.h"
#include "track.h"
#include "common/ExternalMemoryAllocator.h"
#include "common/HeapAllocator.h"
#include "spvgentwo/Vector.h"
#include "spvgentwo/List.h"
#include "spvgentwo/HashMap.h"
#include <vector>
#include <memory>
#include <optional>
using namespace spvgentwo;
using track::El;

namespace
{
	struct Block { char* p; size_t n; bool live; unsigned char pat; };
	const size_t HUGE1 = ~size_t(0), HUGE2 = ~size_t(0) - 7;

	struct World
	{
		char* raw; char* begin; size_t cap; IAllocator* al; char* cur; std::vector<Block> blocks; unsigned char pat = 1;

		void checkBlocks(const char* when)
		{
			for (auto& b : blocks) if (b.live) for (size_t i = 0; i < b.n; ++i) MC_CHECK((unsigned char)b.p[i] == b.pat, "overlap", "after %s: a live block of %zu bytes was overwritten by another block", when, b.n);
		}
		void allocate(size_t n, unsigned align)
		{
			char what[64]; snprintf(what, sizeof what, "allocate(%zu, align %u)", n, align);
			mc::op("allocate(%zu, %u)", n, align);
			char* p = static_cast<char*>(al->allocate(n, align));
			const uintptr_t c = reinterpret_cast<uintptr_t>(cur); const size_t pad = (align - c % align) % align; const size_t space = size_t(begin + cap - cur);
			const bool fits = pad <= space && n <= space - pad;
			if (!fits) { MC_CHECK(p == nullptr, "no-null", "%s returned a block although only %zu bytes are left (padding %zu)", what, space, pad); mc::outcome("refused"); }
			else
			{
				MC_CHECK(p != nullptr, "null", "%s was refused although %zu bytes are free (padding %zu)", what, space, pad);
				MC_CHECK(reinterpret_cast<uintptr_t>(p) % align == 0, "misaligned", "%s returned a misaligned block", what);
				MC_CHECK(p >= begin && n <= size_t(begin + cap - p) && p <= begin + cap, "out-of-bounds", "%s returned [%td,%td) of a %zu byte buffer", what, p - begin, p - begin + ptrdiff_t(n), cap);
				for (auto& b : blocks) if (b.live && b.n && n) MC_CHECK(p + n <= b.p || b.p + b.n <= p, "overlap", "%s overlaps a live block", what);
				memset(p, pat, n); blocks.push_back({ p, n, true, pat++ });
				cur = p + n; mc::outcome("granted");
			}
			checkBlocks(what);
		}
		void deallocate(unsigned i, bool exact)
		{
			Block& b = blocks[i]; mc::op("deallocate(block %u of %zu bytes, exact %d)", i, b.n, int(exact));
			al->deallocate(b.p, exact ? b.n : 0u); b.live = false;
			if (b.p + (exact ? b.n : 0) == cur) cur = b.p;
			checkBlocks("deallocate");
		}
		uint64_t key() const
		{
			uint64_t h = mc::mix(cap, cur - begin); h = mc::mix(h, reinterpret_cast<uintptr_t>(begin) & 63);
			for (auto& b : blocks) if (b.live) h = mc::mix(h, mc::mix(b.p - begin, b.n));
			return h;
		}
		void run(unsigned depth)
		{
			for (unsigned d = 0; d < depth && !mc::aborting(); ++d)
			{
				const size_t sizes[] = { 1, 3, 8, 16, 0, 20, HUGE1, HUGE2 };
				std::vector<unsigned> live; for (unsigned i = 0; i < blocks.size(); ++i) if (blocks[i].live) live.push_back(i);
				if (live.size() > 3) live.erase(live.begin(), live.end() - 3);
				const unsigned na = 8 * 4;
				const unsigned c = mc::choose(na + 2 * live.size(), "operation");
				if (c < na) allocate(sizes[c / 4], 1u << (c % 4 == 3 ? 4 : c % 4 == 2 ? 3 : c % 4 == 1 ? 1 : 0));
				else deallocate(live[(c - na) / 2], (c - na) % 2 == 0);
				mc::state(key());
				if (!mc::fresh(key(), depth - d - 1)) break;
			}
		}
	};
}

MC_SCENARIO(external_memory, 3)
{
	World w; const size_t caps[6] = { 24, 0, 1, 15, 33, 48 }; w.cap = caps[mc::choose(6, "capacity")];
	const unsigned mis = mc::choose(mc::bound(2, 4), "misalignment") * 3;
	w.raw = static_cast<char*>(aligned_alloc(64, 128)); w.begin = w.raw + mis;
	// the buffer ends at the end of an exactly sized heap block, so that overruns are trapped
	char* exact = static_cast<char*>(malloc(mis + w.cap ? mis + w.cap : 1)); free(w.raw); w.raw = exact; w.begin = exact + mis;
	mc::note("buffer of %zu bytes at offset %u", w.cap, mis);
	ExternalMemoryAllocator a(w.begin, w.cap); w.al = &a; w.cur = w.begin;
	w.run(mc::bound(5, 6));
	free(w.raw);
}
// buffers far larger: block sizes around every power of two, filled to the last byte and released in both orders
MC_SCENARIO(large_buffers, 2)
{
	World w; const size_t caps[] = { 255, 256, 257, 1023, 4096, 65535, 65536, 65537, 1u << 20 }; w.cap = caps[mc::choose(9, "capacity")];
	const size_t ns[] = { 7, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1024, 4095, 4096, 65535, 65536, 65537 };
	const size_t n = ns[mc::choose(23, "block size")]; const unsigned aligns[4] = { 1, 8, 32, 128 }; const unsigned align = aligns[mc::choose(4, "alignment")], mis = mc::choose(3, "misalignment") * 5; const bool forward = mc::flip("release oldest first");
	w.raw = static_cast<char*>(malloc(mis + w.cap)); w.begin = w.cur = w.raw + mis;
	{
		ExternalMemoryAllocator a(w.begin, w.cap); w.al = &a;
		for (unsigned i = 0; i < 12; ++i) w.allocate(n, align);
		const size_t left = size_t(w.begin + w.cap - w.cur);
		if (left) { w.allocate(left - 1, 1); w.allocate(2, 1); w.allocate(1, 1); w.allocate(1, 1); }
		const unsigned total = unsigned(w.blocks.size());
		for (unsigned i = 0; i < total; ++i) w.deallocate(forward ? i : total - 1 - i, true);
		for (unsigned i = 0; i < 4; ++i) w.allocate(n / 2 + 1, align);
		mc::state(w.key());
	}
	free(w.raw);
}
MC_SCENARIO(array_and_stack, 3)
{
	World w; alignas(16) char arr[24]; alignas(8) unsigned short shorts[10];
	switch (mc::choose(3, "kind"))
	{
	case 0: { ExternalMemoryAllocator a(arr); w.al = &a; w.begin = w.cur = arr; w.cap = sizeof arr; w.run(4); break; }
	case 1: { ExternalMemoryAllocator a(shorts); w.al = &a; w.begin = w.cur = reinterpret_cast<char*>(shorts); w.cap = sizeof shorts; w.run(4); break; }
	case 2:
	{
		struct Probe : StackAllocator<40> { char* mem() { return this->m_storage; } } a;
		w.al = &a; w.begin = w.cur = a.mem(); w.cap = 40; w.run(4); break;
	}
	}
}

MC_SCENARIO(align_power_of_2, 2)
{
	const size_t align = size_t(1) << mc::choose(8, "alignment"); const unsigned off = mc::choose(64, "offset"); mc::op("alignPowerOf2(align %zu, offset %u)", align, off);
	static char buf[1024] __attribute__((aligned(256)));
	for (size_t space = 0; space <= 80; ++space) for (size_t k = 0; k < 84; ++k)
	{
		const size_t size = k < 81 ? k : k == 81 ? HUGE1 : k == 82 ? HUGE2 : size_t(1) << 63;
		void* p = buf + off; void* r = IAllocator::alignPowerOf2(align, size, p, space);
		const size_t pad = (align - (off % align)) % align; const bool fits = pad <= space && size <= space - pad;
		MC_CHECK((r != nullptr) == fits, "fit", "alignPowerOf2(%zu, size %zu, offset %u, space %zu) %s", align, size, off, space, r ? "returned a block that does not fit" : "refused a block that fits");
		if (fits) MC_CHECK(r == buf + off + pad && p == r, "aligned-ptr", "alignPowerOf2(%zu, size %zu, offset %u, space %zu) moved to %td, expected %zu", align, size, off, space, static_cast<char*>(r) - buf, off + pad);
		else MC_CHECK(p == buf + off, "ptr-changed", "a refused request moved the pointer");
	}
	mc::state(mc::mix(align, off)); mc::outcome("aligner");
}

MC_SCENARIO(scoped, 2)
{
	track::Allocator a; a.failAt = mc::choose(4, "failing allocation"); unsigned expectLive = 0;
	{
		std::vector<std::unique_ptr<ScopedAllocation>> held; std::vector<size_t> size; std::vector<bool> valid;
		for (unsigned d = 0; d < mc::bound(5, 7); ++d)
		{
			const unsigned c = mc::choose(2 + unsigned(held.size() > 2 ? 3 : held.size()) * 2, "operation");
			if (c < 2)
			{
				const size_t n = c ? 24 : 1; mc::op("allocateScoped(%zu)", n); const unsigned r = a.refused;
				held.emplace_back(new ScopedAllocation(a.allocateScoped(n, 8))); const bool ok = a.refused == r;
				ScopedAllocation& s = *held.back();
				MC_CHECK(bool(s) == ok && (s.ptr != nullptr) == ok && s.size == n, "scoped-state", "allocateScoped(%zu): valid %d, expected %d", n, int(bool(s)), int(ok));
				if (ok) memset(s.ptr, 1, n); size.push_back(n); valid.push_back(ok);
			}
			else
			{
				const unsigned i = (c - 2) / 2;
				if (c % 2 == 0) { mc::op("release(%u)", i); held.erase(held.begin() + i); size.erase(size.begin() + i); valid.erase(valid.begin() + i); }
				else
				{
					mc::op("move(%u)", i); ScopedAllocation& s = *held[i]; void* p = s.ptr; std::unique_ptr<ScopedAllocation> n(new ScopedAllocation(std::move(s)));
					MC_CHECK(!bool(s), "scoped-moved", "a moved-from scoped allocation still owns its block");
					MC_CHECK(n->ptr == p && bool(*n) == bool(valid[i]) && n->size == size[i], "scoped-moved", "a moved scoped allocation lost its block");
					held[i] = std::move(n);
				}
			}
			expectLive = 0; size_t bytes = 0; for (size_t i = 0; i < valid.size(); ++i) if (valid[i]) { ++expectLive; bytes += size[i]; }
			MC_CHECK(a.live.size() == expectLive && a.liveBytes == bytes, "scoped-balance", "%zu blocks / %zu bytes allocated, %u / %zu held", a.live.size(), a.liveBytes, expectLive, bytes);
			mc::state(mc::mix(expectLive, bytes));
		}
		mc::outcome("scoped");
	}
	a.expectEmpty("after the scopes ended");
}

MC_SCENARIO(construct_destruct, 2)
{
	track::Allocator a; a.failAt = mc::choose(3, "failing allocation"); const int base = El::alive(); std::vector<El*> live; 
	for (unsigned d = 0; d < 4; ++d)
	{
		if (mc::flip("destruct")) { if (live.empty()) return; mc::op("destruct"); a.destruct(live.back()); live.pop_back(); }
		else { mc::op("construct"); const unsigned r = a.refused; El* e = a.construct<El>(int(d), 3); MC_CHECK((e != nullptr) == (a.refused == r), "construct", "construct returned %p", (void*)e); if (e) { MC_CHECK(e->v == int(d) * 100 + 3, "construct", "constructor arguments"); live.push_back(e); } }
		MC_CHECK(El::alive() - base == int(live.size()) && a.live.size() == live.size(), "lifetime-count", "%d alive, %zu expected", El::alive() - base, live.size());
	}
	for (auto* e : live) a.destruct(e);
	a.expectEmpty("after destruct"); mc::outcome("construct");
}

// containers living on a bounded stack buffer: they fill it, fail cleanly and stay intact
MC_SCENARIO(stack_containers, 2)
{
	const unsigned k = mc::choose(3, "container"), pushes = mc::choose(40, "pushes"); mc::op("stack_container(%u, %u pushes)", k, pushes); const int base = El::alive();
	if (k == 0)
	{
		StackContainer<Vector<int>, 64> v; std::vector<int> m;
		for (unsigned i = 0; i < pushes; ++i) { int* p = v.emplace_back(int(i)); if (p) m.push_back(i); MC_CHECK(v.size() == m.size(), "size", "stack vector size"); for (size_t q = 0; q < m.size(); ++q) MC_CHECK(v[q] == m[q], "content", "stack vector element %zu", q); }
		MC_CHECK(m.size() <= 16, "capacity", "64 bytes hold %zu ints", m.size());
		MC_CHECK(pushes < 4 || m.size() >= 4, "capacity", "64 bytes hold only %zu ints", m.size());
	}
	else if (k == 1)
	{
		auto l = make_stack_container<List<El>, 256>(); std::vector<int> m;
		for (unsigned i = 0; i < pushes; ++i)
		{
			if (i % 5 == 4 && !m.empty()) { El e = l.pop_back(); MC_CHECK(e.v == m.back(), "content", "stack list pop"); m.pop_back(); }
			else if (l.emplace_back_entry(int(i))) m.push_back(i);
			size_t q = 0; for (const El& e : l) { MC_CHECK(q < m.size() && e.v == m[q], "content", "stack list element %zu", q); ++q; }
			MC_CHECK(q == m.size() && l.size() == q, "size", "stack list size %zu", q);
		}
		MC_CHECK(m.size() * 24 <= 256, "capacity", "256 bytes hold %zu nodes", m.size());
	}
	else
	{
		StackAllocator<4096> a; HashMap<int, int> x(&a, 4u); for (unsigned i = 0; i < pushes; ++i) x.emplaceUnique(int(i), int(i * 3));
		MC_CHECK(x.elements() == pushes, "size", "stack map size"); for (unsigned i = 0; i < pushes; ++i) { int* v = x.get(int(i)); MC_CHECK(v && *v == int(i * 3), "content", "stack map %u", i); }
	}
	MC_CHECK(El::alive() == base, "lifetime-count", "elements alive after destruction");
	mc::state(mc::mix(k, pushes)); mc::outcome("stack container");
}

MC_SCENARIO(heap, 2)
{
	HeapAllocator local; IAllocator* al = mc::flip("instance") ? static_cast<IAllocator*>(HeapAllocator::instance()) : &local;
	MC_CHECK(HeapAllocator::instance() == HeapAllocator::instance(), "instance", "HeapAllocator::instance() is not stable");
	std::vector<Block> b;
	for (unsigned d = 0; d < 4; ++d)
	{
		const unsigned c = mc::choose(4 + (b.size() > 2 ? 2 : unsigned(b.size())), "operation");
		if (c < 4)
		{
			const size_t n = c == 0 ? 1 : c == 1 ? 8 : c == 2 ? 100 : 4096; const unsigned align = 1u << (d + 1) > 16 ? 16 : 1u << (d + 1); mc::op("heap_allocate(%zu)", n);
			char* p = static_cast<char*>(al->allocate(n, align));
			MC_CHECK(p != nullptr && reinterpret_cast<uintptr_t>(p) % align == 0, "misaligned", "heap block of %zu bytes", n);
			for (auto& q : b) MC_CHECK(p + n <= q.p || q.p + q.n <= p, "overlap", "heap blocks overlap");
			memset(p, int(d) + 1, n); b.push_back({ p, n, true, (unsigned char)(d + 1) });
		}
		else { const unsigned i = c - 4; mc::op("heap_deallocate(%u)", i); al->deallocate(b[i].p, b[i].n); b.erase(b.begin() + i); }
		for (auto& q : b) for (size_t i = 0; i < q.n; ++i) MC_CHECK((unsigned char)q.p[i] == q.pat, "overlap", "heap block overwritten");
	}
	for (auto& q : b) al->deallocate(q.p, q.n);
	mc::outcome("heap");
}
