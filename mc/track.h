// Instrumented allocator and element types shared by the harnesses.
#pragma once
#include "mc.h"
#include "spvgentwo/Allocator.h"
#include <cstdlib>
#include <cstring>
#include <new>
#include <cstdint>

namespace track
{
	// pointer -> size, open addressing (much cheaper under the sanitizer than a node-based map)
	class PtrMap
	{
	public:
		struct Slot { void* first; size_t second; };
		PtrMap() { grow(64); }
		PtrMap(const PtrMap&) = delete;
		~PtrMap() { ::free(m_t); }
		Slot* find(void* p) { for (size_t i = at(p);; i = (i + 1) & m_mask) { if (m_t[i].first == p) return &m_t[i]; if (m_t[i].first == nullptr) return nullptr; } }
		bool count(void* p) const { return const_cast<PtrMap*>(this)->find(p) != nullptr; }
		void add(void* p, size_t n) { if (m_n * 2 > m_mask) grow((m_mask + 1) * 2); size_t i = at(p); while (m_t[i].first) i = (i + 1) & m_mask; m_t[i] = { p, n }; ++m_n; }
		void erase(Slot* s)
		{
			size_t i = size_t(s - m_t), j = i;
			for (;;) { j = (j + 1) & m_mask; if (m_t[j].first == nullptr) break; const size_t k = at(m_t[j].first); if (((j - k) & m_mask) >= ((j - i) & m_mask)) { m_t[i] = m_t[j]; i = j; } }
			m_t[i] = { nullptr, 0 }; --m_n;
		}
		size_t size() const { return m_n; }
		bool empty() const { return m_n == 0; }
		template <class F> void each(F f) const { for (size_t i = 0; i <= m_mask; ++i) if (m_t[i].first) f(m_t[i]); }
	private:
		size_t at(void* p) const { return size_t((reinterpret_cast<uintptr_t>(p) >> 3) * 0x9E3779B97F4A7C15ull >> 20) & m_mask; }
		void grow(size_t n) { Slot* o = m_t; const size_t om = m_mask; const bool had = o != nullptr; m_t = static_cast<Slot*>(calloc(n, sizeof(Slot))); m_mask = n - 1; m_n = 0; if (had) { for (size_t i = 0; i <= om; ++i) if (o[i].first) add(o[i].first, o[i].second); ::free(o); } }
		Slot* m_t = nullptr; size_t m_mask = 0, m_n = 0;
	};
	// exact-size heap blocks (sanitizer red zones on both sides), full accounting, optional fault injection
	class Allocator : public spvgentwo::IAllocator
	{
	public:
		explicit Allocator(const char* name = "alloc") : m_name(name) {}
		Allocator(const Allocator&) = delete;

		void* allocate(spvgentwo::sgt_size_t bytes, unsigned int align) override
		{
			++requests;
			if (align != 0 && (align & (align - 1)) != 0) mc::fail("alignment-hint", "%s: alignment hint %u is not a power of two", m_name, align);
			if (failAt != 0 && requests == failAt) { ++refused; return nullptr; }
			if (failFrom != 0 && requests >= failFrom) { ++refused; return nullptr; }
			if (bytes >> 40) { ++refused; return nullptr; } // no allocator has that much
			void* p = malloc(bytes ? bytes : 1);
			if (p == nullptr) mc::broken("out of memory (%zu bytes)", size_t(bytes));
			memset(p, 0xBE, bytes);
			live.add(p, bytes); liveBytes += bytes;
			return p;
		}
		void deallocate(void* p, spvgentwo::sgt_size_t bytes = 0u) override
		{
			if (p == nullptr) return;
			auto it = live.find(p);
			if (it == nullptr) mc::fail("foreign-free", "%s: freed a block it does not own (double free or wrong allocator)", m_name);
			if (bytes != 0 && bytes != it->second) mc::fail("free-size", "%s: block of %zu bytes freed as %zu bytes", m_name, it->second, size_t(bytes));
			memset(p, 0xDF, it->second);
			liveBytes -= it->second;
			live.erase(it);
			free(p);
		}
		void expectEmpty(const char* when)
		{
			mc::checked();
			if (!live.empty()) mc::fail("leak", "%s: %zu block(s), %zu bytes not released %s", m_name, live.size(), liveBytes, when);
		}
		~Allocator() override { live.each([](auto& l) { free(l.first); }); }

		PtrMap live;
		size_t liveBytes = 0;
		unsigned requests = 0, refused = 0, failAt = 0, failFrom = 0;
	private:
		const char* m_name;
	};

	// element whose lifetime is checked on every special member call
	struct El
	{
		static int& alive() { static int n = 0; return n; }
		static constexpr int Moved = -777, Def = 0;
		int v; El* self;

		El() : v(Def) { born("default"); }
		El(int x) : v(x) { born("value"); }
		El(int x, int y) : v(x * 100 + y) { born("value2"); }
		El(const El& o) : v((o.use("copied from"), o.v)) { born("copy"); }
		El(El&& o) noexcept : v((o.use("moved from"), o.v)) { born("move"); if (&o != this) o.v = Moved; }
		El& operator=(const El& o) { use("copy assigned"); o.use("copied from"); v = o.v; return *this; }
		El& operator=(El&& o) noexcept { use("move assigned"); o.use("moved from"); v = o.v; if (&o != this) o.v = Moved; return *this; }
		~El() { use("destroyed"); self = nullptr; v = -999; --alive(); }
		bool operator==(const El& o) const { use("compared"); o.use("compared"); return v == o.v; }
		bool operator!=(const El& o) const { return !(*this == o); }

		void use(const char* what) const
		{
			if (self != this) mc::fail("lifetime", "element %s while not alive (never constructed, already destroyed, or bytewise relocated)", what);
		}
		void born(const char* what)
		{
			// memory handed out by the tracking allocator is poisoned, so a match means a live object
			if (self == this) mc::fail("overwrite", "%s-construction over a live element", what);
			self = this; ++alive();
		}
	};
}
