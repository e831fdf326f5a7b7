// Stateless model checker used by every check of this directory.
//
// A scenario is a deterministic function that drives the real code and asks mc::choose(n) whenever
// the environment, the input or the operation sequence can go n ways. The explorer re-executes the
// scenario once per leaf of the resulting decision tree (depth-first, choice 0 first), on all cores.
// Every execution runs in a forked worker whose current decision path lives in shared memory, so an
// abort (sanitizer, assertion, signal) or a hang is attributed to exactly the path that caused it and
// the exploration goes on behind it.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>

namespace mc
{
	// take one of n ways; all n are explored
	unsigned choose(unsigned n, const char* label = nullptr);
	inline bool flip(const char* label = nullptr) { return choose(2, label) == 1; }

	// one operation of the system under test was executed (transition); describes it when tracing
	void op(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
	// names the current operation for crash signatures without formatting cost
	void at(const char* what);
	// the system reached this (canonical) state
	void state(uint64_t hash);
	// true when the future of this state with this many steps left still has to be explored; the
	// caller ends the execution when it is false. Key must determine all future behaviour.
	bool fresh(uint64_t key, unsigned stepsLeft);
	// observed outcome class of this execution (histogram in the evidence)
	void outcome(const char* what);
	// the explorer no longer needs this execution
	bool aborting();
	// free text shown when a path is replayed
	void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
	bool tracing();
	// counts one evaluated oracle comparison
	void checked(unsigned n = 1);
	// this execution broke the property. sig identifies the failing site/input class
	[[noreturn]] void fail(const char* sig, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
	// the harness itself is broken (error exit, never a violation)
	[[noreturn]] void broken(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

	bool thorough();
	// pick a bound by tier
	inline unsigned bound(unsigned quick, unsigned thoroughBound) { return thorough() ? thoroughBound : quick; }
	const char* scratch(); // per-worker scratch directory (created on demand)
	int workerId();

	inline uint64_t mix(uint64_t h, uint64_t v)
	{
		h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
		h ^= h >> 32; h *= 0xd6e8feb86659fd93ull; h ^= h >> 32;
		return h;
	}
	inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull)
	{
		const unsigned char* c = static_cast<const unsigned char*>(p);
		for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 0x100000001b3ull; }
		return mix(h, n);
	}
	inline uint64_t hashStr(const std::string& s) { return hashBytes(s.data(), s.size()); }

	struct Register { Register(const char* name, void(*fn)(), unsigned claimDepth, unsigned weight); };
}

// claimDepth: number of leading decisions by which the tree is split between workers
#define MC_SCENARIO(name, claimDepth) \
	static void mc_scn_##name(); \
	static ::mc::Register mc_reg_##name(#name, &mc_scn_##name, claimDepth, 1); \
	static void mc_scn_##name()

#define MC_CHECK(cond, sig, ...) do { ::mc::checked(); if(!(cond)) ::mc::fail(sig, __VA_ARGS__); } while(0)
