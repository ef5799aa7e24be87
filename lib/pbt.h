// A small property-based testing engine.
//
// Every random decision of a case is drawn from one of three "tapes" (general input,
// schedule, environment faults). A case is a pure function of its tapes, so a failure is
// replayed from the tapes and shrunk by editing them: dropping, zeroing and lowering the
// values. Zero always means the simplest choice.
//
#pragma once

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <initializer_list>
#include <string>
#include <vector>

namespace pbt {

	enum Tape
	{
		TAPE_GEN = 0,
		TAPE_SCHED = 1,
		TAPE_ENV = 2,
		TAPE_COUNT = 3,
	};

	enum Mode
	{
		// Fork a new process for each case.
		MODE_FORK,
		// Run many cases in one process until something breaks.
		MODE_INPROC,
		// Like fork, but uses real time, real kernel, real threads. Failures need to be
		// confirmed by repeated runs and are not expected to reproduce each time.
		MODE_REAL,
	};

	// Uniform in [0, bound). Bound 0 means the full 64-bit range.
	uint64_t Draw(
		Tape tape,
		uint64_t bound);

	// Raw access to the random generator behind the tape for the code which records its
	// decisions itself (scheduler).
	bool IsReplay();
	// Not freed and not reachable memory is a failure.
	bool IsLeakChecked();
	uint64_t RawRandom(
		Tape tape);
	bool TapeRead(
		Tape tape,
		uint64_t& outValue);
	void TapeWrite(
		Tape tape,
		uint64_t value);

	[[noreturn]] __attribute__((format(printf, 2, 3))) void Fail(
		const char* sig,
		const char* fmt,
		...);
	[[noreturn]] void FailV(
		const char* sig,
		const char* fmt,
		va_list args);

	// Finish the case right now as a successful one (only from FORK and REAL modes).
	[[noreturn]] void FinishOk();

	// Mark the case as non-trivial.
	void NonTrivial();
	// Count the case in the given class.
	void Label(
		const char* name);
	// Include the value into what makes the case distinct.
	void HashMix(
		uint64_t value);
	// Human readable description of the case.
	__attribute__((format(printf, 1, 2))) void Describe(
		const char* fmt,
		...);
	// Description is being collected only when it is going to be used.
	bool WantDescription();

	bool IsThorough();

	struct Gen
	{
		Tape myTape = TAPE_GEN;

		uint64_t Below(uint64_t n) { return n <= 1 ? 0 : Draw(myTape, n); }
		uint64_t Any() { return Draw(myTape, 0); }
		// Inclusive.
		uint64_t Range(uint64_t lo, uint64_t hi)
		{
			if (lo == 0 && hi == UINT64_MAX)
				return Any();
			return lo + Below(hi - lo + 1);
		}
		int64_t RangeI(int64_t lo, int64_t hi) { return lo + (int64_t)Below(hi - lo + 1); }
		// True with the probability num/den. Simplest is false.
		bool Chance(uint64_t num, uint64_t den)
		{
			return den - 1 - Below(den) < num;
		}
		bool Bool() { return Below(2) == 1; }
		// Small values are much more likely. In [0, max].
		uint64_t Small(uint64_t max);
		// Index by weight.
		size_t Weighted(std::initializer_list<uint32_t> weights);
		template<typename T>
		const T& Pick(const std::vector<T>& v) { return v[Below(v.size())]; }
		template<typename T>
		T Pick(std::initializer_list<T> v) { return v.begin()[Below(v.size())]; }
		// Mostly around the interesting 64-bit boundaries.
		uint64_t Edge64();
	};

	using CaseFunc = void (*)(Gen& g);

	struct TestDef
	{
		const char* myName;
		Mode myMode;
		uint32_t myWeight;
		CaseFunc myFunc;
	};

	struct TestReg
	{
		TestReg(const char* name, Mode mode, uint32_t weight, CaseFunc func);
	};

	// Called in the process of a case right before it starts / after it ends well.
	void SetCaseHooks(
		void (*begin)(),
		void (*end)());

	int Main(int argc, char** argv);

	uint64_t Mix(uint64_t a);
}

#define PBT_TEST(name, mode, weight)													\
	static void pbt_case_##name(pbt::Gen& g);											\
	static pbt::TestReg pbt_reg_##name(#name, mode, weight, pbt_case_##name);			\
	static void pbt_case_##name(pbt::Gen& g)

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)

#define PBT_CHECK(cond, sig)															\
	do { if (!(cond)) pbt::Fail(sig, "%s at %s:%d", #cond, __FILE__, __LINE__); } while (0)

#define PBT_CHECK_F(cond, sig, fmt, ...)												\
	do { if (!(cond)) pbt::Fail(sig, "%s at %s:%d: " fmt, #cond, __FILE__, __LINE__,	\
		##__VA_ARGS__); } while (0)
