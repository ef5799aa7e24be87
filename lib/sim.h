// Deterministic execution of multi-threaded code.
//
// The tested sources are compiled with -fsanitize=thread, but are linked with this runtime
// instead of the TSan one. All threads are real, but only one of them can run at a time,
// and it passes the control on only at synchronization operations (atomics, mutexes,
// condition variables, thread creation, sleeping, network calls), by a decision from the
// schedule tape. Time is virtual. Plain memory accesses are checked for data races (by
// happens-before), use-after-free and out-of-bounds.
//
#pragma once

#include "pbt.h"

#include <cstddef>
#include <cstdint>

namespace sim {

	static constexpr uint64_t theInfinite = UINT64_MAX;

	struct Config
	{
		// Let timeouts fire even if some threads could still run.
		bool myTimeJumps = true;
		// Condition variables can wake up without a reason.
		bool mySpurious = true;
		// Points until it is considered a livelock.
		uint64_t myMaxSteps = 400000;
		// Points until the schedule becomes fair.
		uint64_t myFairAfter = 10000;
		// Consecutive points of one thread until the others are let to run.
		uint32_t mySpinLimit = 600;
		// Virtual time taken by each point.
		uint64_t myStepCostNs = 100;
		bool myTrackRaces = true;
		// Atomic loads can return older values where the C++ memory model permits that.
		bool myIsWeak = true;
		// Strategy choices are limited to few preemptions.
		bool myIsCalm = false;
	};

	Config& GetConfig();

	// Explicit scheduling point.
	void Point();
	// Let the others run.
	void Yield();
	uint64_t NowNs();
	uint64_t NowMs();
	// Moves the virtual clock.
	void AdvanceNs(uint64_t ns);
	// Sets the clock at the beginning of a case.
	void SetNowNs(uint64_t ns);
	int Self();
	bool IsActive();
	uint64_t Steps();
	uint64_t Switches();
	uint64_t Preemptions();
	// Loads which have returned an old value.
	uint64_t WeakLoads();

	// Block the current thread until woken up via the key. Returns false on timeout.
	bool BlockOn(const void* key, uint64_t deadlineNs, const char* what);
	void WakeAll(const void* key);
	void SleepMs(uint64_t ms);
	// Blocks until the thread's condition becomes true. Is checked whenever any other thread
	// makes a step. No memory synchronization. The condition must not have points.
	template<typename F>
	void WaitFor(F&& cond, const char* what);
	bool WaitForImpl(bool (*cond)(void*), void* arg, uint64_t deadlineNs, const char* what);
	// Wait until all the other threads are blocked without a timeout nearer than the given
	// point of time.
	void WaitIdle(uint64_t deadlineNs = 0);

	// Happens-before edges for the simulated kernel objects.
	void Acquire(const void* obj);
	void Release(const void* obj);
	// Checked memory accesses made by the simulated kernel.
	void OnRead(const void* p, size_t size);
	void OnWrite(const void* p, size_t size);

	// Accesses to the memory are not checked. For the oracles' data.
	void IgnoreMemory(const void* p, size_t size);

	// Number of live blocks allocated with new / malloc since the start of the case.
	int64_t LiveBlocks();
	int64_t LiveBytes();
	uint64_t AllocCount();

	// Called instead of failing when there is nothing to run.
	void SetDeadlockHandler(void (*handler)());

	void Begin();
	void End();

	// No tracking and no points in this scope.
	struct Quiet
	{
		Quiet();
		~Quiet();
	};

	template<typename F>
	void WaitFor(F&& cond, const char* what)
	{
		struct Ctx { F* f; } ctx{&cond};
		WaitForImpl([](void* a) -> bool { return (*((Ctx*)a)->f)(); }, &ctx, theInfinite, what);
	}
}
