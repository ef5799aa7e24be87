#include "sim.h"

#include <link.h>
#include <cstdio>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <new>

#include <dlfcn.h>
#include <execinfo.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" char __executable_start;
extern "C" char etext;

#define NOINLINE __attribute__((noinline))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

namespace sim {

	//////////////////////////////////////////////////////////////////////////////////////
	// Memory. Never reused in a case.

	static constexpr uint64_t theArenaSize = 6ULL << 30;
	static char* theArena = nullptr;
	static char* theArenaEnd = nullptr;
	// One byte per 16 bytes: 0 - not addressable, 1..16 - so many are, 0xfd - freed.
	static uint8_t* theArenaState = nullptr;
	static char* theArenaPos = nullptr;
	static volatile int theArenaLock = 0;
	static int64_t theLiveBlocks = 0;
	static int64_t theLiveBytes = 0;
	static uint64_t theAllocCount = 0;
	static char* theCaseStart = nullptr;
	// To see where a block is allocated.
	static uint64_t theAllocTrace = 0;
	static void OnTracedAlloc();

	static char* theMetaPos = nullptr;
	static char* theMetaEnd = nullptr;

	static void* MapRaw(size_t size)
	{
		void* p = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS |
			MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED)
		{
			static const char msg[] = "sim: mmap failed\n";
			if (write(2, msg, sizeof(msg) - 1) < 0) {}
			_exit(2);
		}
		return p;
	}

	static void* MetaAlloc(size_t size)
	{
		size = (size + 15) & ~15ULL;
		if (theMetaPos == nullptr || theMetaPos + size > theMetaEnd)
		{
			size_t chunk = size > (64ULL << 20) ? size : (64ULL << 20);
			theMetaPos = (char*)MapRaw(chunk);
			theMetaEnd = theMetaPos + chunk;
		}
		void* p = theMetaPos;
		theMetaPos += size;
		return p;
	}

	struct BlockHeader
	{
		uint64_t mySize;
		uint64_t myMagic;
	};

	static constexpr uint64_t theMagicLive = 0x11ee11ee11ee11eeULL;
	static constexpr uint64_t theMagicFree = 0xdeaddeaddeaddeadULL;

	static void LockArena()
	{
		while (__atomic_exchange_n(&theArenaLock, 1, __ATOMIC_ACQUIRE) != 0)
			syscall(SYS_sched_yield);
	}

	static void UnlockArena()
	{
		__atomic_store_n(&theArenaLock, 0, __ATOMIC_RELEASE);
	}

	// Memory of the oracles. Is not checked anyhow.
	static char* theOracleStart = nullptr;
	static char* theOracleEnd = nullptr;
	static char* theOraclePos = nullptr;

	static bool IsOracle();

	// Outside of a case the memory is reused.
	struct FreeNode { FreeNode* myNext; };
	static FreeNode* theFreeLists[64];
	static bool IsCaseRunning();

	static constexpr uint64_t theKindNew = 1ULL << 62;
	static constexpr uint64_t theKindReusable = 1ULL << 61;
	static constexpr uint64_t theSizeMask = theKindReusable - 1;

	static void* ArenaAlloc(size_t size, size_t align, bool isNew)
	{
		LockArena();
		if (UNLIKELY(IsOracle()))
		{
			if (theOracleStart == nullptr)
			{
				theOracleStart = (char*)MapRaw(1ULL << 30);
				theOracleEnd = theOracleStart + (1ULL << 30);
				theOraclePos = theOracleStart;
			}
			// For realloc.
			*(uint64_t*)theOraclePos = size;
			char* p = (char*)(((uintptr_t)theOraclePos + 16 + align - 1) & ~(uintptr_t)(align - 1));
			*(uint64_t*)(p - 16) = size;
			theOraclePos = p + ((size + 15) & ~15ULL);
			UnlockArena();
			return p;
		}
		bool isReusable = !IsCaseRunning() && align <= 16;
		int cls = 0;
		if (isReusable)
		{
			while ((16ULL << cls) < size)
				++cls;
			if (theFreeLists[cls] != nullptr)
			{
				char* p = (char*)theFreeLists[cls];
				theFreeLists[cls] = theFreeLists[cls]->myNext;
				BlockHeader* h = (BlockHeader*)(p - sizeof(BlockHeader));
				h->mySize = size | (isNew ? theKindNew : 0) | (isReusable ? theKindReusable : 0);
				h->myMagic = theMagicLive;
				memset(p, 0, 16ULL << cls);
				memset(theArenaState + (p - theArena) / 16, 16, (16ULL << cls) / 16);
				UnlockArena();
				return p;
			}
		}
		if (UNLIKELY(theArena == nullptr))
		{
			theArena = (char*)MapRaw(theArenaSize);
			theArenaState = (uint8_t*)MapRaw(theArenaSize / 16);
			theArenaEnd = theArena + theArenaSize;
			theArenaPos = theArena;
		}
		if (align < 16)
			align = 16;
		char* p = theArenaPos + sizeof(BlockHeader);
		p = (char*)(((uintptr_t)p + align - 1) & ~(uintptr_t)(align - 1));
		char* end = p + (isReusable ? (16ULL << cls) : ((size + 15) & ~15ULL));
		if (size > theArenaSize / 2 || end + 16 > theArenaEnd)
		{
			UnlockArena();
			return nullptr;
		}
		// Redzone of one granule is the next header.
		theArenaPos = end;
		BlockHeader* h = (BlockHeader*)(p - sizeof(BlockHeader));
		h->mySize = size | (isNew ? theKindNew : 0) | (isReusable ? theKindReusable : 0);
		h->myMagic = theMagicLive;
		uint8_t* s = theArenaState + (p - theArena) / 16;
		size_t full = size / 16;
		memset(s, 16, full);
		if (size % 16 != 0)
			s[full] = (uint8_t)(size % 16);
		if (isNew)
		{
			++theLiveBlocks;
			theLiveBytes += size;
			++theAllocCount;
			if (UNLIKELY(theAllocCount == theAllocTrace))
				OnTracedAlloc();
		}
		UnlockArena();
		return p;
	}

	static bool InArena(const void* p)
	{
		return (const char*)p >= theArena && (const char*)p < theArenaEnd;
	}

	static BlockHeader* HeaderOf(void* p) { return (BlockHeader*)((char*)p - sizeof(BlockHeader)); }

	static void TrackFree(void* p, size_t size);

	static uint64_t SizeOf(void* p)
	{
		if (!InArena(p))
			return *(uint64_t*)((char*)p - 16);
		return HeaderOf(p)->mySize & theSizeMask;
	}

	static void ArenaFree(void* p, bool isNew)
	{
		if (p == nullptr)
			return;
		if (!InArena(p))
		{
			// Not to keep the leaked things reachable.
			if ((char*)p >= theOracleStart && (char*)p < theOraclePos && pbt::IsLeakChecked())
				memset(p, 0, *(uint64_t*)((char*)p - 16));
			return;
		}
		BlockHeader* h = HeaderOf(p);
		if (h->myMagic != theMagicLive)
		{
			pbt::Fail("double-free", "freeing of %s block %p",
				h->myMagic == theMagicFree ? "an already freed" : "a not allocated", p);
		}
		uint64_t size = h->mySize & theSizeMask;
		uint64_t flags = h->mySize;
		if (((h->mySize & theKindNew) != 0) != isNew && IsCaseRunning())
			pbt::Fail("free-mismatch", "block %p is freed not the way it was allocated", p);
		if (isNew)
			TrackFree(p, size);
		LockArena();
		h->myMagic = theMagicFree;
		size_t n = (size + 15) / 16;
		if (!IsCaseRunning())
		{
			int cls = 0;
			while ((16ULL << cls) < size)
				++cls;
			// Only the blocks which have the capacity of their class.
			if ((flags & theKindReusable) != 0)
			{
				((FreeNode*)p)->myNext = theFreeLists[cls];
				theFreeLists[cls] = (FreeNode*)p;
			}
			UnlockArena();
			return;
		}
		memset(theArenaState + ((char*)p - theArena) / 16, 0xfd, n);
		if (isNew)
		{
			--theLiveBlocks;
			theLiveBytes -= size;
		}
		// Poison to break the uninstrumented users too.
		memset(p, 0xdb, size);
		UnlockArena();
	}

	int64_t LiveBlocks() { return theLiveBlocks; }
	int64_t LiveBytes() { return theLiveBytes; }
	uint64_t AllocCount() { return theAllocCount; }

	//////////////////////////////////////////////////////////////////////////////////////

	static constexpr int theMaxThreads = 24;

	struct VC
	{
		uint32_t c[theMaxThreads];

		void Join(const VC& o)
		{
			for (int i = 0; i < theMaxThreads; ++i)
			{
				if (o.c[i] > c[i])
					c[i] = o.c[i];
			}
		}
	};

	enum ThreadStatus
	{
		TH_RUNNABLE,
		TH_BLOCKED,
		TH_DONE,
	};

	struct TlsDtor
	{
		void (*myFunc)(void*);
		void* myArg;
	};

	struct Thread
	{
		uint32_t myGo;
		int myId;
		ThreadStatus myStatus;
		const void* myKey;
		const char* myWhat;
		uint64_t myDeadline;
		bool myIsTimedOut;
		bool myIsCondWait;
		bool (*myCond)(void*);
		void* myCondArg;
		bool myIsIdleWait;
		int64_t myPriority;
		VC myVC;
		VC myAcqFence;
		VC myRelFence;
		bool myHasRelFence;
		// Values overwritten before that can't be read.
		uint64_t myFenceStep;
		int myQuiet;
		pthread_t myReal;
		void* (*myFunc)(void*);
		void* myArg;
		void* myRet;
		bool myIsDetached;
		TlsDtor myDtors[64];
		int myDtorCount;
		uintptr_t myStack[512];
		uint32_t myStackDepth;
		uint64_t myYields;
		// Where the stack ends while the thread is not running.
		char* myStackPos;
	};

	static Thread* theThreads[theMaxThreads];
	static int theThreadCount = 0;
	static __thread Thread* theSelf = nullptr;
	static bool theIsActive = false;
	static bool theIsEnded = false;
	static Config theConfig;
	static uint64_t theNowNs = 1000ULL * 1000 * 1000 * 1000;
	static uint64_t theSteps = 0;
	static uint64_t theSwitches = 0;
	static uint64_t thePreemptions = 0;
	static void (*theDeadlockHandler)() = nullptr;

	// Strategy.
	enum Strategy
	{
		STRATEGY_RANDOM,
		STRATEGY_PCT,
	};
	static Strategy theStrategy = STRATEGY_RANDOM;
	static double theLogKeep = 0; // ln(1 - p)
	static uint64_t theSegLen = 0;
	static uint64_t theSegTarget = 0; // 0 - until block
	static uint64_t theSegIdx = 0;
	static bool theHasSeg = false;
	static uint64_t theSpinLen = 0;
	static uint64_t thePctPoints[8];
	static int thePctCount = 0;
	static int64_t thePctLow = 0;
	static uint32_t theJumpRate = 0;
	static bool theTrace = false;
	static uint64_t theMinDeadline = theInfinite;
	static int theCondCount = 0;
	static bool theHasIdle = false;

	static bool IsOracle() { return theSelf != nullptr && theSelf->myQuiet != 0; }
	static bool IsCaseRunning() { return theIsActive; }

	Config& GetConfig() { return theConfig; }
	uint64_t NowNs() { return theNowNs; }
	uint64_t NowMs() { return theNowNs / 1000000; }
	void SetNowNs(uint64_t ns) { theNowNs = ns; }
	int Self() { return theSelf == nullptr ? 0 : theSelf->myId; }
	bool IsActive() { return theIsActive; }
	uint64_t Steps() { return theSteps; }
	uint64_t Switches() { return theSwitches; }
	uint64_t Preemptions() { return thePreemptions; }
	void SetDeadlockHandler(void (*handler)()) { theDeadlockHandler = handler; }

	Quiet::Quiet() { if (theSelf != nullptr) ++theSelf->myQuiet; }
	Quiet::~Quiet() { if (theSelf != nullptr) --theSelf->myQuiet; }

	static void FormatStack(Thread* t, char* buf, size_t size)
	{
		size_t pos = 0;
		buf[0] = 0;
		uint32_t n = t->myStackDepth > 512 ? 512 : t->myStackDepth;
		for (uint32_t i = 0; i < n && i < 14 && pos + 20 < size; ++i)
		{
			pos += snprintf(buf + pos, size - pos, " %#lx",
				(unsigned long)t->myStack[n - 1 - i] - 1);
		}
	}

	static void DescribeThreads(char* buf, size_t size)
	{
		size_t pos = 0;
		for (int i = 0; i < theThreadCount && pos + 400 < size; ++i)
		{
			Thread* t = theThreads[i];
			char st[400];
			FormatStack(t, st, sizeof(st));
			pos += snprintf(buf + pos, size - pos, "  thread %d: %s %s stack:%s\n", i,
				t->myStatus == TH_RUNNABLE ? "runnable" : t->myStatus == TH_BLOCKED ?
				"blocked on" : "done", t->myStatus == TH_BLOCKED ? t->myWhat : "", st);
		}
	}

	static void FutexWait(uint32_t* w)
	{
		while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0)
			syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
		__atomic_store_n(w, 0, __ATOMIC_RELAXED);
	}

	static void FutexWake(uint32_t* w)
	{
		__atomic_store_n(w, 1, __ATOMIC_RELEASE);
		syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
	}

	static void ReadSegment()
	{
		theHasSeg = true;
		theSegLen = 0;
		if (pbt::IsReplay())
		{
			pbt::TapeRead(pbt::TAPE_SCHED, theSegTarget);
			pbt::TapeRead(pbt::TAPE_SCHED, theSegIdx);
			return;
		}
		theSegTarget = 0;
		theSegIdx = 0;
		if (theStrategy == STRATEGY_RANDOM && theLogKeep < 0)
		{
			double u = ((pbt::RawRandom(pbt::TAPE_SCHED) >> 11) + 1) / 9007199254740993.0;
			double v = __builtin_log(u) / theLogKeep;
			theSegTarget = v > 1e6 ? 0 : (uint64_t)v + 1;
		}
	}

	static void MakeRunnable(Thread* t)
	{
		t->myStatus = TH_RUNNABLE;
		t->myKey = nullptr;
		t->myDeadline = theInfinite;
		t->myIsCondWait = false;
		t->myIsIdleWait = false;
		if (t->myCond != nullptr)
			--theCondCount;
		t->myCond = nullptr;
	}

	static void FireTimeouts()
	{
		theMinDeadline = theInfinite;
		for (int i = 0; i < theThreadCount; ++i)
		{
			Thread* t = theThreads[i];
			if (t->myStatus == TH_BLOCKED && t->myDeadline <= theNowNs)
			{
				t->myIsTimedOut = true;
				MakeRunnable(t);
			}
			else if (t->myStatus == TH_BLOCKED && t->myDeadline < theMinDeadline)
				theMinDeadline = t->myDeadline;
		}
	}

	void AdvanceNs(uint64_t ns)
	{
		theNowNs += ns;
		FireTimeouts();
	}

	// Conditions with a predicate.
	static void CheckConds()
	{
		for (int i = 0; i < theThreadCount; ++i)
		{
			Thread* t = theThreads[i];
			if (t->myStatus == TH_BLOCKED && t->myCond != nullptr)
			{
				Thread* self = theSelf;
				// The condition is executed in this thread's context.
				++self->myQuiet;
				bool ok = t->myCond(t->myCondArg);
				--self->myQuiet;
				if (ok)
				{
					t->myIsTimedOut = false;
					MakeRunnable(t);
				}
			}
		}
	}

	static void CheckIdle()
	{
		for (int i = 0; i < theThreadCount; ++i)
		{
			Thread* t = theThreads[i];
			if (t->myStatus == TH_RUNNABLE)
				return;
		}
		for (int i = 0; i < theThreadCount; ++i)
		{
			Thread* t = theThreads[i];
			if (t->myStatus == TH_BLOCKED && t->myIsIdleWait)
			{
				uint64_t until = (uint64_t)(uintptr_t)t->myCondArg;
				bool ok = true;
				for (int k = 0; k < theThreadCount; ++k)
				{
					Thread* o = theThreads[k];
					if (o != t && o->myStatus == TH_BLOCKED && o->myDeadline <= until)
						ok = false;
				}
				if (ok)
				{
					MakeRunnable(t);
					t->myIsTimedOut = false;
					return;
				}
			}
		}
	}

	[[noreturn]] static void OnDeadlock()
	{
		if (theDeadlockHandler != nullptr)
			theDeadlockHandler();
		char buf[5000];
		DescribeThreads(buf, sizeof(buf));
		pbt::Fail("deadlock", "nothing can run:\n%s", buf);
	}

	// Choose who runs next after the current segment ended. Self can be not runnable.
	static Thread* ChooseNext(Thread* self, bool isForced, bool isSpin)
	{
		if (!theHasSeg)
			ReadSegment();
		Thread* runnable[theMaxThreads];
		Thread* other[theMaxThreads];
		int rn, on;
		while (true)
		{
			if (theCondCount > 0)
				CheckConds();
			if (theHasIdle)
				CheckIdle();
			rn = on = 0;
			for (int k = 1; k <= theThreadCount; ++k)
			{
				Thread* t = theThreads[(self->myId + k) % theThreadCount];
				if (t == self && t->myStatus == TH_RUNNABLE)
					continue;
				if (t->myStatus == TH_RUNNABLE)
					runnable[rn++] = t;
				else if (t->myStatus == TH_BLOCKED)
				{
					if (theConfig.myTimeJumps && t->myDeadline != theInfinite)
						other[on++] = t;
					else if (theConfig.mySpurious && t->myIsCondWait)
						other[on++] = t;
				}
			}
			if (self->myStatus == TH_RUNNABLE)
			{
				// Self goes last, so as 0 would mean round-robin.
				if (rn == 0)
				{
					// Nobody else wants to run.
					if (on == 0 || !theConfig.myTimeJumps)
						return self;
				}
				runnable[rn++] = self;
			}
			if (rn > 0)
				break;
			// Nobody can run. Move the time.
			uint64_t next = theInfinite;
			for (int i = 0; i < theThreadCount; ++i)
			{
				Thread* t = theThreads[i];
				if (t->myStatus == TH_BLOCKED && t->myDeadline < next)
					next = t->myDeadline;
			}
			if (next == theInfinite)
				OnDeadlock();
			if (next > theNowNs)
				theNowNs = next;
			FireTimeouts();
		}
		uint64_t idx = 0;
		int total = rn + on;
		if (pbt::IsReplay())
		{
			idx = isSpin ? 0 : theSegIdx % total;
		}
		else if (isSpin)
			idx = 0;
		else if (on > 0 && theJumpRate != 0 &&
			pbt::RawRandom(pbt::TAPE_SCHED) % 1024 < theJumpRate)
			idx = rn + pbt::RawRandom(pbt::TAPE_SCHED) % on;
		else if (theStrategy == STRATEGY_PCT)
		{
			for (int i = 1; i < rn; ++i)
			{
				if (runnable[i]->myPriority > runnable[idx]->myPriority)
					idx = i;
			}
		}
		else
			idx = pbt::RawRandom(pbt::TAPE_SCHED) % rn;
		pbt::TapeWrite(pbt::TAPE_SCHED, isForced ? 0 : theSegLen);
		pbt::TapeWrite(pbt::TAPE_SCHED, idx);
		theHasSeg = false;
		theSpinLen = 0;
		if ((int)idx < rn)
			return runnable[idx];
		Thread* t = other[idx - rn];
		if (t->myDeadline != theInfinite && theConfig.myTimeJumps)
		{
			if (t->myDeadline > theNowNs)
				theNowNs = t->myDeadline;
			FireTimeouts();
		}
		else
		{
			// Spurious wakeup.
			t->myIsTimedOut = false;
			MakeRunnable(t);
		}
		return t;
	}

	static NOINLINE void SwitchTo(Thread* self, Thread* next)
	{
		if (next == self)
			return;
		++theSwitches;
		if (UNLIKELY(theTrace))
		{
			char st[400];
			FormatStack(self, st, sizeof(st));
			char buf[600];
			int n = snprintf(buf, sizeof(buf), "[%llu] %d -> %d (%s) at%s\n",
				(unsigned long long)theSteps, self->myId, next->myId,
				self->myStatus == TH_BLOCKED ? self->myWhat : "", st);
			if (write(2, buf, n) < 0) {}
		}
		bool isDone = self->myStatus == TH_DONE;
		// The registers have to be on the stack.
		__builtin_unwind_init();
		self->myStackPos = (char*)__builtin_frame_address(0) - 2048;
		FutexWake(&next->myGo);
		if (isDone)
			return;
		FutexWait(&self->myGo);
	}

	static NOINLINE void OnTooManySteps()
	{
		char buf[5000];
		DescribeThreads(buf, sizeof(buf));
		pbt::Fail("livelock", "too many steps (%llu):\n%s", (unsigned long long)theSteps, buf);
	}

	// An unfair schedule can keep a polling thread and its helper in a lockstep forever. Real
	// schedules can't, so long cases are finished by a fair random one.
	static NOINLINE void TurnFair()
	{
		theStrategy = STRATEGY_RANDOM;
		theLogKeep = __builtin_log1p(-0.03);
		theJumpRate = theJumpRate == 0 ? 0 : 5;
		if (theHasSeg && theSegTarget == 0)
			theSegTarget = theSegLen + 10;
	}

	static NOINLINE void PointImpl(Thread* self, bool isYield)
	{
		++theSteps;
		theNowNs += theConfig.myStepCostNs;
		if (theSteps > theConfig.myMaxSteps)
			OnTooManySteps();
		if (UNLIKELY(theSteps == theConfig.myFairAfter) && !pbt::IsReplay())
			TurnFair();
		if (theNowNs >= theMinDeadline)
			FireTimeouts();
		if (theCondCount > 0)
			CheckConds();
		if (!theHasSeg)
			ReadSegment();
		++theSegLen;
		++theSpinLen;
		bool isSpin = false;
		bool isSwitch = false;
		bool isForced = false;
		if (isYield)
		{
			isSwitch = true;
			isForced = true;
			if (theStrategy == STRATEGY_PCT && !pbt::IsReplay())
				self->myPriority = --thePctLow;
		}
		else if (theSpinLen >= theConfig.mySpinLimit)
		{
			isSwitch = true;
			isForced = true;
			isSpin = true;
			if (theStrategy == STRATEGY_PCT && !pbt::IsReplay())
				self->myPriority = --thePctLow;
		}
		else if (!pbt::IsReplay() && theStrategy == STRATEGY_PCT)
		{
			for (int i = 0; i < thePctCount; ++i)
			{
				if (thePctPoints[i] == theSteps)
					self->myPriority = --thePctLow;
			}
			for (int i = 0; i < theThreadCount; ++i)
			{
				Thread* t = theThreads[i];
				if (t != self && t->myStatus == TH_RUNNABLE &&
					t->myPriority > self->myPriority)
				{
					isSwitch = true;
					break;
				}
			}
		}
		else if (theSegTarget != 0 && theSegLen >= theSegTarget)
			isSwitch = true;
		if (!isSwitch)
			return;
		Thread* next = ChooseNext(self, isForced, isSpin);
		if (next == self)
		{
			if (isSpin)
				theSpinLen = 0;
			if (theHasSeg)
			{
				// Nobody to switch to. Go on.
				if (theSegTarget != 0)
				{
					pbt::TapeWrite(pbt::TAPE_SCHED, isForced ? 0 : theSegLen);
					pbt::TapeWrite(pbt::TAPE_SCHED, 0);
					theHasSeg = false;
				}
				else if (pbt::IsReplay() || isForced)
				{
					// Same entry continues.
					if (isForced)
					{
						pbt::TapeWrite(pbt::TAPE_SCHED, 0);
						pbt::TapeWrite(pbt::TAPE_SCHED, 0);
						theHasSeg = false;
					}
				}
			}
			return;
		}
		if (!isForced)
			++thePreemptions;
		SwitchTo(self, next);
	}

	static inline void PointOf(Thread* self)
	{
		if (UNLIKELY(self == nullptr || !theIsActive))
			return;
		if (self->myQuiet != 0)
			return;
		PointImpl(self, false);
	}

	void Point() { PointOf(theSelf); }

	void Yield()
	{
		Thread* self = theSelf;
		if (self == nullptr || !theIsActive || self->myQuiet != 0)
			return;
		PointImpl(self, true);
	}

	static bool BlockImpl(Thread* self, const void* key, uint64_t deadline, const char* what,
		bool isCond, bool (*cond)(void*), void* condArg, bool isIdle)
	{
		if (!theIsActive)
		{
			static const char msg[] = "sim: blocking when not active\n";
			if (write(2, msg, sizeof(msg) - 1) < 0) {}
			abort();
		}
		if (deadline <= theNowNs && deadline != theInfinite)
		{
			// Don't lose the point.
			return false;
		}
		self->myStatus = TH_BLOCKED;
		self->myKey = key;
		self->myDeadline = deadline;
		self->myWhat = what;
		self->myIsTimedOut = false;
		self->myIsCondWait = isCond;
		self->myCond = cond;
		if (cond != nullptr)
			++theCondCount;
		if (deadline < theMinDeadline)
			theMinDeadline = deadline;
		self->myCondArg = condArg;
		self->myIsIdleWait = isIdle;
		if (isIdle)
			theHasIdle = true;
		Thread* next = ChooseNext(self, true, false);
		SwitchTo(self, next);
		return !self->myIsTimedOut;
	}

	bool BlockOn(const void* key, uint64_t deadlineNs, const char* what)
	{
		return BlockImpl(theSelf, key, deadlineNs, what, false, nullptr, nullptr, false);
	}

	void WakeAll(const void* key)
	{
		for (int i = 0; i < theThreadCount; ++i)
		{
			Thread* t = theThreads[i];
			if (t->myStatus == TH_BLOCKED && t->myKey == key)
			{
				t->myIsTimedOut = false;
				MakeRunnable(t);
			}
		}
	}

	bool WaitForImpl(bool (*cond)(void*), void* arg, uint64_t deadlineNs, const char* what)
	{
		Thread* self = theSelf;
		Point();
		{
			Quiet q;
			if (cond(arg))
				return true;
		}
		return BlockImpl(self, nullptr, deadlineNs, what, false, cond, arg, false);
	}

	void WaitIdle(uint64_t deadlineNs)
	{
		BlockImpl(theSelf, nullptr, theInfinite, "idle", false, nullptr,
			(void*)(uintptr_t)deadlineNs, true);
	}

	void SleepMs(uint64_t ms)
	{
		uint64_t d = theNowNs + ms * 1000000;
		Point();
		while (theNowNs < d)
			BlockImpl(theSelf, nullptr, d, "sleep", false, nullptr, nullptr, false);
	}

	//////////////////////////////////////////////////////////////////////////////////////
	// Sync objects by address.

	struct MutexState
	{
		Thread* myOwner;
		uint32_t myWaiters;
	};

	// A value of an atomic variable which is not the last one anymore, but can still be read
	// by the threads which don't know about the next ones.
	struct OldValue
	{
		uint64_t myValue;
		// Position in the modification order.
		uint64_t mySeq;
		// When it was overwritten.
		uint64_t myStep;
		uint64_t myNs;
		VC myVC;
	};

	static constexpr int theMaxOldValues = 4;

	struct WeakVar
	{
		OldValue myOld[theMaxOldValues];
		int myOldCount;
		uint8_t mySize;
		uint16_t myGen;
		uint64_t mySeq;
		// The newest positions observed by each thread, and the thread's clock then.
		uint64_t mySeen[theMaxThreads];
		uint64_t myPrevSeen[theMaxThreads];
		uint32_t mySeenClk[theMaxThreads];
	};

	struct SyncVar
	{
		uintptr_t myAddr;
		VC myVC;
		WeakVar* myWeak;
		Thread* myOwner;
		uint32_t myIsGuardBusy;
		// Cond waiters.
		Thread* myWaiters[theMaxThreads];
		int myWaiterCount;
	};

	static SyncVar** theSync = nullptr;
	static uint32_t theSyncCap = 0;
	static uint32_t theSyncCount = 0;

	static SyncVar* GetSync(const void* addr)
	{
		if (UNLIKELY(theSync == nullptr || theSyncCount * 2 >= theSyncCap))
		{
			uint32_t cap = theSyncCap == 0 ? 4096 : theSyncCap * 4;
			SyncVar** n = (SyncVar**)MetaAlloc(cap * sizeof(SyncVar*));
			for (uint32_t i = 0; i < theSyncCap; ++i)
			{
				if (theSync[i] == nullptr)
					continue;
				uint32_t p = (uint32_t)(pbt::Mix(theSync[i]->myAddr) & (cap - 1));
				while (n[p] != nullptr)
					p = (p + 1) & (cap - 1);
				n[p] = theSync[i];
			}
			theSync = n;
			theSyncCap = cap;
		}
		uint32_t p = (uint32_t)(pbt::Mix((uintptr_t)addr) & (theSyncCap - 1));
		while (theSync[p] != nullptr)
		{
			if (theSync[p]->myAddr == (uintptr_t)addr)
				return theSync[p];
			p = (p + 1) & (theSyncCap - 1);
		}
		SyncVar* s = (SyncVar*)MetaAlloc(sizeof(SyncVar));
		s->myAddr = (uintptr_t)addr;
		theSync[p] = s;
		++theSyncCount;
		return s;
	}

	static inline void Tick(Thread* t) { ++t->myVC.c[t->myId]; }

	void Acquire(const void* obj)
	{
		if (theSelf == nullptr)
			return;
		theSelf->myVC.Join(GetSync(obj)->myVC);
	}

	void Release(const void* obj)
	{
		if (theSelf == nullptr)
			return;
		GetSync(obj)->myVC.Join(theSelf->myVC);
		Tick(theSelf);
	}

	//////////////////////////////////////////////////////////////////////////////////////
	// Shadow memory.

	struct Acc
	{
		uint32_t myClk;
		uint32_t myPc;
		uint8_t myTid;
		uint8_t myMask;
		uint8_t myIsWrite;
		uint8_t myIsAtomic;
	};

	struct Cell
	{
		Acc myAcc[4];
		uint8_t myCount;
		// Is changed by plain writes.
		uint16_t myGen;
	};

	struct ShadowPage
	{
		uintptr_t myPage;
		Cell myCells[128]; // 1KB of memory.
	};

	static ShadowPage** theShadow = nullptr;
	static constexpr uint32_t theShadowCap = 1u << 20;
	static ShadowPage* theShadowLast = nullptr;

	static inline Cell* GetCell(uintptr_t addr)
	{
		uintptr_t page = addr >> 10;
		ShadowPage* sp = theShadowLast;
		if (LIKELY(sp != nullptr && sp->myPage == page))
			return &sp->myCells[(addr >> 3) & 127];
		if (UNLIKELY(theShadow == nullptr))
			theShadow = (ShadowPage**)MapRaw(theShadowCap * sizeof(ShadowPage*));
		uint32_t p = (uint32_t)((page * 0x9e3779b97f4a7c15ULL) >> 44) & (theShadowCap - 1);
		while (theShadow[p] != nullptr)
		{
			if (theShadow[p]->myPage == page)
			{
				theShadowLast = theShadow[p];
				return &theShadow[p]->myCells[(addr >> 3) & 127];
			}
			p = (p + 1) & (theShadowCap - 1);
		}
		sp = (ShadowPage*)MetaAlloc(sizeof(ShadowPage));
		sp->myPage = page;
		theShadow[p] = sp;
		theShadowLast = sp;
		return &sp->myCells[(addr >> 3) & 127];
	}

	static NOINLINE void ReportRace(Thread* self, uintptr_t addr, const Acc& prev, bool isWrite,
		bool isAtomic, uintptr_t pc)
	{
		char st[500];
		FormatStack(self, st, sizeof(st));
		pbt::Fail("data-race", "%s%s of %p by thread %d at %#lx (stack:%s) races with %s%s by "
			"thread %d at %#lx", isAtomic ? "atomic " : "", isWrite ? "write" : "read",
			(void*)addr, self->myId, (unsigned long)pc, st,
			prev.myIsAtomic ? "atomic " : "", prev.myIsWrite ? "write" : "read", prev.myTid,
			(unsigned long)prev.myPc);
	}

	static NOINLINE void ReportBadAccess(Thread* self, uintptr_t addr, size_t size, bool isWrite,
		uintptr_t pc, bool isFreed)
	{
		char st[500];
		FormatStack(self, st, sizeof(st));
		pbt::Fail(isFreed ? "use-after-free" : "out-of-bounds", "%s of %p size %zu by thread %d at "
			"%#lx (stack:%s)", isWrite ? "write" : "read", (void*)addr, size, self->myId,
			(unsigned long)pc, st);
	}

	static inline void CheckAddr(Thread* self, uintptr_t addr, size_t size, bool isWrite,
		uintptr_t pc)
	{
		if ((char*)addr < theArena || (char*)addr >= theArenaEnd)
		{
			if (UNLIKELY(addr < 4096))
				ReportBadAccess(self, addr, size, isWrite, pc, false);
			return;
		}
		size_t first = ((char*)addr - theArena) / 16;
		size_t last = ((char*)addr + size - 1 - theArena) / 16;
		for (size_t i = first; i <= last; ++i)
		{
			uint8_t s = theArenaState[i];
			if (LIKELY(s == 16))
				continue;
			if (s == 0xfd)
				ReportBadAccess(self, addr, size, isWrite, pc, true);
			uintptr_t end = i == last ? ((addr + size - 1) % 16) + 1 : 16;
			if (end > s)
				ReportBadAccess(self, addr, size, isWrite, pc, false);
		}
	}

	static inline void TrackGranule(Thread* self, uintptr_t addr, uint8_t mask, bool isWrite,
		bool isAtomic, uintptr_t pc)
	{
		Cell* c = GetCell(addr);
		uint32_t n = c->myCount;
		uint32_t keep = 0;
		const uint32_t* vc = self->myVC.c;
		for (uint32_t i = 0; i < n; ++i)
		{
			Acc& a = c->myAcc[i];
			if ((a.myMask & mask) != 0)
			{
				bool isOrdered = a.myTid == self->myId || a.myClk <= vc[a.myTid];
				if (!isOrdered && (a.myIsWrite || isWrite) && !(a.myIsAtomic && isAtomic))
					ReportRace(self, addr, a, isWrite, isAtomic, pc);
				// Is the old one covered by the new one?
				if (isOrdered && (a.myMask & ~mask) == 0 && (isWrite || !a.myIsWrite) &&
					(!isAtomic || a.myIsAtomic))
					continue;
			}
			if (keep != i)
				c->myAcc[keep] = a;
			++keep;
		}
		if (keep == 4)
		{
			// Drop the oldest.
			c->myAcc[0] = c->myAcc[1];
			c->myAcc[1] = c->myAcc[2];
			c->myAcc[2] = c->myAcc[3];
			keep = 3;
		}
		if (isWrite && !isAtomic)
			++c->myGen;
		Acc& a = c->myAcc[keep];
		a.myClk = self->myVC.c[self->myId];
		a.myPc = (uint32_t)pc;
		a.myTid = (uint8_t)self->myId;
		a.myMask = mask;
		a.myIsWrite = isWrite;
		a.myIsAtomic = isAtomic;
		c->myCount = (uint8_t)(keep + 1);
	}

	enum WeakMode
	{
		WEAK_UNKNOWN,
		WEAK_OFF,
		WEAK_RARE,
		WEAK_OFTEN,
	};

	static WeakMode theWeakMode = WEAK_UNKNOWN;
	static uint64_t theWeakLoads = 0;

	uint64_t WeakLoads() { return theWeakLoads; }

	static uintptr_t theIgnore[16][2];
	static int theIgnoreCount = 0;

	void IgnoreMemory(const void* p, size_t size)
	{
		if (theIgnoreCount == 16)
			abort();
		theIgnore[theIgnoreCount][0] = (uintptr_t)p;
		theIgnore[theIgnoreCount++][1] = (uintptr_t)p + size;
	}

	static inline void Track(const void* p, size_t size, bool isWrite, bool isAtomic,
		uintptr_t pc)
	{
		Thread* self = theSelf;
		if (UNLIKELY(self == nullptr || !theIsActive || self->myQuiet != 0))
			return;
		if (size == 0)
			return;
		uintptr_t addr = (uintptr_t)p;
		if (UNLIKELY((char*)p >= theOracleStart && (char*)p < theOracleEnd))
			return;
		for (int i = 0; i < theIgnoreCount; ++i)
		{
			if (addr >= theIgnore[i][0] && addr < theIgnore[i][1])
				return;
		}
		CheckAddr(self, addr, size, isWrite, pc);
		if (!theConfig.myTrackRaces || theThreadCount == 1)
			return;
		while (size > 0)
		{
			uint32_t off = addr & 7;
			uint32_t n = 8 - off;
			if (n > size)
				n = (uint32_t)size;
			TrackGranule(self, addr, (uint8_t)(((1u << n) - 1) << off), isWrite, isAtomic, pc);
			addr += n;
			size -= n;
		}
	}

	static void TrackFree(void* p, size_t size)
	{
		if (size > 2048)
			size = 2048;
		Track(p, size, true, false, (uintptr_t)__builtin_return_address(0));
	}

	void OnRead(const void* p, size_t size)
	{
		Track(p, size, false, false, (uintptr_t)__builtin_return_address(0));
	}

	void OnWrite(const void* p, size_t size)
	{
		Track(p, size, true, false, (uintptr_t)__builtin_return_address(0));
	}

	//////////////////////////////////////////////////////////////////////////////////////

	static Thread* NewThread()
	{
		if (theThreadCount == theMaxThreads)
		{
			fprintf(stderr, "sim: too many threads\n");
			abort();
		}
		Thread* t = (Thread*)MetaAlloc(sizeof(Thread));
		t->myId = theThreadCount;
		t->myStatus = TH_RUNNABLE;
		t->myDeadline = theInfinite;
		t->myVC.c[t->myId] = 1;
		if (!pbt::IsReplay())
			t->myPriority = (int64_t)(pbt::RawRandom(pbt::TAPE_SCHED) >> 2);
		theThreads[theThreadCount++] = t;
		return t;
	}

	static void OnTracedAlloc()
	{
		char st[1000];
		FormatStack(theSelf, st, sizeof(st));
		fprintf(stderr, "the block is allocated at%s\n", st);
	}

	void Begin()
	{
		static const char* allocTrace = getenv("SIM_ALLOC");
		if (allocTrace != nullptr)
			theAllocTrace = theAllocCount + atoll(allocTrace);
		static const char* trace = getenv("SIM_TRACE");
		theTrace = trace != nullptr;
		theConfig = Config();
		theWeakMode = WEAK_UNKNOWN;
		theWeakLoads = 0;
		theDeadlockHandler = nullptr;
		theSteps = theSwitches = thePreemptions = 0;
		theSegLen = theSpinLen = 0;
		theHasSeg = false;
		Thread* t = NewThread();
		theSelf = t;
		t->myReal = pthread_self();
		if (!pbt::IsReplay())
		{
			uint64_t r = pbt::RawRandom(pbt::TAPE_SCHED);
			uint32_t kind = r % 10;
			theLogKeep = 0;
			thePctCount = 0;
			if (kind < 6)
			{
				theStrategy = STRATEGY_RANDOM;
				static const double probs[] = {0.5, 0.25, 0.1, 0.04, 0.01, 0.002};
				theLogKeep = __builtin_log1p(-probs[(r >> 8) % 6]);
			}
			else
			{
				theStrategy = STRATEGY_PCT;
				thePctCount = (int)((r >> 8) % 7);
				// The length of the case is not known yet.
				uint64_t len = 50ULL << ((r >> 16) % 7);
				for (int i = 0; i < thePctCount; ++i)
					thePctPoints[i] = 1 + pbt::RawRandom(pbt::TAPE_SCHED) % len;
				t->myPriority = (int64_t)(pbt::RawRandom(pbt::TAPE_SCHED) >> 2);
			}
			static const uint32_t jumps[] = {0, 0, 10, 60, 250};
			theJumpRate = jumps[(r >> 24) % 5];
		}
		theCaseStart = theArenaPos;
		theIsActive = true;
	}

	//////////////////////////////////////////////////////////////////////////////////////
	// Search of the memory nobody can reach anymore.

	struct Block
	{
		char* myPos;
		uint64_t mySize;
		bool myIsNew;
		bool myIsSeen;
		uint32_t myNo;
	};

	struct LeakSearch
	{
		Block* myBlocks;
		size_t myCount;
		size_t* myQueue;
		size_t myQueueSize;
	};

	static void LeakVisit(LeakSearch& ls, uintptr_t v)
	{
		if ((char*)v < theArena || (char*)v >= theArenaPos)
			return;
		size_t lo = 0, hi = ls.myCount;
		while (lo < hi)
		{
			size_t mid = (lo + hi) / 2;
			if (ls.myBlocks[mid].myPos <= (char*)v)
				lo = mid + 1;
			else
				hi = mid;
		}
		if (lo == 0)
			return;
		Block& b = ls.myBlocks[lo - 1];
		if (b.myIsSeen || (char*)v >= b.myPos + (b.mySize == 0 ? 1 : b.mySize))
			return;
		b.myIsSeen = true;
		ls.myQueue[ls.myQueueSize++] = lo - 1;
	}

	static NOINLINE __attribute__((no_sanitize("all"))) void LeakScan(LeakSearch& ls, const void* from,
		const void* to)
	{
		uintptr_t* p = (uintptr_t*)(((uintptr_t)from + 7) & ~7ULL);
		uintptr_t* end = (uintptr_t*)((uintptr_t)to & ~7ULL);
		for (; p < end; ++p)
			LeakVisit(ls, *p);
	}

	static void LeakScanMapping(LeakSearch& ls, const void* addr, const void* from)
	{
		FILE* f = fopen("/proc/self/maps", "r");
		char line[1000];
		while (f != nullptr && fgets(line, sizeof(line), f) != nullptr)
		{
			unsigned long long a, b;
			if (sscanf(line, "%llx-%llx", &a, &b) != 2)
				continue;
			if ((uintptr_t)addr >= a && (uintptr_t)addr < b)
				LeakScan(ls, from != nullptr ? from : (void*)a, (void*)b);
		}
		if (f != nullptr)
			fclose(f);
	}

	static int LeakScanModule(dl_phdr_info* info, size_t, void* arg)
	{
		for (int i = 0; i < info->dlpi_phnum; ++i)
		{
			const ElfW(Phdr)& h = info->dlpi_phdr[i];
			if (h.p_type != PT_LOAD || (h.p_flags & PF_W) == 0)
				continue;
			char* from = (char*)info->dlpi_addr + h.p_vaddr;
			LeakScan(*(LeakSearch*)arg, from, from + h.p_memsz);
		}
		return 0;
	}

	static NOINLINE void CheckLeaks()
	{
		Thread* self = theSelf;
		++self->myQuiet;
		LeakSearch ls;
		size_t cap = 0;
		for (int pass = 0; pass < 2; ++pass)
		{
			size_t count = 0;
			uint32_t no = 0;
			for (char* pos = theArena; pos < theArenaPos;)
			{
				BlockHeader* h = (BlockHeader*)pos;
				if (h->myMagic != theMagicLive && h->myMagic != theMagicFree)
				{
					pos += 16;
					continue;
				}
				char* p = pos + sizeof(BlockHeader);
				uint64_t size = h->mySize & theSizeMask;
				if ((h->mySize & theKindReusable) != 0)
				{
					int cls = 0;
					while ((16ULL << cls) < size)
						++cls;
					pos = p + (16ULL << cls);
				}
				else
				{
					pos = p + ((size + 15) & ~15ULL);
				}
				bool isNew = (h->mySize & theKindNew) != 0;
				if (p > theCaseStart && isNew)
					++no;
				if (h->myMagic != theMagicLive)
					continue;
				if (pass == 1)
				{
					Block& b = ls.myBlocks[count];
					b.myPos = p;
					b.mySize = size;
					b.myIsNew = isNew;
					b.myIsSeen = false;
					b.myNo = no;
				}
				++count;
			}
			if (pass == 0)
			{
				cap = count + 1;
				ls.myBlocks = (Block*)MapRaw(cap * sizeof(Block));
				ls.myQueue = (size_t*)MapRaw(cap * sizeof(size_t));
			}
			ls.myCount = count;
		}
		ls.myQueueSize = 0;
		dl_iterate_phdr(LeakScanModule, &ls);
		LeakScan(ls, theOracleStart, theOraclePos);
		__builtin_unwind_init();
		char* sp = (char*)__builtin_frame_address(0) - 256;
		LeakScanMapping(ls, sp, sp);
		LeakScanMapping(ls, __builtin_thread_pointer(), nullptr);
		for (int i = 0; i < theThreadCount; ++i)
		{
			Thread* t = theThreads[i];
			LeakScan(ls, &t->myArg, &t->myArg + 1);
			LeakScan(ls, t->myDtors, t->myDtors + t->myDtorCount);
			if (t == self || t->myStatus == TH_DONE || t->myStackPos == nullptr)
				continue;
			LeakScanMapping(ls, t->myStackPos, t->myStackPos);
		}
		size_t done = 0;
		while (done < ls.myQueueSize)
		{
			Block& b = ls.myBlocks[ls.myQueue[done++]];
			LeakScan(ls, b.myPos, b.myPos + b.mySize);
		}
		size_t leaked = 0;
		Block* first = nullptr;
		for (size_t i = 0; i < ls.myCount; ++i)
		{
			Block& b = ls.myBlocks[i];
			if (b.myIsSeen || !b.myIsNew || b.myPos <= theCaseStart)
				continue;
			++leaked;
			if (first == nullptr)
				first = &b;
		}
		if (leaked != 0)
		{
			pbt::Fail("leak", "%zu blocks are not reachable anymore, but not freed; the first one is number "
				"%u, size %llu", leaked, first->myNo, (unsigned long long)first->mySize);
		}
		munmap(ls.myBlocks, cap * sizeof(Block));
		munmap(ls.myQueue, cap * sizeof(size_t));
		--self->myQuiet;
	}

	void End()
	{
		if (pbt::IsLeakChecked())
			CheckLeaks();
		if (theWeakLoads > 0)
			pbt::Label("old values were loaded");
		theIsEnded = true;
	}

	static void* ThreadMain(void* arg)
	{
		Thread* t = (Thread*)arg;
		theSelf = t;
		FutexWait(&t->myGo);
		t->myRet = t->myFunc(t->myArg);
		while (t->myDtorCount > 0)
		{
			TlsDtor d = t->myDtors[--t->myDtorCount];
			d.myFunc(d.myArg);
		}
		PointOf(t);
		Release(t);
		t->myStatus = TH_DONE;
		WakeAll(t);
		Thread* next = ChooseNext(t, true, false);
		SwitchTo(t, next);
		return nullptr;
	}

	static bool IsExeCaller(void* ret)
	{
		return (char*)ret >= &__executable_start && (char*)ret < &etext;
	}
}

using namespace sim;

//////////////////////////////////////////////////////////////////////////////////////////
// Memory interposition.

void* operator new(size_t n)
{
	void* p = ArenaAlloc(n, 16, true);
	if (p == nullptr)
		throw std::bad_alloc();
	return p;
}
void* operator new[](size_t n)
{
	void* p = ArenaAlloc(n, 16, true);
	if (p == nullptr)
		throw std::bad_alloc();
	return p;
}
void* operator new(size_t n, const std::nothrow_t&) noexcept { return ArenaAlloc(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return ArenaAlloc(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return ArenaAlloc(n, (size_t)a, true); }
void* operator new[](size_t n, std::align_val_t a) { return ArenaAlloc(n, (size_t)a, true); }
void operator delete(void* p) noexcept { ArenaFree(p, true); }
void operator delete[](void* p) noexcept { ArenaFree(p, true); }
void operator delete(void* p, size_t) noexcept { ArenaFree(p, true); }
void operator delete[](void* p, size_t) noexcept { ArenaFree(p, true); }
void operator delete(void* p, std::align_val_t) noexcept { ArenaFree(p, true); }
void operator delete[](void* p, std::align_val_t) noexcept { ArenaFree(p, true); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { ArenaFree(p, true); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { ArenaFree(p, true); }
void operator delete(void* p, const std::nothrow_t&) noexcept { ArenaFree(p, true); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { ArenaFree(p, true); }

extern "C" {

void* malloc(size_t n) { return ArenaAlloc(n, 16, false); }
void free(void* p)
{
	// Glibc threads free their things when nobody expects that.
	ArenaFree(p, false);
}
void* calloc(size_t a, size_t b)
{
	size_t n;
	if (__builtin_mul_overflow(a, b, &n))
		return nullptr;
	// Arena memory is zero initially.
	return ArenaAlloc(n, 16, false);
}
void* realloc(void* p, size_t n)
{
	void* q = ArenaAlloc(n, 16, false);
	if (p != nullptr && q != nullptr)
	{
		size_t old = SizeOf(p);
		memcpy(q, p, old < n ? old : n);
		ArenaFree(p, false);
	}
	return q;
}
void* memalign(size_t a, size_t n) { return ArenaAlloc(n, a, false); }
void* aligned_alloc(size_t a, size_t n) { return ArenaAlloc(n, a, false); }
int posix_memalign(void** out, size_t a, size_t n)
{
	*out = ArenaAlloc(n, a, false);
	return *out == nullptr ? ENOMEM : 0;
}
void* valloc(size_t n) { return ArenaAlloc(n, 4096, false); }
size_t malloc_usable_size(void* p) { return p == nullptr ? 0 : SizeOf(p); }

//////////////////////////////////////////////////////////////////////////////////////////
// Threads.

int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*func)(void*), void* arg)
{
	using Fn = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
	static Fn real = (Fn)dlsym(RTLD_NEXT, "pthread_create");
	if (!theIsActive || theSelf == nullptr)
		return real(out, attr, func, arg);
	Thread* self = theSelf;
	Thread* t = NewThread();
	t->myFunc = func;
	t->myArg = arg;
	t->myVC.Join(self->myVC);
	Tick(self);
	pthread_attr_t a;
	pthread_attr_init(&a);
	size_t size = 1 << 20;
	void* stack = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS |
		MAP_NORESERVE | MAP_STACK, -1, 0);
	pthread_attr_setstack(&a, stack, size);
	int rc = real(&t->myReal, &a, ThreadMain, t);
	pthread_attr_destroy(&a);
	if (rc != 0)
	{
		fprintf(stderr, "sim: pthread_create failed %d\n", rc);
		abort();
	}
	*out = t->myReal;
	PointOf(self);
	return 0;
}

static Thread* FindThread(pthread_t p)
{
	for (int i = 0; i < theThreadCount; ++i)
	{
		if (pthread_equal(theThreads[i]->myReal, p))
			return theThreads[i];
	}
	return nullptr;
}

int pthread_join(pthread_t p, void** ret)
{
	if (!theIsActive)
		return 0;
	Thread* self = theSelf;
	PointOf(self);
	Thread* t = FindThread(p);
	if (t == nullptr)
		return ESRCH;
	while (t->myStatus != TH_DONE)
		BlockImpl(self, t, theInfinite, "join", false, nullptr, nullptr, false);
	Acquire(t);
	if (ret != nullptr)
		*ret = t->myRet;
	return 0;
}

int pthread_detach(pthread_t)
{
	return 0;
}

int __cxa_thread_atexit(void (*func)(void*), void* arg, void*)
{
	Thread* t = theSelf;
	if (t == nullptr)
		return 0;
	if (t->myDtorCount == 64)
		abort();
	t->myDtors[t->myDtorCount++] = {func, arg};
	return 0;
}

//////////////////////////////////////////////////////////////////////////////////////////
// Mutex.

int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*)
{
	memset(m, 0, sizeof(*m));
	if (theIsActive)
		GetSync(m)->myOwner = nullptr;
	return 0;
}

int pthread_mutex_destroy(pthread_mutex_t* m)
{
	if (!theIsActive || theIsEnded)
		return 0;
	SyncVar* s = GetSync(m);
	if (s->myOwner != nullptr)
		pbt::Fail("mutex-destroy-locked", "destruction of a locked mutex %p", (void*)m);
	return 0;
}

static void MutexLockImpl(Thread* self, pthread_mutex_t* m)
{
	SyncVar* s = GetSync(m);
	while (s->myOwner != nullptr)
	{
		if (s->myOwner == self)
			pbt::Fail("self-deadlock", "recursive lock of mutex %p", (void*)m);
		BlockImpl(self, s, theInfinite, "mutex", false, nullptr, nullptr, false);
	}
	s->myOwner = self;
	self->myVC.Join(s->myVC);
}

static void MutexUnlockImpl(Thread* self, pthread_mutex_t* m)
{
	SyncVar* s = GetSync(m);
	if (s->myOwner != self)
		pbt::Fail("mutex-bad-unlock", "unlock of a mutex %p not owned by the thread", (void*)m);
	s->myOwner = nullptr;
	s->myVC = self->myVC;
	Tick(self);
	WakeAll(s);
}

int pthread_mutex_lock(pthread_mutex_t* m)
{
	Thread* self = theSelf;
	if (!theIsActive || self == nullptr)
		return 0;
	if (IsExeCaller(__builtin_return_address(0)))
	{
		if (self->myQuiet == 0)
			CheckAddr(self, (uintptr_t)m, sizeof(*m), true,
				(uintptr_t)__builtin_return_address(0));
		PointOf(self);
	}
	MutexLockImpl(self, m);
	return 0;
}

int pthread_mutex_trylock(pthread_mutex_t* m)
{
	Thread* self = theSelf;
	if (!theIsActive || self == nullptr)
		return 0;
	if (IsExeCaller(__builtin_return_address(0)))
		PointOf(self);
	SyncVar* s = GetSync(m);
	if (s->myOwner != nullptr)
		return EBUSY;
	s->myOwner = self;
	self->myVC.Join(s->myVC);
	return 0;
}

int pthread_mutex_unlock(pthread_mutex_t* m)
{
	Thread* self = theSelf;
	if (!theIsActive || self == nullptr)
		return 0;
	bool isExe = IsExeCaller(__builtin_return_address(0));
	if (isExe && self->myQuiet == 0)
		CheckAddr(self, (uintptr_t)m, sizeof(*m), true, (uintptr_t)__builtin_return_address(0));
	MutexUnlockImpl(self, m);
	// After, to let the others notice what was done before the thread goes on.
	if (isExe)
		PointOf(self);
	return 0;
}

//////////////////////////////////////////////////////////////////////////////////////////
// Condition variables.

int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*)
{
	memset(c, 0, sizeof(*c));
	return 0;
}

int pthread_cond_destroy(pthread_cond_t* c)
{
	if (!theIsActive || theIsEnded)
		return 0;
	SyncVar* s = GetSync(c);
	if (s->myWaiterCount != 0)
		pbt::Fail("cond-destroy-waited", "destruction of a condition variable with waiters");
	return 0;
}

static void RemoveWaiter(SyncVar* s, Thread* t)
{
	for (int i = 0; i < s->myWaiterCount; ++i)
	{
		if (s->myWaiters[i] == t)
		{
			memmove(&s->myWaiters[i], &s->myWaiters[i + 1],
				(s->myWaiterCount - i - 1) * sizeof(Thread*));
			--s->myWaiterCount;
			return;
		}
	}
}

static int CondWaitImpl(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline)
{
	Thread* self = theSelf;
	if (!theIsActive || self == nullptr)
		abort();
	PointOf(self);
	SyncVar* s = GetSync(c);
	MutexUnlockImpl(self, m);
	int rc = 0;
	if (deadline != theInfinite && deadline <= theNowNs)
	{
		PointOf(self);
		rc = ETIMEDOUT;
	}
	else
	{
		s->myWaiters[s->myWaiterCount++] = self;
		bool ok = BlockImpl(self, nullptr, deadline, "cond", true, nullptr, nullptr, false);
		RemoveWaiter(s, self);
		if (!ok)
			rc = ETIMEDOUT;
	}
	MutexLockImpl(self, m);
	return rc;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	return CondWaitImpl(c, m, theInfinite);
}

static uint64_t ToNs(const timespec* ts)
{
	if (ts->tv_sec < 0)
		return 0;
	if ((uint64_t)ts->tv_sec > 10000000000ULL)
		return theInfinite - 1;
	return (uint64_t)ts->tv_sec * 1000000000ULL + ts->tv_nsec;
}

static constexpr uint64_t theRealtimeShift = 1700000000ULL * 1000000000ULL;

int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts)
{
	uint64_t t = ToNs(ts);
	return CondWaitImpl(c, m, t > theRealtimeShift ? t - theRealtimeShift : 0);
}

int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clock,
	const timespec* ts)
{
	if (clock == CLOCK_REALTIME)
		return pthread_cond_timedwait(c, m, ts);
	return CondWaitImpl(c, m, ToNs(ts));
}

int pthread_cond_signal(pthread_cond_t* c)
{
	Thread* self = theSelf;
	if (!theIsActive || self == nullptr)
		return 0;
	if (self->myQuiet == 0)
		CheckAddr(self, (uintptr_t)c, sizeof(*c), true, (uintptr_t)__builtin_return_address(0));
	PointOf(self);
	if (self->myQuiet == 0)
		CheckAddr(self, (uintptr_t)c, sizeof(*c), true, (uintptr_t)__builtin_return_address(0));
	SyncVar* s = GetSync(c);
	// The ones which already were chosen to wake up are not waiters anymore.
	Thread* cand[theMaxThreads];
	int n = 0;
	for (int i = 0; i < s->myWaiterCount; ++i)
	{
		if (s->myWaiters[i]->myStatus == TH_BLOCKED)
			cand[n++] = s->myWaiters[i];
	}
	if (n > 0)
	{
		Thread* t = cand[n > 1 ? pbt::Draw(pbt::TAPE_ENV, n) : 0];
		RemoveWaiter(s, t);
		t->myIsTimedOut = false;
		MakeRunnable(t);
	}
	return 0;
}

int pthread_cond_broadcast(pthread_cond_t* c)
{
	Thread* self = theSelf;
	if (!theIsActive || self == nullptr)
		return 0;
	if (self->myQuiet == 0)
		CheckAddr(self, (uintptr_t)c, sizeof(*c), true, (uintptr_t)__builtin_return_address(0));
	PointOf(self);
	if (self->myQuiet == 0)
		CheckAddr(self, (uintptr_t)c, sizeof(*c), true, (uintptr_t)__builtin_return_address(0));
	SyncVar* s = GetSync(c);
	for (int i = 0; i < s->myWaiterCount; ++i)
	{
		Thread* t = s->myWaiters[i];
		if (t->myStatus != TH_BLOCKED)
			continue;
		t->myIsTimedOut = false;
		MakeRunnable(t);
	}
	s->myWaiterCount = 0;
	return 0;
}

//////////////////////////////////////////////////////////////////////////////////////////
// Time.

int sched_yield()
{
	if (!theIsActive)
		return (int)syscall(SYS_sched_yield);
	Yield();
	return 0;
}

static void SleepNs(uint64_t ns)
{
	Thread* self = theSelf;
	uint64_t d = theNowNs + ns;
	PointOf(self);
	if (self->myQuiet != 0)
		return;
	if (ns == 0)
	{
		Yield();
		return;
	}
	while (theNowNs < d)
		BlockImpl(self, nullptr, d, "sleep", false, nullptr, nullptr, false);
}

int nanosleep(const timespec* ts, timespec*)
{
	if (!theIsActive)
		return (int)syscall(SYS_nanosleep, ts, nullptr);
	SleepNs(ToNs(ts));
	return 0;
}

int clock_gettime(clockid_t clock, timespec* ts)
{
	if (!theIsActive || theSelf == nullptr)
		return (int)syscall(SYS_clock_gettime, clock, ts);
	uint64_t ns = theNowNs;
	if (clock == CLOCK_REALTIME)
		ns += theRealtimeShift;
	ts->tv_sec = ns / 1000000000ULL;
	ts->tv_nsec = ns % 1000000000ULL;
	return 0;
}

int clock_nanosleep(clockid_t clock, int flags, const timespec* ts, timespec*)
{
	if (!theIsActive)
		return (int)syscall(SYS_clock_nanosleep, clock, flags, ts, nullptr);
	uint64_t ns = ToNs(ts);
	if ((flags & TIMER_ABSTIME) != 0)
		ns = ns > theNowNs ? ns - theNowNs : 0;
	SleepNs(ns);
	return 0;
}

int usleep(useconds_t us)
{
	SleepNs((uint64_t)us * 1000);
	return 0;
}

unsigned sleep(unsigned s)
{
	SleepNs((uint64_t)s * 1000000000ULL);
	return 0;
}

//////////////////////////////////////////////////////////////////////////////////////////
// Static initialization.

int __cxa_guard_acquire(uint64_t* g)
{
	Thread* self = theSelf;
	if (!theIsActive || self == nullptr)
		return *(volatile uint8_t*)g == 0;
	PointOf(self);
	while (true)
	{
		if (*(volatile uint8_t*)g != 0)
		{
			Acquire(g);
			return 0;
		}
		SyncVar* s = GetSync(g);
		if (!s->myIsGuardBusy)
		{
			s->myIsGuardBusy = 1;
			return 1;
		}
		BlockImpl(self, g, theInfinite, "static guard", false, nullptr, nullptr, false);
	}
}

void __cxa_guard_release(uint64_t* g)
{
	*(volatile uint8_t*)g = 1;
	if (!theIsActive || theSelf == nullptr)
		return;
	Release(g);
	GetSync(g)->myIsGuardBusy = 0;
	WakeAll(g);
}

void __cxa_guard_abort(uint64_t* g)
{
	if (!theIsActive || theSelf == nullptr)
		return;
	GetSync(g)->myIsGuardBusy = 0;
	WakeAll(g);
}

//////////////////////////////////////////////////////////////////////////////////////////
// Instrumentation.

#define PC ((uintptr_t)__builtin_return_address(0))

void __tsan_init() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

void __tsan_func_entry(void* pc)
{
	Thread* t = theSelf;
	if (UNLIKELY(t == nullptr))
		return;
	if (t->myStackDepth < 512)
		t->myStack[t->myStackDepth] = (uintptr_t)pc;
	++t->myStackDepth;
}

void __tsan_func_exit()
{
	Thread* t = theSelf;
	if (UNLIKELY(t == nullptr || t->myStackDepth == 0))
		return;
	--t->myStackDepth;
}

#define RW(n)																			\
	void __tsan_read##n(void* p) { Track(p, n, false, false, PC); }						\
	void __tsan_write##n(void* p) { Track(p, n, true, false, PC); }						\
	void __tsan_unaligned_read##n(void* p) { Track(p, n, false, false, PC); }			\
	void __tsan_unaligned_write##n(void* p) { Track(p, n, true, false, PC); }			\
	void __tsan_volatile_read##n(void* p) { Track(p, n, false, false, PC); }			\
	void __tsan_volatile_write##n(void* p) { Track(p, n, true, false, PC); }			\
	void __tsan_unaligned_volatile_read##n(void* p) { Track(p, n, false, false, PC); }	\
	void __tsan_unaligned_volatile_write##n(void* p) { Track(p, n, true, false, PC); }	\
	void __tsan_read_write##n(void* p) { Track(p, n, true, false, PC); }				\
	void __tsan_unaligned_read_write##n(void* p) { Track(p, n, true, false, PC); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)

void __tsan_read_range(void* p, size_t n) { Track(p, n, false, false, PC); }
void __tsan_write_range(void* p, size_t n) { Track(p, n, true, false, PC); }

void __tsan_vptr_update(void** p, void* v)
{
	if (*p != v)
		Track(p, 8, true, false, PC);
}
void __tsan_vptr_read(void** p) { Track(p, 8, false, false, PC); }

void* __tsan_memcpy(void* d, const void* s, size_t n)
{
	Track(s, n, false, false, PC);
	Track(d, n, true, false, PC);
	return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
	Track(s, n, false, false, PC);
	Track(d, n, true, false, PC);
	return memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, size_t n)
{
	Track(d, n, true, false, PC);
	return memset(d, v, n);
}

} // extern "C"

static inline bool IsAcq(int mo)
{
	return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST ||
		mo == __ATOMIC_CONSUME;
}

static inline bool IsRel(int mo)
{
	return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}

static inline bool AtomicBegin(const void* p, size_t size, bool isWrite, uintptr_t pc)
{
	Thread* self = theSelf;
	if (UNLIKELY(self == nullptr || !theIsActive))
		return false;
	if (self->myQuiet != 0)
		return true;
	// Before the point too, as a sanity check of the address.
	PointImpl(self, false);
	Track(p, size, isWrite, true, pc);
	return true;
}

//////////////////////////////////////////////////////////////////////////////////////////
// Weak memory. A load not being a part of a read-modify-write can return an older value if
// no newer one is known to the thread by happens-before or from its own accesses.

// Old values become invisible after that many points, and that much time.
static constexpr uint64_t theWeakSteps = 150;
static constexpr uint64_t theWeakNs = 50000;

static bool IsWeakAddr(const void* p)
{
	if (!theConfig.myIsWeak || !theConfig.myTrackRaces || theThreadCount == 1)
		return false;
	if ((char*)p >= theOracleStart && (char*)p < theOracleEnd)
		return false;
	for (int i = 0; i < theIgnoreCount; ++i)
	{
		if ((uintptr_t)p >= theIgnore[i][0] && (uintptr_t)p < theIgnore[i][1])
			return false;
	}
	return true;
}

static inline void WeakSee(Thread* self, WeakVar* w, uint64_t seq)
{
	int id = self->myId;
	if (w->mySeen[id] == seq)
		return;
	w->myPrevSeen[id] = w->mySeen[id];
	w->mySeen[id] = seq;
	w->mySeenClk[id] = self->myVC.c[id];
}

// Before the clocks of the variable are changed.
static void WeakStore(Thread* self, SyncVar* s, const void* p, size_t size, uint64_t prev)
{
	WeakVar* w = s->myWeak;
	if (self->myQuiet != 0 || !IsWeakAddr(p))
	{
		if (w != nullptr)
		{
			w->myOldCount = 0;
			++w->mySeq;
		}
		return;
	}
	if (w == nullptr)
		w = s->myWeak = (WeakVar*)MetaAlloc(sizeof(WeakVar));
	uint16_t gen = GetCell((uintptr_t)p)->myGen;
	if (w->myGen != gen || w->mySize != size)
	{
		w->myOldCount = 0;
		w->myGen = gen;
		w->mySize = (uint8_t)size;
	}
	if (w->myOldCount == theMaxOldValues)
	{
		memmove(&w->myOld[0], &w->myOld[1], sizeof(w->myOld[0]) * (theMaxOldValues - 1));
		--w->myOldCount;
	}
	OldValue& o = w->myOld[w->myOldCount++];
	o.myValue = prev;
	o.mySeq = w->mySeq;
	o.myStep = theSteps;
	o.myNs = theNowNs;
	o.myVC = s->myVC;
	++w->mySeq;
	WeakSee(self, w, w->mySeq);
}

static OldValue* WeakLoad(Thread* self, SyncVar* s, const void* p, size_t size, int mo)
{
	WeakVar* w = s->myWeak;
	if (w == nullptr || self->myQuiet != 0)
		return nullptr;
	if (w->myOldCount == 0 || mo == __ATOMIC_SEQ_CST || theWeakMode == WEAK_OFF ||
		theSteps >= theConfig.myFairAfter || w->mySize != size ||
		w->myGen != GetCell((uintptr_t)p)->myGen || !IsWeakAddr(p))
	{
		WeakSee(self, w, w->mySeq);
		return nullptr;
	}
	uint64_t bound = w->mySeen[self->myId];
	for (int i = 0; i < theThreadCount; ++i)
	{
		// When not known what was seen in the end, then assume the most.
		uint64_t b = self->myVC.c[i] >= w->mySeenClk[i] ? w->mySeen[i] : w->myPrevSeen[i];
		if (b > bound)
			bound = b;
	}
	int first = 0;
	while (first < w->myOldCount)
	{
		OldValue& o = w->myOld[first];
		if (o.mySeq >= bound && o.myStep + theWeakSteps >= theSteps &&
			o.myNs + theWeakNs >= theNowNs && o.myStep >= self->myFenceStep)
			break;
		++first;
	}
	int count = w->myOldCount - first;
	if (count > 0 && theWeakMode == WEAK_UNKNOWN)
	{
		switch (pbt::Draw(pbt::TAPE_ENV, 4))
		{
		case 0:
		case 1: theWeakMode = WEAK_OFF; break;
		case 2: theWeakMode = WEAK_RARE; break;
		default: theWeakMode = WEAK_OFTEN; break;
		}
		if (theWeakMode == WEAK_OFF)
			count = 0;
	}
	if (count == 0 || pbt::Draw(pbt::TAPE_ENV, theWeakMode == WEAK_RARE ? 10 : 2) != 1)
	{
		WeakSee(self, w, w->mySeq);
		return nullptr;
	}
	OldValue* o = &w->myOld[w->myOldCount - 1 - (count > 1 ? pbt::Draw(pbt::TAPE_ENV, count) : 0)];
	WeakSee(self, w, o->mySeq);
	++theWeakLoads;
	return o;
}

static inline uint64_t OnLoad(const void* p, size_t size, int mo, uint64_t value)
{
	Thread* self = theSelf;
	SyncVar* s = GetSync(p);
	const VC* vc = &s->myVC;
	OldValue* old = WeakLoad(self, s, p, size, mo);
	if (UNLIKELY(old != nullptr))
	{
		value = old->myValue;
		vc = &old->myVC;
	}
	if (IsAcq(mo))
		self->myVC.Join(*vc);
	else
		self->myAcqFence.Join(*vc);
	return value;
}

// A failed conditional exchange is a load of the last value.
static inline void OnCasFail(const void* p, int mo)
{
	Thread* self = theSelf;
	SyncVar* s = GetSync(p);
	if (s->myWeak != nullptr && self->myQuiet == 0)
		WeakSee(self, s->myWeak, s->myWeak->mySeq);
	if (IsAcq(mo))
		self->myVC.Join(s->myVC);
	else
		self->myAcqFence.Join(s->myVC);
}

static inline void OnStore(const void* p, size_t size, int mo, uint64_t prev)
{
	Thread* self = theSelf;
	SyncVar* s = GetSync(p);
	WeakStore(self, s, p, size, prev);
	if (IsRel(mo))
	{
		s->myVC = self->myVC;
		Tick(self);
	}
	else if (self->myHasRelFence)
		s->myVC = self->myRelFence;
	else
		memset(&s->myVC, 0, sizeof(s->myVC));
}

static inline void OnRmw(const void* p, size_t size, int mo, uint64_t prev)
{
	Thread* self = theSelf;
	SyncVar* s = GetSync(p);
	WeakStore(self, s, p, size, prev);
	if (IsAcq(mo))
		self->myVC.Join(s->myVC);
	else
		self->myAcqFence.Join(s->myVC);
	if (IsRel(mo))
	{
		s->myVC.Join(self->myVC);
		Tick(self);
	}
	else if (self->myHasRelFence)
		s->myVC.Join(self->myRelFence);
}

extern "C" {

#define ATOMICS(bits, T)																	\
	T __tsan_atomic##bits##_load(const volatile T* p, int mo)								\
	{																						\
		bool on = AtomicBegin((const void*)p, bits / 8, false, PC);							\
		T v = *p;																			\
		if (on) v = (T)OnLoad((const void*)p, bits / 8, mo, v);													\
		return v;																			\
	}																						\
	void __tsan_atomic##bits##_store(volatile T* p, T v, int mo)							\
	{																						\
		bool on = AtomicBegin((const void*)p, bits / 8, true, PC);							\
		T prev = *p; *p = v;																\
		if (on) OnStore((const void*)p, bits / 8, mo, prev);												\
	}																						\
	T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo)							\
	{																						\
		bool on = AtomicBegin((const void*)p, bits / 8, true, PC);							\
		T old = *p; *p = v;																	\
		if (on) OnRmw((const void*)p, bits / 8, mo, old);													\
		return old;																			\
	}																						\
	T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo)							\
	{																						\
		bool on = AtomicBegin((const void*)p, bits / 8, true, PC);							\
		T old = *p; *p = old + v;															\
		if (on) OnRmw((const void*)p, bits / 8, mo, old);													\
		return old;																			\
	}																						\
	T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo)							\
	{																						\
		bool on = AtomicBegin((const void*)p, bits / 8, true, PC);							\
		T old = *p; *p = old - v;															\
		if (on) OnRmw((const void*)p, bits / 8, mo, old);													\
		return old;																			\
	}																						\
	T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo)							\
	{																						\
		bool on = AtomicBegin((const void*)p, bits / 8, true, PC);							\
		T old = *p; *p = old & v;															\
		if (on) OnRmw((const void*)p, bits / 8, mo, old);													\
		return old;																			\
	}																						\
	T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo)							\
	{																						\
		bool on = AtomicBegin((const void*)p, bits / 8, true, PC);							\
		T old = *p; *p = old | v;															\
		if (on) OnRmw((const void*)p, bits / 8, mo, old);													\
		return old;																			\
	}																						\
	T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo)							\
	{																						\
		bool on = AtomicBegin((const void*)p, bits / 8, true, PC);							\
		T old = *p; *p = old ^ v;															\
		if (on) OnRmw((const void*)p, bits / 8, mo, old);													\
		return old;																			\
	}																						\
	T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo)							\
	{																						\
		bool on = AtomicBegin((const void*)p, bits / 8, true, PC);							\
		T old = *p; *p = ~(old & v);														\
		if (on) OnRmw((const void*)p, bits / 8, mo, old);													\
		return old;																			\
	}																						\
	T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo)	\
	{																						\
		bool on = AtomicBegin((const void*)p, bits / 8, true, PC);							\
		T old = *p;																			\
		if (old == e)																		\
		{																					\
			*p = v;																			\
			if (on) OnRmw((const void*)p, bits / 8, mo, old);												\
		}																					\
		else if (on)																		\
			OnCasFail((const void*)p, fmo);													\
		return old;																			\
	}

ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)

void __tsan_atomic_thread_fence(int mo)
{
	Thread* self = theSelf;
	if (self == nullptr || !theIsActive)
		return;
	PointOf(self);
	if (mo == __ATOMIC_SEQ_CST)
		self->myFenceStep = theSteps;
	if (IsAcq(mo))
		self->myVC.Join(self->myAcqFence);
	if (IsRel(mo))
	{
		self->myRelFence = self->myVC;
		self->myHasRelFence = true;
		Tick(self);
	}
}

void __tsan_atomic_signal_fence(int) {}

}

namespace {
	struct Installer
	{
		Installer() { pbt::SetCaseHooks(sim::Begin, sim::End); }
	};
	static Installer theInstaller;
}
