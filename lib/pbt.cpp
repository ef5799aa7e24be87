#include "pbt.h"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <set>
#include <string>
#include <unordered_set>

#include <fcntl.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

// Is absent in the binaries without Address Sanitizer.
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));

namespace pbt {

	static constexpr uint32_t theTapeCap = 1u << 17;
	static constexpr uint32_t theDescCap = 1u << 15;
	static constexpr uint32_t theMaxLabels = 48;
	static constexpr uint32_t theHashCap = 1u << 19;

	enum CaseStatus : uint32_t
	{
		CASE_NONE,
		CASE_RUNNING,
		CASE_OK,
		CASE_FAIL,
	};

	// Result of one case. In shared memory.
	struct CaseShm
	{
		volatile uint32_t myStatus;
		uint32_t myLen[TAPE_COUNT];
		uint64_t myTape[TAPE_COUNT][theTapeCap];
		char mySig[160];
		char myMsg[8192];
		char myDesc[theDescCap];
		uint32_t myDescLen;
		uint32_t myIsNonTrivial;
		uint64_t myHash;
		uint64_t myLabelMask;
		uint32_t myLabelCount;
		char myLabels[theMaxLabels][48];
	};

	struct WorkerShm
	{
		CaseShm myCase;
		volatile uint64_t myEvals;
		volatile uint64_t myNonTrivial;
		volatile uint64_t myDistinct;
		volatile uint64_t myHashDropped;
		volatile uint32_t myHasFailure;
		volatile uint64_t myKnown;
		uint32_t myLabelCount;
		char myLabels[theMaxLabels][48];
		uint64_t myLabelHits[theMaxLabels];
		uint32_t mySampleCount;
		char mySamples[4][4096];
		uint64_t myHashes[theHashCap];
	};

	static std::vector<TestDef>& Tests()
	{
		static std::vector<TestDef> v;
		return v;
	}

	static void (*theBeginHook)() = nullptr;
	static void (*theEndHook)() = nullptr;

	// Current case state.
	static CaseShm* theCase = nullptr;
	static bool theIsReplay = false;
	static std::vector<uint64_t> theReplay[TAPE_COUNT];
	static uint32_t theReplayPos[TAPE_COUNT];
	static uint64_t theRng[TAPE_COUNT];
	static bool theWantDesc = false;
	static bool theIsThorough = false;
	static bool theIsInproc = false;
	static bool theIsLeakChecked = false;
	static std::set<std::string> theFocus;

	uint64_t Mix(uint64_t z)
	{
		z += 0x9e3779b97f4a7c15ULL;
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
		return z ^ (z >> 31);
	}

	bool IsReplay() { return theIsReplay; }
	bool IsThorough() { return theIsThorough; }
	bool IsLeakChecked() { return theIsLeakChecked; }

	uint64_t RawRandom(Tape tape)
	{
		uint64_t& s = theRng[tape];
		s += 0x9e3779b97f4a7c15ULL;
		uint64_t z = s;
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
		return z ^ (z >> 31);
	}

	bool TapeRead(Tape tape, uint64_t& outValue)
	{
		if (theReplayPos[tape] >= theReplay[tape].size())
		{
			outValue = 0;
			return false;
		}
		outValue = theReplay[tape][theReplayPos[tape]++];
		return true;
	}

	void TapeWrite(Tape tape, uint64_t value)
	{
		CaseShm* c = theCase;
		if (c->myLen[tape] < theTapeCap)
			c->myTape[tape][c->myLen[tape]++] = value;
	}

	uint64_t Draw(Tape tape, uint64_t bound)
	{
		uint64_t v;
		if (theIsReplay)
			TapeRead(tape, v);
		else if (theCase->myLen[tape] >= theTapeCap)
			v = 0;
		else
			v = RawRandom(tape);
		if (bound != 0)
		{
			if (theIsReplay)
				v = v >= bound ? v % bound : v;
			else
				v = (uint64_t)(((unsigned __int128)v * bound) >> 64);
		}
		TapeWrite(tape, v);
		return v;
	}

	uint64_t Gen::Small(uint64_t max)
	{
		if (max == 0)
			return 0;
		// Choose the magnitude first.
		uint32_t bits = 1;
		while (bits < 64 && (max >> bits) != 0)
			++bits;
		uint32_t b = (uint32_t)Below(bits + 1);
		if (b == 0)
			return 0;
		uint64_t hi = b >= 64 ? UINT64_MAX : (1ULL << b) - 1;
		uint64_t lo = 1ULL << (b - 1);
		if (hi > max)
			hi = max;
		if (lo > hi)
			lo = hi;
		return Range(lo, hi);
	}

	size_t Gen::Weighted(std::initializer_list<uint32_t> weights)
	{
		uint64_t sum = 0;
		for (uint32_t w : weights)
			sum += w;
		uint64_t r = Below(sum);
		size_t i = 0;
		for (uint32_t w : weights)
		{
			if (r < w)
				return i;
			r -= w;
			++i;
		}
		return weights.size() - 1;
	}

	uint64_t Gen::Edge64()
	{
		switch (Below(6))
		{
		case 0: return Small(1000000);
		case 1: return UINT64_MAX - Small(1000000);
		case 2: {
			uint64_t base = 1ULL << Below(64);
			return base + RangeI(-3, 3);
		}
		case 3: return Any();
		case 4: return Any() >> Below(64);
		default: return (uint64_t)INT64_MAX + RangeI(-1000, 1000);
		}
	}

	static void KillCase(CaseStatus status)
	{
		theCase->myStatus = status;
		_exit(status == CASE_OK ? 0 : 3);
	}

	void FailV(const char* sig, const char* fmt, va_list args)
	{
		snprintf(theCase->mySig, sizeof(theCase->mySig), "%s", sig);
		vsnprintf(theCase->myMsg, sizeof(theCase->myMsg), fmt, args);
		KillCase(CASE_FAIL);
		__builtin_unreachable();
	}

	void Fail(const char* sig, const char* fmt, ...)
	{
		va_list va;
		va_start(va, fmt);
		FailV(sig, fmt, va);
	}

	void FinishOk()
	{
		if (theEndHook != nullptr)
			theEndHook();
		KillCase(CASE_OK);
		__builtin_unreachable();
	}

	void NonTrivial() { theCase->myIsNonTrivial = 1; }

	void Label(const char* name)
	{
		CaseShm* c = theCase;
		for (uint32_t i = 0; i < c->myLabelCount; ++i)
		{
			if (strncmp(c->myLabels[i], name, sizeof(c->myLabels[i]) - 1) == 0)
				return;
		}
		if (c->myLabelCount == theMaxLabels)
			return;
		snprintf(c->myLabels[c->myLabelCount], sizeof(c->myLabels[0]), "%s", name);
		++c->myLabelCount;
	}

	void HashMix(uint64_t value)
	{
		theCase->myHash = Mix(theCase->myHash ^ value);
	}

	bool WantDescription() { return theWantDesc; }

	void Describe(const char* fmt, ...)
	{
		if (!theWantDesc)
			return;
		CaseShm* c = theCase;
		if (c->myDescLen + 1 >= theDescCap)
			return;
		va_list va;
		va_start(va, fmt);
		int rc = vsnprintf(c->myDesc + c->myDescLen, theDescCap - c->myDescLen, fmt, va);
		va_end(va);
		if (rc > 0)
		{
			c->myDescLen += rc;
			if (c->myDescLen >= theDescCap)
				c->myDescLen = theDescCap - 1;
		}
	}

	TestReg::TestReg(const char* name, Mode mode, uint32_t weight, CaseFunc func)
	{
		Tests().push_back({name, mode, weight, func});
	}

	void SetCaseHooks(void (*begin)(), void (*end)())
	{
		theBeginHook = begin;
		theEndHook = end;
	}

	//////////////////////////////////////////////////////////////////////////////////////

	static double Now()
	{
		timespec ts;
		// Directly, in case the clock is virtualised for the tested code.
		extern double RealNow();
		(void)ts;
		return RealNow();
	}

	static uint64_t StrHash(const char* s)
	{
		uint64_t h = 1469598103934665603ULL;
		for (; *s != 0; ++s)
			h = (h ^ (uint8_t)*s) * 1099511628211ULL;
		return h;
	}

	static void ResetCase(CaseShm* c)
	{
		theCase = c;
		c->myStatus = CASE_RUNNING;
		for (int i = 0; i < TAPE_COUNT; ++i)
			c->myLen[i] = 0;
		c->mySig[0] = 0;
		c->myMsg[0] = 0;
		c->myDescLen = 0;
		c->myDesc[0] = 0;
		c->myIsNonTrivial = 0;
		c->myHash = 0;
		c->myLabelCount = 0;
	}

	static void SetRandomCase(uint64_t seed, const TestDef& def, uint32_t worker, uint64_t idx)
	{
		theIsReplay = false;
		uint64_t h = Mix(seed ^ Mix(StrHash(def.myName)) ^ Mix(worker * 1000003ULL + 17));
		h = Mix(h + idx);
		for (int i = 0; i < TAPE_COUNT; ++i)
			theRng[i] = Mix(h + i * 7919);
	}

	using Tapes = std::vector<uint64_t>[TAPE_COUNT];

	struct TapeSet
	{
		std::vector<uint64_t> t[TAPE_COUNT];
	};

	static void SetReplayCase(const TapeSet& s)
	{
		theIsReplay = true;
		for (int i = 0; i < TAPE_COUNT; ++i)
		{
			theReplay[i] = s.t[i];
			theReplayPos[i] = 0;
			theRng[i] = 0;
		}
	}

	static TapeSet GetTapes(const CaseShm* c)
	{
		TapeSet s;
		for (int i = 0; i < TAPE_COUNT; ++i)
			s.t[i].assign(c->myTape[i], c->myTape[i] + c->myLen[i]);
		return s;
	}

	static uint32_t theCpuLimit = 20;
	static uint32_t theWallLimit = 60;

	static void ArmTimers(Mode mode)
	{
		itimerval it;
		memset(&it, 0, sizeof(it));
		it.it_value.tv_sec = theCpuLimit;
		setitimer(ITIMER_PROF, &it, nullptr);
		if (mode == MODE_REAL)
		{
			it.it_value.tv_sec = theWallLimit;
			setitimer(ITIMER_REAL, &it, nullptr);
		}
	}

	static void RunBody(const TestDef& def)
	{
		if (theBeginHook != nullptr)
			theBeginHook();
		Gen g;
		def.myFunc(g);
		if (theEndHook != nullptr)
			theEndHook();
	}

	static bool IsLeakRepeated()
	{
		return theIsLeakChecked && &__sanitizer_get_current_allocated_bytes != nullptr;
	}

	// A usage which leaves more memory each time when it is repeated loses that memory.
	static void RunBodyLeaks(const TestDef& def)
	{
		uint64_t rng[TAPE_COUNT];
		uint32_t pos[TAPE_COUNT];
		memcpy(rng, theRng, sizeof(rng));
		memcpy(pos, theReplayPos, sizeof(pos));
		size_t diff = 0;
		// Many times, because there are things of a limited size which grow at first. For example, the queue
		// of errors in OpenSSL.
		for (int i = 0; i < 40; ++i)
		{
			if (i != 0)
			{
				memcpy(theRng, rng, sizeof(rng));
				memcpy(theReplayPos, pos, sizeof(pos));
				ResetCase(theCase);
			}
			size_t before = __sanitizer_get_current_allocated_bytes();
			RunBody(def);
			size_t after = __sanitizer_get_current_allocated_bytes();
			if (after <= before)
				return;
			diff = after - before;
		}
		Fail("leak", "each of the repetitions leaves %zu more bytes allocated", diff);
	}

	static std::string ReadErr(int fd)
	{
		char buf[6000];
		off_t size = lseek(fd, 0, SEEK_END);
		if (size <= 0)
			return "";
		off_t from = 0;
		ssize_t rc = pread(fd, buf, sizeof(buf) - 1, from);
		if (rc <= 0)
			return "";
		buf[rc] = 0;
		return buf;
	}

	// When a process of a case ended not via Fail() or OK.
	static void SetCrash(CaseShm* c, int wstatus, int errfd)
	{
		if (c->myStatus == CASE_FAIL || c->myStatus == CASE_OK)
			return;
		std::string err = ReadErr(errfd);
		const char* kind = "crash";
		char name[64];
		if (WIFSIGNALED(wstatus))
		{
			int s = WTERMSIG(wstatus);
			if (s == SIGPROF)
				kind = "hang";
			else if (s == SIGALRM)
				kind = "hang";
			snprintf(name, sizeof(name), "%s", kind);
			snprintf(c->myMsg, sizeof(c->myMsg), "killed by signal %d (%s). Stderr: %s", s,
				strsignal(s), err.c_str());
		}
		else
		{
			snprintf(name, sizeof(name), "%s", kind);
			snprintf(c->myMsg, sizeof(c->myMsg), "exited with code %d. Stderr: %s",
				WEXITSTATUS(wstatus), err.c_str());
		}
		snprintf(c->mySig, sizeof(c->mySig), "%s", name);
		c->myStatus = CASE_FAIL;
	}

	// Forks and runs what was chosen with SetRandomCase/SetReplayCase.
	static pid_t StartCase(const TestDef& def, CaseShm* c, int errfd)
	{
		ResetCase(c);
		pid_t pid = fork();
		if (pid < 0)
		{
			perror("fork");
			_exit(2);
		}
		if (pid == 0)
		{
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			// PR_FUTEX_HASH, PR_FUTEX_HASH_SET_SLOTS, the global one. Otherwise some kernels
			// grow a hash of the process together with the number of threads, and then can
			// free the memory of ended processes much slower than new ones are started.
			prctl(78, 1, 0, 0, 0);
			dup2(errfd, 2);
			dup2(errfd, 1);
			ArmTimers(def.myMode);
			(IsLeakRepeated() ? RunBodyLeaks : RunBody)(def);
			KillCase(CASE_OK);
		}
		return pid;
	}

	static void WaitCase(CaseShm* c, pid_t pid, int errfd)
	{
		int ws = 0;
		while (waitpid(pid, &ws, 0) < 0 && errno == EINTR);
		SetCrash(c, ws, errfd);
	}

	static int MakeErrFd()
	{
		int fd = memfd_create("err", MFD_CLOEXEC);
		if (fd < 0)
			fd = open("/dev/null", O_RDWR);
		int fl = fcntl(fd, F_GETFL);
		fcntl(fd, F_SETFL, fl | O_APPEND);
		return fd;
	}

	static void ClearErrFd(int fd)
	{
		struct stat st;
		if (fstat(fd, &st) == 0 && st.st_size > 0)
		{
			if (ftruncate(fd, 0) != 0) {}
		}
	}

	static bool IsKnown(const std::vector<std::string>& known, const CaseShm* c)
	{
		// Failures of another property are decided by its own check.
		if (!theFocus.empty() && theFocus.count(c->mySig) == 0)
			return true;
		for (const std::string& k : known)
		{
			// Either the whole signature or signature@text-in-message.
			size_t at = k.find('@');
			std::string sig = at == std::string::npos ? k : k.substr(0, at);
			if (sig != c->mySig)
				continue;
			if (at == std::string::npos || strstr(c->myMsg, k.c_str() + at + 1) != nullptr)
				return true;
		}
		return false;
	}

	static void AccountCase(WorkerShm* w, uint64_t idx)
	{
		CaseShm* c = &w->myCase;
		++w->myEvals;
		for (uint32_t i = 0; i < c->myLabelCount; ++i)
		{
			uint32_t j = 0;
			for (; j < w->myLabelCount; ++j)
			{
				if (strcmp(w->myLabels[j], c->myLabels[i]) == 0)
					break;
			}
			if (j == w->myLabelCount)
			{
				if (j == theMaxLabels)
					continue;
				memcpy(w->myLabels[j], c->myLabels[i], sizeof(w->myLabels[j]));
				w->myLabelHits[j] = 0;
				++w->myLabelCount;
			}
			++w->myLabelHits[j];
		}
		if (!c->myIsNonTrivial)
			return;
		++w->myNonTrivial;
		uint64_t h = c->myHash;
		for (int i = 0; i < TAPE_COUNT; ++i)
		{
			h = Mix(h ^ c->myLen[i]);
			for (uint32_t k = 0; k < c->myLen[i]; ++k)
				h = Mix(h ^ c->myTape[i][k]);
		}
		if (h == 0)
			h = 1;
		uint32_t pos = (uint32_t)(h % theHashCap);
		for (uint32_t probe = 0; probe < 64; ++probe)
		{
			uint64_t& cell = w->myHashes[(pos + probe) % theHashCap];
			if (cell == h)
				goto sampled;
			if (cell == 0)
			{
				cell = h;
				goto sampled;
			}
		}
		++w->myHashDropped;
	sampled:
		if (c->myDescLen > 0 && w->mySampleCount < 4)
		{
			snprintf(w->mySamples[w->mySampleCount++], sizeof(w->mySamples[0]), "%s",
				c->myDesc);
		}
		(void)idx;
	}

	static bool WantDescFor(uint64_t idx)
	{
		return idx == 3 || idx == 11 || idx == 40 || idx == 150 || idx == 600;
	}

	// The kernel can be late with freeing the memory of ended processes. Let it catch up.
	static void WaitMemory(double deadline)
	{
		while (Now() < deadline)
		{
			FILE* f = fopen("/proc/meminfo", "r");
			if (f == nullptr)
				return;
			unsigned long long total = 0, avail = 0, v;
			char line[256];
			while (fgets(line, sizeof(line), f) != nullptr)
			{
				if (sscanf(line, "MemTotal: %llu", &v) == 1)
					total = v;
				else if (sscanf(line, "MemAvailable: %llu", &v) == 1)
					avail = v;
			}
			fclose(f);
			if (total == 0 || avail >= total / 2)
				return;
			usleep(20000);
		}
	}

	static void WorkerMain(const TestDef& def, WorkerShm* w, uint32_t worker, uint64_t seed,
		double deadline, uint64_t maxCases, const std::vector<std::string>& known,
		volatile uint32_t* stop)
	{
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		int errfd = MakeErrFd();
		uint64_t idx = 0;
		if (def.myMode != MODE_INPROC)
		{
			while (!*stop && idx < maxCases && (Now() < deadline || idx == 0))
			{
				if (idx % 16 == 0)
					WaitMemory(deadline);
				SetRandomCase(seed, def, worker, idx);
				theWantDesc = WantDescFor(idx);
				ClearErrFd(errfd);
				pid_t pid = StartCase(def, &w->myCase, errfd);
				WaitCase(&w->myCase, pid, errfd);
				if (w->myCase.myStatus == CASE_FAIL)
				{
					if (!IsKnown(known, &w->myCase))
					{
						w->myHasFailure = 1;
						*stop = 1;
						_exit(0);
					}
					++w->myKnown;
				}
				AccountCase(w, idx);
				++idx;
			}
			_exit(0);
		}
		// In-process.
		volatile uint64_t* pidx =
			(volatile uint64_t*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE,
				MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		*pidx = 0;
		while (true)
		{
			ClearErrFd(errfd);
			ResetCase(&w->myCase);
			pid_t pid = fork();
			if (pid == 0)
			{
				prctl(PR_SET_PDEATHSIG, SIGKILL);
				dup2(errfd, 2);
				dup2(errfd, 1);
				theIsInproc = true;
				uint64_t done = 0;
				while (!*stop && *pidx < maxCases && (Now() < deadline || *pidx == 0))
				{
					if (done % 64 == 0)
						ArmTimers(def.myMode);
					SetRandomCase(seed, def, worker, *pidx);
					theWantDesc = WantDescFor(*pidx);
					ResetCase(&w->myCase);
					(IsLeakRepeated() ? RunBodyLeaks : RunBody)(def);
					w->myCase.myStatus = CASE_OK;
					AccountCase(w, *pidx);
					++*pidx;
					++done;
				}
				KillCase(CASE_OK);
			}
			int ws = 0;
			while (waitpid(pid, &ws, 0) < 0 && errno == EINTR);
			SetCrash(&w->myCase, ws, errfd);
			if (w->myCase.myStatus == CASE_OK)
				_exit(0);
			if (!IsKnown(known, &w->myCase))
			{
				w->myHasFailure = 1;
				*stop = 1;
				_exit(0);
			}
			++w->myKnown;
			++w->myEvals;
			++*pidx;
		}
	}

	//////////////////////////////////////////////////////////////////////////////////////

	struct CandidatePool
	{
		std::vector<CaseShm*> mySlots;
		std::vector<int> myErr;
	};

	static void* MapShared(size_t size)
	{
		void* p = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS |
			MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED)
		{
			perror("mmap");
			exit(2);
		}
		return p;
	}

	static void PinTo(uint32_t cpuIdx)
	{
		cpu_set_t all;
		CPU_ZERO(&all);
		if (sched_getaffinity(0, sizeof(all), &all) != 0)
			return;
		uint32_t n = CPU_COUNT(&all);
		if (n == 0)
			return;
		uint32_t want = cpuIdx % n;
		for (int i = 0; i < CPU_SETSIZE; ++i)
		{
			if (!CPU_ISSET(i, &all))
				continue;
			if (want-- == 0)
			{
				cpu_set_t one;
				CPU_ZERO(&one);
				CPU_SET(i, &one);
				sched_setaffinity(0, sizeof(one), &one);
				return;
			}
		}
	}

	static void RunOne(const TestDef& def, const TapeSet& s, CaseShm* c, int errfd,
		bool wantDesc)
	{
		SetReplayCase(s);
		theWantDesc = wantDesc;
		ClearErrFd(errfd);
		pid_t pid = StartCase(def, c, errfd);
		WaitCase(c, pid, errfd);
		theCase = nullptr;
	}

	// Run several candidates in parallel, return index of the first which fails with the
	// same signature, or -1.
	static int RunBatch(const TestDef& def, const std::vector<TapeSet>& cands,
		CandidatePool& pool, const std::string& sig)
	{
		size_t n = std::min(cands.size(), pool.mySlots.size());
		std::vector<pid_t> pids(n);
		theWantDesc = false;
		for (size_t i = 0; i < n; ++i)
		{
			SetReplayCase(cands[i]);
			ClearErrFd(pool.myErr[i]);
			// Pin the child on its own core.
			cpu_set_t old;
			sched_getaffinity(0, sizeof(old), &old);
			PinTo((uint32_t)i);
			pids[i] = StartCase(def, pool.mySlots[i], pool.myErr[i]);
			sched_setaffinity(0, sizeof(old), &old);
		}
		int res = -1;
		for (size_t i = 0; i < n; ++i)
		{
			WaitCase(pool.mySlots[i], pids[i], pool.myErr[i]);
			if (res < 0 && pool.mySlots[i]->myStatus == CASE_FAIL &&
				sig == pool.mySlots[i]->mySig)
				res = (int)i;
		}
		return res;
	}

	static size_t TapeCost(const TapeSet& s)
	{
		return s.t[0].size() + s.t[1].size() + s.t[2].size();
	}

	static bool IsSimpler(const TapeSet& a, const TapeSet& b)
	{
		size_t ca = TapeCost(a), cb = TapeCost(b);
		if (ca != cb)
			return ca < cb;
		for (int i = 0; i < TAPE_COUNT; ++i)
		{
			if (a.t[i].size() != b.t[i].size())
				return a.t[i].size() < b.t[i].size();
			for (size_t k = 0; k < a.t[i].size(); ++k)
			{
				if (a.t[i][k] != b.t[i][k])
					return a.t[i][k] < b.t[i][k];
			}
		}
		return false;
	}

	static TapeSet Shrink(const TestDef& def, TapeSet best, const std::string& sig,
		CandidatePool& pool, double deadline, uint64_t& runs)
	{
		size_t width = pool.mySlots.size();
		auto tryAll = [&](std::vector<TapeSet>& cands) -> bool {
			for (size_t from = 0; from < cands.size(); from += width)
			{
				if (Now() > deadline)
					return false;
				size_t to = std::min(cands.size(), from + width);
				std::vector<TapeSet> part(cands.begin() + from, cands.begin() + to);
				runs += part.size();
				int r = RunBatch(def, part, pool, sig);
				if (r < 0)
					continue;
				// What was really consumed.
				TapeSet used = GetTapes(pool.mySlots[r]);
				TapeSet next = IsSimpler(used, part[r]) ? used : part[r];
				if (!IsSimpler(next, best))
					continue;
				best = next;
				return true;
			}
			return false;
		};
		bool progress = true;
		while (progress && Now() < deadline)
		{
			progress = false;
			// Truncate and drop entire tapes.
			for (int t = TAPE_COUNT - 1; t >= 0; --t)
			{
				bool again = true;
				while (again && Now() < deadline)
				{
					again = false;
					std::vector<TapeSet> cands;
					size_t n = best.t[t].size();
					if (n == 0)
						break;
					for (size_t keep : {(size_t)0, n / 8, n / 4, n / 2, n * 3 / 4, n - 1})
					{
						if (keep >= n)
							continue;
						TapeSet c = best;
						c.t[t].resize(keep);
						cands.push_back(c);
					}
					if (tryAll(cands))
						again = progress = true;
				}
			}
			// Delete chunks.
			for (int t = TAPE_COUNT - 1; t >= 0; --t)
			{
				size_t unit = 1;
				for (size_t chunk = best.t[t].size() / 2; chunk >= 1 && Now() < deadline;
					chunk /= 2)
				{
					size_t pos = 0;
					while (pos < best.t[t].size() && Now() < deadline)
					{
						std::vector<TapeSet> cands;
						size_t p = pos;
						for (size_t k = 0; k < width && p < best.t[t].size(); ++k, p += chunk)
						{
							TapeSet c = best;
							c.t[t].erase(c.t[t].begin() + p, c.t[t].begin() +
								std::min(p + chunk, c.t[t].size()));
							cands.push_back(c);
						}
						if (tryAll(cands))
							progress = true;
						else
							pos = p;
					}
				}
				(void)unit;
			}
			// Zero and lower the values.
			for (int t = TAPE_COUNT - 1; t >= 0; --t)
			{
				for (size_t pos = 0; pos < best.t[t].size() && Now() < deadline; ++pos)
				{
					uint64_t v = best.t[t][pos];
					if (v == 0)
						continue;
					std::vector<TapeSet> cands;
					for (uint64_t nv : {(uint64_t)0, v / 16, v / 4, v / 2, v - v / 4, v - 1})
					{
						if (nv >= v)
							continue;
						TapeSet c = best;
						c.t[t][pos] = nv;
						cands.push_back(c);
					}
					if (tryAll(cands))
						progress = true;
				}
			}
		}
		return best;
	}

	//////////////////////////////////////////////////////////////////////////////////////

	static std::string JsonStr(const char* s)
	{
		std::string r = "\"";
		for (; *s != 0; ++s)
		{
			unsigned char c = (unsigned char)*s;
			if (c == '"' || c == '\\')
			{
				r += '\\';
				r += (char)c;
			}
			else if (c == '\n')
				r += "\\n";
			else if (c == '\t')
				r += "\\t";
			else if (c < 0x20 || c >= 0x7f)
			{
				char b[8];
				snprintf(b, sizeof(b), "\\u%04x", c);
				r += b;
			}
			else
				r += (char)c;
		}
		return r + "\"";
	}

	static void WriteReplay(const std::string& path, const char* test, const TapeSet& s,
		const CaseShm* c)
	{
		FILE* f = fopen(path.c_str(), "w");
		if (f == nullptr)
		{
			perror("replay file");
			return;
		}
		fprintf(f, "pbt-replay 1\ntest %s\nsig %s\n", test, c->mySig);
		for (int i = 0; i < TAPE_COUNT; ++i)
		{
			fprintf(f, "tape %d %zu", i, s.t[i].size());
			for (uint64_t v : s.t[i])
				fprintf(f, " %llu", (unsigned long long)v);
			fprintf(f, "\n");
		}
		fprintf(f, "--- failure\n%s\n--- case\n%s\n", c->myMsg, c->myDesc);
		fclose(f);
	}

	static bool ReadReplay(const char* path, std::string& test, TapeSet& s, std::string& sig)
	{
		FILE* f = fopen(path, "r");
		if (f == nullptr)
			return false;
		char line[256];
		bool ok = fgets(line, sizeof(line), f) && strncmp(line, "pbt-replay", 10) == 0;
		char buf[200];
		if (ok && fscanf(f, "test %199s\n", buf) == 1)
			test = buf;
		if (ok && fscanf(f, "sig %199s\n", buf) == 1)
		{
			sig = buf;
			if (sig == "leak")
				theIsLeakChecked = true;
		}
		for (int i = 0; ok && i < TAPE_COUNT; ++i)
		{
			int idx;
			size_t n;
			if (fscanf(f, " tape %d %zu", &idx, &n) != 2 || idx != i)
			{
				ok = false;
				break;
			}
			for (size_t k = 0; k < n; ++k)
			{
				unsigned long long v;
				if (fscanf(f, " %llu", &v) != 1)
				{
					ok = false;
					break;
				}
				s.t[i].push_back(v);
			}
		}
		fclose(f);
		return ok;
	}

	int Main(int argc, char** argv)
	{
		std::string only, out, replayDir = ".", replayFile;
		double budget = 10;
		uint64_t seed = 1, maxCases = UINT64_MAX;
		uint32_t workers = 8;
		double shrinkTime = 20;
		bool list = false;
		std::vector<std::string> known;
		for (int i = 1; i < argc; ++i)
		{
			std::string a = argv[i];
			auto next = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
			if (a == "--test") only = next();
			else if (a == "--time") budget = atof(next());
			else if (a == "--seed") seed = strtoull(next(), nullptr, 10);
			else if (a == "--cases") maxCases = strtoull(next(), nullptr, 10);
			else if (a == "--workers") workers = atoi(next());
			else if (a == "--out") out = next();
			else if (a == "--replay-dir") replayDir = next();
			else if (a == "--replay") replayFile = next();
			else if (a == "--shrink-time") shrinkTime = atof(next());
			else if (a == "--cpu-limit") theCpuLimit = atoi(next());
			else if (a == "--wall-limit") theWallLimit = atoi(next());
			else if (a == "--known") known.push_back(next());
			else if (a == "--thorough") theIsThorough = true;
			else if (a == "--leaks") theIsLeakChecked = true;
			else if (a == "--focus") theFocus.insert(next());
			else if (a == "--list") list = true;
			else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
		}
		// Same addresses in each run.
		int pers = personality(0xffffffff);
		if (pers >= 0 && (pers & ADDR_NO_RANDOMIZE) == 0 && getenv("PBT_NO_REEXEC") == nullptr)
		{
			if (personality(pers | ADDR_NO_RANDOMIZE) >= 0)
			{
				setenv("PBT_NO_REEXEC", "1", 1);
				execv("/proc/self/exe", argv);
			}
		}
		signal(SIGPIPE, SIG_IGN);
		std::vector<TestDef> tests;
		for (const TestDef& t : Tests())
		{
			if (!only.empty())
			{
				std::string key = "," + only + ",";
				if (key.find(std::string(",") + t.myName + ",") == std::string::npos)
					continue;
			}
			tests.push_back(t);
		}
		if (list)
		{
			for (const TestDef& t : tests)
				printf("%s\n", t.myName);
			return 0;
		}
		if (!replayFile.empty())
		{
			std::string test, sig;
			TapeSet s;
			if (!ReadReplay(replayFile.c_str(), test, s, sig))
			{
				fprintf(stderr, "bad replay file\n");
				return 2;
			}
			for (const TestDef& t : Tests())
			{
				if (test != t.myName)
					continue;
				CaseShm* c = (CaseShm*)MapShared(sizeof(CaseShm));
				int errfd = MakeErrFd();
				int reps = t.myMode == MODE_REAL ? 30 : 1;
				for (int k = 0; k < reps; ++k)
				{
					RunOne(t, s, c, errfd, true);
					if (c->myStatus == CASE_FAIL)
						break;
				}
				printf("--- case\n%s\n", c->myDesc);
				std::string err = ReadErr(errfd);
				if (!err.empty())
					printf("--- output\n%s\n", err.c_str());
				if (c->myStatus == CASE_FAIL)
				{
					printf("--- FAILED sig=%s\n%s\n", c->mySig, c->myMsg);
					return 1;
				}
				printf("--- passed\n");
				return 0;
			}
			fprintf(stderr, "no such test %s\n", test.c_str());
			return 2;
		}
		if (tests.empty())
		{
			fprintf(stderr, "no tests\n");
			return 2;
		}
		uint64_t sumWeight = 0;
		for (const TestDef& t : tests)
			sumWeight += t.myWeight;

		CandidatePool pool;
		for (uint32_t i = 0; i < workers; ++i)
		{
			pool.mySlots.push_back((CaseShm*)MapShared(sizeof(CaseShm)));
			pool.myErr.push_back(MakeErrFd());
		}
		std::string json = "{\"tests\":[";
		bool failed = false;
		bool first = true;
		for (const TestDef& t : tests)
		{
			double start = Now();
			double share = budget * t.myWeight / sumWeight;
			std::vector<WorkerShm*> ws;
			volatile uint32_t* stop = (volatile uint32_t*)MapShared(4096);
			*stop = 0;
			std::vector<pid_t> pids;
			uint64_t unconfirmed = 0;
			std::string unconfirmedMsg;
			std::string failSig, failMsg, failReplay;
			uint64_t shrinkRuns = 0;
			uint64_t evals = 0, nontrivial = 0, knownHits = 0;
			std::unordered_set<uint64_t> hashes;
			std::map<std::string, uint64_t> labels;
			std::vector<std::string> samples;
			uint32_t round = 0;
			while (true)
			{
				*stop = 0;
				ws.clear();
				pids.clear();
				for (uint32_t i = 0; i < workers; ++i)
				{
					ws.push_back((WorkerShm*)MapShared(sizeof(WorkerShm)));
					pid_t pid = fork();
					if (pid == 0)
					{
						PinTo(i);
						WorkerMain(t, ws[i], i + round * 1000, seed, start + share,
							maxCases, known, stop);
						_exit(0);
					}
					pids.push_back(pid);
				}
				for (pid_t pid : pids)
				{
					int st;
					while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
				}
				int failIdx = -1;
				for (uint32_t i = 0; i < workers; ++i)
				{
					WorkerShm* w = ws[i];
					evals += w->myEvals;
					nontrivial += w->myNonTrivial;
					knownHits += w->myKnown;
					for (uint32_t k = 0; k < w->myLabelCount; ++k)
						labels[w->myLabels[k]] += w->myLabelHits[k];
					for (uint32_t k = 0; k < theHashCap; ++k)
					{
						if (w->myHashes[k] != 0)
							hashes.insert(w->myHashes[k]);
					}
					for (uint32_t k = 0; k < w->mySampleCount && samples.size() < 4; ++k)
						samples.push_back(w->mySamples[k]);
					if (w->myHasFailure && failIdx < 0)
						failIdx = (int)i;
				}
				if (failIdx >= 0)
				{
					CaseShm* c = &ws[failIdx]->myCase;
					std::string sig = c->mySig;
					std::string origMsg = c->myMsg;
					TapeSet orig = GetTapes(c);
					auto confirm = [&](const TapeSet& s) -> bool {
						uint32_t need = 3, reps = 3, hits = 0;
						if (t.myMode == MODE_REAL)
						{
							need = 2;
							reps = 24;
						}
						for (uint32_t k = 0; k < reps && hits < need; ++k)
						{
							RunOne(t, s, pool.mySlots[0], pool.myErr[0], true);
							if (pool.mySlots[0]->myStatus == CASE_FAIL &&
								(sig == pool.mySlots[0]->mySig ||
									t.myMode == MODE_REAL))
								++hits;
							else if (t.myMode != MODE_REAL)
								return false;
						}
						return hits >= need;
					};
					bool isConfirmed = confirm(orig);
					if (isConfirmed)
					{
						TapeSet best = orig;
						if (t.myMode != MODE_REAL)
						{
							best = Shrink(t, orig, sig, pool, Now() + shrinkTime,
								shrinkRuns);
							if (!confirm(best))
							{
								best = orig;
								RunOne(t, best, pool.mySlots[0], pool.myErr[0], true);
							}
						}
						failSig = sig;
						failMsg = pool.mySlots[0]->myMsg;
						failReplay = replayDir + "/" + t.myName + ".replay";
						WriteReplay(failReplay, t.myName, best, pool.mySlots[0]);
						failed = true;
					}
					else
					{
						++unconfirmed;
						unconfirmedMsg = sig + ": " + origMsg;
						fprintf(stderr, "unconfirmed failure in %s: %s: %s\n", t.myName,
							sig.c_str(), origMsg.c_str());
					}
				}
				for (WorkerShm* w : ws)
					munmap(w, sizeof(WorkerShm));
				if (!failSig.empty() || failIdx < 0)
					break;
				++round;
				if (Now() > start + share || round > 50)
					break;
			}
			if (!first)
				json += ",";
			first = false;
			char buf[512];
			snprintf(buf, sizeof(buf), ",\"evaluations\":%llu,\"nontrivial\":%llu,"
				"\"distinct_nontrivial\":%llu,\"known_hits\":%llu,\"unconfirmed\":%llu,"
				"\"shrink_runs\":%llu,\"wall_s\":%.2f",
				(unsigned long long)evals, (unsigned long long)nontrivial,
				(unsigned long long)hashes.size(), (unsigned long long)knownHits,
				(unsigned long long)unconfirmed, (unsigned long long)shrinkRuns,
				Now() - start);
			json += "{\"name\":" + JsonStr(t.myName) + buf;
			json += ",\"labels\":{";
			bool f2 = true;
			for (auto& kv : labels)
			{
				json += std::string(f2 ? "" : ",") + JsonStr(kv.first.c_str()) + ":" +
					std::to_string(kv.second);
				f2 = false;
			}
			json += "},\"samples\":[";
			f2 = true;
			for (auto& s : samples)
			{
				json += std::string(f2 ? "" : ",") + JsonStr(s.c_str());
				f2 = false;
			}
			json += "]";
			if (unconfirmed > 0)
				json += ",\"unconfirmed_msg\":" + JsonStr(unconfirmedMsg.c_str());
			if (!failSig.empty())
			{
				json += ",\"failure\":{\"sig\":" + JsonStr(failSig.c_str()) + ",\"msg\":" +
					JsonStr(failMsg.c_str()) + ",\"replay\":" +
					JsonStr(failReplay.c_str()) + "}";
				fprintf(stderr, "FAILED %s sig=%s\n%s\nreplay: %s\n", t.myName,
					failSig.c_str(), failMsg.c_str(), failReplay.c_str());
			}
			json += "}";
			fprintf(stderr, "%s: %llu cases, %llu distinct non-trivial, %.1fs\n", t.myName,
				(unsigned long long)evals, (unsigned long long)hashes.size(), Now() - start);
			if (failed)
				break;
		}
		json += "]}";
		if (!out.empty())
		{
			FILE* f = fopen(out.c_str(), "w");
			if (f != nullptr)
			{
				fputs(json.c_str(), f);
				fclose(f);
			}
		}
		return failed ? 1 : 0;
	}
}
