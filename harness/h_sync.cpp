// Signal, mutexes, condition variables, threads, thread-local pools, reference counters under
// all interleavings.
#include "sim.h"

#include "mg/box/ConditionVariable.h"
#include "mg/box/InterruptibleMutex.h"
#include "mg/box/Mutex.h"
#include "mg/box/SharedPtr.h"
#include "mg/box/Signal.h"
#include "mg/box/Thread.h"
#include "mg/box/ThreadFunc.h"
#include "mg/box/ThreadLocalPool.h"

#include <functional>
#include <thread>
#include <vector>

using namespace pbt;

static mg::box::TimeLimit
Dur(uint64_t ms)
{
	return mg::box::TimeDuration(ms);
}

static mg::box::TimeLimit
AnyLimit(uint64_t ms, bool isPoint)
{
	if (!isPoint)
		return mg::box::TimeDuration(ms);
	return mg::box::TimeDuration(ms).ToPointFromNow();
}

//////////////////////////////////////////////////////////////////////////////////////////
// Signal.

struct SigStat
{
	volatile int mySendsStarted = 0;
	volatile int mySendsDone = 0;
	volatile int myRecvs = 0;
	volatile int myAcks = 0;
	volatile int myRound = 0;
	volatile bool myIsDone = false;
};

static SigStat theSig;

// Do one receive in any way. Only the blocking one has to succeed.
static bool
SigReceive(mg::box::Signal* s, int kind, uint64_t ms)
{
	bool rc;
	if (kind == 0)
	{
		s->ReceiveBlocking();
		rc = true;
	}
	else if (kind == 1)
		rc = s->ReceiveTimed(Dur(ms));
	else if (kind == 2)
		rc = s->ReceiveTimed(mg::box::TimeDuration(ms).ToPointFromNow());
	else
		rc = s->Receive();
	if (rc)
	{
		sim::Quiet q;
		theSig.myRecvs = theSig.myRecvs + 1;
		if (theSig.myRecvs > theSig.mySendsStarted)
			Fail("phantom", "%d receives after %d sends", theSig.myRecvs, theSig.mySendsStarted);
	}
	return rc;
}

static void
SigSend(mg::box::Signal* s)
{
	{
		sim::Quiet q;
		theSig.mySendsStarted = theSig.mySendsStarted + 1;
	}
	s->Send();
	sim::Quiet q;
	theSig.mySendsDone = theSig.mySendsDone + 1;
}

// A message per round with an acknowledgement. Receivers compete, blocking, polling or with time
// limits.
PBT_TEST(signal_ack, MODE_FORK, 10)
{
	sim::IgnoreMemory(&theSig, sizeof(theSig));
	int rounds = (int)g.Range(1, 6);
	int receivers = 1 + (int)g.Weighted({3, 3, 1});
	struct Step { int myKind; uint64_t myMs; };
	std::vector<std::vector<Step>> plans(receivers);
	for (auto& p : plans)
	{
		int n = (int)g.Range(1, 4);
		for (int i = 0; i < n; ++i)
		{
			p.push_back({(int)g.Weighted({4, 3, 2, 3}),
				g.Pick({0ull, 1ull, 10ull, 1000ull, (unsigned long long)MG_TIME_INFINITE})});
		}
	}
	int senders = 1 + (int)g.Below(2);
	bool isDouble = g.Chance(1, 4);
	Describe("rounds %d receivers %d senders %d double %d\n", rounds, receivers, senders, isDouble);
	mg::box::Signal* sig = new mg::box::Signal();
	// Really shared data: written before a send, read after the receive.
	int* data = new int[rounds];
	std::vector<std::thread> threads;
	for (int s = 0; s < senders; ++s)
	{
		threads.emplace_back([&, s]() {
			for (int r = s; r < rounds; r += senders)
			{
				sim::WaitFor([&]() { return theSig.myAcks >= r; }, "ack");
				data[r] = r * 31 + 7;
				SigSend(sig);
				if (isDouble)
					SigSend(sig);
			}
		});
	}
	volatile int active = receivers;
	sim::IgnoreMemory((void*)&active, sizeof(active));
	for (int i = 0; i < receivers; ++i)
	{
		threads.emplace_back([&, i]() {
			size_t idx = 0;
			while (!theSig.myIsDone)
			{
				Step& st = plans[i][idx++ % plans[i].size()];
				int sent;
				{
					sim::Quiet q;
					sent = theSig.mySendsStarted;
				}
				bool rc = SigReceive(sig, st.myKind, st.myMs);
				if (!rc)
				{
					if (st.myKind == 3)
					{
						sim::WaitFor([&]() {
							return theSig.mySendsStarted != sent || theSig.myIsDone ||
								theSig.mySendsDone > theSig.myRecvs;
						}, "poll");
					}
					continue;
				}
				int r;
				{
					sim::Quiet q;
					if (theSig.myIsDone)
						break;
					// With the double sends a receive might happen before the first send is
					// acknowledged by another receiver.
					r = theSig.myAcks;
					if (isDouble)
						theSig.myAcks = r + 1;
				}
				if (isDouble)
				{
					sim::Quiet q;
					if (r + 1 >= rounds)
						theSig.myIsDone = true;
					continue;
				}
				if (data[r] != r * 31 + 7)
					Fail("data", "stale data after the receive");
				sim::Quiet q;
				if (theSig.myAcks != r)
					Fail("duplicate", "round %d is received twice", r);
				theSig.myAcks = r + 1;
				if (r + 1 == rounds)
					theSig.myIsDone = true;
			}
			sim::Quiet q;
			active = active - 1;
		});
	}
	sim::WaitFor([&]() { return theSig.myIsDone; }, "all is done");
	if (!isDouble && theSig.myRecvs != rounds)
		Fail("lost", "%d receives instead of %d", theSig.myRecvs, rounds);
	while (true)
	{
		int a = active;
		if (a == 0)
			break;
		SigSend(sig);
		sim::WaitFor([&]() { return active < a; }, "leave");
	}
	for (std::thread& t : threads)
		t.join();
	delete sig;
	delete[] data;
	if (receivers > 1)
		Label("competing receivers");
	if (sim::Preemptions() > 0)
		NonTrivial();
}

// The receiver destroys the signal right after a successful receive, while the sender could still
// be inside.
PBT_TEST(signal_delete, MODE_FORK, 5)
{
	sim::IgnoreMemory(&theSig, sizeof(theSig));
	int kind = (int)g.Below(4);
	uint64_t ms = g.Pick({0ull, 1ull, 50ull, (unsigned long long)MG_TIME_INFINITE});
	int before = (int)g.Below(3);
	bool isOther = g.Chance(1, 3);
	Describe("receive kind %d limit %llu, %d receives before\n", kind, (unsigned long long)ms, before);
	mg::box::Signal* sig = new mg::box::Signal();
	int* data = new int[before + 1];
	std::vector<std::thread> threads;
	threads.emplace_back([&]() {
		for (int i = 0; i <= before; ++i)
		{
			sim::WaitFor([&]() { return theSig.myAcks == i; }, "ack");
			data[i] = i + 1;
			SigSend(sig);
		}
	});
	auto recv = [&]() {
		for (int i = 0; i <= before; ++i)
		{
			while (!SigReceive(sig, kind, ms))
				sim::Yield();
			if (data[i] != i + 1)
				Fail("data", "stale data");
			if (i == before)
			{
				delete sig;
				delete[] data;
				break;
			}
			sim::Quiet q;
			theSig.myAcks = i + 1;
		}
	};
	if (isOther)
		threads.emplace_back(recv);
	else
		recv();
	for (std::thread& t : threads)
		t.join();
	if (sim::Preemptions() > 0)
		NonTrivial();
}

// Sends before receives collapse into one. Anything sent is received exactly once.
PBT_TEST(signal_collapse, MODE_FORK, 5)
{
	sim::IgnoreMemory(&theSig, sizeof(theSig));
	mg::box::Signal sig;
	int phases = (int)g.Range(1, 4);
	int total = 0;
	bool isSet = false;
	for (int p = 0; p < phases; ++p)
	{
		int senders = (int)g.Below(4);
		int receivers = (int)g.Below(4);
		std::vector<int> kinds;
		for (int i = 0; i < receivers; ++i)
			kinds.push_back((int)g.Range(1, 3));
		Describe("send x%d, then receive x%d\n", senders, receivers);
		std::vector<std::thread> threads;
		for (int i = 0; i < senders; ++i)
			threads.emplace_back([&]() { SigSend(&sig); });
		for (std::thread& t : threads)
			t.join();
		threads.clear();
		isSet |= senders > 0;
		volatile int got = 0;
		sim::IgnoreMemory((void*)&got, sizeof(got));
		for (int i = 0; i < receivers; ++i)
		{
			threads.emplace_back([&, i]() {
				if (SigReceive(&sig, kinds[i], i * 3))
				{
					sim::Quiet q;
					got = got + 1;
				}
			});
		}
		for (std::thread& t : threads)
			t.join();
		int want = isSet && receivers > 0 ? 1 : 0;
		if (got != want)
			Fail("collapse", "%d receives succeeded instead of %d", got, want);
		if (receivers > 0)
			isSet = false;
		total += senders + receivers;
	}
	if (sig.Receive() != isSet)
		Fail("collapse", "wrong final state");
	if (total > 3 && sim::Preemptions() > 0)
		NonTrivial();
}

// Work is counted by the senders, the receivers re-send the signal if they see more work. Nobody
// acknowledges anything.
PBT_TEST(signal_work, MODE_FORK, 8)
{
	sim::IgnoreMemory(&theSig, sizeof(theSig));
	struct State
	{
		volatile int myQueued = 0;
		volatile int myTaken = 0;
	};
	static State st;
	sim::IgnoreMemory(&st, sizeof(st));
	mg::box::Signal sig;
	int senders = 1 + (int)g.Below(3);
	int receivers = 1 + (int)g.Below(3);
	int total = 0;
	std::vector<int> counts;
	for (int i = 0; i < senders; ++i)
	{
		counts.push_back((int)g.Range(1, 5));
		total += counts.back();
	}
	std::vector<int> kinds;
	for (int i = 0; i < receivers; ++i)
		kinds.push_back((int)g.Weighted({5, 2, 1}));
	Describe("senders %d receivers %d messages %d\n", senders, receivers, total);
	std::vector<std::thread> threads;
	for (int i = 0; i < senders; ++i)
	{
		threads.emplace_back([&, i]() {
			for (int k = 0; k < counts[i]; ++k)
			{
				{
					sim::Quiet q;
					st.myQueued = st.myQueued + 1;
				}
				SigSend(&sig);
			}
		});
	}
	for (int i = 0; i < receivers; ++i)
	{
		threads.emplace_back([&, i]() {
			while (true)
			{
				bool isLast = false;
				bool more = false;
				bool got = SigReceive(&sig, kinds[i], kinds[i] == 1 ? 100000 : 5);
				{
					sim::Quiet q;
					if (got && st.myTaken < st.myQueued)
						st.myTaken = st.myTaken + 1;
					more = st.myTaken < st.myQueued;
					isLast = st.myTaken == total;
				}
				if (got && (more || isLast))
					SigSend(&sig);
				if (isLast)
					break;
			}
		});
	}
	for (std::thread& t : threads)
		t.join();
	if (receivers > 1)
		Label("several receivers");
	if (sim::Preemptions() > 0)
		NonTrivial();
}

// With no other receivers and no spurious wakeups a timed receive works exactly as long as asked.
PBT_TEST(signal_timed, MODE_FORK, 5)
{
	sim::IgnoreMemory(&theSig, sizeof(theSig));
	sim::GetConfig().mySpurious = false;
	sim::SetNowNs(g.Pick({0ull, 1000000ull, 123456789ull, 5000000000000ull}) + g.Below(3000000));
	mg::box::Signal sig;
	int count = (int)g.Range(1, 3);
	for (int i = 0; i < count; ++i)
	{
		uint64_t limit;
		switch (g.Weighted({4, 3, 2, 2}))
		{
		case 0: limit = g.Below(10); break;
		case 1: limit = g.Range(10, 100000); break;
		case 2: limit = g.Edge64(); break;
		default: limit = MG_TIME_INFINITE; break;
		}
		bool isPoint = g.Bool();
		bool isSent = limit > 100000000 || g.Bool();
		uint64_t delay = g.Weighted({1, 2, 1}) == 1 ? g.Below(limit < 200000 ? limit + 2 : 200000) :
			g.Small(2000);
		Describe("limit %llu point %d, send after %lld\n", (unsigned long long)limit, isPoint,
			isSent ? (long long)delay : -1ll);
		volatile bool isWaiting = false;
		sim::IgnoreMemory((void*)&isWaiting, sizeof(isWaiting));
		std::vector<std::thread> threads;
		if (isSent)
		{
			threads.emplace_back([&]() {
				mg::box::Sleep(delay);
				SigSend(&sig);
			});
		}
		uint64_t start = sim::NowNs();
		mg::box::TimeLimit l = AnyLimit(limit, isPoint);
		int doneBefore;
		{
			sim::Quiet q;
			doneBefore = theSig.mySendsDone;
		}
		int sentBefore = doneBefore;
		bool rc = sig.ReceiveTimed(l);
		uint64_t now = sim::NowNs();
		bool wasSent;
		{
			sim::Quiet q;
			wasSent = theSig.mySendsStarted > i;
		}
		(void)sentBefore;
		if (rc && !wasSent)
			Fail("phantom", "received a not sent signal");
		if (!rc)
		{
			uint64_t passed = now - start;
			if (limit >= 4000000000000ull)
				Fail("early", "limit %llu ms, but gave up", (unsigned long long)limit);
			// Points have the millisecond precision.
			uint64_t min = limit * 1000000;
			if (isPoint)
				min = min > 1000000 ? min - 1000000 : 0;
			if (passed < min)
			{
				Fail("early", "limit %llu ms, but gave up after %llu ns", (unsigned long long)limit,
					(unsigned long long)passed);
			}
			Label("timeout");
		}
		else
			Label("received");
		for (std::thread& t : threads)
			t.join();
		if (!rc && isSent)
		{
			if (!sig.Receive())
				Fail("lost", "the signal is lost after a timeout");
		}
		if (!isSent)
		{
			// For the simple accounting.
			SigSend(&sig);
			if (!sig.Receive())
				Fail("lost", "the signal is lost");
		}
		if (sig.Receive())
			Fail("duplicate", "the signal is received twice");
	}
	NonTrivial();
}

//////////////////////////////////////////////////////////////////////////////////////////
// Mutex.

struct MutexState
{
	volatile int myOwner = -1;
	volatile int myDepth = 0;
	// Threads in the middle of lock, trylock or the last unlock.
	volatile int myInside = 0;
	volatile uint64_t myEvents = 0;
	volatile int myContended = 0;
};

static MutexState theMutex;

PBT_TEST(mutex, MODE_FORK, 8)
{
	sim::IgnoreMemory(&theMutex, sizeof(theMutex));
	MutexState& st = theMutex;
	mg::box::Mutex mutex;
	int threadCount = 1 + (int)g.Weighted({1, 4, 3, 1});
	struct Op { int myKind; };
	std::vector<std::vector<int>> plans(threadCount);
	static const char* names[] = {"lock", "try", "unlock", "check", "scoped", "yield"};
	for (auto& p : plans)
	{
		int n = (int)g.Range(1, 10);
		for (int i = 0; i < n; ++i)
			p.push_back((int)g.Weighted({4, 4, 5, 2, 2, 1}));
		for (int k : p)
			Describe("%s ", names[k]);
		Describe("\n");
	}
	int counter = 0;
	int total = 0;
	std::vector<std::thread> threads;
	for (int i = 0; i < threadCount; ++i)
	{
		threads.emplace_back([&, i]() {
			int depth = 0;
			auto onLocked = [&]() {
				{
					sim::Quiet q;
					if (depth == 0 && st.myOwner != -1)
						Fail("exclusion", "thread %d took the mutex owned by %d", i, st.myOwner);
					st.myOwner = i;
					++depth;
					st.myDepth = depth;
				}
				++counter;
				if (!mutex.IsOwnedByThisThread())
					Fail("owner", "the owner does not own the mutex");
			};
			auto begin = [&]() {
				sim::Quiet q;
				st.myInside = st.myInside + 1;
				st.myEvents = st.myEvents + 1;
			};
			auto end = [&]() {
				sim::Quiet q;
				st.myInside = st.myInside - 1;
				st.myEvents = st.myEvents + 1;
			};
			auto unlock = [&]() {
				begin();
				++counter;
				{
					sim::Quiet q;
					if (st.myOwner != i)
						Fail("exclusion", "thread %d owns the mutex of thread %d", st.myOwner, i);
					--depth;
					st.myDepth = depth;
					if (depth == 0)
						st.myOwner = -1;
				}
				mutex.Unlock();
				if (mutex.IsOwnedByThisThread() != (depth > 0))
					Fail("owner", "wrong ownership after unlock, depth %d", depth);
				end();
			};
			for (int k : plans[i])
			{
				switch (k)
				{
				case 0:
					begin();
					mutex.Lock();
					onLocked();
					end();
					break;
				case 1: {
					bool isAlone, isOthers;
					uint64_t events;
					begin();
					{
						sim::Quiet q;
						isAlone = st.myInside == 1 && (st.myOwner == -1 || st.myOwner == i);
						isOthers = st.myInside == 1 && st.myOwner != -1 && st.myOwner != i;
						events = st.myEvents;
					}
					uint64_t switches = sim::NowNs();
					(void)switches;
					bool rc = mutex.TryLock();
					bool isQuiet;
					{
						sim::Quiet q;
						isQuiet = events == st.myEvents;
					}
					if (depth > 0 && !rc)
						Fail("try", "try-lock failed by the owner");
					if (isQuiet && isAlone && !rc)
						Fail("try", "try-lock of a free mutex failed");
					if (isQuiet && isOthers)
					{
						if (rc)
							Fail("exclusion", "try-lock of a taken mutex succeeded");
						st.myContended = st.myContended + 1;
					}
					if (rc)
						onLocked();
					end();
					break;
				}
				case 2:
					if (depth > 0)
						unlock();
					break;
				case 3:
					if (mutex.IsOwnedByThisThread() != (depth > 0))
						Fail("owner", "wrong ownership, depth %d", depth);
					break;
				case 4: {
					begin();
					mg::box::MutexLock lock(mutex);
					onLocked();
					end();
					sim::Point();
					begin();
					{
						sim::Quiet q;
						--depth;
						st.myDepth = depth;
						if (depth == 0)
							st.myOwner = -1;
					}
					lock.Unlock();
					end();
					break;
				}
				default:
					sim::Yield();
					break;
				}
			}
			while (depth > 0)
				unlock();
		});
	}
	for (std::thread& t : threads)
		t.join();
	if (!mutex.TryLock())
		Fail("try", "the mutex is not free in the end");
	mutex.Unlock();
	(void)total;
	if (st.myContended > 0)
		Label("try-lock of a taken mutex");
	if (threadCount > 1 && sim::Preemptions() > 0)
		NonTrivial();
}

//////////////////////////////////////////////////////////////////////////////////////////
// Condition variable.

PBT_TEST(condvar, MODE_FORK, 8)
{
	struct State
	{
		volatile int myWaiting = 0;
		volatile int myTokens = 0;
		volatile int myPassed = 0;
	};
	static State st;
	sim::IgnoreMemory(&st, sizeof(st));
	sim::SetNowNs(g.Pick({0ull, 1000000ull, 123456789ull}) + g.Below(3000000));
	mg::box::Mutex mutex;
	mg::box::ConditionVariable cond;
	int waiters = 1 + (int)g.Weighted({3, 3, 1});
	bool isBroadcast = g.Bool();
	struct Plan { bool myIsTimed; uint64_t myMs; bool myIsPoint; };
	std::vector<Plan> plans;
	for (int i = 0; i < waiters; ++i)
	{
		plans.push_back({g.Bool(), g.Chance(1, 3) ? g.Edge64() :
			g.Pick({0ull, 1ull, 20ull, 5000ull, (unsigned long long)MG_TIME_INFINITE}), g.Bool()});
		Describe("waiter %d timed %d limit %llu point %d\n", i, plans[i].myIsTimed,
			(unsigned long long)plans[i].myMs, plans[i].myIsPoint);
	}
	uint64_t delay = g.Pick({0ull, 0ull, 1ull, 19ull, 21ull, 6000ull});
	bool isOutside = g.Chance(1, 3);
	Describe("broadcast %d delay %llu outside %d\n", isBroadcast, (unsigned long long)delay, isOutside);
	int tokens = 0;
	std::vector<std::thread> threads;
	int timeouts = 0;
	for (int i = 0; i < waiters; ++i)
	{
		threads.emplace_back([&, i]() {
			const Plan& p = plans[i];
			mutex.Lock();
			while (tokens == 0)
			{
				if (p.myIsTimed)
				{
					uint64_t start = sim::NowNs();
					bool rc = cond.TimedWait(mutex, AnyLimit(p.myMs, p.myIsPoint));
					uint64_t passed = sim::NowNs() - start;
					if (!rc)
					{
						if (p.myMs >= 4000000000000ull)
							Fail("early", "limit %llu ms, but got a timeout",
								(unsigned long long)p.myMs);
						uint64_t min = p.myMs * 1000000;
						if (p.myIsPoint)
							min = min > 1000000 ? min - 1000000 : 0;
						if (passed < min)
							Fail("early", "limit %llu ms, but got a timeout after %llu ns",
								(unsigned long long)p.myMs, (unsigned long long)passed);
						++timeouts;
						if (!mutex.IsOwnedByThisThread())
							Fail("owner", "the mutex is not owned after a timeout");
						mutex.Unlock();
						sim::WaitFor([&]() { return st.myTokens > 0; }, "the token");
						mutex.Lock();
					}
				}
				else
					cond.Wait(mutex);
				if (!mutex.IsOwnedByThisThread())
					Fail("owner", "the mutex is not owned after a wait");
				// Nested locks work as usual.
				mutex.Lock();
				mutex.Unlock();
			}
			--tokens;
			st.myTokens = tokens;
			if (tokens < 0)
				Fail("exclusion", "too many tokens taken");
			mutex.Unlock();
			if (mutex.IsOwnedByThisThread())
				Fail("owner", "the mutex is owned after unlock");
		});
	}
	if (delay != 0)
		mg::box::Sleep(delay);
	int given = 0;
	while (given < waiters)
	{
		int n = isBroadcast ? (int)g.Range(1, waiters - given) : 1;
		mutex.Lock();
		tokens += n;
		st.myTokens = tokens;
		given += n;
		if (!isOutside)
		{
			if (isBroadcast)
				cond.Broadcast();
			else
				cond.Signal();
		}
		mutex.Unlock();
		if (isOutside)
		{
			if (isBroadcast)
				cond.Broadcast();
			else
				cond.Signal();
		}
	}
	for (std::thread& t : threads)
		t.join();
	if (timeouts > 0)
		Label("timeout");
	if (sim::Preemptions() > 0)
		NonTrivial();
}

//////////////////////////////////////////////////////////////////////////////////////////
// Threads.

PBT_TEST(thread, MODE_FORK, 6)
{
	struct State
	{
		volatile int myRuns = 0;
		volatile int myEnds = 0;
		volatile bool myIsStopped = false;
		volatile bool myIsStopSeen = false;
	};
	static State st;
	sim::IgnoreMemory(&st, sizeof(st));
	int body = (int)g.Below(4);
	int ending = (int)g.Below(5);
	bool isStarted = g.Chance(7, 8);
	uint64_t delay = g.Below(4);
	int stoppers = (int)g.Below(3);
	Describe("body %d ending %d started %d delay %llu stoppers %d\n", body, ending, isStarted,
		(unsigned long long)delay, stoppers);
	int* data = new int(1);
	bool* isDeleted = new bool(false);

	class TestThread : public mg::box::Thread
	{
	public:
		TestThread(std::function<void(TestThread*)> f, int* data)
			: Thread("test thread with a very long name"), myF(f), myData(data) {}
		~TestThread() { BlockingStop(); }
		void Run() override { myF(this); }
		std::function<void(TestThread*)> myF;
		int* myData;
	};
	TestThread* thread = new TestThread([&](TestThread* self) {
		{
			sim::Quiet q;
			st.myRuns = st.myRuns + 1;
		}
		if (*self->myData != 1)
			Fail("data", "stale data in the thread");
		*self->myData = 2;
		if (!self->IsRunning())
			Fail("running", "is not running inside of the body");
		switch (body)
		{
		case 0:
			break;
		case 1:
			while (!self->StopRequested())
				mg::box::Sleep(1);
			break;
		case 2:
			sim::WaitFor([&]() { return st.myIsStopped; }, "stop request");
			while (!self->StopRequested())
				sim::Yield();
			break;
		case 3:
			mg::box::Sleep(2);
			break;
		}
		if (self->StopRequested() && !st.myIsStopped)
			Fail("stop", "a stop which was not requested");
		*self->myData = 3;
		sim::Quiet q;
		st.myEnds = st.myEnds + 1;
	}, data);
	if (thread->IsRunning() || thread->StopRequested())
		Fail("running", "a not started thread is running");
	if (isStarted)
		thread->Start();
	if (delay > 0)
		mg::box::Sleep(delay);
	std::vector<std::thread> others;
	for (int i = 0; i < stoppers; ++i)
	{
		others.emplace_back([&, i]() {
			{
				sim::Quiet q;
				st.myIsStopped = true;
			}
			if (i == 0)
				thread->Stop();
			else
			{
				thread->BlockingStop();
				if (isStarted && st.myEnds != 1)
					Fail("not-finished", "blocking stop returned before the end");
			}
		});
	}
	if (stoppers > 0 && g.Bool())
	{
		// Can be deleted only after the other stops are done.
	}
	bool isNatural = (body == 0 || body == 3) && ending >= 3;
	if (isNatural || !isStarted)
	{
		while (thread->IsRunning())
			mg::box::Sleep(1);
	}
	for (std::thread& t : others)
		t.join();
	auto check = [&]() {
		if (st.myEnds != (isStarted ? 1 : 0) || st.myRuns != st.myEnds)
			Fail("not-finished", "runs %d, ends %d", st.myRuns, st.myEnds);
		if (*data != (isStarted ? 3 : 1))
			Fail("data", "the data of the body is not seen");
	};
	if (!isNatural)
	{
		sim::Quiet q;
		st.myIsStopped = true;
	}
	if (ending == 0)
	{
		thread->Stop();
		if (!thread->StopRequested())
			Fail("stop", "the stop is not requested");
		while (thread->IsRunning())
			mg::box::Sleep(1);
		check();
		delete thread;
	}
	else if (ending == 1)
	{
		thread->BlockingStop();
		check();
		if (thread->IsRunning())
			Fail("running", "running after the blocking stop");
		thread->BlockingStop();
		delete thread;
	}
	else if (ending == 2)
	{
		thread->StopAndDelete();
		check();
	}
	else
	{
		sim::Quiet* q = new sim::Quiet();
		st.myIsStopped = true;
		delete q;
		// The destructor of a thread which has already finished or is joined here.
		if (isNatural)
			check();
		delete thread;
		check();
	}
	delete data;
	delete isDeleted;
	if (isStarted && sim::Preemptions() > 0)
		NonTrivial();
}

PBT_TEST(thread_func, MODE_FORK, 3)
{
	struct State
	{
		volatile int myRuns = 0;
	};
	static State st;
	sim::IgnoreMemory(&st, sizeof(st));
	int count = (int)g.Range(1, 4);
	std::vector<mg::box::ThreadFunc*> threads;
	int* data = new int[count];
	for (int i = 0; i < count; ++i)
	{
		data[i] = i;
		threads.push_back(new mg::box::ThreadFunc(i % 2 ? "" : "some name", [&, i]() {
			if (data[i] != i)
				Fail("data", "stale data");
			data[i] = i + 100;
			sim::Quiet q;
			st.myRuns = st.myRuns + 1;
		}));
		threads.back()->Start();
		if (g.Bool())
			threads.back()->Stop();
	}
	for (int i = 0; i < count; ++i)
	{
		switch (g.Below(3))
		{
		case 0: threads[i]->BlockingStop(); delete threads[i]; break;
		case 1: threads[i]->StopAndDelete(); break;
		default:
			while (threads[i]->IsRunning())
				sim::Yield();
			delete threads[i];
			break;
		}
		if (data[i] != i + 100)
			Fail("data", "stale data after the end");
	}
	if (st.myRuns != count)
		Fail("runs", "%d runs of %d", st.myRuns, count);
	delete[] data;
	if (sim::Preemptions() > 0)
		NonTrivial();
}

// Sleeps of any length.
PBT_TEST(sleep, MODE_FORK, 3)
{
	static uint64_t ends[4];
	sim::IgnoreMemory(ends, sizeof(ends));
	int count = (int)g.Range(1, 4);
	std::vector<std::vector<uint64_t>> plans(count);
	std::vector<std::thread> threads;
	// The virtual clock is in nanoseconds.
	uint64_t left = 9000000000000ULL;
	for (int i = 0; i < count; ++i)
	{
		uint64_t n = g.Range(1, 4);
		Describe("thread %d:", i);
		for (uint64_t k = 0; k < n; ++k)
		{
			uint64_t d;
			switch (g.Below(5))
			{
			case 0: d = g.Below(3000); break;
			case 1: d = g.Range(1, 1000) * 1000 + g.Below(3) - 1; break;
			case 2: d = g.Below(std::min(left / 2 + 1, (uint64_t)UINT32_MAX * 1000)); break;
			case 3: d = (uint64_t)UINT32_MAX * 1000 + g.Below(1000); break;
			default: d = g.Below(2); break;
			}
			if (d + 1000 > left)
				d = g.Below(2);
			left -= d;
			plans[i].push_back(d);
			HashMix(d);
			Describe(" %llu", (unsigned long long)d);
		}
		Describe("\n");
	}
	for (int i = 0; i < count; ++i)
	{
		threads.emplace_back([&, i]() {
			for (uint64_t d : plans[i])
			{
				uint64_t begin = sim::NowNs();
				uint64_t ms = mg::box::GetMilliseconds();
				mg::box::Sleep(d);
				uint64_t len = sim::NowNs() - begin;
				if (len < d * 1000000)
					Fail("sleep-short", "slept %llu ns instead of %llu ms", (unsigned long long)len, (unsigned long long)d);
				if (count == 1 && len > d * 1000000 + 1000000)
					Fail("sleep-long", "slept %llu ns instead of %llu ms", (unsigned long long)len, (unsigned long long)d);
				if (mg::box::GetMilliseconds() < ms + d)
					Fail("sleep-clock", "the clock is behind");
			}
			sim::Quiet q;
			ends[i] = 1;
		});
	}
	for (std::thread& t : threads)
		t.join();
	NonTrivial();
}

//////////////////////////////////////////////////////////////////////////////////////////
// Interruptible mutex.

struct IMutexState
{
	volatile int myOwner = -1;
	volatile int myOwnerKind = 0;
	volatile int myInside = 0;
	volatile uint64_t myEvents = 0;
	volatile int myCallbacks = 0;
	volatile int mySleeps = 0;
	volatile int myLockers = 0;
	volatile int myDone = 0;
};

static IMutexState theIMutex;

PBT_TEST(imutex, MODE_FORK, 10)
{
	sim::IgnoreMemory(&theIMutex, sizeof(theIMutex));
	IMutexState& st = theIMutex;
	mg::box::InterruptibleMutex mutex;
	mg::box::Signal signal;
	int workers = (int)g.Weighted({1, 4, 3});
	int lockers = 1 + (int)g.Weighted({3, 3, 2});
	std::vector<std::vector<int>> plans(lockers);
	int lockTotal = 0;
	for (auto& p : plans)
	{
		int n = (int)g.Range(1, 4);
		for (int i = 0; i < n; ++i)
			p.push_back((int)g.Weighted({4, 1, 1}));
		lockTotal += n;
	}
	Describe("workers %d lockers %d locks %d\n", workers, lockers, lockTotal);
	int counter = 0;
	auto enter = [&](int id, int kind) {
		{
			sim::Quiet q;
			if (st.myOwner != -1)
				Fail("exclusion", "thread %d entered while %d is inside", id, st.myOwner);
			st.myOwner = id;
			st.myOwnerKind = kind;
			st.myEvents = st.myEvents + 1;
		}
		++counter;
	};
	auto leave = [&](int id) {
		++counter;
		sim::Quiet q;
		if (st.myOwner != id)
			Fail("exclusion", "thread %d is inside instead of %d", st.myOwner, id);
		st.myOwner = -1;
	};
	auto begin = [&]() {
		sim::Quiet q;
		st.myInside = st.myInside + 1;
		st.myEvents = st.myEvents + 1;
	};
	auto end = [&]() {
		sim::Quiet q;
		st.myInside = st.myInside - 1;
		st.myEvents = st.myEvents + 1;
	};
	std::vector<std::thread> threads;
	for (int i = 0; i < workers; ++i)
	{
		threads.emplace_back([&, i]() {
			while (st.myDone < lockers)
			{
				begin();
				uint64_t events;
				bool isFree;
				{
					sim::Quiet q;
					events = st.myEvents;
					isFree = st.myOwner == -1 && st.myInside == 1;
				}
				if (mutex.TryLock())
				{
					enter(i, 0);
					end();
					{
						sim::Quiet q;
						if (st.myDone < lockers)
							st.mySleeps = st.mySleeps + 1;
					}
					// Only the callback of a waiter or the end can interrupt it.
					if (st.myDone < lockers)
						signal.ReceiveBlocking();
					begin();
					leave(i);
					mutex.Unlock();
					end();
				}
				else
				{
					{
						sim::Quiet q;
						if (isFree && events == st.myEvents)
							Fail("try", "try-lock of a free mutex failed");
					}
					end();
					uint64_t e = st.myEvents;
					(void)e;
					sim::WaitFor([&]() { return st.myOwner == -1 || st.myDone == lockers; }, "free");
				}
			}
		});
	}
	for (int i = 0; i < lockers; ++i)
	{
		threads.emplace_back([&, i]() {
			int id = 100 + i;
			for (int kind : plans[i])
			{
				bool isCalled = false;
				if (kind == 1)
				{
					begin();
					bool rc = mutex.TryLock();
					if (!rc)
					{
						end();
						continue;
					}
				}
				else
				{
					begin();
					mutex.Lock([&]() {
						isCalled = true;
						{
							sim::Quiet q;
							st.myCallbacks = st.myCallbacks + 1;
						}
						signal.Send();
					});
				}
				enter(id, 1);
				end();
				// Consume the interruption, if the worker didn't.
				if (kind == 2)
					sim::Yield();
				sim::Point();
				begin();
				leave(id);
				mutex.Unlock();
				end();
			}
			bool isLast;
			{
				sim::Quiet q;
				st.myDone = st.myDone + 1;
				isLast = st.myDone == lockers;
			}
			// The workers have nobody to be interrupted by from now on.
			if (isLast)
			{
				while (true)
				{
					signal.Send();
					begin();
					bool rc = mutex.TryLock();
					if (rc)
					{
						enter(id, 1);
						leave(id);
						mutex.Unlock();
						end();
						break;
					}
					end();
					sim::WaitFor([&]() { return st.myOwner == -1; }, "worker leaves");
				}
			}
		});
	}
	for (std::thread& t : threads)
		t.join();
	if (!mutex.TryLock())
		Fail("try", "the mutex is not free in the end");
	mutex.Unlock();
	mutex.Lock([&]() { Fail("callback", "the wakeup callback is called for a free mutex"); });
	mutex.Unlock();
	if (st.myCallbacks > 0)
		Label("owner interrupted");
	if (st.myCallbacks > 0 && sim::Preemptions() > 0)
		NonTrivial();
}

//////////////////////////////////////////////////////////////////////////////////////////
// Thread-local pools.

static volatile int thePoolCtors;
static volatile int thePoolDtors;

template<uint32_t Batch, int Pad>
struct PoolItem : public mg::box::ThreadPooled<PoolItem<Batch, Pad>, Batch>
{
	PoolItem(uint64_t id)
	{
		{
			sim::Quiet q;
			thePoolCtors = thePoolCtors + 1;
		}
		for (int i = 0; i < Pad; ++i)
			myData[i] = id * 1000 + i;
	}
	~PoolItem()
	{
		sim::Quiet q;
		thePoolDtors = thePoolDtors + 1;
	}
	void Check(uint64_t id)
	{
		for (int i = 0; i < Pad; ++i)
		{
			if (myData[i] != id * 1000 + i)
				Fail("corruption", "object %llu is corrupted", (unsigned long long)id);
		}
	}
	uint64_t myData[Pad];
};

struct PoolState
{
	struct Live { uintptr_t myAddr; size_t mySize; };
	Live myLive[512];
	int myLiveCount;
	int myMaxLive;
	uintptr_t myAddrs[2048];
	int myAddrCount;
	uint64_t myNextId;
	int myMaxThreads;
	int myThreads;
};
static PoolState thePool;

template<uint32_t Batch, int Pad>
static void
PoolCase(Gen& g)
{
	using Item = PoolItem<Batch, Pad>;
	sim::IgnoreMemory(&thePool, sizeof(thePool));
	sim::IgnoreMemory((void*)&thePoolCtors, sizeof(thePoolCtors));
	sim::IgnoreMemory((void*)&thePoolDtors, sizeof(thePoolDtors));
	PoolState& st = thePool;
	int generations = 1 + (int)g.Weighted({3, 2, 1});
	int maxThreads = 0;
	struct Ref { Item* myItem; uint64_t myId; };
	mg::box::Mutex sharedLock;
	std::vector<Ref> shared;
	int allocs = 0;
	int crossFrees = 0;
	auto alloc = [&]() {
		uint64_t id;
		{
			sim::Quiet q;
			id = st.myNextId++;
		}
		Item* it = new Item(id);
		{
			sim::Quiet q;
			uintptr_t a = (uintptr_t)it;
			if (a % alignof(Item) != 0)
				Fail("alignment", "not aligned object");
			for (int i = 0; i < st.myLiveCount; ++i)
			{
				uintptr_t b = st.myLive[i].myAddr;
				if (a < b + sizeof(Item) && b < a + sizeof(Item))
					Fail("overlap", "the object is handed out twice");
			}
			st.myLive[st.myLiveCount++] = {a, sizeof(Item)};
			if (st.myLiveCount > st.myMaxLive)
				st.myMaxLive = st.myLiveCount;
			bool found = false;
			for (int i = 0; i < st.myAddrCount; ++i)
				found |= st.myAddrs[i] == a;
			if (!found)
				st.myAddrs[st.myAddrCount++] = a;
		}
		return Ref{it, id};
	};
	auto release = [&](Ref r) {
		r.myItem->Check(r.myId);
		{
			sim::Quiet q;
			for (int i = 0; i < st.myLiveCount; ++i)
			{
				if (st.myLive[i].myAddr == (uintptr_t)r.myItem)
				{
					st.myLive[i] = st.myLive[--st.myLiveCount];
					break;
				}
			}
		}
		delete r.myItem;
	};
	for (int gen = 0; gen < generations; ++gen)
	{
		int threadCount = 1 + (int)g.Weighted({2, 4, 2});
		if (threadCount > maxThreads)
			maxThreads = threadCount;
		std::vector<std::vector<int>> plans(threadCount);
		for (auto& p : plans)
		{
			int n = (int)g.Range(1, 24);
			int bias = (int)g.Below(3);
			for (int i = 0; i < n; ++i)
			{
				if (bias == 0)
					p.push_back((int)g.Weighted({5, 3, 2, 2}));
				else if (bias == 1)
					p.push_back((int)g.Weighted({6, 1, 5, 1}));
				else
					p.push_back((int)g.Weighted({2, 4, 1, 6}));
			}
			for (int k : p)
				Describe("%c", "afgt"[k]);
			Describe("\n");
		}
		Describe("--\n");
		std::vector<std::thread> threads;
		for (int t = 0; t < threadCount; ++t)
		{
			threads.emplace_back([&, t]() {
				std::vector<Ref> own;
				for (int k : plans[t])
				{
					switch (k)
					{
					case 0:
						own.push_back(alloc());
						break;
					case 1:
						if (!own.empty())
						{
							Ref r = own.back();
							own.pop_back();
							release(r);
						}
						break;
					case 2:
						if (!own.empty())
						{
							Ref r = own.front();
							own.erase(own.begin());
							mg::box::MutexLock lock(sharedLock);
							shared.push_back(r);
						}
						break;
					case 3: {
						Ref r{};
						{
							mg::box::MutexLock lock(sharedLock);
							if (!shared.empty())
							{
								r = shared.back();
								shared.pop_back();
							}
						}
						if (r.myItem != nullptr)
						{
							release(r);
							sim::Quiet q;
							++crossFrees;
						}
						break;
					}
					}
				}
				for (Ref& r : own)
				{
					r.myItem->Check(r.myId);
					mg::box::MutexLock lock(sharedLock);
					shared.push_back(r);
				}
			});
		}
		for (std::thread& t : threads)
			t.join();
		for (Ref& r : shared)
			r.myItem->Check(r.myId);
	}
	for (Ref& r : shared)
		release(r);
	if (thePoolCtors != thePoolDtors)
		Fail("ctors", "%d constructors, %d destructors", thePoolCtors, thePoolDtors);
	if ((uint64_t)thePoolCtors != st.myNextId)
		Fail("ctors", "%d constructors of %llu objects", thePoolCtors,
			(unsigned long long)st.myNextId);
	// Everything freed must be reusable. The other threads can keep at most one batch each.
	int limit = st.myMaxLive + (maxThreads + 1) * ((int)Batch + 2);
	if (st.myAddrCount > limit)
		Fail("not-reused", "%d different objects were used for %d live ones", st.myAddrCount,
			st.myMaxLive);
	(void)allocs;
	if (crossFrees > 0)
		Label("freed by another thread");
	if (generations > 1)
		Label("threads were terminated");
	if (maxThreads > 1 && st.myNextId > Batch + 2)
		NonTrivial();
}

PBT_TEST(pool, MODE_FORK, 10)
{
	int batch = (int)g.Below(4);
	Describe("batch kind %d\n", batch);
	switch (batch)
	{
	case 0: PoolCase<1, 1>(g); break;
	case 1: PoolCase<1, 8>(g); break;
	case 2: PoolCase<2, 3>(g); break;
	default: PoolCase<4, 2>(g); break;
	}
}

//////////////////////////////////////////////////////////////////////////////////////////
// Shared pointers and reference counters.

struct RefState
{
	volatile int myDestroyed = 0;
	volatile int myRefs[4] = {};
};
static RefState theRef;

class RefObject
{
public:
	SHARED_PTR_API(RefObject, myRef)
public:
	RefObject(int id) : myId(id), myMagic(0xabcdef) { memset(myData, 0, sizeof(myData)); }
protected:
	virtual ~RefObject()
	{
		int sum = 0;
		for (int i = 0; i < 8; ++i)
			sum += myData[i];
		sim::Quiet q;
		if (myMagic != 0xabcdef)
			Fail("double-destroy", "object is destroyed twice");
		myMagic = 0;
		if (theRef.myRefs[myId] != 0)
			Fail("early-destroy", "object %d is destroyed having %d references", myId,
				theRef.myRefs[myId]);
		theRef.myDestroyed = theRef.myDestroyed + 1;
	}
public:
	int myId;
	uint32_t myMagic;
	// Each thread writes only its own slot.
	int myData[8];
private:
	mg::box::RefCount myRef;
};

class RefChild : public RefObject
{
public:
	SHARED_PTR_RENEW_API(RefChild)
	RefChild(int id) : RefObject(id) {}
};

PBT_TEST(shared_ptr_mt, MODE_FORK, 8)
{
	sim::IgnoreMemory(&theRef, sizeof(theRef));
	using Ptr = RefObject::Ptr;
	int threadCount = 2 + (int)g.Below(3);
	int objCount = 1 + (int)g.Below(2);
	std::vector<std::vector<std::pair<int, int>>> plans(threadCount);
	for (auto& p : plans)
	{
		int n = (int)g.Range(1, 12);
		for (int i = 0; i < n; ++i)
			p.push_back({(int)g.Below(9), (int)g.Below(16)});
		for (auto& o : p)
			Describe("%d/%d ", o.first, o.second);
		Describe("\n");
	}
	auto note = [](const Ptr& p, int diff) {
		if (p == nullptr)
			return;
		int id = p->myId;
		sim::Quiet q;
		theRef.myRefs[id] = theRef.myRefs[id] + diff;
	};
	mg::box::Mutex lock;
	Ptr shared;
	std::vector<std::vector<Ptr>> slots(threadCount);
	for (int i = 0; i < objCount; ++i)
	{
		Ptr p = g.Bool() ? RefObject::NewShared(i) : Ptr(RefChild::NewShared(i));
		note(p, 1);
		for (int t = 0; t < threadCount; ++t)
		{
			slots[t].resize(4);
			slots[t][i] = p;
			note(p, 1);
		}
		note(p, -1);
	}
	std::vector<std::thread> threads;
	for (int t = 0; t < threadCount; ++t)
	{
		threads.emplace_back([&, t]() {
			std::vector<Ptr>& s = slots[t];
			for (auto& o : plans[t])
			{
				Ptr& a = s[o.second % 4];
				Ptr& b = s[o.second / 4];
				switch (o.first)
				{
				case 0: {
					// The oracle counts before the real increment and after the decrement has
					// been decided.
					Ptr old = a;
					note(old, 1);
					note(b, 1);
					note(a, -1);
					a = b;
					note(old, -1);
					break;
				}
				case 1:
					if (&a == &b)
						break;
					note(a, -1);
					a = std::move(b);
					break;
				case 2:
					note(a, -1);
					a.Clear();
					break;
				case 3: {
					note(b, 1);
					Ptr c(b);
					if (c.IsSet())
						++c->myData[t];
					note(c, -1);
					break;
				}
				case 4: {
					lock.Lock();
					note(b, 1);
					Ptr c = std::move(shared);
					shared = b;
					lock.Unlock();
					note(a, -1);
					a = std::move(c);
					break;
				}
				case 5: {
					lock.Lock();
					note(shared, 1);
					Ptr c = shared;
					lock.Unlock();
					if (c.IsSet())
						++c->myData[t];
					note(c, -1);
					break;
				}
				case 6: {
					RefObject* raw = a.Unwrap();
					Ptr c = Ptr::Wrap(raw);
					a = c;
					if (raw != nullptr)
					{
						++raw->myData[t];
					}
					break;
				}
				case 7:
					note(b, 1);
					note(a, -1);
					{
						Ptr keep = a;
						a.Set(b.GetPointer());
					}
					break;
				default:
					if (a.IsSet())
						++a->myData[t];
					break;
				}
			}
			for (Ptr& p : s)
			{
				note(p, -1);
				p.Clear();
			}
		});
	}
	for (std::thread& t : threads)
		t.join();
	if (shared.IsSet())
	{
		if (theRef.myRefs[shared->myId] != 1)
			Fail("oracle", "the model is broken: %d", theRef.myRefs[shared->myId]);
		if (theRef.myDestroyed != objCount - 1)
			Fail("leak", "destroyed %d of %d", theRef.myDestroyed, objCount - 1);
	}
	note(shared, -1);
	shared.Clear();
	if (theRef.myDestroyed != objCount)
		Fail("leak", "destroyed %d of %d", theRef.myDestroyed, objCount);
	if (sim::Preemptions() > 0)
		NonTrivial();
}
