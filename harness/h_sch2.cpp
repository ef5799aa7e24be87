// Task scheduler: wakeups, signals, deadlines, emptiness, fairness.
#include "sim.h"

#include "mg/box/Mutex.h"
#include "mg/box/Signal.h"
#include "mg/box/Thread.h"
#include "mg/box/Time.h"
#include "mg/sch/TaskScheduler.h"

#include <atomic>
#include <algorithm>
#include <functional>
#include <thread>
#include <vector>

using namespace pbt;
using mg::sch::Task;
using mg::sch::TaskScheduler;

static constexpr uint64_t theFar = 50000000;

// How the task is going to be posted next time.
enum PostMode
{
	POST_NOW,
	POST_WAIT,
	POST_FAR,
	POST_SOON,
};

static void
PostAs(TaskScheduler& ts, Task& t, int mode)
{
	switch (mode)
	{
	case POST_NOW:
		return ts.Post(&t);
	case POST_WAIT:
		return ts.PostWait(&t);
	case POST_FAR:
		return ts.PostDelay(&t, theFar);
	default:
		return ts.PostDelay(&t, 3);
	}
}

//////////////////////////////////////////////////////////////////////////////////////////
// Wakeups are never lost.

struct WakeState
{
	struct Waker
	{
		volatile int myTask = -1;
		volatile uint64_t myReturnMs = 0;
		volatile bool myIsReturned = false;
	};
	volatile int myExecs[4] = {};
	volatile bool myIsStop = false;
	volatile int myDone = 0;
	volatile bool myIsRunning[4] = {};
	Waker myWakers[4];
	volatile int myServed = 0;
	volatile int myNext[4] = {};
};
static WakeState theWake;

PBT_TEST(sch_wakeup, MODE_FORK, 6)
{
	sim::IgnoreMemory(&theWake, sizeof(theWake));
	sim::GetConfig().myTimeJumps = false;
	sim::SetNowNs(g.Pick({1000000ull, 123456789000ull}) + g.Below(3000000));
	WakeState& st = theWake;
	int subSize = 1 + (int)g.Below(3);
	int threadCount = 1 + (int)g.Below(3);
	int taskCount = 1 + (int)g.Below(3);
	int wakerCount = 1 + (int)g.Below(3);
	std::vector<std::vector<int>> modes(taskCount);
	for (auto& m : modes)
	{
		int n = 1 + (int)g.Below(5);
		for (int i = 0; i < n; ++i)
			m.push_back((int)g.Weighted({2, 4, 4, 1}));
	}
	Describe("sub-queue %d threads %d tasks %d wakers %d\n", subSize, threadCount, taskCount,
		wakerCount);
	{
		TaskScheduler ts("tst", subSize);
		std::vector<Task*> tasks;
		for (int i = 0; i < taskCount; ++i)
		{
			tasks.push_back(new Task([&, i](Task* t) {
				bool isStop;
				{
					sim::Quiet q;
					if (st.myIsRunning[i])
						Fail("parallel", "task %d is executed in parallel", i);
					st.myIsRunning[i] = true;
					st.myExecs[i] = st.myExecs[i] + 1;
					uint64_t now = sim::NowMs();
					for (WakeState::Waker& w : st.myWakers)
					{
						if (w.myTask != i || !w.myIsReturned)
							continue;
						if (now > w.myReturnMs + 1000)
							Fail("lost-wakeup", "task %d was executed %llu ms after a wakeup", i,
								(unsigned long long)(now - w.myReturnMs));
					}
					isStop = st.myIsStop;
					st.myIsRunning[i] = false;
				}
				if (isStop)
				{
					sim::Quiet q;
					st.myDone = st.myDone + 1;
					return;
				}
				int n = st.myNext[i];
				st.myNext[i] = n + 1;
				// A task without a deadline would execute all the time.
				int mode = modes[i][n % modes[i].size()];
				if (mode == POST_NOW && n > 20)
					mode = POST_WAIT;
				if (mode == POST_SOON && n > 20)
					mode = POST_FAR;
				PostAs(TaskScheduler::This(), *t, mode);
			}));
		}
		ts.Start(threadCount);
		for (int i = 0; i < taskCount; ++i)
			PostAs(ts, *tasks[i], modes[i][0]);
		std::vector<std::thread> threads;
		for (int w = 0; w < wakerCount; ++w)
		{
			struct Op { int myTask; bool myIsWait; int myPoints; };
			std::vector<Op> ops;
			int n = 1 + (int)g.Below(6);
			for (int i = 0; i < n; ++i)
			{
				Op op;
				op.myTask = (int)g.Below(taskCount);
				op.myIsWait = i + 1 == n || g.Chance(2, 3);
				op.myPoints = (int)g.Below(4);
				ops.push_back(op);
			}
			threads.emplace_back([&, w, ops]() {
				WakeState::Waker& me = st.myWakers[w];
				for (const Op& op : ops)
				{
					for (int i = 0; i < op.myPoints; ++i)
						sim::Point();
					int start;
					{
						sim::Quiet q;
						start = st.myExecs[op.myTask];
					}
					tasks[op.myTask]->PostWakeup();
					if (!op.myIsWait)
						continue;
					{
						sim::Quiet q;
						if (st.myExecs[op.myTask] == start)
						{
							me.myReturnMs = sim::NowMs();
							me.myTask = op.myTask;
							me.myIsReturned = true;
						}
					}
					sim::WaitFor([&]() { return st.myExecs[op.myTask] > start; },
						"execution after a wakeup");
					sim::Quiet q;
					me.myIsReturned = false;
					me.myTask = -1;
					st.myServed = st.myServed + 1;
				}
			});
		}
		for (std::thread& t : threads)
			t.join();
		{
			sim::Quiet q;
			st.myIsStop = true;
		}
		uint64_t before = sim::NowMs();
		for (Task* t : tasks)
			t->PostWakeup();
		sim::WaitFor([&]() { return st.myDone == taskCount; }, "all tasks after the last wakeup");
		if (sim::NowMs() > before + 1000)
			Fail("lost-wakeup", "the last wakeups weren't noticed");
		ts.Stop();
		for (Task* t : tasks)
			delete t;
	}
	if (sim::Preemptions() > 0)
		NonTrivial();
	FinishOk();
}

//////////////////////////////////////////////////////////////////////////////////////////
// Signals are received exactly once.

struct SignalTask;

struct SignalState
{
	volatile int mySent[4] = {};
	volatile int myReturned[4] = {};
	volatile int mySending[4] = {};
	volatile int myReceived[4] = {};
	volatile bool myIsGone[4] = {};
	volatile int myMustHave[4] = {};
	volatile uint64_t myReturnMs[4] = {};
	volatile bool mySlotReady[4][4] = {};
	volatile int myIgnored = 0;
	volatile bool myIsDelete[4] = {};
	volatile bool myIsLast[4] = {};
};
static SignalState theSig;

PBT_TEST(sch_signal, MODE_FORK, 6)
{
	sim::IgnoreMemory(&theSig, sizeof(theSig));
	sim::GetConfig().myTimeJumps = false;
	sim::SetNowNs(g.Pick({1000000ull, 123456789000ull}) + g.Below(3000000));
	SignalState& st = theSig;
	int subSize = 1 + (int)g.Below(3);
	int threadCount = 1 + (int)g.Below(3);
	int taskCount = 1 + (int)g.Below(3);
	struct Step { bool myIsIgnore; int myMode; };
	struct Plan
	{
		std::vector<Step> mySteps;
		size_t myPos = 0;
		int mySlots[4] = {};
		int mySenders = 1;
		int myRounds = 1;
		int myIgnored = 0;
		bool myIsWakeSpam = false;
	};
	std::vector<Plan> plans(taskCount);
	Describe("sub-queue %d threads %d tasks %d\n", subSize, threadCount, taskCount);
	for (int i = 0; i < taskCount; ++i)
	{
		Plan& p = plans[i];
		int n = 1 + (int)g.Below(5);
		for (int k = 0; k < n; ++k)
			p.mySteps.push_back({g.Chance(1, 3), (int)g.Weighted({1, 4, 4, 1})});
		p.mySenders = 1 + (int)g.Weighted({3, 1, 1});
		p.myRounds = 1 + (int)g.Below(4);
		p.myIsWakeSpam = g.Bool();
		st.myIsDelete[i] = p.mySenders == 1 && !p.myIsWakeSpam && g.Bool();
		Describe("task %d: senders %d rounds %d delete %d spam %d\n", i, p.mySenders, p.myRounds,
			st.myIsDelete[i], p.myIsWakeSpam);
	}
	{
		TaskScheduler ts("tst", subSize);
		std::vector<Task*> tasks;
		for (int i = 0; i < taskCount; ++i)
		{
			tasks.push_back(new Task([&, i](Task* t) {
				Plan& p = plans[i];
				bool isMust;
				{
					sim::Quiet q;
					isMust = st.myMustHave[i] > 0;
					if (isMust && sim::NowMs() > st.myReturnMs[i] + 1000)
						Fail("lost-signal", "task %d waited for the deadline having a signal", i);
				}
				bool isSignaled = t->IsSignaled();
				if (isMust && !isSignaled)
					Fail("lost-signal", "a signal sent to the task %d disappeared", i);
				Step s = p.mySteps[p.myPos++ % p.mySteps.size()];
				if (p.myPos > 12 && (s.myMode == POST_NOW || s.myMode == POST_SOON))
					s.myMode = POST_WAIT;
				bool isIgnore = s.myIsIgnore && p.myIgnored < 4;
				bool isDone = false;
				if (isIgnore)
				{
					if (isSignaled)
					{
						++p.myIgnored;
						sim::Quiet q;
						st.myIgnored = st.myIgnored + 1;
						st.myReturnMs[i] = sim::NowMs();
						st.myMustHave[i] = 1;
					}
				}
				else
				{
					int must;
					bool slots[4];
					{
						sim::Quiet q;
						must = st.myMustHave[i];
						for (int k = 0; k < 4; ++k)
							slots[k] = st.mySlotReady[i][k];
					}
					bool ok;
					{
						// All in one step so as the oracle would see the receipt together with
						// its effect.
						ok = t->ReceiveSignal();
						sim::Quiet q;
						if (ok)
						{
							st.myReceived[i] = st.myReceived[i] + 1;
							st.myMustHave[i] = 0;
							if (st.mySending[i] > 0)
								st.myMustHave[i] = 0;
							isDone = st.myIsLast[i];
						}
					}
					if (!ok && must > 0)
						Fail("lost-signal", "a signal sent to the task %d can't be received", i);
					if (!ok && isSignaled)
						Fail("lost-signal", "task %d is signaled, but can't receive it", i);
					if (ok)
					{
						// Everything written before the send is visible.
						for (int k = 0; k < 4; ++k)
						{
							if (slots[k] && p.mySlots[k] != 100 + k)
								Fail("data", "stale data after a signal");
						}
					}
					int sent;
					{
						sim::Quiet q;
						sent = st.mySent[i];
						if (st.myReceived[i] > sent)
							Fail("extra-signal", "%d signals are sent, %d are received",
								sent, (int)st.myReceived[i]);
					}
				}
				if (isDone)
				{
					bool isDelete = st.myIsDelete[i];
					// The captures are deleted with the task.
					int id = i;
					if (isDelete)
						delete t;
					sim::Quiet q;
					theSig.myIsGone[id] = true;
					return;
				}
				PostAs(TaskScheduler::This(), *t, s.myMode);
			}));
		}
		ts.Start(threadCount);
		for (int i = 0; i < taskCount; ++i)
			PostAs(ts, *tasks[i], plans[i].mySteps[0].myMode);
		std::vector<std::thread> threads;
		for (int i = 0; i < taskCount; ++i)
		{
			if (plans[i].mySenders == 1)
			{
				// Strict accounting.
				std::vector<int> points;
				for (int k = 0; k < plans[i].myRounds; ++k)
					points.push_back((int)g.Below(5));
				threads.emplace_back([&, i, points]() {
					Plan& p = plans[i];
					for (int r = 0; r < p.myRounds; ++r)
					{
						for (int k = 0; k < points[r]; ++k)
							sim::Point();
						if (r == 0)
							p.mySlots[0] = 100;
						if (p.myIsWakeSpam)
							tasks[i]->PostWakeup();
						{
							sim::Quiet q;
							st.mySent[i] = st.mySent[i] + 1;
							st.mySending[i] = 1;
							if (r + 1 == p.myRounds)
								st.myIsLast[i] = true;
							st.mySlotReady[i][0] = true;
						}
						tasks[i]->PostSignal();
						{
							sim::Quiet q;
							st.mySending[i] = 0;
							if (st.myReceived[i] < r + 1)
							{
								st.myReturnMs[i] = sim::NowMs();
								st.myMustHave[i] = 1;
							}
						}
						if (p.myIsWakeSpam && r + 1 != p.myRounds)
							tasks[i]->PostWakeup();
						sim::WaitFor([&]() { return st.myReceived[i] >= r + 1; }, "receipt");
						if (st.myReceived[i] != r + 1)
							Fail("extra-signal", "one signal was received twice");
					}
				});
			}
			else
			{
				for (int k = 0; k < plans[i].mySenders; ++k)
				{
					int points = (int)g.Below(6);
					threads.emplace_back([&, i, k, points]() {
						Plan& p = plans[i];
						for (int j = 0; j < points; ++j)
							sim::Point();
						p.mySlots[k] = 100 + k;
						if (p.myIsWakeSpam)
							tasks[i]->PostWakeup();
						int received;
						{
							sim::Quiet q;
							st.mySent[i] = st.mySent[i] + 1;
							received = st.myReceived[i];
						}
						tasks[i]->PostSignal();
						{
							sim::Quiet q;
							if (st.myReceived[i] == received)
							{
								st.mySlotReady[i][k] = true;
								st.myReturnMs[i] = sim::NowMs();
								st.myMustHave[i] = 1;
							}
						}
						sim::WaitFor([&]() { return st.myReceived[i] > received; }, "receipt");
					});
				}
			}
		}
		for (std::thread& t : threads)
			t.join();
		// The others need a final signal.
		for (int i = 0; i < taskCount; ++i)
		{
			if (plans[i].mySenders == 1)
				continue;
			{
				sim::Quiet q;
				st.myIsLast[i] = true;
				st.mySent[i] = st.mySent[i] + 1;
			}
			tasks[i]->PostSignal();
		}
		uint64_t before = sim::NowMs();
		sim::WaitFor([&]() {
			for (int i = 0; i < taskCount; ++i)
			{
				if (!st.myIsGone[i])
					return false;
			}
			return true;
		}, "all tasks received the signals");
		if (sim::NowMs() > before + 1000)
			Fail("lost-signal", "the last signals weren't noticed");
		ts.Stop();
		for (int i = 0; i < taskCount; ++i)
		{
			if (!st.myIsDelete[i])
				delete tasks[i];
		}
	}
	if (sim::Preemptions() > 0)
		NonTrivial();
	if (st.myIgnored > 0)
		Label("not received at once");
	FinishOk();
}

//////////////////////////////////////////////////////////////////////////////////////////
// Deadlines.

struct DeadlineState
{
	volatile int myWakes[16] = {};
	// Wakeups which are being posted right now.
	volatile int myInside[16] = {};
	volatile bool myIsEnd[16] = {};
	volatile int myDone = 0;
	volatile int myExpired = 0;
	volatile int myEarly = 0;
};
static DeadlineState theDl;

PBT_TEST(sch_deadline, MODE_FORK, 6)
{
	sim::IgnoreMemory(&theDl, sizeof(theDl));
	sim::GetConfig().myTimeJumps = false;
	sim::SetNowNs(g.Pick({1000000ull, 123456789000ull, 86400000000000ull * 400}) +
		g.Below(3000000));
	DeadlineState& st = theDl;
	int subSize = 1 + (int)g.Below(4);
	int threadCount = 1 + (int)g.Below(3);
	int taskCount = 1 + (int)g.Below(10);
	// Operations with the deadline: set delay, set deadline, adjust delay, adjust deadline,
	// wait.
	struct Op { int myType; uint64_t myValue; };
	struct Step { std::vector<Op> myOps; int myPostType; uint64_t myPostValue; };
	struct Plan
	{
		std::vector<Step> mySteps;
		size_t myPos = 0;
		uint64_t myDeadline = 0;
		uint64_t myPostMs = 0;
		bool myIsWoken = false;
		int myWakesPrev = 0;
	};
	auto genValue = [&]() -> uint64_t {
		return g.Pick<uint64_t>({0, 1, 2, 3, 10, 11, 50, 1000, 100000, 4294967295u});
	};
	std::vector<Plan> plans(taskCount);
	Describe("sub-queue %d threads %d tasks %d\n", subSize, threadCount, taskCount);
	bool hasWait = false;
	for (int i = 0; i < taskCount; ++i)
	{
		int n = 1 + (int)g.Below(4);
		Describe("task %d:", i);
		for (int k = 0; k < n; ++k)
		{
			Step s;
			int m = (int)g.Weighted({3, 3, 2, 1});
			bool isWait = false;
			for (int j = 0; j < m; ++j)
			{
				Op op;
				op.myType = (int)g.Weighted({3, 3, 3, 3, 1});
				op.myValue = genValue();
				isWait = isWait || op.myType == 4;
				s.myOps.push_back(op);
				Describe(" %s(%llu)", op.myType == 0 ? "delay" : op.myType == 1 ? "deadline" :
					op.myType == 2 ? "adjdelay" : op.myType == 3 ? "adjdeadline" : "wait",
					(unsigned long long)op.myValue);
			}
			// Post, PostDelay, PostDeadline, PostWait.
			s.myPostType = (int)g.Weighted({3, 3, 3, 1});
			hasWait = hasWait || s.myPostType == 3 || (isWait && s.myPostType == 0);
			s.myPostValue = genValue();
			Describe(" post%d(%llu);", s.myPostType, (unsigned long long)s.myPostValue);
			plans[i].mySteps.push_back(s);
		}
		Describe("\n");
	}
	int wakerOps = g.Chance(1, 3) ? 1 + (int)g.Below(6) : 0;
	Describe("wakeups %d\n", wakerOps);
	bool hasWakes = wakerOps > 0;
	{
		TaskScheduler ts("tst", subSize);
		std::vector<Task*> tasks;
		auto postNext = [&](int i, Task* t) {
			Plan& p = plans[i];
			Step& s = p.mySteps[p.myPos++];
			// The model. Initially there is no deadline.
			uint64_t model = 0;
			if (t->GetDeadline() != 0)
				Fail("deadline-kept", "the deadline isn't dropped in an execution");
			for (const Op& op : s.myOps)
			{
				uint64_t lo = mg::box::GetMilliseconds();
				uint64_t was = model;
				switch (op.myType)
				{
				case 0:
					t->SetDelay((uint32_t)op.myValue);
					break;
				case 1:
					t->SetDeadline(lo + op.myValue);
					break;
				case 2:
					t->AdjustDelay((uint32_t)op.myValue);
					break;
				case 3:
					t->AdjustDeadline(lo + op.myValue);
					break;
				default:
					t->SetWait();
					break;
				}
				uint64_t hi = mg::box::GetMilliseconds();
				model = t->GetDeadline();
				bool ok;
				if (op.myType == 0)
					ok = model >= lo + op.myValue && model <= hi + op.myValue;
				else if (op.myType == 1)
					ok = model == lo + op.myValue;
				else if (op.myType == 2)
					ok = model == was || (model < was && model >= lo + op.myValue &&
						model <= hi + op.myValue);
				else if (op.myType == 3)
					ok = model == std::min(was, lo + op.myValue);
				else
					ok = model == MG_TIME_INFINITE;
				if (op.myType == 2 && was > hi + op.myValue && model == was)
					ok = false;
				if (!ok)
					Fail("deadline-set", "operation %d with %llu gave the deadline %llu of %llu",
						op.myType, (unsigned long long)op.myValue, (unsigned long long)model,
						(unsigned long long)was);
			}
			uint64_t now = mg::box::GetMilliseconds();
			if (s.myPostType == 0)
				p.myDeadline = model;
			else if (s.myPostType == 3)
				p.myDeadline = MG_TIME_INFINITE;
			else
				p.myDeadline = now + s.myPostValue;
			p.myPostMs = now;
			uint64_t deadline = p.myDeadline;
			if (s.myPostType == 0)
				ts.Post(t);
			else if (s.myPostType == 1)
				// The time could change in the meantime.
				ts.PostDelay(t, (uint32_t)s.myPostValue);
			else if (s.myPostType == 3)
				ts.PostWait(t);
			else
				ts.PostDeadline(t, deadline);
		};
		for (int i = 0; i < taskCount; ++i)
		{
			tasks.push_back(new Task([&, i](Task* t) {
				Plan& p = plans[i];
				uint64_t now = mg::box::GetMilliseconds();
				bool isWoken;
				{
					sim::Quiet q;
					int wakes = st.myWakes[i];
					isWoken = p.myIsWoken || wakes != p.myWakesPrev;
					// A wakeup can come right before this callback or be still being posted.
					p.myIsWoken = wakes != p.myWakesPrev || st.myInside[i] > 0;
					p.myWakesPrev = wakes;
				}
				if (now < p.myDeadline)
				{
					if (!isWoken)
						Fail("early", "task %d is executed %llu ms too early", i,
							(unsigned long long)(p.myDeadline - now));
					if (t->IsExpired())
						Fail("expired", "task %d is said to be expired, but it isn't", i);
					st.myEarly = st.myEarly + 1;
				}
				else
				{
					if (!isWoken && !t->IsExpired())
						Fail("expired", "task %d is expired, but is said not to be", i);
					st.myExpired = st.myExpired + 1;
				}
				uint64_t start = std::max(p.myDeadline, p.myPostMs);
				if (start != MG_TIME_INFINITE && now > start + 20)
					Fail("late", "task %d is executed %llu ms too late", i,
						(unsigned long long)(now - start));
				if (t->IsSignaled())
					t->ReceiveSignal();
				if (p.myPos < p.mySteps.size())
					return postNext(i, t);
				sim::Quiet q;
				st.myIsEnd[i] = true;
				st.myDone = st.myDone + 1;
			}));
		}
		int before = g.Bool() ? (int)g.Below(taskCount + 1) : 0;
		for (int i = 0; i < before; ++i)
			postNext(i, tasks[i]);
		ts.Start(threadCount);
		for (int i = before; i < taskCount; ++i)
			postNext(i, tasks[i]);
		if (hasWakes)
		{
			for (int i = 0; i < wakerOps; ++i)
			{
				int delay = (int)g.Pick({0, 0, 1, 5, 30});
				if (delay > 0)
					mg::box::Sleep(delay);
				int target = (int)g.Below(taskCount);
				{
					sim::Quiet q;
					st.myWakes[target] = st.myWakes[target] + 1;
					st.myInside[target] = st.myInside[target] + 1;
				}
				if (g.Bool())
					tasks[target]->PostWakeup();
				else
					tasks[target]->PostSignal();
				sim::Quiet q;
				st.myInside[target] = st.myInside[target] - 1;
			}
		}
		// Those waiting forever need help.
		while (hasWait)
		{
			sim::WaitIdle(sim::NowNs() + 1000000000000000000ull);
			if (st.myDone == taskCount)
				break;
			bool isFound = false;
			for (int i = 0; i < taskCount; ++i)
			{
				{
					sim::Quiet q;
					if (plans[i].myDeadline != MG_TIME_INFINITE || st.myIsEnd[i])
						continue;
					isFound = true;
					st.myWakes[i] = st.myWakes[i] + 1;
					st.myInside[i] = st.myInside[i] + 1;
				}
				if (g.Bool())
					tasks[i]->PostWakeup();
				else
					tasks[i]->PostSignal();
				sim::Quiet q;
				st.myInside[i] = st.myInside[i] - 1;
			}
			if (!isFound)
				Fail("lost", "not all the tasks are executed");
		}
		sim::WaitFor([&]() { return st.myDone == taskCount; }, "all the tasks");
		ts.Stop();
		for (Task* t : tasks)
			delete t;
	}
	if (hasWait)
		Label("waiting forever");
	if (st.myExpired > 1)
		NonTrivial();
	if (st.myEarly > 0)
		Label("woken before the deadline");
	FinishOk();
}

//////////////////////////////////////////////////////////////////////////////////////////
// Emptiness, stop, destruction.

struct EmptyState
{
	// Surely in the scheduler or executed right now.
	volatile int myLive = 0;
	volatile int myZeros = 0;
	volatile int myExecs = 0;
	volatile int myTotal = 0;
	volatile int myRunning = 0;
	volatile int myState[64] = {};
	volatile int myTrue = 0;
	volatile int myFalse = 0;
	volatile bool myIsStopped = false;
	volatile bool myIsEnd = false;
};
static EmptyState theEmpty;

static void
EmptyInc()
{
	theEmpty.myLive = theEmpty.myLive + 1;
}

static void
EmptyDec()
{
	theEmpty.myLive = theEmpty.myLive - 1;
	if (theEmpty.myLive == 0)
		theEmpty.myZeros = theEmpty.myZeros + 1;
}

PBT_TEST(sch_empty, MODE_FORK, 8)
{
	sim::IgnoreMemory(&theEmpty, sizeof(theEmpty));
	sim::GetConfig().myTimeJumps = g.Bool();
	sim::SetNowNs(g.Pick({1000000ull, 123456789000ull}) + g.Below(3000000));
	EmptyState& st = theEmpty;
	int subSize = 1 + (int)g.Below(3);
	int threadCount = 1 + (int)g.Below(3);
	int chainCount = 1 + (int)g.Below(5);
	int checkers = 1 + (int)g.Below(2);
	int ending = (int)g.Below(3);
	int stops = (int)g.Weighted({3, 1, 1});
	bool isOwnerCheck = g.Bool();
	struct Chain { int myLen; int myDelay; bool myIsFork; int mySleep; int myPoints; };
	std::vector<Chain> chains;
	Describe("sub-queue %d threads %d checkers %d ending %d stops %d\n", subSize, threadCount,
		checkers, ending, stops);
	for (int i = 0; i < chainCount; ++i)
	{
		Chain c;
		c.myLen = 1 + (int)g.Below(4);
		c.myDelay = g.Chance(1, 3) ? (int)g.Pick({1, 5, 15}) : 0;
		c.myIsFork = g.Chance(1, 4);
		c.mySleep = g.Chance(1, 3) ? 1 + (int)g.Below(3) : 0;
		c.myPoints = (int)g.Below(6);
		Describe("chain len %d delay %d fork %d\n", c.myLen, c.myDelay, c.myIsFork);
		chains.push_back(c);
	}
	{
		TaskScheduler* ts = new TaskScheduler("tst", subSize);
		std::vector<Task*> tasks;
		std::vector<int> left(chainCount);
		// Without happens-before a checker is not obliged to know about a posted task.
		std::atomic<int> known{0};
		auto begin = [&](int id) {
			bool isKnown;
			{
				sim::Quiet q;
				isKnown = st.myState[id] != 1;
			}
			if (!isKnown)
				known.fetch_add(1, std::memory_order_acq_rel);
			sim::Quiet q;
			if (st.myState[id] == 1)
			{
				st.myState[id] = 2;
				EmptyInc();
			}
			st.myRunning = st.myRunning + 1;
			st.myExecs = st.myExecs + 1;
			if (st.myIsStopped)
				Fail("executed-stopped", "a task is executed while the scheduler is stopped");
		};
		auto end = [&](int id) {
			sim::Quiet q;
			st.myRunning = st.myRunning - 1;
			st.myState[id] = 3;
			EmptyDec();
		};
		// Every post has its own record.
		static int nextId;
		nextId = 0;
		std::vector<int> curId(chainCount);
		std::function<void(int)> postInside = [&](int i) {
			int id;
			{
				sim::Quiet q;
				id = nextId++;
				st.myState[id] = 2;
				st.myTotal = st.myTotal + 1;
				EmptyInc();
			}
			curId[i] = id;
			ts->PostDelay(tasks[i], chains[i].myDelay);
		};
		for (int i = 0; i < chainCount; ++i)
		{
			left[i] = chains[i].myLen;
			tasks.push_back(new Task([&, i](Task*) {
				int id = curId[i];
				begin(id);
				for (int k = 0; k < chains[i].myPoints; ++k)
					sim::Point();
				if (chains[i].mySleep > 0)
					mg::box::Sleep(chains[i].mySleep);
				if (chains[i].myIsFork && left[i] == 2)
				{
					int oneId;
					{
						sim::Quiet q;
						oneId = nextId++;
						st.myState[oneId] = 2;
						st.myTotal = st.myTotal + 1;
						EmptyInc();
					}
					ts->PostOneShot([&, oneId]() {
						begin(oneId);
						sim::Point();
						end(oneId);
					});
				}
				if (--left[i] > 0)
					postInside(i);
				end(id);
			}));
		}
		std::vector<std::thread> threads;
		volatile bool isStarted = false;
		auto check = [&](int kind, uint64_t limit) {
			int zeros;
			bool wasZero;
			uint64_t start;
			{
				sim::Quiet q;
				zeros = st.myZeros;
				wasZero = st.myLive == 0;
				start = sim::NowNs();
			}
			known.fetch_add(0, std::memory_order_acq_rel);
			bool res;
			if (kind == 0)
				res = ts->IsEmpty();
			else
				res = ts->WaitEmpty(mg::box::TimeDuration(limit));
			sim::Quiet q;
			if (res)
			{
				st.myTrue = st.myTrue + 1;
				if (!wasZero && st.myZeros == zeros)
					Fail("not-empty", "the scheduler was said to be empty with %d tasks",
						st.myLive);
			}
			else
			{
				st.myFalse = st.myFalse + 1;
				if (kind != 0 && (sim::NowNs() - start) / 1000000 + 1 < limit)
					Fail("wait-empty", "the waiting timed out too early");
			}
		};
		for (int c = 0; c < checkers; ++c)
		{
			struct Op { int myKind; uint64_t myLimit; int myPoints; };
			std::vector<Op> ops;
			int n = 1 + (int)g.Below(5);
			for (int i = 0; i < n; ++i)
				ops.push_back({(int)g.Weighted({3, 1}), g.Pick<uint64_t>({0, 1, 20}),
					(int)g.Below(15)});
			threads.emplace_back([&, ops]() {
				for (const Op& op : ops)
				{
					for (int i = 0; i < op.myPoints; ++i)
						sim::Point();
					check(op.myKind, op.myLimit);
				}
			});
		}
		auto postOutside = [&](int i) {
			int id;
			{
				sim::Quiet q;
				id = nextId++;
				st.myState[id] = 1;
				st.myTotal = st.myTotal + 1;
			}
			curId[i] = id;
			ts->PostDelay(tasks[i], chains[i].myDelay);
			known.fetch_add(1, std::memory_order_acq_rel);
			sim::Quiet q;
			if (st.myState[id] == 1)
			{
				st.myState[id] = 2;
				EmptyInc();
			}
		};
		int before = (int)g.Below(chainCount + 1);
		for (int i = 0; i < before; ++i)
			postOutside(i);
		ts->Start(threadCount);
		for (int i = before; i < chainCount; ++i)
			postOutside(i);
		for (int i = 0; i < stops; ++i)
		{
			int points = (int)g.Below(40);
			for (int k = 0; k < points; ++k)
				sim::Point();
			ts->Stop();
			{
				sim::Quiet q;
				if (st.myRunning != 0)
					Fail("stop", "stop returned, but a task is being executed");
				st.myIsStopped = true;
			}
			if (g.Bool())
				check(0, 0);
			points = (int)g.Below(10);
			for (int k = 0; k < points; ++k)
				sim::Point();
			{
				sim::Quiet q;
				st.myIsStopped = false;
			}
			ts->Start(1 + (uint32_t)g.Below(3));
		}
		if (isOwnerCheck)
			check(1, g.Pick<uint64_t>({0, 3, 10000}));
		// Nobody can use the scheduler when it is being deleted.
		for (std::thread& t : threads)
			t.join();
		if (ending == 1)
		{
			if (!ts->WaitEmpty())
				Fail("wait-empty", "infinite waiting timed out");
			sim::Quiet q;
			if (st.myLive != 0)
				Fail("not-empty", "the scheduler isn't empty after the waiting");
		}
		else if (ending == 2)
		{
			sim::WaitFor([&]() { return st.myLive == 0; }, "all tasks");
			if (!ts->WaitEmpty(mg::box::TimeDuration(100000)))
				Fail("wait-empty", "the empty scheduler isn't said to be empty");
		}
		delete ts;
		if (st.myLive != 0 || st.myRunning != 0)
			Fail("destroyed", "destroyed with %d live tasks", st.myLive);
		if (st.myExecs != st.myTotal)
			Fail("lost", "%d executions of %d posts", st.myExecs, st.myTotal);
		for (Task* t : tasks)
			delete t;
	}
	if (sim::Preemptions() > 0)
		NonTrivial();
	if (st.myTrue > 0)
		Label("was empty");
	if (st.myFalse > 0)
		Label("was not empty");
	FinishOk();
}

// Focused on the workers passing the tasks to each other.
PBT_TEST(sch_empty_few, MODE_FORK, 8)
{
	sim::IgnoreMemory(&theEmpty, sizeof(theEmpty));
	sim::GetConfig().myTimeJumps = false;
	sim::GetConfig().mySpurious = false;
	sim::SetNowNs(1000000);
	EmptyState& st = theEmpty;
	int subSize = 1 + (int)g.Below(3);
	int threadCount = 2 + (int)g.Below(2);
	int taskCount = 1 + (int)g.Weighted({3, 1});
	int sleepMs = (int)g.Below(3);
	int hops = 1 + (int)g.Below(2);
	int checks = 1 + (int)g.Below(4);
	Describe("sub-queue %d threads %d tasks %d sleep %d hops %d checks %d\n", subSize, threadCount,
		taskCount, sleepMs, hops, checks);
	{
		TaskScheduler ts("tst", subSize);
		std::vector<Task*> tasks;
		std::vector<int> left(taskCount, hops);
		for (int i = 0; i < taskCount; ++i)
		{
			tasks.push_back(new Task([&, i](Task* t) {
				{
					sim::Quiet q;
					if (st.myState[i] == 0)
					{
						st.myState[i] = 1;
						EmptyInc();
					}
				}
				if (sleepMs > 0)
					mg::box::Sleep(sleepMs);
				else
					sim::Yield();
				if (--left[i] > 0)
				{
					{
						sim::Quiet q;
						EmptyInc();
					}
					ts.Post(t);
				}
				sim::Quiet q;
				st.myExecs = st.myExecs + 1;
				EmptyDec();
			}));
		}
		ts.Start(threadCount);
		if (g.Bool())
			sim::WaitIdle();
		for (int i = 0; i < taskCount; ++i)
		{
			ts.Post(tasks[i]);
			sim::Quiet q;
			if (st.myState[i] == 0)
			{
				st.myState[i] = 1;
				EmptyInc();
			}
		}
		for (int i = 0; i < checks; ++i)
		{
			int zeros;
			bool wasZero;
			{
				sim::Quiet q;
				zeros = st.myZeros;
				wasZero = st.myLive == 0;
			}
			bool res = ts.IsEmpty();
			sim::Quiet q;
			if (res && !wasZero && st.myZeros == zeros)
				Fail("not-empty", "the scheduler was said to be empty with %d tasks", st.myLive);
			if (res)
				st.myTrue = st.myTrue + 1;
		}
		if (!ts.WaitEmpty())
			Fail("wait-empty", "infinite waiting timed out");
		if (st.myLive != 0 || st.myExecs != taskCount * hops)
			Fail("not-empty", "the scheduler isn't empty after the waiting");
		ts.Stop();
		for (Task* t : tasks)
			delete t;
	}
	if (sim::Preemptions() > 0)
		NonTrivial();
	if (st.myTrue > 0)
		Label("was empty");
	FinishOk();
}

//////////////////////////////////////////////////////////////////////////////////////////
// Fairness.

struct FairState
{
	volatile int mySeq[8] = {};
	volatile int myExecs = 0;
	volatile int myDone = 0;
	volatile int myPosted = 0;
	volatile bool myIsStop = false;
	volatile int myBusyAlive = 0;
	volatile int myProbesDone = 0;
	volatile int myMaxWait = 0;
	volatile uint64_t myLastDeadline = 0;
	volatile int myOrdered = 0;
};
static FairState theFair;

// Tasks posted by one thread go in the order of posting.
PBT_TEST(sch_fifo, MODE_FORK, 4)
{
	sim::IgnoreMemory(&theFair, sizeof(theFair));
	sim::SetNowNs(1000000 + g.Below(3000000));
	FairState& st = theFair;
	int subSize = 1 + (int)g.Below(5);
	int posters = 1 + (int)g.Below(3);
	std::vector<int> counts(posters);
	int total = 0;
	for (int& c : counts)
	{
		c = 1 + (int)g.Small(20);
		total += c;
	}
	int inner = (int)g.Small(12);
	int reserve = g.Chance(1, 3) ? (int)g.Below(20) : 0;
	Describe("sub-queue %d posters %d total %d inner %d\n", subSize, posters, total, inner);
	{
		TaskScheduler ts("tst", subSize);
		if (reserve)
			ts.Reserve(reserve);
		struct Item
		{
			Task myTask;
			int myPoster;
			int mySeq;
		};
		std::vector<Item*> items;
		auto make = [&](int poster, int seq) {
			Item* it = new Item();
			it->myPoster = poster;
			it->mySeq = seq;
			it->myTask.SetCallback([&, it](Task*) {
				sim::Quiet q;
				if (st.mySeq[it->myPoster] != it->mySeq)
					Fail("order", "task %d of the poster %d is executed instead of %d",
						it->mySeq, it->myPoster, (int)st.mySeq[it->myPoster]);
				st.mySeq[it->myPoster] = it->mySeq + 1;
				st.myDone = st.myDone + 1;
			});
			items.push_back(it);
			return it;
		};
		std::vector<std::vector<Item*>> byPoster(posters + 1);
		for (int p = 0; p < posters; ++p)
		{
			for (int i = 0; i < counts[p]; ++i)
				byPoster[p].push_back(make(p, i));
		}
		// The last poster is a task.
		for (int i = 0; i < inner; ++i)
			byPoster[posters].push_back(make(posters, i));
		Task poster([&](Task*) {
			for (Item* it : byPoster[posters])
				ts.Post(&it->myTask);
			sim::Quiet q;
			st.myDone = st.myDone + 1;
		});
		bool isStartFirst = g.Bool();
		if (isStartFirst)
			ts.Start(1);
		std::vector<std::thread> threads;
		for (int p = 1; p < posters; ++p)
		{
			threads.emplace_back([&, p]() {
				for (Item* it : byPoster[p])
					ts.Post(&it->myTask);
			});
		}
		for (Item* it : byPoster[0])
			ts.Post(&it->myTask);
		ts.Post(&poster);
		for (std::thread& t : threads)
			t.join();
		if (!isStartFirst)
			ts.Start(1);
		sim::WaitFor([&]() { return st.myDone == total + inner + 1; }, "all the tasks");
		ts.Stop();
		for (Item* it : items)
			delete it;
	}
	if (total > subSize)
		NonTrivial();
	FinishOk();
}

// Tasks re-posting themselves don't starve the others.
PBT_TEST(sch_starve, MODE_FORK, 4)
{
	sim::IgnoreMemory(&theFair, sizeof(theFair));
	sim::GetConfig().myTimeJumps = false;
	sim::GetConfig().myStepCostNs = g.Pick({1000ull, 20000ull, 100000ull});
	sim::GetConfig().myFairAfter = 3000;
	sim::SetNowNs(1000000 + g.Below(3000000));
	FairState& st = theFair;
	int subSize = 1 + (int)g.Below(4);
	int threadCount = 1 + (int)g.Weighted({4, 1, 1});
	int busyCount = 1 + (int)g.Below(8);
	int probeCount = 1 + (int)g.Below(8);
	Describe("sub-queue %d threads %d busy %d probes %d\n", subSize, threadCount, busyCount,
		probeCount);
	// Kinds: immediate, due by a deadline, woken, signaled.
	std::vector<int> kinds;
	std::vector<int> delays;
	for (int i = 0; i < probeCount; ++i)
	{
		kinds.push_back((int)g.Below(4));
		delays.push_back((int)g.Pick({0, 1, 2, 5, 5}));
		Describe("probe kind %d delay %d\n", kinds.back(), delays.back());
	}
	bool isStrict = threadCount == 1;
	int bound = 2 * (busyCount + probeCount) + 4 * subSize + 10;
	struct Probe
	{
		Task* myTask;
		int myState = 0;
		int myExecsAt = 0;
		bool myIsStarted = false;
		uint64_t myDeadline = 0;
	};
	{
		TaskScheduler ts("tst", subSize);
		std::vector<Task*> busy;
		static Probe probes[10];
		sim::IgnoreMemory(probes, sizeof(probes));
		auto onExec = [&]() {
			sim::Quiet q;
			st.myExecs = st.myExecs + 1;
			uint64_t now = sim::NowMs();
			for (int i = 0; i < probeCount; ++i)
			{
				Probe& p = probes[i];
				if (p.myState != 1)
					continue;
				if (!p.myIsStarted && p.myDeadline != 0 && now >= p.myDeadline)
				{
					// Became due.
					p.myIsStarted = true;
					p.myExecsAt = st.myExecs;
				}
				int wait = st.myExecs - p.myExecsAt;
				if (p.myIsStarted && wait > st.myMaxWait)
					st.myMaxWait = wait;
				if (p.myIsStarted && isStrict && wait > bound)
					Fail("starvation", "probe %d of kind %d is ready, but %d others are executed "
						"already", i, kinds[i], wait);
			}
		};
		for (int i = 0; i < busyCount; ++i)
		{
			busy.push_back(new Task([&](Task* t) {
				onExec();
				if (!st.myIsStop)
					return TaskScheduler::This().Post(t);
				sim::Quiet q;
				st.myBusyAlive = st.myBusyAlive - 1;
			}));
		}
		st.myBusyAlive = busyCount;
		for (int i = 0; i < probeCount; ++i)
		{
			probes[i].myTask = new Task([&, i](Task* t) {
				onExec();
				if (t->IsSignaled())
					t->ReceiveSignal();
				sim::Quiet q;
				probes[i].myState = 2;
				st.myProbesDone = st.myProbesDone + 1;
			});
		}
		ts.Start(threadCount);
		for (Task* t : busy)
			ts.Post(t);
		for (int i = 0; i < probeCount; ++i)
		{
			int points = (int)g.Below(30);
			for (int k = 0; k < points; ++k)
				sim::Yield();
			Probe& p = probes[i];
			uint64_t deadline = 0;
			if (kinds[i] == 0)
				ts.Post(p.myTask);
			else if (kinds[i] == 1)
			{
				deadline = mg::box::GetMilliseconds() + delays[i];
				ts.PostDeadline(p.myTask, deadline);
			}
			else
			{
				if (delays[i] == 0)
					ts.PostWait(p.myTask);
				else
					ts.PostDelay(p.myTask, theFar);
				points = (int)g.Below(30);
				for (int k = 0; k < points; ++k)
					sim::Yield();
				if (kinds[i] == 2)
					p.myTask->PostWakeup();
				else
					p.myTask->PostSignal();
			}
			sim::Quiet q;
			if (p.myState == 0)
			{
				p.myState = 1;
				p.myDeadline = deadline;
				p.myIsStarted = deadline == 0;
				p.myExecsAt = st.myExecs;
			}
		}
		sim::WaitFor([&]() { return st.myProbesDone == probeCount; }, "all the probes");
		{
			sim::Quiet q;
			st.myIsStop = true;
		}
		sim::WaitFor([&]() { return st.myBusyAlive == 0; }, "all the busy tasks");
		ts.Stop();
		for (Task* t : busy)
			delete t;
		for (int i = 0; i < probeCount; ++i)
			delete probes[i].myTask;
	}
	if (st.myExecs > 2 * (busyCount + probeCount))
		NonTrivial();
	FinishOk();
}

// Due tasks are executed in the order of deadlines.
PBT_TEST(sch_order, MODE_FORK, 4)
{
	sim::IgnoreMemory(&theFair, sizeof(theFair));
	sim::GetConfig().myTimeJumps = false;
	sim::SetNowNs(1000000 + g.Below(3000000));
	FairState& st = theFair;
	int subSize = 1 + (int)g.Below(5);
	int taskCount = 1 + (int)g.Small(24);
	int wakeCount = (int)g.Small(4);
	int sleepMs = (int)g.Pick({0, 5, 15, 40, 200});
	Describe("sub-queue %d tasks %d wakes %d sleep %d\n", subSize, taskCount, wakeCount, sleepMs);
	{
		TaskScheduler ts("tst", subSize);
		std::vector<Task*> tasks;
		std::vector<uint64_t> deadlines;
		static volatile bool isWoken[32];
		sim::IgnoreMemory((void*)isWoken, sizeof(isWoken));
		uint64_t base = mg::box::GetMilliseconds() + 1000;
		for (int i = 0; i < taskCount; ++i)
		{
			deadlines.push_back(base + g.Below(50));
			tasks.push_back(new Task([&, i](Task* t) {
				sim::Quiet q;
				st.myDone = st.myDone + 1;
				if (isWoken[i])
					return;
				if (deadlines[i] < st.myLastDeadline)
					Fail("order", "task with the deadline %llu is executed after %llu",
						(unsigned long long)(deadlines[i] - base),
						(unsigned long long)(st.myLastDeadline - base));
				if (sim::NowMs() < deadlines[i])
					Fail("early", "executed too early");
				st.myLastDeadline = deadlines[i];
				st.myOrdered = st.myOrdered + 1;
			}));
		}
		ts.Start(1);
		for (int i = 0; i < taskCount; ++i)
			ts.PostDeadline(tasks[i], deadlines[i]);
		sim::WaitIdle(sim::NowNs() + 500000000ull);
		for (int i = 0; i < wakeCount; ++i)
		{
			int target = (int)g.Below(taskCount);
			isWoken[target] = true;
			tasks[target]->PostWakeup();
		}
		Task sleeper([&](Task*) {
			mg::box::Sleep(sleepMs);
		});
		if (sleepMs > 0)
			ts.PostDeadline(&sleeper, base + g.Below(20));
		sim::WaitFor([&]() { return st.myDone == taskCount; }, "all the tasks");
		// The sleeper isn't counted.
		ts.WaitEmpty();
		ts.Stop();
		for (Task* t : tasks)
			delete t;
	}
	if (st.myOrdered > 2)
		NonTrivial();
	FinishOk();
}

//////////////////////////////////////////////////////////////////////////////////////////
// Statistics of the workers.

struct StatState
{
	volatile int myExecs = 0;
	volatile int myRunning = 0;
	volatile int myChecks = 0;
	volatile uint64_t myPopped = 0;
	volatile uint64_t myPoppedScheds = 0;
};

static StatState theStat;

PBT_TEST(sch_stat, MODE_FORK, 4)
{
	sim::IgnoreMemory(&theStat, sizeof(theStat));
	sim::GetConfig().myIsWeak = g.Bool();
	sim::GetConfig().myTimeJumps = false;
	StatState& st = theStat;
	int subSize = 1 + (int)g.Below(5);
	int threadCount = 1 + (int)g.Below(4);
	int roundCount = 1 + (int)g.Below(4);
	Describe("sub-queue %d threads %d\n", subSize, threadCount);
	int total = 0;
	{
		TaskScheduler ts("tst", subSize);
		ts.Start(threadCount);
		uint32_t count = 0;
		mg::sch::TaskSchedulerThread* const* threads = ts.GetThreads(count);
		if ((int)count != threadCount)
			Fail("stat-threads", "%u threads instead of %d", count, threadCount);
		auto onExec = [&]() {
			{
				sim::Quiet q;
				st.myExecs = st.myExecs + 1;
				st.myRunning = st.myRunning + 1;
			}
			if (g.Chance(1, 4))
				sim::Yield();
			int running = 0;
			for (uint32_t i = 0; i < count; ++i)
				running += threads[i]->GetState() == mg::sch::TASK_SCHEDULER_WORKER_STATE_RUNNING;
			// Parts can be taken by anybody at any moment.
			uint64_t execs = 0;
			uint64_t scheds = 0;
			if (g.Chance(1, 5))
			{
				uint32_t no = (uint32_t)g.Below(count);
				execs = threads[no]->StatPopExecuteCount();
				scheds = threads[no]->StatPopScheduleCount();
			}
			sim::Quiet q;
			st.myPopped = st.myPopped + execs;
			st.myPoppedScheds = st.myPoppedScheds + scheds;
			st.myRunning = st.myRunning - 1;
			// Own worker is running for sure. The others are seen with a delay.
			if (running == 0)
				Fail("stat-running", "no running workers during a task execution");
			st.myChecks = st.myChecks + 1;
		};
		uint64_t sumExec = 0;
		for (int round = 0; round < roundCount; ++round)
		{
			int taskCount = (int)g.Below(8);
			std::vector<Task*> tasks;
			std::vector<int> left(taskCount, 0);
			int expected = 0;
			Describe("round %d:", round);
			for (int i = 0; i < taskCount; ++i)
			{
				left[i] = (int)g.Small(5);
				expected += left[i] + 1;
				Describe(" %d", left[i] + 1);
				tasks.push_back(new Task([&, i](Task* t) {
					onExec();
					int mode;
					{
						sim::Quiet q;
						if (left[i]-- == 0)
							return;
						mode = g.Bool() ? POST_NOW : POST_SOON;
					}
					PostAs(ts, *t, mode);
				}));
			}
			int oneShots = (int)g.Below(3);
			expected += oneShots;
			Describe(" one-shots %d\n", oneShots);
			for (Task* t : tasks)
				ts.Post(t);
			for (int i = 0; i < oneShots; ++i)
				ts.PostOneShot([&]() { onExec(); });
			total += expected;
			HashMix(expected);
			sim::WaitFor([&]() { return st.myExecs == total; }, "all the executions");
			ts.WaitEmpty();
			// No more wakeups are expected. All the workers except the one waiting as the
			// scheduler must come to rest.
			sim::WaitIdle(sim::NowNs() + 100000000ull);
			uint64_t execs = 0;
			uint64_t scheds = 0;
			int running = 0;
			for (uint32_t i = 0; i < count; ++i)
			{
				execs += threads[i]->StatPopExecuteCount();
				if (g.Bool() && threads[i]->StatPopExecuteCount() != 0)
					Fail("stat-pop", "the count isn't reset");
				scheds += threads[i]->StatPopScheduleCount();
				running += threads[i]->GetState() == mg::sch::TASK_SCHEDULER_WORKER_STATE_RUNNING;
			}
			{
				sim::Quiet q;
				execs += st.myPopped;
				scheds += st.myPoppedScheds;
				st.myPopped = 0;
				st.myPoppedScheds = 0;
			}
			sumExec += execs;
			if (sumExec != (uint64_t)total)
				Fail("stat-execs", "%llu executions are counted instead of %d", (unsigned long long)sumExec, total);
			if (expected != 0 && scheds == 0)
				Fail("stat-scheds", "no scheduling was counted, while %d executions were", expected);
			if (!sim::GetConfig().myIsWeak && running > 1)
				Fail("stat-running", "%d workers are running having nothing to do", running);
			for (Task* t : tasks)
				delete t;
		}
		ts.Stop();
	}
	if (total > 2 && sim::Preemptions() > 0)
		NonTrivial();
	FinishOk();
}
