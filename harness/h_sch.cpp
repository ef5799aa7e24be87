// Task scheduler under all interleavings and virtual time.
#include "sim.h"

#include "mg/box/Mutex.h"
#include "mg/box/Signal.h"
#include "mg/box/Thread.h"
#include "mg/sch/TaskScheduler.h"

#include <algorithm>
#include <functional>
#include <thread>
#include <vector>

using namespace pbt;
using mg::sch::Task;
using mg::sch::TaskScheduler;

//////////////////////////////////////////////////////////////////////////////////////////
// All the kinds of posts from everywhere. Each post must give exactly one execution.

enum ChaosTail
{
	TAIL_FINISH,
	TAIL_POST,
	TAIL_DELAY,
	TAIL_DEADLINE,
	TAIL_WAIT,
	TAIL_OTHER,
	TAIL_DELETE,
	TAIL_COUNT,
};

struct ChaosStep
{
	int myTail = 0;
	uint32_t myDelay = 0;
	int mySleep = 0;
	int myTarget = -1;
	bool myIsSignal = false;
	bool myIsReceive = false;
	bool myIsOneShot = false;
	int mySpawn = 0;
	int myPoints = 0;
};

struct ChaosTask;

struct ChaosState
{
	// Posted, but not finished executions.
	volatile int myOutstanding = 0;
	volatile int myRunning = 0;
	volatile int myPosts = 0;
	volatile int myExecs = 0;
	volatile int myOneShots = 0;
	volatile int myWantWake[16] = {};
	volatile int myAnyWake = 0;
	volatile bool myIsStopped = false;
	volatile bool myIsDone = false;
	volatile int myAlive = 0;
	volatile int mySpawned = 0;
	volatile int myEarly = 0;
};
static ChaosState theChaos;

struct ChaosSched
{
	TaskScheduler* mySched[2] = {};
};
static ChaosSched theScheds;

struct ChaosTaskOracle
{
	volatile bool myIsPosted = false;
	volatile bool myIsRunning = false;
	volatile int mySched = 0;
	volatile uint64_t myNotBefore = 0;
	volatile bool myIsWait = false;
	// Wakeups ever started.
	volatile int myWakes = 0;
	volatile int myWakesInside = 0;
	volatile int myWakesAtExec = 0;
	volatile bool myMayBeEarly = false;
};

struct ChaosTask
{
	ChaosTask(int id, std::vector<ChaosStep> steps)
		: myTask([this](Task* t) {
			if (t != &myTask)
				Fail("wrong-task", "wrong task in the callback");
			Execute();
		})
		, myId(id)
		, mySteps(std::move(steps))
	{
		sim::Quiet q;
		theChaos.myAlive = theChaos.myAlive + 1;
	}
	~ChaosTask()
	{
		sim::Quiet q;
		theChaos.myAlive = theChaos.myAlive - 1;
		if (myOracle->myIsPosted)
			Fail("oracle", "a posted task is deleted");
		delete myOracle;
	}
	void Post(int sched, const ChaosStep& s);
	void Wake(bool isSignal);
	void Execute();

	Task myTask;
	int myId;
	std::vector<ChaosStep> mySteps;
	size_t myStep = 0;
	// Is changed without any protection before each post and in each execution.
	uint64_t myData = 0;
	uint64_t myWantData = 0;
	ChaosTaskOracle* myOracle = [] { sim::Quiet q; return new ChaosTaskOracle(); }();
};

static std::vector<ChaosTask*>* theTasks;

void
ChaosTask::Post(int sched, const ChaosStep& s)
{
	++myData;
	myWantData = myData;
	uint64_t now = mg::box::GetMilliseconds();
	uint64_t notBefore = 0;
	bool isWait = false;
	int kind = s.myTail;
	if (kind == TAIL_DEADLINE)
		notBefore = now + s.myDelay;
	else if (kind == TAIL_DELAY)
		notBefore = now + s.myDelay;
	else if (kind == TAIL_WAIT)
		isWait = true;
	bool useSet = s.myPoints % 2;
	uint64_t oldDeadline = myTask.GetDeadline();
	if (oldDeadline != 0)
		Fail("deadline-kept", "the deadline is not dropped after an execution");
	if (useSet)
	{
		if (kind == TAIL_DEADLINE)
			myTask.SetDeadline(notBefore);
		else if (kind == TAIL_DELAY)
			myTask.SetDelay(s.myDelay);
		else if (kind == TAIL_WAIT)
			myTask.SetWait();
	}
	{
		sim::Quiet q;
		ChaosTaskOracle& o = *myOracle;
		if (o.myIsPosted || o.myIsRunning)
			Fail("oracle", "double post");
		o.myIsPosted = true;
		o.mySched = sched;
		o.myNotBefore = notBefore;
		o.myIsWait = isWait;
		theChaos.myOutstanding = theChaos.myOutstanding + 1;
		theChaos.myPosts = theChaos.myPosts + 1;
		if (isWait)
		{
			theChaos.myWantWake[myId] = theChaos.myWantWake[myId] + 1;
			theChaos.myAnyWake = theChaos.myAnyWake + 1;
		}
	}
	TaskScheduler* ts = theScheds.mySched[sched];
	// The task can't be touched after this.
	if (useSet || kind == TAIL_POST || kind == TAIL_OTHER || kind == TAIL_FINISH ||
		kind == TAIL_DELETE)
		ts->Post(&myTask);
	else if (kind == TAIL_DEADLINE)
		ts->PostDeadline(&myTask, notBefore);
	else if (kind == TAIL_DELAY)
		ts->PostDelay(&myTask, s.myDelay);
	else
		ts->PostWait(&myTask);
}

void
ChaosTask::Wake(bool isSignal)
{
	ChaosTaskOracle* o = myOracle;
	{
		sim::Quiet q;
		o->myWakes = o->myWakes + 1;
		o->myWakesInside = o->myWakesInside + 1;
		o->myMayBeEarly = true;
	}
	if (isSignal)
		myTask.PostSignal();
	else
		myTask.PostWakeup();
	sim::Quiet q;
	o->myWakesInside = o->myWakesInside - 1;
}

void
ChaosTask::Execute()
{
	ChaosTaskOracle* o = myOracle;
	int sched;
	{
		sim::Quiet q;
		if (!o->myIsPosted)
			Fail("extra-execution", "task %d is executed without a post", myId);
		if (o->myIsRunning)
			Fail("parallel", "task %d is executed in parallel", myId);
		if (theChaos.myIsStopped)
			Fail("executed-stopped", "task %d is executed while the scheduler is stopped", myId);
		o->myIsPosted = false;
		o->myIsRunning = true;
		sched = o->mySched;
		theChaos.myRunning = theChaos.myRunning + 1;
		theChaos.myExecs = theChaos.myExecs + 1;
		uint64_t nowMs = sim::NowMs();
		if (!o->myMayBeEarly)
		{
			if (o->myIsWait)
				Fail("early", "task %d is executed, but was not woken up", myId);
			if (nowMs < o->myNotBefore)
				Fail("early", "task %d is executed %llu ms before its deadline", myId,
					(unsigned long long)(o->myNotBefore - nowMs));
		}
		if (o->myIsWait || o->myNotBefore > 0)
			theChaos.myEarly = theChaos.myEarly + 1;
		// Wakeups which are still running can affect the next execution. Also those which
		// came right before this callback, when the task was already being executed.
		o->myMayBeEarly = o->myWakesInside > 0 || o->myWakes != o->myWakesAtExec;
		o->myWakesAtExec = o->myWakes;
	}
	if (&TaskScheduler::This() != theScheds.mySched[sched])
		Fail("wrong-scheduler", "task %d is executed in a wrong scheduler", myId);
	if (myData != myWantData)
		Fail("data", "stale data");
	++myData;
	if (myTask.GetDeadline() != 0)
		Fail("deadline-kept", "the deadline is not dropped in execution");
	ChaosStep s;
	if (myStep < mySteps.size())
		s = mySteps[myStep];
	++myStep;
	for (int i = 0; i < s.myPoints; ++i)
		sim::Point();
	if (s.myTarget >= 0)
		(*theTasks)[s.myTarget]->Wake(s.myIsSignal);
	if (myTask.IsSignaled() && s.myIsReceive)
	{
		if (!myTask.ReceiveSignal())
			Fail("signal", "a signal disappeared");
	}
	if (myTask.IsSignaled())
	{
		// It stays ready until the signal is received.
		sim::Quiet q;
		o->myMayBeEarly = true;
	}
	if (s.myIsOneShot)
	{
		{
			sim::Quiet q;
			theChaos.myOutstanding = theChaos.myOutstanding + 1;
		}
		int* payload = new int(77);
		TaskScheduler::This().PostOneShot([payload, done = false]() mutable {
			if (done)
				Fail("extra-execution", "one-shot task is executed twice");
			done = true;
			if (*payload != 77)
				Fail("data", "stale data in a one-shot task");
			delete payload;
			sim::Quiet q;
			theChaos.myOneShots = theChaos.myOneShots + 1;
			theChaos.myOutstanding = theChaos.myOutstanding - 1;
		});
	}
	for (int i = 0; i < s.mySpawn; ++i)
	{
		ChaosStep last;
		last.myTail = TAIL_DELETE;
		ChaosTask* child = new ChaosTask(15, {last});
		{
			sim::Quiet q;
			theChaos.mySpawned = theChaos.mySpawned + 1;
		}
		child->Post(sched, ChaosStep());
	}
	if (s.mySleep > 0)
		mg::box::Sleep(s.mySleep);
	{
		sim::Quiet q;
		o->myIsRunning = false;
		theChaos.myRunning = theChaos.myRunning - 1;
	}
	bool isRepost = s.myTail != TAIL_FINISH && s.myTail != TAIL_DELETE;
	if (isRepost)
		Post(s.myTail == TAIL_OTHER && theScheds.mySched[1] != nullptr ? 1 - sched : sched, s);
	else if (s.myTail == TAIL_DELETE)
		delete this;
	sim::Quiet q;
	theChaos.myOutstanding = theChaos.myOutstanding - 1;
}

PBT_TEST(sch_chaos, MODE_FORK, 10)
{
	sim::IgnoreMemory(&theChaos, sizeof(theChaos));
	sim::SetNowNs(g.Pick({1000000ull, 123456789000ull}) + g.Below(3000000));
	ChaosState& st = theChaos;
	int subSize = 1 + (int)g.Weighted({3, 3, 2, 1, 1});
	int threadCount = 1 + (int)g.Weighted({3, 4, 2});
	int schedCount = 1 + (int)g.Weighted({4, 1});
	int taskCount = 1 + (int)g.Below(7);
	int externals = (int)g.Below(3);
	int restarts = (int)g.Weighted({4, 1, 1});
	int ending = (int)g.Below(3);
	int reserve = g.Chance(1, 4) ? (int)g.Below(12) : 0;
	Describe("sub-queue %d threads %d scheds %d tasks %d externals %d restarts %d ending %d\n",
		subSize, threadCount, schedCount, taskCount, externals, restarts, ending);
	bool isTime = g.Bool();
	static const char* names[] = {"finish", "post", "delay", "deadline", "wait", "other", "delete"};
	std::vector<ChaosTask*> tasks;
	theTasks = &tasks;
	bool hasWait = false;
	int total = 0;
	struct Plan { std::vector<ChaosStep> mySteps; ChaosStep myFirst; bool myIsSelfDelete = false; };
	std::vector<Plan> plans(taskCount);
	for (int i = 0; i < taskCount; ++i)
	{
		// Targets of wakeups live till the end.
		bool isSelfDelete = i >= 3 && g.Chance(1, 3);
		plans[i].myIsSelfDelete = isSelfDelete;
		int n = (int)g.Range(1, 5);
		for (int k = 0; k < n; ++k)
		{
			ChaosStep s;
			if (k + 1 == n)
				s.myTail = isSelfDelete ? TAIL_DELETE : TAIL_FINISH;
			else
			{
				s.myTail = 1 + (int)g.Weighted({8, isTime ? 3u : 0u, isTime ? 3u : 0u,
					isSelfDelete ? 0u : 4u, schedCount > 1 ? 4u : 0u});
			}
			s.myDelay = g.Pick({0u, 1u, 2u, 7u, 100u, ending == 0 ? 3000000000u : 30u}) * (s.myTail == TAIL_DELAY ||
				s.myTail == TAIL_DEADLINE ? 1 : 0);
			s.mySleep = isTime && g.Chance(1, 8) ? (int)g.Below(10) : 0;
			s.myTarget = g.Chance(1, 4) ? (int)g.Below(std::min(3, taskCount)) : -1;
			s.myIsSignal = g.Bool();
			s.myIsReceive = g.Chance(3, 4);
			s.myIsOneShot = g.Chance(1, 8);
			s.mySpawn = g.Chance(1, 8) ? (int)g.Range(1, 4) : 0;
			s.myPoints = (int)g.Below(3);
			hasWait |= s.myTail == TAIL_WAIT;
			++total;
			plans[i].mySteps.push_back(s);
		}
		plans[i].myFirst.myTail = 1 + (int)g.Weighted({8, isTime ? 2u : 0u, isTime ? 2u : 0u,
			isSelfDelete ? 0u : 2u});
		hasWait |= plans[i].myFirst.myTail == TAIL_WAIT;
		plans[i].myFirst.myDelay = g.Pick({0u, 1u, 20u});
		plans[i].myFirst.myPoints = (int)g.Below(2);
		Describe("task %d: first %s", i, names[plans[i].myFirst.myTail]);
		for (ChaosStep& s : plans[i].mySteps)
			Describe(" %s", names[s.myTail]);
		Describe("\n");
	}
	// The scheduler doesn't know about the tasks waiting forever.
	if (hasWait)
		ending = 0;
	for (int i = 0; i < taskCount; ++i)
		tasks.push_back(new ChaosTask(i, plans[i].mySteps));
	for (int i = 0; i < schedCount; ++i)
	{
		theScheds.mySched[i] = new TaskScheduler("tst", subSize);
		if (reserve)
			theScheds.mySched[i]->Reserve(reserve);
	}
	// Some are posted before the start.
	int before = (int)g.Below(taskCount + 1);
	for (int i = 0; i < before; ++i)
		tasks[i]->Post(0, plans[i].myFirst);
	for (int i = 0; i < schedCount; ++i)
		theScheds.mySched[i]->Start(threadCount);
	std::vector<std::thread> threads;
	for (int e = 0; e < externals; ++e)
	{
		threads.emplace_back([&, e]() {
			for (int i = before + e; i < taskCount; i += externals)
				tasks[i]->Post(0, plans[i].myFirst);
		});
	}
	if (externals == 0)
	{
		for (int i = before; i < taskCount; ++i)
			tasks[i]->Post(0, plans[i].myFirst);
	}
	volatile bool isAllPosted = false;
	sim::IgnoreMemory((void*)&isAllPosted, sizeof(isAllPosted));
	// Wakes up everybody who wants it.
	std::thread waker([&]() {
		unsigned counter = 0;
		while (true)
		{
			sim::WaitFor([&]() { return st.myAnyWake > 0 || st.myIsDone; }, "somebody waiting");
			int target = -1;
			{
				sim::Quiet q;
				if (st.myAnyWake == 0)
					break;
				for (int i = 0; i < 16; ++i)
				{
					if (st.myWantWake[i] > 0)
					{
						st.myWantWake[i] = 0;
						target = i;
						break;
					}
				}
				if (target < 0)
				{
					st.myAnyWake = 0;
					continue;
				}
			}
			tasks[target]->Wake(++counter % 3 == 0);
		}
	});
	for (std::thread& t : threads)
		t.join();
	for (int i = 0; i < restarts; ++i)
	{
		int pointCount = (int)g.Below(30);
		for (int k = 0; k < pointCount; ++k)
			sim::Point();
		// The other scheduler isn't stopped.
		if (schedCount > 1)
			break;
		theScheds.mySched[0]->Stop();
		{
			sim::Quiet q;
			st.myIsStopped = true;
			if (st.myRunning != 0)
				Fail("stop", "stop returned, but a task is being executed");
		}
		if (g.Bool())
			sim::Yield();
		uint32_t c = 1;
		theScheds.mySched[0]->GetThreads(c);
		if (c != 0)
			Fail("stop", "there are threads after the stop");
		{
			sim::Quiet q;
			st.myIsStopped = false;
		}
		theScheds.mySched[0]->Start(1 + (uint32_t)g.Below(3));
	}
	if (ending == 0 || schedCount > 1)
		sim::WaitFor([&]() { return st.myOutstanding == 0; }, "all is executed");
	else
	{
		if (!theScheds.mySched[0]->WaitEmpty())
			Fail("wait-empty", "infinite wait failed");
		sim::Quiet q;
		if (st.myOutstanding != 0)
			Fail("not-empty", "the scheduler said it is empty, but has %d tasks", st.myOutstanding);
	}
	{
		sim::Quiet q;
		st.myIsDone = true;
	}
	// Late wakeups of not posted tasks do nothing.
	waker.join();
	if (st.myOutstanding != 0)
		Fail("extra-execution", "%d tasks are in the scheduler after the wakeups", st.myOutstanding);
	if (schedCount > 1)
	{
		// Destruction of one must not race with the last posts made by workers of the other.
		theScheds.mySched[0]->Stop();
		theScheds.mySched[1]->Stop();
	}
	else if (ending == 2)
		theScheds.mySched[0]->Stop();
	for (int i = 0; i < schedCount; ++i)
		delete theScheds.mySched[i];
	if (st.myExecs != st.myPosts)
		Fail("lost", "%d executions of %d posts", st.myExecs, st.myPosts);
	int keepCount = 0;
	for (int i = 0; i < taskCount; ++i)
		keepCount += plans[i].myIsSelfDelete ? 0 : 1;
	if (st.myAlive != keepCount)
		Fail("self-delete", "%d tasks are alive, expected %d", st.myAlive, keepCount);
	for (int i = 0; i < taskCount; ++i)
	{
		if (!plans[i].myIsSelfDelete)
			delete tasks[i];
	}
	if (st.myExecs >= 3 && sim::Preemptions() > 0)
		NonTrivial();
	if (st.myEarly > 0)
		Label("tasks with deadlines or waiting");
	if (restarts > 0)
		Label("restarts");
	if (schedCount > 1)
		Label("two schedulers");
	if (subSize == 1 && threadCount == 1)
		Label("minimal sizes");
	FinishOk();
}
