// Coroutines as bodies of tasks.
#include "sim.h"

#include "mg/box/Signal.h"
#include "mg/box/Time.h"
#include "mg/sch/TaskScheduler.h"

#include <memory>
#include <thread>
#include <vector>

using namespace pbt;
using mg::box::Coro;
using mg::sch::Task;
using mg::sch::TaskScheduler;

enum OpType
{
	OP_STEP,
	OP_YIELD,
	OP_YIELD_WAIT,
	OP_YIELD_DELAY,
	OP_SIGNAL,
	OP_CALL,
	OP_LOOP_CALL,
	OP_RETURN,
	OP_EXIT_DELETE,
	OP_EXIT_EXEC,
	OP_EXIT_SIGNAL,
};

struct Node;

struct Op
{
	OpType myType = OP_STEP;
	int myId = 0;
	int myCount = 0;
	bool myIsOther = false;
	std::shared_ptr<Node> myChild;
};

struct Node
{
	std::vector<Op> myOps;
};

static constexpr int theMaxTasks = 4;

struct TaskState
{
	volatile int myPos = 0;
	volatile int myAlive = 0;
	volatile bool myIsRunning = false;
	volatile bool myIsDone = false;
	volatile bool myIsExited = false;
	volatile int myWantWakes = 0;
	volatile int myWantSignals = 0;
	volatile int myResumes = 0;
	volatile int myExecSteps = 0;
	volatile bool myIsTaskDeleted = false;
};

struct State
{
	TaskState myTasks[theMaxTasks];
	volatile int myWants = 0;
	volatile bool myIsEnd = false;
	volatile int myNested = 0;
};
static State theState;
static TaskScheduler* theScheds[2];
static mg::box::Signal* theSignals[theMaxTasks];
static std::vector<int>* theExpected;
static std::vector<std::shared_ptr<Node>>* theRoots;

static void
Trace(int task, int id)
{
	sim::Quiet q;
	TaskState& s = theState.myTasks[task];
	int pos = s.myPos;
	std::vector<int>& want = theExpected[task];
	if (s.myIsExited)
		Fail("after-exit", "task %d made the step %d after an exit", task, id);
	if (pos >= (int)want.size())
		Fail("trace", "task %d: extra step %d", task, id);
	if (want[pos] != id)
		Fail("trace", "task %d: step %d instead of %d at %d", task, id, want[pos], pos);
	s.myPos = pos + 1;
}

struct Guard
{
	Guard(int task)
		: myTask(task), mySelf(this)
	{
		sim::Quiet q;
		theState.myTasks[task].myAlive = theState.myTasks[task].myAlive + 1;
	}
	Guard(const Guard& o)
		: Guard(o.myTask) {}
	~Guard()
	{
		if (mySelf != this)
			Fail("guard", "a local is destroyed twice");
		mySelf = nullptr;
		sim::Quiet q;
		theState.myTasks[myTask].myAlive = theState.myTasks[myTask].myAlive - 1;
	}
	int myTask;
	Guard* mySelf;
};

static void
Enter(int task, TaskScheduler* sched)
{
	{
		sim::Quiet q;
		TaskState& s = theState.myTasks[task];
		if (s.myIsRunning)
			Fail("parallel", "the coroutine is resumed while it is being executed");
		s.myIsRunning = true;
		s.myResumes = s.myResumes + 1;
	}
	if (sched != nullptr && &TaskScheduler::This() != sched)
		Fail("wrong-scheduler", "resumed in a wrong scheduler");
}

static void
Leave(int task)
{
	sim::Quiet q;
	theState.myTasks[task].myIsRunning = false;
}

static void
Want(int task, bool isSignal)
{
	sim::Quiet q;
	TaskState& s = theState.myTasks[task];
	if (isSignal)
		s.myWantSignals = s.myWantSignals + 1;
	else
		s.myWantWakes = s.myWantWakes + 1;
	theState.myWants = theState.myWants + 1;
}

static void
Done(int task)
{
	sim::Quiet q;
	TaskState& s = theState.myTasks[task];
	if (s.myIsDone)
		Fail("double-end", "task %d ended twice", task);
	if (s.myPos != (int)theExpected[task].size())
		Fail("trace", "task %d ended at the step %d of %zu", task, (int)s.myPos,
			theExpected[task].size());
	s.myIsDone = true;
}

static Coro
Body(int id, Task* t, Node* node, int depth, Guard)
{
	Guard local(id);
	int data = id * 100 + depth;
	for (size_t i = 0; i < node->myOps.size(); ++i)
	{
		const Op& op = node->myOps[i];
		if (data != id * 100 + depth || local.mySelf != &local)
			Fail("guard", "locals are broken");
		switch (op.myType)
		{
		case OP_STEP:
			Trace(id, op.myId);
			sim::Point();
			break;
		case OP_YIELD:
		case OP_YIELD_WAIT:
		case OP_YIELD_DELAY:
		{
			Trace(id, op.myId);
			uint64_t deadline = 0;
			if (op.myType == OP_YIELD_WAIT)
			{
				t->SetWait();
				Want(id, false);
			}
			else if (op.myType == OP_YIELD_DELAY)
			{
				t->SetDelay(op.myCount);
				deadline = t->GetDeadline();
			}
			TaskScheduler* sched = theScheds[op.myIsOther ? 1 : 0];
			if (sched == nullptr)
				sched = theScheds[0];
			bool isDefault = sched == &TaskScheduler::This() && op.myId % 2;
			Leave(id);
			if (isDefault)
				co_await t->AsyncYield();
			else
				co_await t->AsyncYield(*sched);
			Enter(id, sched);
			// Wakeups for the earlier waiting can come late.
			(void)deadline;
			break;
		}
		case OP_SIGNAL:
		{
			Trace(id, op.myId);
			TaskScheduler* sched = theScheds[op.myIsOther ? 1 : 0];
			if (sched == nullptr)
				sched = theScheds[0];
			Want(id, true);
			while (true)
			{
				t->SetWait();
				bool isDefault = sched == &TaskScheduler::This() && op.myId % 2;
				bool ok;
				Leave(id);
				if (isDefault)
					ok = co_await t->AsyncReceiveSignal();
				else
					ok = co_await t->AsyncReceiveSignal(*sched);
				Enter(id, sched);
				if (ok)
					break;
			}
			break;
		}
		case OP_CALL:
		case OP_LOOP_CALL:
		{
			int n = op.myType == OP_CALL ? 1 : op.myCount;
			for (int k = 0; k < n; ++k)
			{
				{
					sim::Quiet q;
					theState.myNested = theState.myNested + 1;
				}
				co_await mg::box::CoroCall(Body(id, t, op.myChild.get(), depth + 1, Guard(id)));
			}
			break;
		}
		case OP_RETURN:
			co_return;
		case OP_EXIT_DELETE:
		{
			Trace(id, op.myId);
			Leave(id);
			{
				sim::Quiet q;
				theState.myTasks[id].myIsExited = true;
			}
			co_await t->AsyncExitDelete();
			Fail("after-exit", "code after the exit is executed");
			break;
		}
		case OP_EXIT_EXEC:
		{
			Trace(id, op.myId);
			Leave(id);
			{
				sim::Quiet q;
				theState.myTasks[id].myIsExited = true;
			}
			int extra = op.myCount;
			co_await t->AsyncExitExec([id, t, extra](Task* arg) mutable {
				Enter(id, nullptr);
				if (arg != t)
					Fail("wrong-task", "exit callback is called with a wrong task");
				{
					sim::Quiet q;
					if (theState.myTasks[id].myAlive != 0)
						Fail("leak", "%d locals are alive after an exit",
							(int)theState.myTasks[id].myAlive);
				}
				Leave(id);
				if (extra-- > 0)
					return TaskScheduler::This().Post(arg);
				Done(id);
			});
			Fail("after-exit", "code after the exit is executed");
			break;
		}
		case OP_EXIT_SIGNAL:
		{
			Trace(id, op.myId);
			Leave(id);
			{
				sim::Quiet q;
				theState.myTasks[id].myIsExited = true;
			}
			co_await t->AsyncExitSendSignal(*theSignals[id]);
			Fail("after-exit", "code after the exit is executed");
			break;
		}
		}
	}
}

// Its destruction is noticed as the end of the task.
struct RootGuard
{
	RootGuard(int id) : myId(id) {}
	RootGuard(const RootGuard& o) : myId(o.myId) {}
	~RootGuard()
	{
		// Only for the deleted tasks.
		if (myIsFrame && theState.myTasks[myId].myIsExited)
			theState.myTasks[myId].myIsTaskDeleted = true;
	}
	int myId;
	bool myIsFrame = false;
};

static Coro
Root(int id, Task* t, Node* node)
{
	RootGuard root(id);
	root.myIsFrame = true;
	Enter(id, theScheds[0]);
	co_await mg::box::CoroCall(Body(id, t, node, 0, Guard(id)));
	{
		sim::Quiet q;
		if (theState.myTasks[id].myAlive != 0)
			Fail("leak", "%d locals are alive after the end", (int)theState.myTasks[id].myAlive);
	}
	Leave(id);
	Done(id);
}

static int theNextId;

static std::shared_ptr<Node>
GenNode(Gen& g, int depth, bool isTwoScheds, bool isExitAllowed)
{
	auto n = std::make_shared<Node>();
	int count = (int)g.Range(0, 4);
	for (int i = 0; i < count; ++i)
	{
		Op op;
		unsigned nest = depth < 3 ? 4 : 0;
		op.myType = (OpType)g.Weighted({4, 3, 2, 1, 2, nest, nest / 4, 1,
			isExitAllowed ? 1u : 0u, isExitAllowed ? 1u : 0u, isExitAllowed ? 1u : 0u});
		op.myId = ++theNextId;
		op.myIsOther = isTwoScheds && g.Bool();
		op.myCount = (int)g.Range(1, 3);
		if (op.myType == OP_CALL || op.myType == OP_LOOP_CALL)
			op.myChild = GenNode(g, depth + 1, isTwoScheds, isExitAllowed);
		n->myOps.push_back(op);
	}
	return n;
}

enum ModelRes { M_NEXT, M_EXIT };

static ModelRes
Model(const Node* n, std::vector<int>& trace, OpType& exit)
{
	for (const Op& op : n->myOps)
	{
		switch (op.myType)
		{
		case OP_CALL:
		case OP_LOOP_CALL:
			for (int i = 0; i < (op.myType == OP_CALL ? 1 : op.myCount); ++i)
			{
				if (Model(op.myChild.get(), trace, exit) == M_EXIT)
					return M_EXIT;
			}
			break;
		case OP_RETURN:
			return M_NEXT;
		case OP_EXIT_DELETE:
		case OP_EXIT_EXEC:
		case OP_EXIT_SIGNAL:
			trace.push_back(op.myId);
			exit = op.myType;
			return M_EXIT;
		default:
			trace.push_back(op.myId);
			break;
		}
	}
	return M_NEXT;
}

// Only signals allow the task to be deleted right after them.
static void
DropWaits(Node* n)
{
	for (Op& op : n->myOps)
	{
		if (op.myType == OP_YIELD_WAIT)
			op.myType = OP_YIELD;
		if (op.myChild)
			DropWaits(op.myChild.get());
	}
}

static void
DescribeNode(const Node* n, int depth)
{
	static const char* names[] = {"step", "yield", "yield-wait", "yield-delay", "signal", "call",
		"loop", "return", "exit-delete", "exit-exec", "exit-signal"};
	for (const Op& op : n->myOps)
	{
		Describe("%*s%s id %d count %d%s\n", depth * 2 + 2, "", names[op.myType], op.myId, op.myCount,
			op.myIsOther ? " other" : "");
		if (op.myChild)
			DescribeNode(op.myChild.get(), depth + 1);
	}
}

PBT_TEST(sch_coro, MODE_FORK, 10)
{
	sim::IgnoreMemory(&theState, sizeof(theState));
	sim::SetNowNs(1000000 + g.Below(3000000));
	sim::GetConfig().myTimeJumps = g.Bool();
	State& st = theState;
	int subSize = 1 + (int)g.Below(3);
	int threadCount = 1 + (int)g.Below(3);
	bool isTwo = g.Chance(1, 3);
	int taskCount = 1 + (int)g.Below(theMaxTasks);
	std::vector<std::vector<int>> expected(taskCount);
	std::vector<std::shared_ptr<Node>> roots;
	std::vector<OpType> exits(taskCount, OP_STEP);
	theExpected = expected.data();
	Describe("sub-queue %d threads %d two %d\n", subSize, threadCount, isTwo);
	for (int i = 0; i < taskCount; ++i)
	{
		roots.push_back(GenNode(g, 0, isTwo, g.Bool()));
		Model(roots[i].get(), expected[i], exits[i]);
		if (exits[i] == OP_EXIT_DELETE || exits[i] == OP_EXIT_SIGNAL)
			DropWaits(roots[i].get());
		Describe("task %d\n", i);
		DescribeNode(roots[i].get(), 0);
	}
	int64_t yields = 0;
	{
		theScheds[0] = new TaskScheduler("one", subSize);
		theScheds[1] = isTwo ? new TaskScheduler("two", subSize) : nullptr;
		std::vector<Task*> tasks;
		for (int i = 0; i < taskCount; ++i)
		{
			theSignals[i] = new mg::box::Signal();
			Task* t = new Task();
			t->SetCallback(Root(i, t, roots[i].get()));
			tasks.push_back(t);
		}
		theScheds[0]->Start(threadCount);
		if (isTwo)
			theScheds[1]->Start(1 + (int)g.Below(2));
		std::vector<std::thread> threads;
		for (int i = 0; i < taskCount; ++i)
		{
			if (exits[i] != OP_EXIT_SIGNAL)
				continue;
			threads.emplace_back([&, i]() {
				theSignals[i]->ReceiveBlocking();
				{
					sim::Quiet q;
					if (st.myTasks[i].myAlive != 0)
						Fail("leak", "%d locals are alive when the signal is received",
							(int)st.myTasks[i].myAlive);
				}
				delete tasks[i];
				delete theSignals[i];
				Done(i);
			});
		}
		std::thread waker([&]() {
			unsigned counter = 0;
			while (true)
			{
				sim::WaitFor([&]() { return st.myWants > 0 || st.myIsEnd; }, "somebody waiting");
				int target = -1;
				bool isSignal = false;
				{
					sim::Quiet q;
					if (st.myWants == 0)
						break;
					for (int i = 0; i < taskCount && target < 0; ++i)
					{
						TaskState& s = st.myTasks[i];
						if (s.myWantSignals > 0)
						{
							target = i;
							isSignal = true;
							s.myWantSignals = s.myWantSignals - 1;
						}
						else if (s.myWantWakes > 0)
						{
							target = i;
							s.myWantWakes = s.myWantWakes - 1;
						}
					}
					st.myWants = st.myWants - 1;
				}
				++counter;
				// The task can't end until it gets the signal.
				if (isSignal && counter % 2)
					tasks[target]->PostWakeup();
				if (isSignal)
					tasks[target]->PostSignal();
				else
					tasks[target]->PostWakeup();
			}
		});
		for (int i = 0; i < taskCount; ++i)
			theScheds[0]->Post(tasks[i]);
		for (std::thread& t : threads)
			t.join();
		for (int i = 0; i < taskCount; ++i)
		{
			sim::WaitFor([&]() {
				return st.myTasks[i].myIsDone || (exits[i] == OP_EXIT_DELETE &&
					st.myTasks[i].myIsTaskDeleted);
			}, "end of a task");
			if (exits[i] == OP_EXIT_DELETE)
				Done(i);
		}
		{
			sim::Quiet q;
			st.myIsEnd = true;
		}
		waker.join();
		theScheds[0]->Stop();
		if (isTwo)
			theScheds[1]->Stop();
		delete theScheds[0];
		delete theScheds[1];
		for (int i = 0; i < taskCount; ++i)
		{
			if (st.myTasks[i].myIsTaskDeleted != (exits[i] == OP_EXIT_DELETE ||
				exits[i] == OP_EXIT_SIGNAL || exits[i] == OP_EXIT_EXEC))
				Fail("delete", "the root frame of the task %d is %sdestroyed", i,
					st.myTasks[i].myIsTaskDeleted ? "" : "not ");
			if (exits[i] != OP_EXIT_DELETE && exits[i] != OP_EXIT_SIGNAL)
				delete tasks[i];
			if (exits[i] != OP_EXIT_SIGNAL)
				delete theSignals[i];
			if (st.myTasks[i].myAlive != 0)
				Fail("leak", "%d locals of the task %d are alive", (int)st.myTasks[i].myAlive, i);
			yields += st.myTasks[i].myResumes;
		}
	}
	if (yields > taskCount && st.myNested > 0)
		NonTrivial();
	FinishOk();
}
