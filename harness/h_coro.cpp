// Coroutines without the scheduler: order of execution, nesting, destruction, stack usage.
#include "pbt.h"

#include "mg/box/Coro.h"

#include <algorithm>
#include <memory>
#include <string>
#include <vector>

using namespace pbt;
using mg::box::Coro;
using mg::box::CoroRef;

enum OpType
{
	OP_STEP,
	OP_SUSPEND,
	OP_CALL,
	OP_LOOP_CALL,
	OP_RETURN,
	OP_DROP_SELF,
};

struct Node;

struct Op
{
	OpType myType;
	int myId = 0;
	int myCount = 0;
	std::unique_ptr<Node> myChild;
};

struct Node
{
	std::vector<Op> myOps;
};

struct CoroState
{
	std::vector<int> myTrace;
	int myAlive = 0;
	int myCreated = 0;
	int myMaxAlive = 0;
	uintptr_t myBase = 0;
	uintptr_t myMaxStack = 0;
	CoroRef* myRoot = nullptr;
	bool myIsDropped = false;
};
static CoroState theState;

struct Guard
{
	Guard(int id)
		: myId(id), mySelf(this)
	{
		myStr = "a string which surely does not fit into the object itself " + std::to_string(id);
		++theState.myAlive;
		++theState.myCreated;
		theState.myMaxAlive = std::max(theState.myMaxAlive, theState.myAlive);
	}
	Guard(const Guard& o)
		: Guard(o.myId) {}
	~Guard()
	{
		if (mySelf != this)
			Fail("guard", "a local is destroyed twice or moved");
		mySelf = nullptr;
		--theState.myAlive;
		theState.myTrace.push_back(-1000 - myId);
	}
	void Check()
	{
		if (mySelf != this || myStr.empty())
			Fail("guard", "a local is broken");
	}
	int myId;
	Guard* mySelf;
	std::string myStr;
};

struct OpSuspend
	: public mg::box::CoroOp
	, public mg::box::CoroOpIsNotReady
	, public mg::box::CoroOpIsEmptyReturn
{
	bool await_suspend(mg::box::CoroHandle) noexcept { return true; }
};

struct OpDropAll
	: public mg::box::CoroOp
	, public mg::box::CoroOpIsNotReady
	, public mg::box::CoroOpIsEmptyReturn
{
	bool await_suspend(mg::box::CoroHandle) noexcept
	{
		theState.myIsDropped = true;
		CoroRef* root = theState.myRoot;
		theState.myRoot = nullptr;
		root->Clear();
		return true;
	}
};

static __attribute__((noinline)) void
NoteStack()
{
	uintptr_t p = (uintptr_t)__builtin_frame_address(0);
	uintptr_t used = theState.myBase > p ? theState.myBase - p : 0;
	theState.myMaxStack = std::max(theState.myMaxStack, used);
}

static Coro
Body(const Node* node, int depth, Guard param)
{
	Guard local(depth * 2 + 1);
	for (const Op& op : node->myOps)
	{
		NoteStack();
		local.Check();
		param.Check();
		switch (op.myType)
		{
		case OP_STEP:
			theState.myTrace.push_back(op.myId);
			break;
		case OP_SUSPEND:
			co_await OpSuspend();
			break;
		case OP_CALL:
		{
			Guard inner(500);
			co_await mg::box::CoroCall(Body(op.myChild.get(), depth + 1, Guard(depth * 2 + 2)));
			inner.Check();
			break;
		}
		case OP_LOOP_CALL:
			for (int i = 0; i < op.myCount; ++i)
				co_await mg::box::CoroCall(Body(op.myChild.get(), depth + 1, Guard(depth * 2 + 2)));
			break;
		case OP_RETURN:
			co_return;
		case OP_DROP_SELF:
			co_await OpDropAll();
			Fail("after-drop", "code after the coroutine was dropped is executed");
		}
	}
}

static int theNextId;

static std::unique_ptr<Node>
GenNode(Gen& g, int depth, bool isHot, bool isDropAllowed)
{
	auto n = std::make_unique<Node>();
	int count = isHot ? (int)g.Below(3) : (int)g.Below(5);
	for (int i = 0; i < count; ++i)
	{
		Op op;
		bool canNest = depth < 6;
		op.myType = (OpType)g.Weighted({6, 4, canNest ? 4u : 0u, canNest && !isHot ? 2u : 0u, 1,
			isDropAllowed && !isHot ? 1u : 0u});
		op.myId = ++theNextId;
		if (op.myType == OP_CALL)
			op.myChild = GenNode(g, depth + 1, isHot, isDropAllowed);
		if (op.myType == OP_LOOP_CALL)
		{
			op.myCount = 1 + (int)g.Small(IsThorough() ? 3000 : 800);
			op.myChild = GenNode(g, depth + 1, true, false);
		}
		n->myOps.push_back(std::move(op));
	}
	return n;
}

static void
DescribeNode(const Node* n, int depth)
{
	static const char* names[] = {"step", "suspend", "call", "loop", "return", "drop"};
	for (const Op& op : n->myOps)
	{
		Describe("%*s%s %d\n", depth * 2, "", names[op.myType],
			op.myType == OP_LOOP_CALL ? op.myCount : op.myId);
		if (op.myChild)
			DescribeNode(op.myChild.get(), depth + 1);
	}
}

// The model. Stops at the given number of suspensions.
struct Model
{
	std::vector<int> myTrace;
	int64_t mySuspends = 0;
	int64_t mySuspendLimit = 0;
	bool myIsDropped = false;

	enum Res { NEXT, STOP };
	Res Run(const Node* n, int depth);
	void Unwind(int id) { myTrace.push_back(-1000 - id); }
};

Model::Res
Model::Run(const Node* n, int depth)
{
	for (const Op& op : n->myOps)
	{
		bool isReturn = false;
		switch (op.myType)
		{
		case OP_STEP:
			myTrace.push_back(op.myId);
			break;
		case OP_SUSPEND:
			if (mySuspends++ == mySuspendLimit)
				return STOP;
			break;
		case OP_CALL:
		{
			// Temporary guard given to the call is copied/moved by the parameters.
			Res r = Run(op.myChild.get(), depth + 1);
			if (r != NEXT)
				return r;
			Unwind(500);
			break;
		}
		case OP_LOOP_CALL:
			for (int i = 0; i < op.myCount; ++i)
			{
				Res r = Run(op.myChild.get(), depth + 1);
				if (r != NEXT)
					return r;
			}
			break;
		case OP_RETURN:
			isReturn = true;
			break;
		case OP_DROP_SELF:
			myIsDropped = true;
			return STOP;
		}
		if (isReturn)
			break;
	}
	Unwind(depth * 2 + 1);
	return NEXT;
}

// Destructions of the parameters are made at not so interesting moments, only steps and locals
// are compared.
static std::vector<int>
Filter(const std::vector<int>& v)
{
	std::vector<int> res;
	for (int i : v)
	{
		if (i <= -1000)
		{
			int id = -1000 - i;
			if (id != 500 && id % 2 == 0)
				continue;
		}
		res.push_back(i);
	}
	return res;
}

PBT_TEST(coro_box, MODE_INPROC, 10)
{
	CoroState& st = theState;
	st = CoroState();
	theNextId = 0;
	bool isDropAllowed = g.Bool();
	std::unique_ptr<Node> root = GenNode(g, 0, false, isDropAllowed);
	DescribeNode(root.get(), 0);
	// Drop the coroutine after that many suspensions.
	int64_t dropAt = g.Chance(1, 3) ? (int64_t)g.Below(6) : -1;
	bool isMoved = g.Bool();
	Describe("drop at %lld moved %d\n", (long long)dropAt, isMoved);
	bool hasCalls = false;
	for (const Op& op : root->myOps)
		hasCalls |= op.myChild != nullptr;
	{
		CoroRef ref(Body(root.get(), 0, Guard(0)));
		CoroRef second;
		CoroRef* cur = &ref;
		CoroRef* other = &second;
		int64_t resumes = 0;
		st.myBase = (uintptr_t)__builtin_frame_address(0);
		while (true)
		{
			if (isMoved && g.Below(8) == 7)
			{
				if (g.Bool())
					*other = std::move(*cur);
				else
				{
					CoroRef tmp(std::move(*cur));
					*other = std::move(tmp);
				}
				std::swap(cur, other);
				if (*other)
					Fail("ref", "a reference is not empty after a move");
				if (!*cur)
					Fail("ref", "a reference is empty after being moved into");
			}
			if (dropAt >= 0 && resumes > dropAt)
			{
				size_t before = st.myTrace.size();
				if (g.Bool())
					cur->Clear();
				else
					*cur = CoroRef();
				if (*cur)
					Fail("ref", "a reference is not empty after clearing");
				st.myTrace.resize(before);
				break;
			}
			size_t before = st.myTrace.size();
			st.myRoot = cur;
			cur->ResumeTop();
			if (st.myIsDropped)
				break;
			++resumes;
			// Compare with the model.
			if (cur->Handle().done())
				break;
			if (resumes > 20000)
				break;
			if (resumes > 50 && st.myTrace.size() > 5000)
			{
				// Enough.
				st.myTrace.clear();
				before = 0;
				dropAt = 0;
				resumes = 1;
				st.myIsDropped = false;
				cur->Clear();
				if (st.myAlive != 0)
					Fail("leak", "%d locals are alive after dropping", st.myAlive);
				Label("too long");
				return;
			}
		}
		Model m;
		m.mySuspendLimit = st.myIsDropped || (*cur && cur->Handle().done()) ? INT64_MAX :
			resumes - 1;
		if (resumes == 0 && !st.myIsDropped)
			m.mySuspendLimit = -1;
		m.Run(root.get(), 0);
		if (m.myIsDropped != st.myIsDropped)
			Fail("trace", "dropping from inside happened %d instead of %d", st.myIsDropped,
				m.myIsDropped);
		std::vector<int> real = Filter(st.myTrace);
		std::vector<int> want = Filter(m.myTrace);
		if (st.myIsDropped)
		{
			// Destruction of the frames goes after all the steps.
			if (real.size() < want.size())
				Fail("trace", "too few steps: %zu of %zu", real.size(), want.size());
			for (size_t i = want.size(); i < real.size(); ++i)
			{
				if (real[i] > 0)
					Fail("trace", "extra step %d", real[i]);
			}
			real.resize(want.size());
		}
		if (real != want)
		{
			size_t i = 0;
			while (i < real.size() && i < want.size() && real[i] == want[i])
				++i;
			Fail("trace", "at %zu of %zu/%zu: step %d instead of %d", i, real.size(), want.size(),
				i < real.size() ? real[i] : 0, i < want.size() ? want[i] : 0);
		}
		if (st.myMaxStack > 16 * 1024)
			Fail("stack", "%zu bytes of stack are used", (size_t)st.myMaxStack);
		if (!st.myIsDropped && dropAt < 0 && *cur && cur->Handle().done())
			Label("finished");
		if (st.myIsDropped)
			Label("dropped from inside");
		else if (dropAt >= 0)
			Label("dropped from outside");
		cur->Clear();
	}
	if (st.myAlive != 0)
		Fail("leak", "%d locals are alive after the coroutine was destroyed", st.myAlive);
	if (hasCalls && st.myMaxAlive > 4)
		NonTrivial();
}
