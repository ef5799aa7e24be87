// IO core and its tasks over the simulated kernel.
#include "netutil.h"

#include "mg/aio/IOCore.h"
#include "mg/aio/IOTask.h"
#include "mg/box/Error.h"
#include "mg/box/Time.h"
#include "mg/net/Host.h"

#include <algorithm>
#include <thread>
#include <atomic>
#include <vector>

using namespace pbt;
using mg::aio::IOArgs;
using mg::aio::IOCore;
using mg::aio::IOEvent;
using mg::aio::IOSubscription;
using mg::aio::IOTask;

enum SockMode
{
	SM_NONE,
	SM_WRAP,
	SM_ATTACH,
	SM_CONNECT,
};

enum ActKind
{
	// Do nothing.
	A_NONE,
	A_DEADLINE,
	A_RESCHEDULE,
	A_WAKEUP,
	A_WAKEUP_OTHER,
	A_CLOSE,
	A_POINTS,
	// Not consume the events.
	A_LAZY,
};

struct Act
{
	int myKind;
	uint64_t myArg;
};

static constexpr int theMaxTasks = 4;

// Oracle's data about a task.
struct TaskSt
{
	int myId = 0;
	int myMode = SM_NONE;
	uint16_t myPort = 0;
	int myFd = -1;
	std::vector<std::vector<Act>> myScript;
	int myReuses = 0;
	uint64_t myToSend = 0;
	uint64_t myToRecv = 0;
	bool myIsPeerClosing = false;

	bool myIsPosted = false;
	// The first post has returned.
	bool myIsInside = false;
	bool myIsRunning = false;
	// The final closing is delivered, the task is not going to be reused.
	bool myIsGone = false;
	bool myIsCloseReq = false;
	bool myIsCloseOwed = false;
	// Some closings were in progress when the task was reused.
	bool myIsCloseRace = false;
	int myClosesNow = 0;
	int myLife = 0;
	// Life number and the closures seen.
	int myExecs = 0;
	int myLifeExecs = 0;
	uint64_t mySeq = 0;
	uint64_t myLastStartSeq = 0;
	uint64_t myBegunSeqMax = 0;
	// The data published before the wakeups.
	uint64_t myNewsNeeded = 0;
	uint64_t myNewsSeen = 0;
	int myWakeBegun = 0;
	int myWakeEnded = 0;
	int myWakeEndedAtStart = 0;
	uint64_t myDeadline = sim::theInfinite;
	bool myIsResched = false;
	uint64_t myRecvPos = 0;
	uint64_t mySentPos = 0;
	uint64_t myPeerRecv = 0;
	bool myIsEof = false;
	bool myIsConnected = false;
	bool myIsIoDead = false;
	int myWakesSelf = 0;
	bool myIsPrompt = false;
};

struct Global
{
	TaskSt* myTasks[theMaxTasks] = {};
	bool myIsStopped = true;
	uint64_t mySeq = 0;
	int myPeersDone = 0;
	int myParallelMax = 0;
	int myRunning = 0;
	bool myIsFlush = false;
	int myEventExecs = 0;
	int myCloseExecs = 0;
};
static Global* theGl;

struct TSub;
static std::atomic<int> thePosted{0};
// Given relaxed to the executions of the tasks. Only the wakeups make them visible.
static std::atomic<uint64_t> theNews[theMaxTasks];
// What is done in the final closing.
static int theTraces[theMaxTasks];
static TSub* theSubs[theMaxTasks];

struct TSub : public IOSubscription
{
	SHARED_PTR_API(TSub, myRef)
public:
	TSub(IOCore& core, TaskSt* st) : myTask(core), mySt(st) {}
	~TSub() override = default;

	static void Wakeup(TSub* s)
	{
		uint64_t news = theNews[s->mySt->myId].fetch_add(1, std::memory_order_relaxed) + 1;
		{
			sim::Quiet q;
			++s->mySt->myWakeBegun;
			// It is for nobody while the task is closed.
			if (s->mySt->myIsInside || s->mySt->myLife == 0)
			{
				s->mySt->myBegunSeqMax = ++theGl->mySeq;
				if (news > s->mySt->myNewsNeeded)
					s->mySt->myNewsNeeded = news;
			}
		}
		s->myTask.PostWakeup();
		sim::Quiet q;
		++s->mySt->myWakeEnded;
	}

	static void Close(TSub* s)
	{
		{
			sim::Quiet q;
			s->mySt->myIsCloseReq = true;
			++s->mySt->myClosesNow;
			if (s->mySt->myIsInside)
				s->mySt->myIsCloseOwed = true;
		}
		s->myTask.PostClose();
		sim::Quiet q;
		--s->mySt->myClosesNow;
	}

	void OnEvent(const IOArgs& args) override
	{
		TaskSt& st = *mySt;
		bool isClosed = myTask.IsClosed();
		bool isExpired = myTask.IsExpired();
#if MG_IOCORE_USE_IOURING
		bool hasEvents = args.myEvents != nullptr;
#else
		bool hasEvents = args.myEvents != 0;
#endif
		std::vector<Act>* script = nullptr;
		bool isFlush;
		{
			sim::Quiet q;
			uint64_t now = sim::NowMs();
			if (st.myIsRunning)
				Fail("io-parallel", "task %d is executed in parallel", st.myId);
			if (!st.myIsPosted)
				Fail("io-not-posted", "task %d is executed not being posted", st.myId);
			if (st.myIsGone)
				Fail("io-after-close", "task %d is executed after its closing", st.myId);
			if (theGl->myIsStopped)
				Fail("io-stopped", "task %d is executed in a stopped core", st.myId);
			st.myIsRunning = true;
			if (++theGl->myRunning > theGl->myParallelMax)
				theGl->myParallelMax = theGl->myRunning;
			++st.myExecs;
			++st.myLifeExecs;
			if (isClosed && !st.myIsCloseReq && st.myClosesNow == 0 && !st.myIsCloseRace)
				Fail("io-closed-itself", "task %d is closed without a request", st.myId);
			if (isExpired && (st.myDeadline == sim::theInfinite || st.myDeadline > now))
			{
				Fail("io-expired", "task %d is told it is expired at %llu, deadline %llu", st.myId,
					(unsigned long long)now, (unsigned long long)st.myDeadline);
			}
			if (st.myDeadline != sim::theInfinite && now > st.myDeadline + 1000 && st.myIsPrompt &&
				!st.myIsResched)
			{
				Fail("io-late", "task %d is executed %llu ms after its deadline", st.myId,
					(unsigned long long)(now - st.myDeadline));
			}
			bool isWoken = st.myWakeBegun > st.myWakeEndedAtStart;
			if (!isClosed && !isExpired && !hasEvents && !isWoken && !st.myIsResched &&
				!st.myIsCloseReq)
			{
				Fail("io-no-reason", "task %d is executed without a reason, at %llu, deadline %llu",
					st.myId, (unsigned long long)now, (unsigned long long)st.myDeadline);
			}
			if (hasEvents)
				++theGl->myEventExecs;
			st.myDeadline = sim::theInfinite;
			st.myIsResched = false;
			st.myIsPrompt = false;
			st.myWakeEndedAtStart = st.myWakeEnded;
			st.myLastStartSeq = ++theGl->mySeq;
			isFlush = theGl->myIsFlush;
			if (!isClosed && !isFlush && (size_t)st.myLifeExecs <= st.myScript.size())
				script = &st.myScript[st.myLifeExecs - 1];
		}
		uint64_t news = theNews[st.myId].load(std::memory_order_relaxed);
		{
			sim::Quiet q;
			if (news > st.myNewsSeen)
				st.myNewsSeen = news;
		}
		if (isClosed)
			return OnClosed(hasEvents);
		bool isLazy = false;
		bool isClosing = false;
		mg::box::Error::Ptr err;
		if (!myTask.ProcessArgs(args, err))
		{
			if (!err.IsSet())
				Fail("io-no-error", "no error is given");
			isClosing = true;
		}
		if (script != nullptr)
		{
			for (Act& a : *script)
			{
				switch (a.myKind)
				{
				case A_DEADLINE:
				{
					uint64_t d = mg::box::GetMilliseconds() + a.myArg;
					{
						sim::Quiet q;
						if (d < st.myDeadline)
							st.myDeadline = d;
						st.myIsPrompt = true;
					}
					myTask.SetDeadline(d);
					break;
				}
				case A_RESCHEDULE:
					Resched();
					break;
				case A_WAKEUP:
					Wakeup(this);
					break;
				case A_WAKEUP_OTHER:
				{
					TSub::Ptr o(theSubs[a.myArg]);
					if (o.IsSet())
						Wakeup(o.GetPointer());
					break;
				}
				case A_CLOSE:
					isClosing = true;
					break;
				case A_POINTS:
					for (uint64_t i = 0; i < a.myArg; ++i)
						sim::Point();
					break;
				case A_LAZY:
					isLazy = true;
					break;
				}
			}
		}
		if (isClosing)
		{
			Close(this);
		}
		else
		{
			if (st.myMode != SM_NONE && !myTask.HasSocket())
				Start();
			if (st.myMode == SM_CONNECT && !myIsConnected)
				UpdateConnect();
			if (!isLazy && (st.myMode != SM_CONNECT || myIsConnected) && myTask.HasSocket())
				DoIo();
		}
		sim::Quiet q;
		--theGl->myRunning;
		st.myIsRunning = false;
	}

	void Resched()
	{
		{
			sim::Quiet q;
			mySt->myIsResched = true;
			mySt->myDeadline = 0;
		}
		myTask.Reschedule();
	}

	void Start()
	{
		TaskSt& st = *mySt;
		if (st.myMode == SM_ATTACH)
		{
			int fd = st.myFd;
			st.myFd = -1;
			if (fd < 0)
			{
				st.myMode = SM_NONE;
				return;
			}
			myTask.AttachSocket(fd);
			return;
		}
		if (st.myMode == SM_CONNECT && !myIsConnectStarted)
		{
			myIsConnectStarted = true;
			mg::net::Host host = mg::net::HostMakeLocalIPV4(st.myPort);
			if (!myTask.ConnectStart(host, myOut))
			{
				Fail("io-connect", "can't start connecting: %d", (int)myOut.GetError());
			}
		}
	}

	void UpdateConnect()
	{
		if (myOut.IsLocked())
			return;
		if (myOut.IsEmpty() && !myTask.ConnectUpdate(myOut))
			Fail("io-connect", "can't update connecting");
		if (myOut.IsLocked())
			return;
		if (myOut.IsError())
		{
			Fail("io-connect", "connecting failed: %d", (int)myOut.GetError());
		}
		myOut.PopBytes();
		myIsConnected = true;
		sim::Quiet q;
		mySt->myIsConnected = true;
	}

	void DoIo()
	{
		TaskSt& st = *mySt;
		// Input.
		if (!myIn.IsLocked() && !myIsEof)
		{
			if (myIn.IsEmpty())
			{
				mg::box::IOVec v[2];
				myRecvSize = 1 + (myRecvStep++ * 37) % sizeof(myRecvBuf);
				v[0].myData = myRecvBuf;
				v[0].mySize = myRecvSize / 2 == 0 ? myRecvSize : myRecvSize / 2;
				v[1].myData = myRecvBuf + v[0].mySize;
				v[1].mySize = myRecvSize - v[0].mySize;
				if (!myTask.Recv(v, v[1].mySize == 0 ? 1 : 2, myIn) && !myIn.IsError())
					Fail("io-recv", "no error");
			}
			if (!myIn.IsLocked())
			{
				if (myIn.IsError())
				{
					myIn.PopError();
					Close(this);
					return;
				}
				uint32_t n = myIn.PopBytes();
				if (n > myRecvSize)
					Fail("io-recv-size", "received %u of %u", n, myRecvSize);
				if (n == 0)
				{
					myIsEof = true;
					sim::Quiet q;
					st.myIsEof = true;
				}
				else
				{
					uint64_t bad = PatCheck(myRecvBuf, st.myId * 2, st.myRecvPos, n);
					if (bad != n)
					{
						Fail("io-recv-data", "task %d: wrong byte at %llu", st.myId,
							(unsigned long long)(st.myRecvPos + bad));
					}
					sim::Quiet q;
					st.myRecvPos += n;
				}
				Resched();
			}
		}
		// Output.
		if (!myOut.IsLocked())
		{
			if (myOut.IsEmpty() && st.mySentPos < st.myToSend)
			{
				mySendSize = 1 + (mySendStep++ * 53) % sizeof(mySendBuf);
				if (mySendSize > st.myToSend - st.mySentPos)
					mySendSize = st.myToSend - st.mySentPos;
				PatFill(mySendBuf, st.myId * 2 + 1, st.mySentPos, mySendSize);
				mg::box::IOVec v;
				v.myData = mySendBuf;
				v.mySize = mySendSize;
				if (!myTask.Send(&v, 1, myOut) && !myOut.IsError())
					Fail("io-send", "no error");
			}
			if (!myOut.IsLocked() && !myOut.IsEmpty())
			{
				if (myOut.IsError())
				{
					myOut.PopError();
					Close(this);
					return;
				}
				uint32_t n = myOut.PopBytes();
				if (n == 0 || n > mySendSize)
					Fail("io-send-size", "sent %u of %u", n, mySendSize);
				{
					sim::Quiet q;
					st.mySentPos += n;
				}
				if (st.mySentPos < st.myToSend)
					Resched();
			}
		}
	}

	void OnClosed(bool hasEvents)
	{
		TaskSt& st = *mySt;
		// With io_uring the cancelled operations do come, and stay locked.
		if (myTask.HasSocket())
			Fail("io-closed-socket", "closed task has a socket");
#if !MG_IOCORE_USE_IOURING
		if (hasEvents)
			Fail("io-closed-events", "closed task got events");
		if (myIn.IsLocked() || myOut.IsLocked())
			Fail("io-closed-locked", "an operation is left pending in a closed task");
#endif
		myIn.Reset();
		myOut.Reset();
		bool isReused;
		int life = 0;
		++theTraces[st.myId];
		{
			sim::Quiet q;
			++theGl->myCloseExecs;
			isReused = st.myReuses > 0;
			--theGl->myRunning;
			st.myIsRunning = false;
			if (isReused)
			{
				--st.myReuses;
				st.myMode = SM_NONE;
				st.myIsCloseReq = false;
				st.myIsCloseOwed = false;
				st.myBegunSeqMax = 0;
				st.myNewsNeeded = 0;
				st.myIsCloseRace = st.myClosesNow > 0;
				st.myIsInside = false;
				life = ++st.myLife;
				st.myLifeExecs = 0;
				st.myWakeEndedAtStart = -1000000;
			}
			else
			{
				st.myIsGone = true;
			}
			st.myIsIoDead = true;
		}
		if (!isReused)
			return;
		// The object can be deleted before the end of posting.
		TSub::Ptr self(this);
		myTask.Post(this);
		thePosted.fetch_add(1, std::memory_order_acq_rel);
		sim::Quiet q;
		if (st.myLife == life)
			st.myIsInside = true;
	}

	IOTask myTask;
	TaskSt* mySt;
	IOEvent myIn;
	IOEvent myOut;
	bool myIsConnectStarted = false;
	bool myIsConnected = false;
	bool myIsEof = false;
	uint32_t myRecvStep = 0;
	uint32_t mySendStep = 0;
	uint32_t myRecvSize = 0;
	uint32_t mySendSize = 0;
	uint8_t myRecvBuf[200];
	uint8_t mySendBuf[300];
};

static void
PeerMain(int fd, TaskSt* st, const std::vector<uint64_t>& chunks)
{
	uint64_t sent = 0;
	size_t chunk = 0;
	uint8_t buf[512];
	RawNonBlock(fd);
	bool isDead = false;
	while (!isDead && (sent < st->myToRecv || st->myPeerRecv < st->myToSend))
	{
		bool isProgress = false;
		if (sent < st->myToRecv)
		{
			uint64_t n = chunks.empty() ? 100 : chunks[chunk++ % chunks.size()];
			n = std::min(std::min<uint64_t>(n, sizeof(buf)), st->myToRecv - sent);
			PatFill(buf, st->myId * 2, sent, n);
			ssize_t rc = send(fd, buf, n, 0);
			if (rc > 0)
			{
				sim::Quiet q;
				sent += rc;
				isProgress = true;
			}
			else if (errno != EAGAIN)
			{
				isDead = true;
			}
		}
		ssize_t rc = recv(fd, buf, sizeof(buf), 0);
		if (rc > 0)
		{
			if (st->myPeerRecv + rc > st->myToSend)
				Fail("io-send-extra", "the peer received too much");
			uint64_t bad = PatCheck(buf, st->myId * 2 + 1, st->myPeerRecv, rc);
			if (bad != (uint64_t)rc)
				Fail("io-send-data", "the peer received a wrong byte");
			sim::Quiet q;
			st->myPeerRecv += rc;
			isProgress = true;
		}
		else if (rc == 0 || errno != EAGAIN)
		{
			isDead = true;
		}
		if (isProgress || isDead)
			continue;
		pollfd p;
		p.fd = fd;
		p.events = POLLIN | (sent < st->myToRecv ? POLLOUT : 0);
		p.revents = 0;
		poll(&p, 1, -1);
	}
	if (!isDead && !st->myIsPeerClosing)
	{
		// Wait for the end.
		while (true)
		{
			ssize_t rc = recv(fd, buf, sizeof(buf), 0);
			if (rc > 0)
				Fail("io-send-extra", "the peer received too much");
			if (rc == 0 || errno != EAGAIN)
				break;
			pollfd p;
			p.fd = fd;
			p.events = POLLIN;
			p.revents = 0;
			poll(&p, 1, -1);
		}
	}
	close(fd);
	sim::Quiet q;
	++theGl->myPeersDone;
}

// Longer than what the system calls can wait for at once, and than what they can wait for
// being confused by that.
static uint64_t
GenFarDelay(Gen& g)
{
	static const uint64_t bases[] = {(uint64_t)INT_MAX, (uint64_t)INT_MAX * 2, (uint64_t)UINT_MAX,
		(uint64_t)UINT_MAX * 2, (uint64_t)INT_MAX * 3, 40ull * 24 * 3600 * 1000, 1ull << 40, 1ull << 62};
	return bases[g.Below(8)] + g.Below(4000);
}

static std::vector<Act>
GenActs(Gen& g, int taskCount, bool canClose)
{
	std::vector<Act> res;
	int n = (int)g.Small(3);
	for (int i = 0; i < n; ++i)
	{
		Act a;
		a.myKind = (int)g.Weighted({1, 4, 2, 2, 2, canClose ? 1u : 0u, 2, 2});
		a.myArg = 0;
		if (a.myKind == A_DEADLINE)
			a.myArg = g.Chance(1, 6) ? GenFarDelay(g) :
				g.Pick({0ull, 1ull, 3ull, 10ull, 100ull, 700ull, 5000ull});
		else if (a.myKind == A_WAKEUP_OTHER)
			a.myArg = g.Below(taskCount);
		else if (a.myKind == A_POINTS)
			a.myArg = 1 + g.Below(10);
		res.push_back(a);
	}
	return res;
}

PBT_TEST(io_task, MODE_FORK, 6)
{
	sim::GetConfig().myTimeJumps = false;
	sim::SetNowNs(g.Pick({1000000ull, 123456789000ull}) + g.Below(3000000));
	simnet::GenConfig(g);
	Global gl;
	theGl = &gl;
	sim::IgnoreMemory(&gl, sizeof(gl));
	int workerCount = 1 + (int)g.Below(3);
	int taskCount = 1 + (int)g.Below(theMaxTasks);
	int extCount = (int)g.Below(4);
	bool isRestart = g.Chance(1, 4);
	std::vector<TaskSt> tasks(taskCount);
	sim::IgnoreMemory(tasks.data(), sizeof(TaskSt) * taskCount);
	Describe("workers %d tasks %d external threads %d%s\n", workerCount, taskCount, extCount,
		isRestart ? " with restarts" : "");
	struct ExtOp { int myKind; int myTask; uint64_t myArg; };
	std::vector<std::vector<ExtOp>> exts(extCount);
	std::vector<std::vector<uint64_t>> chunks(taskCount);
	int peerCount = 0;
	for (int i = 0; i < taskCount; ++i)
	{
		TaskSt& st = tasks[i];
		gl.myTasks[i] = &st;
		st.myId = i;
		st.myMode = (int)g.Weighted({2, 3, 2, 2});
		if (st.myMode != SM_NONE)
		{
			++peerCount;
			st.myToSend = g.Small(1500);
			st.myToRecv = g.Small(1500);
			st.myIsPeerClosing = g.Bool();
			int n = (int)g.Below(4);
			for (int j = 0; j < n; ++j)
				chunks[i].push_back(1 + g.Small(400));
		}
		bool canClose = g.Chance(1, 3);
		int n = (int)g.Small(8);
		for (int j = 0; j < n; ++j)
			st.myScript.push_back(GenActs(g, taskCount, canClose));
		st.myReuses = g.Chance(1, 3) ? 1 + (int)g.Below(2) : 0;
		Describe("task %d: socket %d send %llu recv %llu script:", i, st.myMode,
			(unsigned long long)st.myToSend, (unsigned long long)st.myToRecv);
		for (auto& v : st.myScript)
		{
			Describe(" [");
			for (Act& a : v)
				Describe(" %d(%llu)", a.myKind, (unsigned long long)a.myArg);
			Describe(" ]");
		}
		Describe(" reuses %d\n", st.myReuses);
	}
	for (int i = 0; i < extCount; ++i)
	{
		int n = 1 + (int)g.Below(6);
		Describe("external %d:", i);
		for (int j = 0; j < n; ++j)
		{
			ExtOp op;
			op.myKind = (int)g.Weighted({4, 2, 1, 1, 1});
			op.myTask = (int)g.Below(taskCount);
			op.myArg = op.myKind == 1 ? g.Pick({0ull, 1ull, 5ull, 200ull}) : 1 + g.Below(20);
			// Wakeup, sleep, points, close, wait empty.
			exts[i].push_back(op);
			Describe(" %d(%d,%llu)", op.myKind, op.myTask, (unsigned long long)op.myArg);
		}
		Describe("\n");
	}
	{
		IOCore core;
		std::vector<TSub::Ptr> subs;
		std::vector<std::thread> threads;
		uint16_t port = 0;
		int listener = peerCount > 0 ? RawListen(port) : -1;
		for (int i = 0; i < taskCount; ++i)
		{
			TaskSt& st = tasks[i];
			subs.push_back(TSub::Ptr::Wrap(new TSub(core, &st)));
			theSubs[i] = subs[i].GetPointer();
			st.myPort = port;
			if (st.myMode == SM_WRAP || st.myMode == SM_ATTACH)
			{
				int c = RawConnect(port);
				int p = RawAccept(listener);
				if (c < 0 || p < 0)
					Fail("harness", "can't connect");
				RawNonBlock(c);
				st.myFd = c;
				threads.emplace_back([&, i, p]() { PeerMain(p, &tasks[i], chunks[i]); });
			}
		}
		bool isStartedFirst = g.Bool();
		if (isStartedFirst)
		{
			gl.myIsStopped = false;
			core.Start(workerCount);
		}
		std::vector<int> order;
		for (int i = 0; i < taskCount; ++i)
			order.push_back(i);
		bool isEarly = g.Chance(1, 3);
		auto extMain = [&](int e) {
			for (ExtOp& op : exts[e])
			{
				switch (op.myKind)
				{
				case 0:
					TSub::Wakeup(theSubs[op.myTask]);
					break;
				case 1:
					sim::SleepMs(op.myArg);
					break;
				case 2:
					for (uint64_t i = 0; i < op.myArg; ++i)
						sim::Point();
					break;
				case 3:
					TSub::Close(theSubs[op.myTask]);
					break;
				case 4:
				{
					// The posts known to be done must happen before the waiting.
					thePosted.fetch_add(0, std::memory_order_acq_rel);
					bool wasPosted[theMaxTasks];
					bool wasGone[theMaxTasks];
					for (int i = 0; i < taskCount; ++i)
					{
						wasPosted[i] = tasks[i].myIsInside;
						wasGone[i] = tasks[i].myIsGone;
					}
					uint64_t start = sim::NowMs();
					uint32_t rc = core.WaitEmpty(mg::box::TimeDuration(op.myArg));
					sim::Quiet q;
					if (rc > (uint32_t)taskCount + 3)
						Fail("io-wait-count", "%u tasks are reported of %d", rc, taskCount);
					for (int i = 0; i < taskCount; ++i)
					{
						// It could be empty before the posts.
						if (rc == 0 && wasPosted[i] && !tasks[i].myIsGone && !wasGone[i])
							Fail("io-wait-empty", "it is told to be empty with the task %d inside", i);
					}
					if (rc != 0 && sim::NowMs() < start + op.myArg)
						Fail("io-wait-early", "waiting ended too early");
					break;
				}
				}
			}
		};
		auto postAll = [&]() {
			for (int i : order)
			{
				TaskSt& st = tasks[i];
				{
					sim::Quiet q;
					st.myIsPosted = true;
				}
				if (st.myMode == SM_WRAP)
				{
					int fd = st.myFd;
					st.myFd = -1;
					subs[i]->myTask.Post(fd, subs[i].GetPointer());
				}
				else
				{
					subs[i]->myTask.Post(subs[i].GetPointer());
					if (st.myMode != SM_NONE)
						TSub::Wakeup(subs[i].GetPointer());
				}
				thePosted.fetch_add(1, std::memory_order_acq_rel);
				sim::Quiet q;
				st.myIsInside = true;
			}
		};
		if (!isEarly)
			postAll();
		for (int i = 0; i < extCount; ++i)
			threads.emplace_back([&, i]() { extMain(i); });
		// Connects come to a thread of their own.
		std::thread acceptor;
		bool hasConnects = false;
		for (TaskSt& st : tasks)
			hasConnects = hasConnects || st.myMode == SM_CONNECT;
		std::vector<std::thread> accepted;
		if (isEarly)
			postAll();
		if (!isStartedFirst)
		{
			gl.myIsStopped = false;
			core.Start(workerCount);
		}
		int accepts = 0;
		if (hasConnects)
		{
			// Who connected is not known here. So all of them have the same plans.
			RawNonBlock(listener);
			acceptor = std::thread([&]() {
				while (true)
				{
					int fd = RawAccept(listener);
					if (fd < 0)
					{
						pollfd p;
						p.fd = listener;
						p.events = POLLIN;
						p.revents = 0;
						poll(&p, 1, -1);
						if ((p.revents & POLLHUP) != 0)
							break;
						continue;
					}
					sim::Quiet q;
					++accepts;
					// The peer is idle and reads everything.
					accepted.emplace_back([fd]() {
						uint8_t buf[100];
						while (recv(fd, buf, sizeof(buf), 0) > 0)
							continue;
						close(fd);
					});
				}
			});
		}
		if (isRestart)
		{
			int n = 1 + (int)g.Below(2);
			for (int i = 0; i < n; ++i)
			{
				uint64_t ms = g.Pick({0ull, 1ull, 10ull});
				sim::SleepMs(ms);
				core.Stop();
				gl.myIsStopped = true;
				TSub::Wakeup(theSubs[g.Below(taskCount)]);
				if (g.Bool())
					sim::SleepMs(5);
				gl.myIsStopped = false;
				core.Start(1 + g.Below(3));
			}
		}
		// Everything calms down, all the deadlines pass.
		sim::WaitIdle(sim::NowNs() + 30000000000ull);
		bool isFar = false;
		{
			sim::Quiet q;
			for (TaskSt& st : tasks)
				isFar |= !st.myIsGone && st.myDeadline != sim::theInfinite && st.myDeadline > sim::NowMs() + 60000;
		}
		if (isFar)
		{
			// 120 days.
			sim::WaitIdle(sim::NowNs() + 120ull * 24 * 3600 * 1000000000);
			Label("a far deadline");
		}
		auto check = [&](const char* stage) {
			sim::Quiet q;
			uint64_t now = sim::NowMs();
			for (TaskSt& st : tasks)
			{
				if (st.myIsGone)
					continue;
				if (st.myBegunSeqMax > st.myLastStartSeq)
					Fail("io-lost-wakeup", "%s: task %d has not noticed a wakeup", stage, st.myId);
				if (st.myNewsNeeded > st.myNewsSeen)
				{
					Fail("io-lost-news", "%s: task %d has not seen what was done before a wakeup",
						stage, st.myId);
				}
				if (st.myDeadline != sim::theInfinite && st.myDeadline + 1000 < now)
				{
					Fail("io-lost-deadline", "%s: task %d missed the deadline %llu, now %llu", stage,
						st.myId, (unsigned long long)st.myDeadline, (unsigned long long)now);
				}
				if (st.myIsCloseOwed)
					Fail("io-lost-close", "%s: task %d is not closed", stage, st.myId);
			}
		};
		check("end");
		// Let the tasks to stop being lazy.
		{
			sim::Quiet q;
			gl.myIsFlush = true;
		}
		for (int i = 0; i < taskCount; ++i)
			TSub::Wakeup(theSubs[i]);
		sim::WaitIdle(sim::NowNs() + 30000000000ull);
		check("flush");
		{
			sim::Quiet q;
			for (TaskSt& st : tasks)
			{
				if (st.myIsGone || st.myIsIoDead || st.myMode == SM_NONE)
					continue;
				if (st.myMode == SM_CONNECT)
				{
					if (!st.myIsConnected || st.mySentPos != st.myToSend)
					{
						Fail("io-lost-event", "task %d connected %d sent %llu of %llu\n%s", st.myId,
							(int)st.myIsConnected, (unsigned long long)st.mySentPos,
							(unsigned long long)st.myToSend, simnet::Dump().c_str());
					}
					continue;
				}
				if (st.myRecvPos != st.myToRecv || st.mySentPos != st.myToSend ||
					st.myPeerRecv != st.myToSend || (st.myIsPeerClosing && !st.myIsEof))
				{
					Fail("io-lost-event", "task %d received %llu of %llu, sent %llu of %llu, peer got "
						"%llu, eof %d\n%s", st.myId, (unsigned long long)st.myRecvPos,
						(unsigned long long)st.myToRecv, (unsigned long long)st.mySentPos,
						(unsigned long long)st.myToSend, (unsigned long long)st.myPeerRecv,
						(int)st.myIsEof, simnet::Dump().c_str());
				}
			}
		}
		for (int i = 0; i < taskCount; ++i)
		{
			tasks[i].myReuses = 0;
			TSub::Close(theSubs[i]);
		}
		if (core.WaitEmpty(mg::box::TimeDuration(60000)) != 0)
			Fail("io-close-hang", "not all the tasks are closed:\n%s", simnet::Dump().c_str());
		// What the tasks did is visible.
		for (int i = 0; i < taskCount; ++i)
			++theTraces[i];
		{
			sim::Quiet q;
			for (TaskSt& st : tasks)
			{
				if (!st.myIsGone)
					Fail("io-close-lost", "task %d has not got its closing", st.myId);
			}
		}
		bool isStopFirst = g.Bool();
		if (isStopFirst)
			core.Stop();
		// Not attached.
		for (TaskSt& st : tasks)
		{
			if (st.myFd >= 0)
				close(st.myFd);
		}
		for (auto& t : threads)
			t.join();
		if (listener >= 0)
		{
			if (hasConnects)
			{
				shutdown(listener, SHUT_RDWR);
				acceptor.join();
				for (auto& t : accepted)
					t.join();
			}
			close(listener);
		}
		for (int i = 0; i < taskCount; ++i)
		{
			TSub::Wakeup(theSubs[i]);
			TSub::Close(theSubs[i]);
		}
		subs.clear();
	}
	simnet::CheckNoOpen("io-leak-fd");
	if (sim::Preemptions() > 0 && taskCount > 0)
		NonTrivial();
	if (gl.myEventExecs > 0)
		Label("events");
	if (gl.myParallelMax > 1)
		Label("parallel");
	if (isRestart)
		Label("restart");
	if (gl.myCloseExecs > taskCount)
		Label("reuse");
}
