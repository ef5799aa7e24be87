// Asynchronous TCP sockets on a simulated network.

#include "sockep.h"

using namespace pbt;

namespace {

	constexpr int theMaxEps = 6;

	// What a thread does with an endpoint.
	struct ExtOp
	{
		int myKind;
		uint64_t myArg;
		SendOp mySend;
	};

	enum ExtKind
	{
		EXT_SEND,
		EXT_SLEEP,
		EXT_POINTS,
		EXT_WAKEUP,
		EXT_RECV,
		EXT_CLOSE,
		EXT_SHUTDOWN,
		EXT_CHECK,
	};

	struct Ext
	{
		int myEp;
		int mySrc;
		std::vector<ExtOp> myOps;
	};

	const char*
	ExtName(int kind)
	{
		static const char* const names[] = {"send", "sleep", "points", "wakeup", "recv", "close", "shutdown",
			"check"};
		return names[kind];
	}

	void
	RunExt(Ep& e, Ext& x)
	{
		for (ExtOp& op : x.myOps)
		{
			switch (op.myKind)
			{
			case EXT_SEND:
				e.Send(x.mySrc, op.mySend);
				break;
			case EXT_SLEEP:
				sim::SleepMs(op.myArg);
				break;
			case EXT_POINTS:
				for (uint64_t i = 0; i < op.myArg; ++i)
					sim::Point();
				break;
			case EXT_WAKEUP:
				e.Wakeup();
				break;
			case EXT_RECV:
				e.AskRecvExt(1 + op.myArg);
				break;
			case EXT_CLOSE:
				e.Close();
				break;
			case EXT_SHUTDOWN:
				e.Shutdown();
				break;
			case EXT_CHECK:
				e.mySock->IsClosed();
				e.mySock->IsConnected();
				if (e.mySock->IsInWorkerNow())
					Fail("sock_worker", "a foreign thread is told to be a worker");
				break;
			}
		}
	}

	void
	GenActs(Gen& g, Ep& e, std::initializer_list<uint32_t> weights, int maxCount)
	{
		for (int cb = 0; cb < CB_KIND_COUNT; ++cb)
		{
			for (int i = 0, n = (int)g.Below(maxCount + 1); i < n; ++i)
			{
				Act a;
				a.myKind = (int)g.Weighted(weights);
				a.myArg = g.Below(a.myKind == ACT_DEADLINE ? 300 : 100);
				e.myActs[cb].push_back(a);
				if (i == 0)
					Describe("    %s:", CbName(cb));
				Describe(" %s(%llu)", ActName(a.myKind), (unsigned long long)a.myArg);
			}
			if (!e.myActs[cb].empty())
				Describe("\n");
		}
		for (int i = 0, n = (int)g.Below(5); i < n; ++i)
			e.mySelfSends.push_back(GenSendOp(g));
	}

	// One of the sides is lost, the connection is made by raw calls.
	void
	RawPair(int& outA, int& outB)
	{
		uint16_t port = 0;
		int listener = RawListen(port);
		outA = RawConnect(port);
		outB = RawAccept(listener);
		if (outA < 0 || outB < 0)
			Fail("harness", "can't connect");
		close(listener);
	}

	struct World
	{
		EpGlobal myEg;
		LooseSt myLoose;
		std::vector<std::unique_ptr<Ep>> myEps;

		World()
		{
			theEg = &myEg;
			theLoose = &myLoose;
		}

		Ep& AddEp(IOCore* core)
		{
			sim::Quiet q;
			myEps.emplace_back(new Ep());
			Ep* e = myEps.back().get();
			e->myId = (int)myEps.size() - 1;
			myEg.myEps.push_back(e);
			(void)core;
			return *e;
		}

		void Calm(const char* stage)
		{
			sim::WaitIdle(sim::NowNs() + 90000000000ull);
			for (auto& e : myEps)
				e->CheckIdle(stage);
		}

		void CloseAll(IOCore& core)
		{
			for (auto& e : myEps)
			{
				if (!e->myIsDeleted && e->myIsPosted)
					e->Close();
			}
			if (core.WaitEmpty(mg::box::TimeDuration(60000)) != 0)
				Fail("sock_close_hang", "not all the sockets are closed:\n%s", simnet::Dump().c_str());
			for (auto& e : myEps)
			{
				sim::Quiet q;
				if (e->myIsPosted && !e->myLife.myIsClosed)
					Fail("sock_close_lost", "endpoint %d is not closed", e->myId);
			}
		}
	};

	//////////////////////////////////////////////////////////////////////////////////////
	// Data goes through without losses, and so on, while nobody breaks the connections.

	enum ConnKind
	{
		// Sockets are connected by raw calls and are wrapped.
		CONN_WRAP_RAW,
		CONN_WRAP_WRAP,
		CONN_CONNECT_RAW,
		CONN_CONNECT_WRAP,
		CONN_TASK_RAW,
		CONN_COUNT,
	};

	struct StreamConn
	{
		int myKind = 0;
		Ep* myA = nullptr;
		Ep* myB = nullptr;
		RawPeer myPeer;
		uint16_t myPort = 0;
		int myListener = -1;
		int myFdA = -1;
		int myFdB = -1;
		uint64_t myPause = 0;
		std::string myEndpoint;
		bool myIsOwnSocket = false;
		uint64_t myDelay = 0;
	};
}

PBT_TEST(tcp_stream, MODE_FORK, 3)
{
	simnet::GenConfig(g);
	sim::GetConfig().myMaxSteps = 600000;
	World w;
	int connCount = 1 + (int)g.Weighted({5, 3, 1});
	uint32_t workerCount = 1 + (uint32_t)g.Below(3);
	bool isStartedFirst = g.Bool();
	std::vector<StreamConn> conns(connCount);
	std::vector<Ext> exts;
	Describe("%d connections, %u workers, started first %d\n", connCount, workerCount, (int)isStartedFirst);
	for (int i = 0; i < connCount; ++i)
	{
		StreamConn& c = conns[i];
		c.myKind = (int)g.Below(CONN_COUNT);
		c.myDelay = g.Chance(1, 3) ? 1 + g.Below(200) : 0;
		c.myIsOwnSocket = g.Chance(1, 4);
		c.myPause = g.Chance(1, 3) ? g.Below(30) : 0;
		Describe("connection %d: kind %d, delay %llu, own socket %d\n", i, c.myKind,
			(unsigned long long)c.myDelay, (int)c.myIsOwnSocket);
		bool isPair = c.myKind == CONN_WRAP_WRAP || c.myKind == CONN_CONNECT_WRAP;
		for (int side = 0; side < (isPair ? 2 : 1); ++side)
		{
			Ep& e = w.AddEp(nullptr);
			(side == 0 ? c.myA : c.myB) = &e;
			e.myOut.myStream = (uint32_t)(i * 2 + side);
			e.myIn.myStream = (uint32_t)(i * 2 + 1 - side);
			GenEpReads(g, e);
			Describe("  endpoint %d:\n", e.myId);
			GenActs(g, e, {2, 6, 2, 2, 0, 0, 2, 2, 2, 1, 1}, 4);
			for (int s = 1, n = (int)g.Weighted({1, 4, 2}); s <= n; ++s)
			{
				Ext x;
				x.myEp = e.myId;
				x.mySrc = s;
				Describe("    source %d:", s);
				for (int k = 0, m = 1 + (int)g.Below(4); k < m; ++k)
				{
					ExtOp op;
					op.myKind = (int)g.Weighted({8, 2, 1, 1, 1, 0, 0, 1});
					op.myArg = g.Below(op.myKind == EXT_SLEEP ? 30 : 12);
					op.mySend = GenSendOp(g);
					Describe(" %s(%u,%d)", ExtName(op.myKind), op.mySend.myPayload, op.mySend.myForm);
					x.myOps.push_back(op);
				}
				Describe("\n");
				exts.push_back(x);
			}
		}
		if (!isPair)
		{
			c.myPeer.myId = (uint32_t)i;
			c.myPeer.myOut.myStream = (uint32_t)(i * 2 + 1);
			c.myPeer.myIn.myStream = (uint32_t)(i * 2);
			c.myPeer.Gen(g, 6);
			c.myPeer.myEnd = g.Chance(1, 4) ? RAW_END_FIN : RAW_END_NONE;
			Ep* a = c.myA;
			c.myPeer.myOnEnding = [a]() { a->myLife.myIsPeerEnd = true; };
			Describe("  peer: end %d, sends", c.myPeer.myEnd);
			for (uint32_t s : c.myPeer.mySends)
				Describe(" %u", s);
			Describe("\n");
		}
	}
	bool isStopEarly = g.Bool();
	{
		IOCore core;
		std::vector<std::thread> threads;
		for (auto& e : w.myEps)
		{
			TCPSocket* s = new TCPSocket(core);
			e->mySock = s;
			e->myOpen = [s]() { s->Open({}); };
			s->Open({});
		}
		auto start = [&](Ep& e) {
			for (Ext& x : exts)
			{
				if (x.myEp == e.myId)
					threads.emplace_back([&e, &x]() { RunExt(e, x); });
			}
		};
		if (isStartedFirst)
			core.Start(workerCount);
		for (StreamConn& c : conns)
		{
			Ep& a = *c.myA;
			if (c.myKind == CONN_WRAP_RAW || c.myKind == CONN_WRAP_WRAP)
			{
				RawPair(c.myFdA, c.myFdB);
				RawNonBlock(c.myFdA);
				int noA = a.NewLife(true);
				a.mySock->PostWrap(c.myFdA, &a);
				a.EndPost(noA);
				start(a);
				if (c.myKind == CONN_WRAP_RAW)
				{
					c.myPeer.Start(c.myFdB);
					continue;
				}
				RawNonBlock(c.myFdB);
				Ep& b = *c.myB;
				int noB = b.NewLife(true);
				b.mySock->PostWrap(c.myFdB, &b);
				b.EndPost(noB);
				start(b);
				continue;
			}
			c.myListener = RawListen(c.myPort);
			TCPSocketConnectParams params;
			params.myEndpoint = mg::net::HostMakeLocalIPV4(c.myPort).ToString();
			if (c.myDelay != 0)
				params.myDelay = mg::box::TimeDuration(c.myDelay);
			if (c.myIsOwnSocket)
			{
				params.mySocket = socket(AF_INET, SOCK_STREAM, 0);
				RawNonBlock(params.mySocket);
			}
			int noA = a.NewLife(true);
			if (c.myKind == CONN_TASK_RAW)
			{
				a.myOnEventOnce = [&a, params]() { a.mySock->Connect(params); };
				a.mySock->PostTask(&a);
				a.EndPost(noA);
				a.Wakeup();
			}
			else
			{
				a.mySock->PostConnect(params, &a);
				a.EndPost(noA);
			}
			start(a);
		}
		if (!isStartedFirst)
			core.Start(workerCount);
		for (StreamConn& c : conns)
		{
			if (c.myListener < 0)
				continue;
			c.myFdB = RawAccept(c.myListener);
			if (c.myFdB < 0)
				Fail("harness", "can't accept");
			if (c.myPause != 0)
				sim::SleepMs(c.myPause);
			if (c.myB != nullptr)
			{
				RawNonBlock(c.myFdB);
				Ep& b = *c.myB;
				int noB = b.NewLife(true);
				b.mySock->PostWrap(c.myFdB, &b);
				b.EndPost(noB);
				start(b);
			}
			else
			{
				c.myPeer.Start(c.myFdB);
			}
		}
		w.Calm("end");
		for (auto& t : threads)
			t.join();
		threads.clear();
		// Send and receive everything what is left.
		{
			sim::Quiet q;
			w.myEg.myIsFlush = true;
		}
		for (auto& e : w.myEps)
		{
			if (e->myLife.myIsClosed)
				continue;
			if (e->myIsPaused)
				e->AskRecvExt(e->NextRecvSize());
			e->Wakeup();
		}
		w.Calm("flush");
		{
			sim::Quiet q;
			for (int i = 0; i < connCount; ++i)
			{
				StreamConn& c = conns[i];
				Ep& a = *c.myA;
				uint64_t toA = c.myB != nullptr ? c.myB->myTotalSent : c.myPeer.myTotalSent;
				uint64_t atB = c.myB != nullptr ? c.myB->myIn.myTotal : c.myPeer.myIn.myTotal;
				bool isEnd = c.myB == nullptr && c.myPeer.myEnd == RAW_END_FIN;
				if (!a.myLife.myIsConnected || a.myIn.myTotal != toA)
				{
					Fail("sock_recv_lost", "connection %d: connected %d, received %llu of %llu\n%s", i,
						(int)a.myLife.myIsConnected, (unsigned long long)a.myIn.myTotal,
						(unsigned long long)toA, simnet::Dump().c_str());
				}
				if (isEnd)
				{
					if (!a.myLife.myIsClosed || a.myLife.myIsErrored)
					{
						Fail("sock_eof", "connection %d: end of the stream, closed %d, errored %d", i,
							(int)a.myLife.myIsClosed, (int)a.myLife.myIsErrored);
					}
					if (atB > a.myTotalSent)
						Fail("sock_data", "connection %d: too much is sent", i);
					continue;
				}
				if (a.myLife.myIsClosed || (c.myB != nullptr && c.myB->myLife.myIsClosed))
					Fail("sock_close", "connection %d is closed", i);
				if (atB != a.myTotalSent || a.myReportedSent != a.myTotalSent)
				{
					Fail("sock_send_lost", "connection %d: sent %llu, reported %llu, peer got %llu\n%s", i,
						(unsigned long long)a.myTotalSent, (unsigned long long)a.myReportedSent,
						(unsigned long long)atB, simnet::Dump().c_str());
				}
				if (c.myB != nullptr && (!c.myB->myLife.myIsConnected ||
					c.myB->myReportedSent != c.myB->myTotalSent))
				{
					Fail("sock_send_lost", "connection %d: the other side sent %llu, reported %llu", i,
						(unsigned long long)c.myB->myTotalSent, (unsigned long long)c.myB->myReportedSent);
				}
			}
			// The other side of a closed one can notice it before its own closing.
			for (auto& e : w.myEps)
			{
				e->myLife.myIsErrorPossible = true;
				e->myLife.myIsPeerEnd = true;
			}
		}
		w.CloseAll(core);
		if (isStopEarly)
			core.Stop();
		for (StreamConn& c : conns)
		{
			c.myPeer.Join();
			if (c.myListener >= 0)
				close(c.myListener);
		}
		for (auto& e : w.myEps)
			((TCPSocket*)e->mySock)->Delete();
	}
	simnet::CheckNoOpen("sock_leak_fd");
	uint64_t total = 0;
	for (auto& e : w.myEps)
		total += e->myIn.myTotal;
	if (total > 0 && sim::Preemptions() > 0)
		NonTrivial();
	if (w.myEg.myParallelMax > 1)
		Label("parallel");
	if (simnet::GetStats().mySplits > 0)
		Label("splits");
	if (simnet::GetStats().myPartialSends > 0)
		Label("partial-sends");
}

//////////////////////////////////////////////////////////////////////////////////////////
// The life cycle: any calls at any moments, any failures.

namespace {

	enum LifeMode
	{
		LIFE_CONNECT,
		LIFE_WRAP,
		// Connect from the callback.
		LIFE_TASK,
		// Never connects.
		LIFE_TASK_ONLY,
		LIFE_MODE_COUNT,
	};

	enum Target
	{
		TARGET_GOOD,
		TARGET_REFUSED,
		TARGET_SYNC_ERR,
		TARGET_ASYNC_ERR,
		TARGET_BLACKHOLE,
		TARGET_NO_SOCKET,
		TARGET_COUNT,
	};

	enum Naming
	{
		NAMING_IP,
		NAMING_DOMAIN,
		// Both families, one of them is requested.
		NAMING_FAMILY,
		NAMING_NO_FAMILY,
		NAMING_FAIL,
		NAMING_COUNT,
	};

	struct LifePlan
	{
		int myMode = 0;
		int myTarget = 0;
		int myNaming = 0;
		int myErr = 0;
		uint64_t myDelay = 0;
		bool myIsDelayPoint = false;
		bool myIsOwnSocket = false;
		std::string myEndpoint;
		mg::net::SockAddrFamily myFamily = mg::net::ADDR_FAMILY_NONE;
		uint16_t myPort = 0;
		int myListener = -1;
		int myFd = -1;
		RawPeer myPeer;
		uint64_t myAcceptPause = 0;
		std::thread myAcceptor;
		bool myIsAccepted = false;
		bool myIsStarted = false;
		uint64_t myNotBeforeMs = 0;
		// The life of the endpoint with this plan, the end of it.
		bool myIsShutdownMust = false;
	};

	struct LifeEp
	{
		Ep* myEp = nullptr;
		std::vector<std::unique_ptr<LifePlan>> myPlans;
		size_t myPlanPos = 0;
		bool myIsDelete = false;
		bool myIsReopenInside = false;
		bool myIsStopped = false;
	};

	const char*
	LifeName(int mode)
	{
		static const char* const names[] = {"connect", "wrap", "task", "task only"};
		return names[mode];
	}

	const char*
	TargetName(int t)
	{
		static const char* const names[] = {"good", "refused", "sync error", "async error", "blackhole", "no socket"};
		return names[t];
	}

	const char*
	NamingName(int t)
	{
		static const char* const names[] = {"ip", "domain", "family", "no family", "failed domain"};
		return names[t];
	}

	// Start the next life.
	void
	LifeStart(LifeEp& le)
	{
		Ep& e = *le.myEp;
		LifePlan* p;
		{
			sim::Quiet q;
			p = le.myPlans[le.myPlanPos++].get();
		}
		int no = e.NewLife(p->myMode != LIFE_TASK_ONLY);
		TCPSocketConnectParams params;
		params.myEndpoint = p->myEndpoint;
		params.myAddrFamily = p->myFamily;
		{
			sim::Quiet q;
			e.myPlan = p;
			p->myIsStarted = true;
			p->myNotBeforeMs = sim::NowMs() + p->myDelay;
			bool isBad = p->myMode != LIFE_WRAP && (p->myTarget != TARGET_GOOD ||
				p->myNaming == NAMING_FAIL || p->myNaming == NAMING_NO_FAMILY);
			e.myLife.myIsErrorPossible = isBad || p->myPeer.myIsEnding;
			e.myLife.myIsPeerEnd = p->myPeer.myIsEnding;
		}
		if (p->myDelay != 0)
		{
			if (p->myIsDelayPoint)
				params.myDelay = mg::box::TimePoint(p->myNotBeforeMs);
			else
				params.myDelay = mg::box::TimeDuration(p->myDelay);
		}
		auto ownSocket = [p](TCPSocketConnectParams& params) {
			if (!p->myIsOwnSocket)
				return;
			params.mySocket = socket(AF_INET, SOCK_STREAM, 0);
			RawNonBlock(params.mySocket);
		};
		switch (p->myMode)
		{
		case LIFE_CONNECT:
			ownSocket(params);
			e.mySock->PostConnect(params, &e);
			e.EndPost(no);
			break;
		case LIFE_WRAP:
		{
			int fd;
			{
				sim::Quiet q;
				fd = p->myFd;
				p->myFd = -1;
			}
			e.mySock->PostWrap(fd, &e);
			e.EndPost(no);
			break;
		}
		case LIFE_TASK:
		{
			auto f = [&e, params, p, ownSocket]() mutable {
				ownSocket(params);
				{
					sim::Quiet q;
					if (!p->myIsDelayPoint)
						p->myNotBeforeMs = sim::NowMs() + p->myDelay;
				}
				e.mySock->Connect(params);
				sim::Quiet q;
				e.myLife.myIsConnectAsked = true;
			};
			{
				sim::Quiet q;
				e.myOnEventOnce = f;
			}
			e.mySock->PostTask(&e);
			e.EndPost(no, false);
			e.Wakeup();
			break;
		}
		default:
			e.mySock->PostTask(&e);
			e.EndPost(no, false);
			break;
		}
	}
}

PBT_TEST(tcp_life, MODE_FORK, 4)
{
	simnet::GenConfig(g);
	sim::GetConfig().myMaxSteps = 600000;
	World w;
	int epCount = 1 + (int)g.Weighted({6, 3, 1});
	uint32_t workerCount = 1 + (uint32_t)g.Below(3);
	bool isStartedFirst = g.Bool();
	bool hasDelete = g.Chance(1, 4);
	std::vector<LifeEp> les(epCount);
	std::vector<Ext> exts;
	int names = 0;
	int lives = 0;
	uint16_t ports = 100;
	int noSocketErr = (int)g.Pick({EMFILE, ENFILE, EAFNOSUPPORT, EACCES, ENOMEM, ENOBUFS});
	Describe("%d endpoints, %u workers, started first %d\n", epCount, workerCount, (int)isStartedFirst);
	for (int i = 0; i < epCount; ++i)
	{
		LifeEp& le = les[i];
		Ep& e = w.AddEp(nullptr);
		le.myEp = &e;
		le.myIsDelete = hasDelete && g.Bool();
		le.myIsReopenInside = true;
		e.myOut.myStream = (uint32_t)(i * 2);
		e.myIn.myStream = (uint32_t)(i * 2 + 1);
		e.myOut.myIsLoose = true;
		e.myIn.myIsLoose = true;
		e.myOut.myPos[0] = 0;
		GenEpReads(g, e);
		Describe("endpoint %d: delete %d, reopen inside %d\n", i, (int)le.myIsDelete, (int)le.myIsReopenInside);
		GenActs(g, e, {4, 5, 2, 1, 1, 1, 2, hasDelete ? 0u : 1u, 1, 1, 1}, 4);
		int liveCount = 1 + (int)g.Weighted({3, 3, 2});
		// The number of threads is limited.
		for (int k = 0; k < liveCount && (k == 0 || lives < 5); ++k, ++lives)
		{
			le.myPlans.emplace_back(new LifePlan());
			LifePlan& p = *le.myPlans.back();
			p.myMode = (int)g.Weighted({5, 3, 3, 1});
			p.myTarget = (int)g.Weighted({6, 1, 1, 1, 1, 1});
			p.myNaming = p.myMode == LIFE_WRAP ? 0 : (int)g.Weighted({5, 2, 2, 1, 1});
			p.myDelay = g.Chance(1, 3) ? 1 + g.Below(300) : 0;
			p.myIsDelayPoint = g.Bool();
			p.myIsOwnSocket = g.Chance(1, 4);
			p.myPort = ports++;
			p.myAcceptPause = g.Chance(1, 4) ? g.Below(40) : 0;
			p.myPeer.Gen(g, 3);
			p.myPeer.myId = (uint32_t)(i * 10 + k);
			p.myPeer.myEnd = (int)g.Weighted({4, 2, 2, 2});
			p.myPeer.myKillErr = (int)g.Pick({ECONNRESET, ETIMEDOUT, EHOSTUNREACH});
			p.myPeer.myEndPauseMs = g.Below(40);
			p.myPeer.myOut.myStream = e.myIn.myStream;
			p.myPeer.myIn.myStream = e.myOut.myStream;
			p.myPeer.myOut.myIsLoose = true;
			p.myPeer.myIn.myIsLoose = true;
			Describe("  life: %s to %s by %s, delay %llu, own %d, peer end %d in %llu, sends", LifeName(p.myMode),
				TargetName(p.myTarget), NamingName(p.myNaming), (unsigned long long)p.myDelay,
				(int)p.myIsOwnSocket, p.myPeer.myEnd, (unsigned long long)p.myPeer.myEndPauseMs);
			for (uint32_t s : p.myPeer.mySends)
				Describe(" %u", s);
			Describe("\n");
			if (p.myMode == LIFE_WRAP || p.myMode == LIFE_TASK_ONLY)
				p.myTarget = TARGET_GOOD;
			switch (p.myTarget)
			{
			case TARGET_REFUSED:
				p.myErr = ECONNREFUSED;
				break;
			case TARGET_SYNC_ERR:
				p.myErr = (int)g.Pick({ENETUNREACH, EADDRNOTAVAIL, EACCES, EHOSTUNREACH});
				simnet::SetConnectError(p.myPort, p.myErr);
				break;
			case TARGET_ASYNC_ERR:
				p.myErr = (int)g.Pick({EHOSTUNREACH, ECONNRESET, ENETUNREACH, ETIMEDOUT});
				simnet::SetConnectAsyncError(p.myPort, p.myErr);
				break;
			case TARGET_BLACKHOLE:
				p.myErr = ETIMEDOUT;
				simnet::SetBlackhole(p.myPort);
				break;
			case TARGET_NO_SOCKET:
				p.myErr = noSocketErr;
				simnet::SetFamilyError(AF_INET6, noSocketErr);
				p.myIsOwnSocket = false;
				if (p.myNaming != NAMING_IP && p.myNaming != NAMING_FAIL)
					p.myNaming = NAMING_DOMAIN;
				break;
			}
			bool isIPv6 = p.myTarget == TARGET_NO_SOCKET;
			std::string host = isIPv6 ? "[::1]" : "127.0.0.1";
			if (p.myNaming != NAMING_IP)
			{
				host = "host" + std::to_string(names++) + ".test";
				simnet::NameResult r;
				r.myDelayMs = g.Pick({0ull, 1ull, 30ull, 500ull});
				switch (p.myNaming)
				{
				case NAMING_DOMAIN:
					r.myAddrs = {isIPv6 ? -1 : (int)INADDR_LOOPBACK};
					break;
				case NAMING_FAMILY:
					// The wrong family leads to nowhere.
					if (g.Bool())
						r.myAddrs = {-1, INADDR_LOOPBACK};
					else
						r.myAddrs = {INADDR_LOOPBACK, -1};
					p.myFamily = mg::net::ADDR_FAMILY_IPV4;
					break;
				case NAMING_NO_FAMILY:
					r.myAddrs = {INADDR_LOOPBACK};
					p.myFamily = mg::net::ADDR_FAMILY_IPV6;
					break;
				default:
					r.myRc = (int)g.Pick({EAI_NONAME, EAI_AGAIN, EAI_FAIL, EAI_SYSTEM});
					r.myErrno = ENOENT;
					break;
				}
				simnet::SetName(host, r);
			}
			p.myEndpoint = host + ":" + std::to_string(p.myPort);
		}
		int srcs = le.myIsDelete ? 0 : (int)g.Weighted({1, 3, 2, 1});
		for (int s = 1; s <= srcs && exts.size() < 6; ++s)
		{
			Ext x;
			x.myEp = e.myId;
			x.mySrc = s;
			Describe("    source %d:", s);
			for (int k = 0, m = 1 + (int)g.Below(6); k < m; ++k)
			{
				ExtOp op;
				op.myKind = (int)g.Weighted({6, 4, 2, 1, 1, 2, 2, 2});
				op.myArg = g.Below(op.myKind == EXT_SLEEP ? 60 : 12);
				op.mySend = GenSendOp(g);
				Describe(" %s(%llu,%u,%d)", ExtName(op.myKind), (unsigned long long)op.myArg,
					op.mySend.myPayload, op.mySend.myForm);
				x.myOps.push_back(op);
			}
			Describe("\n");
			exts.push_back(x);
		}
	}
	bool isStopEarly = g.Bool();
	uint64_t closed = 0, connected = 0, failed = 0, errors = 0;
	{
		IOCore core;
		std::vector<std::thread> threads;
		for (LifeEp& le : les)
		{
			Ep& e = *le.myEp;
			TCPSocket* s = new TCPSocket(core);
			e.mySock = s;
			e.myOpen = [s]() { s->Open({}); };
			for (auto& pp : le.myPlans)
			{
				LifePlan* p = pp.get();
				p->myPeer.myOnEnding = [&e, p]() {
					if (e.myPlan == p)
					{
						e.myLife.myIsPeerEnd = true;
						e.myLife.myIsErrorPossible = true;
					}
				};
				if (p->myMode == LIFE_WRAP)
				{
					int peer;
					RawPair(p->myFd, peer);
					RawNonBlock(p->myFd);
					p->myPeer.Start(peer);
					p->myIsAccepted = true;
				}
				else if (p->myTarget == TARGET_GOOD && p->myMode != LIFE_TASK_ONLY)
				{
					p->myListener = RawListen(p->myPort);
					p->myAcceptor = std::thread([p]() {
						int fd = RawAccept(p->myListener);
						if (fd < 0)
							return;
						{
							sim::Quiet q;
							p->myIsAccepted = true;
						}
						if (p->myAcceptPause != 0)
							sim::SleepMs(p->myAcceptPause);
						p->myPeer.RunHere(fd);
					});
				}
			}
			LifeEp* lep = &le;
			e.myOnClosed = [&, lep](Ep* ep) {
				const Life& l = ep->myLife;
				LifePlan* p;
				bool isMore;
				{
					sim::Quiet q;
					p = (LifePlan*)ep->myPlan;
					++closed;
					connected += l.myIsConnected;
					failed += l.myIsConnectFailed;
					errors += l.myIsErrored;
					p->myIsShutdownMust = l.myIsShutdownMust;
					bool isBad = p->myMode != LIFE_WRAP && p->myMode != LIFE_TASK_ONLY &&
						(p->myTarget != TARGET_GOOD || p->myNaming == NAMING_FAIL ||
						p->myNaming == NAMING_NO_FAMILY);
					if (l.myIsConnected && isBad)
						Fail("sock_connect", "endpoint %d: is connected to nowhere", ep->myId);
					if (isBad && !l.myIsErrored && !l.myIsCloseReq)
						Fail("sock_connect", "endpoint %d: closed without an error", ep->myId);
					if (isBad && l.myIsErrored)
					{
						mg::box::ErrorCode code = mg::box::ERR_BOX_NONE;
						if (p->myNaming == NAMING_NO_FAMILY)
							code = mg::box::ERR_NET_ADDR_NOT_AVAIL;
						else if (p->myNaming != NAMING_FAIL)
							code = mg::box::ErrorCodeFromErrno(p->myErr);
						if (code != mg::box::ERR_BOX_NONE && l.myErrCode != code)
						{
							Fail("sock_error_code", "endpoint %d: failed with the code %d, expected %d", ep->myId,
								(int)l.myErrCode, (int)code);
						}
					}
					if ((l.myIsConnected || l.myIsConnectFailed) && p->myMode != LIFE_WRAP &&
						l.myConnectEndMs < p->myNotBeforeMs)
					{
						Fail("sock_delay", "endpoint %d: connection ended at %llu, expected not before %llu",
							ep->myId, (unsigned long long)l.myConnectEndMs, (unsigned long long)p->myNotBeforeMs);
					}
					isMore = !lep->myIsStopped && lep->myPlanPos < lep->myPlans.size();
				}
				if (isMore && lep->myIsReopenInside)
				{
					ep->myOpen();
					LifeStart(*lep);
				}
				else if (!isMore && lep->myIsDelete && ep->SetDeleted())
				{
					((TCPSocket*)ep->mySock)->Delete();
				}
			};
		}
		if (isStartedFirst)
			core.Start(workerCount);
		for (LifeEp& le : les)
		{
			le.myEp->myOpen();
			LifeStart(le);
			for (Ext& x : exts)
			{
				Ep& e = *le.myEp;
				if (x.myEp == e.myId)
					threads.emplace_back([&e, &x]() { RunExt(e, x); });
			}
		}
		if (!isStartedFirst)
			core.Start(workerCount);
		for (auto& t : threads)
			t.join();
		threads.clear();
		auto checkLives = [&](const char* stage) {
			sim::Quiet q;
			for (LifeEp& le : les)
			{
				Ep& e = *le.myEp;
				const Life& l = e.myLife;
				LifePlan* p = (LifePlan*)e.myPlan;
				if (l.myIsClosed || p->myMode == LIFE_TASK_ONLY)
					continue;
				bool isReading = l.myIsConnected && !e.myIsPaused;
				if (!l.myIsConnected)
					Fail("sock_connect_lost", "%s: endpoint %d neither connected nor failed", stage, e.myId);
				if (l.myIsShutdownMust && isReading)
					Fail("sock_shutdown_lost", "%s: endpoint %d is shut down but not closed", stage, e.myId);
				if (l.myIsShutdownMust && p->myIsAccepted && p->myPeer.myEnd != RAW_END_CLOSE &&
					!p->myPeer.myIsEof && !p->myPeer.myIsBroken)
				{
					Fail("sock_shutdown_lost", "%s: endpoint %d is shut down but its peer does not know", stage,
						e.myId);
				}
				if (p->myPeer.myIsEnding && isReading)
					Fail("sock_eof", "%s: endpoint %d has not noticed the end of the peer %d", stage, e.myId,
						p->myPeer.myEnd);
				if (isReading && p->myPeer.myIsSendDone && e.myLife.myIsConnected &&
					p->myPeer.myEnd == RAW_END_NONE && !l.myIsShutdownReq &&
					p->myPeer.myTotalSent != e.myIn.myTotal - e.myInAtStart)
				{
					Fail("sock_recv_lost", "%s: endpoint %d received %llu of %llu", stage, e.myId,
						(unsigned long long)(e.myIn.myTotal - e.myInAtStart),
						(unsigned long long)p->myPeer.myTotalSent);
				}
			}
		};
		w.Calm("end");
		checkLives("end");
		// Go through all the lives.
		for (int round = 0; round < 12; ++round)
		{
			bool isDone = true;
			for (LifeEp& le : les)
			{
				Ep& e = *le.myEp;
				if (e.myIsDeleted)
					continue;
				if (e.myLife.myIsClosed)
				{
					if (le.myPlanPos < le.myPlans.size() && !le.myIsReopenInside)
					{
						e.myOpen();
						LifeStart(le);
						isDone = false;
					}
					continue;
				}
				if (le.myPlanPos >= le.myPlans.size())
					continue;
				isDone = false;
				if (g.Chance(1, 4))
					e.Shutdown();
				else
					e.Close();
				if (g.Bool() && !le.myIsDelete && e.myLife.myIsShutdownReq)
					e.Close();
			}
			if (isDone)
				break;
			w.Calm("lives");
			checkLives("lives");
		}
		{
			sim::Quiet q;
			w.myEg.myIsFlush = true;
		}
		for (LifeEp& le : les)
		{
			Ep& e = *le.myEp;
			if (e.myLife.myIsClosed || le.myIsDelete)
				continue;
			if (e.myIsPaused)
			{
				{
					sim::Quiet q;
					e.myIsPaused = false;
				}
				e.AskRecvExt(e.NextRecvSize());
			}
			e.Wakeup();
		}
		w.Calm("flush");
		checkLives("flush");
		{
			sim::Quiet q;
			for (LifeEp& le : les)
				le.myIsStopped = true;
		}
		w.CloseAll(core);
		if (isStopEarly)
			core.Stop();
		for (LifeEp& le : les)
		{
			for (auto& p : le.myPlans)
			{
				int fd;
				{
					sim::Quiet q;
					fd = p->myFd;
				}
				if (fd >= 0)
					close(fd);
				if (p->myListener >= 0)
				{
					shutdown(p->myListener, SHUT_RDWR);
					p->myAcceptor.join();
				}
				p->myPeer.Join();
				if (p->myListener >= 0)
					close(p->myListener);
			}
		}
		for (LifeEp& le : les)
		{
			Ep& e = *le.myEp;
			if (e.myIsDeleted)
				continue;
			e.mySock->PostClose();
			e.mySock->PostShutdown();
			((TCPSocket*)e.mySock)->Delete();
		}
	}
	simnet::CheckNoOpen("sock_leak_fd");
	if (closed > 0 && sim::Preemptions() > 0)
		NonTrivial();
	if (failed > 0)
		Label("failed");
	if (errors > failed)
		Label("broken");
	if (closed > (uint64_t)epCount)
		Label("reuse");
	if (w.myEg.myParallelMax > 1)
		Label("parallel");
}
