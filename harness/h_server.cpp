// Asynchronous TCP servers on a simulated network.

#include "sockep.h"

#include "mg/aio/TCPServer.h"

#include <map>

using namespace pbt;

namespace {

	constexpr int theMaxServers = 2;
	constexpr int theMaxClients = 7;

	enum AcceptMode
	{
		ACC_KEEP,
		ACC_CLOSE,
		ACC_WRAP,
	};

	struct Client
	{
		int myServer = 0;
		uint64_t myPauseMs = 0;
		// 0 - wait for the end, 1 - close at once, 2 - break at once.
		int myMode = 0;
		bool myIsConnected = false;
		bool myIsFailed = false;
		bool myIsEnded = false;
		int myErr = 0;
		uint16_t myPort = 0;
		int myFd = -1;
		std::thread myThread;
	};

	struct Server : public mg::aio::TCPServerSubscription
	{
		int myId = 0;
		mg::aio::TCPServer::Ptr myServer;
		IOCore* myCore = nullptr;
		bool myIsIPv6 = false;
		bool myIsListening = false;
		bool myIsClosed = false;
		bool myIsClosing = false;
		int myRunning = 0;
		int myCloseAfter = -1;
		int myCloseTwice = 0;
		bool myIsUnrefInClose = false;
		uint16_t myPort = 0;
		std::vector<int> myModes;
		size_t myModePos = 0;
		// Remote ports in order.
		std::vector<uint16_t> myAccepted;
		std::vector<int> myKept;
		std::vector<std::unique_ptr<Ep>>* myEps = nullptr;
		int myPoints = 0;

		virtual ~Server() = default;

		void OnAccept(mg::net::Socket sock, const mg::net::Host& host) override
		{
			int mode;
			bool doClose;
			{
				sim::Quiet q;
				if (myRunning++ != 0)
					Fail("server_parallel", "server %d: OnAccept is called inside another callback", myId);
				if (!myIsListening || myIsClosed)
					Fail("server_after_close", "server %d: OnAccept on a closed server", myId);
				if (!simnet::IsOpen(sock))
					Fail("server_accept", "server %d: a bad descriptor %d", myId, sock);
				bool isOk = host.IsIPV4() || host.IsIPV6();
				if (!isOk || host.IsIPV6() != myIsIPv6)
					Fail("server_peer", "server %d: bad family of the peer %s", myId, host.ToString().c_str());
				std::string addr = host.ToStringNoPort();
				if (addr != (myIsIPv6 ? "[::1]" : "127.0.0.1") && addr != "::1")
					Fail("server_peer", "server %d: bad peer %s", myId, host.ToString().c_str());
				for (uint16_t p : myAccepted)
				{
					if (p == host.GetPort())
						Fail("server_dup", "server %d: the client %u is accepted twice", myId, p);
				}
				myAccepted.push_back(host.GetPort());
				mode = myModes.empty() ? ACC_KEEP : myModes[myModePos++ % myModes.size()];
				doClose = (int)myAccepted.size() == myCloseAfter;
			}
			for (int i = 0; i < myPoints; ++i)
				sim::Point();
			if (doClose)
				Close();
			switch (mode)
			{
			case ACC_KEEP:
			{
				sim::Quiet q;
				myKept.push_back(sock);
				break;
			}
			case ACC_CLOSE:
				close(sock);
				break;
			default:
			{
				int flags = fcntl(sock, F_GETFL, 0);
				if ((flags & O_NONBLOCK) == 0)
					Fail("server_nonblock", "server %d: the accepted socket is blocking", myId);
				TCPSocket* s = new TCPSocket(*myCore);
				Ep* e;
				{
					sim::Quiet q;
					e = new Ep();
					e->myId = (int)myEps->size();
					myEps->emplace_back(e);
					theEg->myEps.push_back(e);
					e->mySock = s;
					e->myIn.myIsLoose = true;
				}
				s->Open({});
				int no = e->NewLife(true);
				{
					sim::Quiet q;
					e->myLife.myIsErrorPossible = true;
					e->myLife.myIsPeerEnd = true;
				}
				s->PostWrap(sock, e);
				e->EndPost(no);
				break;
			}
			}
			sim::Quiet q;
			--myRunning;
		}

		void OnClose() override
		{
			mg::aio::TCPServer::Ptr ref;
			bool isClosed = myServer->IsClosed();
			{
				sim::Quiet q;
				if (myRunning != 0)
					Fail("server_parallel", "server %d: OnClose is called inside another callback", myId);
				if (myIsClosed)
					Fail("server_close", "server %d: closed twice", myId);
				if (!myIsClosing || !myIsListening)
					Fail("server_close", "server %d: closed without a reason", myId);
				if (!isClosed)
					Fail("server_close", "server %d: is not closed in OnClose", myId);
				myIsClosed = true;
				myIsListening = false;
			}
			if (myIsUnrefInClose)
				myServer.Clear();
		}

		void Close()
		{
			{
				sim::Quiet q;
				myIsClosing = true;
			}
			mg::aio::TCPServer::Ptr ref = myServer;
			for (int i = 0; i < 1 + myCloseTwice; ++i)
				ref->PostClose();
		}
	};

	int
	ConnectTo(const Server& s, uint16_t* outPort)
	{
		sockaddr_storage a;
		memset(&a, 0, sizeof(a));
		socklen_t len;
		if (s.myIsIPv6)
		{
			sockaddr_in6* a6 = (sockaddr_in6*)&a;
			a6->sin6_family = AF_INET6;
			a6->sin6_addr = in6addr_loopback;
			a6->sin6_port = htons(s.myPort);
			len = sizeof(*a6);
		}
		else
		{
			sockaddr_in* a4 = (sockaddr_in*)&a;
			a4->sin_family = AF_INET;
			a4->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
			a4->sin_port = htons(s.myPort);
			len = sizeof(*a4);
		}
		int fd = socket(a.ss_family, SOCK_STREAM, 0);
		if (connect(fd, (sockaddr*)&a, len) != 0)
		{
			int e = errno;
			close(fd);
			errno = e;
			return -1;
		}
		sockaddr_storage me;
		len = sizeof(me);
		getsockname(fd, (sockaddr*)&me, &len);
		*outPort = ntohs(s.myIsIPv6 ? ((sockaddr_in6*)&me)->sin6_port : ((sockaddr_in*)&me)->sin_port);
		return fd;
	}
}

PBT_TEST(tcp_server, MODE_FORK, 3)
{
	simnet::GenConfig(g);
	simnet::GetConfig().myAcceptErrChance = (uint32_t)g.Pick({0, 0, 20, 60});
	EpGlobal eg;
	theEg = &eg;
	LooseSt loose;
	theLoose = &loose;
	int serverCount = 1 + (int)g.Chance(1, 3);
	int clientCount = (int)g.Below(theMaxClients + 1);
	uint32_t workerCount = 1 + (uint32_t)g.Below(3);
	bool isStartedFirst = g.Bool();
	Server servers[theMaxServers];
	std::vector<std::unique_ptr<Client>> clients;
	std::vector<std::unique_ptr<Ep>> eps;
	Describe("%u workers, started first %d, accept errors %u\n", workerCount, (int)isStartedFirst,
		simnet::GetConfig().myAcceptErrChance);
	// Closing by threads.
	int closerServer[2] = {-1, -1};
	uint64_t closerPause[2] = {};
	for (int i = 0; i < serverCount; ++i)
	{
		Server& s = servers[i];
		s.myId = i;
		s.myIsIPv6 = g.Chance(1, 4);
		s.myCloseAfter = g.Chance(1, 4) ? 1 + (int)g.Below(4) : -1;
		s.myCloseTwice = (int)g.Chance(1, 4);
		s.myIsUnrefInClose = g.Bool();
		s.myPoints = (int)g.Below(8);
		for (int k = 0, n = (int)g.Below(5); k < n; ++k)
			s.myModes.push_back((int)g.Below(3));
		Describe("server %d: IPv6 %d, close after %d, twice %d, unref %d, modes", i, (int)s.myIsIPv6,
			s.myCloseAfter, s.myCloseTwice, (int)s.myIsUnrefInClose);
		for (int m : s.myModes)
			Describe(" %d", m);
		Describe("\n");
	}
	for (int i = 0; i < 2; ++i)
	{
		if (!g.Chance(1, 4))
			continue;
		closerServer[i] = (int)g.Below(serverCount);
		closerPause[i] = g.Pick({0ull, 1ull, 20ull, 60ull});
		Describe("closing of %d in %llu\n", closerServer[i], (unsigned long long)closerPause[i]);
	}
	for (int i = 0; i < clientCount; ++i)
	{
		clients.emplace_back(new Client());
		Client& c = *clients.back();
		c.myServer = (int)g.Below(serverCount);
		c.myPauseMs = g.Pick({0ull, 0ull, 1ull, 20ull, 50ull});
		c.myMode = (int)g.Weighted({5, 2, 1});
		Describe("client %d: server %d, pause %llu, mode %d\n", i, c.myServer, (unsigned long long)c.myPauseMs,
			c.myMode);
	}
	bool isNeverListening = g.Chance(1, 8);
	bool isStopEarly = g.Bool();
	{
		IOCore core;
		mg::aio::TCPServer::Ptr closerRefs[2];
		if (isStartedFirst)
			core.Start(workerCount);
		for (int i = 0; i < serverCount; ++i)
		{
			Server& s = servers[i];
			s.myCore = &core;
			s.myEps = &eps;
			s.myServer = mg::aio::TCPServer::NewShared(core);
			for (int k = 0; k < 2; ++k)
			{
				if (closerServer[k] == i)
					closerRefs[k] = s.myServer;
			}
			mg::net::Host host;
			bool isAny = g.Chance(1, 4);
			uint16_t port = g.Chance(1, 3) ? (uint16_t)(100 + i) : 0;
			if (s.myIsIPv6)
				host = isAny ? mg::net::HostMakeAllIPV6(port) : mg::net::HostMakeLocalIPV6(port);
			else
				host = isAny ? mg::net::HostMakeAllIPV4(port) : mg::net::HostMakeLocalIPV4(port);
			mg::box::Error::Ptr err;
			if (g.Chance(1, 4))
			{
				const char* call = g.Bool() ? "socket" : "bind";
				int code = (int)g.Pick({EMFILE, EACCES, EADDRINUSE, ENOMEM, EADDRNOTAVAIL});
				simnet::FailCall(call, 0, code);
				bool ok = s.myServer->Bind(host, err);
				if (!simnet::FailCall(nullptr, 0, 0) || ok || !err.IsSet() || err->myCode != mg::box::ErrorCodeFromErrno(code))
					Fail("server_bind_error", "server %d: wrong result of a bind with failed %s(), errno %d", i, call, code);
				err.Clear();
			}
			// Not critical.
			if (g.Chance(1, 4))
				simnet::FailCall("setsockopt", 0, EPERM);
			if (!s.myServer->Bind(host, err))
				Fail("server_bind", "server %d: can't bind: %s", i, err->myMessage.c_str());
			simnet::FailCall(nullptr, 0, 0);
			s.myPort = s.myServer->GetPort();
			if (s.myPort == 0 || (port != 0 && s.myPort != port))
				Fail("server_bind", "server %d: bound to the port %u, asked %u", i, s.myPort, port);
			{
				// The address is taken.
				mg::aio::TCPServer::Ptr other = mg::aio::TCPServer::NewShared(core);
				host.SetPort(s.myPort);
				mg::box::Error::Ptr err2;
				bool ok = other->Bind(host, err2);
				if (ok)
				{
					// Only listening makes it really taken.
					other->PostClose();
					if (!other->IsClosed())
						Fail("server_close", "a bound server is not closed at once");
				}
			}
			if (isNeverListening)
				continue;
			{
				sim::Quiet q;
				s.myIsListening = true;
			}
			uint32_t backlog = (uint32_t)g.Pick({1, 2, 5, 128});
			if (g.Chance(1, 4))
			{
				int code = (int)g.Pick({EADDRINUSE, EACCES, ENOMEM});
				simnet::FailCall("listen", 0, code);
				bool ok = s.myServer->Listen(backlog, &s, err);
				if (!simnet::FailCall(nullptr, 0, 0) || ok || !err.IsSet() || err->myCode != mg::box::ErrorCodeFromErrno(code))
					Fail("server_listen_error", "server %d: wrong result of a failed listen(), errno %d", i, code);
				err.Clear();
			}
			if (!s.myServer->Listen(g.Chance(1, 6) ? mg::net::SocketMaxBacklog() : backlog, &s, err))
				Fail("server_listen", "server %d: can't listen: %s", i, err->myMessage.c_str());
		}
		for (auto& cp : clients)
		{
			Client* c = cp.get();
			c->myThread = std::thread([c, &servers]() {
				if (c->myPauseMs != 0)
					sim::SleepMs(c->myPauseMs);
				uint16_t port = 0;
				int fd = ConnectTo(servers[c->myServer], &port);
				int err = errno;
				{
					sim::Quiet q;
					c->myIsConnected = fd >= 0;
					c->myIsFailed = fd < 0;
					c->myErr = err;
					c->myPort = port;
				}
				if (fd < 0)
					return;
				if (c->myMode == 0)
				{
					char buf[16];
					while (recv(fd, buf, sizeof(buf), 0) > 0)
						continue;
					sim::Quiet q;
					c->myIsEnded = true;
				}
				else if (c->myMode == 2)
				{
					simnet::Kill(fd, ECONNRESET);
				}
				close(fd);
			});
		}
		std::vector<std::thread> closers;
		for (int i = 0; i < 2; ++i)
		{
			if (closerServer[i] < 0 || isNeverListening)
				continue;
			Server* s = &servers[closerServer[i]];
			mg::aio::TCPServer::Ptr ref = std::move(closerRefs[i]);
			uint64_t pause = closerPause[i];
			closers.emplace_back([s, ref, pause]() mutable {
				if (pause != 0)
					sim::SleepMs(pause);
				{
					sim::Quiet q;
					s->myIsClosing = true;
				}
				ref->PostClose();
				ref->IsClosed();
			});
		}
		if (!isStartedFirst)
			core.Start(workerCount);
		sim::WaitIdle(sim::NowNs() + 90000000000ull);
		for (auto& t : closers)
			t.join();
		closers.clear();
		{
			sim::Quiet q;
			for (int i = 0; i < serverCount; ++i)
			{
				Server& s = servers[i];
				if (s.myIsClosing && !s.myIsClosed)
					Fail("server_close_lost", "server %d is not closed", i);
				if (isNeverListening || s.myIsClosed)
					continue;
				for (auto& cp : clients)
				{
					Client& c = *cp;
					if (c.myServer != i)
						continue;
					if (!c.myIsConnected)
					{
						Fail("server_connect", "server %d: client %s, error %d\n%s", i,
							c.myIsFailed ? "failed" : "is stuck", c.myErr, simnet::Dump().c_str());
					}
					bool isFound = false;
					for (uint16_t p : s.myAccepted)
						isFound = isFound || p == c.myPort;
					if (!isFound && c.myMode != 2)
					{
						Fail("server_lost", "server %d: client %u is not accepted\n%s", i, c.myPort,
							simnet::Dump().c_str());
					}
				}
			}
		}
		// New clients come to a calm server.
		for (int i = 0; i < serverCount; ++i)
		{
			Server& s = servers[i];
			if (s.myIsClosed || isNeverListening)
			{
				uint16_t port;
				int fd = ConnectTo(s, &port);
				if (fd >= 0)
					Fail("server_close", "server %d: it is closed, but accepts", i);
				continue;
			}
			if (s.myCloseAfter >= 0)
				continue;
			size_t was = s.myAccepted.size();
			uint16_t port;
			int fd = ConnectTo(s, &port);
			if (fd < 0)
				Fail("server_connect", "server %d: can't connect when it is calm", i);
			sim::WaitIdle(sim::NowNs() + 90000000000ull);
			{
				sim::Quiet q;
				if (s.myAccepted.size() != was + 1 || s.myAccepted.back() != port)
					Fail("server_lost", "server %d: a client is not accepted when it is calm", i);
			}
			close(fd);
		}
		for (int i = 0; i < serverCount; ++i)
		{
			Server& s = servers[i];
			if (isNeverListening)
			{
				s.myServer->PostClose();
				if (!s.myServer->IsClosed())
					Fail("server_close", "a bound server is not closed at once");
			}
			else if (!s.myIsClosed)
			{
				s.Close();
			}
		}
		for (auto& e : eps)
			e->Close();
		if (core.WaitEmpty(mg::box::TimeDuration(60000)) != 0)
			Fail("server_close_hang", "not all is closed:\n%s", simnet::Dump().c_str());
		{
			sim::Quiet q;
			for (int i = 0; i < serverCount; ++i)
			{
				Server& s = servers[i];
				if (!isNeverListening && !s.myIsClosed)
					Fail("server_close_lost", "server %d is not closed", i);
				for (int fd : s.myKept)
				{
					if (!simnet::IsOpen(fd))
						Fail("server_accept", "server %d: foreign socket is closed", i);
				}
			}
		}
		if (isStopEarly)
			core.Stop();
		for (int i = 0; i < serverCount; ++i)
		{
			for (int fd : servers[i].myKept)
				close(fd);
			servers[i].myServer.Clear();
		}
		// All the connections are over.
		sim::WaitIdle(sim::NowNs() + 90000000000ull);
		for (auto& c : clients)
		{
			{
				sim::Quiet q;
				if (c->myIsConnected && c->myMode == 0 && !c->myIsEnded)
					Fail("server_leak", "a client %u is still connected\n%s", c->myPort, simnet::Dump().c_str());
			}
			c->myThread.join();
		}
		for (auto& e : eps)
			((TCPSocket*)e->mySock)->Delete();
	}
	simnet::CheckNoOpen("server_leak_fd");
	size_t accepted = 0;
	for (Server& s : servers)
		accepted += s.myAccepted.size();
	if (accepted > 0 && sim::Preemptions() > 0)
		NonTrivial();
	if (simnet::GetStats().myAcceptErrs > 0)
		Label("accept-errors");
	if (accepted > 3)
		Label("burst");
	if (!eps.empty())
		Label("wrapped");
}
