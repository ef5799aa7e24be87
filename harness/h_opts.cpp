// Socket options and addresses over the real kernel, loopback only.

#include "pbt.h"

#include "mg/aio/IOCore.h"
#include "mg/aio/IOTask.h"
#include "mg/aio/TCPSocket.h"
#include "mg/aio/TCPSocketSubscription.h"
#include "mg/box/Error.h"
#include "mg/net/Host.h"
#include "mg/net/Socket.h"
#include "mg/sio/Socket.h"
#include "mg/sio/TCPServer.h"
#include "mg/sio/TCPSocket.h"

#include <arpa/inet.h>
#include <atomic>
#include <cerrno>
#include <fcntl.h>
#include <memory>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <string>
#include <sys/file.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
#include <vector>

using namespace pbt;
using namespace mg::net;
using mg::box::Error;

namespace {

	bool
	HasV6()
	{
		static int has = -1;
		if (has < 0)
		{
			int fd = socket(AF_INET6, SOCK_STREAM, 0);
			sockaddr_in6 a;
			memset(&a, 0, sizeof(a));
			a.sin6_family = AF_INET6;
			a.sin6_addr = in6addr_loopback;
			has = fd >= 0 && bind(fd, (sockaddr*)&a, sizeof(a)) == 0;
			if (fd >= 0)
				close(fd);
		}
		return has == 1;
	}

	// Cases running in parallel must not meet at the same ports.
	struct Exclusive
	{
		Exclusive()
		{
			myFd = open("/proc/self/exe", O_RDONLY | O_CLOEXEC);
			while (flock(myFd, LOCK_EX) != 0 && errno == EINTR);
		}
		~Exclusive() { close(myFd); }

		int myFd;
	};

	// The descriptor the next created one will have.
	int
	NextFd()
	{
		int fd = open("/dev/null", O_RDONLY);
		close(fd);
		return fd;
	}

	int
	Get(int fd, int level, int name)
	{
		int v = -12345;
		socklen_t len = sizeof(v);
		if (getsockopt(fd, level, name, &v, &len) != 0)
			Fail("harness", "getsockopt %d %d: %s", level, name, strerror(errno));
		return v;
	}

	struct Model
	{
		int myFd = -1;
		bool myIsV6 = false;
		int myReuse = 0;
		int myKeep = 0;
		int myIdle = 0;
		int myInterval = 0;
		int myCount = 0;
		int myUser = 0;
		int myNoDelay = 0;
		int myV6Only = 0;
		int myFlags = 0;

		void Read()
		{
			myReuse = Get(myFd, SOL_SOCKET, SO_REUSEADDR);
			myKeep = Get(myFd, SOL_SOCKET, SO_KEEPALIVE);
			myIdle = Get(myFd, IPPROTO_TCP, TCP_KEEPIDLE);
			myInterval = Get(myFd, IPPROTO_TCP, TCP_KEEPINTVL);
			myCount = Get(myFd, IPPROTO_TCP, TCP_KEEPCNT);
			myUser = Get(myFd, IPPROTO_TCP, TCP_USER_TIMEOUT);
			myNoDelay = Get(myFd, IPPROTO_TCP, TCP_NODELAY);
			myV6Only = myIsV6 ? Get(myFd, IPPROTO_IPV6, IPV6_V6ONLY) : 0;
			myFlags = fcntl(myFd, F_GETFL, 0);
		}

		void Check(const char* where)
		{
			Model m;
			m.myFd = myFd;
			m.myIsV6 = myIsV6;
			m.Read();
#define CHECK_ONE(f) \
			if (m.f != f) \
				Fail("opt_value", "after %s: " #f " is %d, expected %d", where, m.f, f)
			// Logical values.
			if ((m.myReuse != 0) != (myReuse != 0))
				Fail("opt_value", "after %s: reuse is %d", where, m.myReuse);
			if ((m.myKeep != 0) != (myKeep != 0))
				Fail("opt_value", "after %s: keep alive is %d", where, m.myKeep);
			if ((m.myNoDelay != 0) != (myNoDelay != 0))
				Fail("opt_value", "after %s: no-delay is %d", where, m.myNoDelay);
			if ((m.myV6Only != 0) != (myV6Only != 0))
				Fail("opt_value", "after %s: v6-only is %d", where, m.myV6Only);
			CHECK_ONE(myIdle);
			CHECK_ONE(myInterval);
			CHECK_ONE(myCount);
			CHECK_ONE(myUser);
			CHECK_ONE(myFlags);
		}
	};

	// Result of a keep-alive change. Timing is checked by the relations.
	void
	CheckKeepAlive(Model& m, bool isOk, const Error::Ptr& err, bool value, uint32_t timeout)
	{
		if (!value)
		{
			if (!isOk)
				Fail("opt_result", "can't turn off the keep-alive");
			m.myKeep = 0;
			m.Check("keep-alive off");
			return;
		}
		uint64_t idle = timeout / 1000;
		if (idle == 0 && timeout != 0)
			idle = 1;
		// The limits of the kernel.
		bool isValid = idle >= 1 && idle <= 32767;
		if (isOk != isValid)
			Fail("opt_result", "keep-alive with the timeout %u: result %d", timeout, (int)isOk);
		if (!isOk)
		{
			if (!err.IsSet() || err->myCode != mg::box::ErrorCodeFromErrno(EINVAL))
				Fail("opt_result", "wrong error of the keep-alive");
			// A part of the options can be set.
			Model was = m;
			m.Read();
			m.myReuse = was.myReuse;
			m.myNoDelay = was.myNoDelay;
			m.myV6Only = was.myV6Only;
			m.myFlags = was.myFlags;
			m.Check("failed keep-alive");
			return;
		}
		m.myKeep = 1;
		m.myIdle = (int)idle;
		m.myInterval = Get(m.myFd, IPPROTO_TCP, TCP_KEEPINTVL);
		m.myCount = Get(m.myFd, IPPROTO_TCP, TCP_KEEPCNT);
		if (m.myInterval != 3 || m.myCount != 9)
			Fail("opt_value", "keep-alive interval %d and count %d", m.myInterval, m.myCount);
		// Not confirmed data is not kept longer than an idle connection.
		m.myUser = (m.myIdle + m.myInterval * m.myCount) * 1000;
		m.Check("keep-alive on");
	}

	uint32_t
	GenTimeout(Gen& g)
	{
		switch (g.Weighted({3, 3, 1, 1}))
		{
		case 0:
			return (uint32_t)g.Pick({0, 1, 999, 1000, 1001, 1999, 2000, 32767000, 32767999, 32768000});
		case 1:
			return (uint32_t)g.Below(100000);
		case 2:
			return (uint32_t)g.Below(40000000);
		default:
			return (uint32_t)g.Edge64();
		}
	}

	Error::Ptr
	Stale(Gen& g)
	{
		if (g.Bool())
			return mg::box::ErrorRaise(mg::box::ERR_BOX_TIMEOUT, "stale");
		return Error::Ptr();
	}

	Host
	GenHost(Gen& g, bool isV6, uint16_t port, std::string& outAddr)
	{
		if (isV6)
		{
			bool isAny = g.Bool();
			outAddr = isAny ? "::" : "::1";
			return isAny ? HostMakeAllIPV6(port) : HostMakeLocalIPV6(port);
		}
		switch (g.Below(3))
		{
		case 0:
			outAddr = "0.0.0.0";
			return HostMakeAllIPV4(port);
		case 1:
			outAddr = "127.0.0.1";
			return HostMakeLocalIPV4(port);
		default:
		{
			sockaddr_in a;
			memset(&a, 0, sizeof(a));
			a.sin_family = AF_INET;
			a.sin_addr.s_addr = htonl(0x7f000001 + (uint32_t)g.Below(1000000));
			a.sin_port = htons(port);
			char buf[64];
			inet_ntop(AF_INET, &a.sin_addr, buf, sizeof(buf));
			outAddr = buf;
			return Host((sockaddr*)&a);
		}
		}
	}

	// The kernel's opinion.
	void
	RealAddr(int fd, std::string& outAddr, uint16_t& outPort)
	{
		sockaddr_storage a;
		memset(&a, 0, sizeof(a));
		socklen_t len = sizeof(a);
		getsockname(fd, (sockaddr*)&a, &len);
		char buf[64];
		if (a.ss_family == AF_INET)
		{
			inet_ntop(AF_INET, &((sockaddr_in*)&a)->sin_addr, buf, sizeof(buf));
			outPort = ntohs(((sockaddr_in*)&a)->sin_port);
		}
		else
		{
			inet_ntop(AF_INET6, &((sockaddr_in6*)&a)->sin6_addr, buf, sizeof(buf));
			outPort = ntohs(((sockaddr_in6*)&a)->sin6_port);
		}
		outAddr = buf;
	}

	// Connect a raw socket. 0 or errno.
	// Without TIME_WAIT, not to run out of ports.
	void
	CloseHard(int fd)
	{
		linger l = {1, 0};
		setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof(l));
		close(fd);
	}

	int
	TryConnect(bool isV6, uint16_t port, int* outFd = nullptr)
	{
		int fd = socket(isV6 ? AF_INET6 : AF_INET, SOCK_STREAM, 0);
		Host h = isV6 ? HostMakeLocalIPV6(port) : HostMakeLocalIPV4(port);
		int rc = connect(fd, &h.myAddr, h.GetSockaddrSize());
		int err = rc == 0 ? 0 : errno;
		if (outFd != nullptr && rc == 0)
			*outFd = fd;
		else
			CloseHard(fd);
		return err;
	}

	int
	RawSocket(Gen& g, bool isV6)
	{
		return socket(isV6 ? AF_INET6 : AF_INET, SOCK_STREAM | (g.Bool() ? SOCK_NONBLOCK : 0), 0);
	}
}

// Any sequence of changes of a socket.
PBT_TEST(sock_opts, MODE_INPROC, 2)
{
	Model m;
	m.myIsV6 = HasV6() && g.Bool();
	int next = NextFd();
	if (g.Bool())
	{
		Error::Ptr err = Stale(g);
		m.myFd = mg::sio::SocketCreate(m.myIsV6 ? ADDR_FAMILY_IPV6 : ADDR_FAMILY_IPV4,
			g.Bool() ? TRANSPORT_PROT_TCP : TRANSPORT_PROT_DEFAULT, err);
		if (m.myFd != next)
			Fail("opt_result", "a socket isn't created");
		if ((fcntl(m.myFd, F_GETFL, 0) & O_NONBLOCK) == 0)
			Fail("opt_value", "a created socket is blocking");
	}
	else
	{
		m.myFd = RawSocket(g, m.myIsV6);
	}
	if (Get(m.myFd, SOL_SOCKET, SO_DOMAIN) != (m.myIsV6 ? AF_INET6 : AF_INET) ||
		Get(m.myFd, SOL_SOCKET, SO_TYPE) != SOCK_STREAM)
		Fail("opt_value", "wrong family or type of the socket");
	m.Read();
	bool isBound = false;
	int steps = 1 + (int)g.Small(15);
	for (int i = 0; i < steps; ++i)
	{
		Error::Ptr err = Stale(g);
		switch (g.Below(7))
		{
		case 0:
		{
			bool v = g.Chance(3, 4);
			uint32_t t = GenTimeout(g);
			Describe("keep-alive %d %u\n", (int)v, t);
			bool isOk = SocketSetKeepAlive(m.myFd, v, t, err);
			CheckKeepAlive(m, isOk, err, v, t);
			break;
		}
		case 1:
		{
			bool v = g.Bool();
			Describe("no-delay %d\n", (int)v);
			if (!SocketSetNoDelay(m.myFd, v, err))
				Fail("opt_result", "no-delay failed");
			m.myNoDelay = v;
			m.Check("no-delay");
			break;
		}
		case 2:
			Describe("reuse\n");
			if (!SocketFixReuseAddr(m.myFd, err))
				Fail("opt_result", "reuse failed");
			m.myReuse = 1;
			m.Check("reuse");
			break;
		case 3:
		{
			bool v = g.Bool();
			Describe("dual stack %d\n", (int)v);
			bool isOk = SocketSetDualStack(m.myFd, v, err);
			// Can't be changed in a bound socket.
			bool isValid = m.myIsV6 && !isBound;
			if (isOk != isValid)
				Fail("opt_result", "dual stack result %d", (int)isOk);
			if (isOk)
				m.myV6Only = !v;
			else if (!err.IsSet() || err->myCode == mg::box::ERR_BOX_TIMEOUT)
				Fail("opt_result", "dual stack failed without an error");
			m.Check("dual stack");
			break;
		}
		case 4:
			Describe("non-block\n");
			SocketMakeNonBlocking(m.myFd);
			m.myFlags |= O_NONBLOCK;
			m.Check("non-block");
			break;
		case 5:
		{
			if (isBound || !g.Chance(1, 3))
				break;
			Describe("bind\n");
			if (!SocketBindAny(m.myFd, m.myIsV6 ? ADDR_FAMILY_IPV6 : ADDR_FAMILY_IPV4, err))
				Fail("opt_result", "bind failed");
			isBound = true;
			Host h = SocketGetBoundHost(m.myFd);
			std::string addr;
			uint16_t port;
			RealAddr(m.myFd, addr, port);
			if (h.GetPort() == 0 || h.GetPort() != port || addr != (m.myIsV6 ? "::" : "0.0.0.0") ||
				h != (m.myIsV6 ? HostMakeAllIPV6(port) : HostMakeAllIPV4(port)))
				Fail("opt_bind", "bound to a wrong address");
			m.Check("bind");
			break;
		}
		case 6:
		{
			// Not a socket at all.
			int fds[2] = {-1, -1};
			bool isPipe = g.Bool();
			if (isPipe && pipe(fds) != 0)
				break;
			bool isOk;
			switch (g.Below(5))
			{
			case 0:
				isOk = SocketSetKeepAlive(fds[0], g.Bool(), 1000, err);
				break;
			case 1:
				isOk = SocketSetNoDelay(fds[0], g.Bool(), err);
				break;
			case 2:
				isOk = SocketFixReuseAddr(fds[0], err);
				break;
			case 3:
				isOk = SocketSetDualStack(fds[0], g.Bool(), err);
				break;
			default:
				isOk = SocketBind(fds[0], HostMakeLocalIPV4(0), err);
				break;
			}
			int e = isPipe ? ENOTSOCK : EBADF;
			if (isOk || !err.IsSet() || err->myCode != mg::box::ErrorCodeFromErrno(e))
				Fail("opt_result", "wrong result for not a socket");
			if (isPipe)
			{
				close(fds[0]);
				close(fds[1]);
			}
			m.Check("another descriptor");
			break;
		}
		}
		HashMix((uint64_t)m.myIdle * 64 + (uint64_t)m.myKeep * 8 + (uint64_t)m.myNoDelay * 4 +
			(uint64_t)m.myReuse * 2 + (uint64_t)m.myV6Only);
	}
	SocketClose(m.myFd);
	SocketClose(theInvalidSocket);
	if (NextFd() != next)
		Fail("opt_leak", "a descriptor is leaked");
	if (steps > 1)
		NonTrivial();
}

// Addresses: binding, conflicts, dual stack in action, shutdown, states.
PBT_TEST(sock_bind, MODE_INPROC, 1)
{
	Exclusive ex;
	bool isV6 = HasV6() && g.Bool();
	int next = NextFd();
	Error::Ptr err = Stale(g);
	std::string addr;
	Host host = GenHost(g, isV6, 0, addr);
	Describe("host %s\n", addr.c_str());
	switch (g.Below(4))
	{
	case 0:
	{
		// Raw functions.
		int fd = RawSocket(g, isV6);
		bool isReuse = g.Bool();
		if (isReuse && !SocketFixReuseAddr(fd, err))
			Fail("opt_result", "reuse failed");
		bool isDual = g.Bool();
		bool hasDual = isV6 && g.Chance(2, 3);
		if (hasDual && !SocketSetDualStack(fd, isDual, err))
			Fail("opt_result", "dual stack failed");
		if (!SocketBind(fd, host, err))
			Fail("opt_bind", "bind to %s failed: %s", addr.c_str(), err->myMessage.c_str());
		std::string real;
		uint16_t port;
		RealAddr(fd, real, port);
		Host bound = SocketGetBoundHost(fd);
		host.SetPort(port);
		if (real != addr || port == 0 || bound != host || bound.GetPort() != port)
			Fail("opt_bind", "bound to %s, not to %s", real.c_str(), addr.c_str());
		bool isListen = g.Chance(2, 3);
		if (isListen && !mg::sio::SocketListen(fd, SocketMaxBacklog(), err))
			Fail("opt_bind", "listen failed");
		if (isListen && (addr == "::1" || addr == "::" || addr == "0.0.0.0" || addr == "127.0.0.1"))
		{
			if (TryConnect(isV6, port) != 0)
				Fail("opt_bind", "can't connect to %s", addr.c_str());
			// IPv4 gets into the all-address of IPv6 only with dual stack.
			if (hasDual && addr == "::")
			{
				// Without it this address is taken, so as others couldn't use it meanwhile.
				int guard = isDual ? -1 : socket(AF_INET, SOCK_STREAM, 0);
				Host local = HostMakeLocalIPV4(port);
				if (isDual || bind(guard, &local.myAddr, local.GetSockaddrSize()) == 0)
				{
					int rc = TryConnect(false, port);
					if (isDual && rc != 0)
						Fail("opt_value", "can't connect by IPv4 with the dual stack");
					if (!isDual && rc != ECONNREFUSED)
						Fail("opt_value", "connected by IPv4 without the dual stack");
				}
				if (guard >= 0)
					close(guard);
				Label("dual stack");
			}
		}
		// Conflict.
		bool isConflict = isListen || !isReuse;
		int fd2 = RawSocket(g, isV6);
		bool isReuse2 = g.Bool();
		err = Stale(g);
		if (isReuse2)
			SocketFixReuseAddr(fd2, err);
		if (!isReuse2)
			isConflict = true;
		err = Stale(g);
		bool isOk = SocketBind(fd2, host, err);
		if (isOk == isConflict)
			Fail("opt_bind", "the second bind: result %d, reuse %d %d, listen %d", (int)isOk, (int)isReuse,
				(int)isReuse2, (int)isListen);
		if (!isOk && (!err.IsSet() || err->myCode != mg::box::ERR_NET_ADDR_IN_USE))
			Fail("opt_bind", "wrong error of the second bind");
		SocketClose(fd2);
		SocketClose(fd);
		break;
	}
	case 1:
	{
		// The servers.
		mg::sio::TCPServer server;
		if (!server.Bind(host, err))
			Fail("opt_bind", "bind failed");
		std::string real;
		uint16_t port;
		RealAddr(next, real, port);
		if (real != addr || port == 0 || server.GetPort() != port)
			Fail("opt_bind", "bound to %s:%d, not to %s", real.c_str(), (int)port, addr.c_str());
		if (Get(next, SOL_SOCKET, SO_REUSEADDR) == 0)
			Fail("opt_value", "the server does not reuse the address");
		if ((fcntl(next, F_GETFL, 0) & O_NONBLOCK) == 0)
			Fail("opt_value", "the server is blocking");
		err = Stale(g);
		if (!server.Listen((uint32_t)g.Range(1, SocketMaxBacklog()), err))
			Fail("opt_bind", "listen failed");
		host.SetPort(port);
		int next2 = NextFd();
		for (int i = 0; i < 2; ++i)
		{
			mg::sio::TCPServer other;
			err = Stale(g);
			if (other.Bind(host, err) || err->myCode != mg::box::ERR_NET_ADDR_IN_USE)
				Fail("opt_bind", "wrong result of the second bind");
			if (NextFd() != next2)
				Fail("opt_leak", "a failed bind leaked a descriptor");
			err = Stale(g);
			mg::aio::IOServerSocket* srv = mg::aio::SocketBind(host, err);
			if (srv != nullptr || err->myCode != mg::box::ERR_NET_ADDR_IN_USE)
				Fail("opt_bind", "wrong result of the second asynchronous bind");
			if (NextFd() != next2)
				Fail("opt_leak", "a failed bind leaked a descriptor");
		}
		if (g.Bool())
		{
			Host peer;
			err = Stale(g);
			Socket s = server.Accept(peer, err);
			if (s != theInvalidSocket || err.IsSet())
				Fail("opt_bind", "accept of nothing");
		}
		int client = -1;
		if (addr == "::1" || addr == "::" || addr == "0.0.0.0" || addr == "127.0.0.1")
		{
			if (TryConnect(isV6, port, &client) != 0)
				Fail("opt_bind", "can't connect");
			Host peer;
			err = Stale(g);
			Socket s = server.Accept(peer, err);
			uint16_t clientPort;
			RealAddr(client, real, clientPort);
			if (s == theInvalidSocket || peer.GetPort() != clientPort)
				Fail("opt_bind", "not accepted or wrong peer");
			if ((fcntl(s, F_GETFL, 0) & O_NONBLOCK) == 0)
				Fail("opt_value", "an accepted socket is blocking");
			if (g.Bool())
			{
				// Both directions are shut down.
				err = Stale(g);
				if (!SocketShutdown(s, err))
					Fail("opt_result", "shutdown failed");
				char c;
				if (recv(client, &c, 1, 0) != 0 || recv(s, &c, 1, 0) != 0)
					Fail("opt_result", "the connection is not shut down");
				if (send(s, &c, 1, MSG_NOSIGNAL) >= 0 || errno != EPIPE)
					Fail("opt_result", "can send after a shutdown");
				Label("shutdown");
			}
			SocketClose(s);
			CloseHard(client);
		}
		server.Close();
		break;
	}
	case 2:
	{
		// The asynchronous one.
		mg::aio::IOServerSocket* srv = mg::aio::SocketBind(host, err);
		if (srv == nullptr)
			Fail("opt_bind", "bind failed");
		std::string real;
		uint16_t port;
		RealAddr(next, real, port);
		if (real != addr || port == 0)
			Fail("opt_bind", "bound to %s:%d, not to %s", real.c_str(), (int)port, addr.c_str());
		if (Get(next, SOL_SOCKET, SO_REUSEADDR) == 0)
			Fail("opt_value", "the server does not reuse the address");
		if (g.Bool())
		{
			err = Stale(g);
			if (!mg::aio::SocketListen(srv, SocketMaxBacklog(), err))
				Fail("opt_bind", "listen failed");
			if (Get(next, SOL_SOCKET, SO_ACCEPTCONN) == 0)
				Fail("opt_bind", "not listening");
		}
		SocketClose(srv->mySock);
		srv->mySock = theInvalidSocket;
		delete srv;
		break;
	}
	default:
	{
		// States.
		int fd = RawSocket(g, isV6);
		Host h = SocketGetBoundHost(fd);
		if (h.GetPort() != 0)
			Fail("opt_bind", "not bound, but has a port");
		err = Stale(g);
		if (SocketShutdown(fd, err) || !err.IsSet() || err->myCode != mg::box::ErrorCodeFromErrno(ENOTCONN))
			Fail("opt_result", "wrong result of a shutdown of not connected socket");
		if (!SocketCheckState(fd, err))
			Fail("opt_result", "wrong state");
		SocketMakeNonBlocking(fd);
		// Nobody listens there, the port is taken.
		int busy = RawSocket(g, isV6);
		Host local = isV6 ? HostMakeLocalIPV6(0) : HostMakeLocalIPV4(0);
		if (!SocketBind(busy, local, err))
			Fail("opt_bind", "bind failed");
		local = SocketGetBoundHost(busy);
		err = Stale(g);
		if (mg::sio::SocketConnectStart(fd, local, err))
			Fail("opt_result", "connected to nowhere");
		if (!err.IsSet())
		{
			pollfd p = {fd, POLLOUT, 0};
			if (poll(&p, 1, 10000) != 1)
				Fail("harness", "connect takes too long");
			if (g.Bool())
			{
				err = Stale(g);
				if (SocketCheckState(fd, err))
					Fail("opt_result", "no error of a failed connect");
			}
			else
			{
				err = Stale(g);
				if (mg::sio::SocketConnectUpdate(fd, err))
					Fail("opt_result", "connected to nowhere");
			}
		}
		if (!err.IsSet() || err->myCode != mg::box::ErrorCodeFromErrno(ECONNREFUSED))
			Fail("opt_result", "wrong error of a refused connect");
		SocketClose(busy);
		SocketClose(fd);
		break;
	}
	}
	if (NextFd() != next)
		Fail("opt_leak", "a descriptor is leaked");
	NonTrivial();
}

namespace {

	struct Peek : public mg::aio::TCPSocketIFace
	{
		static mg::aio::IOTask& Task(mg::aio::TCPSocketIFace* sock) { return sock->*(&Peek::myTask); }
	};

	struct AioSub final : public mg::aio::TCPSocketSubscription
	{
		mg::aio::TCPSocket* mySock = nullptr;
		Gen* myGen = nullptr;
		Model myModel;
		std::atomic<bool> myIsClosed{false};
		bool myIsConnected = false;

		void OnConnect() final
		{
			myIsConnected = true;
			Gen& g = *myGen;
			myModel.myFd = Peek::Task(mySock).GetSocket();
			myModel.Read();
			int steps = 1 + (int)g.Small(6);
			for (int i = 0; i < steps; ++i)
			{
				bool v = g.Bool();
				Error::Ptr err = Stale(g);
				if (g.Bool())
				{
					Describe("no-delay %d\n", (int)v);
					if (!mySock->SetNoDelay(v, err))
						Fail("opt_result", "no-delay failed");
					myModel.myNoDelay = v;
					myModel.Check("no-delay");
				}
				else
				{
					uint32_t t = GenTimeout(g);
					Describe("keep-alive %d %u\n", (int)v, t);
					bool isOk = mySock->SetKeepAlive(v, t, err);
					CheckKeepAlive(myModel, isOk, err, v, t);
				}
			}
			mySock->PostClose();
		}
		void OnConnectError(mg::box::Error* e) final { Fail("harness", "can't connect: %s", e->myMessage.c_str()); }
		void OnError(mg::box::Error* e) final { Fail("harness", "an error: %s", e->myMessage.c_str()); }
		void OnRecv(BufferReadStream&) final {}
		void OnClose() final { myIsClosed = true; }
	};
}

// Options of an asynchronous socket.
PBT_TEST(sock_aio, MODE_FORK, 1)
{
	Error::Ptr err;
	bool isV6 = HasV6() && g.Bool();
	int server = RawSocket(g, isV6);
	if (!SocketBind(server, isV6 ? HostMakeLocalIPV6(0) : HostMakeLocalIPV4(0), err) ||
		!mg::sio::SocketListen(server, 10, err))
		Fail("harness", "can't listen");
	{
		mg::aio::IOCore core;
		core.Start(1);
		AioSub sub;
		sub.myGen = &g;
		sub.myModel.myIsV6 = isV6;
		sub.mySock = new mg::aio::TCPSocket(core);
		sub.mySock->Open({});
		mg::aio::TCPSocketConnectParams params;
		Host host = SocketGetBoundHost(server);
		params.myEndpoint = host.ToString();
		sub.mySock->PostConnect(params, &sub);
		while (!sub.myIsClosed)
			usleep(100);
		if (!sub.myIsConnected)
			Fail("harness", "not connected");
		sub.mySock->Delete();
		core.WaitEmpty();
	}
	NonTrivial();
}
