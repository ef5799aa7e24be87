// Simple non-blocking sockets over a simulated kernel.

#include "netutil.h"

#include "mg/box/Error.h"
#include "mg/box/IOVec.h"
#include "mg/net/Buffer.h"
#include "mg/net/Host.h"
#include "mg/sio/Socket.h"
#include "mg/sio/TCPServer.h"
#include "mg/sio/TCPSocket.h"

#include <memory>
#include <string>
#include <sys/mman.h>
#include <vector>

using namespace pbt;
using namespace mg::net;
using mg::sio::TCPServer;
using mg::sio::TCPSocket;
using mg::box::Error;

namespace {

	struct Dir
	{
		uint32_t myStream = 0;
		uint64_t mySent = 0;
		uint64_t myRecvd = 0;
		// The writer finished normally or was closed.
		bool myIsFin = false;
		bool myIsEof = false;
	};

	// A chain which can't be changed by sending it.
	struct Kept
	{
		Buffer::Ptr myHead;
		std::vector<uint32_t> mySizes;
		std::string myData;
	};

	enum Target
	{
		TO_SERVER,
		TO_RAW,
		TO_NOWHERE,
		TO_BLACKHOLE,
		TO_ERROR_SYNC,
		TO_ERROR_ASYNC,
		TO_COUNT,
	};

	struct Conn;

	struct Side
	{
		Conn* myConn = nullptr;
		bool myIsServer = false;
		std::unique_ptr<TCPSocket> mySio;
		int myRaw = -1;
		bool myIsRawFailed = false;
		Dir* myOut = nullptr;
		Dir* myIn = nullptr;
	};

	struct Conn
	{
		int myId = 0;
		int myTarget = 0;
		int myErrno = 0;
		uint16_t myPort = 0;
		int myServer = -1;
		const void* mySim = nullptr;
		uint64_t myStartMs = 0;
		Dir myC2S;
		Dir myS2C;
		Side myCl;
		Side mySv;
		bool myIsAccepted = false;
		bool myIsServerGone = false;
		bool myIsClientGone = false;
		bool myIsOver = false;
		bool myWasConnected = false;
		int myKillErr = 0;
		// One of the sides is closed when all is delivered.
		bool myIsGraceful = false;
		// Over after a connect error.
		bool myIsFailed = false;
	};

	struct Server
	{
		uint16_t myPort = 0;
		bool myIsV6 = false;
		std::unique_ptr<TCPServer> mySio;
		int myRaw = -1;
		bool myIsOpen = false;
	};

	struct World
	{
		std::vector<std::unique_ptr<Server>> myServers;
		std::vector<std::unique_ptr<Conn>> myConns;
		std::vector<std::unique_ptr<std::string>> myStore;
		std::vector<Kept> myKept;
		uint64_t myErrors = 0;
		uint64_t myEofs = 0;
		uint32_t myNextStream = 1;
	};

	Error::Ptr
	StaleError(Gen& g)
	{
		if (g.Chance(1, 3))
			return mg::box::ErrorRaise(mg::box::ERR_BOX_TIMEOUT, "stale");
		return Error::Ptr();
	}

	bool
	IsCode(const Error::Ptr& err, int e)
	{
		return err.IsSet() && err->myCode == mg::box::ErrorCodeFromErrno(e);
	}

	void
	CheckState(const Side& s)
	{
		int n = (int)s.mySio->IsClosed() + (int)s.mySio->IsConnecting() + (int)s.mySio->IsConnected();
		if (n != 1)
			Fail("sio_state", "conn %d: not exactly one state", s.myConn->myId);
	}

	// After a failed update or receive.
	void
	CheckFail(Side& s, const Error::Ptr& err, const char* where)
	{
		Conn& c = *s.myConn;
		if (!err.IsSet())
			Fail("sio_error", "conn %d: %s failed without an error", c.myId, where);
		if (!s.mySio->IsClosed())
			Fail("sio_error", "conn %d: %s failed but the socket is not closed", c.myId, where);
		if (c.myIsGraceful)
			Fail("sio_eof", "conn %d: %s failed instead of the end of stream", c.myId, where);
		bool isPeerGone = (s.myIsServer ? c.myIsClientGone : c.myIsServerGone) || c.myKillErr != 0;
		bool isOk = isPeerGone && (IsCode(err, ECONNRESET) || IsCode(err, EPIPE));
		isOk = isOk || (c.myKillErr != 0 && IsCode(err, c.myKillErr));
		if (!isOk)
			Fail("sio_error", "conn %d: %s of %s failed with '%s' (%d)", c.myId, where,
				s.myIsServer ? "server" : "client", err->myMessage.c_str(), (int)err->myCode);
	}

	void
	Gone(Side& s)
	{
		if (s.myIsServer)
			s.myConn->myIsServerGone = true;
		else
			s.myConn->myIsClientGone = true;
		s.myOut->myIsFin = true;
	}

	void
	OnData(Side& s, const void* data, uint64_t size)
	{
		Dir& d = *s.myIn;
		if (d.myIsEof)
			Fail("sio_data", "conn %d: data after the end", s.myConn->myId);
		if (size > d.mySent - d.myRecvd)
			Fail("sio_data", "conn %d: received more than was sent", s.myConn->myId);
		uint64_t bad = PatCheck(data, d.myStream, d.myRecvd, size);
		if (bad != size)
			Fail("sio_data", "conn %d: wrong byte at %llu", s.myConn->myId, (unsigned long long)(d.myRecvd + bad));
		d.myRecvd += size;
	}

	void
	OnEof(Side& s)
	{
		Dir& d = *s.myIn;
		simnet::ConnInfo i = simnet::GetConn(s.myConn->mySim);
		uint64_t sent = s.myIsServer ? i.mySent : i.myPeerSent;
		if (!d.myIsFin)
			Fail("sio_eof", "conn %d: end of stream, but the peer is not closed", s.myConn->myId);
		if (sent != d.myRecvd)
			Fail("sio_eof", "conn %d: end of stream after %llu of %llu bytes", s.myConn->myId,
				(unsigned long long)d.myRecvd, (unsigned long long)sent);
		d.myIsEof = true;
	}

	void
	DoRecv(World& w, Side& s, Gen& g, bool isBig)
	{
		if (s.myRaw >= 0)
		{
			std::string buf(isBig ? 20000 : 1 + g.Small(3000), '\0');
			ssize_t rc = recv(s.myRaw, &buf[0], buf.size(), MSG_DONTWAIT);
			if (rc > 0)
				OnData(s, buf.data(), (uint64_t)rc);
			else if (rc == 0 && !s.myIsRawFailed)
				OnEof(s);
			else if (rc < 0 && errno != EAGAIN)
				s.myIsRawFailed = true;
			return;
		}
		if (s.mySio == nullptr || !s.mySio->IsConnected())
			return;
		Error::Ptr err = StaleError(g);
		int64_t rc;
		if (isBig || g.Bool())
		{
			size_t size = isBig ? 20000 : (size_t)(1 + g.Small(3000));
			std::string buf(size + 1, '\x5a');
			rc = s.mySio->Recv((void*)&buf[0], size, err);
			if (rc > (int64_t)size)
				Fail("sio_data", "received more than asked");
			for (size_t i = rc > 0 ? (size_t)rc : 0; i <= size; ++i)
			{
				if (buf[i] != '\x5a')
					Fail("sio_data", "not received bytes are changed");
			}
			if (rc > 0)
				OnData(s, buf.data(), (uint64_t)rc);
		}
		else
		{
			// The first buffer can be partially taken.
			uint32_t count = 1 + (uint32_t)(g.Chance(1, 8) ? g.Below(200) : g.Below(4));
			std::vector<std::string> mems(count);
			Buffer::Ptr head;
			Buffer* tail = nullptr;
			uint64_t cap = 0;
			uint32_t pos = 0;
			for (uint32_t i = 0; i < count; ++i)
			{
				uint32_t size = 1 + (uint32_t)g.Small(300);
				mems[i].assign(size, '\x5a');
				if (i == 0)
					pos = (uint32_t)g.Below(size);
				Buffer::Ptr b(BufferRaw::NewShared(mems[i].data(), i == 0 ? pos : 0, size));
				cap += size - (i == 0 ? pos : 0);
				Buffer* p = b.GetPointer();
				if (tail == nullptr)
					head = std::move(b);
				else
					tail->myNext = std::move(b);
				tail = p;
			}
			rc = s.mySio->Recv(head.GetPointer(), err);
			if (rc > (int64_t)cap)
				Fail("sio_data", "received more than the buffers can store");
			uint64_t left = rc > 0 ? (uint64_t)rc : 0;
			for (uint32_t i = 0; i < count; ++i)
			{
				uint32_t from = i == 0 ? pos : 0;
				uint64_t n = std::min<uint64_t>(left, mems[i].size() - from);
				if (n > 0)
					OnData(s, mems[i].data() + from, n);
				left -= n;
				for (uint64_t k = 0; k < mems[i].size(); ++k)
				{
					if ((k < from || k >= from + n) && mems[i][k] != '\x5a')
						Fail("sio_data", "not received bytes are changed");
				}
			}
		}
		CheckState(s);
		if (rc > 0)
		{
			if (!s.mySio->IsConnected())
				Fail("sio_state", "conn %d: not connected after receiving", s.myConn->myId);
			return;
		}
		if (rc == 0)
		{
			OnEof(s);
			if (!s.mySio->IsClosed())
				Fail("sio_eof", "conn %d: not closed after the end", s.myConn->myId);
			Gone(s);
			++w.myEofs;
			return;
		}
		if (!err.IsSet())
		{
			if (!s.mySio->IsConnected())
				Fail("sio_state", "conn %d: closed without an error", s.myConn->myId);
			return;
		}
		CheckFail(s, err, "recv");
		Gone(s);
		++w.myErrors;
	}

	void
	DoSend(World& w, Side& s, Gen& g)
	{
		Dir& d = *s.myOut;
		uint64_t limit = simnet::GetConfig().myCapMax <= 64 ? 100 : simnet::GetConfig().myCapMax <= 5000 ? 4000 : 40000;
		uint64_t size = g.Chance(1, 6) ? 0 : g.Chance(1, 8) ? g.Below(limit) : g.Small(limit < 3000 ? limit : 3000);
		w.myStore.push_back(std::make_unique<std::string>(size, '\0'));
		std::string& data = *w.myStore.back();
		PatFill(&data[0], d.myStream, d.mySent, size);
		if (s.myRaw >= 0)
		{
			if (size == 0 || d.myIsFin)
				return;
			ssize_t rc = send(s.myRaw, data.data(), size, MSG_NOSIGNAL | MSG_DONTWAIT);
			if (rc > 0)
				d.mySent += (uint64_t)rc;
			else if (rc < 0 && errno != EAGAIN)
				s.myIsRawFailed = true;
			return;
		}
		if (s.mySio == nullptr)
			return;
		int form = (int)g.Below(5);
		bool isClosed = s.mySio->IsClosed();
		if (form == 0 && !s.mySio->IsConnected())
			form = 1;
		switch (form)
		{
		case 0:
			s.mySio->SendCopy(data.data(), size);
			// Must be copied.
			for (char& x : data)
				x = '?';
			break;
		case 1:
			s.mySio->SendRef((const void*)data.data(), size);
			break;
		case 2:
			s.mySio->SendRef(BuffersCopy(data.data(), size));
			for (char& x : data)
				x = '?';
			break;
		default:
		{
			// Many buffers, some are empty.
			Buffer::Ptr head;
			Buffer* tail = nullptr;
			Kept k;
			uint64_t pos = 0;
			uint64_t step = 1 + g.Small(size / 2 + 1);
			bool hasEmpty = g.Bool();
			do
			{
				uint64_t n = hasEmpty && g.Chance(1, 4) ? 0 : std::min(step, size - pos);
				Buffer::Ptr b;
				if (step < 900 && g.Chance(1, 3))
				{
					b = BufferCopy::NewShared();
					memcpy(b->myWData, data.data() + pos, n);
					b->myPos = (uint32_t)n;
				}
				else
				{
					b = Buffer::Ptr(BufferRaw::NewShared(data.data() + pos, (uint32_t)n));
				}
				Buffer* p = b.GetPointer();
				if (tail == nullptr)
					head = std::move(b);
				else
					tail->myNext = std::move(b);
				tail = p;
				k.mySizes.push_back((uint32_t)n);
				pos += n;
				if (k.mySizes.size() > 600)
					step = size;
			} while (pos < size);
			if (form == 3)
			{
				k.myHead = head;
				k.myData = data;
				w.myKept.push_back(std::move(k));
				s.mySio->SendRef((const Buffer*)head.GetPointer());
			}
			else
			{
				s.mySio->SendRef(std::move(head));
			}
			break;
		}
		}
		CheckState(s);
		if (isClosed != s.mySio->IsClosed())
			Fail("sio_state", "conn %d: sending changed the state", s.myConn->myId);
		if (!isClosed)
			d.mySent += size;
	}

	void
	DoUpdate(World& w, Side& s, Gen& g)
	{
		if (s.mySio == nullptr)
			return;
		Conn& c = *s.myConn;
		bool wasConnecting = s.mySio->IsConnecting();
		bool wasClosed = s.mySio->IsClosed();
		simnet::ConnInfo i1;
		if (!s.myIsServer && c.mySim != nullptr)
			i1 = simnet::GetConn(c.mySim);
		Error::Ptr err = StaleError(g);
		bool isOk = s.mySio->Update(err);
		CheckState(s);
		if (wasClosed)
		{
			if (!isOk || !s.mySio->IsClosed())
				Fail("sio_state", "conn %d: update of a closed socket", c.myId);
			return;
		}
		if (!wasConnecting)
		{
			if (isOk)
			{
				if (!s.mySio->IsConnected())
					Fail("sio_state", "conn %d: lost without an error", c.myId);
				return;
			}
			CheckFail(s, err, "update");
			Gone(s);
			++w.myErrors;
			return;
		}
		simnet::ConnInfo i2 = simnet::GetConn(c.mySim);
		if (isOk && s.mySio->IsClosed())
			Fail("sio_connect", "conn %d: connecting ended without an error", c.myId);
		if (s.mySio->IsConnecting())
		{
			if (!isOk)
				Fail("sio_error", "conn %d: a failed socket is still connecting", c.myId);
			if (!i1.myIsConnecting)
				Fail("sio_connect", "conn %d: still connecting after the system %s", c.myId,
					i1.myIsEstablished ? "connected" : "failed");
			return;
		}
		if (i2.myIsConnecting)
			Fail("sio_connect", "conn %d: the result is reported too early", c.myId);
		if (s.mySio->IsConnected())
		{
			if (!i1.myIsEstablished && !i2.myIsEstablished)
				Fail("sio_connect", "conn %d: connected, but the system failed to", c.myId);
			c.myWasConnected = true;
			return;
		}
		// Failed.
		if (isOk)
			Fail("sio_connect", "conn %d: no failure is reported", c.myId);
		if (i2.myIsEstablished)
			Fail("sio_connect", "conn %d: failed, but the system connected", c.myId);
		++w.myErrors;
		switch (c.myTarget)
		{
		case TO_ERROR_ASYNC:
			isOk = IsCode(err, c.myErrno);
			break;
		case TO_BLACKHOLE:
			isOk = IsCode(err, ETIMEDOUT) &&
				sim::NowMs() - c.myStartMs >= simnet::GetConfig().myConnectTimeoutMs;
			break;
		case TO_NOWHERE:
			isOk = IsCode(err, ECONNREFUSED);
			break;
		default:
			isOk = ((c.myIsServerGone || c.myKillErr != 0) && (IsCode(err, ECONNRESET) || IsCode(err, EPIPE))) ||
				(c.myKillErr != 0 && IsCode(err, c.myKillErr)) ||
				(!w.myServers[c.myServer]->myIsOpen && (IsCode(err, ECONNREFUSED) || IsCode(err, ECONNRESET)));
			break;
		}
		if (!isOk)
			Fail("sio_connect", "conn %d: a wrong error of connecting: '%s' (%d)", c.myId,
				err.IsSet() ? err->myMessage.c_str() : "", err.IsSet() ? (int)err->myCode : 0);
		c.myIsFailed = true;
		Gone(s);
	}

	void
	DoClose(Side& s)
	{
		if (s.myRaw >= 0)
		{
			Gone(s);
			close(s.myRaw);
			s.myRaw = -1;
			return;
		}
		if (s.mySio == nullptr)
			return;
		if (!s.mySio->IsClosed())
			Gone(s);
		s.mySio->Close();
		CheckState(s);
		if (!s.mySio->IsClosed())
			Fail("sio_state", "conn %d: not closed after closing", s.myConn->myId);
	}

	Host
	HostOf(const Server& srv)
	{
		return srv.myIsV6 ? HostMakeLocalIPV6(srv.myPort) : HostMakeLocalIPV4(srv.myPort);
	}

	// A new one or one closed already. Nothing must remain from the previous usage.
	std::unique_ptr<TCPSocket>
	TakeSocket(World& w, Gen& g)
	{
		std::unique_ptr<TCPSocket> res = std::make_unique<TCPSocket>();
		if (g.Bool())
			return res;
		std::vector<std::unique_ptr<TCPSocket>*> closed;
		for (auto& c : w.myConns)
		{
			if (c->myCl.mySio != nullptr && c->myCl.mySio->IsClosed())
				closed.push_back(&c->myCl.mySio);
			if (c->mySv.mySio != nullptr && c->mySv.mySio->IsClosed())
				closed.push_back(&c->mySv.mySio);
		}
		if (closed.empty())
			return res;
		std::swap(res, *closed[g.Below(closed.size())]);
		Label("reused socket");
		return res;
	}

	void
	DoConnect(World& w, Conn& c, Gen& g)
	{
		c.myStartMs = sim::NowMs();
		c.myCl.mySio = TakeSocket(w, g);
		if (!c.myCl.mySio->IsClosed())
			Fail("sio_state", "new socket is not closed");
		Error::Ptr err = StaleError(g);
		Host host = c.myServer >= 0 ? HostOf(*w.myServers[c.myServer]) :
			g.Bool() ? HostMakeLocalIPV4(c.myPort) : HostMakeLocalIPV6(c.myPort);
		// Remains of a previous use are dropped.
		if (g.Chance(1, 4))
		{
			std::string junk = "junk";
			c.myCl.mySio->SendRef((const void*)junk.data(), junk.size());
		}
		if (g.Chance(1, 10))
		{
			int code = (int)g.Pick({EMFILE, EACCES, ENOMEM, EAFNOSUPPORT});
			simnet::FailCall("socket", 0, code);
			bool ok = c.myCl.mySio->Connect(host, err);
			if (!simnet::FailCall(nullptr, 0, 0) || ok || !IsCode(err, code) || !c.myCl.mySio->IsClosed())
				Fail("sio_connect", "wrong result of a connect without a socket");
			err = StaleError(g);
		}
		bool isOk = c.myCl.mySio->Connect(host, err);
		CheckState(c.myCl);
		if (!isOk)
		{
			if (!err.IsSet() || !c.myCl.mySio->IsClosed())
				Fail("sio_connect", "conn %d: failed to start, closed %d", c.myId, (int)c.myCl.mySio->IsClosed());
			int e = c.myTarget == TO_ERROR_SYNC ? c.myErrno : c.myTarget == TO_NOWHERE ||
				(c.myServer >= 0 && !w.myServers[c.myServer]->myIsOpen) ? ECONNREFUSED : 0;
			if (e == 0 || !IsCode(err, e))
				Fail("sio_connect", "conn %d: a wrong error of starting '%s'", c.myId, err->myMessage.c_str());
			c.myIsFailed = true;
			c.myIsClientGone = true;
			++w.myErrors;
			return;
		}
		if (c.myTarget == TO_ERROR_SYNC)
			Fail("sio_connect", "conn %d: connecting is started, but the system refused", c.myId);
		c.mySim = simnet::LastConnect();
		if (c.myCl.mySio->IsConnected() && simnet::GetConn(c.mySim).myIsConnecting)
			Fail("sio_connect", "conn %d: connected too early", c.myId);
	}

	// False if nothing to accept.
	bool
	DoAccept(World& w, Server& srv, Gen& g)
	{
		int fd = -1;
		uint16_t port = 0;
		if (srv.mySio != nullptr)
		{
			if (!srv.myIsOpen)
				return false;
			Error::Ptr err = StaleError(g);
			Host peer;
			fd = srv.mySio->Accept(peer, err);
			if (fd < 0)
			{
				if (err.IsSet())
					Fail("sio_accept", "accept failed with '%s'", err->myMessage.c_str());
				return false;
			}
			port = peer.GetPort();
			if (srv.myIsV6 ? !peer.IsIPV6() : !peer.IsIPV4())
				Fail("sio_accept", "wrong family of the peer");
			if ((fcntl(fd, F_GETFL, 0) & O_NONBLOCK) == 0)
				Fail("sio_accept", "the accepted socket is blocking");
		}
		else
		{
			if (!srv.myIsOpen)
				return false;
			sockaddr_in a;
			memset(&a, 0, sizeof(a));
			socklen_t len = sizeof(a);
			fd = accept4(srv.myRaw, (sockaddr*)&a, &len, SOCK_NONBLOCK);
			if (fd < 0)
				return false;
			port = ntohs(a.sin_port);
		}
		for (auto& c : w.myConns)
		{
			if (c->mySim == nullptr || c->myIsAccepted || simnet::GetConn(c->mySim).myLocalPort != port)
				continue;
			c->myIsAccepted = true;
			if (srv.mySio != nullptr || g.Bool())
			{
				c->mySv.mySio = TakeSocket(w, g);
				c->mySv.mySio->Wrap(fd);
				if (!c->mySv.mySio->IsConnected())
					Fail("sio_state", "not connected after wrapping");
			}
			else
			{
				c->mySv.myRaw = fd;
			}
			return true;
		}
		Fail("sio_accept", "accepted a peer with an unknown address, port %d", (int)port);
		return false;
	}

	void
	CloseServer(Server& srv)
	{
		srv.myIsOpen = false;
		if (srv.mySio != nullptr)
		{
			srv.mySio->Close();
			srv.mySio->Close();
		}
		else if (srv.myRaw >= 0)
		{
			close(srv.myRaw);
			srv.myRaw = -1;
		}
	}

	void
	OnServerClosed(World& w, Server& srv, int idx)
	{
		CloseServer(srv);
		for (auto& c : w.myConns)
		{
			if (c->myServer == idx && !c->myIsAccepted)
				c->myIsServerGone = true;
		}
	}

	void
	StartServer(World& w, Server& srv, Gen& g)
	{
		Error::Ptr err = StaleError(g);
		if (g.Chance(1, 4))
		{
			const char* calls[] = {"socket", "setsockopt", "bind", "listen"};
			const char* call = calls[g.Below(4)];
			int code = (int)g.Pick({EMFILE, EACCES, EADDRINUSE, ENOMEM, EADDRNOTAVAIL});
			uint32_t count = simnet::OpenSockets();
			simnet::FailCall(call, 0, code);
			bool ok = srv.mySio->Bind(HostOf(srv), err);
			if (ok != (call == calls[3]))
				Fail("sio_bind", "wrong result of a bind with failed %s()", call);
			if (ok)
			{
				err = StaleError(g);
				ok = srv.mySio->Listen(SocketMaxBacklog(), err);
			}
			if (!simnet::FailCall(nullptr, 0, 0) || ok || !err.IsSet() || err->myCode != mg::box::ErrorCodeFromErrno(code))
				Fail("sio_bind", "wrong error of failed %s(), errno %d", call, code);
			if (simnet::OpenSockets() != count)
				Fail("sio_bind", "failed %s() leaked a descriptor", call);
			err = StaleError(g);
		}
		if (!srv.mySio->Bind(HostOf(srv), err))
			Fail("sio_bind", "bind failed '%s'", err->myMessage.c_str());
		uint16_t port = srv.mySio->GetPort();
		if (port == 0 || (srv.myPort != 0 && port != srv.myPort))
			Fail("sio_bind", "wrong port");
		srv.myPort = port;
		err = StaleError(g);
		if (!srv.mySio->Listen(g.Chance(1, 4) ? 100 : SocketMaxBacklog(), err))
			Fail("sio_bind", "listen failed");
		if (srv.mySio->GetPort() != srv.myPort)
			Fail("sio_bind", "the port is changed");
		srv.myIsOpen = true;
		// The address is taken now.
		if (g.Chance(1, 3))
		{
			uint32_t count = simnet::OpenSockets();
			TCPServer other;
			err = StaleError(g);
			if (other.Bind(HostOf(srv), err))
				Fail("sio_bind", "bound to a taken address");
			if (!err.IsSet() || err->myCode != mg::box::ERR_NET_ADDR_IN_USE)
				Fail("sio_bind", "wrong error of binding to a taken address");
			if (simnet::OpenSockets() != count)
				Fail("sio_bind", "a failed bind leaked a descriptor");
			Host host = srv.myIsV6 ? HostMakeLocalIPV6(0) : HostMakeLocalIPV4(0);
			err.Clear();
			if (!other.Bind(host, err))
				Fail("sio_bind", "bind failed after another failure");
			other.Close();
		}
		(void)w;
	}
}

PBT_TEST(sio, MODE_FORK, 1)
{
	World w;
	simnet::GenConfig(g);
	simnet::GetConfig().myAcceptErrChance = (uint32_t)g.Pick({0, 20, 60});
	simnet::GetConfig().myConnectTimeoutMs = 3000;
	int serverCount = (int)g.Range(1, 2);
	for (int i = 0; i < serverCount; ++i)
	{
		auto srv = std::make_unique<Server>();
		if (g.Chance(2, 3))
		{
			srv->mySio = std::make_unique<TCPServer>();
			srv->myIsV6 = g.Bool();
			srv->myPort = g.Bool() ? 0 : (uint16_t)(1000 + i);
			StartServer(w, *srv, g);
		}
		else
		{
			srv->myRaw = RawListen(srv->myPort);
			RawNonBlock(srv->myRaw);
			srv->myIsOpen = true;
		}
		Describe("server %d: %s\n", i, srv->mySio != nullptr ? "sio" : "raw");
		w.myServers.push_back(std::move(srv));
	}
	int connCount = (int)g.Range(1, 4);
	for (int i = 0; i < connCount; ++i)
	{
		auto c = std::make_unique<Conn>();
		c->myId = i;
		c->myTarget = (int)g.Weighted({18, 0, 1, 1, 1, 2});
		if (c->myTarget == TO_SERVER)
		{
			c->myServer = (int)g.Below((uint64_t)serverCount);
			c->myPort = w.myServers[c->myServer]->myPort;
		}
		else
		{
			c->myPort = (uint16_t)(2000 + i);
		}
		c->myErrno = g.Pick({ENETUNREACH, EACCES, ECONNREFUSED, ETIMEDOUT, EHOSTUNREACH, ENETDOWN});
		if (c->myTarget == TO_BLACKHOLE)
			simnet::SetBlackhole(c->myPort);
		if (c->myTarget == TO_ERROR_SYNC)
			simnet::SetConnectError(c->myPort, c->myErrno);
		if (c->myTarget == TO_ERROR_ASYNC)
			simnet::SetConnectAsyncError(c->myPort, c->myErrno);
		c->myC2S.myStream = w.myNextStream++;
		c->myS2C.myStream = w.myNextStream++;
		c->myCl.myConn = c->mySv.myConn = c.get();
		c->mySv.myIsServer = true;
		c->myCl.myOut = c->mySv.myIn = &c->myC2S;
		c->myCl.myIn = c->mySv.myOut = &c->myS2C;
		Describe("conn %d: target %d errno %d server %d\n", i, c->myTarget, c->myErrno, c->myServer);
		Label(c->myTarget == TO_SERVER ? "to a server" : "to a failure");
		w.myConns.push_back(std::move(c));
	}
	bool isCalm = g.Chance(1, 3);
	for (auto& c : w.myConns)
	{
		if (g.Chance(3, 4))
			DoConnect(w, *c, g);
	}
	int steps = (int)g.Range(5, IsThorough() ? 150 : 80);
	for (int i = 0; i < steps; ++i)
	{
		Conn& c = *w.myConns[g.Below((uint64_t)connCount)];
		Side& s = g.Bool() ? c.myCl : c.mySv;
		uint64_t k = g.Weighted({20, 20, 20, 10, 10, isCalm ? 0u : 1u, isCalm ? 0u : 1u, isCalm ? 0u : 1u,
			isCalm ? 0u : 1u});
		static const char* names[] = {"connect or update", "send", "recv", "sleep", "accept", "close", "shutdown",
			"kill", "close server"};
		Describe("conn %d, %s%s: %s; closed %d connecting %d, sent %llu recvd %llu\n", c.myId,
			&s == &c.myCl ? "client" : "server", s.myRaw >= 0 ? " raw" : "", names[k],
			s.mySio == nullptr ? -1 : s.mySio->IsClosed(), s.mySio == nullptr ? -1 : s.mySio->IsConnecting(),
			(unsigned long long)s.myOut->mySent, (unsigned long long)s.myIn->myRecvd);
		switch (k)
		{
		case 0:
			if (c.myCl.mySio == nullptr)
				DoConnect(w, c, g);
			DoUpdate(w, s, g);
			break;
		case 1:
			DoSend(w, s, g);
			break;
		case 2:
			DoRecv(w, s, g, false);
			break;
		case 3:
			sim::SleepMs(g.Small(30));
			break;
		case 4:
		{
			Server& srv = *w.myServers[g.Below((uint64_t)serverCount)];
			DoAccept(w, srv, g);
			break;
		}
		case 5:
			DoClose(s);
			break;
		case 6:
			if (c.mySv.myRaw >= 0)
			{
				c.myS2C.myIsFin = true;
				shutdown(c.mySv.myRaw, SHUT_WR);
			}
			break;
		case 7:
			if (c.mySv.myRaw >= 0 && c.myKillErr == 0)
			{
				c.myKillErr = g.Pick({ECONNRESET, ETIMEDOUT, EHOSTUNREACH});
				c.myS2C.myIsFin = true;
				c.myC2S.myIsFin = true;
				simnet::Kill(c.mySv.myRaw, c.myKillErr);
			}
			break;
		case 8:
			if (g.Chance(1, 4))
			{
				int k = (int)g.Below((uint64_t)serverCount);
				OnServerClosed(w, *w.myServers[k], k);
			}
			break;
		}
	}
	// Finish: everything which can be delivered must be.
	for (auto& c : w.myConns)
	{
		if (c->myCl.mySio == nullptr)
			DoConnect(w, *c, g);
	}
	bool isEnding = false;
	for (int round = 0;; ++round)
	{
		bool isDone = true;
		for (auto& srv : w.myServers)
		{
			while (DoAccept(w, *srv, g)) {}
		}
		for (auto& c : w.myConns)
		{
			DoUpdate(w, c->myCl, g);
			DoUpdate(w, c->mySv, g);
			DoRecv(w, c->myCl, g, true);
			DoRecv(w, c->mySv, g, true);
			bool isGone = c->myIsClientGone || c->myIsServerGone || c->myKillErr != 0;
			if (c->myCl.mySio->IsConnecting())
				isDone = false;
			else if (!isGone && (!c->myIsAccepted || c->myC2S.myRecvd != c->myC2S.mySent ||
				c->myS2C.myRecvd != c->myS2C.mySent))
				isDone = false;
			else if (c->myCl.mySio->IsConnected() && (c->myS2C.myIsFin && !c->myS2C.myIsEof))
				isDone = false;
			else if (c->mySv.mySio != nullptr && c->mySv.mySio->IsConnected() &&
				(c->myC2S.myIsFin && !c->myC2S.myIsEof))
				isDone = false;
			else if (c->myIsGraceful && !c->myC2S.myIsEof && !c->myS2C.myIsEof)
				isDone = false;
		}
		if (isDone && isEnding)
			break;
		if (isDone)
		{
			isEnding = true;
			round = 0;
			for (auto& c : w.myConns)
			{
				if (c->myIsClientGone || c->myIsServerGone || c->myKillErr != 0 || !c->myIsAccepted ||
					c->myS2C.myIsFin || g.Chance(1, 3))
					continue;
				c->myIsGraceful = true;
				DoClose(g.Bool() ? c->myCl : c->mySv);
			}
			continue;
		}
		if (round > 200000)
		{
			for (auto& c : w.myConns)
			{
				bool isOk = c->myIsClientGone || c->myIsServerGone || c->myKillErr != 0 ||
					(c->myC2S.myRecvd == c->myC2S.mySent && c->myS2C.myRecvd == c->myS2C.mySent);
				if (!isOk || c->myCl.mySio->IsConnecting())
					Fail("sio_stuck", "conn %d: %llu of %llu and %llu of %llu bytes are delivered, connecting %d",
						c->myId, (unsigned long long)c->myC2S.myRecvd, (unsigned long long)c->myC2S.mySent,
						(unsigned long long)c->myS2C.myRecvd, (unsigned long long)c->myS2C.mySent,
						(int)c->myCl.mySio->IsConnecting());
			}
			Fail("sio_stuck", "the end is not seen");
		}
		sim::SleepMs(round < 100 ? 1 : 50);
	}
	uint64_t total = 0;
	for (auto& k : w.myKept)
	{
		size_t i = 0;
		std::string data;
		for (Buffer* b = k.myHead.GetPointer(); b != nullptr; b = b->myNext.GetPointer())
		{
			if (i >= k.mySizes.size() || b->myPos != k.mySizes[i])
				Fail("sio_data", "sending changed a buffer");
			data.append((const char*)b->myRData, b->myPos);
			++i;
		}
		if (i != k.mySizes.size() || data != k.myData)
			Fail("sio_data", "sending changed the buffers");
	}
	for (auto& c : w.myConns)
	{
		total += c->myC2S.myRecvd + c->myS2C.myRecvd;
		DoClose(c->mySv);
		if (g.Bool())
			DoClose(c->myCl);
		if (g.Bool())
			DoClose(c->myCl);
		if (g.Chance(1, 3))
		{
			// Can be used again.
			Error::Ptr err;
			DoClose(c->myCl);
			simnet::SetConnectError(65000, ECONNREFUSED);
			if (c->myCl.mySio->Connect(HostMakeLocalIPV4(65000), err) || !IsCode(err, ECONNREFUSED))
				Fail("sio_connect", "wrong result of the second usage");
		}
		c->myCl.mySio.reset();
		c->mySv.mySio.reset();
	}
	for (auto& srv : w.myServers)
	{
		if (srv->mySio != nullptr && g.Bool() && srv->myIsOpen)
		{
			CloseServer(*srv);
			StartServer(w, *srv, g);
		}
		if (srv->mySio != nullptr && g.Bool())
			srv->mySio.reset();
		else
			CloseServer(*srv);
	}
	simnet::CheckNoOpen("sio_leak_fd");
	if (w.myErrors > 0)
		Label("errors");
	if (w.myEofs > 0)
		Label("ends");
	if (total > 0 || w.myErrors > 0)
		NonTrivial();
}

//////////////////////////////////////////////////////////////////////////////////////////
// The functions the sockets are built of.

namespace {

	struct RawEnd
	{
		mg::net::Socket mySock = mg::net::theInvalidSocket;
		Dir* myOut = nullptr;
		Dir* myIn = nullptr;
		bool myIsBroken = false;
	};

	// As big as can be given in the arguments, but only the beginning of it exists.
	struct BigArea
	{
		static constexpr uint64_t theReal = 1 << 20;

		BigArea(uint64_t size)
			: myTotal(size)
		{
			myData = (char*)mmap(nullptr, myTotal, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (myData == MAP_FAILED || mprotect(myData, theReal, PROT_READ | PROT_WRITE) != 0)
				Fail("harness", "mmap");
		}
		~BigArea() { munmap(myData, myTotal); }

		uint64_t myTotal;
		char* myData;
	};

	std::vector<uint32_t>
	SplitSizes(Gen& g, uint64_t size, bool hasEmpty, size_t limit)
	{
		std::vector<uint32_t> res;
		uint64_t step = 1 + g.Small(size);
		while (size > 0)
		{
			if (hasEmpty && g.Chance(1, 4))
				res.push_back(0);
			uint64_t n = res.size() > limit ? size : std::min(size, 1 + g.Below(step));
			res.push_back((uint32_t)n);
			size -= n;
		}
		if (hasEmpty && g.Chance(1, 4))
			res.push_back(0);
		return res;
	}

	void
	CheckCode(const Error::Ptr& err, const char* what)
	{
		if (err.IsSet() && err->myCode == mg::box::ERR_BOX_TIMEOUT)
			Fail("sio_raw_error", "%s: a stale error is left", what);
	}

	// Big sizes have no data after the real one.
	void
	RawOpSend(RawEnd& e, Gen& g)
	{
		Dir& d = *e.myOut;
		if (e.myIsBroken || d.myIsFin)
			return;
		Error::Ptr err = StaleError(g);
		uint64_t size = 1 + (g.Chance(1, 8) ? g.Below(40000) : g.Small(3000));
		int64_t rc = 0;
		int form = (int)g.Below(5);
		std::string data(size, '\0');
		PatFill(&data[0], d.myStream, d.mySent, size);
		uint64_t avail = size;
		switch (form)
		{
		case 0:
			rc = mg::sio::SocketSend(e.mySock, data.data(), size, err);
			break;
		case 1:
		{
			uint64_t big = g.Pick({(uint64_t)UINT32_MAX, (uint64_t)UINT32_MAX + 1, (uint64_t)UINT32_MAX + 2,
				(uint64_t)UINT32_MAX * 2 + 2, (uint64_t)INT32_MAX + 1});
			BigArea area(big);
			size = std::min((uint64_t)simnet::GetConfig().myCapMax * 2 + 1000, (uint64_t)BigArea::theReal);
			PatFill(area.myData, d.myStream, d.mySent, size);
			rc = mg::sio::SocketSend(e.mySock, area.myData, big, err);
			avail = size;
			Label("big size");
			break;
		}
		case 2:
		{
			std::vector<mg::box::IOVec> vecs;
			uint64_t pos = 0;
			for (uint32_t n : SplitSizes(g, size, g.Bool(), 500))
			{
				vecs.push_back(mg::box::IOVec());
				vecs.back().myData = &data[pos];
				vecs.back().mySize = n;
				pos += n;
			}
			rc = mg::sio::SocketSend(e.mySock, vecs.data(), (uint32_t)vecs.size(), err);
			break;
		}
		default:
		{
			// Some data before is considered already sent.
			uint32_t offset = 0;
			std::vector<uint32_t> sizes = SplitSizes(g, size, g.Bool(), 1000);
			size_t first = 0;
			while (sizes[first] == 0)
				++first;
			if (g.Bool())
				offset = 1 + (uint32_t)g.Below(500);
			std::string prefix(offset, '?');
			Buffer::Ptr head;
			Buffer* tail = nullptr;
			BufferLinkList list;
			uint64_t pos = 0;
			bool isList = form == 4;
			for (size_t i = 0; i < sizes.size(); ++i)
			{
				Buffer::Ptr b;
				std::string part = (i == first ? prefix : std::string()) + data.substr(pos, sizes[i]);
				pos += sizes[i];
				if (part.size() == 0)
				{
					b = g.Bool() ? BufferCopy::NewShared() : Buffer::Ptr(BufferRaw::NewShared("", 0));
				}
				else
				{
					b = BuffersCopy(part.data(), part.size());
				}
				Buffer* last = b.GetPointer();
				while (last->myNext.IsSet())
					last = last->myNext.GetPointer();
				if (tail == nullptr)
					head = std::move(b);
				else
					tail->myNext = std::move(b);
				tail = last;
				if (isList && g.Chance(1, 3))
				{
					list.AppendRef(std::move(head));
					tail = nullptr;
				}
			}
			// A filled buffer is split by what is copied, so the offset can be anywhere in the first of them.
			if (isList)
			{
				if (tail != nullptr)
					list.AppendRef(std::move(head));
				rc = mg::sio::SocketSend(e.mySock, list, offset, err);
			}
			else
			{
				rc = mg::sio::SocketSend(e.mySock, head.GetPointer(), offset, err);
			}
			break;
		}
		}
		Describe(" %llu (form %d) -> %lld\n", (unsigned long long)size, form, (long long)rc);
		if (rc == 0 || rc < -1 || rc > (int64_t)avail)
			Fail("sio_raw_send", "form %d: sent %lld of %llu", form, (long long)rc, (unsigned long long)avail);
		if (rc > 0)
		{
			d.mySent += (uint64_t)rc;
			return;
		}
		CheckCode(err, "send");
		if (err.IsSet())
			e.myIsBroken = true;
	}

	void
	RawOpRecv(RawEnd& e, Gen& g, bool isEnd)
	{
		Dir& d = *e.myIn;
		if (e.myIsBroken || d.myIsEof)
			return;
		Error::Ptr err = StaleError(g);
		uint64_t size = 1 + (isEnd || g.Chance(1, 8) ? g.Below(40000) : g.Small(3000));
		int64_t rc = 0;
		int form = (int)g.Below(4);
		std::string got;
		bool isTouched = false;
		switch (form)
		{
		case 0:
			got.assign(size, '?');
			rc = mg::sio::SocketRecv(e.mySock, &got[0], size, err);
			break;
		case 1:
		{
			uint64_t big = g.Pick({(uint64_t)UINT32_MAX, (uint64_t)UINT32_MAX + 1, (uint64_t)UINT32_MAX + 2,
				(uint64_t)UINT32_MAX * 2 + 2, (uint64_t)INT32_MAX + 1});
			BigArea area(big);
			rc = mg::sio::SocketRecv(e.mySock, area.myData, big, err);
			size = BigArea::theReal;
			if (rc > 0)
				got.assign(area.myData, (size_t)rc);
			Label("big size");
			break;
		}
		case 2:
		{
			std::vector<std::string> parts;
			for (uint32_t n : SplitSizes(g, size, g.Bool(), 500))
				parts.push_back(std::string(n, '?'));
			std::vector<mg::box::IOVec> vecs;
			for (std::string& p : parts)
			{
				vecs.push_back(mg::box::IOVec());
				vecs.back().myData = &p[0];
				vecs.back().mySize = p.size();
			}
			rc = mg::sio::SocketRecv(e.mySock, vecs.data(), (uint32_t)vecs.size(), err);
			for (std::string& p : parts)
				got += p;
			break;
		}
		default:
		{
			Buffer::Ptr head;
			Buffer* tail = nullptr;
			std::vector<std::unique_ptr<std::string>> store;
			uint64_t cap = 0;
			uint32_t busy = 0;
			for (uint64_t left = size; left > 0;)
			{
				Buffer::Ptr b;
				if (g.Chance(1, 3))
				{
					b = BufferCopy::NewShared();
				}
				else
				{
					store.push_back(std::make_unique<std::string>(1 + g.Small(2000), '?'));
					Buffer* raw = BufferRaw::NewShared(store.back()->data(), 0).Unwrap();
					raw->myCapacity = (uint32_t)store.back()->size();
					b = Buffer::Ptr::Wrap(raw);
				}
				memset(b->myWData, '?', b->myCapacity);
				if (tail == nullptr && g.Bool())
					b->myPos = busy = (uint32_t)g.Below(b->myCapacity);
				uint64_t n = b->myCapacity - b->myPos;
				cap += n;
				left -= std::min(left, n);
				Buffer* p = b.GetPointer();
				if (tail == nullptr)
					head = std::move(b);
				else
					tail->myNext = std::move(b);
				tail = p;
			}
			size = cap;
			rc = mg::sio::SocketRecv(e.mySock, head.GetPointer(), err);
			bool isFirst = true;
			for (Buffer* b = head.GetPointer(); b != nullptr; b = b->myNext.GetPointer())
			{
				uint32_t start = isFirst ? busy : 0;
				if (b->myPos != start)
					isTouched = true;
				for (uint32_t i = 0; i < start; ++i)
					isTouched |= b->myWData[i] != '?';
				got.append((const char*)b->myWData + start, b->myCapacity - start);
				isFirst = false;
			}
			break;
		}
		}
		Describe(" %llu (form %d) -> %lld\n", (unsigned long long)size, form, (long long)rc);
		if (isTouched)
			Fail("sio_raw_recv", "the received data is not where it has to be");
		if (rc < -1 || rc > (int64_t)size)
			Fail("sio_raw_recv", "form %d: received %lld of %llu", form, (long long)rc, (unsigned long long)size);
		if (rc > 0)
		{
			uint64_t i = PatCheck(got.data(), d.myStream, d.myRecvd, (uint64_t)rc);
			if (i != (uint64_t)rc || d.myRecvd + (uint64_t)rc > d.mySent)
			{
				Fail("sio_raw_recv", "form %d: wrong data at %llu of %lld", form, (unsigned long long)i,
					(long long)rc);
			}
			d.myRecvd += (uint64_t)rc;
		}
		// Nothing else is changed.
		for (size_t i = rc > 0 ? (size_t)rc : 0; form != 1 && i < got.size(); ++i)
		{
			if (got[i] != '?')
				Fail("sio_raw_recv", "form %d: written %zu, received %lld", form, i, (long long)rc);
		}
		if (rc > 0)
			return;
		if (rc == 0)
		{
			if (!d.myIsFin || d.myRecvd != d.mySent)
			{
				Fail("sio_raw_eof", "form %d: end of data, received %llu of %llu, finished %d", form,
					(unsigned long long)d.myRecvd, (unsigned long long)d.mySent, (int)d.myIsFin);
			}
			d.myIsEof = true;
			return;
		}
		CheckCode(err, "recv");
		if (err.IsSet())
			e.myIsBroken = true;
	}
}

PBT_TEST(sio_raw, MODE_FORK, 1)
{
	simnet::GenConfig(g);
	simnet::GetConfig().myAcceptErrChance = 0;
	bool isV6 = g.Bool();
	SockAddrFamily family = isV6 ? ADDR_FAMILY_IPV6 : ADDR_FAMILY_IPV4;
	Error::Ptr err;
	mg::net::Socket listener = mg::sio::SocketCreate(family, TRANSPORT_PROT_TCP, err);
	Host host = isV6 ? HostMakeLocalIPV6(0) : HostMakeLocalIPV4(0);
	if (listener == theInvalidSocket || !SocketBind(listener, host, err))
		Fail("sio_raw_listen", "can't bind");
	host = SocketGetBoundHost(listener);
	if (host.GetPort() == 0 || !mg::sio::SocketListen(listener, SocketMaxBacklog(), err))
		Fail("sio_raw_listen", "can't listen");
	Host peer;
	err = StaleError(g);
	if (mg::sio::SocketAccept(listener, peer, err) != theInvalidSocket || err.IsSet())
		Fail("sio_raw_accept", "nobody to accept");
	Dir c2s;
	c2s.myStream = 1;
	Dir s2c;
	s2c.myStream = 2;
	RawEnd ends[2];
	ends[0].myOut = ends[1].myIn = &c2s;
	ends[0].myIn = ends[1].myOut = &s2c;
	ends[0].mySock = mg::sio::SocketCreate(family, TRANSPORT_PROT_TCP, err);
	if (ends[0].mySock == theInvalidSocket)
		Fail("sio_raw_connect", "can't create");
	err = StaleError(g);
	bool isConnected = mg::sio::SocketConnectStart(ends[0].mySock, host, err);
	if (!isConnected && err.IsSet())
		Fail("sio_raw_connect", "can't connect");
	for (int i = 0; !isConnected; ++i)
	{
		err = StaleError(g);
		isConnected = mg::sio::SocketConnectUpdate(ends[0].mySock, err);
		if ((!isConnected && err.IsSet()) || i > 1000)
			Fail("sio_raw_connect", "can't finish a connect");
		sim::SleepMs(1);
	}
	for (int i = 0; ends[1].mySock == theInvalidSocket; ++i)
	{
		err = StaleError(g);
		ends[1].mySock = mg::sio::SocketAccept(listener, peer, err);
		if (ends[1].mySock == theInvalidSocket && (err.IsSet() || i > 1000))
			Fail("sio_raw_accept", "can't accept");
		sim::SleepMs(1);
	}
	if (!(peer == SocketGetBoundHost(ends[0].mySock)))
		Fail("sio_raw_accept", "wrong peer %s", peer.ToString().c_str());
	int steps = (int)g.Range(5, IsThorough() ? 150 : 60);
	for (int i = 0; i < steps; ++i)
	{
		int no = (int)g.Below(2);
		RawEnd& e = ends[no];
		switch (g.Weighted({20, 20, 5, 1}))
		{
		case 0:
			Describe("%d: send", no);
			RawOpSend(e, g);
			break;
		case 1:
			Describe("%d: recv", no);
			RawOpRecv(e, g, false);
			break;
		case 2:
			sim::SleepMs(g.Below(30));
			break;
		default:
			if (e.myIsBroken || e.myOut->myIsFin || g.Chance(2, 3))
				break;
			Describe("%d: shutdown\n", no);
			err = StaleError(g);
			if (!SocketShutdown(e.mySock, err) && !e.myIn->myIsFin)
				Fail("sio_raw_shutdown", "can't shutdown");
			e.myOut->myIsFin = true;
			// Both directions.
			e.myIn->myIsEof = true;
			break;
		}
		if (ends[0].myIsBroken || ends[1].myIsBroken)
			break;
	}
	bool wasFin = c2s.myIsFin || s2c.myIsFin;
	if ((ends[0].myIsBroken || ends[1].myIsBroken) && !wasFin)
		Fail("sio_raw_error", "an error with nothing broken");
	for (int i = 0; i < 3000 && !wasFin; ++i)
	{
		if (c2s.myRecvd == c2s.mySent && s2c.myRecvd == s2c.mySent)
			break;
		RawOpRecv(ends[i % 2], g, true);
		sim::SleepMs(2);
		if (i > 2000)
			Fail("sio_raw_recv", "received %llu of %llu and %llu of %llu", (unsigned long long)c2s.myRecvd,
				(unsigned long long)c2s.mySent, (unsigned long long)s2c.myRecvd, (unsigned long long)s2c.mySent);
	}
	if (c2s.mySent + s2c.mySent > 0)
		NonTrivial();
	HashMix(c2s.mySent);
	HashMix(s2c.mySent);
	SocketClose(ends[0].mySock);
	SocketClose(ends[1].mySock);
	SocketClose(listener);
	simnet::CheckNoOpen("sio_raw_leak");
}

//////////////////////////////////////////////////////////////////////////////////////////
// Failures of options.

PBT_TEST(opt_fail, MODE_FORK, 1)
{
	Error::Ptr err;
	int family = g.Bool() ? AF_INET : AF_INET6;
	Socket sock = mg::sio::SocketCreate(family == AF_INET ? ADDR_FAMILY_IPV4 : ADDR_FAMILY_IPV6, TRANSPORT_PROT_TCP, err);
	if (sock == theInvalidSocket)
		Fail("opt_fail", "no socket");
	int n = 1 + (int)g.Below(12);
	int fails = 0;
	for (int i = 0; i < n; ++i)
	{
		int op = (int)g.Below(4);
		int skip = g.Bool() ? 0 : (int)g.Below(6);
		int code = (int)g.Pick({EPERM, EINVAL, ENOPROTOOPT, ENOMEM, EBADF, ENOTSOCK});
		bool value = g.Bool();
		uint32_t timeout = (uint32_t)g.Small(1000000);
		Describe("op %d value %d fail of call %d by %d\n", op, (int)value, skip, code);
		HashMix(op * 100 + skip * 10 + value);
		err.Clear();
		simnet::FailCall("setsockopt", skip, code);
		bool ok;
		if (op == 0)
			ok = SocketSetKeepAlive(sock, value, timeout, err);
		else if (op == 1)
			ok = SocketSetNoDelay(sock, value, err);
		else if (op == 2)
			ok = SocketSetDualStack(sock, value, err);
		else
			ok = SocketFixReuseAddr(sock, err);
		bool isFailed = simnet::FailCall(nullptr, 0, 0);
		fails += isFailed;
		if (skip == 0 && !isFailed)
			Fail("opt_fail", "the system is not asked to set the option");
		if (ok == isFailed)
			Fail("opt_fail", "a failure of setsockopt() is lost, or invented");
		if (ok ? err.IsSet() : (!err.IsSet() || err->myCode != mg::box::ErrorCodeFromErrno(code)))
			Fail("opt_fail", "wrong error of a failed setsockopt(), errno %d", code);
		if (err.IsSet() && err->myValue != (uint32_t)code)
			Fail("opt_fail", "wrong system code %d of a failed setsockopt(), errno %d", (int)err->myValue, code);
	}
	mg::net::SocketClose(sock);
	simnet::CheckNoOpen("opt_fail_leak");
	if (n > 1 && fails > 0)
		NonTrivial();
}
