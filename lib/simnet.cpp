#include "simnet.h"

#include <algorithm>
#include <arpa/inet.h>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <set>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>

#include "fakeuring/liburing.h"

namespace simnet {
namespace {

	static constexpr int theFirstFd = 1000;
	static constexpr int theLastFd = 1000000;

	enum Kind { K_TCP, K_EPOLL, K_EVENT, K_RING };
	enum State { S_NEW, S_LISTEN, S_SYN, S_EST, S_DEAD };

	struct Sock;
	using SockP = std::shared_ptr<Sock>;

	struct Seg
	{
		std::string myData;
		// 0 data, 1 fin, 2 rst.
		int myKind;
	};

	struct Item
	{
		Sock* mySock;
		int myFd;
		uint32_t myEvents;
		epoll_data_t myData;
		bool myIsQueued;
		Sock* myEpoll;
	};

	struct Op
	{
		io_uring_sqe mySqe;
		Sock* mySock;
		Sock* myRing;
		std::vector<iovec> myIov;
		bool myIsStarted;
	};

	struct Cqe
	{
		io_uring_cqe myCqe;
		std::vector<iovec> myWritten;
		std::vector<iovec> myRead;
	};

	struct Sock
	{
		Kind myKind = K_TCP;
		int myFd = -1;
		int myFamily = AF_INET;
		bool myIsNonBlock = false;
		bool myIsClosed = false;
		bool myIsCloseWanted = false;

		// TCP.
		State myState = S_NEW;
		bool myFinRecv = false;
		bool mySdRd = false;
		bool mySdWr = false;
		bool myFinSent = false;
		bool myIsLinger0 = false;
		bool myWasConnectReported = false;
		int myErr = 0;
		std::deque<Seg> myFly;
		size_t myFlyBytes = 0;
		std::string myBuf;
		size_t myBufPos = 0;
		size_t myCap = 65536;
		uint64_t myLastAt = 0;
		bool myIsNoSpace = false;
		bool myIsSpaceScheduled = false;
		Sock* myPeer = nullptr;
		sockaddr_storage myLocal;
		sockaddr_storage myRemote;
		bool myIsBound = false;
		std::map<std::pair<int, int>, int> myOpts;
		// Listener.
		std::deque<Sock*> myBacklog;
		uint32_t myBacklogMax = 0;

		// Eventfd.
		uint64_t myCounter = 0;

		// Epoll.
		std::map<int, Item*> myItems;
		std::deque<Item*> myReady;

		// Who watches.
		std::vector<Item*> myWatchers;
		std::deque<Op*> myOps;

		// Ring.
		std::vector<io_uring_sqe> mySq;
		std::deque<Cqe*> myCq;
		uint32_t mySqSize = 0;
		Sock* myRingEvent = nullptr;
		uint32_t myInFlight = 0;

		uint64_t myTxTotal = 0;

		size_t Avail() const { return myBuf.size() - myBufPos; }
	};

	static Config theConfig;
	static Stats theStats;
	static std::map<int, Sock*> theFds;
	static int theNextFd = theFirstFd;
	static std::multimap<uint64_t, std::function<void()>> theEvents;
	static char theKey;
	static uint16_t theNextPort = 40000;
	static std::set<uint16_t> theBlackholes;
	static std::map<uint16_t, int> theConnectErrs;
	static std::map<uint16_t, int> theConnectAsyncErrs;
	static std::map<std::string, NameResult> theNames;
	static std::set<void*> theAddrInfos;
	static const Sock* theLastConnect;

	static uint64_t Env(uint64_t n) { return n <= 1 ? 0 : pbt::Draw(pbt::TAPE_ENV, n); }
	static bool EnvChance(uint32_t percent)
	{
		if (percent == 0)
			return false;
		return 99 - Env(100) < percent;
	}

	static uint64_t Delay()
	{
		if (theConfig.myLatencyNs == 0 || !EnvChance(theConfig.myLatencyChance))
			return 0;
		++theStats.myDelays;
		return Env(theConfig.myLatencyNs + 1);
	}

	static void At(uint64_t when, std::function<void()>&& f)
	{
		bool isFirst = theEvents.empty() || when < theEvents.begin()->first;
		theEvents.emplace(when, std::move(f));
		// The sleepers need to recalculate their timeouts.
		if (isFirst)
			sim::WakeAll(&theKey);
	}

	static void Pump()
	{
		uint64_t now = sim::NowNs();
		while (!theEvents.empty() && theEvents.begin()->first <= now)
		{
			std::function<void()> f = std::move(theEvents.begin()->second);
			theEvents.erase(theEvents.begin());
			f();
		}
	}

	static Sock* NewSock(Kind kind)
	{
		Sock* s = new Sock();
		s->myKind = kind;
		memset(&s->myLocal, 0, sizeof(s->myLocal));
		memset(&s->myRemote, 0, sizeof(s->myRemote));
		s->myCap = theConfig.myCapMin + Env(theConfig.myCapMax - theConfig.myCapMin + 1);
		return s;
	}

	static int Install(Sock* s)
	{
		int fd;
		if (theConfig.myReuseFds)
		{
			fd = theFirstFd;
			while (theFds.count(fd) != 0)
				++fd;
		}
		else
		{
			fd = theNextFd++;
		}
		s->myFd = fd;
		theFds[fd] = s;
		return fd;
	}

	static bool IsOurs(int fd) { return fd >= theFirstFd && fd < theLastFd; }

	static Sock* Get(int fd, const char* call)
	{
		auto it = theFds.find(fd);
		if (it == theFds.end())
			pbt::Fail("net_bad_fd", "%s() is called on a not open descriptor %d", call, fd);
		return it->second;
	}

	static size_t Free(Sock* s)
	{
		// Space for sending from this socket.
		Sock* p = s->myPeer;
		if (p == nullptr)
			return s->myCap;
		size_t used = p->myFlyBytes + p->Avail();
		return used >= p->myCap ? 0 : p->myCap - used;
	}

	static size_t MinSpace(Sock* s)
	{
		Sock* p = s->myPeer;
		size_t cap = p == nullptr ? s->myCap : p->myCap;
		return cap / 3 == 0 ? 1 : cap / 3;
	}

	static uint32_t Mask(Sock* s);
	static void TryOps(Sock* s);

	static bool EpollHasReady(Sock* e)
	{
		for (Item* i : e->myReady)
		{
			if ((Mask(i->mySock) & (i->myEvents | EPOLLERR | EPOLLHUP)) != 0)
				return true;
		}
		return false;
	}

	static uint32_t Mask(Sock* s)
	{
		switch (s->myKind)
		{
		case K_EVENT:
			return EPOLLOUT | (s->myCounter > 0 ? EPOLLIN : 0);
		case K_EPOLL:
			return EpollHasReady(s) ? EPOLLIN : 0;
		case K_RING:
			return s->myCq.empty() ? 0 : EPOLLIN;
		case K_TCP:
			break;
		}
		uint32_t m = 0;
		if (s->myState == S_LISTEN)
		{
			if (!s->myBacklog.empty())
				m |= EPOLLIN | EPOLLRDNORM;
			return m;
		}
		bool rd = s->mySdRd || s->myFinRecv;
		if ((rd && s->mySdWr) || s->myState == S_NEW || s->myState == S_DEAD)
			m |= EPOLLHUP;
		if (rd)
			m |= EPOLLIN | EPOLLRDNORM | EPOLLRDHUP;
		if (s->myState != S_SYN)
		{
			if (s->Avail() > 0)
				m |= EPOLLIN | EPOLLRDNORM;
			if (s->mySdWr || s->myState != S_EST || Free(s) >= MinSpace(s))
				m |= EPOLLOUT | EPOLLWRNORM;
			else
				s->myIsNoSpace = true;
		}
		if (s->myErr != 0)
			m |= EPOLLERR;
		return m;
	}

	static void Wake(Sock* s, uint32_t key)
	{
		for (Item* i : s->myWatchers)
		{
			if (key != 0 && (key & (i->myEvents | EPOLLERR | EPOLLHUP)) == 0)
				continue;
			if (!i->myIsQueued)
			{
				i->myIsQueued = true;
				i->myEpoll->myReady.push_back(i);
			}
		}
		TryOps(s);
		sim::WakeAll(&theKey);
	}

	static void SpaceFreed(Sock* reader)
	{
		Sock* s = reader->myPeer;
		if (s == nullptr || !s->myIsNoSpace || s->myIsSpaceScheduled || Free(s) < MinSpace(s))
			return;
		s->myIsSpaceScheduled = true;
		At(sim::NowNs() + Delay(), [s]() {
			s->myIsSpaceScheduled = false;
			if (!s->myIsNoSpace || Free(s) < MinSpace(s))
				return;
			s->myIsNoSpace = false;
			Wake(s, EPOLLOUT | EPOLLWRNORM | EPOLLWRBAND);
		});
	}

	static void Die(Sock* s, int err)
	{
		if (s->myState == S_DEAD)
			return;
		s->myState = S_DEAD;
		s->myErr = err;
		s->mySdRd = true;
		s->mySdWr = true;
		s->myFly.clear();
		s->myFlyBytes = 0;
		Wake(s, 0);
	}

	static void Deliver(Sock* s);

	static void PushSeg(Sock* to, int kind, std::string&& data)
	{
		uint64_t at = sim::NowNs() + Delay();
		if (at < to->myLastAt)
			at = to->myLastAt;
		to->myLastAt = at;
		to->myFlyBytes += data.size();
		to->myFly.push_back(Seg{std::move(data), kind});
		At(at, [to]() { Deliver(to); });
	}

	static void SendRst(Sock* to)
	{
		++theStats.myRsts;
		if (to == nullptr || to->myState == S_DEAD)
			return;
		PushSeg(to, 2, {});
	}

	static void Deliver(Sock* s)
	{
		if (s->myFly.empty())
			return;
		Seg seg = std::move(s->myFly.front());
		s->myFly.pop_front();
		s->myFlyBytes -= seg.myData.size();
		if (s->myState == S_DEAD)
		{
			if (seg.myKind == 0)
				SendRst(s->myPeer);
			return;
		}
		switch (seg.myKind)
		{
		case 0:
			++theStats.mySegments;
			theStats.myBytes += seg.myData.size();
			if (s->myIsClosed || (s->mySdRd && s->mySdWr))
			{
				SendRst(s->myPeer);
				Die(s, ECONNRESET);
				return;
			}
			if (s->myBufPos > 0 && s->myBufPos == s->myBuf.size())
			{
				s->myBuf.clear();
				s->myBufPos = 0;
			}
			s->myBuf += seg.myData;
			Wake(s, EPOLLIN | EPOLLRDNORM | EPOLLRDBAND);
			return;
		case 1:
			s->myFinRecv = true;
			Wake(s, 0);
			return;
		case 2:
			Die(s, s->myFinRecv && !s->myFinSent ? EPIPE : ECONNRESET);
			return;
		}
	}

	static void SendFin(Sock* s)
	{
		if (s->myFinSent || s->myPeer == nullptr)
			return;
		s->myFinSent = true;
		if (s->myPeer->myState != S_DEAD)
			PushSeg(s->myPeer, 1, {});
	}

	static void CloseTcp(Sock* s)
	{
		s->myIsClosed = true;
		switch (s->myState)
		{
		case S_LISTEN:
			s->myState = S_DEAD;
			while (!s->myBacklog.empty())
			{
				Sock* c = s->myBacklog.front();
				s->myBacklog.pop_front();
				c->myIsClosed = true;
				c->myState = S_DEAD;
				SendRst(c->myPeer);
			}
			break;
		case S_EST:
			if (s->Avail() > 0 || s->myIsLinger0)
			{
				Sock* p = s->myPeer;
				s->myState = S_DEAD;
				if (p != nullptr && p->myState != S_DEAD)
				{
					// What is not received yet can be lost.
					size_t keep = p->myFly.size() - Env(p->myFly.size() + 1);
					while (p->myFly.size() > keep)
					{
						p->myFlyBytes -= p->myFly.back().myData.size();
						p->myFly.pop_back();
					}
					SendRst(p);
				}
			}
			else
			{
				SendFin(s);
			}
			break;
		default:
			break;
		}
	}

	static void DropFromEpolls(Sock* s)
	{
		for (Item* i : s->myWatchers)
		{
			Sock* e = i->myEpoll;
			e->myItems.erase(i->myFd);
			if (i->myIsQueued)
				e->myReady.erase(std::find(e->myReady.begin(), e->myReady.end(), i));
			delete i;
		}
		s->myWatchers.clear();
	}

	static void FinishClose(Sock* s)
	{
		DropFromEpolls(s);
		switch (s->myKind)
		{
		case K_TCP:
			CloseTcp(s);
			break;
		case K_EPOLL:
			for (auto& it : s->myItems)
			{
				auto& w = it.second->mySock->myWatchers;
				w.erase(std::find(w.begin(), w.end(), it.second));
			}
			s->myItems.clear();
			s->myReady.clear();
			break;
		default:
			break;
		}
		s->myIsClosed = true;
	}

	static void CloseFd(Sock* s)
	{
		theFds.erase(s->myFd);
		s->myFd = -1;
		if (!s->myOps.empty())
		{
			// Operations hold the file.
			s->myIsCloseWanted = true;
			return;
		}
		FinishClose(s);
	}

	//////////////////////////////////////////////////////////////////////////////////////

	static ssize_t DoRecv(Sock* s, const iovec* iov, size_t count, bool isPeek,
		std::vector<iovec>* outWritten)
	{
		if (s->myKind != K_TCP || s->myState == S_NEW || s->myState == S_LISTEN)
			return -ENOTCONN;
		size_t total = 0;
		for (size_t i = 0; i < count; ++i)
			total += iov[i].iov_len;
		if (total == 0)
			return 0;
		if (s->Avail() > 0)
		{
			size_t n = 0;
			size_t pos = s->myBufPos;
			for (size_t i = 0; i < count && pos < s->myBuf.size(); ++i)
			{
				size_t k = std::min(iov[i].iov_len, s->myBuf.size() - pos);
				if (k == 0)
					continue;
				memcpy(iov[i].iov_base, s->myBuf.data() + pos, k);
				outWritten->push_back(iovec{iov[i].iov_base, k});
				pos += k;
				n += k;
			}
			if (!isPeek)
			{
				s->myBufPos = pos;
				SpaceFreed(s);
			}
			return (ssize_t)n;
		}
		if (s->myFinRecv)
			return 0;
		if (s->myErr != 0)
		{
			int e = s->myErr;
			s->myErr = 0;
			return -e;
		}
		if (s->mySdRd || s->myState == S_DEAD)
			return 0;
		return -EAGAIN;
	}

	static ssize_t DoSend(Sock* s, const iovec* iov, size_t count, std::vector<iovec>* outRead)
	{
		if (s->myKind != K_TCP || s->myState == S_NEW || s->myState == S_LISTEN)
			return -EPIPE;
		if (s->myErr != 0)
		{
			int e = s->myErr;
			s->myErr = 0;
			return -e;
		}
		if (s->mySdWr || s->myState == S_DEAD)
			return -EPIPE;
		if (s->myState == S_SYN)
			return -EAGAIN;
		size_t total = 0;
		for (size_t i = 0; i < count; ++i)
			total += iov[i].iov_len;
		if (total == 0)
			return 0;
		size_t space = Free(s);
		if (space == 0)
		{
			s->myIsNoSpace = true;
			++theStats.mySendBlocks;
			return -EAGAIN;
		}
		size_t n = std::min(total, space);
		if (n < total)
		{
			s->myIsNoSpace = true;
			++theStats.myPartialSends;
		}
		std::string data;
		data.reserve(n);
		for (size_t i = 0; i < count && data.size() < n; ++i)
		{
			size_t k = std::min(iov[i].iov_len, n - data.size());
			if (k == 0)
				continue;
			outRead->push_back(iovec{iov[i].iov_base, k});
			data.append((const char*)iov[i].iov_base, k);
		}
		size_t pos = 0;
		while (pos < n)
		{
			size_t k = n - pos;
			if (k > 1 && EnvChance(theConfig.mySplitChance))
			{
				++theStats.mySplits;
				k = 1 + Env(k);
			}
			PushSeg(s->myPeer, 0, data.substr(pos, k));
			pos += k;
		}
		s->myTxTotal += n;
		return (ssize_t)n;
	}

	static int PortOf(const sockaddr_storage& a)
	{
		if (a.ss_family == AF_INET)
			return ntohs(((const sockaddr_in*)&a)->sin_port);
		if (a.ss_family == AF_INET6)
			return ntohs(((const sockaddr_in6*)&a)->sin6_port);
		return -1;
	}

	static void SetPort(sockaddr_storage& a, uint16_t port)
	{
		if (a.ss_family == AF_INET)
			((sockaddr_in*)&a)->sin_port = htons(port);
		else
			((sockaddr_in6*)&a)->sin6_port = htons(port);
	}

	static bool IsAny(const sockaddr_storage& a)
	{
		if (a.ss_family == AF_INET)
			return ((const sockaddr_in*)&a)->sin_addr.s_addr == 0;
		return memcmp(&((const sockaddr_in6*)&a)->sin6_addr, &in6addr_any, 16) == 0;
	}

	static bool AddrMatches(const sockaddr_storage& bound, const sockaddr_storage& to)
	{
		if (IsAny(bound))
			return bound.ss_family == AF_INET6 || to.ss_family == AF_INET;
		if (bound.ss_family != to.ss_family)
			return false;
		if (to.ss_family == AF_INET)
		{
			return ((const sockaddr_in*)&bound)->sin_addr.s_addr ==
				((const sockaddr_in*)&to)->sin_addr.s_addr;
		}
		return memcmp(&((const sockaddr_in6*)&bound)->sin6_addr,
			&((const sockaddr_in6*)&to)->sin6_addr, 16) == 0;
	}

	static Sock* FindListener(const sockaddr_storage& to)
	{
		for (auto& it : theFds)
		{
			Sock* s = it.second;
			if (s->myKind == K_TCP && s->myState == S_LISTEN && PortOf(s->myLocal) == PortOf(to) &&
				AddrMatches(s->myLocal, to))
				return s;
		}
		return nullptr;
	}

	static void MakeLocal(sockaddr_storage& a, int family)
	{
		memset(&a, 0, sizeof(a));
		a.ss_family = family;
		if (family == AF_INET)
			((sockaddr_in*)&a)->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		else
			((sockaddr_in6*)&a)->sin6_addr = in6addr_loopback;
	}

	static void EnterBacklog(Sock* listener, Sock* child)
	{
		if (listener->myState != S_LISTEN)
		{
			child->myIsClosed = true;
			child->myState = S_DEAD;
			SendRst(child->myPeer);
			return;
		}
		if (listener->myBacklog.size() > listener->myBacklogMax)
		{
			At(sim::NowNs() + 1000000, [=]() { EnterBacklog(listener, child); });
			return;
		}
		listener->myBacklog.push_back(child);
		Wake(listener, EPOLLIN | EPOLLRDNORM);
	}

	static void Establish(Sock* s, Sock* listener, bool isNow)
	{
		Sock* c = NewSock(K_TCP);
		c->myFamily = s->myFamily;
		c->myState = S_EST;
		c->myPeer = s;
		c->myLocal = s->myRemote;
		c->myRemote = s->myLocal;
		s->myPeer = c;
		s->myState = S_EST;
		if (!isNow)
			Wake(s, 0);
		At(sim::NowNs() + Delay(), [=]() { EnterBacklog(listener, c); });
	}

	static int DoConnect(Sock* s, const sockaddr* addr, socklen_t len)
	{
		switch (s->myState)
		{
		case S_SYN:
			return -EALREADY;
		case S_EST:
			if (!s->myWasConnectReported)
			{
				s->myWasConnectReported = true;
				return 0;
			}
			return -EISCONN;
		case S_NEW:
			break;
		default:
			if (s->myErr != 0)
			{
				int e = s->myErr;
				s->myErr = 0;
				return -e;
			}
			return -ECONNABORTED;
		}
		if (addr->sa_family != s->myFamily)
			return -EAFNOSUPPORT;
		theLastConnect = s;
		memset(&s->myRemote, 0, sizeof(s->myRemote));
		memcpy(&s->myRemote, addr, len);
		MakeLocal(s->myLocal, s->myFamily);
		SetPort(s->myLocal, theNextPort++);
		int port = PortOf(s->myRemote);
		auto it = theConnectErrs.find(port);
		if (it != theConnectErrs.end())
			return -it->second;
		uint64_t now = sim::NowNs();
		if (theBlackholes.count(port) != 0)
		{
			s->myState = S_SYN;
			At(now + theConfig.myConnectTimeoutMs * 1000000, [=]() {
				if (s->myState == S_SYN)
					Die(s, ETIMEDOUT);
			});
			return -EINPROGRESS;
		}
		it = theConnectAsyncErrs.find(port);
		int asyncErr = it == theConnectAsyncErrs.end() ? 0 : it->second;
		bool isNow = EnvChance(theConfig.myConnectNowChance) && asyncErr == 0;
		if (isNow)
		{
			Sock* l = FindListener(s->myRemote);
			if (l == nullptr)
				return -ECONNREFUSED;
			s->myWasConnectReported = true;
			Establish(s, l, true);
			return 0;
		}
		s->myState = S_SYN;
		At(now + Delay(), [=]() {
			if (s->myState != S_SYN)
				return;
			Sock* l = FindListener(s->myRemote);
			if (asyncErr != 0 || l == nullptr)
			{
				int e = asyncErr != 0 ? asyncErr : ECONNREFUSED;
				At(sim::NowNs() + Delay(), [=]() {
					if (s->myState == S_SYN)
						Die(s, e);
				});
				return;
			}
			At(sim::NowNs() + Delay(), [=]() {
				if (s->myState != S_SYN)
					return;
				if (s->myIsClosed)
				{
					// The server might notice it or not.
					if (Env(2) == 0)
					{
						s->myState = S_DEAD;
						return;
					}
					Establish(s, l, false);
					s->myState = S_DEAD;
					SendRst(s->myPeer);
					return;
				}
				Establish(s, l, false);
			});
		});
		return -EINPROGRESS;
	}

	static int DoAccept(Sock* s, sockaddr* addr, socklen_t* len, int flags,
		std::vector<iovec>* outWritten)
	{
		if (s->myState != S_LISTEN)
			return -EINVAL;
		if (s->myBacklog.empty())
			return -EAGAIN;
		if (EnvChance(theConfig.myAcceptErrChance))
		{
			static const int errs[] = {ECONNABORTED, EPROTO, ENETDOWN, EHOSTUNREACH, EOPNOTSUPP, EINTR,
				ENETUNREACH, ENOPROTOOPT, EHOSTDOWN, ENONET};
			++theStats.myAcceptErrs;
			int err = errs[Env(10)];
			return -err;
		}
		Sock* c = s->myBacklog.front();
		s->myBacklog.pop_front();
		c->myIsNonBlock = (flags & SOCK_NONBLOCK) != 0;
		int fd = Install(c);
		if (addr != nullptr)
		{
			socklen_t n = s->myFamily == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6);
			memcpy(addr, &c->myRemote, std::min(n, *len));
			outWritten->push_back(iovec{addr, std::min(n, *len)});
			*len = n;
			outWritten->push_back(iovec{len, sizeof(*len)});
		}
		return fd;
	}

	//////////////////////////////////////////////////////////////////////////////////////
	// io_uring.

	static void PostCqe(Sock* ring, Cqe* cqe)
	{
		++ring->myInFlight;
		At(sim::NowNs() + Delay(), [=]() {
			--ring->myInFlight;
			if (ring->myIsClosed)
				return;
			ring->myCq.push_back(cqe);
			if (ring->myRingEvent != nullptr)
			{
				++ring->myRingEvent->myCounter;
				Wake(ring->myRingEvent, EPOLLIN);
			}
			Wake(ring, EPOLLIN);
		});
	}

	// Returns false if not complete yet.
	static bool TryOp(Op* op)
	{
		Cqe* cqe = new Cqe();
		memset(&cqe->myCqe, 0, sizeof(cqe->myCqe));
		cqe->myCqe.user_data = op->mySqe.user_data;
		Sock* s = op->mySock;
		int64_t rc;
		switch (op->mySqe.opcode)
		{
		case IORING_OP_RECVMSG:
			rc = DoRecv(s, op->myIov.data(), op->myIov.size(), false, &cqe->myWritten);
			break;
		case IORING_OP_SENDMSG:
			rc = DoSend(s, op->myIov.data(), op->myIov.size(), &cqe->myRead);
			break;
		case IORING_OP_ACCEPT:
			rc = DoAccept(s, (sockaddr*)(uintptr_t)op->mySqe.addr,
				(socklen_t*)(uintptr_t)op->mySqe.addr2, (int)op->mySqe.accept_flags, &cqe->myWritten);
			break;
		case IORING_OP_CONNECT:
			if (!op->myIsStarted)
			{
				op->myIsStarted = true;
				rc = DoConnect(s, (const sockaddr*)(uintptr_t)op->mySqe.addr,
					(socklen_t)op->mySqe.off);
			}
			else if (s->myState == S_SYN)
			{
				rc = -EINPROGRESS;
			}
			else if (s->myState == S_EST)
			{
				rc = 0;
			}
			else
			{
				rc = s->myErr != 0 ? -s->myErr : -ECONNRESET;
				s->myErr = 0;
			}
			if (rc == -EINPROGRESS)
				rc = -EAGAIN;
			break;
		case IORING_OP_READ:
			if (s->myKind != K_EVENT)
				pbt::Fail("net_uring_op", "read of not an eventfd");
			if (s->myCounter == 0)
			{
				rc = -EAGAIN;
			}
			else
			{
				memcpy((void*)(uintptr_t)op->mySqe.addr, &s->myCounter, 8);
				cqe->myWritten.push_back(iovec{(void*)(uintptr_t)op->mySqe.addr, 8});
				s->myCounter = 0;
				rc = 8;
			}
			break;
		default:
			pbt::Fail("net_uring_op", "unknown operation %d", (int)op->mySqe.opcode);
		}
		if (rc == -EAGAIN)
		{
			delete cqe;
			return false;
		}
		cqe->myCqe.res = (int)rc;
		PostCqe(op->myRing, cqe);
		return true;
	}

	static void TryOps(Sock* s)
	{
		bool isProgress = true;
		while (isProgress)
		{
			isProgress = false;
			for (size_t i = 0; i < s->myOps.size(); ++i)
			{
				Op* op = s->myOps[i];
				// Same operations go in order.
				bool isBlocked = false;
				for (size_t j = 0; j < i; ++j)
					isBlocked = isBlocked || s->myOps[j]->mySqe.opcode == op->mySqe.opcode;
				if (isBlocked || !TryOp(op))
					continue;
				s->myOps.erase(std::find(s->myOps.begin(), s->myOps.end(), op));
				delete op;
				isProgress = true;
				break;
			}
		}
		if (s->myIsCloseWanted && s->myOps.empty())
		{
			s->myIsCloseWanted = false;
			FinishClose(s);
		}
	}

	static void Cancel(Sock* ring, const io_uring_sqe& sqe)
	{
		Sock* s = Get(sqe.fd, "cancel");
		int count = 0;
		std::deque<Op*> ops = std::move(s->myOps);
		s->myOps.clear();
		for (Op* op : ops)
		{
			if (op->myRing != ring)
			{
				s->myOps.push_back(op);
				continue;
			}
			++count;
			++theStats.myCancels;
			Cqe* cqe = new Cqe();
			memset(&cqe->myCqe, 0, sizeof(cqe->myCqe));
			cqe->myCqe.user_data = op->mySqe.user_data;
			cqe->myCqe.res = -ECANCELED;
			PostCqe(ring, cqe);
			delete op;
		}
		Cqe* cqe = new Cqe();
		memset(&cqe->myCqe, 0, sizeof(cqe->myCqe));
		cqe->myCqe.user_data = sqe.user_data;
		cqe->myCqe.res = count;
		PostCqe(ring, cqe);
	}

	//////////////////////////////////////////////////////////////////////////////////////

	// Runs the function until it tells it is done, sleeping in between.
	template<typename F>
	static bool Loop(uint64_t deadline, const char* what, F&& f)
	{
		while (true)
		{
			uint64_t next = deadline;
			{
				sim::Quiet q;
				Pump();
				if (f())
				{
					Pump();
					return true;
				}
				Pump();
				if (sim::NowNs() >= deadline)
					return false;
				if (!theEvents.empty() && theEvents.begin()->first < next)
					next = theEvents.begin()->first;
			}
			sim::BlockOn(&theKey, next, what);
		}
	}

	static uint64_t DeadlineOf(int timeoutMs)
	{
		if (timeoutMs < 0)
			return sim::theInfinite;
		return sim::NowNs() + (uint64_t)timeoutMs * 1000000;
	}

	static int Ret(int64_t rc)
	{
		if (rc >= 0)
			return (int)rc;
		errno = (int)-rc;
		return -1;
	}

	static void TouchWritten(const std::vector<iovec>& v)
	{
		for (const iovec& i : v)
			sim::OnWrite(i.iov_base, i.iov_len);
	}

	static void TouchRead(const std::vector<iovec>& v)
	{
		for (const iovec& i : v)
			sim::OnRead(i.iov_base, i.iov_len);
	}

	static ssize_t RecvCall(int fd, const iovec* iov, size_t count, int flags, const char* name)
	{
		sim::Point();
		ssize_t rc = 0;
		std::vector<iovec>* touched;
		{
			sim::Quiet q;
			touched = new std::vector<iovec>();
		}
		const void* hb = nullptr;
		Loop(sim::theInfinite, name, [&]() {
			Sock* s = Get(fd, name);
			hb = s;
			rc = DoRecv(s, iov, count, (flags & MSG_PEEK) != 0, touched);
			return rc != -EAGAIN || s->myIsNonBlock || (flags & MSG_DONTWAIT) != 0;
		});
		sim::Acquire(hb);
		TouchWritten(*touched);
		if (rc < 0)
		{
			errno = (int)-rc;
			return -1;
		}
		return rc;
	}

	// What is done before a change of this descriptor is seen by those who get its
	// events, however they get those.
	static void ReleaseTo(Sock* s)
	{
		sim::Release(s);
		const void* keys[16];
		size_t count = 0;
		{
			sim::Quiet q;
			for (Op* op : s->myOps)
			{
				if (count + 2 > 16)
					break;
				keys[count++] = op->myRing;
				if (op->myRing->myRingEvent != nullptr)
					keys[count++] = op->myRing->myRingEvent;
			}
		}
		for (size_t i = 0; i < count; ++i)
			sim::Release(keys[i]);
	}

	static ssize_t SendCall(int fd, const iovec* iov, size_t count, int flags, const char* name)
	{
		sim::Point();
		ssize_t rc = 0;
		for (size_t i = 0; i < count; ++i)
			sim::OnRead(iov[i].iov_base, std::min(iov[i].iov_len, (size_t)1 << 16));
		Sock* peer;
		{
			sim::Quiet q;
			peer = Get(fd, name)->myPeer;
		}
		if (peer != nullptr)
			ReleaseTo(peer);
		Loop(sim::theInfinite, name, [&]() {
			Sock* s = Get(fd, name);
			std::vector<iovec> touched;
			rc = DoSend(s, iov, count, &touched);
			return rc != -EAGAIN || s->myIsNonBlock || (flags & MSG_DONTWAIT) != 0;
		});
		if (rc < 0)
		{
			errno = (int)-rc;
			return -1;
		}
		return rc;
	}
}

	Config& GetConfig() { return theConfig; }
	Stats& GetStats() { return theStats; }

	void GenConfig(pbt::Gen& g)
	{
		Config& c = theConfig;
		switch (g.Weighted({2, 3, 3, 2}))
		{
		case 0:
			c.myLatencyNs = 0;
			break;
		case 1:
			c.myLatencyNs = 5000;
			break;
		case 2:
			c.myLatencyNs = 200000;
			break;
		default:
			c.myLatencyNs = 20000000;
			break;
		}
		c.myLatencyChance = (uint32_t)g.Pick({50, 10, 90, 100});
		c.mySplitChance = (uint32_t)g.Pick({0, 10, 50, 80});
		switch (g.Weighted({3, 3, 2}))
		{
		case 0:
			c.myCapMin = c.myCapMax = 65536;
			break;
		case 1:
			c.myCapMin = 100;
			c.myCapMax = 5000;
			break;
		default:
			c.myCapMin = 1;
			c.myCapMax = 64;
			break;
		}
		c.myEintrChance = g.Chance(1, 4) ? 5 : 0;
		c.myConnectNowChance = (uint32_t)g.Pick({30, 0, 100});
		c.myReuseFds = !g.Chance(1, 3);
		if (g.Chance(1, 4))
			c.myUringEntries = (uint32_t)g.Pick({1, 2, 3, 8});
		else
			c.myUringEntries = 1024;
	}

	void CheckNoOpen(const char* sig)
	{
		sim::Quiet q;
		if (!theFds.empty())
			pbt::Fail(sig, "descriptors are left open:\n%s", Dump().c_str());
	}

	uint32_t OpenCount()
	{
		sim::Quiet q;
		return (uint32_t)theFds.size();
	}

	uint32_t OpenSockets()
	{
		sim::Quiet q;
		uint32_t n = 0;
		for (auto& it : theFds)
			n += it.second->myKind == K_TCP;
		return n;
	}

	bool IsOpen(int fd)
	{
		sim::Quiet q;
		return theFds.count(fd) != 0;
	}

	static const char* theFailCall = nullptr;
	static int theFailSkip = 0;
	static int theFailErr = 0;

	bool FailCall(const char* call, int skip, int err)
	{
		sim::Quiet q;
		bool res = theFailErr != 0 && theFailCall == nullptr;
		theFailCall = call;
		theFailSkip = skip;
		theFailErr = call == nullptr ? 0 : err;
		return res;
	}

	static bool IsFailed(const char* call)
	{
		if (theFailCall == nullptr || strcmp(theFailCall, call) != 0 || theFailSkip-- > 0)
			return false;
		theFailCall = nullptr;
		return true;
	}

	static std::map<int, int> theFamilyErrors;
	void SetFamilyError(int family, int err) { sim::Quiet q; theFamilyErrors[family] = err; }
	void SetBlackhole(uint16_t port) { sim::Quiet q; theBlackholes.insert(port); }
	void SetConnectError(uint16_t port, int err) { sim::Quiet q; theConnectErrs[port] = err; }
	void SetConnectAsyncError(uint16_t port, int err) { sim::Quiet q; theConnectAsyncErrs[port] = err; }

	const void* LastConnect() { return theLastConnect; }

	ConnInfo GetConn(const void* conn)
	{
		sim::Quiet q;
		Pump();
		const Sock* s = (const Sock*)conn;
		ConnInfo res;
		res.myIsConnecting = s->myState == S_SYN;
		res.myIsEstablished = s->myState == S_EST;
		res.myErr = s->myErr;
		res.myLocalPort = (uint16_t)PortOf(s->myLocal);
		res.mySent = s->myTxTotal;
		res.myPeerSent = s->myPeer == nullptr ? 0 : s->myPeer->myTxTotal;
		return res;
	}

	void Kill(int fd, int err)
	{
		sim::Point();
		sim::Quiet q;
		Pump();
		Sock* s = Get(fd, "kill");
		Sock* p = s->myPeer;
		At(sim::NowNs() + Delay(), [=]() { Die(s, err); });
		if (p != nullptr)
			At(sim::NowNs() + Delay(), [=]() { Die(p, err); });
		Pump();
	}

	void SetName(const std::string& name, const NameResult& res)
	{
		sim::Quiet q;
		theNames[name] = res;
	}

	uint32_t GetNameCalls(const std::string& name)
	{
		sim::Quiet q;
		return theNames[name].myCalls;
	}

	uint32_t NameResultsAlive()
	{
		sim::Quiet q;
		return (uint32_t)theAddrInfos.size();
	}

	std::string Dump()
	{
		sim::Quiet q;
		std::string res;
		char buf[300];
		static const char* kinds[] = {"tcp", "epoll", "eventfd", "ring"};
		static const char* states[] = {"new", "listen", "syn", "est", "dead"};
		for (auto& it : theFds)
		{
			Sock* s = it.second;
			snprintf(buf, sizeof(buf), "fd %d %s %s avail %zu fly %zu%s%s%s%s err %d ops %zu "
				"backlog %zu watchers %zu counter %llu mask 0x%x\n", it.first, kinds[s->myKind],
				states[s->myState], s->Avail(), s->myFlyBytes, s->myFinRecv ? " fin" : "",
				s->mySdRd ? " sdrd" : "", s->mySdWr ? " sdwr" : "", s->myIsNoSpace ? " nospace" : "",
				s->myErr, s->myOps.size(), s->myBacklog.size(), s->myWatchers.size(),
				(unsigned long long)s->myCounter, Mask(s));
			res += buf;
		}
		return res;
	}
}

using namespace simnet;

//////////////////////////////////////////////////////////////////////////////////////////

extern "C" {

int socket(int family, int type, int proto)
{
	sim::Point();
	int rc;
	{
		sim::Quiet q;
		Pump();
		if (EnvChance(theConfig.mySocketErrChance))
		{
			rc = -EMFILE;
		}
		else if (IsFailed("socket"))
		{
			rc = -theFailErr;
		}
		else if (theFamilyErrors.count(family) != 0)
		{
			rc = -theFamilyErrors[family];
		}
		else
		{
			Sock* s = NewSock(K_TCP);
			s->myFamily = family;
			s->myIsNonBlock = (type & SOCK_NONBLOCK) != 0;
			rc = Install(s);
		}
	}
	return Ret(rc);
}

int bind(int fd, const sockaddr* addr, socklen_t len)
{
	sim::Point();
	int rc = 0;
	{
		sim::Quiet q;
		Pump();
		Sock* s = Get(fd, "bind");
		sockaddr_storage a;
		memset(&a, 0, sizeof(a));
		memcpy(&a, addr, len);
		if (IsFailed("bind"))
			rc = -theFailErr;
		else if (a.ss_family != s->myFamily)
			rc = -EAFNOSUPPORT;
		else if (s->myIsBound)
			rc = -EINVAL;
		if (rc == 0 && PortOf(a) == 0)
		{
			SetPort(a, theNextPort++);
		}
		else if (rc == 0)
		{
			for (auto& it : theFds)
			{
				Sock* o = it.second;
				if (o->myKind == K_TCP && o->myIsBound && PortOf(o->myLocal) == PortOf(a) &&
					o->myFamily == s->myFamily)
					rc = -EADDRINUSE;
			}
		}
		if (rc == 0)
		{
			s->myLocal = a;
			s->myIsBound = true;
		}
	}
	return Ret(rc);
}

int listen(int fd, int backlog)
{
	sim::Point();
	int rc = 0;
	{
		sim::Quiet q;
		Pump();
		Sock* s = Get(fd, "listen");
		if (IsFailed("listen"))
			rc = -theFailErr;
		else if (s->myState != S_NEW && s->myState != S_LISTEN)
			rc = -EINVAL;
		else
		{
			if (!s->myIsBound)
			{
				MakeLocal(s->myLocal, s->myFamily);
				SetPort(s->myLocal, theNextPort++);
				s->myIsBound = true;
			}
			s->myState = S_LISTEN;
			s->myBacklogMax = backlog < 0 ? 4096 : (uint32_t)std::min(backlog, 4096);
		}
	}
	return Ret(rc);
}

int accept4(int fd, sockaddr* addr, socklen_t* len, int flags)
{
	sim::Point();
	int rc = 0;
	std::vector<iovec>* touched;
	{
		sim::Quiet q;
		touched = new std::vector<iovec>();
	}
	const void* hb = nullptr;
	Loop(sim::theInfinite, "accept", [&]() {
		Sock* s = Get(fd, "accept");
		hb = s;
		rc = DoAccept(s, addr, len, flags, touched);
		return rc != -EAGAIN || s->myIsNonBlock;
	});
	sim::Acquire(hb);
	TouchWritten(*touched);
	return Ret(rc);
}

int accept(int fd, sockaddr* addr, socklen_t* len)
{
	return accept4(fd, addr, len, 0);
}

int connect(int fd, const sockaddr* addr, socklen_t len)
{
	sim::Point();
	sim::OnRead(addr, len);
	int rc = 0;
	bool isBlocking = false;
	{
		sim::Quiet q;
		Pump();
		Sock* s = Get(fd, "connect");
		isBlocking = !s->myIsNonBlock;
		rc = DoConnect(s, addr, len);
		Pump();
	}
	if (rc == -EINPROGRESS && isBlocking)
	{
		Loop(sim::theInfinite, "connect", [&]() {
			Sock* s = Get(fd, "connect");
			if (s->myState == S_SYN)
				return false;
			s->myWasConnectReported = true;
			rc = s->myState == S_EST ? 0 : -s->myErr;
			s->myErr = 0;
			return true;
		});
	}
	return Ret(rc);
}

// The real kernel would read these from the user's memory.
static void CheckMsg(const msghdr* msg, const char* call)
{
	sim::OnRead(msg, sizeof(*msg));
	if ((msg->msg_name != nullptr && msg->msg_namelen != 0) || (msg->msg_control != nullptr && msg->msg_controllen != 0))
		pbt::Fail("net_msg", "%s() is called with a garbage in the message header", call);
}

ssize_t recvmsg(int fd, msghdr* msg, int flags)
{
	sim::OnRead(msg->msg_iov, msg->msg_iovlen * sizeof(iovec));
	CheckMsg(msg, "recvmsg");
	return RecvCall(fd, msg->msg_iov, msg->msg_iovlen, flags, "recvmsg");
}

ssize_t recv(int fd, void* buf, size_t size, int flags)
{
	iovec v{buf, size};
	return RecvCall(fd, &v, 1, flags, "recv");
}

ssize_t sendmsg(int fd, const msghdr* msg, int flags)
{
	sim::OnRead(msg->msg_iov, msg->msg_iovlen * sizeof(iovec));
	CheckMsg(msg, "sendmsg");
	return SendCall(fd, msg->msg_iov, msg->msg_iovlen, flags, "sendmsg");
}

ssize_t send(int fd, const void* buf, size_t size, int flags)
{
	iovec v{(void*)buf, size};
	return SendCall(fd, &v, 1, flags, "send");
}

ssize_t read(int fd, void* buf, size_t size)
{
	if (!IsOurs(fd))
		return syscall(SYS_read, fd, buf, size);
	bool isEvent;
	{
		sim::Quiet q;
		isEvent = Get(fd, "read")->myKind == K_EVENT;
	}
	if (!isEvent)
		return recv(fd, buf, size, 0);
	sim::Point();
	int rc = 0;
	const void* hb = nullptr;
	Loop(sim::theInfinite, "read", [&]() {
		Sock* s = Get(fd, "read");
		hb = s;
		if (s->myCounter == 0)
		{
			rc = -EAGAIN;
			return s->myIsNonBlock;
		}
		memcpy(buf, &s->myCounter, 8);
		s->myCounter = 0;
		rc = 8;
		return true;
	});
	sim::Acquire(hb);
	if (rc > 0)
		sim::OnWrite(buf, 8);
	return Ret(rc);
}

static int EventWrite(int fd, uint64_t value)
{
	sim::Point();
	Sock* s;
	{
		sim::Quiet q;
		Pump();
		s = Get(fd, "eventfd_write");
	}
	ReleaseTo(s);
	{
		sim::Quiet q;
		s->myCounter += value;
		Wake(s, EPOLLIN);
		Pump();
	}
	return 0;
}

int eventfd_write(int fd, uint64_t value)
{
	return EventWrite(fd, value);
}

ssize_t write(int fd, const void* buf, size_t size)
{
	if (!IsOurs(fd))
		return syscall(SYS_write, fd, buf, size);
	bool isEvent;
	{
		sim::Quiet q;
		isEvent = Get(fd, "write")->myKind == K_EVENT;
	}
	if (!isEvent)
		return send(fd, buf, size, 0);
	uint64_t v;
	memcpy(&v, buf, 8);
	EventWrite(fd, v);
	return 8;
}

int eventfd(unsigned value, int flags)
{
	sim::Point();
	sim::Quiet q;
	Sock* s = NewSock(K_EVENT);
	s->myCounter = value;
	s->myIsNonBlock = (flags & EFD_NONBLOCK) != 0;
	return Install(s);
}

int shutdown(int fd, int how)
{
	sim::Point();
	int rc = 0;
	Sock* s;
	{
		sim::Quiet q;
		Pump();
		s = Get(fd, "shutdown");
		switch (s->myState)
		{
		case S_NEW:
			rc = -ENOTCONN;
			break;
		case S_DEAD:
			rc = -ENOTCONN;
			break;
		case S_LISTEN:
			if (how != SHUT_WR)
			{
				s->myState = S_DEAD;
				s->mySdRd = true;
				s->mySdWr = true;
				Wake(s, 0);
			}
			break;
		case S_SYN:
			// As Linux does: disconnects.
			Die(s, 0);
			s->myErr = ECONNRESET;
			Wake(s, 0);
			break;
		case S_EST:
			if (how != SHUT_WR)
				s->mySdRd = true;
			if (how != SHUT_RD)
			{
				s->mySdWr = true;
				SendFin(s);
			}
			Wake(s, 0);
			break;
		}
		Pump();
	}
	return Ret(rc);
}

int close(int fd)
{
	if (!IsOurs(fd))
		return (int)syscall(SYS_close, fd);
	sim::Point();
	Sock* s;
	{
		sim::Quiet q;
		Pump();
		s = Get(fd, "close");
	}
	ReleaseTo(s);
	if (s->myPeer != nullptr)
		ReleaseTo(s->myPeer);
	{
		sim::Quiet q;
		CloseFd(s);
		sim::WakeAll(&theKey);
		Pump();
	}
	return 0;
}

int getsockopt(int fd, int level, int name, void* val, socklen_t* len)
{
	sim::Point();
	int rc = 0;
	{
		sim::Quiet q;
		Pump();
		Sock* s = Get(fd, "getsockopt");
		int v = 0;
		if (level == SOL_SOCKET && name == SO_ERROR)
		{
			v = s->myErr;
			s->myErr = 0;
		}
		else
		{
			v = s->myOpts[{level, name}];
		}
		if (*len < sizeof(v))
			rc = -EINVAL;
		else
		{
			memcpy(val, &v, sizeof(v));
			*len = sizeof(v);
		}
	}
	if (rc == 0)
		sim::OnWrite(val, sizeof(int));
	return Ret(rc);
}

int setsockopt(int fd, int level, int name, const void* val, socklen_t len)
{
	sim::Point();
	sim::Quiet q;
	Pump();
	Sock* s = Get(fd, "setsockopt");
	if (IsFailed("setsockopt"))
		return Ret(-theFailErr);
	if (level == SOL_SOCKET && name == SO_LINGER)
	{
		linger l;
		memcpy(&l, val, sizeof(l));
		s->myIsLinger0 = l.l_onoff != 0 && l.l_linger == 0;
		return 0;
	}
	int v = 0;
	memcpy(&v, val, std::min((socklen_t)sizeof(v), len));
	s->myOpts[{level, name}] = v;
	return 0;
}

static int NameCall(int fd, sockaddr* addr, socklen_t* len, bool isPeer)
{
	sim::Point();
	int rc = 0;
	{
		sim::Quiet q;
		Pump();
		Sock* s = Get(fd, "getsockname");
		sockaddr_storage a = isPeer ? s->myRemote : s->myLocal;
		if (isPeer && s->myState != S_EST)
			rc = -ENOTCONN;
		if (a.ss_family == 0)
			a.ss_family = s->myFamily;
		socklen_t n = s->myFamily == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6);
		if (rc == 0)
		{
			memcpy(addr, &a, std::min(n, *len));
			*len = n;
		}
	}
	if (rc == 0)
		sim::OnWrite(addr, *len);
	return Ret(rc);
}

int getsockname(int fd, sockaddr* addr, socklen_t* len) { return NameCall(fd, addr, len, false); }
int getpeername(int fd, sockaddr* addr, socklen_t* len) { return NameCall(fd, addr, len, true); }

int fcntl(int fd, int cmd, ...)
{
	va_list va;
	va_start(va, cmd);
	long arg = va_arg(va, long);
	va_end(va);
	if (!IsOurs(fd))
		return (int)syscall(SYS_fcntl, fd, cmd, arg);
	sim::Point();
	sim::Quiet q;
	Sock* s = Get(fd, "fcntl");
	if (cmd == F_GETFL)
		return O_RDWR | (s->myIsNonBlock ? O_NONBLOCK : 0);
	if (cmd == F_SETFL)
		s->myIsNonBlock = (arg & O_NONBLOCK) != 0;
	return 0;
}
int fcntl64(int fd, int cmd, ...) __attribute__((alias("fcntl")));

int poll(pollfd* fds, nfds_t count, int timeout)
{
	bool isOurs = false;
	for (nfds_t i = 0; i < count; ++i)
		isOurs = isOurs || IsOurs(fds[i].fd);
	if (!isOurs)
		return (int)syscall(SYS_poll, fds, count, timeout);
	sim::Point();
	int rc = 0;
	uint64_t deadline = DeadlineOf(timeout);
	if (timeout != 0)
	{
		sim::Quiet q;
		if (EnvChance(theConfig.myEintrChance))
		{
			++theStats.myEintrs;
			errno = EINTR;
			rc = -1;
		}
	}
	if (rc != 0)
		return rc;
	Loop(deadline, "poll", [&]() {
		rc = 0;
		for (nfds_t i = 0; i < count; ++i)
		{
			fds[i].revents = 0;
			auto it = theFds.find(fds[i].fd);
			if (it == theFds.end())
				pbt::Fail("net_bad_fd", "poll() is called on a not open descriptor %d", fds[i].fd);
			uint32_t m = Mask(it->second) & ((uint32_t)(uint16_t)fds[i].events | POLLERR | POLLHUP);
			fds[i].revents = (short)m;
			rc += m != 0;
		}
		return rc > 0;
	});
	for (nfds_t i = 0; i < count; ++i)
	{
		const void* hb;
		{
			sim::Quiet q;
			hb = theFds.count(fds[i].fd) != 0 ? theFds[fds[i].fd] : nullptr;
		}
		if (fds[i].revents != 0 && hb != nullptr)
			sim::Acquire(hb);
	}
	return rc;
}

int epoll_create1(int)
{
	sim::Point();
	sim::Quiet q;
	return Install(NewSock(K_EPOLL));
}

int epoll_ctl(int epfd, int op, int fd, epoll_event* ev)
{
	sim::Point();
	int rc = 0;
	Sock* e;
	{
		sim::Quiet q;
		Pump();
		e = Get(epfd, "epoll_ctl");
	}
	sim::Release(e);
	{
		sim::Quiet q;
		Sock* s = Get(fd, "epoll_ctl");
		auto it = e->myItems.find(fd);
		if (op == EPOLL_CTL_ADD)
		{
			if (it != e->myItems.end())
				rc = -EEXIST;
			else
			{
				Item* i = new Item();
				i->mySock = s;
				i->myFd = fd;
				i->myEvents = ev->events;
				i->myData = ev->data;
				i->myIsQueued = false;
				i->myEpoll = e;
				e->myItems[fd] = i;
				s->myWatchers.push_back(i);
				if ((Mask(s) & (i->myEvents | EPOLLERR | EPOLLHUP)) != 0)
				{
					i->myIsQueued = true;
					e->myReady.push_back(i);
					sim::WakeAll(&theKey);
				}
			}
		}
		else if (it == e->myItems.end())
		{
			rc = -ENOENT;
		}
		else if (op == EPOLL_CTL_DEL)
		{
			Item* i = it->second;
			e->myItems.erase(it);
			if (i->myIsQueued)
				e->myReady.erase(std::find(e->myReady.begin(), e->myReady.end(), i));
			s->myWatchers.erase(std::find(s->myWatchers.begin(), s->myWatchers.end(), i));
			delete i;
		}
		else
		{
			Item* i = it->second;
			i->myEvents = ev->events;
			i->myData = ev->data;
			if ((Mask(s) & (i->myEvents | EPOLLERR | EPOLLHUP)) != 0 && !i->myIsQueued)
			{
				i->myIsQueued = true;
				e->myReady.push_back(i);
				sim::WakeAll(&theKey);
			}
		}
	}
	return Ret(rc);
}

int epoll_wait(int epfd, epoll_event* evs, int maxCount, int timeout)
{
	sim::Point();
	int rc = 0;
	uint64_t deadline = DeadlineOf(timeout);
	{
		sim::Quiet q;
		if (EnvChance(theConfig.myEintrChance))
		{
			++theStats.myEintrs;
			rc = -EINTR;
		}
	}
	if (rc != 0)
		return Ret(rc);
	std::vector<const void*>* hbs;
	{
		sim::Quiet q;
		hbs = new std::vector<const void*>();
	}
	Loop(deadline, "epoll_wait", [&]() {
		Sock* e = Get(epfd, "epoll_wait");
		hbs->clear();
		hbs->push_back(e);
		std::deque<Item*> todo = std::move(e->myReady);
		e->myReady.clear();
		std::deque<Item*> again;
		rc = 0;
		while (!todo.empty() && rc < maxCount)
		{
			Item* i = todo.front();
			todo.pop_front();
			i->myIsQueued = false;
			uint32_t m = Mask(i->mySock) & (i->myEvents | EPOLLERR | EPOLLHUP);
			if (m == 0)
				continue;
			evs[rc].events = m;
			evs[rc].data = i->myData;
			++rc;
			if (i->mySock->myKind == K_EVENT)
				hbs->push_back(i->mySock);
			if ((i->myEvents & EPOLLET) == 0)
			{
				i->myIsQueued = true;
				again.push_back(i);
			}
		}
		for (Item* i : again)
			todo.push_back(i);
		e->myReady = std::move(todo);
		return rc > 0;
	});
	for (const void* h : *hbs)
		sim::Acquire(h);
	if (rc > 0)
		sim::OnWrite(evs, sizeof(*evs) * rc);
	return rc;
}

//////////////////////////////////////////////////////////////////////////////////////////

static constexpr uint32_t theCqeCount = 8192;
static io_uring_cqe theCqes[theCqeCount];
static io_uring_sqe theSqes[2048];

int io_uring_queue_init_params(unsigned entries, io_uring* ring, io_uring_params* p)
{
	sim::Point();
	sim::Quiet q;
	Sock* s = NewSock(K_RING);
	s->mySqSize = std::min(entries, theConfig.myUringEntries);
	ring->ring_fd = Install(s);
	static bool isInited = false;
	if (!isInited)
	{
		isInited = true;
		sim::IgnoreMemory(theCqes, sizeof(theCqes));
		sim::IgnoreMemory(theSqes, sizeof(theSqes));
	}
	p->features = IORING_FEAT_NODROP | IORING_FEAT_SUBMIT_STABLE;
	return 0;
}

void io_uring_queue_exit(io_uring* ring)
{
	sim::Point();
	sim::Quiet q;
	Pump();
	Sock* r = Get(ring->ring_fd, "io_uring_queue_exit");
	for (auto& it : theFds)
	{
		Sock* s = it.second;
		for (size_t i = 0; i < s->myOps.size();)
		{
			if (s->myOps[i]->myRing == r)
			{
				// Only the reads of the eventfd can be left by a correct program.
				if (s->myKind == K_TCP)
					pbt::Fail("net_uring_left", "the ring is closed with a pending operation of a socket");
				s->myOps.erase(s->myOps.begin() + i);
			}
			else
			{
				++i;
			}
		}
	}
	CloseFd(r);
}

int io_uring_register_eventfd(io_uring* ring, int fd)
{
	sim::Point();
	sim::Quiet q;
	Get(ring->ring_fd, "io_uring_register_eventfd")->myRingEvent = Get(fd, "io_uring_register_eventfd");
	return 0;
}

int io_uring_unregister_eventfd(io_uring* ring)
{
	sim::Point();
	sim::Quiet q;
	Get(ring->ring_fd, "io_uring_unregister_eventfd")->myRingEvent = nullptr;
	return 0;
}

unsigned io_uring_peek_batch_cqe(io_uring* ring, io_uring_cqe** cqes, unsigned count)
{
	sim::Point();
	unsigned n = 0;
	Sock* r;
	std::vector<Cqe*>* got;
	{
		sim::Quiet q;
		Pump();
		r = Get(ring->ring_fd, "io_uring_peek_batch_cqe");
		got = new std::vector<Cqe*>();
		static uint32_t next = 0;
		for (Cqe* c : r->myCq)
		{
			if (n == count)
				break;
			got->push_back(c);
			// The results are looked at before the next polling.
			io_uring_cqe* copy = &theCqes[next++ % theCqeCount];
			*copy = c->myCqe;
			cqes[n++] = copy;
		}
	}
	sim::Acquire(r);
	for (Cqe* c : *got)
	{
		TouchRead(c->myRead);
		TouchWritten(c->myWritten);
	}
	return n;
}

void io_uring_cq_advance(io_uring* ring, unsigned nr)
{
	sim::Quiet q;
	Sock* r = Get(ring->ring_fd, "io_uring_cq_advance");
	for (unsigned i = 0; i < nr; ++i)
		r->myCq.pop_front();
}

io_uring_sqe* io_uring_get_sqe(io_uring* ring)
{
	sim::Quiet q;
	Sock* r = Get(ring->ring_fd, "io_uring_get_sqe");
	if (r->mySq.size() >= r->mySqSize)
		return nullptr;
	// The entries are collected at submission.
	r->mySq.emplace_back();
	return &theSqes[r->mySq.size() - 1];
}

int io_uring_submit(io_uring* ring)
{
	sim::Point();
	int rc = 0;
	Sock* r;
	{
		sim::Quiet q;
		Pump();
		r = Get(ring->ring_fd, "io_uring_submit");
	}
	size_t n = r->mySq.size();
	for (size_t i = 0; i < n; ++i)
	{
		Sock* s = nullptr;
		if (theSqes[i].opcode != IORING_OP_ASYNC_CANCEL)
		{
			sim::Quiet q;
			s = Get(theSqes[i].fd, "io_uring operation");
		}
		if (s != nullptr)
			sim::Acquire(s);
	}
	sim::Release(r);
	for (size_t i = 0; i < n; ++i)
	{
		const io_uring_sqe sqe = theSqes[i];
		if (sqe.opcode == IORING_OP_RECVMSG || sqe.opcode == IORING_OP_SENDMSG)
		{
			const msghdr* m = (const msghdr*)(uintptr_t)sqe.addr;
			CheckMsg(m, "io_uring");
			sim::OnRead(m->msg_iov, m->msg_iovlen * sizeof(iovec));
		}
		sim::Quiet q;
		++rc;
		if (sqe.opcode == IORING_OP_ASYNC_CANCEL)
		{
			Cancel(r, sqe);
			Pump();
			continue;
		}
		Op* op = new Op();
		op->mySqe = sqe;
		op->myRing = r;
		op->mySock = Get(sqe.fd, "io_uring operation");
		op->myIsStarted = false;
		if (sqe.opcode == IORING_OP_RECVMSG || sqe.opcode == IORING_OP_SENDMSG)
		{
			const msghdr* m = (const msghdr*)(uintptr_t)sqe.addr;
			for (size_t j = 0; j < m->msg_iovlen; ++j)
				op->myIov.push_back(m->msg_iov[j]);
		}
		bool isBlocked = false;
		for (Op* o : op->mySock->myOps)
			isBlocked = isBlocked || o->mySqe.opcode == sqe.opcode;
		if (isBlocked || !TryOp(op))
			op->mySock->myOps.push_back(op);
		Pump();
	}
	r->mySq.clear();
	return rc;
}

//////////////////////////////////////////////////////////////////////////////////////////

int getaddrinfo(const char* node, const char*, const addrinfo*, addrinfo** out)
{
	sim::Point();
	NameResult* r;
	{
		sim::Quiet q;
		auto it = theNames.find(node);
		if (it == theNames.end())
			return EAI_NONAME;
		r = &it->second;
		++r->myCalls;
	}
	if (r->myDelayMs != 0)
		sim::SleepMs(r->myDelayMs);
	sim::Point();
	if (r->myRc != 0)
	{
		errno = r->myErrno;
		return r->myRc;
	}
	sim::Quiet q;
	addrinfo* head = nullptr;
	addrinfo** tail = &head;
	for (int a : r->myAddrs)
	{
		addrinfo* i = new addrinfo();
		memset(i, 0, sizeof(*i));
		sockaddr_storage* s = new sockaddr_storage();
		memset(s, 0, sizeof(*s));
		i->ai_addr = (sockaddr*)s;
		i->ai_socktype = SOCK_STREAM;
		if (a > 0)
		{
			i->ai_family = AF_INET;
			i->ai_addrlen = sizeof(sockaddr_in);
			s->ss_family = AF_INET;
			((sockaddr_in*)s)->sin_addr.s_addr = htonl((uint32_t)a);
		}
		else if (a < 0)
		{
			i->ai_family = AF_INET6;
			i->ai_addrlen = sizeof(sockaddr_in6);
			s->ss_family = AF_INET6;
			uint32_t v = htonl((uint32_t)-a);
			memcpy((char*)&((sockaddr_in6*)s)->sin6_addr + 12, &v, 4);
		}
		else
		{
			i->ai_family = AF_UNIX;
			i->ai_addrlen = sizeof(sockaddr);
			s->ss_family = AF_UNIX;
		}
		*tail = i;
		tail = &i->ai_next;
		theAddrInfos.insert(i);
	}
	*out = head;
	return 0;
}

void freeaddrinfo(addrinfo* a)
{
	sim::Quiet q;
	while (a != nullptr)
	{
		addrinfo* next = a->ai_next;
		if (theAddrInfos.erase(a) == 0)
			pbt::Fail("net_addrinfo", "address info is freed twice");
		a->ai_next = nullptr;
		a = next;
	}
}

const char* gai_strerror(int) { return "name error"; }

}
