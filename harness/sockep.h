// Endpoints of asynchronous sockets with their oracles, shared by the socket harnesses.
#pragma once

#include "netutil.h"

#include "mg/aio/IOCore.h"
#include "mg/aio/TCPSocket.h"
#include "mg/aio/TCPSocketIFace.h"
#include "mg/aio/TCPSocketSubscription.h"
#include "mg/box/Error.h"
#include "mg/box/Time.h"
#include "mg/net/Buffer.h"
#include "mg/net/Host.h"

#include <algorithm>
#include <functional>
#include <memory>
#include <thread>
#include <vector>

using mg::aio::IOCore;
using mg::aio::TCPSocket;
using mg::aio::TCPSocketConnectParams;
using mg::aio::TCPSocketIFace;
using mg::aio::TCPSocketParams;
using mg::aio::TCPSocketSubscription;

static constexpr int theMaxSrc = 6;

// Data of a direction of a connection is a sequence of messages of several sources. Each
// source has its own byte sequence.
//
// Loose messages do not depend on each other, any of them can be lost with its connection.
struct LooseSt
{
	uint32_t myNext = 0;
	std::vector<uint8_t> myIsSeen;
};
static LooseSt* theLoose;

struct Framer
{
	uint32_t myStream = 0;
	uint64_t myPos[theMaxSrc] = {};
	bool myIsLoose = false;

	// A header + the payload.
	std::string Make(int src, uint32_t payload)
	{
		if (myIsLoose)
		{
			uint32_t id = theLoose->myNext++;
			theLoose->myIsSeen.push_back(0);
			std::string res(8 + payload, '\0');
			res[0] = (char)(0xC0 + src);
			res[1] = (char)myStream;
			for (int i = 0; i < 4; ++i)
				res[2 + i] = (char)(id >> (8 * i));
			res[6] = (char)(payload >> 8);
			res[7] = (char)(payload & 255);
			PatFill(&res[8], id, 0, payload);
			return res;
		}
		std::string res(3 + payload, '\0');
		res[0] = (char)(0xA0 + src);
		res[1] = (char)(payload >> 8);
		res[2] = (char)(payload & 255);
		PatFill(&res[3], myStream * theMaxSrc + src, myPos[src], payload);
		myPos[src] += payload;
		return res;
	}
};

struct Parser
{
	uint32_t myStream = 0;
	uint64_t myPos[theMaxSrc] = {};
	uint64_t myTotal = 0;
	uint64_t myMsgs = 0;
	int mySt = 0;
	int mySrc = 0;
	uint32_t myLeft = 0;
	bool myIsLoose = false;
	uint8_t myHead[8];
	int64_t myLastId[theMaxSrc] = {-1, -1, -1, -1, -1, -1};
	// Number of messages of each source.
	uint64_t myCount[theMaxSrc] = {};

	// Connection is over.
	void Restart()
	{
		mySt = 0;
		for (int64_t& id : myLastId)
			id = -1;
	}

	bool FeedLoose(const uint8_t* data, uint64_t size)
	{
		for (uint64_t i = 0; i < size; ++i)
		{
			uint8_t b = data[i];
			++myTotal;
			if (mySt < 8)
			{
				myHead[mySt++] = b;
				if (mySt < 8)
					continue;
				mySrc = myHead[0] - 0xC0;
				uint32_t id = myHead[2] | myHead[3] << 8 | myHead[4] << 16 | (uint32_t)myHead[5] << 24;
				if (mySrc < 0 || mySrc >= theMaxSrc || myHead[1] != (uint8_t)myStream ||
					id >= theLoose->myNext)
					return false;
				if (theLoose->myIsSeen[id]++ != 0)
					pbt::Fail("sock_dup", "a message is delivered twice");
				if ((int64_t)id <= myLastId[mySrc])
					pbt::Fail("sock_order", "messages of one source are reordered");
				myLastId[mySrc] = id;
				myLeft = (uint32_t)myHead[6] << 8 | myHead[7];
				myPos[0] = 0;
				++myMsgs;
				if (myLeft == 0)
					mySt = 0;
				continue;
			}
			if (b != PatByte((uint32_t)myLastId[mySrc], myPos[0]++))
				return false;
			if (--myLeft == 0)
				mySt = 0;
		}
		return true;
	}

	// False when the data is wrong.
	bool Feed(const uint8_t* data, uint64_t size)
	{
		if (myIsLoose)
			return FeedLoose(data, size);
		for (uint64_t i = 0; i < size; ++i)
		{
			uint8_t b = data[i];
			switch (mySt)
			{
			case 0:
				if (b < 0xA0 || b >= 0xA0 + theMaxSrc)
					return false;
				mySrc = b - 0xA0;
				mySt = 1;
				break;
			case 1:
				myLeft = (uint32_t)b << 8;
				mySt = 2;
				break;
			case 2:
				myLeft |= b;
				++myMsgs;
				++myCount[mySrc];
				mySt = myLeft == 0 ? 0 : 3;
				break;
			default:
				if (b != PatByte(myStream * theMaxSrc + mySrc, myPos[mySrc]))
					return false;
				++myPos[mySrc];
				if (--myLeft == 0)
					mySt = 0;
				break;
			}
			++myTotal;
		}
		return true;
	}
};

struct SendOp
{
	uint32_t myPayload;
	int myForm;
};

// A tiny kernel buffer makes big messages too long.
static inline uint32_t
MaxPayload()
{
	uint32_t cap = simnet::GetConfig().myCapMax;
	return cap <= 64 ? 120 : cap <= 5000 ? 5000 : 15000;
}

static inline uint32_t
GenPayload(pbt::Gen& g)
{
	if (g.Chance(1, 12))
		return (uint32_t)g.Below(MaxPayload());
	if (MaxPayload() < 1000)
		return (uint32_t)g.Below(20);
	switch (g.Weighted({6, 4, 2}))
	{
	case 0:
		return (uint32_t)g.Below(20);
	case 1:
		return (uint32_t)g.Below(300);
	default:
		return (uint32_t)g.Below(2500);
	}
}

static inline SendOp
GenSendOp(pbt::Gen& g)
{
	SendOp op;
	op.myPayload = GenPayload(g);
	op.myForm = (int)g.Below(8);
	return op;
}

enum CbKind
{
	CB_CONNECT,
	CB_RECV,
	CB_SEND,
	CB_EVENT,
	CB_KIND_COUNT,
};

enum ActKind
{
	ACT_NONE,
	ACT_SEND,
	ACT_RECV,
	// Do not continue receiving.
	ACT_PAUSE,
	ACT_CLOSE,
	ACT_SHUTDOWN,
	ACT_WAKEUP,
	ACT_WAKEUP_OTHER,
	ACT_DEADLINE,
	ACT_RESCHEDULE,
	ACT_POINTS,
};

struct Act
{
	int myKind = ACT_NONE;
	uint64_t myArg = 0;
	SendOp mySend = {0, 0};
};

struct Ep;

struct EpGlobal
{
	std::vector<Ep*> myEps;
	uint64_t mySeq = 0;
	bool myIsFlush = false;
	int myParallel = 0;
	int myParallelMax = 0;
};
static EpGlobal* theEg;

// A life of an endpoint from a post to OnClose().
struct Life
{
	bool myHasConnectReq = false;
	bool myIsConnected = false;
	bool myIsConnectFailed = false;
	bool myIsErrored = false;
	bool myIsClosed = false;
	const mg::box::Error* myPendingErr = nullptr;
	mg::box::ErrorCode myErrCode = mg::box::ERR_BOX_NONE;
	uint64_t myConnectEndMs = 0;
	// Could be asked, and was surely asked.
	bool myIsCloseReq = false;
	bool myIsCloseMust = false;
	bool myIsShutdownReq = false;
	bool myIsShutdownMust = false;
	// There is or there will be something to shut down.
	bool myIsConnectAsked = false;
	// The peer ends or breaks the connection.
	bool myIsPeerEnd = false;
	bool myIsErrorPossible = false;
	// Receives requested by the callbacks, and the happened ones.
	uint64_t myOwnAsks = 0;
	uint64_t myRecvs = 0;
};

struct Ep : public TCPSocketSubscription
{
	int myId = 0;
	bool myIsSSL = false;
	TCPSocketIFace* mySock = nullptr;
	// How to open it.
	std::function<void()> myOpen;
	// The outgoing data.
	Framer myOut;
	std::vector<std::unique_ptr<std::string>> myArena;
	uint64_t myTotalSent = 0;
	uint64_t myReportedSent = 0;
	std::vector<SendOp> mySelfSends;
	size_t mySelfSendPos = 0;
	// No own sends.
	bool myIsHold = false;
	// The sent data must not be visible in the connection.
	bool myIsSecret = false;
	std::vector<const std::string*> mySecrets;
	// The incoming data.
	Parser myIn;
	uint64_t myLeftover = 0;
	std::vector<uint32_t> myRecvSizes;
	size_t myRecvPos = 0;
	std::vector<int> myReadModes;
	size_t myReadPos = 0;
	bool myIsPaused = false;
	bool myIsAutoRecv = true;
	// Bit per life: it does not receive until the flush or until somebody asks.
	uint64_t myLazyLives = 0;
	// Receives requested by the other threads. The ones done before the last callback of a
	// life have nothing to do with the next life.
	uint64_t myExtAsksBegun = 0;
	uint64_t myExtAsksDone = 0;
	uint64_t myExtAsksSure = 0;
	uint64_t myExtAsksBase = 0;
	std::vector<Act> myActs[CB_KIND_COUNT];
	size_t myActPos[CB_KIND_COUNT] = {};
	// Called in OnClose() in the end, the endpoint must not be touched after it.
	std::function<void(Ep*)> myOnClosed;
	std::function<void(Ep*)> myOnConnected;
	std::function<void()> myOnEventOnce;
	std::function<void(Ep*)> myOnMsg;

	Life myLife;
	void* myPlan = nullptr;
	uint64_t myInAtStart = 0;
	int myLifeNo = 0;
	bool myIsPosted = false;
	// The post is complete.
	bool myIsInside = false;
	int myClosings = 0;
	int myShutdowns = 0;
	int myRunning = 0;
	bool myIsDeleted = false;
	uint64_t myWakeSeq = 0;
	uint64_t myEventSeq = 0;
	uint64_t myDeadline = sim::theInfinite;
	int myEvents = 0;

	~Ep() override = default;

	uint32_t NextRecvSize()
	{
		sim::Quiet q;
		if (myRecvSizes.empty())
			return 4096;
		return myRecvSizes[myRecvPos++ % myRecvSizes.size()];
	}

	// In a callback.
	void AskRecv()
	{
		uint32_t size = NextRecvSize();
		{
			sim::Quiet q;
			++myLife.myOwnAsks;
		}
		if (size % 3 == 0)
			mySock->PostRecv(size);
		else
			mySock->Recv(size);
	}

	// Any thread.
	void AskRecvExt(uint32_t size)
	{
		{
			sim::Quiet q;
			++myExtAsksBegun;
		}
		mySock->PostRecv(size);
		sim::Quiet q;
		++myExtAsksDone;
	}

	// Any thread. Sources are used by one thread each, 0 is for the worker.
	void Send(int src, const SendOp& op)
	{
		std::string* data;
		{
			sim::Quiet q;
			myArena.emplace_back(new std::string(myOut.Make(src, op.myPayload)));
			data = myArena.back().get();
			myTotalSent += data->size();
			if (myIsSecret)
				mySecrets.push_back(data);
		}
		using namespace mg::net;
		uint64_t size = data->size();
		bool isWorker = src == 0 && size % 4 != 0;
		switch (op.myForm)
		{
		case 0:
			if (isWorker)
				mySock->SendCopy(data->data(), size);
			else
				mySock->PostSendCopy(data->data(), size);
			break;
		case 1:
			if (isWorker)
				mySock->SendRef(data->data(), size);
			else
				mySock->PostSendRef(data->data(), size);
			break;
		case 2:
		{
			Buffer::Ptr b = BuffersCopy(data->data(), size);
			if (isWorker)
				mySock->SendRef(std::move(b));
			else
				mySock->PostSendRef(std::move(b));
			break;
		}
		case 3:
		{
			// A chain with an empty buffer inside.
			uint64_t half = size / 2;
			Buffer::Ptr b = BuffersCopy(data->data(), half);
			if (!b.IsSet())
				b = BufferCopy::NewShared();
			Buffer* tail = b.GetPointer();
			while (tail->myNext.IsSet())
				tail = tail->myNext.GetPointer();
			tail = (tail->myNext = BufferCopy::NewShared()).GetPointer();
			tail->myNext = BuffersRef(data->data() + half, size - half);
			if (isWorker)
				mySock->SendRef(b.GetPointer());
			else
				mySock->PostSendRef(b.GetPointer());
			break;
		}
		case 4:
		{
			Buffer::Ptr b = BuffersRef(data->data(), size);
			if (isWorker)
				mySock->SendCopy(b.GetPointer());
			else
				mySock->PostSendCopy(b.GetPointer());
			break;
		}
		case 5:
		{
			BufferLink* link = new BufferLink(BuffersCopy(data->data(), size));
			if (isWorker)
				mySock->SendMove(link);
			else
				mySock->PostSendMove(link);
			break;
		}
		case 6:
		{
			// Several links, an empty one among them.
			uint64_t third = size / 3;
			BufferLink* l1 = new BufferLink(BuffersCopy(data->data(), third));
			BufferLink* l2 = new BufferLink();
			BufferLink* l3 = new BufferLink(BuffersRef(data->data() + third, size - third));
			l1->myNext = l2;
			l2->myNext = l3;
			l3->myNext = nullptr;
			if (isWorker)
				mySock->SendMove(l1);
			else
				mySock->PostSendMove(l1);
			break;
		}
		default:
		{
			BufferLink l1(BuffersRef(data->data(), size / 2));
			BufferLink l2(BuffersCopy(data->data() + size / 2, size - size / 2));
			l1.myNext = &l2;
			l2.myNext = nullptr;
			// Nothing at all.
			if (isWorker)
				mySock->SendCopy(data->data(), 0);
			else
				mySock->PostSendCopy(data->data(), 0);
			if (isWorker)
				mySock->SendCopy(&l1);
			else
				mySock->PostSendCopy(&l1);
			l1.myNext = nullptr;
			break;
		}
		}
	}

	void Wakeup()
	{
		int no;
		bool wasInside;
		uint64_t seq;
		{
			sim::Quiet q;
			seq = ++theEg->mySeq;
			no = myLifeNo;
			wasInside = myIsInside;
		}
		mySock->PostWakeup();
		sim::Quiet q;
		// Could be done between the lives otherwise.
		if (no == myLifeNo && wasInside)
			myWakeSeq = std::max(myWakeSeq, seq);
	}

	// The socket must not be deleted when somebody uses it.
	bool SetDeleted()
	{
		sim::Quiet q;
		myIsDeleted = myClosings == 0;
		return myIsDeleted;
	}

	void Close()
	{
		int no;
		bool wasInside;
		{
			sim::Quiet q;
			if (myIsDeleted)
				return;
			myLife.myIsCloseReq = true;
			++myClosings;
			no = myLifeNo;
			wasInside = myIsInside;
		}
		mySock->PostClose();
		sim::Quiet q;
		--myClosings;
		if (no == myLifeNo && wasInside)
			myLife.myIsCloseMust = true;
	}

	void Shutdown()
	{
		int no;
		bool wasInside;
		{
			sim::Quiet q;
			myLife.myIsShutdownReq = true;
			++myShutdowns;
			no = myLifeNo;
			wasInside = myIsInside && myLife.myIsConnectAsked;
		}
		mySock->PostShutdown();
		sim::Quiet q;
		--myShutdowns;
		if (no == myLifeNo && wasInside)
			myLife.myIsShutdownMust = true;
	}

	// In the worker only.
	void SendSelf(size_t count)
	{
		while (count-- > 0)
		{
			SendOp op;
			{
				sim::Quiet q;
				if (mySelfSendPos >= mySelfSends.size() || myLife.myIsClosed || myIsHold)
					return;
				op = mySelfSends[mySelfSendPos++];
			}
			Send(0, op);
		}
	}

	void DoActs(int cb)
	{
		Act a;
		{
			sim::Quiet q;
			if (myActPos[cb] >= myActs[cb].size())
				return;
			a = myActs[cb][myActPos[cb]++];
		}
		switch (a.myKind)
		{
		case ACT_NONE:
		case ACT_PAUSE:
			break;
		case ACT_SEND:
			SendSelf(1 + a.myArg % 4);
			break;
		case ACT_RECV:
			AskRecv();
			break;
		case ACT_CLOSE:
			Close();
			break;
		case ACT_SHUTDOWN:
			Shutdown();
			break;
		case ACT_WAKEUP:
			Wakeup();
			break;
		case ACT_WAKEUP_OTHER:
		{
			Ep* e = theEg->myEps[a.myArg % theEg->myEps.size()];
			if (!e->myIsDeleted)
				e->Wakeup();
			break;
		}
		case ACT_DEADLINE:
		{
			// The connecting uses the deadline on its own.
			if (!myLife.myIsConnected)
				break;
			uint64_t d = mg::box::GetMilliseconds() + a.myArg;
			mySock->SetDeadline(d);
			sim::Quiet q;
			myDeadline = d;
			break;
		}
		case ACT_RESCHEDULE:
			if (myLife.myIsConnected)
				mySock->Reschedule();
			break;
		case ACT_POINTS:
			for (uint64_t i = 0; i < a.myArg % 8; ++i)
				sim::Point();
			break;
		}
	}

	bool HasPauseNext()
	{
		sim::Quiet q;
		return !myIsHold && myActPos[CB_RECV] < myActs[CB_RECV].size() &&
			myActs[CB_RECV][myActPos[CB_RECV]].myKind == ACT_PAUSE;
	}

	void Enter(const char* what)
	{
		sim::Quiet q;
		if (myRunning++ != 0)
			pbt::Fail("sock_parallel", "endpoint %d: %s is called inside another callback", myId, what);
		int n = 0;
		for (Ep* e : theEg->myEps)
			n += e->myRunning;
		theEg->myParallelMax = std::max(theEg->myParallelMax, n);
		if (strcmp(what, "OnClose") != 0)
			myExtAsksSure = myExtAsksDone;
		if (!myIsPosted || myLife.myIsClosed)
			pbt::Fail("sock_after_close", "endpoint %d: %s is called on a closed socket", myId, what);
		if (myLife.myPendingErr != nullptr && strcmp(what, "OnError") != 0)
			pbt::Fail("sock_error_order", "endpoint %d: %s is called instead of OnError", myId, what);
	}

	void Leave()
	{
		sim::Quiet q;
		--myRunning;
	}

	void OnEvent() override
	{
		Enter("OnEvent");
		{
			sim::Quiet q;
			myEventSeq = ++theEg->mySeq;
			myDeadline = sim::theInfinite;
			++myEvents;
		}
		if (!mySock->IsInWorkerNow())
			pbt::Fail("sock_worker", "endpoint %d: is not in the worker", myId);
		std::function<void()> f;
		{
			sim::Quiet q;
			f = std::move(myOnEventOnce);
			myOnEventOnce = {};
		}
		if (f)
			f();
		{
			sim::Quiet q;
			f = {};
		}
		DoActs(CB_EVENT);
		if (theEg->myIsFlush)
			SendSelf(1000);
		Leave();
	}

	void OnConnect() override
	{
		Enter("OnConnect");
		{
			sim::Quiet q;
			if (!myLife.myHasConnectReq)
				pbt::Fail("sock_connect", "endpoint %d: it was not asked to connect", myId);
			if (myLife.myIsConnected || myLife.myIsConnectFailed || myLife.myIsErrored)
			{
				pbt::Fail("sock_connect", "endpoint %d: excess OnConnect: connected %d, failed %d, error %d",
					myId, (int)myLife.myIsConnected, (int)myLife.myIsConnectFailed,
					(int)myLife.myIsErrored);
			}
			myLife.myIsConnected = true;
			myLife.myConnectEndMs = sim::NowMs();
		}
		bool isConnected = mySock->IsConnected();
		if (!isConnected && !myLife.myIsCloseReq)
			pbt::Fail("sock_connect", "endpoint %d: is not connected in OnConnect", myId);
		bool isLazy;
		{
			sim::Quiet q;
			isLazy = ((myLazyLives >> (myLifeNo % 64)) & 1) != 0 && !theEg->myIsFlush && !myIsHold;
			if (isLazy)
				myIsPaused = true;
		}
		if (myIsAutoRecv && !isLazy)
			AskRecv();
		DoActs(CB_CONNECT);
		if (myOnConnected)
			myOnConnected(this);
		Leave();
	}

	void OnConnectError(mg::box::Error* e) override
	{
		Enter("OnConnectError");
		sim::Quiet q;
		if (!myLife.myHasConnectReq || myLife.myIsConnected || myLife.myIsConnectFailed ||
			myLife.myIsErrored)
			pbt::Fail("sock_connect", "endpoint %d: excess OnConnectError", myId);
		if (e == nullptr || e->myCode == mg::box::ERR_BOX_NONE)
			pbt::Fail("sock_error", "endpoint %d: OnConnectError without an error", myId);
		myLife.myIsConnectFailed = true;
		myLife.myPendingErr = e;
		myLife.myConnectEndMs = sim::NowMs();
		--myRunning;
	}

	void OnRecv(mg::net::BufferReadStream& s) override
	{
		Enter("OnRecv");
		if (!myLife.myIsConnected)
			pbt::Fail("sock_recv", "endpoint %d: receiving before connection", myId);
		uint64_t size = s.GetReadSize();
		std::string content;
		{
			sim::Quiet q;
			content.resize(size);
		}
		s.PeekData(&content[0], size);
		uint64_t toRead;
		int mode;
		{
			sim::Quiet q;
			if (++myLife.myRecvs > myLife.myOwnAsks + myExtAsksBegun - myExtAsksBase && !myIsSSL)
				pbt::Fail("sock_recv", "endpoint %d: received without a request", myId);
			if (size < myLeftover)
				pbt::Fail("sock_recv", "endpoint %d: not consumed data is lost", myId);
			uint64_t was = myIn.myTotal;
			if (!myIn.Feed((const uint8_t*)&content[myLeftover], size - myLeftover))
				pbt::Fail("sock_data", "endpoint %d: wrong byte at %llu", myId, (unsigned long long)myIn.myTotal);
			if (myIn.myTotal == was && !myIsSSL)
				pbt::Fail("sock_recv", "endpoint %d: nothing new is received", myId);
			mode = myReadModes.empty() ? 0 : myReadModes[myReadPos++ % myReadModes.size()];
			toRead = size;
			if (mode >= 2)
				toRead = size * (mode % 5) / 5;
			myLeftover = size - toRead;
		}
		if (mode % 2 == 0)
		{
			s.SkipData(toRead);
		}
		else
		{
			std::string buf;
			{
				sim::Quiet q;
				buf.resize(toRead);
			}
			s.ReadData(&buf[0], toRead);
			sim::Quiet q;
			if (memcmp(buf.data(), content.data(), toRead) != 0)
				pbt::Fail("sock_data", "endpoint %d: peek and read give different data", myId);
			buf = {};
		}
		{
			sim::Quiet q;
			content = {};
		}
		if (HasPauseNext() && !theEg->myIsFlush)
		{
			sim::Quiet q;
			myIsPaused = true;
		}
		else if (myIsAutoRecv)
		{
			AskRecv();
		}
		DoActs(CB_RECV);
		if (myOnMsg)
			myOnMsg(this);
		Leave();
	}

	void OnSend(uint32_t bytes) override
	{
		Enter("OnSend");
		if (!myLife.myIsConnected)
			pbt::Fail("sock_send", "endpoint %d: sending before connection", myId);
		{
			sim::Quiet q;
			myReportedSent += bytes;
			if (bytes == 0 || myReportedSent > myTotalSent)
			{
				pbt::Fail("sock_send", "endpoint %d: reported %llu of %llu as sent, last %u", myId,
					(unsigned long long)myReportedSent, (unsigned long long)myTotalSent, bytes);
			}
		}
		DoActs(CB_SEND);
		Leave();
	}

	void OnIoError(const char* what, mg::box::Error* e)
	{
		Enter(what);
		sim::Quiet q;
		if (e == nullptr || e->myCode == mg::box::ERR_BOX_NONE)
			pbt::Fail("sock_error", "endpoint %d: %s without an error", myId, what);
		if (myLife.myIsErrored)
			pbt::Fail("sock_error", "endpoint %d: %s after another error", myId, what);
		if (!myLife.myIsConnected && !myIsSSL)
			pbt::Fail("sock_error", "endpoint %d: %s before connection", myId, what);
		myLife.myPendingErr = e;
		--myRunning;
	}

	void OnRecvError(mg::box::Error* e) override { OnIoError("OnRecvError", e); }
	void OnSendError(mg::box::Error* e) override { OnIoError("OnSendError", e); }

	void OnError(mg::box::Error* e) override
	{
		Enter("OnError");
		sim::Quiet q;
		if (myLife.myIsErrored)
			pbt::Fail("sock_error", "endpoint %d: the second error", myId);
		if (e == nullptr || (myLife.myPendingErr != nullptr && myLife.myPendingErr != e))
			pbt::Fail("sock_error", "endpoint %d: OnError with another error", myId);
		myLife.myPendingErr = nullptr;
		myLife.myIsErrored = true;
		myLife.myErrCode = e->myCode;
		// A plain socket has nothing to fail between the two.
		if (!myLife.myIsConnected && !myLife.myIsConnectFailed && !myIsSSL)
			pbt::Fail("sock_connect_error", "endpoint %d: connection has failed, but OnConnectError is not called: %s", myId, e->myMessage.c_str());
		if (!myLife.myIsErrorPossible && !myLife.myIsShutdownReq)
			pbt::Fail("sock_error", "endpoint %d: error from nowhere: %s", myId, e->myMessage.c_str());
		--myRunning;
	}

	void OnClose() override
	{
		Enter("OnClose");
		bool isClosed = mySock->IsClosed();
		bool isConnected = mySock->IsConnected();
		if (myLifeNo % 2 == 0)
		{
			// Goes nowhere. Especially not to the next life.
			mySock->SendRef("??", 2);
			mySock->PostSendCopy("???", 3);
		}
		std::function<void(Ep*)> f;
		{
			sim::Quiet q;
			if (!isClosed || isConnected)
				pbt::Fail("sock_close", "endpoint %d: is not closed in OnClose", myId);
			if (!myLife.myIsCloseReq && !myLife.myIsErrored && !myLife.myIsPeerEnd &&
				!myLife.myIsShutdownReq)
				pbt::Fail("sock_close", "endpoint %d: closed without a reason", myId);
			myLife.myIsClosed = true;
			myExtAsksBase = myExtAsksSure;
			myIsInside = false;
			myLeftover = 0;
			--myRunning;
			f = myOnClosed;
		}
		if (f)
			f(this);
		sim::Quiet q;
		f = {};
	}

	// Before a new post.
	int NewLife(bool hasConnect)
	{
		sim::Quiet q;
		myLife = Life();
		myLife.myHasConnectReq = hasConnect;
		myLife.myIsCloseReq = myClosings > 0;
		myLife.myIsShutdownReq = myShutdowns > 0;
		++myLifeNo;
		myWakeSeq = 0;
		myIsPosted = true;
		myIsInside = false;
		myDeadline = sim::theInfinite;
		myIsPaused = false;
		myIn.Restart();
		myInAtStart = myIn.myTotal;
		myOnEventOnce = {};
		return myLifeNo;
	}

	void EndPost(int no, bool isConnectAsked = true)
	{
		sim::Quiet q;
		// Can be already over.
		if (no != myLifeNo || myLife.myIsClosed)
			return;
		myIsInside = true;
		if (isConnectAsked)
			myLife.myIsConnectAsked = true;
	}

	// When everything is calm.
	void CheckIdle(const char* stage)
	{
		sim::Quiet q;
		if (!myIsPosted || myLife.myIsClosed)
			return;
		if (myWakeSeq > myEventSeq)
			pbt::Fail("sock_wakeup", "%s: endpoint %d has lost a wakeup", stage, myId);
		if (myDeadline != sim::theInfinite && myDeadline + 1000 < sim::NowMs())
			pbt::Fail("sock_deadline", "%s: endpoint %d has lost a deadline", stage, myId);
		if (myLife.myIsCloseMust || myLife.myIsErrored)
			pbt::Fail("sock_close_lost", "%s: endpoint %d is not closed", stage, myId);
	}
};

// The other side made of raw calls.
enum RawEnd
{
	// Wait for the end from the other side.
	RAW_END_NONE,
	// End of the stream when all is sent.
	RAW_END_FIN,
	// Close when all is sent, not reading anything.
	RAW_END_CLOSE,
	// Break the connection when all is sent.
	RAW_END_KILL,
};

struct RawPeer
{
	int myFd = -1;
	uint32_t myId = 0;
	Framer myOut;
	Parser myIn;
	std::vector<uint32_t> mySends;
	std::vector<uint32_t> myPauses;
	std::vector<uint32_t> myRecvs;
	int myEnd = RAW_END_NONE;
	int myKillErr = ECONNRESET;
	uint64_t myEndPauseMs = 0;
	uint64_t myTotalSent = 0;
	bool myIsSendDone = false;
	bool myIsEof = false;
	bool myIsBroken = false;
	bool myIsEnding = false;
	std::function<void()> myOnEnding;
	std::thread mySender;
	std::thread myReader;

	void Gen(pbt::Gen& g, int maxMsgs)
	{
		for (int i = 0, n = (int)g.Below(maxMsgs + 1); i < n; ++i)
		{
			mySends.push_back(GenPayload(g));
			myPauses.push_back(g.Chance(1, 4) ? (uint32_t)g.Below(30) : 0);
		}
		if (g.Chance(1, 3))
		{
			for (int i = 0, n = 1 + (int)g.Below(3); i < n; ++i)
				myRecvs.push_back(1 + (uint32_t)g.Below(5000));
		}
	}

	void Start(int fd)
	{
		myFd = fd;
		mySender = std::thread([this]() { SendMain(); });
		if (myEnd != RAW_END_CLOSE)
			myReader = std::thread([this]() { RecvMain(); });
	}

	// The sender is the current thread.
	void RunHere(int fd)
	{
		myFd = fd;
		if (myEnd != RAW_END_CLOSE)
			myReader = std::thread([this]() { RecvMain(); });
		SendMain();
	}

	void SendAll()
	{
		for (size_t i = 0; i < mySends.size(); ++i)
		{
			if (i < myPauses.size() && myPauses[i] != 0)
				sim::SleepMs(myPauses[i]);
			std::string data;
			{
				sim::Quiet q;
				data = myOut.Make(1, mySends[i]);
			}
			size_t pos = 0;
			while (pos < data.size())
			{
				ssize_t rc = send(myFd, data.data() + pos, data.size() - pos, MSG_NOSIGNAL);
				sim::Quiet q;
				if (rc <= 0)
				{
					myIsBroken = true;
					data = {};
					return;
				}
				pos += (size_t)rc;
				myTotalSent += (uint64_t)rc;
			}
			sim::Quiet q;
			data = {};
		}
		sim::Quiet q;
		myIsSendDone = true;
	}

	void SendMain()
	{
		SendAll();
		if (myEnd == RAW_END_NONE)
			return;
		if (myEndPauseMs != 0)
			sim::SleepMs(myEndPauseMs);
		{
			sim::Quiet q;
			myIsEnding = true;
			if (myOnEnding)
				myOnEnding();
		}
		if (myEnd == RAW_END_FIN)
			shutdown(myFd, SHUT_WR);
		else if (myEnd == RAW_END_KILL)
			simnet::Kill(myFd, myKillErr);
		else
			Finish();
	}

	void RecvMain()
	{
		std::vector<uint8_t> buf(20000);
		size_t i = 0;
		while (true)
		{
			size_t size = myRecvs.empty() ? buf.size() : myRecvs[i++ % myRecvs.size()];
			ssize_t rc = recv(myFd, buf.data(), size, 0);
			sim::Quiet q;
			if (rc <= 0)
			{
				if (rc == 0)
					myIsEof = true;
				else
					myIsBroken = true;
				break;
			}
			if (!myIn.Feed(buf.data(), (uint64_t)rc))
				pbt::Fail("sock_data", "peer %u: wrong byte at %llu", myId, (unsigned long long)myIn.myTotal);
		}
	}

	void Finish()
	{
		if (myFd < 0)
			return;
		int fd = myFd;
		myFd = -1;
		close(fd);
	}

	void Join()
	{
		if (mySender.joinable())
			mySender.join();
		if (myReader.joinable())
			myReader.join();
		Finish();
	}
};

static inline void
GenEpReads(pbt::Gen& g, Ep& e)
{
	for (int i = 0, n = 1 + (int)g.Below(4); i < n; ++i)
		e.myRecvSizes.push_back(g.Chance(1, 4) ? 1 + (uint32_t)g.Below(20) : 1 + (uint32_t)g.Below(9000));
	for (int i = 0, n = (int)g.Below(4); i < n; ++i)
		e.myReadModes.push_back((int)g.Below(10));
	if (g.Chance(1, 2))
		e.myLazyLives = g.Any();
}

static inline const char*
ActName(int kind)
{
	static const char* const names[] = {"none", "send", "recv", "pause", "close", "shutdown", "wakeup",
		"wakeup_other", "deadline", "reschedule", "points"};
	return names[kind];
}

static inline const char*
CbName(int kind)
{
	static const char* const names[] = {"OnConnect", "OnRecv", "OnSend", "OnEvent"};
	return names[kind];
}
