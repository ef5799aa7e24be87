// Asynchronous TLS sockets on a simulated network.

#include "sockep.h"

#include "certs.h"

#include "mg/aio/SSLSocket.h"
#include "mg/net/SSL.h"
#include "mg/net/SSLContext.h"

#include <openssl/rand.h>
#include <openssl/ssl.h>

using namespace pbt;
using mg::aio::SSLSocket;
using mg::aio::SSLSocketParams;
using mg::net::SSLContext;

namespace {

	//////////////////////////////////////////////////////////////////////////////////////
	// Deterministic randomness of OpenSSL.

	uint64_t theRandState = 1;

	int
	RandBytes(unsigned char* out, int size)
	{
		sim::Quiet q;
		for (int i = 0; i < size; ++i)
		{
			theRandState = theRandState * 6364136223846793005ULL + 1442695040888963407ULL;
			out[i] = (unsigned char)(theRandState >> 33);
		}
		return 1;
	}

	int
	RandStatus()
	{
		return 1;
	}

	struct SSLInit
	{
		// Before any cases.
		SSLInit()
		{
			static RAND_METHOD method;
			memset(&method, 0, sizeof(method));
			method.bytes = &RandBytes;
			method.pseudorand = &RandBytes;
			method.status = &RandStatus;
			OPENSSL_init_ssl(0, nullptr);
			RAND_set_rand_method(&method);
			SSL_CTX* ctx = SSL_CTX_new(TLS_method());
			SSL_CTX_free(ctx);
		}
	};
	SSLInit theSSLInit;

	//////////////////////////////////////////////////////////////////////////////////////

	struct ExtOp
	{
		int myKind;
		uint64_t myArg;
		SendOp mySend;
	};

	enum ExtKind
	{
		EXT_SEND,
		EXT_SLEEP,
		EXT_POINTS,
		EXT_WAKEUP,
		EXT_RECV,
		EXT_CLOSE,
		EXT_SHUTDOWN,
		EXT_CHECK,
	};

	struct Ext
	{
		int myEp;
		int mySrc;
		std::vector<ExtOp> myOps;
	};

	const char*
	ExtName(int kind)
	{
		static const char* const names[] = {"send", "sleep", "points", "wakeup", "recv", "close", "shutdown",
			"check"};
		return names[kind];
	}

	void
	RunExt(Ep& e, Ext& x)
	{
		for (ExtOp& op : x.myOps)
		{
			switch (op.myKind)
			{
			case EXT_SEND:
				e.Send(x.mySrc, op.mySend);
				break;
			case EXT_SLEEP:
				sim::SleepMs(op.myArg);
				break;
			case EXT_POINTS:
				for (uint64_t i = 0; i < op.myArg; ++i)
					sim::Point();
				break;
			case EXT_WAKEUP:
				e.Wakeup();
				break;
			case EXT_RECV:
				e.AskRecvExt(1 + op.myArg);
				break;
			case EXT_CLOSE:
				e.Close();
				break;
			case EXT_SHUTDOWN:
				e.Shutdown();
				break;
			case EXT_CHECK:
				e.mySock->IsClosed();
				e.mySock->IsConnected();
				if (e.mySock->IsInWorkerNow())
					Fail("sock_worker", "a foreign thread is told to be a worker");
				break;
			}
		}
	}

	void
	GenActs(Gen& g, Ep& e, std::initializer_list<uint32_t> weights, int maxCount)
	{
		for (int cb = 0; cb < CB_KIND_COUNT; ++cb)
		{
			for (int i = 0, n = (int)g.Below(maxCount + 1); i < n; ++i)
			{
				Act a;
				a.myKind = (int)g.Weighted(weights);
				a.myArg = g.Below(a.myKind == ACT_DEADLINE ? 300 : 100);
				e.myActs[cb].push_back(a);
				if (i == 0)
					Describe("    %s:", CbName(cb));
				Describe(" %s(%llu)", ActName(a.myKind), (unsigned long long)a.myArg);
			}
			if (!e.myActs[cb].empty())
				Describe("\n");
		}
		for (int i = 0, n = (int)g.Below(5); i < n; ++i)
			e.mySelfSends.push_back(GenSendOp(g));
	}

	void
	GenExts(Gen& g, std::vector<Ext>& exts, int epId, int count, std::initializer_list<uint32_t> weights, int maxOps)
	{
		for (int s = 1; s <= count; ++s)
		{
			Ext x;
			x.myEp = epId;
			x.mySrc = s;
			Describe("    source %d:", s);
			for (int k = 0, m = 1 + (int)g.Below(maxOps); k < m; ++k)
			{
				ExtOp op;
				op.myKind = (int)g.Weighted(weights);
				op.myArg = g.Below(op.myKind == EXT_SLEEP ? 40 : 12);
				op.mySend = GenSendOp(g);
				Describe(" %s(%llu,%u,%d)", ExtName(op.myKind), (unsigned long long)op.myArg,
					op.mySend.myPayload, op.mySend.myForm);
				x.myOps.push_back(op);
			}
			Describe("\n");
			exts.push_back(x);
		}
	}

	void
	RawPair(int& outA, int& outB)
	{
		uint16_t port = 0;
		int listener = RawListen(port);
		outA = RawConnect(port);
		outB = RawAccept(listener);
		if (outA < 0 || outB < 0)
			Fail("harness", "can't connect");
		close(listener);
	}

	struct World
	{
		EpGlobal myEg;
		LooseSt myLoose;
		std::vector<std::unique_ptr<Ep>> myEps;

		World()
		{
			theEg = &myEg;
			theLoose = &myLoose;
			theRandState = 1;
		}

		Ep& AddEp()
		{
			sim::Quiet q;
			myEps.emplace_back(new Ep());
			Ep* e = myEps.back().get();
			e->myId = (int)myEps.size() - 1;
			e->myIsSSL = true;
			myEg.myEps.push_back(e);
			return *e;
		}

		void Calm(const char* stage)
		{
			sim::WaitIdle(sim::NowNs() + 90000000000ull);
			for (auto& e : myEps)
				e->CheckIdle(stage);
		}

		void CloseAll(IOCore& core)
		{
			for (auto& e : myEps)
			{
				if (!e->myIsDeleted && e->myIsPosted)
					e->Close();
			}
			if (core.WaitEmpty(mg::box::TimeDuration(60000)) != 0)
				Fail("sock_close_hang", "not all the sockets are closed:\n%s", simnet::Dump().c_str());
			for (auto& e : myEps)
			{
				sim::Quiet q;
				if (e->myIsPosted && !e->myLife.myIsClosed)
					Fail("sock_close_lost", "endpoint %d is not closed", e->myId);
			}
		}
	};

	//////////////////////////////////////////////////////////////////////////////////////
	// Contexts.

	enum Verify
	{
		VERIFY_NONE,
		VERIFY_GOOD,
		// The peer is not trusted.
		VERIFY_BAD,
	};

	struct CtxPlan
	{
		// 0 - 1.2, 1 - 1.3, 2 - any.
		int myVersion = 2;
		int myVerify = VERIFY_NONE;
		bool myIsMutual = false;
		bool myIsBadServer = false;
		SSLContext::Ptr myClient;
		SSLContext::Ptr myServer;

		void Gen(pbt::Gen& g, bool canFail)
		{
			myVersion = (int)g.Below(3);
			myVerify = (int)g.Weighted({4, 2, canFail ? 2u : 0u});
			myIsMutual = g.Chance(1, 4);
			Describe("  TLS version %d, verify %d, mutual %d\n", myVersion, myVerify, (int)myIsMutual);
		}

		void Make()
		{
			for (int i = 0; i < 2; ++i)
			{
				SSLContext::Ptr ctx = SSLContext::NewShared(i == 1);
				bool isOk = true;
				if (i == 1 || myIsMutual)
				{
					isOk = isOk && (i == 1 ?
						ctx->AddLocalCert(certs::theCert1, sizeof(certs::theCert1), certs::theKey1, sizeof(certs::theKey1)) :
						ctx->AddLocalCert(certs::theCert2, sizeof(certs::theCert2), certs::theKey2, sizeof(certs::theKey2)));
				}
				if (i == 0)
				{
					isOk = isOk && ctx->SetTrust(myVerify == VERIFY_NONE ?
						mg::net::SSL_TRUST_BYPASS_VERIFICATION : mg::net::SSL_TRUST_STRICT);
					if (myVerify == VERIFY_GOOD)
						isOk = isOk && ctx->AddRemoteCert(certs::theCert1, sizeof(certs::theCert1));
					if (myVerify == VERIFY_BAD)
						isOk = isOk && ctx->AddRemoteCert(certs::theCert2, sizeof(certs::theCert2));
				}
				else
				{
					isOk = isOk && ctx->SetTrust(mg::net::SSL_TRUST_BYPASS_VERIFICATION);
				}
				if (myVersion == 0)
					isOk = isOk && ctx->SetMaxVersion(mg::net::SSL_VERSION_TLSv1_2);
				if (myVersion == 1)
					isOk = isOk && ctx->SetMinVersion(mg::net::SSL_VERSION_TLSv1_3);
				if (!isOk)
					Fail("harness", "can't create a context");
				(i == 0 ? myClient : myServer) = std::move(ctx);
			}
		}

		SSLContext* Get(bool isServer)
		{
			return isServer ? myServer.GetPointer() : myClient.GetPointer();
		}
	};

	//////////////////////////////////////////////////////////////////////////////////////
	// A man in the middle.

	enum Tamper
	{
		TAMPER_NONE,
		TAMPER_FLIP,
		TAMPER_DROP,
		TAMPER_INSERT,
		TAMPER_FIN,
		TAMPER_KILL,
		TAMPER_COUNT,
	};

	const char*
	TamperName(int t)
	{
		static const char* const names[] = {"none", "flip", "drop", "insert", "fin", "kill"};
		return names[t];
	}

	struct Relay
	{
		// 0 - the way from A to B.
		struct Way
		{
			Relay* myRelay = nullptr;
			int myFrom = -1;
			int myTo = -1;
			std::string myData;
			uint32_t myChunk = 20000;
			uint64_t myPause = 0;
			// Position of the tampering. Or a number of a record of the given type and a position
			// in it.
			int myTamper = TAMPER_NONE;
			uint64_t myPos = 0;
			int myRecType = 0;
			uint64_t myRecNo = 0;
			uint8_t myMask = 1;
			uint8_t myMaskNow = 0;
			bool myIsDone = false;
			bool myIsStopped = false;
			bool myIsEnd = false;
			// The records.
			uint64_t myRecs[256] = {};
			int myHeadSize = 0;
			uint8_t myHead[5];
			uint64_t myLeft = 0;
			uint64_t myBody = 0;
			uint64_t myTotal = 0;
			// The beginning which is not encrypted.
			uint64_t myPlainSize = 0;
			std::thread myThread;
			std::function<void()> myOnEnding;

			bool IsHere(uint8_t)
			{
				if (myTamper == TAMPER_NONE || myIsDone)
					return false;
				if (myRecType == 0)
					return myTotal == myPos;
				return myHeadSize == 5 && myHead[0] == myRecType && myRecs[myRecType] == myRecNo + 1 &&
					(myBody == myPos || myLeft == 1);
			}

			void Track(uint8_t b)
			{
				++myTotal;
				if (myHeadSize == 5)
				{
					++myBody;
					if (--myLeft == 0)
						myHeadSize = 0;
					return;
				}
				myHead[myHeadSize++] = b;
				if (myHeadSize < 5)
					return;
				myLeft = (uint64_t)myHead[3] << 8 | myHead[4];
				myBody = 0;
				++myRecs[myHead[0]];
				if (myLeft == 0)
					myHeadSize = 0;
			}

			void Run()
			{
				std::vector<uint8_t> buf(myChunk);
				std::string out;
				while (true)
				{
					ssize_t rc = recv(myFrom, buf.data(), buf.size(), 0);
					if (rc <= 0)
						break;
					bool isEnd = false;
					int how = 0;
					{
						sim::Quiet q;
						out.clear();
						for (ssize_t i = 0; i < rc && !isEnd; ++i)
						{
							uint8_t b = buf[i];
							if (myData.size() < myPlainSize)
							{
								myData.push_back((char)b);
								out.push_back((char)b);
								continue;
							}
							bool isHere = IsHere(b);
							Track(b);
							myData.push_back((char)b);
							if (!isHere)
							{
								out.push_back((char)b);
								continue;
							}
							myIsDone = true;
							how = myTamper;
							myRelay->myIsDone = true;
							if (myOnEnding)
								myOnEnding();
							switch (myTamper)
							{
							case TAMPER_FLIP:
								out.push_back((char)(b ^ myMask));
								break;
							case TAMPER_DROP:
								break;
							case TAMPER_INSERT:
								out.push_back((char)b);
								out.push_back((char)myMask);
								break;
							default:
								isEnd = true;
								break;
							}
						}
					}
					size_t pos = 0;
					while (pos < out.size())
					{
						ssize_t n = send(myTo, out.data() + pos, out.size() - pos, MSG_NOSIGNAL);
						if (n <= 0)
							break;
						pos += (size_t)n;
					}
					if (pos < out.size())
						break;
					if (isEnd)
					{
						if (how == TAMPER_KILL)
						{
							simnet::Kill(myTo, ECONNRESET);
							simnet::Kill(myFrom, ECONNRESET);
						}
						else
						{
							shutdown(myTo, SHUT_WR);
						}
						// Consume the rest.
						while (recv(myFrom, buf.data(), buf.size(), 0) > 0)
							;
						break;
					}
					if (myPause != 0)
						sim::SleepMs(myPause);
				}
				{
					sim::Quiet q;
					myIsEnd = true;
					out = {};
				}
				shutdown(myTo, SHUT_WR);
				// Sends to the closed side are noticed by the sender this way.
				shutdown(myFrom, SHUT_RD);
				sim::Quiet q;
				buf = {};
			}
		};

		Way myWays[2];
		int myFds[2] = {-1, -1};
		bool myIsUsed = false;
		bool myIsDone = false;

		void Start(int a, int b)
		{
			myIsUsed = true;
			myFds[0] = a;
			myFds[1] = b;
			for (int i = 0; i < 2; ++i)
			{
				Way& w = myWays[i];
				w.myRelay = this;
				w.myFrom = myFds[i];
				w.myTo = myFds[1 - i];
				w.myThread = std::thread([&w]() { w.Run(); });
			}
		}

		void Finish()
		{
			if (!myIsUsed)
				return;
			for (Way& w : myWays)
				w.myThread.join();
			close(myFds[0]);
			close(myFds[1]);
		}

		void CheckSecrets(const Ep& a, const Ep& b)
		{
			if (!myIsUsed)
				return;
			sim::Quiet q;
			for (int i = 0; i < 2; ++i)
			{
				const std::string& data = myWays[i].myData;
				const Ep& e = i == 0 ? a : b;
				int left = 10;
				for (const std::string* s : e.mySecrets)
				{
					if (s->size() < 24 || left-- == 0)
						continue;
					if (memmem(data.data(), data.size(), s->data() + s->size() - 20, 20) != nullptr)
						Fail("ssl_leak", "endpoint %d: data is sent in the clear", e.myId);
				}
			}
		}
	};

	//////////////////////////////////////////////////////////////////////////////////////

	enum Enc
	{
		ENC_START,
		ENC_PLAIN,
		// Turned on later.
		ENC_LATER,
		ENC_COUNT,
	};

	const char*
	EncName(int e)
	{
		static const char* const names[] = {"start", "plain", "later"};
		return names[e];
	}

	struct Conn
	{
		int myEnc = ENC_START;
		CtxPlan myCtx;
		// Roles of A.
		bool myIsServerA = false;
		bool myIsConnect = false;
		bool myIsRelay = false;
		bool myIsLateEvent[2] = {false, false};
		// Messages before the encryption.
		int myPlainSends[2] = {0, 0};
		std::string myHostName;
		std::string mySeenHostName;
		Ep* myA = nullptr;
		Ep* myB = nullptr;
		Relay myRelay;
		uint16_t myPort = 0;
		int myListener = -1;
		bool myIsEncrypted[2] = {false, false};
		bool myIsAsked = false;
		uint64_t myDelay = 0;

		bool IsServer(const Ep* e) const
		{
			return e == myA ? myIsServerA : !myIsServerA;
		}

		Ep* Get(bool isServer) const
		{
			return isServer == myIsServerA ? myA : myB;
		}
	};

	void
	OpenSSLSock(Conn& c, Ep& e)
	{
		SSLSocketParams params;
		params.mySSL = c.myCtx.Get(c.IsServer(&e));
		params.myDoEncrypt = c.myEnc == ENC_START;
		if (!c.IsServer(&e) && !c.myHostName.empty())
			params.myHostName = c.myHostName.c_str();
		((SSLSocket*)e.mySock)->Open(params);
		sim::Quiet q;
		e.myIsSecret = c.myEnc == ENC_START;
		e.myIsHold = c.myEnc == ENC_LATER;
		c.myRelay.myWays[&e == c.myA ? 0 : 1].myPlainSize = c.myEnc == ENC_START ? 0 : UINT64_MAX;
	}

	void
	SendPlain(Conn& c, Ep& e, bool isServer, uint32_t ctl)
	{
		for (int i = 0; i < c.myPlainSends[isServer]; ++i)
		{
			SendOp op;
			{
				sim::Quiet q;
				if (e.mySelfSendPos >= e.mySelfSends.size())
					break;
				op = e.mySelfSends[e.mySelfSendPos++];
			}
			e.Send(0, op);
		}
		e.Send(5, {0, (int)(ctl % 7)});
	}

	void
	DoEncrypt(Conn& c, Ep& e, bool isServer, uint32_t ctl)
	{
		if (isServer)
			SendPlain(c, e, true, ctl);
		uint64_t plainSize;
		{
			sim::Quiet q;
			plainSize = e.myTotalSent;
		}
		((SSLSocket*)e.mySock)->Encrypt();
		sim::Quiet q;
		c.myRelay.myWays[&e == c.myA ? 0 : 1].myPlainSize = plainSize;
		e.myIsSecret = true;
		e.myIsHold = false;
		c.myIsEncrypted[isServer] = true;
	}

	// The protocol of turning the encryption on: the client asks, the server agrees and turns it
	// on, the client turns it on when the agreement is received.
	void
	SetupLater(Conn& c, uint32_t ctl)
	{
		Conn* cp = &c;
		for (Ep* e : {c.myA, c.myB})
		{
			bool isServer = c.IsServer(e);
			if (!isServer)
			{
				e->myOnConnected = [cp, ctl](Ep* e) {
					SendPlain(*cp, *e, false, ctl);
				};
			}
			e->myOnMsg = [cp, ctl, isServer](Ep* e) {
				{
					sim::Quiet q;
					if (e->myIn.myCount[5] == 0 || !e->myIsHold || e->myOnEventOnce || cp->myIsEncrypted[isServer])
						return;
				}
				if (!cp->myIsLateEvent[isServer])
					return DoEncrypt(*cp, *e, isServer, ctl);
				{
					sim::Quiet q;
					e->myOnEventOnce = [cp, e, ctl, isServer]() { DoEncrypt(*cp, *e, isServer, ctl); };
				}
				e->Wakeup();
			};
		}
	}

	void
	GenConn(Gen& g, World& w, Conn& c, int i, bool canFail, bool isRelay)
	{
		c.myEnc = (int)g.Weighted({5, 1, 4});
		c.myCtx.Gen(g, canFail);
		c.myIsServerA = g.Bool();
		c.myIsRelay = isRelay;
		c.myIsConnect = !c.myIsRelay && g.Bool();
		c.myDelay = g.Chance(1, 3) ? g.Below(60) : 0;
		for (int k = 0; k < 2; ++k)
		{
			c.myIsLateEvent[k] = g.Bool();
			c.myPlainSends[k] = (int)g.Below(3);
		}
		if (g.Chance(1, 3))
			c.myHostName = "name" + std::to_string(i) + ".test";
		Describe("connection %d: encryption %s, A is server %d, relay %d, connect %d, late %d %d, host '%s'\n", i,
			EncName(c.myEnc), (int)c.myIsServerA, (int)c.myIsRelay, (int)c.myIsConnect, (int)c.myIsLateEvent[0],
			(int)c.myIsLateEvent[1], c.myHostName.c_str());
		for (int k = 0; k < 2; ++k)
		{
			Relay::Way& way = c.myRelay.myWays[k];
			way.myChunk = (uint32_t)g.Pick({20000, 20000, 3000, 500, 37});
			way.myPause = g.Chance(1, 4) ? g.Below(5) : 0;
		}
		for (int side = 0; side < 2; ++side)
		{
			Ep& e = w.AddEp();
			(side == 0 ? c.myA : c.myB) = &e;
			e.myOut.myStream = (uint32_t)(i * 2 + side);
			e.myIn.myStream = (uint32_t)(i * 2 + 1 - side);
			GenEpReads(g, e);
			Describe("  endpoint %d:\n", e.myId);
		}
	}

	// The ends are connected either directly or via the relay.
	void
	GetFds(Conn& c, int& a, int& b)
	{
		if (!c.myIsRelay)
		{
			RawPair(a, b);
		}
		else
		{
			int ra, rb;
			RawPair(a, ra);
			RawPair(rb, b);
			c.myRelay.Start(ra, rb);
		}
		RawNonBlock(a);
		RawNonBlock(b);
	}

	void
	StartConn(Conn& c)
	{
		Ep& a = *c.myA;
		Ep& b = *c.myB;
		if (c.myEnc == ENC_LATER)
			SetupLater(c, (uint32_t)c.myPlainSends[0] + (uint32_t)c.myPlainSends[1]);
		if (!c.myIsConnect)
		{
			int fdA, fdB;
			GetFds(c, fdA, fdB);
			int noA = a.NewLife(true);
			a.mySock->PostWrap(fdA, &a);
			a.EndPost(noA);
			if (c.myDelay != 0)
				sim::SleepMs(c.myDelay);
			int noB = b.NewLife(true);
			b.mySock->PostWrap(fdB, &b);
			b.EndPost(noB);
			return;
		}
		c.myListener = RawListen(c.myPort);
		TCPSocketConnectParams params;
		params.myEndpoint = mg::net::HostMakeLocalIPV4(c.myPort).ToString();
		if (c.myDelay != 0)
			params.myDelay = mg::box::TimeDuration(c.myDelay);
		int noA = a.NewLife(true);
		a.mySock->PostConnect(params, &a);
		a.EndPost(noA);
	}

	// Connection can be accepted after the core is started only.
	void
	StartConnEnd(Conn& c)
	{
		if (c.myListener < 0)
			return;
		int fd = RawAccept(c.myListener);
		if (fd < 0)
			Fail("harness", "can't accept");
		RawNonBlock(fd);
		Ep& b = *c.myB;
		int noB = b.NewLife(true);
		b.mySock->PostWrap(fd, &b);
		b.EndPost(noB);
	}
}

//////////////////////////////////////////////////////////////////////////////////////////
// Data goes through without losses, and so on, while nobody breaks the connections.

PBT_TEST(ssl_stream, MODE_FORK, 3)
{
	simnet::GenConfig(g);
	sim::GetConfig().myMaxSteps = 900000;
	World w;
	int connCount = 1 + (int)g.Weighted({5, 2});
	uint32_t workerCount = 1 + (uint32_t)g.Below(3);
	bool isStartedFirst = g.Bool();
	std::vector<std::unique_ptr<Conn>> conns(connCount);
	std::vector<Ext> exts;
	Describe("%d connections, %u workers, started first %d\n", connCount, workerCount, (int)isStartedFirst);
	for (int i = 0; i < connCount; ++i)
	{
		conns[i].reset(new Conn());
		Conn& c = *conns[i];
		GenConn(g, w, c, i, false, g.Chance(1, 3));
		for (Ep* e : {c.myA, c.myB})
		{
			Describe("  endpoint %d:\n", e->myId);
			GenActs(g, *e, {2, 6, 2, 2, 0, 0, 2, 2, 2, 1, 1}, 4);
			GenExts(g, exts, e->myId, (int)g.Weighted({1, 4, 2}), {8, 2, 1, 1, 1, 0, 0, 1}, 4);
		}
	}
	bool isStopEarly = g.Bool();
	{
		IOCore core;
		std::vector<std::thread> threads;
		auto start = [&](Ep& e) {
			for (Ext& x : exts)
			{
				if (x.myEp == e.myId)
					threads.emplace_back([&e, &x]() { RunExt(e, x); });
			}
		};
		for (auto& c : conns)
		{
			c->myCtx.Make();
			for (Ep* e : {c->myA, c->myB})
			{
				e->mySock = new SSLSocket(core);
				OpenSSLSock(*c, *e);
			}
			// The name is available when the handshake is done.
			Conn* cp = c.get();
			if (c->myEnc == ENC_START)
			{
				c->Get(true)->myOnConnected = [cp](Ep* e) {
					std::string name = ((SSLSocket*)e->mySock)->GetHostName();
					sim::Quiet q;
					if (name != cp->myHostName)
						Fail("ssl_host_name", "got '%s', expected '%s'", name.c_str(), cp->myHostName.c_str());
					name = {};
				};
			}
		}
		if (isStartedFirst)
			core.Start(workerCount);
		for (auto& c : conns)
		{
			StartConn(*c);
			if (c->myEnc != ENC_LATER)
			{
				start(*c->myA);
				if (!c->myIsConnect)
					start(*c->myB);
			}
		}
		if (!isStartedFirst)
			core.Start(workerCount);
		for (auto& c : conns)
		{
			StartConnEnd(*c);
			if (c->myEnc != ENC_LATER && c->myIsConnect)
				start(*c->myB);
		}
		for (auto& c : conns)
		{
			if (c->myEnc != ENC_LATER)
				continue;
			Conn* cp = c.get();
			sim::WaitFor([cp]() { return cp->myIsEncrypted[0] && cp->myIsEncrypted[1]; }, "encryption is on");
			start(*c->myA);
			start(*c->myB);
		}
		w.Calm("end");
		for (auto& t : threads)
			t.join();
		threads.clear();
		{
			sim::Quiet q;
			w.myEg.myIsFlush = true;
		}
		for (auto& e : w.myEps)
		{
			if (e->myIsPaused)
				e->AskRecvExt(e->NextRecvSize());
			e->Wakeup();
		}
		w.Calm("flush");
		{
			sim::Quiet q;
			for (auto& c : conns)
			{
				for (Ep* e : {c->myA, c->myB})
				{
					Ep* o = e == c->myA ? c->myB : c->myA;
					if (e->myLife.myIsClosed)
						Fail("sock_close", "endpoint %d is closed", e->myId);
					if (!e->myLife.myIsConnected || e->myIn.myTotal != o->myTotalSent)
					{
						Fail("sock_recv_lost", "endpoint %d: connected %d, received %llu of %llu, reported as sent %llu\n%s",
							e->myId, (int)e->myLife.myIsConnected, (unsigned long long)e->myIn.myTotal,
							(unsigned long long)o->myTotalSent, (unsigned long long)o->myReportedSent,
							simnet::Dump().c_str());
					}
					if (e->myReportedSent != e->myTotalSent)
					{
						Fail("sock_send_lost", "endpoint %d: sent %llu, reported %llu", e->myId,
							(unsigned long long)e->myTotalSent, (unsigned long long)e->myReportedSent);
					}
				}
				c->myRelay.CheckSecrets(*c->myA, *c->myB);
			}
			// The other side of a closed one can notice it before its own closing.
			for (auto& e : w.myEps)
			{
				e->myLife.myIsErrorPossible = true;
				e->myLife.myIsPeerEnd = true;
			}
		}
		w.CloseAll(core);
		if (isStopEarly)
			core.Stop();
		for (auto& c : conns)
		{
			c->myRelay.Finish();
			if (c->myListener >= 0)
				close(c->myListener);
		}
		for (auto& e : w.myEps)
			((SSLSocket*)e->mySock)->Delete();
	}
	simnet::CheckNoOpen("sock_leak_fd");
	uint64_t total = 0;
	for (auto& e : w.myEps)
		total += e->myIn.myTotal;
	if (total > 0 && sim::Preemptions() > 0)
		NonTrivial();
	for (auto& c : conns)
		Label(c->myEnc == ENC_START ? "enc-start" : c->myEnc == ENC_PLAIN ? "enc-plain" : "enc-later");
	if (simnet::GetStats().mySplits > 0)
		Label("splits");
	if (simnet::GetStats().myPartialSends > 0)
		Label("partial-sends");
}

//////////////////////////////////////////////////////////////////////////////////////////
// The connection is altered, or the peer is not trusted, or does not speak TLS.

PBT_TEST(ssl_attack, MODE_FORK, 2)
{
	simnet::GenConfig(g);
	sim::GetConfig().myMaxSteps = 900000;
	World w;
	uint32_t workerCount = 1 + (uint32_t)g.Below(3);
	std::unique_ptr<Conn> conn(new Conn());
	Conn& c = *conn;
	std::vector<Ext> exts;
	bool isGarbage = g.Chance(1, 8);
	GenConn(g, w, c, 0, !isGarbage, !isGarbage);
	if (c.myEnc == ENC_PLAIN || isGarbage)
		c.myEnc = ENC_START;
	c.myHostName.clear();
	for (Ep* e : {c.myA, c.myB})
	{
		Describe("  endpoint %d:\n", e->myId);
		GenActs(g, *e, {2, 6, 2, 0, 0, 0, 2, 2, 2, 1, 1}, 4);
		GenExts(g, exts, e->myId, (int)g.Weighted({1, 4, 2}), {8, 2, 1, 1, 1, 0, 0, 1}, 4);
	}
	Relay::Way& way = c.myRelay.myWays[g.Below(2)];
	int tamper = TAMPER_NONE;
	if (!isGarbage)
	{
		tamper = (int)g.Weighted({1, 8, 2, 2, 2, 2});
		way.myTamper = tamper;
		way.myMask = (uint8_t)(1 + g.Below(255));
		if (g.Chance(1, 4))
		{
			way.myPos = g.Below(4000);
		}
		else
		{
			way.myRecType = (int)g.Pick({22, 23, 23, 23});
			way.myRecNo = g.Below(way.myRecType == 22 ? 4 : 8);
			way.myPos = g.Chance(1, 3) ? 0 : g.Below(300);
		}
		Describe("tampering: %s in the way of %d, record %d/%llu, pos %llu, mask %x\n", TamperName(tamper),
			(int)(&way - c.myRelay.myWays), way.myRecType, (unsigned long long)way.myRecNo,
			(unsigned long long)way.myPos, (unsigned)way.myMask);
	}
	std::string garbage;
	if (isGarbage)
	{
		for (uint64_t i = 0, n = 1 + g.Below(300); i < n; ++i)
			garbage.push_back((char)(g.Chance(1, 4) ? 22 : g.Below(256)));
		Describe("garbage of size %zu\n", garbage.size());
	}
	bool isGarbageEnd = g.Bool();
	bool isStopEarly = g.Bool();
	uint64_t closedCount = 0;
	{
		IOCore core;
		core.Start(workerCount);
		std::vector<std::thread> threads;
		c.myCtx.Make();
		std::vector<Ep*> eps = {c.myA};
		if (!isGarbage)
			eps.push_back(c.myB);
		else
			w.myEps[1]->myIsDeleted = true;
		bool isBadCert = c.myCtx.myVerify == VERIFY_BAD;
		for (Ep* e : eps)
		{
			e->mySock = new SSLSocket(core);
			OpenSSLSock(c, *e);
		}
		auto allowErrors = [&]() {
			for (Ep* e : eps)
			{
				e->myLife.myIsErrorPossible = true;
				e->myLife.myIsPeerEnd = true;
			}
		};
		c.myRelay.myWays[0].myOnEnding = allowErrors;
		c.myRelay.myWays[1].myOnEnding = allowErrors;
		int raw = -1;
		if (isGarbage)
		{
			int fd;
			RawPair(fd, raw);
			RawNonBlock(fd);
			Ep& a = *c.myA;
			int no = a.NewLife(true);
			{
				sim::Quiet q;
				allowErrors();
			}
			a.mySock->PostWrap(fd, &a);
			a.EndPost(no);
			if (send(raw, garbage.data(), garbage.size(), MSG_NOSIGNAL) < 0)
				Fail("harness", "can't send");
			if (isGarbageEnd)
				shutdown(raw, SHUT_WR);
		}
		else
		{
			if (c.myEnc == ENC_LATER)
				SetupLater(c, 1);
			int fdA, fdB;
			GetFds(c, fdA, fdB);
			int fds[2] = {fdA, fdB};
			for (int i = 0; i < 2; ++i)
			{
				Ep& e = *eps[i];
				int no = e.NewLife(true);
				// The relay could be done already.
				if (isBadCert || c.myRelay.myIsDone)
				{
					e.myLife.myIsErrorPossible = true;
					e.myLife.myIsPeerEnd = true;
				}
				e.mySock->PostWrap(fds[i], &e);
				e.EndPost(no);
			}
		}
		if (c.myEnc == ENC_LATER)
		{
			// Can be never done.
			w.Calm("plain");
		}
		if (c.myEnc != ENC_LATER || (c.myIsEncrypted[0] && c.myIsEncrypted[1]))
		{
			for (Ep* e : eps)
			{
				for (Ext& x : exts)
				{
					if (x.myEp == e->myId)
						threads.emplace_back([e, &x]() { RunExt(*e, x); });
				}
			}
		}
		for (auto& t : threads)
			t.join();
		threads.clear();
		w.Calm("end");
		{
			sim::Quiet q;
			w.myEg.myIsFlush = true;
		}
		for (Ep* e : eps)
		{
			if (e->myLife.myIsClosed)
				continue;
			e->AskRecvExt(e->NextRecvSize());
			e->Wakeup();
		}
		w.Calm("flush");
		{
			sim::Quiet q;
			for (Ep* e : eps)
				closedCount += e->myLife.myIsClosed;
			bool isDone = c.myRelay.myIsDone;
			if (isGarbage)
			{
				if (c.myA->myLife.myIsConnected)
					Fail("ssl_garbage", "connected with garbage");
				if (isGarbageEnd && !c.myA->myLife.myIsClosed)
					Fail("sock_eof", "end of garbage is not noticed");
			}
			else if (isBadCert && c.myEnc == ENC_START)
			{
				Ep* e = c.Get(false);
				if (e->myLife.myIsConnected || e->myIn.myTotal != 0)
					Fail("ssl_trust", "connected with a not trusted server");
				if (!isDone && (!e->myLife.myIsClosed || !e->myLife.myIsErrored))
					Fail("ssl_trust", "a not trusted server is not an error");
			}
			else if (isBadCert)
			{
				Ep* e = c.Get(false);
				if (!isDone && c.myIsEncrypted[0] && c.myIsEncrypted[1] && (!e->myLife.myIsClosed || !e->myLife.myIsErrored))
					Fail("ssl_trust", "a not trusted server is not an error");
			}
			else if (!isDone)
			{
				for (Ep* e : eps)
				{
					Ep* o = e == c.myA ? c.myB : c.myA;
					if (e->myLife.myIsClosed || !e->myLife.myIsConnected || e->myIn.myTotal != o->myTotalSent)
					{
						Fail("sock_recv_lost", "endpoint %d: closed %d, connected %d, received %llu of %llu", e->myId,
							(int)e->myLife.myIsClosed, (int)e->myLife.myIsConnected,
							(unsigned long long)e->myIn.myTotal, (unsigned long long)o->myTotalSent);
					}
				}
			}
			else
			{
				Ep* e = &way == &c.myRelay.myWays[0] ? c.myB : c.myA;
				Ep* o = e == c.myA ? c.myB : c.myA;
				if (e->myIn.myTotal > o->myTotalSent)
					Fail("sock_data", "too much is received");
				if (way.myRecType == 23 && tamper == TAMPER_FLIP)
				{
					if (!e->myLife.myIsClosed || !e->myLife.myIsErrored)
						Fail("ssl_alter", "endpoint %d: an altered record is not noticed", e->myId);
				}
				if (way.myRecType == 22 && tamper == TAMPER_FLIP && c.myEnc == ENC_START)
				{
					if (e->myLife.myIsConnected && o->myLife.myIsConnected)
						Fail("ssl_alter", "connected with an altered handshake");
				}
				if ((tamper == TAMPER_FIN || tamper == TAMPER_KILL) && !e->myLife.myIsClosed)
					Fail("sock_eof", "endpoint %d: the end of the peer is not noticed", e->myId);
			}
			if (!isGarbage)
				c.myRelay.CheckSecrets(*c.myA, *c.myB);
			allowErrors();
		}
		w.CloseAll(core);
		if (isStopEarly)
			core.Stop();
		c.myRelay.Finish();
		if (raw >= 0)
			close(raw);
		for (Ep* e : eps)
			((SSLSocket*)e->mySock)->Delete();
	}
	simnet::CheckNoOpen("sock_leak_fd");
	if (closedCount > 0)
		NonTrivial();
	if (isGarbage)
		Label("garbage");
	else if (c.myRelay.myIsDone)
		Label(TamperName(tamper));
	if (c.myCtx.myVerify == VERIFY_BAD)
		Label("not-trusted");
}

//////////////////////////////////////////////////////////////////////////////////////////
// The life cycle: any calls at any moments, the sockets are reused.

namespace {
	struct LifeSide
	{
		Ep* myEp = nullptr;
		std::vector<int> myFds;
		size_t myPos = 0;
		bool myIsDelete = false;
		bool myIsStopped = false;
		bool myIsServer = false;
	};

	struct LifeConn
	{
		CtxPlan myCtx;
		// Of each life.
		std::vector<int> myEnc;
		LifeSide mySides[2];

		// Open and post.
		void Start(int i)
		{
			LifeSide& s = mySides[i];
			Ep& e = *s.myEp;
			size_t pos;
			int fd;
			{
				sim::Quiet q;
				pos = s.myPos++;
				fd = s.myFds[pos];
				s.myFds[pos] = -1;
			}
			SSLSocketParams params;
			params.mySSL = myCtx.Get(s.myIsServer);
			params.myDoEncrypt = myEnc[pos] == ENC_START;
			((SSLSocket*)e.mySock)->Open(params);
			int no = e.NewLife(true);
			{
				sim::Quiet q;
				// The other side can be closed at any moment.
				e.myLife.myIsErrorPossible = true;
				e.myLife.myIsPeerEnd = true;
			}
			e.mySock->PostWrap(fd, &e);
			e.EndPost(no);
		}
	};
}

PBT_TEST(ssl_life, MODE_FORK, 2)
{
	simnet::GenConfig(g);
	sim::GetConfig().myMaxSteps = 900000;
	World w;
	int connCount = 1 + (int)g.Weighted({5, 2});
	uint32_t workerCount = 1 + (uint32_t)g.Below(3);
	bool isStartedFirst = g.Bool();
	bool hasDelete = g.Chance(1, 4);
	std::vector<std::unique_ptr<LifeConn>> conns(connCount);
	std::vector<Ext> exts;
	Describe("%d connections, %u workers, started first %d\n", connCount, workerCount, (int)isStartedFirst);
	for (int i = 0; i < connCount; ++i)
	{
		conns[i].reset(new LifeConn());
		LifeConn& c = *conns[i];
		c.myCtx.Gen(g, true);
		bool isServerA = g.Bool();
		for (int k = 0, n = 1 + (int)g.Weighted({3, 3, 2}); k < n; ++k)
		{
			c.myEnc.push_back((int)g.Weighted({4, 1}));
			Describe("  life %s\n", EncName(c.myEnc.back()));
		}
		for (int side = 0; side < 2; ++side)
		{
			LifeSide& s = c.mySides[side];
			Ep& e = w.AddEp();
			s.myEp = &e;
			s.myIsServer = (side == 0) == isServerA;
			s.myIsDelete = hasDelete && g.Bool();
			e.myOut.myStream = (uint32_t)(i * 2 + side);
			e.myIn.myStream = (uint32_t)(i * 2 + 1 - side);
			e.myOut.myIsLoose = true;
			e.myIn.myIsLoose = true;
			GenEpReads(g, e);
			Describe("  endpoint %d: server %d, delete %d\n", e.myId, (int)s.myIsServer, (int)s.myIsDelete);
			GenActs(g, e, {4, 5, 2, 1, 1, 1, 2, hasDelete ? 0u : 1u, 1, 1, 1}, 4);
			if (!s.myIsDelete)
				GenExts(g, exts, e.myId, (int)g.Weighted({1, 3, 2}), {6, 4, 2, 1, 1, 2, 2, 2}, 6);
		}
	}
	bool isStopEarly = g.Bool();
	uint64_t closed = 0, connected = 0, errors = 0, total = 0;
	{
		IOCore core;
		std::vector<std::thread> threads;
		for (auto& cc : conns)
		{
			LifeConn* c = cc.get();
			c->myCtx.Make();
			for (size_t k = 0; k < c->myEnc.size(); ++k)
			{
				int a, b;
				RawPair(a, b);
				RawNonBlock(a);
				RawNonBlock(b);
				c->mySides[0].myFds.push_back(a);
				c->mySides[1].myFds.push_back(b);
			}
			for (int side = 0; side < 2; ++side)
			{
				LifeSide* s = &c->mySides[side];
				Ep& e = *s->myEp;
				e.mySock = new SSLSocket(core);
				e.myOnClosed = [&, s, c, side](Ep* ep) {
					bool isMore;
					{
						sim::Quiet q;
						const Life& l = ep->myLife;
						++closed;
						connected += l.myIsConnected;
						errors += l.myIsErrored;
						if (l.myIsConnected && !s->myIsServer && c->myCtx.myVerify == VERIFY_BAD &&
							c->myEnc[s->myPos - 1] == ENC_START)
							Fail("ssl_trust", "connected with a not trusted server");
						isMore = !s->myIsStopped && s->myPos < s->myFds.size();
					}
					if (isMore)
					{
						c->Start(side);
					}
					else if (s->myIsDelete && ep->SetDeleted())
					{
						((SSLSocket*)ep->mySock)->Delete();
					}
				};
			}
		}
		if (isStartedFirst)
			core.Start(workerCount);
		for (auto& c : conns)
		{
			for (int side = 0; side < 2; ++side)
			{
				c->Start(side);
				for (Ext& x : exts)
				{
					Ep& e = *c->mySides[side].myEp;
					if (x.myEp == e.myId)
						threads.emplace_back([&e, &x]() { RunExt(e, x); });
				}
			}
		}
		if (!isStartedFirst)
			core.Start(workerCount);
		for (auto& t : threads)
			t.join();
		threads.clear();
		auto checkLives = [&](const char* stage) {
			sim::Quiet q;
			for (auto& c : conns)
			{
				for (int side = 0; side < 2; ++side)
				{
					LifeSide& s = c->mySides[side];
					LifeSide& o = c->mySides[1 - side];
					Ep& e = *s.myEp;
					if (e.myLife.myIsClosed)
						continue;
					bool isReading = !e.myLife.myIsConnected || !e.myIsPaused;
					bool isOtherGone = o.myEp->myLife.myIsClosed ? o.myPos >= s.myPos : o.myPos > s.myPos;
					bool isOtherHere = !o.myEp->myLife.myIsClosed && o.myPos == s.myPos;
					if (isOtherGone && isReading)
						Fail("sock_eof", "%s: endpoint %d does not see the end of the peer", stage, e.myId);
					if (e.myLife.myIsShutdownMust && isReading)
						Fail("sock_shutdown_lost", "%s: endpoint %d is shut down but not closed", stage, e.myId);
					if (isOtherHere && !e.myLife.myIsShutdownReq && !o.myEp->myLife.myIsShutdownReq)
					{
						if (!e.myLife.myIsConnected)
							Fail("sock_connect_lost", "%s: endpoint %d is not connected", stage, e.myId);
						if (c->myEnc[s.myPos - 1] == ENC_START && c->myCtx.myVerify == VERIFY_BAD)
							Fail("ssl_trust", "%s: endpoint %d: connected without trust", stage, e.myId);
					}
				}
			}
		};
		w.Calm("end");
		checkLives("end");
		// Go through all the lives.
		for (int round = 0; round < 16; ++round)
		{
			bool isDone = true;
			for (auto& c : conns)
			{
				for (int side = 0; side < 2; ++side)
				{
					LifeSide& s = c->mySides[side];
					Ep& e = *s.myEp;
					if (e.myIsDeleted || e.myLife.myIsClosed || s.myPos >= s.myFds.size())
						continue;
					isDone = false;
					if (g.Chance(1, 2))
						continue;
					if (g.Chance(1, 4) && !s.myIsDelete)
						e.Shutdown();
					else
						e.Close();
				}
			}
			if (isDone)
				break;
			w.Calm("lives");
			checkLives("lives");
		}
		{
			sim::Quiet q;
			w.myEg.myIsFlush = true;
		}
		for (auto& c : conns)
		{
			for (LifeSide& s : c->mySides)
			{
				Ep& e = *s.myEp;
				if (e.myLife.myIsClosed || s.myIsDelete)
					continue;
				if (e.myIsPaused)
				{
					{
						sim::Quiet q;
						e.myIsPaused = false;
					}
					e.AskRecvExt(e.NextRecvSize());
				}
				e.Wakeup();
			}
		}
		w.Calm("flush");
		checkLives("flush");
		{
			sim::Quiet q;
			for (auto& c : conns)
			{
				for (LifeSide& s : c->mySides)
					s.myIsStopped = true;
			}
		}
		w.CloseAll(core);
		if (isStopEarly)
			core.Stop();
		for (auto& c : conns)
		{
			for (LifeSide& s : c->mySides)
			{
				for (int fd : s.myFds)
				{
					if (fd >= 0)
						close(fd);
				}
				Ep& e = *s.myEp;
				total += e.myIn.myTotal;
				if (e.myIsDeleted)
					continue;
				e.mySock->PostClose();
				e.mySock->PostShutdown();
				((SSLSocket*)e.mySock)->Delete();
			}
		}
	}
	simnet::CheckNoOpen("sock_leak_fd");
	if (closed > 0 && sim::Preemptions() > 0)
		NonTrivial();
	if (errors > 0)
		Label("broken");
	if (closed > w.myEps.size())
		Label("reuse");
	if (connected > 0)
		Label("connected");
	if (total > 0)
		Label("data");
}
