// Name resolution with a simulated resolver in virtual time.

#include "netutil.h"

#include "mg/box/Error.h"
#include "mg/box/Time.h"
#include "mg/net/DomainToIP.h"

#include <algorithm>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

using namespace pbt;
using namespace mg::net;

namespace {

	enum OpKind
	{
		OP_POST,
		OP_CANCEL,
		OP_RELEASE,
		OP_MOVE,
		OP_BLOCKING,
		OP_SLEEP,
		OP_POINTS,
		OP_KIND_COUNT,
	};

	enum LimitKind
	{
		LIMIT_NONE,
		LIMIT_DURATION,
		LIMIT_POINT,
		// Was long ago.
		LIMIT_PAST,
		LIMIT_KIND_COUNT,
	};

	struct Op
	{
		int myKind = 0;
		// Request or time.
		uint64_t myArg = 0;
	};

	struct Req
	{
		int myId = 0;
		std::string myName;
		bool myIsUnique = true;
		simnet::NameResult myResult;
		std::vector<uint32_t> myV4;
		int myLimit = 0;
		uint64_t myLimitMs = 0;
		std::vector<Op> myInCallback;
		// The handle, can be taken by anyone.
		std::mutex myMutex;
		DomainToIPRequest myHandle;
		bool myHasHandle = false;
		// State.
		bool myIsPosted = false;
		bool myIsBlocking = false;
		uint64_t myPostMs = 0;
		uint64_t myDeadlineLow = 0;
		uint64_t myDeadlineHigh = sim::theInfinite;
		bool myIsCancelBegun = false;
		bool myIsCancelled = false;
		int myCalled = 0;
		uint64_t myEndMs = 0;
		int myCode = 0;
		// Requests being resolved when this one was posted, and still when it was cancelled.
		std::vector<int> myBusyAtPost;
		bool myMustCancel = false;
		std::shared_ptr<int> myToken;
		std::weak_ptr<int> myWatch;
	};

	struct World
	{
		std::vector<std::unique_ptr<Req>> myReqs;
		int myInCallback = 0;
		uint64_t myMustCancels = 0;
		uint64_t myMustTimeouts = 0;
		uint64_t myCodes[5] = {};
	};
	World* theWorld;

	// In quiet mode.
	bool
	IsResolving(const Req& r)
	{
		return r.myIsUnique && r.myIsPosted && !r.myIsBlocking && r.myCalled == 0 && simnet::GetNameCalls(r.myName) == 1;
	}

	void RunOp(const Op& op, int self);

	void
	CheckEndpoints(const Req& r, const std::vector<DomainEndpoint>& points)
	{
		std::vector<int> expected;
		for (int a : r.myResult.myAddrs)
		{
			if (a != 0 && std::find(expected.begin(), expected.end(), a) == expected.end())
				expected.push_back(a);
		}
		if (points.size() != expected.size())
			Fail("dns_result", "request %d: %zu endpoints, expected %zu", r.myId, points.size(), expected.size());
		for (size_t i = 0; i < points.size(); ++i)
		{
			const Host& h = points[i].myHost;
			int a = expected[i];
			bool isOk;
			if (a > 0)
			{
				sockaddr_in in;
				memcpy(&in, &h.myAddr, sizeof(in));
				isOk = h.IsIPV4() && ntohl(in.sin_addr.s_addr) == (uint32_t)a && in.sin_port == 0;
			}
			else
			{
				sockaddr_in6 in;
				memcpy(&in, &h.myAddr, sizeof(in));
				uint32_t v;
				memcpy(&v, (char*)&in.sin6_addr + 12, 4);
				isOk = h.IsIPV6() && ntohl(v) == (uint32_t)-a && in.sin6_port == 0;
			}
			if (!isOk)
				Fail("dns_result", "request %d: wrong endpoint %zu", r.myId, i);
		}
	}

	bool
	HasEndpoints(const Req& r)
	{
		for (int a : r.myResult.myAddrs)
		{
			if (a != 0)
				return r.myResult.myRc == 0;
		}
		return false;
	}

	// In quiet mode.
	void
	Complete(Req& r, const std::vector<DomainEndpoint>& points, mg::box::Error* err)
	{
		uint64_t now = sim::NowMs();
		if (++r.myCalled != 1)
			Fail("dns_twice", "request %d is completed again", r.myId);
		r.myEndMs = now;
		r.myCode = err == nullptr ? 0 : (int)err->myCode;
		if (err != nullptr && !points.empty())
			Fail("dns_result", "request %d: both an error and endpoints", r.myId);
		if (r.myMustCancel && (err == nullptr || err->myCode != mg::box::ERR_BOX_CANCEL))
		{
			Fail("dns_cancel_lost", "request %d was cancelled before it could be started, but got %s", r.myId,
				err == nullptr ? "a result" : err->myMessage.c_str());
		}
		// It is expired when the worker was busy.
		bool isExpired = false;
		for (int id : r.myBusyAtPost)
		{
			const Req& o = *theWorld->myReqs[id];
			if (o.myCalled != 0 && o.myEndMs >= r.myDeadlineHigh)
				isExpired = true;
		}
		if (err != nullptr && err->myCode == mg::box::ERR_BOX_CANCEL)
		{
			++theWorld->myCodes[2];
			if (!r.myIsCancelBegun)
				Fail("dns_cancel", "request %d was not cancelled", r.myId);
			return;
		}
		if (err != nullptr && err->myCode == mg::box::ERR_BOX_TIMEOUT)
		{
			++theWorld->myCodes[3];
			if (r.myLimit == LIMIT_NONE || now < r.myDeadlineLow)
			{
				Fail("dns_timeout", "request %d has timed out at %llu, the deadline is %llu", r.myId,
					(unsigned long long)now, (unsigned long long)r.myDeadlineLow);
			}
			return;
		}
		if (isExpired)
		{
			++theWorld->myMustTimeouts;
			Fail("dns_timeout_lost", "request %d has expired before it was started", r.myId);
		}
		if (simnet::GetNameCalls(r.myName) == 0)
			Fail("dns_result", "request %d has a result, but its domain was not resolved", r.myId);
		if (HasEndpoints(r))
		{
			++theWorld->myCodes[0];
			if (err != nullptr)
				Fail("dns_error", "request %d: unexpected error %s", r.myId, err->myMessage.c_str());
			CheckEndpoints(r, points);
			return;
		}
		++theWorld->myCodes[1];
		if (err == nullptr)
			Fail("dns_error", "request %d: the failure is not reported", r.myId);
		mg::box::ErrorCode code = mg::box::ERR_NET_ADDR_NOT_AVAIL;
		if (r.myResult.myRc == EAI_SYSTEM)
			code = mg::box::ErrorCodeFromErrno(r.myResult.myErrno);
		if (err->myCode != code)
			Fail("dns_error", "request %d: error %d, expected %d", r.myId, (int)err->myCode, (int)code);
	}

	mg::box::TimeLimit
	BeginPost(Req& r, bool isBlocking)
	{
		sim::Quiet q;
		r.myIsPosted = true;
		r.myIsBlocking = isBlocking;
		r.myPostMs = sim::NowMs();
		for (auto& o : theWorld->myReqs)
		{
			if (IsResolving(*o))
				r.myBusyAtPost.push_back(o->myId);
		}
		switch (r.myLimit)
		{
		case LIMIT_NONE:
			if (r.myLimitMs % 2 == 0)
				return mg::box::theTimeDurationInf;
			return mg::box::theTimePointInf;
		case LIMIT_DURATION:
			r.myDeadlineLow = r.myPostMs + r.myLimitMs;
			return mg::box::TimeDuration(r.myLimitMs);
		case LIMIT_POINT:
			r.myDeadlineLow = r.myDeadlineHigh = r.myPostMs + r.myLimitMs;
			return mg::box::TimePoint(r.myPostMs + r.myLimitMs);
		default:
			r.myDeadlineHigh = r.myPostMs;
			return mg::box::TimePoint(r.myPostMs > r.myLimitMs ? r.myPostMs - r.myLimitMs : 0);
		}
	}

	void
	EndPost(Req& r)
	{
		sim::Quiet q;
		if (r.myLimit == LIMIT_DURATION)
			r.myDeadlineHigh = sim::NowMs() + r.myLimitMs;
	}

	void
	DoPost(Req& r)
	{
		std::lock_guard<std::mutex> lock(r.myMutex);
		{
			sim::Quiet q;
			if (r.myIsPosted)
				return;
			r.myToken.reset(new int(0));
			r.myWatch = r.myToken;
		}
		mg::box::TimeLimit limit = BeginPost(r, false);
		std::shared_ptr<int> token;
		{
			sim::Quiet q;
			token = std::move(r.myToken);
			r.myHasHandle = true;
		}
		DomainToIPAsync(r.myHandle, r.myName.c_str(), limit, [&r, token](const char* domain,
			const std::vector<DomainEndpoint>& points, mg::box::Error* err) {
			{
				sim::Quiet q;
				if (theWorld->myInCallback++ != 0)
					Fail("dns_parallel", "callbacks are parallel");
				if (r.myName != domain)
					Fail("dns_result", "request %d: domain is '%s', expected '%s'", r.myId, domain, r.myName.c_str());
				if (*token != 0)
					Fail("dns_result", "the callback is broken");
				Complete(r, points, err);
			}
			for (const Op& op : r.myInCallback)
				RunOp(op, r.myId);
			sim::Quiet q;
			--theWorld->myInCallback;
		});
		EndPost(r);
		sim::Quiet q;
		token.reset();
	}

	void
	DoCancel(Req& r)
	{
		DomainToIPRequest h;
		bool isLate;
		{
			std::lock_guard<std::mutex> lock(r.myMutex);
			sim::Quiet q;
			if (!r.myHasHandle)
				return;
			r.myHasHandle = false;
			h = std::move(r.myHandle);
			r.myIsCancelBegun = true;
			isLate = r.myCalled != 0;
		}
		DomainToIPCancel(h);
		sim::Quiet q;
		r.myIsCancelled = true;
		if (isLate)
			return;
		// The worker could not take the request into work in between.
		for (int id : r.myBusyAtPost)
		{
			if (r.myCalled == 0 && IsResolving(*theWorld->myReqs[id]))
			{
				if (!r.myMustCancel)
					++theWorld->myMustCancels;
				r.myMustCancel = true;
			}
		}
	}

	void
	DoRelease(Req& r)
	{
		DomainToIPRequest h;
		{
			std::lock_guard<std::mutex> lock(r.myMutex);
			if (!r.myHasHandle)
				return;
			r.myHasHandle = false;
			h = std::move(r.myHandle);
		}
	}

	void
	DoMove(Req& r)
	{
		std::lock_guard<std::mutex> lock(r.myMutex);
		if (!r.myHasHandle)
			return;
		DomainToIPRequest h(std::move(r.myHandle));
		DomainToIPRequest h2;
		h2 = std::move(h);
		r.myHandle = std::move(h2);
	}

	void
	DoBlocking(Req& r)
	{
		{
			std::lock_guard<std::mutex> lock(r.myMutex);
			sim::Quiet q;
			if (r.myIsPosted)
				return;
			r.myIsPosted = true;
		}
		mg::box::TimeLimit limit = BeginPost(r, true);
		std::vector<DomainEndpoint> points;
		mg::box::Error::Ptr err;
		bool isOk = DomainToIPBlocking(r.myName, limit, points, err);
		EndPost(r);
		{
			sim::Quiet q;
			// The deadline is measured late.
			r.myDeadlineHigh = sim::theInfinite;
			if (isOk != !err.IsSet())
				Fail("dns_blocking", "request %d: result is %d", r.myId, (int)isOk);
			Complete(r, points, err.GetPointer());
		}
	}

	void
	RunOp(const Op& op, int self)
	{
		World& w = *theWorld;
		switch (op.myKind)
		{
		case OP_POST:
			DoPost(*w.myReqs[op.myArg % w.myReqs.size()]);
			break;
		case OP_CANCEL:
			DoCancel(*w.myReqs[op.myArg % w.myReqs.size()]);
			break;
		case OP_RELEASE:
			DoRelease(*w.myReqs[op.myArg % w.myReqs.size()]);
			break;
		case OP_MOVE:
			DoMove(*w.myReqs[op.myArg % w.myReqs.size()]);
			break;
		case OP_BLOCKING:
			if (self < 0)
				DoBlocking(*w.myReqs[op.myArg % w.myReqs.size()]);
			break;
		case OP_SLEEP:
			if (self < 0 || op.myArg % 4 == 0)
				sim::SleepMs(op.myArg);
			break;
		case OP_POINTS:
			for (uint64_t i = 0; i < op.myArg % 8; ++i)
				sim::Point();
			break;
		}
	}
}

PBT_TEST(domain, MODE_FORK, 1)
{
	sim::GetConfig().myMaxSteps = 300000;
	World w;
	theWorld = &w;
	int reqCount = 1 + (int)g.Below(g.Chance(1, 5) ? 40 : 12);
	bool isSlow = g.Chance(2, 3);
	int shared = 0;
	for (int i = 0; i < reqCount; ++i)
	{
		w.myReqs.emplace_back(new Req());
		Req& r = *w.myReqs.back();
		r.myId = i;
		if (i > 0 && g.Chance(1, 6))
		{
			Req& o = *w.myReqs[g.Below(i)];
			r.myName = o.myName;
			r.myResult = o.myResult;
			r.myIsUnique = o.myIsUnique = false;
			++shared;
		}
		else
		{
			r.myName = "n" + std::to_string(i) + ".test";
			r.myResult.myDelayMs = isSlow ? g.Pick({0ull, 0ull, 1ull, 10ull, 30ull, 100ull, 500ull}) : 0;
			if (g.Chance(1, 4))
			{
				r.myResult.myRc = (int)g.Pick({EAI_NONAME, EAI_AGAIN, EAI_FAIL, EAI_MEMORY, EAI_SYSTEM});
				r.myResult.myErrno = (int)g.Pick({ENOENT, EMFILE, ECONNREFUSED, ENETUNREACH});
			}
			else
			{
				for (int k = 0, n = (int)g.Below(6); k < n; ++k)
					r.myResult.myAddrs.push_back((int)g.Range(0, 8) - 3);
			}
			simnet::SetName(r.myName, r.myResult);
		}
		r.myLimit = (int)g.Weighted({4, 3, 2, 1});
		r.myLimitMs = g.Pick({0ull, 1ull, 5ull, 30ull, 50ull, 100ull, 100ull, 300ull, 1000ull});
		for (int k = 0, n = g.Chance(1, 4) ? 1 + (int)g.Below(2) : 0; k < n; ++k)
			r.myInCallback.push_back({(int)g.Weighted({3, 4, 2, 1, 0, 1, 1}), g.Chance(1, 3) ? (uint64_t)i : g.Below(100)});
		Describe("request %d: %s delay %llu rc %d addrs", i, r.myName.c_str(), (unsigned long long)r.myResult.myDelayMs,
			r.myResult.myRc);
		for (int a : r.myResult.myAddrs)
			Describe(" %d", a);
		Describe(", limit %d %llu, in callback", r.myLimit, (unsigned long long)r.myLimitMs);
		static const char* const names[] = {"post", "cancel", "release", "move", "blocking", "sleep", "points"};
		for (const Op& op : r.myInCallback)
			Describe(" %s(%llu)", names[op.myKind], (unsigned long long)op.myArg);
		Describe("\n");
	}
	int threadCount = 1 + (int)g.Below(4);
	std::vector<std::vector<Op>> programs(threadCount);
	bool isBurst = g.Chance(1, 3);
	for (int t = 0; t < threadCount; ++t)
	{
		Describe("thread %d:", t);
		static const char* const names[] = {"post", "cancel", "release", "move", "blocking", "sleep", "points"};
		uint64_t last = 0;
		for (int k = 0, n = 1 + (int)g.Below(isBurst ? 25 : 12); k < n; ++k)
		{
			Op op;
			op.myKind = (int)g.Weighted({8, 5, 1, 1, 1, isSlow ? 3u : 1u, 2});
			op.myArg = op.myKind == OP_SLEEP ? g.Below(80) : g.Chance(1, 2) && k > 0 && op.myKind != OP_POST ? last : g.Below(reqCount);
			if (op.myKind == OP_POST)
				last = op.myArg;
			programs[t].push_back(op);
			Describe(" %s(%llu)", names[op.myKind], (unsigned long long)op.myArg);
		}
		Describe("\n");
	}
	{
		std::vector<std::thread> threads;
		for (int t = 1; t < threadCount; ++t)
		{
			std::vector<Op>* p = &programs[t];
			threads.emplace_back([p]() {
				for (const Op& op : *p)
					RunOp(op, -1);
			});
		}
		for (const Op& op : programs[0])
			RunOp(op, -1);
		for (auto& t : threads)
			t.join();
		sim::WaitIdle(sim::NowNs() + 90000000000ull);
	}
	uint64_t done = 0;
	{
		sim::Quiet q;
		for (auto& r : w.myReqs)
		{
			if (r->myIsPosted && r->myCalled != 1)
				Fail("dns_lost", "request %d is not completed", r->myId);
			done += r->myCalled;
		}
	}
	for (auto& r : w.myReqs)
		DoRelease(*r);
	sim::WaitIdle(sim::NowNs() + 1000000000ull);
	{
		sim::Quiet q;
		for (auto& r : w.myReqs)
		{
			if (!r->myWatch.expired())
				Fail("dns_leak", "the callback of request %d is not released", r->myId);
		}
		if (simnet::NameResultsAlive() != 0)
			Fail("dns_leak", "address lists are not released");
	}
	if (done > 1 && sim::Preemptions() > 0)
		NonTrivial();
	if (w.myCodes[2] != 0)
		Label("cancelled");
	if (w.myCodes[3] != 0)
		Label("timeout");
	if (w.myMustCancels != 0)
		Label("must-cancel");
	if (w.myCodes[1] != 0)
		Label("failed");
	if (w.myCodes[0] != 0)
		Label("resolved");
}
