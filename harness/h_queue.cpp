// Multi-producer and multi-consumer queues under all interleavings.
#include "sim.h"

#include "mg/box/MultiConsumerQueue.h"
#include "mg/box/MultiProducerQueueIntrusive.h"

#include <thread>
#include <vector>

using namespace pbt;

//////////////////////////////////////////////////////////////////////////////////////////

struct MpItem
{
	MpItem* myNext = nullptr;
	int myProducer = 0;
	int mySeq = 0;
	int myOp = 0;
	uint64_t myPayload = 0;
};

struct MpOp
{
	int myKind;
	int mySize;
	bool myResult = false;
	bool myIsDone = false;
};

// Single producer of a lot or many producers, a consumer which relies on the "was empty" result
// of the pushes to wake up.
PBT_TEST(mpsc, MODE_FORK, 10)
{
	using Queue = mg::box::MultiProducerQueueIntrusive<MpItem>;
	static Queue queue;
	int producerCount = 1 + (int)g.Weighted({1, 4, 4, 2});
	std::vector<std::vector<MpOp>> ops(producerCount);
	int total = 0;
	for (int p = 0; p < producerCount; ++p)
	{
		int n = (int)g.Range(1, 5);
		for (int i = 0; i < n; ++i)
		{
			MpOp op;
			op.myKind = (int)g.Weighted({4, 2, 1, 1});
			op.mySize = op.myKind == 0 ? 1 : (int)g.Range(1, 4);
			total += op.mySize;
			ops[p].push_back(op);
		}
	}
	bool checkEmptyCalls = g.Bool();
	// Consumer pops some batches in the reversed order.
	std::vector<int> popKinds;
	for (int i = 0; i < 8; ++i)
		popKinds.push_back((int)g.Below(3));
	static const char* names[] = {"push", "push-many", "push-many-rev", "push-range-rev"};
	for (int p = 0; p < producerCount; ++p)
	{
		Describe("producer %d:", p);
		for (const MpOp& op : ops[p])
			Describe(" %s(%d)", names[op.myKind], op.mySize);
		Describe("\n");
	}
	if (!queue.IsEmpty())
		Fail("not-empty-new", "new queue is not empty");

	volatile int wakeups = 0;
	std::vector<std::vector<MpItem*>> all(producerCount);
	std::vector<std::thread> threads;
	for (int p = 0; p < producerCount; ++p)
	{
		threads.emplace_back([&, p]() {
			int seq = 0;
			for (size_t i = 0; i < ops[p].size(); ++i)
			{
				MpOp& op = ops[p][i];
				std::vector<MpItem*> items;
				for (int k = 0; k < op.mySize; ++k)
				{
					MpItem* it = new MpItem();
					it->myProducer = p;
					it->mySeq = seq++;
					it->myOp = (int)i;
					it->myPayload = it->mySeq * 1000003ULL + p;
					items.push_back(it);
				}
				bool res;
				if (op.myKind == 0)
					res = queue.Push(items[0]);
				else if (op.myKind == 1)
				{
					for (int k = 0; k + 1 < op.mySize; ++k)
						items[k]->myNext = items[k + 1];
					items.back()->myNext = nullptr;
					res = queue.PushMany(items[0]);
				}
				else
				{
					for (int k = 1; k < op.mySize; ++k)
						items[k]->myNext = items[k - 1];
					items[0]->myNext = nullptr;
					if (op.myKind == 2)
						res = queue.PushManyFastReversed(items.back());
					else
						res = queue.PushManyFastReversed(items.back(), items[0]);
				}
				sim::Quiet q;
				op.myResult = res;
				op.myIsDone = true;
				if (res)
					wakeups = wakeups + 1;
			}
		});
	}
	// Consumer.
	std::vector<int> nextSeq(producerCount, 0);
	int got = 0;
	int popIdx = 0;
	int slept = 0;
	int batches = 0;
	int maxBatch = 0;
	struct Batch { int myProducer; int myOp; };
	std::vector<std::vector<Batch>> history;
	while (got < total)
	{
		int kind = popKinds[popIdx++ % popKinds.size()];
		if (checkEmptyCalls && kind == 1)
			queue.IsEmpty();
		MpItem* head;
		MpItem* tail = nullptr;
		if (kind == 0)
			head = queue.PopAll();
		else if (kind == 1)
		{
			head = queue.PopAll(tail);
			if (head != nullptr)
			{
				MpItem* t = head;
				int cnt = 0;
				while (t->myNext != nullptr)
				{
					t = t->myNext;
					if (++cnt > total)
						Fail("loop", "loop in the popped list");
				}
				if (t != tail)
					Fail("bad-tail", "wrong tail is returned");
			}
		}
		else
		{
			head = queue.PopAllFastReversed();
			// Restore the order.
			MpItem* prev = nullptr;
			int cnt = 0;
			while (head != nullptr)
			{
				MpItem* next = head->myNext;
				head->myNext = prev;
				prev = head;
				head = next;
				if (++cnt > total)
					Fail("loop", "loop in the popped list");
			}
			head = prev;
		}
		if (head == nullptr)
		{
			// Sleep until a push says it found the queue empty.
			++slept;
			sim::WaitFor([&]() { return wakeups > 0; }, "consumer wakeup");
			sim::Quiet q;
			wakeups = 0;
			continue;
		}
		++batches;
		int size = 0;
		std::vector<Batch> b;
		while (head != nullptr)
		{
			MpItem* next = head->myNext;
			if (head->myProducer < 0 || head->myProducer >= producerCount)
				Fail("garbage", "garbage element");
			int& seq = nextSeq[head->myProducer];
			if (head->mySeq != seq)
			{
				Fail("order", "producer %d: expected element %d, got %d", head->myProducer, seq,
					head->mySeq);
			}
			if (head->myPayload != head->mySeq * 1000003ULL + head->myProducer)
				Fail("payload", "wrong payload");
			++seq;
			b.push_back({head->myProducer, head->myOp});
			delete head;
			head = next;
			++size;
			++got;
			if (got > total)
				Fail("duplicate", "too many elements");
		}
		if (size > maxBatch)
			maxBatch = size;
		history.push_back(b);
	}
	for (std::thread& t : threads)
		t.join();
	if (!queue.IsEmpty() || queue.PopAll() != nullptr)
		Fail("not-empty", "elements remain after all were popped");
	// Exactly the first push of each popped batch has seen the queue empty.
	for (auto& b : history)
	{
		for (size_t i = 0; i < b.size(); ++i)
		{
			if (i > 0 && b[i].myProducer == b[i - 1].myProducer && b[i].myOp == b[i - 1].myOp)
				continue;
			bool want = i == 0;
			if (ops[b[i].myProducer][b[i].myOp].myResult != want)
			{
				Fail("was-empty", "push %d of producer %d reported 'was empty' = %d, but it was "
					"%s in its batch", b[i].myOp, b[i].myProducer, !want,
					want ? "first" : "not first");
			}
		}
	}
	if (slept > 0)
		Label("consumer slept");
	if (maxBatch > 1)
		Label("batch > 1");
	if (producerCount > 1 && sim::Preemptions() > 0)
		NonTrivial();
}

//////////////////////////////////////////////////////////////////////////////////////////

struct McItem
{
	int mySeq;
	uint64_t myPayload;
};

using McQueue = mg::box::MultiConsumerQueue<McItem>;
using McConsumer = mg::box::MultiConsumerQueueConsumer<McItem>;

struct McState
{
	// Plain data of the oracle, accessed in the quiet mode.
	int myPushed = 0;
	// Elements which could be visible already.
	int myUpper = 0;
	// Elements which are visible for sure.
	int myLower = 0;
	// Max of the completed pops.
	int myMaxPopped = -1;
	int myPopped = 0;
	int myInProgress = 0;
	uint64_t myPopEvents = 0;
	bool myIsProducerDone = false;
	bool mySeen[256] = {};
};

static McState* theMc;

// What the consumers did before their pops. Whoever sees the count decreased by a pop has
// to see that too.
static int theMcTraces[8][512];
static int theMcTraceCount[8];
// Consumer and trace of each popped element.
static std::pair<int, int> theMcTraceOf[512];

static McItem* McPop(McConsumer& c, int& lastSeq, int idx)
{
	int lower, maxPopped, inProgress;
	int trace;
	{
		sim::Quiet q;
		trace = theMcTraceCount[idx]++;
	}
	if (trace < 512)
		theMcTraces[idx][trace] = 1;
	{
		sim::Quiet q;
		lower = theMc->myLower;
		maxPopped = theMc->myMaxPopped;
		++theMc->myInProgress;
		++theMc->myPopEvents;
	}
	McItem* it = c.Pop();
	int seq = -1;
	if (it != nullptr)
	{
		// A real access to check the visibility.
		if (it->myPayload != it->mySeq * 7919ULL + 13)
			Fail("payload", "wrong payload");
		seq = it->mySeq;
	}
	sim::Quiet q;
	McState& s = *theMc;
	++s.myPopEvents;
	inProgress = --s.myInProgress;
	if (it == nullptr)
	{
		// Without happens-before the recently pushed elements can be not visible yet.
		if (!sim::GetConfig().myIsWeak && lower > s.myPopped + inProgress)
		{
			Fail("pop-missed", "pop returned nothing, but %d elements were visible before it, and "
				"just %d could be popped by the others", lower, s.myPopped + inProgress);
		}
		return nullptr;
	}
	if (seq < 0 || seq >= s.myPushed + 1)
		Fail("garbage", "unknown element %d", seq);
	if (s.mySeen[seq])
		Fail("duplicate", "element %d is popped twice", seq);
	s.mySeen[seq] = true;
	if (seq < 512 && trace < 512)
		theMcTraceOf[seq] = {idx, trace + 1};
	if (seq >= s.myUpper)
		Fail("pending-visible", "element %d is popped before it was flushed", seq);
	if (seq <= lastSeq)
		Fail("order", "element %d popped after %d by one consumer", seq, lastSeq);
	if (seq <= maxPopped)
		Fail("order", "element %d popped after %d was already popped", seq, maxPopped);
	lastSeq = seq;
	if (seq > s.myMaxPopped)
		s.myMaxPopped = seq;
	++s.myPopped;
	return it;
}

PBT_TEST(mcsp, MODE_FORK, 14)
{
	static McState state;
	theMc = &state;
	sim::IgnoreMemory(&state, sizeof(state));
	sim::IgnoreMemory(theMcTraceCount, sizeof(theMcTraceCount));
	sim::IgnoreMemory(theMcTraceOf, sizeof(theMcTraceOf));
	sim::GetConfig().myIsWeak = g.Bool();
	int size = 1 + (int)g.Weighted({3, 3, 2, 1, 1});
	int consumerCount = 1 + (int)g.Weighted({1, 4, 4, 1});
	int opCount = (int)g.Range(1, 24);
	int pendingBias = (int)g.Below(3);
	struct Op { int myKind; int myArg; };
	std::vector<Op> ops;
	for (int i = 0; i < opCount; ++i)
	{
		Op op;
		if (pendingBias == 0)
			op.myKind = (int)g.Weighted({10, 2, 1, 1, 1});
		else if (pendingBias == 1)
			op.myKind = (int)g.Weighted({5, 8, 3, 1, 1});
		else
			op.myKind = (int)g.Weighted({1, 12, 3, 1, 1});
		op.myArg = op.myKind == 3 ? (int)g.Below(12) : 0;
		ops.push_back(op);
	}
	struct ConsOp { int myPops; bool myIsDetach; };
	std::vector<std::vector<ConsOp>> plans(consumerCount);
	for (auto& plan : plans)
	{
		int n = (int)g.Range(1, 4);
		for (int i = 0; i < n; ++i)
			plan.push_back({(int)g.Range(1, 6), g.Chance(1, 2)});
	}
	static const char* names[] = {"push", "pend", "flush", "reserve", "count"};
	Describe("sub-queue %d, consumers %d\nops:", size, consumerCount);
	for (Op& op : ops)
		Describe(" %s", names[op.myKind]);
	Describe("\n");

	McQueue* queue = new McQueue(size);
	int flushes = 0;
	std::vector<std::thread> threads;
	for (int c = 0; c < consumerCount; ++c)
	{
		threads.emplace_back([&, c]() {
			int last = -1;
			McConsumer* cons = new McConsumer();
			cons->Attach(queue);
			size_t planIdx = 0;
			int left = plans[c][0].myPops;
			while (true)
			{
				McItem* it = McPop(*cons, last, c);
				if (it != nullptr)
					delete it;
				else
				{
					if (state.myIsProducerDone && state.myLower == state.myPopped)
						break;
					int lower = state.myLower;
					int popped = state.myPopped;
					// Either more elements are available or all is popped.
					sim::WaitFor([&]() {
						return state.myLower != lower ||
							(state.myIsProducerDone && state.myLower == state.myPopped) ||
							(state.myLower > state.myPopped && state.myInProgress == 0);
					}, "more elements");
					(void)popped;
				}
				if (--left <= 0)
				{
					bool isDetach = plans[c][planIdx].myIsDetach;
					planIdx = (planIdx + 1) % plans[c].size();
					left = plans[c][planIdx].myPops;
					if (isDetach)
					{
						cons->Detach();
						cons->Attach(queue);
					}
				}
			}
			delete cons;
		});
	}
	// Producer.
	int pushedInTest = 0;
	auto checkCount = [&]() -> uint32_t {
		uint32_t count = queue->Count();
		if (count != 0)
			return count;
		for (int i = 0; i < pushedInTest && i < 512; ++i)
		{
			std::pair<int, int> trace;
			{
				sim::Quiet q;
				trace = theMcTraceOf[i];
			}
			if (trace.second != 0 && theMcTraces[trace.first][trace.second - 1] != 1)
				Fail("count-trace", "the actions before the pop of element %d are not visible", i);
		}
		return count;
	};
	auto flushTo = [&](int upTo) { if (upTo > state.myUpper) state.myUpper = upTo; };
	auto doPush = [&](bool isPending) {
		McItem* it = new McItem();
		it->mySeq = pushedInTest;
		it->myPayload = it->mySeq * 7919ULL + 13;
		uint64_t events;
		int inProgress, popped, lower;
		bool isAuto;
		{
			sim::Quiet q;
			isAuto = isPending && pushedInTest > 0 && pushedInTest % size == 0;
			if (!isPending)
				flushTo(pushedInTest + 1);
			else if (isAuto)
				flushTo(pushedInTest);
			events = state.myPopEvents;
			inProgress = state.myInProgress;
			popped = state.myPopped;
			lower = state.myLower;
			++state.myPushed;
		}
		bool res = isPending ? queue->PushPending(it) : queue->Push(it);
		sim::Quiet q;
		if (events == state.myPopEvents && inProgress == 0)
		{
			// Nobody else was using the queue. The result must be exact.
			int newLower = !isPending ? pushedInTest + 1 : isAuto ? pushedInTest : lower;
			bool want = newLower > lower && lower == popped;
			if (res != want)
			{
				Fail("became-not-empty", "%s of element %d returned %d, visible %d -> %d, popped "
					"%d", isPending ? "pending push" : "push", pushedInTest, res, lower, newLower,
					popped);
			}
		}
		++pushedInTest;
		if (!isPending)
			state.myLower = pushedInTest;
		else if (isAuto)
			state.myLower = pushedInTest - 1;
	};
	auto doFlush = [&]() {
		uint64_t events;
		int inProgress, popped, lower;
		{
			sim::Quiet q;
			flushTo(pushedInTest);
			events = state.myPopEvents;
			inProgress = state.myInProgress;
			popped = state.myPopped;
			lower = state.myLower;
		}
		bool res = queue->FlushPending();
		sim::Quiet q;
		if (events == state.myPopEvents && inProgress == 0)
		{
			bool want = pushedInTest > lower && lower == popped;
			if (res != want)
				Fail("became-not-empty", "flush returned %d, visible %d -> %d, popped %d", res,
					lower, pushedInTest, popped);
		}
		state.myLower = pushedInTest;
		++flushes;
	};
	for (Op& op : ops)
	{
		switch (op.myKind)
		{
		case 0: doPush(false); break;
		case 1: doPush(true); break;
		case 2: doFlush(); break;
		case 3: queue->Reserve(op.myArg); break;
		case 4: {
			uint64_t events;
			int inProgress, want;
			{
				sim::Quiet q;
				events = state.myPopEvents;
				inProgress = state.myInProgress;
				want = state.myLower - state.myPopped;
			}
			uint32_t count = checkCount();
			sim::Quiet q;
			if (!sim::GetConfig().myIsWeak && events == state.myPopEvents && inProgress == 0 &&
				(int)count != want)
				Fail("count", "count is %u instead of %d", count, want);
			break;
		}
		}
	}
	doFlush();
	state.myIsProducerDone = true;
	if (g.Bool())
	{
		sim::WaitFor([&]() { return state.myPopped == pushedInTest; }, "all is popped");
		checkCount();
	}
	for (std::thread& t : threads)
		t.join();
	if (state.myPopped != pushedInTest)
		Fail("lost", "popped %d of %d", state.myPopped, pushedInTest);
	if (queue->Count() != 0)
		Fail("count", "count is not zero after all is popped");
	if (queue->ConsumerCount() != 0)
		Fail("consumer-count", "consumers remain");
	{
		McConsumer cons(queue);
		if (cons.Pop() != nullptr)
			Fail("garbage", "an extra element");
		if (queue->ConsumerCount() != 1)
			Fail("consumer-count", "wrong consumer count");
	}
	delete queue;
	if (pushedInTest > size)
		Label("several sub-queues");
	if (consumerCount > 1)
		Label("several consumers");
	if (consumerCount > 1 && pushedInTest > size && sim::Preemptions() > 0)
		NonTrivial();
}
