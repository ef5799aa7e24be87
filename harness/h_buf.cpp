// Buffers, their streams, chains and I/O vectors against plain byte sequences.
#include "pbt.h"

#include "mg/box/IOVec.h"
#include "mg/net/Buffer.h"

#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <vector>

using namespace pbt;
using namespace mg::net;
using mg::box::IOVec;

namespace {

static constexpr uint64_t CS = theBufferCopySize;

// Bytes are unique enough to notice any shift, duplicate or loss.
struct ByteSource
{
	uint64_t myNext = 1;
	uint8_t Get()
	{
		uint64_t n = myNext++;
		return (uint8_t)((n * 2654435761u) >> 13);
	}
	std::string Get(uint64_t size)
	{
		std::string res;
		res.resize(size);
		for (auto& c : res)
			c = (char)Get();
		return res;
	}
};

static uint64_t
GenSize(Gen& g, uint64_t limit)
{
	uint64_t res;
	switch (g.Weighted({4, 4, 3, 1}))
	{
	case 0:
		res = g.Below(8);
		break;
	case 1:
		res = g.Below(CS);
		break;
	case 2:
		res = CS * g.Range(1, 4) + g.Below(5) - 2;
		break;
	default:
		res = g.Below(CS * 6);
		break;
	}
	return res < limit ? res : limit;
}

// Exactly sized memory.
struct Block
{
	Block(const std::string& data, uint64_t capacity)
		: myData(new uint8_t[capacity > 0 ? capacity : 1]), mySize(data.size()), myCapacity(capacity)
	{
		memcpy(myData.get(), data.data(), data.size());
		memset(myData.get() + data.size(), 0xEE, capacity - data.size());
	}
	std::unique_ptr<uint8_t[]> myData;
	uint64_t mySize;
	uint64_t myCapacity;
};

static std::string
ChainToString(const Buffer* pos)
{
	std::string res;
	for (; pos != nullptr; pos = pos->myNext.GetPointer())
		res.append((const char*)pos->myRData, pos->myPos);
	return res;
}

}

//////////////////////////////////////////////////////////////////////////////////////////

PBT_TEST(buf_stream, MODE_INPROC, 10)
{
	BufferStream stream;
	BufferReadStream view(stream);
	std::deque<std::unique_ptr<Block>> blocks;
	ByteSource src;
	std::string model;
	int opCount = (int)g.Range(1, g.Chance(1, 6) ? 120 : 25);
	int kinds = 0, crossings = 0;
	// Given away data with what it has to contain.
	std::vector<std::pair<Buffer::Ptr, std::string>> popped;

	auto check = [&]() {
		PBT_CHECK_F(stream.GetReadSize() == model.size(), "stream-rsize", "%llu, need %zu",
			(unsigned long long)stream.GetReadSize(), model.size());
		PBT_CHECK(view.GetReadSize() == model.size(), "stream-view-rsize");
		PBT_CHECK(view.GetReadPos() == stream.GetReadPos(), "stream-view-pos");
		PBT_CHECK(view.IsEmpty() == stream.IsEmpty(), "stream-view-empty");
		if (stream.IsEmpty())
			PBT_CHECK(model.empty(), "stream-empty");
		if (stream.GetReadPos() == nullptr)
			PBT_CHECK(model.empty(), "stream-read-pos");
		// Look at the readable data directly.
		uint64_t left = model.size();
		const char* m = model.data();
		for (const Buffer* pos = stream.GetReadPos(); pos != nullptr && left > 0;
			pos = pos->myNext.GetPointer())
		{
			PBT_CHECK(pos->myPos <= left && pos->myPos <= pos->myCapacity, "stream-chain-size");
			PBT_CHECK(memcmp(pos->myRData, m, pos->myPos) == 0, "stream-chain-data");
			m += pos->myPos;
			left -= pos->myPos;
		}
		PBT_CHECK(left == 0, "stream-chain-short");
		// The writable space.
		uint64_t wsize = 0;
		for (const Buffer* pos = stream.GetWritePos(); pos != nullptr; pos = pos->myNext.GetPointer())
		{
			if (pos != stream.GetWritePos())
				PBT_CHECK(pos->myPos == 0, "stream-wspace-used");
			wsize += pos->myCapacity - pos->myPos;
		}
		PBT_CHECK_F(wsize == stream.GetWriteSize(), "stream-wsize", "%llu, real %llu",
			(unsigned long long)stream.GetWriteSize(), (unsigned long long)wsize);
		for (auto& p : popped)
			PBT_CHECK(ChainToString(p.first.GetPointer()) == p.second, "stream-popped-changed");
	};
	auto makeChain = [&](std::string& outData) {
		Buffer::Ptr head;
		Buffer* tail = nullptr;
		int n = (int)g.Range(1, 4);
		for (int i = 0; i < n; ++i)
		{
			Buffer::Ptr b;
			int kind = (int)g.Below(3);
			if (kind == 0)
			{
				// Full.
				std::string data = src.Get(1 + GenSize(g, CS * 3));
				blocks.emplace_back(new Block(data, data.size()));
				b = BufferRaw::NewShared(blocks.back()->myData.get(), (uint32_t)data.size());
				outData += data;
			}
			else if (kind == 1)
			{
				std::string data = src.Get(1 + GenSize(g, CS * 3));
				uint64_t cap = data.size() + GenSize(g, CS * 2);
				blocks.emplace_back(new Block(data, cap));
				b = BufferRaw::NewShared(blocks.back()->myData.get(), (uint32_t)data.size(), (uint32_t)cap);
				outData += data;
			}
			else
			{
				std::string data = src.Get(g.Chance(1, 3) ? CS : g.Range(1, CS));
				b = BufferCopy::NewShared();
				memcpy(b->myWData, data.data(), data.size());
				b->myPos = (uint32_t)data.size();
				outData += data;
			}
			Describe("   buf %u/%u\n", b->myPos, b->myCapacity);
			Buffer* raw = b.GetPointer();
			if (tail == nullptr)
				head = std::move(b);
			else
				tail->myNext = std::move(b);
			tail = raw;
		}
		return head;
	};
	for (int o = 0; o < opCount; ++o)
	{
		size_t op = g.Weighted({5, 5, 4, 6, 4, 5, 3, 3, 1, 1, 2});
		kinds |= 1 << op;
		switch (op)
		{
		case 0:
		{
			std::string data = src.Get(GenSize(g, CS * 6));
			Describe("write copy %zu\n", data.size());
			std::unique_ptr<Block> tmp(new Block(data, data.size()));
			stream.WriteCopy(tmp->myData.get(), data.size());
			model += data;
			break;
		}
		case 1:
		{
			Describe("write ref\n");
			std::string data;
			Buffer::Ptr head = makeChain(data);
			stream.WriteRef(std::move(head));
			PBT_CHECK(!head.IsSet(), "stream-ref-not-moved");
			model += data;
			break;
		}
		case 2:
		{
			uint64_t size = GenSize(g, CS * 6);
			uint64_t old = stream.GetWriteSize();
			Describe("ensure %llu\n", (unsigned long long)size);
			stream.EnsureWriteSize(size);
			PBT_CHECK(stream.GetWriteSize() >= size, "stream-ensure");
			PBT_CHECK(stream.GetWriteSize() >= old, "stream-ensure-shrunk");
			if (old >= size)
				PBT_CHECK(stream.GetWriteSize() == old, "stream-ensure-excess");
			break;
		}
		case 3:
		{
			// Like a receipt.
			uint64_t wsize = stream.GetWriteSize();
			uint64_t size = g.Chance(1, 4) ? wsize : GenSize(g, wsize);
			Describe("direct %llu of %llu\n", (unsigned long long)size, (unsigned long long)wsize);
			std::string data = src.Get(size);
			if (wsize > 0)
			{
				IOVec vecs[16];
				uint32_t limit = (uint32_t)g.Range(1, 16);
				uint32_t n = BuffersToIOVecsForRead(stream.GetWritePos(), vecs, limit);
				PBT_CHECK(n >= 1 && n <= limit, "stream-iovec-count");
				uint64_t pos = 0, total = 0;
				for (uint32_t i = 0; i < n; ++i)
				{
					PBT_CHECK(vecs[i].mySize > 0, "stream-iovec-empty");
					total += vecs[i].mySize;
				}
				PBT_CHECK(total <= wsize && (n == limit || total == wsize), "stream-iovec-total");
				if (size > total)
				{
					size = total;
					data.resize(size);
				}
				for (uint32_t i = 0; i < n && pos < size; ++i)
				{
					uint64_t part = std::min<uint64_t>(size - pos, vecs[i].mySize);
					memcpy(vecs[i].myData, data.data() + pos, part);
					pos += part;
				}
			}
			stream.PropagateWritePos(size);
			PBT_CHECK(stream.GetWriteSize() == wsize - size, "stream-propagate-wsize");
			model += data;
			break;
		}
		case 4:
		case 5:
		case 6:
		{
			uint64_t rsize = model.size();
			uint64_t size = g.Chance(1, 4) ? rsize : GenSize(g, rsize);
			if (const Buffer* h = stream.GetReadPos())
			{
				// Exactly by the border.
				if (g.Chance(1, 4))
					size = std::min<uint64_t>(h->myPos, rsize);
			}
			Describe("%s %llu of %llu\n", op == 4 ? "skip" : op == 5 ? "read" : "peek",
				(unsigned long long)size, (unsigned long long)rsize);
			if (stream.GetReadPos() != nullptr && stream.GetReadPos()->myPos < size)
				++crossings;
			bool useView = g.Bool();
			if (op == 4)
			{
				if (useView)
					view.SkipData(size);
				else
					stream.SkipData(size);
				model.erase(0, size);
				break;
			}
			std::unique_ptr<uint8_t[]> out(new uint8_t[size > 0 ? size : 1]);
			if (op == 5)
			{
				if (useView)
					view.ReadData(out.get(), size);
				else
					stream.ReadData(out.get(), size);
			}
			else
			{
				if (useView)
					view.PeekData(out.get(), size);
				else
					stream.PeekData(out.get(), size);
			}
			PBT_CHECK(memcmp(out.get(), model.data(), size) == 0, op == 5 ? "stream-read" : "stream-peek");
			if (op == 5)
				model.erase(0, size);
			break;
		}
		case 7:
		{
			Describe("pop of %zu\n", model.size());
			Buffer::Ptr head = stream.PopData();
			PBT_CHECK(head.IsSet() == !model.empty(), "stream-pop-result");
			PBT_CHECK(ChainToString(head.GetPointer()) == model, "stream-pop-data");
			popped.emplace_back(std::move(head), std::move(model));
			model.clear();
			break;
		}
		case 8:
			Describe("clear\n");
			stream.Clear();
			PBT_CHECK(stream.GetWriteSize() == 0 && stream.IsEmpty(), "stream-clear");
			model.clear();
			break;
		case 9:
		{
			Describe("tostring\n");
			std::string str = stream.ToString();
			PBT_CHECK(str.find("RSize: " + std::to_string(model.size()) + "\n") != std::string::npos,
				"stream-tostring");
			break;
		}
		case 10:
			// Give the popped data to the stream again.
			if (!popped.empty() && popped.back().first.IsSet())
			{
				Describe("write popped %zu\n", popped.back().second.size());
				// The popped data might contain fully read holes.
				bool isOk = true;
				for (const Buffer* b = popped.back().first.GetPointer(); b != nullptr; b = b->myNext.GetPointer())
					isOk = isOk && b->myPos > 0;
				if (isOk)
				{
					stream.WriteRef(std::move(popped.back().first));
					model += popped.back().second;
				}
				popped.pop_back();
			}
			break;
		}
		check();
	}
	// Read all what is left.
	std::string rest(model.size(), 0);
	stream.ReadData(rest.data(), rest.size());
	PBT_CHECK(rest == model, "stream-final");
	model.clear();
	check();
	HashMix(kinds * 131 + opCount);
	HashMix(src.myNext);
	if (opCount >= 4 && crossings > 0 && __builtin_popcount(kinds) >= 3)
		NonTrivial();
}

//////////////////////////////////////////////////////////////////////////////////////////
// Lists of chains

namespace {

struct BufSnap
{
	Buffer::Ptr myBuf;
	uint32_t myPos;
	uint32_t myCapacity;
	const uint8_t* myRData;
	Buffer* myNext;
	std::string myData;

	explicit BufSnap(Buffer* b)
	{
		myBuf.Set(b);
		myPos = b->myPos;
		myCapacity = b->myCapacity;
		myRData = b->myRData;
		myNext = b->myNext.GetPointer();
		myData.assign((const char*)b->myRData, b->myPos);
	}
	void Check() const
	{
		PBT_CHECK(myBuf->myPos == myPos && myBuf->myCapacity == myCapacity, "shared-buf-size");
		PBT_CHECK(myBuf->myRData == myRData, "shared-buf-ptr");
		PBT_CHECK(myBuf->myNext.GetPointer() == myNext, "shared-buf-link");
		PBT_CHECK(memcmp(myData.data(), myBuf->myRData, myPos) == 0, "shared-buf-data");
	}
};

struct LinkListModel
{
	std::unique_ptr<BufferLinkList> myList{new BufferLinkList()};
	uint32_t myOffset = 0;
	std::string myData;
};

}

PBT_TEST(buf_links, MODE_INPROC, 10)
{
	ByteSource src;
	std::deque<std::unique_ptr<Block>> blocks;
	// Shared buffers, in chains.
	std::vector<BufSnap> shared;
	std::vector<std::vector<Buffer*>> chains;
	constexpr int listCount = 3;
	LinkListModel lists[listCount];
	int opCount = (int)g.Range(1, g.Chance(1, 6) ? 80 : 25);
	int kinds = 0, sharings = 0;

	auto makeBuf = [&](bool canBeEmpty) -> Buffer::Ptr {
		std::string data = src.Get(canBeEmpty && g.Chance(1, 4) ? 0 : g.Chance(1, 4) ? GenSize(g, CS) + 1 :
			g.Range(1, 9));
		if (g.Chance(1, 4))
		{
			if (data.size() > CS)
				data.resize(CS);
			Buffer::Ptr b = BufferCopy::NewShared();
			memcpy(b->myWData, data.data(), data.size());
			b->myPos = (uint32_t)data.size();
			return b;
		}
		uint64_t cap = data.size() + (g.Bool() ? g.Below(16) : 0);
		blocks.emplace_back(new Block(data, cap));
		return BufferRaw::NewShared(blocks.back()->myData.get(), (uint32_t)data.size(), (uint32_t)cap);
	};
	auto makeChain = [&]() -> Buffer::Ptr {
		int n = (int)g.Range(1, 5);
		Buffer::Ptr head;
		Buffer* tail = nullptr;
		for (int i = 0; i < n; ++i)
		{
			Buffer::Ptr b = makeBuf(true);
			Buffer* raw = b.GetPointer();
			if (tail == nullptr)
				head = std::move(b);
			else
				tail->myNext = std::move(b);
			tail = raw;
			Describe("   buf %u/%u\n", raw->myPos, raw->myCapacity);
		}
		return head;
	};
	int chainCount = (int)g.Range(1, 3);
	for (int i = 0; i < chainCount; ++i)
	{
		Describe("chain %d\n", i);
		Buffer::Ptr head = makeChain();
		chains.emplace_back();
		for (Buffer* b = head.GetPointer(); b != nullptr; b = b->myNext.GetPointer())
		{
			chains.back().push_back(b);
			shared.emplace_back(b);
		}
	}
	auto checkList = [&](LinkListModel& l) {
		const BufferLinkList& cl = *l.myList;
		std::string data;
		for (const BufferLink* link = cl.GetFirst(); link != nullptr; link = link->myNext)
			data += ChainToString(link->myHead.GetPointer());
		PBT_CHECK(cl.GetFirst() == l.myList->GetFirst(), "links-first");
		PBT_CHECK(cl.IsEmpty() == (cl.GetFirst() == nullptr), "links-empty");
		if (!l.myData.empty())
			PBT_CHECK(!cl.IsEmpty(), "links-lost");
		PBT_CHECK(l.myOffset <= data.size(), "links-offset");
		PBT_CHECK_F(data.size() - l.myOffset == l.myData.size(), "links-size", "%zu - %u, need %zu", data.size(),
			l.myOffset, l.myData.size());
		PBT_CHECK(data.compare(l.myOffset, std::string::npos, l.myData) == 0, "links-data");
	};
	auto canVec = [&](LinkListModel& l) {
		// The offset has to be inside of the first not empty buffer.
		for (const BufferLink* link = l.myList->GetFirst(); link != nullptr; link = link->myNext)
		{
			for (const Buffer* b = link->myHead.GetPointer(); b != nullptr; b = b->myNext.GetPointer())
			{
				if (b->myPos > 0)
					return l.myOffset < b->myPos;
			}
		}
		return true;
	};
	for (int o = 0; o < opCount; ++o)
	{
		int a = (int)g.Below(listCount);
		LinkListModel& l = lists[a];
		size_t op = g.Weighted({5, 3, 2, 3, 2, 2, 6, 4, 5, 3, 2, 1, 3});
		kinds |= 1 << op;
		Describe("list %d op %zu\n", a, op);
		switch (op)
		{
		case 0:
		{
			auto& c = chains[g.Below(chains.size())];
			size_t pos = g.Chance(1, 3) ? g.Below(c.size()) : 0;
			Buffer* b = c[pos];
			Describe("  shared from %zu\n", pos);
			++sharings;
			if (g.Bool())
			{
				l.myList->AppendRef((const Buffer*)b);
			}
			else
			{
				Buffer::Ptr p;
				p.Set(b);
				if (g.Bool())
				{
					l.myList->AppendRef(p);
					PBT_CHECK(p.GetPointer() == b, "links-ref-changed");
				}
				else
				{
					l.myList->AppendRef(std::move(p));
				}
			}
			l.myData += ChainToString(b);
			break;
		}
		case 1:
		{
			Buffer::Ptr head = makeChain();
			l.myData += ChainToString(head.GetPointer());
			l.myList->AppendRef(std::move(head));
			break;
		}
		case 2:
		{
			std::string data = src.Get(GenSize(g, CS * 4));
			blocks.emplace_back(new Block(data, data.size()));
			Describe("  ref %zu\n", data.size());
			l.myList->AppendRef(blocks.back()->myData.get(), data.size());
			l.myData += data;
			break;
		}
		case 3:
		{
			std::string data = src.Get(GenSize(g, CS * 4));
			Block block(data, data.size());
			Describe("  copy %zu\n", data.size());
			l.myList->AppendCopy(block.myData.get(), data.size());
			l.myData += data;
			break;
		}
		case 4:
		{
			int n = (int)g.Below(4);
			BufferLink* head = nullptr;
			BufferLink* tail = nullptr;
			for (int i = 0; i < n; ++i)
			{
				BufferLink* link;
				if (g.Chance(1, 5))
				{
					link = new BufferLink();
				}
				else if (g.Bool())
				{
					Buffer* b = chains[g.Below(chains.size())][0];
					link = new BufferLink((const Buffer*)b);
					++sharings;
				}
				else
				{
					link = new BufferLink(makeChain());
				}
				l.myData += ChainToString(link->myHead.GetPointer());
				if (tail == nullptr)
					head = link;
				else
					tail->myNext = link;
				tail = link;
			}
			l.myList->AppendMove(head);
			break;
		}
		case 5:
		{
			LinkListModel& s = lists[(a + 1) % listCount];
			// The offset is not a part of the list.
			if (s.myOffset != 0)
				break;
			l.myList->Append(std::move(*s.myList));
			l.myData += s.myData;
			s.myData.clear();
			PBT_CHECK(s.myList->IsEmpty(), "links-append-source");
			break;
		}
		case 6:
		{
			uint64_t n = g.Chance(1, 5) ? l.myData.size() : g.Chance(1, 3) ? GenSize(g, l.myData.size()) :
				std::min<uint64_t>(g.Below(12), l.myData.size());
			Describe("  skip %llu of %zu offset %u\n", (unsigned long long)n, l.myData.size(), l.myOffset);
			l.myList->SkipData(l.myOffset, n);
			l.myData.erase(0, n);
			break;
		}
		case 7:
		{
			BufferLink* first = l.myList->GetFirst();
			if (first != nullptr && first->myHead.IsSet() && l.myOffset < first->myHead->myPos && g.Chance(1, 3))
			{
				// The first buffer is fully sent.
				uint32_t n = first->myHead->myPos - l.myOffset;
				l.myOffset += n;
				l.myData.erase(0, n);
			}
			Describe("  skip empty prefix offset %u\n", l.myOffset);
			l.myList->SkipEmptyPrefix(l.myOffset);
			first = l.myList->GetFirst();
			if (first == nullptr)
			{
				PBT_CHECK(l.myOffset == 0, "links-prefix-offset");
				PBT_CHECK(l.myData.empty(), "links-prefix-lost");
			}
			else
			{
				PBT_CHECK(first->myHead.IsSet() && first->myHead->myPos > l.myOffset, "links-prefix");
			}
			break;
		}
		case 8:
		{
			if (!canVec(l))
				break;
			// Imitate partial sends until get tired.
			int rounds = (int)g.Range(1, 3);
			for (int i = 0; i < rounds; ++i)
			{
				IOVec vecs[12];
				uint32_t limit = (uint32_t)g.Range(1, 12);
				IOVec canary;
				canary.myData = &canary;
				canary.mySize = 77;
				for (auto& v : vecs)
					v = canary;
				uint32_t n = BuffersToIOVecsForWrite(*l.myList, l.myOffset, vecs, limit);
				Describe("  vecs %u of %u\n", n, limit);
				PBT_CHECK(n <= limit, "links-vec-limit");
				for (uint32_t j = n; j < 12; ++j)
					PBT_CHECK(vecs[j].myData == &canary && vecs[j].mySize == 77, "links-vec-overrun");
				std::string data;
				for (uint32_t j = 0; j < n; ++j)
				{
					PBT_CHECK(vecs[j].mySize > 0, "links-vec-empty");
					data.append((const char*)vecs[j].myData, vecs[j].mySize);
				}
				PBT_CHECK(data.size() <= l.myData.size() && l.myData.compare(0, data.size(), data) == 0,
					"links-vec-data");
				if (n < limit)
					PBT_CHECK(data.size() == l.myData.size(), "links-vec-short");
				uint64_t sent = g.Chance(1, 3) ? data.size() : GenSize(g, data.size());
				l.myList->SkipData(l.myOffset, sent);
				l.myData.erase(0, sent);
				checkList(l);
				if (!canVec(l))
					pbt::Fail("links-skip-offset", "offset %u is out of the first buffer", l.myOffset);
				// The rest of the vectors, like after a partial write.
				IOVec* v = vecs;
				uint32_t cnt = n;
				mg::box::IOVecPropagate(v, cnt, (uint32_t)sent);
				std::string rest;
				PBT_CHECK(v + cnt == vecs + n, "iovec-propagate-end");
				for (uint32_t j = 0; j < cnt; ++j)
				{
					PBT_CHECK(v[j].mySize > 0, "iovec-propagate-empty");
					rest.append((const char*)v[j].myData, v[j].mySize);
				}
				PBT_CHECK(rest == data.substr(sent), "iovec-propagate-data");
			}
			break;
		}
		case 9:
		{
			// A copy owns its data.
			Buffer::Ptr copy = BuffersCopy(l.myList->GetFirst());
			std::string all;
			for (const BufferLink* link = l.myList->GetFirst(); link != nullptr; link = link->myNext)
				all += ChainToString(link->myHead.GetPointer());
			PBT_CHECK(copy.IsSet() == !all.empty(), "links-copy-null");
			PBT_CHECK(ChainToString(copy.GetPointer()) == all, "links-copy-data");
			for (Buffer* b = copy.GetPointer(); b != nullptr; b = b->myNext.GetPointer())
			{
				PBT_CHECK(b->myPos > 0 && b->myPos <= b->myCapacity, "links-copy-buf");
				memset(b->myWData, 0xAA, b->myCapacity);
			}
			break;
		}
		case 10:
		{
			BufferLink* first = l.myList->GetFirst();
			if (first == nullptr)
				break;
			std::string data = ChainToString(first->myHead.GetPointer());
			if (l.myOffset > data.size())
				break;
			BufferLink* link = l.myList->PopFirst();
			PBT_CHECK(link == first, "links-pop");
			l.myData.erase(0, data.size() - l.myOffset);
			l.myOffset = 0;
			delete link;
			break;
		}
		case 11:
			l.myList->Clear();
			l.myData.clear();
			l.myOffset = 0;
			if (g.Bool())
				l.myList.reset(new BufferLinkList());
			break;
		case 12:
		{
			// Copy of a chain.
			auto& c = chains[g.Below(chains.size())];
			Buffer* b = c[g.Below(c.size())];
			std::string data = ChainToString(b);
			Buffer::Ptr copy = BuffersCopy((const Buffer*)b);
			PBT_CHECK(copy.IsSet() == !data.empty(), "chain-copy-null");
			PBT_CHECK(ChainToString(copy.GetPointer()) == data, "chain-copy-data");
			for (Buffer* i = copy.GetPointer(); i != nullptr; i = i->myNext.GetPointer())
			{
				PBT_CHECK(i->myPos > 0 && i->myPos <= i->myCapacity, "chain-copy-buf");
				memset(i->myWData, 0xAA, i->myCapacity);
			}
			IOVec vecs[12];
			uint32_t limit = (uint32_t)g.Range(1, 12);
			uint32_t n = BuffersToIOVecsForWrite((const Buffer*)b, 0, vecs, limit);
			PBT_CHECK(n <= limit, "chain-vec-limit");
			std::string vecData;
			for (uint32_t j = 0; j < n; ++j)
			{
				PBT_CHECK(vecs[j].mySize > 0, "chain-vec-empty");
				vecData.append((const char*)vecs[j].myData, vecs[j].mySize);
			}
			PBT_CHECK(data.compare(0, vecData.size(), vecData) == 0, "chain-vec-data");
			if (n < limit)
				PBT_CHECK(data.size() == vecData.size(), "chain-vec-short");
			break;
		}
		}
		for (auto& i : lists)
			checkList(i);
		for (auto& s : shared)
			s.Check();
	}
	for (auto& i : lists)
		i.myList.reset();
	for (auto& s : shared)
		s.Check();
	HashMix(kinds * 131 + opCount);
	HashMix(src.myNext);
	if (opCount >= 4 && sharings >= 1 && __builtin_popcount(kinds) >= 3)
		NonTrivial();
}

//////////////////////////////////////////////////////////////////////////////////////////
// Chains as one big buffer

PBT_TEST(buf_chain, MODE_INPROC, 10)
{
	ByteSource src;
	std::deque<std::unique_ptr<Block>> blocks;
	int mode = (int)g.Weighted({6, 6, 3, 1});
	HashMix(mode);
	switch (mode)
	{
	case 0:
	case 1:
	{
		// Write positions or read positions of a chain with all the data and then the free
		// space, like a receiver has.
		int n = (int)g.Range(1, 6);
		Buffer::Ptr head;
		Buffer* tail = nullptr;
		uint64_t rsize = 0, wsize = 0;
		bool isData = true;
		std::string model;
		for (int i = 0; i < n; ++i)
		{
			uint64_t cap = g.Range(1, g.Chance(1, 4) ? 3000 : 9);
			uint64_t size = 0;
			if (isData)
			{
				size = g.Bool() ? cap : g.Below(cap + 1);
				if (size < cap)
					isData = false;
			}
			std::string data = src.Get(size);
			model += data;
			blocks.emplace_back(new Block(data, cap));
			Buffer::Ptr b = BufferRaw::NewShared(blocks.back()->myData.get(), (uint32_t)size, (uint32_t)cap);
			Describe("buf %llu/%llu\n", (unsigned long long)size, (unsigned long long)cap);
			Buffer* raw = b.GetPointer();
			rsize += size;
			wsize += cap - size;
			if (tail == nullptr)
				head = std::move(b);
			else
				tail->myNext = std::move(b);
			tail = raw;
		}
		int rounds = (int)g.Range(1, 5);
		for (int r = 0; r < rounds; ++r)
		{
			if (mode == 0 || g.Bool())
			{
				// Find the writable position.
				Buffer* w = head.GetPointer();
				while (w != nullptr && w->myPos == w->myCapacity)
					w = w->myNext.GetPointer();
				if (w == nullptr)
					break;
				uint64_t size = g.Chance(1, 4) ? wsize : GenSize(g, wsize);
				Describe("propagate write %llu of %llu\n", (unsigned long long)size, (unsigned long long)wsize);
				IOVec vecs[8];
				uint32_t limit = (uint32_t)g.Range(1, 8);
				uint32_t cnt = BuffersToIOVecsForRead(w, vecs, limit);
				PBT_CHECK(cnt >= 1 && cnt <= limit, "chain-rvec-limit");
				uint64_t total = 0;
				for (uint32_t i = 0; i < cnt; ++i)
				{
					PBT_CHECK(vecs[i].mySize > 0, "chain-rvec-empty");
					total += vecs[i].mySize;
				}
				PBT_CHECK(cnt == limit ? total <= wsize : total == wsize, "chain-rvec-size");
				size = std::min(size, total);
				std::string data = src.Get(size);
				uint64_t pos = 0;
				for (uint32_t i = 0; i < cnt && pos < size; ++i)
				{
					uint64_t part = std::min<uint64_t>(size - pos, vecs[i].mySize);
					memcpy(vecs[i].myData, data.data() + pos, part);
					pos += part;
				}
				Buffer* end = BuffersPropagateOnWrite(w, size);
				PBT_CHECK(size == 0 || end->myPos > 0, "chain-propagate-end");
				model += data;
				wsize -= size;
			}
			else
			{
				uint64_t size = g.Chance(1, 4) ? model.size() : GenSize(g, model.size());
				Describe("propagate read %llu of %zu\n", (unsigned long long)size, model.size());
				// The free space in the middle is lost when is skipped.
				BuffersPropagateOnRead(head, size);
				model.erase(0, size);
				if (!head.IsSet())
				{
					PBT_CHECK(model.empty(), "chain-read-lost");
					break;
				}
				wsize = 0;
				for (const Buffer* b = head.GetPointer(); b != nullptr; b = b->myNext.GetPointer())
					wsize += b->myCapacity - b->myPos;
			}
			std::string data = ChainToString(head.GetPointer());
			PBT_CHECK(data == model, "chain-propagate-data");
			uint64_t realW = 0;
			for (const Buffer* b = head.GetPointer(); b != nullptr; b = b->myNext.GetPointer())
			{
				PBT_CHECK(b->myPos <= b->myCapacity, "chain-propagate-pos");
				realW += b->myCapacity - b->myPos;
			}
			PBT_CHECK(realW == wsize, "chain-propagate-wsize");
		}
		HashMix(rsize);
		if (n >= 2)
			NonTrivial();
		break;
	}
	case 2:
	{
		std::string data = src.Get(GenSize(g, CS * 8));
		Describe("copy %zu\n", data.size());
		std::unique_ptr<Block> block(new Block(data, data.size()));
		Buffer::Ptr copy = BuffersCopy(block->myData.get(), data.size());
		Buffer::Ptr ref = BuffersRef(block->myData.get(), data.size());
		PBT_CHECK(copy.IsSet() == !data.empty() && ref.IsSet() == !data.empty(), "chain-make-null");
		PBT_CHECK(ChainToString(ref.GetPointer()) == data, "chain-ref-data");
		uint8_t* raw = block->myData.get();
		for (const Buffer* b = ref.GetPointer(); b != nullptr; b = b->myNext.GetPointer())
		{
			PBT_CHECK(b->myRData == raw && b->myPos == b->myCapacity, "chain-ref-ptr");
			raw += b->myPos;
		}
		ref.Clear();
		block.reset();
		PBT_CHECK(ChainToString(copy.GetPointer()) == data, "chain-copy-own");
		for (const Buffer* b = copy.GetPointer(); b != nullptr; b = b->myNext.GetPointer())
			PBT_CHECK(b->myPos > 0 && (!b->myNext.IsSet() || b->myPos == b->myCapacity), "chain-copy-holes");
		HashMix(data.size());
		if (data.size() > CS)
			NonTrivial();
		break;
	}
	case 3:
	{
		// Sizes which don't fit into one buffer. The data is not touched.
		uint64_t size = g.Range(1, 4) * (uint64_t)UINT32_MAX + g.Below(5) - 2;
		if (g.Chance(1, 4))
			size = g.Range(1, 1ULL << 35);
		const uint8_t* data = (const uint8_t*)0x100000000000;
		Describe("huge %llu\n", (unsigned long long)size);
		BufferLinkList list;
		list.AppendRef(data, size);
		uint64_t total = 0;
		IOVec vecs[64];
		uint32_t n = BuffersToIOVecsForWrite(list, 0, vecs, 64);
		for (uint32_t i = 0; i < n; ++i)
		{
			PBT_CHECK(vecs[i].myData == data + total && vecs[i].mySize > 0, "chain-huge-vec");
			total += vecs[i].mySize;
		}
		PBT_CHECK(total == size, "chain-huge-size");
		uint64_t skipped = 0;
		uint32_t offset = 0;
		while (skipped < size)
		{
			uint64_t s = g.Bool() ? g.Range(1, size - skipped) : size - skipped;
			list.SkipData(offset, s);
			skipped += s;
			n = BuffersToIOVecsForWrite(list, offset, vecs, 64);
			total = 0;
			for (uint32_t i = 0; i < n; ++i)
			{
				PBT_CHECK(vecs[i].myData == data + skipped + total && vecs[i].mySize > 0, "chain-huge-vec-skip");
				total += vecs[i].mySize;
			}
			PBT_CHECK(total == size - skipped, "chain-huge-size-skip");
		}
		PBT_CHECK(list.IsEmpty() && offset == 0, "chain-huge-end");
		// A long chain is destroyed without a deep recursion, partially when somebody else
		// needs its tail.
		if (g.Chance(1, 40))
		{
			Buffer::Ptr head = BufferRaw::NewShared(data, 1u);
			Buffer* tail = head.GetPointer();
			Buffer::Ptr keep;
			int len = 150000;
			int keepAt = g.Bool() ? (int)g.Below(len) : -1;
			for (int i = 0; i < len; ++i)
			{
				tail = (tail->myNext = BufferRaw::NewShared(data, 1u)).GetPointer();
				if (i == keepAt)
					keep.Set(tail);
			}
			head.Clear();
			int left = 0;
			for (Buffer* b = keep.GetPointer(); b != nullptr; b = b->myNext.GetPointer())
				++left;
			PBT_CHECK(left == (keepAt < 0 ? 0 : len - keepAt), "chain-long-tail");
		}
		HashMix(size);
		NonTrivial();
		break;
	}
	}
}
