// Containers against sequential models: heaps, lists, shared pointers, the multi-consumer
// queue used by one thread.
#include "pbt.h"

#include "mg/box/BinaryHeap.h"
#include "mg/box/DoublyList.h"
#include "mg/box/ForwardList.h"
#include "mg/box/MultiConsumerQueue.h"
#include "mg/box/SharedPtr.h"

#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <vector>

using namespace pbt;

//////////////////////////////////////////////////////////////////////////////////////////
// Heaps

namespace {

struct HeapItem
{
	HeapItem() = default;
	HeapItem(int64_t key, int id) : myKey(key), myId(id), myIndex(-1) {}
	int64_t myKey = 0;
	int myId = 0;
	uint64_t myGuard1 = 0x1122334455667788;
	int32_t myIndex = -1;
	uint64_t myGuard2 = 0x8877665544332211;

	bool operator<=(const HeapItem& o) const { return myKey <= o.myKey; }
	bool operator>=(const HeapItem& o) const { return myKey >= o.myKey; }
};

// Value with owned memory. A moved-out value is not comparable.
struct HeapValue
{
	HeapValue() = default;
	HeapValue(int64_t key, int id) : myKey(new int64_t(key)), myId(new int(id)) {}
	HeapValue(const HeapValue& o)
	{
		if (o.myKey)
		{
			myKey.reset(new int64_t(*o.myKey));
			myId.reset(new int(*o.myId));
		}
	}
	HeapValue(HeapValue&&) = default;
	HeapValue& operator=(HeapValue&& o)
	{
		if (&o == this)
			pbt::Fail("heap-self-move", "self move of a value");
		myKey = std::move(o.myKey);
		myId = std::move(o.myId);
		return *this;
	}
	HeapValue& operator=(const HeapValue& o) { HeapValue c(o); *this = std::move(c); return *this; }
	std::unique_ptr<int64_t> myKey;
	std::unique_ptr<int> myId;
	static void Check(const HeapValue& a, const HeapValue& b)
	{
		if (!a.myKey || !b.myKey)
			pbt::Fail("heap-moved-out", "a moved-out value is compared");
	}
	bool operator<=(const HeapValue& o) const { Check(*this, o); return *myKey <= *o.myKey; }
	bool operator>=(const HeapValue& o) const { Check(*this, o); return *myKey >= *o.myKey; }
};

static int64_t
GenKey(Gen& g, int keyClass)
{
	switch (keyClass)
	{
	case 0:
		return (int64_t)g.Below(4);
	case 1:
		return (int64_t)g.Below(64);
	case 2:
		return (int64_t)g.Edge64();
	default:
		return (int64_t)g.Any();
	}
}

enum HeapKind
{
	HEAP_VALUE,
	HEAP_PTR,
	HEAP_INTRUSIVE,
};

template<typename Heap, typename T, HeapKind kind, bool isMin>
static void
RunHeap(Gen& g)
{
	Heap heap;
	// By id.
	std::map<int, int64_t> model;
	std::map<int, std::unique_ptr<HeapItem>> items;
	int nextId = 1;
	int keyClass = (int)g.Below(4);
	int maxCount = g.Chance(1, 4) ? 200 : g.Chance(1, 2) ? 40 : 9;
	int opCount = (int)g.Range(1, g.Chance(1, 5) ? 600 : 80);
	int bias = (int)g.Below(3);
	uint32_t maxSeen = 0, inner = 0;

	auto idOf = [](const T& v) -> int {
		if constexpr (kind == HEAP_VALUE)
			return v.myId ? *v.myId : -1;
		else
			return v->myId;
	};
	auto keyOf = [](const T& v) -> int64_t {
		if constexpr (kind == HEAP_VALUE)
			return v.myKey ? *v.myKey : 0;
		else
			return v->myKey;
	};
	auto extreme = [&]() {
		int64_t res = model.begin()->second;
		for (auto& p : model)
			res = isMin ? std::min(res, p.second) : std::max(res, p.second);
		return res;
	};
	auto check = [&]() {
		PBT_CHECK_F(heap.Count() == model.size(), "heap-count", "%u vs %zu", heap.Count(), model.size());
		maxSeen = std::max(maxSeen, heap.Count());
		if (!model.empty())
		{
			const Heap& ch = heap;
			PBT_CHECK(&ch.GetTop() == &heap.GetTop(), "heap-top-const");
			int id = idOf(heap.GetTop());
			auto it = model.find(id);
			PBT_CHECK_F(it != model.end(), "heap-top-alien", "id %d", id);
			PBT_CHECK_F(it->second == keyOf(heap.GetTop()), "heap-top-key", "id %d", id);
			int64_t ext = extreme();
			PBT_CHECK_F(it->second == ext, "heap-top-not-extreme", "%lld vs %lld", (long long)it->second,
				(long long)ext);
		}
		if constexpr (kind == HEAP_INTRUSIVE)
		{
			std::vector<bool> used(model.size());
			for (auto& p : items)
			{
				HeapItem* i = p.second.get();
				bool inside = model.count(p.first) != 0;
				if (!inside)
				{
					PBT_CHECK_F(i->myIndex == -1, "heap-index-outside", "index %d", i->myIndex);
					continue;
				}
				PBT_CHECK_F(i->myIndex >= 0 && (size_t)i->myIndex < model.size(), "heap-index-range",
					"index %d", i->myIndex);
				PBT_CHECK(!used[i->myIndex], "heap-index-dup");
				used[i->myIndex] = true;
				if (heap.GetTop() == i)
					PBT_CHECK(i->myIndex == 0, "heap-index-top");
			}
		}
		for (auto& p : items)
		{
			PBT_CHECK(p.second->myGuard1 == 0x1122334455667788 && p.second->myGuard2 == 0x8877665544332211,
				"heap-corrupt");
		}
	};
	auto removeModel = [&](int id) {
		auto it = model.find(id);
		PBT_CHECK_F(it != model.end(), "heap-pop-alien", "id %d", id);
		int64_t ext = extreme();
		PBT_CHECK_F(it->second == ext, "heap-pop-not-extreme", "%lld vs %lld", (long long)it->second,
			(long long)ext);
		model.erase(it);
	};
	auto pop = [&]() {
		T out{};
		bool ok = heap.Pop(out);
		PBT_CHECK(ok == !model.empty(), "heap-pop-result");
		if (!ok)
			return;
		int id = idOf(out);
		PBT_CHECK_F(model.count(id) && model[id] == keyOf(out), "heap-pop-key", "id %d", id);
		removeModel(id);
	};
	for (int i = 0; i < opCount; ++i)
	{
		size_t op = bias == 0 ? g.Weighted({6, 2, 2, 2, 2, 1, 1}) :
			bias == 1 ? g.Weighted({3, 3, 1, 2, 2, 1, 1}) : g.Weighted({3, 1, 1, 6, 3, 2, 1});
		switch (op)
		{
		case 0:
		{
			if ((int)model.size() >= maxCount)
				break;
			int id;
			int64_t key = GenKey(g, keyClass);
			if constexpr (kind == HEAP_VALUE)
			{
				id = nextId++;
				HeapValue v(key, id);
				heap.Push(v);
				PBT_CHECK(v.myKey && *v.myKey == key, "heap-push-changed-source");
			}
			else
			{
				// Removed items can be pushed again.
				id = 0;
				if (items.size() > model.size() && g.Bool())
				{
					for (auto& p : items)
					{
						if (model.count(p.first) == 0)
						{
							id = p.first;
							break;
						}
					}
				}
				if (id == 0)
				{
					id = nextId++;
					items[id].reset(new HeapItem(key, id));
				}
				items[id]->myKey = key;
				heap.Push(items[id].get());
			}
			Describe("push %d key %lld\n", id, (long long)key);
			model[id] = key;
			break;
		}
		case 1:
			Describe("pop\n");
			pop();
			break;
		case 2:
		{
			Describe("removetop\n");
			int id = model.empty() ? 0 : idOf(heap.GetTop());
			bool ok = heap.RemoveTop();
			PBT_CHECK(ok == !model.empty(), "heap-removetop-result");
			if (ok)
				removeModel(id);
			break;
		}
		case 3:
		{
			if (model.empty())
				break;
			int64_t key = GenKey(g, keyClass);
			if (kind == HEAP_INTRUSIVE)
			{
				auto it = model.begin();
				std::advance(it, g.Below(model.size()));
				Describe("update %d key %lld\n", it->first, (long long)key);
				it->second = key;
				if constexpr (kind == HEAP_INTRUSIVE)
				{
					HeapItem* item = items[it->first].get();
					if (item->myIndex > 0)
						++inner;
					item->myKey = key;
					heap.Update(item);
				}
				break;
			}
			[[fallthrough]];
		}
		case 5:
		{
			if (model.empty())
				break;
			// Any key: the top can only go down, so any change is allowed.
			int64_t key = GenKey(g, keyClass);
			int id = idOf(heap.GetTop());
			Describe("updatetop %d key %lld\n", id, (long long)key);
			if constexpr (kind == HEAP_VALUE)
				*heap.GetTop().myKey = key;
			else
				heap.GetTop()->myKey = key;
			model[id] = key;
			heap.UpdateTop();
			break;
		}
		case 4:
		{
			if (model.empty())
				break;
			if constexpr (kind == HEAP_INTRUSIVE)
			{
				auto it = model.begin();
				std::advance(it, g.Below(model.size()));
				Describe("remove %d\n", it->first);
				HeapItem* item = items[it->first].get();
				if (item->myIndex > 0)
					++inner;
				heap.Remove(item);
				int id = it->first;
				model.erase(it);
				if (g.Bool())
					items.erase(id);
			}
			break;
		}
		case 6:
		{
			uint32_t n = (uint32_t)g.Below(maxCount * 2);
			heap.Reserve(n);
			PBT_CHECK(heap.GetCapacity() >= n, "heap-reserve");
			break;
		}
		}
		check();
	}
	uint32_t left = heap.Count();
	while (!model.empty())
	{
		pop();
		if (left < 30)
			check();
	}
	check();
	PBT_CHECK(!heap.RemoveTop(), "heap-empty-remove");
	HashMix(opCount * 131 + maxSeen);
	if (maxSeen >= 4 && (kind != HEAP_INTRUSIVE || inner >= 1))
		NonTrivial();
}

}

PBT_TEST(heap, MODE_INPROC, 10)
{
	int kind = (int)g.Below(6);
	Describe("kind %d\n", kind);
	HashMix(kind);
	using namespace mg::box;
	switch (kind)
	{
	case 0:
		Label("min-intrusive");
		return RunHeap<BinaryHeapMinIntrusive<HeapItem>, HeapItem*, HEAP_INTRUSIVE, true>(g);
	case 1:
		Label("max-intrusive");
		return RunHeap<BinaryHeapMaxIntrusive<HeapItem>, HeapItem*, HEAP_INTRUSIVE, false>(g);
	case 2:
		Label("min-ptr");
		return RunHeap<BinaryHeapMinPtr<HeapItem>, HeapItem*, HEAP_PTR, true>(g);
	case 3:
		Label("max-ptr");
		return RunHeap<BinaryHeapMaxPtr<HeapItem>, HeapItem*, HEAP_PTR, false>(g);
	case 4:
		Label("min-value");
		return RunHeap<BinaryHeapMin<HeapValue>, HeapValue, HEAP_VALUE, true>(g);
	case 5:
		Label("max-value");
		return RunHeap<BinaryHeapMax<HeapValue>, HeapValue, HEAP_VALUE, false>(g);
	}
}

//////////////////////////////////////////////////////////////////////////////////////////
// Lists

namespace {

struct ListItem
{
	uint64_t myGuard1 = 1;
	ListItem* myPrev = nullptr;
	ListItem* myNext = nullptr;
	ListItem* myAltPrev = nullptr;
	uint64_t myGuard2 = 2;
	ListItem* myAltNext = nullptr;
	int myId = 0;
};

template<typename List, ListItem* ListItem::*next, ListItem* ListItem::*prev, bool isDoubly>
static void
RunList(Gen& g)
{
	constexpr int listCount = 3;
	// The lists live in the heap memory so stale self-pointers are noticed.
	std::unique_ptr<List> lists[listCount];
	std::vector<ListItem*> model[listCount];
	std::vector<std::unique_ptr<ListItem>> items;
	std::vector<ListItem*> freeItems;
	int itemCount = (int)g.Range(1, 12);
	for (int i = 0; i < itemCount; ++i)
	{
		items.emplace_back(new ListItem());
		items.back()->myId = i;
		freeItems.push_back(items.back().get());
	}
	for (auto& l : lists)
		l.reset(new List());
	int opCount = (int)g.Range(1, g.Chance(1, 6) ? 200 : 40);
	int splices = 0;
	size_t maxSize = 0;

	auto check = [&](int i) {
		List& l = *lists[i];
		const List& cl = l;
		std::vector<ListItem*>& m = model[i];
		maxSize = std::max(maxSize, m.size());
		PBT_CHECK(cl.IsEmpty() == m.empty(), "list-empty");
		ListItem* first = m.empty() ? nullptr : m.front();
		ListItem* last = m.empty() ? nullptr : m.back();
		PBT_CHECK(l.GetFirst() == first && cl.GetFirst() == first, "list-first");
		PBT_CHECK(l.GetLast() == last && cl.GetLast() == last, "list-last");
		size_t n = 0;
		for (ListItem* it : l)
		{
			PBT_CHECK(n < m.size() && it == m[n], "list-order");
			++n;
		}
		PBT_CHECK(n == m.size(), "list-size");
		n = 0;
		for (const ListItem* it : cl)
		{
			PBT_CHECK(n < m.size() && it == m[n], "list-order-const");
			++n;
		}
		PBT_CHECK(n == m.size(), "list-size-const");
		if (isDoubly)
		{
			ListItem* it = l.GetLast();
			n = m.size();
			while (it != nullptr)
			{
				PBT_CHECK(n > 0 && it == m[n - 1], "list-order-back");
				--n;
				it = it->*prev;
			}
			PBT_CHECK(n == 0, "list-size-back");
		}
		for (auto& it : items)
			PBT_CHECK(it->myGuard1 == 1 && it->myGuard2 == 2, "list-corrupt");
	};
	// Free items linked with each other, but with garbage in the outside links.
	auto takeRange = [&](std::vector<ListItem*>& out) {
		size_t n = freeItems.empty() ? 0 : g.Below(std::min<size_t>(freeItems.size(), 4) + 1);
		for (size_t i = 0; i < n; ++i)
		{
			size_t pos = g.Below(freeItems.size());
			out.push_back(freeItems[pos]);
			freeItems.erase(freeItems.begin() + pos);
		}
		for (size_t i = 0; i < n; ++i)
		{
			out[i]->*next = i + 1 < n ? out[i + 1] : items[0].get();
			out[i]->*prev = i > 0 ? out[i - 1] : items[0].get();
		}
	};
	auto takeOne = [&]() -> ListItem* {
		if (freeItems.empty())
			return nullptr;
		size_t pos = g.Below(freeItems.size());
		ListItem* res = freeItems[pos];
		freeItems.erase(freeItems.begin() + pos);
		// Garbage.
		res->*next = items[0].get();
		res->*prev = items[0].get();
		return res;
	};
	auto putFree = [&](ListItem* i) { freeItems.push_back(i); };

	for (int o = 0; o < opCount; ++o)
	{
		int a = (int)g.Below(listCount);
		int b = (a + 1 + (int)g.Below(listCount - 1)) % listCount;
		List& l = *lists[a];
		std::vector<ListItem*>& m = model[a];
		std::vector<ListItem*>& mb = model[b];
		size_t op = g.Weighted({5, 4, 3, 3, 4, 4, 2, 1, 2, 2, 3, 2, 3, 3, 3, 2, 3});
		switch (op)
		{
		case 0:
			if (ListItem* i = takeOne())
			{
				Describe("append %d\n", a);
				l.Append(i);
				m.push_back(i);
			}
			break;
		case 1:
			if (ListItem* i = takeOne())
			{
				Describe("prepend %d\n", a);
				l.Prepend(i);
				m.insert(m.begin(), i);
			}
			break;
		case 2:
		case 3:
		{
			std::vector<ListItem*> r;
			takeRange(r);
			ListItem* first = r.empty() ? nullptr : r.front();
			ListItem* last = r.empty() ? nullptr : r.back();
			Describe("%s range %d of %zu\n", op == 2 ? "append" : "prepend", a, r.size());
			if (op == 2)
				l.Append(first, last);
			else
				l.Prepend(first, last);
			m.insert(op == 2 ? m.end() : m.begin(), r.begin(), r.end());
			break;
		}
		case 4:
		case 5:
			Describe("%s list %d from %d\n", op == 4 ? "append" : "prepend", a, b);
			if (!m.empty() && !mb.empty())
				++splices;
			if (op == 4)
				l.Append(std::move(*lists[b]));
			else
				l.Prepend(std::move(*lists[b]));
			m.insert(op == 4 ? m.end() : m.begin(), mb.begin(), mb.end());
			mb.clear();
			break;
		case 6:
			Describe("reverse %d\n", a);
			l.Reverse();
			std::reverse(m.begin(), m.end());
			break;
		case 7:
			Describe("clear %d\n", a);
			l.Clear();
			for (ListItem* i : m)
				putFree(i);
			m.clear();
			break;
		case 8:
		case 9:
		{
			Describe("popall %d\n", a);
			ListItem* last = (ListItem*)1;
			ListItem* first = op == 8 ? l.PopAll() : l.PopAll(last);
			if (op == 9)
				PBT_CHECK(last == (m.empty() ? nullptr : m.back()), "list-popall-last");
			size_t n = 0;
			for (ListItem* it = first; it != nullptr; it = it->*next)
			{
				PBT_CHECK(n < m.size() && m[n] == it, "list-popall-order");
				++n;
			}
			PBT_CHECK(n == m.size(), "list-popall-size");
			PBT_CHECK(l.IsEmpty(), "list-popall-empty");
			if (op == 9)
			{
				// Give the chain away to another list.
				int to = (int)g.Below(4);
				if (to == 3)
				{
					lists[a].reset(new List(first, last));
				}
				else if (g.Bool())
				{
					std::vector<ListItem*> tmp;
					tmp.swap(m);
					lists[to]->Append(first, last);
					model[to].insert(model[to].end(), tmp.begin(), tmp.end());
				}
				else
				{
					std::vector<ListItem*> tmp;
					tmp.swap(m);
					lists[to]->Prepend(first, last);
					model[to].insert(model[to].begin(), tmp.begin(), tmp.end());
				}
				check(to % listCount);
			}
			else
			{
				for (ListItem* i : m)
					putFree(i);
				m.clear();
			}
			break;
		}
		case 10:
			if (!m.empty())
			{
				Describe("popfirst %d\n", a);
				ListItem* i = l.PopFirst();
				PBT_CHECK(i == m.front(), "list-popfirst");
				m.erase(m.begin());
				putFree(i);
			}
			break;
		case 11:
			if constexpr (isDoubly)
			{
				if (!m.empty())
				{
					Describe("poplast %d\n", a);
					ListItem* i = l.PopLast();
					PBT_CHECK(i == m.back(), "list-poplast");
					m.pop_back();
					putFree(i);
				}
			}
			break;
		case 12:
			if constexpr (isDoubly)
			{
				if (!m.empty())
				{
					size_t pos = g.Below(m.size());
					Describe("remove %d at %zu of %zu\n", a, pos, m.size());
					ListItem* i = m[pos];
					l.Remove(i);
					m.erase(m.begin() + pos);
					putFree(i);
				}
			}
			else if (ListItem* i = takeOne())
			{
				size_t pos = g.Below(m.size() + 1);
				Describe("insert %d at %zu of %zu\n", a, pos, m.size());
				l.Insert(pos == 0 ? nullptr : m[pos - 1], i);
				m.insert(m.begin() + pos, i);
			}
			break;
		case 13:
		{
			Describe("move assign %d from %d\n", a, b);
			for (ListItem* i : m)
				putFree(i);
			l = std::move(*lists[b]);
			m = mb;
			mb.clear();
			break;
		}
		case 14:
		{
			// The old one is either destroyed, or stays as an empty usable list.
			Describe("move construct %d\n", a);
			std::unique_ptr<List> n(new List(std::move(l)));
			PBT_CHECK(l.IsEmpty() && l.GetFirst() == nullptr && l.GetLast() == nullptr, "list-moved-from");
			if (g.Bool())
			{
				for (ListItem* i : mb)
					putFree(i);
				mb.clear();
				lists[b] = std::move(lists[a]);
			}
			lists[a] = std::move(n);
			break;
		}
		case 15:
		{
			std::vector<ListItem*> r;
			takeRange(r);
			Describe("construct range %d of %zu\n", a, r.size());
			for (ListItem* i : m)
				putFree(i);
			lists[a].reset(new List(r.empty() ? nullptr : r.front(), r.empty() ? nullptr : r.back()));
			m = r;
			break;
		}
		case 16:
		{
			// Iterate and move some of the elements to another list.
			Describe("iterate %d to %d\n", a, b);
			std::vector<ListItem*> stay;
			size_t n = 0;
			if constexpr (isDoubly)
			{
				for (ListItem* it : l)
				{
					PBT_CHECK(n < m.size() && it == m[n], "list-iter-order");
					++n;
					if (g.Bool())
					{
						l.Remove(it);
						lists[b]->Append(it);
						mb.push_back(it);
					}
					else
					{
						stay.push_back(it);
					}
				}
			}
			else
			{
				List src(std::move(l));
				for (ListItem* it : src)
				{
					PBT_CHECK(n < m.size() && it == m[n], "list-iter-order");
					++n;
					if (g.Bool())
					{
						lists[b]->Append(it);
						mb.push_back(it);
					}
					else
					{
						l.Append(it);
						stay.push_back(it);
					}
				}
			}
			PBT_CHECK(n == m.size(), "list-iter-size");
			m = stay;
			break;
		}
		}
		for (int i = 0; i < listCount; ++i)
			check(i);
	}
	HashMix(opCount * 31 + maxSize);
	if (maxSize >= 3 && splices > 0)
		NonTrivial();
}

}

PBT_TEST(list, MODE_INPROC, 10)
{
	using namespace mg::box;
	int kind = (int)g.Below(4);
	HashMix(kind);
	Describe("kind %d\n", kind);
	switch (kind)
	{
	case 0:
		Label("forward");
		return RunList<ForwardList<ListItem>, &ListItem::myNext, &ListItem::myPrev, false>(g);
	case 1:
		Label("doubly");
		return RunList<DoublyList<ListItem>, &ListItem::myNext, &ListItem::myPrev, true>(g);
	case 2:
		Label("forward-alt");
		return RunList<ForwardList<ListItem, &ListItem::myAltNext>, &ListItem::myAltNext,
			&ListItem::myAltPrev, false>(g);
	case 3:
		Label("doubly-alt");
		return RunList<DoublyList<ListItem, &ListItem::myAltPrev, &ListItem::myAltNext>,
			&ListItem::myAltNext, &ListItem::myAltPrev, true>(g);
	}
}

//////////////////////////////////////////////////////////////////////////////////////////
// Shared pointers

namespace {

static std::map<int, int>* theDestroyed;

struct Ref
{
	Ref(int id, bool isChild) : myId(id), myIsChild(isChild) {}
	virtual ~Ref() { ++(*theDestroyed)[myId]; myId = -1; }
	int myId;
	bool myIsChild;

	SHARED_PTR_API(Ref, myRef)
	mg::box::RefCount myRef;
public:
	// An edge to another object.
	mg::box::SharedPtrIntrusive<Ref> myEdge;
	uint32_t Refs() const { return myRef.Get(); }
};

struct RefKid : public Ref
{
	RefKid(int id) : Ref(id, true) {}
	SHARED_PTR_RENEW_API(RefKid)
};

}

PBT_TEST(shared_ptr, MODE_INPROC, 10)
{
	using Ptr = Ref::Ptr;
	using KidPtr = RefKid::Ptr;
	std::map<int, int> destroyed;
	theDestroyed = &destroyed;
	constexpr int slotCount = 4;
	constexpr int kidCount = 2;
	std::unique_ptr<Ptr> slots[slotCount];
	std::unique_ptr<KidPtr> kids[kidCount];
	int slotIds[slotCount] = {};
	int kidIds[kidCount] = {};
	// Raw references given out by Unwrap.
	std::vector<std::pair<Ref*, int>> raws;
	// By id.
	std::map<int, int> edges;
	std::map<int, Ref*> objects;
	int nextId = 1;
	int aliases = 0;
	for (auto& s : slots)
		s.reset(new Ptr());
	for (auto& s : kids)
		s.reset(new KidPtr());

	auto settle = [&]() {
		// Who has no references, dies together with his edges.
		bool changed = true;
		std::map<int, int> refs;
		while (changed)
		{
			changed = false;
			refs.clear();
			for (int id : slotIds)
				++refs[id];
			for (int id : kidIds)
				++refs[id];
			for (auto& r : raws)
				++refs[r.second];
			for (auto& e : edges)
				++refs[e.second];
			for (auto it = objects.begin(); it != objects.end(); ++it)
			{
				int id = it->first;
				if (refs[id] == 0)
				{
					PBT_CHECK_F(destroyed[id] == 1, "ptr-not-destroyed", "object %d destroyed %d times", id,
						destroyed[id]);
					edges.erase(id);
					objects.erase(it);
					changed = true;
					break;
				}
			}
		}
		for (auto& p : objects)
		{
			PBT_CHECK_F(destroyed[p.first] == 0, "ptr-destroyed-early", "object %d", p.first);
			PBT_CHECK_F(p.second->Refs() == (uint32_t)refs[p.first], "ptr-refcount", "object %d has %u refs, need %d",
				p.first, p.second->Refs(), refs[p.first]);
			if (refs[p.first] > 1)
				++aliases;
		}
		for (int i = 0; i < slotCount; ++i)
		{
			Ptr& p = *slots[i];
			Ref* o = slotIds[i] == 0 ? nullptr : objects[slotIds[i]];
			const Ptr& cp = p;
			PBT_CHECK(p.GetPointer() == o && cp.GetPointer() == o, "ptr-value");
			PBT_CHECK(p.IsSet() == (o != nullptr), "ptr-isset");
			PBT_CHECK((p == nullptr) == (o == nullptr) && (nullptr != p) == (o != nullptr), "ptr-null");
			PBT_CHECK((p == o) && !(p != o) && (o == p), "ptr-eq-raw");
			if (o != nullptr)
				PBT_CHECK(p->myId == slotIds[i] && (*cp).myId == slotIds[i], "ptr-object");
			for (int j = 0; j < slotCount; ++j)
			{
				PBT_CHECK((p == *slots[j]) == (slotIds[i] == slotIds[j]), "ptr-eq");
				PBT_CHECK((p != *slots[j]) == (slotIds[i] != slotIds[j]), "ptr-neq");
			}
			for (int j = 0; j < kidCount; ++j)
				PBT_CHECK((p == *kids[j]) == (slotIds[i] == kidIds[j]), "ptr-eq-kid");
		}
		for (int i = 0; i < kidCount; ++i)
			PBT_CHECK(kids[i]->GetPointer() == (kidIds[i] == 0 ? nullptr : objects[kidIds[i]]), "ptr-kid-value");
	};
	// Is reachable by the edges.
	auto reaches = [&](int from, int to) {
		while (from != 0)
		{
			if (from == to)
				return true;
			auto it = edges.find(from);
			from = it == edges.end() ? 0 : it->second;
		}
		return false;
	};

	int opCount = (int)g.Range(1, g.Chance(1, 5) ? 150 : 40);
	for (int o = 0; o < opCount; ++o)
	{
		int a = (int)g.Below(slotCount);
		int b = (int)g.Below(slotCount);
		int k = (int)g.Below(kidCount);
		int k2 = (int)g.Below(kidCount);
		Ptr& pa = *slots[a];
		Ptr& pb = *slots[b];
		KidPtr& pk = *kids[k];
		int op = (int)g.Below(24);
		Describe("op %d a %d b %d k %d k2 %d\n", op, a, b, k, k2);
		switch (op)
		{
		case 0:
			pa = Ref::NewShared(nextId, false);
			objects[nextId] = pa.GetPointer();
			slotIds[a] = nextId++;
			break;
		case 1:
			pk = RefKid::NewShared(nextId);
			objects[nextId] = pk.GetPointer();
			kidIds[k] = nextId++;
			break;
		case 2:
			pa = pb;
			slotIds[a] = slotIds[b];
			break;
		case 3:
			pa = std::move(pb);
			if (a != b)
			{
				slotIds[a] = slotIds[b];
				slotIds[b] = 0;
			}
			break;
		case 4:
			pa = pk;
			slotIds[a] = kidIds[k];
			break;
		case 5:
			pa = std::move(pk);
			slotIds[a] = kidIds[k];
			kidIds[k] = 0;
			break;
		case 6:
			*kids[k] = *kids[k2];
			kidIds[k] = kidIds[k2];
			break;
		case 7:
			*kids[k] = std::move(*kids[k2]);
			if (k != k2)
			{
				kidIds[k] = kidIds[k2];
				kidIds[k2] = 0;
			}
			break;
		case 8:
			pa.Clear();
			slotIds[a] = 0;
			break;
		case 9:
			pk.Clear();
			kidIds[k] = 0;
			break;
		case 10:
			pa.Set(pb.GetPointer());
			slotIds[a] = slotIds[b];
			break;
		case 11:
			pa.Set(nullptr);
			slotIds[a] = 0;
			break;
		case 12:
			// Re-create by copying.
			if (a != b)
			{
				slots[a].reset(new Ptr(pb));
				slotIds[a] = slotIds[b];
			}
			break;
		case 13:
			if (a != b)
			{
				slots[a].reset(new Ptr(std::move(pb)));
				PBT_CHECK(!pb.IsSet(), "ptr-moved-from");
				slotIds[a] = slotIds[b];
				slotIds[b] = 0;
			}
			break;
		case 14:
			slots[a].reset(new Ptr(pk));
			slotIds[a] = kidIds[k];
			break;
		case 15:
			slots[a].reset(new Ptr(std::move(pk)));
			PBT_CHECK(!pk.IsSet(), "ptr-moved-from-kid");
			slotIds[a] = kidIds[k];
			kidIds[k] = 0;
			break;
		case 16:
			slots[a].reset(new Ptr(slotIds[b] == 0 ? nullptr : objects[slotIds[b]]));
			slotIds[a] = slotIds[b];
			break;
		case 17:
		{
			Ref* r = pa.Unwrap();
			PBT_CHECK(!pa.IsSet(), "ptr-unwrap");
			PBT_CHECK(r == (slotIds[a] == 0 ? nullptr : objects[slotIds[a]]), "ptr-unwrap-value");
			if (r != nullptr)
				raws.push_back({r, slotIds[a]});
			slotIds[a] = 0;
			break;
		}
		case 18:
			if (!raws.empty())
			{
				slots[a].reset(new Ptr(Ptr::Wrap(raws.back().first)));
				slotIds[a] = raws.back().second;
				raws.pop_back();
			}
			break;
		case 19:
			std::swap(pa, pb);
			std::swap(slotIds[a], slotIds[b]);
			break;
		case 20:
		case 21:
			// Make a chain. No cycles, it is not a garbage collector.
			if (slotIds[a] != 0 && slotIds[b] != 0 && !reaches(slotIds[b], slotIds[a]))
			{
				edges[slotIds[a]] = slotIds[b];
				if (op == 20)
				{
					pa->myEdge = pb;
				}
				else
				{
					pa->myEdge = std::move(pb);
					slotIds[b] = 0;
				}
			}
			break;
		case 22:
			// Go along the chain, when the old head might be destroyed right there.
			if (slotIds[a] != 0)
			{
				auto it = edges.find(slotIds[a]);
				int to = it == edges.end() ? 0 : it->second;
				if (it != edges.end())
					edges.erase(it);
				pa = std::move(pa->myEdge);
				slotIds[a] = to;
			}
			break;
		case 23:
			if (slotIds[a] != 0)
			{
				auto it = edges.find(slotIds[a]);
				int to = it == edges.end() ? 0 : it->second;
				pa = pa->myEdge;
				slotIds[a] = to;
			}
			break;
		}
		settle();
	}
	for (int i = 0; i < slotCount; ++i)
	{
		slots[i].reset();
		slots[i].reset(new Ptr());
		slotIds[i] = 0;
		settle();
	}
	for (int i = 0; i < kidCount; ++i)
	{
		kids[i].reset();
		kids[i].reset(new KidPtr());
		kidIds[i] = 0;
		settle();
	}
	while (!raws.empty())
	{
		Ptr p = Ptr::Wrap(raws.back().first);
		raws.pop_back();
		p.Clear();
		settle();
	}
	PBT_CHECK(objects.empty(), "ptr-leak");
	for (auto& p : destroyed)
		PBT_CHECK(p.second <= 1, "ptr-double-destroy");
	HashMix(opCount * 31 + nextId);
	if (aliases >= 2 && nextId >= 3)
		NonTrivial();
}

//////////////////////////////////////////////////////////////////////////////////////////
// Multi-consumer queue, one thread

namespace {

struct QItem
{
	int myId = 0;
};

}

PBT_TEST(mcsp_seq, MODE_INPROC, 10)
{
	using Queue = mg::box::MultiConsumerQueue<QItem>;
	using Consumer = mg::box::MultiConsumerQueueConsumer<QItem>;
	uint32_t subSize = (uint32_t)(g.Bool() ? g.Range(1, 4) : g.Range(1, 40));
	std::unique_ptr<Queue> queue(new Queue(subSize));
	std::vector<std::unique_ptr<Consumer>> consumers;
	std::vector<bool> attached;
	int consumerCount = (int)g.Range(1, 3);
	for (int i = 0; i < consumerCount; ++i)
	{
		if (g.Bool())
		{
			consumers.emplace_back(new Consumer());
			attached.push_back(false);
		}
		else
		{
			consumers.emplace_back(new Consumer(queue.get()));
			attached.push_back(true);
		}
	}
	int total = (int)g.Range(1, g.Chance(1, 4) ? 400 : 60);
	std::vector<QItem> items(total + 8);
	int pushed = 0, flushed = 0, popped = 0;
	// A pending element becomes visible not later than after a flush. And might become visible
	// when its block is full.
	int opCount = (int)g.Range(1, g.Chance(1, 4) ? 900 : 120);
	std::vector<int> lastOf(consumerCount, 0);
	std::vector<char> seen(total + 8);
	int pendings = 0, blocks = 0;
	Describe("sub size %u\n", subSize);
	auto attach = [&](int c) {
		if (!attached[c])
		{
			consumers[c]->Attach(queue.get());
			attached[c] = true;
		}
	};
	auto pop = [&](int c) {
		uint32_t count = queue->Count();
		QItem* i = consumers[c]->Pop();
		if (i == nullptr)
		{
			PBT_CHECK_F(count == 0, "mcsp-pop-empty", "popped %d, count %u", popped, count);
			return false;
		}
		int id = i->myId;
		PBT_CHECK_F(id >= 1 && id <= pushed, "mcsp-pop-alien", "id %d", id);
		PBT_CHECK_F(!seen[id], "mcsp-pop-dup", "id %d", id);
		seen[id] = 1;
		// By one thread they come in the global order.
		PBT_CHECK_F(id == popped + 1, "mcsp-pop-order", "id %d, need %d", id, popped + 1);
		PBT_CHECK_F(count > 0, "mcsp-pop-pending", "id %d is popped from an empty queue", id);
		++popped;
		PBT_CHECK_F(queue->Count() == count - 1, "mcsp-pop-count", "%u -> %u", count, queue->Count());
		if (popped > flushed)
			flushed = popped;
		return true;
	};
	// How many items are in the last block.
	uint32_t inBlock = 0;
	auto push = [&](bool isPending) {
		if (pushed >= total)
			return;
		if (inBlock == subSize)
		{
			// Pending elements of a full block have to be flushed by the next push.
			inBlock = 0;
			++blocks;
			flushed = pushed;
		}
		QItem* i = &items[pushed];
		i->myId = ++pushed;
		uint32_t countBefore = queue->Count();
		bool res;
		if (isPending)
		{
			res = queue->PushPending(i);
			++pendings;
		}
		else
		{
			res = queue->Push(i);
		}
		++inBlock;
		uint32_t countAfter = queue->Count();
		PBT_CHECK_F(res == (countBefore == 0 && countAfter != 0), "mcsp-push-result", "count %u -> %u", countBefore,
			countAfter);
		if (!isPending)
			flushed = pushed;
		else if (inBlock < subSize)
			PBT_CHECK_F(countAfter <= (uint32_t)(flushed - popped), "mcsp-push-pending-visible", "count %u", countAfter);
	};
	for (int o = 0; o < opCount; ++o)
	{
		int c = (int)g.Below(consumerCount);
		switch (g.Weighted({6, 4, 3, 10, 1, 1, 1, 1}))
		{
		case 0:
			Describe("push\n");
			push(false);
			break;
		case 1:
			Describe("push pending\n");
			push(true);
			break;
		case 2:
			Describe("flush\n");
		{
			uint32_t count = queue->Count();
			bool res = queue->FlushPending();
			flushed = pushed;
			PBT_CHECK(res == (count == 0 && pushed > popped), "mcsp-flush-result");
			break;
		}
		case 3:
		{
			attach(c);
			int n = (int)g.Range(1, subSize + 2);
			Describe("pop %d by %d\n", n, c);
			for (int i = 0; i < n; ++i)
			{
				if (!pop(c))
					break;
			}
			break;
		}
		case 4:
			if (attached[c])
			{
				Describe("detach %d\n", c);
				consumers[c]->Detach();
				attached[c] = false;
			}
			break;
		case 5:
			Describe("attach %d\n", c);
			attach(c);
			break;
		case 6:
		{
			uint32_t n = (uint32_t)g.Below(subSize * 3 + 2);
			Describe("reserve %u\n", n);
			queue->Reserve(n);
			break;
		}
		case 7:
			Describe("recreate %d\n", c);
			consumers[c].reset(new Consumer(queue.get()));
			attached[c] = true;
			break;
		}
		uint32_t count = queue->Count();
		PBT_CHECK_F(count >= (uint32_t)(flushed - popped) && count <= (uint32_t)(pushed - popped), "mcsp-count",
			"count %u, need %d..%d", count, flushed - popped, pushed - popped);
		uint32_t att = 0;
		for (bool b : attached)
			att += b;
		PBT_CHECK_F(queue->ConsumerCount() == att, "mcsp-consumers", "%u, need %u", queue->ConsumerCount(), att);
	}
	queue->FlushPending();
	flushed = pushed;
	attach(0);
	while (pop(0));
	PBT_CHECK_F(popped == pushed, "mcsp-lost", "popped %d of %d", popped, pushed);
	consumers.clear();
	PBT_CHECK(queue->ConsumerCount() == 0 && queue->Count() == 0, "mcsp-final");
	queue.reset();
	HashMix(opCount * 31 + pushed);
	if (blocks >= 2 && popped >= 3)
		NonTrivial();
}
