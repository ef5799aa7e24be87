// Atomic values: exact results, indivisibility, publication of data.
#include "pbt.h"
#include "sim.h"

#include "mg/box/Atomic.h"

#include <functional>
#include <map>
#include <set>
#include <thread>
#include <type_traits>
#include <vector>

using namespace pbt;

namespace {

	enum Kind
	{
		K_LOAD,
		K_STORE,
		K_EXCHANGE,
		K_FETCH_ADD,
		K_ADD_FETCH,
		K_ADD,
		K_FETCH_SUB,
		K_SUB_FETCH,
		K_SUB,
		K_INC,
		K_FETCH_INC,
		K_INC_FETCH,
		K_DEC,
		K_FETCH_DEC,
		K_DEC_FETCH,
		K_FETCH_OR,
		K_OR,
		K_FETCH_AND,
		K_AND,
		K_CAS_WEAK,
		K_CAS_STRONG,
		K_COUNT,
	};

	const char* const theNames[] = {"load", "store", "exchange", "fetch-add", "add-fetch", "add",
		"fetch-sub", "sub-fetch", "sub", "inc", "fetch-inc", "inc-fetch", "dec", "fetch-dec",
		"dec-fetch", "fetch-or", "or", "fetch-and", "and", "cas-weak", "cas-strong"};

	struct Op
	{
		int myKind = 0;
		// Memory order variant.
		int myOrder = 0;
		uint64_t myArg = 0;
		uint64_t myExpected = 0;
		// Results.
		uint64_t myResult = 0;
		bool myIsSet = false;
		uint64_t myBegin = 0;
		uint64_t myEnd = 0;
	};

	template<typename T>
	uint64_t
	ToU64(T v)
	{
		if constexpr (std::is_pointer_v<T>)
			return (uint64_t)(uintptr_t)v;
		else
			return (uint64_t)v;
	}

	template<typename T>
	T
	FromU64(uint64_t v)
	{
		if constexpr (std::is_pointer_v<T>)
			return (T)(uintptr_t)v;
		else if constexpr (std::is_same_v<T, bool>)
			return (v & 1) != 0;
		else
			return (T)v;
	}

	template<typename T>
	void
	Execute(mg::box::Atomic<T>& v, Op& op)
	{
		T arg = FromU64<T>(op.myArg);
		T res = FromU64<T>(0);
		// 4 variants of an operation.
#define V4(name, x, y, z, args)                                                          \
	switch (op.myOrder & 3)                                                              \
	{                                                                                    \
	case 0: res = v.name args; break;                                                    \
	case 1: res = v.name##x args; break;                                                 \
	case 2: res = v.name##y args; break;                                                 \
	default: res = v.name##z args; break;                                                \
	}
#define N4(name, x, y, z, args)                                                          \
	switch (op.myOrder & 3)                                                              \
	{                                                                                    \
	case 0: v.name args; break;                                                          \
	case 1: v.name##x args; break;                                                       \
	case 2: v.name##y args; break;                                                       \
	default: v.name##z args; break;                                                      \
	}
		switch (op.myKind)
		{
		case K_LOAD:
			switch (op.myOrder % 3)
			{
			case 0: res = v.Load(); break;
			case 1: res = v.LoadAcquire(); break;
			default: res = v.LoadRelaxed(); break;
			}
			break;
		case K_STORE:
			switch (op.myOrder % 3)
			{
			case 0: v.Store(arg); break;
			case 1: v.StoreRelease(arg); break;
			default: v.StoreRelaxed(arg); break;
			}
			break;
		case K_EXCHANGE: V4(Exchange, Relaxed, AcqRel, Release, (arg)); break;
		case K_CAS_WEAK:
		{
			T e = FromU64<T>(op.myExpected);
			switch (op.myOrder % 5)
			{
			case 0: op.myIsSet = v.CmpExchgWeak(e, arg); break;
			case 1: op.myIsSet = v.CmpExchgWeakRelaxed(e, arg); break;
			case 2: op.myIsSet = v.CmpExchgWeakAcquire(e, arg); break;
			case 3: op.myIsSet = v.CmpExchgWeakAcqRel(e, arg); break;
			default: op.myIsSet = v.CmpExchgWeakRelease(e, arg); break;
			}
			res = e;
			break;
		}
		case K_CAS_STRONG:
		{
			T e = FromU64<T>(op.myExpected);
			switch (op.myOrder % 5)
			{
			case 0: op.myIsSet = v.CmpExchgStrong(e, arg); break;
			case 1: op.myIsSet = v.CmpExchgStrongRelaxed(e, arg); break;
			case 2: op.myIsSet = v.CmpExchgStrongAcquire(e, arg); break;
			case 3: op.myIsSet = v.CmpExchgStrongAcqRel(e, arg); break;
			default: op.myIsSet = v.CmpExchgStrongRelease(e, arg); break;
			}
			res = e;
			break;
		}
		default:
			if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>)
			{
				switch (op.myKind)
				{
				case K_FETCH_ADD: V4(FetchAdd, Relaxed, AcqRel, Release, (arg)); break;
				case K_ADD_FETCH: V4(AddFetch, Relaxed, AcqRel, Release, (arg)); break;
				case K_ADD: N4(Add, Relaxed, AcqRel, Release, (arg)); break;
				case K_FETCH_SUB: V4(FetchSub, Relaxed, AcqRel, Release, (arg)); break;
				case K_SUB_FETCH: V4(SubFetch, Relaxed, AcqRel, Release, (arg)); break;
				case K_SUB: N4(Sub, Relaxed, AcqRel, Release, (arg)); break;
				case K_INC: N4(Increment, Relaxed, AcqRel, Release, ()); break;
				case K_FETCH_INC: V4(FetchIncrement, Relaxed, AcqRel, Release, ()); break;
				case K_INC_FETCH: V4(IncrementFetch, Relaxed, AcqRel, Release, ()); break;
				case K_DEC: N4(Decrement, Relaxed, AcqRel, Release, ()); break;
				case K_FETCH_DEC: V4(FetchDecrement, Relaxed, AcqRel, Release, ()); break;
				case K_DEC_FETCH: V4(DecrementFetch, Relaxed, AcqRel, Release, ()); break;
				case K_FETCH_OR: V4(FetchBitOr, Relaxed, Acquire, Release, (arg)); break;
				case K_OR: N4(BitOr, Relaxed, Acquire, Release, (arg)); break;
				case K_FETCH_AND: V4(FetchBitAnd, Relaxed, Acquire, Release, (arg)); break;
				case K_AND: N4(BitAnd, Relaxed, Acquire, Release, (arg)); break;
				}
			}
		}
#undef V4
#undef N4
		op.myResult = ToU64(res);
	}

	// The result of the operation executed on the given value, and the new value. False if the
	// recorded result is not possible.
	template<typename T>
	bool
	Apply(uint64_t& value, const Op& op)
	{
		auto norm = [](uint64_t v) { return ToU64(FromU64<T>(v)); };
		uint64_t old = value;
		uint64_t next = old;
		uint64_t res = 0;
		uint64_t arg = norm(op.myArg);
		switch (op.myKind)
		{
		case K_LOAD: res = old; break;
		case K_STORE: next = arg; break;
		case K_EXCHANGE: res = old; next = arg; break;
		case K_FETCH_ADD: res = old; next = norm(old + arg); break;
		case K_ADD_FETCH: res = next = norm(old + arg); break;
		case K_ADD: next = norm(old + arg); break;
		case K_FETCH_SUB: res = old; next = norm(old - arg); break;
		case K_SUB_FETCH: res = next = norm(old - arg); break;
		case K_SUB: next = norm(old - arg); break;
		case K_INC: next = norm(old + 1); break;
		case K_FETCH_INC: res = old; next = norm(old + 1); break;
		case K_INC_FETCH: res = next = norm(old + 1); break;
		case K_DEC: next = norm(old - 1); break;
		case K_FETCH_DEC: res = old; next = norm(old - 1); break;
		case K_DEC_FETCH: res = next = norm(old - 1); break;
		case K_FETCH_OR: res = old; next = norm(old | arg); break;
		case K_OR: next = norm(old | arg); break;
		case K_FETCH_AND: res = old; next = norm(old & arg); break;
		case K_AND: next = norm(old & arg); break;
		case K_CAS_WEAK:
		case K_CAS_STRONG:
		{
			uint64_t expected = norm(op.myExpected);
			// What is seen is stored into the expected value, in any case.
			res = old;
			if (op.myIsSet)
			{
				if (old != expected)
					return false;
				next = arg;
			}
			else if (old == expected && op.myKind == K_CAS_STRONG)
				return false;
			break;
		}
		}
		if (res != op.myResult)
			return false;
		value = next;
		return true;
	}

	template<typename T>
	struct Checker
	{
		std::vector<std::vector<Op>>* myOps;
		uint64_t myFinal;
		std::set<std::pair<std::vector<int>, uint64_t>> mySeen;

		bool
		Search(std::vector<int>& pos, uint64_t value)
		{
			bool isEnd = true;
			// An operation can be the next one only if no other one ended before it began.
			uint64_t minEnd = UINT64_MAX;
			for (size_t i = 0; i < pos.size(); ++i)
			{
				if (pos[i] < (int)(*myOps)[i].size())
				{
					isEnd = false;
					uint64_t end = (*myOps)[i][pos[i]].myEnd;
					if (end < minEnd)
						minEnd = end;
				}
			}
			if (isEnd)
				return value == myFinal;
			if (!mySeen.insert({pos, value}).second)
				return false;
			for (size_t i = 0; i < pos.size(); ++i)
			{
				if (pos[i] >= (int)(*myOps)[i].size())
					continue;
				const Op& op = (*myOps)[i][pos[i]];
				if (op.myBegin > minEnd)
					continue;
				uint64_t v = value;
				if (!Apply<T>(v, op))
					continue;
				++pos[i];
				if (Search(pos, v))
					return true;
				--pos[i];
			}
			return false;
		}
	};

	template<typename T>
	uint64_t
	GenValue(Gen& g, const std::vector<uint64_t>& pool)
	{
		if (!pool.empty() && g.Chance(1, 2))
			return g.Pick(pool);
		uint64_t v = 0;
		switch (g.Below(4))
		{
		case 0: v = g.Below(4); break;
		case 1: v = 0 - g.Below(4); break;
		case 2: v = (1ULL << g.Below(64)) - g.Below(2); break;
		default: v = g.Any(); break;
		}
		return ToU64(FromU64<T>(v));
	}

	template<typename T, typename A>
	void
	TestLinear(Gen& g, const char* typeName)
	{
		static_assert(std::is_same_v<decltype(std::declval<A&>().Load()), T> ||
			std::is_integral_v<T>);
		constexpr bool isInt = std::is_integral_v<T> && !std::is_same_v<T, bool>;
		size_t threadCount = 1 + g.Weighted({2, 4, 3, 1});
		std::vector<uint64_t> pool;
		for (int i = 0; i < 3; ++i)
			pool.push_back(GenValue<T>(g, {}));
		uint64_t init = GenValue<T>(g, pool);
		std::vector<std::vector<Op>> ops(threadCount);
		int total = 0;
		for (auto& list : ops)
		{
			size_t n = threadCount == 1 ? g.Range(1, 30) : g.Range(1, IsThorough() ? 6 : 4);
			for (size_t i = 0; i < n; ++i)
			{
				Op op;
				if (isInt)
					op.myKind = (int)g.Below(K_COUNT);
				else
					op.myKind = g.Pick({K_LOAD, K_STORE, K_EXCHANGE, K_CAS_WEAK, K_CAS_STRONG});
				op.myOrder = (int)g.Below(60);
				op.myArg = GenValue<T>(g, pool);
				op.myExpected = GenValue<T>(g, pool);
				list.push_back(op);
				++total;
			}
		}
		Describe("%s = %llx\n", typeName, (unsigned long long)init);
		for (size_t i = 0; i < threadCount; ++i)
		{
			Describe("thread %d:", (int)i);
			for (const Op& op : ops[i])
				Describe(" %s.%d(%llx,%llx)", theNames[op.myKind], op.myOrder % 60,
					(unsigned long long)op.myArg, (unsigned long long)op.myExpected);
			Describe("\n");
		}
		// The type of the named alias must keep the values as they are.
		mg::box::Atomic<T>* value = nullptr;
		A* named = new A(FromU64<T>(init));
		if constexpr (std::is_same_v<A, mg::box::Atomic<T>>)
			value = named;
		else
			Fail("atomic_type", "the named type has another value type");
		if (ToU64(value->Load()) != init)
			Fail("atomic_init", "wrong initial value");
		uint64_t clock = 0;
		std::vector<std::thread> threads;
		for (size_t i = 0; i < threadCount; ++i)
		{
			auto body = [&, i]() {
				for (Op& op : ops[i])
				{
					Op copy = op;
					{
						sim::Quiet q;
						copy.myBegin = ++clock;
					}
					Execute<T>(*value, copy);
					sim::Quiet q;
					copy.myEnd = ++clock;
					op = copy;
				}
			};
			if (threadCount == 1)
				body();
			else
				threads.emplace_back(body);
		}
		for (std::thread& t : threads)
			t.join();
		sim::Quiet q;
		Checker<T> c;
		c.myOps = &ops;
		c.myFinal = ToU64(value->Load());
		std::vector<int> pos(threadCount, 0);
		if (!c.Search(pos, init))
		{
			for (size_t i = 0; i < threadCount; ++i)
			{
				for (const Op& op : ops[i])
					Describe("  %d: %s [%llu,%llu] = %llx %d\n", (int)i, theNames[op.myKind],
						(unsigned long long)op.myBegin, (unsigned long long)op.myEnd,
						(unsigned long long)op.myResult, (int)op.myIsSet);
			}
			Fail("atomic_linear", "results are not of any order of the operations, in the end %llx",
				(unsigned long long)c.myFinal);
		}
		delete named;
		if (total >= 4 && (threadCount == 1 || sim::Preemptions() > 0))
			NonTrivial();
		Label(threadCount == 1 ? "sequential" : "concurrent");
		Label(typeName);
	}
}

PBT_TEST(atomic_linear, MODE_FORK, 3)
{
	// The order in real time is checked, without happens-before.
	sim::GetConfig().myIsWeak = false;
	switch (g.Below(10))
	{
	case 0: TestLinear<uint8_t, mg::box::AtomicU8>(g, "u8"); break;
	case 1: TestLinear<uint16_t, mg::box::AtomicU16>(g, "u16"); break;
	case 2: TestLinear<uint32_t, mg::box::AtomicU32>(g, "u32"); break;
	case 3: TestLinear<uint64_t, mg::box::AtomicU64>(g, "u64"); break;
	case 4: TestLinear<int8_t, mg::box::AtomicI8>(g, "i8"); break;
	case 5: TestLinear<int16_t, mg::box::AtomicI16>(g, "i16"); break;
	case 6: TestLinear<int32_t, mg::box::AtomicI32>(g, "i32"); break;
	case 7: TestLinear<int64_t, mg::box::AtomicI64>(g, "i64"); break;
	case 8: TestLinear<bool, mg::box::AtomicBool>(g, "bool"); break;
	default: TestLinear<void*, mg::box::AtomicVoidPtr>(g, "ptr"); break;
	}
}

// Data written before a publishing operation is visible after an operation which reads what was
// published, possibly through a chain of threads.
PBT_TEST(atomic_publish, MODE_FORK, 2)
{
	using V = mg::box::AtomicU64;
	int stages = (int)g.Range(1, 4);
	struct Stage
	{
		int myPublish;
		int myConsume;
		int myNoise;
	};
	std::vector<Stage> plan(stages);
	static const char* const pubs[] = {"Store", "StoreRelease", "Exchange", "ExchangeAcqRel",
		"ExchangeRelease", "FetchAdd", "FetchAddAcqRel", "FetchAddRelease", "AddFetch",
		"AddFetchAcqRel", "AddFetchRelease", "Add", "AddAcqRel", "AddRelease", "FetchSub",
		"FetchSubAcqRel", "FetchSubRelease", "SubFetch", "SubFetchAcqRel", "SubFetchRelease", "Sub",
		"SubAcqRel", "SubRelease", "Increment", "IncrementAcqRel", "IncrementRelease",
		"FetchIncrement", "FetchIncrementAcqRel", "FetchIncrementRelease", "IncrementFetch",
		"IncrementFetchAcqRel", "IncrementFetchRelease", "Decrement", "DecrementAcqRel",
		"DecrementRelease", "FetchDecrement", "FetchDecrementAcqRel", "FetchDecrementRelease",
		"DecrementFetch", "DecrementFetchAcqRel", "DecrementFetchRelease", "FetchBitOr",
		"FetchBitOrRelease", "BitOr", "BitOrRelease", "FetchBitAnd", "FetchBitAndRelease", "BitAnd",
		"BitAndRelease", "CmpExchgWeak", "CmpExchgWeakAcqRel", "CmpExchgWeakRelease",
		"CmpExchgStrong", "CmpExchgStrongAcqRel", "CmpExchgStrongRelease"};
	static const char* const cons[] = {"Load", "LoadAcquire", "Exchange", "ExchangeAcqRel",
		"FetchAdd", "FetchAddAcqRel", "AddFetch", "AddFetchAcqRel", "FetchSub", "FetchSubAcqRel",
		"SubFetch", "SubFetchAcqRel", "FetchIncrement", "FetchIncrementAcqRel", "IncrementFetch",
		"IncrementFetchAcqRel", "FetchDecrement", "FetchDecrementAcqRel", "DecrementFetch",
		"DecrementFetchAcqRel", "FetchBitOr", "FetchBitOrAcquire", "FetchBitAnd",
		"FetchBitAndAcquire", "CmpExchgWeak", "CmpExchgWeakAcquire", "CmpExchgWeakAcqRel",
		"CmpExchgStrong", "CmpExchgStrongAcquire", "CmpExchgStrongAcqRel"};
	constexpr int pubCount = sizeof(pubs) / sizeof(pubs[0]);
	constexpr int conCount = sizeof(cons) / sizeof(cons[0]);
	for (Stage& s : plan)
	{
		s.myPublish = (int)g.Below(pubCount);
		s.myConsume = (int)g.Below(conCount);
		s.myNoise = (int)g.Below(3);
		Describe("%s -> %s, noise %d\n", pubs[s.myPublish], cons[s.myConsume], s.myNoise);
		HashMix(s.myPublish * 100 + s.myConsume);
	}
	// Base is far from zero so that additions and subtractions are both visible.
	static constexpr uint64_t base = 0xff00;
	struct Cell
	{
		V myFlag{base};
		V myLock{0};
		uint64_t myData = 0;
	};
	std::vector<Cell*> cells;
	for (int i = 0; i < stages; ++i)
		cells.push_back(new Cell());
	auto publish = [&](V& f, int kind) {
		uint64_t e;
		switch (kind)
		{
		case 0: f.Store(base + 1); break;
		case 1: f.StoreRelease(base + 1); break;
		case 2: f.Exchange(base + 1); break;
		case 3: f.ExchangeAcqRel(base + 1); break;
		case 4: f.ExchangeRelease(base + 1); break;
		case 5: f.FetchAdd(1); break;
		case 6: f.FetchAddAcqRel(1); break;
		case 7: f.FetchAddRelease(1); break;
		case 8: f.AddFetch(1); break;
		case 9: f.AddFetchAcqRel(1); break;
		case 10: f.AddFetchRelease(1); break;
		case 11: f.Add(1); break;
		case 12: f.AddAcqRel(1); break;
		case 13: f.AddRelease(1); break;
		case 14: f.FetchSub(1); break;
		case 15: f.FetchSubAcqRel(1); break;
		case 16: f.FetchSubRelease(1); break;
		case 17: f.SubFetch(1); break;
		case 18: f.SubFetchAcqRel(1); break;
		case 19: f.SubFetchRelease(1); break;
		case 20: f.Sub(1); break;
		case 21: f.SubAcqRel(1); break;
		case 22: f.SubRelease(1); break;
		case 23: f.Increment(); break;
		case 24: f.IncrementAcqRel(); break;
		case 25: f.IncrementRelease(); break;
		case 26: f.FetchIncrement(); break;
		case 27: f.FetchIncrementAcqRel(); break;
		case 28: f.FetchIncrementRelease(); break;
		case 29: f.IncrementFetch(); break;
		case 30: f.IncrementFetchAcqRel(); break;
		case 31: f.IncrementFetchRelease(); break;
		case 32: f.Decrement(); break;
		case 33: f.DecrementAcqRel(); break;
		case 34: f.DecrementRelease(); break;
		case 35: f.FetchDecrement(); break;
		case 36: f.FetchDecrementAcqRel(); break;
		case 37: f.FetchDecrementRelease(); break;
		case 38: f.DecrementFetch(); break;
		case 39: f.DecrementFetchAcqRel(); break;
		case 40: f.DecrementFetchRelease(); break;
		case 41: f.FetchBitOr(1); break;
		case 42: f.FetchBitOrRelease(1); break;
		case 43: f.BitOr(1); break;
		case 44: f.BitOrRelease(1); break;
		case 45: f.FetchBitAnd(0xf00f); break;
		case 46: f.FetchBitAndRelease(0xf00f); break;
		case 47: f.BitAnd(0xf00f); break;
		case 48: f.BitAndRelease(0xf00f); break;
		default:
			e = base;
			while (true)
			{
				bool ok = false;
				switch (kind)
				{
				case 49: ok = f.CmpExchgWeak(e, base + 1); break;
				case 50: ok = f.CmpExchgWeakAcqRel(e, base + 1); break;
				case 51: ok = f.CmpExchgWeakRelease(e, base + 1); break;
				case 52: ok = f.CmpExchgStrong(e, base + 1); break;
				case 53: ok = f.CmpExchgStrongAcqRel(e, base + 1); break;
				default: ok = f.CmpExchgStrongRelease(e, base + 1); break;
				}
				if (ok)
					break;
				e = base;
			}
		}
	};
	// Returns true when the flag is seen as published. Operations which change the value do that
	// by zero when possible, or return it back.
	auto consume = [&](V& f, int kind) -> bool {
		uint64_t e;
		switch (kind)
		{
		case 0: return f.Load() != base;
		case 1: return f.LoadAcquire() != base;
		case 2: case 3:
		{
			// The exchange destroys the value, so only do it when it is needed.
			if (f.LoadRelaxed() == base)
				return false;
			uint64_t v = kind == 2 ? f.Exchange(base + 5) : f.ExchangeAcqRel(base + 5);
			return v != base;
		}
		case 4: return f.FetchAdd(0) != base;
		case 5: return f.FetchAddAcqRel(0) != base;
		case 6: return f.AddFetch(0) != base;
		case 7: return f.AddFetchAcqRel(0) != base;
		case 8: return f.FetchSub(0) != base;
		case 9: return f.FetchSubAcqRel(0) != base;
		case 10: return f.SubFetch(0) != base;
		case 11: return f.SubFetchAcqRel(0) != base;
		case 12: case 13: case 14: case 15: case 16: case 17: case 18: case 19:
			if (f.LoadRelaxed() == base)
				return false;
			switch (kind)
			{
			case 12: f.FetchIncrement(); break;
			case 13: f.FetchIncrementAcqRel(); break;
			case 14: f.IncrementFetch(); break;
			case 15: f.IncrementFetchAcqRel(); break;
			case 16: f.FetchDecrement(); break;
			case 17: f.FetchDecrementAcqRel(); break;
			case 18: f.DecrementFetch(); break;
			default: f.DecrementFetchAcqRel(); break;
			}
			return true;
		case 20: return f.FetchBitOr(0) != base;
		case 21: return f.FetchBitOrAcquire(0) != base;
		case 22: return f.FetchBitAnd(UINT64_MAX) != base;
		case 23: return f.FetchBitAndAcquire(UINT64_MAX) != base;
		default:
			e = f.LoadRelaxed();
			if (e == base)
				return false;
			switch (kind)
			{
			case 24: return f.CmpExchgWeak(e, e);
			case 25: return f.CmpExchgWeakAcquire(e, e);
			case 26: return f.CmpExchgWeakAcqRel(e, e);
			case 27: return f.CmpExchgStrong(e, e);
			case 28: return f.CmpExchgStrongAcquire(e, e);
			default: return f.CmpExchgStrongAcqRel(e, e);
			}
		}
	};
	std::vector<std::thread> threads;
	// Stage i publishes the cell i after it has consumed the cell i - 1.
	for (int i = 0; i <= stages; ++i)
	{
		threads.emplace_back([&, i]() {
			uint64_t sum = 1;
			if (i > 0)
			{
				while (!consume(cells[i - 1]->myFlag, plan[i - 1].myConsume))
					sim::Yield();
				// All the previous ones are visible too.
				for (int k = 0; k < i; ++k)
				{
					if (cells[k]->myData != (uint64_t)(1ULL << k))
						Fail("atomic_publish", "published data is not visible");
					sum += cells[k]->myData;
				}
			}
			if (i < stages)
			{
				cells[i]->myData = sum;
				publish(cells[i]->myFlag, plan[i].myPublish);
			}
		});
	}
	// Read-modify-writes by others do not break the publication.
	for (int i = 0; i < stages; ++i)
	{
		if (plan[i].myNoise == 0 || threads.size() > 7)
			continue;
		threads.emplace_back([&, i]() {
			for (int k = 0; k < plan[i].myNoise; ++k)
			{
				cells[i]->myFlag.FetchAddRelaxed(0);
				cells[i]->myFlag.FetchBitOrRelaxed(0);
			}
		});
	}
	for (std::thread& t : threads)
		t.join();
	for (Cell* c : cells)
		delete c;
	if (sim::Preemptions() > 0)
		NonTrivial();
}
