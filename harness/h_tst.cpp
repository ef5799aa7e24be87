// Framed messages, command line arguments, random ranges.
#include "pbt.h"

#include "mg/net/Buffer.h"
#include "mg/test/CommandLine.h"
#include "mg/test/Message.h"
#include "mg/test/Random.h"

#include <cstring>
#include <deque>
#include <set>
#include <string>
#include <vector>

using namespace pbt;
using namespace mg::tst;
using mg::net::Buffer;
using mg::net::BufferReadStream;
using mg::net::BufferStream;

namespace {

	enum FieldType
	{
		F_U8, F_U16, F_U32, F_U64, F_I8, F_I16, F_I32, F_I64, F_BOOL, F_STR, F_DATA,
		F_COUNT,
	};

	struct Field
	{
		int myType;
		uint64_t myInt = 0;
		std::string myStr;

		uint64_t
		Size() const
		{
			switch (myType)
			{
			case F_U8: case F_I8: case F_BOOL: return 1;
			case F_U16: case F_I16: return 2;
			case F_U32: case F_I32: return 4;
			case F_U64: case F_I64: return 8;
			case F_STR: return 8 + myStr.size();
			default: return myStr.size();
			}
		}
	};

	struct Msg
	{
		std::vector<Field> myFields;

		uint64_t
		Size() const
		{
			uint64_t res = 8;
			for (const Field& f : myFields)
				res += f.Size();
			return res;
		}
	};

	Field
	GenField(
		Gen& g)
	{
		Field f;
		f.myType = (int)g.Below(F_COUNT);
		if (f.myType < F_STR)
		{
			f.myInt = g.Edge64();
			return f;
		}
		uint64_t len = 0;
		switch (g.Weighted({4, 3, 2, 1}))
		{
		case 0: len = g.Small(40); break;
		case 1: len = g.Range(240, 270); break;
		case 2: len = mg::net::theBufferCopySize - 24 + g.Below(48); break;
		default: len = g.Below(3 * mg::net::theBufferCopySize); break;
		}
		f.myStr.resize(len);
		// Zeros inside are fine when the length is given.
		uint8_t base = (uint8_t)g.Below(256);
		uint64_t step = 1 + g.Below(250);
		for (uint64_t i = 0; i < len; ++i)
			f.myStr[i] = (char)(base + i * step + (i >> 8));
		if (f.myType == F_STR && g.Chance(1, 3))
		{
			for (char& c : f.myStr)
			{
				if (c == 0)
					c = '0';
			}
		}
		return f;
	}

	void
	WriteField(
		Gen& g,
		WriteMessage& m,
		const Field& f)
	{
		switch (f.myType)
		{
		case F_U8: m.WriteUInt8((uint8_t)f.myInt); break;
		case F_U16: m.WriteUInt16((uint16_t)f.myInt); break;
		case F_U32: m.WriteUInt32((uint32_t)f.myInt); break;
		case F_U64: m.WriteUInt64(f.myInt); break;
		case F_I8: m.WriteInt8((int8_t)f.myInt); break;
		case F_I16: m.WriteInt16((int16_t)f.myInt); break;
		case F_I32: m.WriteInt32((int32_t)f.myInt); break;
		case F_I64: m.WriteInt64((int64_t)f.myInt); break;
		case F_BOOL: m.WriteBool((f.myInt & 1) != 0); break;
		case F_STR:
		{
			bool hasZero = f.myStr.find('\0') != std::string::npos;
			uint64_t how = g.Below(hasZero ? 2 : 3);
			if (how == 0)
				m.WriteString(f.myStr);
			else if (how == 1)
				m.WriteString(f.myStr.data(), f.myStr.size());
			else
				m.WriteString(f.myStr.c_str());
			break;
		}
		default: m.WriteData(f.myStr.data(), f.myStr.size()); break;
		}
	}

	void
	CheckInt(
		int type,
		uint64_t want,
		uint64_t got)
	{
		if (want != got)
			Fail("tst-message-int", "field of type %d: wrote %llx, read %llx", type,
				(unsigned long long)want, (unsigned long long)got);
	}

	void
	ReadField(
		Gen& g,
		ReadMessage& m,
		const Field& f)
	{
		if (g.Chance(1, 10))
		{
			m.SkipBytes(f.Size());
			return;
		}
		switch (f.myType)
		{
		case F_U8: { uint8_t v; m.ReadUInt8(v); CheckInt(f.myType, (uint8_t)f.myInt, v); break; }
		case F_U16: { uint16_t v; m.ReadUInt16(v); CheckInt(f.myType, (uint16_t)f.myInt, v); break; }
		case F_U32: { uint32_t v; m.ReadUInt32(v); CheckInt(f.myType, (uint32_t)f.myInt, v); break; }
		case F_U64: { uint64_t v; m.ReadUInt64(v); CheckInt(f.myType, f.myInt, v); break; }
		case F_I8: { int8_t v; m.ReadInt8(v); CheckInt(f.myType, (uint64_t)(int8_t)f.myInt, (uint64_t)v); break; }
		case F_I16: { int16_t v; m.ReadInt16(v); CheckInt(f.myType, (uint64_t)(int16_t)f.myInt, (uint64_t)v); break; }
		case F_I32: { int32_t v; m.ReadInt32(v); CheckInt(f.myType, (uint64_t)(int32_t)f.myInt, (uint64_t)v); break; }
		case F_I64: { int64_t v; m.ReadInt64(v); CheckInt(f.myType, f.myInt, (uint64_t)v); break; }
		case F_BOOL: { bool v; m.ReadBool(v); CheckInt(f.myType, f.myInt & 1, v ? 1 : 0); break; }
		case F_STR:
		{
			// Old content has to go.
			std::string s = g.Bool() ? "old" : "";
			m.ReadString(s);
			if (s != f.myStr)
				Fail("tst-message-str", "string of %zu bytes was read as %zu bytes",
					f.myStr.size(), s.size());
			break;
		}
		default:
		{
			std::vector<char> buf(f.myStr.size() + 1, 0x5a);
			m.ReadData(buf.data(), f.myStr.size());
			if (memcmp(buf.data(), f.myStr.data(), f.myStr.size()) != 0 || buf.back() != 0x5a)
				Fail("tst-message-data", "data of %zu bytes differ", f.myStr.size());
			break;
		}
		}
	}

}

PBT_TEST(tst_message, MODE_INPROC, 10)
{
	uint64_t count = 1 + g.Small(8);
	std::vector<Msg> msgs;
	std::string bytes;
	WriteMessage out;
	uint64_t sinceTake = 0;
	auto take = [&]() {
		if (out.GetTotalSize() != sinceTake)
			Fail("tst-message-total", "%llu bytes were written, reported %llu",
				(unsigned long long)sinceTake, (unsigned long long)out.GetTotalSize());
		Buffer::Ptr head = out.TakeData();
		if (out.GetTotalSize() != 0)
			Fail("tst-message-total", "the taken bytes are still counted");
		uint64_t total = 0;
		for (const Buffer* b = head.GetPointer(); b != nullptr; b = b->myNext.GetPointer())
		{
			bytes.append((const char*)b->myRData, b->myPos);
			total += b->myPos;
		}
		if (total != sinceTake)
			Fail("tst-message-total", "%llu bytes were written, %llu taken",
				(unsigned long long)sinceTake, (unsigned long long)total);
		sinceTake = 0;
	};
	for (uint64_t i = 0; i < count; ++i)
	{
		Msg m;
		uint64_t fields = g.Small(10);
		out.Open();
		for (uint64_t j = 0; j < fields; ++j)
		{
			m.myFields.push_back(GenField(g));
			WriteField(g, out, m.myFields.back());
		}
		out.Close();
		sinceTake += m.Size();
		msgs.push_back(std::move(m));
		if (g.Chance(1, 3))
			take();
		if (g.Chance(1, 20))
			take();
	}
	take();
	// The stream gets the bytes in pieces cut anywhere.
	BufferStream stream;
	BufferReadStream rstream(stream);
	ReadMessage in(rstream);
	uint64_t pos = 0;
	uint64_t readPos = 0;
	size_t idx = 0;
	uint64_t pieces = 0;
	uint64_t waits = 0;
	while (true)
	{
		while (true)
		{
			if (in.GetAvailSize() != pos - readPos)
				Fail("tst-message-avail", "available %llu instead of %llu",
					(unsigned long long)in.GetAvailSize(), (unsigned long long)(pos - readPos));
			bool want = idx < msgs.size() && pos - readPos >= msgs[idx].Size();
			bool got = in.IsComplete();
			if (want != got)
				Fail("tst-message-complete", "message %zu of %llu bytes with %llu available: "
					"complete = %d", idx,
					(unsigned long long)(idx < msgs.size() ? msgs[idx].Size() : 0),
					(unsigned long long)(pos - readPos), (int)got);
			if (!got)
			{
				if (idx < msgs.size() && pos > readPos)
					++waits;
				break;
			}
			in.Open();
			for (const Field& f : msgs[idx].myFields)
				ReadField(g, in, f);
			in.Close();
			readPos += msgs[idx].Size();
			++idx;
		}
		if (pos == bytes.size())
			break;
		uint64_t left = bytes.size() - pos;
		uint64_t n = 0;
		switch (g.Weighted({3, 2, 3, 2}))
		{
		case 0: n = 1 + g.Small(16); break;
		case 1: n = 1 + g.Below(left); break;
		case 2: // Up to around the next message border.
		{
			uint64_t need = idx < msgs.size() ? readPos + msgs[idx].Size() - pos : 1;
			n = need - 2 + g.Below(5);
			if (n == 0 || n > left)
				n = 1;
			break;
		}
		default: n = left; break;
		}
		if (n > left)
			n = left;
		if (g.Bool())
			stream.WriteCopy(bytes.data() + pos, n);
		else
			stream.WriteRef(mg::net::BuffersCopy(bytes.data() + pos, n));
		pos += n;
		++pieces;
	}
	if (idx != msgs.size())
		Fail("tst-message-lost", "only %zu of %zu messages are read", idx, msgs.size());
	HashMix(bytes.size());
	HashMix(pieces);
	for (const Msg& m : msgs)
	{
		for (const Field& f : m.myFields)
			HashMix((uint64_t)f.myType * 100000 + f.Size());
	}
	if (waits > 0 && msgs.size() > 1)
		NonTrivial();
	Describe("%zu messages, %zu bytes in %llu pieces, %llu incomplete", msgs.size(), bytes.size(),
		(unsigned long long)pieces, (unsigned long long)waits);
}

PBT_TEST(tst_args, MODE_INPROC, 5)
{
	static const char* const theNames[] = {
		"a", "port", "Port", "por", "ports", "-port", "a-b", "x_1", "0", "7seven", "-", "_",
	};
	struct Value
	{
		std::string myStr;
		bool myIsNum = false;
		uint64_t myNum = 0;
	};
	auto genValue = [&](Gen& g) {
		Value v;
		switch (g.Below(5))
		{
		case 0:
		{
			v.myIsNum = true;
			v.myNum = g.Edge64();
			if (g.Bool())
				v.myNum = g.Pick<uint64_t>({0, 1, 255, 256, 65535, 65536, UINT32_MAX,
					(uint64_t)UINT32_MAX + 1, UINT64_MAX});
			v.myStr = std::to_string(v.myNum);
			break;
		}
		case 1:
			v.myStr = g.Pick<const char*>({"true", "false", "FALSE", "False", "fals", "falsey",
				"", "yes", "no", "00", "0 ", "tRUE"});
			break;
		case 2:
			// A value may look like a name.
			v.myStr = std::string("-") + theNames[g.Below(sizeof(theNames) / sizeof(theNames[0]))];
			break;
		default:
		{
			uint64_t n = g.Small(20);
			for (uint64_t i = 0; i < n; ++i)
				v.myStr += (char)g.Range(1, 255);
			break;
		}
		}
		return v;
	};
	std::vector<std::string> argv;
	struct Pair
	{
		std::string myKey;
		Value myVal;
	};
	std::vector<Pair> pairs;
	uint64_t count = g.Small(8);
	bool isCut = false;
	for (uint64_t i = 0; i < count; ++i)
	{
		uint64_t free = g.Chance(1, 3) ? g.Below(3) : 0;
		for (uint64_t j = 0; j < free; ++j)
		{
			// Unnamed arguments are ignored.
			std::string s = genValue(g).myStr;
			if (!s.empty() && s[0] == '-')
				s = "x" + s;
			argv.push_back(s);
		}
		Pair p;
		p.myKey = theNames[g.Below(sizeof(theNames) / sizeof(theNames[0]))];
		argv.push_back("-" + p.myKey);
		if (i + 1 == count && g.Chance(1, 3))
		{
			isCut = true;
		}
		else
		{
			p.myVal = genValue(g);
			argv.push_back(p.myVal.myStr);
		}
		pairs.push_back(std::move(p));
	}
	std::vector<const char*> ptrs;
	for (const std::string& s : argv)
		ptrs.push_back(s.c_str());
	CommandLine cmd((int)ptrs.size(), ptrs.data());
	// Must not depend on the originals.
	for (std::string& s : argv)
	{
		for (char& c : s)
			c = '!';
	}
	uint64_t found = 0;
	for (const char* name : theNames)
	{
		const Pair* p = nullptr;
		for (const Pair& i : pairs)
		{
			if (i.myKey == name)
			{
				p = &i;
				break;
			}
		}
		PBT_CHECK_F(cmd.IsPresent(name) == (p != nullptr), "tst-args-present",
			"argument '%s'", name);
		std::string s = "untouched";
		uint64_t u64 = 11;
		uint32_t u32 = 12;
		uint16_t u16 = 13;
		if (p == nullptr)
		{
			PBT_CHECK_F(!cmd.IsTrue(name), "tst-args-absent", "'%s' is true", name);
			PBT_CHECK_F(!cmd.GetStr(name, s) && s == "untouched", "tst-args-absent", "'%s'", name);
			PBT_CHECK_F(!cmd.GetU64(name, u64) && u64 == 11, "tst-args-absent", "'%s'", name);
			PBT_CHECK_F(!cmd.GetU32(name, u32) && u32 == 12, "tst-args-absent", "'%s'", name);
			PBT_CHECK_F(!cmd.GetU16(name, u16) && u16 == 13, "tst-args-absent", "'%s'", name);
			continue;
		}
		++found;
		const Value& v = p->myVal;
		std::string low;
		for (char c : v.myStr)
			low += c >= 'A' && c <= 'Z' ? (char)(c - 'A' + 'a') : c;
		bool isTrue = v.myStr != "0" && low != "false";
		PBT_CHECK_F(cmd.IsTrue(name) == isTrue, "tst-args-true", "'%s' = '%s'", name,
			v.myStr.c_str());
		PBT_CHECK_F(cmd.GetStr(name) == v.myStr, "tst-args-str", "'%s'", name);
		PBT_CHECK_F(cmd.GetStr(name, s) && s == v.myStr, "tst-args-str", "'%s'", name);
		if (v.myIsNum)
		{
			PBT_CHECK_F(cmd.GetU64(name) == v.myNum && cmd.GetU64(name, u64) &&
				u64 == v.myNum, "tst-args-num", "'%s' = %s", name, v.myStr.c_str());
			if (v.myNum <= UINT32_MAX)
			{
				PBT_CHECK_F(cmd.GetU32(name) == v.myNum &&
					cmd.GetU32(name, u32) && u32 == v.myNum, "tst-args-num", "'%s' = %s", name,
					v.myStr.c_str());
			}
			if (v.myNum <= UINT16_MAX)
			{
				PBT_CHECK_F(cmd.GetU16(name) == v.myNum &&
					cmd.GetU16(name, u16) && u16 == v.myNum, "tst-args-num", "'%s' = %s", name,
					v.myStr.c_str());
			}
		}
	}
	for (const Pair& p : pairs)
	{
		HashMix(std::hash<std::string>()(p.myKey));
		HashMix(std::hash<std::string>()(p.myVal.myStr));
	}
	if (found > 1)
		NonTrivial();
	Describe("%zu arguments, %llu found%s", ptrs.size(), (unsigned long long)found,
		isCut ? ", last without a value" : "");
}

PBT_TEST(tst_random, MODE_INPROC, 1)
{
	uint32_t a = (uint32_t)g.Edge64();
	uint32_t b = g.Bool() ? a + (uint32_t)g.Small(5) : (uint32_t)g.Edge64();
	uint32_t lo = a < b ? a : b;
	uint32_t hi = a < b ? b : a;
	std::set<uint32_t> seen;
	for (int i = 0; i < 400; ++i)
	{
		uint32_t v = RandomUniformUInt32(lo, hi);
		PBT_CHECK_F(v >= lo && v <= hi, "tst-random-range", "%u is not in [%u, %u]", v, lo, hi);
		seen.insert(v);
	}
	// A miss has a probability below 1e-25.
	if (hi - lo < 6)
	{
		PBT_CHECK_F(seen.size() == (size_t)(hi - lo) + 1, "tst-random-all",
			"only %zu values of [%u, %u]", seen.size(), lo, hi);
	}
	bool t = false;
	bool f = false;
	for (int i = 0; i < 200; ++i)
	{
		bool v = RandomBool();
		t |= v;
		f |= !v;
	}
	PBT_CHECK_F(t && f, "tst-random-bool", "always the same boolean");
	HashMix(((uint64_t)lo << 32) | hi);
	if (lo != hi)
		NonTrivial();
}
