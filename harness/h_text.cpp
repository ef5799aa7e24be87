// Texts: numbers, formatting, addresses, URLs, errors; and time values.
#include "pbt.h"

#include "mg/box/Error.h"
#include "mg/box/StringFunctions.h"
#include "mg/box/Time.h"
#include "mg/net/Host.h"
#include "mg/net/SSL.h"
#include "mg/net/SSLOpenSSL.h"
#include "mg/net/URL.h"

#include <arpa/inet.h>
#include <cstring>
#include <memory>
#include <openssl/err.h>
#include <openssl/ssl.h>
#include <string>
#include <sys/syscall.h>
#include <unistd.h>
#include <vector>

using namespace pbt;

//////////////////////////////////////////////////////////////////////////////////////////
// Virtual clock.

static bool theClockIsVirtual = false;
static timespec theClock = {0, 0};
static int theClockID = -1;

extern "C" int
clock_gettime(
	clockid_t id,
	timespec* ts)
{
	if (!theClockIsVirtual)
		return (int)syscall(SYS_clock_gettime, id, ts);
	theClockID = id;
	*ts = theClock;
	return 0;
}

namespace {

struct ClockGuard
{
	ClockGuard() { theClockIsVirtual = true; }
	~ClockGuard() { theClockIsVirtual = false; }
};

//////////////////////////////////////////////////////////////////////////////////////////
// Generators.

static const char theSpaces[] = {' ', '\t', '\n', '\v', '\f', '\r'};

static bool
IsSpace(
	char c)
{
	for (char s : theSpaces)
	{
		if (c == s)
			return true;
	}
	return false;
}

static char
Lower(
	char c)
{
	return c >= 'A' && c <= 'Z' ? (char)(c - 'A' + 'a') : c;
}

static std::string
GenSpaces(
	Gen& g,
	uint64_t max)
{
	std::string res;
	for (uint64_t i = 0, n = g.Small(max); i < n; ++i)
		res += theSpaces[g.Below(6)];
	return res;
}

static std::string
U128ToString(
	unsigned __int128 v)
{
	std::string res;
	do
	{
		res.insert(res.begin(), (char)('0' + (int)(v % 10)));
		v /= 10;
	} while (v != 0);
	return res;
}

static std::string
GenNumberText(
	Gen& g,
	bool& outIsPlain)
{
	std::string res;
	outIsPlain = true;
	switch (g.Weighted({4, 3, 2, 1}))
	{
	case 0:
	{
		// Around the borders of all the types.
		static const uint64_t borders[] = {0, 9, 10, 99, 255, 256, INT16_MAX, UINT16_MAX, INT32_MAX, UINT32_MAX, INT64_MAX, UINT64_MAX, 10000000000000000000ULL};
		unsigned __int128 v = borders[g.Below(sizeof(borders) / sizeof(*borders))];
		v += g.Below(4);
		if (g.Bool())
		{
			uint64_t d = g.Below(4);
			v = v >= d ? v - d : 0;
		}
		if (g.Chance(1, 8))
			v *= g.Pick<uint64_t>({2, 10, 16, 65536, 4294967296ULL});
		res = U128ToString(v);
		break;
	}
	case 1:
		res = U128ToString(g.Edge64());
		break;
	case 2:
	{
		uint64_t n = g.Below(26);
		for (uint64_t i = 0; i < n; ++i)
			res += (char)('0' + g.Below(10));
		break;
	}
	default:
	{
		uint64_t n = g.Below(8);
		for (uint64_t i = 0; i < n; ++i)
			res += (char)g.Range(1, 255);
		break;
	}
	}
	if (g.Chance(1, 6))
		res = std::string(g.Range(1, 25), '0') + res;
	if (g.Chance(1, 3))
	{
		outIsPlain = false;
		static const char* prefixes[] = {"-", "+", " ", "0x", "-0", "+-", "--", "- ", "++", "+ "};
		static const char* suffixes[] = {" ", "a", ".", ".0", "-", "+", "e1", "\n", "\t", "0x1", ",", "\xff", "L", "u"};
		switch (g.Below(4))
		{
		case 0:
			res = prefixes[g.Below(sizeof(prefixes) / sizeof(*prefixes))] + res;
			break;
		case 1:
			res += suffixes[g.Below(sizeof(suffixes) / sizeof(*suffixes))];
			break;
		case 2:
			res.insert(g.Below(res.size() + 1), 1, (char)g.Range(1, 255));
			break;
		default:
			res = GenSpaces(g, 4) + res + (g.Bool() ? GenSpaces(g, 2) : std::string());
			break;
		}
	}
	return res;
}

// 1 - must be accepted, 0 - must be rejected, -1 - either way.
static int
ModelNumber(
	const std::string& s,
	uint64_t max,
	uint64_t& outValue)
{
	size_t i = 0;
	int ok = 1;
	while (i < s.size() && IsSpace(s[i]))
		++i;
	if (i < s.size() && s[i] == '+')
	{
		// Plus is a matter of taste.
		ok = -1;
		++i;
	}
	if (i == s.size())
		return 0;
	unsigned __int128 v = 0;
	for (; i < s.size(); ++i)
	{
		if (s[i] < '0' || s[i] > '9')
			return 0;
		v = v * 10 + (s[i] - '0');
		if (v > max)
			v = (unsigned __int128)max + 1;
	}
	if (v > max)
		return 0;
	outValue = (uint64_t)v;
	return ok;
}

static std::string
Escape(
	const std::string& s)
{
	std::string res;
	char buf[8];
	for (char c : s)
	{
		if (c >= 32 && c < 127 && c != '\\')
		{
			res += c;
			continue;
		}
		snprintf(buf, sizeof(buf), "\\x%02x", (uint8_t)c);
		res += buf;
	}
	return res;
}

// An exact copy on the heap to catch any access out of the string.
struct HeapStr
{
	HeapStr(const std::string& s) : myData(new char[s.size() + 1])
	{
		memcpy(myData, s.c_str(), s.size() + 1);
	}
	~HeapStr() { delete[] myData; }
	char* myData;
};

template<typename T>
static int
CheckNumber(
	const std::string& s)
{
	uint64_t expected = 0;
	uint64_t max = (uint64_t)(T)~(T)0;
	int must = ModelNumber(s, max, expected);
	HeapStr h(s);
	T res = (T)0x5a5a5a5a5a5a5a5aULL;
	// Old errors must not affect the result.
	errno = s.size() % 2 == 0 ? 0 : ERANGE;
	bool ok = mg::box::StringToNumber(h.myData, res);
	PBT_CHECK_F(must < 0 || ok == (must == 1), "number_accept", "'%s' as %u bytes: accepted=%d", Escape(s).c_str(), (unsigned)sizeof(T), (int)ok);
	PBT_CHECK_F(!ok || res == (T)expected, "number_value", "'%s' as %u bytes: got %llu, expected %llu", Escape(s).c_str(), (unsigned)sizeof(T), (unsigned long long)res, (unsigned long long)expected);
	return ok ? 1 : 0;
}

PBT_TEST(number, MODE_INPROC, 1)
{
	uint64_t n = g.Range(1, 6);
	for (uint64_t i = 0; i < n; ++i)
	{
		bool isPlain;
		std::string s = GenNumberText(g, isPlain);
		s = s.c_str();
		Describe("parse '%s'\n", Escape(s).c_str());
		int r = CheckNumber<uint16_t>(s);
		r += CheckNumber<uint32_t>(s);
		r += CheckNumber<uint64_t>(s);
		if (s.size() > 1)
			NonTrivial();
		Label(r == 0 ? "rejected" : r == 3 ? "accepted_by_all" : "accepted_by_some");
		for (char c : s)
			HashMix((uint8_t)c);
	}
}

//////////////////////////////////////////////////////////////////////////////////////////

static std::string
GenText(
	Gen& g,
	uint64_t max,
	bool isAscii)
{
	std::string res;
	uint64_t n = g.Chance(1, 10) ? g.Below(max + 1) : g.Below(std::min<uint64_t>(max, 14) + 1);
	int kind = (int)g.Below(4);
	for (uint64_t i = 0; i < n; ++i)
	{
		switch (kind)
		{
		case 0:
			res += "abAB"[g.Below(4)];
			break;
		case 1:
			res += g.Chance(1, 3) ? theSpaces[g.Below(6)] : "xY_"[g.Below(3)];
			break;
		case 2:
			res += "azAZ@[`{09 "[g.Below(11)];
			break;
		default:
			res += (char)g.Range(1, isAscii ? 127 : 255);
			break;
		}
	}
	return res;
}

static int
ModelCaseCmp(
	const std::string& a,
	const std::string& b)
{
	for (size_t i = 0;; ++i)
	{
		int x = i < a.size() ? (uint8_t)Lower(a[i]) : 0;
		int y = i < b.size() ? (uint8_t)Lower(b[i]) : 0;
		if (x != y)
			return x < y ? -1 : 1;
		if (x == 0)
			return 0;
	}
}

static int
Sign(
	int v)
{
	return v < 0 ? -1 : v > 0 ? 1 : 0;
}

static std::string
CallV(
	const char* fmt,
	...)
{
	va_list va;
	va_start(va, fmt);
	std::string res = mg::box::StringVFormat(fmt, va);
	va_end(va);
	return res;
}

static uint32_t
CallN(
	char* buf,
	uint32_t size,
	const char* fmt,
	...)
{
	va_list va;
	va_start(va, fmt);
	uint32_t res = mg::box::Vsnprintf(buf, size, fmt, va);
	va_end(va);
	return res;
}

template<typename... Args>
static void
CheckFormat(
	Gen& g,
	const char* fmt,
	Args... args)
{
	int len = snprintf(nullptr, 0, fmt, args...);
	std::string expected;
	expected.resize(len + 1);
	snprintf(&expected[0], len + 1, fmt, args...);
	expected.resize(len);
	std::string res = mg::box::StringFormat(fmt, args...);
	PBT_CHECK_F(res == expected, "format_text", "'%s': length %zu, expected %zu", fmt, res.size(), expected.size());
	res = CallV(fmt, args...);
	PBT_CHECK_F(res == expected, "format_text", "v '%s': length %zu, expected %zu", fmt, res.size(), expected.size());
	uint32_t size;
	switch (g.Below(3))
	{
	case 0:
		size = (uint32_t)g.Below(len + 3);
		break;
	case 1:
		size = (uint32_t)(len + g.Below(3));
		break;
	default:
		size = (uint32_t)g.Below(3);
		break;
	}
	std::unique_ptr<char[]> buf(new char[size]);
	memset(buf.get(), 'Z', size);
	uint32_t rc = CallN(size == 0 && g.Bool() ? nullptr : buf.get(), size, fmt, args...);
	PBT_CHECK_F(rc == (uint32_t)len, "format_size", "'%s': %u instead of %d", fmt, rc, len);
	if (size > 0)
	{
		uint32_t put = std::min<uint32_t>(size - 1, len);
		PBT_CHECK_F(memcmp(buf.get(), expected.data(), put) == 0, "format_text", "'%s' cut to %u", fmt, size);
		PBT_CHECK_F(buf[put] == 0, "format_terminator", "'%s' cut to %u", fmt, size);
	}
}

PBT_TEST(text, MODE_INPROC, 1)
{
	uint64_t n = g.Range(1, 4);
	for (uint64_t i = 0; i < n; ++i)
	{
		switch (g.Below(5))
		{
		case 0:
		{
			std::string s = GenText(g, 300, true);
			if (g.Bool())
				s = GenSpaces(g, 5) + s + GenSpaces(g, 5);
			Describe("trim '%s'\n", Escape(s).c_str());
			size_t b = 0, e = s.size();
			while (b < e && IsSpace(s[b]))
				++b;
			while (e > b && IsSpace(s[e - 1]))
				--e;
			std::string expected = s.substr(b, e - b);
			std::string res = s;
			mg::box::StringTrim(res);
			PBT_CHECK_F(res == expected, "trim", "'%s' became '%s'", Escape(s).c_str(), Escape(res).c_str());
			if (s.size() > 1)
				NonTrivial();
			HashMix(std::hash<std::string>()(s));
			Label("trim");
			break;
		}
		case 1:
		{
			std::string a = GenText(g, 200, true);
			std::string b;
			if (a.empty() || g.Chance(1, 4))
			{
				b = GenText(g, 6, true);
			}
			else
			{
				size_t pos = g.Below(a.size());
				b = a.substr(pos, g.Below(a.size() - pos + 1));
				for (char& c : b)
				{
					if (g.Bool())
						c = c >= 'a' && c <= 'z' ? (char)(c - 'a' + 'A') : Lower(c);
				}
				if (!b.empty() && g.Chance(1, 4))
					b[g.Below(b.size())] = (char)g.Range(1, 127);
			}
			Describe("find '%s' in '%s'\n", Escape(b).c_str(), Escape(a).c_str());
			HeapStr ha(a), hb(b);
			const char* res = mg::box::Strcasestr(ha.myData, hb.myData);
			const char* expected = nullptr;
			for (size_t pos = 0; pos + b.size() <= a.size(); ++pos)
			{
				size_t k = 0;
				while (k < b.size() && Lower(a[pos + k]) == Lower(b[k]))
					++k;
				if (k == b.size())
				{
					expected = ha.myData + pos;
					break;
				}
			}
			PBT_CHECK_F(res == expected, "strcasestr", "'%s' in '%s': %d instead of %d", Escape(b).c_str(), Escape(a).c_str(), res == nullptr ? -1 : (int)(res - ha.myData), expected == nullptr ? -1 : (int)(expected - ha.myData));
			if (a.size() > 1 && !b.empty())
				NonTrivial();
			HashMix(std::hash<std::string>()(a) * 31 + std::hash<std::string>()(b));
			Label(res != nullptr ? "found" : "not_found");
			break;
		}
		case 2:
		{
			std::string a = GenText(g, 200, true);
			std::string b = g.Chance(1, 3) ? GenText(g, 200, true) : a;
			if (!b.empty() && g.Bool())
			{
				char& c = b[g.Below(b.size())];
				c = g.Bool() ? (char)(c ^ 0x20) : (char)g.Range(1, 127);
			}
			b = b.c_str();
			if (g.Chance(1, 6))
				b.resize(g.Below(b.size() + 1));
			Describe("compare '%s' with '%s'\n", Escape(a).c_str(), Escape(b).c_str());
			HeapStr ha(a), hb(b);
			PBT_CHECK_F(Sign(mg::box::Strcasecmp(ha.myData, hb.myData)) == ModelCaseCmp(a, b), "strcasecmp", "'%s' and '%s'", Escape(a).c_str(), Escape(b).c_str());
			PBT_CHECK_F(Sign(mg::box::Strcmp(ha.myData, hb.myData)) == Sign(a.compare(b)), "strcmp", "'%s' and '%s'", Escape(a).c_str(), Escape(b).c_str());
			uint32_t count = (uint32_t)g.Below(a.size() + 2);
			PBT_CHECK_F(Sign(mg::box::Strncmp(ha.myData, hb.myData, count)) == Sign(a.substr(0, std::min<size_t>(count, a.size())).compare(b.substr(0, std::min<size_t>(count, b.size())))), "strncmp", "%u of '%s' and '%s'", count, Escape(a).c_str(), Escape(b).c_str());
			PBT_CHECK(mg::box::Strlen(ha.myData) == a.size(), "strlen");
			char* dup = mg::box::Strdup(ha.myData);
			PBT_CHECK_F(a == dup && dup != ha.myData, "strdup", "'%s'", Escape(a).c_str());
			free(dup);
			if (a.size() > 1 && !b.empty())
				NonTrivial();
			HashMix(std::hash<std::string>()(a) * 31 + std::hash<std::string>()(b));
			Label("compare");
			break;
		}
		default:
		{
			std::string s = g.Chance(1, 6) ? std::string(g.Range(100, 20000), 'q') : GenText(g, 600, false);
			uint64_t v = g.Edge64();
			int w = (int)g.Below(g.Chance(1, 8) ? 3000 : 20);
			uint64_t kind = g.Below(9);
			Describe("format %d of %zu bytes, value %llu, width %d\n", (int)kind, s.size(), (unsigned long long)v, w);
			switch (kind)
			{
			case 0:
				CheckFormat(g, "%s", s.c_str());
				break;
			case 1:
				CheckFormat(g, "%.*s|%llu", w, s.c_str(), (unsigned long long)v);
				break;
			case 2:
				CheckFormat(g, "%lld%%", (long long)v);
				break;
			case 3:
				CheckFormat(g, "%x %X %o", (unsigned)v, (unsigned)(v >> 32), (unsigned)(v >> 16));
				break;
			case 4:
				CheckFormat(g, "[%-*s]%c", w, s.c_str(), (char)(v % 255 + 1));
				break;
			case 5:
				CheckFormat(g, "%*d|%u", w, (int)v, (unsigned)v);
				break;
			case 6:
				CheckFormat(g, "%.3f %g", (double)(int64_t)v, (double)v / 3);
				break;
			case 7:
				CheckFormat(g, "%s%s%s", s.c_str(), s.c_str(), s.c_str());
				break;
			default:
				CheckFormat(g, "%s", "");
				break;
			}
			if (kind != 8)
				NonTrivial();
			HashMix(std::hash<std::string>()(s) * 31 + v * 7 + w * 11 + kind);
			Label("format");
			break;
		}
		}
	}
}

//////////////////////////////////////////////////////////////////////////////////////////
// Addresses.

using mg::net::Host;

struct HostModel
{
	int myFamily = 0;
	uint8_t myIP[16] = {};
	uint16_t myPort = 0;
};

static void
HostCompare(
	const Host& h,
	const HostModel& m,
	const char* what)
{
	PBT_CHECK_F(h.myAddr.sa_family == m.myFamily, "host_family", "%s: %d instead of %d", what, h.myAddr.sa_family, m.myFamily);
	PBT_CHECK_F(h.IsIPV4() == (m.myFamily == AF_INET) && h.IsIPV6() == (m.myFamily == AF_INET6) && h.IsSet() == (m.myFamily != 0), "host_family", "%s", what);
	if (m.myFamily == AF_INET)
	{
		PBT_CHECK_F(memcmp(&h.myAddrIn.sin_addr, m.myIP, 4) == 0, "host_ip", "%s: %s", what, h.ToString().c_str());
		PBT_CHECK_F(ntohs(h.myAddrIn.sin_port) == m.myPort && h.GetPort() == m.myPort, "host_port", "%s: %u instead of %u", what, h.GetPort(), m.myPort);
		PBT_CHECK_F(h.GetSockaddrSize() == sizeof(sockaddr_in), "host_size", "%s", what);
	}
	else if (m.myFamily == AF_INET6)
	{
		PBT_CHECK_F(memcmp(&h.myAddrIn6.sin6_addr, m.myIP, 16) == 0, "host_ip", "%s: %s", what, h.ToString().c_str());
		PBT_CHECK_F(ntohs(h.myAddrIn6.sin6_port) == m.myPort && h.GetPort() == m.myPort, "host_port", "%s: %u instead of %u", what, h.GetPort(), m.myPort);
		PBT_CHECK_F(h.GetSockaddrSize() == sizeof(sockaddr_in6), "host_size", "%s", what);
	}
}

// The port text after ':'. 1 - valid, 0 - invalid, -1 - either.
static int
ModelPort(
	const std::string& s,
	uint16_t& outPort)
{
	uint64_t v = 0;
	int res = ModelNumber(s, UINT16_MAX, v);
	if (res == 1 && !(s[0] >= '0' && s[0] <= '9'))
		res = -1;
	outPort = (uint16_t)v;
	return res;
}

static int
ModelHost(
	const std::string& s,
	HostModel& out)
{
	HostModel m;
	if (!s.empty() && s[0] == '[')
	{
		size_t end = s.find(']');
		if (end == std::string::npos)
			return 0;
		if (inet_pton(AF_INET6, s.substr(1, end - 1).c_str(), m.myIP) != 1)
			return 0;
		m.myFamily = AF_INET6;
		int rc = 1;
		if (end + 1 < s.size())
		{
			if (s[end + 1] != ':')
				return 0;
			rc = ModelPort(s.substr(end + 2), m.myPort);
		}
		out = m;
		return rc;
	}
	if (inet_pton(AF_INET, s.c_str(), m.myIP) == 1)
	{
		m.myFamily = AF_INET;
		out = m;
		return 1;
	}
	if (inet_pton(AF_INET6, s.c_str(), m.myIP) == 1)
	{
		m.myFamily = AF_INET6;
		out = m;
		return 1;
	}
	memset(m.myIP, 0, sizeof(m.myIP));
	size_t pos = s.find(':');
	if (pos == std::string::npos)
		return 0;
	if (inet_pton(AF_INET, s.substr(0, pos).c_str(), m.myIP) != 1)
		return 0;
	m.myFamily = AF_INET;
	int rc = ModelPort(s.substr(pos + 1), m.myPort);
	out = m;
	return rc;
}

static void
GenIP(
	Gen& g,
	bool is6,
	uint8_t* out)
{
	int n = is6 ? 16 : 4;
	int kind = (int)g.Below(5);
	for (int i = 0; i < n; ++i)
	{
		switch (kind)
		{
		case 0:
			out[i] = (uint8_t)g.Below(256);
			break;
		case 1:
			out[i] = g.Chance(1, 4) ? (uint8_t)g.Below(256) : 0;
			break;
		case 2:
			out[i] = g.Bool() ? 255 : 0;
			break;
		case 3:
			out[i] = i == n - 1 ? 1 : 0;
			break;
		default:
			// Groups of zeros of different lengths.
			out[i] = g.Chance(1, 3) ? (uint8_t)(i % 2 == 0 ? 0 : 1) : (uint8_t)g.Below(3);
			break;
		}
	}
	if (is6 && g.Chance(1, 6))
	{
		// Mapped and compatible.
		memset(out, 0, 12);
		if (g.Bool())
			out[10] = out[11] = 255;
	}
}

static std::string
IPToText(
	Gen& g,
	bool is6,
	const uint8_t* ip)
{
	char buf[128];
	if (!is6 || g.Bool())
	{
		inet_ntop(is6 ? AF_INET6 : AF_INET, ip, buf, sizeof(buf));
		return buf;
	}
	// The full form, the longest one.
	std::string res;
	bool isUp = g.Bool();
	bool isWide = g.Bool();
	bool isMixed = g.Chance(1, 3);
	for (int i = 0; i < (isMixed ? 6 : 8); ++i)
	{
		unsigned v = ip[i * 2] << 8 | ip[i * 2 + 1];
		snprintf(buf, sizeof(buf), isWide ? (isUp ? "%04X" : "%04x") : (isUp ? "%X" : "%x"), v);
		if (i > 0)
			res += ':';
		res += buf;
	}
	if (isMixed)
	{
		snprintf(buf, sizeof(buf), ":%u.%u.%u.%u", ip[12], ip[13], ip[14], ip[15]);
		res += buf;
	}
	return res;
}

static std::string
GenPortText(
	Gen& g)
{
	switch (g.Weighted({4, 2, 1, 1}))
	{
	case 0:
		return std::to_string(g.Pick<uint64_t>({0, 1, 9, 80, 443, 8080, 65534, 65535}));
	case 1:
		return std::to_string(g.Below(65536));
	case 2:
		return std::to_string(g.Pick<uint64_t>({65536, 65537, 99999, 100000, 131071, 4294967296ULL + 80}));
	default:
	{
		bool isPlain;
		std::string res = GenNumberText(g, isPlain);
		return res.c_str();
	}
	}
}

static std::string
GenHostText(
	Gen& g)
{
	uint8_t ip[16];
	bool is6 = g.Bool();
	GenIP(g, is6, ip);
	std::string res = IPToText(g, is6, ip);
	if (is6)
	{
		if (!g.Chance(1, 4))
		{
			res = "[" + res + "]";
			if (g.Bool())
				res += ":" + GenPortText(g);
		}
	}
	else
	{
		if (g.Chance(1, 20))
			res = "[" + res + "]";
		if (g.Bool())
			res += ":" + GenPortText(g);
	}
	if (g.Chance(1, 3))
	{
		static const char chars[] = "[]:.0123456789abcdefABCDEFg %/x-+\n";
		uint64_t count = g.Range(1, 3);
		for (uint64_t i = 0; i < count; ++i)
		{
			char c = g.Chance(1, 10) ? (char)g.Range(1, 255) : chars[g.Below(sizeof(chars) - 1)];
			switch (g.Below(4))
			{
			case 0:
				res.insert(g.Below(res.size() + 1), 1, c);
				break;
			case 1:
				if (!res.empty())
					res.erase(g.Below(res.size()), 1);
				break;
			case 2:
				if (!res.empty())
					res[g.Below(res.size())] = c;
				break;
			default:
				if (!res.empty())
				{
					// Repeat a part.
					size_t pos = g.Below(res.size());
					res.insert(g.Below(res.size() + 1), res.substr(pos, g.Range(1, 80)));
				}
				break;
			}
		}
	}
	if (g.Chance(1, 60))
		res.insert(g.Below(res.size() + 1), std::string(g.Range(1, 100), g.Pick({'1', ':', '0', '.', 'f'})));
	return res;
}

static Host
GenHost(
	Gen& g,
	HostModel& m)
{
	m = HostModel();
	Host h;
	uint64_t kind = g.Weighted({1, 4, 4});
	if (kind == 0)
		return h;
	bool is6 = kind == 2;
	m.myFamily = is6 ? AF_INET6 : AF_INET;
	GenIP(g, is6, m.myIP);
	m.myPort = (uint16_t)g.Edge64();
	// Fields unrelated to the address have garbage.
	sockaddr_storage ss;
	memset(&ss, g.Bool() ? 0 : 0x5a, sizeof(ss));
	if (is6)
	{
		sockaddr_in6* a = (sockaddr_in6*)&ss;
		a->sin6_family = AF_INET6;
		memcpy(&a->sin6_addr, m.myIP, 16);
		a->sin6_port = htons(m.myPort);
		if (g.Bool())
			a->sin6_flowinfo = (uint32_t)g.Any();
		if (g.Bool())
			a->sin6_scope_id = (uint32_t)g.Any();
	}
	else
	{
		sockaddr_in* a = (sockaddr_in*)&ss;
		a->sin_family = AF_INET;
		memcpy(&a->sin_addr, m.myIP, 4);
		a->sin_port = htons(m.myPort);
	}
	// Exactly the needed size.
	size_t size = is6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in);
	std::unique_ptr<char[]> mem(new char[size]);
	memcpy(mem.get(), &ss, size);
	if (g.Bool())
		h = Host((const sockaddr*)mem.get());
	else
		h.Set((const sockaddr*)mem.get());
	return h;
}

PBT_TEST(host_parse, MODE_INPROC, 2)
{
	uint64_t n = g.Range(1, 4);
	for (uint64_t i = 0; i < n; ++i)
	{
		std::string s = GenHostText(g);
		s = s.c_str();
		Describe("host '%s'\n", Escape(s).c_str());
		HostModel m;
		int must = ModelHost(s, m);
		HeapStr hs(s);
		HostModel oldModel;
		Host h = GenHost(g, oldModel);
		bool ok;
		bool isCtor = g.Chance(1, 3);
		if (isCtor)
		{
			h = Host(hs.myData);
			ok = h.IsSet();
		}
		else
		{
			ok = g.Bool() ? h.Set(hs.myData) : h.Set(s);
		}
		PBT_CHECK_F(must < 0 || ok == (must == 1), "host_accept", "'%s': accepted=%d", Escape(s).c_str(), (int)ok);
		if (ok)
			HostCompare(h, m, Escape(s).c_str());
		else
			HostCompare(h, isCtor ? HostModel() : oldModel, "not parsed");
		HashMix(std::hash<std::string>()(s));
		if (s.size() > 6)
			NonTrivial();
		Label(ok ? (m.myFamily == AF_INET ? "ipv4" : "ipv6") : "rejected");
	}
}

PBT_TEST(host_value, MODE_INPROC, 1)
{
	uint64_t n = g.Range(2, 4);
	std::vector<Host> hosts;
	std::vector<HostModel> models;
	for (uint64_t i = 0; i < n; ++i)
	{
		HostModel m;
		Host h;
		if (!models.empty() && g.Bool())
		{
			// A slightly different one.
			uint64_t idx = g.Below(models.size());
			m = models[idx];
			h = hosts[idx];
			if (m.myFamily != 0)
			{
				if (g.Chance(1, 2))
				{
					m.myPort = g.Bool() ? (uint16_t)(m.myPort ^ (1 << g.Below(16))) : (uint16_t)g.Edge64();
					h.SetPort(m.myPort);
				}
				if (g.Chance(1, 2))
				{
					int pos = (int)g.Below(m.myFamily == AF_INET ? 4 : 16);
					uint8_t bit = (uint8_t)(1 << g.Below(8));
					m.myIP[pos] ^= bit;
					if (m.myFamily == AF_INET)
						((uint8_t*)&h.myAddrIn.sin_addr)[pos] ^= bit;
					else
						((uint8_t*)&h.myAddrIn6.sin6_addr)[pos] ^= bit;
				}
			}
		}
		else if (g.Chance(1, 4))
		{
			m.myPort = (uint16_t)g.Edge64();
			switch (g.Below(4))
			{
			case 0:
				m.myFamily = AF_INET;
				m.myIP[0] = 127;
				m.myIP[3] = 1;
				h = mg::net::HostMakeLocalIPV4(m.myPort);
				break;
			case 1:
				m.myFamily = AF_INET6;
				m.myIP[15] = 1;
				h = mg::net::HostMakeLocalIPV6(m.myPort);
				break;
			case 2:
				m.myFamily = AF_INET;
				h = mg::net::HostMakeAllIPV4(m.myPort);
				break;
			default:
				m.myFamily = AF_INET6;
				h = mg::net::HostMakeAllIPV6(m.myPort);
				break;
			}
		}
		else
		{
			h = GenHost(g, m);
		}
		HostCompare(h, m, "made");
		hosts.push_back(h);
		models.push_back(m);
		HashMix(m.myFamily * 70000 + m.myPort);
		for (uint8_t b : m.myIP)
			HashMix(b);
	}
	for (uint64_t i = 0; i < n; ++i)
	{
		const HostModel& m = models[i];
		const Host& h = hosts[i];
		std::string str = h.ToString();
		std::string strNoPort = h.ToStringNoPort();
		Describe("host '%s'\n", str.c_str());
		if (m.myFamily == 0)
		{
			PBT_CHECK_F(str == "none" && strNoPort == "none", "host_print", "%s", str.c_str());
			PBT_CHECK(!Host(str).IsSet(), "host_print");
		}
		else
		{
			char buf[64];
			inet_ntop(m.myFamily, m.myIP, buf, sizeof(buf));
			std::string expected = buf;
			PBT_CHECK_F(strNoPort == expected, "host_print", "%s", strNoPort.c_str());
			if (m.myFamily == AF_INET6)
				expected = "[" + expected + "]";
			expected += ":" + std::to_string(m.myPort);
			PBT_CHECK_F(str == expected, "host_print", "%s instead of %s", str.c_str(), expected.c_str());
			Host back;
			PBT_CHECK_F(back.Set(str), "host_round_trip", "%s", str.c_str());
			PBT_CHECK_F(back == h && !(back != h), "host_round_trip", "%s", str.c_str());
			Host backNoPort;
			PBT_CHECK_F(backNoPort.Set(strNoPort), "host_round_trip", "%s", strNoPort.c_str());
			PBT_CHECK_F(backNoPort.IsEqualNoPort(h), "host_round_trip", "%s", strNoPort.c_str());
			PBT_CHECK_F(backNoPort.GetPort() == 0, "host_round_trip", "%s", strNoPort.c_str());
			backNoPort.SetPort(m.myPort);
			PBT_CHECK_F(backNoPort == h, "host_round_trip", "%s", strNoPort.c_str());
		}
		for (uint64_t j = 0; j < n; ++j)
		{
			const HostModel& m2 = models[j];
			bool noPort = m.myFamily == m2.myFamily && memcmp(m.myIP, m2.myIP, 16) == 0;
			bool full = noPort && m.myPort == m2.myPort;
			PBT_CHECK_F((h == hosts[j]) == full && (h != hosts[j]) == !full, "host_equal", "%s and %s", str.c_str(), hosts[j].ToString().c_str());
			PBT_CHECK_F(h.IsEqualNoPort(hosts[j]) == noPort, "host_equal", "no port %s and %s", str.c_str(), hosts[j].ToString().c_str());
			if (i != j && full)
				Label("equal_pair");
		}
	}
	Host c = hosts[0];
	c.Clear();
	PBT_CHECK(!c.IsSet(), "host_clear");
	uint64_t v = g.Edge64();
	PBT_CHECK(mg::net::NtoHs((uint16_t)v) == ntohs((uint16_t)v) && mg::net::HtoNs((uint16_t)v) == htons((uint16_t)v), "host_order");
	PBT_CHECK(mg::net::NtoHl((uint32_t)v) == ntohl((uint32_t)v) && mg::net::HtoNl((uint32_t)v) == htonl((uint32_t)v), "host_order");
	NonTrivial();
}

//////////////////////////////////////////////////////////////////////////////////////////
// URLs.

PBT_TEST(url, MODE_INPROC, 2)
{
	uint64_t n = g.Range(1, 3);
	for (uint64_t i = 0; i < n; ++i)
	{
		std::string proto, host, target, portText;
		uint16_t port = 0;
		bool hasPort = g.Bool();
		bool isNumPort = true;
		static const char* protos[] = {"", "http", "https", "ws", "HTTP", "h2+c", "a", "x-y.z"};
		proto = protos[g.Below(sizeof(protos) / sizeof(*protos))];
		switch (g.Below(5))
		{
		case 0:
			host = "127.0.0.1";
			break;
		case 1:
		{
			static const char chars[] = "abcxyz0189-._";
			for (uint64_t k = 0, len = g.Range(1, 20); k < len; ++k)
				host += chars[g.Below(sizeof(chars) - 1)];
			break;
		}
		case 2:
		case 3:
		{
			uint8_t ip[16];
			GenIP(g, true, ip);
			host = "[" + IPToText(g, true, ip) + "]";
			break;
		}
		default:
			host = g.Bool() ? "www.google.com" : "";
			break;
		}
		if (hasPort)
		{
			port = g.Bool() ? (uint16_t)g.Below(65536) : g.Pick<uint16_t>({0, 1, 80, 443, 65535});
			portText = std::to_string(port);
			if (g.Chance(1, 8))
			{
				portText = g.Pick<const char*>({"", "65536", "abc", "80a", "-1", "99999999999999999999999"});
				port = 0;
				isNumPort = false;
			}
		}
		if (g.Bool())
		{
			target = "/";
			static const char* parts[] = {"/", "path", "?a=b", "&c=d", ":", "://", "http://x.y:1/z", "#f", "[::1]", "]", "[", "@", "%20", ":80", "//"};
			for (uint64_t k = 0, len = g.Below(6); k < len; ++k)
				target += parts[g.Below(sizeof(parts) / sizeof(*parts))];
		}
		std::string str = (proto.empty() ? "" : proto + "://") + host + (hasPort ? ":" : "") + portText + target;
		Describe("url '%s'\n", str.c_str());
		// ":" + "//..." is a different thing.
		if (proto.empty() && hasPort && portText.empty() && target.compare(0, 2, "//") == 0)
			continue;
		HeapStr hs(str);
		mg::net::URL url = g.Bool() ? mg::net::URLParse(hs.myData) : mg::net::URLParse(str);
		PBT_CHECK_F(url.myProtocol == proto, "url_protocol", "'%s': '%s' instead of '%s'", str.c_str(), url.myProtocol.c_str(), proto.c_str());
		PBT_CHECK_F(url.myTarget == target, "url_target", "'%s': '%s' instead of '%s'", str.c_str(), url.myTarget.c_str(), target.c_str());
		PBT_CHECK_F(url.myHost == host, "url_host", "'%s': '%s' instead of '%s'", str.c_str(), url.myHost.c_str(), host.c_str());
		PBT_CHECK_F(url.myPort == port, "url_port", "'%s': %u instead of %u", str.c_str(), url.myPort, port);
		HashMix(std::hash<std::string>()(str));
		if (!host.empty() && (!proto.empty() || hasPort || !target.empty()))
			NonTrivial();
		Label(host.empty() ? "no_host" : host[0] == '[' ? "ipv6" : "name");
		if (!isNumPort)
			Label("bad_port");
	}
	// A host printed is a valid endpoint.
	HostModel m;
	Host h = GenHost(g, m);
	if (h.IsSet())
	{
		std::string str = h.ToString();
		mg::net::URL url = mg::net::URLParse(str);
		Host back;
		PBT_CHECK_F(back.Set(url.myHost), "url_of_host", "'%s' gave '%s'", str.c_str(), url.myHost.c_str());
		PBT_CHECK_F(back.IsEqualNoPort(h) && url.myPort == m.myPort, "url_of_host", "'%s' gave '%s' and %u", str.c_str(), url.myHost.c_str(), url.myPort);
	}
	// Garbage is just not crashing anything and is not invented.
	std::string junk;
	static const char chars[] = "://[]a0:/";
	for (uint64_t k = 0, len = g.Below(14); k < len; ++k)
		junk += g.Chance(1, 12) ? (char)g.Range(1, 255) : chars[g.Below(sizeof(chars) - 1)];
	HeapStr hs(junk);
	mg::net::URL url = mg::net::URLParse(hs.myData);
	PBT_CHECK_F(url.myTarget.empty() || url.myTarget[0] == '/', "url_junk", "'%s'", Escape(junk).c_str());
	PBT_CHECK_F(junk.size() >= url.myTarget.size() && junk.compare(junk.size() - url.myTarget.size(), std::string::npos, url.myTarget) == 0, "url_junk", "'%s'", Escape(junk).c_str());
	PBT_CHECK_F(junk.find(url.myHost) != std::string::npos && url.myHost.find('/') == std::string::npos, "url_junk", "'%s'", Escape(junk).c_str());
	PBT_CHECK_F(junk.compare(0, url.myProtocol.size(), url.myProtocol) == 0, "url_junk", "'%s'", Escape(junk).c_str());
}

//////////////////////////////////////////////////////////////////////////////////////////
// Errors.

using mg::box::Error;
using mg::box::ErrorCode;
using mg::box::ErrorPtrRaised;

struct ErrnoDef
{
	int myErrno;
	ErrorCode myCode;
};

static const ErrnoDef theErrnoDefs[] = {
	{EACCES, mg::box::ERR_SYS_FORBIDDEN}, {EPERM, mg::box::ERR_SYS_FORBIDDEN},
	{EBADF, mg::box::ERR_SYS_BAD_DESCRIPTOR}, {EEXIST, mg::box::ERR_SYS_EXISTS},
	{EMFILE, mg::box::ERR_SYS_TOO_MANY_DESCRIPTORS}, {ENFILE, mg::box::ERR_SYS_TOO_MANY_DESCRIPTORS},
	{ENOENT, mg::box::ERR_SYS_NOT_FOUND}, {EWOULDBLOCK, mg::box::ERR_SYS_WOULDBLOCK},
	{EAGAIN, mg::box::ERR_SYS_WOULDBLOCK}, {EBUSY, mg::box::ERR_SYS_BUSY},
	{EISDIR, mg::box::ERR_SYS_IS_DIR}, {EINVAL, mg::box::ERR_SYS_BAD_ARG},
	{EIO, mg::box::ERR_SYS_IO}, {ENAMETOOLONG, mg::box::ERR_SYS_NAME_TOO_LONG},
	{ENOTDIR, mg::box::ERR_SYS_NOT_DIR}, {EROFS, mg::box::ERR_SYS_READ_ONLY_FS},
	{ENOSPC, mg::box::ERR_SYS_NO_SPACE}, {ENOMEM, mg::box::ERR_SYS_NO_SPACE},
	{EFAULT, mg::box::ERR_SYS_BAD_ADDR}, {EOPNOTSUPP, mg::box::ERR_SYS_NOT_SUPPORTED},
	{ENOTSUP, mg::box::ERR_SYS_NOT_SUPPORTED}, {EFBIG, mg::box::ERR_SYS_TOO_BIG},
	{EMLINK, mg::box::ERR_SYS_TOO_MANY_LINKS}, {ENOTEMPTY, mg::box::ERR_SYS_NOT_EMPTY},
	{EOVERFLOW, mg::box::ERR_SYS_OVERFLOW}, {ELOOP, mg::box::ERR_SYS_LOOP},
	{ECONNRESET, mg::box::ERR_NET_CLOSE_BY_PEER}, {EADDRINUSE, mg::box::ERR_NET_ADDR_IN_USE},
	{ECONNABORTED, mg::box::ERR_NET_ABORTED}, {EINTR, mg::box::ERR_SYS_INTERRUPTED},
	{ENETDOWN, mg::box::ERR_NET_DOWN}, {ENETUNREACH, mg::box::ERR_NET_DOWN},
	{EPROTO, mg::box::ERR_NET_PROTOCOL}, {ENOPROTOOPT, mg::box::ERR_NET_PROTOCOL},
	{EHOSTUNREACH, mg::box::ERR_NET_HOST_UNREACHABLE}, {ESTALE, mg::box::ERR_SYS_BAD_DESCRIPTOR},
	{EHOSTDOWN, mg::box::ERR_NET_ABORTED}, {ENONET, mg::box::ERR_NET_DOWN},
};

struct CodeDef
{
	ErrorCode myCode;
	const char* myType;
	const char* myTag;
	const char* myMsg;
};

static const CodeDef theCodeDefs[] = {
	{mg::box::ERR_BOX_NONE, "box", "box_none", "box none"},
	{mg::box::ERR_BOX_UNKNOWN, "box", "error_box_unknown", "box unknown error"},
	{mg::box::ERR_BOX_CANCEL, "box", "error_box_cancel", "box cancel"},
	{mg::box::ERR_BOX_TIMEOUT, "box", "error_box_timeout", "box timeout"},
	{mg::box::ERR_SYS, "sys", "error_sys", "sys error"},
	{mg::box::ERR_SYS_FORBIDDEN, "sys", "error_sys_forbidden", "sys forbidden"},
	{mg::box::ERR_SYS_BAD_DESCRIPTOR, "sys", "error_sys_bad_descriptor", "sys bad descriptor"},
	{mg::box::ERR_SYS_EXISTS, "sys", "error_sys_exists", "sys exists"},
	{mg::box::ERR_SYS_TOO_MANY_DESCRIPTORS, "sys", "error_sys_too_many_descriptors", "sys too many descriptors"},
	{mg::box::ERR_SYS_NOT_FOUND, "sys", "error_sys_not_found", "sys not found"},
	{mg::box::ERR_SYS_WOULDBLOCK, "sys", "error_sys_wouldblock", "sys wouldblock"},
	{mg::box::ERR_SYS_BUSY, "sys", "error_sys_busy", "sys busy"},
	{mg::box::ERR_SYS_IS_DIR, "sys", "error_sys_is_dir", "sys is dir"},
	{mg::box::ERR_SYS_BAD_ARG, "sys", "error_sys_bad_arg", "sys bad arg"},
	{mg::box::ERR_SYS_IO, "sys", "error_sys_io", "sys io"},
	{mg::box::ERR_SYS_NAME_TOO_LONG, "sys", "error_sys_name_too_long", "sys name too long"},
	{mg::box::ERR_SYS_NOT_DIR, "sys", "error_sys_not_dir", "sys not dir"},
	{mg::box::ERR_SYS_READ_ONLY_FS, "sys", "error_sys_ro_fs", "sys ro fs"},
	{mg::box::ERR_SYS_NO_SPACE, "sys", "error_sys_no_space", "sys no space"},
	{mg::box::ERR_SYS_BAD_ADDR, "sys", "error_sys_bad_addr", "sys bad addr"},
	{mg::box::ERR_SYS_NOT_SUPPORTED, "sys", "error_sys_not_supported", "sys not supported"},
	{mg::box::ERR_SYS_TOO_BIG, "sys", "error_sys_too_big", "sys too big"},
	{mg::box::ERR_SYS_TOO_MANY_LINKS, "sys", "error_sys_too_many_links", "sys too many links"},
	{mg::box::ERR_SYS_NOT_EMPTY, "sys", "error_sys_not_empty", "sys not empty"},
	{mg::box::ERR_SYS_OVERFLOW, "sys", "error_sys_overflow", "sys overflow"},
	{mg::box::ERR_SYS_LOOP, "sys", "error_sys_loop", "sys loop"},
	{mg::box::ERR_SYS_INTERRUPTED, "sys", "error_sys_int", "sys interrupted"},
	{mg::box::ERR_NET, "net", "error_net", "net error"},
	{mg::box::ERR_NET_CLOSE_BY_PEER, "net", "error_net_closed_by_peer", "net closed by peer"},
	{mg::box::ERR_NET_ADDR_IN_USE, "net", "error_net_addr_in_use", "net address in use"},
	{mg::box::ERR_NET_ABORTED, "net", "error_net_aborted", "net aborted"},
	{mg::box::ERR_NET_ADDR_NOT_AVAIL, "net", "error_net_addr_not_avail", "net address not available"},
	{mg::box::ERR_NET_DOWN, "net", "error_net_down", "net down"},
	{mg::box::ERR_NET_PROTOCOL, "net", "error_net_proto", "net protocol"},
	{mg::box::ERR_NET_HOST_UNREACHABLE, "net", "error_net_host_unreach", "net host unreachable"},
	{mg::box::ERR_SSL, "ssl", "error_ssl", "ssl error"},
};
static constexpr size_t theCodeCount = sizeof(theCodeDefs) / sizeof(*theCodeDefs);

static const CodeDef&
FindCode(
	ErrorCode code)
{
	for (const CodeDef& d : theCodeDefs)
	{
		if (d.myCode == code)
			return d;
	}
	Fail("error_code", "code %u is not known", (unsigned)code);
}

static ErrorCode
ModelErrno(
	uint32_t v)
{
	for (const ErrnoDef& d : theErrnoDefs)
	{
		if ((uint32_t)d.myErrno == v)
			return d.myCode;
	}
	return mg::box::ERR_SYS;
}

struct ErrModel
{
	ErrorCode myCode = mg::box::ERR_BOX_NONE;
	uint32_t myValue = 0;
	std::string myMessage;
	bool myIsSet = false;
	// Identity of the object.
	uint64_t myId = 0;
};

static std::string
ModelMessage(
	ErrorCode code,
	uint32_t value,
	const std::string& msg,
	const std::string* comment)
{
	std::string res = "{code=" + std::to_string((uint32_t)code) + ", type=\"" + FindCode(code).myType + "\"";
	if (value != 0)
		res += ", val=" + std::to_string((int32_t)value);
	res += ", msg=\"" + msg + "\"";
	if (comment != nullptr)
		res += ", comm=\"" + *comment + "\"";
	return res + "}";
}

static void
ErrCompare(
	const Error* e,
	const ErrModel& m,
	const char* what)
{
	PBT_CHECK_F((e != nullptr) == m.myIsSet, "error_presence", "%s", what);
	if (e == nullptr)
		return;
	PBT_CHECK_F(e->myCode == m.myCode, "error_code", "%s: %u instead of %u", what, (unsigned)e->myCode, (unsigned)m.myCode);
	PBT_CHECK_F(e->myValue == m.myValue, "error_value", "%s: %u instead of %u", what, e->myValue, m.myValue);
	PBT_CHECK_F(e->myMessage == m.myMessage, "error_message", "%s: '%s' instead of '%s'", what, Escape(e->myMessage).c_str(), Escape(m.myMessage).c_str());
}

// Keeps it in an own pointer.
static Error::Ptr
ToPtr(
	Gen& g,
	ErrorPtrRaised&& raised,
	const ErrModel& m)
{
	ErrCompare((Error*)raised, m, "raised");
	ErrCompare((const Error*)(const ErrorPtrRaised&)raised, m, "raised const");
	PBT_CHECK(raised->myCode == m.myCode, "error_code");
	if (g.Bool())
	{
		ErrorPtrRaised second(std::move(raised));
		PBT_CHECK((Error*)raised == nullptr, "error_move");
		return (Error::Ptr&&)second;
	}
	return (Error::Ptr&&)raised;
}

static Error::Ptr
GenError(
	Gen& g,
	ErrModel& m)
{
	m = ErrModel();
	m.myIsSet = true;
	std::string comment = g.Chance(1, 6) ? std::string(g.Range(200, 5000), 'c') : GenText(g, 100, false);
	if (g.Chance(1, 6))
		comment += "%s%d%%n";
	const CodeDef& def = theCodeDefs[g.Below(theCodeCount)];
	uint32_t value = g.Chance(1, 2) ? (uint32_t)g.Below(140) : (uint32_t)g.Edge64();
	int num = (int)g.Edge64();
	uint64_t kind = g.Below(15);
	Describe("raise kind %d code %u value %u comment '%s'\n", (int)kind, (unsigned)def.myCode, value, Escape(comment).c_str());
	HashMix(kind * 1000003 + def.myCode * 31 + value);
	HashMix(std::hash<std::string>()(comment));
	if (kind < 6)
	{
		if (g.Chance(1, 10))
			value = 0;
		m.myCode = ModelErrno(value);
		m.myValue = value;
		std::string sys = strerror((int)value);
		std::string formatted = comment + "/" + std::to_string(num);
		mg::box::ErrorGuard guard;
		errno = kind % 2 == 0 ? (int)value : EXDEV;
		ErrorCode current = mg::box::ErrorCodeErrno();
		PBT_CHECK(current == ModelErrno((uint32_t)errno), "error_code");
		switch (kind)
		{
		case 0:
			m.myMessage = ModelMessage(m.myCode, value, sys, nullptr);
			return ToPtr(g, mg::box::ErrorRaiseErrno(), m);
		case 1:
			m.myMessage = ModelMessage(m.myCode, value, sys, nullptr);
			return ToPtr(g, mg::box::ErrorRaiseErrno(value), m);
		case 2:
			m.myMessage = ModelMessage(m.myCode, value, sys, &comment);
			return ToPtr(g, mg::box::ErrorRaiseErrno(comment.c_str()), m);
		case 3:
			m.myMessage = ModelMessage(m.myCode, value, sys, &comment);
			return ToPtr(g, mg::box::ErrorRaiseErrno(value, comment.c_str()), m);
		case 4:
			m.myMessage = ModelMessage(m.myCode, value, sys, &formatted);
			return ToPtr(g, mg::box::ErrorRaiseFormatErrno("%s/%d", comment.c_str(), num), m);
		default:
			m.myMessage = ModelMessage(m.myCode, value, sys, &formatted);
			return ToPtr(g, mg::box::ErrorRaiseFormatErrno(value, "%s/%d", comment.c_str(), num), m);
		}
	}
	m.myCode = def.myCode;
	std::string formatted = comment + "/" + std::to_string(num);
	switch (kind)
	{
	case 6:
		m.myMessage = ModelMessage(m.myCode, 0, def.myMsg, nullptr);
		return ToPtr(g, mg::box::ErrorRaise(m.myCode), m);
	case 7:
		m.myValue = value;
		m.myMessage = ModelMessage(m.myCode, value, def.myMsg, nullptr);
		return ToPtr(g, mg::box::ErrorRaise(m.myCode, value), m);
	case 8:
		m.myMessage = ModelMessage(m.myCode, 0, def.myMsg, &comment);
		return ToPtr(g, mg::box::ErrorRaise(m.myCode, comment.c_str()), m);
	case 9:
		m.myMessage = ModelMessage(m.myCode, 0, def.myMsg, &formatted);
		return ToPtr(g, mg::box::ErrorRaiseFormat(m.myCode, "%s/%d", comment.c_str(), num), m);
	case 10:
		m.myValue = value;
		m.myMessage = ModelMessage(m.myCode, value, def.myMsg, &comment);
		return ToPtr(g, mg::box::ErrorRaise(m.myCode, value, comment.c_str()), m);
	case 11:
		m.myValue = value;
		m.myMessage = ModelMessage(m.myCode, value, def.myMsg, &formatted);
		return ToPtr(g, mg::box::ErrorRaiseFormat(m.myCode, value, "%s/%d", comment.c_str(), num), m);
	case 12:
	{
		std::string msg = GenText(g, 60, false);
		bool hasComment = g.Bool();
		m.myValue = value;
		m.myMessage = ModelMessage(m.myCode, value, msg, hasComment ? &comment : nullptr);
		return ToPtr(g, mg::box::ErrorRaise(m.myCode, value, msg.c_str(), hasComment ? comment.c_str() : nullptr), m);
	}
	default:
	{
		// TLS failures.
		m.myCode = mg::box::ERR_SSL;
		std::string text;
		uint64_t sslKind = g.Below(4);
		if (sslKind == 0)
		{
			static const char* names[] = {"none", "ssl", "want_read", "want_write", "want_x509_lookup", "syscall", "zero_return", "want_connect", "want_accept", "want_async", "want_async_job", "want_client_hello_cb"};
			int i = (int)g.Below(12);
			value = mg::net::OpenSSLPackError(i);
			text = std::string("ssl_error_") + names[i];
			// None of the library.
			if (i == 0)
			{
				i = 1;
				value = mg::net::OpenSSLPackError(i);
				text = "ssl_error_ssl";
			}
		}
		else
		{
			if (sslKind == 1)
				value = (uint32_t)ERR_PACK(ERR_LIB_SSL, 0, g.Range(100, 420));
			else if (sslKind == 2)
				value = (uint32_t)ERR_PACK(g.Range(1, 60), 0, g.Range(1, 200));
			const char* reason = ERR_reason_error_string(value);
			if (reason != nullptr)
				text = reason;
		}
		ErrorPtrRaised raised = kind == 13 ? mg::net::ErrorRaiseSSL(value, comment.c_str()) : g.Bool() ? mg::net::ErrorRaiseFormatSSL(value, "%s", comment.c_str()) : mg::net::ErrorRaiseSSL(value);
		PBT_CHECK_F(raised->myCode == mg::box::ERR_SSL && raised->myValue == value, "error_ssl", "value %u: got %u", value, raised->myValue);
		PBT_CHECK_F(text.empty() || raised->myMessage.find("msg=\"" + text + "\"") != std::string::npos, "error_ssl", "value %u is %s: %s", value, text.c_str(), Escape(raised->myMessage).c_str());
		PBT_CHECK_F(kind != 13 || raised->myMessage.find("comm=\"" + comment + "\"") != std::string::npos, "error_ssl", "value %u: %s", value, Escape(raised->myMessage).c_str());
		m.myValue = value;
		m.myMessage = raised->myMessage;
		Label(text.empty() ? "ssl_unknown" : "ssl");
		return ToPtr(g, std::move(raised), m);
	}
	}
}

PBT_TEST(error, MODE_INPROC, 1)
{
	static const int SLOTS = 4;
	Error::Ptr ptrs[SLOTS];
	ErrModel models[SLOTS];
	uint64_t opCount = g.Range(1, 14);
	uint64_t nextId = 1;
	int kinds = 0;
	for (uint64_t i = 0; i < opCount; ++i)
	{
		size_t a = g.Below(SLOTS), b = g.Below(SLOTS);
		uint64_t op = g.Weighted({4, 2, 2, 1, 3, 1, 1});
		kinds |= 1 << op;
		switch (op)
		{
		case 0:
		{
			ErrModel m;
			Error::Ptr p = GenError(g, m);
			m.myId = nextId++;
			models[a] = m;
			ptrs[a] = std::move(p);
			break;
		}
		case 1:
			Describe("%d = copy %d\n", (int)a, (int)b);
			ptrs[a] = ptrs[b];
			models[a] = models[b];
			break;
		case 2:
			if (a == b)
				break;
			Describe("%d = move %d\n", (int)a, (int)b);
			ptrs[a] = std::move(ptrs[b]);
			models[a] = models[b];
			models[b] = ErrModel();
			break;
		case 3:
			Describe("clear %d\n", (int)a);
			ptrs[a].Clear();
			models[a] = ErrModel();
			break;
		case 4:
		{
			if (!models[b].myIsSet)
				break;
			std::string comment = g.Chance(1, 8) ? std::string(g.Range(200, 3000), 'w') : GenText(g, 40, false);
			Describe("%d = wrap %d with '%s'\n", (int)a, (int)b, Escape(comment).c_str());
			ErrModel m = models[b];
			m.myMessage = "{comm=\"" + comment + "\", cause=" + m.myMessage + "}";
			m.myId = nextId++;
			Error::Ptr p = ToPtr(g, g.Bool() ? mg::box::ErrorRaise(ptrs[b], comment.c_str()) : mg::box::ErrorRaise((const Error*)ptrs[b].GetPointer(), comment.c_str()), m);
			// A direct assignment is allowed too.
			ptrs[a] = std::move(p);
			models[a] = m;
			break;
		}
		case 5:
		{
			uint32_t v = g.Chance(1, 2) ? (uint32_t)g.Below(140) : (uint32_t)g.Edge64();
			PBT_CHECK_F(mg::box::ErrorCodeFromErrno(v) == ModelErrno(v), "error_errno", "%u is %u", v, (unsigned)mg::box::ErrorCodeFromErrno(v));
			std::string sys = strerror((int)v);
			std::string expected = "(" + std::to_string((int)v) + ") " + sys;
			PBT_CHECK_F(mg::box::ErrorErrnoToString((int)v) == expected, "error_errno_text", "%u is '%s'", v, mg::box::ErrorErrnoToString((int)v).c_str());
			HashMix(v);
			break;
		}
		default:
		{
			const CodeDef& def = theCodeDefs[g.Below(theCodeCount)];
			PBT_CHECK_F(strcmp(mg::box::ErrorCodeTag(def.myCode), def.myTag) == 0, "error_tag", "%u is '%s'", (unsigned)def.myCode, mg::box::ErrorCodeTag(def.myCode));
			PBT_CHECK_F(strcmp(mg::box::ErrorCodeMessage(def.myCode), def.myMsg) == 0, "error_text", "%u is '%s'", (unsigned)def.myCode, mg::box::ErrorCodeMessage(def.myCode));
			PBT_CHECK_F(strcmp(mg::box::ErrorCodeType(def.myCode), def.myType) == 0, "error_type", "%u is '%s'", (unsigned)def.myCode, mg::box::ErrorCodeType(def.myCode));
			int before = (int)g.Below(200);
			errno = before;
			{
				mg::box::ErrorGuard guard;
				errno = (int)g.Below(200);
				if (g.Bool())
				{
					mg::box::ErrorGuard guard2;
					errno = 7;
				}
			}
			PBT_CHECK_F(errno == before, "error_guard", "%d instead of %d", errno, before);
			HashMix(def.myCode);
			break;
		}
		}
		for (int k = 0; k < SLOTS; ++k)
		{
			ErrCompare(ptrs[k].GetPointer(), models[k], "slot");
			for (int j = 0; j < SLOTS; ++j)
			{
				PBT_CHECK((models[k].myIsSet && models[k].myId == models[j].myId) == (ptrs[k].IsSet() && ptrs[k].GetPointer() == ptrs[j].GetPointer()), "error_identity");
			}
		}
	}
	HashMix(opCount * 64 + kinds);
	if (__builtin_popcount(kinds) >= 2)
		NonTrivial();
}

//////////////////////////////////////////////////////////////////////////////////////////
// Time.

using mg::box::TimeDuration;
using mg::box::TimeLimit;
using mg::box::TimePoint;

static_assert(TimeDuration(-1).myValue == 0);
static_assert(TimeDuration((int64_t)-1).myValue == 0);
static_assert(TimeDuration((uint32_t)-1).myValue == UINT32_MAX);
static_assert(TimeDuration((uint64_t)-1).myValue == UINT64_MAX);

static uint64_t
GenMs(
	Gen& g,
	uint64_t now)
{
	switch (g.Below(4))
	{
	case 0:
		return g.Edge64();
	case 1:
		// Around the biggest representable.
		return UINT64_MAX - now + g.Range(0, 4) - 2;
	case 2:
		// Around now.
		return now + g.Range(0, 6) - 3;
	default:
		return g.Pick<uint64_t>({0, 1, 2, 1000, UINT64_MAX, UINT64_MAX - 1, (uint64_t)INT64_MAX, (uint64_t)INT64_MAX + 1, UINT32_MAX, (uint64_t)UINT32_MAX + 1});
	}
}

PBT_TEST(time_value, MODE_INPROC, 1)
{
	// Seconds are such that nanoseconds fit 64 bits.
	time_t sec = (time_t)(g.Chance(1, 4) ? g.Below(3) : g.Chance(1, 2) ? g.Below(100000000) : g.Pick<uint64_t>({1, 4294966, 4294967, 4294968, 2147483647, 2147483648ULL, 4294967295ULL, 4294967296ULL, 9000000000ULL}));
	long nsec = (long)(g.Bool() ? g.Below(1000000000) : g.Pick<uint64_t>({0, 1, 999, 999999, 1000000, 1000001, 999999999, 999000000, 998999999, 500000000}));
	uint64_t now = (uint64_t)sec * 1000 + (uint64_t)(nsec / 1000000);
	uint64_t n = g.Range(1, 4);
	for (uint64_t i = 0; i < n; ++i)
	{
		uint64_t v = GenMs(g, now);
		Describe("now %llu ms (%lld.%09ld), value %llu\n", (unsigned long long)now, (long long)sec, nsec, (unsigned long long)v);
		unsigned __int128 sum = (unsigned __int128)now + v;
		uint64_t expectedPoint = sum >= UINT64_MAX ? UINT64_MAX : (uint64_t)sum;
		uint64_t expectedDuration = v == UINT64_MAX ? UINT64_MAX : v > now ? v - now : 0;
		uint64_t ms, ns, p1, p2, p3, d1, d2;
		double precise;
		int id;
		{
			theClock = {sec, nsec};
			ClockGuard guard;
			ms = mg::box::GetMilliseconds();
			id = theClockID;
			ns = mg::box::GetNanoseconds();
			precise = mg::box::GetMillisecondsPrecise();
			p1 = TimeDuration(v).ToPointFromNow().myValue;
			p2 = TimeLimit(TimeDuration(v)).ToPointFromNow().myValue;
			p3 = TimeLimit(TimePoint(v)).ToPointFromNow().myValue;
			d1 = TimeLimit(TimePoint(v)).ToDurationFromNow().myValue;
			d2 = TimeLimit(TimeDuration(v)).ToDurationFromNow().myValue;
		}
		PBT_CHECK_F(id == CLOCK_BOOTTIME || id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_MONOTONIC_COARSE, "clock_id", "%d", id);
		PBT_CHECK_F(ms == now, "clock_ms", "%llu instead of %llu", (unsigned long long)ms, (unsigned long long)now);
		uint64_t expectedNs = (uint64_t)sec * 1000000000 + (uint64_t)nsec;
		PBT_CHECK_F(ns == expectedNs, "clock_ns", "%llu instead of %llu", (unsigned long long)ns, (unsigned long long)expectedNs);
		double expectedPrecise = (double)((long double)expectedNs / 1000000.0L);
		double diff = precise - expectedPrecise;
		PBT_CHECK_F(diff < 0.01 && diff > -0.01, "clock_precise", "%f instead of %f", precise, expectedPrecise);
		PBT_CHECK_F(p1 == expectedPoint, "duration_to_point", "%llu instead of %llu", (unsigned long long)p1, (unsigned long long)expectedPoint);
		PBT_CHECK_F(p2 == expectedPoint, "limit_to_point", "%llu instead of %llu", (unsigned long long)p2, (unsigned long long)expectedPoint);
		PBT_CHECK_F(p3 == v, "limit_to_point", "%llu instead of %llu", (unsigned long long)p3, (unsigned long long)v);
		PBT_CHECK_F(d1 == expectedDuration, "limit_to_duration", "%llu instead of %llu", (unsigned long long)d1, (unsigned long long)expectedDuration);
		PBT_CHECK_F(d2 == v, "limit_to_duration", "%llu instead of %llu", (unsigned long long)d2, (unsigned long long)v);
		// Constructors.
		PBT_CHECK(TimeDuration((int32_t)v).myValue == ((int32_t)v > 0 ? (uint64_t)(int32_t)v : 0), "duration_value");
		PBT_CHECK(TimeDuration((uint32_t)v).myValue == (uint32_t)v, "duration_value");
		PBT_CHECK(TimeDuration((int64_t)v).myValue == ((int64_t)v > 0 ? v : 0), "duration_value");
		PBT_CHECK(TimeDuration(v).myValue == v && TimePoint(v).myValue == v, "duration_value");
		uint64_t w = g.Bool() ? GenMs(g, now) : v;
		PBT_CHECK((TimePoint(v) <= TimePoint(w)) == (v <= w), "point_compare");
		TimeLimit none;
		PBT_CHECK(none.myType == mg::box::TIME_LIMIT_NONE, "limit_type");
		TimeLimit lp{TimePoint(v)};
		TimeLimit ld{TimeDuration(v)};
		PBT_CHECK(lp.myType == mg::box::TIME_LIMIT_POINT && lp.myPoint.myValue == v, "limit_type");
		PBT_CHECK(ld.myType == mg::box::TIME_LIMIT_DURATION && ld.myDuration.myValue == v, "limit_type");
		TimeLimit copy = lp;
		lp.Reset();
		PBT_CHECK(lp.myType == mg::box::TIME_LIMIT_NONE, "limit_type");
		PBT_CHECK(copy.myType == mg::box::TIME_LIMIT_POINT && copy.myPoint.myValue == v, "limit_type");
		lp = ld;
		PBT_CHECK(lp.myType == mg::box::TIME_LIMIT_DURATION && lp.myDuration.myValue == v, "limit_type");
		HashMix(v);
		Label(expectedPoint == UINT64_MAX ? "infinite_point" : "finite_point");
		if (v > 1)
			NonTrivial();
	}
	HashMix(now);
	HashMix((uint64_t)nsec);
	PBT_CHECK(TimeLimit(mg::box::theTimePointInf).ToDurationFromNow().myValue == mg::box::theTimeDurationInf.myValue, "infinity");
	PBT_CHECK(TimeLimit(mg::box::theTimeDurationInf).ToPointFromNow().myValue == mg::box::theTimePointInf.myValue, "infinity");
	// The real clock.
	uint64_t n1 = mg::box::GetNanoseconds();
	uint64_t m1 = mg::box::GetMilliseconds();
	double pr = mg::box::GetMillisecondsPrecise();
	uint64_t m2 = mg::box::GetMilliseconds();
	uint64_t n2 = mg::box::GetNanoseconds();
	PBT_CHECK_F(n1 <= n2 && m1 <= m2, "clock_order", "%llu %llu", (unsigned long long)n1, (unsigned long long)n2);
	PBT_CHECK_F(m1 >= n1 / 1000000 && m2 <= n2 / 1000000, "clock_units", "%llu %llu", (unsigned long long)n1, (unsigned long long)m1);
	PBT_CHECK_F(pr >= n1 / 1000000.0 - 0.01 && pr <= n2 / 1000000.0 + 0.01, "clock_units", "%f", pr);
}

}
