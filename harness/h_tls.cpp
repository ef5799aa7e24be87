// TLS streams connected via a memory wire under control of the test.
#include "pbt.h"

#include "certs.h"

#include "mg/net/Buffer.h"
#include "mg/net/SSL.h"
#include "mg/net/SSLContext.h"
#include "mg/net/SSLOpenSSL.h"
#include "mg/net/SSLStream.h"

#include <algorithm>
#include <atomic>
#include <cstring>
#include <fcntl.h>
#include <memory>
#include <new>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rand.h>
#include <openssl/rsa.h>
#include <openssl/x509.h>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>

using namespace pbt;
using namespace mg::net;

//////////////////////////////////////////////////////////////////////////////////////////
// Count of the allocated blocks. OpenSSL is told to use the same by the library.

static std::atomic<int64_t> theLiveBlocks{0};

static void*
CountedNew(
	size_t size)
{
	void* p = malloc(size != 0 ? size : 1);
	if (p == nullptr)
		throw std::bad_alloc();
	theLiveBlocks.fetch_add(1, std::memory_order_relaxed);
	return p;
}

static void
CountedDelete(
	void* p)
{
	if (p == nullptr)
		return;
	theLiveBlocks.fetch_sub(1, std::memory_order_relaxed);
	free(p);
}

void* operator new(size_t size) { return CountedNew(size); }
void* operator new[](size_t size) { return CountedNew(size); }
void operator delete(void* p) noexcept { CountedDelete(p); }
void operator delete[](void* p) noexcept { CountedDelete(p); }
void operator delete(void* p, size_t) noexcept { CountedDelete(p); }
void operator delete[](void* p, size_t) noexcept { CountedDelete(p); }

namespace {

struct LibInit
{
	// Before any usage of OpenSSL.
	LibInit() { OpenSSLInit(); }
};
static LibInit theLibInit;

//////////////////////////////////////////////////////////////////////////////////////////
// Deterministic randomness of OpenSSL.

static uint64_t theRandState = 1;

static int
RandBytes(
	unsigned char* out,
	int size)
{
	for (int i = 0; i < size; ++i)
	{
		theRandState = theRandState * 6364136223846793005ULL + 1442695040888963407ULL;
		out[i] = (unsigned char)(theRandState >> 33);
	}
	return 1;
}

static int
RandStatus()
{
	return 1;
}

static void
RandInit()
{
	static RAND_METHOD method;
	static bool isInit = false;
	theRandState = 1;
	if (isInit)
		return;
	isInit = true;
	memset(&method, 0, sizeof(method));
	method.bytes = &RandBytes;
	method.pseudorand = &RandBytes;
	method.status = &RandStatus;
	RAND_set_rand_method(&method);
}

//////////////////////////////////////////////////////////////////////////////////////////

enum CertKind
{
	CERT_NONE,
	CERT_SELF1,
	CERT_SELF2,
	CERT_CA_SIGNED1,
	CERT_CA_SIGNED2,
	CERT_CA_EXPIRED,
};

struct Config
{
	bool myIsServer = false;
	// 0..3 for TLSv1..TLSv1.3.
	int myMin = 2;
	int myMax = 3;
	bool mySetMin = false;
	bool mySetMax = false;
	bool myMaxFirst = false;
	std::vector<SSLCipher> myCiphers;
	SSLTrust myTrust = SSL_TRUST_BYPASS_VERIFICATION;
	bool myIsTrustDefault = false;
	CertKind myCert = CERT_NONE;
	// Bits: self1, self2, CA.
	int myRemote = 0;
	bool myIsPem = false;

	SSLContext::Ptr Make() const
	{
		SSLContext::Ptr ctx = SSLContext::NewShared(myIsServer);
		if (!myIsTrustDefault)
			PBT_CHECK(ctx->SetTrust(myTrust), "tls_config");
		const uint8_t* cert = nullptr;
		const uint8_t* key = nullptr;
		uint32_t certSize = 0, keySize = 0;
		switch (myCert)
		{
		case CERT_SELF1:
			cert = certs::theCert1;
			certSize = sizeof(certs::theCert1);
			key = certs::theKey1;
			keySize = sizeof(certs::theKey1);
			break;
		case CERT_SELF2:
			cert = certs::theCert2;
			certSize = sizeof(certs::theCert2);
			key = certs::theKey2;
			keySize = sizeof(certs::theKey2);
			break;
		case CERT_CA_SIGNED1:
			cert = certs::theCert31;
			certSize = sizeof(certs::theCert31);
			break;
		case CERT_CA_SIGNED2:
			cert = certs::theCert32;
			certSize = sizeof(certs::theCert32);
			break;
		case CERT_CA_EXPIRED:
			cert = certs::theCert33Expired;
			certSize = sizeof(certs::theCert33Expired);
			break;
		default:
			break;
		}
		if (cert != nullptr)
		{
			if (key == nullptr)
			{
				key = certs::theKey3;
				keySize = sizeof(certs::theKey3);
			}
			PBT_CHECK(ctx->AddLocalCert(cert, certSize, key, keySize), "tls_config");
		}
		if ((myRemote & 1) != 0)
			PBT_CHECK(ctx->AddRemoteCert(certs::theCert1, sizeof(certs::theCert1)), "tls_config");
		if ((myRemote & 2) != 0)
			PBT_CHECK(ctx->AddRemoteCert(certs::theCert2, sizeof(certs::theCert2)), "tls_config");
		if ((myRemote & 4) != 0)
		{
			bool ok = myIsPem ? ctx->AddRemoteCert(certs::theCACert3Pem, sizeof(certs::theCACert3Pem)) : ctx->AddRemoteCert(certs::theCACert3, sizeof(certs::theCACert3));
			PBT_CHECK(ok, "tls_config");
		}
		if (mySetMax && myMaxFirst)
			PBT_CHECK(ctx->SetMaxVersion((SSLVersion)(SSL_VERSION_TLSv1 + myMax)), "tls_config");
		if (mySetMin)
			PBT_CHECK(ctx->SetMinVersion((SSLVersion)(SSL_VERSION_TLSv1 + myMin)), "tls_config");
		if (mySetMax && !myMaxFirst)
			PBT_CHECK(ctx->SetMaxVersion((SSLVersion)(SSL_VERSION_TLSv1 + myMax)), "tls_config");
		for (SSLCipher c : myCiphers)
			PBT_CHECK(ctx->AddCipher(c), "tls_config");
		return ctx;
	}

	bool HasCipher(
		SSLCipher c) const
	{
		bool is13 = c >= SSL_CIPHER_TLS_AES_128_GCM_SHA256;
		bool hasAny = false;
		for (SSLCipher x : myCiphers)
		{
			if (x == c)
				return true;
			if ((x >= SSL_CIPHER_TLS_AES_128_GCM_SHA256) == is13)
				hasAny = true;
		}
		// All are allowed unless set explicitly.
		return !hasAny;
	}

	bool HasOwn12Ciphers() const
	{
		for (SSLCipher x : myCiphers)
		{
			if (x < SSL_CIPHER_TLS_AES_128_GCM_SHA256)
				return true;
		}
		return false;
	}

	void Print() const
	{
		Describe("  %s: versions %s%d..%s%d trust %d%s cert %d remote %d ciphers", myIsServer ? "server" : "client", mySetMin ? "" : "default ", myMin, mySetMax ? "" : "default ", myMax, (int)myTrust, myIsTrustDefault ? " (default)" : "", (int)myCert, myRemote);
		for (SSLCipher c : myCiphers)
			Describe(" %d", (int)c);
		Describe("\n");
	}
};

static void
GenConfig(
	Gen& g,
	Config& c,
	bool isWild)
{
	c = Config();
	if (g.Bool())
	{
		c.mySetMin = true;
		c.myMin = 2 + (int)g.Below(2);
	}
	if (g.Bool())
	{
		c.mySetMax = true;
		c.myMax = 3 - (int)g.Below(2);
	}
	if (isWild && g.Chance(1, 3))
	{
		if (c.mySetMin)
			c.myMin = (int)g.Below(4);
		if (c.mySetMax)
			c.myMax = (int)g.Below(4);
	}
	c.myMaxFirst = g.Bool();
	if (c.myMin > c.myMax)
	{
		// The last set one wins.
		if (!c.mySetMin)
			c.myMin = 0;
		else if (!c.mySetMax)
			c.myMax = c.myMin;
		else if (c.myMaxFirst)
			c.myMax = c.myMin;
		else
			c.myMin = c.myMax;
	}
	if (g.Chance(1, 3))
	{
		static const SSLCipher all[] = {SSL_CIPHER_ECDHE_ECDSA_AES128_GCM_SHA256, SSL_CIPHER_ECDHE_ECDSA_AES256_GCM_SHA384, SSL_CIPHER_TLS_AES_128_GCM_SHA256, SSL_CIPHER_TLS_AES_256_GCM_SHA384, SSL_CIPHER_TLS_CHACHA20_POLY1305_SHA256};
		uint64_t n = g.Range(1, 4);
		for (uint64_t i = 0; i < n; ++i)
		{
			SSLCipher x = all[g.Below(5)];
			// Repeated addition is harmless.
			c.myCiphers.push_back(x);
		}
	}
}

// Does this side accept the certificate. 1 - yes, 0 - no, -1 - either.
static int
ModelTrust(
	const Config& c,
	const Config& peer)
{
	CertKind cert = peer.myCert;
	if (c.myTrust == SSL_TRUST_BYPASS_VERIFICATION)
		return 1;
	if (cert == CERT_NONE)
		return 0;
	if (cert == CERT_CA_EXPIRED)
		return 0;
	bool isTrusted;
	if (cert == CERT_SELF1)
		isTrusted = (c.myRemote & 1) != 0;
	else if (cert == CERT_SELF2)
		isTrusted = (c.myRemote & 2) != 0;
	else
		isTrusted = (c.myRemote & 4) != 0;
	if (isTrusted)
		return 1;
	if (c.myTrust == SSL_TRUST_STRICT)
		return 0;
	if (c.myTrust == SSL_TRUST_RELAXED)
	{
		// The peer sends its CA certificate in the chain if knows it. Then there is a
		// self-signed certificate in the chain.
		return cert == CERT_SELF1 || cert == CERT_SELF2 || (peer.myRemote & 4) != 0 ? -1 : 0;
	}
	return -1;
}

struct Agreement
{
	// 1 - must work, 0 - must fail, -1 - either.
	int myIsOk = 1;
	int myVersion = 0;
};

static Agreement
ModelAgreement(
	const Config& a,
	const Config& b)
{
	Agreement res;
	int lo = std::max(a.myMin, b.myMin);
	int hi = std::min(a.myMax, b.myMax);
	// The default minimal version isn't documented.
	int sureLo = std::max(a.mySetMin ? a.myMin : 0, b.mySetMin ? b.myMin : 0);
	res.myVersion = hi;
	if (sureLo > hi)
	{
		res.myIsOk = 0;
		return res;
	}
	if (hi < 2)
	{
		// The old ones might be disabled in the system. They also have no ciphers among
		// the custom ones.
		res.myIsOk = a.HasOwn12Ciphers() || b.HasOwn12Ciphers() ? 0 : 1;
	}
	else
	{
		bool hasCommon = false;
		int from = hi == 3 ? SSL_CIPHER_TLS_AES_128_GCM_SHA256 : SSL_CIPHER_ECDHE_ECDSA_AES128_GCM_SHA256;
		int to = hi == 3 ? SSL_CIPHER_TLS_CHACHA20_POLY1305_SHA256 : SSL_CIPHER_ECDHE_ECDSA_AES256_GCM_SHA384;
		for (int i = from; i <= to; ++i)
			hasCommon = hasCommon || (a.HasCipher((SSLCipher)i) && b.HasCipher((SSLCipher)i));
		if (!hasCommon)
			res.myIsOk = 0;
	}
	if (lo > hi && res.myIsOk != 0)
		res.myIsOk = -1;
	const Config& server = a.myIsServer ? a : b;
	const Config& client = a.myIsServer ? b : a;
	int t1 = ModelTrust(client, server);
	int t2 = ModelTrust(server, client);
	if (server.myCert == CERT_NONE || t1 == 0 || t2 == 0)
		res.myIsOk = 0;
	if (res.myIsOk != 0 && (t1 < 0 || t2 < 0))
		res.myIsOk = -1;
	return res;
}

//////////////////////////////////////////////////////////////////////////////////////////

struct Side
{
	std::unique_ptr<SSLStream> myStream;
	Config myConfig;
	// Encrypted data produced by this side, not delivered yet is after the position.
	std::string myWire;
	size_t myWirePos = 0;
	// Records of the wire: where the last incomplete record begins.
	size_t myRecord = 0;
	std::string mySent;
	// How much of the peer's data is received.
	std::string myRecv;
	bool myIsConnectCalled = false;
	bool myIsShutdown = false;
	bool myIsShutdownConnected = false;
	bool myWasConnected = false;
	// The input given to this side was altered.
	bool myIsTampered = false;
	bool myMustFail = false;
	uint64_t myTamperedSentMax = 0;
	uint64_t mySentBeforeShutdown = 0;
};

struct Pair
{
	Side mySides[2];
	Agreement myAgreement;
	bool myIsTampered = false;
	bool myHasShutdown = false;
	uint64_t myNextByte = 0;
	std::string myHostName;
};

static void
CheckRecv(
	Pair& p,
	int i)
{
	Side& s = p.mySides[i];
	Side& peer = p.mySides[1 - i];
	PBT_CHECK_F(s.myRecv.size() <= peer.mySent.size() && memcmp(s.myRecv.data(), peer.mySent.data(), s.myRecv.size()) == 0, "tls_data", "side %d received %zu bytes while sent are %zu", i, s.myRecv.size(), peer.mySent.size());
}

static void
CheckState(
	Pair& p,
	int i)
{
	Side& s = p.mySides[i];
	Side& peer = p.mySides[1 - i];
	SSLStream& stream = *s.myStream;
	PBT_CHECK_F((stream.GetError() != 0) == stream.HasError(), "tls_error_state", "side %d", i);
	PBT_CHECK_F(stream.IsEncrypted() == (s.myIsConnectCalled || stream.IsClosingOrClosed()), "tls_state", "side %d", i);
	if (stream.IsConnected())
	{
		s.myWasConnected = true;
		PBT_CHECK_F(!stream.HasError() && !stream.IsClosed() && !stream.IsClosingOrClosed(), "tls_state", "side %d", i);
		PBT_CHECK_F(p.myAgreement.myIsOk != 0 || ModelTrust(s.myConfig, peer.myConfig) != 0, "tls_untrusted_connect", "side %d", i);
		PBT_CHECK_F(stream.GetVersion() == (SSLVersion)(SSL_VERSION_TLSv1 + p.myAgreement.myVersion), "tls_version", "side %d: %d instead of %d", i, (int)stream.GetVersion(), p.myAgreement.myVersion);
		SSLCipher c = stream.GetCipher();
		if (p.myAgreement.myVersion == 3)
			PBT_CHECK_F(c >= SSL_CIPHER_TLS_AES_128_GCM_SHA256 && c <= SSL_CIPHER_TLS_CHACHA20_POLY1305_SHA256, "tls_cipher", "side %d: %d", i, (int)c);
		if (c != SSL_CIPHER_NONE)
		{
			PBT_CHECK_F(s.myConfig.HasCipher(c) && peer.myConfig.HasCipher(c), "tls_cipher", "side %d: %d", i, (int)c);
		}
		else
		{
			PBT_CHECK_F(!s.myConfig.HasOwn12Ciphers() && !peer.myConfig.HasOwn12Ciphers(), "tls_cipher", "side %d", i);
		}
	}
	if (stream.IsClosed())
		PBT_CHECK_F(stream.IsClosingOrClosed(), "tls_state", "side %d", i);
	if (!p.myIsTampered && p.myAgreement.myIsOk == 1)
	{
		// A legal session never has errors, except that a message could arrive after an
		// own close.
		if (stream.HasError())
			PBT_CHECK_F((s.myIsShutdown && (!s.myIsShutdownConnected || s.myRecv.size() < peer.mySent.size())) || (peer.myIsShutdown && !peer.myIsShutdownConnected), "tls_wrong_error", "side %d: %u %s", i, stream.GetError(), SSLErrorToString(stream.GetError()));
		if (stream.IsClosingOrClosed() && !s.myIsShutdown)
		{
			PBT_CHECK_F(peer.myIsShutdown, "tls_wrong_close", "side %d", i);
			if (peer.myIsShutdownConnected)
				PBT_CHECK_F(s.myRecv.size() == peer.mySentBeforeShutdown, "tls_early_close", "side %d: received %zu of %llu", i, s.myRecv.size(), (unsigned long long)peer.mySentBeforeShutdown);
		}
	}
}

static uint64_t
PopNet(
	Pair& p,
	int i)
{
	Side& s = p.mySides[i];
	Buffer::Ptr head;
	uint64_t size = s.myStream->PopNetOutput(head);
	uint64_t real = 0;
	for (Buffer* b = head.GetPointer(); b != nullptr; b = b->myNext.GetPointer())
	{
		s.myWire.append((const char*)b->myRData, b->myPos);
		real += b->myPos;
	}
	PBT_CHECK_F(real == size, "tls_net_size", "side %d: %llu reported, %llu real", i, (unsigned long long)size, (unsigned long long)real);
	return size;
}

static uint64_t
PopApp(
	Pair& p,
	int i)
{
	Side& s = p.mySides[i];
	Buffer::Ptr head;
	uint64_t size = s.myStream->PopAppOutput(head);
	uint64_t real = 0;
	if (size == 0)
		PBT_CHECK_F(!head.IsSet() || head->myPos == 0, "tls_app_size", "side %d", i);
	for (Buffer* b = head.GetPointer(); b != nullptr; b = b->myNext.GetPointer())
	{
		PBT_CHECK_F(b->myPos <= b->myCapacity, "tls_app_size", "side %d", i);
		s.myRecv.append((const char*)b->myRData, b->myPos);
		real += b->myPos;
	}
	PBT_CHECK_F(real == size, "tls_app_size", "side %d: %llu reported, %llu real", i, (unsigned long long)size, (unsigned long long)real);
	CheckRecv(p, i);
	return size;
}

static Buffer::Ptr
MakeChain(
	Gen* g,
	const char* data,
	uint64_t size)
{
	Buffer::Ptr head;
	Buffer* tail = nullptr;
	while (size > 0)
	{
		uint64_t part = g == nullptr ? size : g->Range(1, size);
		Buffer::Ptr b;
		if (g != nullptr && g->Bool())
		{
			b = BuffersCopy(data, part);
		}
		else
		{
			b = BufferCopy::NewShared();
			part = std::min<uint64_t>(part, b->myCapacity);
			memcpy(b->myWData, data, part);
			b->myPos = (uint32_t)part;
		}
		data += part;
		size -= part;
		Buffer* last = b.GetPointer();
		while (last->myNext.IsSet())
			last = last->myNext.GetPointer();
		if (tail == nullptr)
			head = std::move(b);
		else
			tail->myNext = std::move(b);
		tail = last;
	}
	return head;
}

// From the side to its peer.
static uint64_t
Deliver(
	Pair& p,
	int i,
	uint64_t size,
	Gen* g)
{
	Side& s = p.mySides[i];
	Side& peer = p.mySides[1 - i];
	size = std::min<uint64_t>(size, s.myWire.size() - s.myWirePos);
	if (size == 0)
		return 0;
	const char* data = s.myWire.data() + s.myWirePos;
	if (g != nullptr && g->Bool())
		peer.myStream->AppendNetInputRef(MakeChain(g, data, size));
	else
		peer.myStream->AppendNetInputCopy(data, size);
	s.myWirePos += size;
	return size;
}

static void
Tamper(
	Gen& g,
	Pair& p,
	int i)
{
	Side& s = p.mySides[i];
	Side& peer = p.mySides[1 - i];
	// A next change could revert the previous one.
	if (s.myWirePos == s.myWire.size() || peer.myMustFail)
		return;
	// The record structure of the wire.
	uint64_t pos = g.Range(s.myWirePos, s.myWire.size() - 1);
	if (g.Chance(1, 3))
		pos = s.myWirePos;
	bool canCheck = peer.myStream->IsConnected() && !p.myIsTampered && !peer.myIsShutdown;
	size_t begin = s.myRecord;
	while (begin + 5 <= s.myWire.size())
	{
		size_t end = begin + 5 + ((uint8_t)s.myWire[begin + 3] << 8 | (uint8_t)s.myWire[begin + 4]);
		if (end > pos)
		{
			if (pos - begin >= 3 && pos - begin < 5)
				canCheck = false;
			if (end > s.myWire.size())
				canCheck = false;
			break;
		}
		if (end <= s.myWirePos)
			s.myRecord = end;
		begin = end;
	}
	uint64_t kind = g.Weighted({6, 1, 1, 1, 1});
	p.myIsTampered = true;
	peer.myIsTampered = true;
	switch (kind)
	{
	case 0:
	{
		uint8_t x = (uint8_t)g.Range(1, 255);
		if (g.Bool())
			x = (uint8_t)(1 << g.Below(8));
		s.myWire[pos] ^= (char)x;
		Describe("side %d: wire byte %llu of %zu is xored with %x\n", i, (unsigned long long)pos, s.myWire.size(), x);
		// The sender can still be going to close before that.
		if (canCheck)
		{
			peer.myMustFail = true;
			Label("tampered_record");
		}
		else
		{
			Label("tampered_other");
		}
		break;
	}
	case 1:
		Describe("side %d: wire byte %llu is dropped\n", i, (unsigned long long)pos);
		s.myWire.erase(pos, 1);
		Label("tampered_drop");
		break;
	case 2:
	{
		uint64_t size = g.Range(1, std::min<uint64_t>(s.myWire.size() - pos, 2000));
		Describe("side %d: wire bytes from %llu are repeated %llu\n", i, (unsigned long long)pos, (unsigned long long)size);
		s.myWire.insert(pos, s.myWire.substr(pos, size));
		Label("tampered_replay");
		break;
	}
	case 3:
	{
		std::string junk;
		uint64_t size = g.Range(1, 50);
		for (uint64_t k = 0; k < size; ++k)
			junk += (char)g.Below(256);
		Describe("side %d: junk at %llu of %llu\n", i, (unsigned long long)pos, (unsigned long long)size);
		s.myWire.insert(pos, junk);
		Label("tampered_junk");
		break;
	}
	default:
	{
		// Reorder whole records.
		size_t second = begin;
		if (begin + 5 <= s.myWire.size() && begin >= s.myWirePos)
		{
			second = begin + 5 + ((uint8_t)s.myWire[begin + 3] << 8 | (uint8_t)s.myWire[begin + 4]);
			if (second + 5 <= s.myWire.size())
			{
				size_t end = second + 5 + ((uint8_t)s.myWire[second + 3] << 8 | (uint8_t)s.myWire[second + 4]);
				if (end <= s.myWire.size())
				{
					std::string r1 = s.myWire.substr(begin, second - begin);
					std::string r2 = s.myWire.substr(second, end - second);
					s.myWire.replace(begin, end - begin, r2 + r1);
					if (canCheck)
						peer.myMustFail = true;
					Describe("side %d: records at %zu and %zu are swapped\n", i, begin, second);
					Label("tampered_order");
					break;
				}
			}
		}
		Describe("side %d: wire is cut at %llu\n", i, (unsigned long long)pos);
		s.myWire.resize(pos);
		Label("tampered_cut");
		break;
	}
	}
}

static void
Write(
	Gen& g,
	Pair& p,
	int i)
{
	Side& s = p.mySides[i];
	if (s.myIsShutdown)
		return;
	uint64_t size;
	switch (g.Weighted({5, 3, 1, 1}))
	{
	case 0:
		size = g.Range(1, 30);
		break;
	case 1:
		size = g.Range(1, 3000);
		break;
	case 2:
		// Around the max TLS record size.
		size = 16384 * g.Range(1, 2) + g.Below(5) - 2;
		break;
	default:
		size = g.Range(1, 60000);
		break;
	}
	std::string data;
	data.resize(size);
	for (char& c : data)
		c = (char)((p.myNextByte++ * 2654435761u) >> 13);
	// It is taken into account if the stream is able to send it.
	bool isLost = s.myStream->IsClosingOrClosed();
	Describe("side %d: write %llu%s\n", i, (unsigned long long)size, isLost ? " (closed)" : "");
	s.myStream->AppendAppInputCopy(data.data(), size);
	// If found closed during the sending, it isn't sent. Then nothing can be sent after.
	s.mySent += data;
}

PBT_TEST(tls, MODE_INPROC, 1)
{
	RandInit();
	bool isWild = g.Chance(1, 3);
	int pairCount = (int)g.Range(1, 3);
	bool canTamper = g.Chance(1, 3);
	bool canShutdown = g.Chance(1, 2);
	std::vector<std::unique_ptr<Pair>> pairs;
	SSLContext::Ptr ctxs[2];
	for (int k = 0; k < pairCount; ++k)
	{
		pairs.emplace_back(new Pair());
		Pair& p = *pairs.back();
		Side& client = p.mySides[0];
		Side& server = p.mySides[1];
		if (k > 0 && g.Bool())
		{
			// Shared contexts.
			client.myConfig = pairs[0]->mySides[0].myConfig;
			server.myConfig = pairs[0]->mySides[1].myConfig;
			p.myAgreement = pairs[0]->myAgreement;
			Describe("pair %d shares the contexts\n", k);
		}
		else
		{
			GenConfig(g, client.myConfig, isWild);
			GenConfig(g, server.myConfig, isWild);
			server.myConfig.myIsServer = true;
			server.myConfig.myCert = (CertKind)g.Range(CERT_SELF1, CERT_CA_SIGNED2);
			if (isWild && g.Chance(1, 4))
				server.myConfig.myCert = g.Bool() ? CERT_CA_EXPIRED : CERT_NONE;
			if (g.Bool())
			{
				client.myConfig.myTrust = g.Pick({SSL_TRUST_STRICT, SSL_TRUST_RELAXED, SSL_TRUST_UNSECURE});
				client.myConfig.myRemote = (int)g.Below(8);
				if (!isWild || g.Bool())
					client.myConfig.myRemote |= server.myConfig.myCert == CERT_SELF1 ? 1 : server.myConfig.myCert == CERT_SELF2 ? 2 : 4;
				client.myConfig.myIsPem = g.Bool();
				client.myConfig.myIsTrustDefault = client.myConfig.myTrust == SSL_TRUST_STRICT && g.Chance(1, 3);
			}
			if (g.Chance(1, 4))
			{
				server.myConfig.myTrust = g.Pick({SSL_TRUST_STRICT, SSL_TRUST_RELAXED});
				server.myConfig.myRemote = (int)g.Below(8);
				server.myConfig.myIsTrustDefault = server.myConfig.myTrust == SSL_TRUST_STRICT && g.Chance(1, 3);
				if (client.myConfig.myTrust != SSL_TRUST_UNSECURE)
				{
					client.myConfig.myCert = (CertKind)g.Range(CERT_SELF1, CERT_CA_SIGNED2);
					if (isWild && g.Chance(1, 4))
						client.myConfig.myCert = g.Bool() ? CERT_CA_EXPIRED : CERT_NONE;
					if (!isWild || g.Bool())
						server.myConfig.myRemote |= client.myConfig.myCert == CERT_SELF1 ? 1 : client.myConfig.myCert == CERT_SELF2 ? 2 : 4;
				}
			}
			p.myAgreement = ModelAgreement(client.myConfig, server.myConfig);
			Describe("pair %d, must work: %d\n", k, p.myAgreement.myIsOk);
			client.myConfig.Print();
			server.myConfig.Print();
			SSLContext::Ptr c0 = client.myConfig.Make();
			SSLContext::Ptr c1 = server.myConfig.Make();
			PBT_CHECK(!c0->IsServer() && c1->IsServer(), "tls_config");
			if (k == 0)
			{
				ctxs[0] = c0;
				ctxs[1] = c1;
			}
			client.myStream.reset(new SSLStream(c0));
			server.myStream.reset(new SSLStream(c1));
		}
		if (client.myStream == nullptr)
		{
			client.myStream.reset(new SSLStream(ctxs[0]));
			server.myStream.reset(new SSLStream(ctxs[1]));
		}
		if (g.Chance(1, 4))
		{
			uint64_t n = g.Range(1, 30);
			for (uint64_t j = 0; j < n; ++j)
				p.myHostName += (char)('a' + g.Below(26));
			p.myHostName += ".com";
			PBT_CHECK(client.myStream->SetHostName(p.myHostName.c_str()), "tls_host_name");
		}
		Label(p.myAgreement.myIsOk == 1 ? "compatible" : p.myAgreement.myIsOk == 0 ? "incompatible" : "unspecified");
		HashMix(client.myConfig.myCert * 1000 + client.myConfig.myMin * 100 + client.myConfig.myMax * 10 + client.myConfig.myTrust);
		HashMix(server.myConfig.myCert * 1000 + server.myConfig.myMin * 100 + server.myConfig.myMax * 10 + server.myConfig.myTrust);
	}
	ctxs[0].Clear();
	ctxs[1].Clear();
	// Plain data before the encryption.
	for (auto& pp : pairs)
	{
		Pair& p = *pp;
		if (!g.Chance(1, 4))
			continue;
		Label("plain_start");
		uint64_t n = g.Range(1, 4);
		for (uint64_t k = 0; k < n; ++k)
		{
			int i = (int)g.Below(2);
			Write(g, p, i);
			if (g.Bool())
			{
				PopNet(p, i);
				Deliver(p, i, g.Range(1, 5000), &g);
				PopApp(p, 1 - i);
			}
		}
		for (int i = 0; i < 2; ++i)
		{
			PopNet(p, i);
			Deliver(p, i, UINT64_MAX, &g);
			PopApp(p, 1 - i);
			PBT_CHECK_F(p.mySides[1 - i].myRecv.size() == p.mySides[i].mySent.size(), "tls_plain", "side %d", i);
		}
	}
	uint64_t opCount = g.Range(5, 80);
	uint64_t moved = 0;
	uint64_t writes = 0;
	for (uint64_t op = 0; op < opCount; ++op)
	{
		int k = (int)g.Below(pairs.size());
		Pair& p = *pairs[k];
		int i = (int)g.Below(2);
		Side& s = p.mySides[i];
		if (g.Chance(1, 10))
		{
			// Some other code of the thread used OpenSSL and didn't bother about errors.
			Describe("stale error\n");
			ERR_raise(g.Bool() ? ERR_LIB_SSL : ERR_LIB_PEM, (int)g.Range(100, 120));
			Label("stale_error");
		}
		if (!s.myIsConnectCalled)
		{
			if (g.Bool())
			{
				Describe("pair %d side %d: connect\n", k, i);
				s.myStream->Connect();
				s.myIsConnectCalled = true;
			}
			else if (g.Bool() && p.mySides[1 - i].myIsConnectCalled)
			{
				// Early encrypted data.
				PopNet(p, 1 - i);
				Deliver(p, 1 - i, g.Range(1, 1000), &g);
			}
			continue;
		}
		switch (g.Weighted({3, 4, 5, 6, 5, canShutdown ? 1u : 0u, canTamper ? 1u : 0u}))
		{
		case 0:
		{
			bool rc = s.myStream->Update();
			PBT_CHECK_F(rc == !s.myStream->HasError() || rc, "tls_update", "side %d", i);
			break;
		}
		case 1:
			Describe("pair %d ", k);
			Write(g, p, i);
			++writes;
			break;
		case 2:
			PopNet(p, i);
			break;
		case 3:
			PopNet(p, i);
			moved += Deliver(p, i, g.Bool() ? UINT64_MAX : g.Range(1, g.Bool() ? 20 : 2000), &g) != 0;
			break;
		case 4:
			PopApp(p, i);
			break;
		case 5:
			if (s.myIsShutdown || s.myStream->IsClosed())
				break;
			s.myIsShutdownConnected = s.myStream->IsConnected();
			s.myIsShutdown = true;
			p.myHasShutdown = true;
			s.mySentBeforeShutdown = s.mySent.size();
			Describe("pair %d side %d: shutdown, connected %d\n", k, i, (int)s.myIsShutdownConnected);
			s.myStream->Shutdown();
			PBT_CHECK_F(s.myStream->IsClosingOrClosed(), "tls_shutdown", "side %d", i);
			Label(s.myIsShutdownConnected ? "shutdown" : "shutdown_early");
			break;
		default:
			Describe("pair %d ", k);
			PopNet(p, i);
			Tamper(g, p, i);
			break;
		}
		CheckState(p, 0);
		CheckState(p, 1);
	}
	// Deliver all the rest.
	for (auto& pp : pairs)
	{
		Pair& p = *pp;
		for (int i = 0; i < 2; ++i)
		{
			if (!p.mySides[i].myIsConnectCalled)
			{
				p.mySides[i].myStream->Connect();
				p.mySides[i].myIsConnectCalled = true;
			}
		}
	}
	int quiet = 0;
	for (int round = 0; round < 60; ++round)
	{
		uint64_t progress = 0;
		for (auto& pp : pairs)
		{
			Pair& p = *pp;
			for (int i = 0; i < 2; ++i)
			{
				p.mySides[i].myStream->Update();
				progress += PopNet(p, i);
				progress += Deliver(p, i, UINT64_MAX, nullptr);
				progress += PopApp(p, 1 - i);
				CheckState(p, 0);
				CheckState(p, 1);
			}
		}
		// A read of nothing can still notice the end of the stream.
		quiet = progress == 0 ? quiet + 1 : 0;
		if (quiet >= 3)
			break;
		PBT_CHECK(round < 59, "tls_endless");
	}
	for (auto& pp : pairs)
	{
		Pair& p = *pp;
		Side& a = p.mySides[0];
		Side& b = p.mySides[1];
		if (p.myIsTampered)
		{
			for (int i = 0; i < 2; ++i)
			{
				Side& s = p.mySides[i];
				Side& peer = p.mySides[1 - i];
				// If one was closing normally already, then the rest is not read.
				if (s.myMustFail && p.myAgreement.myIsOk == 1 && !s.myIsShutdown && !peer.myIsShutdown && !peer.myIsTampered)
				{
					PBT_CHECK_F(s.myStream->HasError(), "tls_tamper_unnoticed", "side %d: received %zu of %zu", i, s.myRecv.size(), peer.mySent.size());
					PBT_CHECK_F(!s.myStream->IsConnected(), "tls_tamper_unnoticed", "side %d", i);
				}
			}
			continue;
		}
		if (p.myAgreement.myIsOk == 0)
		{
			size_t plain = 0;
			(void)plain;
			PBT_CHECK_F(!(a.myStream->IsConnected() && b.myStream->IsConnected()), "tls_incompatible", "both are connected");
			if (!p.myHasShutdown)
				PBT_CHECK_F(a.myStream->HasError() || b.myStream->HasError(), "tls_incompatible", "nobody has an error");
			// A shutdown before the end of the handshake doesn't notify the peer.
			for (int i = 0; i < 2 && !p.myHasShutdown; ++i)
				PBT_CHECK_F(!p.mySides[i].myStream->IsConnected(), "tls_incompatible", "side %d is connected", i);
			continue;
		}
		if (p.myAgreement.myIsOk < 0)
			continue;
		if (!p.myHasShutdown)
		{
			for (int i = 0; i < 2; ++i)
			{
				Side& s = p.mySides[i];
				Side& peer = p.mySides[1 - i];
				PBT_CHECK_F(s.myStream->IsConnected() && !s.myStream->HasError(), "tls_connect", "side %d: error %u", i, s.myStream->GetError());
				PBT_CHECK_F(s.myRecv.size() == peer.mySent.size(), "tls_lost_data", "side %d: received %zu of %zu", i, s.myRecv.size(), peer.mySent.size());
			}
			PBT_CHECK(a.myStream->GetCipher() == b.myStream->GetCipher(), "tls_cipher");
			PBT_CHECK_F(b.myStream->GetHostName() == p.myHostName, "tls_host_name", "'%s' instead of '%s'", b.myStream->GetHostName().c_str(), p.myHostName.c_str());
			continue;
		}
		for (int i = 0; i < 2; ++i)
		{
			Side& s = p.mySides[i];
			Side& peer = p.mySides[1 - i];
			if (!s.myIsShutdown || !s.myIsShutdownConnected || peer.myIsShutdown)
				continue;
			PBT_CHECK_F(peer.myRecv.size() == s.mySentBeforeShutdown, "tls_lost_data", "closed side %d: received %zu of %llu", i, peer.myRecv.size(), (unsigned long long)s.mySentBeforeShutdown);
			PBT_CHECK_F(peer.myStream->IsClosingOrClosed() && !peer.myStream->HasError(), "tls_close_unnoticed", "closed side %d", i);
			PBT_CHECK_F(s.myStream->IsClosed() && peer.myStream->IsClosed(), "tls_close_unfinished", "closed side %d: closed %d, peer closed %d", i, (int)s.myStream->IsClosed(), (int)peer.myStream->IsClosed());
		}
	}
	HashMix(moved * 1000 + writes);
	for (auto& pp : pairs)
	{
		HashMix(pp->mySides[0].mySent.size());
		HashMix(pp->mySides[1].mySent.size());
	}
	if (moved >= 3 && writes >= 1)
		NonTrivial();
}

//////////////////////////////////////////////////////////////////////////////////////////
// Contexts: each one is given settings in its own way and order.

// Certificates: 0 - self1, 1 - self2, 2 - CA signed 1, 3 - CA signed 2, 4 - CA.
struct Blob
{
	const uint8_t* myCert;
	uint32_t mySize;
	const uint8_t* myKey;
	uint32_t myKeySize;
};

static const Blob theBlobs[] = {
	{certs::theCert1, sizeof(certs::theCert1), certs::theKey1, sizeof(certs::theKey1)},
	{certs::theCert2, sizeof(certs::theCert2), certs::theKey2, sizeof(certs::theKey2)},
	{certs::theCert31, sizeof(certs::theCert31), certs::theKey3, sizeof(certs::theKey3)},
	{certs::theCert32, sizeof(certs::theCert32), certs::theKey3, sizeof(certs::theKey3)},
	{certs::theCACert3, sizeof(certs::theCACert3), nullptr, 0},
};

// A file in memory.
struct MemFile
{
	MemFile(const std::string& data)
	{
		myFd = memfd_create("cert", 0);
		if (myFd < 0 || write(myFd, data.data(), data.size()) != (ssize_t)data.size())
			abort();
		myPath = "/proc/self/fd/" + std::to_string(myFd);
	}
	~MemFile() { close(myFd); }
	int myFd;
	std::string myPath;
};

static std::string
BioGet(
	BIO* bio)
{
	char* data = nullptr;
	long size = BIO_get_mem_data(bio, &data);
	std::string res(data, size);
	BIO_free(bio);
	return res;
}

static std::string
PemCert(
	int i)
{
	static std::string cache[5];
	if (!cache[i].empty())
		return cache[i];
	const unsigned char* pos = theBlobs[i].myCert;
	X509* x = d2i_X509(nullptr, &pos, theBlobs[i].mySize);
	BIO* bio = BIO_new(BIO_s_mem());
	if (x == nullptr || PEM_write_bio_X509(bio, x) != 1)
		abort();
	X509_free(x);
	return cache[i] = BioGet(bio);
}

static std::string
PemKey(
	int i,
	const std::string& password)
{
	static std::vector<std::pair<std::string, std::string>> cache[5];
	for (auto& c : cache[i])
	{
		if (c.first == password)
			return c.second;
	}
	const unsigned char* pos = theBlobs[i].myKey;
	EVP_PKEY* key = d2i_AutoPrivateKey(nullptr, &pos, theBlobs[i].myKeySize);
	BIO* bio = BIO_new(BIO_s_mem());
	if (key == nullptr || PEM_write_bio_PrivateKey(bio, key, password.empty() ? nullptr : EVP_aes_128_cbc(), (const unsigned char*)password.data(), (int)password.size(), nullptr, nullptr) != 1)
		abort();
	EVP_PKEY_free(key);
	std::string res = BioGet(bio);
	cache[i].emplace_back(password, res);
	return res;
}

// RSA is allowed in the relaxed modes only. The key generation is slow, once is enough.
static void
PemRsa(
	std::string& cert,
	std::string& key,
	std::string& certDer)
{
	static std::string theCert, theKey, theDer;
	if (theCert.empty())
	{
		EVP_PKEY* k = EVP_RSA_gen(1024);
		X509* x = X509_new();
		ASN1_INTEGER_set(X509_get_serialNumber(x), 1);
		X509_gmtime_adj(X509_getm_notBefore(x), 0);
		X509_gmtime_adj(X509_getm_notAfter(x), 1000000);
		X509_set_pubkey(x, k);
		X509_NAME_add_entry_by_txt(X509_get_subject_name(x), "CN", MBSTRING_ASC, (const unsigned char*)"rsa", -1, -1, 0);
		X509_set_issuer_name(x, X509_get_subject_name(x));
		X509_sign(x, k, EVP_sha256());
		BIO* bio = BIO_new(BIO_s_mem());
		PEM_write_bio_X509(bio, x);
		theCert = BioGet(bio);
		bio = BIO_new(BIO_s_mem());
		PEM_write_bio_PrivateKey(bio, k, nullptr, nullptr, 0, nullptr, nullptr);
		theKey = BioGet(bio);
		unsigned char* der = nullptr;
		int size = i2d_X509(x, &der);
		theDer.assign((char*)der, size);
		OPENSSL_free(der);
		X509_free(x);
		EVP_PKEY_free(k);
	}
	cert = theCert;
	key = theKey;
	certDer = theDer;
}

struct CtxModel
{
	bool myIsServer = false;
	SSLTrust myTrust = SSL_TRUST_STRICT;
	// 0 - not set, 1..4 for TLSv1..TLSv1.3.
	int myMin = 0;
	int myMax = 0;
	std::vector<SSLCipher> myCiphers;
	std::vector<int> myRemotes;
	// -1 - none, 5 - RSA.
	int myLocal = -1;
	// A failed setting of the own certificate could leave something behind.
	bool myIsDirty = false;
};

enum CtxOp
{
	CO_TRUST,
	CO_MIN,
	CO_MAX,
	CO_CIPHER,
	CO_REMOTE,
	CO_LOCAL,
	// Have to fail.
	CO_BAD_REMOTE,
	CO_BAD_LOCAL,
	CO_RSA_LOCAL,
};

struct CtxStep
{
	CtxOp myOp;
	int myArg;
	int myForm;
};

static void
CtxApply(
	Gen& g,
	SSLContext& ctx,
	CtxModel& m,
	const CtxStep& s)
{
	static const char* names[] = {"trust", "min", "max", "cipher", "remote", "local", "bad remote", "bad local", "rsa local"};
	Describe("   %s %d form %d\n", names[s.myOp], s.myArg, s.myForm);
	switch (s.myOp)
	{
	case CO_TRUST:
		PBT_CHECK(ctx.SetTrust((SSLTrust)s.myArg), "ctx_trust");
		m.myTrust = (SSLTrust)s.myArg;
		break;
	case CO_MIN:
	{
		SSLVersion v = s.myArg == 5 ? SSL_VERSION_ANY : (SSLVersion)(SSL_VERSION_TLSv1 + s.myArg - 1);
		PBT_CHECK(ctx.SetMinVersion(v), "ctx_min");
		m.myMin = s.myArg == 5 ? 1 : s.myArg;
		if (m.myMax != 0 && m.myMax < m.myMin)
			m.myMax = m.myMin;
		break;
	}
	case CO_MAX:
	{
		SSLVersion v = s.myArg == 5 ? SSL_VERSION_ANY : (SSLVersion)(SSL_VERSION_TLSv1 + s.myArg - 1);
		PBT_CHECK(ctx.SetMaxVersion(v), "ctx_max");
		m.myMax = s.myArg == 5 ? 4 : s.myArg;
		if (m.myMin != 0 && m.myMin > m.myMax)
			m.myMin = m.myMax;
		break;
	}
	case CO_CIPHER:
		PBT_CHECK(ctx.AddCipher((SSLCipher)s.myArg), "ctx_cipher");
		if (std::find(m.myCiphers.begin(), m.myCiphers.end(), (SSLCipher)s.myArg) == m.myCiphers.end())
			m.myCiphers.push_back((SSLCipher)s.myArg);
		break;
	case CO_REMOTE:
	{
		bool ok;
		int form = s.myForm % 3;
		if (form == 2 && m.myTrust == SSL_TRUST_BYPASS_VERIFICATION)
			form = 1;
		std::string pem = PemCert(s.myArg);
		if (form == 0)
			ok = ctx.AddRemoteCert(theBlobs[s.myArg].myCert, theBlobs[s.myArg].mySize);
		else if (form == 1)
			ok = ctx.AddRemoteCert(pem.c_str(), (uint32_t)pem.size());
		else
			ok = ctx.AddRemoteCertFile(MemFile(pem).myPath.c_str());
		PBT_CHECK_F(ok, "ctx_remote", "certificate %d form %d", s.myArg, form);
		if (std::find(m.myRemotes.begin(), m.myRemotes.end(), s.myArg) == m.myRemotes.end())
			m.myRemotes.push_back(s.myArg);
		break;
	}
	case CO_LOCAL:
	{
		if (m.myLocal >= 0 || m.myTrust == SSL_TRUST_UNSECURE)
			break;
		bool ok;
		const Blob& b = theBlobs[s.myArg];
		if (s.myForm % 3 == 0)
		{
			ok = ctx.AddLocalCert(b.myCert, b.mySize, b.myKey, b.myKeySize);
		}
		else
		{
			std::string pass = s.myForm % 3 == 1 ? "" : std::string(1 + s.myForm % 7, 'p');
			MemFile cert(PemCert(s.myArg));
			MemFile key(PemKey(s.myArg, pass));
			// Not needed password is not used.
			ok = ctx.AddLocalCertFile(cert.myPath.c_str(), key.myPath.c_str(), pass.empty() && s.myForm % 2 == 1 ? "unused" : pass.c_str());
		}
		PBT_CHECK_F(ok, "ctx_local", "certificate %d form %d", s.myArg, s.myForm % 3);
		m.myLocal = s.myArg;
		m.myIsDirty = false;
		break;
	}
	case CO_BAD_REMOTE:
	{
		std::string der((const char*)theBlobs[s.myArg].myCert, theBlobs[s.myArg].mySize);
		std::string pem = PemCert(s.myArg);
		int form = s.myForm % 5;
		if (form >= 3 && m.myTrust == SSL_TRUST_BYPASS_VERIFICATION)
			form = 1;
		bool ok;
		switch (form)
		{
		case 0:
			ok = ctx.AddRemoteCert(der.data(), (uint32_t)(der.size() - 1 - g.Below(100)));
			break;
		case 1:
			ok = ctx.AddRemoteCert(pem.data(), (uint32_t)g.Below(pem.size() / 2));
			break;
		case 2:
			ok = ctx.AddRemoteCert("", 0);
			break;
		case 3:
			ok = ctx.AddRemoteCertFile("/proc/self/fd/99999");
			break;
		default:
			ok = ctx.AddRemoteCertFile(MemFile(pem.substr(0, pem.size() / 2)).myPath.c_str());
			break;
		}
		PBT_CHECK_F(!ok, "ctx_bad_remote", "certificate %d form %d", s.myArg, form);
		break;
	}
	case CO_BAD_LOCAL:
	{
		if (m.myLocal >= 0 || m.myTrust == SSL_TRUST_UNSECURE)
			break;
		const Blob& b = theBlobs[s.myArg];
		// Of another certificate.
		const Blob& o = theBlobs[s.myArg == 0 ? 1 : 0];
		bool ok;
		bool isDirty = true;
		switch (s.myForm % 6)
		{
		case 0:
			ok = ctx.AddLocalCert(b.myCert, b.mySize, o.myKey, o.myKeySize);
			break;
		case 1:
			ok = ctx.AddLocalCert(b.myCert, b.mySize - 1 - (uint32_t)g.Below(100), b.myKey, b.myKeySize);
			isDirty = false;
			break;
		case 2:
			ok = ctx.AddLocalCert(b.myCert, b.mySize, b.myKey, b.myKeySize / 2);
			isDirty = false;
			break;
		case 3:
		{
			MemFile cert(PemCert(s.myArg));
			MemFile key(PemKey(s.myArg, "right"));
			ok = ctx.AddLocalCertFile(cert.myPath.c_str(), key.myPath.c_str(), "wrong");
			break;
		}
		case 4:
		{
			MemFile cert(PemCert(s.myArg));
			MemFile key(PemKey(s.myArg == 0 ? 1 : 0, ""));
			ok = ctx.AddLocalCertFile(cert.myPath.c_str(), key.myPath.c_str(), "");
			break;
		}
		default:
		{
			MemFile key(PemKey(s.myArg, ""));
			ok = ctx.AddLocalCertFile(g.Bool() ? "/proc/self/fd/99999" : key.myPath.c_str(), key.myPath.c_str(), "");
			isDirty = false;
			break;
		}
		}
		PBT_CHECK_F(!ok, "ctx_bad_local", "certificate %d form %d", s.myArg, s.myForm % 6);
		m.myIsDirty = m.myIsDirty || isDirty;
		break;
	}
	case CO_RSA_LOCAL:
	{
		if (m.myLocal >= 0 || m.myTrust == SSL_TRUST_UNSECURE)
			break;
		std::string cert, key, der;
		PemRsa(cert, key, der);
		bool ok;
		if (s.myForm % 2 == 0)
		{
			MemFile f(cert);
			MemFile k(key);
			ok = ctx.AddLocalCertFile(f.myPath.c_str(), k.myPath.c_str(), "");
		}
		else
		{
			if (m.myTrust != SSL_TRUST_STRICT)
				break;
			ok = ctx.AddLocalCert(der.data(), (uint32_t)der.size(), theBlobs[0].myKey, theBlobs[0].myKeySize);
		}
		PBT_CHECK_F(ok == (m.myTrust != SSL_TRUST_STRICT), "ctx_rsa", "trust %d form %d: %d", (int)m.myTrust, s.myForm % 2, (int)ok);
		if (ok)
		{
			m.myLocal = 5;
			m.myIsDirty = false;
		}
		break;
	}
	}
}

static CtxStep
CtxGenStep(
	Gen& g)
{
	CtxStep s;
	s.myOp = (CtxOp)g.Weighted({3, 3, 3, 4, 4, 4, 1, 1, 1});
	s.myForm = (int)g.Below(100);
	switch (s.myOp)
	{
	case CO_TRUST:
		s.myArg = (int)g.Below(4);
		break;
	case CO_MIN:
	case CO_MAX:
		s.myArg = 1 + (int)g.Below(5);
		break;
	case CO_CIPHER:
		s.myArg = (int)g.Below(SSL_CIPHER_NONE);
		break;
	case CO_REMOTE:
	case CO_BAD_REMOTE:
		s.myArg = (int)g.Below(5);
		break;
	default:
		s.myArg = (int)g.Below(4);
		break;
	}
	return s;
}

PBT_TEST(tls_ctx, MODE_INPROC, 1)
{
	RandInit();
	const int count = 2 + (int)g.Below(2);
	std::vector<CtxStep> base;
	size_t n = g.Below(10);
	for (size_t i = 0; i < n; ++i)
		base.push_back(CtxGenStep(g));
	bool isServer = g.Bool();
	std::vector<SSLContext::Ptr> ctxs;
	std::vector<CtxModel> models(count);
	for (int i = 0; i < count; ++i)
	{
		std::vector<CtxStep> steps = base;
		CtxModel& m = models[i];
		m.myIsServer = isServer;
		if (i > 0)
		{
			// A change or two, or just another way to set the same.
			int changes = (int)g.Weighted({4, 4, 2});
			for (int k = 0; k < changes; ++k)
			{
				switch (g.Below(5))
				{
				case 0:
					m.myIsServer = g.Bool();
					break;
				case 1:
					steps.insert(steps.begin() + g.Below(steps.size() + 1), CtxGenStep(g));
					break;
				case 2:
					if (!steps.empty())
						steps.erase(steps.begin() + g.Below(steps.size()));
					break;
				case 3:
					if (!steps.empty())
						steps[g.Below(steps.size())] = CtxGenStep(g);
					break;
				default:
					if (steps.size() > 1)
						std::swap(steps[g.Below(steps.size())], steps[g.Below(steps.size())]);
					break;
				}
			}
			for (CtxStep& s : steps)
			{
				if (g.Chance(1, 3))
					s.myForm = (int)g.Below(100);
			}
		}
		Describe("context %d: %s\n", i, m.myIsServer ? "server" : "client");
		ctxs.push_back(SSLContext::NewShared(m.myIsServer));
		for (const CtxStep& s : steps)
			CtxApply(g, *ctxs.back(), m, s);
		PBT_CHECK(ctxs.back()->IsServer() == m.myIsServer, "ctx_server");
	}
	bool hasSame = false;
	bool hasDiff = false;
	for (int i = 0; i < count; ++i)
	{
		for (int j = 0; j < count; ++j)
		{
			const CtxModel& a = models[i];
			const CtxModel& b = models[j];
			bool eq = *ctxs[i] == *ctxs[j];
			PBT_CHECK(eq == (*ctxs[j] == *ctxs[i]), "ctx_asymmetric");
			PBT_CHECK(eq != (*ctxs[i] != *ctxs[j]), "ctx_not_equal");
			if (i == j)
			{
				PBT_CHECK(eq, "ctx_self");
				continue;
			}
			std::vector<int> r1 = a.myRemotes, r2 = b.myRemotes;
			std::sort(r1.begin(), r1.end());
			std::sort(r2.begin(), r2.end());
			bool isDiff = a.myIsServer != b.myIsServer || a.myTrust != b.myTrust || a.myMin != b.myMin || a.myMax != b.myMax || a.myCiphers != b.myCiphers || r1 != r2;
			if (!a.myIsDirty && !b.myIsDirty)
			{
				isDiff = isDiff || a.myLocal != b.myLocal;
				if (!isDiff)
				{
					PBT_CHECK_F(eq, "ctx_same_differ", "contexts %d and %d", i, j);
					hasSame = true;
				}
			}
			if (isDiff)
			{
				PBT_CHECK_F(!eq, "ctx_different_equal", "contexts %d and %d", i, j);
				hasDiff = true;
			}
		}
	}
	if (hasSame)
		Label("same");
	if (hasDiff)
		Label("different");
	for (const CtxStep& s : base)
		HashMix(s.myOp * 10000 + s.myArg * 100 + s.myForm);
	for (const CtxModel& m : models)
		HashMix(m.myLocal + m.myMin * 10 + m.myMax * 100 + m.myTrust * 1000 + m.myRemotes.size() * 10000);
	if (!base.empty())
		NonTrivial();
}

//////////////////////////////////////////////////////////////////////////////////////////

struct LeakPlan
{
	bool myIsServer = false;
	std::vector<CtxStep> mySteps;
	Config myConfigs[2];
	std::string myHostName;
	// The pieces of the conversation.
	int myPlainSize = 0;
	int myRounds = 0;
	int myWriteSize = 0;
	int myLateRounds = 0;
	// Change a byte of the side's output.
	int myTamperSide = -1;
	uint64_t myTamperPos = 0;
	int myShutdownSide = -1;
	int myUnread = 0;
	int myPieceSize = 0;
	bool myIsGarbage = false;
};

static void
LeakRound(
	const LeakPlan& plan,
	Pair& p)
{
	for (int i = 0; i < 2; ++i)
	{
		Side& s = p.mySides[i];
		Side& peer = p.mySides[1 - i];
		Buffer::Ptr head;
		s.myStream->PopNetOutput(head);
		std::string data;
		for (Buffer* b = head.GetPointer(); b != nullptr; b = b->myNext.GetPointer())
			data.append((const char*)b->myRData, b->myPos);
		if (plan.myTamperSide == i && plan.myTamperPos >= s.myWirePos && plan.myTamperPos < s.myWirePos + data.size())
			data[plan.myTamperPos - s.myWirePos] ^= 0x15;
		s.myWirePos += data.size();
		for (size_t pos = 0; pos < data.size();)
		{
			size_t size = std::min(data.size() - pos, (size_t)plan.myPieceSize);
			if (pos % 2 == 0)
				peer.myStream->AppendNetInputCopy(data.data() + pos, size);
			else
				peer.myStream->AppendNetInputRef(BuffersCopy(data.data() + pos, size));
			pos += size;
			peer.myStream->Update();
		}
		Buffer::Ptr app;
		if (plan.myUnread != i + 1)
			peer.myStream->PopAppOutput(app);
	}
}

static void
LeakRun(
	Gen& g,
	const LeakPlan& plan)
{
	{
		CtxModel m;
		m.myIsServer = plan.myIsServer;
		SSLContext::Ptr ctx = SSLContext::NewShared(plan.myIsServer);
		SSLContext::Ptr other = SSLContext::NewShared(plan.myIsServer);
		for (const CtxStep& s : plan.mySteps)
			CtxApply(g, *ctx, m, s);
		bool isEqual = *ctx == *other;
		if (isEqual && ctx->IsServer() != other->IsServer())
			Fail("tls_leak", "wrong equality");
		SSLStream unused(ctx);
	}
	{
		Pair p;
		for (int i = 0; i < 2; ++i)
		{
			SSLContext::Ptr ctx = plan.myConfigs[i].Make();
			p.mySides[i].myStream.reset(new SSLStream(ctx));
		}
		SSLStream& a = *p.mySides[0].myStream;
		SSLStream& b = *p.mySides[1].myStream;
		if (!plan.myHostName.empty())
			a.SetHostName(plan.myHostName.c_str());
		if (plan.myPlainSize > 0)
		{
			a.AppendAppInputCopy(std::string(plan.myPlainSize, 'p').data(), plan.myPlainSize);
			LeakRound(plan, p);
		}
		if (plan.myIsGarbage)
			b.AppendNetInputCopy("garbage", 7);
		a.Connect();
		b.Connect();
		for (int i = 0; i < plan.myRounds; ++i)
		{
			a.Update();
			b.Update();
			LeakRound(plan, p);
		}
		if (plan.myWriteSize > 0)
		{
			std::string data(plan.myWriteSize, 'w');
			a.AppendAppInputCopy(data.data(), data.size());
			b.AppendAppInputCopy(data.data(), data.size());
		}
		for (int i = 0; i < plan.myLateRounds; ++i)
		{
			LeakRound(plan, p);
			if (i == 1 && plan.myShutdownSide >= 0)
			{
				SSLStream& s = *p.mySides[plan.myShutdownSide].myStream;
				if (!s.IsClosingOrClosed())
					s.Shutdown();
			}
		}
	}
	ERR_clear_error();
}

// Everything taken by the contexts and streams is given back, no matter how their life was going.
PBT_TEST(tls_leak, MODE_INPROC, 1)
{
	RandInit();
	LeakPlan plan;
	plan.myIsServer = g.Bool();
	bool hasSteps = g.Chance(2, 3);
	for (size_t i = 0, n = hasSteps ? 1 + g.Below(6) : 0; i < n; ++i)
		plan.mySteps.push_back(CtxGenStep(g));
	bool isWild = g.Chance(1, 3);
	for (int i = 0; i < 2; ++i)
	{
		Config& c = plan.myConfigs[i];
		GenConfig(g, c, isWild);
		c.myIsServer = i == 1;
		if (i == 1 || g.Chance(1, 4))
			c.myCert = (CertKind)g.Range(i == 1 && !isWild ? CERT_SELF1 : CERT_NONE, CERT_CA_EXPIRED);
		if (g.Bool())
		{
			c.myTrust = g.Pick({SSL_TRUST_STRICT, SSL_TRUST_RELAXED});
			c.myRemote = (int)g.Below(8);
			c.myIsPem = g.Bool();
		}
	}
	if (g.Bool())
		plan.myHostName = g.Bool() ? "example.com" : std::string(1 + g.Below(200), 'h');
	plan.myPlainSize = g.Chance(1, 4) ? 1 + (int)g.Small(5000) : 0;
	plan.myRounds = (int)g.Weighted({1, 1, 1, 2, 5});
	plan.myWriteSize = g.Bool() ? 1 + (int)g.Small(40000) : 0;
	plan.myLateRounds = (int)g.Below(6);
	if (g.Chance(1, 4))
	{
		plan.myTamperSide = (int)g.Below(2);
		plan.myTamperPos = g.Small(4000);
	}
	if (g.Chance(1, 3))
		plan.myShutdownSide = (int)g.Below(2);
	plan.myUnread = g.Chance(1, 4) ? 1 + (int)g.Below(2) : 0;
	plan.myPieceSize = g.Chance(1, 4) ? 1 + (int)g.Below(300) : 100000;
	plan.myIsGarbage = g.Chance(1, 10);
	Describe("server %d, %zu steps, host '%s', plain %d, rounds %d, write %d, late %d, tamper %d %llu, shutdown %d, "
		"unread %d, piece %d, garbage %d\n", plan.myIsServer, plan.mySteps.size(), plan.myHostName.c_str(), plan.myPlainSize,
		plan.myRounds, plan.myWriteSize, plan.myLateRounds, plan.myTamperSide, (unsigned long long)plan.myTamperPos,
		plan.myShutdownSide, plan.myUnread, plan.myPieceSize, plan.myIsGarbage);
	plan.myConfigs[0].Print();
	plan.myConfigs[1].Print();
	// OpenSSL creates some global things on the first usage of them.
	int64_t prev = 0;
	int growths = 0;
	int64_t diff = 0;
	int fdPrev = 0;
	int fdGrowths = 0;
	for (int i = 0; i < 6; ++i)
	{
		LeakRun(g, plan);
		int64_t now = theLiveBlocks.load(std::memory_order_relaxed);
		if (i > 1)
		{
			diff = now - prev;
			growths = diff > 0 ? growths + 1 : 0;
		}
		prev = now;
		int fd = 0;
		for (int j = 0; j < 256; ++j)
			fd += fcntl(j, F_GETFD) >= 0;
		if (i > 0)
			fdGrowths = fd > fdPrev ? fdGrowths + 1 : 0;
		fdPrev = fd;
		if (i > 1 && growths == 0 && fdGrowths == 0)
			break;
	}
	PBT_CHECK(fdGrowths < 4, "tls_leak_fd");
	PBT_CHECK_F(growths < 4, "tls_leak", "each usage leaves %lld blocks", (long long)diff);
	for (const CtxStep& s : plan.mySteps)
		HashMix(s.myOp * 10000 + s.myArg * 100 + s.myForm);
	HashMix(plan.myRounds + plan.myLateRounds * 10 + plan.myPlainSize * 100 + plan.myUnread * 13);
	HashMix(plan.myWriteSize);
	HashMix(plan.myTamperPos);
	HashMix(plan.myConfigs[0].myCert * 1000 + plan.myConfigs[0].myMin * 100 + plan.myConfigs[0].myMax * 10 + plan.myConfigs[0].myTrust);
	HashMix(plan.myConfigs[1].myCert * 1000 + plan.myConfigs[1].myMin * 100 + plan.myConfigs[1].myMax * 10 + plan.myConfigs[1].myTrust);
	if (hasSteps || plan.myRounds > 1)
		NonTrivial();
	if (!plan.mySteps.empty())
		Label("settings");
	if (plan.myRounds > 2)
		Label("handshake");
	if (plan.myTamperSide >= 0)
		Label("altered");
}

}
