// Simulated kernel networking: TCP sockets, epoll, eventfd, io_uring, name resolution.
//
// System calls made by the tested code on descriptors created here are served by a model of
// the Linux kernel living in virtual time. Delays, splits, capacities, errors, and orders are
// drawn from the environment tape.
//
#pragma once

#include "sim.h"

#include <string>
#include <vector>

namespace simnet {

	struct Config
	{
		// Max delay of a piece of data or of a handshake step, in nanoseconds.
		uint64_t myLatencyNs = 0;
		// Chance that a delay is not 0, x / 100.
		uint32_t myLatencyChance = 50;
		// Chance of cutting a sent block into several pieces, x / 100.
		uint32_t mySplitChance = 0;
		// Sizes of the kernel buffers of a direction of a connection.
		uint32_t myCapMin = 65536;
		uint32_t myCapMax = 65536;
		// Interruptions of epoll_wait, x / 100.
		uint32_t myEintrChance = 0;
		// Not critical errors from accept(), x / 100.
		uint32_t myAcceptErrChance = 0;
		// connect() ends at once, x / 100.
		uint32_t myConnectNowChance = 30;
		// socket() fails, x / 100.
		uint32_t mySocketErrChance = 0;
		// Descriptors are reused, the lowest is taken. Otherwise all are unique.
		bool myReuseFds = true;
		// Timeout of connecting to nowhere.
		uint64_t myConnectTimeoutMs = 20000;
		// Number of entries in the io_uring submission queue.
		uint32_t myUringEntries = 1024;
	};

	Config& GetConfig();

	// Draw typical settings.
	void GenConfig(pbt::Gen& g);

	// Fail if a descriptor is still open.
	void CheckNoOpen(const char* sig);
	uint32_t OpenCount();
	// Open sockets only.
	uint32_t OpenSockets();
	bool IsOpen(int fd);

	// Addresses connecting to which never ends.
	void SetBlackhole(uint16_t port);
	// Fail a call of socket(), bind(), listen() or setsockopt() after skipping the given number of them. Returns if the
	// previous planned failure has happened.
	bool FailCall(const char* call, int skip, int err);
	// Sockets of this family can't be created.
	void SetFamilyError(int family, int err);
	// The port is refused synchronously with the given error by connect().
	void SetConnectError(uint16_t port, int err);
	// Connecting fails asynchronously with the error.
	void SetConnectAsyncError(uint16_t port, int err);

	// State of the client's end of a connection, also after its descriptor is closed.
	struct ConnInfo
	{
		bool myIsConnecting = false;
		bool myIsEstablished = false;
		int myErr = 0;
		uint16_t myLocalPort = 0;
		// Taken by the kernel from the client and from the server.
		uint64_t mySent = 0;
		uint64_t myPeerSent = 0;
	};
	// Of the last connect() call.
	const void* LastConnect();
	ConnInfo GetConn(const void* conn);

	// Break the connection: both sides get the error after the delays.
	void Kill(int fd, int err);

	// Name resolution.
	struct NameResult
	{
		int myRc = 0;
		int myErrno = 0;
		uint64_t myDelayMs = 0;
		// Numbers turned into IPs. Negative are IPv6, 0 is an unknown family.
		std::vector<int> myAddrs;
		uint32_t myCalls = 0;
	};
	void SetName(const std::string& name, const NameResult& res);
	uint32_t GetNameCalls(const std::string& name);
	uint32_t NameResultsAlive();

	struct Stats
	{
		uint64_t mySegments = 0;
		uint64_t mySplits = 0;
		uint64_t mySendBlocks = 0;
		uint64_t myPartialSends = 0;
		uint64_t myRsts = 0;
		uint64_t myAcceptErrs = 0;
		uint64_t myEintrs = 0;
		uint64_t myCancels = 0;
		uint64_t myBytes = 0;
		uint64_t myDelays = 0;
	};
	Stats& GetStats();
	// Text of the state of all descriptors.
	std::string Dump();
}
