// Helpers for the network harnesses: peers made of raw (simulated) system calls.
#pragma once

#include "sim.h"
#include "simnet.h"

#include <arpa/inet.h>
#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <string>
#include <sys/socket.h>
#include <unistd.h>

// Byte of a stream at the given position.
static inline uint8_t
PatByte(uint32_t stream, uint64_t pos)
{
	uint64_t x = (pos + 1) * 0x9E3779B97F4A7C15ull + stream * 0xC2B2AE3D27D4EB4Full;
	x ^= x >> 29;
	return (uint8_t)(x >> 7) ^ (uint8_t)x;
}

static inline void
PatFill(void* dst, uint32_t stream, uint64_t pos, uint64_t size)
{
	for (uint64_t i = 0; i < size; ++i)
		((uint8_t*)dst)[i] = PatByte(stream, pos + i);
}

// Index of the first wrong byte or size.
static inline uint64_t
PatCheck(const void* src, uint32_t stream, uint64_t pos, uint64_t size)
{
	for (uint64_t i = 0; i < size; ++i)
	{
		if (((const uint8_t*)src)[i] != PatByte(stream, pos + i))
			return i;
	}
	return size;
}

static inline void
RawNonBlock(int fd)
{
	fcntl(fd, F_SETFL, fcntl(fd, F_GETFL, 0) | O_NONBLOCK);
}

static inline int
RawListen(uint16_t& outPort, int backlog = 128)
{
	int fd = socket(AF_INET, SOCK_STREAM, 0);
	sockaddr_in a;
	memset(&a, 0, sizeof(a));
	a.sin_family = AF_INET;
	a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	a.sin_port = htons(outPort);
	if (bind(fd, (sockaddr*)&a, sizeof(a)) != 0 || listen(fd, backlog) != 0)
		pbt::Fail("harness", "can't listen");
	socklen_t len = sizeof(a);
	getsockname(fd, (sockaddr*)&a, &len);
	outPort = ntohs(a.sin_port);
	return fd;
}

// Blocking.
static inline int
RawConnect(uint16_t port)
{
	int fd = socket(AF_INET, SOCK_STREAM, 0);
	sockaddr_in a;
	memset(&a, 0, sizeof(a));
	a.sin_family = AF_INET;
	a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	a.sin_port = htons(port);
	if (connect(fd, (sockaddr*)&a, sizeof(a)) != 0)
	{
		int e = errno;
		close(fd);
		errno = e;
		return -1;
	}
	return fd;
}

static inline int
RawAccept(int fd, sockaddr_in* outAddr = nullptr)
{
	while (true)
	{
		sockaddr_in a;
		memset(&a, 0, sizeof(a));
		socklen_t len = sizeof(a);
		int rc = accept(fd, (sockaddr*)&a, &len);
		if (rc >= 0)
		{
			if (outAddr != nullptr)
				*outAddr = a;
			return rc;
		}
		if (errno == EINVAL || errno == EBADF || errno == EAGAIN)
			return -1;
	}
}
