// Stand-in for liburing, served by simnet.
#pragma once

#include <cstdint>
#include <cstring>
#include <sys/socket.h>
#include <liburing/io_uring.h>

struct io_uring
{
	int ring_fd;
	unsigned features;
};

extern "C" {
int io_uring_queue_init_params(unsigned entries, io_uring* ring, io_uring_params* p);
void io_uring_queue_exit(io_uring* ring);
int io_uring_register_eventfd(io_uring* ring, int fd);
int io_uring_unregister_eventfd(io_uring* ring);
unsigned io_uring_peek_batch_cqe(io_uring* ring, io_uring_cqe** cqes, unsigned count);
void io_uring_cq_advance(io_uring* ring, unsigned nr);
io_uring_sqe* io_uring_get_sqe(io_uring* ring);
int io_uring_submit(io_uring* ring);
}

static inline void io_uring_prep_rw(int op, io_uring_sqe* sqe, int fd, const void* addr,
	unsigned len, uint64_t offset)
{
	memset(sqe, 0, sizeof(*sqe));
	sqe->opcode = (uint8_t)op;
	sqe->fd = fd;
	sqe->off = offset;
	sqe->addr = (unsigned long)addr;
	sqe->len = len;
}

static inline void io_uring_prep_recvmsg(io_uring_sqe* sqe, int fd, msghdr* msg, unsigned flags)
{
	io_uring_prep_rw(IORING_OP_RECVMSG, sqe, fd, msg, 1, 0);
	sqe->msg_flags = flags;
}

static inline void io_uring_prep_sendmsg(io_uring_sqe* sqe, int fd, const msghdr* msg, unsigned flags)
{
	io_uring_prep_rw(IORING_OP_SENDMSG, sqe, fd, msg, 1, 0);
	sqe->msg_flags = flags;
}

static inline void io_uring_prep_accept(io_uring_sqe* sqe, int fd, sockaddr* addr, socklen_t* len,
	int flags)
{
	io_uring_prep_rw(IORING_OP_ACCEPT, sqe, fd, addr, 0, (uint64_t)(unsigned long)len);
	sqe->accept_flags = (uint32_t)flags;
}

static inline void io_uring_prep_connect(io_uring_sqe* sqe, int fd, const sockaddr* addr, socklen_t len)
{
	io_uring_prep_rw(IORING_OP_CONNECT, sqe, fd, addr, 0, len);
}

static inline void io_uring_prep_read(io_uring_sqe* sqe, int fd, void* buf, unsigned n, uint64_t off)
{
	io_uring_prep_rw(IORING_OP_READ, sqe, fd, buf, n, off);
}

static inline void io_uring_prep_cancel_fd(io_uring_sqe* sqe, int fd, unsigned flags)
{
	io_uring_prep_rw(IORING_OP_ASYNC_CANCEL, sqe, fd, nullptr, 0, 0);
	sqe->cancel_flags = flags | (1U << 1);
}

static inline void io_uring_prep_nop(io_uring_sqe* sqe) { io_uring_prep_rw(IORING_OP_NOP, sqe, -1, nullptr, 0, 0); }

static inline void io_uring_sqe_set_data(io_uring_sqe* sqe, void* data) { sqe->user_data = (unsigned long)data; }
static inline void* io_uring_cqe_get_data(const io_uring_cqe* cqe) { return (void*)(uintptr_t)cqe->user_data; }
