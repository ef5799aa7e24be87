#include <ctime>
#include <sys/syscall.h>
#include <unistd.h>

namespace pbt {
	// A system call, not the C library function which can be virtualised.
	double RealNow()
	{
		timespec ts;
		syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
		return ts.tv_sec + ts.tv_nsec / 1e9;
	}
}
