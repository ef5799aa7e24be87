From eb357958d6b9eb18fe34d18af44f6aed5d384c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:37 +0000
Subject: [PATCH 01/40] fix: make the mutex owner atomic as it is read without
 the lock

---
 src/mg/box/ConditionVariable.cpp | 16 ++++++++--------
 src/mg/box/Mutex.cpp             |  8 ++++----
 src/mg/box/Mutex.h               |  5 +++--
 3 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/mg/box/ConditionVariable.cpp b/src/mg/box/ConditionVariable.cpp
index 7f20b11..13dee96 100644
--- a/src/mg/box/ConditionVariable.cpp
+++ b/src/mg/box/ConditionVariable.cpp
@@ -11,15 +11,15 @@ namespace box {
 	{
 		MG_BOX_ASSERT(aMutex.IsOwnedByThisThread());
 		MG_BOX_ASSERT(aMutex.myCount == 1);
-		uint32_t tid = aMutex.myOwner;
-		aMutex.myOwner = 0;
+		uint32_t tid = aMutex.myOwner.LoadRelaxed();
+		aMutex.myOwner.StoreRelaxed(0);
 		aMutex.myCount = 0;
 
 		myHandle.wait(aMutex.myHandle);
 
-		MG_BOX_ASSERT(aMutex.myOwner == 0);
+		MG_BOX_ASSERT(aMutex.myOwner.LoadRelaxed() == 0);
 		MG_BOX_ASSERT(aMutex.myCount == 0);
-		aMutex.myOwner = tid;
+		aMutex.myOwner.StoreRelaxed(tid);
 		aMutex.myCount = 1;
 	}
 
@@ -30,17 +30,17 @@ namespace box {
 	{
 		MG_BOX_ASSERT(aMutex.IsOwnedByThisThread());
 		MG_BOX_ASSERT(aMutex.myCount == 1);
-		uint32_t tid = aMutex.myOwner;
-		aMutex.myOwner = 0;
+		uint32_t tid = aMutex.myOwner.LoadRelaxed();
+		aMutex.myOwner.StoreRelaxed(0);
 		aMutex.myCount = 0;
 
 		uint64_t timeout = aTimeLimit.ToDurationFromNow().myValue;
 		bool ok = myHandle.wait_for(aMutex.myHandle,
 			std::chrono::milliseconds(timeout)) != std::cv_status::timeout;
 
-		MG_BOX_ASSERT(aMutex.myOwner == 0);
+		MG_BOX_ASSERT(aMutex.myOwner.LoadRelaxed() == 0);
 		MG_BOX_ASSERT(aMutex.myCount == 0);
-		aMutex.myOwner = tid;
+		aMutex.myOwner.StoreRelaxed(tid);
 		aMutex.myCount = 1;
 
 		return ok;
diff --git a/src/mg/box/Mutex.cpp b/src/mg/box/Mutex.cpp
index 31ca8e7..75b073f 100644
--- a/src/mg/box/Mutex.cpp
+++ b/src/mg/box/Mutex.cpp
@@ -25,7 +25,7 @@ namespace box {
 		if (TryLock())
 			return;
 		myHandle.lock();
-		myOwner = GetCurrentThreadId();
+		myOwner.StoreRelaxed(GetCurrentThreadId());
 		MG_DEV_ASSERT(myCount == 0);
 		myCount = 1;
 	}
@@ -44,7 +44,7 @@ namespace box {
 			theMutexStartContentCount.IncrementRelaxed();
 			return false;
 		}
-		myOwner = GetCurrentThreadId();
+		myOwner.StoreRelaxed(GetCurrentThreadId());
 		MG_DEV_ASSERT(myCount == 0);
 		myCount = 1;
 		return true;
@@ -56,7 +56,7 @@ namespace box {
 		MG_BOX_ASSERT(IsOwnedByThisThread());
 		if (myCount == 1)
 		{
-			myOwner = 0;
+			myOwner.StoreRelaxed(0);
 			myCount = 0;
 			myHandle.unlock();
 			return;
@@ -68,7 +68,7 @@ namespace box {
 	bool
 	Mutex::IsOwnedByThisThread() const
 	{
-		return myOwner == GetCurrentThreadId();
+		return myOwner.LoadRelaxed() == GetCurrentThreadId();
 	}
 
 }
diff --git a/src/mg/box/Mutex.h b/src/mg/box/Mutex.h
index 570c4ea..90928a3 100644
--- a/src/mg/box/Mutex.h
+++ b/src/mg/box/Mutex.h
@@ -21,7 +21,7 @@ namespace box {
 	{
 	public:
 		Mutex() : myOwner(0), myCount(0) {}
-		~Mutex() { MG_BOX_ASSERT(myOwner == 0 && myCount == 0); }
+		~Mutex() { MG_BOX_ASSERT(myOwner.LoadRelaxed() == 0 && myCount == 0); }
 
 		void Lock();
 		bool TryLock();
@@ -33,7 +33,8 @@ namespace box {
 			const Mutex&) = delete;
 
 		std::mutex myHandle;
-		uint32_t myOwner;
+		// Is read without the lock to tell if the mutex is owned by this thread.
+		mg::box::AtomicU32 myOwner;
 		uint32_t myCount;
 
 		friend class ConditionVariable;
-- 
2.43.0


From e204d334f2d60488a9bf3f423b96c48cebeeba3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:48 +0000
Subject: [PATCH 02/40] fix: shared pointer leaked the object when
 move-assigned to a pointer to the same object

---
 src/mg/box/SharedPtr.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mg/box/SharedPtr.h b/src/mg/box/SharedPtr.h
index 6bae606..9f8d446 100644
--- a/src/mg/box/SharedPtr.h
+++ b/src/mg/box/SharedPtr.h
@@ -229,12 +229,13 @@ protected:																					\
 		// being deleted. This in turn will delete obj2, which was kept alive only by
 		// obj1. The new pointer becomes garbage. Need to steal the pointer first. So obj1
 		// is deleted, but its 'myNext' is already null.
-		T* oldObj = myObject;
 		T* newObj = aOther.myObject;
 		aOther.myObject = nullptr;
+		// Is taken after the other pointer is emptied, so a self-move is a nop. But when
+		// both pointers own the same object, one of the references must go.
+		T* oldObj = myObject;
 		myObject = newObj;
-		if (newObj != oldObj)
-			PrivUnref(oldObj);
+		PrivUnref(oldObj);
 		return *this;
 	}
 
@@ -245,12 +246,11 @@ protected:																					\
 		SharedPtrIntrusive<ChildT>&& aOther)
 	{
 		// Same as for the other move-assign.
-		T* oldObj = myObject;
 		T* newObj = aOther.myObject;
 		aOther.myObject = nullptr;
+		T* oldObj = myObject;
 		myObject = newObj;
-		if (newObj != oldObj)
-			PrivUnref(oldObj);
+		PrivUnref(oldObj);
 		return *this;
 	}
 
-- 
2.43.0


From 16bdc3ab46cbfbdb05598d9d2ed9841f68b4ed0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:28 +0000
Subject: [PATCH 03/40] fix: reference counter did not order the accesses to
 the object before its destruction

---
 src/mg/box/RefCount.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mg/box/RefCount.h b/src/mg/box/RefCount.h
index 7728bc9..46bc910 100644
--- a/src/mg/box/RefCount.h
+++ b/src/mg/box/RefCount.h
@@ -57,7 +57,9 @@ namespace box {
 	inline bool
 	RefCount::Dec()
 	{
-		int32_t newValue = myCount.DecrementFetchRelaxed();
+		// The last reference owner is going to destroy the object and must see all what was
+		// done to it by the other owners before they have left.
+		int32_t newValue = myCount.DecrementFetchAcqRel();
 		MG_DEV_ASSERT(newValue >= 0);
 		return newValue == 0;
 	}
-- 
2.43.0


From 1536506f2e477bfbb65ccda44ac39dedd2689aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:28 +0000
Subject: [PATCH 04/40] fix: timed wait on a condition variable returned at
 once for huge and infinite timeouts

---
 src/mg/box/ConditionVariable.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mg/box/ConditionVariable.cpp b/src/mg/box/ConditionVariable.cpp
index 13dee96..29c803d 100644
--- a/src/mg/box/ConditionVariable.cpp
+++ b/src/mg/box/ConditionVariable.cpp
@@ -5,6 +5,9 @@
 namespace mg {
 namespace box {
 
+	// 100 years. Anything longer is the same as infinite.
+	static constexpr uint64_t theConditionTimeoutMax = 100ULL * 365 * 24 * 3600 * 1000;
+
 	void
 	ConditionVariable::Wait(
 		Mutex& aMutex)
@@ -35,8 +38,14 @@ namespace box {
 		aMutex.myCount = 0;
 
 		uint64_t timeout = aTimeLimit.ToDurationFromNow().myValue;
-		bool ok = myHandle.wait_for(aMutex.myHandle,
-			std::chrono::milliseconds(timeout)) != std::cv_status::timeout;
+		bool ok = true;
+		// The standard library would overflow on adding a huge timeout to the current
+		// time. And on Unix it stores nanoseconds in a signed 64-bit integer.
+		if (timeout >= theConditionTimeoutMax)
+			myHandle.wait(aMutex.myHandle);
+		else
+			ok = myHandle.wait_for(aMutex.myHandle,
+				std::chrono::milliseconds(timeout)) != std::cv_status::timeout;
 
 		MG_BOX_ASSERT(aMutex.myOwner.LoadRelaxed() == 0);
 		MG_BOX_ASSERT(aMutex.myCount == 0);
-- 
2.43.0


From 8e618557eeb347ff04144671818846a385bfe5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:44 +0000
Subject: [PATCH 05/40] fix: scheduler with the minimal batch size never
 processed any task

---
 src/mg/sch/TaskScheduler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/sch/TaskScheduler.cpp b/src/mg/sch/TaskScheduler.cpp
index e19518d..c4c9ee7 100644
--- a/src/mg/sch/TaskScheduler.cpp
+++ b/src/mg/sch/TaskScheduler.cpp
@@ -169,7 +169,7 @@ namespace sch {
 		// the front queue, so must be handled first.
 
 		batch = 0;
-		while (myQueueWaiting.Count() > 0 && ++batch < maxBatch)
+		while (myQueueWaiting.Count() > 0 && batch++ < maxBatch)
 		{
 			t = myQueueWaiting.GetTop();
 			if (t->myDeadline > timestamp)
@@ -214,7 +214,7 @@ namespace sch {
 		t = myQueueFront.PopAll(tail);
 		myQueuePending.Append(t, tail);
 		batch = 0;
-		while (!myQueuePending.IsEmpty() && ++batch < maxBatch)
+		while (!myQueuePending.IsEmpty() && batch++ < maxBatch)
 		{
 			t = myQueuePending.PopFirst();
 			t->myNext = nullptr;
-- 
2.43.0


From fb01bc68dff17fb00cee679cca55b54a2f21d4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:56 +0000
Subject: [PATCH 06/40] fix: task wakeup and signal accessed the task without a
 sync with the scheduler

---
 src/mg/sch/Task.cpp          | 11 +++++++----
 src/mg/sch/TaskScheduler.cpp |  6 ++++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/mg/sch/Task.cpp b/src/mg/sch/Task.cpp
index 6ba6e9c..41ddc5a 100755
--- a/src/mg/sch/Task.cpp
+++ b/src/mg/sch/Task.cpp
@@ -108,9 +108,10 @@ namespace sch {
 			// override the signal, because it is stronger than a wakeup.
 			if (old == TASK_STATUS_SIGNALED || old == TASK_STATUS_READY)
 				return;
-			// Relaxed is fine. The memory sync will happen via the scheduler queues if
-			// the wakeup succeeds.
-		} while (!myStatus.CmpExchgWeakRelaxed(old, TASK_STATUS_READY));
+			// Acquire to sync with the scheduler having put the task into the waiting
+			// state. The task's members are accessed below then. The rest of the memory
+			// sync will happen via the scheduler queues if the wakeup succeeds.
+		} while (!myStatus.CmpExchgWeakAcquire(old, TASK_STATUS_READY));
 
 		// If the task was in the waiting queue. Need to re-push it to let the scheduler
 		// know the task must be removed from the queue earlier.
@@ -124,7 +125,9 @@ namespace sch {
 		// Release-barrier to sync with the acquire-barrier on the signal receipt. Can't
 		// be relaxed, because the task might send and receive the signal without the
 		// scheduler's participation and can't count on synchronizing any memory via it.
-		TaskStatus old = myStatus.ExchangeRelease(TASK_STATUS_SIGNALED);
+		// Acquire-barrier to sync with the scheduler having put the task into the waiting
+		// state. The task's members are accessed below then.
+		TaskStatus old = myStatus.ExchangeAcqRel(TASK_STATUS_SIGNALED);
 		// WAITING - the task was in the waiting queue. Need to re-push it to let the
 		// scheduler know the task must be removed from the queue earlier.
 		if (old == TASK_STATUS_WAITING)
diff --git a/src/mg/sch/TaskScheduler.cpp b/src/mg/sch/TaskScheduler.cpp
index c4c9ee7..09164d0 100644
--- a/src/mg/sch/TaskScheduler.cpp
+++ b/src/mg/sch/TaskScheduler.cpp
@@ -150,7 +150,7 @@ namespace sch {
 	{
 		if (!PrivSchedulerTryLock())
 			return false;
-		// Task status operations can all be relaxed inside the
+		// Task status operations can almost all be relaxed inside the
 		// scheduler. Syncing writes and reads between producers and
 		// workers anyway happens via acquire-release of the front
 		// queue - all tasks go through it.
@@ -222,7 +222,9 @@ namespace sch {
 			{
 				t->myIsExpired = false;
 				old = TASK_STATUS_PENDING;
-				if (t->myStatus.CmpExchgStrongRelaxed(old, TASK_STATUS_WAITING))
+				// Release, because a waker thread seeing the task in WAITING state accesses
+				// its members (to push the task to the front queue).
+				if (t->myStatus.CmpExchgStrongRelease(old, TASK_STATUS_WAITING))
 				{
 					// The task is not added to the heap in case
 					// it is put to sleep until explicit wakeup or
-- 
2.43.0


From 4959471846b597d19d0e5f3d05369d262e440560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:37 +0000
Subject: [PATCH 07/40] fix: scheduler could look empty while a worker was
 starting to execute the last ready task

---
 src/mg/box/MultiConsumerQueueBase.cpp |  4 +++-
 src/mg/box/MultiConsumerQueueBase.h   |  2 +-
 src/mg/sch/TaskScheduler.cpp          | 30 +++++++++++++++------------
 3 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/mg/box/MultiConsumerQueueBase.cpp b/src/mg/box/MultiConsumerQueueBase.cpp
index 1bcfd81..9e725c0 100644
--- a/src/mg/box/MultiConsumerQueueBase.cpp
+++ b/src/mg/box/MultiConsumerQueueBase.cpp
@@ -374,8 +374,10 @@ namespace box {
 
 			mySubQueue = cur;
 		}
+		// Release so as seeing the decreased count would mean seeing everything what the
+		// consumer did before the pop.
 		if (res != nullptr)
-			myQueue->myCount.DecrementRelaxed();
+			myQueue->myCount.DecrementRelease();
 		return res;
 	}
 
diff --git a/src/mg/box/MultiConsumerQueueBase.h b/src/mg/box/MultiConsumerQueueBase.h
index 9779d1e..c4d592d 100644
--- a/src/mg/box/MultiConsumerQueueBase.h
+++ b/src/mg/box/MultiConsumerQueueBase.h
@@ -165,7 +165,7 @@ namespace box {
 	inline uint32_t
 	MCQBaseQueue::Count()
 	{
-		return myCount.LoadRelaxed();
+		return myCount.LoadAcquire();
 	}
 
 }
diff --git a/src/mg/sch/TaskScheduler.cpp b/src/mg/sch/TaskScheduler.cpp
index 09164d0..350d9e7 100644
--- a/src/mg/sch/TaskScheduler.cpp
+++ b/src/mg/sch/TaskScheduler.cpp
@@ -49,23 +49,27 @@ namespace sch {
 	TaskScheduler::IsEmpty()
 	{
 		PrivSchedulerLock();
+		// The order of the checks is important. With the scheduler-role taken the waiting,
+		// pending, and ready queues can't get new tasks. But the workers still can take the
+		// already ready ones. So if nothing is ready, then those taken before are visible in
+		// the worker states.
+		bool isEmpty =
+			myQueueWaiting.Count() == 0 &&
+			myQueuePending.IsEmpty() &&
+			myQueueReady.Count() == 0;
 		for (TaskSchedulerThread* worker : myThreads)
 		{
+			if (!isEmpty)
+				break;
 			// It is important to check the worker states. Even if all the queues are
 			// empty, it doesn't mean there are no tasks and won't be new ones. Because
 			// the currently running tasks might produce new tasks, and then the scheduler
 			// isn't empty.
-			if (worker->GetState() != TASK_SCHEDULER_WORKER_STATE_IDLE)
-			{
-				PrivSchedulerUnlock();
-				return false;
-			}
+			isEmpty = worker->GetState() == TASK_SCHEDULER_WORKER_STATE_IDLE;
 		}
-		bool isEmpty =
-			myQueueFront.IsEmpty() &&
-			myQueueWaiting.Count() == 0 &&
-			myQueuePending.IsEmpty() &&
-			myQueueReady.Count() == 0;
+		// The front queue goes last, because it can be populated by the tasks being
+		// executed. When all the workers are idle, all such new tasks are visible.
+		isEmpty = isEmpty && myQueueFront.IsEmpty();
 		PrivSchedulerUnlock();
 		return isEmpty;
 	}
@@ -390,7 +394,7 @@ namespace sch {
 	inline TaskSchedulerWorkerState
 	TaskSchedulerThread::GetState() const
 	{
-		return myState.LoadRelaxed();
+		return myState.LoadAcquire();
 	}
 
 	void
@@ -411,10 +415,10 @@ namespace sch {
 				myExecuteCount.AddRelaxed(batch);
 			} while (batch == maxBatch);
 			MG_DEV_ASSERT(batch < maxBatch);
-			myState.StoreRelaxed(TASK_SCHEDULER_WORKER_STATE_IDLE);
+			myState.StoreRelease(TASK_SCHEDULER_WORKER_STATE_IDLE);
 			myScheduler->PrivWaitReady();
 		}
-		myState.StoreRelaxed(TASK_SCHEDULER_WORKER_STATE_IDLE);
+		myState.StoreRelease(TASK_SCHEDULER_WORKER_STATE_IDLE);
 		myScheduler->PrivSignalReady();
 		MG_BOX_ASSERT(TaskScheduler::ourCurrent == myScheduler);
 		TaskScheduler::ourCurrent = nullptr;
-- 
2.43.0


From eb1e16aaf9c62b068563c207ae1d397a1d02c854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:26 +0000
Subject: [PATCH 08/40] fix: stack usage of a coroutine grew with each finished
 nested coroutine

---
 src/mg/box/Coro.cpp | 20 ++++++++++++++------
 src/mg/box/Coro.h   |  7 +++++--
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/mg/box/Coro.cpp b/src/mg/box/Coro.cpp
index b2ab6a2..45e5b58 100644
--- a/src/mg/box/Coro.cpp
+++ b/src/mg/box/Coro.cpp
@@ -59,20 +59,20 @@ namespace box {
 
 	//////////////////////////////////////////////////////////////////////////////////////
 
-	void
+	std::coroutine_handle<>
 	CoroOpFinal::await_suspend(
 		CoroHandle aThisCoro) noexcept
 	{
 		CoroPromise& thisPromise = aThisCoro.promise();
 		CoroHandle prev = thisPromise.myPrev;
 		if (!prev)
-			return;
+			return std::noop_coroutine();
 		thisPromise.myPrev = {};
 
-		CoroPromise& prevPromise = prev.promise();
-		prevPromise.myNext = {};
-		prevPromise.myFirst.promise().myLast = prev;
-		prev.resume();
+		// This coro is destroyed when the previous one gets resumed. Can't do it here,
+		// because the control is passed on from inside of this coro.
+		prev.promise().myFirst.promise().myLast = prev;
+		return prev;
 	}
 
 	//////////////////////////////////////////////////////////////////////////////////////
@@ -100,6 +100,7 @@ namespace box {
 		CoroHandle newHandle = myNewCoro.Handle();
 		CoroPromise& newPromise = newHandle.promise();
 		CoroPromise& thisPromise = aThisCoro.promise();
+		myThisCoro = aThisCoro;
 
 		newPromise.myPrev = aThisCoro;
 		thisPromise.myNext = std::move(myNewCoro);
@@ -110,6 +111,13 @@ namespace box {
 		return newHandle;
 	}
 
+	void
+	CoroOpCall::await_resume() noexcept
+	{
+		// The new coro is finished. Destroy it.
+		myThisCoro.promise().myNext = {};
+	}
+
 #endif
 
 }
diff --git a/src/mg/box/Coro.h b/src/mg/box/Coro.h
index d7664ff..ae87c3a 100644
--- a/src/mg/box/Coro.h
+++ b/src/mg/box/Coro.h
@@ -62,7 +62,9 @@ namespace box {
 		, public CoroOpIsNotReady
 		, public CoroOpIsEmptyReturn
 	{
-		void await_suspend(
+		// Returns the coroutine to continue with, so as the stack wouldn't grow with each
+		// finished coroutine.
+		std::coroutine_handle<> await_suspend(
 			CoroHandle aThisCoro) noexcept;
 	};
 
@@ -126,15 +128,16 @@ namespace box {
 	struct CoroOpCall
 		: public CoroOp
 		, public CoroOpIsNotReady
-		, public CoroOpIsEmptyReturn
 	{
 		CoroOpCall(
 			Coro&& aNewCoro);
 		CoroHandle await_suspend(
 			CoroHandle aThisCoro) noexcept;
+		void await_resume() noexcept;
 
 	private:
 		CoroRef myNewCoro;
+		CoroHandle myThisCoro;
 	};
 
 	// Call a new coroutine while being inside of another coroutine. When the new one
-- 
2.43.0


From 4863b4dc23f6a2d68390c5102ed5853e667274e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:42 +0000
Subject: [PATCH 09/40] fix: move of an empty forward list

The move constructor copied the pointer at the last link as is. For an
empty list it points at the first link of the source list, so the new
list was appending new elements into the source, even into a destroyed
one.
---
 src/mg/box/ForwardList.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mg/box/ForwardList.h b/src/mg/box/ForwardList.h
index 0331f99..7462d81 100644
--- a/src/mg/box/ForwardList.h
+++ b/src/mg/box/ForwardList.h
@@ -2,6 +2,8 @@
 
 #include "mg/box/TypeTraits.h"
 
+#include <utility>
+
 namespace mg {
 namespace box {
 
@@ -210,10 +212,9 @@ namespace box {
 	inline
 	ForwardList<T, myLink>::ForwardList(
 		ForwardList&& aList)
-		: myFirst(aList.myFirst)
-		, myLastLink(aList.myLastLink)
+		: ForwardList()
 	{
-		aList.Clear();
+		Append(std::move(aList));
 	}
 
 	template<typename T, T* T::*myLink>
-- 
2.43.0


From 84c331a85b02c8313a53802795ee228046cd0256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:42 +0000
Subject: [PATCH 10/40] fix: buffer stream copying into several reserved
 buffers

When a copied write filled the first writable buffer up, the stream
forgot about the other writable buffers reserved after it. The next data
was appended after them and their space was never accounted again.
---
 src/mg/net/Buffer.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mg/net/Buffer.cpp b/src/mg/net/Buffer.cpp
index 682760e..49a59bb 100755
--- a/src/mg/net/Buffer.cpp
+++ b/src/mg/net/Buffer.cpp
@@ -196,17 +196,22 @@ namespace net {
 			}
 			memcpy(myWPos->myWData + myWPos->myPos, aData, cap);
 			myWPos->myPos = myWPos->myCapacity;
+			myREnd = myWPos;
+			// There might be more buffers reserved. They must be used before adding new
+			// ones.
+			myWPos = myWPos->myNext.GetPointer();
+			myWSize -= cap;
 			if (cap == aSize)
 			{
-				myREnd = myWPos;
-				myWPos = nullptr;
-				myWSize = 0;
 				PrivCheck();
 				return;
 			}
 			aData = (const uint8_t*)aData + cap;
 			aSize -= cap;
+			if (myWPos != nullptr)
+				continue;
 			MG_DEV_ASSERT(myHead.IsSet());
+			MG_DEV_ASSERT(myWSize == 0);
 			MG_DEV_ASSERT(myTail->myPos == myTail->myCapacity);
 			myTail = (myTail->myNext = BufferCopy::NewShared()).GetPointer();
 			myWPos = myTail;
-- 
2.43.0


From 3797b25cb5abd08f55d1d3e43934c7566ca98c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:42 +0000
Subject: [PATCH 11/40] fix: skipping of an empty prefix breaks shared buffers

BufferLinkList::SkipEmptyPrefix() was moving the next pointer out of the
skipped buffer. When the buffer is also referenced by other lists, they
were losing the rest of their data.
---
 src/mg/net/Buffer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mg/net/Buffer.cpp b/src/mg/net/Buffer.cpp
index 49a59bb..2011d98 100755
--- a/src/mg/net/Buffer.cpp
+++ b/src/mg/net/Buffer.cpp
@@ -82,7 +82,9 @@ namespace net {
 					MG_DEV_ASSERT(aByteOffset == head->myPos);
 					aByteOffset = 0;
 				}
-				head = std::move(head->myNext);
+				// Do not alter the buffer members. The buffers can be shared by multiple
+				// links. Alteration here would break the other links.
+				head.Set(head->myNext.GetPointer());
 			}
 			link = link->myNext;
 			delete myLinks.PopFirst();
-- 
2.43.0


From 29fc0ddbde1840c3ecaf8d4855a44edf6b0fc393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:35 +0000
Subject: [PATCH 12/40] fix: propagation of a buffer stream by zero bytes

PropagateWritePos(0) was changing the last readable buffer to the first
writable one, which can be empty or missing. That was breaking the next
PopData() and WriteRef().
---
 src/mg/net/Buffer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mg/net/Buffer.cpp b/src/mg/net/Buffer.cpp
index 2011d98..91862b1 100755
--- a/src/mg/net/Buffer.cpp
+++ b/src/mg/net/Buffer.cpp
@@ -142,6 +142,8 @@ namespace net {
 		uint64_t aSize)
 	{
 		MG_DEV_ASSERT(myWSize >= aSize);
+		if (aSize == 0)
+			return;
 		myWPos = BuffersPropagateOnWrite(myWPos, aSize);
 		myWSize -= aSize;
 		myRSize += aSize;
-- 
2.43.0


From 82908b47c30965ed075d7af7f1381a306c6dd163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:44 +0000
Subject: [PATCH 13/40] fix: URL without a protocol was cut by an URL in its
 target

---
 src/mg/net/URL.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/net/URL.cpp b/src/mg/net/URL.cpp
index 2e01427..ebecee3 100644
--- a/src/mg/net/URL.cpp
+++ b/src/mg/net/URL.cpp
@@ -17,7 +17,8 @@ namespace net {
 		URL res;
 		std::string str(aStr);
 		size_t pos = str.find("://");
-		if (pos != std::string::npos)
+		// The target can have an URL inside. It is not a protocol delimiter then.
+		if (pos != std::string::npos && str.find('/') == pos + 1)
 		{
 			res.myProtocol = str.substr(0, pos);
 			str = str.substr(pos + 3);
-- 
2.43.0


From 826512e66ddf14f1cffa84bd616a78989a31452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:44 +0000
Subject: [PATCH 14/40] fix: URL with an IPv6 host in brackets was cut in the
 middle of the address

---
 src/mg/net/URL.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mg/net/URL.cpp b/src/mg/net/URL.cpp
index ebecee3..e626065 100644
--- a/src/mg/net/URL.cpp
+++ b/src/mg/net/URL.cpp
@@ -29,7 +29,15 @@ namespace net {
 			res.myTarget = str.substr(pos);
 			str = str.substr(0, pos);
 		}
-		pos = str.find(':');
+		// IPv6 in brackets has own colons.
+		pos = 0;
+		if (!str.empty() && str[0] == '[')
+		{
+			pos = str.find(']');
+			if (pos == std::string::npos)
+				pos = 0;
+		}
+		pos = str.find(':', pos);
 		if (pos != std::string::npos)
 		{
 			std::string portStr = str.substr(pos + 1);
-- 
2.43.0


From 09c67c50471726b747c8461dd37046b91af6286c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:44 +0000
Subject: [PATCH 15/40] fix: recursive initialization of the SSL error codes

---
 src/mg/net/SSLOpenSSL.cpp | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/mg/net/SSLOpenSSL.cpp b/src/mg/net/SSLOpenSSL.cpp
index c7c0b11..e4b2921 100644
--- a/src/mg/net/SSLOpenSSL.cpp
+++ b/src/mg/net/SSLOpenSSL.cpp
@@ -207,21 +207,22 @@ namespace {
 		// for errors raised from serverbox.
 		int id = ERR_get_next_error_library();
 		// This actually seems necessary. Default error strings even for built-in errors
-		// report nothing. For instance, SSL_ERROR_SYSCALL is by default 'DH lib'.
+		// report nothing. For instance, SSL_ERROR_SYSCALL is by default 'DH lib'. The codes
+		// are packed manually because the helper function needs this ID to be ready.
 		static ERR_STRING_DATA errorReasons[] =
 		{
-			{OpenSSLPackError(SSL_ERROR_NONE), "ssl_error_none"},
-			{OpenSSLPackError(SSL_ERROR_SSL), "ssl_error_ssl"},
-			{OpenSSLPackError(SSL_ERROR_WANT_READ), "ssl_error_want_read"},
-			{OpenSSLPackError(SSL_ERROR_WANT_WRITE), "ssl_error_want_write"},
-			{OpenSSLPackError(SSL_ERROR_WANT_X509_LOOKUP), "ssl_error_want_x509_lookup"},
-			{OpenSSLPackError(SSL_ERROR_SYSCALL), "ssl_error_syscall"},
-			{OpenSSLPackError(SSL_ERROR_ZERO_RETURN), "ssl_error_zero_return"},
-			{OpenSSLPackError(SSL_ERROR_WANT_CONNECT), "ssl_error_want_connect"},
-			{OpenSSLPackError(SSL_ERROR_WANT_ACCEPT), "ssl_error_want_accept"},
-			{OpenSSLPackError(SSL_ERROR_WANT_ASYNC), "ssl_error_want_async"},
-			{OpenSSLPackError(SSL_ERROR_WANT_ASYNC_JOB), "ssl_error_want_async_job"},
-			{OpenSSLPackError(SSL_ERROR_WANT_CLIENT_HELLO_CB), "ssl_error_want_client_hello_cb"},
+			{ERR_PACK(id, 0, SSL_ERROR_NONE), "ssl_error_none"},
+			{ERR_PACK(id, 0, SSL_ERROR_SSL), "ssl_error_ssl"},
+			{ERR_PACK(id, 0, SSL_ERROR_WANT_READ), "ssl_error_want_read"},
+			{ERR_PACK(id, 0, SSL_ERROR_WANT_WRITE), "ssl_error_want_write"},
+			{ERR_PACK(id, 0, SSL_ERROR_WANT_X509_LOOKUP), "ssl_error_want_x509_lookup"},
+			{ERR_PACK(id, 0, SSL_ERROR_SYSCALL), "ssl_error_syscall"},
+			{ERR_PACK(id, 0, SSL_ERROR_ZERO_RETURN), "ssl_error_zero_return"},
+			{ERR_PACK(id, 0, SSL_ERROR_WANT_CONNECT), "ssl_error_want_connect"},
+			{ERR_PACK(id, 0, SSL_ERROR_WANT_ACCEPT), "ssl_error_want_accept"},
+			{ERR_PACK(id, 0, SSL_ERROR_WANT_ASYNC), "ssl_error_want_async"},
+			{ERR_PACK(id, 0, SSL_ERROR_WANT_ASYNC_JOB), "ssl_error_want_async_job"},
+			{ERR_PACK(id, 0, SSL_ERROR_WANT_CLIENT_HELLO_CB), "ssl_error_want_client_hello_cb"},
 			{0, nullptr}
 		};
 		if (ERR_reason_error_string(errorReasons[0].error) == nullptr)
-- 
2.43.0


From b6244fad25181de089b533cf74774db9cf8f3dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:09 +0000
Subject: [PATCH 16/40] fix: TLS error without a known text crashed on raising

---
 src/mg/net/SSLOpenSSL.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mg/net/SSLOpenSSL.cpp b/src/mg/net/SSLOpenSSL.cpp
index e4b2921..63625fe 100644
--- a/src/mg/net/SSLOpenSSL.cpp
+++ b/src/mg/net/SSLOpenSSL.cpp
@@ -103,7 +103,9 @@ namespace {
 	OpenSSLErrorToString(
 		uint32_t aCode)
 	{
-		return ERR_reason_error_string(aCode);
+		const char* res = ERR_reason_error_string(aCode);
+		// There is no text for unknown and system codes.
+		return res != nullptr ? res : "unknown ssl error";
 	}
 
 	const char*
-- 
2.43.0


From 9c4265f7f7ed87221c07846aeaa3520eb61d8615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:34 +0000
Subject: [PATCH 17/40] fix: default trust of an SSL context was declared but
 not applied

---
 src/mg/net/SSLContextOpenSSL.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mg/net/SSLContextOpenSSL.cpp b/src/mg/net/SSLContextOpenSSL.cpp
index f480bad..320c485 100644
--- a/src/mg/net/SSLContextOpenSSL.cpp
+++ b/src/mg/net/SSLContextOpenSSL.cpp
@@ -107,6 +107,8 @@ namespace net {
 		// lives until all SSLs are deleted. It allows to use object's members in various
 		// callbacks which are activated by SSLs.
 		SSL_CTX_set_ex_data(myConfig, OpenSSLGetContextIndex(), this);
+		// The default trust of OpenSSL itself is to not verify anything.
+		SetTrust(SSL_TRUST_DEFAULT);
 	}
 
 	SSLContextOpenSSL::~SSLContextOpenSSL()
-- 
2.43.0


From 348e76cc24b319d6f7d543cdc31cf422cda0a274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:48 +0000
Subject: [PATCH 18/40] fix: data written during a TLS handshake was lost by a
 shutdown right after it

---
 src/mg/net/SSLStreamOpenSSL.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mg/net/SSLStreamOpenSSL.cpp b/src/mg/net/SSLStreamOpenSSL.cpp
index 84e6b21..2efe14b 100644
--- a/src/mg/net/SSLStreamOpenSSL.cpp
+++ b/src/mg/net/SSLStreamOpenSSL.cpp
@@ -65,6 +65,10 @@ namespace net {
 			PrivSetState(SSL_STREAM_OPENSSL_STATE_CLOSED);
 			return;
 		}
+		// The data written during the handshake might be not encrypted yet. It must not
+		// be lost. An attempt to send it can reveal that the stream is closed already.
+		if (myState == SSL_STREAM_OPENSSL_STATE_CONNECTED && !PrivFlushAppInput())
+			return;
 		if (myState == SSL_STREAM_OPENSSL_STATE_CLOSING)
 			return;
 		MG_BOX_ASSERT(
-- 
2.43.0


From 3cf7f6731ac73f89838bde4a819a983a2e59f6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:05 +0000
Subject: [PATCH 19/40] fix: TLS shutdown could fail with an error of another
 stream

---
 src/mg/net/SSLStreamOpenSSL.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mg/net/SSLStreamOpenSSL.cpp b/src/mg/net/SSLStreamOpenSSL.cpp
index 2efe14b..c79cc4e 100644
--- a/src/mg/net/SSLStreamOpenSSL.cpp
+++ b/src/mg/net/SSLStreamOpenSSL.cpp
@@ -74,6 +74,7 @@ namespace net {
 		MG_BOX_ASSERT(
 			myState == SSL_STREAM_OPENSSL_STATE_CONNECTING ||
 			myState == SSL_STREAM_OPENSSL_STATE_CONNECTED);
+		OpenSSLPrepareToCall();
 		int rc = SSL_shutdown(mySSL);
 		if (rc == 0)
 		{
@@ -204,6 +205,7 @@ namespace net {
 		if (myState == SSL_STREAM_OPENSSL_STATE_CLOSING)
 		{
 			MG_BOX_ASSERT(myAppInput.IsEmpty());
+			OpenSSLPrepareToCall();
 			int rc = SSL_shutdown(mySSL);
 			if (rc == 1)
 				PrivSetState(SSL_STREAM_OPENSSL_STATE_CLOSED);
-- 
2.43.0


From e72d2faf9f9c6993fdc41432fe03f6e0eaa76084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:29 +0000
Subject: [PATCH 20/40] fix: io task wakeup and close accessed the task without
 a sync with the scheduler

---
 src/mg/aio/IOCore_IOCP.cpp    |  5 ++++-
 src/mg/aio/IOCore_epoll.cpp   |  5 ++++-
 src/mg/aio/IOCore_iouring.cpp |  5 ++++-
 src/mg/aio/IOCore_kqueue.cpp  |  5 ++++-
 src/mg/aio/IOTask.cpp         | 12 +++++++-----
 5 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/mg/aio/IOCore_IOCP.cpp b/src/mg/aio/IOCore_IOCP.cpp
index b56a7e2..700315e 100644
--- a/src/mg/aio/IOCore_IOCP.cpp
+++ b/src/mg/aio/IOCore_IOCP.cpp
@@ -187,7 +187,10 @@ namespace aio {
 				// was woken up while was in the front queue. So its status not
 				// necessarily is PENDING.
 				oldState = IOTASK_STATUS_PENDING;
-				if (task->myStatus.CmpExchgStrongRelaxed(oldState, IOTASK_STATUS_WAITING))
+				//
+				// Release, because a thread seeing the task in WAITING state can access
+				// its members to push the task to the front queue.
+				if (task->myStatus.CmpExchgStrongRelease(oldState, IOTASK_STATUS_WAITING))
 				{
 					// The task entered WAITING state successfully. It means it doesn't
 					// have anything to do and should not be added to the ready queue. In
diff --git a/src/mg/aio/IOCore_epoll.cpp b/src/mg/aio/IOCore_epoll.cpp
index 9837e67..f7758e7 100644
--- a/src/mg/aio/IOCore_epoll.cpp
+++ b/src/mg/aio/IOCore_epoll.cpp
@@ -190,7 +190,10 @@ namespace aio {
 				// was woken up while was in the front queue. So its status not
 				// necessarily is PENDING.
 				oldState = IOTASK_STATUS_PENDING;
-				if (t->myStatus.CmpExchgStrongRelaxed(oldState, IOTASK_STATUS_WAITING))
+				//
+				// Release, because a thread seeing the task in WAITING state can access
+				// its members to push the task to the front queue.
+				if (t->myStatus.CmpExchgStrongRelease(oldState, IOTASK_STATUS_WAITING))
 				{
 					// The task entered WAITING state successfully. It means it doesn't
 					// have anything to do and should not be added to the ready queue. In
diff --git a/src/mg/aio/IOCore_iouring.cpp b/src/mg/aio/IOCore_iouring.cpp
index 2103a4f..24e1037 100644
--- a/src/mg/aio/IOCore_iouring.cpp
+++ b/src/mg/aio/IOCore_iouring.cpp
@@ -257,7 +257,10 @@ namespace aio {
 				// was woken up while was in the front queue. So its status not
 				// necessarily is PENDING.
 				oldState = IOTASK_STATUS_PENDING;
-				if (task->myStatus.CmpExchgStrongRelaxed(oldState, IOTASK_STATUS_WAITING))
+				//
+				// Release, because a thread seeing the task in WAITING state can access
+				// its members to push the task to the front queue.
+				if (task->myStatus.CmpExchgStrongRelease(oldState, IOTASK_STATUS_WAITING))
 				{
 					// The task entered WAITING state successfully. It means it doesn't
 					// have anything to do and should not be added to the ready queue. In
diff --git a/src/mg/aio/IOCore_kqueue.cpp b/src/mg/aio/IOCore_kqueue.cpp
index da7cdd7..2a4ea86 100644
--- a/src/mg/aio/IOCore_kqueue.cpp
+++ b/src/mg/aio/IOCore_kqueue.cpp
@@ -200,7 +200,10 @@ namespace aio {
 				// was woken up while was in the front queue. So its status not
 				// necessarily is PENDING.
 				oldState = IOTASK_STATUS_PENDING;
-				if (t->myStatus.CmpExchgStrongRelaxed(oldState, IOTASK_STATUS_WAITING))
+				//
+				// Release, because a thread seeing the task in WAITING state can access
+				// its members to push the task to the front queue.
+				if (t->myStatus.CmpExchgStrongRelease(oldState, IOTASK_STATUS_WAITING))
 				{
 					// The task entered WAITING state successfully. It means it doesn't
 					// have anything to do and should not be added to the ready queue. In
diff --git a/src/mg/aio/IOTask.cpp b/src/mg/aio/IOTask.cpp
index c9d13c6..d803358 100755
--- a/src/mg/aio/IOTask.cpp
+++ b/src/mg/aio/IOTask.cpp
@@ -103,8 +103,9 @@ namespace aio {
 		// this function ends.
 		//
 		// Use 'release' to give the other threads a way to sync the writes done before
-		// closing, such as the close-guard setting.
-		IOTaskStatus oldStatus = myStatus.ExchangeRelease(IOTASK_STATUS_CLOSING);
+		// closing, such as the close-guard setting. And 'acquire' to sync with the
+		// scheduler having put the task into the waiting state.
+		IOTaskStatus oldStatus = myStatus.ExchangeAcqRel(IOTASK_STATUS_CLOSING);
 		MG_BOX_ASSERT_F(
 			oldStatus == IOTASK_STATUS_PENDING ||
 			oldStatus == IOTASK_STATUS_READY ||
@@ -117,9 +118,10 @@ namespace aio {
 	void
 	IOTask::PostWakeup()
 	{
-		// Fast path.
+		// Fast path. Use 'acquire' to sync with the scheduler having put the task into the
+		// waiting state. The task's members are accessed below then.
 		IOTaskStatus oldStatus = IOTASK_STATUS_WAITING;
-		if (myStatus.CmpExchgStrongRelaxed(oldStatus, IOTASK_STATUS_READY))
+		if (myStatus.CmpExchgStrongAcquire(oldStatus, IOTASK_STATUS_READY))
 			return myCore.PrivRePost(this);
 		// Fail, but the task was awake anyway.
 		if (oldStatus == IOTASK_STATUS_READY)
@@ -131,7 +133,7 @@ namespace aio {
 			oldStatus == IOTASK_STATUS_WAITING)
 		{
 			IOTaskStatus newStatus = oldStatus;
-			if (!myStatus.CmpExchgStrongRelaxed(newStatus, IOTASK_STATUS_READY))
+			if (!myStatus.CmpExchgStrongAcquire(newStatus, IOTASK_STATUS_READY))
 			{
 				// Fail. Retry.
 				oldStatus = newStatus;
-- 
2.43.0


From 900727d84a18a78c651541e578f079529ba2edc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:30 +0000
Subject: [PATCH 21/40] fix: report connect errors noticed by the IO engine as
 connect errors

---
 src/mg/aio/TCPSocketIFace.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mg/aio/TCPSocketIFace.cpp b/src/mg/aio/TCPSocketIFace.cpp
index 498966b..8b7adf0 100644
--- a/src/mg/aio/TCPSocketIFace.cpp
+++ b/src/mg/aio/TCPSocketIFace.cpp
@@ -449,6 +449,13 @@ namespace aio {
 		mg::box::Error* aError)
 	{
 		MG_BOX_ASSERT(myTask.IsInWorkerNow());
+		myMutex.Lock();
+		bool isConnecting = myState == TCP_SOCKET_STATE_CONNECTING;
+		myMutex.Unlock();
+		// Connection failure might be noticed by the IO engine before the connect process
+		// is updated. Still it is a connect error.
+		if (isConnecting)
+			return PrivConnectAbort(aError);
 		if (!PrivIsCompromised())
 			mySub->OnError(aError);
 		ProtClose();
-- 
2.43.0


From 614bf021cfabd1c53aa80f8035528c423c4c71ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:45 +0000
Subject: [PATCH 22/40] fix: do not crash when a connect follows a shutdown of
 an empty socket task

---
 src/mg/aio/TCPSocketCtl.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mg/aio/TCPSocketCtl.cpp b/src/mg/aio/TCPSocketCtl.cpp
index 278a8f2..3d93ceb 100644
--- a/src/mg/aio/TCPSocketCtl.cpp
+++ b/src/mg/aio/TCPSocketCtl.cpp
@@ -130,14 +130,15 @@ namespace aio {
 	TCPSocketCtl::AddConnect(
 		const TCPSocketCtlConnectParams& aParams)
 	{
-		// Connect or attach are mutually exclusive and are always the first ctl. Shutdown
-		// couldn't be requested before them.
+		// Connect or attach are mutually exclusive. Shutdown could be requested before the
+		// connect if the socket was posted as an empty task. Then there was nothing to
+		// shutdown.
 		MG_BOX_ASSERT(!myHasConnect);
 		MG_BOX_ASSERT(!myHasAttach);
-		MG_BOX_ASSERT(!myHasShutdown);
 		MG_BOX_ASSERT(myConnectSocket == mg::net::theInvalidSocket);
 		MG_BOX_ASSERT(myConnectDomain == nullptr);
 		MG_BOX_ASSERT(!myConnectIsStarted);
+		myHasShutdown = false;
 		myHasConnect = true;
 		myConnectSocket = aParams.mySocket;
 		myConnectDelay = aParams.myDelay;
-- 
2.43.0


From 4b98c63d72e8c5b55460ee31bae6a1a83ee18909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:39 +0000
Subject: [PATCH 23/40] fix: do not lose a shutdown posted before a wrapped
 socket is attached

---
 src/mg/aio/TCPSocketCtl.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mg/aio/TCPSocketCtl.cpp b/src/mg/aio/TCPSocketCtl.cpp
index 3d93ceb..09597d0 100644
--- a/src/mg/aio/TCPSocketCtl.cpp
+++ b/src/mg/aio/TCPSocketCtl.cpp
@@ -208,9 +208,9 @@ namespace aio {
 	{
 		MG_BOX_ASSERT(myHasShutdown);
 		// Shutdown on a non-connected socket simply does not work. Wait to kill it later.
-		if (myHasConnect)
+		if (myHasConnect || myHasAttach)
 			return true;
-		
+
 		mg::net::Socket sock = myTask->GetSocket();
 		myHasShutdown = false;
 		// Might be an empty task without a socket. Then nothing to shutdown.
@@ -315,6 +315,11 @@ namespace aio {
 		myTask->AttachSocket(myAttachSocket);
 		myAttachSocket = mg::net::theInvalidSocket;
 		PrivStartHandshake();
+		if (myHasShutdown)
+		{
+			// Shutdown is already waiting. Do another round like after a connect.
+			myTask->Reschedule();
+		}
 	}
 
 	bool
-- 
2.43.0


From 295b188a8f020c0815e442b6eee0f7bc3da60637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:17 +0000
Subject: [PATCH 24/40] fix: do not leak the custom socket when a connect is
 ignored due to closing

---
 src/mg/aio/TCPSocketIFace.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/aio/TCPSocketIFace.cpp b/src/mg/aio/TCPSocketIFace.cpp
index 8b7adf0..1003a27 100644
--- a/src/mg/aio/TCPSocketIFace.cpp
+++ b/src/mg/aio/TCPSocketIFace.cpp
@@ -312,6 +312,9 @@ namespace aio {
 		if (myState == TCP_SOCKET_STATE_CLOSING)
 		{
 			myMutex.Unlock();
+			// The custom socket belongs to the connect request. Nobody else would close it.
+			if (params.mySocket != mg::net::theInvalidSocket)
+				mg::net::SocketClose(params.mySocket);
 			return;
 		}
 		MG_BOX_ASSERT(myState == TCP_SOCKET_STATE_EMPTY);
-- 
2.43.0


From 9d71cddad83911b7ed183d383f7ea9f2c6d49547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:00 +0000
Subject: [PATCH 25/40] fix: repeated close of a listening TCP server crashed
 on an assertion

---
 src/mg/aio/TCPServer.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/mg/aio/TCPServer.cpp b/src/mg/aio/TCPServer.cpp
index 8929b2c..f8e0061 100644
--- a/src/mg/aio/TCPServer.cpp
+++ b/src/mg/aio/TCPServer.cpp
@@ -56,6 +56,9 @@ namespace aio {
 			myTask.PostClose();
 			return;
 		}
+		// Closing can be requested multiple times.
+		if (myState == TCP_SERVER_STATE_CLOSING)
+			return;
 		myState = TCP_SERVER_STATE_CLOSED;
 		MG_BOX_ASSERT(mySub == nullptr);
 		delete myBoundSocket;
@@ -99,13 +102,12 @@ namespace aio {
 			MG_BOX_ASSERT(myState == TCP_SERVER_STATE_CLOSING &&
 				"TCPServer is killed externally");
 			myState = TCP_SERVER_STATE_CLOSED;
-			myMutex.Unlock();
-			// Can access members here safely, because the server is kept alive by IOCore
-			// until the end of OnEvent().
-			TCPServerSubscription* sub = mySub;
 			// Nullify before the callback. Because the server might be deleted by the
-			// callback.
+			// callback. And before the unlock, because the server can be closed again by
+			// another thread at any moment.
+			TCPServerSubscription* sub = mySub;
 			mySub = nullptr;
+			myMutex.Unlock();
 			sub->OnClose();
 			return;
 		}
-- 
2.43.0


From a77631665cefbff788b390a3e10b22cc68712057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:07 +0000
Subject: [PATCH 26/40] fix: do not leak a connection accepted by io_uring
 while its server is closing

---
 src/mg/aio/IOTask_iouring.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mg/aio/IOTask_iouring.cpp b/src/mg/aio/IOTask_iouring.cpp
index 55d2b62..3feb039 100644
--- a/src/mg/aio/IOTask_iouring.cpp
+++ b/src/mg/aio/IOTask_iouring.cpp
@@ -208,6 +208,18 @@ namespace aio {
 		aOutArgs.myEvents = myReadyEvents.PopAll();
 		myOperationCount -= myReadyEventCount;
 		myReadyEventCount = 0;
+		if (!myIsClosed)
+			return;
+		// The last events of a closed task aren't processed by its owner. But if among them
+		// is a successful accept, then its socket has no other owner and would be lost.
+		for (IOEvent* event = aOutArgs.myEvents; event != nullptr; event = event->myNext)
+		{
+			if (event->myOpcode != MG_IO_URING_OP_ACCEPT)
+				continue;
+			event->Unlock();
+			if (!event->IsError())
+				mg::net::SocketClose(event->PopBytes());
+		}
 	}
 
 	void
-- 
2.43.0


From 1b4f42468196f499c370f78ea9889ed6c1bea112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:47 +0000
Subject: [PATCH 27/40] fix: do not continue the handshake of a TCP socket
 after a failed shutdown

---
 src/mg/aio/TCPSocketIFace.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mg/aio/TCPSocketIFace.cpp b/src/mg/aio/TCPSocketIFace.cpp
index 1003a27..41d0d81 100644
--- a/src/mg/aio/TCPSocketIFace.cpp
+++ b/src/mg/aio/TCPSocketIFace.cpp
@@ -575,6 +575,7 @@ namespace aio {
 	TCPSocketIFace::PrivCtl()
 	{
 		MG_DEV_ASSERT(myTask.IsInWorkerNow());
+		bool isFailed = false;
 		myMutex.Lock();
 		if (myFrontCtl == nullptr && myCtl == nullptr)
 			goto end;
@@ -595,7 +596,10 @@ namespace aio {
 		{
 			mg::box::Error::Ptr err;
 			if (!myCtl->DoShutdown(err))
+			{
+				isFailed = true;
 				ProtCloseError(mg::box::ErrorRaise(err, "shutdown"));
+			}
 		}
 		if (myCtl->HasAttach())
 		{
@@ -623,7 +627,8 @@ namespace aio {
 			// Otherwise connect is updated and not finished - still in progress, nothing
 			// to do. Wait for more events.
 		}
-		if (myCtl->HasHandshake())
+		// The owner must not see the socket connected after an error.
+		if (myCtl->HasHandshake() && !isFailed)
 		{
 			myCtl->DoHandshake();
 			if (!myCtl->HasHandshake())
-- 
2.43.0


From 94414c47a7f5a110e2e870105b1dbcc29f5cf1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:47 +0000
Subject: [PATCH 28/40] fix: SSL socket crashed when receiving was paused with
 spare buffers left

---
 src/mg/aio/SSLSocket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/aio/SSLSocket.cpp b/src/mg/aio/SSLSocket.cpp
index 8fff3c7..eb02de4 100644
--- a/src/mg/aio/SSLSocket.cpp
+++ b/src/mg/aio/SSLSocket.cpp
@@ -238,7 +238,7 @@ namespace aio {
 		{
 			if (ProtWasHandshakeDone())
 			{
-				MG_BOX_ASSERT(myEncRecvQueue.IsEmpty());
+				MG_BOX_ASSERT(myEncRecvQueue.GetReadSize() == 0);
 				return;
 			}
 			myEncRecvQueue.EnsureWriteSize(mg::net::theBufferCopySize);
-- 
2.43.0


From 335fa19cf033863b2abd6ebb1f68a020eac4806a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:07 +0000
Subject: [PATCH 29/40] fix: SSL socket delivered data received with the
 handshake end before OnConnect

---
 src/mg/aio/SSLSocket.cpp | 16 ++++++++++++++++
 src/mg/aio/SSLSocket.h   |  3 +++
 2 files changed, 19 insertions(+)

diff --git a/src/mg/aio/SSLSocket.cpp b/src/mg/aio/SSLSocket.cpp
index eb02de4..2099aba 100644
--- a/src/mg/aio/SSLSocket.cpp
+++ b/src/mg/aio/SSLSocket.cpp
@@ -19,6 +19,8 @@ namespace aio {
 		IOCore& aCore)
 		: TCPSocketIFace(aCore)
 		, mySSL(nullptr)
+		, mySentSize(0)
+		, myHasEarlyData(false)
 	{
 	}
 
@@ -29,6 +31,7 @@ namespace aio {
 		ProtOpen();
 		myEncSendQueue.Clear();
 		mySentSize = 0;
+		myHasEarlyData = false;
 		delete mySSL;
 		mySSL = new mg::net::SSLStream(aParams.mySSL);
 		if (aParams.myDoEncrypt)
@@ -232,6 +235,13 @@ namespace aio {
 	void
 	SSLSocket::PrivRecv()
 	{
+		if (myHasEarlyData && myRecvSize > 0 && ProtWasHandshakeDone())
+		{
+			myHasEarlyData = false;
+			myRecvSize = 0;
+			mg::net::BufferReadStream stream(myRecvQueue);
+			ProtOnRecv(stream);
+		}
 		if (!PrivRecvEventConsume())
 			return;
 		if (myRecvSize == 0)
@@ -278,9 +288,15 @@ namespace aio {
 		}
 		// If this was a part of the handshake, then need to handle it on a next wakeup.
 		if (!ProtWasHandshakeDone())
+		{
 			myTask.Reschedule();
+			myHasEarlyData = !myRecvQueue.IsEmpty();
+			myRecvSize = recvSizeWas;
+			return;
+		}
 		if (!myRecvQueue.IsEmpty())
 		{
+			myHasEarlyData = false;
 			mg::net::BufferReadStream stream(myRecvQueue);
 			ProtOnRecv(stream);
 		}
diff --git a/src/mg/aio/SSLSocket.h b/src/mg/aio/SSLSocket.h
index 89e3794..e876a9d 100644
--- a/src/mg/aio/SSLSocket.h
+++ b/src/mg/aio/SSLSocket.h
@@ -107,6 +107,9 @@ namespace aio {
 		// flush inside Encrypt() method. It would be a bad incident to start invoking
 		// user callbacks right in the user-called methods.
 		uint64_t mySentSize;
+		// App data was received together with the end of the handshake, before the socket
+		// owner could be told about the connection. It is delivered after that.
+		bool myHasEarlyData;
 	};
 
 }
-- 
2.43.0


From 36aeaf8c29524521cc82e3fd7141df9dad85a9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:59 +0000
Subject: [PATCH 30/40] fix: sio: sending of only empty buffers crashed on an
 assertion

---
 src/mg/sio/TCPSocket.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/sio/TCPSocket.cpp b/src/mg/sio/TCPSocket.cpp
index ec8f65f..868579a 100644
--- a/src/mg/sio/TCPSocket.cpp
+++ b/src/mg/sio/TCPSocket.cpp
@@ -166,6 +166,9 @@ namespace sio {
 		mg::box::Error::Ptr& aOutErr)
 	{
 		MG_DEV_ASSERT(myState == TCP_SOCKET_STATE_CONNECTED);
+		// Having nothing but empty buffers is the same as not having any. There is nothing
+		// to give to the system.
+		myOutput.SkipEmptyPrefix(mySendOffset);
 		if (myOutput.IsEmpty())
 			return true;
 		int64_t rc = SocketSend(mySocket, myOutput, mySendOffset, aOutErr);
-- 
2.43.0


From 25e4be54109795d558a07c1affcb704bee228023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:59 +0000
Subject: [PATCH 31/40] fix: sio: the real error of a failed connect was
 replaced with 'aborted'

---
 src/mg/sio/Socket_Unix.cpp | 2 +-
 src/mg/sio/Socket_Win.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/sio/Socket_Unix.cpp b/src/mg/sio/Socket_Unix.cpp
index 1a6bb15..cdbef8c 100755
--- a/src/mg/sio/Socket_Unix.cpp
+++ b/src/mg/sio/Socket_Unix.cpp
@@ -128,7 +128,7 @@ namespace sio {
 		MG_DEV_ASSERT(rc == 1);
 		if (fd.revents == POLLOUT)
 			return true;
-		if (!mg::net::SocketCheckState(aSock, aOutErr))
+		if (mg::net::SocketCheckState(aSock, aOutErr))
 			aOutErr = mg::box::ErrorRaise(mg::box::ERR_NET_ABORTED, "async connect");
 		return false;
 	}
diff --git a/src/mg/sio/Socket_Win.cpp b/src/mg/sio/Socket_Win.cpp
index 6bf0d26..3c9587b 100755
--- a/src/mg/sio/Socket_Win.cpp
+++ b/src/mg/sio/Socket_Win.cpp
@@ -114,7 +114,7 @@ namespace sio {
 		if (FD_ISSET(aSock, &writeSet))
 			return true;
 		MG_BOX_ASSERT(FD_ISSET(aSock, &errSet));
-		if (!mg::net::SocketCheckState(aSock, aOutErr))
+		if (mg::net::SocketCheckState(aSock, aOutErr))
 			aOutErr = mg::box::ErrorRaise(mg::box::ERR_NET_ABORTED, "async connect");
 		return false;
 	}
-- 
2.43.0


From 33273477cc6eb585679db443e5ff6004d59435d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:59 +0000
Subject: [PATCH 32/40] fix: net: SocketSetNoDelay() set the inverted option
 value

---
 src/mg/net/Socket_Unix.cpp | 2 +-
 src/mg/net/Socket_Win.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/net/Socket_Unix.cpp b/src/mg/net/Socket_Unix.cpp
index f6892d9..0b212a7 100755
--- a/src/mg/net/Socket_Unix.cpp
+++ b/src/mg/net/Socket_Unix.cpp
@@ -196,7 +196,7 @@ namespace net {
 		bool aValue,
 		mg::box::Error::Ptr& aOutErr)
 	{
-		int optValue = aValue ? 0 : 1;
+		int optValue = aValue ? 1 : 0;
 		bool ok = setsockopt(aSock, IPPROTO_TCP, TCP_NODELAY,
 			&optValue, sizeof(optValue)) == 0;
 		if (!ok)
diff --git a/src/mg/net/Socket_Win.cpp b/src/mg/net/Socket_Win.cpp
index fc2be1a..9d6b11a 100755
--- a/src/mg/net/Socket_Win.cpp
+++ b/src/mg/net/Socket_Win.cpp
@@ -92,7 +92,7 @@ namespace net {
 		bool aValue,
 		mg::box::Error::Ptr& aOutErr)
 	{
-		int value = aValue ? 0 : 1;
+		int value = aValue ? 1 : 0;
 		bool ok = setsockopt(aSock, IPPROTO_TCP, TCP_NODELAY,
 			(const char*)&value, sizeof(value)) == 0;
 		if (!ok)
-- 
2.43.0


From ba2ba9e56ef74c6c02302ecbed5018b028130a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:59 +0000
Subject: [PATCH 33/40] fix: box: AtomicI8 was unsigned

---
 src/mg/box/Atomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/box/Atomic.h b/src/mg/box/Atomic.h
index aa8db5f..9b8aee1 100644
--- a/src/mg/box/Atomic.h
+++ b/src/mg/box/Atomic.h
@@ -268,7 +268,7 @@ namespace box {
 	using AtomicU16 = Atomic<uint16_t>;
 	using AtomicU32 = Atomic<uint32_t>;
 	using AtomicU64 = Atomic<uint64_t>;
-	using AtomicI8 = Atomic<uint8_t>;
+	using AtomicI8 = Atomic<int8_t>;
 	using AtomicI16 = Atomic<int16_t>;
 	using AtomicI32 = Atomic<int32_t>;
 	using AtomicI64 = Atomic<int64_t>;
-- 
2.43.0


From 85de8458a98bdc959fceae18ad1c560dc2714384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:59 +0000
Subject: [PATCH 34/40] fix: box: multi-consumer queue could pop an item of a
 recycled sub-queue twice

---
 src/mg/box/MultiConsumerQueueBase.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/mg/box/MultiConsumerQueueBase.cpp b/src/mg/box/MultiConsumerQueueBase.cpp
index 9e725c0..2023bc0 100644
--- a/src/mg/box/MultiConsumerQueueBase.cpp
+++ b/src/mg/box/MultiConsumerQueueBase.cpp
@@ -272,7 +272,7 @@ namespace box {
 		// thread simultaneously read the same element and already
 		// returned it. In this case the current thread will
 		// retry.
-		uint32_t rindex = myReadIndex.LoadRelaxed();
+		uint32_t rindex;
 		// The loop is not busy, is not a lock, and is not a 'waiting'.
 		// Because lock or waiting would mean the thread is blocked on
 		// something not yet done by another thread. Here it is not so -
@@ -280,16 +280,19 @@ namespace box {
 		// it progresses in a single iteration almost always.
 		do
 		{
+			rindex = myReadIndex.LoadAcquire();
 			if (rindex == mySize)
 				return false;
-			// Read index itself is fine to be relaxed. Broader sync
-			// is only needed for the queue items. To get all the
-			// writes done before their push which might be related
-			// to them.
+			// Read index needs a sync too, not only the items. The
+			// item in this position is known to be reset before the
+			// previous position could be read. Without a sync with
+			// the consumer who has read the latter it would be
+			// possible to see here an item from the previous usage
+			// of this recycled sub-queue.
 			aOutItem = myQueue[rindex].LoadAcquire();
 			if (aOutItem == nullptr)
 				return true;
-		} while (!myReadIndex.CmpExchgWeakRelaxed(rindex, rindex + 1));
+		} while (!myReadIndex.CmpExchgWeakAcqRel(rindex, rindex + 1));
 		return true;
 	}
 
-- 
2.43.0


From 1eeceeb66ab44ab9848a538d923da96028d2fef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:59 +0000
Subject: [PATCH 35/40] fix: box: a collapsed Signal::Send() did not publish
 what was done before it

---
 src/mg/box/Signal.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/mg/box/Signal.cpp b/src/mg/box/Signal.cpp
index a48b17b..464661a 100644
--- a/src/mg/box/Signal.cpp
+++ b/src/mg/box/Signal.cpp
@@ -26,11 +26,21 @@ namespace box {
 	Signal::Send()
 	{
 		State oldState = SIGNAL_STATE_EMPTY;
+		State newState = SIGNAL_STATE_PROBE;
+		// If it was already set, then the state has to be stored
+		// again anyway. Otherwise the receiver of the signal
+		// wouldn't necessarily see what this thread did before the
+		// sending.
+		while (!myState.CmpExchgWeakRelease(oldState, newState))
+		{
+			newState = oldState == SIGNAL_STATE_EMPTY ?
+				SIGNAL_STATE_PROBE : oldState;
+		}
 		// If it was already set, then no need to proceed. The
 		// condition variable is signaled by another thread. That
 		// is one of the key features of Signal - lock-free signal
 		// re-send if it is not consumed yet.
-		if (!myState.CmpExchgStrongRelease(oldState, SIGNAL_STATE_PROBE))
+		if (oldState != SIGNAL_STATE_EMPTY)
 			return;
 
 		// The signal must be done under a lock. Consider how the
-- 
2.43.0


From 9c733d42399bbcfed90029229d9ce3825fdf7f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:59 +0000
Subject: [PATCH 36/40] fix: sch: a task wakeup could be lost together with
 what was done before it

---
 src/mg/sch/Task.cpp          | 16 ++++++++++------
 src/mg/sch/TaskScheduler.cpp |  4 +++-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/mg/sch/Task.cpp b/src/mg/sch/Task.cpp
index 41ddc5a..7c1b5d0 100755
--- a/src/mg/sch/Task.cpp
+++ b/src/mg/sch/Task.cpp
@@ -98,6 +98,7 @@ namespace sch {
 		// Don't do the load inside of the loop. It is needed only first time. On next
 		// iterations the cmpxchg returns the old value anyway.
 		TaskStatus old = myStatus.LoadRelaxed();
+		TaskStatus status;
 		// Note, that the loop is not a busy loop nor a spin-lock. Because it would mean
 		// the thread couldn't progress until some other thread does something. Here, on
 		// the contrary, the thread does progress always, and even better if other threads
@@ -105,13 +106,16 @@ namespace sch {
 		do
 		{
 			// Signal and ready mean the task will be executed ASAP anyway. Also can't
-			// override the signal, because it is stronger than a wakeup.
-			if (old == TASK_STATUS_SIGNALED || old == TASK_STATUS_READY)
-				return;
+			// override the signal, because it is stronger than a wakeup. But the status
+			// must be stored again even then. The loaded value might be outdated already,
+			// and the task must see in its next execution what was done before the
+			// wakeup.
+			status = old == TASK_STATUS_SIGNALED ?
+				TASK_STATUS_SIGNALED : TASK_STATUS_READY;
 			// Acquire to sync with the scheduler having put the task into the waiting
-			// state. The task's members are accessed below then. The rest of the memory
-			// sync will happen via the scheduler queues if the wakeup succeeds.
-		} while (!myStatus.CmpExchgWeakAcquire(old, TASK_STATUS_READY));
+			// state. The task's members are accessed below then. Release to sync with the
+			// next execution of the task.
+		} while (!myStatus.CmpExchgWeakAcqRel(old, status));
 
 		// If the task was in the waiting queue. Need to re-push it to let the scheduler
 		// know the task must be removed from the queue earlier.
diff --git a/src/mg/sch/TaskScheduler.cpp b/src/mg/sch/TaskScheduler.cpp
index 350d9e7..55908d8 100644
--- a/src/mg/sch/TaskScheduler.cpp
+++ b/src/mg/sch/TaskScheduler.cpp
@@ -358,7 +358,9 @@ namespace sch {
 		MG_DEV_ASSERT(aTask->myScheduler == this);
 		aTask->myScheduler = nullptr;
 		TaskStatus old = TASK_STATUS_READY;
-		aTask->myStatus.CmpExchgStrongRelaxed(old, TASK_STATUS_PENDING);
+		// Acquire to see everything what was done before the wakeups of this task.
+		if (!aTask->myStatus.CmpExchgStrongAcquire(old, TASK_STATUS_PENDING))
+			old = aTask->myStatus.LoadAcquire();
 		MG_DEV_ASSERT(old == TASK_STATUS_READY || old == TASK_STATUS_SIGNALED);
 		// The task object shall not be accessed anyhow after
 		// execution. It may be deleted inside.
-- 
2.43.0


From 9754018dec4d9ffe96c7198474a1467afa15fb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:59 +0000
Subject: [PATCH 37/40] fix: aio: an IO task wakeup could be lost together with
 what was done before it

---
 src/mg/aio/IOCore.cpp | 11 +++++++----
 src/mg/aio/IOTask.cpp | 42 +++++++++++++++++-------------------------
 2 files changed, 24 insertions(+), 29 deletions(-)

diff --git a/src/mg/aio/IOCore.cpp b/src/mg/aio/IOCore.cpp
index 6167a4d..eed76cd 100644
--- a/src/mg/aio/IOCore.cpp
+++ b/src/mg/aio/IOCore.cpp
@@ -89,14 +89,15 @@ namespace aio {
 	IOCore::WaitEmpty(
 		mg::box::TimeLimit aTimeLimit)
 	{
-		uint32_t count = myDescriptorCount.LoadRelaxed();
+		// Use 'acquire' to see everything what was done by the finished tasks.
+		uint32_t count = myDescriptorCount.LoadAcquire();
 		if (count == 0)
 			return 0;
 		uint64_t deadline = aTimeLimit.ToPointFromNow().myValue;
 		while (mg::box::GetMilliseconds() < deadline)
 		{
 			mg::box::Sleep(10);
-			count = myDescriptorCount.LoadRelaxed();
+			count = myDescriptorCount.LoadAcquire();
 			if (count == 0)
 				return 0;
 		}
@@ -182,7 +183,9 @@ namespace aio {
 		// Make the task pending so as it would go back to sleep when returns back to
 		// IOCore. Unless it is woken up again.
 		IOTaskStatus oldStatus = IOTASK_STATUS_READY;
-		aTask->myStatus.CmpExchgStrongRelaxed(oldStatus, IOTASK_STATUS_PENDING);
+		// Use 'acquire' to see everything what was done before the wakeups of this task.
+		if (!aTask->myStatus.CmpExchgStrongAcquire(oldStatus, IOTASK_STATUS_PENDING))
+			oldStatus = aTask->myStatus.LoadAcquire();
 		MG_DEV_ASSERT(oldStatus != IOTASK_STATUS_PENDING);
 		if (aTask->PrivExecute())
 		{
@@ -198,7 +201,7 @@ namespace aio {
 		}
 		else
 		{
-			myDescriptorCount.DecrementRelaxed();
+			myDescriptorCount.DecrementRelease();
 		}
 		return true;
 	}
diff --git a/src/mg/aio/IOTask.cpp b/src/mg/aio/IOTask.cpp
index d803358..3d4e761 100755
--- a/src/mg/aio/IOTask.cpp
+++ b/src/mg/aio/IOTask.cpp
@@ -118,34 +118,26 @@ namespace aio {
 	void
 	IOTask::PostWakeup()
 	{
-		// Fast path. Use 'acquire' to sync with the scheduler having put the task into the
-		// waiting state. The task's members are accessed below then.
+		// If meet CLOSED then nothing to wakeup anymore. If meet CLOSING, then it is same as
+		// READY - the task is already awake. But the status must be stored again even then.
+		// The met value might be going to be replaced right now, and the task must see in
+		// its next execution what was done before the wakeup.
+		//
+		// Use 'acquire' to sync with the scheduler having put the task into the waiting
+		// state. The task's members are accessed below then. Use 'release' to sync with the
+		// next execution of the task.
 		IOTaskStatus oldStatus = IOTASK_STATUS_WAITING;
-		if (myStatus.CmpExchgStrongAcquire(oldStatus, IOTASK_STATUS_READY))
-			return myCore.PrivRePost(this);
-		// Fail, but the task was awake anyway.
-		if (oldStatus == IOTASK_STATUS_READY)
-			return;
-
-		// Slow path. If meet CLOSED then nothing to wakeup anymore. If meet CLOSING, then
-		// it is same as READY - the task is already awake.
-		while (oldStatus == IOTASK_STATUS_PENDING ||
-			oldStatus == IOTASK_STATUS_WAITING)
+		IOTaskStatus newStatus;
+		do
 		{
-			IOTaskStatus newStatus = oldStatus;
-			if (!myStatus.CmpExchgStrongAcquire(newStatus, IOTASK_STATUS_READY))
-			{
-				// Fail. Retry.
-				oldStatus = newStatus;
-				continue;
-			}
-			// Success.
-			if (oldStatus == IOTASK_STATUS_PENDING)
+			if (oldStatus == IOTASK_STATUS_CLOSED)
 				return;
-			if (oldStatus == IOTASK_STATUS_WAITING)
-				return myCore.PrivRePost(this);
-			MG_BOX_ASSERT_F(false, "status: %d", (int)oldStatus);
-		}
+			newStatus = oldStatus == IOTASK_STATUS_CLOSING ?
+				IOTASK_STATUS_CLOSING : IOTASK_STATUS_READY;
+		} while (!myStatus.CmpExchgStrongAcqRel(oldStatus, newStatus));
+
+		if (oldStatus == IOTASK_STATUS_WAITING)
+			myCore.PrivRePost(this);
 	}
 
 	bool
-- 
2.43.0


From b151501b35ebd77ca05a79c3a4aabe1070b77480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:41 +0000
Subject: [PATCH 38/40] fix: adding an empty remote certificate must fail, not
 crash

---
 src/mg/net/SSLContextOpenSSL.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/net/SSLContextOpenSSL.cpp b/src/mg/net/SSLContextOpenSSL.cpp
index 320c485..cc5eb07 100644
--- a/src/mg/net/SSLContextOpenSSL.cpp
+++ b/src/mg/net/SSLContextOpenSSL.cpp
@@ -686,6 +686,9 @@ finish:
 		const char* aData,
 		uint32_t aSize)
 	{
+		// BIO can't write zero bytes, it is reported as a failure.
+		if (aSize == 0)
+			return nullptr;
 		BIO *bio = BIO_new(BIO_s_mem());
 		if (BIO_write(bio, (const void*) aData, aSize) == 0)
 		{
-- 
2.43.0


From fbaf821a5fc5404a69cc6d6190f19faed4c44779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:41 +0000
Subject: [PATCH 39/40] fix: the order of trusted certificates must not affect
 SSL contexts equality

---
 src/mg/net/SSLContextOpenSSL.cpp | 44 +++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/mg/net/SSLContextOpenSSL.cpp b/src/mg/net/SSLContextOpenSSL.cpp
index cc5eb07..56fbeae 100644
--- a/src/mg/net/SSLContextOpenSSL.cpp
+++ b/src/mg/net/SSLContextOpenSSL.cpp
@@ -714,6 +714,25 @@ finish:
 
 #if MG_OPENSSL_CTX_HAS_COMPARISON
 
+	static bool
+	OpenSSLCertObjectsAreEqual(
+		const X509_OBJECT* aObj1,
+		const X509_OBJECT* aObj2)
+	{
+		const X509* cert1 = X509_OBJECT_get0_X509(aObj1);
+		const X509* cert2 = X509_OBJECT_get0_X509(aObj2);
+		if ((cert1 == nullptr) != (cert2 == nullptr))
+			return false;
+		if (cert1 != nullptr)
+			return X509_cmp(cert1, cert2) == 0;
+
+		const X509_CRL* crl1 = X509_OBJECT_get0_X509_CRL((X509_OBJECT*)aObj1);
+		const X509_CRL* crl2 = X509_OBJECT_get0_X509_CRL((X509_OBJECT*)aObj2);
+		if ((crl1 == nullptr) != (crl2 == nullptr))
+			return false;
+		return crl1 == nullptr || X509_CRL_cmp(crl1, crl2) == 0;
+	}
+
 	static bool
 	OpenSSLCertChainAreEqual(
 		const STACK_OF(X509_OBJECT)* aStack1,
@@ -727,26 +746,15 @@ finish:
 		int cnt2 = sk_X509_OBJECT_num(aStack2);
 		if (cnt1 != cnt2)
 			return false;
+		// The order doesn't mean anything. OpenSSL re-sorts the objects lazily, at lookups.
+		// There are no duplicates inside of one stack.
 		for (int i = 0; i < cnt1; ++i)
 		{
-			X509_OBJECT* obj1 = sk_X509_OBJECT_value(aStack1, i);
-			X509_OBJECT* obj2 = sk_X509_OBJECT_value(aStack2, i);
-			const X509* cert1 = X509_OBJECT_get0_X509(obj1);
-			const X509* cert2 = X509_OBJECT_get0_X509(obj2);
-			if ((cert1 == nullptr) != (cert2 == nullptr))
-				return false;
-			if (cert1 == nullptr)
-				continue;
-			if (X509_cmp(cert1, cert2) != 0)
-				return false;
-
-			const X509_CRL* crl1 = X509_OBJECT_get0_X509_CRL(obj1);
-			const X509_CRL* crl2 = X509_OBJECT_get0_X509_CRL(obj2);
-			if ((crl1 == nullptr) != (crl2 == nullptr))
-				return false;
-			if (crl1 == nullptr)
-				continue;
-			if (X509_CRL_cmp(crl1, crl2) != 0)
+			const X509_OBJECT* obj1 = sk_X509_OBJECT_value(aStack1, i);
+			bool isFound = false;
+			for (int j = 0; j < cnt2 && !isFound; ++j)
+				isFound = OpenSSLCertObjectsAreEqual(obj1, sk_X509_OBJECT_value(aStack2, j));
+			if (!isFound)
 				return false;
 		}
 		return true;
-- 
2.43.0


From 89b0175593d8615d3d9a3db17ea36ede0744a202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:39 +0000
Subject: [PATCH 40/40] fix: TaskSchedulerThread::GetState() could not be
 linked from outside

---
 src/mg/sch/TaskScheduler.cpp | 6 ------
 src/mg/sch/TaskScheduler.h   | 6 ++++++
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mg/sch/TaskScheduler.cpp b/src/mg/sch/TaskScheduler.cpp
index 55908d8..46ad83b 100644
--- a/src/mg/sch/TaskScheduler.cpp
+++ b/src/mg/sch/TaskScheduler.cpp
@@ -393,12 +393,6 @@ namespace sch {
 		myConsumer.Attach(&myScheduler->myQueueReady);
 	}
 
-	inline TaskSchedulerWorkerState
-	TaskSchedulerThread::GetState() const
-	{
-		return myState.LoadAcquire();
-	}
-
 	void
 	TaskSchedulerThread::Run()
 	{
diff --git a/src/mg/sch/TaskScheduler.h b/src/mg/sch/TaskScheduler.h
index 838b801..0c9cc64 100644
--- a/src/mg/sch/TaskScheduler.h
+++ b/src/mg/sch/TaskScheduler.h
@@ -281,6 +281,12 @@ namespace sch {
 		return myScheduleCount.ExchangeRelaxed(0);
 	}
 
+	inline TaskSchedulerWorkerState
+	TaskSchedulerThread::GetState() const
+	{
+		return myState.LoadAcquire();
+	}
+
 	template<typename Functor>
 	inline void
 	TaskScheduler::PostOneShot(
-- 
2.43.0

