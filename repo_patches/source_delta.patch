From c4ef173ef73c22a2248b42f5eeaf423b9054c848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:48 +0000
Subject: [PATCH 01/74] fix: InterthreadMap1::size did not compile (unnamed
 lock object)

---
 Interthread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Interthread.h b/Interthread.h
index b6057d2..6e89efa 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -595,7 +595,7 @@ public:
 	}
 
 	// pat added.
-	unsigned size() const { ScopedLock(mLock); return mMap.size(); }
+	unsigned size() const { ScopedLock lock(mLock); return mMap.size(); }
 
 	// WARNING: These iterators are not intrinsically thread safe.
 	// Caller must use ScopedIterator or the modification lock or enclose the entire iteration in some higher level lock.
-- 
2.43.0


From c1b2c7dcce5f7d8d11697d0b9dd195149d07c703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 02/74] fix: Timeval::future could leave a microsecond field of
 1000000, which timed waits reject

---
 Timeval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Timeval.cpp b/Timeval.cpp
index e0ec49d..c0f9dbd 100644
--- a/Timeval.cpp
+++ b/Timeval.cpp
@@ -38,7 +38,7 @@ void Timeval::future(unsigned offset)	// In msecs
 	unsigned msec = offset%1000;
 	mTimeval.tv_usec += msec*1000;
 	mTimeval.tv_sec += sec;
-	if (mTimeval.tv_usec>1000000) {
+	if (mTimeval.tv_usec>=1000000) {
 		mTimeval.tv_usec -= 1000000;
 		mTimeval.tv_sec += 1;
 	}
-- 
2.43.0


From b67e5b6286e661531abeafd26ce89f4b5423eaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 03/74] fix: Timeval::delta overflowed for differences of more
 than 24 days

---
 Timeval.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Timeval.cpp b/Timeval.cpp
index c0f9dbd..b839e71 100644
--- a/Timeval.cpp
+++ b/Timeval.cpp
@@ -72,9 +72,9 @@ double Timeval::seconds() const
 
 long Timeval::delta(const Timeval& other) const
 {
-	// 2^31 milliseconds is just over 4 years.
-	int32_t deltaS = other.sec() - sec();
-	int32_t deltaUs = other.usec() - usec();
+	// 2^31 milliseconds is just under 25 days, so this must not be done in 32 bits.
+	long deltaS = (long)other.sec() - (long)sec();
+	long deltaUs = (long)other.usec() - (long)usec();
 	return 1000*deltaS + deltaUs/1000;
 }
 	
-- 
2.43.0


From 1fd38b45dcd94409a00fc3a4cad0b4668f7eefd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 04/74] fix: Mutex::timedlock claimed success on errors and did
 not count the lock it took

---
 Threads.cpp | 16 +++++++++++++---
 Threads.h   |  3 +++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/Threads.cpp b/Threads.cpp
index b20e158..502d484 100644
--- a/Threads.cpp
+++ b/Threads.cpp
@@ -121,11 +121,21 @@ bool Mutex::trylock(const char *file, unsigned line)
 }
 
 // Returns true if the lock was acquired within the timeout, or false if it timed out.
-bool Mutex::timedlock(int msecs) // Wait this long in milli-seconds.
+bool Mutex::_timedlock(int msecs) // Wait this long in milli-seconds.
 {
 	Timeval future(msecs);
 	struct timespec timeout = future.timespec();
-	return ETIMEDOUT != pthread_mutex_timedlock(&mMutex, &timeout);
+	return 0 == pthread_mutex_timedlock(&mMutex, &timeout);
+}
+
+bool Mutex::timedlock(int msecs)
+{
+	if (!_timedlock(msecs)) { return false; }
+	if (mLockCnt >= 0 && mLockCnt < maxLocks) {
+		mLockerFile[mLockCnt] = 0; mLockerLine[mLockCnt] = 0;
+	}
+	mLockCnt++;
+	return true;
 }
 
 // There is a chance here that the mLockerFile&mLockerLine
@@ -162,7 +172,7 @@ void Mutex::lock(const char *file, unsigned line)
 	if (file) {
 		LOCKLOG(DEBUG,"start at %s %u",file,line);
 		// If we wait more than a second, print an error message.
-		if (!timedlock(1000)) {
+		if (!_timedlock(1000)) {
 			string backtrace = rn_backtrace();
 			LOCKLOG(ERR, "Blocked more than one second at %s %u by %s %s",file,line,mutext().c_str(),backtrace.c_str());
 			printf("WARNING: %s Blocked more than one second at %s %u by %s %s\n",timestr(4).c_str(),file,line,mutext().c_str(),backtrace.c_str());
diff --git a/Threads.h b/Threads.h
index 6e004ba..3e12273 100644
--- a/Threads.h
+++ b/Threads.h
@@ -112,6 +112,9 @@ class Mutex {
 
 	friend class Signal;
 
+	private:
+	bool _timedlock(int msecs);		// Like timedlock but does not count the lock.
+
 };
 
 /** A class for reader/writer based on pthread_rwlock. */
-- 
2.43.0


From f29062b0621be21787e7ccf0d12641ec585a6343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 05/74] fix: a mutex released by Signal::wait kept its lock
 count, so other threads saw it locked too often

---
 Threads.cpp | 2 ++
 Threads.h   | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/Threads.cpp b/Threads.cpp
index 502d484..f52ccbd 100644
--- a/Threads.cpp
+++ b/Threads.cpp
@@ -283,7 +283,9 @@ void Signal::wait(Mutex& wMutex, long timeout) const
 	if (timeout <= 0) { return; }	// (pat) Timeout passed already
 	Timeval then(timeout);
 	struct timespec waitTime = then.timespec();
+	wMutex.mLockCnt--;		// The mutex is not locked by this thread while it waits.
 	pthread_cond_timedwait(&mSignal,&wMutex.mMutex,&waitTime);
+	wMutex.mLockCnt++;
 }
 
 struct wrapArgs
diff --git a/Threads.h b/Threads.h
index 3e12273..bfc276c 100644
--- a/Threads.h
+++ b/Threads.h
@@ -252,7 +252,12 @@ class Signal {
 		Under Linux, spurious returns are possible.
 	*/
 	void wait(Mutex& wMutex) const
-		{ pthread_cond_wait(&mSignal,&wMutex.mMutex); }
+	{
+		// The mutex is not locked by this thread while it waits.
+		wMutex.mLockCnt--;
+		pthread_cond_wait(&mSignal,&wMutex.mMutex);
+		wMutex.mLockCnt++;
+	}
 
 	void signal() { pthread_cond_signal(&mSignal); }
 
-- 
2.43.0


From 26fc505003e259a3fbef42d2d9483f8451afae57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 06/74] fix: ScopedLockMultiple waited for one mutex while
 holding others and could deadlock

---
 Threads.cpp | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/Threads.cpp b/Threads.cpp
index f52ccbd..38d508a 100644
--- a/Threads.cpp
+++ b/Threads.cpp
@@ -254,22 +254,17 @@ void ScopedLockMultiple::_restoreState() {
 }
 void ScopedLockMultiple::_lockAll() {
 	// Do not return until we have locked all three mutexes.
+	if (_trylock(0) && _trylock(1) && _trylock(2)) return;
+	// Never wait for one mutex while holding another, not even one that was locked by us on entry,
+	// otherwise two threads that enter owning different mutexes can deadlock.
 	for (int n=0; true; n++) {
-		// Attempt to lock in order 0,1,2.
-		_lock(0); 						// Wait on 0, unless it was locked by us on entry.
-		if (_trylock(1) && _trylock(2)) return;			// Then try to acquire 1 and 2
-		_unlock(1);										// If failure, release all.
-		_unlock(0);
-		// Attempt to lock in order 1,0,2.
-		_lock(1);
-		if (_trylock(0) && _trylock(2)) return;
-		_unlock(0);
-		_unlock(1);
-		// Attempt to lock in order 2,1,0.
-		_lock(2);
-		if (_trylock(0) && _trylock(1)) return;
-		_unlock(0);
-		_unlock(2);	
+		for (int first = 0; first <= 2; first++) {
+			_unlock(0);
+			_unlock(1);
+			_unlock(2);
+			_lock(first);									// Wait on one of them,
+			if (_trylock(0) && _trylock(1) && _trylock(2)) return;	// then try to acquire the others.
+		}
 		LOCKLOG(DEBUG,"Multiple lock attempt %d",n);	// Seeing this message is a hint we are having contention issues.
 	}
 }
-- 
2.43.0


From 35d9ee81806288c5cd31a1e60ca863530c20d3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 07/74] fix: iqWaitForEither never returned once its timeout
 had passed

---
 Interthread.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Interthread.h b/Interthread.h
index 6e89efa..4a3a440 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -222,7 +222,9 @@ template <class T, class Fifo=PtrList<T> > class InterthreadQueue {
 		if (timeout) {
 			Timeval waitTime(timeout);
 			while (mQ.size() == 0 && other.mQ.size() == 0) {
-				mWriteSignalPointer->wait(*mLockPointer,waitTime.remaining());
+				long remaining = waitTime.remaining();
+				if (remaining <= 0) { return; }
+				mWriteSignalPointer->wait(*mLockPointer,remaining);
 			}
 		} else {	// Wait forever.
 			while (mQ.size() == 0 && other.mQ.size() == 0) {
-- 
2.43.0


From 2563baf28b575ec31c19acdae21c694555aabdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 08/74] fix: connected InterthreadQueues handed out the wrong
 lock for iteration

---
 Interthread.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Interthread.h b/Interthread.h
index 4a3a440..edcfd0f 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -132,13 +132,13 @@ template <class T, class Fifo=PtrList<T> > class InterthreadQueue {
 	}
 
 	// (pat) This provides a client the ability to lock the InterthreadQueue and iterate it.
-	Mutex &qGetLock() const { return mLock; }
+	Mutex &qGetLock() const { return *mLockPointer; }
 	typedef typename Fifo::iterator iterator;
 	typedef typename Fifo::const_iterator const_iterator;
-	iterator begin() { assert(mLock.lockcnt()); return mQ.begin(); }
-	iterator end() { assert(mLock.lockcnt()); return mQ.end(); }
-	const_iterator begin() const { assert(mLock.lockcnt()); return mQ.begin(); }
-	const_iterator end() const { assert(mLock.lockcnt()); return mQ.end(); }
+	iterator begin() { assert(mLockPointer->lockcnt()); return mQ.begin(); }
+	iterator end() { assert(mLockPointer->lockcnt()); return mQ.end(); }
+	const_iterator begin() const { assert(mLockPointer->lockcnt()); return mQ.begin(); }
+	const_iterator end() const { assert(mLockPointer->lockcnt()); return mQ.end(); }
 
 #if USE_SCOPED_ITERATORS
 	// The Iterator locks the InterthreadQueue until the Iterator falls out of scope.
-- 
2.43.0


From 08de41ed760cc4bea3f0ee7aca0fca163b388a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 09/74] fix: InterthreadQueueWithWait woke only one of several
 threads waiting for the queue to drain

---
 Interthread.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Interthread.h b/Interthread.h
index edcfd0f..013a1ff 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -345,7 +345,7 @@ template <class T> class InterthreadQueueWithWait {
 	{
 		ScopedLock lock(mLock);
 		while (mQ.size()>0) freeElement((T*)mQ.get());
-		mReadSignal.signal();
+		mReadSignal.broadcast();
 	}
 
 
@@ -372,7 +372,7 @@ template <class T> class InterthreadQueueWithWait {
 			mWriteSignal.wait(mLock);
 			retVal = (T*)mQ.get();
 		}
-		mReadSignal.signal();
+		mReadSignal.broadcast();
 		return retVal;
 	}
 
@@ -397,7 +397,7 @@ template <class T> class InterthreadQueueWithWait {
 			mWriteSignal.wait(mLock,remaining);
 		}
 		T* retVal = (T*)mQ.get();
-		if (retVal!=NULL) mReadSignal.signal();
+		if (retVal!=NULL) mReadSignal.broadcast();
 		return retVal;
 	}
 
@@ -409,7 +409,7 @@ template <class T> class InterthreadQueueWithWait {
 	{
 		ScopedLock lock(mLock);
 		T* retVal = (T*)mQ.get();
-		if (retVal!=NULL) mReadSignal.signal();
+		if (retVal!=NULL) mReadSignal.broadcast();
 		return retVal;
 	}
 
-- 
2.43.0


From a8ecc8342f0a6186ba6ff12b68c7f16fce38b7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 10/74] fix: InterthreadMap did not delete its elements on
 destruction

---
 Interthread.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Interthread.h b/Interthread.h
index 013a1ff..ebf675d 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -614,6 +614,13 @@ public:
 template <class K, class D > class InterthreadMap : public InterthreadMap1<K,D*>
 {
 	void vdelete(D* foo) { delete foo; }
+	public:
+	// The base class destructor cannot call our vdelete.
+	~InterthreadMap() {
+		ScopedLock lock(this->mLock);
+		for (typename InterthreadMap1<K,D*>::iterator iter = this->mMap.begin(); iter != this->mMap.end(); ++iter) { vdelete(iter->second); }
+		this->mMap.clear();
+	}
 };
 
 
-- 
2.43.0


From d81d3f3dfd3f1755d356c8440e44de2d9e150e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:14 +0000
Subject: [PATCH 11/74] fix: PointerFIFO never freed its list nodes

---
 LinkedLists.cpp | 6 ++++++
 LinkedLists.h   | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/LinkedLists.cpp b/LinkedLists.cpp
index 94e2533..a954802 100644
--- a/LinkedLists.cpp
+++ b/LinkedLists.cpp
@@ -69,6 +69,12 @@ void* PointerFIFO::get()
 }
 
 
+PointerFIFO::~PointerFIFO()
+{
+	while (mHead) { ListNode *next = mHead->next(); delete mHead; mHead = next; }
+	while (mFreeList) { ListNode *next = mFreeList->next(); delete mFreeList; mFreeList = next; }
+}
+
 ListNode *PointerFIFO::allocate()
 {
 	if (mFreeList==NULL) return new ListNode;
diff --git a/LinkedLists.h b/LinkedLists.h
index 0e28c63..19dd434 100644
--- a/LinkedLists.h
+++ b/LinkedLists.h
@@ -72,6 +72,9 @@ class PointerFIFO {
 		mSize(0)
 	{}
 
+	/** Free the nodes; the items they point to are not touched. */
+	~PointerFIFO();
+
 	unsigned size() const { return mSize; }
 	unsigned totalSize() const { return 0; }	// Not used in this version.
 
@@ -98,6 +101,10 @@ class PointerFIFO {
 	/** Release a node to the free pool after removal from the FIFO. */
 	void release(ListNode* wNode);
 
+	// Not copyable, the nodes belong to one FIFO.
+	PointerFIFO(const PointerFIFO&);
+	PointerFIFO& operator=(const PointerFIFO&);
+
 };
 
 // This is the default type for SingleLinkList Node element;
-- 
2.43.0


From cf0ceac697b4e59dae6e6c459d7d85fca155ba5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:45 +0000
Subject: [PATCH 12/74] fix: RefCntBase::getRefCnt read the count without its
 mutex

---
 Utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils.h b/Utils.h
index 988235b..ec5f1dc 100644
--- a/Utils.h
+++ b/Utils.h
@@ -215,7 +215,7 @@ class RefCntBase {
 	public:
 	virtual ~RefCntBase();
 	RefCntBase() : mRefCnt(0) {}
-	int getRefCnt() const { return mRefCnt; }
+	int getRefCnt() const { ScopedLock lock(mRefMutex); return mRefCnt; }
 };
 
 // This is basically the same as a C++11 shared_ptr, but we cannot use C++ 11 yet.
-- 
2.43.0


From aa0d6809a32e02015754283d953eecce87fc5841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:04 +0000
Subject: [PATCH 13/74] fix: BitVector::invert left elements that are neither 0
 nor 1, so comparison failed

---
 BitVector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BitVector.cpp b/BitVector.cpp
index f29ef52..1a5f764 100644
--- a/BitVector.cpp
+++ b/BitVector.cpp
@@ -155,7 +155,7 @@ void BitVector::writeFieldReversed(size_t& writeIndex, uint64_t value, unsigned
 void BitVector::invert()
 {
 	for (size_t i=0; i<size(); i++) {
-		mStart[i] = ~mStart[i];
+		mStart[i] = ~mStart[i] & 0x01;
 	}
 }
 
-- 
2.43.0


From 4de8ad8ad5d29ac0bdcffd9e5a11903ce29fc6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:04 +0000
Subject: [PATCH 14/74] fix: assigning a vector to itself or to a segment of
 itself lost or freed its data

---
 Vector.h | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/Vector.h b/Vector.h
index 91b850b..b3c19a9 100644
--- a/Vector.h
+++ b/Vector.h
@@ -150,6 +150,7 @@ template <class T> class VectorBase
 	void shiftMem(VectorBase<T>&other)
 	{
 		VECTORDEBUG("VectorBase::shiftMem(%p)",(void*)&other);
+		if (this == &other) { return; }
 		this->clear();
 		this->mData=other.mData;
 		this->mStart=other.mStart;
@@ -160,7 +161,8 @@ template <class T> class VectorBase
 	// Assign from another Vector, making this an alias to other.
 	void makeAlias(const VectorBase<T> &other)
 	{
-		if (this->getData()) {
+		// If other is a segment of our own memory we must not free it.
+		if (this->getData() && !(other.mStart >= this->mData && other.mStart <= this->mEnd)) {
 			assert(this->getData() != other.getData()); // Not possible by the semantics of Vector.
 			this->clear();
 		}
@@ -194,15 +196,24 @@ template <class T> class VectorBase
 
 
 	/** Copy data from another vector. */
+	// The other vector may be this one or an alias into it, so the old memory is released last.
 	void clone(const VectorBase<T>& other) {
-		this->resize(other.size());
-		memcpy(mData,other.mStart,other.bytes());
+		VectorDataType old = mData;
+		const T *start = other.mStart;
+		size_t elements = other.size();
+		vInit(elements);
+		memcpy(mData,start,elements*sizeof(T));
+		if (old!=NULL) delete[] old;
 	}
 
 	void vConcat(const VectorBase<T>&other1, const VectorBase<T>&other2) {
-		this->resize(other1.size()+other2.size());
-		memcpy(this->mStart, other1.mStart, other1.bytes());
-		memcpy(this->mStart+other1.size(), other2.mStart, other2.bytes());
+		VectorDataType old = mData;
+		const T *start1 = other1.mStart, *start2 = other2.mStart;
+		size_t elements1 = other1.size(), elements2 = other2.size();
+		vInit(elements1+elements2);
+		memcpy(this->mStart, start1, elements1*sizeof(T));
+		memcpy(this->mStart+elements1, start2, elements2*sizeof(T));
+		if (old!=NULL) delete[] old;
 	}
 
 	protected:
@@ -286,6 +297,7 @@ template <class T> class VectorBase
 	// If the original vector owned memory, clone it, otherwise just copy the segment data.
 	void operator=(const VectorBase<T>& other) {
 		//std::cout << "Vector=(this="<<this->inspect()<<",other="<<other.inspect()<<")"<<endl;
+		if (this == &other) { return; }
 		if (other.getData()) {
 			this->clone(other);
 		} else {
-- 
2.43.0


From 604df3633ed70ab5027efa53a21910b435f4c761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:49 +0000
Subject: [PATCH 15/74] fix: format() dropped the last character of a
 199-character result

---
 Utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index aed42c7..952283b 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -134,7 +134,7 @@ string format(const char *fmt, ...)
 	int n = vsnprintf(buf,199,fmt,ap);
 	va_end(ap);
 	string result;
-	if (n <= 199) {
+	if (n < 199) {
 		result = string(buf);
 	} else {
 		if (n > 5000) { LOG(ERR) << "oversized string in format"; n = 5000; }
@@ -177,7 +177,7 @@ string format1(const char *fmt, ...)
 	int n = vsnprintf(buf,199,fmt,ap);
 	va_end(ap);
 	string result;
-	if (n <= 199) {
+	if (n < 199) {
 		result = string(buf);
 	} else {
 		if (n > 5000) { LOG(ERR) << "oversized string in format"; n = 5000; }
-- 
2.43.0


From db534ebcce71fca9c762ed570e9e9ce28729583a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:49 +0000
Subject: [PATCH 16/74] fix: replaceAll looped forever on an empty search
 string and logged an error when done

---
 Utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Utils.cpp b/Utils.cpp
index 952283b..f8b706f 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -477,8 +477,9 @@ ostream& operator<<(std::ostream& os, const Statistic<double> &stat) { stat.text
 string replaceAll(const std::string input, const std::string search, const std::string replace)
 {
 	string output = input;
- 	unsigned index1 = 0;
+	size_t index1 = 0;
 
+	if (search.empty()) { return output; }	// Nothing to search for.
 	while (index1 < output.size()) {
 	  try {
 		index1 = output.find(search, index1);
-- 
2.43.0


From 6f47c7904f357382535d4dcbdea75722ac2b25cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:49 +0000
Subject: [PATCH 17/74] fix: myscanf of one string read an uninitialised buffer
 when nothing matched

---
 Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils.cpp b/Utils.cpp
index f8b706f..5e75bec 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -199,7 +199,7 @@ int myscanf(const char *str, const char *fmt, string *s1)
 	int maxlen = strlen(str)+1;
 	char *a1 = (char*)alloca(maxlen);
 	int n = sscanf(str,fmt,a1);
-	s1->assign(a1);
+	if (n == 1) { s1->assign(a1); }
 	return n;
 }
 int myscanf(const char *str, const char *fmt, string *s1, string *s2)
-- 
2.43.0


From 328e6ebdb2a0fa643bfc8ff348355ccffe33bbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:49 +0000
Subject: [PATCH 18/74] fix: base64 decoding made up a byte from a lone
 character instead of reporting it

---
 Utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Utils.cpp b/Utils.cpp
index 5e75bec..517e900 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -679,7 +679,8 @@ static string base64DecodeToString(const unsigned char *ubuf, unsigned buflen, s
 			j++;
 		}
 		// Spit out 3 chars.
-		if (j >= 1) result.push_back(0xff&(accum >>16));
+		if (j == 1) { errorMessage = "truncated base64 data"; }	// 6 bits do not make a character.
+		if (j >= 2) result.push_back(0xff&(accum >>16));
 		if (j >= 3) result.push_back(0xff&(accum >>8));
 		if (j == 4) result.push_back(0xff&accum);
 	}
-- 
2.43.0


From a95e6111e3082261ce37e41efed97898bb23c3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:49 +0000
Subject: [PATCH 19/74] fix: URLEncode wrote every hex digit above 9 one too
 low

---
 URLEncode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/URLEncode.cpp b/URLEncode.cpp
index a993ac6..f66a9cd 100644
--- a/URLEncode.cpp
+++ b/URLEncode.cpp
@@ -32,7 +32,7 @@ using namespace std;
 //based on javascript encodeURIComponent()
 string URLEncode(const string &c)
 {
-	static const char *digits = "01234567890ABCDEF";
+	static const char *digits = "0123456789ABCDEF";
 	string retVal="";
 	for (size_t i=0; i<c.length(); i++)
 	{
-- 
2.43.0


From f382d928ca7aad4bf261e76ccd87acfdee8b9c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:49 +0000
Subject: [PATCH 20/74] fix: URLEncode passed NUL characters through unescaped
 and signed characters to isalnum

---
 URLEncode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/URLEncode.cpp b/URLEncode.cpp
index f66a9cd..4d26c72 100644
--- a/URLEncode.cpp
+++ b/URLEncode.cpp
@@ -36,8 +36,8 @@ string URLEncode(const string &c)
 	string retVal="";
 	for (size_t i=0; i<c.length(); i++)
 	{
-		const char ch = c[i];
-		if (isalnum(ch) || strchr("-_.!~'()",ch)) {
+		const unsigned char ch = c[i];
+		if (isalnum(ch) || (ch && strchr("-_.!~'()",ch))) {
 			retVal += ch;
 		} else {
 			retVal += '%';
-- 
2.43.0


From cafa8e1dc6f19ad87da1a3f6c9743acde8400cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:38 +0000
Subject: [PATCH 21/74] fix: encoding names were compared case sensitively
 despite stringCaseInsensitive

---
 Utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index 517e900..a2c513a 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -29,8 +29,8 @@ namespace Utils {
 using namespace std;
 
 struct stringCaseInsensitive : public string {
-	bool operator==(string &other) { return 0==strcasecmp(this->c_str(),other.c_str()); }
-	bool operator!=(string &other) { return 0!=strcasecmp(this->c_str(),other.c_str()); }
+	bool operator==(const char *other) const { return 0==strcasecmp(this->c_str(),other); }
+	bool operator!=(const char *other) const { return 0!=strcasecmp(this->c_str(),other); }
 	stringCaseInsensitive(string &other) : string(other) {}
 	stringCaseInsensitive(const char* &other) : string(other) {}
 };
-- 
2.43.0


From 4cda9be57b5a2d0c3b62b1a06ee3eec4e623fa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:18 +0000
Subject: [PATCH 22/74] fix: F16 assignment returned a different value from the
 one assigned

---
 F16.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/F16.h b/F16.h
index 374c91a..2d98c63 100644
--- a/F16.h
+++ b/F16.h
@@ -82,7 +82,7 @@ class F16 {
 	F16 operator=(const F16& other)
 	{
 		mV = other.mV;
-		return mV;
+		return *this;
 	}
 
 	F16 operator+(const F16& other) const
-- 
2.43.0


From 7208fad407ac00dbc1b90f00ce5f8ca22ee2f232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:55 +0000
Subject: [PATCH 23/74] fix: F16 arithmetic and conversions wrapped around
 instead of saturating as documented

---
 F16.h | 66 ++++++++++++++++++++++++++++++++++++++---------------------
 1 file changed, 43 insertions(+), 23 deletions(-)

diff --git a/F16.h b/F16.h
index 2d98c63..c1c9383 100644
--- a/F16.h
+++ b/F16.h
@@ -32,15 +32,35 @@
 
 
 
-/** Round a float to the appropriate F16 value. */
-inline int32_t _f16_round(float f)
+/** Round a value to the nearest F16 raw value, saturating at the limits of the format. */
+inline int32_t _f16_round(double f)
 {
-	if (f>0.0F) return (int32_t)(f+0.5F);
-	if (f<0.0F) return (int32_t)(f-0.5F);
+	if (f >= 2147483647.0) return INT32_MAX;
+	if (f <= -2147483648.0) return INT32_MIN;
+	if (f>0.0) return (int32_t)(f+0.5);
+	if (f<0.0) return (int32_t)(f-0.5);
 	return 0;
 }
 
 
+/** Saturate a wide raw value at the limits of the F16 format. */
+inline int32_t _f16_sat(int64_t v)
+{
+	if (v > INT32_MAX) return INT32_MAX;
+	if (v < INT32_MIN) return INT32_MIN;
+	return (int32_t)v;
+}
+
+
+/** Truncate a wide raw value to an F16 raw value, saturating at the limits of the format. */
+inline int32_t _f16_trunc(double f)
+{
+	if (f >= 2147483647.0) return INT32_MAX;
+	if (f <= -2147483648.0) return INT32_MIN;
+	return (int32_t)f;
+}
+
+
 
 /** A class for F15.16 fixed point arithmetic with saturation.  */
 class F16 {
@@ -55,9 +75,9 @@ class F16 {
 
 	F16() {}
 
-	F16(int i) { mV = i<<16; }
-	F16(float f) { mV = _f16_round(f*65536.0F); }
-	F16(double f) { mV = _f16_round((float)f*65536.0F); }
+	F16(int i) { mV = _f16_sat((int64_t)i*65536); }
+	F16(float f) { mV = _f16_round(f*65536.0); }
+	F16(double f) { mV = _f16_round(f*65536.0); }
 
 	int32_t& raw() { return mV; }
 	const int32_t& raw() const { return mV; }
@@ -69,13 +89,13 @@ class F16 {
 
 	F16 operator=(float f)
 	{
-		mV = _f16_round(f*65536.0F);
+		mV = _f16_round(f*65536.0);
 		return *this;
 	}
 
 	F16 operator=(int i)
 	{
-		mV = i<<16;
+		mV = _f16_sat((int64_t)i*65536);
 		return *this;
 	}
 
@@ -88,26 +108,26 @@ class F16 {
 	F16 operator+(const F16& other) const
 	{
 		F16 retVal;
-		retVal.mV = mV + other.mV;
+		retVal.mV = _f16_sat((int64_t)mV + other.mV);
 		return retVal;
 	}
 
 	F16& operator+=(const F16& other)
 	{
-		mV += other.mV;
+		mV = _f16_sat((int64_t)mV + other.mV);
 		return *this;
 	}
 
 	F16 operator-(const F16& other) const
 	{
 		F16 retVal;
-		retVal.mV = mV - other.mV;
+		retVal.mV = _f16_sat((int64_t)mV - other.mV);
 		return retVal;
 	}
 
 	F16& operator-=(const F16& other)
 	{
-		mV -= other.mV;
+		mV = _f16_sat((int64_t)mV - other.mV);
 		return *this;
 	}
 
@@ -115,55 +135,55 @@ class F16 {
 	{
 		F16 retVal;
 		int64_t p = (int64_t)mV * (int64_t)other.mV;
-		retVal.mV = p>>16;
+		retVal.mV = _f16_sat(p>>16);
 		return retVal;
 	}
 
 	F16& operator*=(const F16& other)
 	{
 		int64_t p = (int64_t)mV * (int64_t)other.mV;
-		mV = p>>16;
+		mV = _f16_sat(p>>16);
 		return *this;
 	}
 
 	F16 operator*(float f) const
 	{
 		F16 retVal;
-		retVal.mV = mV * f;
+		retVal.mV = _f16_trunc((double)mV * f);
 		return retVal;
 	}
 
 	F16& operator*=(float f)
 	{
-		mV *= f;
+		mV = _f16_trunc((double)mV * f);
 		return *this;
 	}
 
 	F16 operator/(const F16& other) const
 	{
 		F16 retVal;
-		int64_t pV = (int64_t)mV << 16;
-		retVal.mV = pV / other.mV;
+		int64_t pV = (int64_t)mV * 65536;
+		retVal.mV = _f16_sat(pV / other.mV);
 		return retVal;
 	}
 
 	F16& operator/=(const F16& other)
 	{
-		int64_t pV = (int64_t)mV << 16;
-		mV = pV / other.mV;
+		int64_t pV = (int64_t)mV * 65536;
+		mV = _f16_sat(pV / other.mV);
 		return *this;
 	}
 
 	F16 operator/(float f) const
 	{
 		F16 retVal;
-		retVal.mV = mV / f;
+		retVal.mV = _f16_trunc((double)mV / f);
 		return retVal;
 	}
 
 	F16& operator/=(float f)
 	{
-		mV /= f;
+		mV = _f16_trunc((double)mV / f);
 		return *this;
 	}
 
-- 
2.43.0


From d66fc6280d1d590113cafbbb5bf0d6cbc004e175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:31 +0000
Subject: [PATCH 24/74] fix: labelled memory-leak counters were updated without
 the lock that protects the others

---
 MemoryLeak.h | 5 +++--
 Utils.cpp    | 8 ++++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/MemoryLeak.h b/MemoryLeak.h
index c7ae4f9..1550f9b 100644
--- a/MemoryLeak.h
+++ b/MemoryLeak.h
@@ -65,6 +65,7 @@ struct MemStats {
 	MemStats();
 	void memChkNew(MemoryNames memIndex, const char *id);
 	void memChkDel(MemoryNames memIndex, const char *id);
+	void memChkLabel(const std::string &key, int delta);
 	void text(std::ostream &os);
 	// We would prefer to use an unordered_map, but that requires special compile switches.
 	// What a super great language.
@@ -82,7 +83,7 @@ extern int gMemLeakDebug;
 struct MemLabel {
 	std::string mccKey;
 	virtual ~MemLabel() {
-		Int_z &tmp = Utils::gMemStats.mMemMap[mccKey]; tmp = tmp - 1;
+		Utils::gMemStats.memChkLabel(mccKey,-1);
 	}
 };
 
@@ -100,7 +101,7 @@ struct MemLabel {
 #define RN_MEMLOG(type,ptr) { \
 	static std::string key = format("%s_%s:%d",#type,__FILE__,__LINE__); \
 	(ptr)->/* MemCheck##type:: */ mccKey = key; \
-	Utils::gMemStats.mMemMap[key]++; \
+	Utils::gMemStats.memChkLabel(key,1); \
 	}
 
 // TODO: The above assumes that checkclass is MemCheck ## subClass
diff --git a/Utils.cpp b/Utils.cpp
index a2c513a..dc7851c 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -80,6 +80,7 @@ MemStats::MemStats()
 
 void MemStats::text(ostream &os)
 {
+	ScopedLock lock(memChkLock);
 	os << "Structs current total:\n";
 	for (int i = 0; i < mMax; i++) {
 		os << "\t" << (mMemName[i] ? mMemName[i] : "unknown") << " " << mMemNow[i] << " " << mMemTotal[i] << "\n";
@@ -109,6 +110,13 @@ void MemStats::memChkDel(MemoryNames memIndex, const char *id)
 	}
 }
 
+void MemStats::memChkLabel(const std::string &key, int delta)
+{
+	ScopedLock lock(memChkLock);
+	Int_z &count = mMemMap[key];
+	count = count + delta;
+}
+
 ostream& operator<<(std::ostream& os, std::ostringstream& ss)
 {
 	return os << ss.str();
-- 
2.43.0


From 0869450982bf257f07a41b3885dca23b063a9711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:19 +0000
Subject: [PATCH 25/74] fix: sqlite helpers truncated long keys and attributes
 and took quotes in them as SQL

---
 sqlite3util.cpp | 51 +++++++++++++++++++++++--------------------------
 sqlite3util.h   |  3 +++
 2 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/sqlite3util.cpp b/sqlite3util.cpp
index b7ebd43..b2dba4e 100644
--- a/sqlite3util.cpp
+++ b/sqlite3util.cpp
@@ -85,18 +85,24 @@ int sqlite3_run_query(sqlite3* DB, sqlite3_stmt *stmt, unsigned retries)
 	return src;
 }
 
-// condition buffer is size 100 minimum.
-static const unsigned sqlBufferSize = 100;
-static const char *condition_c(char *resultBuffer,const char *keyName, const char*keyValue)
+string sqlite3_quote(const string &text)
 {
-	snprintf(resultBuffer,sqlBufferSize,"WHERE %s == '%s'",keyName,keyValue);
-	return resultBuffer;
+	string result = "'";
+	for (size_t i = 0; i < text.size(); i++) {
+		if (text[i] == '\'') { result += '\''; }
+		result += text[i];
+	}
+	return result + "'";
+}
+
+static string condition_c(const char *keyName, const char*keyValue)
+{
+	return string("WHERE ") + keyName + " == " + sqlite3_quote(keyValue);
 }
 
-static const char *condition_u(char *resultBuffer,const char *keyName, unsigned keyValue)
+static string condition_u(const char *keyName, unsigned keyValue)
 {
-	snprintf(resultBuffer,sqlBufferSize,"WHERE %s == %u",keyName,keyValue);
-	return resultBuffer;
+	return format("WHERE %s == %u",keyName,keyValue);
 }
 
 void sqlQuery::queryStart(sqlite3*db, const char *tableName,const char *resultColumns, const char*condition)
@@ -132,14 +138,12 @@ sqlQuery::sqlQuery(sqlite3*db, const char *tableName,const char *resultColumns,c
 
 sqlQuery::sqlQuery(sqlite3*db, const char *tableName,const char *resultColumns,const char *keyName, unsigned keyData)
 {
-	char conditionBuffer[sqlBufferSize];
-	queryStart(db,tableName,resultColumns,condition_u(conditionBuffer,keyName,keyData));
+	queryStart(db,tableName,resultColumns,condition_u(keyName,keyData).c_str());
 }
 
 sqlQuery::sqlQuery(sqlite3*db, const char *tableName,const char *resultColumns,const char *keyName, const char *keyData)
 {
-	char conditionBuffer[sqlBufferSize];
-	queryStart(db,tableName,resultColumns,condition_c(conditionBuffer,keyName,keyData));
+	queryStart(db,tableName,resultColumns,condition_c(keyName,keyData).c_str());
 }
 
 sqlQuery::~sqlQuery()
@@ -166,12 +170,10 @@ sqlite3_int64 sqlQuery::getResultInt(int colNum)
 bool sqlite3_exists(sqlite3* DB, const char *tableName,
 		const char* keyName, const char* keyData, unsigned retries)
 {
-	size_t stringSize = 100 + strlen(tableName) + strlen(keyName) + strlen(keyData);
-	char query[stringSize];
-	sprintf(query,"SELECT * FROM %s WHERE %s == \"%s\"",tableName,keyName,keyData);
+	string query = string("SELECT * FROM ") + tableName + " " + condition_c(keyName,keyData);
 	// Prepare the statement.
 	sqlite3_stmt *stmt;
-	if (sqlite3_prepare_statement(DB,&stmt,query,retries)) return false;
+	if (sqlite3_prepare_statement(DB,&stmt,query.c_str(),retries)) return false;
 	// Read the result.
 	int src = sqlite3_run_query(DB,stmt,retries);
 	sqlite3_finalize(stmt);
@@ -185,12 +187,10 @@ bool sqlite3_single_lookup(sqlite3* DB, const char *tableName,
 		const char* keyName, const char* keyData,
 		const char* valueName, unsigned &valueData, unsigned retries)
 {
-	size_t stringSize = 100 + strlen(valueName) + strlen(tableName) + strlen(keyName) + strlen(keyData);
-	char query[stringSize];
-	sprintf(query,"SELECT %s FROM %s WHERE %s == \"%s\"",valueName,tableName,keyName,keyData);
+	string query = string("SELECT ") + valueName + " FROM " + tableName + " " + condition_c(keyName,keyData);
 	// Prepare the statement.
 	sqlite3_stmt *stmt;
-	if (sqlite3_prepare_statement(DB,&stmt,query,retries)) return false;
+	if (sqlite3_prepare_statement(DB,&stmt,query.c_str(),retries)) return false;
 	// Read the result.
 	int src = sqlite3_run_query(DB,stmt,retries);
 	bool retVal = false;
@@ -317,12 +317,10 @@ bool sqlite3_single_lookup(sqlite3* DB, const char* tableName,
 		const char* valueName, char* &valueData, unsigned retries)
 {
 	valueData=NULL;
-	size_t stringSize = 100 + strlen(valueName) + strlen(tableName) + strlen(keyName) + strlen(keyData);
-	char query[stringSize];
-	snprintf(query,stringSize,"SELECT %s FROM %s WHERE %s == \"%s\"",valueName,tableName,keyName,keyData);
+	string query = string("SELECT ") + valueName + " FROM " + tableName + " " + condition_c(keyName,keyData);
 	// Prepare the statement.
 	sqlite3_stmt *stmt;
-	if (sqlite3_prepare_statement(DB,&stmt,query,retries)) return false;
+	if (sqlite3_prepare_statement(DB,&stmt,query.c_str(),retries)) return false;
 	// Read the result.
 	int src = sqlite3_run_query(DB,stmt,retries);
 	bool retVal = false;
@@ -370,9 +368,8 @@ bool sqlite_set_attr(sqlite3*db,const char *attr_name,const char*attr_value)
 		_LOG(WARNING) << "Could not create ATTR_TABLE in database file ";// <<(fn?fn:"");
 		return false;
 	}
-	char query[100];
-	snprintf(query,100,"REPLACE INTO ATTR_TABLE (ATTR_NAME,ATTR_VALUE) VALUES('%s','%s')",attr_name,attr_value);
-	if (! sqlite3_command(db,query)) {
+	string query = "REPLACE INTO ATTR_TABLE (ATTR_NAME,ATTR_VALUE) VALUES(" + sqlite3_quote(attr_name) + "," + sqlite3_quote(attr_value) + ")";
+	if (! sqlite3_command(db,query.c_str())) {
 		// (mike) 2014-06: to free ourselves of the in-tree sqlite3 code, the system library must be used.
 		//        However, sqlite3_db_filename is not available in Ubuntu 12.04. Removing dependence for now.
 		//const char *fn = sqlite3_db_filename(db,"main");
diff --git a/sqlite3util.h b/sqlite3util.h
index bc14318..7e2d09e 100644
--- a/sqlite3util.h
+++ b/sqlite3util.h
@@ -66,6 +66,9 @@ class sqlQuery {
 // (pat) These functions should probably not begin with "sqlite3_" since that is reserved for sqlite3 itself...
 int sqlite3_prepare_statement(sqlite3* DB, sqlite3_stmt **stmt, const char* query, unsigned retries = 5);
 
+// Return text as an SQL string literal, including the enclosing quotes.
+std::string sqlite3_quote(const std::string &text);
+
 int sqlite3_run_query(sqlite3* DB, sqlite3_stmt *stmt, unsigned retries = 5);
 
 bool sqlite3_single_lookup(sqlite3* DB, const char *tableName,
-- 
2.43.0


From 8f1c8ab13dbb7094c049fd1fd954c7b53823bf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:19 +0000
Subject: [PATCH 26/74] fix: configuration keys, values and descriptions
 containing quotes or naming a column were not stored as given

---
 Configuration.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 2488a6b..01cac22 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -833,7 +833,7 @@ bool ConfigurationTable::remove(const string& key)
 	ConfigurationMap::iterator where = mCache.find(key);
 	if (where!=mCache.end()) mCache.erase(where);
 	// Really remove it.
-	string cmd = "DELETE FROM CONFIG WHERE KEYSTRING=='"+key+"'";
+	string cmd = "DELETE FROM CONFIG WHERE KEYSTRING=="+sqlite3_quote(key);
 	return sqlite3_command(mDB,cmd.c_str());
 }
 
@@ -842,7 +842,7 @@ bool ConfigurationTable::remove(const string& key)
 void ConfigurationTable::find(const string& pat, ostream& os) const
 {
 	// Prepare the statement.
-	string cmd = "SELECT KEYSTRING,VALUESTRING FROM CONFIG WHERE KEYSTRING LIKE \"%" + pat + "%\"";
+	string cmd = "SELECT KEYSTRING,VALUESTRING FROM CONFIG WHERE KEYSTRING LIKE " + sqlite3_quote("%" + pat + "%");
 	sqlite3_stmt *stmt;
 	if (sqlite3_prepare_statement(mDB,&stmt,cmd.c_str())) return;
 	// Read the result.
@@ -895,9 +895,9 @@ bool ConfigurationTable::set(const string& key, const string& value)
 	ScopedLock lock(mLock);
 	string cmd;
 	if (keyDefinedInSchema(key)) {
-		cmd = "INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING,OPTIONAL,COMMENTS) VALUES (\"" + key + "\",\"" + value + "\",1,\'" + mSchema[key].getDescription() + "\')";
+		cmd = "INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING,OPTIONAL,COMMENTS) VALUES (" + sqlite3_quote(key) + "," + sqlite3_quote(value) + ",1," + sqlite3_quote(mSchema[key].getDescription()) + ")";
 	} else {
-		cmd = "INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING,OPTIONAL) VALUES (\"" + key + "\",\"" + value + "\",1)";
+		cmd = "INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING,OPTIONAL) VALUES (" + sqlite3_quote(key) + "," + sqlite3_quote(value) + ",1)";
 	}
 	
 	bool success = sqlite3_command(mDB,cmd.c_str());
-- 
2.43.0


From f51e27733da742dd307a289866bd765c49ca3c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:19 +0000
Subject: [PATCH 27/74] fix: generated configuration SQL was invalid for values
 or descriptions with quotes

---
 Configuration.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 01cac22..0cd48dd 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -231,9 +231,9 @@ string ConfigurationTable::getDefaultSQL(const std::string& program, const std::
 	while (mp != mSchema.end()) {
 		ss << "INSERT OR IGNORE INTO \"CONFIG\" VALUES(";
 			// name
-			ss << "'" << mp->first << "',";
+			ss << sqlite3_quote(mp->first) << ",";
 			// default
-			ss << "'" << mp->second.getDefaultValue() << "',";
+			ss << sqlite3_quote(mp->second.getDefaultValue()) << ",";
 			// static
 			if (mp->second.isStatic()) {
 				ss << "1";
@@ -244,19 +244,14 @@ string ConfigurationTable::getDefaultSQL(const std::string& program, const std::
 			// optional
 			ss << "0,";
 			// description
-			const string description = mp->second.getDescription();
-			// Try to use a quote that will work: if the description contains ' quote with " else '.
-			// This is not perfect because these quotes could themselves be quoted.
-			const char * quote = string::npos != description.find('\'') ? "\"" : "'";
-			ss << quote;
+			string description = mp->second.getDescription();
 			if (mp->second.getType() == ConfigurationKey::BOOLEAN) {
-				ss << "1=enabled, 0=disabled - ";
+				description = "1=enabled, 0=disabled - " + description;
 			}
-			ss << mp->second.getDescription();
 			if (mp->second.isStatic()) {
-				ss << "  Static.";
+				description += "  Static.";
 			}
-			ss << quote;
+			ss << sqlite3_quote(description);
 		ss << ");" << endl;
 		mp++;
 	}
-- 
2.43.0


From a2d07023d55e849d159c420f6849b31eda6c44cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:19 +0000
Subject: [PATCH 28/74] fix: removing a configuration key that is not there
 reported that something was removed

---
 Configuration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 0cd48dd..a7efd3c 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -829,7 +829,7 @@ bool ConfigurationTable::remove(const string& key)
 	if (where!=mCache.end()) mCache.erase(where);
 	// Really remove it.
 	string cmd = "DELETE FROM CONFIG WHERE KEYSTRING=="+sqlite3_quote(key);
-	return sqlite3_command(mDB,cmd.c_str());
+	return sqlite3_command(mDB,cmd.c_str()) && sqlite3_changes(mDB) > 0;
 }
 
 
-- 
2.43.0


From 92f7ba1bb2ea30d083c94159a66df2d9663b9270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:58 +0000
Subject: [PATCH 29/74] fix: value validation accepted trailing garbage, bad
 list entries and unknown keys, and rejected plain choices

---
 Configuration.cpp | 87 ++++++++++++++++++++++++-----------------------
 1 file changed, 45 insertions(+), 42 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index a7efd3c..72928c4 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -353,10 +353,29 @@ bool ConfigurationTable::keyDefinedInSchema(const std::string& name)
 	return mSchema.find(name) == mSchema.end() ? false : true;
 }
 
+// The value of text that consists of decimal digits only, or -1.
+static long decimalValue(const std::string& text)
+{
+	if (text.empty() || text.size() > 9 || text.find_first_not_of("0123456789") != std::string::npos) { return -1; }
+	return atol(text.c_str());
+}
+
+static bool isValidPort(const std::string& text)
+{
+	long port = decimalValue(text);
+	return 1 <= port && port <= 65535;
+}
+
 bool ConfigurationTable::isValidValue(const std::string& name, const std::string& val) {
 	bool ret = false;
 
-	ConfigurationKey key = mSchema[name];
+	// Use find: operator[] would add an entry for an unknown name.
+	ConfigurationKeyMap::const_iterator known = mSchema.find(name);
+	if (known == mSchema.end()) { return false; }
+	ConfigurationKey key = known->second;
+
+	// The C functions below would only see the part before a zero byte.
+	if (val.find('\0') != std::string::npos) { return false; }
 
 	switch (key.getType()) {
 		case ConfigurationKey::BOOLEAN: {
@@ -374,22 +393,16 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 		}
 		case ConfigurationKey::CHOICE: {
 			int startPos = -1;
-			uint endPos = 0;
 
 			std::string tmp = key.getValidValues();
 
 			do {
 				startPos++;
-				if ((endPos = tmp.find('|', startPos)) != std::string::npos) {
-					if (val == tmp.substr(startPos, endPos-startPos)) {
-						ret = true;
-						break;
-					}
-				} else {
-					if (val == tmp.substr(startPos, tmp.find(',', startPos)-startPos)) {
-						ret = true;
-						break;
-					}
+				// One choice, without its optional explanation.
+				std::string choice = tmp.substr(startPos, tmp.find(',', startPos)-startPos);
+				if (val == choice.substr(0, choice.find('|'))) {
+					ret = true;
+					break;
 				}
 
 			} while ((startPos = tmp.find(',', startPos)) != (int)std::string::npos);
@@ -403,14 +416,14 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 			}
 		}
 		case ConfigurationKey::CIDR: {
-			uint delimiter;
+			size_t delimiter;
 			std::string ip;
-			int cidr = -1;
+			long cidr = -1;
 
 			delimiter = val.find('/');
 			if (delimiter != std::string::npos) {
 				ip = val.substr(0, delimiter);
-				std::stringstream(val.substr(delimiter+1)) >> cidr;
+				cidr = decimalValue(val.substr(delimiter+1));
 				if (ConfigurationKey::isValidIP(ip) && 0 <= cidr && cidr <= 32) {
 					ret = true;
 				}
@@ -447,15 +460,13 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 			}
 		}
 		case ConfigurationKey::HOSTANDPORT: {
-			uint delimiter;
+			size_t delimiter;
 			std::string host;
-			int port = -1;
 			bool validHost = false;
 
 			delimiter = val.find(':');
 			if (delimiter != std::string::npos) {
 				host = val.substr(0, delimiter);
-				std::stringstream(val.substr(delimiter+1)) >> port;
 				if (ConfigurationKey::isValidIP(host)) {
 					validHost = true;
 				} else {
@@ -473,7 +484,7 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 					regfree(&r);
 				}
 
-				if (validHost && 1 <= port && port <= 65535) {
+				if (validHost && isValidPort(val.substr(delimiter+1))) {
 					ret = true;
 				}
 			}
@@ -492,15 +503,13 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 		}
 
 		case ConfigurationKey::IPANDPORT: {
-			uint delimiter;
+			size_t delimiter;
 			std::string ip;
-			int port = -1;
 
 			delimiter = val.find(':');
 			if (delimiter != std::string::npos) {
 				ip = val.substr(0, delimiter);
-				std::stringstream(val.substr(delimiter+1)) >> port;
-				if (ConfigurationKey::isValidIP(ip) && 1 <= port && port <= 65535) {
+				if (ConfigurationKey::isValidIP(ip) && isValidPort(val.substr(delimiter+1))) {
 					ret = true;
 				}
 			}
@@ -515,24 +524,22 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 		}
 		case ConfigurationKey::MIPADDRESS: {
 			int startPos = -1;
-			uint endPos = 0;
-			uint delimiter;
+			size_t endPos = 0;
+			size_t delimiter;
 			std::string ip;
-			int port = -1;
 
 			do {
 				startPos++;
 				endPos = val.find(' ', startPos);
-				port = -1;
+				std::string item = val.substr(startPos, endPos-startPos);
 
-				if (ConfigurationKey::isValidIP(val.substr(startPos, endPos-startPos))) {
+				if (ConfigurationKey::isValidIP(item)) {
 					ret = true;
 				} else {
-					delimiter = val.find(':');
+					delimiter = item.find(':');
 					if (delimiter != std::string::npos) {
-						ip = val.substr(startPos, delimiter);
-						std::stringstream(val.substr(delimiter+1, endPos)) >> port;
-						if (ConfigurationKey::isValidIP(ip) && 1 <= port && port <= 65535) {
+						ip = item.substr(0, delimiter);
+						if (ConfigurationKey::isValidIP(ip) && isValidPort(item.substr(delimiter+1))) {
 							ret = true;
 						} else {
 							ret = false;
@@ -555,13 +562,7 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 			}
 		}
 		case ConfigurationKey::PORT: {
-			int intVal;
-
-			std::stringstream(val) >> intVal;
-
-			if (1 <= intVal && intVal <= 65535) {
-				ret = true;
-			}
+			ret = isValidPort(val);
 			break;
 		}
 
@@ -1037,9 +1038,9 @@ bool ConfigurationKey::isValidIP(const std::string& ip) {
 
 
 void ConfigurationKey::getMinMaxStepping(const ConfigurationKey &key, std::string &min, std::string &max, std::string &stepping) {
-	uint delimiter;
+	size_t delimiter;
 	int startPos;
-	uint endPos;
+	size_t endPos;
 
 	std::string tmp = key.getValidValues();
 	stepping = "1";
@@ -1070,7 +1071,9 @@ template<class T> bool ConfigurationKey::isInValRange(const ConfigurationKey &ke
 	std::string strMax;
 	std::string strSteps;
 
-	std::stringstream(val) >> convVal;
+	// The whole text must be a number that fits.
+	std::stringstream ss(val);
+	if (!(ss >> convVal) || ss.peek() != EOF) { return false; }
 
 	ConfigurationKey::getMinMaxStepping(key, strMin, strMax, strSteps);
 	std::stringstream(strMin) >> min;
-- 
2.43.0


From 16442c2c5380cc7c6a1488a534ec42e85587a0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:51 +0000
Subject: [PATCH 30/74] fix: a failed database read was cached as if the key
 were missing

---
 Configuration.cpp | 22 +++++++++++++++++++---
 Configuration.h   |  1 +
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 72928c4..20d0282 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -669,10 +669,26 @@ const ConfigurationRecord& ConfigurationTable::lookup(const string& key)
 	// Check the database.
 	// This is more expensive.
 	char *value = NULL;
-	sqlite3_single_lookup(mDB,"CONFIG",
-			"KEYSTRING",key.c_str(),"VALUESTRING",value);
+	string cmd = "SELECT VALUESTRING FROM CONFIG WHERE KEYSTRING==" + sqlite3_quote(key);
+	sqlite3_stmt *stmt;
+	int src = sqlite3_prepare_statement(mDB,&stmt,cmd.c_str());
+	if (!src) {
+		src = sqlite3_run_query(mDB,stmt);
+		if (src==SQLITE_ROW) {
+			const char *text = (const char*)sqlite3_column_text(stmt,0);
+			if (text) value = strdup(text);
+			else if (sqlite3_column_type(stmt,0)!=SQLITE_NULL) src = SQLITE_NOMEM;
+		}
+		sqlite3_finalize(stmt);
+	}
 
-	// (pat 9-2014) If sqlite3_single_lookup returns false, the behavior below is incorrect.
+	// The database could not be read, so the value is unknown.
+	// Fall back to the default, but do not remember it: the next lookup must try again.
+	if (src!=SQLITE_ROW && src!=SQLITE_DONE) {
+		if (!keyDefinedInSchema(key)) throw ConfigurationTableKeyNotFound(key);
+		mUncached = ConfigurationRecord(key,mSchema[key].getDefaultValue());
+		return mUncached;
+	}
 
 	// value found, cache the result
 	if (value) {
diff --git a/Configuration.h b/Configuration.h
index 5f6004d..966153d 100644
--- a/Configuration.h
+++ b/Configuration.h
@@ -196,6 +196,7 @@ class ConfigurationTable {
 
 	sqlite3* mDB;				///< database connection
 	ConfigurationMap mCache;	///< cache of recently access configuration values
+	ConfigurationRecord mUncached;	///< result of a lookup that must not be cached
 	mutable Mutex mLock;		///< control for multithreaded access to the cache
 	std::vector<std::string> (*mCrossCheck)(const std::string&);	///< cross check callback pointer
 
-- 
2.43.0


From d5b23ce5c587cabcd4389a615f751e35e1339bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:25 +0000
Subject: [PATCH 31/74] fix: the age of the configuration cache was shared by
 all tables and ignored a clock set back

---
 Configuration.cpp | 7 ++++---
 Configuration.h   | 1 +
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 20d0282..9feee7c 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -94,6 +94,7 @@ float ConfigurationRecord::floatNumber() const
 
 
 ConfigurationTable::ConfigurationTable(const char* filename, const char *wCmdName, ConfigurationKeyMap wSchema)
+	:mTimeOfLastPurge(0)
 {
 	gLogEarly(LOG_INFO, "opening configuration table from path %s", filename);
 	// Connect to the database.
@@ -928,12 +929,12 @@ bool ConfigurationTable::set(const string& key, long value)
 void ConfigurationTable::checkCacheAge()
 {
 	// mLock is set by caller 
-	static time_t timeOfLastPurge = 0;
 	time_t now = time(NULL);
 	// purge every 3 seconds
 	// purge period cannot be configuration parameter
-	if (now - timeOfLastPurge < 3) return;
-	timeOfLastPurge = now;
+	// (and also if the clock was set back)
+	if (now >= mTimeOfLastPurge && now - mTimeOfLastPurge < 3) return;
+	mTimeOfLastPurge = now;
 	// this is purge() without the lock
 	ConfigurationMap::iterator mp = mCache.begin();
 	while (mp != mCache.end()) {
diff --git a/Configuration.h b/Configuration.h
index 966153d..2eb24c3 100644
--- a/Configuration.h
+++ b/Configuration.h
@@ -197,6 +197,7 @@ class ConfigurationTable {
 	sqlite3* mDB;				///< database connection
 	ConfigurationMap mCache;	///< cache of recently access configuration values
 	ConfigurationRecord mUncached;	///< result of a lookup that must not be cached
+	time_t mTimeOfLastPurge;	///< when the cache was last purged for its age
 	mutable Mutex mLock;		///< control for multithreaded access to the cache
 	std::vector<std::string> (*mCrossCheck)(const std::string&);	///< cross check callback pointer
 
-- 
2.43.0


From 0d932db65c73e03ab4a5bb86ea9cf61cdfbc42c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:25 +0000
Subject: [PATCH 32/74] fix: SimpleKeyValue::getNum never reported a number as
 valid

---
 Configuration.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Configuration.cpp b/Configuration.cpp
index 9feee7c..d399f24 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -1033,6 +1033,7 @@ long SimpleKeyValue::getNum(const char *key, bool &valid) const
 	HashStringMap::const_iterator p = mMap.find(key);
 	if (p==mMap.end()) { valid = false; return 0; }
 	// TODO: we should verify it is really a number.
+	valid = true;
 	return atol(p->second.c_str());
 }
 
-- 
2.43.0


From 5379bf95be042ce880c5e531173457ca9ccf0331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:25 +0000
Subject: [PATCH 33/74] fix: SimpleKeyValue leaked a copy of every line and of
 every item without a value

---
 Configuration.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index d399f24..974375e 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -997,7 +997,7 @@ void SimpleKeyValue::addItem(const char* pair_orig)
 	char *pair = strdup(pair_orig);
 	char *key = pair;
 	char *mark = strchr(pair,'=');
-	if (!mark) return;
+	if (!mark) { free(pair); return; }
 	*mark = '\0';
 	char *value = mark+1;
 	mMap[key] = value;
@@ -1041,8 +1041,9 @@ long SimpleKeyValue::getNum(const char *key, bool &valid) const
 void SimpleKeyValue::addItems(const char* pairs_orig)
 {
 	char *pairs = strdup(pairs_orig);
+	char *next = pairs;
 	char *thisPair;
-	while ((thisPair=strsep(&pairs," "))!=NULL) {
+	while ((thisPair=strsep(&next," "))!=NULL) {
 		addItem(thisPair);
 	}
 	free(pairs);
-- 
2.43.0


From c98d17bec2cedfed88a43a0541afa70c88b9b3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:25 +0000
Subject: [PATCH 34/74] fix: HashString operator> compared the wrong way round

---
 Configuration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Configuration.h b/Configuration.h
index 2eb24c3..497f43e 100644
--- a/Configuration.h
+++ b/Configuration.h
@@ -171,7 +171,7 @@ class HashString : public std::string {
 
 	bool operator>(const HashString& other)
 	{
-		return mHash<other.mHash;
+		return mHash>other.mHash;
 	}
 
 	uint64_t hash() const { return mHash; }
-- 
2.43.0


From d089354bac58b618141eef344540ce563db4c4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:08 +0000
Subject: [PATCH 35/74] fix: key descriptions garbled choices without
 explanations and printed one scope twice

---
 Configuration.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 974375e..5e8d7f6 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -1243,7 +1243,7 @@ void ConfigurationKey::printDescription(const ConfigurationKey &key, ostream& os
 	tmp = key.getValidValues();
 	if (key.getType() == ConfigurationKey::VALRANGE) {
 		int startPos = tmp.find('(');
-		uint delimiter = 0;
+		size_t delimiter = 0;
 		if (startPos != (int)std::string::npos) {
 			tmp = tmp.substr(0, startPos);
 		}
@@ -1259,15 +1259,16 @@ void ConfigurationKey::printDescription(const ConfigurationKey &key, ostream& os
 
 	} else if (key.getType() == ConfigurationKey::CHOICE) {
 		int startPos = -1;
-		uint endPos = 0;
+		size_t endPos = 0;
 
 		do {
 			startPos++;
-			if ((endPos = tmp.find('|', startPos)) != std::string::npos) {
-				os << " - valid values:     " << tmp.substr(startPos, endPos-startPos);
-				os << " = " << tmp.substr(endPos+1, tmp.find(',', endPos)-endPos-1) << std::endl;
+			std::string choice = tmp.substr(startPos, tmp.find(',', startPos)-startPos);
+			if ((endPos = choice.find('|')) != std::string::npos) {
+				os << " - valid values:     " << choice.substr(0, endPos);
+				os << " = " << choice.substr(endPos+1) << std::endl;
 			} else {
-				os << " - valid values:     " << tmp.substr(startPos, tmp.find(',', startPos)-startPos) << std::endl;
+				os << " - valid values:     " << choice << std::endl;
 			}
 
 		} while ((startPos = tmp.find(',', startPos)) != (int)std::string::npos);
@@ -1297,9 +1298,6 @@ void ConfigurationKey::printDescription(const ConfigurationKey &key, ostream& os
 		if (scope & ConfigurationKey::NEIGHBORSSAME) {
 			os << " - scope:            value must be the same across all neighbors" << std::endl;
 		}
-		if (scope & ConfigurationKey::NEIGHBORSSAME) {
-			os << " - scope:            must be the same across all neighbors" << std::endl;
-		}
 		if (scope & ConfigurationKey::NODESPECIFIC) {
 			os << " - scope:            specific to each individual node" << std::endl;
 		}
-- 
2.43.0


From 04622cbd19df7641707887628cde1c0e35475439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:40 +0000
Subject: [PATCH 36/74] fix: log group levels were read from a destroyed string

---
 Logger.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/Logger.cpp b/Logger.cpp
index 3bc858d..76813fb 100644
--- a/Logger.cpp
+++ b/Logger.cpp
@@ -374,12 +374,12 @@ void LogGroup::LogGroupInit()
 }
 
 
-static const char*getNonEmptyStrIfDefined(string param)
+// Returns an empty string if the parameter is not defined.
+static string getStrIfDefined(const string& param)
 {
-	if (! gConfig.defines(param)) { return NULL; }
-	string result = gConfig.getStr(param);
-	// (pat) The "unconfig" command does not remove the value, it just gives it an empty value, so check for that.
-	return result.size() ? result.c_str() : NULL;
+	if (! gConfig.defines(param)) { return string(); }
+	// (pat) The "unconfig" command does not remove the value, it just gives it an empty value, so the caller must check for that.
+	return gConfig.getStr(param);
 }
 
 // Set all the Log.Group debug levels based on database settings
@@ -392,7 +392,8 @@ void LogGroup::setAll()
 		{
 		string param = groupprefix + mGroupNames[g];
 		int level = 0;
-		if (const char*levelName = getNonEmptyStrIfDefined(param)) {
+		const string levelName = getStrIfDefined(param);
+		if (levelName.size()) {
 			level = lookupLevel2(param,levelName);
 		}
 		mDebugLevel[g] = level;
@@ -401,7 +402,8 @@ void LogGroup::setAll()
 		{
 		string watchparam = watchprefix + mGroupNames[g];
 		int watchlevel = 0;
-		if (const char*levelName = getNonEmptyStrIfDefined(watchparam)) {
+		const string levelName = getStrIfDefined(watchparam);
+		if (levelName.size()) {
 			watchlevel = lookupLevel2(watchparam,levelName);
 		}
 		mWatchLevel[g] = watchlevel;
-- 
2.43.0


From 426e215adc0300dc9b09e25a4dae0f49407506ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:53 +0000
Subject: [PATCH 37/74] fix: alarm echoes of different threads ran into each
 other on the console

---
 Logger.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Logger.cpp b/Logger.cpp
index 76813fb..5980d10 100644
--- a/Logger.cpp
+++ b/Logger.cpp
@@ -211,8 +211,15 @@ Log::~Log()
 	// Anything at or above LOG_CRIT is an "alarm".
 	// Save alarms in the local list and echo them to stderr.
 	if (mPriority <= LOG_CRIT) {
-		if (sLoggerInited) addAlarm(mStream.str().c_str());
-		cerr << mStream.str() << endl;
+		if (sLoggerInited) {
+			addAlarm(mStream.str().c_str());
+			// Keep the echoes of different threads apart.
+			gLogToLock.lock();
+			cerr << mStream.str() << endl;
+			gLogToLock.unlock();
+		} else {
+			cerr << mStream.str() << endl;
+		}
 	}
 	// Current logging level was already checked by the macro.
 	// So just log.
-- 
2.43.0


From d2b1bc4f3c61afa4d30dccd4dd34a4454fee9694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:35 +0000
Subject: [PATCH 38/74] fix: report names with quotes, names of columns and
 long names were not stored as given

---
 Reporting.cpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index b77c4e0..86d9634 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -25,6 +25,7 @@
 
 #include "Reporting.h"
 #include "Logger.h"
+#include "Utils.h"
 #include <stdio.h>
 #include <string.h>
 
@@ -72,9 +73,8 @@ bool ReportingTable::create(const char* paramName)
 	mLock.unlock();
 
 	// and to the database
-	char cmd[200];
-	sprintf(cmd,"INSERT OR IGNORE INTO REPORTING (NAME,CLEAREDTIME) VALUES (\"%s\",%ld)", paramName, time(NULL));
-	if (!sqlite3_command(mDB,cmd)) {
+	string cmd = "INSERT OR IGNORE INTO REPORTING (NAME,CLEAREDTIME) VALUES (" + sqlite3_quote(paramName) + format(",%ld)", (long)time(NULL));
+	if (!sqlite3_command(mDB,cmd.c_str())) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot create reporting parameter %s, error message: %s", paramName, sqlite3_errmsg(mDB));
 		return false;
 	}
@@ -96,9 +96,8 @@ bool ReportingTable::incr(const char* paramName)
 
 bool ReportingTable::max(const char* paramName, unsigned newVal)
 {
-	char cmd[200];
-	sprintf(cmd,"UPDATE REPORTING SET VALUE=MAX(VALUE,%u), UPDATETIME=%ld WHERE NAME=\"%s\"", newVal, time(NULL), paramName);
-	if (!sqlite3_command(mDB,cmd)) {
+	string cmd = format("UPDATE REPORTING SET VALUE=MAX(VALUE,%u), UPDATETIME=%ld WHERE NAME=", newVal, (long)time(NULL)) + sqlite3_quote(paramName);
+	if (!sqlite3_command(mDB,cmd.c_str())) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot maximize reporting parameter %s, error message: %s", paramName, sqlite3_errmsg(mDB));
 		return false;
 	}
@@ -108,9 +107,8 @@ bool ReportingTable::max(const char* paramName, unsigned newVal)
 
 bool ReportingTable::clear(const char* paramName)
 {
-	char cmd[200];
-	sprintf(cmd,"UPDATE REPORTING SET VALUE=0, UPDATETIME=0, CLEAREDTIME=%ld WHERE NAME=\"%s\"", time(NULL), paramName);
-	if (!sqlite3_command(mDB,cmd)) {
+	string cmd = format("UPDATE REPORTING SET VALUE=0, UPDATETIME=0, CLEAREDTIME=%ld WHERE NAME=", (long)time(NULL)) + sqlite3_quote(paramName);
+	if (!sqlite3_command(mDB,cmd.c_str())) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot clear reporting parameter %s, error message: %s", paramName, sqlite3_errmsg(mDB));
 		return false;
 	}
@@ -187,13 +185,12 @@ bool ReportingTable::commit()
 	// now actually write them into the db if needed
 	if (oustandingCount > 0) {
 		Timeval timer;
-		char cmd[200];
 
 		// TODO : could wrap this in a BEGIN; COMMIT; pair to transactionize these X UPDATEs
 		mp = oustanding.begin();
 		while (mp != oustanding.end()) {
-			sprintf(cmd,"UPDATE REPORTING SET VALUE=VALUE+%u, UPDATETIME=%ld WHERE NAME=\"%s\"", mp->second, time(NULL), mp->first.c_str());
-			if (!sqlite3_command(mDB,cmd)) {
+			string cmd = format("UPDATE REPORTING SET VALUE=VALUE+%u, UPDATETIME=%ld WHERE NAME=", mp->second, (long)time(NULL)) + sqlite3_quote(mp->first);
+			if (!sqlite3_command(mDB,cmd.c_str())) {
 				LOG(CRIT) << "could not increment reporting parameter " << mp->first << ", error message: " << sqlite3_errmsg(mDB);
 			}
 			mp++;
-- 
2.43.0


From b0ab1816f9a573f859e3fcd1b8e66f6b3a313b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:36 +0000
Subject: [PATCH 39/74] fix: indexed report names overflowed their buffer and a
 range up to the largest index never ended

---
 Reporting.cpp | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index 86d9634..ebc4e9a 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -129,38 +129,37 @@ bool ReportingTable::clear()
 }
 
 
+// The name of one parameter of an indexed set.
+static string indexedName(const char* baseName, unsigned index)
+{
+	return string(baseName) + format(".%u",index);
+}
+
+
 bool ReportingTable::create(const char* baseName, unsigned minIndex, unsigned maxIndex)
 {
-	size_t sz = strlen(baseName);
-	for (unsigned i = minIndex; i<=maxIndex; i++) {
-		char name[sz+10];
-		sprintf(name,"%s.%u",baseName,i);
-		if (!create(name)) return false;
+	if (minIndex > maxIndex) return true;
+	for (unsigned i = minIndex; ; i++) {
+		if (!create(indexedName(baseName,i).c_str())) return false;
+		if (i == maxIndex) return true;		// tested here since i<=maxIndex can not fail for the largest index
 	}
-	return true;
 }
 
 bool ReportingTable::incr(const char* baseName, unsigned index)
 {
-	char name[strlen(baseName)+10];
-	sprintf(name,"%s.%u",baseName,index);
-	return incr(name);
+	return incr(indexedName(baseName,index).c_str());
 }
 
 
 bool ReportingTable::max(const char* baseName, unsigned index, unsigned newVal)
 {
-	char name[strlen(baseName)+10];
-	sprintf(name,"%s.%u",baseName,index);
-	return max(name,newVal);
+	return max(indexedName(baseName,index).c_str(),newVal);
 }
 
 
 bool ReportingTable::clear(const char* baseName, unsigned index)
 {
-	char name[strlen(baseName)+10];
-	sprintf(name,"%s.%u",baseName,index);
-	return clear(name);
+	return clear(indexedName(baseName,index).c_str());
 }
 
 bool ReportingTable::commit()
-- 
2.43.0


From c9ff484af61d9f0df3ddcc8de06e80229d540bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:03 +0000
Subject: [PATCH 40/74] fix: report counts were lost when the database update
 failed

---
 Reporting.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Reporting.cpp b/Reporting.cpp
index ebc4e9a..82de9c8 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -191,6 +191,10 @@ bool ReportingTable::commit()
 			string cmd = format("UPDATE REPORTING SET VALUE=VALUE+%u, UPDATETIME=%ld WHERE NAME=", mp->second, (long)time(NULL)) + sqlite3_quote(mp->first);
 			if (!sqlite3_command(mDB,cmd.c_str())) {
 				LOG(CRIT) << "could not increment reporting parameter " << mp->first << ", error message: " << sqlite3_errmsg(mDB);
+				// keep the count for the next commit
+				mLock.lock();
+				mBatch[mp->first] += mp->second;
+				mLock.unlock();
 			}
 			mp++;
 		}
-- 
2.43.0


From 6706c28bd347b119fd4242c0ca19461631ca2329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:05 +0000
Subject: [PATCH 41/74] fix: clearing a report value kept the counts not yet
 committed, which then reappeared

---
 Reporting.cpp | 13 +++++++++++++
 Reporting.h   |  1 +
 2 files changed, 14 insertions(+)

diff --git a/Reporting.cpp b/Reporting.cpp
index 82de9c8..44d94df 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -107,11 +107,17 @@ bool ReportingTable::max(const char* paramName, unsigned newVal)
 
 bool ReportingTable::clear(const char* paramName)
 {
+	ScopedLock lock(mCommitLock);	// no commit may be half way through
 	string cmd = format("UPDATE REPORTING SET VALUE=0, UPDATETIME=0, CLEAREDTIME=%ld WHERE NAME=", (long)time(NULL)) + sqlite3_quote(paramName);
 	if (!sqlite3_command(mDB,cmd.c_str())) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot clear reporting parameter %s, error message: %s", paramName, sqlite3_errmsg(mDB));
 		return false;
 	}
+	// counts not yet committed belong to the cleared value
+	mLock.lock();
+	ReportBatch::iterator mp = mBatch.find(paramName);
+	if (mp != mBatch.end()) mp->second = 0;
+	mLock.unlock();
 	return true;
 }
 
@@ -119,12 +125,17 @@ bool ReportingTable::clear(const char* paramName)
 
 bool ReportingTable::clear()
 {
+	ScopedLock lock(mCommitLock);	// no commit may be half way through
 	char cmd[200];
 	sprintf(cmd,"UPDATE REPORTING SET VALUE=0, UPDATETIME=0, CLEAREDTIME=%ld", time(NULL));
 	if (!sqlite3_command(mDB,cmd)) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot clear reporting table, error message: %s", sqlite3_errmsg(mDB));
 		return false;
 	}
+	// counts not yet committed belong to the cleared values
+	mLock.lock();
+	for (ReportBatch::iterator mp = mBatch.begin(); mp != mBatch.end(); mp++) mp->second = 0;
+	mLock.unlock();
 	return true;
 }
 
@@ -168,6 +179,8 @@ bool ReportingTable::commit()
 	ReportBatch::iterator mp;
 	unsigned oustandingCount = 0;
 
+	ScopedLock lock(mCommitLock);
+
 	// copy out to free up access to mBatch as quickly as possible
 	mLock.lock();
 	mp = mBatch.begin();
diff --git a/Reporting.h b/Reporting.h
index c6bbc08..1573cbe 100644
--- a/Reporting.h
+++ b/Reporting.h
@@ -47,6 +47,7 @@ class ReportingTable {
 	int mFacility;				///< rsyslogd facility
 	ReportBatch mBatch;			///< batch of report updates, not yet stored in the db
 	mutable Mutex mLock;		///< control for multithreaded read/write access to the batch
+	Mutex mCommitLock;			///< keeps commits and clears apart; taken before mLock
 	Thread mBatchCommitter;		///< thread responsible for committing batches of report updates to the db
 
 
-- 
2.43.0


From 9dbeba79569ebd95aeda795fb085cbf1b94c7ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:06 +0000
Subject: [PATCH 42/74] fix: shutting down reports was lost before their thread
 had started, and raced with it

---
 Reporting.cpp | 4 ++--
 Reporting.h   | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index 44d94df..0826a2d 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -59,6 +59,7 @@ ReportingTable::ReportingTable(const char* filename)
 		gLogEarly(LOG_EMERG | mFacility, "Cannot enable WAL mode on database at %s, error message: %s", filename, sqlite3_errmsg(mDB));
 	}
 	// Start the commit thread
+	mReportRunning = true;
 	mBatchCommitter.start((void*(*)(void*))reportingBatchCommitter,NULL);
 }
 
@@ -221,8 +222,7 @@ bool ReportingTable::commit()
 extern ReportingTable gReports;
 void* reportingBatchCommitter(void*)
 {
-	gReports.mReportRunning = true;
-	while (gReports.mReportRunning) {
+	while (gReports.reportRunning()) {
 		sleep(10);
 		gReports.commit();
 	}
diff --git a/Reporting.h b/Reporting.h
index 1573cbe..b96bebd 100644
--- a/Reporting.h
+++ b/Reporting.h
@@ -94,7 +94,10 @@ class ReportingTable {
 	/** Commit outstanding report updates to the database */
 	bool commit();
 
-	void reportShutdown() { mReportRunning = false; }
+	void reportShutdown() { ScopedLock lock(mLock); mReportRunning = false; }
+
+	/** False once reportShutdown() was called. */
+	bool reportRunning() const { ScopedLock lock(mLock); return mReportRunning; }
 };
 
 /** Periodically triggers ReportingTable::commit(). */
-- 
2.43.0


From ca2f9cc916b5b65206c7c05e032081dbb411e2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:08 +0000
Subject: [PATCH 43/74] fix: the log facility of the reporting table was not
 initialised

---
 Reporting.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Reporting.cpp b/Reporting.cpp
index 0826a2d..5ed36a0 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -40,6 +40,7 @@ static const char* createReportingTable = {
 
 
 ReportingTable::ReportingTable(const char* filename)
+	: mFacility(LOG_USER), mReportRunning(false)
 {
 	gLogEarly(LOG_INFO | mFacility, "opening reporting table from path %s", filename);
 	// Connect to the database.
-- 
2.43.0


From 8dd41d2c921ce2fc5fdd95fe4b8d01edf8677f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:01 +0000
Subject: [PATCH 44/74] fix: Unix datagram sockets had no address family in
 their destination and took paths that are too long

---
 Sockets.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Sockets.cpp b/Sockets.cpp
index 8464616..c239e15 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -324,6 +324,11 @@ UDDSocket::UDDSocket(const char* localPath, const char* remotePath)
 
 void UDDSocket::open(const char* localPath)
 {
+	if (strlen(localPath) >= sizeof(sockaddr_un().sun_path)) {
+		LOG(ERR) << "path too long for a Unix domain socket:"<<localPath;
+		throw SocketError();
+	}
+
 	// create
 	mSocketFD = socket(AF_UNIX,SOCK_DGRAM,0);
 	if (mSocketFD<0) {
@@ -353,6 +358,11 @@ void UDDSocket::open(const char* localPath)
 void UDDSocket::destination(const char* remotePath)
 {
 	struct sockaddr_un* unAddr = (struct sockaddr_un*)mDestination;
+	if (strlen(remotePath) >= sizeof(unAddr->sun_path)) {
+		LOG(WARNING) << "path too long for a Unix domain socket:"<<remotePath;
+		return;
+	}
+	unAddr->sun_family = AF_UNIX;
 	strcpy(unAddr->sun_path,remotePath);
 }
 
-- 
2.43.0


From 3402d0c2e7731572ace111ff1a55279d271f70f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:02 +0000
Subject: [PATCH 45/74] fix: sockets closed descriptors that are not theirs and
 leaked theirs when opened again

---
 Sockets.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Sockets.cpp b/Sockets.cpp
index c239e15..34b1bde 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -116,6 +116,7 @@ bool resolveAddress(struct sockaddr_in *address, const char *host, unsigned shor
 
 
 DatagramSocket::DatagramSocket()
+	:mSocketFD(-1)
 {
 	memset(mDestination, 0, sizeof(mDestination));
 }
@@ -136,7 +137,8 @@ void DatagramSocket::blocking()
 
 void DatagramSocket::close()
 {
-	::close(mSocketFD);
+	if (mSocketFD>=0) ::close(mSocketFD);
+	mSocketFD = -1;		// the number may soon belong to another file
 }
 
 
@@ -267,6 +269,7 @@ void UDPSocket::destination( unsigned short wDestPort, const char * wDestIP )
 void UDPSocket::open(unsigned short localPort)
 {
 	// create
+	close();
 	mSocketFD = socket(AF_INET,SOCK_DGRAM,0);
 	if (mSocketFD<0) {
 		perror("socket() failed");
@@ -330,6 +333,7 @@ void UDDSocket::open(const char* localPath)
 	}
 
 	// create
+	close();
 	mSocketFD = socket(AF_UNIX,SOCK_DGRAM,0);
 	if (mSocketFD<0) {
 		perror("socket() failed");
-- 
2.43.0


From 8302c5874a46a7f99c60c7334fdb7bfac355e9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:02 +0000
Subject: [PATCH 46/74] fix: a timed socket read wrote outside its descriptor
 set for descriptors from 1024

---
 Sockets.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/Sockets.cpp b/Sockets.cpp
index 34b1bde..3583866 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -30,7 +30,7 @@
 #include <unistd.h>
 #include <fcntl.h>
 #include <cstdio>
-#include <sys/select.h>
+#include <poll.h>
 
 #include "Defines.h"
 #include "Threads.h"
@@ -221,20 +221,22 @@ int DatagramSocket::read(char* buffer)
 
 int DatagramSocket::read(char* buffer, unsigned timeout)
 {
-	fd_set fds;
-	FD_ZERO(&fds);
-	FD_SET(mSocketFD,&fds);
-	struct timeval tv;
-	tv.tv_sec = timeout/1000;
-	tv.tv_usec = (timeout%1000)*1000;
-	int sel = select(mSocketFD+1,&fds,NULL,NULL,&tv);
+	// not select(), which only takes descriptors below FD_SETSIZE
+	struct pollfd pfd;
+	pfd.fd = mSocketFD;
+	pfd.events = POLLIN;
+	pfd.revents = 0;
+	struct timespec ts;
+	ts.tv_sec = timeout/1000;
+	ts.tv_nsec = (timeout%1000)*1000000L;
+	int sel = ppoll(&pfd,1,&ts,NULL);
 	if (sel<0) {
-		perror("DatagramSocket::read() select() failed");
+		perror("DatagramSocket::read() ppoll() failed");
 		devassert(0);
 		throw SocketError();
 	}
 	if (sel==0) return -1;
-	if (FD_ISSET(mSocketFD,&fds)) return read(buffer);
+	if (pfd.revents) return read(buffer);
 	return -1;
 }
 
-- 
2.43.0


From b47925b426c0b28f4512ba66701f69ca3cc75a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:03 +0000
Subject: [PATCH 47/74] fix: an answer to a sender without an address went to
 an earlier sender

---
 Sockets.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Sockets.cpp b/Sockets.cpp
index 3583866..cad407c 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -119,6 +119,7 @@ DatagramSocket::DatagramSocket()
 	:mSocketFD(-1)
 {
 	memset(mDestination, 0, sizeof(mDestination));
+	memset(mSource, 0, sizeof(mSource));
 }
 
 
@@ -215,6 +216,8 @@ int DatagramSocket::read(char* buffer)
 		devassert(0);
 		throw SocketError();
 	}
+	// An unnamed Unix domain socket has no address, and mSource is left alone.
+	if ((length>=0) && (temp_len==0)) memset(mSource, 0, sizeof(mSource));
 	return length;
 }
 
-- 
2.43.0


From 46f478049a6030c153861c369084ad5c7f14d6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:03 +0000
Subject: [PATCH 48/74] fix: resolving host:port leaked memory on errors and
 accepted ports that are none

---
 Sockets.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Sockets.cpp b/Sockets.cpp
index cad407c..e5d9145 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -59,11 +59,18 @@ bool resolveAddress(struct sockaddr_in *address, const char *hostAndPort)
 	char *colon = strchr(copy,':');
 	if (!colon) {
 		LOG(WARNING) << "missing port number in:"<<hostAndPort;
+		free(copy);
 		return false;
 	}
 	*colon = '\0';
 	char *host = copy;
-	unsigned port = strtol(colon+1,NULL,10);
+	char *end;
+	long port = strtol(colon+1,&end,10);
+	if (end==colon+1 || *end || port<0 || port>65535) {
+		LOG(WARNING) << "invalid port number in:"<<hostAndPort;
+		free(copy);
+		return false;
+	}
 	bool retVal = resolveAddress(address,host,port);
 	free(copy);
 	return retVal;
-- 
2.43.0


From f22dc8e01609945b4d2c55200918e0016016fef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:03 +0000
Subject: [PATCH 49/74] fix: the result of gethostbyname was used after another
 thread could overwrite it

---
 Sockets.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sockets.cpp b/Sockets.cpp
index e5d9145..8800e03 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -100,10 +100,10 @@ bool resolveAddress(struct sockaddr_in *address, const char *host, unsigned shor
 	// Ideally it should be a global mutex for all non thread-safe socket
 	// operations and it should protect access to variables such as
 	// global h_errno.
-	sGethostbynameMutex.lock();
+	// The result is in static memory, so the mutex is held until it is copied below.
+	ScopedLock lock(sGethostbynameMutex);
 	hp = gethostbyname(host);
 	h_errno_local = h_errno;
-	sGethostbynameMutex.unlock();
 #endif
  	if (hp==NULL) {
 		LOG(WARNING) << "gethostbyname() failed for " << host << ", " << hstrerror(h_errno_local);
-- 
2.43.0


From af5417b5ddc768c3c1d51d9531750f25db979eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:31 +0000
Subject: [PATCH 50/74] fix: sockets on system-assigned ports could share the
 port of another socket

---
 Sockets.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Sockets.cpp b/Sockets.cpp
index 8800e03..d5bfa2e 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -290,8 +290,9 @@ void UDPSocket::open(unsigned short localPort)
 	}
 
 	// pat added: This lets the socket be reused immediately, which is needed if OpenBTS crashes.
+	// Not for a port chosen by the system, which could then be one that is in use.
 	int on = 1;
-	setsockopt(mSocketFD, SOL_SOCKET, SO_REUSEADDR, &on, sizeof(on));
+	if (localPort) setsockopt(mSocketFD, SOL_SOCKET, SO_REUSEADDR, &on, sizeof(on));
 
 
 	// bind
-- 
2.43.0


From d9aa967cd553a3173d45c12499c0c537bb22be66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:24 +0000
Subject: [PATCH 51/74] fix: a signal table did not initialise whether to save
 files with a core dump

---
 UnixSignal.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/UnixSignal.cpp b/UnixSignal.cpp
index de55b3c..0d1ef4c 100644
--- a/UnixSignal.cpp
+++ b/UnixSignal.cpp
@@ -115,6 +115,7 @@ UnixSignal::UnixSignal(void)
 	//signal(i, _sigHandler);
     }
     mAddPid = false;
+    mSaveFiles = false;
     mCoreFile = "core";
 }
 
-- 
2.43.0


From f956c696a9d3c3cf5b194f08906919ac868b3f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:24 +0000
Subject: [PATCH 52/74] fix: the last signal could not be registered

---
 UnixSignal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnixSignal.h b/UnixSignal.h
index 2c3f29e..882f3f2 100644
--- a/UnixSignal.h
+++ b/UnixSignal.h
@@ -27,7 +27,7 @@
 class UnixSignal
 {
 public:
-    static const int C_NSIG = 64;
+    static const int C_NSIG = 65; // signals are numbered 1 to 64
 private:
     std::list<sighandler_t>  mListHandlers[C_NSIG]; // list of signal handlers to call for all signals
     Mutex mLock[C_NSIG];
-- 
2.43.0


From 2419d030ac6dc769398641dacf3d2d2eb9692580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:11 +0000
Subject: [PATCH 53/74] fix: the pid file of a program with a long name was
 created under another name and not found again

The name was cut off after 99 characters, losing the .pid and, with two names
that begin alike, the difference between them.  A name too long for the
file system is now refused as a file that cannot be created.
---
 SelfDetect.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SelfDetect.cpp b/SelfDetect.cpp
index dd99d25..4c381bc 100644
--- a/SelfDetect.cpp
+++ b/SelfDetect.cpp
@@ -55,10 +55,10 @@ static void sigfcn(int sig)
 void SelfDetect::RegisterProgram(const char *argv0)
 {
     const char *p = strrchr((char*)argv0,'/');
-	if (p == NULL) { p = argv0; }
+	if (p == NULL) { p = argv0; } else { p++; }
 
-    char buf[100];
-    snprintf(buf, sizeof(buf)-1, "/var/run/%s.pid", p);
+    std::string name = std::string("/var/run/") + p + ".pid";
+    const char *buf = name.c_str();
     LOG(NOTICE) << "*** Registering program " << argv0 << " to " << buf;
 
     // first, verify we aren't already running.
-- 
2.43.0


From d41513b57865bb886f5ef75b288aae337ec5848d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:11 +0000
Subject: [PATCH 54/74] fix: two instances of a program started at the same
 time could both run

Both looked for the pid file before either created it.
---
 SelfDetect.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/SelfDetect.cpp b/SelfDetect.cpp
index 4c381bc..240e0f6 100644
--- a/SelfDetect.cpp
+++ b/SelfDetect.cpp
@@ -61,16 +61,17 @@ void SelfDetect::RegisterProgram(const char *argv0)
     const char *buf = name.c_str();
     LOG(NOTICE) << "*** Registering program " << argv0 << " to " << buf;
 
-    // first, verify we aren't already running.
-    struct stat stbuf;
-    if (stat(buf, &stbuf) >= 0)
+    // first, verify we aren't already running.  Checking for the file and
+    // creating it must be one step, or two instances started at the same
+    // time would both find no file.
+    FILE *fp = fopen(buf, "wx");
+    if (fp == NULL && errno == EEXIST)
     {
 	LOG(CRIT) << "*** An instance of " << p << " is already running. ";
 	LOG(CRIT) << "*** If this is not the case, deleting this file will allow " << p << " to start: " << buf << " exiting...";
 	Exit::exit(Exit::DETECTFILE);
     }
-    
-    FILE *fp = fopen(buf, "w");
+
     if (fp == NULL)
     {
     	LOG(CRIT) << "*** Unable to create " << buf << ": " << strerror(errno) << " exiting...";
-- 
2.43.0


From d5273065e30ddd036cbbbec7ebd2400a1b875241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:34 +0000
Subject: [PATCH 55/74] fix: a pid file that could not be written was left
 behind empty and the program went on

---
 SelfDetect.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/SelfDetect.cpp b/SelfDetect.cpp
index 240e0f6..1b04744 100644
--- a/SelfDetect.cpp
+++ b/SelfDetect.cpp
@@ -77,8 +77,14 @@ void SelfDetect::RegisterProgram(const char *argv0)
     	LOG(CRIT) << "*** Unable to create " << buf << ": " << strerror(errno) << " exiting...";
 		Exit::exit(Exit::CREATEFILE);
     }
-    fprintf(fp, "%d\n", getpid());
-    fclose(fp);
+    bool written = fprintf(fp, "%d\n", getpid()) > 0;
+    if (fclose(fp) != 0) { written = false; }
+    if (!written)
+    {
+	LOG(CRIT) << "*** Unable to write " << buf << ": " << strerror(errno) << " exiting...";
+	unlink(buf);
+		Exit::exit(Exit::CREATEFILE);
+    }
     atexit(e);
 	gSigVec.CoreName(gConfig.getStr("Core.File"), gConfig.getBool("Core.Pid"));
 	gSigVec.TarName(gConfig.getStr("Core.TarFile"), gConfig.getBool("Core.SaveFiles"));
-- 
2.43.0


From bf8cda36ee51aa31d4bed82913eadb878cf5528d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:34 +0000
Subject: [PATCH 56/74] fix: signals that do not terminate a program removed
 its pid file

---
 SelfDetect.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/SelfDetect.cpp b/SelfDetect.cpp
index 1b04744..472463c 100644
--- a/SelfDetect.cpp
+++ b/SelfDetect.cpp
@@ -103,8 +103,15 @@ void SelfDetect::RegisterProgram(const char *argv0)
 			//		openbts: NOTICE 3031243584 05:03:50.4 OpenBTS.cpp:165:startTransceiver: starting transceiver ./transceiver w/ 1 ARFCNs and Args:
 			//		openbts: NOTICE 3073816320 05:03:50.4 SelfDetect.cpp:98:Exit: *** Terminating ./OpenBTS
 			//		openbts: NOTICE 3073816320 05:03:50.4 SelfDetect.cpp:105:Exit: *** Removing pid file /var/run/OpenBTS.pid
+			// The others either do nothing by default or only stop
+			// the program, which goes on later and still needs its files.
 			case SIGCONT:
 			case SIGCHLD:
+			case SIGURG:
+			case SIGWINCH:
+			case SIGTSTP:
+			case SIGTTIN:
+			case SIGTTOU:
 				break;
 			default:
 				gSigVec.Register(sigfcn, i);
-- 
2.43.0


From 0a1b1375f3d1df6f20961367c12fa3055396923d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:34 +0000
Subject: [PATCH 57/74] fix: a terminating instance could remove the files of
 the next one

The registered files were removed after the pid file, and all of them again by
every further signal and at exit.
---
 SelfDetect.cpp | 31 +++++++++++++++++++++++++------
 SelfDetect.h   |  3 +++
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/SelfDetect.cpp b/SelfDetect.cpp
index 472463c..a88ae1c 100644
--- a/SelfDetect.cpp
+++ b/SelfDetect.cpp
@@ -133,6 +133,21 @@ void SelfDetect::Exit(int sig)
     {
 	LOG(NOTICE) << "*** Terminating " << mProg;
     }
+    // This runs for every signal and again at exit, possibly in several threads
+    // or in the middle of itself, but the files may only be removed once: as soon
+    // as the pid file is gone, files of these names belong to the next instance.
+    // For the same reason the pid file is the last one to go.
+    sigset_t all, old;
+    sigfillset(&all);
+    pthread_sigmask(SIG_SETMASK, &all, &old);
+    mLock.lock();
+    for (std::list<std::string>::iterator i = mListFiles.begin();
+	 i != mListFiles.end(); ++i)
+    {
+	LOG(NOTICE) << "*** Removing " << i->c_str();
+    	unlink(i->c_str());
+    }
+    mListFiles.clear();
     if (mFile == NULL)
     {
 	LOG(NOTICE) << "*** Terminating without pid file";
@@ -140,19 +155,23 @@ void SelfDetect::Exit(int sig)
     {
 	LOG(NOTICE) << "*** Removing pid file " << mFile;
     	unlink(mFile);
+	free((void *)mFile);
+	mFile = NULL;
     }
-    for (std::list<std::string>::iterator i = mListFiles.begin();
-	 i != mListFiles.end(); ++i)
-    {
-	LOG(NOTICE) << "*** Removing " << i->c_str();
-    	unlink(i->c_str());
-    }
+    mLock.unlock();
+    pthread_sigmask(SIG_SETMASK, &old, NULL);
 }
 
 void SelfDetect::RegisterFile(const char *file)
 {
     LOG(NOTICE) << "*** Registering " << file << " for removal at program exit";
     std::string s(file);
+    sigset_t all, old;
+    sigfillset(&all);
+    pthread_sigmask(SIG_SETMASK, &all, &old);
+    mLock.lock();
     mListFiles.push_back(s);
+    mLock.unlock();
+    pthread_sigmask(SIG_SETMASK, &old, NULL);
 }
 
diff --git a/SelfDetect.h b/SelfDetect.h
index ccf47fa..26421da 100644
--- a/SelfDetect.h
+++ b/SelfDetect.h
@@ -22,6 +22,8 @@
 #include <cstdlib>
 #include <cstdio>
 
+#include "Threads.h"
+
 /** A C++ wrapper for preventing 2 instances of a program from running. */
 class SelfDetect
 {
@@ -29,6 +31,7 @@ private:
     const char             *mProg; // program name, which will map to /tmp/%s.pid
     const char             *mFile; // file in /tmp for pid
     std::list<std::string>  mListFiles; // list of files to be removed at shutdown
+    Mutex mLock; // protects the above against other threads; signals are blocked while it is held
 public:
     SelfDetect(void)
     {
-- 
2.43.0


From 5c6dbfcbb9f05393cb6a7a470a96620ae0d320bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:08 +0000
Subject: [PATCH 58/74] fix: the reference count overflowed with 32768 pointers
 to one object

---
 Utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils.h b/Utils.h
index ec5f1dc..02ead58 100644
--- a/Utils.h
+++ b/Utils.h
@@ -200,7 +200,7 @@ extern string uintToString(uint32_t x);
 class RefCntBase {
 	template <class Type> friend class RefCntPointer;
 	mutable Mutex mRefMutex;
-	mutable short mRefCnt;		// signed, not unsigned!
+	mutable int mRefCnt;		// signed, not unsigned!
 	int setRefCnt(int val) { return mRefCnt = val; }
 	// The semantics of reference counting mean you cannot copy an object that has reference counts;
 	// they are only manipulated by pointers.  This constructor is private, which makes C++ whine if you do this.
-- 
2.43.0


From d447517401ca4752ad5d46e0707561cb2fc6e52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:08 +0000
Subject: [PATCH 59/74] fix: printPrettyTable dropped columns after the 30th
 and cut long cells

---
 Utils.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index dc7851c..b105f43 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -429,13 +429,13 @@ vector<string>& stringSplit(vector<string> &result,const char *input)
 void printPrettyTable(prettyTable_t &tab, ostream&os, bool tabSeparated)
 {
 	LOG(DEBUG);
-	const unsigned maxcols = 30;
 	// Determine the maximum width of each column.
-	int width[maxcols]; memset(width,0,sizeof(width));
+	vector<int> width;
 	if (!tabSeparated) {
 	  for (prettyTable_t::iterator it = tab.begin(); it != tab.end(); ++it) {
 		vector<string> &row = *it;
-		for (unsigned col = 0; col<maxcols && col<row.size(); col++) {
+		if (width.size() < row.size()) width.resize(row.size(),0);
+		for (unsigned col = 0; col<row.size(); col++) {
 			int colwidth = row[col].size();
 			if (colwidth > 100) colwidth = 100;
 			width[col] = max(width[col],colwidth);
@@ -448,14 +448,13 @@ void printPrettyTable(prettyTable_t &tab, ostream&os, bool tabSeparated)
 
 		// DEBUG: print the column widths.
 		if (0 && IS_LOG_LEVEL(DEBUG) && nrow == 0) {
-			for (unsigned col = 0; col<maxcols && col<row.size(); col++) {
+			for (unsigned col = 0; col<row.size(); col++) {
 				os << format("%-*s ",width[col],format("%d",width[col]));
 			}
 			os << "\n";
 		}
 
-		for (unsigned col = 0; col<maxcols && col<row.size(); col++) {
-			char buf[252];
+		for (unsigned col = 0; col<row.size(); col++) {
 			const char *val = row[col].c_str();
 			if (0 == strcmp(val,"_")) { val = ""; }	// Dont print "_", used to easily format the header fields.
 			if (tabSeparated) {
@@ -466,8 +465,7 @@ void printPrettyTable(prettyTable_t &tab, ostream&os, bool tabSeparated)
 				//int pad = 0;
 				//if (nrow < 2) { pad = (width[col] - strlen(val)) / 2; }
 				//sprintf(buf,"%*s%.*s ",(width[col]-pad),val,pad,"                         ");
-				snprintf(buf,250,"%-*s ",width[col],val);
-				os << buf;
+				os << val << string(max(0,width[col]-(int)strlen(val))+1,' ');
 			}
 		}
 		os << "\n";
-- 
2.43.0


From 236fa3d15b208c31bb70749f47194c098d4e7382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:06 +0000
Subject: [PATCH 60/74] fix: stringSplit dropped the words after the 40th

---
 Utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index b105f43..50646f1 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -409,11 +409,11 @@ char *cstrGetArg(const char *in, int nth, unsigned *length)
 
 vector<string>& stringSplit(vector<string> &result,const char *input)
 {
-	char *argv[40];
+	vector<char*> argv(strlen(input)/2 + 1);	// There cannot be more words than this.
 	//char buf[202];
 	//strncpy(buf,input,200); buf[200] = 0;
 	char *buf = strdup(input);
-	int cnt = cstrSplit(buf,argv,40,NULL);
+	int cnt = cstrSplit(buf,&argv[0],argv.size(),NULL);
 	for (int i = 0; i < cnt; i++) {
 		result.push_back(string(argv[i]));
 	}
-- 
2.43.0


From f7dd902f1b80d53424df2dfdbf675e738844a1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:19 +0000
Subject: [PATCH 61/74] fix: an alarm raised by a configuration update hook no
 longer deadlocks with another alarm

---
 Logger.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Logger.cpp b/Logger.cpp
index 5980d10..0c291aa 100644
--- a/Logger.cpp
+++ b/Logger.cpp
@@ -197,9 +197,10 @@ list<string> gGetLoggerAlarms()
 /** Add an alarm to the alarm list. */
 void addAlarm(const string& s)
 {
+    // Ask before taking the lock: a configuration update hook that raises an alarm holds the table's lock already.
+    unsigned maxAlarms = gConfig.getNum("Log.Alarms.Max");
     alarmsLock.lock();
     alarmsList.push_back(s);
-	unsigned maxAlarms = gConfig.getNum("Log.Alarms.Max");
     while (alarmsList.size() > maxAlarms) alarmsList.pop_front();
     alarmsLock.unlock();
 }
-- 
2.43.0


From ebc9ae602b14e0d4aacbd17abe25d18ed1f49615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:00 +0000
Subject: [PATCH 62/74] fix: hex text of a bit vector dropped its last bits and
 blanks in hex text were skipped

---
 BitVector.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/BitVector.cpp b/BitVector.cpp
index 1a5f764..b9e6495 100644
--- a/BitVector.cpp
+++ b/BitVector.cpp
@@ -32,6 +32,7 @@
 #include <stdio.h>
 #include <sstream>
 #include <string.h>
+#include <ctype.h>
 #include <Logger.h>
 
 using namespace std;
@@ -413,6 +414,9 @@ void BitVector::hex(ostream& os) const
 	for (unsigned i=0; i<digits; i++) {
 		os << readField(wp,4);
 	}
+	// The last bits, if any, make a digit of their own, the way unhex reads them.
+	unsigned rem = size() - 4*digits;
+	if (rem>0) os << readField(wp,rem);
 	os << std::dec;
 }
 
@@ -430,7 +434,8 @@ bool BitVector::unhex(const char* src)
 	unsigned int val;
 	unsigned digits = size()/4;
 	for (unsigned i=0; i<digits; i++) {
-		if (sscanf(src+i, "%1x", &val) < 1) {
+		// sscanf alone would skip over white space and take a digit from further on.
+		if (!isxdigit((unsigned char)src[i]) || sscanf(src+i, "%1x", &val) < 1) {
 			return false;
 		}
 		fillField(i*4,val,4);
@@ -438,7 +443,7 @@ bool BitVector::unhex(const char* src)
 	unsigned whole = digits*4;
 	unsigned rem = size() - whole;
 	if (rem>0) {
-		if (sscanf(src+digits, "%1x", &val) < 1) {
+		if (!isxdigit((unsigned char)src[digits]) || sscanf(src+digits, "%1x", &val) < 1) {
 			return false;
 		}
 		fillField(whole,val,rem);
-- 
2.43.0


From 00c4e7dd91f189b3ff871b299f8ac86400875cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:36 +0000
Subject: [PATCH 63/74] fix: the shortened number of points of a statistic was
 copied with overlapping strcpy

---
 Utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils.h b/Utils.h
index 02ead58..0bcedad 100644
--- a/Utils.h
+++ b/Utils.h
@@ -150,7 +150,7 @@ template<class Type> struct Statistic {
 			} else { // Shorten this up:
 				char buf[10], *ep;
 				sprintf(buf,"%.3g",round(mCnt));
-				if ((ep = strchr(buf,'e')) && ep[1] == '+') { strcpy(ep+1,ep+2); }
+				if ((ep = strchr(buf,'e')) && ep[1] == '+') { memmove(ep+1,ep+2,strlen(ep+2)+1); }
 				os << LOGVAR2("N",buf);
 			}
 			// os<<LOGVAR2("sd",getSD())  standard deviation not interesting
-- 
2.43.0


From b64fb9738c58bd7c30c3a206c4e795dc6e22ee51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:36 +0000
Subject: [PATCH 64/74] fix: timed lookups in InterthreadMap did not count the
 time spent waiting for the map's lock

---
 Interthread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Interthread.h b/Interthread.h
index ebf675d..d0d0d3b 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -506,8 +506,8 @@ public:
 	bool get(const K &key, D &result, unsigned timeout, bool bRemove = true)
 	{
 		if (timeout==0) return getNoBlock(key,result,bRemove);
-		ScopedLock lock(mLock);
 		Timeval waitTime(timeout);
+		ScopedLock lock(mLock);
 		while (1) {
 			typename Map::iterator iter = mMap.find(key);
 			if (iter!=mMap.end()) {
-- 
2.43.0


From 55709a3a744cd11eeada810d8b41fa1d72dec22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:36 +0000
Subject: [PATCH 65/74] fix: iqWaitForEither did not count the time spent
 waiting for the queues' lock

---
 Interthread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Interthread.h b/Interthread.h
index d0d0d3b..cd58ae0 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -218,9 +218,9 @@ template <class T, class Fifo=PtrList<T> > class InterthreadQueue {
 
 	// Wait for something on either of the two queues connected by iqConnect.  Kind of hokey, but it works.  Timeout is in msecs.
 	void iqWaitForEither(InterthreadQueue &other, unsigned timeout) {
+		Timeval waitTime(timeout);
 		ScopedLock lock(*mLockPointer);
 		if (timeout) {
-			Timeval waitTime(timeout);
 			while (mQ.size() == 0 && other.mQ.size() == 0) {
 				long remaining = waitTime.remaining();
 				if (remaining <= 0) { return; }
-- 
2.43.0


From 852160c02074b21afc6bb085b6253f33619c65bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:34 +0000
Subject: [PATCH 66/74] fix: Mutex::timedlock with a negative timeout waited
 for weeks instead of giving up at once

---
 Threads.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Threads.cpp b/Threads.cpp
index 38d508a..1c1f82a 100644
--- a/Threads.cpp
+++ b/Threads.cpp
@@ -123,7 +123,7 @@ bool Mutex::trylock(const char *file, unsigned line)
 // Returns true if the lock was acquired within the timeout, or false if it timed out.
 bool Mutex::_timedlock(int msecs) // Wait this long in milli-seconds.
 {
-	Timeval future(msecs);
+	Timeval future(msecs > 0 ? msecs : 0);	// Timeval takes an unsigned; a negative timeout has already passed.
 	struct timespec timeout = future.timespec();
 	return 0 == pthread_mutex_timedlock(&mMutex, &timeout);
 }
-- 
2.43.0


From 4ebc47818f880bd77d81710cb4a5388b884c15df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:34 +0000
Subject: [PATCH 67/74] fix: Signal::wait cut timeouts of 2^32 ms and more to
 their low 32 bits

---
 Threads.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Threads.cpp b/Threads.cpp
index 1c1f82a..5291a1a 100644
--- a/Threads.cpp
+++ b/Threads.cpp
@@ -276,8 +276,11 @@ void ScopedLockMultiple::_lockAll() {
 void Signal::wait(Mutex& wMutex, long timeout) const
 {
 	if (timeout <= 0) { return; }	// (pat) Timeout passed already
-	Timeval then(timeout);
-	struct timespec waitTime = then.timespec();
+	// The offset of a Timeval is an unsigned, which is too small for some timeouts.
+	struct timespec waitTime = Timeval().timespec();
+	waitTime.tv_sec += timeout / 1000;
+	waitTime.tv_nsec += (timeout % 1000) * 1000000;
+	if (waitTime.tv_nsec >= 1000000000) { waitTime.tv_sec++; waitTime.tv_nsec -= 1000000000; }
 	wMutex.mLockCnt--;		// The mutex is not locked by this thread while it waits.
 	pthread_cond_timedwait(&mSignal,&wMutex.mMutex,&waitTime);
 	wMutex.mLockCnt++;
-- 
2.43.0


From 18ad4f6490597421bfa4a7a16040897e6d97c3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:01 +0000
Subject: [PATCH 68/74] fix: msleep slept the wrong time for more than 71
 minutes or a negative duration

---
 Timeval.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Timeval.h b/Timeval.h
index 5a5c609..1229141 100644
--- a/Timeval.h
+++ b/Timeval.h
@@ -28,14 +28,21 @@
 #define TIMEVAL_H
 
 #include <stdint.h>
+#include <time.h>
 #include "sys/time.h"
 #include <iostream>
 #include <unistd.h>
 
 
 
-/** A wrapper on usleep to sleep for milliseconds. */
-inline void msleep(long v) { usleep(v*1000); }
+/** Sleep for milliseconds. */
+// usleep takes an unsigned, which holds only 71 minutes and no negative duration.
+inline void msleep(long v)
+{
+	if (v <= 0) return;
+	struct timespec howlong = { v / 1000, (v % 1000) * 1000000 };
+	nanosleep(&howlong,NULL);
+}
 
 
 /** A C++ wrapper for struct timeval. */
-- 
2.43.0


From d1d3ee5166ffb47dca25204f9aae7a3e81c2423f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:01 +0000
Subject: [PATCH 69/74] fix: sleepf slept the wrong time for more than 71
 minutes

---
 Utils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Utils.cpp b/Utils.cpp
index 50646f1..b5f5e6c 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -317,7 +317,11 @@ const string timestr() { return timestr(12); }
 void sleepf(double howlong)
 {
 	if (howlong <= 0.00001) return;		// Less than 10 usecs, forget it.
-	usleep((useconds_t) (1000000.0 * howlong));
+	// Not usleep, whose argument holds only 71 minutes.
+	struct timespec ts;
+	ts.tv_sec = (time_t) howlong;
+	ts.tv_nsec = (long) (1000000.0 * (howlong - ts.tv_sec)) * 1000;
+	nanosleep(&ts,NULL);
 }
 
 //bool sleepuntil(double untilwhen)
-- 
2.43.0


From af3ee6cc1f6007d5611c1a6f95fa3341caca54b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:31 +0000
Subject: [PATCH 70/74] fix: Timeval::addMinutes overflowed for more than
 71582788 minutes

---
 Timeval.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Timeval.h b/Timeval.h
index 1229141..ef21615 100644
--- a/Timeval.h
+++ b/Timeval.h
@@ -100,7 +100,7 @@ class Timeval {
 	bool passed() const;
 
 	/** Add a given number of minutes to the time. */
-	void addMinutes(unsigned minutes) { mTimeval.tv_sec += minutes*60; }
+	void addMinutes(unsigned minutes) { mTimeval.tv_sec += (time_t)minutes*60; }
 
         /** Convert a time_t into a formatted string, using the ISO
          *  YYYY-MM-DDTHH:MM:SS[Z] format.  If isLocal is true, use localtime,
-- 
2.43.0


From c034d77e4b49b3f82c3e1f5bbbfcaf226c18b3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:27 +0000
Subject: [PATCH 71/74] fix: copies of objects with a leak detector were not
 counted when made, only when destroyed

---
 MemoryLeak.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/MemoryLeak.h b/MemoryLeak.h
index 1550f9b..563c981 100644
--- a/MemoryLeak.h
+++ b/MemoryLeak.h
@@ -82,6 +82,10 @@ extern int gMemLeakDebug;
 
 struct MemLabel {
 	std::string mccKey;
+	MemLabel() {}
+	// The label belongs to the object it was given to; a copy has none.
+	MemLabel(const MemLabel&) {}
+	MemLabel& operator=(const MemLabel&) { return *this; }
 	virtual ~MemLabel() {
 		Utils::gMemStats.memChkLabel(mccKey,-1);
 	}
@@ -108,6 +112,7 @@ struct MemLabel {
 #define DEFINE_MEMORY_LEAK_DETECTOR_CLASS(subClass,checkerClass) \
 	struct checkerClass : public virtual Utils::MemLabel { \
 	    checkerClass() { RN_MEMCHKNEW(subClass); } \
+	    checkerClass(const checkerClass &other) : Utils::MemLabel(other) { RN_MEMCHKNEW(subClass); } \
 		virtual ~checkerClass() { \
 			RN_MEMCHKDEL(subClass); \
 		} \
-- 
2.43.0


From ca380a491792cb5a4c077693251a866962570579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:28 +0000
Subject: [PATCH 72/74] fix: a reference-counting pointer dropped by the
 destructor of its own object deleted the object twice

---
 Utils.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/Utils.h b/Utils.h
index 0bcedad..96e053b 100644
--- a/Utils.h
+++ b/Utils.h
@@ -235,8 +235,10 @@ template<class Type>	// Type must be a descendent of RefCntBase.
 class RefCntPointer {
 	Type *rcPointer;
 	void rcInc() { if (rcPointer) rcPointer->incRefCnt(); }
+	// Let go of the object before counting down: its destructor may come back to this pointer, or destroy it.
 	void rcDec() {
-		if (rcPointer) if (rcPointer->decRefCnt() <= 0) { rcPointer = NULL; };
+		Type *old = rcPointer; rcPointer = NULL;
+		if (old) { old->decRefCnt(); }
 	}
 	public:
 	RefCntPointer() : rcPointer(NULL) { }
@@ -248,13 +250,12 @@ class RefCntPointer {
 	~RefCntPointer() {
 		if (rcPointer) { LOG(DEBUG) <<" rcPointer="<<((void*)rcPointer) <<" refcnt="<<(rcPointer?rcPointer->getRefCnt():0); }
 		rcDec();
-		rcPointer = NULL;	// should be redundant
 	}
 	Type* self() const { return rcPointer; }
 	// The operator=(Type*) is called if the argument is NULL, so we dont need int.
 	//Type* operator=(int value) { assert(value == 0); rcDec(); rcPointer = 0; return rcPointer; }
 	// We increment before decrement if possible so that a = a; does not crash.
-	RefCntPointer<Type>& operator=(RefCntPointer other) { other.rcInc(); rcDec(); rcPointer = other.rcPointer; return *this; }
+	RefCntPointer<Type>& operator=(RefCntPointer other) { Type *old = rcPointer; rcPointer = other.rcPointer; rcInc(); if (old) {old->decRefCnt();} return *this; }
 	// The old is the previous value of this pointer.  We do not decrement the refcnt in the other that we are taking charge of.
 	RefCntPointer<Type>& operator=(Type* other) { Type *old = rcPointer;  rcPointer = other; rcInc(); if (old) {old->decRefCnt();} return *this; }
 	bool operator==(const RefCntPointer &other) const { return rcPointer == other.rcPointer; }
@@ -268,10 +269,10 @@ class RefCntPointer {
 	// free is a synonym for *this = NULL; but it is a better comment in the code what is happening.  RefCntBase is only freed if this was the last pointer to it.
 	void free() {
 		int refcnt = rcPointer ? rcPointer->getRefCnt() : 0;
+		void *was = rcPointer;
 		rcDec();
-		if (refcnt > 1) { LOG(DEBUG)<<"RefCntPointer "<<(void*)rcPointer<<" refcnt before="<<refcnt<< " did not free structure."; }
-		else { LOG(DEBUG)<<"RefCntPointer "<<(void*)rcPointer<<"  refcnt before="<<refcnt; }
-		rcPointer = NULL;
+		if (refcnt > 1) { LOG(DEBUG)<<"RefCntPointer "<<was<<" refcnt before="<<refcnt<< " did not free structure."; }
+		else { LOG(DEBUG)<<"RefCntPointer "<<was<<"  refcnt before="<<refcnt; }
 	}
 	bool isNULL() const { return self() == NULL; }
 };
-- 
2.43.0


From c39fb901d0ccacaca9c3d166d41a9628141fe035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:28 +0000
Subject: [PATCH 73/74] fix: the inter-thread map deleted an element written
 again in its place, and kept elements visible to their destructors

---
 Interthread.h | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/Interthread.h b/Interthread.h
index cd58ae0..631baa7 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -453,15 +453,17 @@ protected:
 public:
 	// User can over-ride this method if they want to delete type D elements.
 	virtual void vdelete(D) {}
+	// What happens to an element when another is written in its place.
+	virtual void vreplace(D old, D) { vdelete(old); }
 
 	~InterthreadMap1() {
 		ScopedLock lock(mLock);
-		typename Map::iterator iter = mMap.begin();
-		while (iter != mMap.end()) {
-			vdelete(iter->second);
-			++iter;
+		// Take each element out before deleting it: its destructor may look at or remove others.
+		while (!mMap.empty()) {
+			D val = mMap.begin()->second;
+			mMap.erase(mMap.begin());
+			vdelete(val);
 		}
-		mMap.clear();
 	}
 
 	/**
@@ -474,8 +476,9 @@ public:
 		ScopedLock lock(mLock);
 		typename Map::iterator iter = mMap.find(key);
 		if (iter!=mMap.end()) {
-			vdelete(iter->second);
+			D old = iter->second;
 			iter->second = wData;
+			vreplace(old,wData);
 		} else {
 			mMap[key] = wData;
 		}
@@ -614,12 +617,16 @@ public:
 template <class K, class D > class InterthreadMap : public InterthreadMap1<K,D*>
 {
 	void vdelete(D* foo) { delete foo; }
+	void vreplace(D* old, D* wData) { if (old != wData) { delete old; } }	// The same element may be written again.
 	public:
 	// The base class destructor cannot call our vdelete.
 	~InterthreadMap() {
 		ScopedLock lock(this->mLock);
-		for (typename InterthreadMap1<K,D*>::iterator iter = this->mMap.begin(); iter != this->mMap.end(); ++iter) { vdelete(iter->second); }
-		this->mMap.clear();
+		while (!this->mMap.empty()) {
+			D *val = this->mMap.begin()->second;
+			this->mMap.erase(this->mMap.begin());
+			vdelete(val);
+		}
 	}
 };
 
-- 
2.43.0


From fefee157f25f2a2573a8e5bcdfdc79edbae79235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:28 +0000
Subject: [PATCH 74/74] fix: copying between overlapping parts of one vector
 used memcpy

---
 Vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vector.h b/Vector.h
index b3c19a9..f9f008a 100644
--- a/Vector.h
+++ b/Vector.h
@@ -255,7 +255,7 @@ template <class T> class VectorBase
 		T* base = other.mStart + start;
 		assert(base+span<=other.mEnd);
 		assert(mStart+span<=mEnd);
-		memcpy(base,mStart,span*sizeof(T));
+		memmove(base,mStart,span*sizeof(T));	// The two may be parts of one vector.
 	}
 
 	/** Copy all of this Vector to a segment of another Vector. */
@@ -275,7 +275,7 @@ template <class T> class VectorBase
 		const T* base = mStart + start;
 		assert(base+span<=mEnd);
 		assert(other.mStart+span<=other.mEnd);
-		memcpy(other.mStart,base,span*sizeof(T));
+		memmove(other.mStart,base,span*sizeof(T));	// The two may be parts of one vector.
 	}
 
 	void fill(const T& val)
-- 
2.43.0

