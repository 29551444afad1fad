From 34c82a1a6a21fda872038518cc94ec6c45d6b59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:50 +0000
Subject: [PATCH 01/74] fix: release the inner lock when the clock cannot be
 read in a timed semaphore wait

---
 sync/sync_util.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index 7599368..4c7fd58 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -411,7 +411,12 @@ namespace CubicleSoft
 			{
 				struct timespec TempTime;
 
-				if (CSGX__ClockGetTimeRealtime(&TempTime) == -1)  return false;
+				if (CSGX__ClockGetTimeRealtime(&TempTime) == -1)
+				{
+					pthread_mutex_unlock(UnixSemaphore.MxMutex);
+
+					return false;
+				}
 				TempTime.tv_sec += Wait / 1000;
 				TempTime.tv_nsec += (Wait % 1000) * 1000000;
 				TempTime.tv_sec += TempTime.tv_nsec / 1000000000;
-- 
2.43.0


From 4862b05329e8c85865a9dd6192663756166abbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:50 +0000
Subject: [PATCH 02/74] fix: a timed wait that expires no longer discards a
 concurrent release or fire

---
 sync/sync_util.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index 4c7fd58..cf1e3ca 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -430,7 +430,8 @@ namespace CubicleSoft
 					if (Result2 != 0)  break;
 				} while (!UnixSemaphore.MxCount[0]);
 
-				if (Result2 == 0)
+				// A timed out waiter may have used up the signal of a release, so it has to use the release too.
+				if (UnixSemaphore.MxCount[0])
 				{
 					UnixSemaphore.MxCount[0]--;
 
@@ -585,7 +586,8 @@ namespace CubicleSoft
 
 				UnixEvent.MxWaiting[0]--;
 
-				if (Result2 == 0)
+				// A timed out waiter may have used up the signal of Fire() or kept others from the event, so it has to use the event too.
+				if (UnixEvent.MxSignaled[0] != '\x00')
 				{
 					// Reset auto events.
 					if (UnixEvent.MxManual[0] == '\x00')  UnixEvent.MxSignaled[0] = '\x00';
-- 
2.43.0


From e07e165788c2f1067f8559bd401d6eefad01bfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:50 +0000
Subject: [PATCH 03/74] fix: reader/writer lock wait budget is in milliseconds,
 not seconds

---
 sync/sync_readwritelock.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sync/sync_readwritelock.cpp b/sync/sync_readwritelock.cpp
index a759d8f..8ebffc0 100644
--- a/sync/sync_readwritelock.cpp
+++ b/sync/sync_readwritelock.cpp
@@ -262,13 +262,13 @@ namespace CubicleSoft
 			if (MxMem == NULL)  return false;
 
 			// Get current time in milliseconds.
-			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 
 			// Acquire the write lock mutex.  Guarantees that readers can't starve the writer.
 			if (!Util::WaitForUnixSemaphore(MxPthreadWWaitMutex, Wait))  return false;
 
 			// Acquire the counter mutex.
-			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 			if (Wait < CurrTime - StartTime || !Util::WaitForUnixSemaphore(MxPthreadRCountMutex, Wait - (CurrTime - StartTime)))
 			{
 				Util::ReleaseUnixSemaphore(MxPthreadWWaitMutex, NULL);
@@ -302,13 +302,13 @@ namespace CubicleSoft
 			if (MxMem == NULL)  return false;
 
 			// Get current time in milliseconds.
-			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 
 			// Acquire the write lock mutex.
 			if (!Util::WaitForUnixSemaphore(MxPthreadWWaitMutex, Wait))  return false;
 
 			// Wait for readers to reach zero.
-			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 			if (Wait < CurrTime - StartTime || !Util::WaitForUnixEvent(MxPthreadRWaitEvent, Wait - (CurrTime - StartTime)))
 			{
 				Util::ReleaseUnixSemaphore(MxPthreadWWaitMutex, NULL);
-- 
2.43.0


From 0a3aa3271d86f5ddb84ea2297e82d0284e2a95ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:31 +0000
Subject: [PATCH 04/74] fix: reader/writer lock that runs out of time tries
 once more instead of failing

A wait of zero failed on a free lock whenever the clock ticked over between
the two steps, and any wait did when the clock was set back.
---
 sync/sync_readwritelock.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sync/sync_readwritelock.cpp b/sync/sync_readwritelock.cpp
index 8ebffc0..340e021 100644
--- a/sync/sync_readwritelock.cpp
+++ b/sync/sync_readwritelock.cpp
@@ -269,7 +269,7 @@ namespace CubicleSoft
 
 			// Acquire the counter mutex.
 			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
-			if (Wait < CurrTime - StartTime || !Util::WaitForUnixSemaphore(MxPthreadRCountMutex, Wait - (CurrTime - StartTime)))
+			if (!Util::WaitForUnixSemaphore(MxPthreadRCountMutex, (CurrTime - StartTime < Wait ? Wait - (CurrTime - StartTime) : 0)))
 			{
 				Util::ReleaseUnixSemaphore(MxPthreadWWaitMutex, NULL);
 
@@ -309,7 +309,7 @@ namespace CubicleSoft
 
 			// Wait for readers to reach zero.
 			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
-			if (Wait < CurrTime - StartTime || !Util::WaitForUnixEvent(MxPthreadRWaitEvent, Wait - (CurrTime - StartTime)))
+			if (!Util::WaitForUnixEvent(MxPthreadRWaitEvent, (CurrTime - StartTime < Wait ? Wait - (CurrTime - StartTime) : 0)))
 			{
 				Util::ReleaseUnixSemaphore(MxPthreadWWaitMutex, NULL);
 
-- 
2.43.0


From 21c30cd1ae58b9b72404ebca6066885c469debac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:32 +0000
Subject: [PATCH 05/74] fix: re-using an idle named object no longer clears
 memory past its end

---
 sync/sync_util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index cf1e3ca..19252c9 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -280,7 +280,7 @@ namespace CubicleSoft
 							else
 							{
 								// If this is the first reference, reset the RAM to 0's for platform consistency to force a rebuild of the object.
-								memset(MemPtr, 0, Size);
+								memset(MemPtr, 0, Size - StartPos);
 
 								Result = 0;
 							}
-- 
2.43.0


From 5a9c4e3c2bab8f9e4815df893beaeaa2efd08d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:32 +0000
Subject: [PATCH 06/74] fix: re-used named object stays locked until it has
 been initialised

It was unlocked before the caller rebuilt the object, so another process could
use it half-made, and UnixNamedMemReady() then unlocked a mutex it did not own.
---
 sync/sync_util.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index 19252c9..e587989 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -287,7 +287,8 @@ namespace CubicleSoft
 
 							RefCountPtr[0]++;
 
-							pthread_mutex_unlock(MutexPtr);
+							// The first reference keeps everyone else out until UnixNamedMemReady() is called.
+							if (Result)  pthread_mutex_unlock(MutexPtr);
 						}
 
 						close(fp);
-- 
2.43.0


From f066128fd63dfb5ff9aee3720e3363c8f509bf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:55 +0000
Subject: [PATCH 07/74] fix: creating a mutex again lets go of the previous one

The previous mutex was only let go of while it was held, and then it was never
released for other users.  Locking a mutex whose creation failed crashed.
---
 sync/sync_mutex.cpp | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/sync/sync_mutex.cpp b/sync/sync_mutex.cpp
index ee4873f..b6db047 100644
--- a/sync/sync_mutex.cpp
+++ b/sync/sync_mutex.cpp
@@ -157,18 +157,11 @@ namespace CubicleSoft
 			{
 				if (MxOwnerID == Util::GetCurrentThreadID())
 				{
-					if (MxNamed)  Util::UnmapUnixNamedMem(MxMem, Util::GetUnixSemaphoreSize());
-					else
-					{
-						Util::FreeUnixSemaphore(MxPthreadMutex);
-
-						delete[] MxMem;
-					}
-
-					MxNamed = false;
-					MxMem = NULL;
 					MxCount = 0;
 					MxOwnerID = 0;
+
+					// Release the mutex.
+					Util::ReleaseUnixSemaphore(MxPthreadMutex, NULL);
 				}
 				else
 				{
@@ -178,6 +171,20 @@ namespace CubicleSoft
 				}
 			}
 
+			if (MxMem != NULL)
+			{
+				if (MxNamed)  Util::UnmapUnixNamedMem(MxMem, Util::GetUnixSemaphoreSize());
+				else
+				{
+					Util::FreeUnixSemaphore(MxPthreadMutex);
+
+					delete[] MxMem;
+				}
+
+				MxNamed = false;
+				MxMem = NULL;
+			}
+
 			size_t Pos, TempSize = Util::GetUnixSemaphoreSize();
 			MxNamed = (Name != NULL);
 			int Result = Util::InitUnixNamedMem(MxMem, Pos, "/Sync_Mutex", Name, TempSize);
@@ -217,9 +224,11 @@ namespace CubicleSoft
 				return true;
 			}
 
+			bool Created = (MxMem != NULL);
+
 			pthread_mutex_unlock(&MxPthreadCritSection);
 
-			if (!Util::WaitForUnixSemaphore(MxPthreadMutex, Wait))  return false;
+			if (!Created || !Util::WaitForUnixSemaphore(MxPthreadMutex, Wait))  return false;
 
 			pthread_mutex_lock(&MxPthreadCritSection);
 			MxOwnerID = Util::GetCurrentThreadID();
-- 
2.43.0


From 8fd66576252d128bd969293cd627accfb26404c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:55 +0000
Subject: [PATCH 08/74] fix: creating shared memory again no longer keeps the
 old First() result

---
 sync/sync_sharedmem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sync/sync_sharedmem.cpp b/sync/sync_sharedmem.cpp
index fdfa1c2..a557dbe 100644
--- a/sync/sync_sharedmem.cpp
+++ b/sync/sync_sharedmem.cpp
@@ -87,6 +87,7 @@ namespace CubicleSoft
 
 			MxMemInternal = NULL;
 			MxMem = NULL;
+			MxFirst = false;
 
 			size_t Pos, TempSize = Size;
 			int Result = Util::InitUnixNamedMem(MxMemInternal, Pos, "/Sync_SharedMem", Name, TempSize);
-- 
2.43.0


From b64ce2d902630fb07cdcf668e30af4d0cac45ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:50 +0000
Subject: [PATCH 09/74] fix: failed creation of a named object no longer blocks
 its name for ever

When sizing or mapping the new object failed, it was left behind half-made and
everyone creating it later crashed or waited for ever.
---
 sync/sync_util.cpp | 136 ++++++++++++++++++++++++++-------------------
 1 file changed, 78 insertions(+), 58 deletions(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index e587989..19b610a 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -212,88 +212,108 @@ namespace CubicleSoft
 
 				// Attempt to create the named shared memory object.
 				mode_t PrevMask = umask(0);
-				int fp = shm_open(Name2, O_RDWR | O_CREAT | O_EXCL, 0666);
-				if (fp > -1)
+				int fp, Result2;
+				bool Exists, Retry;
+				struct stat TempStat;
+
+				do
 				{
-					// Ignore platform errors (for now).
-					while (ftruncate(fp, Size) < 0 && errno == EINTR)
-					{
-					}
+					Retry = false;
 
-					ResultMem = (char *)mmap(NULL, Size, PROT_READ | PROT_WRITE, MAP_SHARED, fp, 0);
-					if (ResultMem == MAP_FAILED)  ResultMem = NULL;
-					else
+					fp = shm_open(Name2, O_RDWR | O_CREAT | O_EXCL, 0666);
+					if (fp > -1)
 					{
-						pthread_mutexattr_t MutexAttr;
+						do
+						{
+							Result2 = ftruncate(fp, Size);
+						} while (Result2 < 0 && errno == EINTR);
 
-						pthread_mutexattr_init(&MutexAttr);
-						pthread_mutexattr_setpshared(&MutexAttr, PTHREAD_PROCESS_SHARED);
+						if (Result2 == 0)  ResultMem = (char *)mmap(NULL, Size, PROT_READ | PROT_WRITE, MAP_SHARED, fp, 0);
+						if (Result2 != 0 || ResultMem == MAP_FAILED)
+						{
+							ResultMem = NULL;
 
-						MutexPtr = reinterpret_cast<pthread_mutex_t *>(ResultMem + AlignUnixSize(1));
-						RefCountPtr = reinterpret_cast<std::uint32_t *>(ResultMem + AlignUnixSize(1) + AlignUnixSize(sizeof(pthread_mutex_t)));
+							// Don't leave behind an object that will never be ready.
+							shm_unlink(Name2);
+						}
+						else
+						{
+							pthread_mutexattr_t MutexAttr;
 
-						pthread_mutex_init(MutexPtr, &MutexAttr);
-						pthread_mutex_lock(MutexPtr);
+							pthread_mutexattr_init(&MutexAttr);
+							pthread_mutexattr_setpshared(&MutexAttr, PTHREAD_PROCESS_SHARED);
 
-						ResultMem[0] = '\x01';
-						RefCountPtr[0] = 1;
+							MutexPtr = reinterpret_cast<pthread_mutex_t *>(ResultMem + AlignUnixSize(1));
+							RefCountPtr = reinterpret_cast<std::uint32_t *>(ResultMem + AlignUnixSize(1) + AlignUnixSize(sizeof(pthread_mutex_t)));
 
-						Result = 0;
-					}
+							pthread_mutex_init(MutexPtr, &MutexAttr);
+							pthread_mutex_lock(MutexPtr);
 
-					close(fp);
-				}
-				else
-				{
-					// Attempt to open the named shared memory object.
-					fp = shm_open(Name2, O_RDWR, 0666);
-					if (fp > -1)
-					{
-						// Ignore platform errors (for now).
-						while (ftruncate(fp, Size) < 0 && errno == EINTR)
-						{
+							ResultMem[0] = '\x01';
+							RefCountPtr[0] = 1;
+
+							Result = 0;
 						}
 
-						ResultMem = (char *)mmap(NULL, Size, PROT_READ | PROT_WRITE, MAP_SHARED, fp, 0);
-						if (ResultMem == MAP_FAILED)  ResultMem = NULL;
-						else
+						close(fp);
+					}
+					else
+					{
+						Exists = (errno == EEXIST);
+
+						// Attempt to open the named shared memory object.
+						fp = shm_open(Name2, O_RDWR, 0666);
+						if (fp > -1)
 						{
-							// Wait until the space is fully initialized.
-							if (ResultMem[0] == '\x00')
+							// Wait until the creator has set the size.
+							Retry = (fstat(fp, &TempStat) == 0 && (std::uint64_t)TempStat.st_size < (std::uint64_t)Size);
+
+							if (!Retry)  ResultMem = (char *)mmap(NULL, Size, PROT_READ | PROT_WRITE, MAP_SHARED, fp, 0);
+							if (Retry || ResultMem == MAP_FAILED)  ResultMem = NULL;
+							else if (ResultMem[0] == '\x00')
 							{
-								while (ResultMem[0] == '\x00')
-								{
-									usleep(2000);
-								}
+								// Wait until the space is fully initialized.
+								munmap(ResultMem, Size);
+								ResultMem = NULL;
+								Retry = true;
 							}
+							else
+							{
+								char *MemPtr = ResultMem + AlignUnixSize(1);
+								MutexPtr = reinterpret_cast<pthread_mutex_t *>(MemPtr);
+								MemPtr += AlignUnixSize(sizeof(pthread_mutex_t));
 
-							char *MemPtr = ResultMem + AlignUnixSize(1);
-							MutexPtr = reinterpret_cast<pthread_mutex_t *>(MemPtr);
-							MemPtr += AlignUnixSize(sizeof(pthread_mutex_t));
+								RefCountPtr = reinterpret_cast<std::uint32_t *>(MemPtr);
+								MemPtr += AlignUnixSize(sizeof(std::uint32_t));
 
-							RefCountPtr = reinterpret_cast<std::uint32_t *>(MemPtr);
-							MemPtr += AlignUnixSize(sizeof(std::uint32_t));
+								pthread_mutex_lock(MutexPtr);
 
-							pthread_mutex_lock(MutexPtr);
+								if (RefCountPtr[0])  Result = 1;
+								else
+								{
+									// If this is the first reference, reset the RAM to 0's for platform consistency to force a rebuild of the object.
+									memset(MemPtr, 0, Size - StartPos);
 
-							if (RefCountPtr[0])  Result = 1;
-							else
-							{
-								// If this is the first reference, reset the RAM to 0's for platform consistency to force a rebuild of the object.
-								memset(MemPtr, 0, Size - StartPos);
+									Result = 0;
+								}
 
-								Result = 0;
-							}
+								RefCountPtr[0]++;
 
-							RefCountPtr[0]++;
+								// The first reference keeps everyone else out until UnixNamedMemReady() is called.
+								if (Result)  pthread_mutex_unlock(MutexPtr);
+							}
 
-							// The first reference keeps everyone else out until UnixNamedMemReady() is called.
-							if (Result)  pthread_mutex_unlock(MutexPtr);
+							close(fp);
+						}
+						else
+						{
+							// The creator may have failed and removed the object in the meantime.
+							Retry = (Exists && errno == ENOENT);
 						}
 
-						close(fp);
+						if (Retry)  usleep(2000);
 					}
-				}
+				} while (Retry);
 
 				umask(PrevMask);
 			}
-- 
2.43.0


From 67f55388a1c4c584c8a39c9b9a00cb4dc17336cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:17 +0000
Subject: [PATCH 10/74] fix: copying a TLS::MixedVar no longer frees an
 uninitialised pointer

The copy constructor called SetData(), which frees MxStr, before MxStr was set.
---
 sync/sync_tls.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index a484111..549e130 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -257,7 +257,7 @@ namespace CubicleSoft
 		}
 
 		// Copy constructor.
-		TLS::MixedVar::MixedVar(const TLS::MixedVar &TempVar)
+		TLS::MixedVar::MixedVar(const TLS::MixedVar &TempVar) : MxStr(NULL), MxStrPos(0)
 		{
 			MxTLS = TempVar.MxTLS;
 
-- 
2.43.0


From a9440e9732666024fbfc326d1c36e412cfd21ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:17 +0000
Subject: [PATCH 11/74] fix: TLS allocator reports an exhausted system
 allocator instead of using the null pointer

---
 sync/sync_tls.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index 549e130..130353f 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -78,6 +78,8 @@ namespace CubicleSoft
 			if (MainPtr->GetSize() <= Pos)
 			{
 				Data = ::malloc(Size);
+				if (Data == NULL)  return NULL;
+
 				Data = (std::uint8_t *)Data + 1;
 			}
 			else
@@ -124,12 +126,15 @@ namespace CubicleSoft
 			if (MainPtr->GetSize() <= Pos && MainPtr->GetSize() <= Pos2)
 			{
 				Data2 = ::realloc(((std::uint8_t *)Data) - 1, 1 + NewSize);
+				if (Data2 == NULL)  return NULL;
+
 				Data2 = (std::uint8_t *)Data2 + 1;
 			}
 			else
 			{
 				// Allocate data.
 				Data2 = malloc(NewSize);
+				if (Data2 == NULL)  return NULL;
 
 				// Copy the data.
 				memcpy(Data2, Data, (1 << Pos2));
-- 
2.43.0


From 6dcdea3908f4d47ed362ad4db6435ddd7d7d605b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:17 +0000
Subject: [PATCH 12/74] fix: growing a large TLS block records its new size

dup_malloc() copied only as many bytes as the block had before it was resized.
---
 sync/sync_tls.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index 130353f..e6e6cce 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -129,6 +129,9 @@ namespace CubicleSoft
 				if (Data2 == NULL)  return NULL;
 
 				Data2 = (std::uint8_t *)Data2 + 1;
+
+				// Store the new position.
+				((std::uint8_t *)Data2)[-1] = (std::uint8_t)Pos;
 			}
 			else
 			{
-- 
2.43.0


From 90d63dddc1ba6ed86ed2bb9aad09aa0bbbb8a11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:17 +0000
Subject: [PATCH 13/74] fix: TLS::ThreadInit() frees the cache if it cannot be
 attached to the thread

---
 sync/sync_tls.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index e6e6cce..0639519 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -62,7 +62,15 @@ namespace CubicleSoft
 			StaticVector<Queue<char>> *MainPtr = GetMainPtr();
 			if (MainPtr != NULL)  return true;
 
-			return SetMainPtr(new StaticVector<Queue<char>>(MaxCacheBits));
+			MainPtr = new StaticVector<Queue<char>>(MaxCacheBits);
+			if (!SetMainPtr(MainPtr))
+			{
+				delete MainPtr;
+
+				return false;
+			}
+
+			return true;
 		}
 
 		void *TLS::malloc(size_t Size)
-- 
2.43.0


From 6a962db23bf90af5c594194916fbd89f7351b24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:17 +0000
Subject: [PATCH 14/74] fix: TLS allocator block sizes of 2 GB and more

Shifting an int by 31 or more copied the wrong number of bytes, and a request of
more than half of the address space looped for ever.
---
 sync/sync_tls.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index 0639519..1470e1d 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -148,7 +148,7 @@ namespace CubicleSoft
 				if (Data2 == NULL)  return NULL;
 
 				// Copy the data.
-				memcpy(Data2, Data, (1 << Pos2));
+				memcpy(Data2, Data, ((size_t)1 << Pos2));
 
 				// Free the previous object.
 				free(Data, Cache);
@@ -162,7 +162,7 @@ namespace CubicleSoft
 			if (Data == NULL)  return NULL;
 
 			// Allocate the appropriate size buffer.
-			size_t Size = (size_t)(1 << ((size_t)((std::uint8_t *)Data)[-1]));
+			size_t Size = ((size_t)1 << ((size_t)((std::uint8_t *)Data)[-1]));
 			void *Data2 = ::malloc(Size);
 			if (Data2 == NULL)  return NULL;
 
@@ -208,7 +208,7 @@ namespace CubicleSoft
 			else
 			{
 				Nodes = (*MainPtr)[Num].GetSize();
-				Size = (size_t)(1 << Num);
+				Size = ((size_t)1 << Num);
 				if (Size < sizeof(QueueNode<char>))  Size = sizeof(QueueNode<char>);
 				Size *= Nodes;
 			}
@@ -244,7 +244,7 @@ namespace CubicleSoft
 		{
 			size_t Pos = 3;
 
-			while (((size_t)1 << Pos) < Size)  Pos++;
+			while (Pos < sizeof(size_t) * 8 - 1 && ((size_t)1 << Pos) < Size)  Pos++;
 			Size = ((size_t)1 << Pos);
 
 			return Pos;
-- 
2.43.0


From cd8db2d12f3899fbb6e0025cb20c6cb0c3c3751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:34 +0000
Subject: [PATCH 15/74] fix: in-place replace no longer copies overlapping
 memory with memcpy()

StaticReplaceAll() is used with the source as the destination (e.g. MixedVar::ReplaceData()).
---
 templates/fast_find_replace_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/fast_find_replace_util.h b/templates/fast_find_replace_util.h
index d0c8857..f22cf46 100644
--- a/templates/fast_find_replace_util.h
+++ b/templates/fast_find_replace_util.h
@@ -587,7 +587,7 @@ public:
 
 		if (SrcDist)
 		{
-			memcpy(MxData + MxDataPos, MxSrcCurr, SrcDist * sizeof(T));
+			memmove(MxData + MxDataPos, MxSrcCurr, SrcDist * sizeof(T));
 			MxDataPos += SrcDist;
 		}
 
-- 
2.43.0


From 5904cbd12bd45b44b6b2827d0fdb4811d5c7d6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:37 +0000
Subject: [PATCH 16/74] fix: file names with non-ASCII UTF-8 characters are no
 longer refused where char is signed

---
 utf8/utf8_file_dir.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 672d843..1ac678f 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -274,7 +274,7 @@ namespace CubicleSoft
 			{
 				TempCP = Result[x];
 
-				if (TempCP < 0x20 || TempCP == 0x7F || TempCP == ':' || TempCP == '*' || TempCP == '?' || TempCP == '\"' || TempCP == '<' || TempCP == '>' || TempCP == '|')  return false;
+				if ((std::uint8_t)TempCP < 0x20 || TempCP == 0x7F || TempCP == ':' || TempCP == '*' || TempCP == '?' || TempCP == '\"' || TempCP == '<' || TempCP == '>' || TempCP == '|')  return false;
 				else if (TempCP == '.' || TempCP == '\\')
 				{
 					y2 = x - LastPos;
@@ -1393,7 +1393,7 @@ namespace CubicleSoft
 			{
 				TempCP = Result[x];
 
-				if (TempCP < 0x20 || TempCP == 0x7F || TempCP == '*' || TempCP == '?' || TempCP == '\"' || TempCP == '<' || TempCP == '>' || TempCP == '|')  return false;
+				if ((std::uint8_t)TempCP < 0x20 || TempCP == 0x7F || TempCP == '*' || TempCP == '?' || TempCP == '\"' || TempCP == '<' || TempCP == '>' || TempCP == '|')  return false;
 				else if (TempCP == '\\')  Result[x] = '/';
 			}
 
-- 
2.43.0


From 07d2b294af694fa0ea91699652e84a2565cc29ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:37 +0000
Subject: [PATCH 17/74] fix: opening a file that cannot be locked as asked
 closes it again

---
 utf8/utf8_file_dir.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 1ac678f..6d11895 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1259,17 +1259,32 @@ namespace CubicleSoft
 			// Closest to Windows support is to just lock exclusively for ShareRead and ShareWrite.
 			if (ShareFlag == ShareNone || ShareFlag == ShareRead || ShareFlag == ShareWrite)
 			{
-				if (::flock(MxFile, LOCK_EX | LOCK_NB) < 0)  return false;
+				if (::flock(MxFile, LOCK_EX | LOCK_NB) < 0)
+				{
+					Close();
+
+					return false;
+				}
 
 				MxLocked = true;
 			}
 			else if (ShareFlag == ShareBoth)
 			{
-				if (::flock(MxFile, LOCK_SH | LOCK_NB) < 0)  return false;
+				if (::flock(MxFile, LOCK_SH | LOCK_NB) < 0)
+				{
+					Close();
+
+					return false;
+				}
 
 				MxLocked = true;
 			}
-			else  return false;
+			else
+			{
+				Close();
+
+				return false;
+			}
 
 			off64_t Pos = ::lseek64(MxFile, 0, SEEK_CUR);
 			MxCurrPos = (Pos >= 0 ? (std::uint64_t)Pos : 0);
-- 
2.43.0


From 119152f6327c132e407ef484d82bfff07b74e15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:29 +0000
Subject: [PATCH 18/74] fix: opening with truncation no longer empties a file
 that somebody else has locked

---
 utf8/utf8_file_dir.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 6d11895..de131a7 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1246,7 +1246,8 @@ namespace CubicleSoft
 			Flags |= O_CLOEXEC;
 #endif
 
-			MxFile = ::open(Filename2, Flags, Mode & 0777);
+			// Truncation has to wait until the lock is held.  Someone else might be using the file.
+			MxFile = ::open(Filename2, Flags & ~O_TRUNC, Mode & 0777);
 			if (MxFile < 0)
 			{
 				MxFile = -1;
@@ -1286,6 +1287,14 @@ namespace CubicleSoft
 				return false;
 			}
 
+			// Devices and the like can't be truncated.
+			if ((Flags & O_TRUNC) && ::ftruncate(MxFile, 0) < 0 && errno != EINVAL)
+			{
+				Close();
+
+				return false;
+			}
+
 			off64_t Pos = ::lseek64(MxFile, 0, SEEK_CUR);
 			MxCurrPos = (Pos >= 0 ? (std::uint64_t)Pos : 0);
 			UpdateMaxPos();
-- 
2.43.0


From facb2b03a13905910f1cbb4e9bebd504c4795090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:19 +0000
Subject: [PATCH 19/74] fix: interrupted and partial file writes are counted
 correctly

---
 utf8/utf8_file_dir.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index de131a7..dc55912 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1360,14 +1360,21 @@ namespace CubicleSoft
 			do
 			{
 				BytesWritten = ::write(MxFile, Data, DataSize);
-				if (BytesWritten < 0 && errno != EINTR)  return false;
+				if (BytesWritten < 0)
+				{
+					if (errno == EINTR)  continue;
+
+					return false;
+				}
 
 				DataSize -= BytesWritten;
 				Data += BytesWritten;
 				DataWritten += BytesWritten;
+
+				// Keep the position in step even if a later part of the data can't be written.
+				MxCurrPos += (std::uint64_t)BytesWritten;
+				if (MxCurrPos > MxMaxPos)  MxMaxPos = MxCurrPos;
 			} while (DataSize);
-			MxCurrPos += (std::uint64_t)DataWritten;
-			if (MxCurrPos > MxMaxPos)  MxMaxPos = MxCurrPos;
 
 			return true;
 		}
-- 
2.43.0


From 3e7c0b9fc35877211eecf2cc49fb1bf6fffbde73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:53 +0000
Subject: [PATCH 20/74] fix: the position is right after writing to a file
 opened for appending

---
 utf8/utf8_file_dir.cpp | 10 +++++++++-
 utf8/utf8_file_dir.h   |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index dc55912..b141d31 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1190,7 +1190,7 @@ namespace CubicleSoft
 			Dirname[Size] = L'\0';
 		}
 #else
-		File::File() : MxFile(-1), MxLocked(false), MxRead(false), MxWrite(false), MxCurrPos(0), MxMaxPos(0)
+		File::File() : MxFile(-1), MxLocked(false), MxAppend(false), MxRead(false), MxWrite(false), MxCurrPos(0), MxMaxPos(0)
 		{
 		}
 
@@ -1256,6 +1256,7 @@ namespace CubicleSoft
 			}
 
 			MxLocked = false;
+			MxAppend = ((Flags & O_APPEND) != 0);
 
 			// Closest to Windows support is to just lock exclusively for ShareRead and ShareWrite.
 			if (ShareFlag == ShareNone || ShareFlag == ShareRead || ShareFlag == ShareWrite)
@@ -1371,6 +1372,13 @@ namespace CubicleSoft
 				Data += BytesWritten;
 				DataWritten += BytesWritten;
 
+				// The system moves to the end of the file before appending.
+				if (MxAppend)
+				{
+					off64_t Pos = ::lseek64(MxFile, 0, SEEK_CUR);
+					if (Pos >= BytesWritten)  MxCurrPos = (std::uint64_t)(Pos - BytesWritten);
+				}
+
 				// Keep the position in step even if a later part of the data can't be written.
 				MxCurrPos += (std::uint64_t)BytesWritten;
 				if (MxCurrPos > MxMaxPos)  MxMaxPos = MxCurrPos;
diff --git a/utf8/utf8_file_dir.h b/utf8/utf8_file_dir.h
index 09640c3..407681c 100644
--- a/utf8/utf8_file_dir.h
+++ b/utf8/utf8_file_dir.h
@@ -180,7 +180,7 @@ private:
 			HANDLE MxFile;
 #else
 			int MxFile;
-			bool MxLocked;
+			bool MxLocked, MxAppend;
 #endif
 
 		protected:
-- 
2.43.0


From f84dc042ec289b81f5f5ad9d511811105d1f72b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:34 +0000
Subject: [PATCH 21/74] fix: seeking forward by a huge distance stops at the
 end of the file

---
 utf8/utf8_file_dir.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index b141d31..fbdfc1d 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -142,7 +142,7 @@ namespace CubicleSoft
 			{
 				case File::SeekStart:  TempPos = (Pos <= MxMaxPos ? Pos : MxMaxPos);  break;
 				case File::SeekEnd:  TempPos = (Pos <= MxMaxPos ? MxMaxPos - Pos : 0);  break;
-				case File::SeekForward:  TempPos = (MxCurrPos + Pos <= MxMaxPos ? MxCurrPos + Pos : MxMaxPos);  break;
+				case File::SeekForward:  TempPos = (MxCurrPos <= MxMaxPos && Pos <= MxMaxPos - MxCurrPos ? MxCurrPos + Pos : MxMaxPos);  break;
 				case File::SeekBackward:  TempPos = (MxCurrPos >= Pos ? MxCurrPos - Pos : 0);  break;
 				default:  TempPos = MxCurrPos;  break;
 			}
@@ -1313,7 +1313,7 @@ namespace CubicleSoft
 			{
 				case File::SeekStart:  TempPos = (Pos <= MxMaxPos ? Pos : MxMaxPos);  break;
 				case File::SeekEnd:  TempPos = (Pos <= MxMaxPos ? MxMaxPos - Pos : 0);  break;
-				case File::SeekForward:  TempPos = (MxCurrPos + Pos <= MxMaxPos ? MxCurrPos + Pos : MxMaxPos);  break;
+				case File::SeekForward:  TempPos = (MxCurrPos <= MxMaxPos && Pos <= MxMaxPos - MxCurrPos ? MxCurrPos + Pos : MxMaxPos);  break;
 				case File::SeekBackward:  TempPos = (MxCurrPos >= Pos ? MxCurrPos - Pos : 0);  break;
 				default:  TempPos = MxCurrPos;  break;
 			}
-- 
2.43.0


From bc58316efeeaf9670e344a8206b113e58bd38841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:57 +0000
Subject: [PATCH 22/74] fix: a file whose size cannot be determined is no
 longer taken for an empty one

---
 utf8/utf8_file_dir.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index fbdfc1d..884f628 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1298,7 +1298,12 @@ namespace CubicleSoft
 
 			off64_t Pos = ::lseek64(MxFile, 0, SEEK_CUR);
 			MxCurrPos = (Pos >= 0 ? (std::uint64_t)Pos : 0);
-			UpdateMaxPos();
+			if (!UpdateMaxPos())
+			{
+				Close();
+
+				return false;
+			}
 
 			return true;
 		}
@@ -1329,13 +1334,13 @@ namespace CubicleSoft
 		{
 			if (MxFile == -1 || !MxRead)  return false;
 
+			DataRead = 0;
 			if ((std::uint64_t)DataSize > MxMaxPos - MxCurrPos)
 			{
-				UpdateMaxPos();
+				if (!UpdateMaxPos())  return false;
 				if ((std::uint64_t)DataSize > MxMaxPos - MxCurrPos)  DataSize = (size_t)(MxMaxPos - MxCurrPos);
 			}
 
-			DataRead = 0;
 			if (DataSize == 0)  return true;
 
 			ssize_t BytesRead;
-- 
2.43.0


From 1c543df0d50e584896344eee6e018dcf8514ef66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:37 +0000
Subject: [PATCH 23/74] fix: truncation on opening is retried when interrupted

---
 utf8/utf8_file_dir.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 884f628..f12c8be 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1289,11 +1289,19 @@ namespace CubicleSoft
 			}
 
 			// Devices and the like can't be truncated.
-			if ((Flags & O_TRUNC) && ::ftruncate(MxFile, 0) < 0 && errno != EINVAL)
+			if (Flags & O_TRUNC)
 			{
-				Close();
+				int Result;
+				do
+				{
+					Result = ::ftruncate(MxFile, 0);
+				} while (Result < 0 && errno == EINTR);
+				if (Result < 0 && errno != EINVAL)
+				{
+					Close();
 
-				return false;
+					return false;
+				}
 			}
 
 			off64_t Pos = ::lseek64(MxFile, 0, SEEK_CUR);
-- 
2.43.0


From 08c06279af934f51012f2855286a53867d388b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:41 +0000
Subject: [PATCH 24/74] fix: flushing a file reports when the data could not be
 stored

---
 utf8/utf8_file_dir.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index f12c8be..ac741fb 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1404,6 +1404,15 @@ namespace CubicleSoft
 		{
 			if (MxFile == -1 || !MxWrite)  return false;
 
+			// Unlike sync(), fsync() reports whether or not the data made it to the storage device.
+			int Result;
+			do
+			{
+				Result = ::fsync(MxFile);
+			} while (Result < 0 && errno == EINTR);
+			if (Result < 0 && errno != EINVAL)  return false;
+
+			// Covers the directory entry of a new file.
 			::sync();
 
 			return true;
-- 
2.43.0


From 1d8752589a798a587c3a1e9dd16159669d63d764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:41 +0000
Subject: [PATCH 25/74] fix: a file read that the system splits up is continued

LineInput() took a short read for the end of the file and returned a part of a
line as a whole line, and LoadEntireFile() failed.
---
 utf8/utf8_file_dir.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index ac741fb..82f34c9 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1351,14 +1351,23 @@ namespace CubicleSoft
 
 			if (DataSize == 0)  return true;
 
+			// The system may deliver the data in several parts.
 			ssize_t BytesRead;
 			do
 			{
 				BytesRead = ::read(MxFile, Data, DataSize);
-			} while (BytesRead < 0 && errno == EINTR);
-			if (BytesRead < 0)  return false;
-			DataRead = (size_t)BytesRead;
-			MxCurrPos += (std::uint64_t)BytesRead;
+				if (BytesRead < 0)
+				{
+					if (errno == EINTR)  continue;
+
+					return false;
+				}
+
+				DataSize -= BytesRead;
+				Data += BytesRead;
+				DataRead += (size_t)BytesRead;
+				MxCurrPos += (std::uint64_t)BytesRead;
+			} while (DataSize && BytesRead);
 
 			return true;
 		}
-- 
2.43.0


From 80db9c42f1a3ae4bff7a4d4b3deed4daaaa9925b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:09 +0000
Subject: [PATCH 26/74] fix: reading a long line no longer copies from past the
 end of the line buffer

---
 utf8/utf8_file_dir.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 82f34c9..7922d1f 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1948,7 +1948,7 @@ namespace CubicleSoft
 					else
 					{
 						Result2 = new char[CurrSize + 1];
-						memcpy(Result2, Result, CurrSize);
+						memcpy(Result2, Result, CurrSize - SizeHint);
 						delete[] Result;
 						Result = Result2;
 					}
-- 
2.43.0


From 92aac1b719748cea0676611609c743bafed8173e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:09 +0000
Subject: [PATCH 27/74] fix: a line input size hint of zero no longer loops
 forever

---
 utf8/utf8_file_dir.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 7922d1f..551dcfa 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1934,6 +1934,9 @@ namespace CubicleSoft
 
 			if (!IsOpen() || !MxRead)  return NULL;
 
+			// At least one byte has to be read each time.
+			if (!SizeHint)  SizeHint = 1;
+
 			Result = NULL;
 			CurrSize = SizeHint;
 			do
-- 
2.43.0


From 78a656586f5a5bb400f4dc7bc07be23ee81020b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:09 +0000
Subject: [PATCH 28/74] fix: line input reports a failed read instead of
 returning a part of the line

---
 utf8/utf8_file_dir.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 551dcfa..d0b0a0c 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1957,7 +1957,15 @@ namespace CubicleSoft
 					}
 				}
 
-				Read((std::uint8_t *)(Result + CurrSize - SizeHint), SizeHint, ReadSize);
+				if (!Read((std::uint8_t *)(Result + CurrSize - SizeHint), SizeHint, ReadSize))
+				{
+					// A part of a line is not a line.
+					if (AltRealloc != NULL)  AltRealloc(AltMallocManager, Result, 0);
+					else  delete[] Result;
+
+					return NULL;
+				}
+
 				if (ReadSize < SizeHint)
 				{
 					CurrSize -= (SizeHint - ReadSize);
-- 
2.43.0


From 75d0a958f4e677db179b6c8e8490e51d1e49b14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:40 +0000
Subject: [PATCH 29/74] fix: line input and whole file loading report an
 exhausted allocator instead of using the null pointer

---
 utf8/utf8_file_dir.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index d0b0a0c..4bf3d8f 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1941,13 +1941,28 @@ namespace CubicleSoft
 			CurrSize = SizeHint;
 			do
 			{
-				if (Result == NULL)  Result = (AltRealloc != NULL ? (char *)AltRealloc(AltMallocManager, NULL, CurrSize + 1) : new char[CurrSize + 1]);
+				if (Result == NULL)
+				{
+					Result = (AltRealloc != NULL ? (char *)AltRealloc(AltMallocManager, NULL, CurrSize + 1) : new char[CurrSize + 1]);
+					if (Result == NULL)  return NULL;
+				}
 				else
 				{
 					// Enlarge storage space by SizeHint.
 					CurrSize += SizeHint;
 
-					if (AltRealloc != NULL)  Result = (char *)AltRealloc(AltMallocManager, Result, CurrSize + 1);
+					if (AltRealloc != NULL)
+					{
+						Result2 = (char *)AltRealloc(AltMallocManager, Result, CurrSize + 1);
+						if (Result2 == NULL)
+						{
+							AltRealloc(AltMallocManager, Result, 0);
+
+							return NULL;
+						}
+
+						Result = Result2;
+					}
 					else
 					{
 						Result2 = new char[CurrSize + 1];
@@ -2025,6 +2040,7 @@ namespace CubicleSoft
 			size_t TempSize = (size_t)TempFile.GetMaxPos(), TempSize2;
 			if (AltMallocManager != NULL)  TempResult = (char *)AltMalloc(AltMallocManager, TempSize);
 			else  TempResult = new char[TempSize];
+			if (TempResult == NULL && TempSize)  return false;
 
 			if (!TempFile.Read((std::uint8_t *)TempResult, TempSize, TempSize2) || TempSize != TempSize2)
 			{
-- 
2.43.0


From 3fa66627f2f64ac7c4405d07cac88ad65f128fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:35 +0000
Subject: [PATCH 30/74] fix: line input reports that it couldn't return to the
 start of the next line

---
 utf8/utf8_file_dir.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 4bf3d8f..657a16e 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1931,6 +1931,7 @@ namespace CubicleSoft
 		{
 			char *Result, *Result2, *RPos, *NPos;
 			size_t x, CurrSize, ReadSize;
+			bool Positioned = true;
 
 			if (!IsOpen() || !MxRead)  return NULL;
 
@@ -2010,13 +2011,13 @@ namespace CubicleSoft
 
 			if (NPos != NULL)
 			{
-				Seek(File::SeekBackward, CurrSize - (size_t)(NPos - Result) - 1);
+				Positioned = Seek(File::SeekBackward, CurrSize - (size_t)(NPos - Result) - 1);
 				if (RPos != NULL)  *RPos = '\0';
 				else  *NPos = '\0';
 			}
 			else if (RPos != NULL)
 			{
-				Seek(File::SeekBackward, CurrSize - (size_t)(RPos - Result) - 1);
+				Positioned = Seek(File::SeekBackward, CurrSize - (size_t)(RPos - Result) - 1);
 				*RPos = '\0';
 			}
 			else
@@ -2024,6 +2025,15 @@ namespace CubicleSoft
 				Result[CurrSize] = '\0';
 			}
 
+			// Without a position for the next call, text would go missing.
+			if (!Positioned)
+			{
+				if (AltRealloc != NULL)  AltRealloc(AltMallocManager, Result, 0);
+				else  delete[] Result;
+
+				return NULL;
+			}
+
 			return Result;
 		}
 
-- 
2.43.0


From 5319a970f96669774aceccda0c3bd0fcbfddd992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:03 +0000
Subject: [PATCH 31/74] fix: copying a file copies exactly its bytes and
 reports when that fails

A last block of less than 8192 bytes was padded with leftovers of the buffer and
errors of all kinds were ignored, so that Move() deleted the only copy.
---
 utf8/utf8_file_dir.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 657a16e..432837f 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1671,13 +1671,19 @@ namespace CubicleSoft
 			size_t y;
 
 			// Copy the data.
-			while (SrcFile.Read(Buffer, 8192, y) && y)
+			do
 			{
-				DestFile.Write(Buffer, 8192, y);
-			}
+				if (!SrcFile.Read(Buffer, 8192, y))  return false;
+				if (!DestFile.Write(Buffer, y, y))  return false;
+			} while (y);
 
 			// Truncate the file to the current point.
-			if (::ftruncate(DestFile.MxFile, (off_t)DestFile.MxCurrPos) == 0)  {}
+			int Result;
+			do
+			{
+				Result = ::ftruncate(DestFile.MxFile, (off_t)DestFile.MxCurrPos);
+			} while (Result < 0 && errno == EINTR);
+			if (Result < 0)  return false;
 
 			DestFile.Close();
 			SrcFile.Close();
-- 
2.43.0


From c5fbc244edb3609ffdb7e7deb41d99147576e5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:03 +0000
Subject: [PATCH 32/74] fix: copying a file no longer sets a random access time
 if the destination can't be examined

---
 utf8/utf8_file_dir.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 432837f..c5c3dc7 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1693,11 +1693,13 @@ namespace CubicleSoft
 			if (::chmod(DestFilename2, SrcStat.st_mode) == 0)  {}
 
 			// Clone the modified timestamp.
-			stat(DestFilename2, &DestStat);
-			struct utimbuf TempUTime;
-			TempUTime.actime = DestStat.st_atime;
-			TempUTime.modtime = SrcStat.st_mtime;
-			utime(DestFilename2, &TempUTime);
+			if (stat(DestFilename2, &DestStat) == 0)
+			{
+				struct utimbuf TempUTime;
+				TempUTime.actime = DestStat.st_atime;
+				TempUTime.modtime = SrcStat.st_mtime;
+				utime(DestFilename2, &TempUTime);
+			}
 
 			return true;
 		}
-- 
2.43.0


From b32a3faab42ae46d0abd3322204eba72c9dc64ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:03 +0000
Subject: [PATCH 33/74] fix: moving a file to another device reports when the
 source could not be removed

---
 utf8/utf8_file_dir.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index c5c3dc7..c4f1b43 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1714,7 +1714,7 @@ namespace CubicleSoft
 			if (!Result)
 			{
 				Result = File::Copy(SrcFilename2, DestFilename2);
-				if (Result)  ::unlink(SrcFilename2);
+				if (Result)  Result = (::unlink(SrcFilename2) == 0);
 			}
 
 			return Result;
-- 
2.43.0


From d8b29d108933d8b102a6ad82580598ff1348b1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:03 +0000
Subject: [PATCH 34/74] fix: Readlink() terminates its result

---
 utf8/utf8_file_dir.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index c4f1b43..16f2838 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1745,7 +1745,11 @@ namespace CubicleSoft
 		{
 			ssize_t Size = ::readlink(Filename, Result, ResultSize);
 
-			return (Size != -1 && (size_t)Size < ResultSize);
+			if (Size == -1 || (size_t)Size >= ResultSize)  return false;
+
+			Result[Size] = '\0';
+
+			return true;
 		}
 
 		// Only Windows supports Creation timestamp modification.
-- 
2.43.0


From 2f3f45d216a963d62a57965d10be3735a0035127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:33 +0000
Subject: [PATCH 35/74] fix: the absolute name of the root directory is no
 longer empty

The root directory could not be listed.
---
 utf8/utf8_file_dir.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 16f2838..f8a99ea 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1583,7 +1583,7 @@ namespace CubicleSoft
 				Result[x2++] = Filename2[x];
 			}
 			if (TrailingSlash && x2 && Result[x2 - 1] != '/' && x2 < ResultSize)  Result[x2++] = '/';
-			if (!TrailingSlash && x2 && Result[x2 - 1] == '/')  x2--;
+			if (!TrailingSlash && x2 > 1 && Result[x2 - 1] == '/')  x2--;
 			if (x2 >= ResultSize)  return false;
 			Result[x2] = '\0';
 
@@ -1883,6 +1883,9 @@ namespace CubicleSoft
 
 			if (Recursive)
 			{
+				// The root directory can't be removed.
+				if (!strcmp(Dirname2, "/"))  return false;
+
 				// Don't traverse symlinks.
 				File::FileStat TempStat;
 				if (::lstat(Dirname2, &TempStat) == 0 && !S_ISLNK(TempStat.st_mode))  Rmdir_RecurseInternal(Dirname2, strlen(Dirname2));
-- 
2.43.0


From 6681c2cb0f9f8b95f0515cdb5ee27864acd06e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:07 +0000
Subject: [PATCH 36/74] fix: an absolute name that does not fit is refused
 instead of being cut off at a separator

---
 utf8/utf8_file_dir.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index f8a99ea..e4d04d7 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -488,6 +488,7 @@ namespace CubicleSoft
 
 				Result[x2++] = Filename2[x];
 			}
+			if (x < FileInfo2.Length)  return false;
 			if (TrailingSlash && x2 && Result[x2 - 1] != '\\' && x2 < ResultSize)  Result[x2++] = '\\';
 			if (!TrailingSlash && x2 && Result[x2 - 1] == '\\')  x2--;
 			if (x2 >= ResultSize)  return false;
@@ -1582,6 +1583,7 @@ namespace CubicleSoft
 
 				Result[x2++] = Filename2[x];
 			}
+			if (x < FileInfo2.Length)  return false;
 			if (TrailingSlash && x2 && Result[x2 - 1] != '/' && x2 < ResultSize)  Result[x2++] = '/';
 			if (!TrailingSlash && x2 > 1 && Result[x2 - 1] == '/')  x2--;
 			if (x2 >= ResultSize)  return false;
-- 
2.43.0


From ead513683a97fce28ad0439d62314ac0965fd707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:41 +0000
Subject: [PATCH 37/74] fix: CSPRNG::GetBytes() returns when the random device
 delivers less than asked for or fails

---
 security/security_csprng.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/security/security_csprng.cpp b/security/security_csprng.cpp
index 10f2e0c..f81f23b 100644
--- a/security/security_csprng.cpp
+++ b/security/security_csprng.cpp
@@ -49,15 +49,18 @@ namespace CubicleSoft
 
 			ssize_t BytesRead;
 
-			do
+			while (Size)
 			{
 				do
 				{
 					BytesRead = read(MxURandom, Result, Size);
 				} while (BytesRead < 0 && errno == EINTR);
-			} while (BytesRead != (ssize_t)Size);
 
-			if (BytesRead < 0)  return false;
+				if (BytesRead <= 0)  return false;
+
+				Result += BytesRead;
+				Size -= (size_t)BytesRead;
+			}
 
 			return true;
 		}
-- 
2.43.0


From 7885e792cf7ca9ad2d7a9e9e0e6cb80521c9a4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:41 +0000
Subject: [PATCH 38/74] fix: CSPRNG only closes the random device if it was
 opened

---
 security/security_csprng.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/security/security_csprng.cpp b/security/security_csprng.cpp
index f81f23b..01b8d8b 100644
--- a/security/security_csprng.cpp
+++ b/security/security_csprng.cpp
@@ -40,7 +40,7 @@ namespace CubicleSoft
 
 		CSPRNG::~CSPRNG()
 		{
-			close(MxURandom);
+			if (MxURandom >= 0)  close(MxURandom);
 		}
 
 		bool CSPRNG::GetBytes(std::uint8_t *Result, size_t Size)
-- 
2.43.0


From 52f52b84a71b257a45b1f7c1ae331bd166ee3765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:41 +0000
Subject: [PATCH 39/74] fix: JSON strings keep their slashes when slashes are
 not escaped

---
 json/json_serializer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index 231a791..f2b39cc 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -357,7 +357,7 @@ namespace CubicleSoft
 				{
 					case '"':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '"';  Val++;  break;
 					case '\\':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '\\';  Val++;  break;
-					case '/':  if (MxEscapeSlashes)  { MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '/'; }  Val++;  break;
+					case '/':  if (MxEscapeSlashes)  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '/';  Val++;  break;
 					case '\b':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'b';  Val++;  break;
 					case '\f':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'f';  Val++;  break;
 					case '\n':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'n';  Val++;  break;
@@ -381,7 +381,7 @@ namespace CubicleSoft
 				{
 					case '"':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '"';  Val++;  break;
 					case '\\':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '\\';  Val++;  break;
-					case '/':  if (MxEscapeSlashes)  { MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '/'; }  Val++;  break;
+					case '/':  if (MxEscapeSlashes)  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '/';  Val++;  break;
 					case '\b':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'b';  Val++;  break;
 					case '\f':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'f';  Val++;  break;
 					case '\n':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'n';  Val++;  break;
-- 
2.43.0


From 7f1a55b881a05aa61648d014d333cc2828c6ab23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:41 +0000
Subject: [PATCH 40/74] fix: the size of a JSON string with a given length is
 calculated from all of its characters

---
 json/json_serializer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index f2b39cc..7ef2877 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -315,6 +315,7 @@ namespace CubicleSoft
 				}
 
 				Result++;
+				Val++;
 				Size--;
 			}
 
-- 
2.43.0


From c00800ca09508dea7c7154c6ff7c20c514e12533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:20 +0000
Subject: [PATCH 41/74] fix: control characters in JSON strings are escaped

---
 json/json_serializer.cpp | 32 ++++++++++++++++++++++++++++++--
 json/json_serializer.h   |  1 +
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index 7ef2877..5ac9eea 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -275,6 +275,14 @@ namespace CubicleSoft
 
 						break;
 					}
+
+					default:
+					{
+						// \u00XX.
+						if ((unsigned char)*Val < 0x20)  Result += 5;
+
+						break;
+					}
 				}
 
 				Result++;
@@ -312,6 +320,14 @@ namespace CubicleSoft
 
 						break;
 					}
+
+					default:
+					{
+						// \u00XX.
+						if ((unsigned char)*Val < 0x20)  Result += 5;
+
+						break;
+					}
 				}
 
 				Result++;
@@ -348,6 +364,18 @@ namespace CubicleSoft
 		}
 
 		// All calculations prior to calling these internal functions must be applied correctly to avoid an overflow.
+		void Serializer::InternalAppendChar(const char Val)
+		{
+			if ((unsigned char)Val >= 0x20)  MxBuffer[MxBufferPos++] = Val;
+			else
+			{
+				// JSON does not allow any control characters in a string.
+				memcpy(MxBuffer + MxBufferPos, (Val & 0x10 ? "\\u001" : "\\u000"), 5);
+				MxBufferPos += 5;
+				MxBuffer[MxBufferPos++] = "0123456789abcdef"[Val & 0x0F];
+			}
+		}
+
 		void Serializer::InternalAppendStr(const char *Val)
 		{
 			if (MxModes[MxModeDepth] != ModeStr)  MxBuffer[MxBufferPos++] = '"';
@@ -364,7 +392,7 @@ namespace CubicleSoft
 					case '\n':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'n';  Val++;  break;
 					case '\r':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'r';  Val++;  break;
 					case '\t':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 't';  Val++;  break;
-					default:  MxBuffer[MxBufferPos++] = *Val++;  break;
+					default:  InternalAppendChar(*Val++);  break;
 				}
 			}
 
@@ -388,7 +416,7 @@ namespace CubicleSoft
 					case '\n':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'n';  Val++;  break;
 					case '\r':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'r';  Val++;  break;
 					case '\t':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 't';  Val++;  break;
-					default:  MxBuffer[MxBufferPos++] = *Val++;  break;
+					default:  InternalAppendChar(*Val++);  break;
 				}
 
 				Size--;
diff --git a/json/json_serializer.h b/json/json_serializer.h
index f07ac85..706a90d 100644
--- a/json/json_serializer.h
+++ b/json/json_serializer.h
@@ -83,6 +83,7 @@ namespace CubicleSoft
 
 		private:
 			bool InternalAppendNextPrefix(const char *Key, size_t ExtraSpace);
+			void InternalAppendChar(const char Val);
 			void InternalAppendStr(const char *Val);
 			void InternalAppendStr(const char *Val, size_t Size);
 			static bool IntToString(char *Result, size_t Size, std::uint64_t Num);
-- 
2.43.0


From d3b4f9e08562fa8bfa1aed1d0a0963ce6547dc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:20 +0000
Subject: [PATCH 42/74] fix: JSON numbers with a high precision keep their
 exponent

---
 json/json_serializer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index 5ac9eea..bcd553a 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -171,12 +171,14 @@ namespace CubicleSoft
 
 		bool Serializer::AppendDouble(const char *Key, const double Val, const size_t Precision)
 		{
-			char TempBuffer[100];
+			// Leave enough room for the sign, leading zeroes, decimal point, and exponent.
+			char TempBuffer[128];
+			const int Digits = (Precision > 100 ? 100 : (int)Precision);
 #if (defined(_WIN32) || defined(WIN32) || defined(_WIN64) || defined(WIN64)) && defined(_MSC_VER) && _MSC_VER < 1900
-			_snprintf_s(TempBuffer, sizeof(TempBuffer), _TRUNCATE, "%1.*g", Precision, Val);
+			_snprintf_s(TempBuffer, sizeof(TempBuffer), _TRUNCATE, "%1.*g", Digits, Val);
 			TempBuffer[sizeof(TempBuffer) - 1] = '\0';
 #else
-			snprintf(TempBuffer, sizeof(TempBuffer), "%1.*g", (int)Precision, Val);
+			snprintf(TempBuffer, sizeof(TempBuffer), "%1.*g", Digits, Val);
 #endif
 
 			size_t x = strlen(TempBuffer);
-- 
2.43.0


From 075fa6b9b291c0e19f66e1d12cd0b07b926a1a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:20 +0000
Subject: [PATCH 43/74] fix: calling a shared library function without a result
 loads the function if necessary

---
 templates/shared_lib_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/shared_lib_util.h b/templates/shared_lib_util.h
index 2a19779..3df905a 100644
--- a/templates/shared_lib_util.h
+++ b/templates/shared_lib_util.h
@@ -22,7 +22,7 @@ bool CUBICLESOFT_SHARED_LIBRARY_PREFIX_VOID(FunctionUtil &Func, Args... FuncArgs
 {
 	FARPROC FuncAddressPtr;
 
-	if ((FuncAddressPtr = Func.GetFuncPtr()) == NULL || (FuncAddressPtr = Func.LoadFuncPtr()) == NULL)  return false;
+	if ((FuncAddressPtr = Func.GetFuncPtr()) == NULL && (FuncAddressPtr = Func.LoadFuncPtr()) == NULL)  return false;
 
 	(*((void (CUBICLESOFT_SHARED_LIBRARY_CALLCONV *)(Args...))FuncAddressPtr))(FuncArgs...);
 
@@ -84,7 +84,7 @@ bool CUBICLESOFT_SHARED_LIBRARY_PREFIX_VOID(FunctionUtil &Func, Args... FuncArgs
 {
 	void *FuncAddressPtr;
 
-	if ((FuncAddressPtr = Func.GetFuncPtr()) == NULL || (FuncAddressPtr = Func.LoadFuncPtr()) == NULL)  return false;
+	if ((FuncAddressPtr = Func.GetFuncPtr()) == NULL && (FuncAddressPtr = Func.LoadFuncPtr()) == NULL)  return false;
 
 	(*((void (CUBICLESOFT_SHARED_LIBRARY_CALLCONV *)(Args...))FuncAddressPtr))(FuncArgs...);
 
-- 
2.43.0


From 8355ccabe0d8f158e26d7bf7ebb76c18bc8a6e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:21 +0000
Subject: [PATCH 44/74] fix: the name of the executable is refused if it does
 not fit instead of being cut off

---
 utf8/utf8_appinfo.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_appinfo.cpp b/utf8/utf8_appinfo.cpp
index 878a5f8..c8533e6 100644
--- a/utf8/utf8_appinfo.cpp
+++ b/utf8/utf8_appinfo.cpp
@@ -131,7 +131,15 @@ namespace CubicleSoft
 			char *Filename;
 			if (z > 0)
 			{
-				if ((size_t)z < z2)  Buffer[z] = '\0';
+				// The name might have been cut off.
+				if ((size_t)z >= z2)
+				{
+					Buffer[0] = '\0';
+
+					return false;
+				}
+
+				Buffer[z] = '\0';
 
 				Filename = realpath(Buffer, NULL);
 			}
-- 
2.43.0


From e55799d8a58cdd04ef140bec58b84302f96a7829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:21 +0000
Subject: [PATCH 45/74] fix: storage directories no longer overrun the buffer
 or rely on a home directory

---
 utf8/utf8_appinfo.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/utf8/utf8_appinfo.cpp b/utf8/utf8_appinfo.cpp
index c8533e6..938d356 100644
--- a/utf8/utf8_appinfo.cpp
+++ b/utf8/utf8_appinfo.cpp
@@ -189,10 +189,14 @@ namespace CubicleSoft
 			if (z2)  Buffer[0] = '\0';
 
 			const char *HomeDir = getenv("HOME");
-			if (HomeDir == NULL)  HomeDir = getpwuid(getuid())->pw_dir;
-			if (HomeDir == NULL)  return false;
+			if (HomeDir == NULL || *HomeDir == '\0')
+			{
+				struct passwd *UserInfo = getpwuid(getuid());
+				HomeDir = (UserInfo != NULL ? UserInfo->pw_dir : NULL);
+			}
+			if (HomeDir == NULL || *HomeDir == '\0')  return false;
 
-			if (z2 < strlen(HomeDir))  return false;
+			if (z2 <= strlen(HomeDir))  return false;
 
 			strcpy(Buffer, HomeDir);
 			size_t z = strlen(HomeDir);
@@ -206,7 +210,7 @@ namespace CubicleSoft
 			BufferSize = 0;
 			if (z2)  Buffer[0] = '\0';
 
-			if (z2 < 5)  return false;
+			if (z2 < 6)  return false;
 
 			strcpy(Buffer, "/tmp/");
 			size_t z = 5;
-- 
2.43.0


From eb922d5ac88227a59cef75d28208d2ee896eed1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:58 +0000
Subject: [PATCH 46/74] fix: comparing 2D arrays compares their elements

---
 templates/static_2d_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/static_2d_array.h b/templates/static_2d_array.h
index 88f5685..0507411 100644
--- a/templates/static_2d_array.h
+++ b/templates/static_2d_array.h
@@ -89,7 +89,7 @@ namespace CubicleSoft
 			if (Width != TempArray.Width || Height != TempArray.Height)  return false;
 
 			size_t x, y = Width * Height;
-			for (x = 0; x < y && baseptr[x] == TempArray.ptr[x]; x++);
+			for (x = 0; x < y && baseptr[x] == TempArray.baseptr[x]; x++);
 			if (x < y)  return false;
 
 			return true;
-- 
2.43.0


From 1c7ba9c87c6adcf27f9dd342749d5309bd57327f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:58 +0000
Subject: [PATCH 47/74] fix: assigning a 2D array of another size allocates the
 elements

---
 templates/static_2d_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/static_2d_array.h b/templates/static_2d_array.h
index 0507411..6b01f96 100644
--- a/templates/static_2d_array.h
+++ b/templates/static_2d_array.h
@@ -53,7 +53,7 @@ namespace CubicleSoft
 					Height = TempArray.Height;
 
 					size_t y = Width * Height;
-					if (y)
+					if (!y)
 					{
 						baseptr = NULL;
 						ptr = NULL;
-- 
2.43.0


From 78d4f31f2925b69fab391de06aa4847852daf72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:58 +0000
Subject: [PATCH 48/74] fix: the keys of a copied ordered hash can be found

---
 templates/detachable_ordered_hash.h      | 2 +-
 templates/detachable_ordered_hash_util.h | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/templates/detachable_ordered_hash.h b/templates/detachable_ordered_hash.h
index 04ece5d..95a0cec 100644
--- a/templates/detachable_ordered_hash.h
+++ b/templates/detachable_ordered_hash.h
@@ -32,7 +32,7 @@ namespace CubicleSoft
 		}
 
 		// Only copies the data.  Pointers will still need to be set.
-		OrderedHashNode(const OrderedHashNode<T> &TempNode)
+		OrderedHashNode(const OrderedHashNode<T> &TempNode) : PrevHashNode(NULL), NextHashNode(NULL), PrevListNode(NULL), NextListNode(NULL)
 		{
 			HashKey = TempNode.HashKey;
 			IntKey = TempNode.IntKey;
diff --git a/templates/detachable_ordered_hash_util.h b/templates/detachable_ordered_hash_util.h
index 48d6cc6..136db0f 100644
--- a/templates/detachable_ordered_hash_util.h
+++ b/templates/detachable_ordered_hash_util.h
@@ -92,6 +92,7 @@ public:
 			x = (size_t)(Node2->HashKey % HashSize);
 			Node2->NextHashNode = HashNodes[x];
 			if (HashNodes[x] != NULL)  HashNodes[x]->PrevHashNode = Node2;
+			HashNodes[x] = Node2;
 
 			Node = Node->NextListNode;
 		}
@@ -147,6 +148,7 @@ public:
 				x = (size_t)(Node2->HashKey % HashSize);
 				Node2->NextHashNode = HashNodes[x];
 				if (HashNodes[x] != NULL)  HashNodes[x]->PrevHashNode = Node2;
+				HashNodes[x] = Node2;
 
 				Node = Node->NextListNode;
 			}
-- 
2.43.0


From f34c2bb858a633b73c17e1f6b4c8f0ba2f5aa80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:58 +0000
Subject: [PATCH 49/74] fix: an ordered hash with an estimated size of zero is
 usable

---
 templates/detachable_ordered_hash_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/detachable_ordered_hash_util.h b/templates/detachable_ordered_hash_util.h
index 136db0f..12442dd 100644
--- a/templates/detachable_ordered_hash_util.h
+++ b/templates/detachable_ordered_hash_util.h
@@ -24,7 +24,7 @@ public:
 #endif
 		(size_t EstimatedSize = 23, std::uint64_t HashKey = 5381) : UseSipHash(false), Key1(HashKey), Key2(0), HashNodes(NULL), HashSize(0), NextPrimePos(0), FirstListNode(NULL), LastListNode(NULL), NumListNodes(0)
 	{
-		ResizeHash(EstimatedSize);
+		ResizeHash(EstimatedSize ? EstimatedSize : 1);
 	}
 
 	// Keys are securely hashed via SipHash-2-4.
@@ -36,7 +36,7 @@ public:
 #endif
 		(size_t EstimatedSize, std::uint64_t HashKey1, std::uint64_t HashKey2) : UseSipHash(true), Key1(HashKey1), Key2(HashKey2), HashNodes(NULL), HashSize(0), NextPrimePos(0), FirstListNode(NULL), LastListNode(NULL), NumListNodes(0)
 	{
-		ResizeHash(EstimatedSize);
+		ResizeHash(EstimatedSize ? EstimatedSize : 1);
 	}
 
 #ifdef CUBICLESOFT_DETACHABLE_ORDEREDHASH_NOCOPYASSIGN
-- 
2.43.0


From ca03eee9acc07a47c0f8fdd5fc9e434d4dd0979c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:58 +0000
Subject: [PATCH 50/74] fix: a node refused by an ordered hash does not keep
 the hash key of that hash

---
 templates/detachable_ordered_hash_util.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/templates/detachable_ordered_hash_util.h b/templates/detachable_ordered_hash_util.h
index 12442dd..fc06389 100644
--- a/templates/detachable_ordered_hash_util.h
+++ b/templates/detachable_ordered_hash_util.h
@@ -259,6 +259,9 @@ public:
 	{
 		if (Node->PrevHashNode != NULL || Node->NextHashNode != NULL)  return NULL;
 
+		// Unable to have two of the same key in the list.
+		if (Find(Node) != NULL)  return NULL;
+
 		// Calculate and cache the hash key.
 		if (Node->HashKey == 0)
 		{
@@ -266,9 +269,6 @@ public:
 			else  Node->HashKey = GetHashKey((std::uint8_t *)&(Node->IntKey), sizeof(std::int64_t));
 		}
 
-		// Unable to have two of the same key in the list.
-		if (Find(Node) != NULL)  return NULL;
-
 		// Insert into the list.
 		if (Next == NULL)
 		{
@@ -323,6 +323,9 @@ public:
 	{
 		if (Node->PrevHashNode != NULL || Node->NextHashNode != NULL)  return NULL;
 
+		// Unable to have two of the same key in the list.
+		if (Find(Node) != NULL)  return NULL;
+
 		// Calculate and cache the hash key.
 		if (Node->HashKey == 0)
 		{
@@ -330,9 +333,6 @@ public:
 			else  Node->HashKey = GetHashKey((std::uint8_t *)&(Node->IntKey), sizeof(std::int64_t));
 		}
 
-		// Unable to have two of the same key in the list.
-		if (Find(Node) != NULL)  return NULL;
-
 		// Insert into the list.
 		if (Prev == NULL)
 		{
-- 
2.43.0


From 9f283375ce637364bc331d07a94302b68f94d5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:58 +0000
Subject: [PATCH 51/74] fix: nodes detached by emptying an ordered hash can be
 attached again

---
 templates/detachable_ordered_hash_util.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/templates/detachable_ordered_hash_util.h b/templates/detachable_ordered_hash_util.h
index fc06389..d54ad8a 100644
--- a/templates/detachable_ordered_hash_util.h
+++ b/templates/detachable_ordered_hash_util.h
@@ -272,6 +272,7 @@ public:
 		// Insert into the list.
 		if (Next == NULL)
 		{
+			Node->NextListNode = NULL;
 			Node->PrevListNode = LastListNode;
 			if (LastListNode != NULL)  LastListNode->NextListNode = Node;
 			LastListNode = Node;
@@ -336,6 +337,7 @@ public:
 		// Insert into the list.
 		if (Prev == NULL)
 		{
+			Node->PrevListNode = NULL;
 			Node->NextListNode = FirstListNode;
 			if (FirstListNode != NULL)  FirstListNode->PrevListNode = Node;
 			FirstListNode = Node;
-- 
2.43.0


From d8a0c0483efaa33a8a3d62ec751c6dc325e40109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:58 +0000
Subject: [PATCH 52/74] fix: a failed allocation while resizing an ordered hash
 leaves the hash intact

---
 templates/detachable_ordered_hash_util.h | 44 +++++++++++-------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/templates/detachable_ordered_hash_util.h b/templates/detachable_ordered_hash_util.h
index d54ad8a..a506f0a 100644
--- a/templates/detachable_ordered_hash_util.h
+++ b/templates/detachable_ordered_hash_util.h
@@ -262,6 +262,9 @@ public:
 		// Unable to have two of the same key in the list.
 		if (Find(Node) != NULL)  return NULL;
 
+		// Resize the hash first (if necessary) so that nothing has changed if the allocation throws an exception.
+		if (NextPrimePos < sizeof(OrderedHashUtil::Primes) / sizeof(size_t) && NumListNodes + 1 >= OrderedHashUtil::Primes[NextPrimePos])  ResizeHash(OrderedHashUtil::Primes[NextPrimePos]);
+
 		// Calculate and cache the hash key.
 		if (Node->HashKey == 0)
 		{
@@ -288,15 +291,11 @@ public:
 		}
 		NumListNodes++;
 
-		// Resize the hash or insert the node into the hash.
-		if (NextPrimePos < sizeof(OrderedHashUtil::Primes) / sizeof(size_t) && NumListNodes >= OrderedHashUtil::Primes[NextPrimePos])  ResizeHash(OrderedHashUtil::Primes[NextPrimePos]);
-		else
-		{
-			size_t x = (size_t)(Node->HashKey % (std::uint64_t)HashSize);
-			Node->NextHashNode = HashNodes[x];
-			if (HashNodes[x] != NULL)  HashNodes[x]->PrevHashNode = Node;
-			HashNodes[x] = Node;
-		}
+		// Insert the node into the hash.
+		size_t x = (size_t)(Node->HashKey % (std::uint64_t)HashSize);
+		Node->NextHashNode = HashNodes[x];
+		if (HashNodes[x] != NULL)  HashNodes[x]->PrevHashNode = Node;
+		HashNodes[x] = Node;
 
 		return Node;
 	}
@@ -327,6 +326,9 @@ public:
 		// Unable to have two of the same key in the list.
 		if (Find(Node) != NULL)  return NULL;
 
+		// Resize the hash first (if necessary) so that nothing has changed if the allocation throws an exception.
+		if (NextPrimePos < sizeof(OrderedHashUtil::Primes) / sizeof(size_t) && NumListNodes + 1 >= OrderedHashUtil::Primes[NextPrimePos])  ResizeHash(OrderedHashUtil::Primes[NextPrimePos]);
+
 		// Calculate and cache the hash key.
 		if (Node->HashKey == 0)
 		{
@@ -353,15 +355,11 @@ public:
 		}
 		NumListNodes++;
 
-		// Resize the hash or insert the node into the hash.
-		if (NextPrimePos < sizeof(OrderedHashUtil::Primes) / sizeof(size_t) && NumListNodes >= OrderedHashUtil::Primes[NextPrimePos])  ResizeHash(OrderedHashUtil::Primes[NextPrimePos]);
-		else
-		{
-			size_t x = (size_t)(Node->HashKey % (std::uint64_t)HashSize);
-			Node->NextHashNode = HashNodes[x];
-			if (HashNodes[x] != NULL)  HashNodes[x]->PrevHashNode = Node;
-			HashNodes[x] = Node;
-		}
+		// Insert the node into the hash.
+		size_t x = (size_t)(Node->HashKey % (std::uint64_t)HashSize);
+		Node->NextHashNode = HashNodes[x];
+		if (HashNodes[x] != NULL)  HashNodes[x]->PrevHashNode = Node;
+		HashNodes[x] = Node;
 
 		return Node;
 	}
@@ -499,16 +497,14 @@ public:
 	{
 		if (!NewHashSize)  return false;
 
-		if (HashNodes != NULL)
-		{
-			delete[] HashNodes;
+		// Allocate first so that the hash is still intact if the allocation throws an exception.
+		OrderedHashNode<T> **NewHashNodes = new OrderedHashNode<T> *[NewHashSize];
 
-			HashNodes = NULL;
-		}
+		if (HashNodes != NULL)  delete[] HashNodes;
 
 		size_t x;
 		HashSize = NewHashSize;
-		HashNodes = new OrderedHashNode<T> *[NewHashSize];
+		HashNodes = NewHashNodes;
 		for (x = 0; x < NewHashSize; x++)  HashNodes[x] = NULL;
 
 		// Attach the list nodes to the new hash.
-- 
2.43.0


From 8c3364fa1152df39525f84126d9c8b1feac8def0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:58 +0000
Subject: [PATCH 53/74] fix: copying a packed ordered hash stops at the end of
 the source

---
 templates/packed_ordered_hash_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/packed_ordered_hash_util.h b/templates/packed_ordered_hash_util.h
index 56f6bbf..2b401dc 100644
--- a/templates/packed_ordered_hash_util.h
+++ b/templates/packed_ordered_hash_util.h
@@ -84,7 +84,7 @@ public:
 		memcpy(HashNodes, TempHash.HashNodes, sizeof(std::uint32_t) * NumNodes);
 		NumUsed = TempHash.NumUsed;
 
-		PackedOrderedHashNode<T> *Node = TempHash.ArrayNodes, *Node2 = ArrayNodes, *LastNode = ArrayNodes + NextNodePos;
+		PackedOrderedHashNode<T> *Node = TempHash.ArrayNodes, *Node2 = ArrayNodes, *LastNode = TempHash.ArrayNodes + NextNodePos;
 
 		while (Node != LastNode)
 		{
@@ -147,7 +147,7 @@ public:
 
 			Node = TempHash.ArrayNodes;
 			Node2 = ArrayNodes;
-			LastNode = ArrayNodes + NextNodePos;
+			LastNode = TempHash.ArrayNodes + NextNodePos;
 
 			while (Node != LastNode)
 			{
-- 
2.43.0


From 73472fa45e8c46ef00576624bed549d6f0c3a473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:58 +0000
Subject: [PATCH 54/74] fix: resizing a packed ordered hash frees the previous
 nodes

---
 templates/packed_ordered_hash_util.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/templates/packed_ordered_hash_util.h b/templates/packed_ordered_hash_util.h
index 2b401dc..2ae1584 100644
--- a/templates/packed_ordered_hash_util.h
+++ b/templates/packed_ordered_hash_util.h
@@ -510,6 +510,8 @@ private:
 
 				Node++;
 			}
+
+			delete[] (char *)ArrayNodes;
 		}
 
 		ArrayNodes = ArrayNodes2;
-- 
2.43.0


From caf0900e02d8f04cf436b1c8dfcc24c65e6b1c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:58 +0000
Subject: [PATCH 55/74] fix: a failed allocation of a key leaves a packed
 ordered hash intact

---
 templates/packed_ordered_hash_util.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/templates/packed_ordered_hash_util.h b/templates/packed_ordered_hash_util.h
index 2ae1584..5f15c79 100644
--- a/templates/packed_ordered_hash_util.h
+++ b/templates/packed_ordered_hash_util.h
@@ -230,6 +230,12 @@ public:
 		// Create a new node.
 		if (NextNodePos == NumNodes)  AutoResizeHash();
 
+		// Allocate the key first so that nothing has changed if the allocation throws an exception.
+		char *Str = new char[StrLen + sizeof(size_t)];
+		*((size_t *)Str) = StrLen;
+		Str += sizeof(size_t);
+		memcpy(Str, StrKey, StrLen);
+
 		Node = ArrayNodes + NextNodePos;
 		Pos = NextNodePos;
 		new (&Node->Value) T;
@@ -243,11 +249,6 @@ public:
 		HashNodes[HashPos] = (std::uint32_t)Pos;
 
 		Node->IntKey = (std::int64_t)HashKey;
-
-		char *Str = new char[StrLen + sizeof(size_t)];
-		*((size_t *)Str) = StrLen;
-		Str += sizeof(size_t);
-		memcpy(Str, StrKey, StrLen);
 		Node->StrKey = Str;
 
 		NumUsed++;
-- 
2.43.0


From 6cbbcb9312d71edf4d8203a71a612eec7680560f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:01 +0000
Subject: [PATCH 56/74] fix: FastReplace does not read beyond the old result
 when growing it

---
 templates/fast_find_replace_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/fast_find_replace_util.h b/templates/fast_find_replace_util.h
index f22cf46..cddfa82 100644
--- a/templates/fast_find_replace_util.h
+++ b/templates/fast_find_replace_util.h
@@ -563,7 +563,7 @@ public:
 				MxData = reinterpret_cast<T *>(AllocType::realloc(MxAltMallocManager, MxData, (NewSize + MxExtraAlloc) * sizeof(T)));
 #else
 				T *NewData = reinterpret_cast<T *>(new char[(NewSize + MxExtraAlloc) * sizeof(T)]);
-				memcpy(NewData, MxData, NewSize * sizeof(T));
+				memcpy(NewData, MxData, MxDataPos * sizeof(T));
 				delete[] reinterpret_cast<char *>(MxData);
 
 				MxData = NewData;
-- 
2.43.0


From 056196d46f88110a29b4f418d8e3f33096885fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:01 +0000
Subject: [PATCH 57/74] fix: FastReplace keeps the data after the last
 replacement when the limit is reached

---
 templates/fast_find_replace_util.h | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/templates/fast_find_replace_util.h b/templates/fast_find_replace_util.h
index cddfa82..27c01fe 100644
--- a/templates/fast_find_replace_util.h
+++ b/templates/fast_find_replace_util.h
@@ -714,9 +714,9 @@ public:
 		const T *Pos;
 		size_t Num = 0;
 #ifdef CUBICLESOFT_FAST_FIND_REPLACE_COMPAREFUNC
-		while ((Pos = TempReplace.FindNext(ElementsEqual)) != NULL && Num < Limit)
+		while (Num < Limit && (Pos = TempReplace.FindNext(ElementsEqual)) != NULL)
 #else
-		while ((Pos = TempReplace.FindNext(UseMemcmp)) != NULL && Num < Limit)
+		while (Num < Limit && (Pos = TempReplace.FindNext(UseMemcmp)) != NULL)
 #endif
 		{
 			TempReplace.Replace(ReplaceWith, ReplaceWithSize);
@@ -724,6 +724,17 @@ public:
 			Num++;
 		}
 
+		// Copy the rest of the data when the limit was reached.
+		if (Num >= Limit)
+		{
+			TempReplace.MxFind.SetData(NULL, 0);
+#ifdef CUBICLESOFT_FAST_FIND_REPLACE_COMPAREFUNC
+			TempReplace.FindNext(ElementsEqual);
+#else
+			TempReplace.FindNext(UseMemcmp);
+#endif
+		}
+
 		ResultSize = TempReplace.GetDataSize();
 		Result = TempReplace.DetachData();
 
@@ -782,9 +793,9 @@ public:
 		const T *Pos;
 		size_t Num = 0;
 #ifdef CUBICLESOFT_FAST_FIND_REPLACE_COMPAREFUNC
-		while ((Pos = TempReplace.FindNext(ElementsEqual)) != NULL && Num < Limit)
+		while (Num < Limit && (Pos = TempReplace.FindNext(ElementsEqual)) != NULL)
 #else
-		while ((Pos = TempReplace.FindNext(UseMemcmp)) != NULL && Num < Limit)
+		while (Num < Limit && (Pos = TempReplace.FindNext(UseMemcmp)) != NULL)
 #endif
 		{
 			TempReplace.Replace(ReplaceWith, ReplaceWithSize);
@@ -792,6 +803,17 @@ public:
 			Num++;
 		}
 
+		// Copy the rest of the data when the limit was reached.
+		if (Num >= Limit)
+		{
+			TempReplace.MxFind.SetData(NULL, 0);
+#ifdef CUBICLESOFT_FAST_FIND_REPLACE_COMPAREFUNC
+			TempReplace.FindNext(ElementsEqual);
+#else
+			TempReplace.FindNext(UseMemcmp);
+#endif
+		}
+
 		ResultSize = TempReplace.GetDataSize();
 
 		return Num;
-- 
2.43.0


From d1771b1d6860871181535feeb85dcf4a2f278ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:01 +0000
Subject: [PATCH 58/74] fix: FastReplace frees the previous result when it is
 given new data

---
 templates/fast_find_replace_util.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/templates/fast_find_replace_util.h b/templates/fast_find_replace_util.h
index 27c01fe..26cf1e6 100644
--- a/templates/fast_find_replace_util.h
+++ b/templates/fast_find_replace_util.h
@@ -517,6 +517,18 @@ public:
 	// Only pass in ResultBuffer and ResultBufferSize for static buffers and replacements that will be smaller than the original.
 	void SetData(const T *Data, size_t Size, T *ResultBuffer = NULL, size_t ResultBufferSize = 0)
 	{
+		// Free a previous result that was not detached.
+		if (MxData != NULL && MxDataAllocated)
+		{
+#ifdef CUBICLESOFT_FAST_FIND_REPLACE_MEMALLOC
+			AllocType::free(MxAltMallocManager, MxData);
+#else
+			delete[] reinterpret_cast<char *>(MxData);
+#endif
+
+			MxData = NULL;
+		}
+
 		MxFind.SetData(Data, Size);
 
 		MxSrcCurr = Data;
-- 
2.43.0


From 8f8df5ed21a62da290413a990e03ae25c552616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:01 +0000
Subject: [PATCH 59/74] fix: FastReplace with an alternate allocator survives a
 failed allocation

---
 templates/fast_find_replace_util.h | 40 +++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/templates/fast_find_replace_util.h b/templates/fast_find_replace_util.h
index 26cf1e6..af55b7f 100644
--- a/templates/fast_find_replace_util.h
+++ b/templates/fast_find_replace_util.h
@@ -90,7 +90,13 @@ public:
 			char SeenStack[1024];
 			char *Seen = SeenStack;
 #ifdef CUBICLESOFT_FAST_FIND_REPLACE_MEMALLOC
-			if (SeenSize > 1024)  Seen = (char *)AllocType::malloc(AltMallocManager, SeenSize);
+			if (SeenSize > 1024)
+			{
+				Seen = (char *)AllocType::malloc(AltMallocManager, SeenSize);
+
+				// The points of interest only speed up the search.
+				if (Seen == NULL)  return;
+			}
 #else
 			if (SeenSize > 1024)  Seen = new char[SeenSize];
 #endif
@@ -555,10 +561,14 @@ public:
 #ifdef CUBICLESOFT_FAST_FIND_REPLACE_COMPAREFUNC
 	const T *FindNext(ElementsEqualType ElementsEqual)
 	{
+		if (MxData == NULL)  return NULL;
+
 		const T *NextPos = MxFind.FindNext(ElementsEqual);
 #else
 	const T *FindNext(bool UseMemcmp = true)
 	{
+		if (MxData == NULL)  return NULL;
+
 		const T *NextPos = MxFind.FindNext(UseMemcmp);
 #endif
 
@@ -572,7 +582,18 @@ public:
 				size_t NewSize = MxDataPos + SrcDist + (NextPos == NULL ? 0 : MxGrowthSize);
 
 #ifdef CUBICLESOFT_FAST_FIND_REPLACE_MEMALLOC
-				MxData = reinterpret_cast<T *>(AllocType::realloc(MxAltMallocManager, MxData, (NewSize + MxExtraAlloc) * sizeof(T)));
+				T *NewData = reinterpret_cast<T *>(AllocType::realloc(MxAltMallocManager, MxData, (NewSize + MxExtraAlloc) * sizeof(T)));
+				if (NewData == NULL)
+				{
+					// Out of memory (or nothing to allocate, in which case the old data is gone already).  There is no result.
+					if (NewSize + MxExtraAlloc)  AllocType::free(MxAltMallocManager, MxData);
+					MxData = NULL;
+					MxDataPos = 0;
+
+					return NULL;
+				}
+
+				MxData = NewData;
 #else
 				T *NewData = reinterpret_cast<T *>(new char[(NewSize + MxExtraAlloc) * sizeof(T)]);
 				memcpy(NewData, MxData, MxDataPos * sizeof(T));
@@ -608,6 +629,8 @@ public:
 
 	void Replace(const T *Data, size_t DataSize, size_t PostPatternSize = 0)
 	{
+		if (MxData == NULL)  return;
+
 		if (DataSize)
 		{
 			// Determine if there is enough space.
@@ -618,7 +641,18 @@ public:
 					size_t NewSize = MxDataPos + DataSize + MxGrowthSize;
 
 #ifdef CUBICLESOFT_FAST_FIND_REPLACE_MEMALLOC
-					MxData = reinterpret_cast<T *>(AllocType::realloc(MxAltMallocManager, MxData, (NewSize + MxExtraAlloc) * sizeof(T)));
+					T *NewData = reinterpret_cast<T *>(AllocType::realloc(MxAltMallocManager, MxData, (NewSize + MxExtraAlloc) * sizeof(T)));
+					if (NewData == NULL)
+					{
+						// Out of memory.  There is no result.
+						AllocType::free(MxAltMallocManager, MxData);
+						MxData = NULL;
+						MxDataPos = 0;
+
+						return;
+					}
+
+					MxData = NewData;
 #else
 					T *NewData = reinterpret_cast<T *>(new char[(NewSize + MxExtraAlloc) * sizeof(T)]);
 					memcpy(NewData, MxData, (MxDataSize + MxExtraAlloc) * sizeof(T));
-- 
2.43.0


From d2834800214770fb5d33a0a55774307e0f0bd2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:44 +0000
Subject: [PATCH 60/74] fix: Chgrp looks up the group, not a user of that name

---
 utf8/utf8_file_dir.cpp | 6 +++---
 utf8/utf8_file_dir.h   | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index e4d04d7..747e3f6 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1647,10 +1647,10 @@ namespace CubicleSoft
 			char Filename2[8192];
 			if (!GetPlatformFilename(Filename2, 8192, Filename))  return false;
 
-			struct passwd *UserInfo = getpwnam(Group);
-			if (UserInfo == NULL)  return false;
+			struct group *GroupInfo = getgrnam(Group);
+			if (GroupInfo == NULL)  return false;
 
-			return (::chown(Filename2, -1, UserInfo->pw_gid) == 0);
+			return (::chown(Filename2, -1, GroupInfo->gr_gid) == 0);
 		}
 
 		bool File::Copy(const char *SrcFilename, const char *DestFilename)
diff --git a/utf8/utf8_file_dir.h b/utf8/utf8_file_dir.h
index 407681c..c04244d 100644
--- a/utf8/utf8_file_dir.h
+++ b/utf8/utf8_file_dir.h
@@ -25,6 +25,7 @@
 	#include <fcntl.h>
 	#include <unistd.h>
 	#include <pwd.h>
+	#include <grp.h>
 	#include <errno.h>
 	#include <utime.h>
 	#include <dirent.h>
-- 
2.43.0


From 7946bef32857324a32d0fb8c3a3adf96ce6310c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:54 +0000
Subject: [PATCH 61/74] fix: FastReplace does not take a static buffer for its
 own when an allocation fails

---
 templates/fast_find_replace_util.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/templates/fast_find_replace_util.h b/templates/fast_find_replace_util.h
index af55b7f..c14d71c 100644
--- a/templates/fast_find_replace_util.h
+++ b/templates/fast_find_replace_util.h
@@ -531,10 +531,11 @@ public:
 #else
 			delete[] reinterpret_cast<char *>(MxData);
 #endif
-
-			MxData = NULL;
 		}
 
+		// Forget a previous static buffer too:  Should the allocation fail, it must not be taken for allocated memory.
+		MxData = NULL;
+
 		MxFind.SetData(Data, Size);
 
 		MxSrcCurr = Data;
-- 
2.43.0


From 34a842ea1fe71bae5ffc650ae331c36c86829210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:00 +0000
Subject: [PATCH 62/74] fix: named shared memory of 4 GB and more does not
 share the name of a smaller block

---
 sync/sync_util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index 19b610a..e60d6e1 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -155,7 +155,7 @@ namespace CubicleSoft
 					}
 				}
 
-				sprintf(Nums, "-%u-%u-", (unsigned int)GetUnixSystemAlignmentSize(), (unsigned int)Size);
+				sprintf(Nums, "-%u-%llu-", (unsigned int)GetUnixSystemAlignmentSize(), (unsigned long long)Size);
 
 				y = strlen(Nums);
 				for (x = 0; x < y; x++)
-- 
2.43.0


From 7f0ec6ec1fcde59420a1bfddd404697a05190bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:00 +0000
Subject: [PATCH 63/74] fix: named objects refuse sizes that wrap around
 instead of mapping too little

---
 sync/sync_util.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index e60d6e1..d4e94a9 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -123,6 +123,9 @@ namespace CubicleSoft
 			ResultMem = NULL;
 			StartPos = (Name != NULL ? AlignUnixSize(1) + AlignUnixSize(sizeof(pthread_mutex_t)) + AlignUnixSize(sizeof(std::uint32_t)) : 0);
 
+			// Refuse sizes that wrap around with the header and alignment added.
+			if (Size > (size_t)-1 - StartPos - GetUnixSystemAlignmentSize())  return -1;
+
 			// First byte indicates initialization status (0 = completely uninitialized, 1 = first mutex initialized, 2 = ready).
 			// Next few bytes are a shared mutex object.
 			// Size bytes follow for whatever.
-- 
2.43.0


From 73c6eeabe428ddbcadd76da275ede5c1533fb625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:39 +0000
Subject: [PATCH 64/74] fix: absolute filenames resolve '.' and '..' at the
 start of a relative filename and in the base directory

---
 utf8/utf8_file_dir.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 747e3f6..b5f32ab 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1496,7 +1496,10 @@ namespace CubicleSoft
 		{
 			char Filename2[8192], Filename3[8192];
 
-			if (!GetPlatformFilename(Filename3, 8192, Filename))  return false;
+			// Start with a path separator so that '.' and '..' at the start of a relative filename are handled too.
+			if (!GetPlatformFilename(Filename3 + 1, 8191, Filename))  return false;
+			Filename3[0] = '/';
+			bool Absolute = (Filename3[1] == '/');
 
 			// Replace '/./' with '/'.
 			size_t x, x2, y = strlen(Filename3);
@@ -1539,6 +1542,9 @@ namespace CubicleSoft
 
 				// Require the base directory to be absolute.
 				if (Filename2[0] != '/')  return false;
+
+				// Resolve '.' and '..' in the base directory.
+				if (BaseDir != NULL && !Absolute && !GetAbsoluteFilename(Filename2, 8192, "/", BaseDir, true))  return false;
 			}
 
 			y = strlen(Filename2);
@@ -1550,7 +1556,7 @@ namespace CubicleSoft
 			}
 
 			GetPlatformFilenameInfo(FileInfo2, Filename2);
-			if (Filename3[FileInfo3.StartPath] == '/')  FileInfo2.Length = FileInfo2.StartPath;
+			if (Absolute)  FileInfo2.Length = FileInfo2.StartPath;
 
 			// Make sure the string always starts with a path separator.
 			if (FileInfo2.Length >= 8191)  return false;
-- 
2.43.0


From 99c09f6b9431b1a57bfebb99dbd5eaba49c13194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:55 +0000
Subject: [PATCH 65/74] fix: assigning to a TLS::MixedVar releases the old
 string through the TLS instance it came from

---
 sync/sync_tls.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index 1470e1d..fe6ae45 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -294,16 +294,14 @@ namespace CubicleSoft
 		{
 			if (this != &TempVar)
 			{
+				// The current string belongs to the current TLS instance, which may be a different one.
+				if (MxStr != NULL)  MxTLS->free(MxStr);
+				MxStr = NULL;
+				MxStrPos = 0;
+
 				MxTLS = TempVar.MxTLS;
 
 				if (TempVar.MxStr != NULL)  SetData(TempVar.MxStr, TempVar.MxStrPos);
-				else
-				{
-					MxTLS->free(MxStr);
-
-					MxStr = NULL;
-					MxStrPos = 0;
-				}
 
 				MxMode = TempVar.MxMode;
 				MxInt = TempVar.MxInt;
-- 
2.43.0


From ad97bb5592efe89fc730428874a3e843db4e985b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:21 +0000
Subject: [PATCH 66/74] fix: a failed allocation leaves no partially stored
 entry and no dangling storage in a cache

---
 templates/cache.h      | 17 +++++++++++++++++
 templates/cache_util.h | 13 ++++++++-----
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/templates/cache.h b/templates/cache.h
index e76b61f..5f0c24e 100644
--- a/templates/cache.h
+++ b/templates/cache.h
@@ -17,6 +17,23 @@ namespace CubicleSoft
 		{
 		}
 
+		CacheNode(const CacheNode<XKey, XValue> &TempNode) : Used(TempNode.Used), Key(TempNode.Key), Value(TempNode.Value)
+		{
+		}
+
+		// Not in use until both are stored so that a partially stored entry is never found if storing throws an exception.
+		CacheNode<XKey, XValue> &operator=(const CacheNode<XKey, XValue> &TempNode)
+		{
+			bool TempUsed = TempNode.Used;
+
+			Used = false;
+			Key = TempNode.Key;
+			Value = TempNode.Value;
+			Used = TempUsed;
+
+			return *this;
+		}
+
 		bool Used;
 		XKey Key;
 		XValue Value;
diff --git a/templates/cache_util.h b/templates/cache_util.h
index 0fae38c..9913eb2 100644
--- a/templates/cache_util.h
+++ b/templates/cache_util.h
@@ -35,12 +35,10 @@ public:
 	CacheNoCopy(const CacheNoCopy<XKey, XValue> &TempCache);
 	CacheNoCopy<XKey, XValue> &operator=(const CacheNoCopy<XKey, XValue> &TempCache);
 #else
-	Cache(const Cache<XKey, XValue> &TempCache)
+	Cache(const Cache<XKey, XValue> &TempCache) : Cache(TempCache.NumNodes)
 	{
 		size_t x;
 
-		NumNodes = TempCache.NumNodes;
-		Nodes = new CacheNode<XKey, XValue>[NumNodes];
 		for (x = 0; x < NumNodes; x++)  Nodes[x] = TempCache.Nodes[x];
 	}
 
@@ -52,10 +50,13 @@ public:
 
 			if (NumNodes != TempCache.NumNodes)
 			{
+				// Allocate first so that the cache is still intact if the allocation throws an exception.
+				CacheNode<XKey, XValue> *Nodes2 = new CacheNode<XKey, XValue>[TempCache.NumNodes];
+
 				if (Nodes != NULL)  delete[] Nodes;
 
+				Nodes = Nodes2;
 				NumNodes = TempCache.NumNodes;
-				Nodes = new CacheNode<XKey, XValue>[NumNodes];
 			}
 
 			for (x = 0; x < NumNodes; x++)  Nodes[x] = TempCache.Nodes[x];
@@ -76,9 +77,11 @@ public:
 	{
 		HashKey = HashKey % NumNodes;
 
-		Nodes[HashKey].Used = true;
+		// Not in use until both are stored so that a partially stored entry is never found if storing throws an exception.
+		Nodes[HashKey].Used = false;
 		Nodes[HashKey].Key = Key;
 		Nodes[HashKey].Value = Value;
+		Nodes[HashKey].Used = true;
 	}
 
 	bool Remove(size_t HashKey, const XKey &Key)
-- 
2.43.0


From 49b8a997926ff54ed3f3d0a1bffc66a44d788a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:21 +0000
Subject: [PATCH 67/74] fix: a failed allocation while copying or assigning a
 static vector leaves it intact

---
 templates/static_vector.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/templates/static_vector.h b/templates/static_vector.h
index 2fcd188..2c3ef84 100644
--- a/templates/static_vector.h
+++ b/templates/static_vector.h
@@ -22,10 +22,8 @@ namespace CubicleSoft
 		}
 
 		// Copy constructor.
-		StaticVector(const StaticVector<T> &TempVector)
+		StaticVector(const StaticVector<T> &TempVector) : StaticVector(TempVector.Size)
 		{
-			Size = TempVector.Size;
-			ptr = new T[Size];
 			for (size_t x = 0; x < Size; x++)  ptr[x] = TempVector.ptr[x];
 		}
 
@@ -36,11 +34,13 @@ namespace CubicleSoft
 			{
 				if (Size != TempVector.Size)
 				{
+					// Allocate first so that the vector is still intact if the allocation throws an exception.
+					T *ptr2 = (TempVector.Size ? new T[TempVector.Size] : NULL);
+
 					if (ptr != NULL)  delete [] ptr;
 
+					ptr = ptr2;
 					Size = TempVector.Size;
-					if (!Size)  ptr = NULL;
-					else  ptr = new T[Size];
 				}
 
 				for (size_t x = 0; x < Size; x++)  ptr[x] = TempVector.ptr[x];
-- 
2.43.0


From 78f19efb4a8012b450011c56eee1147a26d8ed10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:21 +0000
Subject: [PATCH 68/74] fix: a failed allocation while creating, copying or
 assigning a static 2D array leaves it intact

---
 templates/static_2d_array.h | 52 ++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/templates/static_2d_array.h b/templates/static_2d_array.h
index 6b01f96..b7cf823 100644
--- a/templates/static_2d_array.h
+++ b/templates/static_2d_array.h
@@ -12,9 +12,7 @@ namespace CubicleSoft
 	public:
 		Static2DArray(size_t FixedWidth, size_t FixedHeight)
 		{
-			baseptr = new T[FixedWidth * FixedHeight];
-			ptr = new T *[FixedHeight];
-			for (size_t x = 0; x < FixedHeight; x++)  ptr[x] = baseptr + (FixedWidth * x);
+			Allocate(baseptr, ptr, FixedWidth, FixedHeight);
 			Width = FixedWidth;
 			Height = FixedHeight;
 		}
@@ -26,16 +24,9 @@ namespace CubicleSoft
 		}
 
 		// Copy constructor.
-		Static2DArray(const Static2DArray<T> &TempArray)
+		Static2DArray(const Static2DArray<T> &TempArray) : Static2DArray(TempArray.Width, TempArray.Height)
 		{
-			Width = TempArray.Width;
-			Height = TempArray.Height;
-
 			size_t y = Width * Height;
-			baseptr = new T[y];
-			ptr = new T *[Height];
-			for (size_t x = 0; x < Height; x++)  ptr[x] = baseptr + (Width * x);
-
 			for (size_t x = 0; x < y; x++)  baseptr[x] = TempArray.baseptr[x];
 		}
 
@@ -46,24 +37,18 @@ namespace CubicleSoft
 			{
 				if (Width != TempArray.Width || Height != TempArray.Height)
 				{
+					// Allocate first so that the array is still intact if the allocation throws an exception.
+					T *baseptr2 = NULL;
+					T **ptr2 = NULL;
+					if (TempArray.Width * TempArray.Height)  Allocate(baseptr2, ptr2, TempArray.Width, TempArray.Height);
+
 					if (ptr != NULL)  delete[] ptr;
 					if (baseptr != NULL)  delete[] baseptr;
 
+					baseptr = baseptr2;
+					ptr = ptr2;
 					Width = TempArray.Width;
 					Height = TempArray.Height;
-
-					size_t y = Width * Height;
-					if (!y)
-					{
-						baseptr = NULL;
-						ptr = NULL;
-					}
-					else
-					{
-						baseptr = new T[y];
-						ptr = new T *[Height];
-						for (size_t x = 0; x < Height; x++)  ptr[x] = baseptr + (Width * x);
-					}
 				}
 
 				size_t y = Width * Height;
@@ -102,6 +87,25 @@ namespace CubicleSoft
 		}
 
 	private:
+		static void Allocate(T *&ResultBase, T **&ResultPtr, size_t NewWidth, size_t NewHeight)
+		{
+			T **TempPtr = new T *[NewHeight];
+
+			try
+			{
+				ResultBase = new T[NewWidth * NewHeight];
+			}
+			catch (...)
+			{
+				delete[] TempPtr;
+
+				throw;
+			}
+
+			for (size_t x = 0; x < NewHeight; x++)  TempPtr[x] = ResultBase + (NewWidth * x);
+			ResultPtr = TempPtr;
+		}
+
 		T *baseptr;
 		T **ptr;
 		size_t Width, Height;
-- 
2.43.0


From 1b16aeff364bfd5a28b91e2cd0b9efdebdcb0b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:56 +0000
Subject: [PATCH 69/74] fix: a failed allocation while copying a list or queue
 leaves it intact and no node behind

---
 templates/detachable_list.h       |  2 ++
 templates/detachable_list_util.h  | 27 +++++++++------------------
 templates/detachable_queue.h      |  1 +
 templates/detachable_queue_util.h | 27 +++++++++------------------
 4 files changed, 21 insertions(+), 36 deletions(-)

diff --git a/templates/detachable_list.h b/templates/detachable_list.h
index b72be29..fea6dcd 100644
--- a/templates/detachable_list.h
+++ b/templates/detachable_list.h
@@ -4,6 +4,8 @@
 #ifndef CUBICLESOFT_DETACHABLE_LIST
 #define CUBICLESOFT_DETACHABLE_LIST
 
+#include <memory>
+
 namespace CubicleSoft
 {
 	template <class T>
diff --git a/templates/detachable_list_util.h b/templates/detachable_list_util.h
index 24ac561..93f1676 100644
--- a/templates/detachable_list_util.h
+++ b/templates/detachable_list_util.h
@@ -49,12 +49,8 @@ private:
 
 public:
 #else
-	List(const List<T> &TempList)
+	List(const List<T> &TempList) : List()
 	{
-		FirstNode = NULL;
-		LastNode = NULL;
-		NumNodes = 0;
-
 		ListNode<T> *Node = TempList.FirstNode;
 		while (Node != NULL)
 		{
@@ -67,14 +63,11 @@ public:
 	{
 		if (&TempList != this)
 		{
-			Empty();
+			// Copy first so that the list is still intact if an allocation throws an exception.
+			List<T> TempList2(TempList);
 
-			ListNode<T> *Node = TempList.FirstNode;
-			while (Node != NULL)
-			{
-				InsertBefore(NULL, Node->Value);
-				Node = Node->NextNode;
-			}
+			Empty();
+			DetachAllAndAppend(TempList2);
 		}
 
 		return *this;
@@ -148,18 +141,17 @@ public:
 
 	static inline ListNode<T> *CreateNode(const T &Value)
 	{
-		ListNode<T> *Node = new ListNode<T>;
+		std::unique_ptr<ListNode<T> > Node(new ListNode<T>);
 		Node->Value = Value;
 
-		return Node;
+		return Node.release();
 	}
 
 	ListNode<T> *InsertBefore(ListNode<T> *Next, const T &Value)
 	{
 		ListNode<T> *Node;
 
-		Node = new ListNode<T>;
-		Node->Value = Value;
+		Node = CreateNode(Value);
 		if (Next == NULL)
 		{
 			Node->PrevNode = LastNode;
@@ -209,8 +201,7 @@ public:
 	{
 		ListNode<T> *Node;
 
-		Node = new ListNode<T>;
-		Node->Value = Value;
+		Node = CreateNode(Value);
 		if (Prev == NULL)
 		{
 			Node->NextNode = FirstNode;
diff --git a/templates/detachable_queue.h b/templates/detachable_queue.h
index 5a9493c..2679b22 100644
--- a/templates/detachable_queue.h
+++ b/templates/detachable_queue.h
@@ -5,6 +5,7 @@
 #define CUBICLESOFT_DETACHABLE_QUEUE
 
 #include <cstddef>
+#include <memory>
 
 namespace CubicleSoft
 {
diff --git a/templates/detachable_queue_util.h b/templates/detachable_queue_util.h
index 053617b..2604881 100644
--- a/templates/detachable_queue_util.h
+++ b/templates/detachable_queue_util.h
@@ -45,12 +45,8 @@ private:
 
 public:
 #else
-	Queue(const Queue<T> &TempQueue)
+	Queue(const Queue<T> &TempQueue) : Queue()
 	{
-		FirstNode = NULL;
-		LastNode = NULL;
-		NumNodes = 0;
-
 		QueueNode<T> *Node = TempQueue.FirstNode;
 		while (Node != NULL)
 		{
@@ -63,14 +59,11 @@ public:
 	{
 		if (&TempQueue != this)
 		{
-			Empty();
+			// Copy first so that the queue is still intact if an allocation throws an exception.
+			Queue<T> TempQueue2(TempQueue);
 
-			QueueNode<T> *Node = TempQueue.FirstNode;
-			while (Node != NULL)
-			{
-				Push(Node->Value);
-				Node = Node->NextNode;
-			}
+			Empty();
+			DetachAllAndAppend(TempQueue2);
 		}
 
 		return *this;
@@ -103,8 +96,7 @@ public:
 	{
 		QueueNode<T> *Node;
 
-		Node = new QueueNode<T>;
-		Node->Value = Value;
+		Node = CreateNode(Value);
 
 		return Push(Node);
 	}
@@ -126,8 +118,7 @@ public:
 	{
 		QueueNode<T> *Node;
 
-		Node = new QueueNode<T>;
-		Node->Value = Value;
+		Node = CreateNode(Value);
 
 		return Unshift(Node);
 	}
@@ -165,10 +156,10 @@ public:
 
 	static inline QueueNode<T> *CreateNode(const T &Value)
 	{
-		QueueNode<T> *Node = new QueueNode<T>;
+		std::unique_ptr<QueueNode<T> > Node(new QueueNode<T>);
 		Node->Value = Value;
 
-		return Node;
+		return Node.release();
 	}
 
 	// Detaches all of the nodes in TempQueue and appends them to the end of the queue.
-- 
2.43.0


From 96ced1be387bbbb896a6d6b99873306abcb4ac8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:27 +0000
Subject: [PATCH 70/74] fix: a failed allocation while copying, assigning or
 inserting leaves an ordered hash and its nodes intact and nothing behind

---
 templates/detachable_ordered_hash.h      |  33 +++++---
 templates/detachable_ordered_hash_util.h | 103 +++++++----------------
 2 files changed, 48 insertions(+), 88 deletions(-)

diff --git a/templates/detachable_ordered_hash.h b/templates/detachable_ordered_hash.h
index 95a0cec..87d5422 100644
--- a/templates/detachable_ordered_hash.h
+++ b/templates/detachable_ordered_hash.h
@@ -7,6 +7,8 @@
 #include <cstdint>
 #include <cstddef>
 #include <cstring>
+#include <memory>
+#include <utility>
 
 namespace CubicleSoft
 {
@@ -32,13 +34,12 @@ namespace CubicleSoft
 		}
 
 		// Only copies the data.  Pointers will still need to be set.
-		OrderedHashNode(const OrderedHashNode<T> &TempNode) : PrevHashNode(NULL), NextHashNode(NULL), PrevListNode(NULL), NextListNode(NULL)
+		OrderedHashNode(const OrderedHashNode<T> &TempNode) : OrderedHashNode()
 		{
 			HashKey = TempNode.HashKey;
 			IntKey = TempNode.IntKey;
 
-			if (TempNode.StrKey == NULL)  StrKey = NULL;
-			else
+			if (TempNode.StrKey != NULL)
 			{
 				StrKey = new char[IntKey];
 				std::memcpy(StrKey, TempNode.StrKey, IntKey);
@@ -51,17 +52,19 @@ namespace CubicleSoft
 		{
 			if (&TempNode != this)
 			{
-				HashKey = TempNode.HashKey;
-				IntKey = TempNode.IntKey;
+				// Allocate first so that the node is still intact if the allocation throws an exception.
+				char *StrKey2 = NULL;
+				if (TempNode.StrKey != NULL)
+				{
+					StrKey2 = new char[TempNode.IntKey];
+					std::memcpy(StrKey2, TempNode.StrKey, TempNode.IntKey);
+				}
 
 				if (StrKey != NULL)  delete[] StrKey;
 
-				if (TempNode.StrKey == NULL)  StrKey = NULL;
-				else
-				{
-					StrKey = new char[IntKey];
-					std::memcpy(StrKey, TempNode.StrKey, IntKey);
-				}
+				StrKey = StrKey2;
+				HashKey = TempNode.HashKey;
+				IntKey = TempNode.IntKey;
 
 				Value = TempNode.Value;
 			}
@@ -93,21 +96,23 @@ namespace CubicleSoft
 		// assignment/copy constructor issues.
 		void SetStrKey(const char *NewStrKey, const size_t NewStrLen, const bool CopyStr)
 		{
-			HashKey = 0;
-
 			if (!CopyStr)  StrKey = (char *)NewStrKey;
 			else
 			{
 				if (StrKey == NULL)  StrKey = new char[NewStrLen];
 				else if (IntKey < (std::int64_t)NewStrLen)
 				{
+					// Allocate first so that the node is still intact if the allocation throws an exception.
+					char *StrKey2 = new char[NewStrLen];
+
 					delete[] StrKey;
-					StrKey = new char[NewStrLen];
+					StrKey = StrKey2;
 				}
 
 				std::memcpy(StrKey, NewStrKey, NewStrLen);
 			}
 
+			HashKey = 0;
 			IntKey = (std::int64_t)NewStrLen;
 		}
 
diff --git a/templates/detachable_ordered_hash_util.h b/templates/detachable_ordered_hash_util.h
index a506f0a..74298d3 100644
--- a/templates/detachable_ordered_hash_util.h
+++ b/templates/detachable_ordered_hash_util.h
@@ -57,19 +57,12 @@ public:
 	OrderedHashNoCopy(const OrderedHashNoCopy<T> &TempHash);
 	OrderedHashNoCopy<T> &operator=(const OrderedHashNoCopy<T> &TempHash);
 #else
-	OrderedHash(const OrderedHash<T> &TempHash)
+	OrderedHash(const OrderedHash<T> &TempHash) : OrderedHash(TempHash.HashSize, TempHash.Key1, TempHash.Key2)
 	{
 		size_t x;
 
 		UseSipHash = TempHash.UseSipHash;
-		Key1 = TempHash.Key1;
-		Key2 = TempHash.Key2;
 
-		HashSize = TempHash.HashSize;
-		HashNodes = new OrderedHashNode<T> *[HashSize];
-		for (x = 0; x < HashSize; x++)  HashNodes[x] = NULL;
-		FirstListNode = NULL;
-		LastListNode = NULL;
 		OrderedHashNode<T> *Node = TempHash.FirstListNode;
 		OrderedHashNode<T> *Node2, *Node3;
 		while (Node != NULL)
@@ -105,56 +98,18 @@ public:
 	{
 		if (&TempHash != this)
 		{
-			size_t x;
-
-			UseSipHash = TempHash.UseSipHash;
-			Key1 = TempHash.Key1;
-			Key2 = TempHash.Key2;
-
-			if (HashNodes != NULL)  delete[] HashNodes;
-			OrderedHashNode<T> *Node = FirstListNode;
-			OrderedHashNode<T> *Node2, *Node3;
-			while (Node != NULL)
-			{
-				Node2 = Node->NextListNode;
-				delete Node;
-
-				Node = Node2;
-			}
-
-			HashSize = TempHash.HashSize;
-			HashNodes = new OrderedHashNode<T> *[HashSize];
-			for (x = 0; x < HashSize; x++)  HashNodes[x] = NULL;
-			FirstListNode = NULL;
-			LastListNode = NULL;
-			Node = TempHash.FirstListNode;
-			while (Node != NULL)
-			{
-				// Attach each cloned node to the end of the list.
-				Node2 = new OrderedHashNode<T>(*Node);
-				Node2->NextListNode = NULL;
-
-				if (FirstListNode == NULL)  FirstListNode = Node2;
-				else
-				{
-					Node2->PrevListNode = LastListNode;
-					LastListNode->NextListNode = Node2;
-				}
-
-				LastListNode = Node2;
-
-				// Attach cloned node to hash.
-				Node2->PrevHashNode = NULL;
-				x = (size_t)(Node2->HashKey % HashSize);
-				Node2->NextHashNode = HashNodes[x];
-				if (HashNodes[x] != NULL)  HashNodes[x]->PrevHashNode = Node2;
-				HashNodes[x] = Node2;
-
-				Node = Node->NextListNode;
-			}
-
-			NextPrimePos = TempHash.NextPrimePos;
-			NumListNodes = TempHash.NumListNodes;
+			// Copy first so that the hash is still intact if an allocation throws an exception.
+			OrderedHash<T> TempHash2(TempHash);
+
+			std::swap(UseSipHash, TempHash2.UseSipHash);
+			std::swap(Key1, TempHash2.Key1);
+			std::swap(Key2, TempHash2.Key2);
+			std::swap(HashNodes, TempHash2.HashNodes);
+			std::swap(HashSize, TempHash2.HashSize);
+			std::swap(NextPrimePos, TempHash2.NextPrimePos);
+			std::swap(FirstListNode, TempHash2.FirstListNode);
+			std::swap(LastListNode, TempHash2.LastListNode);
+			std::swap(NumListNodes, TempHash2.NumListNodes);
 		}
 
 		return *this;
@@ -216,16 +171,16 @@ public:
 
 	static inline OrderedHashNode<T> *CreateNode(const std::int64_t IntKey, const T &Value)
 	{
-		OrderedHashNode<T> *Node = new OrderedHashNode<T>;
+		std::unique_ptr<OrderedHashNode<T> > Node(new OrderedHashNode<T>);
 		Node->IntKey = IntKey;
 		Node->Value = Value;
 
-		return Node;
+		return Node.release();
 	}
 
 	static inline OrderedHashNode<T> *CreateNode(const char *StrKey, const size_t StrLen, const T &Value)
 	{
-		OrderedHashNode<T> *Node = new OrderedHashNode<T>;
+		std::unique_ptr<OrderedHashNode<T> > Node(new OrderedHashNode<T>);
 
 		Node->IntKey = (std::int64_t)StrLen;
 		Node->StrKey = new char[StrLen];
@@ -233,23 +188,23 @@ public:
 
 		Node->Value = Value;
 
-		return Node;
+		return Node.release();
 	}
 
 	OrderedHashNode<T> *InsertBefore(OrderedHashNode<T> *Next, const std::int64_t IntKey, const T &Value)
 	{
-		OrderedHashNode<T> *Node = CreateNode(IntKey, Value);
-		OrderedHashNode<T> *Node2 = InsertBefore(Next, Node);
-		if (Node2 == NULL)  delete Node;
+		std::unique_ptr<OrderedHashNode<T> > Node(CreateNode(IntKey, Value));
+		OrderedHashNode<T> *Node2 = InsertBefore(Next, Node.get());
+		if (Node2 != NULL)  Node.release();
 
 		return Node2;
 	}
 
 	OrderedHashNode<T> *InsertBefore(OrderedHashNode<T> *Next, const char *StrKey, const size_t StrLen, const T &Value)
 	{
-		OrderedHashNode<T> *Node = CreateNode(StrKey, StrLen, Value);
-		OrderedHashNode<T> *Node2 = InsertBefore(Next, Node);
-		if (Node2 == NULL)  delete Node;
+		std::unique_ptr<OrderedHashNode<T> > Node(CreateNode(StrKey, StrLen, Value));
+		OrderedHashNode<T> *Node2 = InsertBefore(Next, Node.get());
+		if (Node2 != NULL)  Node.release();
 
 		return Node2;
 	}
@@ -302,18 +257,18 @@ public:
 
 	OrderedHashNode<T> *InsertAfter(OrderedHashNode<T> *Prev, const std::int64_t IntKey, const T &Value)
 	{
-		OrderedHashNode<T> *Node = CreateNode(IntKey, Value);
-		OrderedHashNode<T> *Node2 = InsertAfter(Prev, Node);
-		if (Node2 == NULL)  delete Node;
+		std::unique_ptr<OrderedHashNode<T> > Node(CreateNode(IntKey, Value));
+		OrderedHashNode<T> *Node2 = InsertAfter(Prev, Node.get());
+		if (Node2 != NULL)  Node.release();
 
 		return Node2;
 	}
 
 	OrderedHashNode<T> *InsertAfter(OrderedHashNode<T> *Prev, const char *StrKey, const size_t StrLen, const T &Value)
 	{
-		OrderedHashNode<T> *Node = CreateNode(StrKey, StrLen, Value);
-		OrderedHashNode<T> *Node2 = InsertAfter(Prev, Node);
-		if (Node2 == NULL)  delete Node;
+		std::unique_ptr<OrderedHashNode<T> > Node(CreateNode(StrKey, StrLen, Value));
+		OrderedHashNode<T> *Node2 = InsertAfter(Prev, Node.get());
+		if (Node2 != NULL)  Node.release();
 
 		return Node2;
 	}
-- 
2.43.0


From 0a99c04306af0cca6596714cae2d404e31af5e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:27 +0000
Subject: [PATCH 71/74] fix: a failed allocation while copying, assigning or
 setting leaves a packed ordered hash intact and nothing behind

---
 templates/packed_ordered_hash.h      |   2 +
 templates/packed_ordered_hash_util.h | 159 ++++++++++++---------------
 2 files changed, 70 insertions(+), 91 deletions(-)

diff --git a/templates/packed_ordered_hash.h b/templates/packed_ordered_hash.h
index 59921c5..7e5181b 100644
--- a/templates/packed_ordered_hash.h
+++ b/templates/packed_ordered_hash.h
@@ -8,7 +8,9 @@
 #include <cstdint>
 #include <cstddef>
 #include <cstring>
+#include <memory>
 #include <new>
+#include <utility>
 
 namespace CubicleSoft
 {
diff --git a/templates/packed_ordered_hash_util.h b/templates/packed_ordered_hash_util.h
index 5f15c79..aefa7a2 100644
--- a/templates/packed_ordered_hash_util.h
+++ b/templates/packed_ordered_hash_util.h
@@ -69,111 +69,65 @@ public:
 	PackedOrderedHashNoCopy(const PackedOrderedHashNoCopy<T> &TempHash);
 	PackedOrderedHashNoCopy<T> &operator=(const PackedOrderedHashNoCopy<T> &TempHash);
 #else
-	PackedOrderedHash(const PackedOrderedHash<T> &TempHash)
+	PackedOrderedHash(const PackedOrderedHash<T> &TempHash) : PackedOrderedHash(TempHash.NumNodes, TempHash.Key1, TempHash.Key2)
 	{
 		UseSipHash = TempHash.UseSipHash;
-		Key1 = TempHash.Key1;
-		Key2 = TempHash.Key2;
 
-		ArrayNodes = NULL;
-		NumNodes = 0;
-		NumUsed = 0;
-
-		InternalResizeHash(TempHash.NumNodes);
-		NextNodePos = TempHash.NextNodePos;
-		memcpy(HashNodes, TempHash.HashNodes, sizeof(std::uint32_t) * NumNodes);
-		NumUsed = TempHash.NumUsed;
-
-		PackedOrderedHashNode<T> *Node = TempHash.ArrayNodes, *Node2 = ArrayNodes, *LastNode = TempHash.ArrayNodes + NextNodePos;
+		PackedOrderedHashNode<T> *Node = TempHash.ArrayNodes, *Node2 = ArrayNodes, *LastNode = TempHash.ArrayNodes + TempHash.NextNodePos;
 
 		while (Node != LastNode)
 		{
-			Node2->PrevHashIndex = Node->PrevHashIndex;
-			Node2->NextHashIndex = Node->NextHashIndex;
-			Node2->IntKey = Node->IntKey;
-
-			if (Node->StrKey == NULL)  Node2->StrKey = NULL;
-			else
-			{
-				size_t StrLen = Node->GetStrLen();
-				char *Str = new char[StrLen + sizeof(size_t)];
-				*((size_t *)Str) = StrLen;
-				Str += sizeof(size_t);
-				memcpy(Str, Node->StrKey, StrLen);
-				Node2->StrKey = Str;
-			}
+			std::unique_ptr<char[]> Str;
 
 			if (Node->PrevHashIndex != 0xFFFFFFFF)
 			{
+				if (Node->StrKey != NULL)
+				{
+					size_t StrLen = Node->GetStrLen();
+					Str.reset(new char[StrLen + sizeof(size_t)]);
+					*((size_t *)Str.get()) = StrLen;
+					memcpy(Str.get() + sizeof(size_t), Node->StrKey, StrLen);
+				}
+
 				new (&Node2->Value) T(Node->Value);
 			}
 
+			Node2->PrevHashIndex = Node->PrevHashIndex;
+			Node2->NextHashIndex = Node->NextHashIndex;
+			Node2->IntKey = Node->IntKey;
+			Node2->StrKey = (Str ? Str.release() + sizeof(size_t) : NULL);
+
+			// The node is complete.  The nodes up to here are cleaned up if a later allocation throws an exception.
+			NextNodePos++;
+
 			Node++;
 			Node2++;
 		}
+
+		memcpy(HashNodes, TempHash.HashNodes, sizeof(std::uint32_t) * NumNodes);
+		NumUsed = TempHash.NumUsed;
 	}
 
 	PackedOrderedHash<T> &operator=(const PackedOrderedHash<T> &TempHash)
 	{
 		if (&TempHash != this)
 		{
-			UseSipHash = TempHash.UseSipHash;
-			Key1 = TempHash.Key1;
-			Key2 = TempHash.Key2;
-
-			PackedOrderedHashNode<T> *Node = ArrayNodes, *Node2, *LastNode = ArrayNodes + NextNodePos;
-			while (Node != LastNode)
-			{
-				if (Node->PrevHashIndex != 0xFFFFFFFF)
-				{
-					Node->Value.~T();
-
-					if (Node->StrKey != NULL)  delete[] (Node->StrKey - sizeof(size_t));
-				}
-
-				Node++;
-			}
-
-			delete[] (char *)ArrayNodes;
-
-			ArrayNodes = NULL;
-			NumNodes = 0;
-			NumUsed = 0;
-
-			InternalResizeHash(TempHash.NumNodes);
-			NextNodePos = TempHash.NextNodePos;
-			memcpy(HashNodes, TempHash.HashNodes, sizeof(std::uint32_t) * NumNodes);
-			NumUsed = TempHash.NumUsed;
-
-			Node = TempHash.ArrayNodes;
-			Node2 = ArrayNodes;
-			LastNode = TempHash.ArrayNodes + NextNodePos;
-
-			while (Node != LastNode)
-			{
-				Node2->PrevHashIndex = Node->PrevHashIndex;
-				Node2->NextHashIndex = Node->NextHashIndex;
-				Node2->IntKey = Node->IntKey;
-
-				if (Node->StrKey == NULL)  Node2->StrKey = NULL;
-				else
-				{
-					size_t StrLen = Node->GetStrLen();
-					char *Str = new char[StrLen + sizeof(size_t)];
-					*((size_t *)Str) = StrLen;
-					Str += sizeof(size_t);
-					memcpy(Str, Node->StrKey, StrLen);
-					Node2->StrKey = Str;
-				}
-
-				if (Node->PrevHashIndex != 0xFFFFFFFF)
-				{
-					new (&Node2->Value) T(Node->Value);
-				}
-
-				Node++;
-				Node2++;
-			}
+			// Copy first so that the hash is still intact if an allocation throws an exception.
+			PackedOrderedHash<T> TempHash2(TempHash);
+
+			std::swap(UseSipHash, TempHash2.UseSipHash);
+			std::swap(Key1, TempHash2.Key1);
+			std::swap(Key2, TempHash2.Key2);
+			std::swap(ArrayNodes, TempHash2.ArrayNodes);
+			std::swap(HashNodes, TempHash2.HashNodes);
+			std::swap(Mask, TempHash2.Mask);
+			std::swap(NumNodes, TempHash2.NumNodes);
+			std::swap(NextNodePos, TempHash2.NextNodePos);
+			std::swap(NumUsed, TempHash2.NumUsed);
+			std::swap(CompactNumUsed50, TempHash2.CompactNumUsed50);
+			std::swap(CompactNextNodePos75, TempHash2.CompactNextNodePos75);
+			std::swap(CompactNumUsed90, TempHash2.CompactNumUsed90);
+			std::swap(ResizeNumUsed40, TempHash2.ResizeNumUsed40);
 		}
 
 		return *this;
@@ -213,8 +167,20 @@ public:
 
 	inline PackedOrderedHashNode<T> *Set(const std::int64_t IntKey, const T &Value)
 	{
+		size_t OldNumUsed = NumUsed;
 		PackedOrderedHashNode<T> *Node = Set(IntKey);
-		Node->Value = Value;
+
+		try
+		{
+			Node->Value = Value;
+		}
+		catch (...)
+		{
+			// Storing the value of a new node failed.
+			if (NumUsed != OldNumUsed)  Unset(Node);
+
+			throw;
+		}
 
 		return Node;
 	}
@@ -231,10 +197,9 @@ public:
 		if (NextNodePos == NumNodes)  AutoResizeHash();
 
 		// Allocate the key first so that nothing has changed if the allocation throws an exception.
-		char *Str = new char[StrLen + sizeof(size_t)];
-		*((size_t *)Str) = StrLen;
-		Str += sizeof(size_t);
-		memcpy(Str, StrKey, StrLen);
+		std::unique_ptr<char[]> Str(new char[StrLen + sizeof(size_t)]);
+		*((size_t *)Str.get()) = StrLen;
+		memcpy(Str.get() + sizeof(size_t), StrKey, StrLen);
 
 		Node = ArrayNodes + NextNodePos;
 		Pos = NextNodePos;
@@ -249,7 +214,7 @@ public:
 		HashNodes[HashPos] = (std::uint32_t)Pos;
 
 		Node->IntKey = (std::int64_t)HashKey;
-		Node->StrKey = Str;
+		Node->StrKey = Str.release() + sizeof(size_t);
 
 		NumUsed++;
 
@@ -258,8 +223,20 @@ public:
 
 	inline PackedOrderedHashNode<T> *Set(const char *StrKey, const size_t StrLen, const T &Value)
 	{
+		size_t OldNumUsed = NumUsed;
 		PackedOrderedHashNode<T> *Node = Set(StrKey, StrLen);
-		Node->Value = Value;
+
+		try
+		{
+			Node->Value = Value;
+		}
+		catch (...)
+		{
+			// Storing the value of a new node failed.
+			if (NumUsed != OldNumUsed)  Unset(Node);
+
+			throw;
+		}
 
 		return Node;
 	}
-- 
2.43.0


From 5585976b58594744900e40c64541fac54e7694b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:11 +0000
Subject: [PATCH 72/74] fix: File::LineInput() frees the line read so far if
 enlarging it throws an exception

---
 utf8/utf8_file_dir.cpp | 9 ++++++++-
 utf8/utf8_file_dir.h   | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index b5f32ab..70ddc6d 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1989,7 +1989,14 @@ namespace CubicleSoft
 					}
 					else
 					{
-						Result2 = new char[CurrSize + 1];
+						Result2 = new (std::nothrow) char[CurrSize + 1];
+						if (Result2 == NULL)
+						{
+							delete[] Result;
+
+							throw std::bad_alloc();
+						}
+
 						memcpy(Result2, Result, CurrSize - SizeHint);
 						delete[] Result;
 						Result = Result2;
diff --git a/utf8/utf8_file_dir.h b/utf8/utf8_file_dir.h
index c04244d..8cd6046 100644
--- a/utf8/utf8_file_dir.h
+++ b/utf8/utf8_file_dir.h
@@ -12,6 +12,7 @@
 
 #include <cstdio>
 #include <cstring>
+#include <new>
 
 #if defined(_WIN32) || defined(WIN32) || defined(_WIN64) || defined(WIN64)
 	#include <sys/types.h>
-- 
2.43.0


From 0795f15cad0c4b993afe807c4458cee066505ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:04 +0000
Subject: [PATCH 73/74] fix: creating named objects in two threads at once no
 longer changes the process's file creation mask for good

---
 sync/sync_util.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index d4e94a9..64fe80b 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -117,6 +117,9 @@ namespace CubicleSoft
 			return Size;
 		}
 
+		// The file creation mask belongs to the whole process, so only one thread at a time may change it.
+		static pthread_mutex_t GxMaskMutex = PTHREAD_MUTEX_INITIALIZER;
+
 		int Util::InitUnixNamedMem(char *&ResultMem, size_t &StartPos, const char *Prefix, const char *Name, size_t Size)
 		{
 			int Result = -1;
@@ -214,7 +217,7 @@ namespace CubicleSoft
 				std::uint32_t *RefCountPtr;
 
 				// Attempt to create the named shared memory object.
-				mode_t PrevMask = umask(0);
+				mode_t PrevMask;
 				int fp, Result2;
 				bool Exists, Retry;
 				struct stat TempStat;
@@ -223,7 +226,13 @@ namespace CubicleSoft
 				{
 					Retry = false;
 
+					pthread_mutex_lock(&GxMaskMutex);
+					PrevMask = umask(0);
 					fp = shm_open(Name2, O_RDWR | O_CREAT | O_EXCL, 0666);
+					Exists = (fp < 0 && errno == EEXIST);
+					umask(PrevMask);
+					pthread_mutex_unlock(&GxMaskMutex);
+
 					if (fp > -1)
 					{
 						do
@@ -262,8 +271,6 @@ namespace CubicleSoft
 					}
 					else
 					{
-						Exists = (errno == EEXIST);
-
 						// Attempt to open the named shared memory object.
 						fp = shm_open(Name2, O_RDWR, 0666);
 						if (fp > -1)
@@ -317,8 +324,6 @@ namespace CubicleSoft
 						if (Retry)  usleep(2000);
 					}
 				} while (Retry);
-
-				umask(PrevMask);
 			}
 
 			return Result;
-- 
2.43.0


From b0b58f5f267c42a4ae69d011465a349ab8020841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:35 +0000
Subject: [PATCH 74/74] fix: changing owners and finding the home directory no
 longer mixes up users when several threads do it

---
 utf8/utf8_appinfo.cpp  | 34 +++++++++++++++++++++++++++-----
 utf8/utf8_file_dir.cpp | 44 ++++++++++++++++++++++++++++++++++++------
 2 files changed, 67 insertions(+), 11 deletions(-)

diff --git a/utf8/utf8_appinfo.cpp b/utf8/utf8_appinfo.cpp
index 938d356..80bdf78 100644
--- a/utf8/utf8_appinfo.cpp
+++ b/utf8/utf8_appinfo.cpp
@@ -4,12 +4,14 @@
 #include "utf8_appinfo.h"
 
 #include <cstring>
+#include <new>
 
 #if defined(_WIN32) || defined(WIN32) || defined(_WIN64) || defined(WIN64)
 	#include <ShlObj.h>
 #else
 	#include <limits.h>
 	#include <stdlib.h>
+	#include <errno.h>
 	#include <pwd.h>
 
 	#ifdef __APPLE__
@@ -188,18 +190,40 @@ namespace CubicleSoft
 			BufferSize = 0;
 			if (z2)  Buffer[0] = '\0';
 
+			char *TempBuffer = NULL;
 			const char *HomeDir = getenv("HOME");
 			if (HomeDir == NULL || *HomeDir == '\0')
 			{
-				struct passwd *UserInfo = getpwuid(getuid());
-				HomeDir = (UserInfo != NULL ? UserInfo->pw_dir : NULL);
+				// getpwuid() can't be used by multiple threads at the same time.
+				struct passwd UserInfo, *UserInfo2;
+				size_t y = 1024;
+				int Result;
+
+				do
+				{
+					delete[] TempBuffer;
+					TempBuffer = new (std::nothrow) char[y];
+					if (TempBuffer == NULL)  return false;
+
+					UserInfo2 = NULL;
+					Result = getpwuid_r(getuid(), &UserInfo, TempBuffer, y, &UserInfo2);
+
+					y *= 2;
+				} while (Result == ERANGE && y <= 67108864);
+
+				HomeDir = (Result == 0 && UserInfo2 != NULL ? UserInfo.pw_dir : NULL);
 			}
-			if (HomeDir == NULL || *HomeDir == '\0')  return false;
 
-			if (z2 <= strlen(HomeDir))  return false;
+			if (HomeDir == NULL || *HomeDir == '\0' || z2 <= strlen(HomeDir))
+			{
+				delete[] TempBuffer;
+
+				return false;
+			}
 
 			strcpy(Buffer, HomeDir);
-			size_t z = strlen(HomeDir);
+			size_t z = strlen(Buffer);
+			delete[] TempBuffer;
 
 			return GetNIXStorageDir(Buffer, BufferSize, ".", AppDir, z, z2);
 		}
diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 70ddc6d..15c59d9 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1642,10 +1642,26 @@ namespace CubicleSoft
 			char Filename2[8192];
 			if (!GetPlatformFilename(Filename2, 8192, Filename))  return false;
 
-			struct passwd *UserInfo = getpwnam(Owner);
-			if (UserInfo == NULL)  return false;
+			// getpwnam() can't be used by multiple threads at the same time.
+			struct passwd UserInfo, *UserInfo2;
+			size_t y = 1024;
+			int Result;
+
+			do
+			{
+				char *Buffer = new (std::nothrow) char[y];
+				if (Buffer == NULL)  return false;
+
+				UserInfo2 = NULL;
+				Result = getpwnam_r(Owner, &UserInfo, Buffer, y, &UserInfo2);
+				delete[] Buffer;
+
+				y *= 2;
+			} while (Result == ERANGE && y <= 67108864);
+
+			if (Result != 0 || UserInfo2 == NULL)  return false;
 
-			return (::chown(Filename2, UserInfo->pw_uid, -1) == 0);
+			return (::chown(Filename2, UserInfo.pw_uid, -1) == 0);
 		}
 
 		bool File::Chgrp(const char *Filename, const char *Group)
@@ -1653,10 +1669,26 @@ namespace CubicleSoft
 			char Filename2[8192];
 			if (!GetPlatformFilename(Filename2, 8192, Filename))  return false;
 
-			struct group *GroupInfo = getgrnam(Group);
-			if (GroupInfo == NULL)  return false;
+			// getgrnam() can't be used by multiple threads at the same time.
+			struct group GroupInfo, *GroupInfo2;
+			size_t y = 1024;
+			int Result;
+
+			do
+			{
+				char *Buffer = new (std::nothrow) char[y];
+				if (Buffer == NULL)  return false;
+
+				GroupInfo2 = NULL;
+				Result = getgrnam_r(Group, &GroupInfo, Buffer, y, &GroupInfo2);
+				delete[] Buffer;
+
+				y *= 2;
+			} while (Result == ERANGE && y <= 67108864);
+
+			if (Result != 0 || GroupInfo2 == NULL)  return false;
 
-			return (::chown(Filename2, -1, GroupInfo->gr_gid) == 0);
+			return (::chown(Filename2, -1, GroupInfo.gr_gid) == 0);
 		}
 
 		bool File::Copy(const char *SrcFilename, const char *DestFilename)
-- 
2.43.0

