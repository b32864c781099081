From 1a11489015c96205956c033ce6ed889b17e41ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:31 +0000
Subject: [PATCH 001/179] fix: PriorityQueue::remove(T) must remove every
 match, also when the head is one

---
 src/PriorityQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PriorityQueue.h b/src/PriorityQueue.h
index f9004c8..89851a5 100644
--- a/src/PriorityQueue.h
+++ b/src/PriorityQueue.h
@@ -563,7 +563,7 @@ template <class T> bool PriorityQueue<T>::remove(T test_data) {
       free(current);
       element_count--;
       return_value = true;
-      current = (nullptr == prior) ? nullptr : prior->next;
+      current = (nullptr == prior) ? root : prior->next;
     }
     else {
       prior = current;
-- 
2.43.0


From d5324b3e555c3aff744048b8cc2c9092cfb55cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:43 +0000
Subject: [PATCH 002/179] fix: PriorityQueue::insertIfAbsent() must return the
 position of the new element, not of its predecessor

---
 src/PriorityQueue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PriorityQueue.h b/src/PriorityQueue.h
index 89851a5..9a67c9e 100644
--- a/src/PriorityQueue.h
+++ b/src/PriorityQueue.h
@@ -220,6 +220,7 @@ template <class T> int PriorityQueue<T>::insertIfAbsent(T d, int nu_pri) {
     else {
       nu->next = insert_pointer->next;
       insert_pointer->next = nu;
+      return_value++;   // The new element sits one past insert_pointer.
     }
     element_count++;
   }
-- 
2.43.0


From 81ae7d6cfc091c8632f4835d2d03439c88314a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:43 +0000
Subject: [PATCH 003/179] fix: LinkedList::remove(T) must remove every match,
 also when the head is one

---
 src/LightLinkedList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LightLinkedList.h b/src/LightLinkedList.h
index b8ba35f..55231c8 100644
--- a/src/LightLinkedList.h
+++ b/src/LightLinkedList.h
@@ -268,7 +268,7 @@ template <class T> bool LinkedList<T>::remove(T test_data) {
       free(current);
       element_count--;
       return_value = true;
-      current = (nullptr == prior) ? nullptr : prior->next;
+      current = (nullptr == prior) ? root : prior->next;
     }
     else {
       prior = current;
-- 
2.43.0


From ca659c1d091230e77f408af276b6bee5e5f68008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:08 +0000
Subject: [PATCH 004/179] fix: ElementPool::take() must respect the overdraw
 limit

---
 src/BusQueue/I2CDevice.cpp | 6 ++++++
 src/ElementPool.h          | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/BusQueue/I2CDevice.cpp b/src/BusQueue/I2CDevice.cpp
index 1ea6144..842a105 100644
--- a/src/BusQueue/I2CDevice.cpp
+++ b/src/BusQueue/I2CDevice.cpp
@@ -98,6 +98,9 @@ bool I2CDevice::writeX(int sub_addr, uint16_t len, uint8_t *buf) {
     return false;
   }
   I2CBusOp* nu = _bus->new_op(BusOpcode::TX, this);
+  if (nullptr == nu) {
+    return false;
+  }
   nu->dev_addr = _dev_addr;
   nu->sub_addr = (int16_t) sub_addr;
   nu->setBuffer(buf, len);
@@ -110,6 +113,9 @@ bool I2CDevice::readX(int sub_addr, uint8_t len, uint8_t *buf) {
     return false;
   }
   I2CBusOp* nu = _bus->new_op(BusOpcode::RX, this);
+  if (nullptr == nu) {
+    return false;
+  }
   nu->dev_addr = _dev_addr;
   nu->sub_addr = (int16_t) sub_addr;
   nu->setBuffer(buf, len);
diff --git a/src/ElementPool.h b/src/ElementPool.h
index f268029..e4f23c1 100644
--- a/src/ElementPool.h
+++ b/src/ElementPool.h
@@ -190,11 +190,11 @@ template <class T> bool ElementPool<T>::inPool(T* e) {
 /**
 * Remove an item from the preallocation pool an return it.
 *
-* @return a reference to the preallocated element.
+* @return a reference to the element, or nullptr if the pool is starved and may not overdraw any further.
 */
 template <class T> T* ElementPool<T>::take() {
   T* ret = _list.get();
-  if (nullptr == ret) {
+  if ((nullptr == ret) && (_overdraws_outstanding() < _overdraw_limit)) {
     ret = new T();
     _overdraws++;
   }
-- 
2.43.0


From a235830edfd89d0dbd4a4024c4df829324111492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:54 +0000
Subject: [PATCH 005/179] fix: StringBuilder::concatHandoffLimit() must respect
 a limit that ends on a fragment's first byte, and keep whole leading
 fragments

---
 src/StringBuilder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 86eea3a..60a467e 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -693,7 +693,7 @@ void StringBuilder::concatHandoffLimit(StringBuilder* donar, unsigned int len_li
     donar->_root = nullptr;          // Inform the donar instance...
     int offset = (len_limit - 1);    // Get the StrLL containing the last byte to be transfered.
     StrLL* ll_with_byte = _get_ll_containing_offset(old_root, &offset);
-    if ((nullptr != ll_with_byte) & (0 < offset)) {
+    if (nullptr != ll_with_byte) {
       // We're going to leave some data with the donor. How much?
       if ((ll_with_byte->len - 1) == offset) {
         // The requested length fit neatly on a fragment boundary.
@@ -716,6 +716,7 @@ void StringBuilder::concatHandoffLimit(StringBuilder* donar, unsigned int len_li
           for (int i = 0; i < LEN_RIGHT; i++) {
             *(ll_with_byte->str + i) = *(ll_with_byte->str + i + LEN_LEFT);
           }
+          *(ll_with_byte->str + LEN_RIGHT) = 0;   // Restore the guard-rail.
           ll_with_byte->len = LEN_RIGHT;
           donar->_root = ll_with_byte;    // Inform the donar instance...
 
@@ -726,7 +727,7 @@ void StringBuilder::concatHandoffLimit(StringBuilder* donar, unsigned int len_li
           }
           // To the extent that we can simply move memory references around, do
           //   so. All leading StrLL that fits within the limit is taken directly.
-          if (current != old_root) {
+          if (ll_with_byte != old_root) {
             current->next = split_left;       // Snip the list where we left it.
             _stack_str_onto_list(old_root);   // Attach the fragment list before
           }
-- 
2.43.0


From 4557c53499cbb3e0cca69813f943f85895d0c3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:54 +0000
Subject: [PATCH 006/179] fix: StringBuilder::locate() must roll back a failed
 match to the right place in the right fragment

---
 src/StringBuilder.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 60a467e..e6e3708 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1110,7 +1110,7 @@ int StringBuilder::locate(const uint8_t* NEEDLE, int NEEDLE_LEN, int start_offse
     int strll_offset   = start_offset;
     StrLL* src_ll      = _get_ll_containing_offset(_root, &strll_offset);
     StrLL* retrace_ll  = src_ll;
-    int retrace_offset = start_offset;
+    int retrace_strll_offset = strll_offset;
     while ((nullptr != src_ll) & (-1 == ret)) {
       if (*(src_ll->str + strll_offset) == *(NEEDLE + match_length++)) {
         if (match_length == NEEDLE_LEN) {
@@ -1120,14 +1120,13 @@ int StringBuilder::locate(const uint8_t* NEEDLE, int NEEDLE_LEN, int start_offse
           // First hit on the needle. Store the current search state just in
           //   case we need to roll back to it after a failure to find a long needle.
           retrace_ll  = src_ll;
-          retrace_offset = search_offset;
+          retrace_strll_offset = strll_offset;
         }
       }
       else {
         if (match_length > 1) {
-          search_offset = retrace_offset;
-          strll_offset  = search_offset;
-          src_ll = _get_ll_containing_offset(retrace_ll, &strll_offset);
+          src_ll       = retrace_ll;
+          strll_offset = retrace_strll_offset;
         }
         search_offset++;
         match_length  = 0;
-- 
2.43.0


From 5e31d7f43b677f8bbded1d4b9ddba061408920a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:54 +0000
Subject: [PATCH 007/179] fix: StringBuilder::byteAt() must return 0 for a
 negative offset, instead of reading before the fragment

---
 src/StringBuilder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index e6e3708..10e716f 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1535,7 +1535,10 @@ int StringBuilder::_total_str_len(StrLL* node) {
 StrLL* StringBuilder::_get_ll_containing_offset(StrLL* str_ll, int* offset) {
   StrLL* ret = nullptr;
   const int STACKED_OFFSET = *offset;
-  if (STACKED_OFFSET < str_ll->len) {    // If we weren't asked for an offset
+  if (0 > STACKED_OFFSET) {
+    *offset = -1;
+  }
+  else if (STACKED_OFFSET < str_ll->len) {    // If we weren't asked for an offset
     ret = str_ll;                        //   past the end our bounds, we're
   }                                      //   it. Otherwise, return nullptr.
   else if (nullptr != str_ll->next) {    // Can we go deeper?
-- 
2.43.0


From f0f02912e4fb7892cedc986710928e11326e78ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:54 +0000
Subject: [PATCH 008/179] fix: StringBuilder::replace() must find a needle that
 starts inside of a failed partial match

---
 src/StringBuilder.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 10e716f..53b63d1 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1270,10 +1270,12 @@ int StringBuilder::replace(const char* needle, const char* replace) {
         }
       }
       else {                       // Bytes disagree.
-        if (1 < search_hit_idx) {  // If we were into a search, back out of our
-          remaining_search_len++;  //   postfixed iterator actions so the
-          intra_frag_idx--;        //   current byte gets compared against the
-        }                          //   first needle byte.
+        if (1 < search_hit_idx) {  // If we were into a search, resume at the byte
+          // that follows the one where the failed match began.
+          remaining_search_len += (search_hit_idx - 1);
+          intra_frag_idx = (HAYSTACK_LEN - remaining_search_len);
+          src_ll = _get_ll_containing_offset(_root, &intra_frag_idx);
+        }
         search_hit_idx = 0;        // Reset the search.
       }
 
-- 
2.43.0


From 9583e7e44797e8ff3985efe45c78d15b907a2e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:54 +0000
Subject: [PATCH 009/179] fix: StringBuilder::position_as_uint64() must take
 all sixteen digits of a long hexadecimal token

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 53b63d1..4514e26 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -494,7 +494,7 @@ uint64_t StringBuilder::position_as_uint64(int pos) {
       len -= 2;
       temp += 2;
       // Only so big an int we can handle...
-      int max_bytes = (len > 16) ? 8 : len;
+      int max_bytes = (len > 16) ? 16 : len;
       for (int i = 0; i < max_bytes; i++) {
         switch (*(temp + i)) {
           case '0':  case '1':  case '2':  case '3':  case '4':
-- 
2.43.0


From f05f9ff52e1538875133e396f3e00dc0442881f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:54 +0000
Subject: [PATCH 010/179] fix: StringBuilder::concatf() and concat(double) must
 not overrun their stack buffers

---
 src/StringBuilder.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 4514e26..7b5a420 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -895,10 +895,7 @@ void StringBuilder::concat(unsigned int nu) {
   concat(temp);
 }
 void StringBuilder::concat(double nu) {
-  char temp[24];
-  memset(temp, 0, sizeof(temp));
-  sprintf(temp, "%f", nu);
-  concat(temp);
+  concatf("%f", nu);   // Might be hundreds of digits long.
 }
 
 
@@ -948,14 +945,29 @@ int StringBuilder::concatf(const char* format, ...) {
 int StringBuilder::concatf(const char* format, va_list args) {
   int len = strlen(format);
   unsigned short f_codes = 0;  // Count how many format codes are in use...
-  for (unsigned short i = 0; i < len; i++) {  if (*(format+i) == '%') f_codes++; }
+  for (int i = 0; i < len; i++) {  if (*(format+i) == '%') f_codes++; }
   // Allocate (hopefully) more space than we will need....
-  const int est_len = len + 512 + (f_codes * 15);   // TODO: Iterate on failure of vsprintf().
+  const int est_len = len + 512 + (f_codes * 15);
   char temp[est_len];
   memset(temp, 0, est_len);
   int ret = 0;
-  ret = vsprintf(temp, format, args);
-  if (ret > 0) concat((char *) temp);
+  va_list args_retry;
+  va_copy(args_retry, args);
+  ret = vsnprintf(temp, est_len, format, args);
+  if (ret >= est_len) {
+    // The estimate was too small, but now the true length is known.
+    char* big_temp = (char*) malloc(ret + 1);
+    if (nullptr != big_temp) {
+      vsnprintf(big_temp, ret + 1, format, args_retry);
+      concat(big_temp);
+      free(big_temp);
+    }
+    else {
+      ret = -1;
+    }
+  }
+  else if (ret > 0) concat((char *) temp);
+  va_end(args_retry);
   return ret;
 }
 
-- 
2.43.0


From 7d47520df72b6917aa77dacf498dd54adbf8e8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:54 +0000
Subject: [PATCH 011/179] fix: StringBuilder::implode() must join two
 single-character tokens

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 7b5a420..d67336f 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1345,7 +1345,7 @@ int StringBuilder::implode(const char* delim) {
     const int DELIM_LEN     = strlen(delim);
     const int TOKD_STR_LEN  = length();
     const int TOK_COUNT     = count();
-    if ((DELIM_LEN > 0) & (TOKD_STR_LEN > 2) & (TOK_COUNT > 1)) {
+    if ((DELIM_LEN > 0) & (TOKD_STR_LEN >= 2) & (TOK_COUNT > 1)) {
       // In order for this operation to make sense, we need to have at least
       //   two tokens, and a total string length of at least 2 characters.
       const int TOTAL_STR_LEN = ((TOK_COUNT-1) * DELIM_LEN) + TOKD_STR_LEN;
-- 
2.43.0


From c84dfa27fa5be2b8001f69dec8bfee1f777d8d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 012/179] fix: Base64Decoder must start with no chunk length,
 rather than with an uninitialized one

---
 src/Pipes/BufferAccepter/Base64/C3P_B64.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Pipes/BufferAccepter/Base64/C3P_B64.h b/src/Pipes/BufferAccepter/Base64/C3P_B64.h
index 9f970a2..c7795a1 100644
--- a/src/Pipes/BufferAccepter/Base64/C3P_B64.h
+++ b/src/Pipes/BufferAccepter/Base64/C3P_B64.h
@@ -103,7 +103,7 @@ class Base64Encoder : public BufferCoDec {
 */
 class Base64Decoder : public BufferCoDec {
   public:
-    Base64Decoder(BufferAccepter* eff = nullptr) : BufferCoDec(eff) {};
+    Base64Decoder(BufferAccepter* eff = nullptr) : BufferCoDec(eff), _input_length(0) {};
     ~Base64Decoder() {};
 
     /* Implementation of BufferAccepter. */
-- 
2.43.0


From 159d10ffd9914bd2537a68cf6596e396b3d4b142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:22 +0000
Subject: [PATCH 013/179] fix: AsyncSequencer must not dispatch a runnable step
 whose dependency was reset

---
 src/AsyncSequencer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/AsyncSequencer.cpp b/src/AsyncSequencer.cpp
index 9effdfc..8fa9e78 100644
--- a/src/AsyncSequencer.cpp
+++ b/src/AsyncSequencer.cpp
@@ -108,7 +108,8 @@ int8_t AsyncSequencer::_dispatch_steps(const uint32_t DISPTCH_MASK) {
   int8_t ret = 0;
   for (uint32_t i = 0; i < _STEP_COUNT; i++) {
     const StepSequenceList* STEP = (_STEP_LIST + i);
-    if (STEP->FLAG == (STEP->FLAG & DISPTCH_MASK)) {
+    // A dependency might have been reset since the step was marked runnable.
+    if ((STEP->FLAG == (STEP->FLAG & DISPTCH_MASK)) && all_steps_have_passed(STEP->DEP_MASK)) {
       switch (STEP->DISPATCH_FXN()) {
         case 1:   _mark_step_dispatched(STEP->FLAG);   break;  // Dispatch succeeded.
         case 0:   break;      // Not great. Not terrible. Retry on a later pass.
-- 
2.43.0


From 97ba0c0aa0ca803d078e73704d00f86477785cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:01 +0000
Subject: [PATCH 014/179] fix: StopWatch must start without a start mark, and
 must time an interval that starts at zero

---
 src/TimerTools/StopWatch.cpp | 5 +++--
 src/TimerTools/TimerTools.h  | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/TimerTools/StopWatch.cpp b/src/TimerTools/StopWatch.cpp
index 3f8b4af..468bc12 100644
--- a/src/TimerTools/StopWatch.cpp
+++ b/src/TimerTools/StopWatch.cpp
@@ -28,7 +28,7 @@ limitations under the License.
 /**
 * Constructor
 */
-StopWatch::StopWatch(uint32_t _t) : _tag(_t) {
+StopWatch::StopWatch(uint32_t _t) : _tag(_t), _start_micros(0), _started(false) {
   reset();
 }
 
@@ -57,6 +57,7 @@ ISR_FUNC bool StopWatch::addRuntime(const unsigned long START_TIME, const unsign
   _run_time_total  += _run_time_last;
   _run_time_average = _run_time_total / _executions;
   _start_micros     = 0;
+  _started          = false;
   return true;
 }
 
@@ -64,7 +65,7 @@ ISR_FUNC bool StopWatch::addRuntime(const unsigned long START_TIME, const unsign
 ISR_FUNC bool StopWatch::markStop() {
   const uint32_t STOP_TIME = micros();
   bool ret = false;
-  if (_start_micros > 0) {
+  if (_started) {   // Zero is a legitimate start time.
     addRuntime(_start_micros, STOP_TIME);
     ret = true;
   }
diff --git a/src/TimerTools/TimerTools.h b/src/TimerTools/TimerTools.h
index 0469d71..2a30768 100644
--- a/src/TimerTools/TimerTools.h
+++ b/src/TimerTools/TimerTools.h
@@ -42,7 +42,7 @@ class StopWatch {
     inline uint32_t meanTime() {     return _run_time_average;   };
     inline uint32_t totalTime() {    return _run_time_total;     };
     inline uint32_t executions() {   return _executions;         };
-    inline void     markStart() {    _start_micros = (uint32_t) micros();   };
+    inline void     markStart() {    _start_micros = (uint32_t) micros();  _started = true;  };
     bool  markStop();
     bool  addRuntime(const unsigned long START_TIME, const unsigned long STOP_TIME);
     void  reset();
@@ -62,6 +62,7 @@ class StopWatch {
     uint32_t _run_time_average;
     uint32_t _run_time_total;
     uint32_t _executions;
+    bool     _started;   // Is there a start mark that has not been stopped?
 };
 
 
-- 
2.43.0


From 7efd6a1706e8e762bc930036fe48dd6ac2026ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:02 +0000
Subject: [PATCH 015/179] fix: C3PScheduler must not run a schedule that was
 disabled after it came due

---
 src/TimerTools/C3PScheduler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/TimerTools/C3PScheduler.cpp b/src/TimerTools/C3PScheduler.cpp
index 0cbb4a9..30ec8ca 100644
--- a/src/TimerTools/C3PScheduler.cpp
+++ b/src/TimerTools/C3PScheduler.cpp
@@ -226,7 +226,9 @@ FAST_FUNC void C3PScheduler::serviceSchedules() {
     // Service queue will refuse to process until the ISR has been pinged.
     C3PSchedule* current = _exec_queue.get();
     while (nullptr != current) {
-      current->execute();
+      if (current->enabled()) {   // Might have been disabled since it was enqueued.
+        current->execute();
+      }
       current = _exec_queue.get();
     }
     profiler_service.markStop();
-- 
2.43.0


From abee334a143b7f24685caae59924927ec0d3a90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 016/179] fix: PeriodicTimeout::trigger() must expire a timeout
 of the longest period, too

---
 src/TimerTools/TimerTools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimerTools/TimerTools.h b/src/TimerTools/TimerTools.h
index 2a30768..29e758c 100644
--- a/src/TimerTools/TimerTools.h
+++ b/src/TimerTools/TimerTools.h
@@ -75,7 +75,7 @@ class PeriodicTimeout {
   public:
     virtual ~PeriodicTimeout() {};      // Featureless destructor.
 
-    inline void trigger() {                _mark = (_now() - (_period+1));  };
+    inline void trigger() {                _mark = (_now() - _period);  };
     inline void reset() {                  _mark = _now();                  };
     inline void reset(unsigned long p) {   _mark = _now(); _period = p;     };
     inline void period(unsigned long p) {  _period = p;                     };
-- 
2.43.0


From 78a2de73f3b0fa8cfdf3969224cf745a02c7f0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 017/179] fix: A uint32 must refuse a negative int64

---
 src/C3PValue/C3PType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index d351aa5..f7bd17b 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -1299,7 +1299,7 @@ template <> int8_t      C3PTypeConstraint<uint32_t>::set_from(void* dest, const
       }
       break;
     case TCode::INT64:
-      if (*((int64_t*) src) <= UINT32_MAX) {
+      if ((*((int64_t*) src) <= UINT32_MAX) & (*((int64_t*) src) >= 0)) {
         *d = (uint32_t) *((int64_t*) src);
         return 0;
       }
-- 
2.43.0


From d875d137c106e7456a46f87de570d0df6d15e50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 018/179] fix: An int64 must refuse a uint64 above its range

---
 src/C3PValue/C3PType.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index f7bd17b..822ff6c 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -892,9 +892,9 @@ template <> int8_t      C3PTypeConstraint<int64_t>::set_from(void* dest, const T
     case TCode::UINT32:     d = (int64_t) *((uint32_t*) src);   ret = 0;  break;
     case TCode::UINT64:
       {
-        int64_t s = _load_from_mem(src);
+        uint64_t s = (uint64_t) _load_from_mem(src);
         if (s <= INT64_MAX) {
-          d = s;
+          d = (int64_t) s;
           ret = 0;
         }
       }
-- 
2.43.0


From 73e4133d287fdc45aa3a116c53d32a3fce9536e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 019/179] fix: A uint8 that refuses a uint16 must not go on to
 read it as a uint32

---
 src/C3PValue/C3PType.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 822ff6c..73003f4 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -1047,6 +1047,7 @@ template <> int8_t      C3PTypeConstraint<uint8_t>::set_from(void* dest, const T
         *d = (uint8_t) *((uint16_t*) src);
         return 0;
       }
+      break;
     case TCode::UINT32:
       if (*((uint32_t*) src) <= UINT8_MAX) {
         *d = (uint8_t) *((uint32_t*) src);
-- 
2.43.0


From 2fff68491d5f8f68d0e7b7ea57c1c5147d89d7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 020/179] fix: An int64 must render whole where long has 32
 bits

---
 src/C3PValue/C3PType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 73003f4..40001c4 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -853,7 +853,7 @@ template <> int         C3PTypeConstraint<int32_t>::deserialize(void* obj, Strin
 ///
 template <> void        C3PTypeConstraint<int64_t>::to_string(void* obj, StringBuilder* out) {
   int64_t yuck = _load_from_mem(obj);
-  out->concatf("%ld", yuck);
+  out->concatf("%" PRId64, yuck);
 }
 
 template <> int8_t C3PTypeConstraint<int64_t>::representable_by(const TCode DEST_TYPE) {
-- 
2.43.0


From aa09c15d4877e2bb2780f4f1de3e254b87ee1f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 021/179] fix: A uint64 must render whole where long has 32
 bits

---
 src/C3PValue/C3PType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 40001c4..662a506 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -1399,7 +1399,7 @@ template <> int         C3PTypeConstraint<uint32_t>::deserialize(void* obj, Stri
 ///
 template <> void        C3PTypeConstraint<uint64_t>::to_string(void* obj, StringBuilder* out) {
   uint64_t yuck = _load_from_mem(obj);
-  out->concatf("%lu", yuck);
+  out->concatf("%" PRIu64, yuck);
 }
 
 template <> int8_t C3PTypeConstraint<uint64_t>::representable_by(const TCode DEST_TYPE) {
-- 
2.43.0


From d2fa3640c1745f80cfccbbe5d000f02e2207cd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 022/179] fix: A float must convert to a boolean, as
 representable_by() says it can

---
 src/C3PValue/C3PType.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 662a506..f78bd30 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -1693,6 +1693,7 @@ template <> int8_t      C3PTypeConstraint<float>::get_as(void* src, const TCode
   // To avoid inducing bugs related to alignment, we copy the value byte-wise
   //   into our on-stack storage, where it's alignment can be controlled.
   switch (DEST_TYPE) {
+    case TCode::BOOLEAN:    *((bool*) dest) = (0.0f != _load_from_mem(src));  return 0;
     case TCode::FLOAT:      memcpy(dest, src, FIXED_LEN);  return 0;
     case TCode::DOUBLE:
       {
-- 
2.43.0


From 6d66ea8639b43304279c180d0acc48669ba66cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 023/179] fix: A double must convert to a boolean, as
 representable_by() says it can

---
 src/C3PValue/C3PType.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index f78bd30..cb6330a 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -1790,6 +1790,7 @@ template <> int8_t      C3PTypeConstraint<double>::set_from(void* dest, const TC
 
 template <> int8_t      C3PTypeConstraint<double>::get_as(void* src, const TCode DEST_TYPE, void* dest) {
   switch (DEST_TYPE) {
+    case TCode::BOOLEAN:    *((bool*) dest) = (0.0d != _load_from_mem(src));  return 0;
     case TCode::DOUBLE:     memcpy(dest, src, FIXED_LEN);   return 0;
     default:  break;
   }
-- 
2.43.0


From 6de5b65bdbcece5a00432fedb603ad656c338b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:07 +0000
Subject: [PATCH 024/179] fix: C3PValue::get_as_bool() must judge a number,
 rather than the pointer or the slack bytes that hold it

---
 src/C3PValue/C3PValue.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 5eaeb8c..e36717b 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -458,8 +458,13 @@ int64_t C3PValue::get_as_int64(int8_t* success) {
 
 /* Casts the value into (!/= 0). */
 bool C3PValue::get_as_bool(int8_t* success) {
+  bool ret = (0 != _target_mem);
+  if (is_numeric()) {
+    // Numerics might be stored elsewhere, or might not fill the pointer's space.
+    get_as(TCode::BOOLEAN, (void*) &ret);
+  }
   if (success) {  *success = true;  }
-  return (0 != _target_mem);
+  return ret;
 }
 
 
-- 
2.43.0


From 63bdb94558f81a85af8efb4e148cbbccb9640af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:07 +0000
Subject: [PATCH 025/179] fix: C3PValue::set(char*) must store the string,
 rather than the address of its own parameter

---
 src/C3PValue/C3PValue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C3PValue/C3PValue.h b/src/C3PValue/C3PValue.h
index c3ab4f1..bd7f6a5 100644
--- a/src/C3PValue/C3PValue.h
+++ b/src/C3PValue/C3PValue.h
@@ -181,8 +181,8 @@ class C3PValue {
     inline int8_t set(bool x) {          return set_from(TCode::BOOLEAN,      (void*) &x);  };
     inline int8_t set(float x) {         return set_from(TCode::FLOAT,        (void*) &x);  };
     inline int8_t set(double x) {        return set_from(TCode::DOUBLE,       (void*) &x);  };
-    inline int8_t set(const char* x) {   return set_from(TCode::STR,          (void*) &x);  };
-    inline int8_t set(char* x) {         return set_from(TCode::STR,          (void*) &x);  };
+    inline int8_t set(const char* x) {   return set_from(TCode::STR,          (void*) x);  };
+    inline int8_t set(char* x) {         return set_from(TCode::STR,          (void*) x);  };
     inline int8_t set(Vector3u32* x) {   return set_from(TCode::VECT_3_UINT32, (void*) x);  };
     inline int8_t set(Vector3u16* x) {   return set_from(TCode::VECT_3_UINT16, (void*) x);  };
     inline int8_t set(Vector3u8*  x) {   return set_from(TCode::VECT_3_UINT8,  (void*) x);  };
-- 
2.43.0


From 0d3b1daf2ba5151fe8b8be7d65a42b04be0e7883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:07 +0000
Subject: [PATCH 026/179] fix: A StringBuilder held by a C3PValue must not be
 dereferenced twice

---
 src/C3PValue/C3PType.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index cb6330a..d7c8886 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -2479,11 +2479,7 @@ template <> uint32_t    C3PTypeConstraint<StringBuilder*>::length(void* obj) {
 
 template <> void        C3PTypeConstraint<StringBuilder*>::to_string(void* obj, StringBuilder* out) {
   if (nullptr != obj) {
-    StringBuilder* o = nullptr;
-    memcpy((void*) &o, obj, sizeof(StringBuilder*));
-    if (nullptr != o) {
-      out->concat(o);
-    }
+    out->concat((StringBuilder*) obj);
   }
 }
 
@@ -2495,7 +2491,7 @@ template <> int8_t      C3PTypeConstraint<StringBuilder*>::set_from(void* dest,
       //case TCode::STR:     d = *((char**) src);    return 0;
       case TCode::STR_BUILDER:
         if (nullptr != dest) {
-          memcpy(dest, src, sizeof(StringBuilder*));
+          *((StringBuilder**) dest) = (StringBuilder*) src;
           ret = 0;
         }
         break;
@@ -2546,9 +2542,7 @@ template <> int         C3PTypeConstraint<StringBuilder*>::serialize(void* obj,
       {
         cbor::output_stringbuilder output(out);
         cbor::encoder encoder(output);
-        StringBuilder* o = nullptr;
-        memcpy((void*) &o, obj, sizeof(StringBuilder*));
-        encoder.write_string((char*) o->string());
+        encoder.write_string((char*) ((StringBuilder*) obj)->string());
         ret = 0;   // TODO: Safe SB API.
       }
       break;
-- 
2.43.0


From 4df0c8a3037ac8af51d724fb3171d332cfb096f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:07 +0000
Subject: [PATCH 027/179] fix: Setting a pointer-length value must write its
 shim, rather than over the pointer to it and the members beyond

---
 src/C3PValue/C3PValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index e36717b..31aa17c 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -333,7 +333,7 @@ void* C3PValue::_type_pun_set() {
     //   _target_mem as its dest argument to a set() fxn.
     return &_target_mem;
   }
-  else if (!_is_val_by_ref()) {
+  else if (is_ptr_len() || !_is_val_by_ref()) {
     // Value-by-copy data that didn't fit inside void* will have been indirected
     //   into a separate allocation. Return that pointer.
     return _target_mem;
-- 
2.43.0


From 988dc5a4764d1c443b1855b354628b1dc8907bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:07 +0000
Subject: [PATCH 028/179] fix: C3PValue must refuse to treat a value as pointer
 and length if it is not

---
 src/C3PValue/C3PValue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 31aa17c..4d6d98e 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -382,7 +382,7 @@ int8_t C3PValue::get_as(uint8_t** v, uint32_t* l) {
   int8_t ret = -1;
   if ((nullptr != v) & (nullptr != l)) {
     ret--;
-    if (nullptr != _target_mem) {
+    if ((nullptr != _target_mem) && is_ptr_len()) {
       *v = ((C3PBinBinder*) _target_mem)->buf;
       *l = ((C3PBinBinder*) _target_mem)->len;
       ret = 0;
@@ -394,7 +394,7 @@ int8_t C3PValue::get_as(uint8_t** v, uint32_t* l) {
 // TODO: Audit. Might be wrong-headed.
 int8_t C3PValue::set(uint8_t* src, uint32_t l, const TCode SRC_TYPE) {
   int8_t ret = -1;
-  if (nullptr != _target_mem) {
+  if ((nullptr != _target_mem) && is_ptr_len()) {
     ((C3PBinBinder*) _target_mem)->buf = src;
     ((C3PBinBinder*) _target_mem)->len = l;
     _set_trace++;
-- 
2.43.0


From 8b1008cc35a0138612d69511feb46898dc4ba1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:07 +0000
Subject: [PATCH 029/179] fix: A pointer-length C3PValue must start out empty,
 rather than uninitialized

---
 src/C3PValue/C3PValue.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 4d6d98e..f5a4f0b 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -164,6 +164,8 @@ C3PValue::C3PValue(const TCode TC, void* ptr, uint8_t mem_flgs)
       _target_mem = malloc(sizeof(C3PBinBinder));
       if (nullptr != _target_mem) {
         //((C3PBinBinder*) _target_mem)->tcode = TC;
+        ((C3PBinBinder*) _target_mem)->buf = nullptr;
+        ((C3PBinBinder*) _target_mem)->len = 0;
         _set_flags(true, C3PVAL_MEM_FLAG_VALUE_BY_REF);
         // TODO: Is this the correct choice? We know that we are responsible for
         //   freeing the C3PBinBinder we just created, and I don't want to mix
-- 
2.43.0


From a0c3321a1b5dc69f70110ab4011a8d6986763dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:07 +0000
Subject: [PATCH 030/179] fix: An Image held by a C3PValue must be readable and
 settable

---
 src/C3PValue/C3PType.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index d7c8886..e27e036 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -2807,15 +2807,21 @@ template <> void        C3PTypeConstraint<Image*>::to_string(void* obj, StringBu
 }
 
 template <> int8_t      C3PTypeConstraint<Image*>::set_from(void* dest, const TCode SRC_TYPE, void* src) {
-  switch (SRC_TYPE) {
-    default:  break;
+  if (nullptr != dest) {
+    switch (SRC_TYPE) {
+      case TCode::IMAGE:   *((Image**) dest) = (Image*) src;   return 0;
+      default:  break;
+    }
   }
   return -1;
 }
 
 template <> int8_t      C3PTypeConstraint<Image*>::get_as(void* src, const TCode DEST_TYPE, void* dest) {
-  switch (DEST_TYPE) {
-    default:  break;
+  if (nullptr != dest) {
+    switch (DEST_TYPE) {
+      case TCode::IMAGE:   *((Image**) dest) = (Image*) src;   return 0;
+      default:  break;
+    }
   }
   return -1;
 }
-- 
2.43.0


From 6055d438630d2955112c63e20ab55c2ea734d6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:39 +0000
Subject: [PATCH 031/179] fix: C3PValue must free an owned value when it is
 replaced, and must not free the replacement in its place

---
 src/C3PValue/C3PValue.cpp | 29 +++++++++++++++++++++++++++++
 src/C3PValue/C3PValue.h   |  3 ++-
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index f5a4f0b..6a50888 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -356,7 +356,9 @@ int8_t C3PValue::set_from(const TCode SRC_TYPE, void* src) {
   int8_t ret = -1;
   C3PType* t_helper = getTypeHelper(_TCODE);
   if (nullptr != t_helper) {
+    void* const PRIOR_VAL = _reapable_value();
     ret = t_helper->set_from(_type_pun_set(), SRC_TYPE, src);
+    if (0 == ret) {  _reap_existing_value(PRIOR_VAL);  }
   }
   if (0 == ret) {
     _set_trace++;
@@ -365,6 +367,31 @@ int8_t C3PValue::set_from(const TCode SRC_TYPE, void* src) {
 }
 
 
+/*
+* @return The referenced value that this class will have to free, or nullptr if
+*   there is no such thing.
+*/
+void* C3PValue::_reapable_value() {
+  if ((nullptr == _target_mem) || !_is_val_by_ref() || !reapValue()) {  return nullptr;  }
+  return (is_ptr_len() ? (void*) ((C3PBinBinder*) _target_mem)->buf : _target_mem);
+}
+
+
+/*
+* If the given value is no longer the one we hold, free it. In that case, we
+*   also forget our ownership, since it was not granted for the replacement.
+*/
+void C3PValue::_reap_existing_value(void* prior) {
+  if ((nullptr != prior) && (prior != _reapable_value())) {
+    C3PType* t_helper = getTypeHelper(_TCODE);
+    if (is_ptr_len() || (nullptr == t_helper) || (0 > t_helper->destruct(prior))) {
+      free(prior);  // No destructor semantics. Just free.
+    }
+    reapValue(false);
+  }
+}
+
+
 int8_t C3PValue::set(C3PValue* src) {
   return ((nullptr == src) ? -2 : set_from(src->tcode(), src->_type_pun_get()));
 }
@@ -397,8 +424,10 @@ int8_t C3PValue::get_as(uint8_t** v, uint32_t* l) {
 int8_t C3PValue::set(uint8_t* src, uint32_t l, const TCode SRC_TYPE) {
   int8_t ret = -1;
   if ((nullptr != _target_mem) && is_ptr_len()) {
+    void* const PRIOR_VAL = _reapable_value();
     ((C3PBinBinder*) _target_mem)->buf = src;
     ((C3PBinBinder*) _target_mem)->len = l;
+    _reap_existing_value(PRIOR_VAL);
     _set_trace++;
     ret = 0;
   }
diff --git a/src/C3PValue/C3PValue.h b/src/C3PValue/C3PValue.h
index bd7f6a5..b90eb2f 100644
--- a/src/C3PValue/C3PValue.h
+++ b/src/C3PValue/C3PValue.h
@@ -316,7 +316,8 @@ class C3PValue {
 
 
     KeyValuePair* _next_sib_with_key();
-    void _reap_existing_value();
+    void* _reapable_value();
+    void  _reap_existing_value(void* prior);
 
     void* _type_pun_get();
     void* _type_pun_set();
-- 
2.43.0


From 97ae9c8549f059ba99485607325043e46976c8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:36 +0000
Subject: [PATCH 032/179] fix: A C3PValue that owns a time series must run its
 destructor

---
 src/C3PValue/C3PType.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index e27e036..46f603c 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -28,6 +28,7 @@ This file contains the implementation of type constraints for our wrapped types.
 #include "KeyValuePair.h"
 #include "../StringBuilder.h"
 #include "../TimerTools/TimerTools.h"
+#include "../TimeSeries/TimeSeries.h"
 
 /* CBOR support should probably be required to parse/pack. */
 #if defined(CONFIG_C3P_CBOR)
-- 
2.43.0


From da661c00131b9b50bf15af8e36fa02fc422158f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:38 +0000
Subject: [PATCH 033/179] fix: C3PValue::drop() must destroy a later member,
 too, when asked to

---
 src/C3PValue/C3PValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 6a50888..2562bd1 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -645,7 +645,7 @@ int8_t C3PValue::drop(C3PValue** prior, C3PValue* drop, bool destruct) {
     }
     return 0;
   }
-  return (_next) ? _next->drop(&_next, drop) : -1;
+  return (_next) ? _next->drop(&_next, drop, destruct) : -1;
 }
 
 
-- 
2.43.0


From 04e02152403047645173c88b418eccbf08440ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 034/179] fix: CBOR encoder dropped the low byte of 64-bit
 integers between 256 and 65535

---
 src/cbor-cpp/cbor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 2d01cdc..dbfbc71 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -349,6 +349,7 @@ void encoder::write_type_value64(int major_type, uint64_t value) {
   else if(value < 65536ULL) {
     _out->put_byte((uint8_t) (major_type | 25));
     _out->put_byte((uint8_t) (value >> 8));
+    _out->put_byte((uint8_t) value);
   }
   else if(value < 4294967296ULL) {
     _out->put_byte((uint8_t) (major_type | 26));
-- 
2.43.0


From c261337d8c141bb500e88a9b853abaf340790d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 035/179] fix: CBOR input from a StringBuilder read 16-bit
 values with their bytes swapped

---
 src/cbor-cpp/cbor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index dbfbc71..624f98b 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -70,8 +70,8 @@ uint16_t input_stringbuilder::get_short() {
   if (nullptr != _str_bldr) {
     uint8_t buf[2] = {0, 0};
     const int THIS_SIZE = _str_bldr->copyToBuffer(buf, 2, _offset);
-    value |= ((uint16_t) buf[1] << 8);
-    value |= ((uint16_t) buf[0]);
+    value |= ((uint16_t) buf[0] << 8);
+    value |= ((uint16_t) buf[1]);
     _update_local_vars(THIS_SIZE);
   }
   return value;
-- 
2.43.0


From b3479a8ee0a342ebfa6f8bae0d19bb00b4f6454f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 036/179] fix: CBOR decoder misreported negative integers at
 the edges of their widths

---
 src/cbor-cpp/cbor.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 624f98b..5672c67 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -677,8 +677,8 @@ void decoder::run() {
         switch(_currentLength) {
           case 1:
           {
-            uint8_t diff = _in->get_byte()+1;
-            if (diff < 128u) {
+            const uint16_t diff = (uint16_t) _in->get_byte()+1;
+            if (diff <= 128u) {
               _listener->on_integer((int8_t) -(diff));
             }
             else {
@@ -689,8 +689,8 @@ void decoder::run() {
           break;
           case 2:
           {
-            uint16_t diff = _in->get_short()+1;
-            if (diff < 32768u) {
+            const uint32_t diff = (uint32_t) _in->get_short()+1;
+            if (diff <= 32768u) {
               _listener->on_integer((int16_t) -(diff));
             }
             else {
@@ -703,15 +703,22 @@ void decoder::run() {
           temp = _in->get_int();
           if(temp <= INT32_MAX) {
             _listener->on_integer(((int32_t) -(temp+1)));
-          } else if(temp == 2147483648u) {
-            _listener->on_integer((int32_t) INT32_MIN);
           } else {
-            _listener->on_extra_integer(temp, -1);
+            _listener->on_integer((int64_t) (-1 - (int64_t) temp));
           }
           _state = STATE_TYPE;
           break;
           case 8:
-          _listener->on_integer(_in->get_long());
+          {
+            const uint64_t magnitude = _in->get_long();
+            if (magnitude <= (uint64_t) INT64_MAX) {
+              _listener->on_integer((int64_t) (-1 - (int64_t) magnitude));
+            }
+            else {
+              _listener->on_extra_integer(magnitude, -1);
+            }
+          }
+          _state = STATE_TYPE;
           break;
         }
       } else break;
-- 
2.43.0


From 2e4d9c18d1884a6a799a227d952ac47e7ac5de83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 037/179] fix: CBOR decoder made a zero-length stack array for
 empty byte strings

---
 src/cbor-cpp/cbor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 5672c67..3f60a56 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -745,7 +745,7 @@ void decoder::run() {
       } else break;
     } else if(_state == STATE_BYTES_DATA) {
       if(_in->has_bytes(_currentLength)) {
-        uint8_t data[_currentLength] = {0, };
+        uint8_t data[_currentLength + 1];  // Never zero-length.
         _in->get_bytes(data, _currentLength);
         _state = STATE_TYPE;
         _listener->on_bytes(data, _currentLength);
-- 
2.43.0


From cbec30a42df724f483d0f258154e76db7f632096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 038/179] fix: cbor::output_static deleted a buffer that it got
 from malloc()

---
 src/cbor-cpp/cbor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 3f60a56..d220f84 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -208,7 +208,7 @@ output_static::output_static(uint32_t cap, uint8_t* buf) : _buffer(buf), _capaci
 
 output_static::~output_static() {
   if (_should_free & (nullptr != _buffer)) {
-    delete _buffer;
+    free(_buffer);
     _buffer = nullptr;
   }
 }
-- 
2.43.0


From 35e2bbe31c89d8838af748061089540219d4fda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:32 +0000
Subject: [PATCH 039/179] fix: CBOR decoder took lengths over INT32_MAX for
 negative ones

---
 src/cbor-cpp/cbor.cpp | 44 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index d220f84..a56b4be 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -734,8 +734,15 @@ void decoder::run() {
           _state = STATE_BYTES_DATA;
           break;
           case 4:
-          _currentLength = _in->get_int();
-          _state = STATE_BYTES_DATA;
+          temp = _in->get_int();
+          if (temp < INT32_MAX) {
+            _currentLength = temp;
+            _state = STATE_BYTES_DATA;
+          }
+          else {
+            _state = STATE_ERROR;
+            _listener->on_error("extra long bytes");
+          }
           break;
           case 8:
           _state = STATE_ERROR;
@@ -762,8 +769,15 @@ void decoder::run() {
           _state = STATE_STRING_DATA;
           break;
           case 4:
-          _currentLength = _in->get_int();
-          _state = STATE_STRING_DATA;
+          temp = _in->get_int();
+          if (temp < INT32_MAX) {
+            _currentLength = temp;
+            _state = STATE_STRING_DATA;
+          }
+          else {
+            _state = STATE_ERROR;
+            _listener->on_error("extra long string");
+          }
           break;
           case 8:
           _state = STATE_ERROR;
@@ -791,8 +805,15 @@ void decoder::run() {
           _state = STATE_TYPE;
           break;
           case 4:
-          _listener->on_array(_in->get_int());
-          _state = STATE_TYPE;
+          temp = _in->get_int();
+          if (temp <= INT32_MAX) {
+            _listener->on_array(temp);
+            _state = STATE_TYPE;
+          }
+          else {
+            _state = STATE_ERROR;
+            _listener->on_error("extra long array");
+          }
           break;
           case 8:
           _state = STATE_ERROR;
@@ -812,8 +833,15 @@ void decoder::run() {
           _state = STATE_TYPE;
           break;
           case 4:
-          _listener->on_map(_in->get_int());
-          _state = STATE_TYPE;
+          temp = _in->get_int();
+          if (temp <= INT32_MAX) {
+            _listener->on_map(temp);
+            _state = STATE_TYPE;
+          }
+          else {
+            _state = STATE_ERROR;
+            _listener->on_error("extra long map");
+          }
           break;
           case 8:
           _state = STATE_ERROR;
-- 
2.43.0


From f132c7294389bdcdba81c9ecf0178aaf6bc4bb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:16 +0000
Subject: [PATCH 040/179] fix: CBOR decoder dropped an empty string at the end
 of an input that is consumed with its container

---
 src/cbor-cpp/cbor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index a56b4be..ddc7611 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -51,7 +51,7 @@ bool input_stringbuilder::has_bytes(int count) {
   if (nullptr != _str_bldr) {
     return ((_str_bldr->length() - (_consume_input ? 0 : _offset)) >= count);
   }
-  return false;
+  return (0 >= count);  // Nothing is left of a consumed input.
 }
 
 
-- 
2.43.0


From a1a76988cca2e119d98fac793487f403dc8eea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:50 +0000
Subject: [PATCH 041/179] fix: C3PValueDecoder read zeros past the end of its
 input, and made values of them

---
 src/C3PValue/C3PValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 2562bd1..6db777f 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -853,7 +853,7 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
   uint32_t local_offset  = *offset;
   bool consume_without_value = false;
 
-  if (INPUT_LEN > 0) {
+  if (INPUT_LEN > local_offset) {
     uint64_t _length_extra  = 0;   // Length of data specified by the length field above.
     const uint8_t C_TYPE    = _in->byteAt(local_offset++);   // The first byte
     const uint8_t MAJORTYPE = (uint8_t) (C_TYPE >> 5);
-- 
2.43.0


From e0be73a955de75ca4923c41a3b8495f567b5ed70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:50 +0000
Subject: [PATCH 042/179] fix: C3PValueDecoder could not read empty strings,
 blobs and keys

---
 src/C3PValue/C3PValue.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 6db777f..28eb78b 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -875,6 +875,7 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
         }
         else {
           c3p_log(LOG_LEV_WARN, LOCAL_LOG_TAG, "Invalid MAJ/MIN combination (0x%02x/0x%02x)", MAJORTYPE, MINORTYPE);
+          if (7 != MAJORTYPE) {  return nullptr;  }
         }
         break;
     }
@@ -882,7 +883,7 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
 
     // For types that observe _length_extra, they will generally also want to
     //   know if there are enough bytes to satisfy the parse.
-    const bool HAVE_EXTRA_LEN = ((_length_extra > 0) & (INPUT_LEN >= (local_offset + _length_extra32)));
+    const bool HAVE_EXTRA_LEN = (_length_extra <= (INPUT_LEN - local_offset));
 
     // Second pass. Form a return object, if possible.
     switch (MAJORTYPE) {
@@ -932,9 +933,9 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
 
       case 2:  // Raw bytes
         if (HAVE_EXTRA_LEN) {
-          uint8_t* new_buf = (uint8_t*) malloc(_length_extra32);
+          uint8_t* new_buf = (uint8_t*) malloc(_length_extra32 + 1);
           if (nullptr != new_buf) {
-            if ((int32_t) _length_extra32 == _in->copyToBuffer(new_buf, _length_extra32, local_offset)) {
+            if ((0 == _length_extra32) || ((int32_t) _length_extra32 == _in->copyToBuffer(new_buf, _length_extra32, local_offset))) {
               value = new C3PValue(new_buf, _length_extra32);
               if (nullptr != value) {
                 value->reapValue(true);
@@ -953,7 +954,7 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
           // If there are enough bytes to satisfy the parse...
           uint8_t new_buf[_length_extra32+1];
           *(new_buf + _length_extra32) = '\0';
-          if ((int32_t) _length_extra32 == _in->copyToBuffer(new_buf, _length_extra32, local_offset)) {
+          if ((0 == _length_extra32) || ((int32_t) _length_extra32 == _in->copyToBuffer(new_buf, _length_extra32, local_offset))) {
             value = new C3PValue((char*) new_buf);
             if (nullptr != value) {
               local_offset += _length_extra32;
@@ -1081,7 +1082,7 @@ C3PValue* C3PValueDecoder::_handle_map(uint32_t* offset, uint32_t count) {
         if (INPUT_LEN >= (local_offset + len_key + 1)) {  // +1 for the value byte.
           uint8_t buf_key[len_key+1];
           *(buf_key + len_key) = '\0';
-          if ((int32_t) len_key == _in->copyToBuffer(buf_key, len_key, local_offset)) {
+          if ((0 == len_key) || ((int32_t) len_key == _in->copyToBuffer(buf_key, len_key, local_offset))) {
             local_offset += len_key;
             // Now the dangerous part. Recurse into next(), and parse out the
             //  next C3PValue.
-- 
2.43.0


From 44775d1d3651da71bf4f224e9a5e427a9d796cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 043/179] fix: C3PValueDecoder truncated lengths, counts and
 tags to 32 bits, and overflowed on the large ones

---
 src/C3PValue/C3PValue.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 28eb78b..0b4f69b 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -963,17 +963,22 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
         }
         break;
 
-      case 4:  value = _handle_array(&local_offset, _length_extra32);  break;
+      case 4:
+        // Every element takes at least one byte.
+        if (HAVE_EXTRA_LEN) {
+          value = _handle_array(&local_offset, _length_extra32);
+        }
+        break;
       case 5:
         // Only bother parsing further if we have enough bytes to satisfy the
         //   minimum length requirement for a map of the stated length, assuming
-        //   two bytes per map entry. TODO: Are 0-length string allowed here?
-        if (INPUT_LEN >= (local_offset + (_length_extra32 * 2))) {
+        //   two bytes per map entry.
+        if (_length_extra <= ((INPUT_LEN - local_offset) >> 1)) {
           value = _handle_map(&local_offset, _length_extra32);
         }
         break;
       case 6:
-        if (C3P_CBOR_VENDOR_CODE == (_length_extra32 & 0xFFFFFF00)) {
+        if (C3P_CBOR_VENDOR_CODE == (_length_extra & ~((uint64_t) 0xFF))) {
           // We noticed our vendor code, mask it off and see if see have a type
           //   helper for it.
           const TCode TC = IntToTcode(_length_extra32 & 0x000000FF);
@@ -1078,8 +1083,8 @@ C3PValue* C3PValueDecoder::_handle_map(uint32_t* offset, uint32_t count) {
     if (3 == MAJOR) {  // The next byte must be a proper CBOR string.
       uint64_t len_key64 = 0;
       if (_get_length_field(&local_offset, &len_key64, MINOR)) {
-        len_key = (uint32_t) len_key64;
-        if (INPUT_LEN >= (local_offset + len_key + 1)) {  // +1 for the value byte.
+        if (len_key64 < (INPUT_LEN - local_offset)) {  // There must also be a value byte.
+          len_key = (uint32_t) len_key64;
           uint8_t buf_key[len_key+1];
           *(buf_key + len_key) = '\0';
           if ((0 == len_key) || ((int32_t) len_key == _in->copyToBuffer(buf_key, len_key, local_offset))) {
-- 
2.43.0


From 8f1cc473fec407cdda47cd3fcb40fb6888e0f0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 044/179] fix: C3PValueDecoder took the content of a CBOR
 simple value for the length of something

---
 src/C3PValue/C3PValue.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 0b4f69b..8edffbd 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -1001,9 +1001,7 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
           case 23:  value = new C3PValue(TCode::NONE);  break;  // CBOR "undefined"
 
           case 24:  case 25:
-            if (HAVE_EXTRA_LEN) {
-              consume_without_value = true;  //_listener->on_special(_length_extra);
-            }
+            consume_without_value = true;  //_listener->on_special(_length_extra);
             break;
           case 26:  value = new C3PValue(*((float*)(void*) &_length_extra32));  break;
           case 27:  value = new C3PValue(*((double*)(void*) &_length_extra));   break;
-- 
2.43.0


From e778a8a75da1277a0761665461126d235754542e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:39 +0000
Subject: [PATCH 045/179] fix: C3PValueDecoder put strings and keys of any
 length on the stack

---
 src/C3PValue/C3PValue.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 8edffbd..1595d49 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -952,13 +952,17 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
       case 3:  // String
         if (HAVE_EXTRA_LEN) {
           // If there are enough bytes to satisfy the parse...
-          uint8_t new_buf[_length_extra32+1];
-          *(new_buf + _length_extra32) = '\0';
-          if ((0 == _length_extra32) || ((int32_t) _length_extra32 == _in->copyToBuffer(new_buf, _length_extra32, local_offset))) {
-            value = new C3PValue((char*) new_buf);
-            if (nullptr != value) {
-              local_offset += _length_extra32;
+          // NOTE: Heap, because the length belongs to whomever wrote the input.
+          uint8_t* new_buf = (uint8_t*) malloc(_length_extra32 + 1);
+          if (nullptr != new_buf) {
+            *(new_buf + _length_extra32) = '\0';
+            if ((0 == _length_extra32) || ((int32_t) _length_extra32 == _in->copyToBuffer(new_buf, _length_extra32, local_offset))) {
+              value = new C3PValue((char*) new_buf);
+              if (nullptr != value) {
+                local_offset += _length_extra32;
+              }
             }
+            free(new_buf);  // The value has its own copy.
           }
         }
         break;
@@ -1083,7 +1087,9 @@ C3PValue* C3PValueDecoder::_handle_map(uint32_t* offset, uint32_t count) {
       if (_get_length_field(&local_offset, &len_key64, MINOR)) {
         if (len_key64 < (INPUT_LEN - local_offset)) {  // There must also be a value byte.
           len_key = (uint32_t) len_key64;
-          uint8_t buf_key[len_key+1];
+          // NOTE: Heap, because the length belongs to whomever wrote the input.
+          uint8_t* buf_key = (uint8_t*) malloc(len_key + 1);
+          if (nullptr == buf_key) {  continue;  }
           *(buf_key + len_key) = '\0';
           if ((0 == len_key) || ((int32_t) len_key == _in->copyToBuffer(buf_key, len_key, local_offset))) {
             local_offset += len_key;
@@ -1143,6 +1149,7 @@ C3PValue* C3PValueDecoder::_handle_map(uint32_t* offset, uint32_t count) {
               }
             }
           }
+          free(buf_key);  // The pair has its own copy.
         }
       }
     }
-- 
2.43.0


From ebd92b4cce5c1007e1502912c35d4ea8bf797dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:39 +0000
Subject: [PATCH 046/179] fix: C3PValueDecoder made positive numbers of those
 below INT64_MIN

---
 src/C3PValue/C3PValue.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 1595d49..f868180 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -920,7 +920,9 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
             else {                                 value = new C3PValue((int64_t) -(_length_extra+1));  }
             break;
           case 27:
-            value = new C3PValue((int64_t) -(_length_extra+1));
+            if (_length_extra <= (uint64_t) INT64_MAX) {   // Otherwise, no type can hold it.
+              value = new C3PValue((int64_t) -(_length_extra+1));
+            }
             break;
           default:
             if (MINORTYPE < 24) {
-- 
2.43.0


From 0132857909f12454e4c75e2fbe020d08fea60e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:52 +0000
Subject: [PATCH 047/179] fix: C3PValueDecoder recursed as deeply as its input
 demanded

---
 src/C3PValue/C3PValue.cpp | 14 ++++++++++----
 src/C3PValue/C3PValue.h   |  8 +++++++-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index f868180..1ad775b 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -971,16 +971,20 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
 
       case 4:
         // Every element takes at least one byte.
-        if (HAVE_EXTRA_LEN) {
+        if (HAVE_EXTRA_LEN && (_depth < C3PVAL_DECODER_MAX_DEPTH)) {
+          _depth++;
           value = _handle_array(&local_offset, _length_extra32);
+          _depth--;
         }
         break;
       case 5:
         // Only bother parsing further if we have enough bytes to satisfy the
         //   minimum length requirement for a map of the stated length, assuming
         //   two bytes per map entry.
-        if (_length_extra <= ((INPUT_LEN - local_offset) >> 1)) {
+        if ((_length_extra <= ((INPUT_LEN - local_offset) >> 1)) && (_depth < C3PVAL_DECODER_MAX_DEPTH)) {
+          _depth++;
           value = _handle_map(&local_offset, _length_extra32);
+          _depth--;
         }
         break;
       case 6:
@@ -989,11 +993,13 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
           //   helper for it.
           const TCode TC = IntToTcode(_length_extra32 & 0x000000FF);
           C3PType* t_helper = getTypeHelper(TC);
-          if (nullptr != t_helper) {
+          if ((nullptr != t_helper) && (_depth < C3PVAL_DECODER_MAX_DEPTH)) {
             // We have a type that matches what was encoded. Try to deserialize.
+            _depth++;
             value = _handle_tag(&local_offset, t_helper);
+            _depth--;
           }
-          else {
+          else if (nullptr == t_helper) {
             c3p_log(LOG_LEV_WARN, LOCAL_LOG_TAG, "No C3PType for TCode (0x%02x)", (uint8_t) TC);
           }
         }
diff --git a/src/C3PValue/C3PValue.h b/src/C3PValue/C3PValue.h
index b90eb2f..031d4e7 100644
--- a/src/C3PValue/C3PValue.h
+++ b/src/C3PValue/C3PValue.h
@@ -87,6 +87,11 @@ For now, just know what the costs are, and don't expend the overhead unless you
 #define C3PVAL_MEM_FLAG_IS_COMPOUND    0x40  // If true, appended data will be construed as an array or map.
 #define C3PVAL_MEM_FLAG_ERR_MEM        0x80  // A memory error occured during basic class operations. Usually an allocation.
 
+/* How deeply will C3PValueDecoder follow containers within containers? */
+#ifndef C3PVAL_DECODER_MAX_DEPTH
+  #define C3PVAL_DECODER_MAX_DEPTH     64
+#endif
+
 
 /*
 * Including within a header file costs build time and muddies static analysis.
@@ -338,7 +343,7 @@ class C3PValue {
 */
 class C3PValueDecoder {
   public:
-    C3PValueDecoder(StringBuilder* in) : _in(in) {};
+    C3PValueDecoder(StringBuilder* in) : _in(in), _depth(0) {};
     ~C3PValueDecoder() {};   // This class itself holds no heap-related state.
 
     C3PValue* next(bool consume_unparsable = false);
@@ -346,6 +351,7 @@ class C3PValueDecoder {
 
   private:
     StringBuilder* _in;
+    uint8_t        _depth;   // How many containers we are presently within.
 
     bool       _get_length_field(uint32_t* offset, uint64_t* val_ret, uint8_t minorType);
     C3PValue*  _next(uint32_t* offset);
-- 
2.43.0


From e71d10247a9083c505f23a51b17f813b9f4962ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:08 +0000
Subject: [PATCH 048/179] fix: three-axis vectors were read from blobs of any
 length

---
 src/C3PValue/C3PType.cpp | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 46f603c..c77ba8c 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -1848,7 +1848,10 @@ template <> int8_t      C3PTypeConstraint<Vector3f64>::set_from(void* dest, cons
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3f64**) src)));   return 0;
+      case TCode::BINARY:
+        if (sizeof(Vector3f64) != ((C3PBinBinder*) src)->len) {  return -1;  }
+        _store_in_mem(dest, _load_from_mem(*((Vector3f64**) src)));
+        return 0;
       default:  break;
     }
   }
@@ -1914,7 +1917,10 @@ template <> int8_t      C3PTypeConstraint<Vector3u8>::set_from(void* dest, const
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3u8**) src)));   return 0;
+      case TCode::BINARY:
+        if (sizeof(Vector3u8) != ((C3PBinBinder*) src)->len) {  return -1;  }
+        _store_in_mem(dest, _load_from_mem(*((Vector3u8**) src)));
+        return 0;
       default:  break;
     }
   }
@@ -1980,7 +1986,10 @@ template <> int8_t      C3PTypeConstraint<Vector3i8>::set_from(void* dest, const
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3i8**) src)));   return 0;
+      case TCode::BINARY:
+        if (sizeof(Vector3i8) != ((C3PBinBinder*) src)->len) {  return -1;  }
+        _store_in_mem(dest, _load_from_mem(*((Vector3i8**) src)));
+        return 0;
       default:  break;
     }
   }
@@ -2051,7 +2060,10 @@ template <> int8_t      C3PTypeConstraint<Vector3f>::set_from(void* dest, const
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3f**) src)));   return 0;
+      case TCode::BINARY:
+        if (sizeof(Vector3f) != ((C3PBinBinder*) src)->len) {  return -1;  }
+        _store_in_mem(dest, _load_from_mem(*((Vector3f**) src)));
+        return 0;
       default:  break;
     }
   }
@@ -2135,7 +2147,10 @@ template <> int8_t      C3PTypeConstraint<Vector3u32>::set_from(void* dest, cons
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3u32**) src)));   return 0;
+      case TCode::BINARY:
+        if (sizeof(Vector3u32) != ((C3PBinBinder*) src)->len) {  return -1;  }
+        _store_in_mem(dest, _load_from_mem(*((Vector3u32**) src)));
+        return 0;
       default:  break;
     }
   }
@@ -2201,7 +2216,10 @@ template <> int8_t      C3PTypeConstraint<Vector3i32>::set_from(void* dest, cons
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3i32**) src)));   return 0;
+      case TCode::BINARY:
+        if (sizeof(Vector3i32) != ((C3PBinBinder*) src)->len) {  return -1;  }
+        _store_in_mem(dest, _load_from_mem(*((Vector3i32**) src)));
+        return 0;
       default:  break;
     }
   }
@@ -2267,7 +2285,10 @@ template <> int8_t      C3PTypeConstraint<Vector3u16>::set_from(void* dest, cons
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3u16**) src)));   return 0;
+      case TCode::BINARY:
+        if (sizeof(Vector3u16) != ((C3PBinBinder*) src)->len) {  return -1;  }
+        _store_in_mem(dest, _load_from_mem(*((Vector3u16**) src)));
+        return 0;
       default:  break;
     }
   }
@@ -2333,7 +2354,10 @@ template <> int8_t      C3PTypeConstraint<Vector3i16>::set_from(void* dest, cons
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3i16**) src)));   return 0;
+      case TCode::BINARY:
+        if (sizeof(Vector3i16) != ((C3PBinBinder*) src)->len) {  return -1;  }
+        _store_in_mem(dest, _load_from_mem(*((Vector3i16**) src)));
+        return 0;
       default:  break;
     }
   }
-- 
2.43.0


From 51d61e98f3609cb3cf2c7a3488b45968dd4a499a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:30 +0000
Subject: [PATCH 049/179] fix: arrays of 8-bit integers were written under the
 CBOR tags for clamped and reserved types

---
 src/cbor-cpp/cbor.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index ddc7611..3f23040 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -448,7 +448,9 @@ int8_t encoder::write_typed_array(const uint32_t TAG_VAL, const void* PTR, const
   }
   const uint32_t BYTE_COUNT = (COUNT * t_size);
   if (0 < BYTE_COUNT) {
-    write_type_value(6, (TAG_VAL + (PF_IS_LITTLE_ENDIAN ? 4:0)));
+    // Single-byte types have no order. What would be their little-endian tags
+    //   mean other things (RFC 8746).
+    write_type_value(6, (TAG_VAL + ((PF_IS_LITTLE_ENDIAN && (1 < t_size)) ? 4:0)));
     write_bytes((const uint8_t*) PTR, BYTE_COUNT);
     return 0;
   }
-- 
2.43.0


From c6d183555cb38e6ef18ca8b419a98f86734daf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:22 +0000
Subject: [PATCH 050/179] fix: C3PValueDecoder ignored which tag a vector's
 array has, and whether its content fits

---
 src/C3PValue/C3PValue.cpp | 41 +++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 1ad775b..1bcc635 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -1181,6 +1181,31 @@ C3PValue* C3PValueDecoder::_handle_map(uint32_t* offset, uint32_t count) {
 }
 
 
+/*
+* Does the given tag mark a CBOR typed array (RFC 8746) which has the elements
+*   and the byte order of the given type, as it is held by this platform?
+*/
+static bool _typed_array_tag_matches(const TCode TC, const uint64_t TAG_VAL) {
+  uint64_t be_tag = 0;
+  switch (TC) {
+    // NOTE: Prior versions added the byte-order to the single-byte types.
+    case TCode::VECT_3_UINT8:   return ((64 == TAG_VAL) | (68 == TAG_VAL));
+    case TCode::VECT_3_INT8:    return ((72 == TAG_VAL) | (76 == TAG_VAL));
+    case TCode::VECT_3_UINT16:  be_tag = 65;  break;
+    case TCode::VECT_3_UINT32:  be_tag = 66;  break;
+    case TCode::VECT_3_INT16:   be_tag = 73;  break;
+    case TCode::VECT_3_INT32:   be_tag = 74;  break;
+    case TCode::VECT_3_FLOAT:   be_tag = 81;  break;
+    case TCode::VECT_3_DOUBLE:  be_tag = 82;  break;
+    default:  return false;
+  }
+  #if (__BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__)
+    be_tag += 4;
+  #endif
+  return (TAG_VAL == be_tag);
+}
+
+
 C3PValue* C3PValueDecoder::_handle_tag(uint32_t* offset, C3PType* t_helper) {
   const uint32_t INPUT_LEN = _in->length();
   uint32_t local_offset    = *offset;
@@ -1222,9 +1247,14 @@ C3PValue* C3PValueDecoder::_handle_tag(uint32_t* offset, C3PType* t_helper) {
     }
     else if (6 == MAJOR) {
       // If it wasn't a map, but was a nested tag, it means we should recurse.
-      local_offset++;  // TODO: This is not correct, and only works because of coincidence.
-      local_offset++;  //   Need to handle differrent tag lengths differently.
-      C3PValue* inner_tagged_val = _next(&local_offset);
+      uint64_t inner_tag = 0;
+      C3PValue* inner_tagged_val = nullptr;
+      local_offset++;
+      if (((CTYPE & 31) < 28) && _get_length_field(&local_offset, &inner_tag, (CTYPE & 31))) {
+        if (_typed_array_tag_matches(t_helper->TCODE, inner_tag)) {
+          inner_tagged_val = _next(&local_offset);
+        }
+      }
       if (nullptr != inner_tagged_val) {
         //StringBuilder tmp_sb;
         //tmp_sb.concatf("Decoded %s (Nested tag 0x%02x):", t_helper->NAME, CTYPE);
@@ -1233,7 +1263,10 @@ C3PValue* C3PValueDecoder::_handle_tag(uint32_t* offset, C3PType* t_helper) {
         ret = new C3PValue(t_helper->TCODE, nullptr, MEM_FLGS);
         if (nullptr != ret) {
           // TODO: Hopefully C3PValue knows what to do with this?
-          ret->set(inner_tagged_val);
+          if ((TCode::BINARY != inner_tagged_val->tcode()) || (0 != ret->set(inner_tagged_val))) {
+            delete ret;
+            ret = nullptr;
+          }
         }
         delete inner_tagged_val;
       }
-- 
2.43.0


From 46b5e0713f5436f07d51770758e17a2ac67a06a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:22 +0000
Subject: [PATCH 051/179] fix: C3PValueDecoder leaked each blob in a map

---
 src/C3PValue/C3PValue.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 1bcc635..cd473cd 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -1130,6 +1130,7 @@ C3PValue* C3PValueDecoder::_handle_map(uint32_t* offset, uint32_t count) {
                       // We might have just taken something with its own
                       //   life-cycle from the parser. We don't want it to be
                       //   free'd when its container is reaped.
+                      tmp_kvp->reapValue(value->reapValue());
                       value->reapValue(false);
                       // There may have been other values attached. Take them as well.
                       C3PValue* tagalong = value->nextValue();
-- 
2.43.0


From 860e93d2ffe3b7c26d0c1bc5f5859fe625191c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:55 +0000
Subject: [PATCH 052/179] fix: C3PValueDecoder refused each map with a null in
 it

---
 src/C3PValue/C3PValue.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index cd473cd..8a8b403 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -1108,7 +1108,9 @@ C3PValue* C3PValueDecoder::_handle_map(uint32_t* offset, uint32_t count) {
               // If it came back non-null, then it means the buffer was consumed
               //   up-to the point where the object became fully-defined.
               KeyValuePair* tmp_kvp = nullptr;
-              if (!value->memError()) {
+              // NOTE: A CBOR null has no C3PType, and so always indicates a fault.
+              const bool VALUE_IS_NULL = (TCode::NONE == value->tcode());
+              if (VALUE_IS_NULL || !value->memError()) {
                 // TODO: Implement isCompound() instead of this mess.
                 if (value->has_key()) {
                   // We have to reallocate the container to allow for a key.
@@ -1125,8 +1127,7 @@ C3PValue* C3PValueDecoder::_handle_map(uint32_t* offset, uint32_t count) {
                     (C3PVAL_MEM_FLAG_REAP_VALUE | C3PVAL_MEM_FLAG_REAP_KEY | C3PVAL_MEM_FLAG_REAP_CNTNR)
                   );
                   if (tmp_kvp) {
-                    const int8_t SET_RET = tmp_kvp->set(value);
-                    if (0 == SET_RET) {
+                    if (VALUE_IS_NULL || (0 == tmp_kvp->set(value))) {
                       // We might have just taken something with its own
                       //   life-cycle from the parser. We don't want it to be
                       //   free'd when its container is reaped.
@@ -1139,6 +1140,10 @@ C3PValue* C3PValueDecoder::_handle_map(uint32_t* offset, uint32_t count) {
                         value->unlink(tagalong, false);
                       }
                     }
+                    else {
+                      delete tmp_kvp;
+                      tmp_kvp = nullptr;
+                    }
                   }
                 }
               }
-- 
2.43.0


From e518833e29414ec3e2ca23dea1a9c5d6971cc429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:14 +0000
Subject: [PATCH 053/179] fix: C3PValueDecoder took a vector's content from
 within other containers

---
 src/C3PValue/C3PValue.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 8a8b403..5b20800 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -1257,7 +1257,8 @@ C3PValue* C3PValueDecoder::_handle_tag(uint32_t* offset, C3PType* t_helper) {
       C3PValue* inner_tagged_val = nullptr;
       local_offset++;
       if (((CTYPE & 31) < 28) && _get_length_field(&local_offset, &inner_tag, (CTYPE & 31))) {
-        if (_typed_array_tag_matches(t_helper->TCODE, inner_tag)) {
+        // The content of a typed array is a byte string.
+        if (_typed_array_tag_matches(t_helper->TCODE, inner_tag) && (2 == (_in->byteAt(local_offset) >> 5))) {
           inner_tagged_val = _next(&local_offset);
         }
       }
-- 
2.43.0


From a19675d9cc33d03576cdb5550889913ce295f4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:04 +0000
Subject: [PATCH 054/179] fix: parsing a TimeSeries wrote values of any type
 over fixed-size variables

---
 src/TimeSeries/TimeSeries.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/TimeSeries/TimeSeries.cpp b/src/TimeSeries/TimeSeries.cpp
index 1245479..25797dc 100644
--- a/src/TimeSeries/TimeSeries.cpp
+++ b/src/TimeSeries/TimeSeries.cpp
@@ -257,16 +257,19 @@ template <> int8_t C3PTypeConstraint<TimeSeriesBase*>::construct(void* _obj, Key
     ret--;
     // Always take win, because it may indicate a re-windowing.
     uint32_t win_sz = 0;
-    const bool CONTAINED_WIN_KEY = (0 == kvp->valueWithKey("win", &win_sz));
+    // NOTE: The types of the values were not chosen by us. Always convert them.
+    KeyValuePair* win_kvp = kvp->valueWithKey("win");
+    const bool CONTAINED_WIN_KEY = ((nullptr != win_kvp) && (0 == win_kvp->get_as(&win_sz)));
 
     TimeSeriesBase* obj = *((TimeSeriesBase**) _obj);
     if (nullptr == obj) {
       // TimeSeriesBase requires tc in order to allocate, and having windowSize
       //   up-front is also helpful (but not required). If the key isn't in the
       //   received structure, it will be left as zero.
-      TCode tc_val = TCode::NONE;
-      if (0 == kvp->valueWithKey("tc", (uint8_t*) &tc_val)) {
-        switch (tc_val) {
+      uint8_t tc_val = 0;
+      KeyValuePair* tc_kvp = kvp->valueWithKey("tc");
+      if ((nullptr != tc_kvp) && (0 == tc_kvp->get_as(&tc_val))) {
+        switch (IntToTcode(tc_val)) {
           case TCode::UINT8:   obj = (TimeSeriesBase*) new TimeSeries<uint8_t>(win_sz);   break;
           case TCode::UINT16:  obj = (TimeSeriesBase*) new TimeSeries<uint16_t>(win_sz);  break;
           case TCode::UINT32:  obj = (TimeSeriesBase*) new TimeSeries<uint32_t>(win_sz);  break;
@@ -296,8 +299,10 @@ template <> int8_t C3PTypeConstraint<TimeSeriesBase*>::construct(void* _obj, Key
       // First: Do the order invariant things.
       char* name_val   = nullptr;
       char* unit_val   = nullptr;
-      kvp->valueWithKey("n", &name_val);
-      kvp->valueWithKey("u", &unit_val);
+      KeyValuePair* name_kvp = kvp->valueWithKey("n");
+      KeyValuePair* unit_kvp = kvp->valueWithKey("u");
+      if (name_kvp) {  name_kvp->get_as(&name_val);     }
+      if (unit_kvp) {  unit_kvp->get_as(&unit_val);     }
       if (name_val) {  obj->name(name_val);             }
       if (unit_val) {  obj->units((SIUnit*) unit_val);  }
 
@@ -307,11 +312,13 @@ template <> int8_t C3PTypeConstraint<TimeSeriesBase*>::construct(void* _obj, Key
         obj->windowSize(win_sz);  // This will initialize, as well.
       }
 
-      kvp->valueWithKey("ttl", &(obj->_samples_total));
+      KeyValuePair* ttl_kvp = kvp->valueWithKey("ttl");
+      if (ttl_kvp) {  ttl_kvp->get_as(&(obj->_samples_total));  }
 
       uint32_t idx_val = 0;
       C3PValue* dat_val = kvp->valueWithKey("dat");
-      const bool CONTAINED_IDX_KEY = (0 == kvp->valueWithKey("idx", &idx_val));
+      KeyValuePair* idx_kvp = kvp->valueWithKey("idx");
+      const bool CONTAINED_IDX_KEY = ((nullptr != idx_kvp) && (0 == idx_kvp->get_as(&idx_val)));
       if (CONTAINED_IDX_KEY & (nullptr != dat_val)) {
         // The dat and idx keys go together, and refer to the (samples)
         //   beginning at the (absolute index), respectively.
-- 
2.43.0


From a8c444d4c6fc2050d305697888b76a586e71eeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:53 +0000
Subject: [PATCH 055/179] fix: TimeSeries overflowed the size of its memory for
 a very long window

---
 src/TimeSeries/TimeSeries.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index 350956a..70fb94e 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -354,7 +354,7 @@ template <class T> int8_t TimeSeries<T>::_reallocate_sample_window(uint32_t win)
         samples = nullptr;
       }
       if (win > 0) {
-        samples = (T*) malloc(win * sizeof(T));
+        samples = (T*) ((win <= (UINT32_MAX / sizeof(T))) ? malloc(win * sizeof(T)) : nullptr);
         if (nullptr != samples) {
           _window_size = win;
           ret = _zero_samples();
@@ -736,7 +736,7 @@ template <class T> int8_t TimeSeries3<T>::_reallocate_sample_window(uint32_t win
         samples = nullptr;
       }
       if (win > 0) {
-        samples = (T*) malloc(win * sizeof(Vector3<T>));
+        samples = (Vector3<T>*) ((win <= (UINT32_MAX / sizeof(Vector3<T>))) ? malloc(win * sizeof(Vector3<T>)) : nullptr);
         if (nullptr != samples) {
           _window_size = win;
           ret = _zero_samples();
-- 
2.43.0


From b4ae670aff0d71207636851130d05d45e2f2a94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:31 +0000
Subject: [PATCH 056/179] fix: long chains of values overflowed the stack when
 they were linked, counted or destroyed

---
 src/C3PValue/C3PValue.cpp | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 5b20800..00ee2d5 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -207,12 +207,14 @@ C3PValue::~C3PValue() {
   }
 
   // Wipe out any chain of siblings.
-  if (nullptr != _next) {
-    C3PValue* a = _next;       // Concurrency measures being taken here. Null
-    _next       = nullptr;     //   the accessible ref prior to deleting it.
-    if (a->reapContainer()) {  // If we SHOULD delete it, that is...
-      delete a;
-    }
+  // NOTE: Not recursive, because chains can be longer than the stack is deep.
+  C3PValue* a = _next;       // Concurrency measures being taken here. Null
+  _next       = nullptr;     //   the accessible ref prior to deleting it.
+  while ((nullptr != a) && a->reapContainer()) {  // If we SHOULD delete it, that is...
+    C3PValue* b = a->_next;
+    a->_next    = nullptr;
+    delete a;
+    a = b;
   }
 
   // Finally, Turn our attention to the data we ourselves hold.
@@ -594,15 +596,12 @@ KeyValuePair* C3PValue::_next_sib_with_key() {
 * @param linked_val is the value to link as a sibling.
 */
 C3PValue* C3PValue::link(C3PValue* linked_val, bool reap_cont) {
-  if (nullptr == _next) {
-    if (nullptr != linked_val) {
-      linked_val->reapContainer(reap_cont);
-    }
-    _next = linked_val;
-  }
-  else {
-    _next->link(linked_val, reap_cont);
+  C3PValue* tail = this;
+  while (nullptr != tail->_next) {  tail = tail->_next;  }
+  if (nullptr != linked_val) {
+    linked_val->reapContainer(reap_cont);
   }
+  tail->_next = linked_val;
   return linked_val;
 }
 
@@ -623,7 +622,9 @@ int8_t C3PValue::unlink(C3PValue* linked_val, bool destruct) {
 * @return The number of sibling values.
 */
 uint32_t C3PValue::count() {
-  return (1 + ((nullptr == _next) ? 0 : _next->count()));
+  uint32_t ret = 1;
+  for (C3PValue* v = _next; nullptr != v; v = v->_next) {  ret++;  }
+  return ret;
 }
 
 
-- 
2.43.0


From 4ccd52f75f8f81a62446e5e88c48436a4866ef89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:31 +0000
Subject: [PATCH 057/179] fix: the time to parse a CBOR array or map grew with
 the square of its length

---
 src/C3PValue/C3PValue.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 00ee2d5..e69c9a1 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -1042,7 +1042,8 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
 C3PValue* C3PValueDecoder::_handle_array(uint32_t* offset, uint32_t count) {
   const uint32_t INPUT_LEN = _in->length();
   uint32_t local_offset    = *offset;
-  C3PValue* ret = nullptr;
+  C3PValue* ret  = nullptr;
+  C3PValue* tail = nullptr;   // So that a long array isn't walked for each element.
   bool bailout = false;
 
   while (!bailout & (count > 0)) {
@@ -1053,7 +1054,8 @@ C3PValue* C3PValueDecoder::_handle_array(uint32_t* offset, uint32_t count) {
       // For now, we handle this with a sloppy grouping of the elements.
       //   This might, after all, be a heterogenously typed array.
       if (nullptr == ret) {  ret = value;       }
-      else {                 ret->link(value);  }
+      else {                 tail->link(value);  }
+      tail = value;
       bailout = false;
     }
     count--;
@@ -1081,7 +1083,8 @@ C3PValue* C3PValueDecoder::_handle_array(uint32_t* offset, uint32_t count) {
 */
 C3PValue* C3PValueDecoder::_handle_map(uint32_t* offset, uint32_t count) {
   const uint32_t INPUT_LEN = _in->length();
-  KeyValuePair* ret = nullptr;
+  KeyValuePair* ret  = nullptr;
+  KeyValuePair* tail = nullptr;   // So that a long map isn't walked for each pair.
   uint32_t local_offset    = *offset;
   uint32_t len_key         = 0;
   bool bailout = false;
@@ -1154,8 +1157,9 @@ C3PValue* C3PValueDecoder::_handle_map(uint32_t* offset, uint32_t count) {
                   ret = tmp_kvp;
                 }
                 else {
-                  ret->link(tmp_kvp, true);
+                  tail->link(tmp_kvp, true);
                 }
+                tail = tmp_kvp;
                 bailout = false;
               }
 
-- 
2.43.0


From b65a18c856d2134c363e17087ba3e5b282449b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:43 +0000
Subject: [PATCH 058/179] fix: blobs were serialized as the bytes of the
 pointer to them, and of what follows it

---
 src/C3PValue/C3PType.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index c77ba8c..b4ed582 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -2634,6 +2634,29 @@ template <> int8_t      C3PTypeConstraint<C3PBinBinder>::get_as(void* src, const
   return -1;
 }
 
+template <> int         C3PTypeConstraint<C3PBinBinder>::serialize(void* obj, StringBuilder* out, const TCode FORMAT) {
+  int8_t ret = -1;
+  if (nullptr != obj) {
+    C3PBinBinder* binder = (C3PBinBinder*) obj;
+    switch (FORMAT) {
+      case TCode::CBOR:
+        if ((nullptr != binder->buf) | (0 == binder->len)) {
+          cbor::output_stringbuilder output(out);
+          cbor::encoder encoder(output);
+          if (TCode::BINARY != TCODE) {
+            encoder.write_tag(C3P_CBOR_VENDOR_CODE | TcodeToInt(TCODE));
+          }
+          encoder.write_bytes(binder->buf, binder->len);
+          ret = 0;   // TODO: Safe SB API.
+        }
+        break;
+
+      default:  break;
+    }
+  }
+  return ret;
+}
+
 
 
 ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 092b99444a795b1232d577c86d203a3bb8c1fcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:28 +0000
Subject: [PATCH 059/179] fix: printing a map took the first pair's value for
 the content of each nested map

---
 src/C3PValue/KeyValuePair.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index 1891d2c..c30dba1 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -360,7 +360,7 @@ int8_t KeyValuePair::_encode_to_printable(StringBuilder* out, const unsigned int
         {
           // If the value is a KVP, recurse with a deeper indentation to
           //   render it.
-          KeyValuePair* tmp = (KeyValuePair*) _type_pun_get();
+          KeyValuePair* tmp = (KeyValuePair*) src->_type_pun_get();
           if (nullptr != tmp) {
             out->concat("{\n");
             tmp->_encode_to_printable(out, (LEVEL+1));
-- 
2.43.0


From bcff55706f2034de0c60484523b05a344deecf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:28 +0000
Subject: [PATCH 060/179] fix: KeyValuePair::serialize() reported failure after
 it had printed the map

---
 src/C3PValue/KeyValuePair.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index c30dba1..ac445c4 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -254,7 +254,7 @@ int8_t KeyValuePair::serialize(StringBuilder* out, const TCode FORMAT) {
   KeyValuePair* src = this;
   switch (FORMAT) {
     case TCode::STR:
-      src->_encode_to_printable(&local_output);
+      ret = src->_encode_to_printable(&local_output);
       break;
     case TCode::BINARY:
       break;
-- 
2.43.0


From 85f441fc0dc052e72725782ab160919edbc0a2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:28 +0000
Subject: [PATCH 061/179] fix: CBORArgListener leaked each key, and erased each
 string that has none

---
 src/C3PValue/KeyValuePair.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index ac445c4..c331dab 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -419,13 +419,11 @@ void CBORArgListener::_caaa(KeyValuePair* nu) {
   if (0 < _wait_map) {
     _wait_map--;
     if (nullptr != _wait) {
-      nu->setKey(_wait);
+      nu->setKey(_wait);   // This will have been deep-copied.
+      free(_wait);
       _wait = nullptr;
     }
   }
-  else {
-    nu->set(_wait);
-  }
 
   if (0 < _wait_array) _wait_array--;
 
-- 
2.43.0


From 3de0b41bbb54890f08fcbfbfdce50d8a9d223f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:46 +0000
Subject: [PATCH 062/179] fix: CBORArgListener kept references to blobs that
 were gone when it returned

---
 src/C3PValue/KeyValuePair.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index c331dab..442ca55 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -476,7 +476,14 @@ void CBORArgListener::on_bytes(uint8_t* data, int size) {
     _pending_c3p_tag = TCode::NONE;
   }
   else {
-    _caaa(new KeyValuePair(data, size));
+    // The data is only ours for the duration of this call. Keep a copy of it.
+    uint8_t* temp = (uint8_t*) malloc(size + 1);
+    if (nullptr != temp) {
+      memcpy(temp, data, size);
+      KeyValuePair* nu_kvp = new KeyValuePair(temp, size);
+      nu_kvp->reapValue(true);
+      _caaa(nu_kvp);
+    }
   }
 };
 
-- 
2.43.0


From 1178f0cab4c21ec63b20d9feeba6b70f83d311fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:47 +0000
Subject: [PATCH 063/179] fix: CBORArgListener leaked each vector, and each map
 and image within a tag

---
 src/C3PValue/KeyValuePair.cpp | 43 ++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index 442ca55..8d29134 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -567,28 +567,52 @@ KeyValuePair* CBORArgListener::_inflate_c3p_type(uint8_t* data, int size, const
     //case TCode::VECT_2_INT32:
     //case TCode::VECT_2_UINT32:
     case TCode::VECT_3_FLOAT:
-      ret = new KeyValuePair(new Vector3<float>(*((float*)(data+0)), *((float*)(data+4)), *((float*)(data+8))));
+      {
+        Vector3<float> tmp(*((float*)(data+0)), *((float*)(data+4)), *((float*)(data+8)));   // The value will be copied.
+        ret = new KeyValuePair(&tmp);
+      }
       break;
     case TCode::VECT_3_DOUBLE:
-      ret = new KeyValuePair(new Vector3<double>(*((double*)(data+0)), *((double*)(data+8)), *((double*)(data+16))));
+      {
+        Vector3<double> tmp(*((double*)(data+0)), *((double*)(data+8)), *((double*)(data+16)));   // The value will be copied.
+        ret = new KeyValuePair(&tmp);
+      }
       break;
     case TCode::VECT_3_INT8:
-      ret = new KeyValuePair(new Vector3<int8_t>(*((int8_t*)(data+0)), *((int8_t*)(data+1)), *((int8_t*)(data+2))));
+      {
+        Vector3<int8_t> tmp(*((int8_t*)(data+0)), *((int8_t*)(data+1)), *((int8_t*)(data+2)));   // The value will be copied.
+        ret = new KeyValuePair(&tmp);
+      }
       break;
     case TCode::VECT_3_UINT8:
-      ret = new KeyValuePair(new Vector3<uint8_t>(*((uint8_t*)(data+0)), *((uint8_t*)(data+1)), *((uint8_t*)(data+2))));
+      {
+        Vector3<uint8_t> tmp(*((uint8_t*)(data+0)), *((uint8_t*)(data+1)), *((uint8_t*)(data+2)));   // The value will be copied.
+        ret = new KeyValuePair(&tmp);
+      }
       break;
     case TCode::VECT_3_INT16:
-      ret = new KeyValuePair(new Vector3<int16_t>(*((int16_t*)(data+0)), *((int16_t*)(data+2)), *((int16_t*)(data+4))));
+      {
+        Vector3<int16_t> tmp(*((int16_t*)(data+0)), *((int16_t*)(data+2)), *((int16_t*)(data+4)));   // The value will be copied.
+        ret = new KeyValuePair(&tmp);
+      }
       break;
     case TCode::VECT_3_UINT16:
-      ret = new KeyValuePair(new Vector3<uint16_t>(*((uint16_t*)(data+0)), *((uint16_t*)(data+2)), *((uint16_t*)(data+4))));
+      {
+        Vector3<uint16_t> tmp(*((uint16_t*)(data+0)), *((uint16_t*)(data+2)), *((uint16_t*)(data+4)));   // The value will be copied.
+        ret = new KeyValuePair(&tmp);
+      }
       break;
     case TCode::VECT_3_INT32:
-      ret = new KeyValuePair(new Vector3<int32_t>(*((int32_t*)(data+0)), *((int32_t*)(data+4)), *((int32_t*)(data+8))));
+      {
+        Vector3<int32_t> tmp(*((int32_t*)(data+0)), *((int32_t*)(data+4)), *((int32_t*)(data+8)));   // The value will be copied.
+        ret = new KeyValuePair(&tmp);
+      }
       break;
     case TCode::VECT_3_UINT32:
-      ret = new KeyValuePair(new Vector3<uint32_t>(*((uint32_t*)(data+0)), *((uint32_t*)(data+4)), *((uint32_t*)(data+8))));
+      {
+        Vector3<uint32_t> tmp(*((uint32_t*)(data+0)), *((uint32_t*)(data+4)), *((uint32_t*)(data+8)));   // The value will be copied.
+        ret = new KeyValuePair(&tmp);
+      }
       break;
     //case TCode::VECT_4_FLOAT:
     //case TCode::URL:
@@ -609,6 +633,7 @@ KeyValuePair* CBORArgListener::_inflate_c3p_type(uint8_t* data, int size, const
         KeyValuePair* tmp = KeyValuePair::unserialize(data, size, TCode::CBOR);
         if (tmp) {
           ret = new KeyValuePair(tmp);
+          ret->reapValue(true);
         }
       }
       break;
@@ -620,6 +645,7 @@ KeyValuePair* CBORArgListener::_inflate_c3p_type(uint8_t* data, int size, const
           Identity* tmp = Identity::fromBuffer(data, size);
           if (tmp) {
             ret = new KeyValuePair(tmp);
+            ret->reapValue(true);
           }
         }
         break;
@@ -635,6 +661,7 @@ KeyValuePair* CBORArgListener::_inflate_c3p_type(uint8_t* data, int size, const
             if (tmp->allocated()) {
             }
             ret = new KeyValuePair(tmp);
+            ret->reapValue(true);
           }
         }
         break;
-- 
2.43.0


From 5ded7476dcba02bb1e2e890189135c7d4d646ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:31 +0000
Subject: [PATCH 064/179] fix: KeyValuePair::unserialize() mixed the content of
 nested maps with that of the outer one

---
 src/C3PValue/KeyValuePair.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index 8d29134..85c76b4 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -307,10 +307,22 @@ KeyValuePair* KeyValuePair::unserialize(uint8_t* src, unsigned int len, const TC
     #if defined(__BUILD_HAS_CBOR)
     case TCode::CBOR:
       {
-        CBORArgListener listener(&ret);
-        cbor::input_static input(src, len);
-        cbor::decoder decoder(input, listener);
-        decoder.run();
+        if ((nullptr != src) && (0 < len) && (5 == (*src >> 5))) {
+          // The listener knows nothing of nested maps.
+          StringBuilder input(src, (int) len);
+          C3PValueDecoder decoder(&input);
+          C3PValue* value = decoder.next();
+          if (nullptr != value) {
+            if (value->has_key()) {  ret = (KeyValuePair*) value;  }
+            else {                   delete value;                 }
+          }
+        }
+        else {
+          CBORArgListener listener(&ret);
+          cbor::input_static input(src, len);
+          cbor::decoder decoder(input, listener);
+          decoder.run();
+        }
       }
       break;
     #endif  // __BUILD_HAS_CBOR
-- 
2.43.0


From bd2a92e96e8375e9fcb32e4b42815f26af96778c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:29 +0000
Subject: [PATCH 065/179] fix: CBORArgListener gave up the values it had
 allocated for tagged maps and images

---
 src/C3PValue/KeyValuePair.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index 85c76b4..029b20a 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -688,7 +688,9 @@ KeyValuePair* CBORArgListener::_inflate_c3p_type(uint8_t* data, int size, const
   // If we can't fit the value into the KVP class, it means we new'd it.
   if (nullptr != ret) {
     ret->reapContainer(true);
-    ret->reapValue(!typeIsPointerPunned(TC));
+    if (!typeIsPointerPunned(TC)) {
+      ret->reapValue(true);
+    }
   }
   return ret;
 }
-- 
2.43.0


From 946a247e4e9f8f1e774cede17b9952c6af4a57dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:19 +0000
Subject: [PATCH 066/179] fix: C3PTypePipeSink did not count the bytes it took,
 and claimed to take when it did not

---
 src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp b/src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp
index ffcefcd..74b8e77 100644
--- a/src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp
+++ b/src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp
@@ -142,7 +142,12 @@ int8_t C3PTypePipeSink::pushBuffer(StringBuilder* incoming) {
         incoming->prependHandoff(&tmp_stbldr);
       }
     } while (nullptr != val_to_emit);
-    return (incoming->isEmpty(true) ? 1: 0);
+    const uint32_t TAKEN_LEN = (INCOMING_LEN - incoming->length());
+    _byte_count += TAKEN_LEN;
+    if (0 < TAKEN_LEN) {
+      ret = (incoming->isEmpty(true) ? 1: 0);
+    }
+    return ret;
   }
   return -1;
 }
-- 
2.43.0


From c969c489f4edafff595d3b792a32a446a93cd3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:19 +0000
Subject: [PATCH 067/179] fix: LineEndingCoDec started with an undefined
 configuration

---
 src/Pipes/BufferAccepter/LineCoDec/LineCoDec.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Pipes/BufferAccepter/LineCoDec/LineCoDec.h b/src/Pipes/BufferAccepter/LineCoDec/LineCoDec.h
index 9c70bfd..099d920 100644
--- a/src/Pipes/BufferAccepter/LineCoDec/LineCoDec.h
+++ b/src/Pipes/BufferAccepter/LineCoDec/LineCoDec.h
@@ -134,7 +134,8 @@ Rules:
 */
 class LineEndingCoDec : public BufferCoDec {
   public:
-    LineEndingCoDec(BufferAccepter* targ = nullptr, LineTerm t = LineTerm::ZEROBYTE) : BufferCoDec(targ), _term_seq(t) {};
+    LineEndingCoDec(BufferAccepter* targ = nullptr, LineTerm t = LineTerm::ZEROBYTE) : BufferCoDec(targ), _term_seq(t),
+      _replacement_mask(0), _hold_until_break(false), _isometric_call_to_break(false) {};
     ~LineEndingCoDec() {};
 
     /* Implementation of BufferAccepter. */
-- 
2.43.0


From a3e442a040c1e68e69c09311a6767625dcbc8d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:19 +0000
Subject: [PATCH 068/179] fix: LineEndingCoDec claimed to take part of a buffer
 that was refused downstream

---
 src/Pipes/BufferAccepter/LineCoDec/LineCoDec.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Pipes/BufferAccepter/LineCoDec/LineCoDec.cpp b/src/Pipes/BufferAccepter/LineCoDec/LineCoDec.cpp
index 5b87aa1..f0941c1 100644
--- a/src/Pipes/BufferAccepter/LineCoDec/LineCoDec.cpp
+++ b/src/Pipes/BufferAccepter/LineCoDec/LineCoDec.cpp
@@ -153,7 +153,9 @@ int8_t LineEndingCoDec::pushBuffer(StringBuilder* buf) {
       }
     }
 
-    ret = (((INPUT_LENGTH - buf->length()) < INPUT_LENGTH) ? 0 : 1);
+    if (buf->length() < INPUT_LENGTH) {
+      ret = (buf->isEmpty(true) ? 1 : 0);
+    }
   }
 
   return ret;
-- 
2.43.0


From c37cc57e56489d995c6e1da4eaf294bb5a225a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:19 +0000
Subject: [PATCH 069/179] fix: Base64Encoder took more than there was room for
 downstream, and lost the excess

---
 src/Pipes/BufferAccepter/Base64/C3P_B64.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp b/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
index 9decb13..e0eda95 100644
--- a/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
+++ b/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
@@ -42,7 +42,6 @@ I have reproduced his original commentary, where it still applies. And may have
 
 // TODO: These are wrong. Calulate the real values once it works.
 #define BASE64_DECODE_SCALING_FACTOR 0.8
-#define BASE64_ENCODE_SCALING_FACTOR 1.2
 
 
 /*******************************************************************************
@@ -155,7 +154,8 @@ int8_t Base64Encoder::pushBuffer(StringBuilder* buf) {
 int32_t Base64Encoder::bufferAvailable() {
   int32_t ret = 0;
   if (nullptr != _efferant) {
-    ret = _efferant->bufferAvailable() * BASE64_ENCODE_SCALING_FACTOR;
+    // Every three bytes (or part thereof) become four.
+    ret = ((_efferant->bufferAvailable() / 4) * 3);
   }
   return ret;
 }
-- 
2.43.0


From 9b61eac7adfb18a8f4a8c61b77629d645b6dc96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:38 +0000
Subject: [PATCH 070/179] fix: Base64 stages refused exactly as many bytes as
 they had announced room for

---
 src/Pipes/BufferAccepter/Base64/C3P_B64.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp b/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
index e0eda95..75223ba 100644
--- a/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
+++ b/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
@@ -132,7 +132,7 @@ int8_t Base64Encoder::pushBuffer(StringBuilder* buf) {
     if ((TAKE_LEN > 0) && (TAKE_LEN <= PUSH_LEN)) {
       // If the pushed length is more than 0, and at least the size we need, make
       //   sure we'll have space for the result.
-      if (TAKE_LEN < AVAILABLE_LEN) {
+      if (TAKE_LEN <= AVAILABLE_LEN) {
         // Take the bytes, and transform them.
         StringBuilder tmp_src;
         StringBuilder tmp_dest;
@@ -350,7 +350,7 @@ int8_t Base64Decoder::pushBuffer(StringBuilder* buf) {
     if ((TAKE_LEN > 0) && (TAKE_LEN <= PUSH_LEN)) {
       // If the pushed length is more than 0, and at least the size we need, make
       //   sure we'll have space for the result.
-      if (TAKE_LEN < AVAILABLE_LEN) {
+      if (TAKE_LEN <= AVAILABLE_LEN) {
         // Take the bytes, and transform them.
         StringBuilder tmp_src;
         StringBuilder tmp_dest;
-- 
2.43.0


From 44ab938319d8e14a272a34d75bf96e18210fcc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:39 +0000
Subject: [PATCH 071/179] fix: BufferAccepterFork lost and repeated bytes when
 its sides took different lengths

---
 src/Pipes/BufferAccepter/BufferAccepter.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/Pipes/BufferAccepter/BufferAccepter.cpp b/src/Pipes/BufferAccepter/BufferAccepter.cpp
index deff6d9..bc94d42 100644
--- a/src/Pipes/BufferAccepter/BufferAccepter.cpp
+++ b/src/Pipes/BufferAccepter/BufferAccepter.cpp
@@ -66,8 +66,9 @@ int8_t BufferAccepterFork::pushBuffer(StringBuilder* buf) {
     // Note the drift distance for each side of the fork.
     const int32_t LEFT_OFFER_LEN  = (BYTES_TO_TAKE - _left_drift);
     const int32_t RIGHT_OFFER_LEN = (BYTES_TO_TAKE - _right_drift);
-    int32_t left_range_covered  = BYTES_TO_TAKE;
-    int32_t right_range_covered = BYTES_TO_TAKE;
+    // A side that has drifted ahead already covers that much of the buffer.
+    int32_t left_range_covered  = strict_max(_left_drift,  BYTES_TO_TAKE);
+    int32_t right_range_covered = strict_max(_right_drift, BYTES_TO_TAKE);
     if ((nullptr != _left_hand) & (LEFT_OFFER_LEN > 0)) {
       StringBuilder deep_copy(buf->string() + _left_drift, LEFT_OFFER_LEN);
       _left_hand->pushBuffer(&deep_copy);
@@ -80,10 +81,12 @@ int8_t BufferAccepterFork::pushBuffer(StringBuilder* buf) {
     }
     const int32_t TOTAL_TAKEN = strict_min(left_range_covered, right_range_covered);
     buf->cull(TOTAL_TAKEN);
-    _left_drift  = (TOTAL_TAKEN - left_range_covered);
-    _right_drift = (TOTAL_TAKEN - right_range_covered);
+    _left_drift  = ((nullptr != _left_hand)  ? (left_range_covered - TOTAL_TAKEN)  : 0);
+    _right_drift = ((nullptr != _right_hand) ? (right_range_covered - TOTAL_TAKEN) : 0);
 
-    ret = (BYTES_OFFERED == TOTAL_TAKEN) ? 1 : 0;
+    if (0 < TOTAL_TAKEN) {
+      ret = (BYTES_OFFERED == TOTAL_TAKEN) ? 1 : 0;
+    }
   }
   return ret;
 }
-- 
2.43.0


From 59faf80f4cb16ecf4400778ab75fa4a3f86342f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:39 +0000
Subject: [PATCH 072/179] fix: centi- and deci- were abbreviated as milli-

---
 src/EnumeratedTypeCodes.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/EnumeratedTypeCodes.cpp b/src/EnumeratedTypeCodes.cpp
index c340344..92ce16b 100644
--- a/src/EnumeratedTypeCodes.cpp
+++ b/src/EnumeratedTypeCodes.cpp
@@ -36,8 +36,8 @@ const char* const SIUnitToStr(const int8_t OOM, const bool sym) {
     case -9:   return (sym ? "n" : "nano");
     case -6:   return (sym ? "u" : "micro");
     case -3:   return (sym ? "m" : "milli");
-    case -2:   return (sym ? "m" : "centi");
-    case -1:   return (sym ? "m" : "deci");
+    case -2:   return (sym ? "c" : "centi");
+    case -1:   return (sym ? "d" : "deci");
     case 0:    return "";
     case 1:    return (sym ? "da" : "deca");
     case 2:    return (sym ? "h" : "hecto");
-- 
2.43.0


From 056c10c83885bfc4a0d315da2b80db8a1de535a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:39 +0000
Subject: [PATCH 073/179] fix: stringToTimestamp() made a time of day zero of a
 month

---
 src/CppPotpourri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CppPotpourri.cpp b/src/CppPotpourri.cpp
index 9fd5626..301f15f 100644
--- a/src/CppPotpourri.cpp
+++ b/src/CppPotpourri.cpp
@@ -71,7 +71,7 @@ uint64_t stringToTimestamp(const char* str) {
   //printf("%d-%d-%u %d:%d:%u\n",year, month, days, hour, minute, seconds);
 
   // Boundary-checks
-  if ((days > 31) || (month > 12) || (year < 1970) || (seconds > 59) || (minute > 59) || (hour > 23)) {
+  if ((days < 1) || (days > 31) || (month > 12) || (year < 1970) || (seconds > 59) || (minute > 59) || (hour > 23)) {
     // All of these conditions are bad.
     // NOTE: we ignore the possibility of some other system calling midnight "24:00".
     return 0;
-- 
2.43.0


From 255f7776a43dc3962b8cbcd8dfcfdbad2d066fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:39 +0000
Subject: [PATCH 074/179] fix: stringToTimestamp() was a day behind in every
 year that is not a leap-year

---
 src/CppPotpourri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CppPotpourri.cpp b/src/CppPotpourri.cpp
index 301f15f..3f463f4 100644
--- a/src/CppPotpourri.cpp
+++ b/src/CppPotpourri.cpp
@@ -79,7 +79,7 @@ uint64_t stringToTimestamp(const char* str) {
 
   if (year >= 1972) {
     // Check for leap year.
-    days += ((year - 1972) >> 2);  // Extra days caused by leap-years.
+    days += ((year - 1969) >> 2);  // Extra days caused by prior leap-years.
     if ((((year - 1972) % 4) == 0) && (month > 2)) {
       // If it is at-least March of this year, and this year is a leap-year, add another 86400.
       days++;
-- 
2.43.0


From b20dfee3df72ff72d03232eed19ffaf6807669b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:37 +0000
Subject: [PATCH 075/179] fix: link message lengths of more than one byte did
 not count themselves, cutting the payload short

---
 src/M2MLink/M2MLink.h     |  2 +-
 src/M2MLink/M2MMsgHdr.cpp | 12 +++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/M2MLink/M2MLink.h b/src/M2MLink/M2MLink.h
index 4a503b4..560e93c 100644
--- a/src/M2MLink/M2MLink.h
+++ b/src/M2MLink/M2MLink.h
@@ -319,7 +319,7 @@ class M2MMsgHdr {
       msg_id(obj->msg_id) {};
 
     /* General constructor */
-    M2MMsgHdr(M2MMsgCode, uint8_t pl_len, uint8_t flags, uint32_t i = 0);
+    M2MMsgHdr(M2MMsgCode, uint32_t pl_len, uint8_t flags, uint32_t i = 0);
 
     /* Convenience overloads */
     M2MMsgHdr(M2MMsgCode m) : M2MMsgHdr(m, 0, 0, 0) {};
diff --git a/src/M2MLink/M2MMsgHdr.cpp b/src/M2MLink/M2MMsgHdr.cpp
index 6316f1a..a8ff323 100644
--- a/src/M2MLink/M2MMsgHdr.cpp
+++ b/src/M2MLink/M2MMsgHdr.cpp
@@ -32,7 +32,7 @@ limitations under the License.
 * Constructors/destructors, class initialization functions and so-forth...
 *******************************************************************************/
 
-M2MMsgHdr::M2MMsgHdr(M2MMsgCode m, uint8_t pl_len, uint8_t f, uint32_t i) :
+M2MMsgHdr::M2MMsgHdr(M2MMsgCode m, uint32_t pl_len, uint8_t f, uint32_t i) :
     msg_code(m), flags(f & ~(M2MMSGHDR_SETTABLE_FLAG_BITS)),
     chk_byte(0),
     msg_len(0),
@@ -56,9 +56,10 @@ M2MMsgHdr::M2MMsgHdr(M2MMsgCode m, uint8_t pl_len, uint8_t f, uint32_t i) :
   uint32_t needed_total_sz = calcd_id_sz + pl_len + M2MMSGHDR_MINIMUM_HEADER_SIZE;
   if (needed_total_sz > 0x000000FF) calcd_len_sz++;
   if (needed_total_sz > 0x0000FFFE) calcd_len_sz++;
-  if (needed_total_sz <= 0x00FFFFFD) {  // Anything larger than this is invalid.
+  if ((pl_len <= 0x00FFFFFD) && (needed_total_sz <= 0x00FFFFFD)) {  // Anything larger than this is invalid.
     flags = ((flags & ~M2MMSGHDR_FLAG_ENCODES_LENGTH_BYTES) | (calcd_len_sz << 4));
-    msg_len = needed_total_sz;
+    // The minimum header size only accounts for one byte of length.
+    msg_len = needed_total_sz + (calcd_len_sz - 1);
     chk_byte = (uint8_t) (flags + msg_len + (uint8_t)msg_code + M2MLINK_SERIALIZATION_VERSION);
   }
 }
@@ -100,9 +101,10 @@ bool M2MMsgHdr::set_payload_length(uint32_t pl_len) {
   uint32_t needed_total_sz = id_length() + pl_len + M2MMSGHDR_MINIMUM_HEADER_SIZE;
   if (needed_total_sz > 0x000000FF) calcd_len_sz++;
   if (needed_total_sz > 0x0000FFFE) calcd_len_sz++;
-  if (needed_total_sz <= 0x00FFFFFD) {  // Anything larger than this is invalid.
+  if ((pl_len <= 0x00FFFFFD) && (needed_total_sz <= 0x00FFFFFD)) {  // Anything larger than this is invalid.
     flags = ((flags & ~M2MMSGHDR_FLAG_ENCODES_LENGTH_BYTES) | (calcd_len_sz << 4));
-    msg_len = needed_total_sz;
+    // The minimum header size only accounts for one byte of length.
+    msg_len = needed_total_sz + (calcd_len_sz - 1);
     chk_byte = calc_hdr_chcksm();
     ret = true;
   }
-- 
2.43.0


From 024551f96daeb5a0472c45da7f19dd60ad55731c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:37 +0000
Subject: [PATCH 076/179] fix: a link message's automatic ID could be zero,
 which is no ID at all

---
 src/M2MLink/M2MMsgHdr.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/M2MLink/M2MMsgHdr.cpp b/src/M2MLink/M2MMsgHdr.cpp
index a8ff323..9673753 100644
--- a/src/M2MLink/M2MMsgHdr.cpp
+++ b/src/M2MLink/M2MMsgHdr.cpp
@@ -42,7 +42,9 @@ M2MMsgHdr::M2MMsgHdr(M2MMsgCode m, uint32_t pl_len, uint8_t f, uint32_t i) :
     // Assign an ID automatically, if needed.
     if (M2MMsgCode::SYNC_KEEPALIVE != m) {
       // SYNC is allowed to have a reply with no ID.
+      // Zero means "no ID".
       msg_id = (0x00FFFFFF & randomUInt32());
+      if (0 == msg_id) msg_id = 1;
     }
   }
 
-- 
2.43.0


From 39fb94e996a0765142bc614838fd2223084f1450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:53 +0000
Subject: [PATCH 077/179] fix: a link header with no length, or shorter than
 itself, was taken for a message and never left the input

---
 src/M2MLink/M2MMsg.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/M2MLink/M2MMsg.cpp b/src/M2MLink/M2MMsg.cpp
index 9def5e4..192e476 100644
--- a/src/M2MLink/M2MMsg.cpp
+++ b/src/M2MLink/M2MMsg.cpp
@@ -60,13 +60,17 @@ int8_t M2MMsg::attempt_header_parse(M2MMsgHdr* hdr, StringBuilder* dat_in) {
 
     const uint8_t len_l = hdr->len_length();
     const uint8_t id_l  = hdr->id_length();
-    if (hdr->header_length() <= AVAILABLE_LEN) {
+    if (0 == len_l) {   // The length is not optional.
+      ret = -3;
+    }
+    else if (hdr->header_length() <= AVAILABLE_LEN) {
       // Write the multibyte value as big-endian.
       for (uint8_t i = 0; i < len_l; i++) hdr->msg_len = ((hdr->msg_len << 8) | *(tmp_buf++));
       for (uint8_t i = 0; i < id_l; i++)  hdr->msg_id  = ((hdr->msg_id << 8)  | *(tmp_buf++));
       hdr->chk_byte = *(tmp_buf++);
       ret = -3;
-      if (hdr->chk_byte == hdr->calc_hdr_chcksm()) {       // Does the checksum match?
+      // Does the checksum match, and does the message contain its own header?
+      if ((hdr->chk_byte == hdr->calc_hdr_chcksm()) && (hdr->msg_len >= (uint32_t) hdr->header_length())) {
         ret = 1;
         if (0 < hdr->payload_length()) {
           ret = (hdr->total_length() > AVAILABLE_LEN) ? 0 : 2;
-- 
2.43.0


From e7ecf46853aadab7d881cbd4a7ac3030d4cafecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:48 +0000
Subject: [PATCH 078/179] fix: link messages leaked their payloads, and the
 link the messages it answered

---
 src/M2MLink/M2MLink.cpp | 22 ++++++++++++----------
 src/M2MLink/M2MMsg.cpp  |  9 +++++++++
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 6ad4df1..763a6e2 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -190,6 +190,10 @@ M2MLink::~M2MLink() {
     _reclaim_m2mmsg(_working);
     _working = nullptr;
   }
+  if (nullptr != _id_remote) {
+    delete _id_remote;
+    _id_remote = nullptr;
+  }
 }
 
 
@@ -708,10 +712,7 @@ int8_t M2MLink::_churn_inbound() {
           _flags.set(M2MLINK_FLAG_ESTABLISHED);
         }
         else if (temp->expectsReply()) {
-          if (0 == temp->ack()) {
-            gc_message = false;
-          }
-          else if (_verbosity >= LOG_LEV_ERROR) c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, "Link 0x%08x Failed to reply to CONNECT\n", _session_tag);
+          if ((0 != temp->ack()) && (_verbosity >= LOG_LEV_ERROR)) c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, "Link 0x%08x Failed to reply to CONNECT\n", _session_tag);
           //if (_verbosity >= LOG_LEV_INFO) {
           //  StringBuilder tmp_log;
           //  tmp_log.concatf("Link 0x%08x responding with...\n", _session_tag);
@@ -781,6 +782,7 @@ int8_t M2MLink::_churn_inbound() {
               }
             }
           }
+          delete kvps_rxd;
         }
 
         if (temp->isReply()) {
@@ -795,8 +797,8 @@ int8_t M2MLink::_churn_inbound() {
           // We are being queried about our Identity.
           if (_id_loc) {
             // If we have one assigned, serialize and relay it as a reply.
-            KeyValuePair* a = new KeyValuePair("ident", _id_loc);
-            int8_t ret_local = temp->reply(a, true);
+            KeyValuePair a("ident", _id_loc);
+            int8_t ret_local = temp->reply(&a, true);
             const uint8_t VERB_LEV = (0 > ret_local) ? LOG_LEV_ERROR : LOG_LEV_INFO;
             if (_verbosity >= VERB_LEV) {
               c3p_log(VERB_LEV, __PRETTY_FUNCTION__, "Link 0x%08x reply to WHO returns %u.\n", _session_tag, ret_local);
@@ -976,7 +978,7 @@ int8_t M2MLink::_handle_msg_log(M2MMsg* msg) {
   if (_flags.value(M2MLINK_FLAG_ALLOW_LOG_WRITE)) {   // Will we allow a write to our log?
     ret++;
     KeyValuePair* inbound_kvp = nullptr;
-    if (0 == msg->getPayload(&inbound_kvp)) {
+    if ((0 == msg->getPayload(&inbound_kvp)) && (nullptr != inbound_kvp)) {
       char* inbound_log = nullptr;
       if (0 == inbound_kvp->valueWithKey("b", &inbound_log)) {
         // TODO: Surround with randomly-generated tags to prevent confusion.
@@ -985,7 +987,7 @@ int8_t M2MLink::_handle_msg_log(M2MMsg* msg) {
       else {
         if (LOG_LEV_NOTICE <= _verbosity) c3p_log(LOG_LEV_NOTICE, __PRETTY_FUNCTION__, "Link 0x%08x failed to decompose LOG message.\n", _session_tag);
       }
-      //delete inbound_kvp;
+      delete inbound_kvp;
     }
     else {
       if (LOG_LEV_NOTICE <= _verbosity) c3p_log(LOG_LEV_NOTICE, __PRETTY_FUNCTION__, "Link 0x%08x failed to find LOG payload.\n", _session_tag);
@@ -1474,8 +1476,8 @@ int8_t M2MLink::_send_who_message() {
   if (nullptr != msg) {
     ret--;
     if (_id_loc) {
-      KeyValuePair* a = new KeyValuePair("ident", _id_loc);
-      msg->setPayload(a);
+      KeyValuePair a("ident", _id_loc);
+      msg->setPayload(&a);
     }
     if (0 == _send_msg(msg)) {
       ret = 0;
diff --git a/src/M2MLink/M2MMsg.cpp b/src/M2MLink/M2MMsg.cpp
index 192e476..b3f4ff0 100644
--- a/src/M2MLink/M2MMsg.cpp
+++ b/src/M2MLink/M2MMsg.cpp
@@ -134,6 +134,7 @@ M2MMsg::M2MMsg(M2MMsgHdr* hdr, BusOpcode d) : _header(hdr), _op(d) {
 * Destructor.
 */
 M2MMsg::~M2MMsg() {
+  wipe();
 }
 
 
@@ -160,6 +161,10 @@ void M2MMsg::wipe() {
   _flags       = 0;
   _header.wipe();
   _accumulator.clear();
+  if (nullptr != _kvp) {
+    delete _kvp;
+    _kvp = nullptr;
+  }
 }
 
 
@@ -238,11 +243,15 @@ int M2MMsg::reply(KeyValuePair* kvp, bool reply_expected) {
     _header.expectsReply(reply_expected);
     _header.isReply(true);
     _accumulator.clear();
+    if (nullptr != _kvp) {
+      delete _kvp;   // The payload that this message came with.
+    }
     _kvp = kvp;
     _class_clear_flag(M2MMSG_FLAG_ACCUMULATOR_COMPLETE);
     if (0 == serialize(&_accumulator)) {
       ret = 0;
     }
+    _kvp = nullptr;   // The reply's payload belongs to the caller.
   }
   return ret;
 }
-- 
2.43.0


From e922171860bd165417982f1ec013f62a9faf49d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:48 +0000
Subject: [PATCH 079/179] fix: a reply dropped unrelated outbound messages,
 leaked its own request, or left it to be sent again

---
 src/M2MLink/M2MLink.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 763a6e2..f240eb5 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -679,6 +679,12 @@ int8_t M2MLink::_churn_inbound() {
       c3p_log(LOG_LEV_INFO, __PRETTY_FUNCTION__, &tmp_log);
     }
 
+    // Any reply satisfies the message that was waiting for it, even if the reply
+    //   is about to be turned into a reply of our own.
+    if (temp->isReply()) {
+      _clear_waiting_send_by_id(temp->uniqueId());
+    }
+
     switch (temp->msgCode()) {
       case M2MMsgCode::SYNC_KEEPALIVE:
         // We got a sync message. Is it a reply?
@@ -864,9 +870,6 @@ int8_t M2MLink::_churn_inbound() {
     }
 
     if (gc_message) {
-      if (temp->isReply()) {
-        _clear_waiting_send_by_id(temp->uniqueId());
-      }
       _reclaim_m2mmsg(temp);
     }
   }
@@ -952,14 +955,18 @@ int8_t M2MLink::_churn_outbound() {
 */
 int8_t M2MLink::_clear_waiting_send_by_id(uint32_t id) {
   int8_t ret = 0;
-  for (int i = 0; i < _outbound_messages.size(); i++) {
+  int i = 0;
+  while (i < _outbound_messages.size()) {
     M2MMsg* temp = _outbound_messages.get(i);
-    if (nullptr != temp) {
-      if (id == temp->uniqueId()) {
-        temp->markACKd();
-        _outbound_messages.remove(temp);
-        ret = 1;
-      }
+    // Only messages that are waiting on a reply can be satisfied by one.
+    if ((nullptr != temp) && temp->wasSent() && temp->expectsReply() && (id == temp->uniqueId())) {
+      temp->markACKd();
+      _outbound_messages.remove(temp);
+      _reclaim_m2mmsg(temp);
+      ret++;
+    }
+    else {
+      i++;
     }
   }
   return ret;
-- 
2.43.0


From 1e4d08b733d1e5f074a20c84193f07717a107c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:33 +0000
Subject: [PATCH 080/179] fix: messages accepted before a link was established
 were sent to a counterparty that ignored them

---
 src/M2MLink/M2MLink.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index f240eb5..21b9645 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -885,6 +885,16 @@ int8_t M2MLink::_churn_inbound() {
 */
 int8_t M2MLink::_churn_outbound() {
   int8_t ret = 0;
+  switch (currentState()) {
+    case M2MLinkState::PENDING_AUTH:
+    case M2MLinkState::LIVE:
+    case M2MLinkState::PENDING_HANGUP:
+      break;
+    default:
+      // Until we are connected, there is no reason to think that our counterparty
+      //   would notice a message. Hold them for later.
+      return ret;
+  }
   if (_outbound_messages.hasNext()) {
     int current_priority = _outbound_messages.getPriority(0);
     M2MMsg* temp = _outbound_messages.dequeue();
-- 
2.43.0


From 44e8d669f555c59b6a558457824423c2a02b06ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:13 +0000
Subject: [PATCH 081/179] fix: a link that lost its one CONNECT waited for the
 reply forever

---
 src/M2MLink/M2MLink.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 21b9645..ee01c88 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -278,6 +278,13 @@ int8_t M2MLink::poll(StringBuilder* log_ret) {
           _send_sync_packet(true);
         }
       }
+      // A CONNECT that was lost on a counterparty still looking for sync needs to
+      //   be repeated, or we'd never see the reply to it.
+      if (M2MLinkState::SYNC_TENTATIVE == currentState()) {
+        if (_fsm_is_stable() && (millis_since(_ms_last_send) > _opts.ms_timeout)) {
+          _send_connect_message();
+        }
+      }
       break;
   }
   int8_t ret = _fsm_poll();                 // Poll the link's FSM.
@@ -702,6 +709,10 @@ int8_t M2MLink::_churn_inbound() {
 
       case M2MMsgCode::CONNECT:
         if (temp->isReply()) {
+          if (M2MLinkState::SYNC_TENTATIVE != currentState()) {
+            // This answers a CONNECT that was repeated, or is no longer of interest.
+            break;
+          }
           if (!_flags.value(M2MLINK_FLAG_ESTABLISHED)) {
             if (_fsm_is_stable()) {   // Ensures we are in SYNC_TENTATIVE.
               if (_flags.value(M2MLINK_FLAG_AUTH_REQUIRED)) {
-- 
2.43.0


From fafd0c1bf2b57b914a0782846a7e924413389ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:13 +0000
Subject: [PATCH 082/179] fix: the last few bytes of a link message were not
 looked at until more arrived

---
 src/M2MLink/M2MLink.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index ee01c88..d7401cf 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1225,7 +1225,7 @@ int8_t M2MLink::_process_input_buffer() {
   }
 
   if (proc_fallthru) {
-    if (_inbound_buf.length() >= 4) {
+    if ((_inbound_buf.length() >= 4) || (nullptr != _working)) {
       if (nullptr == _working) {
         M2MMsgHdr _header;
         int8_t ret_header = M2MMsg::attempt_header_parse(&_header, &_inbound_buf);
-- 
2.43.0


From 6c7855b30674f8d9ec17a0246060ffde80aa2976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:20 +0000
Subject: [PATCH 083/179] fix: a message refused by the transport lost its
 place in the link's queue

---
 src/M2MLink/M2MLink.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index d7401cf..9ac71eb 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -948,6 +948,11 @@ int8_t M2MLink::_churn_outbound() {
             }
             ret++;
           }
+          else if (!temp->wasSent()) {
+            // The transport won't have it. This message must keep its place ahead of
+            //   those that were queued after it.
+            new_priority++;
+          }
         }
       }
 
-- 
2.43.0


From 4cfe71c56ce6019d6523e68a0f8062cf9ed58306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:47 +0000
Subject: [PATCH 084/179] fix: a link looking for sync threw away the start of
 a sync packet that had yet to arrive in full

---
 src/M2MLink/M2MLink.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 9ac71eb..ac539f1 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1397,12 +1397,11 @@ int8_t M2MLink::_process_for_sync() {
   }
   else {
     // Without finding a sync packet, we drop the data.
-    // Cull to a modulus of 4 bytes so as not to drop data we haven't tested.
-    const uint32_t CULL_LEN = ((uint32_t) AVAILABLE_LEN) & 0xFFFFFFFC;
-    if (0 < CULL_LEN) {   // clear() is cheaper than cull().
+    // The final bytes might be the start of a sync packet that has yet to arrive
+    //   in full, so don't drop data we haven't tested.
+    if (M2MMSGHDR_MINIMUM_HEADER_SIZE <= AVAILABLE_LEN) {
       ret = 0;
-      if ((uint32_t)AVAILABLE_LEN == CULL_LEN) {  _inbound_buf.clear();  }
-      else {  _inbound_buf.cull(CULL_LEN);  }
+      _inbound_buf.cull(AVAILABLE_LEN - (M2MMSGHDR_MINIMUM_HEADER_SIZE - 1));
     }
   }
   if (_verbosity >= LOG_LEV_DEBUG) {
-- 
2.43.0


From d6e66567a6019bfcbff7ab0b585b0ddab7eabe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:47 +0000
Subject: [PATCH 085/179] fix: a message cut short by the search for sync was
 completed with whatever bytes came later

---
 src/M2MLink/M2MLink.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index ac539f1..2dc4655 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1197,6 +1197,11 @@ int8_t M2MLink::_process_input_buffer() {
   switch (currentState()) {
     // If the link is actively trying to attain sync...
     case M2MLinkState::SYNC_RESYNC:
+      if (nullptr != _working) {
+        // The rest of any message in progress will be searched for sync.
+        _reclaim_m2mmsg(_working);
+        _working = nullptr;
+      }
       switch (_process_for_sync()) {
         case -1:   // insufficient length. No change to input data.
         case 0:    // no sync was found and so the input data was maximally culled.
-- 
2.43.0


From 1fd7efe1820549b54457b3629ee1581ab54757e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:47 +0000
Subject: [PATCH 086/179] fix: a link that lost sync before it was established,
 or while hanging up, never looked for it again

---
 src/M2MLink/M2MLink.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 2dc4655..e3b8786 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1606,6 +1606,9 @@ int8_t M2MLink::_fsm_poll() {
       break;
   }
 
+  // Nothing that a state might be waiting for can arrive if sync was lost.
+  fsm_advance |= _fsm_is_next_pos(M2MLinkState::SYNC_RESYNC);
+
   // If the current state's exit criteria is met, we advance the FSM.
   if (fsm_advance & (-1 != ret)) {
     ret = (0 == _fsm_advance()) ? 1 : 0;
@@ -1721,6 +1724,9 @@ int8_t M2MLink::_fsm_set_position(M2MLinkState new_state) {
 
 int8_t M2MLink::_fsm_insert_sync_states() {
   int8_t ret = -1;
+  if ((M2MLinkState::SYNC_RESYNC == currentState()) || _fsm_is_next_pos(M2MLinkState::SYNC_RESYNC)) {
+    return 0;   // Already planned, or in progress.
+  }
   if (0 == _fsm_prepend_state(M2MLinkState::SYNC_TENTATIVE)) {
     if (0 == _fsm_prepend_state(M2MLinkState::SYNC_RESYNC)) {
       ret = 0;
-- 
2.43.0


From d5dc51e29fa689d691ac0eb626463c7f48a08d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:24 +0000
Subject: [PATCH 087/179] fix: a link asked to hang up before it was
 established never repeated a CONNECT that was lost

---
 src/M2MLink/M2MLink.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index e3b8786..69c6eb9 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -281,7 +281,7 @@ int8_t M2MLink::poll(StringBuilder* log_ret) {
       // A CONNECT that was lost on a counterparty still looking for sync needs to
       //   be repeated, or we'd never see the reply to it.
       if (M2MLinkState::SYNC_TENTATIVE == currentState()) {
-        if (_fsm_is_stable() && (millis_since(_ms_last_send) > _opts.ms_timeout)) {
+        if ((_fsm_is_stable() || !_flags.value(M2MLINK_FLAG_ESTABLISHED)) && (millis_since(_ms_last_send) > _opts.ms_timeout)) {
           _send_connect_message();
         }
       }
-- 
2.43.0


From 6c8be384f0b5d9e466f0e5d2e7dd633f0c5b68ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:24 +0000
Subject: [PATCH 088/179] fix: a message for a service slot that does not exist
 was handed to whatever memory followed the slots

---
 src/M2MLink/M2MLink.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 69c6eb9..9400694 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1163,11 +1163,9 @@ int8_t M2MLink::_invoke_msg_callback(M2MMsg* msg) {
 */
 int8_t M2MLink::_offer_msg_to_service(uint8_t slot, M2MMsg* msg) {
   int8_t ret = -1;
-  if (CONFIG_C3PLINK_SERVICE_SLOTS > slot) {
-    ret++;
-  }
-  if (nullptr != _svc_list[slot]) {   // Call the callback, if it is set.
-    ret++;
+  if ((CONFIG_C3PLINK_SERVICE_SLOTS > slot) && (nullptr != _svc_list[slot])) {
+    // Call the callback, if it is set.
+    ret += 2;
     _svc_list[slot]->_handle_msg(_session_tag, msg);
     if (BusOpcode::TX == msg->direction()) {
       // If the message is now marked as TX, it means the application wants to
-- 
2.43.0


From 0336b67484815fe5946dce881d3cf91ad6afd532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:50 +0000
Subject: [PATCH 089/179] fix: a forced hangup did nothing unless the link was
 live

---
 src/M2MLink/M2MLink.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 9400694..eb6980e 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -337,6 +337,7 @@ int8_t M2MLink::hangup(bool graceful) {
     //   with the PENDING_HANGUP state. Obliterate the existing dialogs.
     _purge_inbound();
     _purge_outbound();
+    _flags.set(M2MLINK_FLAG_HANGUP_RXD | M2MLINK_FLAG_HANGUP_TXD);  // Nothing to wait for.
     ret = _fsm_set_route(1, M2MLinkState::HUNGUP);
   }
   return ret;
@@ -1604,6 +1605,17 @@ int8_t M2MLink::_fsm_poll() {
       break;
   }
 
+  // A link that was told to drop everything doesn't wait for sync or setup.
+  switch (currentState()) {
+    case M2MLinkState::SYNC_RESYNC:
+    case M2MLinkState::SYNC_TENTATIVE:
+    case M2MLinkState::PENDING_AUTH:
+      fsm_advance |= _fsm_is_next_pos(M2MLinkState::HUNGUP);
+      break;
+    default:
+      break;
+  }
+
   // Nothing that a state might be waiting for can arrive if sync was lost.
   fsm_advance |= _fsm_is_next_pos(M2MLinkState::SYNC_RESYNC);
 
-- 
2.43.0


From 8d6223392ea515f291c81ceec129e4da0f9271fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:43 +0000
Subject: [PATCH 090/179] fix: repeated hangups filled the link's plan with
 copies of themselves

---
 src/M2MLink/M2MLink.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index eb6980e..62ae270 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -315,7 +315,7 @@ int8_t M2MLink::hangup(bool graceful) {
     case M2MLinkState::LIVE:
       forced_hangup = !graceful;
       if (graceful) {
-        ret = _fsm_append_route(2, M2MLinkState::PENDING_HANGUP, M2MLinkState::HUNGUP);
+        ret = _fsm_state_planned(M2MLinkState::HUNGUP) ? -2 : _fsm_append_route(2, M2MLinkState::PENDING_HANGUP, M2MLinkState::HUNGUP);
       }
       break;
 
-- 
2.43.0


From 2f7b87a950b71db105c8bc668f86835c3b173f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:20 +0000
Subject: [PATCH 091/179] fix: Vector3 angles were NaN for (nearly) parallel
 and opposite vectors

Rounding could take the argument of acosf() above 1 in angle(), and below -1
in both.
---
 src/Vector3.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/Vector3.h b/src/Vector3.h
index e77d4bc..5d2b0ac 100644
--- a/src/Vector3.h
+++ b/src/Vector3.h
@@ -211,15 +211,21 @@ template <typename T> class Vector3 {
     static float angle(const Vector3<T> &v1, const Vector3<T> &v2) {
       const float V_DOT    = (float) (v1*v2);
       const float LEN_PROD = (float) (v1.length()*v2.length());
-      return ((0 != LEN_PROD) ? acosf(V_DOT / LEN_PROD) : 0.0f);
+      return ((0 != LEN_PROD) ? _bounded_acos(V_DOT / LEN_PROD) : 0.0f);
     };
 
     // computes the angle between 2 arbitrary normalized vectors
-    // NOTE: The minimum check is to prevent floating point rounding from
-    //   causing a domain error in acosf().
     static float angle_normalized(const Vector3<T> &v1, const Vector3<T> &v2) {
       const float V_DOT = (float) (v1*v2);
-      return acosf(((V_DOT <= 1.0f) ? V_DOT : 1.0f));
+      return _bounded_acos(V_DOT);
+    };
+
+
+  private:
+    // NOTE: The bounds are to prevent floating point rounding from causing a
+    //   domain error in acosf().
+    static float _bounded_acos(const float X) {
+      return acosf((X <= 1.0f) ? ((X >= -1.0f) ? X : -1.0f) : 1.0f);
     };
 
 };
-- 
2.43.0


From bf5d15f055e7ae13931f3bc82d4a1b56e28573c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:37 +0000
Subject: [PATCH 092/179] fix: TimeSeries::copyValueRange() started one sample
 too early

Asked for the COUNT most recent samples, it skipped the latest one and gave an
older one (or one of zero) in its place.
---
 src/TimeSeries/TimeSeries.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index 70fb94e..d81bb9b 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -495,7 +495,7 @@ template <class T> int8_t TimeSeries<T>::copyValueRange(T* buf, const uint32_t C
     if (COUNT > 0) {
       ret--;
       if (_samples_total >= (COUNT + OFFSET)) {  // Do so many samples exist?
-        const uint32_t PRE_MOD_IDX = (ABS_IDX ? OFFSET : ((windowSize() + OFFSET + _sample_idx) - (COUNT+1)));
+        const uint32_t PRE_MOD_IDX = (ABS_IDX ? OFFSET : ((windowSize() + OFFSET + _sample_idx) - COUNT));
         markClean();  // Do this here (specifically) to minimize concurrency grief.
         // TODO: Inefficient for the sake of expediency. Should be a split copy
         //   and a single modulus operation.
-- 
2.43.0


From 4d22dd8f07fa08531d6c8b5ce9e00ffc3012dff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:06 +0000
Subject: [PATCH 093/179] fix: medians of even windows overflowed the sample
 type

The sum of the two middle values does not fit in a 32-bit (or 64-bit) type if
they are large, so the median of {UINT32_MAX, UINT32_MAX} was 0x7FFFFFFF.
---
 src/TimeSeries/SensorFilter.h |  2 +-
 src/TimeSeries/TimeSeries.h   | 17 ++++++++++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index 2b0d1c2..c7a41e1 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -558,7 +558,7 @@ template <class T> T SensorFilter<T>::_calculate_median() {
     // ...otherwise, we take the mean to the two middle values.
     uint32_t lower = (_window_size-1) >> 1;
     uint32_t upper = lower + 1;
-    ret = (sorted[upper] + sorted[lower]) / 2;
+    ret = midpoint_of(sorted[lower], sorted[upper]);
   }
   return ret;
 }
diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index d81bb9b..f2c0135 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -154,6 +154,21 @@ class TimeSeriesBase {
 
 
 
+/**
+* The mean of two ordered values, without exceeding the range of their type.
+* Integers are truncated toward zero.
+*
+* @param LOWER is the lesser value.
+* @param UPPER is the greater value.
+* @return the value halfway between the arguments.
+*/
+template <class T> T midpoint_of(const T LOWER, const T UPPER) {
+  if ((LOWER < T(0)) != (UPPER < T(0))) {  return (UPPER + LOWER) / 2;              }
+  if (UPPER < T(0)) {                      return UPPER - ((UPPER - LOWER) / 2);    }
+  return LOWER + ((UPPER - LOWER) / 2);
+}
+
+
 /******************************************************************************
 * Linear sequences of simple numeric values
 ******************************************************************************/
@@ -639,7 +654,7 @@ template <class T> int8_t TimeSeries<T>::_calculate_median() {
       // ...otherwise, we take the mean to the two middle values.
       uint32_t lower = (_window_size-1) >> 1;
       uint32_t upper = lower + 1;
-      _median = (sorted[upper] + sorted[lower]) / 2;
+      _median = midpoint_of(sorted[lower], sorted[upper]);
     }
     _set_flags(true, TIMESERIES_FLAG_VALID_MEDIAN);
   }
-- 
2.43.0


From 98a6d513d2cfe296ca86c0ec0dc32ffb4a7ee07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:36 +0000
Subject: [PATCH 094/179] fix: TimeSeries kept its statistics after its window
 was resized to nothing

---
 src/TimeSeries/TimeSeries.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index f2c0135..75ac21a 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -378,6 +378,7 @@ template <class T> int8_t TimeSeries<T>::_reallocate_sample_window(uint32_t win)
       else {       // Program asked for no sample depth. Return success, having
         ret = 0;   //   basically de-initialized the class.
         _window_size = 0;
+        _zero_samples();   // There may be statistics from the prior window.
       }
     }
     else {         // We can't reallocate if we were constructed with
-- 
2.43.0


From 1ad915d71db1e538db360623d4e4434e795bcb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:08 +0000
Subject: [PATCH 095/179] fix: parsing samples into an existing TimeSeries left
 its old statistics and index

The new samples begin at the start of the sample memory, but the object kept
its index into the old ones (so they read back in the wrong order), and the
statistics it had calculated from them.
---
 src/TimeSeries/TimeSeries.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/TimeSeries/TimeSeries.cpp b/src/TimeSeries/TimeSeries.cpp
index 25797dc..197d797 100644
--- a/src/TimeSeries/TimeSeries.cpp
+++ b/src/TimeSeries/TimeSeries.cpp
@@ -328,6 +328,9 @@ template <> int8_t C3PTypeConstraint<TimeSeriesBase*>::construct(void* _obj, Key
         const uint32_t ADJUSTED_IDX = idx_val + (SAMPLE_COUNT - dat_val->count());
         const uint32_t SIZE_OF_TYPE = sizeOfType(obj->tcode());
         uint32_t count = 0;
+        // Whatever the object held ahead of this is being replaced.
+        obj->_sample_idx = 0;
+        obj->invalidateStats();
         while ((nullptr != dat_val) && (count < SAMPLE_COUNT)) {
           const uint32_t ABS_MEM_IDX  = (count + (obj->_samples_total - ADJUSTED_IDX)) % obj->windowSize();
           // NOTE: The strange casting dance below is to convince the compiler
-- 
2.43.0


From 7b150b4a51cfab90ec47b0c070762315b1f145b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 096/179] fix: statistics of sensor filters with a window of
 one or none

A filter with a window of one did not retain (or count) its sample, so its
statistics were those of a zero. And one with no window (or not yet initialized)
read through a null pointer to calculate them.
---
 src/TimeSeries/SensorFilter.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index c7a41e1..1bd8d1c 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -419,6 +419,8 @@ template <class T> int8_t SensorFilter<T>::feedFilter(T val) {
       }
     }
     else {   // This is a null filter with extra steps.
+      if (nullptr != samples) {  *samples = val;  }
+      _samples_total++;
       last_value = val;
       _window_full = true;
       ret = 1;
@@ -453,7 +455,7 @@ template <class T> T SensorFilter<T>::value() {
 * Updates the private cache variable.
 */
 template <class T> void SensorFilter<T>::_calculate_minmax() {
-  if (_filter_initd && _window_full) {
+  if ((_window_size > 0) && _filter_initd && _window_full) {
     min_value = samples[0];   // Start with a baseline.
     max_value = samples[0];   // Start with a baseline.
     for (uint32_t i = 1; i < _window_size; i++) {
@@ -472,7 +474,7 @@ template <class T> void SensorFilter<T>::_calculate_minmax() {
 * @return the mean of the contents of the filter.
 */
 template <class T> double SensorFilter<T>::_calculate_mean() {
-  if (_filter_initd && _window_full) {
+  if ((_window_size > 0) && _filter_initd && _window_full) {
     double summed_samples = 0.0;
     for (uint32_t i = 0; i < _window_size; i++) {
       summed_samples += (double) samples[i];
@@ -530,8 +532,9 @@ template <class T> double SensorFilter<T>::_calculate_stdev() {
 * @return the median of the contents of the filter.
 */
 template <class T> T SensorFilter<T>::_calculate_median() {
-  T sorted[_window_size];
   T ret = T(0);
+  if ((0 == _window_size) || (nullptr == samples)) {  return ret;  }
+  T sorted[_window_size];
   for (uint32_t i = 0; i < _window_size; i++) {
     sorted[i] = samples[i];
   }
-- 
2.43.0


From b960d60bd09dbb07a17cb9d32e3e98da9644400d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 097/179] fix: purging a sensor filter left it part-way through
 its prior window

The index was kept, so the window was reported full before it was. The vector
filter also still reported itself as being full, along with the minimum and
maximum of what was purged.
---
 src/TimeSeries/SensorFilter.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index 1bd8d1c..bbb92a5 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -318,6 +318,7 @@ template <class T> int8_t SensorFilter<T>::_reallocate_sample_window(uint32_t wi
 template <class T> int8_t SensorFilter<T>::_zero_samples() {
   int8_t ret = -1;
   _samples_total = 0;
+  _sample_idx    = 0;
   last_value = T(0);
   min_value  = T(0);
   max_value  = T(0);
@@ -657,7 +658,12 @@ template <class T> int8_t SensorFilter3<T>::_reallocate_sample_window(uint32_t w
 template <class T> int8_t SensorFilter3<T>::_zero_samples() {
   int8_t ret = -1;
   _samples_total = 0;
+  _sample_idx    = 0;
+  _window_full   = false;
+  invalidateStats();
   last_value(T(0), T(0), T(0));
+  min_value(T(0), T(0), T(0));
+  max_value(T(0), T(0), T(0));
   _mean(T(0), T(0), T(0));
   _rms(T(0), T(0), T(0));
   _stdev(T(0), T(0), T(0));
-- 
2.43.0


From 5bb937c757710cd2140aafd29059781699597285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 098/179] fix: moving averages of signed integers were computed
 unsigned

Negative values were promoted to the unsigned type of the window size. Sums
could also exceed 32 bits.
---
 src/TimeSeries/SensorFilter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index bbb92a5..40a46ca 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -410,7 +410,7 @@ template <class T> int8_t SensorFilter<T>::feedFilter(T val) {
             break;
           case FilteringStrategy::MOVING_AVG:
             // Calculate the moving average...
-            last_value = ((last_value * (_window_size-1)) + val) / _window_size;
+            last_value = ((last_value * (int64_t) (_window_size-1)) + val) / (int64_t) _window_size;
             break;
           case FilteringStrategy::MOVING_MED:
             // Calculate the moving median...
-- 
2.43.0


From eb8795ec1aabd09e9e7e9c6269ea86912e75d5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 099/179] fix: sensor filters kept their results after the
 window was resized to nothing

---
 src/TimeSeries/SensorFilter.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index 40a46ca..a7c6d7b 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -296,6 +296,7 @@ template <class T> int8_t SensorFilter<T>::_reallocate_sample_window(uint32_t wi
         _sample_idx = 0;
       }
       else {   // Program asked for no sample depth.
+        _zero_samples();   // There may be results from the prior window.
         ret = 0;
       }
     }
@@ -636,6 +637,7 @@ template <class T> int8_t SensorFilter3<T>::_reallocate_sample_window(uint32_t w
         _sample_idx = 0;
       }
       else {   // Program asked for no sample depth.
+        _zero_samples();   // There may be results from the prior window.
         ret = 0;
       }
     }
-- 
2.43.0


From b3d069b1a4f8939d1a58ed72f1f8e7b7d532bfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:19 +0000
Subject: [PATCH 100/179] fix: TripleAxisTerminus refused every vector it had
 taken

A fork or convention above it therefore reported failure.
---
 src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
index 3c9906b..318a6ce 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
@@ -183,6 +183,7 @@ int8_t TripleAxisTerminus::getDataWithErr(Vector3f* d, Vector3f* e, uint32_t* c)
 FAST_FUNC int8_t TripleAxisTerminus::pushVector(const SpatialSense s, Vector3f* data, Vector3f* error) {
   int8_t ret = -1;
   if (_SENSE == s) {
+    ret = 0;
     _last_update = millis();
     _update_count++;
     _DATA.set(data);
-- 
2.43.0


From 96481b7f46ccaa48ae204f81f358156f0a0a52c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:19 +0000
Subject: [PATCH 101/179] fix: TripleAxisSingleFilter dereferenced an absent
 error vector

---
 src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
index 318a6ce..c0a66cb 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
@@ -271,7 +271,10 @@ FAST_FUNC int8_t TripleAxisSingleFilter::pushVector(const SpatialSense s, Vector
   if (initialized()) {
     ret = -1;
     if (_SENSE == s) {
-      Vector3f tmp_err(error);
+      Vector3f tmp_err;
+      if (nullptr != error) {
+        tmp_err.set(error);
+      }
       ret = 0;
       switch (feedFilter(data)) {
         case 0:    // Value accepted into filter. No new result.
-- 
2.43.0


From 81adbbd1d65ebe9ed917a234a436bee239e4b3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:19 +0000
Subject: [PATCH 102/179] fix: TripleAxisSingleFilter relayed into nothing, and
 reported a successful relay as failure

---
 src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
index c0a66cb..349c7e1 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
@@ -320,8 +320,8 @@ FAST_FUNC int8_t TripleAxisSingleFilter::pushVector(const SpatialSense s, Vector
     }
     else {
       // We blindly relay vectors of SpatialSense's we aren't configured for.
-      if (0 == _NXT->pushVector(s, data, error)) {
-        ret = -5;
+      if (nullptr != _NXT) {
+        ret = _NXT->pushVector(s, data, error);
       }
     }
   }
-- 
2.43.0


From cd768827b0e1a4a8d26cb1823201b6ec23a336f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:19 +0000
Subject: [PATCH 103/179] fix: TripleAxisOrientation was never dirty without a
 downstream stage

---
 src/Pipes/TripleAxisPipe/TripleAxisOrientation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Pipes/TripleAxisPipe/TripleAxisOrientation.cpp b/src/Pipes/TripleAxisPipe/TripleAxisOrientation.cpp
index 5770649..45b5943 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisOrientation.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisOrientation.cpp
@@ -62,7 +62,7 @@ int8_t TripleAxisOrientation::pushVector(const SpatialSense s, Vector3f* data, V
           ret = _NXT->pushVector(SpatialSense::EULER_ANG, &_gravity, &_ERR_ACC);
         }
         if (!_flags.value(TRIPAX_ORIENT_FLAG_VALUE_DIRTY)) {
-          _flags.set(TRIPAX_ORIENT_FLAG_VALUE_DIRTY, (0 > ret));
+          _flags.set(TRIPAX_ORIENT_FLAG_VALUE_DIRTY, ((nullptr == _NXT) || (0 > ret)));
         }
       }
       break;
-- 
2.43.0


From 1e7e27c93e1058713260c9dac8cd536b8568bcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 104/179] fix: Image wrote and read outside of its buffer, and
 aliased pixels beyond the right edge

setPixel() checked nothing (and always returned false), and the other accessors
only checked the linear offset.
---
 src/Image/Image.cpp | 20 ++++++++++++--------
 src/Image/Image.h   |  3 +++
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index d59501c..3ee04b3 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -898,11 +898,10 @@ void Image::_remap_for_orientation(PixUInt* xn, PixUInt* yn) {
 */
 uint32_t Image::getPixel(PixUInt x, PixUInt y) {
   uint32_t ret = 0;
-  uint32_t sz = bytesUsed();
   _remap_for_orientation(&x, &y);
-  uint32_t offset = _pixel_offset(x, y);
 
-  if (offset < sz) {
+  if (_pixel_exists(x, y)) {
+    uint32_t offset = _pixel_offset(x, y);
     switch (_buf_fmt) {
       case ImgBufferFormat::R8_G8_B8_ALPHA:    // 32-bit color
         // TODO: Presumption of little-endian framebuffer.
@@ -1042,6 +1041,9 @@ uint32_t Image::getPixelAsFormat(PixUInt x, PixUInt y, ImgBufferFormat target_fm
 */
 bool Image::setPixel(PixUInt x, PixUInt y, uint32_t c) {
   _remap_for_orientation(&x, &y);
+  if (!_pixel_exists(x, y)) {
+    return false;   // Addressed pixel is out-of-bounds
+  }
   switch (_buf_fmt) {
     case ImgBufferFormat::R3_G3_B2:          // 8-bit color
     case ImgBufferFormat::GREY_8:            // 8-bit greyscale
@@ -1069,9 +1071,9 @@ bool Image::setPixel(PixUInt x, PixUInt y, uint32_t c) {
       break;
     case ImgBufferFormat::UNALLOCATED:       // Buffer unallocated
     default:
-      break;;
+      return false;
   }
-  return false;
+  return true;
 }
 
 
@@ -1080,9 +1082,8 @@ bool Image::setPixel(PixUInt x, PixUInt y, uint32_t c) {
 */
 bool Image::setPixel(PixUInt x, PixUInt y, uint8_t r, uint8_t g, uint8_t b) {
   _remap_for_orientation(&x, &y);
-  uint32_t sz = bytesUsed();
-  uint32_t offset = _pixel_offset(x, y);
-  if (offset < sz) {
+  if (_pixel_exists(x, y)) {
+    uint32_t offset = _pixel_offset(x, y);
     switch (_buf_fmt) {
       case ImgBufferFormat::GREY_24:           // 24-bit greyscale   TODO: Wrong. Has to be.
       case ImgBufferFormat::R8_G8_B8:          // 24-bit color
@@ -1923,6 +1924,9 @@ void Image::drawBitmap(PixUInt x, PixUInt y, const uint8_t* bitmap, PixUInt w, P
 *
 */
 void Image::fill(uint32_t color) {
+  if (!allocated()) {
+    return;
+  }
   //uint8_t bpp = _bits_per_pixel();
   _lock(true);
   switch (_bits_per_pixel()) {
diff --git a/src/Image/Image.h b/src/Image/Image.h
index 26f10c3..7408f4b 100644
--- a/src/Image/Image.h
+++ b/src/Image/Image.h
@@ -321,6 +321,9 @@ class Image {
       *(_buffer + _pixel_number(x, y)) = (uint8_t) c;
     };
 
+    /* Is there storage for the pixel at the given buffer coordinates? */
+    inline bool _pixel_exists(PixUInt x, PixUInt y) {    return (allocated() && (x < _x) && (y < _y));    };
+
     /* Linearizes the X/y value in preparation for array indexing. */
     inline uint32_t _pixel_number(uint32_t x, uint32_t y) {      return ((y * _x) + x);    };
 
-- 
2.43.0


From ba0f2e505bc96418aef9ebdf12368076bce90996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 105/179] fix: Image stored 24-bit pixels four bytes apart,
 beyond its buffer

---
 src/Image/Image.cpp | 6 +++---
 src/Image/Image.h   | 6 ++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 3ee04b3..788d117 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1937,9 +1937,9 @@ void Image::fill(uint32_t color) {
       break;
     case 24:
       for (uint32_t i=0; i < (_x * _y); i++) {
-        *(_buffer + (i << 2) + 0) = (uint8_t) (color >> 16) & 0xFF;
-        *(_buffer + (i << 2) + 1) = (uint8_t) (color >> 8) & 0xFF;
-        *(_buffer + (i << 2) + 2) = (uint8_t) (color & 0xFF);
+        *(_buffer + (i * 3) + 0) = (uint8_t) (color >> 16) & 0xFF;
+        *(_buffer + (i * 3) + 1) = (uint8_t) (color >> 8) & 0xFF;
+        *(_buffer + (i * 3) + 2) = (uint8_t) (color & 0xFF);
       }
       break;
     case 16:
diff --git a/src/Image/Image.h b/src/Image/Image.h
index 7408f4b..6a347b4 100644
--- a/src/Image/Image.h
+++ b/src/Image/Image.h
@@ -311,8 +311,10 @@ class Image {
       *((uint32_t*) (_buffer + (_pixel_number(x, y) << 2))) = c;
     };
     inline void _set_pixel_24(PixUInt x, PixUInt y, uint32_t c) {
-      // TODO: Wrong.
-      *((uint32_t*) (_buffer + (_pixel_number(x, y) << 2))) = c;
+      uint8_t* pix = (_buffer + (_pixel_number(x, y) * 3));
+      *(pix + 0) = (uint8_t) (c >> 16);
+      *(pix + 1) = (uint8_t) (c >> 8);
+      *(pix + 2) = (uint8_t) c;
     };
     inline void _set_pixel_16(PixUInt x, PixUInt y, uint32_t c) {
       *((uint16_t*) (_buffer + (_pixel_number(x, y) << 1))) = (uint16_t) c;
-- 
2.43.0


From 59c1b777d5ca1bcc12a9bc62a428d6c7d482c4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 106/179] fix: Image wrote 16-bit pixels in host order, but
 read them in big-endian order

---
 src/Image/Image.cpp | 3 ++-
 src/Image/Image.h   | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 788d117..73da794 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1944,7 +1944,8 @@ void Image::fill(uint32_t color) {
       break;
     case 16:
       for (uint32_t i=0; i < (_x * _y); i++) {
-        *((uint16_t*) (_buffer + (i << 1))) = (uint16_t) color;
+        *(_buffer + (i << 1) + 0) = (uint8_t) (color >> 8);
+        *(_buffer + (i << 1) + 1) = (uint8_t) color;
       }
       break;
     case 8:
diff --git a/src/Image/Image.h b/src/Image/Image.h
index 6a347b4..76ba522 100644
--- a/src/Image/Image.h
+++ b/src/Image/Image.h
@@ -317,7 +317,9 @@ class Image {
       *(pix + 2) = (uint8_t) c;
     };
     inline void _set_pixel_16(PixUInt x, PixUInt y, uint32_t c) {
-      *((uint16_t*) (_buffer + (_pixel_number(x, y) << 1))) = (uint16_t) c;
+      uint8_t* pix = (_buffer + (_pixel_number(x, y) << 1));
+      *(pix + 0) = (uint8_t) (c >> 8);
+      *(pix + 1) = (uint8_t) c;
     };
     inline void _set_pixel_8(PixUInt x, PixUInt y, uint32_t c) {
       *(_buffer + _pixel_number(x, y)) = (uint8_t) c;
-- 
2.43.0


From 959422de838bb59e0008458e7a095592d7f2259c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 107/179] fix: Image::setPixel(r, g, b) kept the wrong bits of
 each channel in 8-bit and 16-bit formats

---
 src/Image/Image.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 73da794..6367111 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1093,12 +1093,12 @@ bool Image::setPixel(PixUInt x, PixUInt y, uint8_t r, uint8_t g, uint8_t b) {
         break;
       case ImgBufferFormat::GREY_16:           // 16-bit greyscale   TODO: Wrong. Has to be.
       case ImgBufferFormat::R5_G6_B5:          // 16-bit color
-        *(_buffer + offset + 0) = ((uint16_t) ((r << 3) & 0xF8) << 8) | ((g >> 3) & 0x07);
-        *(_buffer + offset + 1) = ((uint16_t) ((g << 5) & 0xE0) << 8) | ((b >> 3) & 0x1F);
+        *(_buffer + offset + 0) = (r & 0xF8) | (g >> 5);
+        *(_buffer + offset + 1) = ((g << 3) & 0xE0) | (b >> 3);
         break;
       case ImgBufferFormat::GREY_8:            // 8-bit greyscale    TODO: Wrong. Has to be.
       case ImgBufferFormat::R3_G3_B2:          // 8-bit color
-        *(_buffer + offset) = ((uint8_t) (r << 6) & 0xE0) | ((uint8_t) (g << 2) & 0x1C) | (b & 0x07);
+        *(_buffer + offset) = (r & 0xE0) | ((g >> 3) & 0x1C) | (b >> 6);
         break;
       case ImgBufferFormat::MONOCHROME:        // Monochrome
         {
-- 
2.43.0


From caa7901fabec4f138b356ecfd93a7c30258bc459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 108/179] fix: Monochrome Images addressed bytes outside of
 their buffer unless their height was a multiple of 8

---
 src/Image/Image.cpp | 22 +++++++++++-----------
 src/Image/Image.h   |  3 +++
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 6367111..19b71ac 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -926,9 +926,9 @@ uint32_t Image::getPixel(PixUInt x, PixUInt y) {
         break;
       case ImgBufferFormat::MONOCHROME:        // Monochrome
         {
-          const uint32_t term0 = (_y >> 3);
-          const uint8_t bit_mask = 1 << (7 - (y & 0x07));
-          offset = x * term0 + (term0 - (y >> 3) - 1);
+          const uint32_t bit_num = _pixel_bit_number(x, y);
+          const uint8_t bit_mask = 1 << (bit_num & 0x07);
+          offset = (bit_num >> 3);
           uint8_t byte_group = *(_buffer + offset);
           // Full saturation on boolean pixel value.
           ret = (byte_group & bit_mask) ? 0xFFFFFFFF : 0;
@@ -1062,9 +1062,9 @@ bool Image::setPixel(PixUInt x, PixUInt y, uint32_t c) {
       break;
     case ImgBufferFormat::MONOCHROME:        // Monochrome
       {
-        const PixUInt term0 = (_y >> 3);
-        const uint32_t offset = x * term0 + (term0 - (y >> 3) - 1);
-        const uint8_t bit_mask = 1 << (7 - (y & 0x07));
+        const uint32_t bit_num = _pixel_bit_number(x, y);
+        const uint32_t offset = (bit_num >> 3);
+        const uint8_t bit_mask = 1 << (bit_num & 0x07);
         uint8_t byte_group = *(_buffer + offset);
         *(_buffer + offset) = (byte_group & ~bit_mask) | ((0 == c) ? 0 : bit_mask);
       }
@@ -1102,9 +1102,9 @@ bool Image::setPixel(PixUInt x, PixUInt y, uint8_t r, uint8_t g, uint8_t b) {
         break;
       case ImgBufferFormat::MONOCHROME:        // Monochrome
         {
-          const PixUInt term0 = (_y >> 3);
-          const uint8_t bit_mask = 1 << (7 - (y & 0x07));
-          offset = x * term0 + (term0 - (y >> 3) - 1);
+          const uint32_t bit_num = _pixel_bit_number(x, y);
+          const uint8_t bit_mask = 1 << (bit_num & 0x07);
+          offset = (bit_num >> 3);
           uint8_t byte_group = *(_buffer + offset);
           *(_buffer + offset) = (byte_group & ~bit_mask) | ((0 == ((uint16_t) r + g + b)) ? 0 : bit_mask);
         }
@@ -1953,8 +1953,8 @@ void Image::fill(uint32_t color) {
         *(_buffer + i) = (uint8_t) color;
       }
       break;
-    case 1:   // NOTE: Assumes a pixel count of mod(8).
-      for (uint32_t i=0; i < (uint32_t) ((_x * _y) >> 3); i++) {
+    case 1:
+      for (uint32_t i=0; i < bytesUsed(); i++) {
         *(_buffer + i) = (0 != color) ? 0xFF : 0x00;
       }
       break;
diff --git a/src/Image/Image.h b/src/Image/Image.h
index 76ba522..e4caa6e 100644
--- a/src/Image/Image.h
+++ b/src/Image/Image.h
@@ -334,6 +334,9 @@ class Image {
     /* Returns the byte offset in the buffer that holds the pixel. */
     inline uint32_t _pixel_offset(PixUInt x, PixUInt y) {    return ((_pixel_number(x, y) * _bits_per_pixel()) >> 3);  };
 
+    /* Returns the bit within a monochrome buffer that holds the pixel. Columns run from bottom to top. */
+    inline uint32_t _pixel_bit_number(uint32_t x, uint32_t y) {    return ((x * _y) + (_y - 1 - y));  };
+
     inline bool  _is_ours() {     return _img_flag(C3P_IMG_FLAG_BUFFER_OURS); };
     inline void  _ours(bool l) {  _img_set_flag(C3P_IMG_FLAG_BUFFER_OURS, l); };
 
-- 
2.43.0


From e1b5d3ba0bae1e202cb16d5f39b175601238e72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 109/179] fix: Image took on the new size or format when it
 could not re-allocate its buffer

It then drew beyond the end of the buffer it still had.
---
 src/Image/Image.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 19b71ac..c4c1381 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -526,6 +526,9 @@ bool Image::setBufferByCopy(uint8_t* buf, ImgBufferFormat fmt) {
       }
     }
     else {
+      if ((ImgBufferFormat::UNALLOCATED == fmt) || (allocated() && !_is_ours() && (_bits_per_pixel(fmt) != _bits_per_pixel(_buf_fmt)))) {
+        return false;   // A buffer that isn't ours can't be re-allocated.
+      }
       ImgBufferFormat old_fmt = _buf_fmt;
       _buf_fmt = fmt;
       if (allocated() && (_bits_per_pixel(old_fmt) == _bits_per_pixel(_buf_fmt))) {
@@ -550,6 +553,9 @@ bool Image::setBufferByCopy(uint8_t* buf, ImgBufferFormat fmt) {
 
 
 bool Image::setSize(PixUInt x, PixUInt y) {
+  if (allocated() && !_is_ours()) {
+    return false;   // A buffer that isn't ours can't be re-sized.
+  }
   _x = x;
   _y = y;
   return (0 == _buffer_allocator());
-- 
2.43.0


From 0bd13070c9ba0f878a4e1e2ed964d14a5fb996ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 110/179] fix: Image hung on, or drew the inverse of, straight
 lines and rectangles that were empty or began outside of it

y+h-1 wrapped, and drawLine() then took the long way around.
---
 src/Image/Image.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index c4c1381..352fcc0 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1527,8 +1527,11 @@ void Image::drawFastVLine(PixUInt x, PixUInt y, PixUInt h, uint32_t color) {
   // Overwrite in subclasses if startWrite is defined!
   // Can be just drawLine(x, y, x, y+h-1, color);
   // or fillRect(x, y, 1, h, color);
+  // NOTE: Coordinates may wrap, for lines that begin outside of the Image.
   _lock(true);
-  drawLine(x, y, x, y+h-1, color);
+  for (uint32_t i=0; i<h; i++) {
+    setPixel(x, y+i, color);
+  }
   _lock(false);
 }
 
@@ -1544,8 +1547,11 @@ void Image::drawFastHLine(PixUInt x, PixUInt y, PixUInt w, uint32_t color) {
   // Overwrite in subclasses if startWrite is defined!
   // Example: drawLine(x, y, x+w-1, y, color);
   // or fillRect(x, y, w, 1, color);
+  // NOTE: Coordinates may wrap, for lines that begin outside of the Image.
   _lock(true);
-  drawLine(x, y, x+w-1, y, color);
+  for (uint32_t i=0; i<w; i++) {
+    setPixel(x+i, y, color);
+  }
   _lock(false);
 }
 
@@ -1560,8 +1566,8 @@ void Image::drawFastHLine(PixUInt x, PixUInt y, PixUInt w, uint32_t color) {
 */
 void Image::fillRect(PixUInt x, PixUInt y, PixUInt w, PixUInt h, uint32_t color) {
   _lock(true);
-  for (uint32_t i=x; i<x+w; i++) {
-    drawLine(i, y, i, y+h-1, color);
+  for (uint32_t i=0; i<w; i++) {
+    drawFastVLine(x+i, y, h, color);
   }
   _lock(false);
 }
-- 
2.43.0


From f9f4e1bbd518a57ce225f5d9b1164c6789255efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 111/179] fix: Image drew lines beside empty rectangles

---
 src/Image/Image.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 352fcc0..3935920 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1582,6 +1582,9 @@ void Image::fillRect(PixUInt x, PixUInt y, PixUInt w, PixUInt h, uint32_t color)
 *  @param    color 16-bit 5-6-5 Color to draw with
 */
 void Image::drawRect(PixUInt x, PixUInt y, PixUInt w, PixUInt h, uint32_t color) {
+  if ((0 == w) || (0 == h)) {
+    return;
+  }
   drawFastHLine(x, y, w, color);
   drawFastHLine(x, y + h - 1, w, color);
   drawFastVLine(x, y, h, color);
@@ -1598,6 +1601,9 @@ void Image::drawRect(PixUInt x, PixUInt y, PixUInt w, PixUInt h, uint32_t color)
     @param    color 16-bit 5-6-5 Color to draw with
 */
 void Image::drawRoundRect(PixUInt x, PixUInt y, PixUInt w, PixUInt h, PixUInt r, uint32_t color) {
+  if ((0 == w) || (0 == h)) {
+    return;
+  }
   PixUInt max_radius = ((w < h) ? w : h) >> 1; // 1/2 minor axis
   if (r > max_radius) r = max_radius;
   // smarter version
-- 
2.43.0


From 3cc2b8655324720c86f926f1b3a2d1af8b2e5a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 112/179] fix: Image::drawLine() never returned from lines to
 the last representable coordinate

---
 src/Image/Image.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 3935920..798f551 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -2017,6 +2017,9 @@ void Image::drawLine(PixUInt x0, PixUInt y0, PixUInt x1, PixUInt y1, uint32_t co
       y0 += ystep;
       err += dx;
     }
+    if (x0 == x1) {
+      break;   // Otherwise, a line to the last representable coordinate would never end.
+    }
     x0++;
   }
 }
-- 
2.43.0


From 64b4f6e85ce523f15c0d06f9c89312a335e41cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 113/179] fix: Image::fillTriangle() computed leftward edges
 with unsigned integers

---
 src/Image/Image.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 798f551..3a7832b 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1667,7 +1667,7 @@ void Image::drawTriangle(PixUInt x0, PixUInt y0, PixUInt x1, PixUInt y1, PixUInt
     @param    color 16-bit 5-6-5 Color to fill/draw with
 */
 void Image::fillTriangle(PixUInt x0, PixUInt y0, PixUInt x1, PixUInt y1, PixUInt x2, PixUInt y2, uint32_t color) {
-  PixUInt a, b, y, last;
+  int32_t a, b, y, last;
   // Sort coordinates by Y order (y2 >= y1 >= y0)
   if (y0 > y1) {
     strict_swap(&y0, &y1);
@@ -1692,9 +1692,9 @@ void Image::fillTriangle(PixUInt x0, PixUInt y0, PixUInt x1, PixUInt y1, PixUInt
     return;
   }
 
-  PixUInt dx01 = x1 - x0, dy01 = y1 - y0, dx02 = x2 - x0, dy02 = y2 - y0,
+  int32_t dx01 = x1 - x0, dy01 = y1 - y0, dx02 = x2 - x0, dy02 = y2 - y0,
           dx12 = x2 - x1, dy12 = y2 - y1;
-  PixUInt sa = 0, sb = 0;
+  int32_t sa = 0, sb = 0;
 
   // For upper part of triangle, find scanline crossings for segments
   // 0-1 and 0-2.  If y1=y2 (flat-bottomed triangle), the scanline y1
-- 
2.43.0


From 83e6d396d8c9aba368e7cba79a365c4bc4f19b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 114/179] fix: Image::getTextBounds() extended to the last
 representable coordinate

And its StringBuilder form left its results unset for an empty string.
---
 src/Image/Image.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 3a7832b..409be27 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1472,9 +1472,7 @@ void Image::getTextBounds(const char* str, PixUInt x, PixUInt y, PixUInt* x1, Pi
   @param    h      The boundary height, set by function
 */
 void Image::getTextBounds(StringBuilder* str, PixUInt x, PixUInt y, PixUInt* x1, PixUInt* y1, PixUInt* w, PixUInt* h) {
-  if (str->length() != 0) {
-    getTextBounds((const uint8_t*) str->string(), x, y, x1, y1, w, h);
-  }
+  getTextBounds((const uint8_t*) str->string(), x, y, x1, y1, w, h);
 }
 
 
@@ -1497,8 +1495,8 @@ void Image::getTextBounds(const uint8_t* str, PixUInt x, PixUInt y, PixUInt* x1,
 
   PixUInt minx = _x;
   PixUInt miny = _y;
-  PixUInt maxx = -1;
-  PixUInt maxy = -1;
+  PixUInt maxx = 0;
+  PixUInt maxy = 0;
 
   while((c = *s++)) {
     _char_bounds(c, &x, &y, &minx, &miny, &maxx, &maxy);
-- 
2.43.0


From 554dd5b9fd803f9956bc4898d0acb6121e41b28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 115/179] fix: The size of large Image buffers was computed
 modulo 2^29 bytes

---
 src/Image/Image.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 409be27..6d2e010 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -574,9 +574,9 @@ uint32_t Image::bytesUsed() {
   if (ImgBufferFormat::UNALLOCATED == _buf_fmt) return 0;
   const uint32_t PIXEL_COUNT  = pixels();
   const uint8_t  BPP          = _bits_per_pixel();
-  const uint32_t TOTAL_BITS   = (PIXEL_COUNT * BPP);
-  const uint32_t PADDING_BYTE = ((TOTAL_BITS & 7) ? 1:0);
-  return ((TOTAL_BITS >> 3) + PADDING_BYTE);
+  const uint64_t TOTAL_BITS   = ((uint64_t) PIXEL_COUNT * BPP);
+  const uint64_t TOTAL_BYTES  = ((TOTAL_BITS >> 3) + ((TOTAL_BITS & 7) ? 1:0));
+  return ((TOTAL_BYTES > 0xFFFFFFFFULL) ? 0xFFFFFFFFUL : (uint32_t) TOTAL_BYTES);
 };
 
 
-- 
2.43.0


From 3ff031451ebd1586b63697bd5c9db799df55f3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 116/179] fix: Image::deserialize() did not read the header
 that serialize() writes

It read the coordinates at half their width, the format and flags from among
them, and took sizes modulo 2^32.
---
 src/Image/Image.cpp | 43 +++++++++++++++++++------------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 6d2e010..0957877 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -711,30 +711,25 @@ int8_t Image::deserialize(uint8_t* buf, uint32_t len) {
   if (ImgBufferFormat::UNALLOCATED == _buf_fmt) {
     // TODO: This is awful, and will absolutely wreck someone later.
     //   Shunt this responsibility to C3PType.
-    const uint8_t PIX_AND_FMT_LEN = (sizeof(PixUInt) + 1);
-    if (len > PIX_AND_FMT_LEN) {
-      #if(9 > CONFIG_C3P_IMG_COORD_BITS)
-        PixUInt temp_x = (PixUInt) *(buf + 0);
-        PixUInt temp_y = (PixUInt) *(buf + 1);
-      #elif(17 > CONFIG_C3P_IMG_COORD_BITS)
-        PixUInt temp_x = ((PixUInt) *(buf + 0) << 8) | ((PixUInt) *(buf + 1));
-        PixUInt temp_y = ((PixUInt) *(buf + 2) << 8) | ((PixUInt) *(buf + 3));
-      #elif(33 > CONFIG_C3P_IMG_COORD_BITS)
-        PixUInt temp_x = ((PixUInt) *(buf + 0) << 24) | ((PixUInt) *(buf + 1) << 16) | ((PixUInt) *(buf + 2) << 8) | ((PixUInt) *(buf + 3));
-        PixUInt temp_y = ((PixUInt) *(buf + 4) << 24) | ((PixUInt) *(buf + 5) << 16) | ((PixUInt) *(buf + 6) << 8) | ((PixUInt) *(buf + 7));
-      #else
-        #error Integers for holding pixel addresses cannot be larger than 32-bit.
-      #endif
-      ImgBufferFormat temp_fmt = (ImgBufferFormat) *(buf + (PIX_AND_FMT_LEN-1));
-      uint32_t temp_f = *(buf + PIX_AND_FMT_LEN);
-      uint32_t proposed_size = (_bits_per_pixel(temp_fmt) * temp_x * temp_y) >> 3;
-      if (proposed_size == (len - (PIX_AND_FMT_LEN+1))) {
-        // The derived and declared sizes match.
-        _x = temp_x;
-        _y = temp_y;
-        _buf_fmt  = temp_fmt;
-        _imgflags = temp_f;
-        return setBufferByCopy(buf + (PIX_AND_FMT_LEN+1)) ? 0 : -2;
+    // The coordinates are always serialized as 32-bit integers.
+    const uint8_t HEADER_LEN = 10;
+    if (len >= HEADER_LEN) {
+      const uint32_t temp_x = ((uint32_t) *(buf + 0) << 24) | ((uint32_t) *(buf + 1) << 16) | ((uint32_t) *(buf + 2) << 8) | ((uint32_t) *(buf + 3));
+      const uint32_t temp_y = ((uint32_t) *(buf + 4) << 24) | ((uint32_t) *(buf + 5) << 16) | ((uint32_t) *(buf + 6) << 8) | ((uint32_t) *(buf + 7));
+      ImgBufferFormat temp_fmt = (ImgBufferFormat) *(buf + 8);
+      uint8_t temp_f = *(buf + 9);
+      const uint8_t BPP = _bits_per_pixel(temp_fmt);
+      if ((0 < BPP) && (temp_x == (PixUInt) temp_x) && (temp_y == (PixUInt) temp_y)) {
+        const uint64_t PIXEL_COUNT   = ((uint64_t) temp_x * temp_y);
+        const uint64_t PROPOSED_SIZE = (((PIXEL_COUNT >> 3) * BPP) + (((PIXEL_COUNT & 7) * BPP) + 7) / 8);
+        if (PROPOSED_SIZE == (len - HEADER_LEN)) {
+          // The derived and declared sizes match.
+          _x = temp_x;
+          _y = temp_y;
+          _buf_fmt  = temp_fmt;
+          _imgflags = temp_f;
+          return setBufferByCopy(buf + HEADER_LEN) ? 0 : -2;
+        }
       }
     }
   }
-- 
2.43.0


From 31431d64afe2bf1842ac587c2727894ea9ff475f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 117/179] fix: Identity::fromBuffer() read past the end of its
 buffer, and made identities of truncated ones

---
 src/Identity/Identity.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/Identity/Identity.cpp b/src/Identity/Identity.cpp
index 3d2b991..131309e 100644
--- a/src/Identity/Identity.cpp
+++ b/src/Identity/Identity.cpp
@@ -104,9 +104,15 @@ Identity* Identity::fromBuffer(uint8_t* buf, int len) {
     uint16_t ident_flg = (((uint16_t) *(buf+2)) << 8) + *(buf+3);
     IdentFormat fmt = (IdentFormat) *(buf+4);
 
-    if (ident_len <= len) {
-      len -= (IDENTITY_BASE_PERSIST_LENGTH - 1);  // Incur deficit for null-term.
+    // The identity must be wholly contained by the buffer, and so must its handle.
+    if ((ident_len <= len) && (ident_len > IDENTITY_BASE_PERSIST_LENGTH)) {
+      len = ident_len - (IDENTITY_BASE_PERSIST_LENGTH - 1);  // Incur deficit for null-term.
       buf += (IDENTITY_BASE_PERSIST_LENGTH - 1);  // Incur deficit for null-term.
+      const uint8_t* HANDLE_END = (const uint8_t*) memchr(buf, '\0', len);
+      if (nullptr == HANDLE_END) {
+        return nullptr;
+      }
+      const int CLASS_DATA_LEN = (len - 1) - (int) (HANDLE_END - buf);
 
       // TODO: I now have a better way of doing this. Implementation will have to wait.
       switch (fmt) {
@@ -114,7 +120,9 @@ Identity* Identity::fromBuffer(uint8_t* buf, int len) {
           // TODO: Ill-conceived? Why persist a hardware serial number???
           break;
         case IdentFormat::UUID:
-          return_value = (Identity*) new IdentityUUID(buf, (uint16_t) len);
+          if (CLASS_DATA_LEN >= (int) sizeof(UUID)) {
+            return_value = (Identity*) new IdentityUUID(buf, (uint16_t) len);
+          }
           break;
         case IdentFormat::L2_MAC:
           // TODO: This
-- 
2.43.0


From 4084e12d65237b5f155bc926256a7880c2d37c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 118/179] fix: Identity::getIdentity() compared the addresses
 of names

---
 src/Identity/Identity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Identity/Identity.cpp b/src/Identity/Identity.cpp
index 131309e..69c4104 100644
--- a/src/Identity/Identity.cpp
+++ b/src/Identity/Identity.cpp
@@ -309,7 +309,7 @@ Identity* Identity::getIdentity(IdentFormat fmt) {
 * @return     An instance of Identity that is of the given format.
 */
 Identity* Identity::getIdentity(const char* nom) {
-  if (nom == _handle) {  // TODO: Direct comparison won't work here.
+  if ((nullptr != nom) && (nullptr != _handle) && (0 == strcmp(nom, _handle))) {
     return this;
   }
   else if (_next) {
-- 
2.43.0


From 80984b2359f49f048126a6e17528874e5384675b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 119/179] fix: The hash of a record did not depend on its
 content

---
 src/Storage/SimpleDataRecord.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Storage/SimpleDataRecord.cpp b/src/Storage/SimpleDataRecord.cpp
index 8c20fda..e204bd4 100644
--- a/src/Storage/SimpleDataRecord.cpp
+++ b/src/Storage/SimpleDataRecord.cpp
@@ -16,7 +16,11 @@ uint32_t static_hash_wrapper_fxn(const uint8_t* BUF, const uint32_t LEN) {
       // But we'll fall back to something simple if we don't have one.
       // https://en.wikipedia.org/wiki/Fowler%E2%80%93Noll%E2%80%93Vo_hash_function
     #endif  // __HAS_CRYPT_WRAPPER
-  return (0xAAAAAAAA ^ LEN);  // TODO
+  uint32_t ret = 0x811C9DC5;   // FNV-1a
+  for (uint32_t i = 0; i < LEN; i++) {
+    ret = (ret ^ *(BUF + i)) * 0x01000193;
+  }
+  return ret;
 }
 
 
-- 
2.43.0


From 44348f0cd44eaa634213bde5571c2a4254c83a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 120/179] fix: SimpleDataRecord::load() read past the end of
 truncated buffers, and loaded what followed the record

---
 src/Storage/SimpleDataRecord.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/Storage/SimpleDataRecord.cpp b/src/Storage/SimpleDataRecord.cpp
index e204bd4..17e8012 100644
--- a/src/Storage/SimpleDataRecord.cpp
+++ b/src/Storage/SimpleDataRecord.cpp
@@ -218,14 +218,18 @@ int8_t SimpleDataRecord::load(uint32_t storage_tag, StringBuilder* inbound_buf)
   if (0 == _descriptor_deserialize(inbound_buf)) {
     ret--;
     if (_storage_tag == storage_tag) {
-      ret--;
-      if (_hash == static_hash_wrapper_fxn((inbound_buf->string()+DATARECORD_BASE_SIZE), _data_length)) {
-        // Hash matches. Cull the useless edges of the buffer...
-        inbound_buf->cull(DATARECORD_BASE_SIZE);
+      if (((uint32_t) inbound_buf->length() - DATARECORD_BASE_SIZE) >= _data_length) {
         ret--;
-        if (0 == deserialize(inbound_buf, _format)) {
-          _dr_set_flag(DATA_RECORD_FLAG_WAS_LOADED);
-          ret = 0;
+        if (_hash == static_hash_wrapper_fxn((inbound_buf->string()+DATARECORD_BASE_SIZE), _data_length)) {
+          // Hash matches. Cull the useless edges of the buffer...
+          StringBuilder payload_container((inbound_buf->string()+DATARECORD_BASE_SIZE), _data_length);
+          inbound_buf->clear();
+          inbound_buf->concatHandoff(&payload_container);
+          ret--;
+          if (0 == deserialize(inbound_buf, _format)) {
+            _dr_set_flag(DATA_RECORD_FLAG_WAS_LOADED);
+            ret = 0;
+          }
         }
       }
     }
-- 
2.43.0


From 400faeced61a6170570b40ff8bb4b572a0f08416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 121/179] fix: Record names longer than 255 were refused or cut
 too short

---
 src/Storage/SimpleDataRecord.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Storage/SimpleDataRecord.cpp b/src/Storage/SimpleDataRecord.cpp
index 17e8012..7b63ab8 100644
--- a/src/Storage/SimpleDataRecord.cpp
+++ b/src/Storage/SimpleDataRecord.cpp
@@ -252,7 +252,7 @@ int8_t SimpleDataRecord::load(uint32_t storage_tag, StringBuilder* inbound_buf)
 * @return 0 on success. -1 on failure of rule-check.
 */
 int8_t SimpleDataRecord::_sanitize_name(const char* name) {
-  const uint8_t NAME_LENGTH = strict_min((uint8_t) sizeof(_key), (uint8_t) strlen(name));
+  const uint8_t NAME_LENGTH = (uint8_t) strict_min((uint32_t) sizeof(_key), (uint32_t) strlen(name));
   int8_t ret = -1;
   if (NAME_LENGTH > 0) {
     for (uint8_t i = 0; i < sizeof(_key); i++) {
-- 
2.43.0


From 1babab2e6dd6bd5ce1ed179c28439aadb9f077e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 122/179] fix: SimpleDataRecord::printDebug() read past the end
 of full-length names

---
 src/Storage/SimpleDataRecord.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Storage/SimpleDataRecord.cpp b/src/Storage/SimpleDataRecord.cpp
index 7b63ab8..7a475fa 100644
--- a/src/Storage/SimpleDataRecord.cpp
+++ b/src/Storage/SimpleDataRecord.cpp
@@ -37,7 +37,7 @@ SimpleDataRecord::SimpleDataRecord(uint32_t storage_tag, StorageRecordType rtype
 
 void SimpleDataRecord::printDebug(StringBuilder* output) {
   output->concatf("\t Tag:\t 0x%08x\n", _storage_tag);
-  output->concatf("\t Key:\t %s\n", _key);
+  output->concatf("\t Key:\t %.*s\n", (int) sizeof(_key), (char*) _key);
   output->concatf("\t Dirty:\t %c\n", isDirty() ? 'y':'n');
   output->concatf("\t Type:\t 0x%02x\n", recordType());
   output->concatf("\t Hash:\t 0x%08x\n", _hash);
-- 
2.43.0


From 686fbb7a53fc3e37b77e07ce4ce4695bbe220e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 123/179] fix: A record with no content could not be loaded
 from a plain buffer

---
 src/Storage/SimpleDataRecord.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Storage/SimpleDataRecord.cpp b/src/Storage/SimpleDataRecord.cpp
index 7a475fa..5140238 100644
--- a/src/Storage/SimpleDataRecord.cpp
+++ b/src/Storage/SimpleDataRecord.cpp
@@ -182,7 +182,7 @@ int8_t SimpleDataRecord::save(uint32_t storage_tag, const char* name, StringBuil
 */
 int8_t SimpleDataRecord::load(uint32_t storage_tag, uint8_t* inbound_buf, uint32_t buf_len) {
   int8_t ret = -1;
-  if (buf_len > DATARECORD_BASE_SIZE) {
+  if (buf_len >= DATARECORD_BASE_SIZE) {
     StringBuilder desc_container(inbound_buf, DATARECORD_BASE_SIZE);
     if (0 == _descriptor_deserialize(&desc_container)) {
       ret--;
-- 
2.43.0


From 89271ac41a7a687389e40a4cfc449f91e59c3902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:58 +0000
Subject: [PATCH 124/179] fix: KeyValuePair::serialize() wrote keys without
 values

---
 src/C3PValue/KeyValuePair.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index 029b20a..159aebf 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -263,6 +263,7 @@ int8_t KeyValuePair::serialize(StringBuilder* out, const TCode FORMAT) {
     case TCode::CBOR:
       {
         uint32_t kvp_count = 0;
+        uint32_t failures  = 0;
         cbor::output_stringbuilder output(&local_output);
         cbor::encoder local_encoder(output);
         while (nullptr != src) {
@@ -270,9 +271,16 @@ int8_t KeyValuePair::serialize(StringBuilder* out, const TCode FORMAT) {
           if (nullptr != t_helper) {
             char* tmp_key = src->getKey();
             if ((nullptr != tmp_key) && (strlen(tmp_key) > 0)) {
-              local_encoder.write_string(tmp_key);
-              ret = t_helper->serialize(src->_type_pun_get(), &local_output, FORMAT);
-              kvp_count++;
+              // A key without a value would corrupt the map.
+              StringBuilder local_value;
+              if (0 == t_helper->serialize(src->_type_pun_get(), &local_value, FORMAT)) {
+                local_encoder.write_string(tmp_key);
+                local_output.concatHandoff(&local_value);
+                kvp_count++;
+              }
+              else {
+                failures++;
+              }
             }
             else {
               // Peacefully ignore KVPs without keys.
@@ -284,6 +292,10 @@ int8_t KeyValuePair::serialize(StringBuilder* out, const TCode FORMAT) {
           cbor::output_stringbuilder top_output(out);
           cbor::encoder top_encoder(top_output);
           top_encoder.write_map(kvp_count);  // This is a map.
+          ret = 0;
+        }
+        if (failures > 0) {
+          ret = -2;
         }
       }
       break;
-- 
2.43.0


From 3ee2c28b076e49ca17d49e616adbe50eafa75dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 125/179] fix: ConfRecord could not be loaded from what it
 saved

---
 src/Storage/RecordTypes/ConfRecord.cpp | 55 ++++++++++++++++++++++----
 src/Storage/RecordTypes/ConfRecord.h   |  1 +
 2 files changed, 49 insertions(+), 7 deletions(-)

diff --git a/src/Storage/RecordTypes/ConfRecord.cpp b/src/Storage/RecordTypes/ConfRecord.cpp
index a1a89c7..97826f0 100644
--- a/src/Storage/RecordTypes/ConfRecord.cpp
+++ b/src/Storage/RecordTypes/ConfRecord.cpp
@@ -266,7 +266,6 @@ int8_t ConfRecord::serialize(StringBuilder* out, TCode format) {
         encoder.write_map(2);
           serialize_cbor_kvp_for_record(&encoder);  // Accounts for the first KVP.
           encoder.write_string(_list_name());    // Accounts for the second KVP.
-          encoder.write_array(_key_count());
           _kvp->serialize(out, format);
 
         ret = 0;  // TODO: Error handling?
@@ -283,20 +282,62 @@ int8_t ConfRecord::serialize(StringBuilder* out, TCode format) {
 }
 
 
+/*
+* Copies the given values over those of the same key in this record. Keys that
+*   are not in the enum plan are ignored.
+*
+* @return 0 on success, or -2 if any of the values couldn't be taken.
+*/
+int8_t ConfRecord::_take_values(KeyValuePair* src) {
+  int8_t ret = 0;
+  StringBuilder key_export;
+  _key_list(&key_export);
+  while ((nullptr != src) && (0 < key_export.count())) {
+    KeyValuePair* dest  = _kvp->valueWithKey(key_export.position(0));
+    KeyValuePair* value = src->valueWithKey(key_export.position(0));
+    if ((nullptr != dest) && (nullptr != value)) {
+      int8_t set_ret = -1;
+      if ((TCode::STR == dest->tcode()) && (TCode::STR == value->tcode())) {
+        // Strings are held by reference. We need to own a copy.
+        char* str = nullptr;
+        value->get_as(&str);
+        str = StringBuilder::deep_copy(str, strlen(str));
+        if (nullptr != str) {
+          set_ret = dest->set(str);
+          dest->reapValue(true);
+        }
+      }
+      else if (TCode::STR != dest->tcode()) {
+        set_ret = dest->set((C3PValue*) value);
+      }
+      if (0 != set_ret) {
+        ret = -2;
+      }
+    }
+    key_export.drop_position(0);
+  }
+  return ret;
+}
+
+
 int8_t ConfRecord::deserialize(StringBuilder* raw, TCode format) {
   int8_t ret = -1;
-  if (!allocated()) {
+  if (!allocated(true)) {
     return ret;  // TODO: Return contract spec'd where?
   }
   switch (format) {
     case TCode::CBOR:
       #if defined(__BUILD_HAS_CBOR)
       {
-        CBORArgListener cl(&_kvp);
-        cbor::input_static input(raw->string(), raw->length());
-        cbor::decoder decoder(input, cl);
-        decoder.run();
-        ret = (decoder.failed() ? -2 : 0);
+        ret = -2;
+        KeyValuePair* parsed = KeyValuePair::unserialize(raw->string(), raw->length(), format);
+        if (nullptr != parsed) {
+          KeyValuePair* container = parsed->valueWithKey(_list_name());
+          if ((nullptr != container) && (TCode::KVP == container->tcode())) {
+            ret = _take_values(container->get_as_kvp());
+          }
+          delete parsed;
+        }
       }
       #endif
       break;
diff --git a/src/Storage/RecordTypes/ConfRecord.h b/src/Storage/RecordTypes/ConfRecord.h
index 41da4b5..c3f71df 100644
--- a/src/Storage/RecordTypes/ConfRecord.h
+++ b/src/Storage/RecordTypes/ConfRecord.h
@@ -112,6 +112,7 @@ class ConfRecord : public SimpleDataRecord {
 
     int8_t  _discard_allocations();
     int32_t _allocate_kvp();
+    int8_t  _take_values(KeyValuePair*);
 
     int8_t _set_conf(const char* KEY, const TCode, void* val);
     int8_t _get_conf(const char* KEY, const TCode, void* val);
-- 
2.43.0


From 4aa7d409c2756a59ebf0d49be7df3d407e956b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:58 +0000
Subject: [PATCH 126/179] fix: ParsingConsole executed unfinished lines that
 followed a finished one, and had no ZEROBYTE terminator

---
 src/Console/C3PConsole.cpp | 49 ++++++++++++++++----------------------
 src/Console/C3PConsole.h   |  2 +-
 2 files changed, 21 insertions(+), 30 deletions(-)

diff --git a/src/Console/C3PConsole.cpp b/src/Console/C3PConsole.cpp
index b231db8..a2d7d8d 100644
--- a/src/Console/C3PConsole.cpp
+++ b/src/Console/C3PConsole.cpp
@@ -207,10 +207,11 @@ int8_t ParsingConsole::_process_buffer() {
     _buffer.clear();
     ret = -2;
   }
-  else if (_line_ending_rxd()) {
-    while (0 < _buffer.count()) {
-      StringBuilder tmp_str_bldr(_buffer.position_trimmed(0));
-      _buffer.drop_position(0);
+  else {
+    StringBuilder line;
+    while (_line_ending_rxd(&line)) {
+      StringBuilder tmp_str_bldr(line.position_trimmed(0));
+      line.clear();
       if (!tmp_str_bldr.isEmpty()) {
         ret = (0 != ret) ? ret : 0;
         _history_idx = _max_history;
@@ -422,37 +423,27 @@ void ParsingConsole::printHistory(StringBuilder* output) {
 
 
 /**
-* Checks for the configured terminator in the input stream, and tokenizes the
-*   line if found.
+* Checks for the configured terminator in the input stream, and takes the first
+*   complete line if found. Whatever follows it stays in the buffer.
 *
+* @param line takes the line, without its terminator.
 * @return true if there is a line-ending in the buffer.
 */
-bool ParsingConsole::_line_ending_rxd() {
+bool ParsingConsole::_line_ending_rxd(StringBuilder* line) {
   const char* const L_TERM = lineTerminatorLiteralStr(_rx_terminator);
-  const int L_TERM_LEN = strlen(L_TERM);
-  bool ret = false;
-  bool buf_has_lterm = false;
-  switch (L_TERM_LEN) {
-    case 2:
-      buf_has_lterm = _buffer.contains(L_TERM);
-      break;
-    case 1:
-      buf_has_lterm = _buffer.contains(L_TERM[0]);
-      break;
-    case 0:
-    default:
-      break;
-  }
-
-  if (buf_has_lterm) {
-    if (0 < _buffer.split(L_TERM)) {
-      ret = true;
-    }
-    else {
-      _buffer.clear();
+  const int L_TERM_LEN = lineTerminatorLength(_rx_terminator);
+  const int BUF_LEN = _buffer.length();
+  uint8_t* buf = _buffer.string();
+  if (0 < L_TERM_LEN) {
+    for (int i = 0; i <= (BUF_LEN - L_TERM_LEN); i++) {
+      if (0 == memcmp((buf + i), L_TERM, L_TERM_LEN)) {
+        line->concat(buf, i);
+        _buffer.cull(i + L_TERM_LEN);
+        return true;
+      }
     }
   }
-  return ret;
+  return false;
 }
 
 
diff --git a/src/Console/C3PConsole.h b/src/Console/C3PConsole.h
index fb86877..a9717c3 100644
--- a/src/Console/C3PConsole.h
+++ b/src/Console/C3PConsole.h
@@ -171,7 +171,7 @@ class ParsingConsole : public C3PConsole, public BufferCoDec {
     void   _append_to_history(StringBuilder*);  // Appends a command to the history.
     void   _cull_history();                     // Trims the history list back to bounds.
 
-    bool _line_ending_rxd();
+    bool _line_ending_rxd(StringBuilder*);
     int8_t _process_buffer();
 
     /* Flag manipulation inlines */
-- 
2.43.0


From d2510a6ef230618ef9dae41488fc20c4c1f81fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:58 +0000
Subject: [PATCH 127/179] fix: ParsingConsole dropped input that followed a
 backspace, and heeded only leading ones

---
 src/Console/C3PConsole.cpp | 47 +++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/Console/C3PConsole.cpp b/src/Console/C3PConsole.cpp
index a2d7d8d..ff69db8 100644
--- a/src/Console/C3PConsole.cpp
+++ b/src/Console/C3PConsole.cpp
@@ -159,27 +159,36 @@ int8_t ParsingConsole::pushBuffer(StringBuilder* incoming) {
   // TODO: Implement cursor keys.
   //   U: 0x1b, 0x5b, 0x41   D: 0x1b, 0x5b, 0x42
   //   L: 0x1b, 0x5b, 0x44   R: 0x1b, 0x5b, 0x43
-  uint8_t first_byte = *(incoming->string());
-  if (localEcho()) {
-    _response.concat(incoming);  // We do it this way to copy the buffer. printToLog() will take it.
-    //incoming->printDebug(&_response); Uncomment to hex dump received characters.
-    if (0x08 == first_byte) {
-      uint8_t last_chr_erase[] = {0x20, 0x08};
-      _response.concat(last_chr_erase, 2);
+  do {
+    // Take the input up to the next backspace key.
+    const int IN_LEN = incoming->length();
+    uint8_t* in_buf  = incoming->string();
+    int seg_len = 0;
+    while ((seg_len < IN_LEN) && (0x08 != *(in_buf + seg_len))) {  seg_len++;  }
+    const bool BACKSPACE = (seg_len < IN_LEN);
+    StringBuilder segment(in_buf, seg_len);
+    incoming->cull(BACKSPACE ? (seg_len + 1) : seg_len);
+
+    if (localEcho()) {
+      _response.concat(&segment);  // We do it this way to copy the buffer. printToLog() will take it.
+      //segment.printDebug(&_response); Uncomment to hex dump received characters.
+      printToLog(nullptr);   // Flush the log out of the console.
     }
-    printToLog(nullptr);   // Flush the log out of the console.
-  }
-  if (0x08 == first_byte) {   // If we see the backspace key...
-    int blen = _buffer.length();
-    if (0 < blen) {   // ...and we have accumulated input...
-      _buffer.cull(0, blen-1);  // Drop the last character of the buffer.
-    }
-    incoming->cull(1);  // Drop the first character of the input.
-  }
-  else {
-    _buffer.concatHandoff(incoming);  // Take the buffer.
+    _buffer.concatHandoff(&segment);  // Take the buffer.
     _process_buffer();  // TODO: Observe return code.
-  }
+
+    if (BACKSPACE) {   // If we see the backspace key...
+      if (localEcho()) {
+        uint8_t last_chr_erase[] = {0x08, 0x20, 0x08};
+        _response.concat(last_chr_erase, 3);
+        printToLog(nullptr);   // Flush the log out of the console.
+      }
+      int blen = _buffer.length();
+      if (0 < blen) {   // ...and we have accumulated input...
+        _buffer.cull(0, blen-1);  // Drop the last character of the buffer.
+      }
+    }
+  } while (0 < incoming->length());
   return 1;
 }
 
-- 
2.43.0


From 79809f3fa82ed0e73cd70adfeb11e95dbad8e750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:58 +0000
Subject: [PATCH 128/179] fix: Setting the console's history options disabled
 its prompt

---
 src/Console/C3PConsole.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Console/C3PConsole.cpp b/src/Console/C3PConsole.cpp
index ff69db8..0163124 100644
--- a/src/Console/C3PConsole.cpp
+++ b/src/Console/C3PConsole.cpp
@@ -523,7 +523,6 @@ int8_t ParsingConsole::console_handler_conf(StringBuilder* text_return, StringBu
   }
   else if (0 == StringBuilder::strcasecmp(cmd, "history")) {
     if (1 < args->count()) {
-      emitPrompt(0 != arg1);
       char* subcmd = args->position_trimmed(1);
       if (0 == StringBuilder::strcasecmp(subcmd, "clear")) {
         clearHistory();
-- 
2.43.0


From f4b7364a4608ff61207d46a239f09076e9f288c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:58 +0000
Subject: [PATCH 129/179] fix: ParsingConsole::logLength() was cut to eight
 bits

---
 src/Console/C3PConsole.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Console/C3PConsole.h b/src/Console/C3PConsole.h
index a9717c3..d3bfb40 100644
--- a/src/Console/C3PConsole.h
+++ b/src/Console/C3PConsole.h
@@ -132,7 +132,7 @@ class ParsingConsole : public C3PConsole, public BufferCoDec {
     void maxHistoryDepth(uint8_t);
     inline uint8_t maxHistoryDepth() {    return _max_history;       };
     inline uint8_t historyDepth() {       return _history.size();    };
-    inline uint8_t logLength() {          return _response.length(); };
+    inline int logLength() {              return _response.length(); };
 
     // Console features...
     inline bool localEcho() {          return _console_flag(CONSOLE_FLAG_LOCAL_ECHO);           };
-- 
2.43.0


From 49edeeb3271032cab089203848e92d77162a0fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:32 +0000
Subject: [PATCH 130/179] fix: concatf() with a single char* argument took it
 for a va_list where that is a char*

---
 src/AbstractPlatform.cpp | 2 +-
 src/StringBuilder.cpp    | 6 ++++--
 src/StringBuilder.h      | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/AbstractPlatform.cpp b/src/AbstractPlatform.cpp
index d4494d2..c304078 100644
--- a/src/AbstractPlatform.cpp
+++ b/src/AbstractPlatform.cpp
@@ -423,7 +423,7 @@ void c3p_log(uint8_t severity, const char* tag, const char* fmt, ...) {
   StringBuilder msg;
   va_list args;
   va_start(args, fmt);
-  int8_t ret = (0 <= msg.concatf(fmt, args)) ? 0:-1;
+  int8_t ret = (0 <= msg.vconcatf(fmt, args)) ? 0:-1;
   va_end(args);
   if (0 == ret) {
     c3p_log(severity, tag, &msg);
diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index d67336f..a80c0a3 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -929,7 +929,7 @@ int StringBuilder::concatf(const char* format, ...) {
   va_list args;
   int ret = 0;
   va_start(args, format);
-  ret = concatf(format, args);
+  ret = vconcatf(format, args);
   va_end(args);
   return ret;
 }
@@ -937,12 +937,14 @@ int StringBuilder::concatf(const char* format, ...) {
 
 /**
 * Variadic. No mutex required because all working memory is confined to stack.
+* This is not an overload of concatf(), because va_list is a plain char* on some
+*   platforms, and would be selected by concatf("%s", some_char_ptr).
 *
 * @param format is the printf-style formatting string.
 * @param args is a discrete parameter that contains the optional variadics.
 * @return the byte count written to this StringBuilder, or negative on failure.
 */
-int StringBuilder::concatf(const char* format, va_list args) {
+int StringBuilder::vconcatf(const char* format, va_list args) {
   int len = strlen(format);
   unsigned short f_codes = 0;  // Count how many format codes are in use...
   for (int i = 0; i < len; i++) {  if (*(format+i) == '%') f_codes++; }
diff --git a/src/StringBuilder.h b/src/StringBuilder.h
index a1bcb35..c903a89 100644
--- a/src/StringBuilder.h
+++ b/src/StringBuilder.h
@@ -147,7 +147,7 @@ class StringBuilder {
 
     /* Variadic concat. Semantics are the same as printf. */
     int concatf(const char* format, ...);
-    int concatf(const char* format, va_list);
+    int vconcatf(const char* format, va_list);
 
     void concat(StringBuilder* src);
     void concat(char nu);
-- 
2.43.0


From 66aa57c140e040843164aa3735b2a8f484054d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:41 +0000
Subject: [PATCH 131/179] fix: BusAdapter::purge_queued_work_by_dev() left
 every other job of the device in the queue

---
 src/BusQueue/BusQueue.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/BusQueue/BusQueue.h b/src/BusQueue/BusQueue.h
index ec1e43d..43c7992 100644
--- a/src/BusQueue/BusQueue.h
+++ b/src/BusQueue/BusQueue.h
@@ -428,7 +428,8 @@ template <class T> class BusAdapter : public BusOpCallback, public C3PPollable {
     */
     int8_t purge_queued_work_by_dev(BusOpCallback* cb_obj) {
       int8_t ret = 0;
-      for (int i = 0; i < work_queue.size(); i++) {
+      int i = 0;
+      while (i < work_queue.size()) {
         T* current = work_queue.get(i);
         if ((nullptr != current) && (current->callback == cb_obj)) {
           ret++;
@@ -438,6 +439,10 @@ template <class T> class BusAdapter : public BusOpCallback, public C3PPollable {
             current->callback->io_op_callback(current);
           }
           _reclaim_queue_item(current);   // Delete the queued work AND its buffer.
+          i = 0;   // The queue has changed. Start over.
+        }
+        else {
+          i++;
         }
       }
       return ret;
-- 
2.43.0


From 99039ce14c471c16e64561765e1ec93bbea9b3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:41 +0000
Subject: [PATCH 132/179] fix: A bus operation reclaimed without a buffer freed
 the buffer of its next user

---
 src/BusQueue/BusQueue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BusQueue/BusQueue.h b/src/BusQueue/BusQueue.h
index 43c7992..f5ae53e 100644
--- a/src/BusQueue/BusQueue.h
+++ b/src/BusQueue/BusQueue.h
@@ -537,12 +537,12 @@ template <class T> class BusAdapter : public BusOpCallback, public C3PPollable {
         _failed_xfers++;
       }
 
-      if (op->shouldFreeBuffer() && (nullptr != op->buffer())) {
+      if (op->shouldFreeBuffer()) {
         // Independently of the BusOp's mem management, if the I/O buffer is
         //   marked for reap, do so at this point.
         free(op->buffer());
         op->setBuffer(nullptr, 0);
-        op->shouldFreeBuffer(false);
+        op->shouldFreeBuffer(false);   // The next user of the BusOp might not want it.
       }
 
       if (op->shouldReap() || preallocated.inPool(op)) {
-- 
2.43.0


From f65ab1c203db4c3659d9e9e99f2d490167f1a665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:41 +0000
Subject: [PATCH 133/179] fix: SPIBusOp::wipe() left the maximum frequency to
 the next user

---
 src/BusQueue/SPIBusOp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BusQueue/SPIBusOp.cpp b/src/BusQueue/SPIBusOp.cpp
index 4eefa26..31f4552 100644
--- a/src/BusQueue/SPIBusOp.cpp
+++ b/src/BusQueue/SPIBusOp.cpp
@@ -248,6 +248,7 @@ FAST_FUNC int8_t SPIBusOp::_assert_cs(bool asrt) {
 FAST_FUNC void SPIBusOp::wipe() {
   BusOp::_busop_wipe(this);
   // Flags that deal with memory management are untouched.
+  _max_freq   = 0;
   _cs_pin     = 255;
   _param_len  = 0;
   xfer_params[0] = 0;
-- 
2.43.0


From 1857eb2a7f41fa549e02a4bf673eef5b0bb472ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:41 +0000
Subject: [PATCH 134/179] fix: A bus operation that once faulted reported a
 fault for every later transfer

---
 src/BusQueue/I2CAdapter.cpp | 1 +
 src/BusQueue/SPIAdapter.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/BusQueue/I2CAdapter.cpp b/src/BusQueue/I2CAdapter.cpp
index c4fecb5..bc4a439 100644
--- a/src/BusQueue/I2CAdapter.cpp
+++ b/src/BusQueue/I2CAdapter.cpp
@@ -166,6 +166,7 @@ FAST_FUNC int8_t I2CAdapter::queue_io_job(BusOp* op) {
   I2CBusOp* nu = (I2CBusOp*) op;
   //nu->setVerbosity(getVerbosity());
   nu->setAdapter(this);
+  nu->markForRequeue();   // A fault from a prior use is not this transfer's.
 
   if ((nullptr == current_job) && _pf_dispatch_on_queue() && busOnline()) {
     // Bus is idle, and the platform has decided that we ought to start I/O
diff --git a/src/BusQueue/SPIAdapter.cpp b/src/BusQueue/SPIAdapter.cpp
index 2a6ad4e..e6942e4 100644
--- a/src/BusQueue/SPIAdapter.cpp
+++ b/src/BusQueue/SPIAdapter.cpp
@@ -99,6 +99,7 @@ FAST_FUNC int8_t SPIAdapter::queue_io_job(BusOp* _op, int priority) {
       }
       else {
         ret = 0;
+        op->markForRequeue();   // A fault from a prior use is not this transfer's.
         op->set_state(XferState::QUEUED);
       }
     }
-- 
2.43.0


From 299e18097bba0734f1acc66bcaf8ddd11c6e62bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:41 +0000
Subject: [PATCH 135/179] fix: I2CAdapter::queue_io_job() returned failure for
 jobs it started at once

---
 src/BusQueue/I2CAdapter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BusQueue/I2CAdapter.cpp b/src/BusQueue/I2CAdapter.cpp
index bc4a439..d108b24 100644
--- a/src/BusQueue/I2CAdapter.cpp
+++ b/src/BusQueue/I2CAdapter.cpp
@@ -173,6 +173,7 @@ FAST_FUNC int8_t I2CAdapter::queue_io_job(BusOp* op) {
     //   immediately under this condition.
     // Put this work item in the active slot and start the bus operations.
     current_job = nu;
+    ret = 0;   // From here, the outcome is reported by callback.
     if (XferFault::NONE != nu->begin()) {
       c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, "I2C%u:\tFailed to begin transfer while short-circuiting the queue.\n", ADAPTER_NUM);
     }
-- 
2.43.0


From 027c9660f8936f51520bbdc595760c662e188cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:41 +0000
Subject: [PATCH 136/179] fix: I2CAdapter::queue_io_job() took a job that was
 already in progress

---
 src/BusQueue/I2CAdapter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BusQueue/I2CAdapter.cpp b/src/BusQueue/I2CAdapter.cpp
index d108b24..ec2133f 100644
--- a/src/BusQueue/I2CAdapter.cpp
+++ b/src/BusQueue/I2CAdapter.cpp
@@ -165,6 +165,10 @@ FAST_FUNC int8_t I2CAdapter::queue_io_job(BusOp* op) {
   int8_t ret = -1;
   I2CBusOp* nu = (I2CBusOp*) op;
   //nu->setVerbosity(getVerbosity());
+  if (!nu->isIdle()) {
+    if (getVerbosity() >= LOG_LEV_WARN) c3p_log(LOG_LEV_WARN, __PRETTY_FUNCTION__, "I2C%u:\t Tried to fire a bus op that is not in IDLE state.", ADAPTER_NUM);
+    return ret;
+  }
   nu->setAdapter(this);
   nu->markForRequeue();   // A fault from a prior use is not this transfer's.
 
-- 
2.43.0


From 14a26fda9b62b97b5dcf0276261f4f991510c1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:41 +0000
Subject: [PATCH 137/179] fix: I2CBusOp's constructor ignored the addresses
 given

---
 src/BusQueue/I2CBusOp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BusQueue/I2CBusOp.cpp b/src/BusQueue/I2CBusOp.cpp
index b8cb977..5445616 100644
--- a/src/BusQueue/I2CBusOp.cpp
+++ b/src/BusQueue/I2CBusOp.cpp
@@ -47,8 +47,8 @@ I2CBusOp::I2CBusOp(BusOpcode nu_op, BusOpCallback* requester) : I2CBusOp() {
 *   under the exclusive control of the caller.
 */
 I2CBusOp::I2CBusOp(BusOpcode nu_op, uint8_t dev_addr, int16_t sub_addr, uint8_t* buffer, uint16_t len) : I2CBusOp() {
-  dev_addr     = dev_addr;
-  sub_addr     = sub_addr;
+  this->dev_addr = dev_addr;
+  this->sub_addr = sub_addr;
   set_opcode(nu_op);
   setBuffer(buffer, len);
 };
-- 
2.43.0


From 0682d293ceb3ea25635cbbd798d0835360379a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:41 +0000
Subject: [PATCH 138/179] fix: The job in progress called back an I2CDevice
 that was gone

---
 src/BusQueue/I2CDevice.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BusQueue/I2CDevice.cpp b/src/BusQueue/I2CDevice.cpp
index 842a105..dba153c 100644
--- a/src/BusQueue/I2CDevice.cpp
+++ b/src/BusQueue/I2CDevice.cpp
@@ -39,6 +39,10 @@ I2CDevice::I2CDevice(uint8_t addr) : _dev_addr(addr) {
 I2CDevice::~I2CDevice() {
   if (_bus) {
     _bus->purge_queued_work_by_dev(this);
+    I2CBusOp* current = _bus->currentJob();
+    if ((nullptr != current) && (current->callback == this)) {
+      current->callback = nullptr;   // The job runs on, but nobody is left to hear of it.
+    }
   }
 };
 
-- 
2.43.0


From d207a5cd58efc4e284c55d653655742c5c29c5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:41 +0000
Subject: [PATCH 139/179] fix: UARTAdapter::reset() came back without its
 bitrate, or a pending configuration

---
 src/BusQueue/UARTAdapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BusQueue/UARTAdapter.cpp b/src/BusQueue/UARTAdapter.cpp
index 051a09c..a3aa35c 100644
--- a/src/BusQueue/UARTAdapter.cpp
+++ b/src/BusQueue/UARTAdapter.cpp
@@ -63,7 +63,7 @@ int8_t UARTAdapter::deinit() {
 int8_t UARTAdapter::reset() {
   int8_t ret = -1;
   if (0 == deinit()) {
-    if (0 == _pf_init()) {
+    if (0 == init(nullptr)) {   // Keeps the present configuration.
       ret = 0;
     }
   }
-- 
2.43.0


From 1aed51ebc66f0bbddbed4976ff551315f8987bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:24 +0000
Subject: [PATCH 140/179] fix: I2C job started ahead of those already waiting

---
 src/BusQueue/I2CAdapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BusQueue/I2CAdapter.cpp b/src/BusQueue/I2CAdapter.cpp
index ec2133f..acee984 100644
--- a/src/BusQueue/I2CAdapter.cpp
+++ b/src/BusQueue/I2CAdapter.cpp
@@ -172,7 +172,7 @@ FAST_FUNC int8_t I2CAdapter::queue_io_job(BusOp* op) {
   nu->setAdapter(this);
   nu->markForRequeue();   // A fault from a prior use is not this transfer's.
 
-  if ((nullptr == current_job) && _pf_dispatch_on_queue() && busOnline()) {
+  if (busIdle() && _pf_dispatch_on_queue() && busOnline()) {
     // Bus is idle, and the platform has decided that we ought to start I/O
     //   immediately under this condition.
     // Put this work item in the active slot and start the bus operations.
-- 
2.43.0


From 25435b1750d6df1036d734c142881744e211bc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:37 +0000
Subject: [PATCH 141/179] fix: I2C took a job again that was waiting in the
 active slot for a busy bus

---
 src/BusQueue/I2CAdapter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BusQueue/I2CAdapter.cpp b/src/BusQueue/I2CAdapter.cpp
index acee984..c09100f 100644
--- a/src/BusQueue/I2CAdapter.cpp
+++ b/src/BusQueue/I2CAdapter.cpp
@@ -177,6 +177,7 @@ FAST_FUNC int8_t I2CAdapter::queue_io_job(BusOp* op) {
     //   immediately under this condition.
     // Put this work item in the active slot and start the bus operations.
     current_job = nu;
+    nu->set_state(XferState::QUEUED);   // As it would be, had it come from the queue.
     ret = 0;   // From here, the outcome is reported by callback.
     if (XferFault::NONE != nu->begin()) {
       c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, "I2C%u:\tFailed to begin transfer while short-circuiting the queue.\n", ADAPTER_NUM);
-- 
2.43.0


From bb422215f4c10fd2c536a853cb233b8988e4f08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:06 +0000
Subject: [PATCH 142/179] fix: UARTAdapter::write() claimed 4294967295 bytes
 when the ring was full

---
 src/BusQueue/UARTAdapter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BusQueue/UARTAdapter.cpp b/src/BusQueue/UARTAdapter.cpp
index a3aa35c..6f2dea7 100644
--- a/src/BusQueue/UARTAdapter.cpp
+++ b/src/BusQueue/UARTAdapter.cpp
@@ -244,7 +244,8 @@ uint32_t UARTAdapter::write(StringBuilder* buf) {
 uint32_t UARTAdapter::write(uint8_t* buf, uint32_t len) {
   uint32_t ret = 0;
   if (txCapable()) {
-    ret = _tx_buffer.insert(buf, len);
+    const int INSERTED = _tx_buffer.insert(buf, len);   // Negative if nothing can be taken.
+    ret = (uint32_t) strict_max(INSERTED, 0);
   }
   return ret;
 }
-- 
2.43.0


From 3e060e393de0841771192e770fbadab80d3d7059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:12 +0000
Subject: [PATCH 143/179] fix: MultiStringSearch took the match that lay
 furthest in, and missed or invented matches at the end of its subject

---
 src/MultiStringSearch.cpp | 90 ++++++++++++++++++++-------------------
 1 file changed, 46 insertions(+), 44 deletions(-)

diff --git a/src/MultiStringSearch.cpp b/src/MultiStringSearch.cpp
index e5539e3..6973e01 100644
--- a/src/MultiStringSearch.cpp
+++ b/src/MultiStringSearch.cpp
@@ -177,72 +177,74 @@ int MultiStringSearch::continueSearch() {
   int ret = 0;
   _last_match = nullptr;
   if (searchRunning()) {
-    const int INPUT_LEN = _src->length();
+    const int SEARCH_END = (_starting_offset + _search_length);
     // If this passes, we are assured that at least needle is enabled.
     // Update our search bounds.
     _update_next_starting_offsets(_next_starting_offset);
 
-    int locate_results[_defs_added] = {0, };
-    int  matches_this_run = 0;
-    int  longest_match    = 0;
-    bool longest_match_is_partial = false;
+    StrSearchDef* best_match = nullptr;
+    bool best_match_is_partial = false;
     for (uint8_t i = 0; i < _defs_added; i++) {
-      //printf("continue iteration (%d) \n", i);
       // For any searches still running, find the next occurance.
-      if (_sdef_pool[i].enabled) {
-        const int REMAINING_SEARCH_LEN = (INPUT_LEN - _sdef_pool[i].offset_start);
-        const int NEEDLE_COMPARE_LEN   = strict_min((int32_t) REMAINING_SEARCH_LEN, (int32_t) _sdef_pool[i].SEARCH_STR_LEN);
-        locate_results[i] = _src->locate(_sdef_pool[i].SEARCH_STR, NEEDLE_COMPARE_LEN, _sdef_pool[i].offset_start);
-        if (-1 < locate_results[i]) {
-          // There was a match on a needle. Was it complete?
-          const bool WAS_COMPLETE_MATCH = (NEEDLE_COMPARE_LEN == _sdef_pool[i].SEARCH_STR_LEN);
-          if (WAS_COMPLETE_MATCH) {
-            // If a needle had a complete match, we mark its def to reflect so.
-            _sdef_pool[i].offset_start = locate_results[i];
-            _sdef_pool[i].offset_end   = (locate_results[i] + _sdef_pool[i].SEARCH_STR_LEN);
-            _needles_found++;
-            //printf("(%d) Found complete match %d\n", i, locate_results[i]);
+      StrSearchDef* sdef = &_sdef_pool[i];
+      if (sdef->enabled) {
+        const int NEEDLE_LEN = sdef->SEARCH_STR_LEN;
+        int match_offset = _src->locate(sdef->SEARCH_STR, NEEDLE_LEN, _next_starting_offset);
+        bool is_partial  = ((0 > match_offset) || (NEEDLE_LEN > (SEARCH_END - match_offset)));
+        if (is_partial) {
+          // There is no complete match. But does the search region end with
+          //   something that might be the beginning of one?
+          match_offset = -1;
+          int partial_len = strict_min((int32_t) (NEEDLE_LEN - 1), (int32_t) (SEARCH_END - _next_starting_offset));
+          while ((0 < partial_len) & (0 > match_offset)) {
+            const int PARTIAL_OFFSET = (SEARCH_END - partial_len);
+            if (PARTIAL_OFFSET == _src->locate(sdef->SEARCH_STR, partial_len, PARTIAL_OFFSET)) {
+              match_offset = PARTIAL_OFFSET;
+            }
+            partial_len--;
           }
-
-          if (longest_match < locate_results[i]) {            // If this was at least the longest
-            longest_match_is_partial = !WAS_COMPLETE_MATCH;   //   match so far, we set the
-          }                                                   //   feasibility of more searching.
-          else if (longest_match == locate_results[i]) {      // If it is tied for longest, we
-            longest_match_is_partial |= !WAS_COMPLETE_MATCH;  //   may be done with the search.
+        }
+        sdef->offset_start = match_offset;
+        sdef->offset_end   = (is_partial ? -1 : (match_offset + NEEDLE_LEN));
+        if (0 <= match_offset) {
+          // The earliest match is the one we want. If several needles match at
+          //   the same place, we want the longest of them.
+          bool is_better = (nullptr == best_match);
+          if (!is_better) {
+            is_better = (match_offset < best_match->offset_start);
+            if (match_offset == best_match->offset_start) {
+              is_better = (NEEDLE_LEN > best_match->SEARCH_STR_LEN);
+            }
+          }
+          if (is_better) {
+            best_match = sdef;
+            best_match_is_partial = is_partial;
           }
-          longest_match = strict_max((int32_t) longest_match, (int32_t) locate_results[i]);
-          matches_this_run++;
         }
       }
-      else {
-        locate_results[i] = -1;
-      }
     }
 
     // Did we have matches?
-    //printf("matches_this_run = %d \t longest_match_is_partial = %c\n", matches_this_run, (longest_match_is_partial ? '1':'0'));
-    if ((!longest_match_is_partial) & (0 < matches_this_run)) {
-      // With all the results collected from each locate() on each possible
-      //   substring, did anything come back positive for a match? Return the
-      //   longest match that is also complete.
+    if ((nullptr != best_match) & (!best_match_is_partial)) {
+      _last_match = best_match;
+      _next_starting_offset = best_match->offset_end;
+      _last_full_match_offset = best_match->offset_start;
+      _needles_found++;
+      // Any other match that overlaps with this one didn't really happen.
       for (uint8_t i = 0; i < _defs_added; i++) {
-        if (-1 != locate_results[i]) {
-          if (locate_results[i] == longest_match) {
-            _sdef_pool[i].offset_end = (locate_results[i] + _sdef_pool[i].SEARCH_STR_LEN);
-            _last_match = &_sdef_pool[i];
-            _next_starting_offset = _sdef_pool[i].offset_end;
-            _last_full_match_offset = locate_results[i];
-            ret = 1;
-          }
+        if ((best_match != &_sdef_pool[i]) & (best_match->offset_end > _sdef_pool[i].offset_start)) {
+          _sdef_pool[i].offset_start = -1;
+          _sdef_pool[i].offset_end   = -1;
         }
       }
+      ret = 1;
     }
     else {
       // If the longest match was also a partial match, or there were no matches
       //   on this run, the search is concluded because we don't want to
       //   unwittingly replace longer strings that are cut off with (possibly
       //   overlapping) substrings that are complete matches.
-      _next_starting_offset = INPUT_LEN;
+      _next_starting_offset = SEARCH_END;
     }
   }
   return ret;
-- 
2.43.0


From 067aea393e596dfd0a8f4d6fe37e80476f85a5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:12 +0000
Subject: [PATCH 144/179] fix: MultiStringSearch::resolvedLength() gave the
 unresolved length

---
 src/MultiStringSearch.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/MultiStringSearch.cpp b/src/MultiStringSearch.cpp
index 6973e01..2754fc9 100644
--- a/src/MultiStringSearch.cpp
+++ b/src/MultiStringSearch.cpp
@@ -303,18 +303,15 @@ void MultiStringSearch::_update_next_starting_offsets(const int NEW_START) {
 int MultiStringSearch::resolvedLength() {
   int ret = 0;
   if (nullptr != _src) {
-    const int32_t INPUT_LENGTH = _src->length();   // Find input bounds.
-    int downward_revision = 0;
-    for (uint8_t i = 0; i < _defs_added; i++) {
-      if (_sdef_pool[i].searchRunning()) {
-        // Adjust downward to account for needles that are still unresolved.
-        const int TEMP_OFFSET = _sdef_pool[i].offset_start;
-        downward_revision = (0 == downward_revision) ? TEMP_OFFSET : strict_min((int32_t) downward_revision, (int32_t) TEMP_OFFSET);
+    ret = _next_starting_offset;
+    if (!searchRunning()) {
+      for (uint8_t i = 0; i < _defs_added; i++) {
+        if (_sdef_pool[i].searchRunning()) {
+          // Adjust downward to account for needles that are still unresolved.
+          ret = strict_min((int32_t) ret, (int32_t) _sdef_pool[i].offset_start);
+        }
       }
     }
-    // Rearrange the term to better suit our naming and preferred algebra...
-    downward_revision = (INPUT_LENGTH - downward_revision);
-    ret = downward_revision;
   }
   return ret;
 }
-- 
2.43.0


From 0aa172f981c8bb8ee4470d2e5fc99506f6101cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:12 +0000
Subject: [PATCH 145/179] fix: MultiStringSearch::runSearch() let an
 overflowing range past its check

---
 src/MultiStringSearch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MultiStringSearch.cpp b/src/MultiStringSearch.cpp
index 2754fc9..d5aae70 100644
--- a/src/MultiStringSearch.cpp
+++ b/src/MultiStringSearch.cpp
@@ -141,7 +141,7 @@ int MultiStringSearch::runSearch(StringBuilder* untrusted_src, const int SEARCH_
   if (nullptr != _src) {                                 return -2;  }  // Search in progress.
   if ((0 > STARTING_OFFSET) | (0 >= SEARCH_LEN)) {       return -3;  }  // Params are confused.
   const int32_t INPUT_LENGTH = untrusted_src->length();
-  if (INPUT_LENGTH < (STARTING_OFFSET + SEARCH_LEN)) {   return -3;  }  // Params are confused.
+  if (SEARCH_LEN > (INPUT_LENGTH - STARTING_OFFSET)) {   return -3;  }  // Params are confused.
   reset();
   _src = untrusted_src;
   _search_length        = SEARCH_LEN;
-- 
2.43.0


From f95d116bad610f4ace71d6c1e21c08782a50b571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 146/179] fix: GPSWrapper joined the last sentence of a push to
 the next one, and discarded everything behind a null byte

---
 .../BufferAccepter/GPSWrapper/GPSWrapper.cpp  | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index c878c85..f693563 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -219,15 +219,23 @@ enum minmea_sentence_id GPSWrapper::_sentence_id(const char *sentence, bool stri
 
 
 bool GPSWrapper::_attempt_parse() {
-  if (_accumulator.split("\n") == 0) return false;
-  char* line = nullptr;
+  int line_len = _accumulator.locate("\n");
+  if (0 > line_len) return false;
   bool local_success = false;
   bool emit_callback = false;
 
-  // Always assume that the last token in the accumulator is an incomplete line.
-  while (_accumulator.count() > 1) {
-    line = _accumulator.position(0);
-    enum minmea_sentence_id id = _sentence_id(line, false);
+  // Anything that follows the last line-break is an incomplete line.
+  while (0 <= line_len) {
+    StringBuilder line_buf;
+    line_buf.concatLimit(&_accumulator, line_len);
+    _accumulator.cull(line_len + 1);
+    line_len = _accumulator.locate("\n");
+    if (line_buf.isEmpty(true)) continue;   // Blank lines are not sentences.
+
+    const char* line = (const char*) line_buf.string();
+    // A line with a null in it is noise.
+    const bool LINE_IS_TEXT = ((int) strlen(line) == line_buf.length());
+    enum minmea_sentence_id id = (LINE_IS_TEXT ? _sentence_id(line, false) : MINMEA_INVALID);
     switch (id) {
       case MINMEA_SENTENCE_GSA:
         {
@@ -348,7 +356,6 @@ bool GPSWrapper::_attempt_parse() {
       _sentences_rejected++;
       //_log.concatf("$xx%s sentence is not parsed: \n%s\n", _get_string_by_sentence_id(id), (const char*) line);
     }
-    _accumulator.drop_position(0);
   }
   return true;
 }
-- 
2.43.0


From 00b0a1108d4436f95ed6c338b3846dbbc7112b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 147/179] fix: GPSWrapper counted every sentence after a good
 one as parsed, and called back for each one after a VTG

---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index f693563..b6ccb29 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -221,11 +221,11 @@ enum minmea_sentence_id GPSWrapper::_sentence_id(const char *sentence, bool stri
 bool GPSWrapper::_attempt_parse() {
   int line_len = _accumulator.locate("\n");
   if (0 > line_len) return false;
-  bool local_success = false;
-  bool emit_callback = false;
 
   // Anything that follows the last line-break is an incomplete line.
   while (0 <= line_len) {
+    bool local_success = false;
+    bool emit_callback = false;
     StringBuilder line_buf;
     line_buf.concatLimit(&_accumulator, line_len);
     _accumulator.cull(line_len + 1);
-- 
2.43.0


From 0f903e39c9568a8368789390736204d7240d7bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 148/179] fix: GPSWrapper limited its accumulator by the length
 from before it parsed

---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index b6ccb29..0d15d4d 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -149,11 +149,11 @@ static inline float minmea_tocoord(struct minmea_float *f) {
 */
 int8_t GPSWrapper::pushBuffer(StringBuilder* buf) {
   _accumulator.concatHandoff(buf);
-  const int32_t ACC_LEN = _accumulator.length();
-  if (MINMEA_MAX_LENGTH < ACC_LEN) {
+  if (MINMEA_MAX_LENGTH < _accumulator.length()) {
     _attempt_parse();
   }
 
+  const int32_t ACC_LEN = _accumulator.length();
   if (ACC_LEN > GPSWRAPPER_MAX_ACCUMULATOR_LEN) {
     _accumulator.cull(ACC_LEN - GPSWRAPPER_MAX_ACCUMULATOR_LEN);
   }
-- 
2.43.0


From c9ddc4120fb225584a22ddc38db1882a6d115044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 149/179] fix: GPSWrapper refused sentences without a checksum
 that end with a plain line-break

---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index 0d15d4d..bdd9725 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -402,7 +402,7 @@ bool GPSWrapper::_check(const char *sentence, bool strict) {
           }
         }
       }
-      else if (*sentence && (!strict) && ((*sentence == '\n') || (*sentence == '\r'))) {
+      else if ((!strict) && ((*sentence == '\0') || (*sentence == '\n') || (*sentence == '\r'))) {
         // The only stuff allowed at this point is a newline, and then only if
         //   strict mode is false.
         return true;
-- 
2.43.0


From 66e588cb3b50fa5e9f462db0eebba821a23896f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 150/179] fix: haversineDistance() gave half of the distance,
 and nonsense for antipodes

---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index bdd9725..72d575c 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -82,8 +82,8 @@ int32_t GPSWrapper::haversineDistance(LocationFrame* p0, LocationFrame* p1) {
   double half_delta_theta  = sin(delta_theta / 2);
   double half_delta_lambda = sin(delta_lambda / 2);
   double haversine_angle   = (half_delta_theta * half_delta_theta) + cos(theta0) * cos(theta1) * (half_delta_lambda * half_delta_lambda);
-  double haversine_arctan  = atan2(sqrt(haversine_angle), sqrt(1 - haversine_angle));
-  ret = (int32_t) (MEAN_RADIUS_OF_EARTH * haversine_arctan);
+  double haversine_arctan  = atan2(sqrt(haversine_angle), sqrt((haversine_angle < 1) ? (1 - haversine_angle) : 0));
+  ret = (int32_t) (2 * MEAN_RADIUS_OF_EARTH * haversine_arctan);
   return ret;
 }
 
-- 
2.43.0


From 4cbcc18f4684393400d163d16f5ea019494b40e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 151/179] fix: GPSWrapper truncated coordinates to float, and
 overflowed on those near zero

---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index 72d575c..a31d76d 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -126,11 +126,11 @@ static inline float minmea_tofloat(struct minmea_float *f) {
 * Convert a raw coordinate to a floating point DD.DDD... value.
 * Returns NaN for "unknown" values.
 */
-static inline float minmea_tocoord(struct minmea_float *f) {
+static inline double minmea_tocoord(struct minmea_float *f) {
   if (f->scale == 0) {     return NAN;     }
-  int_least32_t degrees = f->value / (f->scale * 100);
-  int_least32_t minutes = f->value % (f->scale * 100);
-  return (float) degrees + (float) minutes / (60 * f->scale);
+  int64_t degrees = f->value / ((int64_t) f->scale * 100);
+  int64_t minutes = f->value % ((int64_t) f->scale * 100);
+  return (double) degrees + (double) minutes / (60 * (double) f->scale);
 }
 
 
-- 
2.43.0


From ce75fca5a7d10718a58f1897fe0b9adafcb49430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 152/179] fix: GPSWrapper made an altitude and a speed out of
 fields that were empty

---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index a31d76d..b3307c5 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -287,7 +287,7 @@ bool GPSWrapper::_attempt_parse() {
           if (_parse_gga(&frame, line)) {
             _loc_frame.sat_count = frame.satellites_tracked;
             switch (frame.altitude_units) {
-              case 'M': _loc_frame.altitude = (int) (minmea_tofloat(&frame.altitude) * 1000.0);   break;
+              case 'M': if (0 != frame.altitude.scale) {  _loc_frame.altitude = (int) (minmea_tofloat(&frame.altitude) * 1000.0);  }  break;
               default:  break;
             }
             //_log.concatf("$xxGGA: fix quality: %d\n", frame.fix_quality);
@@ -336,7 +336,9 @@ bool GPSWrapper::_attempt_parse() {
           struct minmea_sentence_vtg frame;
           if (_parse_vtg(&frame, line)) {
             _loc_frame.mag_bearing = minmea_tofloat(&frame.magnetic_track_degrees);
-            _loc_frame.speed       = (minmea_tofloat(&frame.speed_kph) * 1000000) / 3600;  // Convert to mm/sec
+            if (0 != frame.speed_kph.scale) {
+              _loc_frame.speed     = (minmea_tofloat(&frame.speed_kph) * 1000000) / 3600;  // Convert to mm/sec
+            }
             local_success = true;
             emit_callback = true;
           }
-- 
2.43.0


From 3716b08ce71fb573a4e4477bfa9ee1813bf9d978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 153/179] fix: LocationFrame::printDebug() printed half of the
 timestamp as the satellite count

---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index b3307c5..54f1544 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -38,7 +38,7 @@ extern "C" {
 *******************************************************************************/
 
 void LocationFrame::printDebug(StringBuilder* output) {
-  output->concatf("\tTimestamp: %u\n\tSat count: %u\n", timestamp, sat_count);
+  output->concatf("\tTimestamp: %u\n\tSat count: %u\n", (unsigned int) timestamp, sat_count);
   output->concatf("\t(%.6f, %.6f) heading %.2f at %u m/s\n", (double) lat, (double) lon, (double) mag_bearing, (speed / 1000));
   output->concatf("\tDOP horiz: %.3f\n\tDOP vert:  %.3f\n", (double) dop_horiz, (double) dop_vert);
 }
-- 
2.43.0


From 812a89b29398f97491c8dc1b3c162e2b5c4a0d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:42 +0000
Subject: [PATCH 154/179] fix: C3PLogger lost or re-ordered log text when the
 sink took only part of it

---
 src/AbstractPlatform.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/AbstractPlatform.cpp b/src/AbstractPlatform.cpp
index c304078..0fa0ced 100644
--- a/src/AbstractPlatform.cpp
+++ b/src/AbstractPlatform.cpp
@@ -480,18 +480,17 @@ int8_t C3PLogger::print(uint8_t severity, const char* tag, StringBuilder* msg) {
 * @param log_line is the new item to append to the log.
 */
 void C3PLogger::_store_or_forward(StringBuilder* log_line) {
-  bool store_to_buffer = true;
   if (nullptr != _sink) {
-    bool backlog_remaining = !_log.isEmpty();
-    if (backlog_remaining) {
-      backlog_remaining = (0 != _sink->pushBuffer(&_log));
+    // The sink may claim any part of what it is given, so ask the buffers
+    //   themselves about what remains.
+    if (!_log.isEmpty()) {
+      _sink->pushBuffer(&_log);
     }
-    if (!backlog_remaining && (0 == _sink->pushBuffer(log_line))) {
-      // NOTE: Short-circuit evaluation above is important for ordering.
-      store_to_buffer = false;
+    if (_log.isEmpty()) {   // Order demands that the backlog goes first.
+      _sink->pushBuffer(log_line);
     }
   }
-  if (store_to_buffer) {
+  if (!log_line->isEmpty()) {
     _log.concatHandoff(log_line);
   }
 }
-- 
2.43.0


From 0b60fa0483a895bd4c4241cf155d667f9d33c852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:42 +0000
Subject: [PATCH 155/179] fix: C3PLogger narrowed its tag column instead of
 widening it, and did not truncate long tags

---
 src/AbstractPlatform.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/AbstractPlatform.cpp b/src/AbstractPlatform.cpp
index 0fa0ced..9179b5b 100644
--- a/src/AbstractPlatform.cpp
+++ b/src/AbstractPlatform.cpp
@@ -448,12 +448,12 @@ int8_t C3PLogger::print(uint8_t severity, const char* tag, StringBuilder* msg) {
     if (printTag()) {
       const uint8_t TAG_LEN = (uint8_t) strlen(tag);
       if (_tag_ident < LOG_TAG_MAX_LEN) {
-        _tag_ident = strict_min(_tag_ident, strict_min((uint8_t) LOG_TAG_MAX_LEN, TAG_LEN));
+        _tag_ident = strict_max(_tag_ident, strict_min((uint8_t) LOG_TAG_MAX_LEN, TAG_LEN));
       }
       const uint32_t MAX_FMT_STR_SZ = 12;
       char ufmt_str[MAX_FMT_STR_SZ];
       memset(ufmt_str, 0, MAX_FMT_STR_SZ);
-      sprintf(ufmt_str, "%%%ds ", _tag_ident);
+      sprintf(ufmt_str, "%%%d.%ds ", _tag_ident, LOG_TAG_MAX_LEN);
       line.concatf(ufmt_str, tag);
     }
     line.concatHandoff(msg);
-- 
2.43.0


From 343a121285ab54eedf94fa58eba7687e7704850b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 156/179] fix: C3PLogger::printSeverity(), printTime() and
 printTag() changed another setting than their own

---
 src/C3PLogger.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/C3PLogger.h b/src/C3PLogger.h
index fa4a05b..d870f4d 100644
--- a/src/C3PLogger.h
+++ b/src/C3PLogger.h
@@ -67,9 +67,9 @@ class C3PLogger {
     inline bool    printSeverity() {         return _class_flag(LOGGER_FLAG_PRINT_LEVEL);    };
     inline bool    printTime() {             return _class_flag(LOGGER_FLAG_PRINT_TIME);     };
     inline bool    printTag() {              return _class_flag(LOGGER_FLAG_PRINT_TAG);      };
-    inline void    printSeverity(bool x) {   _class_set_flag(LOGGER_FLAG_PRINT_LEVEL, x);    };
-    inline void    printTime(bool x) {       _class_set_flag(LOGGER_FLAG_PRINT_TIME, x);     };
-    inline void    printTag(bool x) {        _class_set_flag(LOGGER_FLAG_PRINT_TAG, x);      };
+    inline void    printSeverity(bool x) {   _class_set_flag(x, LOGGER_FLAG_PRINT_LEVEL);    };
+    inline void    printTime(bool x) {       _class_set_flag(x, LOGGER_FLAG_PRINT_TIME);     };
+    inline void    printTag(bool x) {        _class_set_flag(x, LOGGER_FLAG_PRINT_TAG);      };
 
 
   private:
-- 
2.43.0


From 04fd6ce1ab6535dc0719a21bd8b35b9fcfcb870c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 157/179] fix: ImageScaler filled the target with the first
 pixel of the source when scaling down

---
 src/Image/ImageUtils/ImageScalers.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/Image/ImageUtils/ImageScalers.cpp b/src/Image/ImageUtils/ImageScalers.cpp
index fc77a98..da903c5 100644
--- a/src/Image/ImageUtils/ImageScalers.cpp
+++ b/src/Image/ImageUtils/ImageScalers.cpp
@@ -62,20 +62,17 @@ int8_t ImageScaler::apply() {
       if ((_target->x() >= TGT_X_RANGE_END) && (_target->y() >= TGT_Y_RANGE_END)) {
         ret = 0;
         if (_scale < 1.0f) {
-          PixUInt source_x = SRC_X_RANGE_START;
-          PixUInt source_y = SRC_Y_RANGE_START;
           // If source area is larger than target area, we will need to sample an
           //   area of the source, and write a single pixel to the target.
           // TODO: For now, we just take the leading pixel from the source area.
           //   It would be better to take the result of a transform of all pixels.
           for (PixUInt i = TGT_X_RANGE_START; i < TGT_X_RANGE_END; i++) {
+            const PixUInt source_x = SRC_X_RANGE_START + (PixUInt) ((i - TGT_X_RANGE_START) / _scale);
             for (PixUInt j = TGT_Y_RANGE_START; j < TGT_Y_RANGE_END; j++) {
+              const PixUInt source_y = SRC_Y_RANGE_START + (PixUInt) ((j - TGT_Y_RANGE_START) / _scale);
               uint32_t color = _source->getPixelAsFormat(source_x, source_y, _target->format());
               _target->setPixel(i, j, color);
-              source_y += SQUARE_SIZE;
             }
-            source_x += SQUARE_SIZE;
-            source_y = SRC_Y_RANGE_START;
           }
         }
         else {
-- 
2.43.0


From d831ebd7091512627e53b7239242d0b53831c4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 158/179] fix: ImageScaler accepted areas whose far edge
 wrapped around the range of a coordinate

---
 src/Image/ImageUtils/ImageScalers.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Image/ImageUtils/ImageScalers.cpp b/src/Image/ImageUtils/ImageScalers.cpp
index da903c5..1229c98 100644
--- a/src/Image/ImageUtils/ImageScalers.cpp
+++ b/src/Image/ImageUtils/ImageScalers.cpp
@@ -43,13 +43,15 @@ void ImageScaler::setParameters(float scale, PixUInt s_x, PixUInt s_y, PixUInt s
 */
 int8_t ImageScaler::apply() {
   const PixUInt SRC_X_RANGE_START = _s_x;
-  const PixUInt SRC_X_RANGE_END   = (_s_x + _s_w);
+  // Ends are held in wider integers, so that an area that doesn't fit can't wrap
+  //   into one that does.
+  const uint32_t SRC_X_RANGE_END  = ((uint32_t) _s_x + _s_w);
   const PixUInt SRC_Y_RANGE_START = _s_y;
-  const PixUInt SRC_Y_RANGE_END   = (_s_y + _s_h);
+  const uint32_t SRC_Y_RANGE_END  = ((uint32_t) _s_y + _s_h);
   const PixUInt TGT_X_RANGE_START = _t_x;
-  const PixUInt TGT_X_RANGE_END   = (_t_x + (_scale * _s_w));
+  const uint32_t TGT_X_RANGE_END  = ((uint32_t) _t_x + (uint32_t) (_scale * _s_w));
   const PixUInt TGT_Y_RANGE_START = _t_y;
-  const PixUInt TGT_Y_RANGE_END   = (_t_y + (_scale * _s_h));
+  const uint32_t TGT_Y_RANGE_END  = ((uint32_t) _t_y + (uint32_t) (_scale * _s_h));
   const PixUInt SQUARE_SIZE       = (PixUInt) _scale;
 
   int8_t ret = -1;
-- 
2.43.0


From 06395afdaba607d39c4da8578e2c8755ce0b2cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 159/179] fix: The action field of a trace word was placed
 beyond the end of the word

---
 src/TimerTools/C3PTrace.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimerTools/C3PTrace.h b/src/TimerTools/C3PTrace.h
index bed446e..c588bb5 100644
--- a/src/TimerTools/C3PTrace.h
+++ b/src/TimerTools/C3PTrace.h
@@ -75,7 +75,7 @@ class StringBuilder;
 #define C3P_TRACE_WORD_LINE_OFFSET  (0)
 #define C3P_TRACE_WORD_FILE_OFFSET  (CONFIG_C3P_TRACE_WORD_LINE_BITS)
 #define C3P_TRACE_WORD_PATH_OFFSET  (CONFIG_C3P_TRACE_WORD_LINE_BITS + CONFIG_C3P_TRACE_WORD_FILE_BITS)
-#define C3P_TRACE_WORD_ACTN_OFFSET  (CONFIG_C3P_TRACE_WORD_LINE_BITS + CONFIG_C3P_TRACE_WORD_FILE_BITS + C3P_TRACE_WORD_PATH_OFFSET)
+#define C3P_TRACE_WORD_ACTN_OFFSET  (CONFIG_C3P_TRACE_WORD_LINE_BITS + CONFIG_C3P_TRACE_WORD_FILE_BITS + CONFIG_C3P_TRACE_WORD_PATH_BITS)
 
 // Define mask values for each field in the trace word.
 #define C3P_TRACE_WORD_LINE_MASK    ((0xFFFFFFFF >> (32 - CONFIG_C3P_TRACE_WORD_LINE_BITS)) << C3P_TRACE_WORD_LINE_OFFSET)
-- 
2.43.0


From 78a25eae0312529bd899aa10deed4d2484a6478c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 160/179] fix: C3PTrace took the action and path of a point
 from its line number

---
 src/TimerTools/C3PTrace.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TimerTools/C3PTrace.cpp b/src/TimerTools/C3PTrace.cpp
index bc07e50..fba41ee 100644
--- a/src/TimerTools/C3PTrace.cpp
+++ b/src/TimerTools/C3PTrace.cpp
@@ -52,7 +52,7 @@ ISR_FUNC void C3PTrace::leave_trace(const uint32_t TRACE_WORD) {
   const unsigned int NOW = micros();
   if (recording()) {
     const uint32_t SPATIAL_WORD = (C3P_TRACE_WORD_SPATIAL_MASK & TRACE_WORD);
-    const TraceAction ACTION = (const TraceAction) (TRACE_WORD & C3P_TRACE_WORD_SPATIAL_MASK);
+    const TraceAction ACTION = (const TraceAction) ((TRACE_WORD & C3P_TRACE_WORD_ACTN_MASK) >> C3P_TRACE_WORD_ACTN_OFFSET);
     if (0 == _trace_points.vacancy()) {
       _trace_points.get();
     }
@@ -62,7 +62,7 @@ ISR_FUNC void C3PTrace::leave_trace(const uint32_t TRACE_WORD) {
       case TraceAction::PATH_START:
       case TraceAction::PATH_STOP:
         {
-          const uint8_t  PATH_ID    = (uint8_t) ((TRACE_WORD & C3P_TRACE_WORD_SPATIAL_MASK) >> C3P_TRACE_WORD_PATH_OFFSET);
+          const uint8_t  PATH_ID    = (uint8_t) ((TRACE_WORD & C3P_TRACE_WORD_PATH_MASK) >> C3P_TRACE_WORD_PATH_OFFSET);
           bool path_root_created = false;
           TracePath* path_container = _trace_paths.getByPriority((int32_t) PATH_ID);
           if (nullptr == path_container) {
-- 
2.43.0


From ff3a0fe293fd694f8974e9f2f08f5aefca81fbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 161/179] fix: TracePath printed the pathway that ends where it
 starts, if any, in place of each of its pathways

---
 src/TimerTools/C3PTrace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimerTools/C3PTrace.cpp b/src/TimerTools/C3PTrace.cpp
index fba41ee..0247351 100644
--- a/src/TimerTools/C3PTrace.cpp
+++ b/src/TimerTools/C3PTrace.cpp
@@ -188,7 +188,7 @@ int TracePath::serialize(StringBuilder* out, const TCode FORMAT) {
           StringBuilder::styleHeader2(out, (char*) tmp.string());
           StopWatch::printDebugHeader(out);
           for (int i = 0; i < ENDPOINT_COUNT; i++) {
-            StopWatch* path_stopwatch = _pathways.getByPriority((int32_t) _start_point.trace_word);
+            StopWatch* path_stopwatch = _pathways.get(i);
             if (nullptr != path_stopwatch) {
               TracePoint end_point(0, path_stopwatch->tag());
               tmp.clear();
-- 
2.43.0


From ef95fe6f8448ed1735b236c5fd4596c0b1283fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 162/179] fix: TracePath withheld its statistics until it was
 started again

---
 src/TimerTools/C3PTrace.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/TimerTools/C3PTrace.cpp b/src/TimerTools/C3PTrace.cpp
index 0247351..d7a3f67 100644
--- a/src/TimerTools/C3PTrace.cpp
+++ b/src/TimerTools/C3PTrace.cpp
@@ -178,8 +178,9 @@ int TracePoint::serialize(StringBuilder* out, const TCode FORMAT) {
 
 int TracePath::serialize(StringBuilder* out, const TCode FORMAT) {
   int ret = -1;
-  if (0 < _start_point.ts_micros) {
-    const int ENDPOINT_COUNT = _pathways.size();
+  const int ENDPOINT_COUNT = _pathways.size();
+  // A path that is not presently being timed still has statistics to report.
+  if ((0 < _start_point.ts_micros) || (0 < ENDPOINT_COUNT)) {
     switch (FORMAT) {
       case TCode::STR:
         {
-- 
2.43.0


From 429a003fc52aaf4a84129e32c0026b47f84dcb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 163/179] fix: TracePath freed the statistics of a new pathway
 while keeping them queued

---
 src/TimerTools/C3PTrace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimerTools/C3PTrace.cpp b/src/TimerTools/C3PTrace.cpp
index d7a3f67..27be72d 100644
--- a/src/TimerTools/C3PTrace.cpp
+++ b/src/TimerTools/C3PTrace.cpp
@@ -255,7 +255,7 @@ ISR_FUNC bool TracePath::recordStop(const uint32_t TRACE_WORD, const TracePoint*
     if (nullptr != path_stopwatch) {
       ret = path_stopwatch->addRuntime((uint32_t) _start_point.ts_micros, (uint32_t) POINT->ts_micros);
       if (path_timing_created) {
-        ret &= (_pathways.insert(path_stopwatch, (int32_t) POINT->trace_word));
+        ret &= (0 <= _pathways.insert(path_stopwatch, (int32_t) POINT->trace_word));
       }
     }
     if (path_timing_created & !ret) {  // Clean up any mess we might have left
-- 
2.43.0


From 6ff0c602d612e4ca5a9309753f2b5ea337067be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 164/179] fix: A message without a payload was sent as nothing
 when it was sent again

---
 src/M2MLink/M2MMsg.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MMsg.cpp b/src/M2MLink/M2MMsg.cpp
index b3f4ff0..a232775 100644
--- a/src/M2MLink/M2MMsg.cpp
+++ b/src/M2MLink/M2MMsg.cpp
@@ -356,7 +356,9 @@ int M2MMsg::serialize(StringBuilder* buf) {
         if (!payload.isEmpty()) {
           buf->concatHandoff(&payload);
         }
-        _class_set_flag(M2MMSG_FLAG_ACCUMULATOR_COMPLETE);
+        if (buf == &_accumulator) {  // Only what we hold can be sent again.
+          _class_set_flag(M2MMSG_FLAG_ACCUMULATOR_COMPLETE);
+        }
         ret = 0;
       }
     }
-- 
2.43.0


From df185bb5f4f89d3706ff10853b0aa2e65b2c6321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 165/179] fix: A wiped message kept the retries of the message
 it was before

---
 src/M2MLink/M2MMsg.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/M2MLink/M2MMsg.cpp b/src/M2MLink/M2MMsg.cpp
index a232775..44d3940 100644
--- a/src/M2MLink/M2MMsg.cpp
+++ b/src/M2MLink/M2MMsg.cpp
@@ -158,6 +158,7 @@ void M2MMsg::markSent() {
 void M2MMsg::wipe() {
   _op          = BusOpcode::UNDEF;
   _encoding    = TCode::BINARY;
+  _retries     = 3;
   _flags       = 0;
   _header.wipe();
   _accumulator.clear();
-- 
2.43.0


From 3e2de67378a160ce48d7077e80c3d81e0d496aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:52 +0000
Subject: [PATCH 166/179] fix: writeRemoteLog() kept the text of a link without
 a session, and answered with the wrong codes

---
 src/M2MLink/M2MLink.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 62ae270..8549a4b 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -384,11 +384,11 @@ int8_t M2MLink::reset() {
 int8_t M2MLink::writeRemoteLog(StringBuilder* outbound_log, bool need_reply) {
   int8_t ret = -1;
   if (!outbound_log->isEmpty()) {
+    ret--;
     if (_flags.value(M2MLINK_FLAG_ESTABLISHED)) {
       ret--;
       M2MMsgHdr hdr(M2MMsgCode::LOG, 0, (need_reply ? M2MMSGHDR_FLAG_EXPECTING_REPLY : 0));
       M2MMsg* msg = _allocate_m2mmsg(&hdr, BusOpcode::TX);
-      ret--;
       if (nullptr != msg) {
         bool gc_message = true;  // Trash the message if sending doesn't work.
         ret--;
@@ -403,10 +403,10 @@ int8_t M2MLink::writeRemoteLog(StringBuilder* outbound_log, bool need_reply) {
             ret = 0;
           }
         }
-        outbound_log->clear();  // Free the original buffer.
         if (gc_message) _reclaim_m2mmsg(msg);
       }
     }
+    outbound_log->clear();  // Free the original buffer.
   }
   return ret;
 }
-- 
2.43.0


From d8f36cfe58126a788667004c3ea7ac44f239a480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:57 +0000
Subject: [PATCH 167/179] fix: An identity could not be taken out of a value,
 so a link never learnt who its counterparty was

---
 src/C3PValue/C3PType.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index b4ed582..c290793 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -2671,17 +2671,31 @@ template <> uint32_t    C3PTypeConstraint<Identity*>::length(void* obj) {  retur
 template <> void        C3PTypeConstraint<Identity*>::to_string(void* obj, StringBuilder* out) {  ((Identity*) obj)->toString(out);  }
 
 template <> int8_t      C3PTypeConstraint<Identity*>::set_from(void* dest, const TCode SRC_TYPE, void* src) {
-  switch (SRC_TYPE) {
-    default:  break;
+  int8_t ret = -1;
+  if (nullptr != dest) {
+    switch (SRC_TYPE) {
+      case TCode::IDENTITY:
+        *((Identity**) dest) = (Identity*) src;
+        ret = 0;
+        break;
+      default:  break;
+    }
   }
-  return -1;
+  return ret;
 }
 
 template <> int8_t      C3PTypeConstraint<Identity*>::get_as(void* src, const TCode DEST_TYPE, void* dest) {
-  switch (DEST_TYPE) {
-    default:  break;
+  int8_t ret = -1;
+  if (nullptr != dest) {
+    switch (DEST_TYPE) {
+      case TCode::IDENTITY:
+        *((Identity**) dest) = (Identity*) src;
+        ret = 0;
+        break;
+      default:  break;
+    }
   }
-  return -1;
+  return ret;
 }
 
 template <> int         C3PTypeConstraint<Identity*>::serialize(void* obj, StringBuilder* out, const TCode FORMAT) {
-- 
2.43.0


From f0abc0a8f1c5462c20ef601186d3c33ffb68aab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:57 +0000
Subject: [PATCH 168/179] fix: Identities were no longer read back where
 vendor-tagged maps are decoded

---
 src/C3PValue/C3PValue.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index e69c9a1..3fbcd38 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -1286,6 +1286,23 @@ C3PValue* C3PValueDecoder::_handle_tag(uint32_t* offset, C3PType* t_helper) {
         c3p_log(LOG_LEV_WARN, LOCAL_LOG_TAG, "Decoding %s (Nested tag 0x%02x) failed.", t_helper->NAME, CTYPE);
       }
     }
+    #if defined(CONFIG_C3P_IDENTITY_SUPPORT)
+    else if ((2 == MAJOR) && (TCode::IDENTITY == t_helper->TCODE)) {
+      // Identities are written as byte strings.
+      C3PValue* blob = _next(&local_offset);
+      if (nullptr != blob) {
+        uint8_t* buf = nullptr;
+        uint32_t len = 0;
+        if (0 == blob->get_as(&buf, &len)) {
+          Identity* ident = Identity::fromBuffer(buf, len);
+          if (nullptr != ident) {
+            ret = new C3PValue(t_helper->TCODE, (void*) ident, MEM_FLGS);
+          }
+        }
+        delete blob;
+      }
+    }
+    #endif   // CONFIG_C3P_IDENTITY_SUPPORT
     else {
       c3p_log(LOG_LEV_WARN, LOCAL_LOG_TAG, "Unhandled encoding for %s (0x%02x).", t_helper->NAME, CTYPE);
     }
-- 
2.43.0


From ef2e2ae3508cb7d2389a3ca73dfcd479d4e688c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:40 +0000
Subject: [PATCH 169/179] fix: A log message whose text was of another type
 made the link print or write through it

---
 src/M2MLink/M2MLink.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 8549a4b..c3bfaf7 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1014,7 +1014,9 @@ int8_t M2MLink::_handle_msg_log(M2MMsg* msg) {
     KeyValuePair* inbound_kvp = nullptr;
     if ((0 == msg->getPayload(&inbound_kvp)) && (nullptr != inbound_kvp)) {
       char* inbound_log = nullptr;
-      if (0 == inbound_kvp->valueWithKey("b", &inbound_log)) {
+      C3PValue* log_container = inbound_kvp->valueWithKey("b");
+      // The counterparty decides the type of this value. Only take a string.
+      if ((nullptr != log_container) && (TCode::STR == log_container->tcode()) && (0 == log_container->get_as(&inbound_log)) && (nullptr != inbound_log)) {
         // TODO: Surround with randomly-generated tags to prevent confusion.
         _remote_log.concatf("Link 0x%08x counterparty says:\n%s\n", _session_tag, inbound_log);
       }
-- 
2.43.0


From 052ff6f0a40629ed0f408c7096faef16561c5ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:40 +0000
Subject: [PATCH 170/179] fix: A value of a type this build has no support for
 freed what it only referred to

---
 src/C3PValue/C3PValue.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 3fbcd38..5dbf7b6 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -231,10 +231,11 @@ C3PValue::~C3PValue() {
       free(_target_mem);  // We are always responsible for this.
     }
     else if (!_is_val_by_ref()) {
-      if (!_is_ptr_punned()) {
+      if (!_is_ptr_punned() && (nullptr != getTypeHelper(_TCODE))) {
         // In cases where we allocated the memory by this class for the sake of
         //   facilitating value-by-copy, we will free it, regardless of what
-        //   reapValue() has to say about it.
+        //   reapValue() has to say about it. Types that have no helper in this
+        //   build were never allocated, and are not ours to free.
         free(_target_mem);
       }
     }
-- 
2.43.0


From 5197592d2afc1445f1887b613994642b9aab0fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:42 +0000
Subject: [PATCH 171/179] fix: Text bounds wrapped around where a glyph
 overhangs the origin or has no bitmap

---
 src/Image/Image.cpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 0957877..9366cdd 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1380,19 +1380,26 @@ void Image::_char_bounds(char c, PixUInt* x, PixUInt* y, PixUInt* minx, PixUInt*
         uint8_t xa = glyph->xAdvance;
         int8_t  xo = glyph->xOffset;
         int8_t  yo = glyph->yOffset;
-        if(textWrap() && ((*x+(((int16_t)xo+gw) * _textsize)) > _x)) {
-          *x  = 0; // Reset x to zero, advance y by one line
-          *y += _textsize * (uint8_t) _gfxFont->yAdvance;
-        }
         int16_t ts = (int16_t) _textsize;
-        PixUInt x1 = *x + xo * ts;
-        PixUInt y1 = *y + yo * ts;
-        PixUInt x2 = x1 + gw * ts - 1;
-        PixUInt y2 = y1 + gh * ts - 1;
-        if(x1 < *minx) *minx = x1;
-        if(y1 < *miny) *miny = y1;
-        if(x2 > *maxx) *maxx = x2;
-        if(y2 > *maxy) *maxy = y2;
+        if ((gw > 0) && (gh > 0)) {   // Glyphs without a bitmap only take space.
+          if(textWrap() && ((*x+(((int16_t)xo+gw) * _textsize)) > _x)) {
+            *x  = 0; // Reset x to zero, advance y by one line
+            *y += _textsize * (uint8_t) _gfxFont->yAdvance;
+          }
+          // Glyphs might overhang the origin, so these have to be signed.
+          int32_t x1 = (int32_t) *x + xo * ts;
+          int32_t y1 = (int32_t) *y + yo * ts;
+          const int32_t x2 = x1 + gw * ts - 1;
+          const int32_t y2 = y1 + gh * ts - 1;
+          if ((x2 >= 0) && (y2 >= 0)) {   // Is any of it visible?
+            if (x1 < 0) x1 = 0;
+            if (y1 < 0) y1 = 0;
+            if(x1 < (int32_t) *minx) *minx = x1;
+            if(y1 < (int32_t) *miny) *miny = y1;
+            if(x2 > (int32_t) *maxx) *maxx = x2;
+            if(y2 > (int32_t) *maxy) *maxy = y2;
+          }
+        }
         *x += xa * ts;
       }
     }
-- 
2.43.0


From 6a03d8e6b3cb1051c64ead68a76aaf617d942208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:57 +0000
Subject: [PATCH 172/179] fix: Text bounds ignored a font's characters above
 127

---
 src/Image/Image.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 9366cdd..423cc5f 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1373,8 +1373,8 @@ void Image::_char_bounds(char c, PixUInt* x, PixUInt* y, PixUInt* minx, PixUInt*
     else if (c != '\r') { // Not a carriage return; is normal char
       uint8_t first = _gfxFont->first;
       uint8_t last  = _gfxFont->last;
-      if((c >= first) && (c <= last)) { // Char present in this font?
-        GFXglyph* glyph = &(((GFXglyph*) _gfxFont->glyph))[c - first];
+      if(((uint8_t) c >= first) && ((uint8_t) c <= last)) { // Char present in this font?
+        GFXglyph* glyph = &(((GFXglyph*) _gfxFont->glyph))[(uint8_t) c - first];
         uint8_t gw = glyph->width;
         uint8_t gh = glyph->height;
         uint8_t xa = glyph->xAdvance;
-- 
2.43.0


From e757c9a59ad4d7f8c74a9007b72b72f8ed89847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:18 +0000
Subject: [PATCH 173/179] fix: Graphs of floats drew their lowest values below
 their area

---
 src/Image/ImageUtils/ImageGraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image/ImageUtils/ImageGraph.cpp b/src/Image/ImageUtils/ImageGraph.cpp
index 56db5dd..ba786b7 100644
--- a/src/Image/ImageUtils/ImageGraph.cpp
+++ b/src/Image/ImageUtils/ImageGraph.cpp
@@ -230,7 +230,7 @@ template <> void ImageGraph<float>::drawGraph(Image* img, const PixUInt POS_X, c
         const float    DATA_VALUE = *(tmp_ptr + i);
         const uint32_t DELTA_Y    = ((DATA_VALUE - trace0.minValue()) * trace0.v_scale());
         const PixUInt PNT_X_POS  = (GRAPH_X + i);
-        const PixUInt PNT_Y_POS  = ((GRAPH_Y + FRUS_H) - DELTA_Y);
+        const PixUInt PNT_Y_POS  = (GRAPH_Y + (GRAPH_H - DELTA_Y));
         if ((int32_t) i != trace0.accented_idx) {
           // Draw a normal point on the curve.
           img->setPixel(PNT_X_POS, PNT_Y_POS, trace0.color);
-- 
2.43.0


From 0c9779ab753908e51d228cedca4c182dc82f19eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:18 +0000
Subject: [PATCH 174/179] fix: Graphs of traces without data read a sample that
 is not there

---
 src/Image/ImageUtils/ImageGraph.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Image/ImageUtils/ImageGraph.cpp b/src/Image/ImageUtils/ImageGraph.cpp
index ba786b7..5b86cfd 100644
--- a/src/Image/ImageUtils/ImageGraph.cpp
+++ b/src/Image/ImageUtils/ImageGraph.cpp
@@ -34,7 +34,7 @@ template <> void ImageGraph<uint32_t>::drawGraph(Image* img, const PixUInt POS_X
     img->drawFastVLine((GRAPH_X - 1), GRAPH_Y, FRUS_H, fg_color);
     img->drawFastHLine((GRAPH_X - 1), (GRAPH_Y + (FRUS_H - 1)), FRUS_W, fg_color);
 
-    if (trace0.enabled) {
+    if (trace0.enabled && (nullptr != trace0.dataset) && (0 < trace0.data_len)) {
       const PixUInt TXT_PIXEL_HEIGHT = img->getFontHeight();
       const PixUInt TXT_PIXEL_WIDTH  = img->getFontWidth();
       trace0.findBounds(GRAPH_W, GRAPH_H);
@@ -222,7 +222,7 @@ template <> void ImageGraph<float>::drawGraph(Image* img, const PixUInt POS_X, c
     img->drawFastVLine((GRAPH_X - 1), GRAPH_Y, FRUS_H, fg_color);
     img->drawFastHLine((GRAPH_X - 1), (GRAPH_Y + (FRUS_H - 1)), FRUS_W, fg_color);
 
-    if (trace0.enabled) {
+    if (trace0.enabled && (nullptr != trace0.dataset) && (0 < trace0.data_len)) {
       trace0.findBounds((FRUS_W - INSET_X), (FRUS_H - INSET_Y));
       float*    tmp_ptr = trace0.dataset;
       uint32_t  tmp_len = strict_min((uint32_t) GRAPH_W, trace0.data_len);
-- 
2.43.0


From 9abd7fb2479322ef660abb40ce8c6da5bbbcd6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:18 +0000
Subject: [PATCH 175/179] fix: Accented points near the left and upper edges of
 a graph wrapped around

---
 src/Image/ImageUtils/ImageGraph.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/Image/ImageUtils/ImageGraph.cpp b/src/Image/ImageUtils/ImageGraph.cpp
index 5b86cfd..6484746 100644
--- a/src/Image/ImageUtils/ImageGraph.cpp
+++ b/src/Image/ImageUtils/ImageGraph.cpp
@@ -97,8 +97,8 @@ template <> void ImageGraph<uint32_t>::drawGraph(Image* img, const PixUInt POS_X
         else {
           // Draw an accented point on the curve.
           const PixUInt POINT_SIZE = 3;
-          PixUInt point_x = (PNT_X_POS - POINT_SIZE);
-          PixUInt point_y = (PNT_Y_POS - POINT_SIZE);
+          int32_t point_x = ((int32_t) PNT_X_POS - POINT_SIZE);
+          int32_t point_y = ((int32_t) PNT_Y_POS - POINT_SIZE);
           PixUInt point_h = ((POINT_SIZE << 1) + 1);  // Ensure an odd number.
           PixUInt point_w = ((POINT_SIZE << 1) + 1);  // Ensure an odd number.
 
@@ -135,8 +135,9 @@ template <> void ImageGraph<uint32_t>::drawGraph(Image* img, const PixUInt POS_X
           if ((txt_w + txt_x) > (GRAPH_X + GRAPH_W)) {
             // If the string would overflow the element's right-hand boundary,
             //   render it on the left-hand side of the indicator line.
-            txt_x = point_x - txt_w;
-            if (txt_x < GRAPH_X) {
+            const int32_t LEFT_OF_POINT = (point_x - (int32_t) txt_w);
+            txt_x = (PixUInt) LEFT_OF_POINT;
+            if (LEFT_OF_POINT < GRAPH_X) {
               // If we adjusted the text offset, and it now lies outside the
               //   left-hand boundary of the element, set the text to be at the
               //   boundary, and what happens happens.
@@ -238,8 +239,8 @@ template <> void ImageGraph<float>::drawGraph(Image* img, const PixUInt POS_X, c
         else {
           // Draw an accented point on the curve.
           const PixUInt POINT_SIZE = 3;
-          PixUInt point_x = (PNT_X_POS - POINT_SIZE);
-          PixUInt point_y = (PNT_Y_POS - POINT_SIZE);
+          int32_t point_x = ((int32_t) PNT_X_POS - POINT_SIZE);
+          int32_t point_y = ((int32_t) PNT_Y_POS - POINT_SIZE);
           PixUInt point_h = ((POINT_SIZE << 1) + 1);  // Ensure an odd number.
           PixUInt point_w = ((POINT_SIZE << 1) + 1);  // Ensure an odd number.
 
@@ -275,8 +276,9 @@ template <> void ImageGraph<float>::drawGraph(Image* img, const PixUInt POS_X, c
           if ((txt_w + txt_x) > (GRAPH_X + GRAPH_W)) {
             // If the string would overflow the element's right-hand boundary,
             //   render it on the left-hand side of the indicator line.
-            txt_x = point_x - txt_w;
-            if (txt_x < GRAPH_X) {
+            const int32_t LEFT_OF_POINT = (point_x - (int32_t) txt_w);
+            txt_x = (PixUInt) LEFT_OF_POINT;
+            if (LEFT_OF_POINT < GRAPH_X) {
               // If we adjusted the text offset, and it now lies outside the
               //   left-hand boundary of the element, set the text to be at the
               //   boundary, and what happens happens.
-- 
2.43.0


From 786208d4358ce6cfbd5fbb5db9d2bb2f4b8b6c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:59 +0000
Subject: [PATCH 176/179] fix: randomArt() ended a line at a place that was
 visited seventeen times

---
 src/CppPotpourri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CppPotpourri.cpp b/src/CppPotpourri.cpp
index 3f463f4..0686961 100644
--- a/src/CppPotpourri.cpp
+++ b/src/CppPotpourri.cpp
@@ -196,7 +196,7 @@ int randomArt(uint8_t* dgst_raw, unsigned int dgst_raw_len, const char* title, S
   line_buf[20] = '\0';
   for (uint8_t i = 0; i < YLIM; i++) {
     for (uint8_t j = 0; j < XLIM; j++) {
-      *(line_buf + j + 1) = *(ra_symbols + array[j + (XLIM * i)] % 18);
+      *(line_buf + j + 1) = *(ra_symbols + array[j + (XLIM * i)] % 17);
     }
     temp.concatf(line_buf);
   }
-- 
2.43.0


From 17461e2bc3dd4c27a4cab4a797a79145a1559535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:26 +0000
Subject: [PATCH 177/179] fix: draw a linear plot of bytes in whole squares
 that stay within its area

---
 src/Image/ImageUtils/BlobPlotter.cpp | 33 ++++++++++------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/src/Image/ImageUtils/BlobPlotter.cpp b/src/Image/ImageUtils/BlobPlotter.cpp
index 5e17e1d..ec9d826 100644
--- a/src/Image/ImageUtils/BlobPlotter.cpp
+++ b/src/Image/ImageUtils/BlobPlotter.cpp
@@ -248,30 +248,19 @@ int8_t BlobPlotter::apply(bool force) {
 
 
 /*
-* Pad the LEN value such that it will produce a square output of squares.
+* Finds the largest square that will fit into the area LEN times over, with no
+*   square straddling the area's edge.
 */
 int8_t BlobPlotter::_calculate_square_size(const uint32_t LEN, const uint32_t T_SIZE) {
   _square_size = 0;
-  const PixUInt  STRICT_SQUARE_LIMIT = strict_min(_t_w, _t_h);   // Can't have a square larger than the bounding area...
-  const double   S_TO_FILL_AREA = sqrt(((double) T_SIZE / (double) LEN));
-  if ((double) 1.0d > S_TO_FILL_AREA) return -1;
-  const PixUInt  ROUNDED_SQUARE_SIZE = (PixUInt) ceil(S_TO_FILL_AREA);
-  const PixUInt  SQUARE_SIZE    = strict_min(ROUNDED_SQUARE_SIZE, STRICT_SQUARE_LIMIT);
-  const PixUInt  BYTES_PER_ROW  = ((_t_w / SQUARE_SIZE) + 1);
-  if (0 == BYTES_PER_ROW) return -1;
-  const PixUInt  TOTAL_ROWS     = ((LEN / BYTES_PER_ROW) + 1);
-  const uint32_t UNSQUARE_BYTES = (LEN - (BYTES_PER_ROW * TOTAL_ROWS));   // Number of bytes surplus to the square.
-
-  // Pad the length to yield a square that will include all the bytes in the
-  //   range, and then recalculate the square size.
-  const uint32_t PADDED_LEN       = (LEN + (BYTES_PER_ROW - UNSQUARE_BYTES));
-  const PixUInt  P_S_TO_FILL_AREA = (PixUInt) sqrt((double) T_SIZE / (double) PADDED_LEN);
-  if (0 == P_S_TO_FILL_AREA) return -1;
-  const PixUInt  P_SQUARE_SIZE    = strict_min(P_S_TO_FILL_AREA, STRICT_SQUARE_LIMIT);
-  const uint32_t P_BYTES_PER_ROW  = ((_t_w / P_SQUARE_SIZE) + 1);
-  if (0 == P_BYTES_PER_ROW) return -1;
-  //const uint32_t P_TOTAL_ROWS     = ((LEN / P_BYTES_PER_ROW) + 1);
-  _square_size = P_SQUARE_SIZE;
+  if ((0 == LEN) | (LEN > T_SIZE)) return -1;
+  const uint32_t STRICT_SQUARE_LIMIT = strict_min(_t_w, _t_h);   // Can't have a square larger than the bounding area...
+  const uint32_t S_TO_FILL_AREA      = (uint32_t) sqrt((double) T_SIZE / (double) LEN);
+  uint32_t square_size = strict_min(S_TO_FILL_AREA, STRICT_SQUARE_LIMIT);
+  while ((square_size > 1) && (((_t_w / square_size) * (_t_h / square_size)) < LEN)) {
+    square_size--;
+  }
+  _square_size = (PixUInt) square_size;
   return 0;
 }
 
@@ -440,7 +429,7 @@ int8_t BlobPlotterLinear::_curve_render(const uint8_t* PTR, const uint32_t OFFSE
     for (uint32_t i = 0; i < LEN; i++) {
       if (0 < i) {  // TODO: Letting the compiler optimize this slop away bugs me. Just write it cleaner.
         //if (0 == (i % BYTES_PER_ROW)) {
-        if ((target_x + _square_size) >= (_t_x + _t_w)) {
+        if ((target_x + (_square_size << 1)) > (_t_x + _t_w)) {
           target_x  = _t_x;
           target_y += _square_size;
         }
-- 
2.43.0


From c2b1d7a1ee3e74243923aa0071ece5f142c1ebf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:26 +0000
Subject: [PATCH 178/179] fix: draw a Hilbert plot as a curve that fits its
 area, with no byte left out

---
 src/Image/ImageUtils/BlobPlotter.cpp | 141 +++++++++++++--------------
 src/Image/ImageUtils/BlobPlotter.h   |   1 +
 2 files changed, 70 insertions(+), 72 deletions(-)

diff --git a/src/Image/ImageUtils/BlobPlotter.cpp b/src/Image/ImageUtils/BlobPlotter.cpp
index ec9d826..0b84ab1 100644
--- a/src/Image/ImageUtils/BlobPlotter.cpp
+++ b/src/Image/ImageUtils/BlobPlotter.cpp
@@ -209,7 +209,7 @@ int8_t BlobPlotter::apply(bool force) {
       int8_t fetch_success = 0;
       C3PBinBinder bin_binder = _src_blob->get_as_ptr_len(&fetch_success);
       if (0 < fetch_success) {
-        ret--;
+        ;
         if ((nullptr != bin_binder.buf) & (bin_binder.len > 0)) {
           ret--;
           // Hard-stop the offsets. If the caller has set them to something
@@ -285,6 +285,48 @@ uint32_t BlobPlotterHilbertCurve::_reflected_gray_to_idx(uint32_t gray) {
   return gray;
 }
 
+/*
+* Find the location of the given offset in a field of (2^order) squares per side.
+*/
+void BlobPlotterHilbertCurve::_coord_by_index(const uint32_t idx, const uint16_t order, PixUInt geo_coord[2]) {
+  // Generate bitmasks for each coordinate.
+  const uint32_t X0_BIT_MASK_BASE = (0xAAAAAAAA >> (32-(order << 1)));
+  const uint32_t X1_BIT_MASK_BASE = (0x55555555 >> (32-(order << 1)));
+  uint32_t graycode = _bin_to_reflected_gray(idx);
+  // This step preserves curve continuity. Straight-up graycode would break
+  //   it up into same-oriented tiles. Mutate the graycode to account for the
+  //   reflections in the curve,
+  // LSB first. The bottom two bits are just taken as-is. All subsequent bits
+  //   impact the transform of the inferior bits.
+  for (uint16_t n = 2; n < ((order << 1)+1); n++) {
+    const bool BIT_VALUE = ((graycode >> n) & 0x00000001);
+    const uint32_t LOWER_BIT_MASK = (0xFFFFFFFF >> (31 - (n & 0xFE)));
+    const uint32_t X0_BIT_MASK    = (X0_BIT_MASK_BASE & LOWER_BIT_MASK);
+    const uint32_t X1_BIT_MASK    = (X1_BIT_MASK_BASE & LOWER_BIT_MASK);
+    if (BIT_VALUE) {   // Invert x0
+      graycode = (graycode & ~X0_BIT_MASK) | (~graycode & X0_BIT_MASK);
+    }
+    else if (0 == (n & 1)) {
+      // Exchange if we are on an even bit. Otherwise there is no need.
+      const uint32_t NEW_X1_BITS = ((graycode & X0_BIT_MASK) >> 1);
+      const uint32_t NEW_X0_BITS = ((graycode & X1_BIT_MASK) << 1);
+      graycode = (graycode & ~LOWER_BIT_MASK) | NEW_X0_BITS | NEW_X1_BITS;
+    }
+  }
+
+  // Demux X/Y from Hilbert index.
+  geo_coord[0] = 0;
+  geo_coord[1] = 0;
+  for (uint32_t n = 0; n < 32; n++) {   // TODO: Only need to loop (x0_bits + x1_bits)... wasteful.
+    // Odd bits are x0, which we construe as Cartesian-X.
+    // Even bits are x1, which we construe as Cartesian-Y.
+    const uint8_t COORD_IDX = ((n & 1) ? 0 : 1);
+    const bool    BIT_VALUE = ((graycode >> n) & 0x00000001);
+    geo_coord[COORD_IDX] = (geo_coord[COORD_IDX] >> 1) + (BIT_VALUE ? 0x8000 : 0);  // TODO: Width-dependency. Careful...
+  }
+}
+
+
 /*
 * Superclass can give us a reasonable square size, but it wouldn't account for
 *   our preference to render with possible right-padding for the sake of clean
@@ -303,93 +345,48 @@ uint32_t BlobPlotterHilbertCurve::_reflected_gray_to_idx(uint32_t gray) {
 */
 int8_t BlobPlotterHilbertCurve::_curve_render(const uint8_t* PTR, const uint32_t OFFSET, const uint32_t LEN) {
   int8_t ret = -1;
-  // We need to find the ratio of H/W for this dataset, and we need to do
-  //   it while (ideally) keeping a power-of-2 on the X-axis.
-  // Presume a square size of 1, just to see if it will all fit. Then, scale it
-  //   upward until it doesn't fit.
-  uint32_t crude_scale = _pixels_available() / LEN;
-  _square_size = 1;
-  while (crude_scale > 3) {
-    _square_size = _square_size * 2;    // Mul-2
-    crude_scale = crude_scale >> 2;   // Div-4
-  }
-  // These are temporary working values.
-  const uint16_t BYTES_PER_ROW = (_t_w / _square_size);
-  const uint16_t BYTES_PER_COL = (_t_h / _square_size);
-  uint16_t x0_bits = 0;
-  uint16_t x1_bits = 0;
-  // Fit as many bits as possible into the X-axis. And determine the resulting
-  //   size of each bitfield.
-  while (BYTES_PER_ROW >= pow(2, (x0_bits + 1))) {    x0_bits++;  }
-  while (BYTES_PER_COL >= pow(2, (x1_bits + 1))) {    x1_bits++;  }
-  if ((x0_bits == 0) | (x1_bits == 0) | (32 < (x0_bits + x1_bits))) {
-    c3p_log(LOG_LEV_ERROR, "BlobPlotterHilbertCurve", "Bailout. Bits (x0/x1): %u/%u\t SS: %u", x0_bits, x1_bits, _bytes_wide, _bytes_high, _square_size);
-    return ret;
-  }
-  _bytes_wide = pow(2, x0_bits);        // Now we know.
-  _bytes_high = (LEN / _bytes_wide);    // This is also certain to be properly scaled, but...
-  if ((_bytes_wide * _bytes_high) < LEN) {  _bytes_high++;  }  // ...account for possible rounding error...
-  while (_bytes_high >= pow(2, x1_bits)) {    x1_bits++;  }    // ...and re-seek the height bit-count, if needed.
-
-  // In light of the resulting true field sizes, scale-back the per-byte render
-  //   to fill the available area while still remaining within it.
-  while ((_t_w < (_square_size * _bytes_wide)) || (_t_h < (_square_size * _bytes_high))) {
-    _square_size--;
+  // Find the smallest curve that holds all of the data, and how much of its
+  //   field the data will actually cover.
+  uint16_t order = 1;
+  while ((order < 15) && (((LEN - 1) >> (order << 1)) > 0)) {    order++;    }
+  uint32_t extent[2] = {0, 0};
+  for (uint32_t i = 0; i < LEN; i++) {
+    PixUInt geo_coord[2] = {0, 0};
+    _coord_by_index(i, order, geo_coord);
+    extent[0] = strict_max(extent[0], (uint32_t) geo_coord[0] + 1);
+    extent[1] = strict_max(extent[1], (uint32_t) geo_coord[1] + 1);
   }
+  // Scale the per-byte render to fill the available area while still remaining
+  //   within it. Lay the curve along whichever axis leaves it more room.
+  const uint32_t SQUARE_AS_IS     = strict_min((_t_w / extent[0]), (_t_h / extent[1]));
+  const uint32_t SQUARE_EXCHANGED = strict_min((_t_w / extent[1]), (_t_h / extent[0]));
+  const bool     EXCHANGE_AXES    = (SQUARE_EXCHANGED > SQUARE_AS_IS);
+  _square_size = (PixUInt) (EXCHANGE_AXES ? SQUARE_EXCHANGED : SQUARE_AS_IS);
+  _bytes_wide  = extent[EXCHANGE_AXES ? 1 : 0];
+  _bytes_high  = extent[EXCHANGE_AXES ? 0 : 1];
+
   // Bailout condition. Not enough area to fully-render in terms of
   //   perfect-squares on the X-axis.
   // NOTE: This is technically not a deal-breaker for the algorithm, but
   //   considering what we are rendering, pow(2) offsets make comprehension
   //   much easier. So we insist on it.
   if (_square_size == 0) {
-    c3p_log(LOG_LEV_ERROR, "BlobPlotterHilbertCurve", "Bailout. Bits (x0/x1): %u/%u\t (w/h): %u/%u\t SS: %u", x0_bits, x1_bits, _bytes_wide, _bytes_high, _square_size);
+    c3p_log(LOG_LEV_ERROR, "BlobPlotterHilbertCurve", "Bailout. Order: %u\t (w/h): %u/%u\t SS: %u", order, _bytes_wide, _bytes_high, _square_size);
     return ret;
   }
 
-  // Generate bitmasks for each coordinate.
-  const uint32_t X0_BIT_MASK_BASE = (0xAAAAAAAA >> (32-(x0_bits << 1)));
-  const uint32_t X1_BIT_MASK_BASE = (0x55555555 >> (32-(x1_bits << 1)));
-
   // Setup a few parameters for the render loop...
   const bool HAVE_MAPPING_ARRAY = ((nullptr != _mapping_ptr) & ((LEN << 1) <= _mapping_len));
-  const uint16_t BITS_TO_LOOP = (strict_max(x0_bits, x1_bits) << 1);
 
   for (uint32_t i = 0; i < LEN; i++) {
-    uint32_t graycode = _bin_to_reflected_gray(i);
-    // This step preserves curve continuity. Straight-up graycode would break
-    //   it up into same-oriented tiles. Mutate the graycode to account for the
-    //   reflections in the curve,
-    // LSB first. The bottom two bits are just taken as-is. All subsequent bits
-    //   impact the transform of the inferior bits.
-    for (uint16_t n = 2; n < (BITS_TO_LOOP+1); n++) {
-      const bool BIT_VALUE = ((graycode >> n) & 0x00000001);
-      const uint32_t LOWER_BIT_MASK = (0xFFFFFFFF >> (31 - (n & 0xFE)));
-      const uint32_t X0_BIT_MASK    = (X0_BIT_MASK_BASE & LOWER_BIT_MASK);
-      const uint32_t X1_BIT_MASK    = (X1_BIT_MASK_BASE & LOWER_BIT_MASK);
-      if (BIT_VALUE) {   // Invert x0
-        graycode = (graycode & ~X0_BIT_MASK) | (~graycode & X0_BIT_MASK);
-      }
-      else if (0 == (n & 1)) {
-        // Exchange if we are on an even bit. Otherwise there is no need.
-        const uint32_t NEW_X1_BITS = ((graycode & X0_BIT_MASK) >> 1);
-        const uint32_t NEW_X0_BITS = ((graycode & X1_BIT_MASK) << 1);
-        graycode = (graycode & ~LOWER_BIT_MASK) | NEW_X0_BITS | NEW_X1_BITS;
-      }
-    }
-
-    // Demux X/Y from Hilbert index.
     PixUInt geo_coord[2] = {0, 0};
-    for (uint32_t n = 0; n < 32; n++) {   // TODO: Only need to loop (x0_bits + x1_bits)... wasteful.
-      // Odd bits are x0, which we construe as Cartesian-X.
-      // Even bits are x1, which we construe as Cartesian-Y.
-      const uint8_t COORD_IDX = ((n & 1) ? 0 : 1);
-      const bool    BIT_VALUE = ((graycode >> n) & 0x00000001);
-      geo_coord[COORD_IDX] = (geo_coord[COORD_IDX] >> 1) + (BIT_VALUE ? 0x8000 : 0);  // TODO: Width-dependency. Careful...
-    }
+    _coord_by_index(i, order, geo_coord);
+    const PixUInt COORD_X = geo_coord[EXCHANGE_AXES ? 1 : 0];
+    const PixUInt COORD_Y = geo_coord[EXCHANGE_AXES ? 0 : 1];
     // If the mapping is being observed, write the relative coordinates of the
     //   upper-left of each byte's square into an offset-indexed array.
-    const PixUInt COORD_REL_X = (geo_coord[0] * _square_size);
-    const PixUInt COORD_REL_Y = (geo_coord[1] * _square_size);
+    const PixUInt COORD_REL_X = (COORD_X * _square_size);
+    const PixUInt COORD_REL_Y = (COORD_Y * _square_size);
     if (HAVE_MAPPING_ARRAY) {
       PixUInt* map_ptr_offset = (_mapping_ptr + (i << 1));
       *(map_ptr_offset + 0) = COORD_REL_X;
@@ -397,7 +394,7 @@ int8_t BlobPlotterHilbertCurve::_curve_render(const uint8_t* PTR, const uint32_t
     }
     // Draw the byte into the absolute location in the target Image.
     const PixUInt TARGET_X = (_t_x + COORD_REL_X);
-    const PixUInt TARGET_Y = _t_y + (geo_coord[1] * _square_size);
+    const PixUInt TARGET_Y = _t_y + (COORD_Y * _square_size);
     if (((TARGET_X + _square_size) <= (_t_x + _t_w)) & ((TARGET_Y + _square_size) <= (_t_y + _t_h))) {
       uint32_t color = _styler->getColor(PTR, LEN, (i+OFFSET));
       _target->fillRect(TARGET_X, TARGET_Y, _square_size, _square_size, color);
diff --git a/src/Image/ImageUtils/BlobPlotter.h b/src/Image/ImageUtils/BlobPlotter.h
index 5f1bec3..66893a9 100644
--- a/src/Image/ImageUtils/BlobPlotter.h
+++ b/src/Image/ImageUtils/BlobPlotter.h
@@ -208,6 +208,7 @@ class BlobPlotterHilbertCurve : public BlobPlotter {
     virtual int8_t _curve_render(const uint8_t* PTR, const uint32_t OFFSET, const uint32_t LEN);
     uint32_t _bin_to_reflected_gray(uint32_t idx);
     uint32_t _reflected_gray_to_idx(uint32_t gray);
+    void     _coord_by_index(const uint32_t idx, const uint16_t order, PixUInt geo_coord[2]);
 };
 
 
-- 
2.43.0


From d74970ab2783d9f7525d9ed01854c9d640b6a460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:26 +0000
Subject: [PATCH 179/179] fix: refuse a plot whose area ends beyond the range
 of the coordinates

---
 src/Image/ImageUtils/BlobPlotter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Image/ImageUtils/BlobPlotter.cpp b/src/Image/ImageUtils/BlobPlotter.cpp
index 0b84ab1..47ac5d2 100644
--- a/src/Image/ImageUtils/BlobPlotter.cpp
+++ b/src/Image/ImageUtils/BlobPlotter.cpp
@@ -181,8 +181,8 @@ bool BlobPlotter::_able_to_render() {
   if (nullptr != _styler) {
     if ((nullptr != _target) && _target->allocated()) {
       if ((0 < _t_w) & (0 < _t_h)) {
-        const PixUInt X_EXTENT = (_t_x + _t_w);
-        const PixUInt Y_EXTENT = (_t_y + _t_h);
+        const uint32_t X_EXTENT = (_t_x + _t_w);
+        const uint32_t Y_EXTENT = (_t_y + _t_h);
         safe = ((_target->x() > X_EXTENT) & (_target->y() > Y_EXTENT));
       }
     }
-- 
2.43.0

