From ab9d965d6629b6ef5690fb9a349c13b37395b437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:08 +0000
Subject: [PATCH 01/80] fix: do not restart the busy period when a waiting job
 takes over a channel

---
 most_queue/sim/qs_sim.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/most_queue/sim/qs_sim.py b/most_queue/sim/qs_sim.py
index 12e3f1c..b687eb1 100755
--- a/most_queue/sim/qs_sim.py
+++ b/most_queue/sim/qs_sim.py
@@ -332,9 +332,6 @@ class QueueingSystemSimulator:
         """
         que_ts = self.queue.pop()
 
-        if self.free_channels == 1:
-            self.start_ppnz = self.ttek
-
         self.taked += 1
         que_ts.wait_time += self.ttek - que_ts.start_waiting_time
         self.refresh_w_stat(que_ts.wait_time)
@@ -359,6 +356,10 @@ class QueueingSystemSimulator:
             if self.queue.size() != 0:
                 self.send_head_of_queue_to_channel(i)
 
+        if self.free_channels == 0:
+            # all channels have just become busy
+            self.start_ppnz = self.ttek
+
     def on_end_cold(self):
         """
         Job that has to be done after Cold Period Ends
@@ -382,6 +383,10 @@ class QueueingSystemSimulator:
                 if self.queue.size() != 0:
                     self.send_head_of_queue_to_channel(i)
 
+            if self.free_channels == 0:
+                # all channels have just become busy
+                self.start_ppnz = self.ttek
+
     def on_end_cold_delay(self):
         """
         Job that has to be done after Cold Delay Period Ends
-- 
2.43.0


From f39b76f9f75b16a2871b7504de6e0cbc255155c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:08 +0000
Subject: [PATCH 02/80] fix: charge the time before an impatient job leaves to
 the state it was spent in

---
 most_queue/sim/impatient_queue_sim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/most_queue/sim/impatient_queue_sim.py b/most_queue/sim/impatient_queue_sim.py
index a92bc61..a63888d 100755
--- a/most_queue/sim/impatient_queue_sim.py
+++ b/most_queue/sim/impatient_queue_sim.py
@@ -91,7 +91,10 @@ class ImpatientQueueSim(QueueingSystemSimulator):
                     break
 
     def drop_task(self, num_of_task_in_queue, moment_to_leave_earlier):
+        self.p[self.in_sys] += moment_to_leave_earlier - self.t_old
+
         self.ttek = moment_to_leave_earlier
+        self.t_old = self.ttek
         new_queue = []
         for i, tsk in enumerate(self.queue.queue):
             if i != num_of_task_in_queue:
-- 
2.43.0


From a7300fffa28326e8e2a58aff1e3cd4acbe6c13fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 03/80] fix: waiting moments of the impatient queue count every
 job that ends its wait once

---
 most_queue/sim/impatient_queue_sim.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/most_queue/sim/impatient_queue_sim.py b/most_queue/sim/impatient_queue_sim.py
index a63888d..ddd0073 100755
--- a/most_queue/sim/impatient_queue_sim.py
+++ b/most_queue/sim/impatient_queue_sim.py
@@ -1,5 +1,6 @@
 from most_queue.sim.utils.distribution_utils import create_distribution
 from most_queue.sim.qs_sim import QueueingSystemSimulator, Task
+from most_queue.sim.utils.stats_update import refresh_moments_stat
 
 
 class ImpatientTask(Task):
@@ -21,6 +22,8 @@ class ImpatientQueueSim(QueueingSystemSimulator):
         self.impatience = None
         self.is_set_impatience_params = False
 
+        self.reneged = 0  # number of jobs that left the queue unserved
+
     def set_impatiens(self, params, types):
         """
         Задает тип и параметры распределения интервала нетерпения заявок.
@@ -80,6 +83,7 @@ class ImpatientQueueSim(QueueingSystemSimulator):
             for s in self.servers:
                 if s.is_free:
                     self.taked += 1
+                    self.refresh_w_stat(0)
                     s.start_service(ImpatientTask(
                         self.ttek, moment_to_leave), self.ttek, is_warm_start)
                     self.free_channels -= 1
@@ -105,11 +109,18 @@ class ImpatientQueueSim(QueueingSystemSimulator):
         self.queue.queue = new_queue
         self.in_sys -= 1
         self.dropped += 1
+        self.reneged += 1
         self.served += 1
         self.refresh_v_stat(self.ttek - end_ts.arr_time)
         end_ts.wait_time = self.ttek - end_ts.arr_time
         self.refresh_w_stat(end_ts.wait_time)
 
+    def refresh_w_stat(self, new_a):
+        """
+        Updating statistics of wait times: a wait ends by the start of service or by leaving the queue
+        """
+        self.w = refresh_moments_stat(self.w, new_a, self.taked + self.reneged)
+
     def run_one_step(self):
 
         num_of_server_earlier = -1
-- 
2.43.0


From d01cd6297c48a0f3e047eab2474dbb2f2f415f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 04/80] fix: batch arrivals charge the elapsed time to the
 state before the batch

---
 most_queue/sim/batch_sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/most_queue/sim/batch_sim.py b/most_queue/sim/batch_sim.py
index ff7ceb4..0906236 100755
--- a/most_queue/sim/batch_sim.py
+++ b/most_queue/sim/batch_sim.py
@@ -47,6 +47,8 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
                 batch_size = i + 1
                 break
 
+        self.p[self.in_sys] += self.arrival_time - self.t_old
+
         self.ttek = self.arrival_time
         self.t_old = self.ttek
 
@@ -54,7 +56,6 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
 
         for tsk in range(batch_size):
             self.arrived += 1
-            self.p[self.in_sys] += self.arrival_time - self.t_old
 
             self.in_sys += 1
 
-- 
2.43.0


From bffc462d3a31496eb62d760ae656816e92280a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 05/80] fix: batch arrivals to a finite buffer no longer fail
 with TypeError

---
 most_queue/sim/batch_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/sim/batch_sim.py b/most_queue/sim/batch_sim.py
index 0906236..8ee69e0 100755
--- a/most_queue/sim/batch_sim.py
+++ b/most_queue/sim/batch_sim.py
@@ -65,7 +65,7 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
                     new_tsk.start_waiting_time = self.ttek
                     self.queue.append(new_tsk)
                 else:
-                    if len(self.queue) < self.buffer:
+                    if self.queue.size() < self.buffer:
                         new_tsk = Task(self.ttek)
                         new_tsk.start_waiting_time = self.ttek
                         self.queue.append(new_tsk)
-- 
2.43.0


From c2ff2ea117f30efd4a0e17cd856f5d2e7ae9b945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 06/80] fix: waiting moments of the batch queue include the
 jobs served at once

---
 most_queue/sim/batch_sim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/most_queue/sim/batch_sim.py b/most_queue/sim/batch_sim.py
index 8ee69e0..744822d 100755
--- a/most_queue/sim/batch_sim.py
+++ b/most_queue/sim/batch_sim.py
@@ -83,6 +83,7 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
                 for s in self.servers:
                     if s.is_free:
                         self.taked += 1
+                        self.refresh_w_stat(0)
                         s.start_service(Task(self.ttek),
                                         self.ttek, is_warm_start)
                         self.free_channels -= 1
-- 
2.43.0


From 4af822a610c2ec1726b16c3d608d604a006b8573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 07/80] fix: finite-source simulator no longer fails with
 TypeError on the queue length

---
 most_queue/sim/queue_finite_source_sim.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/most_queue/sim/queue_finite_source_sim.py b/most_queue/sim/queue_finite_source_sim.py
index 5fa2e16..f56f8fe 100755
--- a/most_queue/sim/queue_finite_source_sim.py
+++ b/most_queue/sim/queue_finite_source_sim.py
@@ -77,7 +77,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
                 new_tsk.start_waiting_time = self.ttek
                 self.queue.append(new_tsk)
             else:
-                if len(self.queue) < self.buffer:
+                if self.queue.size() < self.buffer:
                     new_tsk = Task(self.ttek)
                     new_tsk.start_waiting_time = self.ttek
                     self.queue.append(new_tsk)
@@ -89,7 +89,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
 
             # check if its a warm phase:
             is_warm_start = False
-            if len(self.queue) == 0 and self.free_channels == self.n and self.warm_phase.is_set:
+            if self.queue.size() == 0 and self.free_channels == self.n and self.warm_phase.is_set:
                 is_warm_start = True
 
             for s in self.servers:
@@ -131,13 +131,13 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
         self.refresh_w_stat(end_ts.wait_time)
         self.in_sys -= 1
 
-        if len(self.queue) == 0 and self.free_channels == 1:
+        if self.queue.size() == 0 and self.free_channels == 1:
             if self.in_sys == self.n - 1:
                 # Конец ПНЗ
                 self.ppnz_moments += 1
                 self.refresh_ppnz_stat(self.ttek - self.start_ppnz)
 
-        if len(self.queue) != 0:
+        if self.queue.size() != 0:
 
             que_ts = self.queue.pop()
 
-- 
2.43.0


From ab607d0259d0d0e3d519474a1e708fe2a1bcee9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 08/80] fix: a source whose job is refused returns to thinking

---
 most_queue/sim/queue_finite_source_sim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/most_queue/sim/queue_finite_source_sim.py b/most_queue/sim/queue_finite_source_sim.py
index f56f8fe..3a88137 100755
--- a/most_queue/sim/queue_finite_source_sim.py
+++ b/most_queue/sim/queue_finite_source_sim.py
@@ -84,6 +84,9 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
                 else:
                     self.dropped += 1
                     self.in_sys -= 1
+                    # the source of the refused job starts over
+                    self.sources_left += 1
+                    self.arrival_times[self.arrived_num] = self.ttek + self.source.generate()
 
         else:  # there are free channels:
 
-- 
2.43.0


From e9e400c704919b527e1a385b8d5d841ad81b5741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 09/80] fix: waiting moments of the finite-source queue are
 sample moments of started jobs

---
 most_queue/sim/queue_finite_source_sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/most_queue/sim/queue_finite_source_sim.py b/most_queue/sim/queue_finite_source_sim.py
index 3a88137..268df88 100755
--- a/most_queue/sim/queue_finite_source_sim.py
+++ b/most_queue/sim/queue_finite_source_sim.py
@@ -98,6 +98,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
             for s in self.servers:
                 if s.is_free:
                     self.taked += 1
+                    self.refresh_w_stat(0)
                     s.start_service(Task(self.ttek), self.ttek, is_warm_start)
                     self.free_channels -= 1
 
@@ -131,7 +132,6 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
         self.total += 1
         self.free_channels += 1
         self.refresh_v_stat(self.ttek - end_ts.arr_time)
-        self.refresh_w_stat(end_ts.wait_time)
         self.in_sys -= 1
 
         if self.queue.size() == 0 and self.free_channels == 1:
@@ -149,6 +149,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
 
             self.taked += 1
             que_ts.wait_time += self.ttek - que_ts.start_waiting_time
+            self.refresh_w_stat(que_ts.wait_time)
             self.servers[c].start_service(que_ts, self.ttek)
             self.free_channels -= 1
 
-- 
2.43.0


From 019b0199f7c1f57f7f9163d1508046affe5b8618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 10/80] fix: finite-source busy period goes on while jobs wait

---
 most_queue/sim/queue_finite_source_sim.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/most_queue/sim/queue_finite_source_sim.py b/most_queue/sim/queue_finite_source_sim.py
index 268df88..fc0e949 100755
--- a/most_queue/sim/queue_finite_source_sim.py
+++ b/most_queue/sim/queue_finite_source_sim.py
@@ -144,9 +144,6 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
 
             que_ts = self.queue.pop()
 
-            if self.free_channels == 1:
-                self.start_ppnz = self.ttek
-
             self.taked += 1
             que_ts.wait_time += self.ttek - que_ts.start_waiting_time
             self.refresh_w_stat(que_ts.wait_time)
-- 
2.43.0


From 4718f6672d7c8a5c1fc288a3033ea1bbd4b708c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:41 +0000
Subject: [PATCH 11/80] fix: the discipline without priorities works, alone and
 inside a network

---
 most_queue/sim/priority_queue_sim.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 3ded2e1..452c003 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -441,7 +441,9 @@ class PriorityQueueSimulator:
         self.refresh_w_stat(k, end_ts.wait_time)
         self.in_sys[k] -= 1
 
-        if len(self.queue[k]) == 0 and self.free_channels == 1:
+        line_of_class = self.queue if self.prty_type == "No" else self.queue[k]
+
+        if len(line_of_class) == 0 and self.free_channels == 1:
             if self.in_sys[k] == self.n - 1 and self.class_ppnz_started != -1:
                 # Конец ПНЗ
                 self.ppnz_moments[k] += 1
@@ -479,14 +481,18 @@ class PriorityQueueSimulator:
             if len(self.queue) != 0:
 
                 que_ts = self.queue.pop(0)
+                kk = que_ts.in_node_class_num if is_network else que_ts.k
 
-                if self.free_channels == 1 and k != end_ts.k:
-                    self.start_ppnz[k] = self.ttek
-                    self.class_ppnz_started = k
+                if self.free_channels == 1 and kk != k:
+                    self.start_ppnz = self.ttek
+                    self.class_ppnz_started = kk
 
-                self.taked[k] += 1
+                self.taked[kk] += 1
                 que_ts.wait_time += self.ttek - que_ts.start_waiting_time
-                self.servers[c].start_service(que_ts, self.ttek)
+                if is_network:
+                    que_ts.wait_network += self.ttek - que_ts.start_waiting_time
+                self.servers[c].start_service(
+                    que_ts, self.ttek, is_network=is_network)
                 self.free_channels -= 1
         if is_network:
             return end_ts
-- 
2.43.0


From 9dfcae11a2702301b7c3b7735d963c11474b85b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:41 +0000
Subject: [PATCH 12/80] fix: a priority queue with buffer 0 has no waiting room
 instead of an unlimited one

---
 most_queue/sim/priority_queue_sim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 452c003..f45a926 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -310,7 +310,7 @@ class PriorityQueueSimulator:
 
             if self.prty_type == 'No':
 
-                if not self.buffer:  # не задана длина очередиб т.е бесконечная очередь
+                if self.buffer is None:  # не задана длина очередиб т.е бесконечная очередь
                     new_tsk.start_waiting_time = self.ttek
                     self.queue.append(new_tsk)
                 else:
@@ -370,7 +370,7 @@ class PriorityQueueSimulator:
 
                             break
                     if not is_found_weekier:
-                        if not self.buffer:  # не задана длина очередиб т.е бесконечная очередь
+                        if self.buffer is None:  # не задана длина очередиб т.е бесконечная очередь
                             new_tsk.start_waiting_time = self.ttek
                             self.queue[k].append(new_tsk)
                         else:
-- 
2.43.0


From 6c74b1f884e9801a7ea8be32b90ab2879cab9ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:41 +0000
Subject: [PATCH 13/80] fix: the non-preemptive discipline respects the buffer

---
 most_queue/sim/priority_queue_sim.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index f45a926..d9332a2 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -386,9 +386,12 @@ class PriorityQueueSimulator:
                                 self.in_sys[k] -= 1
 
             elif self.prty_type == "NP":
-                if self.free_channels == 0:
+                if self.buffer is None or sum(len(q) for q in self.queue) < self.buffer:
                     new_tsk.start_waiting_time = self.ttek
                     self.queue[k].append(new_tsk)
+                else:
+                    self.dropped[k] += 1
+                    self.in_sys[k] -= 1
 
         else:  # there are free channels:
             if self.free_channels == self.n and self.is_warm_up_set == True:
-- 
2.43.0


From a89a2854d85948ea8d8c4e272beee555cc9b36f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:41 +0000
Subject: [PATCH 14/80] fix: preemption interrupts a job of the lowest priority
 in service

---
 most_queue/sim/priority_queue_sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index d9332a2..b4314c5 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -327,7 +327,8 @@ class PriorityQueueSimulator:
                 if self.free_channels == 0:
                     # смотрим, есть ли на обслуживании заявки младшего класса
                     is_found_weekier = False
-                    for c in self.servers:
+                    # the job of the lowest priority in service is the one to be interrupted
+                    for c in sorted(self.servers, key=lambda s: -s.class_on_service):
                         if moment:
                             class_on_service = c.tsk_on_service.in_node_class_num
                         else:
-- 
2.43.0


From 3c15dfde3e1ba68eb0107c447a9e5f4362350214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:41 +0000
Subject: [PATCH 15/80] fix: repeat without resampling keeps the duration
 through repeated interruptions

---
 most_queue/sim/priority_queue_sim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index b4314c5..9b82ae3 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -766,6 +766,7 @@ class Server:
             self.tsk_on_service.time_to_end_service = self.time_to_end_service
         else:
             if ts.is_pr:
+                self.total_time_to_serve = ts.time_to_end_service
                 self.time_to_end_service = ttek + ts.time_to_end_service
                 self.tsk_on_service.time_to_end_service = self.time_to_end_service
             else:
-- 
2.43.0


From 646bf4df49a1ad3a1e446bc7619ad568d5d70369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:41 +0000
Subject: [PATCH 16/80] fix: repeat with resampling draws from the interrupted
 job's own class

---
 most_queue/sim/priority_queue_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 9b82ae3..36ad88a 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -354,7 +354,7 @@ class PriorityQueueSimulator:
                             if self.prty_type == 'PR':
                                 dropped_tsk.time_to_end_service = time_to_end - self.ttek
                             elif self.prty_type == "RS":
-                                dropped_tsk.time_to_end_service = c.dist[k].generate(
+                                dropped_tsk.time_to_end_service = c.dist[class_on_service].generate(
                                 )
                             elif self.prty_type == "RW":
                                 dropped_tsk.time_to_end_service = total_time
-- 
2.43.0


From 5bcc2896d362016773b7c62ddce7073210e643b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:20 +0000
Subject: [PATCH 17/80] fix: a network node serves each class with that class's
 own service distribution

---
 most_queue/sim/priority_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/sim/priority_network.py b/most_queue/sim/priority_network.py
index 891cace..d301158 100755
--- a/most_queue/sim/priority_network.py
+++ b/most_queue/sim/priority_network.py
@@ -39,7 +39,7 @@ class PriorityNetwork:
             param_serv_reset = []  # из-за смены порядка приоритетов в узле
             # для расчета необходимо преобразовать список с параметрами вр обслуживания в узле
             for k in range(k_num):
-                param_serv_reset.append(serv_params[m][nodes_prty[m][k]])
+                param_serv_reset.append(serv_params[m][nodes_prty[m].index(k)])
 
             self.smos[m].set_servers(param_serv_reset)
             time.sleep(0.1)
-- 
2.43.0


From 99b9fd34d24aa34807ba4005208fda6d2756997c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:33 +0000
Subject: [PATCH 18/80] fix: network calculation gives each class its own
 priority, service and sojourn time at a node

---
 most_queue/theory/network_calc.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/most_queue/theory/network_calc.py b/most_queue/theory/network_calc.py
index d91ab1d..a82a1e8 100755
--- a/most_queue/theory/network_calc.py
+++ b/most_queue/theory/network_calc.py
@@ -122,27 +122,17 @@ def network_prty_calc(R, b, n, L, prty, nodes_prty):
         b_order.append([])
         l_order.append([])
         for k in range(k_num):
-            order = nodes_prty[m][k]
+            order = nodes_prty[m].index(k)  # класс заявок с приоритетом k в узле m
             b_order[m].append(b[order][m])
             l_order[m].append(intensities[order][m])
 
     res['v_node'] = []
     for i in range(nodes):
-        l_sum = 0
         for k in range(k_num):
-            l_sum += l_order[i][k]
+            res['loads'][i] += l_order[i][k] * b_order[i][k][0] / n[i]
 
-        b_sr = [0.0] * 4
-
-        for j in range(4):
-            for k in range(k_num):
-                b_sr[j] += b_order[i][k][j]
-            b_sr[j] /= k_num
-
-        res['loads'][i] = l_sum * b_sr[0] / n[i]
-        res['v_node'].append(get_v_prty_invar(l_order[i], b_order[i], n[i], prty[i]))
-        for k in range(k_num):
-            res['v_node'][i][nodes_prty[i][k]] = res['v_node'][i][k]
+        v_order = get_v_prty_invar(l_order[i], b_order[i], n[i], prty[i])
+        res['v_node'].append([v_order[nodes_prty[i][k]] for k in range(k_num)])
 
     h = 0.0001
     s = [0.0] * 4
-- 
2.43.0


From e2746d5d5a39e7ae432409947392e801e888cb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:44 +0000
Subject: [PATCH 19/80] fix: load of the priority queue is the sum of the class
 loads, for every distribution

---
 most_queue/sim/priority_queue_sim.py | 103 +++------------------------
 1 file changed, 8 insertions(+), 95 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 36ad88a..1963eb4 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -6,7 +6,7 @@ import numpy as np
 from colorama import Fore, Style, init
 from tqdm import tqdm
 
-from most_queue.sim.utils.distribution_utils import create_distribution
+from most_queue.sim.utils.distribution_utils import calc_qs_load, create_distribution
 
 init()
 
@@ -179,102 +179,15 @@ class PriorityQueueSimulator:
         """
         Вычисляет коэффициент загрузки СМО
         """
-        l_sum = 0
-        b1_sr = 0
-
+        load = 0
         for i in range(self.k):
+            class_load = calc_qs_load(self.sources_params[i]['type'], self.sources_params[i]['params'],
+                                      self.servers_params[i]['type'], self.servers_params[i]['params'], self.n)
+            if class_load is None:
+                return None
+            load += class_load
 
-            if self.sources_params[i]['type'] == "M":
-                l_sum += self.sources_params[i]['params']
-            elif self.sources_params[i]['type'] == "H":
-                y1 = self.sources_params[i]['params'][0]
-                y2 = 1.0 - y1
-                mu1 = self.sources_params[i]['type'][1]
-                mu2 = self.sources_params[i]['type'][2]
-
-                f1 = y1 / mu1 + y2 / mu2
-                l_sum += 1.0 / f1
-
-            elif self.sources_params[i]['type'] == "E":
-                r = self.sources_params[i]['params'][0]
-                mu = self.sources_params[i]['params'][1]
-                l_sum += mu / r
-
-            elif self.sources_params[i]['type'] == "Gamma":
-                mu = self.sources_params[i]['params'][0]
-                alpha = self.sources_params[i]['params'][1]
-                l_sum += mu / alpha
-
-            elif self.sources_params[i]['type'] == "C":
-                y1 = self.sources_params[i]['params'][0]
-                y2 = 1.0 - y1
-                mu1 = self.sources_params[i]['params'][1]
-                mu2 = self.sources_params[i]['params'][2]
-
-                f1 = y2 / mu1 + y1 * (1.0 / mu1 + 1.0 / mu2)
-                l_sum += 1.0 / f1
-            elif self.sources_params[i]['type'] == "Pa":
-                if self.sources_params[i]['params'][0] < 1:
-                    return None
-                else:
-                    a = self.sources_params[i]['params'][0]
-                    k = self.sources_params[i]['params'][1]
-                    f1 = a * k / (a - 1)
-                    l_sum += 1.0 / f1
-            elif self.sources_params[i]['type'] == "Uniform":
-                f1 = self.sources_params[i]['type'][0]
-                l_sum += 1.0 / f1
-
-            elif self.sources_params[i]['type'] == "D":
-                f1 = self.sources_params[i]['type']
-                l_sum += 1.0 / f1
-
-            if self.servers_params[i]['type'] == "M":
-                mu = self.servers_params[i]['params']
-                b1_sr += 1.0 / mu
-
-            elif self.servers_params[i]['type'] == "H":
-                y1 = self.servers_params[i]['params'][0]
-                y2 = 1.0 - y1
-                mu1 = self.servers_params[i]['params'][1]
-                mu2 = self.servers_params[i]['params'][2]
-
-                b1_sr += y1 / mu1 + y2 / mu2
-
-            elif self.servers_params[i]['type'] == "Gamma":
-                mu = self.servers_params[i]['params'][0]
-                alpha = self.servers_params[i]['params'][1]
-                b1_sr += alpha / mu
-
-            elif self.servers_params[i]['type'] == "E":
-                r = self.servers_params[i]['params'][0]
-                mu = self.servers_params[i]['params'][1]
-                b1_sr += r / mu
-
-            elif self.servers_params[i]['type'] == "Uniform":
-                f1 = self.servers_params[i]['params'][0]
-                b1_sr += 1.0 / f1
-
-            elif self.servers_params[i]['type'] == "D":
-                f1 = self.servers_params[i]['type']
-                b1_sr += 1.0 / f1
-
-            elif self.servers_params[i]['type'] == "C":
-                y1 = self.servers_params[i]['params'][0]
-                y2 = 1.0 - y1
-                mu1 = self.servers_params[i]['params'][1]
-                mu2 = self.servers_params[i]['params'][2]
-
-                b1_sr += y2 / mu1 + y1 * (1.0 / mu1 + 1.0 / mu2)
-            elif self.servers_params[i]['type'] == "Pa":
-                if self.servers_params[i]['params'][0] < 1:
-                    return math.inf
-                else:
-                    a = self.servers_params[i]['params'][0]
-                    k = self.servers_params[i]['params'][1]
-                    b1_sr += a * k / (a - 1)
-
-        return l_sum * b1_sr / (self.n * self.k)
+        return load
 
     def arrival(self, k, moment=None, ts=None):
         """
-- 
2.43.0


From 32690fa4b99851da4147b103227697a4917a6e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:52 +0000
Subject: [PATCH 20/80] fix: printing the queue without priorities no longer
 fails

---
 most_queue/sim/priority_queue_sim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 1963eb4..9eb1618 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -591,10 +591,11 @@ class PriorityQueueSimulator:
                 res += "Server " + str(c + 1) + ": Free\n"
             else:
                 res += str(self.servers[c]) + "\n"
-                for kk in range(self.k):
+                queues = [self.queue] if self.prty_type == 'No' else self.queue
+                for kk, queue in enumerate(queues):
                     res += "Queue # " + \
                         str(kk + 1) + " count " + \
-                        str(len(self.queue[kk])) + "\n"
+                        str(len(queue)) + "\n"
 
         return res
 
-- 
2.43.0


From 534acc5227e9965f7c2aa60ab1b1c6d3b004d44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 21/80] fix: purging a fork-join task removes exactly its
 remaining subtasks

---
 most_queue/sim/fj_sim.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/most_queue/sim/fj_sim.py b/most_queue/sim/fj_sim.py
index c6b372f..45d3155 100755
--- a/most_queue/sim/fj_sim.py
+++ b/most_queue/sim/fj_sim.py
@@ -117,21 +117,24 @@ class ForkJoinSim(QueueingSystemSimulator):
                     # найти все остальные подзадачи в СМО и выкинуть
                     task_id = end_ts.task_id
                     for i in range(self.n):
-                        if self.servers[i].tsk_on_service.task_id == task_id:
-                            self.servers[c].end_service()
+                        if not self.servers[i].is_free and self.servers[i].tsk_on_service.task_id == task_id:
+                            self.servers[i].end_service()
+                            self.free_channels += 1
+                            self.sub_task_in_sys -= 1
                     for i in range(self.n):
-                        for j in range(len(self.queues[i])):
-                            if self.queues[i][j].task_id == task_id:
-                                self.queues[i].pop(j)
+                        rest = [ts for ts in self.queues[i] if ts.task_id != task_id]
+                        self.sub_task_in_sys -= len(self.queues[i]) - len(rest)
+                        self.queues[i] = rest
 
                 self.served += 1
                 self.refresh_v_stat(self.ttek - end_ts.arr_time)
                 self.in_sys -= 1
 
-            if len(self.queues[c]) != 0:
-                que_ts = self.queues[c].pop(0)
-                self.servers[c].start_service(que_ts, self.ttek)
-                self.free_channels -= 1
+            for i in range(self.n):
+                if self.servers[i].is_free and len(self.queues[i]) != 0:
+                    que_ts = self.queues[i].pop(0)
+                    self.servers[i].start_service(que_ts, self.ttek)
+                    self.free_channels -= 1
 
         else:
             if self.served_subtask_in_task[end_ts.task_id] == self.n:
-- 
2.43.0


From 932c179a70388d0882fa92f6d55d232ea2c5056b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 22/80] fix: delayed fork-join subtask can take a free channel

---
 most_queue/sim/fj_delta_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/sim/fj_delta_sim.py b/most_queue/sim/fj_delta_sim.py
index 14c114c..83a329d 100755
--- a/most_queue/sim/fj_delta_sim.py
+++ b/most_queue/sim/fj_delta_sim.py
@@ -106,7 +106,7 @@ class ForkJoinSimDelta(ForkJoinSim):
                 else:  # there are free channels:
                     for s in self.servers:
                         if s.is_free:
-                            s.start_service(subtsk)
+                            s.start_service(subtsk, self.ttek)
                             self.free_channels -= 1
                             break
 
-- 
2.43.0


From 7063b553ec9eafa18ac6653892bf3315492f8c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 23/80] fix: completed delayed subtasks leave the subtask count

---
 most_queue/sim/fj_delta_sim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/most_queue/sim/fj_delta_sim.py b/most_queue/sim/fj_delta_sim.py
index 83a329d..8c6752b 100755
--- a/most_queue/sim/fj_delta_sim.py
+++ b/most_queue/sim/fj_delta_sim.py
@@ -135,6 +135,7 @@ class ForkJoinSimDelta(ForkJoinSim):
         self.served_subtask_in_task[end_ts.task_id] += 1
         self.total += 1
         self.free_channels += 1
+        self.sub_task_in_sys -= 1
 
         if not self.is_SJ:
 
-- 
2.43.0


From 3cdf7b8f884e45f8c8f559870ab6dc76a8f2a2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:42 +0000
Subject: [PATCH 24/80] fix: delayed split-join serves tasks one at a time in
 arrival order

---
 most_queue/sim/fj_delta_sim.py | 42 +++++++++++-----------------------
 1 file changed, 13 insertions(+), 29 deletions(-)

diff --git a/most_queue/sim/fj_delta_sim.py b/most_queue/sim/fj_delta_sim.py
index 8c6752b..e95e9bd 100755
--- a/most_queue/sim/fj_delta_sim.py
+++ b/most_queue/sim/fj_delta_sim.py
@@ -67,7 +67,7 @@ class ForkJoinSimDelta(ForkJoinSim):
 
             else:  # Split-Join discipline
 
-                if self.free_channels < self.k:
+                if self.serv_task_id != -1:  # previous task is not finished
                     self.queue.append(t.subtasks[0])
                 else:
                     self.servers[0].start_service(t.subtasks[0], self.ttek)
@@ -129,7 +129,6 @@ class ForkJoinSimDelta(ForkJoinSim):
         time_to_end = self.servers[c].time_to_end_service
         self.p[self.in_sys] += time_to_end - self.t_old
         end_ts = self.servers[c].end_service()
-        self.serv_task_id = end_ts.task_id
         self.ttek = time_to_end
         self.t_old = self.ttek
         self.served_subtask_in_task[end_ts.task_id] += 1
@@ -157,34 +156,19 @@ class ForkJoinSimDelta(ForkJoinSim):
                 self.refresh_v_stat(self.ttek - end_ts.arr_time)
                 self.in_sys -= 1
 
+                self.serv_task_id = -1
                 if self.queue.size() != 0:
-
-                    new_task_id = self.queue.queue[0].task_id
-
-                    brothers = [q for q in range(
-                        self.queue.size()) if self.queue.queue[q].task_id == new_task_id]
-                    for q in brothers:
-                        que_ts = self.queue.queue[q]
-                        for serv in self.servers:
-                            if serv.is_free:
-                                serv.start_service(que_ts, self.ttek)
-                                self.free_channels -= 1
-                                break
-                    self.queue.queue = [
-                        q for q in self.queue.queue if q.task_id != new_task_id]
-            else:
-                if self.queue.size() != 0:
-                    brothers = [q for q in range(
-                        self.queue.size()) if self.queue.queue[q].task_id == end_ts.task_id]
-                    for q in brothers:
-                        que_ts = self.queue.queue[q]
-                        for serv in self.servers:
-                            if serv.is_free:
-                                serv.start_service(que_ts, self.ttek)
-                                self.free_channels -= 1
-                                break
-                    self.queue.queue = [
-                        q for q in self.queue.queue if q.task_id != end_ts.task_id]
+                    self.serv_task_id = self.queue.queue[0].task_id
+
+            # available subtasks of the current task take the free channels
+            brothers = [ts for ts in self.queue.queue if ts.task_id == self.serv_task_id]
+            for que_ts in brothers[:self.free_channels]:
+                for serv in self.servers:
+                    if serv.is_free:
+                        serv.start_service(que_ts, self.ttek)
+                        self.free_channels -= 1
+                        break
+                self.queue.queue.remove(que_ts)
 
     def run_one_step(self):
 
-- 
2.43.0


From 8ecbe5373418d8ce8d222047fe87c23b3ca7907f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:26 +0000
Subject: [PATCH 25/80] fix: M/M/n/r probabilities at load exactly 1 (division
 by zero)

---
 most_queue/theory/mmnr_calc.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/most_queue/theory/mmnr_calc.py b/most_queue/theory/mmnr_calc.py
index db2aeb4..efcfe0f 100755
--- a/most_queue/theory/mmnr_calc.py
+++ b/most_queue/theory/mmnr_calc.py
@@ -61,11 +61,10 @@ class MMnr_calc:
         for i in range(n):
             summ1 += pow(ro, i) / math.factorial(i)
 
-        chisl = 1 - pow(ro / n, r + 1)
         coef = pow(ro, n) / math.factorial(n)
-        znam = 1 - (ro / n)
+        summ2 = sum(pow(ro / n, i) for i in range(r + 1))
 
-        p[0] = 1.0 / (summ1 + coef * chisl / znam)
+        p[0] = 1.0 / (summ1 + coef * summ2)
 
         for i in range(n):
             p[i] = pow(ro, i) * p[0] / math.factorial(i)
-- 
2.43.0


From 3660e6f4fb0811bb8e44e8f23f62db9cbec8bd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:26 +0000
Subject: [PATCH 26/80] fix: M/M/n/r waiting moments are those of the accepted
 jobs

---
 most_queue/theory/mmnr_calc.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/most_queue/theory/mmnr_calc.py b/most_queue/theory/mmnr_calc.py
index efcfe0f..cfcc060 100755
--- a/most_queue/theory/mmnr_calc.py
+++ b/most_queue/theory/mmnr_calc.py
@@ -38,10 +38,16 @@ class MMnr_calc:
 
     @staticmethod
     def get_w(l, mu, n, r, num=3):
-        qs = MMnr_calc.get_qs(l, mu, n, r, q_num=num)
+        p = MMnr_calc.get_p(l, mu, n, r)
         w = [0] * num
         for k in range(num):
-            w[k] = qs[k] / pow(l, k + 1)
+            # an accepted job that finds n+j jobs waits for j+1 service completions
+            for j in range(r):
+                moment = 1.0
+                for i in range(k + 1):
+                    moment *= (j + 1 + i) / (n * mu)
+                w[k] += p[n + j] * moment
+            w[k] /= 1.0 - p[n + r]
         return w
 
     @staticmethod
-- 
2.43.0


From 599cd04819047f7402de450b0a7fc01ad3303ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:26 +0000
Subject: [PATCH 27/80] fix: M/M/1 with impatience sums the series past its
 growing terms

---
 most_queue/theory/impatience_calc.py | 29 +++++++---------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/most_queue/theory/impatience_calc.py b/most_queue/theory/impatience_calc.py
index 545b8dc..1f942a9 100755
--- a/most_queue/theory/impatience_calc.py
+++ b/most_queue/theory/impatience_calc.py
@@ -10,21 +10,13 @@ def get_p0(l, mu, gamma, tol=1e-12):
     Вероятность нулевого состояния системы
     """
     summ = 0
-    elem_old = l
-    elem_new = 0
+    elem = 1.0
 
     i = 1
-    while math.fabs(elem_new - elem_old) > tol:
-        chisl = math.pow(l, i)
-        znam = mu
-        j = 1
-        while j < i:
-            znam *= (mu + j * gamma)
-            j += 1
-
-        elem_old = elem_new
-        elem_new = chisl / znam
-        summ += elem_new
+    # the terms grow while the arrival rate exceeds the departure rate
+    while elem > tol * summ or l > mu + (i - 1) * gamma:
+        elem *= l / (mu + (i - 1) * gamma)
+        summ += elem
 
         i += 1
 
@@ -40,16 +32,9 @@ def get_p(l, mu, gamma, tol=1e-12, max_num=100000):
     ps.append(p0)
 
     for i in range(1, max_num):
-        chisl = math.pow(l, i)
-        znam = mu
-        j = 1
-        while j < i:
-            znam *= (mu + j * gamma)
-            j += 1
-
-        pi = p0 * chisl / znam
+        pi = ps[-1] * l / (mu + (i - 1) * gamma)
         ps.append(pi)
-        if pi < tol:
+        if pi < tol and l < mu + i * gamma:
             break
 
     return ps
-- 
2.43.0


From 953017f15afee1e04fcc45ff6e1a6c902d54da24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:26 +0000
Subject: [PATCH 28/80] fix: Engset waiting moments do not depend on the time
 unit

---
 most_queue/theory/engset_model.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/most_queue/theory/engset_model.py b/most_queue/theory/engset_model.py
index 7f6e3e4..3294e0c 100755
--- a/most_queue/theory/engset_model.py
+++ b/most_queue/theory/engset_model.py
@@ -1,4 +1,3 @@
-from most_queue.theory.utils.diff5dots import diff5dots
 from most_queue.general_utils.conv import get_moments
 
 
@@ -93,15 +92,20 @@ class Engset:
         """
         Начальные моменты времени ожидания через дифф ПЛС
         """
-        h = 0.01
-        ss = [x * h for x in range(5)]
         p0 = self.get_p()[0]
         N = self.get_N()
 
-        ws_dots = [self.ws(s, p0, N) for s in ss]
-        w_diff = diff5dots(ws_dots, h)
-
-        return [-w_diff[0], w_diff[1], -w_diff[2]]
+        w = [0.0] * 3
+        for k in range(3):
+            for i in range(1, self.m):
+                # (-1)^(k+1) * производная порядка k+1 от 1/(mu + s)^i в нуле
+                deriv = 1.0
+                for j in range(k + 1):
+                    deriv *= (i + j) / self.mu
+                w[k] += pow(self.ro, i) * self.m_i[i + 1] * deriv
+            w[k] *= p0 / (self.m - N)
+
+        return w
 
     def ws(self, s, p0, N):
         """
-- 
2.43.0


From f68baf213ecd5dbc121e233b4124d177b08d6d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:44 +0000
Subject: [PATCH 29/80] fix: moment deconvolution inverts the convolution

---
 most_queue/general_utils/conv.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/most_queue/general_utils/conv.py b/most_queue/general_utils/conv.py
index 076ba21..766c1fb 100644
--- a/most_queue/general_utils/conv.py
+++ b/most_queue/general_utils/conv.py
@@ -19,6 +19,8 @@ def get_moments_minus(a, b, num=3):
     num = min(num, 3)
     res = [0] * num
     res[0] = a[0] - b[0]
-    res[1] = a[1] - b[1] - 2 * a[0] * b[0]
-    res[2] = a[2] - b[2] - 3 * a[1] * b[0] - 3 * a[0] * b[1]
+    if num > 1:
+        res[1] = a[1] - b[1] - 2 * res[0] * b[0]
+    if num > 2:
+        res[2] = a[2] - b[2] - 3 * res[1] * b[0] - 3 * res[0] * b[1]
     return res
-- 
2.43.0


From 29286860690d1c06a56264de1d7ec20e37cc8d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:44 +0000
Subject: [PATCH 30/80] fix: moment convolution of one or two moments
 (IndexError)

---
 most_queue/general_utils/conv.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/most_queue/general_utils/conv.py b/most_queue/general_utils/conv.py
index 766c1fb..0d32ed9 100644
--- a/most_queue/general_utils/conv.py
+++ b/most_queue/general_utils/conv.py
@@ -2,8 +2,10 @@ def get_moments(a, b, num=3):
     num = min(num, 3)
     res = [0] * num
     res[0] = a[0] + b[0]
-    res[1] = a[1] + b[1] + 2 * a[0] * b[0]
-    res[2] = a[2] + b[2] + 3 * a[1] * b[0] + 3 * a[0] * b[1]
+    if num > 1:
+        res[1] = a[1] + b[1] + 2 * a[0] * b[0]
+    if num > 2:
+        res[2] = a[2] + b[2] + 3 * a[1] * b[0] + 3 * a[0] * b[1]
     return res
 
 
-- 
2.43.0


From 8dbd55b2cdfb8f5943d3afc5b7506c34f5190b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:44 +0000
Subject: [PATCH 31/80] fix: GI/M/1 probability of finding the system empty for
 non-Gamma arrivals

---
 most_queue/theory/gi_m_1_calc.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/most_queue/theory/gi_m_1_calc.py b/most_queue/theory/gi_m_1_calc.py
index f4d0566..7994236 100755
--- a/most_queue/theory/gi_m_1_calc.py
+++ b/most_queue/theory/gi_m_1_calc.py
@@ -2,7 +2,6 @@ import math
 
 from most_queue.general_utils.conv import get_moments_minus
 from most_queue.rand_distribution import Gamma, Pareto_dist
-from most_queue.theory.utils.q_poisson_arrival_calc import get_q_Gamma
 
 
 def get_pi(a, mu, num=100, e=1e-10, approx_distr="Gamma"):
@@ -14,15 +13,8 @@ def get_pi(a, mu, num=100, e=1e-10, approx_distr="Gamma"):
     """
     pi = [0.0] * num
 
-    v, alpha = Gamma.get_mu_alpha(a)
-
-    q = get_q_Gamma(mu, v, alpha)
-    summ = 0
     w = get_w_param(a, mu, e, approx_distr)
-    for i in range(len(q)):
-        summ += q[i] * pow(w, i)
-    pi[0] = 1.0 - summ
-    for k in range(1, num):
+    for k in range(num):
         pi[k] = (1.0 - w) * pow(w, k)
     return pi
 
-- 
2.43.0


From eb9986f4f7dfd5b06d268f7a01874c887cca466e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:44 +0000
Subject: [PATCH 32/80] fix: GI/M/n waiting moments do not depend on the time
 unit

---
 most_queue/theory/gi_m_n_calc.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/most_queue/theory/gi_m_n_calc.py b/most_queue/theory/gi_m_n_calc.py
index d422802..2c61cb9 100755
--- a/most_queue/theory/gi_m_n_calc.py
+++ b/most_queue/theory/gi_m_n_calc.py
@@ -3,7 +3,6 @@ import math
 import numpy as np
 
 from most_queue.general_utils.conv import get_moments
-from most_queue.theory.utils.diff5dots import diff5dots
 from most_queue.rand_distribution import Gamma, Pareto_dist
 
 
@@ -83,17 +82,9 @@ def get_w_pls(n, mu, pn, w, s):
 def get_w(a, mu, n, num=100, e=1e-10, approx_distr="Gamma"):
     pi = get_pi(a, mu, n, num, e, approx_distr)
     pn = pi[n]
-    pls = []
     w_param = get_w_param(a, mu, n, e, approx_distr)
-    h = 0.001
-    s = 0
-    for i in range(5):
-        pls.append(get_w_pls(n, mu, pn, w_param, s))
-        s += h
-    w = diff5dots(pls, h)
-    w[0] = - w[0]
-    w[2] = - w[2]
-    return w
+    # моменты по ПЛС get_w_pls: экспоненциальное ожидание с вероятностью pn / (1 - w)
+    return [math.factorial(k) * pn / ((1.0 - w_param) * pow(n * mu * (1.0 - w_param), k)) for k in range(1, 4)]
 
 
 def get_p(a, mu, n, num=100, e=1e-10, approx_distr="Gamma"):
-- 
2.43.0


From 80c9159f6c3184a32cc27157487d11a2e76584dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:44 +0000
Subject: [PATCH 33/80] fix: arrivals during a uniform service time for arrival
 rates other than 1

---
 most_queue/theory/utils/q_poisson_arrival_calc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/theory/utils/q_poisson_arrival_calc.py b/most_queue/theory/utils/q_poisson_arrival_calc.py
index 0cace10..5cdde05 100755
--- a/most_queue/theory/utils/q_poisson_arrival_calc.py
+++ b/most_queue/theory/utils/q_poisson_arrival_calc.py
@@ -30,10 +30,10 @@ def get_q_uniform(l, mean, half_interval, num=100):
     for j in range(num):
         summ1 = 0
         for i in range(j + 1):
-            summ1 += l * pow(mean - half_interval, i) * math.exp(-l * (mean - half_interval)) / math.factorial(i)
+            summ1 += pow(l * (mean - half_interval), i) * math.exp(-l * (mean - half_interval)) / math.factorial(i)
         summ2 = 0
         for i in range(j + 1):
-            summ2 += l * pow(mean + half_interval, i) * math.exp(-l * (mean + half_interval)) / math.factorial(i)
+            summ2 += pow(l * (mean + half_interval), i) * math.exp(-l * (mean + half_interval)) / math.factorial(i)
         q[j] = (1.0 / (2 * l * half_interval)) * (summ1 - summ2)
 
     return q
-- 
2.43.0


From ed7753c7e8f13c86a97420195a8a3a0b2e03e38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:44 +0000
Subject: [PATCH 34/80] fix: M/G/1 with warm-up sojourn moments by exact series
 instead of off-centre differences

---
 most_queue/theory/mg1_warm_calc.py | 35 ++++++++++++++++++------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/most_queue/theory/mg1_warm_calc.py b/most_queue/theory/mg1_warm_calc.py
index ec1ad83..5377767 100755
--- a/most_queue/theory/mg1_warm_calc.py
+++ b/most_queue/theory/mg1_warm_calc.py
@@ -1,4 +1,5 @@
-from most_queue.theory.utils.diff5dots import diff5dots
+import math
+
 from most_queue.rand_distribution import Gamma
 
 
@@ -9,21 +10,27 @@ def get_v(l, b, b_warm):
     b_param = Gamma.get_mu_alpha(b)
     b_warm_param = Gamma.get_mu_alpha(b_warm)
 
-    h = 0.0001
-    steps = 5
+    # power series of the transforms: beta(s) = sum of (-s)^k * moment_k / k!
+    num = 4
+    b_pls = [1.0] + Gamma.calc_theory_moments(*b_param, count=num)
+    b_warm_pls = [1.0] + Gamma.calc_theory_moments(*b_warm_param, count=num)
+    for k in range(1, num + 1):
+        b_pls[k] *= (-1) ** k / math.factorial(k)
+        b_warm_pls[k] *= (-1) ** k / math.factorial(k)
+
+    # v(s) = p0_star * ((1 - s / l) * b_warm(s) - b(s)) / (1 - s / l - b(s))
+    chisl = [0.0] * (num + 1)
+    znam = [0.0] * (num + 1)
+    for k in range(1, num + 1):
+        chisl[k] = p0_star * (b_warm_pls[k] - b_warm_pls[k - 1] / l - b_pls[k])
+        znam[k] = -b_pls[k]
+    znam[1] -= 1.0 / l
 
     v_pls = []
+    for k in range(num):
+        summ = sum(v_pls[i] * znam[k + 1 - i] for i in range(k))
+        v_pls.append((chisl[k + 1] - summ) / znam[1])
 
-    for c in range(1, steps):
-        s = h * c
-        chisl = p0_star * ((1 - s / l) * Gamma.get_pls(*b_warm_param, s) - Gamma.get_pls(*b_param, s))
-        znam = 1 - s / l - Gamma.get_pls(*b_param, s)
-        v_pls.append(chisl / znam)
-
-    v = diff5dots(v_pls, h)
-    v[0] = -v[0]
-    v[2] = -v[2]
-
-    return v
+    return [(-1) ** k * math.factorial(k) * v_pls[k] for k in range(1, num)]
 
 
-- 
2.43.0


From e8fb3dcc5b319266e22f07a044d5e362e3bf34bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:48 +0000
Subject: [PATCH 35/80] fix: M/H2/n with a finite buffer (no arrivals at the
 full level, buffer 0, array sizes)

---
 most_queue/theory/mgn_tt.py | 50 ++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/most_queue/theory/mgn_tt.py b/most_queue/theory/mgn_tt.py
index 334a872..48a540e 100755
--- a/most_queue/theory/mgn_tt.py
+++ b/most_queue/theory/mgn_tt.py
@@ -22,9 +22,10 @@ class MGnCalc:
         accuracy: точность, параметр для остановки итерации
         """
         self.dt = np.dtype(dtype)
-        if buffer:
+        if buffer is not None:
             self.R = buffer + n  # максимальное число заявок в сисетеме - очередь + каналы
             self.N = self.R + 1  # число ярусов на один больше + нулевое состояние
+            N = self.N
         else:
             self.N = N
             self.R = None  # для проверки задан ли буфер
@@ -193,13 +194,11 @@ class MGnCalc:
                 prod1 = np.dot(prod1, self.x[i])
             znam += np.dot((self.n - j), prod1)
 
-        if self.R:
-            prod2 = 1
-            for i in range(0, self.N):
-                prod2 *= self.x[i]
-            znam -= f1 * self.l * prod2
-
-        self.p[0] = (self.n - self.l * f1) / znam
+        if self.R is not None:
+            # нормировка ниже
+            self.p[0] = 1.0
+        else:
+            self.p[0] = (self.n - self.l * f1) / znam
 
         summ_p = self.p[0]
 
@@ -229,7 +228,11 @@ class MGnCalc:
     def calc_g_matrices(self):
         self.G = []
         for j in range(0, self.N):
-            self.G.append(np.linalg.inv(self.D[j] - self.C[j]))
+            if self.R is not None and j == self.N - 1:
+                # полная система заявок не принимает
+                self.G.append(np.linalg.inv(self.D[j] - self.C[j] - self.l * np.eye(self.cols[j])))
+            else:
+                self.G.append(np.linalg.inv(self.D[j] - self.C[j]))
 
     def calc_ag_matrices(self):
         self.AG = [0]
@@ -241,7 +244,7 @@ class MGnCalc:
         for j in range(1, self.N):
             if j != (self.N - 1):
                 self.BG.append(np.dot(self.B[j + 1], self.G[j]))
-            else:
+            elif self.R is None:
                 self.BG.append(np.dot(self.B[j], self.G[j]))
 
     def calc_support_matrices(self):
@@ -272,6 +275,18 @@ class MGnCalc:
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
+                if self.R is not None and j == (self.N - 1):
+                    tA = np.dot(self.t[j - 1], self.A[j - 1])
+                    tag = np.dot(tA, self.G[j])
+                    tag_sum = 0
+                    for t_i in range(tag.shape[1]):
+                        tag_sum += tag[0, t_i]
+                    self.z[j] = 1.0 / tag_sum
+                    self.t[j] = self.z[j] * tag
+                    # число заявок на последнем ярусе относительно предпоследнего
+                    self.x[j - 1] = 1.0 / self.z[j]
+                    continue
+
                 # b':
                 self.b1[j] = np.dot(self.t[j - 1], self.AG[j])
 
@@ -290,19 +305,8 @@ class MGnCalc:
 
                 self.x[j] = (1.0 + 0.0j) / self.x[j]
 
-                if self.R and j == (self.N - 1):
-                    tA = np.dot(self.t[j - 1], self.A[j - 1])
-                    tag = np.dot(tA, self.G[j])
-                    tag_sum = 0
-                    for t_i in range(tag.shape[1]):
-                        tag_sum += tag[0, t_i]
-                    self.z[j] = 1.0 / tag_sum
-                    self.t[j] = self.z[j] * tag
-
-                else:
-
-                    self.z[j] = np.dot(c, self.x[j])
-                    self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
+                self.z[j] = np.dot(c, self.x[j])
+                self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
 
             self.x[0] = (1.0 + 0.0j) / self.z[1]
 
-- 
2.43.0


From 1e9968317c7f0b81649d1568c0d4c4792ce81ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:12 +0000
Subject: [PATCH 36/80] fix: M/H2/n waiting moments of accepted jobs with a
 finite buffer

---
 most_queue/theory/mgn_tt.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/most_queue/theory/mgn_tt.py b/most_queue/theory/mgn_tt.py
index 48a540e..f9f997e 100755
--- a/most_queue/theory/mgn_tt.py
+++ b/most_queue/theory/mgn_tt.py
@@ -87,6 +87,9 @@ class MGnCalc:
         """
         Возвращает три первых начальных момента времени ожидания в СМО
         """
+        if self.R is not None:
+            return self.get_w_buffer()
+
         w = [0.0] * 3
 
         for j in range(1, len(self.p) - self.n):
@@ -102,6 +105,26 @@ class MGnCalc:
 
         return w
 
+    def get_w_buffer(self):
+        """
+        Начальные моменты времени ожидания принятых заявок при ограниченной очереди.
+        Заявка, заставшая n + j заявок, ожидает j + 1 завершений обслуживания
+        """
+        rates = np.array([(self.n - i) * self.mu[0] + i * self.mu[1] for i in range(self.n + 1)], dtype=self.dt)
+        stay = [math.factorial(k) / np.power(rates, k) for k in range(4)]
+        w = [0.0] * 3
+        # моменты времени до j завершений обслуживания по микросостояниям яруса n
+        moments = [np.ones(self.n + 1, dtype=self.dt)] + [np.zeros(self.n + 1, dtype=self.dt) for _ in range(3)]
+        for level in range(self.n, self.R):
+            if level > self.n:
+                down = self.buildB(self.n + 1) / rates[:, None]
+                moments = [np.dot(down, m) for m in moments]
+            moments = [sum(math.comb(k, i) * stay[k - i] * moments[i] for i in range(k + 1)) for k in range(4)]
+            for k in range(3):
+                w[k] += np.dot(self.Y[level][0], moments[k + 1])
+
+        return [(w[k] / (1.0 - self.p[self.R])).real for k in range(3)]
+
     def get_v(self):
         """
         Возвращает три первых начальных момента времени пребывания в СМО
-- 
2.43.0


From dca36bf8a73c3648fc92fc5db742573c7bbf793e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:05 +0000
Subject: [PATCH 37/80] fix: M/H2/n with warm-up waiting moments (jobs that
 find the system empty, order of the stages)

---
 most_queue/theory/m_h2_h2warm.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/most_queue/theory/m_h2_h2warm.py b/most_queue/theory/m_h2_h2warm.py
index 366db25..d916624 100755
--- a/most_queue/theory/m_h2_h2warm.py
+++ b/most_queue/theory/m_h2_h2warm.py
@@ -178,37 +178,38 @@ class Mh2h2Warm:
         # вероятности попадания в состояния обслуживания, вычисляются с помощью биноминального распределения
         probs = calc_binom_probs(self.n + 1, self.y[0])
 
+        # Заявка, заставшая систему пустой, ожидает разогрева
+        for i in range(2):
+            w += self.Y[0][0, 0] * self.y_w[i] * self.pls(self.mu_w[i], s)
+
         # Если заявка попала в фазу разогрева, хотя каналы свободны,
         # ей придется подождать окончание разогрева
         for k in range(1, self.n):
             for i in range(2):
                 w += self.Y[k][0, i] * self.pls(self.mu_w[i], s)
 
+        key_numbers = self.get_key_numbers(self.n)  # ключи яруса n, для n=3 [(3,0) (2,1) (1,2) (0,3)]
+        a = np.array(
+            [self.pls(key_numbers[j][0] * self.mu[0] + key_numbers[j][1] * self.mu[1], s) for j in
+             range(self.n + 1)])
+        # ПЛС времени до начала обслуживания по микросостояниям, заставшая заявка ждет k - n + 1 завершений
+        waits = a
+
         for k in range(self.n, self.N):
 
             # Если заявка попала в фазу разогрева и каналы заняты. Также есть k-n заявок в очереди
             # ей придется подождать окончание разогрева + обслуживание всех накопленных заявок
-            key_numbers = self.get_key_numbers(self.n)  # ключи яруса n, для n=3 [(3,0) (2,1) (1,2) (0,3)]
-
-            a = np.array(
-                [self.pls(key_numbers[j][0] * self.mu[0] + key_numbers[j][1] * self.mu[1], s) for j in
-                 range(self.n + 1)])
-
-            P = self.calc_down_probs(k)
-            Pa = np.transpose(self.matrix_pow(P * a, k - self.n))  # n+1 x n+1
-
-            aP_tilda = a * probs
+            if k > self.n:
+                waits = a * np.dot(self.down_probs, waits)
 
-            pls_service_total = sum(np.dot(aP_tilda, Pa))
+            pls_service_total = sum(waits * probs)
 
             for i in range(2):
                 w += self.Y[k][0, i] * self.pls(self.mu_w[i], s) * pls_service_total
 
             # попала в фазу обслуживания
-            Ys = [self.Y[k][0, i + 2] for i in range(len(probs))]
-            aPa = np.dot(a, Pa)
             for i in range(self.n + 1):
-                w += Ys[i] * aPa[i]
+                w += self.Y[k][0, i + 2] * waits[i]
 
         return w
 
@@ -240,7 +241,7 @@ class Mh2h2Warm:
         else:
             for i in range(3):
                 w[i] = derivative(self.calc_w_pls, 0, dx=1e-3 / self.b[0], n=i + 1, order=9)
-            return [-w[0], w[1].real, -w[2]]
+            return [-w[0].real, w[1].real, -w[2].real]
 
     def get_v(self):
         """
-- 
2.43.0


From 91856fa191bed0c192f4bcfb53b9791631634e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:05 +0000
Subject: [PATCH 38/80] fix: differentiation step of the waiting-time
 transforms scales with the rates

---
 most_queue/theory/mgn_with_h2_delay_cold_warm.py    | 4 ++--
 most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/most_queue/theory/mgn_with_h2_delay_cold_warm.py b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
index af5dc87..3c50de4 100755
--- a/most_queue/theory/mgn_with_h2_delay_cold_warm.py
+++ b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
@@ -306,10 +306,10 @@ class MGnH2ServingColdWarmDelay:
 
         for i in range(3):
             if self.stable_w_pls:
-                max_mu = np.max(list(chain(np.array(self.mu_w).astype('float'), np.array(self.mu_c).astype('float'),
+                min_mu = np.min(list(chain(np.array(self.mu_w).astype('float'), np.array(self.mu_c).astype('float'),
                                    np.array(self.mu).astype('float'))))
 
-                dx = self.w_pls_dt / max_mu
+                dx = self.w_pls_dt * min_mu
             else:
                 dx = self.w_pls_dt
             w[i] = derivative(self.calc_w_pls, 0, dx=dx, n=i + 1, order=9)
diff --git a/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py b/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
index 758b12b..24a44a5 100755
--- a/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
+++ b/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
@@ -177,7 +177,7 @@ class MMn_H2warm_H2cold:
 
         for i in range(3):
             min_mu = min(chain(np.array(self.mu_w).astype('float'), np.array(self.mu_c).astype('float'), [self.mu]))
-            w[i] = derivative(self.calc_w_pls, 0, dx=1e-3 / min_mu, n=i + 1, order=9)
+            w[i] = derivative(self.calc_w_pls, 0, dx=1e-3 * min_mu, n=i + 1, order=9)
         return [-w[0], w[1], -w[2]]
 
     def get_b(self):
-- 
2.43.0


From 4d8892c2aaec96f47f6891c615ff54742edd0753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:05 +0000
Subject: [PATCH 39/80] fix: vacation solvers with a finite buffer (no arrivals
 at the full level, buffer 0, array sizes)

---
 most_queue/theory/m_h2_h2warm.py              | 38 +++++++++++--------
 .../theory/mgn_with_h2_delay_cold_warm.py     | 38 +++++++++++--------
 .../theory/mmn_with_h2_cold_and_h2_warmup.py  | 38 +++++++++++--------
 3 files changed, 66 insertions(+), 48 deletions(-)

diff --git a/most_queue/theory/m_h2_h2warm.py b/most_queue/theory/m_h2_h2warm.py
index d916624..f9c6cfc 100755
--- a/most_queue/theory/m_h2_h2warm.py
+++ b/most_queue/theory/m_h2_h2warm.py
@@ -27,9 +27,10 @@ class Mh2h2Warm:
         accuracy: точность, параметр для остановки итерации
         """
         self.dt = np.dtype(dtype)
-        if buffer:
+        if buffer is not None:
             self.R = buffer + n  # максимальное число заявок в сисетеме - очередь + каналы
             self.N = self.R + 1  # число ярусов на один больше + нулевое состояние
+            N = max(self.N, n + 2)
         else:
             self.N = N
             self.R = None  # для проверки задан ли буфер
@@ -344,7 +345,11 @@ class Mh2h2Warm:
     def calc_g_matrices(self):
         self.G = []
         for j in range(0, self.N):
-            self.G.append(np.linalg.inv(self.D[j] - self.C[j]))
+            if self.R is not None and j == self.N - 1:
+                # полная система заявок не принимает
+                self.G.append(np.linalg.inv(self.D[j] - self.C[j] - self.l * np.eye(self.cols[j])))
+            else:
+                self.G.append(np.linalg.inv(self.D[j] - self.C[j]))
 
     def calc_ag_matrices(self):
         self.AG = [0]
@@ -356,7 +361,7 @@ class Mh2h2Warm:
         for j in range(1, self.N):
             if j != (self.N - 1):
                 self.BG.append(np.dot(self.B[j + 1], self.G[j]))
-            else:
+            elif self.R is None:
                 self.BG.append(np.dot(self.B[j], self.G[j]))
 
     def calc_support_matrices(self):
@@ -392,6 +397,18 @@ class Mh2h2Warm:
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
+                if self.R is not None and j == (self.N - 1):
+                    tA = np.dot(self.t[j - 1], self.A[j - 1])
+                    tag = np.dot(tA, self.G[j])
+                    tag_sum = 0
+                    for t_i in range(tag.shape[1]):
+                        tag_sum += tag[0, t_i]
+                    self.z[j] = 1.0 / tag_sum
+                    self.t[j] = self.z[j] * tag
+                    # число заявок на последнем ярусе относительно предпоследнего
+                    self.x[j - 1] = 1.0 / self.z[j]
+                    continue
+
                 # b':
                 self.b1[j] = np.dot(self.t[j - 1], self.AG[j])
 
@@ -416,19 +433,8 @@ class Mh2h2Warm:
                 else:
                     self.x[j] = (1.0) / self.x[j]
 
-                if self.R and j == (self.N - 1):
-                    tA = np.dot(self.t[j - 1], self.A[j - 1])
-                    tag = np.dot(tA, self.G[j])
-                    tag_sum = 0
-                    for t_i in range(tag.shape[1]):
-                        tag_sum += tag[0, t_i]
-                    self.z[j] = 1.0 / tag_sum
-                    self.t[j] = self.z[j] * tag
-
-                else:
-
-                    self.z[j] = np.dot(c, self.x[j])
-                    self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
+                self.z[j] = np.dot(c, self.x[j])
+                self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
 
             if self.dt == 'c16':
                 self.x[0] = (1.0 + 0.0j) / self.z[1]
diff --git a/most_queue/theory/mgn_with_h2_delay_cold_warm.py b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
index 3c50de4..82aae7d 100755
--- a/most_queue/theory/mgn_with_h2_delay_cold_warm.py
+++ b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
@@ -30,9 +30,10 @@ class MGnH2ServingColdWarmDelay:
         accuracy: точность, параметр для остановки итерации
         """
         self.dt = np.dtype(dtype)
-        if buffer:
+        if buffer is not None:
             self.R = buffer + n  # максимальное число заявок в сисетеме - очередь + каналы
             self.N = self.R + 1  # число ярусов на один больше + нулевое состояние
+            N = max(self.N, n + 2)
         else:
             self.N = N
             self.R = None  # для проверки задан ли буфер
@@ -430,7 +431,11 @@ class MGnH2ServingColdWarmDelay:
     def calc_g_matrices(self):
         self.G = []
         for j in range(0, self.N):
-            self.G.append(np.linalg.inv(self.D[j] - self.C[j]))
+            if self.R is not None and j == self.N - 1:
+                # полная система заявок не принимает
+                self.G.append(np.linalg.inv(self.D[j] - self.C[j] - self.l * np.eye(self.cols[j])))
+            else:
+                self.G.append(np.linalg.inv(self.D[j] - self.C[j]))
 
     def calc_ag_matrices(self):
         self.AG = [0]
@@ -442,7 +447,7 @@ class MGnH2ServingColdWarmDelay:
         for j in range(1, self.N):
             if j != (self.N - 1):
                 self.BG.append(np.dot(self.B[j + 1], self.G[j]))
-            else:
+            elif self.R is None:
                 self.BG.append(np.dot(self.B[j], self.G[j]))
 
     def calc_support_matrices(self):
@@ -478,6 +483,18 @@ class MGnH2ServingColdWarmDelay:
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
+                if self.R is not None and j == (self.N - 1):
+                    tA = np.dot(self.t[j - 1], self.A[j - 1])
+                    tag = np.dot(tA, self.G[j])
+                    tag_sum = 0
+                    for t_i in range(tag.shape[1]):
+                        tag_sum += tag[0, t_i]
+                    self.z[j] = 1.0 / tag_sum
+                    self.t[j] = self.z[j] * tag
+                    # число заявок на последнем ярусе относительно предпоследнего
+                    self.x[j - 1] = 1.0 / self.z[j]
+                    continue
+
                 # b':
                 self.b1[j] = np.dot(self.t[j - 1], self.AG[j])
 
@@ -502,19 +519,8 @@ class MGnH2ServingColdWarmDelay:
                 else:
                     self.x[j] = (1.0) / self.x[j]
 
-                if self.R and j == (self.N - 1):
-                    tA = np.dot(self.t[j - 1], self.A[j - 1])
-                    tag = np.dot(tA, self.G[j])
-                    tag_sum = 0
-                    for t_i in range(tag.shape[1]):
-                        tag_sum += tag[0, t_i]
-                    self.z[j] = 1.0 / tag_sum
-                    self.t[j] = self.z[j] * tag
-
-                else:
-
-                    self.z[j] = np.dot(c, self.x[j])
-                    self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
+                self.z[j] = np.dot(c, self.x[j])
+                self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
 
             if self.dt == 'c16':
                 self.x[0] = (1.0 + 0.0j) / self.z[1]
diff --git a/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py b/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
index 24a44a5..3238473 100755
--- a/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
+++ b/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
@@ -26,9 +26,10 @@ class MMn_H2warm_H2cold:
         accuracy: точность, параметр для остановки итерации
         """
         self.dt = np.dtype(dtype)
-        if buffer:
+        if buffer is not None:
             self.R = buffer + n  # максимальное число заявок в сисетеме - очередь + каналы
             self.N = self.R + 1  # число ярусов на один больше + нулевое состояние
+            N = max(self.N, n + 2)
         else:
             self.N = N
             self.R = None  # для проверки задан ли буфер
@@ -317,7 +318,11 @@ class MMn_H2warm_H2cold:
     def calc_g_matrices(self):
         self.G = []
         for j in range(0, self.N):
-            self.G.append(np.linalg.inv(self.D[j] - self.C[j]))
+            if self.R is not None and j == self.N - 1:
+                # полная система заявок не принимает
+                self.G.append(np.linalg.inv(self.D[j] - self.C[j] - self.l * np.eye(self.cols[j])))
+            else:
+                self.G.append(np.linalg.inv(self.D[j] - self.C[j]))
 
     def calc_ag_matrices(self):
         self.AG = [0]
@@ -329,7 +334,7 @@ class MMn_H2warm_H2cold:
         for j in range(1, self.N):
             if j != (self.N - 1):
                 self.BG.append(np.dot(self.B[j + 1], self.G[j]))
-            else:
+            elif self.R is None:
                 self.BG.append(np.dot(self.B[j], self.G[j]))
 
     def calc_support_matrices(self):
@@ -365,6 +370,18 @@ class MMn_H2warm_H2cold:
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
+                if self.R is not None and j == (self.N - 1):
+                    tA = np.dot(self.t[j - 1], self.A[j - 1])
+                    tag = np.dot(tA, self.G[j])
+                    tag_sum = 0
+                    for t_i in range(tag.shape[1]):
+                        tag_sum += tag[0, t_i]
+                    self.z[j] = 1.0 / tag_sum
+                    self.t[j] = self.z[j] * tag
+                    # число заявок на последнем ярусе относительно предпоследнего
+                    self.x[j - 1] = 1.0 / self.z[j]
+                    continue
+
                 # b':
                 self.b1[j] = np.dot(self.t[j - 1], self.AG[j])
 
@@ -389,19 +406,8 @@ class MMn_H2warm_H2cold:
                 else:
                     self.x[j] = 1.0 / self.x[j]
 
-                if self.R and j == (self.N - 1):
-                    tA = np.dot(self.t[j - 1], self.A[j - 1])
-                    tag = np.dot(tA, self.G[j])
-                    tag_sum = 0
-                    for t_i in range(tag.shape[1]):
-                        tag_sum += tag[0, t_i]
-                    self.z[j] = 1.0 / tag_sum
-                    self.t[j] = self.z[j] * tag
-
-                else:
-
-                    self.z[j] = np.dot(c, self.x[j])
-                    self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
+                self.z[j] = np.dot(c, self.x[j])
+                self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
 
             if self.dt == 'c16':
                 self.x[0] = (1.0 + 0.0j) / self.z[1]
-- 
2.43.0


From 53348cfb20843ae1ff51a9650ba82aa432e7b754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:05 +0000
Subject: [PATCH 40/80] fix: vacation solvers with a finite buffer give the
 waits of the accepted jobs

---
 most_queue/theory/m_h2_h2warm.py              | 32 +++++++++++++++++--
 .../theory/mgn_with_h2_delay_cold_warm.py     |  8 +++--
 .../theory/mmn_with_h2_cold_and_h2_warmup.py  |  6 +++-
 3 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/most_queue/theory/m_h2_h2warm.py b/most_queue/theory/m_h2_h2warm.py
index f9c6cfc..8928609 100755
--- a/most_queue/theory/m_h2_h2warm.py
+++ b/most_queue/theory/m_h2_h2warm.py
@@ -156,7 +156,7 @@ class Mh2h2Warm:
     def calc_down_probs(self, from_level):
         if from_level == self.n:
             return np.eye(self.n + 1)
-        b_matrix = self.B[from_level]
+        b_matrix = self.buildB(from_level)
         probs = []
         for i in range(2, self.cols[from_level - 1]):
             probs_on_level = []
@@ -196,7 +196,8 @@ class Mh2h2Warm:
         # ПЛС времени до начала обслуживания по микросостояниям, заставшая заявка ждет k - n + 1 завершений
         waits = a
 
-        for k in range(self.n, self.N):
+        # заявка, заставшая систему полной, не принимается
+        for k in range(self.n, self.N if self.R is None else self.R):
 
             # Если заявка попала в фазу разогрева и каналы заняты. Также есть k-n заявок в очереди
             # ей придется подождать окончание разогрева + обслуживание всех накопленных заявок
@@ -212,6 +213,9 @@ class Mh2h2Warm:
             for i in range(self.n + 1):
                 w += self.Y[k][0, i + 2] * waits[i]
 
+        if self.R is not None:
+            w /= 1.0 - self.p[self.R]
+
         return w
 
     def calc_residual_b(self, mom_num):
@@ -224,6 +228,9 @@ class Mh2h2Warm:
         """
         w = [0.0] * 3
 
+        if self.is_only_first and self.R is not None:
+            return self.get_w_buffer()
+
         if self.is_only_first:
 
             for j in range(1, len(self.p) - self.n):
@@ -244,6 +251,27 @@ class Mh2h2Warm:
                 w[i] = derivative(self.calc_w_pls, 0, dx=1e-3 / self.b[0], n=i + 1, order=9)
             return [-w[0].real, w[1].real, -w[2].real]
 
+    def get_w_buffer(self):
+        """
+        Начальные моменты времени ожидания принятых заявок при ограниченной очереди и разогреве только первой заявки.
+        Заявка, заставшая n + j заявок, ожидает j + 1 завершений обслуживания
+        """
+        size = self.cols[self.n]
+        rates = np.diag(self.D[self.n]) - self.l
+        stay = [math.factorial(k) / np.power(rates, k) for k in range(4)]
+        w = [0.0] * 3
+        # моменты времени до j завершений обслуживания по микросостояниям яруса n
+        moments = [np.ones(size, dtype=self.dt)] + [np.zeros(size, dtype=self.dt) for _ in range(3)]
+        for level in range(self.n, self.R):
+            if level > self.n:
+                down = self.buildB(self.n + 1) / rates[:, None]
+                moments = [np.dot(down, m) for m in moments]
+            moments = [sum(math.comb(k, i) * stay[k - i] * moments[i] for i in range(k + 1)) for k in range(4)]
+            for k in range(3):
+                w[k] += np.dot(self.Y[level][0], moments[k + 1])
+
+        return [(w[k] / (1.0 - self.p[self.R])).real for k in range(3)]
+
     def get_v(self):
         """
         Возвращает три первых начальных момента времени пребывания в СМО
diff --git a/most_queue/theory/mgn_with_h2_delay_cold_warm.py b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
index 82aae7d..95e02c1 100755
--- a/most_queue/theory/mgn_with_h2_delay_cold_warm.py
+++ b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
@@ -175,7 +175,7 @@ class MGnH2ServingColdWarmDelay:
     def calc_down_probs(self, from_level):
         if from_level == self.n:
             return np.eye(self.n + 1)
-        b_matrix = self.B[from_level]
+        b_matrix = self.buildB(from_level)
         probs = []
         for i in range(2, self.cols[from_level - 1] - 2):
             probs_on_level = []
@@ -241,7 +241,8 @@ class MGnH2ServingColdWarmDelay:
         # вероятности попадания в состояния обслуживания, вычисляются с помощью биноминального распределения
         probs = calc_binom_probs(self.n + 1, self.y[0])
 
-        for k in range(self.n, self.N):
+        # заявка, заставшая систему полной, не принимается
+        for k in range(self.n, self.N if self.R is None else self.R):
 
             # Если заявка попала в фазу разогрева и каналы заняты. Также есть k-n заявок в очереди
             # ей придется подождать окончание разогрева + обслуживание всех накопленных заявок
@@ -294,6 +295,9 @@ class MGnH2ServingColdWarmDelay:
                     for w_phase in range(2):
                         w += self.Y[k][0, cold_pos + c_phase] * c_to_w[c_phase, w_phase] * pls_service_total
 
+        if self.R is not None:
+            w /= 1.0 - self.p[self.R]
+
         return w
 
     def get_idle_prob(self):
diff --git a/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py b/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
index 3238473..f98193a 100755
--- a/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
+++ b/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
@@ -150,7 +150,8 @@ class MMn_H2warm_H2cold:
                         w += self.Y[k][0, 3 + c_phase] * c_to_w[c_phase, w_phase]
 
         pls_service_total = 1.0
-        for k in range(self.n, self.N):
+        # заявка, заставшая систему полной, не принимается
+        for k in range(self.n, self.N if self.R is None else self.R):
 
             # попала в фазу обслуживания
             # подождать окончание k+1-n обслуживаний
@@ -168,6 +169,9 @@ class MMn_H2warm_H2cold:
                 for w_phase in range(2):
                     w += self.Y[k][0, 3 + c_phase] * c_to_w[c_phase, w_phase] * pls_service_total
 
+        if self.R is not None:
+            w /= 1.0 - self.p[self.R]
+
         return w
 
     def get_w(self):
-- 
2.43.0


From 614a1e6b7ad841c27851964737cdac1e0578c948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:51 +0000
Subject: [PATCH 41/80] fix: H2 fit of exactly exponential moments (division by
 zero)

---
 most_queue/rand_distribution.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 47a0ce4..c3c9e45 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -279,11 +279,6 @@ class H2_dist:
         f = [0.0] * 3
         for i in range(3):
             f[i] = complex(moments[i] / math.factorial(i + 1))
-        znam = (f[1] - pow(f[0], 2))
-        c0 = (f[0] * f[2] - pow(f[1], 2)) / znam
-        c1 = (f[0] * f[1] - f[2]) / znam
-
-        d = pow(c1 / 2.0, 2.0) - c0
 
         if is_fitting:
             # проверка на близость распределения к экспоненциальному
@@ -315,6 +310,12 @@ class H2_dist:
                 return H2_dist.get_params_clx(f, verbose=verbose, ee=ee, e=e * (1.0 + e_percent), e_percent=e_percent,
                                               is_fitting=is_fitting)
 
+        znam = (f[1] - pow(f[0], 2))
+        c0 = (f[0] * f[2] - pow(f[1], 2)) / znam
+        c1 = (f[0] * f[1] - f[2]) / znam
+
+        d = pow(c1 / 2.0, 2.0) - c0
+
         res = [0, 0, 0]  # y1, mu1, mu2
         c1 = complex(c1)
         x1 = -c1 / 2 + cmath.sqrt(d)
-- 
2.43.0


From ef9837ed2cfec6f5eca7622e550b2e440c00f12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:27 +0000
Subject: [PATCH 42/80] fix: waiting moments and idle probability of the
 vacation solvers are real

---
 most_queue/theory/mgn_with_h2_delay_cold_warm.py    | 2 +-
 most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/theory/mgn_with_h2_delay_cold_warm.py b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
index 95e02c1..2b7e5f0 100755
--- a/most_queue/theory/mgn_with_h2_delay_cold_warm.py
+++ b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
@@ -301,7 +301,7 @@ class MGnH2ServingColdWarmDelay:
         return w
 
     def get_idle_prob(self):
-        return self.Y[0][0, 0]
+        return self.Y[0][0, 0].real
 
     def get_w(self):
         """
diff --git a/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py b/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
index f98193a..0132d49 100755
--- a/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
+++ b/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
@@ -183,7 +183,7 @@ class MMn_H2warm_H2cold:
         for i in range(3):
             min_mu = min(chain(np.array(self.mu_w).astype('float'), np.array(self.mu_c).astype('float'), [self.mu]))
             w[i] = derivative(self.calc_w_pls, 0, dx=1e-3 * min_mu, n=i + 1, order=9)
-        return [-w[0], w[1], -w[2]]
+        return [-w[0].real, w[1].real, -w[2].real]
 
     def get_b(self):
         return [1.0 / self.mu, 2.0 / pow(self.mu, 2), 6.0 / pow(self.mu, 3)]
-- 
2.43.0


From fbc55e6524994cd7589c7763643d9ec109b6bbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:35 +0000
Subject: [PATCH 43/80] fix: fifth moment of busy periods and waiting moments
 of the first class (preemptive priority)

---
 most_queue/theory/priority_calc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 3f9813d..f91def4 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -89,7 +89,7 @@ def ppnz_calc(l, b, num=5):
         pnz.append(chisl / (1 - ro))
     if num > 4:
         chisl = b[4] * math.pow(z, 5) + 10 * b[3] * l * pnz[1] * math.pow(z, 3) + \
-                b[2] * (15 * math.pow(l * pnz[1], 2) * z + 10 * l * pnz[2 * z * z]) + b[1] * (
+                b[2] * (15 * math.pow(l * pnz[1], 2) * z + 10 * l * pnz[2] * z * z) + b[1] * (
                         5 * l * pnz[3] * z + 10 * l * l * pnz[1] * pnz[2])
         pnz.append(chisl / (1 - ro))
 
@@ -148,8 +148,8 @@ def ppnz_calc_warm_up(l, f, pnz, num=5):
                            + 6 * f[2] * l * pnz[1] * z * z + f[3] * math.pow(z, 4))
     if num > 4:
         pnz_warm_up.append(f[0] * l * pnz[4] + f[1] * (5 * l * pnz[3] * z + 10 * l * l * pnz[1] * pnz[2]) +
-                           f[2] * (15 * math.pow(l * pnz[1], 2) * z + 10 * f[3] * l * pnz[1] * math.pow(z, 3) + f[
-            4] * math.pow(z, 5)))
+                           f[2] * (15 * math.pow(l * pnz[1], 2) * z + 10 * l * pnz[2] * z * z) +
+                           10 * f[3] * l * pnz[1] * math.pow(z, 3) + f[4] * math.pow(z, 5))
 
     return pnz_warm_up
 
@@ -190,7 +190,7 @@ def calc_pr1(l, b, num=3):
     for i in range(num):
         summ = b[0][i + 1] / (i + 2)
         for s in range(1, i + 1):
-            summ += b[0][i + 1 - s] * w[0][s] * math.factorial(i + 1) / (math.factorial(s) * math.factorial(i + 2 - s))
+            summ += b[0][i + 1 - s] * w[0][s - 1] * math.factorial(i + 1) / (math.factorial(s) * math.factorial(i + 2 - s))
         w[0][i] = summ * l[0] / (1 - l[0] * b[0][0])
 
     v.append([0.0] * num)
-- 
2.43.0


From b083be2f5b26888c3fa2cfe27d4bc0209c7b48b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:35 +0000
Subject: [PATCH 44/80] fix: preemptive priority waiting moments (rate of the
 interrupting classes)

---
 most_queue/theory/priority_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index f91def4..05ae55e 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -233,7 +233,7 @@ def calc_pr1(l, b, num=3):
             for m in range(i):
                 summ += w[j][m] * h[j][i - m] * math.factorial(i) / (math.factorial(m) * math.factorial(i + 1 - m))
 
-            w[j][i] = (c * L[j] * pi_j[j - 1][i] / (i + 1) + l[j] * summ) / (1.0 - l[j] * h[j][0])
+            w[j][i] = (c * L[j - 1] * pi_j[j - 1][i] / (i + 1) + l[j] * summ) / (1.0 - l[j] * h[j][0])
         w[j] = w[j][1:]
         v[j][0] = w[j][0] + h[j][0]
         v[j][1] = w[j][1] + 2 * w[j][0] * h[j][0] + h[j][1]
-- 
2.43.0


From e80a4cdb6eb5441b577b7728d52018b39275c52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:35 +0000
Subject: [PATCH 45/80] fix: second moment and first class of climov_w_pr_calc

---
 most_queue/theory/priority_calc.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 05ae55e..779d337 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -111,15 +111,13 @@ def climov_w_pr_calc(l, b):
         ro_k[k] = 1 - ro_k_j[k][0]
     for k in range(k_num):
         w.append([0.0] * 2)
-        if k != 0:
-            w[k][0] = ro_k_j[k][1] / (2 * ro_k[k - 1] * ro_k[k])
-            w[k][1] = ro_k_j[k][2] / (3 * ro_k[k]) + (ro_k_j[k][2]) / (
-                    2 * math.pow(ro_k[k], 2)) + \
-                      (ro_k_j[k][1]) / (2 * ro_k[k])
+        if k == 0:
+            w[k][0] = ro_k_j[k][1] / (2 * ro_k[k])
+            w[k][1] = ro_k_j[k][2] / (3 * ro_k[k]) + math.pow(ro_k_j[k][1], 2) / (2 * math.pow(ro_k[k], 2))
 
         else:
-            w[k][0] = ro_k_j[k][1] / (2 * ro_k[k])
-            w[k][1] = ro_k_j[k][2] / (3 * math.pow(ro_k[k - 1], 3) * ro_k[k]) + (ro_k_j[k][2] * ro_k_j[k - 1][1]) / (
+            w[k][0] = ro_k_j[k][1] / (2 * ro_k[k - 1] * ro_k[k])
+            w[k][1] = ro_k_j[k][2] / (3 * math.pow(ro_k[k - 1], 2) * ro_k[k]) + math.pow(ro_k_j[k][1], 2) / (
                     2 * math.pow(ro_k[k - 1], 2) * math.pow(ro_k[k], 2)) + \
                       (ro_k_j[k][1] * ro_k_j[k - 1][1]) / (2 * math.pow(ro_k[k - 1], 3) * ro_k[k])
 
-- 
2.43.0


From 59660db199fbafe304fdbbb610c2592a93b470b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:35 +0000
Subject: [PATCH 46/80] fix: service moments of the mixed stream are weighted
 by the arrival rates

---
 most_queue/theory/priority_calc.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 779d337..3ce9d7c 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -278,8 +278,8 @@ def get_w_mg1_bp(l, b):
     for i in range(num_of_moment):
         b_sr.append(0)
         for k in range(num_of_classes):
-            b_sr[i] += b[k][i]
-        b_sr[i] /= num_of_classes
+            b_sr[i] += l[k] * b[k][i]
+        b_sr[i] /= l_sum
 
     w_k = get_w(l_sum, b_sr)
 
@@ -465,12 +465,12 @@ def get_w_prty_invar(l, b, n, type='NP', N=150, num=3):
 
     b_sr = [0.0] * j_num
     l_sum = 0
-    for j in range(j_num):
-        for k in range(k_num):
-            b_sr[j] += b1[k][j]
-        b_sr[j] /= k_num
     for k in range(k_num):
         l_sum += l[k]
+    for j in range(j_num):
+        for k in range(k_num):
+            b_sr[j] += l[k] * b1[k][j]
+        b_sr[j] /= l_sum
 
     p1 = get_p(l_sum, b_sr, N)
     q1 = 0
@@ -481,12 +481,12 @@ def get_w_prty_invar(l, b, n, type='NP', N=150, num=3):
 
     b_sr = [0.0] * j_num
     l_sum = 0
-    for j in range(j_num):
-        for k in range(k_num):
-            b_sr[j] += b[k][j]
-        b_sr[j] /= k_num
     for k in range(k_num):
         l_sum += l[k]
+    for j in range(j_num):
+        for k in range(k_num):
+            b_sr[j] += l[k] * b[k][j]
+        b_sr[j] /= l_sum
 
     tt_n = MGnCalc(n, l_sum, b_sr)
     tt_n.run()
@@ -523,8 +523,8 @@ def get_w_MxGn_no_pr(l, b, n):
     for j in range(num_of_mom):
         b_sr.append(0)
         for k in range(len(b)):
-            b_sr[j] += b[k][j]
-        b_sr[j] /= num_of_mom
+            b_sr[j] += l[k] * b[k][j]
+        b_sr[j] /= l_sum
 
     tt = MGnCalc(n, l_sum, b_sr)
     tt.run()
-- 
2.43.0


From f5d0b6a0868e2fa658fa8ff4bc4d7e5acaa79d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:35 +0000
Subject: [PATCH 47/80] fix: non-preemptive priority waiting moments by exact
 series, independent of the time unit

---
 most_queue/theory/priority_calc.py | 84 ++++++++++++++++--------------
 1 file changed, 44 insertions(+), 40 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 3ce9d7c..e666db8 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -1,8 +1,6 @@
 import math
 
 from most_queue.rand_distribution import Gamma
-from most_queue.theory.utils.diff5dots import diff5dots
-
 from most_queue.theory.mg1_calc import get_p, get_w
 from most_queue.theory.mgn_tt import MGnCalc
 
@@ -324,6 +322,32 @@ def get_v_np(l, b, num=3):
     return v
 
 
+def _pls_series(b, num):
+    """
+    Коэффициенты разложения ПЛС по степеням s по начальным моментам.
+    Недостающие моменты - по гамма-распределению
+    """
+    mom = list(b[:num])
+    if len(mom) < num:
+        mom += list(Gamma.calc_theory_moments(*Gamma.get_mu_alpha(b), count=num))[len(mom):]
+    return [1.0] + [(-1) ** k * mom[k - 1] / math.factorial(k) for k in range(1, num + 1)]
+
+
+def _series_mult(a, c):
+    return [sum(a[i] * c[k - i] for i in range(k + 1)) for k in range(len(a))]
+
+
+def _series_of(a, s):
+    """
+    Подстановка ряда s (без свободного члена) в ряд a
+    """
+    res = [0.0] * len(a)
+    for coef in reversed(a):
+        res = _series_mult(res, s)
+        res[0] += coef
+    return res
+
+
 def get_w_np(l, b, num=3):
     """
     Расчет начальных моментов времени ожидания в M/G/1 с относительным приоритетом
@@ -346,9 +370,6 @@ def get_w_np(l, b, num=3):
         L.append(summ)
 
     for j in range(num_of_cl):
-        w.append([])
-        w[j] = [0.0] * (len(b[j]) - 1)
-
         la = 0
         for i in range(j):
             la += l[i]
@@ -380,47 +401,30 @@ def get_w_np(l, b, num=3):
                     summ += l[i] * b[i][m]
                 b_b[m] = summ / lb
 
-        h = 0.0001
-        steps = 5
+        # разложения по степеням s
+        summ = [0.0] * (num + 2)
+        summ[1] = 1.0
+        if j != 0:
+            nu_a = _pls_series(ppnz_calc(la, b_a), num + 1)
+            for k in range(1, num + 2):
+                summ[k] -= la * nu_a[k]
 
+        chisl = [(1 - ro) * x for x in summ]
         if j != num_of_cl - 1:
-            b_b_param = Gamma.get_mu_alpha(b_b)
-        else:
-            b_b_param = 0
+            b_b_pls = _series_of(_pls_series(b_b, num + 1), summ)
+            for k in range(1, num + 2):
+                chisl[k] -= lb * b_b_pls[k]
 
-        b_k_param = Gamma.get_mu_alpha(b[j])
-
-        nu_a_PNZ = ppnz_calc(la, b_a)
-
-        if j != 0:
-            nu_a_param = Gamma.get_mu_alpha(nu_a_PNZ)
-        else:
-            nu_a_param = 0
+        b_k_pls = _series_of(_pls_series(b[j], num + 1), summ)
+        znam = [l[j] * x for x in b_k_pls]
+        znam[1] += 1.0
 
         w_pls = []
+        for k in range(num + 1):
+            s = sum(w_pls[i] * znam[k + 1 - i] for i in range(k))
+            w_pls.append((chisl[k + 1] - s) / znam[1])
 
-        for c in range(1, steps):
-            s = h * c
-
-            if j != 0:
-                nu_a = Gamma.get_pls(*nu_a_param, s)
-                summ = s + la - la * nu_a
-            else:
-                summ = s
-
-            chisl = (1 - ro) * summ
-
-            if j != len(l) - 1:
-                chisl += lb * (1 - Gamma.get_pls(*b_b_param, summ))
-
-            znam = l[j] * Gamma.get_pls(*b_k_param, summ) - l[j] + s
-
-            w_pls.append(chisl / znam)
-
-            w[j] = diff5dots(w_pls, h)
-            w[j][0] = -w[j][0]
-            if len(b[j]) > 2:
-                w[j][2] = -w[j][2]
+        w.append([(-1) ** k * math.factorial(k) * w_pls[k] for k in range(1, num + 1)])
 
     return w
 
-- 
2.43.0


From abba2311c73458fa9979b7e61443fa9ef062bc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:42 +0000
Subject: [PATCH 48/80] fix: three-class M/M/2 solver serves the low class next
 to one high-class job

---
 most_queue/theory/mmn3_pnz_cox_approx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/most_queue/theory/mmn3_pnz_cox_approx.py b/most_queue/theory/mmn3_pnz_cox_approx.py
index 4f2909b..a2890b2 100755
--- a/most_queue/theory/mmn3_pnz_cox_approx.py
+++ b/most_queue/theory/mmn3_pnz_cox_approx.py
@@ -335,9 +335,10 @@ class Mmn3_pnz_cox:
             output = self.B[2]
             return output
 
-        # Матрица B - диагональная. Количество ненулевых элементов = 2. Остальные 13 - нулевые
+        # Матрица B - диагональная. Количество ненулевых элементов = 3. Остальные 12 - нулевые
         output[0, 0] = min(2, num) * self.mu_L
         output[1, 1] = self.mu_L
+        output[2, 2] = self.mu_L
 
         return output
 
-- 
2.43.0


From 1b0cd12a895ea26d56c2c5925635c1de34989525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:42 +0000
Subject: [PATCH 49/80] fix: three-class M/M/2 solver uses the conditional
 moments of the busy periods

---
 most_queue/theory/mmn3_pnz_cox_approx.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/most_queue/theory/mmn3_pnz_cox_approx.py b/most_queue/theory/mmn3_pnz_cox_approx.py
index a2890b2..983895f 100755
--- a/most_queue/theory/mmn3_pnz_cox_approx.py
+++ b/most_queue/theory/mmn3_pnz_cox_approx.py
@@ -143,12 +143,12 @@ class Mmn3_pnz_cox:
         for j in range(6):
             self.busy_periods.append([0, 0, 0])
         for r in range(3):
-            self.busy_periods[0][r] = pass_time.Gr[2][r][3, 1]
-            self.busy_periods[1][r] = pass_time.Gr[2][r][3, 0]
-            self.busy_periods[2][r] = pass_time.Gr[2][r][2, 1]
-            self.busy_periods[3][r] = pass_time.Gr[2][r][2, 0]
-            self.busy_periods[4][r] = pass_time.Gr[2][r][0, 1]
-            self.busy_periods[5][r] = pass_time.Gr[2][r][0, 0]
+            self.busy_periods[0][r] = pass_time.Z[2][r][3, 1]
+            self.busy_periods[1][r] = pass_time.Z[2][r][3, 0]
+            self.busy_periods[2][r] = pass_time.Z[2][r][2, 1]
+            self.busy_periods[3][r] = pass_time.Z[2][r][2, 0]
+            self.busy_periods[4][r] = pass_time.Z[2][r][0, 1]
+            self.busy_periods[5][r] = pass_time.Z[2][r][0, 0]
 
         for j in range(6):
             coev = math.sqrt(self.busy_periods[j][1].real - pow(self.busy_periods[j][0].real, 2)) / \
@@ -156,7 +156,7 @@ class Mmn3_pnz_cox:
             self.busy_periods_coevs.append(coev.real)
 
         # pp - список из шести вероятностей p2mm, p2mh, phmm, phmh, p2hm, p2hh
-        # берем моменты Gr, поскольку моменты Z - условные, с учетом pp
+        # берем условные моменты Z, поскольку pp учитываются в интенсивностях переходов
         self.pp.append(pass_time.G[2][3, 1])
         self.pp.append(pass_time.G[2][3, 0])
         self.pp.append(pass_time.G[2][2, 1])
-- 
2.43.0


From 68cbdfe89460636b257629dd240293091eb584cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:27 +0000
Subject: [PATCH 50/80] fix: Cox fit by moments is exact except next to the
 exponential distribution, in any time unit

---
 most_queue/rand_distribution.py  | 31 ++++---------------------------
 most_queue/theory/m_ph_n_prty.py |  2 +-
 2 files changed, 5 insertions(+), 28 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index c3c9e45..81dddc7 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -443,34 +443,11 @@ class Cox_dist:
         f = [0.0] * 3
 
         if is_fitting:
-            # проверка на близость распределения к экспоненциальному
-            coev = cmath.sqrt(moments[1] - moments[0] ** 2) / moments[0]
-            if abs(moments[1] - moments[0] * moments[0]) < ee:
+            # экспоненциальное распределение - вырожденный случай, формулы ниже неприменимы
+            if abs(moments[1] / 2.0 - moments[0] ** 2) < ee * abs(moments[0] ** 2):
                 if verbose:
-                    print("Cox special 1. Multiply moments to (1+je), coev = {0:5.3f},"
-                          " e = {1:5.3f}.".format(coev, e))
-                f = []
-                for i in range(len(moments)):
-                    f.append(moments[i] * complex(1, (i + 1) * e))
-
-                return Cox_dist.get_params(f, verbose=verbose, ee=ee, e=e * (1.0 + e_percent), e_percent=e_percent,
-                                           is_fitting=is_fitting)
-
-            coev = cmath.sqrt(moments[1] - moments[0] ** 2) / moments[0]
-
-            # проверка на близость распределения к Эрланга 2-го порядка
-            if abs(moments[1] - (3.0 / 4) * moments[0] * moments[0]) < ee:
-                if verbose:
-                    print("Cox special 2. Multiply moments to (1+je), coev = {0:5.3f},"
-                          " e = {1:5.3f}.".format(coev, e))
-                f = []
-                for i in range(len(moments)):
-                    # if i == 0:
-                    #     f.append(moments[0])
-                    # else:
-                    f.append(moments[i] * complex(1, (i + 1) * e))
-                return Cox_dist.get_params(f, verbose=verbose, ee=ee, e=e * (1.0 + e_percent), e_percent=e_percent,
-                                           is_fitting=is_fitting)
+                    print("Cox special. Exponential distribution with the same mean.")
+                return 0.0, 1.0 / moments[0], 1.0 / moments[0]
 
         # # особые случаи:
         # if abs(moments[1] - moments[0] * moments[0]) < ee:
diff --git a/most_queue/theory/m_ph_n_prty.py b/most_queue/theory/m_ph_n_prty.py
index 674e1c8..6203751 100755
--- a/most_queue/theory/m_ph_n_prty.py
+++ b/most_queue/theory/m_ph_n_prty.py
@@ -13,7 +13,7 @@ class m_ph_n_prty:
     """
 
     def __init__(self, mu_L, mu1_H, mu2_H, p_H, l_L, l_H, n, N=250,
-                 accuracy=1e-8, max_iter=300, is_cox=True, approx_ee=0.1, approx_e=0.5, is_fitting=True,
+                 accuracy=1e-8, max_iter=300, is_cox=True, approx_ee=0.001, approx_e=0.5, is_fitting=True,
                  verbose=True):
 
         """
-- 
2.43.0


From 29ffc444429c81d0906961e44545c2ab1fbc5d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:45 +0000
Subject: [PATCH 51/80] fix: preemptive priority solvers iterate until every
 level has converged

---
 most_queue/theory/m_ph_n_prty.py         | 35 +++---------------------
 most_queue/theory/mmn3_pnz_cox_approx.py | 16 +++--------
 most_queue/theory/mmn_prty_pnz_approx.py | 16 +++--------
 3 files changed, 12 insertions(+), 55 deletions(-)

diff --git a/most_queue/theory/m_ph_n_prty.py b/most_queue/theory/m_ph_n_prty.py
index 6203751..d717522 100755
--- a/most_queue/theory/m_ph_n_prty.py
+++ b/most_queue/theory/m_ph_n_prty.py
@@ -338,31 +338,15 @@ class m_ph_n_prty:
         self.b1[0][0, 0] = 0.0 + 0.0j
         self.b2[0][0, 0] = 0.0 + 0.0j
         
-        is_ave = False
-
-
-
         iter = 0
         self.run_iterations_num_ = 0
-        if is_ave:
-            x_ave1 = 0.0 + 0.0j
-            x_ave2 = 0.0 + 0.0j
-            for i in range(self.N):
-                x_ave1 += self.x[i]
-            x_ave1 /= self.N
-        else:
+        x_diff = math.inf
 
-            x_ave1 = 0.0
-            x_ave2 = 0.0
-            for i in range(self.N):
-                if self.x[i].real > x_ave1 :
-                    x_ave1 = self.x[i].real
-
-        while math.fabs(x_ave2.real - x_ave1.real) >= self.e1 and iter < self.max_iter:
+        while x_diff >= self.e1 and iter < self.max_iter:
             if self.verbose:
                 print("Start numeric iteration {0:d}".format(iter))
             iter += 1
-            x_ave2 = x_ave1
+            x_pr = self.x[:self.N]
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
                 G = np.linalg.inv(self.D[j] - self.C[j])
@@ -394,18 +378,7 @@ class m_ph_n_prty:
             self.t[0] = np.dot(self.t[0], np.linalg.inv(self.D[0] - self.C[0]))
 
 
-
-            if is_ave:
-                x_ave1 = 0.0 + 0.0j
-                for i in range(self.N):
-                    x_ave1 += self.x[i]
-                x_ave1 /= self.N
-
-            else:
-                x_ave1 = 0.0
-                for i in range(self.N):
-                    if self.x[i].real > x_ave1:
-                        x_ave1 = self.x[i].real
+            x_diff = max(abs(self.x[i] - x_pr[i]) for i in range(self.N))
 
         self.run_iterations_num_ = iter
         self.calculate_p()
diff --git a/most_queue/theory/mmn3_pnz_cox_approx.py b/most_queue/theory/mmn3_pnz_cox_approx.py
index 983895f..e642ef9 100755
--- a/most_queue/theory/mmn3_pnz_cox_approx.py
+++ b/most_queue/theory/mmn3_pnz_cox_approx.py
@@ -234,14 +234,10 @@ class Mmn3_pnz_cox:
         """
         self.b1[0][0, 0] = 0
         self.b2[0][0, 0] = 0
-        x_max1 = 0
-        x_max2 = 0
+        x_diff = math.inf
         self.iter_num_ = 0
-        for i in range(self.N):
-            if self.x[i] > x_max1:
-                x_max1 = self.x[i]
-        while math.fabs(x_max2.real - x_max1.real) >= self.e1:
-            x_max2 = x_max1
+        while x_diff >= self.e1:
+            x_pr = self.x[:self.N]
             self.iter_num_ += 1
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
@@ -275,11 +271,7 @@ class Mmn3_pnz_cox:
             self.t[0] = np.dot(self.x[0], t1B1)
             self.t[0] = np.dot(self.t[0], np.linalg.inv(self.D[0] - self.C[0]))
 
-            x_max1 = 0
-
-            for i in range(self.N):
-                if self.x[i] > x_max1:
-                    x_max1 = self.x[i]
+            x_diff = max(abs(self.x[i] - x_pr[i]) for i in range(self.N))
 
         self.calculate_p()
         self.calculate_y()
diff --git a/most_queue/theory/mmn_prty_pnz_approx.py b/most_queue/theory/mmn_prty_pnz_approx.py
index 4dece6b..55ea05e 100755
--- a/most_queue/theory/mmn_prty_pnz_approx.py
+++ b/most_queue/theory/mmn_prty_pnz_approx.py
@@ -159,14 +159,10 @@ class MMn_PRTY_PNZ_Cox_approx:
         """
         self.b1[0][0, 0] = 0
         self.b2[0][0, 0] = 0
-        x_max1 = 0
-        x_max2 = 0
+        x_diff = math.inf
         self.n_iter_ = 0
-        for i in range(self.N):
-            if self.x[i] > x_max1:
-                x_max1 = self.x[i]
-        while math.fabs(x_max2.real - x_max1.real) >= self.e1:
-            x_max2 = x_max1
+        while x_diff >= self.e1:
+            x_pr = self.x[:self.N]
             self.n_iter_ += 1
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
@@ -198,11 +194,7 @@ class MMn_PRTY_PNZ_Cox_approx:
             self.t[0] = np.dot(self.x[0], t1B1)
             self.t[0] = np.dot(self.t[0], np.linalg.inv(self.D[0] - self.C[0]))
 
-            x_max1 = 0
-
-            for i in range(self.N):
-                if self.x[i] > x_max1:
-                    x_max1 = self.x[i]
+            x_diff = max(abs(self.x[i] - x_pr[i]) for i in range(self.N))
 
         self.calculate_p()
         self.calculate_y()
-- 
2.43.0


From ce6cb41f92f78f949c38176f2d710e75f25246a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:06 +0000
Subject: [PATCH 52/80] fix: passage time iterations stop when every element
 has converged

---
 most_queue/theory/utils/passage_time.py | 70 +++++++++++--------------
 1 file changed, 30 insertions(+), 40 deletions(-)

diff --git a/most_queue/theory/utils/passage_time.py b/most_queue/theory/utils/passage_time.py
index 4060e3b..86b8941 100755
--- a/most_queue/theory/utils/passage_time.py
+++ b/most_queue/theory/utils/passage_time.py
@@ -133,21 +133,25 @@ class passage_time_calc:
                                     dtype='complex64')  # присвоить первоначальное значение G = B не работает !!!
         else:
             self.G_l_tilda = np.eye(b_rows, b_cols)
-        max_elem = self.G_l_tilda.max()
-        max_elem_pr = 0
+        G_pr = np.zeros_like(self.G_l_tilda)
 
         n_iter = 0
 
-        while (abs(max_elem - max_elem_pr) > self.e):
+        while not self.is_close(self.G_l_tilda, G_pr):
+            G_pr = self.G_l_tilda
             self.G_l_tilda = self.B[self.l_tilda] + np.dot(self.L[self.l_tilda], self.G_l_tilda) + \
                              np.dot(self.F[self.l_tilda], np.dot(self.G_l_tilda, self.G_l_tilda))
-            max_elem_pr = max_elem
-            max_elem = self.G_l_tilda.max()
             n_iter += 1
 
         if self.is_verbose:
             print("Количество итераций вычисления матрицы G_l_tilda = {0:d}".format(n_iter))
 
+    def is_close(self, mrx, mrx_pr):
+        """
+        Сходимость итераций: все элементы матрицы изменились не более чем на e от наибольшего из них
+        """
+        return np.max(np.abs(mrx - mrx_pr)) <= self.e * np.max(np.abs(mrx))
+
     def norm_mrx(self, mrx, is_max=True):
         rows = mrx.shape[0]
         cols = mrx.shape[1]
@@ -184,15 +188,13 @@ class passage_time_calc:
         #     G1 = np.array(np.eye(B1.shape[0], B1.shape[1]))
 
         # вычисляем первый момент
-        max_elem = self.norm_mrx(G1)
-        max_elem_pr = 0
+        G1_pr = np.zeros_like(G1)
         n_iter = 0
 
-        while (abs(max_elem - max_elem_pr) > self.e):
+        while not self.is_close(G1, G1_pr):
+            G1_pr = G1
             G1 = B1 + np.dot(L1, G) + np.dot(L, G1) + np.dot(F1, np.dot(G, G)) + np.dot(F, np.dot(G1, G)) \
                  + np.dot(F, np.dot(G, G1))
-            max_elem_pr = max_elem
-            max_elem = self.norm_mrx(G1)
             n_iter += 1
 
         if self.is_verbose:
@@ -214,18 +216,16 @@ class passage_time_calc:
         # else:
         #     G2 = np.array(np.eye(B2.shape[0], B2.shape[1]))
         #
-        max_elem = self.norm_mrx(G2)
-        max_elem_pr = 0
+        G2_pr = np.zeros_like(G2)
         n_iter = 0
 
-        while (abs(max_elem - max_elem_pr) > self.e):
+        while not self.is_close(G2, G2_pr):
+            G2_pr = G2
             G2 = B2 + np.dot(L2, G) + 2 * np.dot(L1, G1) + np.dot(L, G2) \
                  + np.dot(F2, np.dot(G, G)) + \
                  2 * np.dot(F1, (np.dot(G1, G) + np.dot(G, G1))) \
                  + np.dot(F, (np.dot(G2, G) + 2 * np.dot(G1, G1) + np.dot(G, G2)))
 
-            max_elem_pr = max_elem
-            max_elem = self.norm_mrx(G2)
             n_iter += 1
 
         if self.is_verbose:
@@ -242,19 +242,17 @@ class passage_time_calc:
              3.0 * np.dot(F2, (np.dot(G1, G) + np.dot(G, G1))) + \
              3.0 * np.dot(F1, (np.dot(G2, G1) + 2 * np.dot(G1, G1) + np.dot(G, G2)))
 
-        max_elem = self.norm_mrx(G3)
-        max_elem_pr = 0
+        G3_pr = np.zeros_like(G3)
         n_iter = 0
 
-        while (abs(max_elem - max_elem_pr) > self.e):
+        while not self.is_close(G3, G3_pr):
+            G3_pr = G3
             G3 = B3 + np.dot(L3, G) + 3 * np.dot(L2, G1) + 3 * np.dot(L1, G2) \
                  + np.dot(L, G3) + np.dot(F3, np.dot(G, G)) \
                  + 3 * np.dot(F2, (np.dot(G1, G) + np.dot(G, G1))) + \
                  3 * np.dot(F1, (np.dot(G2, G) + 2 * np.dot(G1, G1) + np.dot(G, G2))) \
                  + np.dot(F, (np.dot(G3, G) + 3 * np.dot(G2, G1) + 3 * np.dot(G1, G2) + np.dot(G, G3)))
 
-            max_elem_pr = max_elem
-            max_elem = self.norm_mrx(G3)
             n_iter += 1
 
         if self.is_verbose:
@@ -283,13 +281,11 @@ class passage_time_calc:
             # b_cols = B.shape[1]
             # G = (np.array(np.eye(b_rows, b_cols)) - L - F*G_plus_one).I()*B
 
-            max_elem = self.norm_mrx(G)
-            max_elem_pr = 0
+            G_pr = np.zeros_like(G)
             n_iter = 0
-            while (abs(max_elem - max_elem_pr) > self.e):
+            while not self.is_close(G, G_pr):
+                G_pr = G
                 G = B + np.dot(L, G) + np.dot(F, np.dot(G_plus_one, G))
-                max_elem_pr = max_elem
-                max_elem = self.norm_mrx(G)
                 n_iter += 1
 
             if self.is_verbose:
@@ -325,14 +321,12 @@ class passage_time_calc:
             #     else:
             #         G1 = np.array(np.eye(B1.shape[0], B1.shape[1]))
 
-            max_elem = self.norm_mrx(G1)
-            max_elem_pr = 0
+            G1_pr = np.zeros_like(G1)
             n_iter = 0
-            while (abs(max_elem - max_elem_pr) > self.e):
+            while not self.is_close(G1, G1_pr):
+                G1_pr = G1
                 G1 = B1 + np.dot(L1, G) + np.dot(L, G1) + np.dot(F1, np.dot(Gplus_one, G)) \
                      + np.dot(F, np.dot(G1plus_one, G)) + np.dot(F, np.dot(Gplus_one, G1))
-                max_elem_pr = max_elem
-                max_elem = self.norm_mrx(G1)
                 n_iter += 1
             self.Gr[self.l_tilda - i - 1].append(G1)
 
@@ -348,16 +342,14 @@ class passage_time_calc:
             G2 = B2 + np.dot(L2, G) + 2 * np.dot(L1, G1) + np.dot(F2, np.dot(Gplus_one, G)) + \
                  2 * np.dot(F1, (np.dot(G1plus_one, G) + np.dot(Gplus_one, G1)))
 
-            max_elem = self.norm_mrx(G2)
-            max_elem_pr = 0
+            G2_pr = np.zeros_like(G2)
             n_iter = 0
-            while (abs(max_elem - max_elem_pr) > self.e):
+            while not self.is_close(G2, G2_pr):
+                G2_pr = G2
                 G2 = B2 + np.dot(L2, G) + 2.0 * np.dot(L1, G1) + np.dot(L, G2) \
                      + np.dot(F2, np.dot(Gplus_one, G)) + 2.0 * np.dot(F1,
                                                                        (np.dot(G1plus_one, G) + np.dot(Gplus_one, G1))) \
                      + np.dot(F, (np.dot(G2plus_one, G) + 2.0 * np.dot(G1plus_one, G1) + np.dot(Gplus_one, G2)))
-                max_elem_pr = max_elem
-                max_elem = self.norm_mrx(G2)
                 n_iter += 1
             self.Gr[self.l_tilda - i - 1].append(G2)
             if self.is_verbose:
@@ -374,10 +366,10 @@ class passage_time_calc:
                  + 3.0 * np.dot(F2, (np.dot(G1plus_one, G) + np.dot(Gplus_one, G1))) \
                  + 3.0 * np.dot(F1, (np.dot(G2plus_one, G) + 2.0 * np.dot(G1plus_one, G1) + np.dot(Gplus_one, G2)))
 
-            max_elem = self.norm_mrx(G3)
-            max_elem_pr = 0
+            G3_pr = np.zeros_like(G3)
             n_iter = 0
-            while (abs(max_elem - max_elem_pr) > self.e):
+            while not self.is_close(G3, G3_pr):
+                G3_pr = G3
                 G3 = B3 + np.dot(L3, G) + 3.0 * np.dot(L2, G1) + 3.0 * np.dot(L1, G2) + np.dot(L, G3) \
                      + np.dot(F3, np.dot(Gplus_one, G)) \
                      + 3.0 * np.dot(F2, (np.dot(G1plus_one, G) + np.dot(Gplus_one, G1))) \
@@ -386,8 +378,6 @@ class passage_time_calc:
                             np.dot(G3plus_one, G) + 3 * np.dot(G2plus_one, G1) + 3.0 * np.dot(G1plus_one, G2) + np.dot(
                         Gplus_one, G3)))
 
-                max_elem_pr = max_elem
-                max_elem = self.norm_mrx(G3)
                 n_iter += 1
             self.Gr[self.l_tilda - i - 1].append(G3)
             if self.is_verbose:
-- 
2.43.0


From 49c3941d835ec5096dbd28bcb490bfb957e9b389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:06 +0000
Subject: [PATCH 53/80] fix: second and third passage time moments over several
 levels

---
 most_queue/theory/utils/passage_time.py | 114 +++++-------------------
 1 file changed, 22 insertions(+), 92 deletions(-)

diff --git a/most_queue/theory/utils/passage_time.py b/most_queue/theory/utils/passage_time.py
index 86b8941..1b6a532 100755
--- a/most_queue/theory/utils/passage_time.py
+++ b/most_queue/theory/utils/passage_time.py
@@ -6,10 +6,11 @@ import numpy as np
 
 class passage_time_calc:
     def __init__(self, A, B, C, D, is_clx=True, is_verbose=False, l_tilda=None):
-        self.A_input = A
-        self.B_input = B
-        self.C_input = C
-        self.D_input = D
+        dtype = 'complex128' if is_clx else 'float64'
+        self.A_input = [np.asarray(mrx, dtype=dtype) for mrx in A]
+        self.B_input = [np.asarray(mrx, dtype=dtype) for mrx in B]
+        self.C_input = [np.asarray(mrx, dtype=dtype) for mrx in C]
+        self.D_input = [np.asarray(mrx, dtype=dtype) for mrx in D]
         if not l_tilda:
             self.l_tilda = len(D) - 1  # номер яруса, с которого все матрицы одинаковые
         else:
@@ -25,7 +26,7 @@ class passage_time_calc:
         self.is_clx = is_clx
         n_l_max = D[self.l_tilda].shape[0]
         if is_clx:
-            self.G_l_tilda = np.zeros((n_l_max, n_l_max), dtype='complex64')
+            self.G_l_tilda = np.zeros((n_l_max, n_l_max), dtype='complex128')
         else:
             self.G_l_tilda = np.zeros((n_l_max, n_l_max))
         self.Gr_tilda = []
@@ -130,7 +131,7 @@ class passage_time_calc:
         b_cols = self.B[self.l_tilda].shape[1]
         if self.is_clx:
             self.G_l_tilda = np.eye(b_rows, b_cols,
-                                    dtype='complex64')  # присвоить первоначальное значение G = B не работает !!!
+                                    dtype='complex128')  # присвоить первоначальное значение G = B не работает !!!
         else:
             self.G_l_tilda = np.eye(b_rows, b_cols)
         G_pr = np.zeros_like(self.G_l_tilda)
@@ -183,7 +184,7 @@ class passage_time_calc:
         G1 = B1 + np.dot(L1, G) + np.dot(F1, np.dot(G, G))
 
         # if self.is_clx:
-        #     G1 = np.array(np.eye(B1.shape[0], B1.shape[1]), dtype='complex64') # присвоить первоначальное значение G = B не работает !!!
+        #     G1 = np.array(np.eye(B1.shape[0], B1.shape[1]), dtype='complex128') # присвоить первоначальное значение G = B не работает !!!
         # else:
         #     G1 = np.array(np.eye(B1.shape[0], B1.shape[1]))
 
@@ -212,7 +213,7 @@ class passage_time_calc:
 
         # if self.is_clx:
         #     G2 = np.array(np.eye(B2.shape[0], B2.shape[1]),
-        #                    dtype='complex64')  # присвоить первоначальное значение G = B не работает !!!
+        #                    dtype='complex128')  # присвоить первоначальное значение G = B не работает !!!
         # else:
         #     G2 = np.array(np.eye(B2.shape[0], B2.shape[1]))
         #
@@ -317,7 +318,7 @@ class passage_time_calc:
             # if i!=self.l_tilda-1:
             #     if self.is_clx:
             #         G1 = np.array(np.eye(B1.shape[0], B1.shape[1]),
-            #                        dtype='complex64')  # присвоить первоначальное значение G = B не работает !!!
+            #                        dtype='complex128')  # присвоить первоначальное значение G = B не работает !!!
             #     else:
             #         G1 = np.array(np.eye(B1.shape[0], B1.shape[1]))
 
@@ -390,7 +391,7 @@ class passage_time_calc:
             self.Z.append([])
             for r in range(3):
                 if self.is_clx:
-                    self.Z[i].append(np.zeros((rows, cols), dtype='complex64'))
+                    self.Z[i].append(np.zeros((rows, cols), dtype='complex128'))
                 else:
                     self.Z[i].append(np.zeros((rows, cols)))
                 for j in range(rows):
@@ -409,7 +410,7 @@ class passage_time_calc:
         Z = []
         for r in range(3):
             if self.is_clx:
-                Z.append(np.zeros((rows, cols), dtype='complex64'))
+                Z.append(np.zeros((rows, cols), dtype='complex128'))
             else:
                 Z.append(np.zeros((rows, cols)))
             for j in range(rows):
@@ -466,88 +467,17 @@ class passage_time_calc:
             else:
                 Gr_gap.append(copy.deepcopy(self.Gr[l_end + 1][i]))
 
-        if l_start <= l_end:
-            return -1
-
         for i in range(l_end + 2, l_start + 1):
-
-            # первый момент
-            Ggap_minus_one = self.G_gap_calc(i - 1, l_end)
-
-            # B1G-section
-
-            if i >= self.l_tilda:
-                B1G = np.dot(self.Br[self.l_tilda][0], Ggap_minus_one)
-            else:
-                B1G = np.dot(self.Br[i][0], Ggap_minus_one)
-
-            # BG1 section
-            if i >= self.l_tilda:
-                BG1 = np.dot(self.B[self.l_tilda], Gr_gap[0])
-            else:
-                BG1 = np.dot(self.B[i], Gr_gap[0])
-
-            # L1GG-section
-            if i >= self.l_tilda:
-                L1GG = np.dot(self.Lr[self.l_tilda][0], np.dot(self.G[self.l_tilda], Ggap_minus_one))
-            else:
-                L1GG = np.dot(self.Lr[i][0], np.dot(self.G[i], Ggap_minus_one))
-
-            # LG1G section
-            if i >= self.l_tilda:
-                LG1G = np.dot(self.L[self.l_tilda], np.dot(self.Gr[self.l_tilda][0], Ggap_minus_one))
-            else:
-                LG1G = np.dot(self.L[i], np.dot(self.Gr[i][0], Ggap_minus_one))
-
-            # LGG1 section
-            if i >= self.l_tilda:
-                LGG1 = np.dot(self.L[self.l_tilda], np.dot(self.G[self.l_tilda], Gr_gap[0]))
-            else:
-                LGG1 = np.dot(self.L[i], np.dot(self.G[i], Gr_gap[0]))
-
-            # F1GGG-section
-            if i >= self.l_tilda:
-                F1GGG = np.dot(self.Fr[self.l_tilda][0],
-                               np.dot(self.G[self.l_tilda], np.dot(self.G[self.l_tilda], Ggap_minus_one)))
-            elif i == self.l_tilda - 1:
-                F1GGG = np.dot(self.Fr[i][0], np.dot(self.G[self.l_tilda], np.dot(self.G[i], Ggap_minus_one)))
-            else:
-                F1GGG = np.dot(self.Fr[i][0], np.dot(self.G[i + 1], np.dot(self.G[i], Ggap_minus_one)))
-
-            # FG1GG-section
-            if i >= self.l_tilda:
-                FG1GG = np.dot(self.F[self.l_tilda],
-                               np.dot(self.Gr[self.l_tilda][0], np.dot(self.G[self.l_tilda], Ggap_minus_one)))
-            elif i == self.l_tilda - 1:
-                FG1GG = np.dot(self.F[i], np.dot(self.Gr[self.l_tilda][0], np.dot(self.G[i], Ggap_minus_one)))
-            else:
-                FG1GG = np.dot(self.F[i], np.dot(self.Gr[i + 1][0], np.dot(self.G[i], Ggap_minus_one)))
-
-            # FGG1G-section
-            if i >= self.l_tilda:
-                FGG1G = np.dot(self.F[self.l_tilda],
-                               np.dot(self.G[self.l_tilda], np.dot(self.Gr[self.l_tilda][0], Ggap_minus_one)))
-            elif i == self.l_tilda - 1:
-                FGG1G = np.dot(self.F[i], np.dot(self.G[self.l_tilda], np.dot(self.Gr[i][0], Ggap_minus_one)))
-            else:
-                FGG1G = np.dot(self.F[i], np.dot(self.G[i + 1], np.dot(self.Gr[i][0], Ggap_minus_one)))
-
-            # FGGG1-section
-            if i >= self.l_tilda:
-                FGGG1 = np.dot(self.F[self.l_tilda],
-                               np.dot(self.G[self.l_tilda], np.dot(self.G[self.l_tilda], Gr_gap[0])))
-            elif i == self.l_tilda - 1:
-                FGGG1 = np.dot(self.F[i], np.dot(self.G[self.l_tilda], np.dot(self.G[i], Gr_gap[0])))
-            else:
-                FGGG1 = np.dot(self.F[i], np.dot(self.G[i + 1], np.dot(self.G[i], Gr_gap[0])))
-
-            Gr_gap[0] = B1G + BG1 + L1GG + LG1G + LGG1 + F1GGG + FG1GG + FGG1G + FGGG1
-            Gr_gap[1] = Gr_gap[0]
-            Gr_gap[2] = Gr_gap[0]
-            # while (abs(max_elem - max_elem_pr) > self.e):
-            #     Gr_gap[0] = B1G + BG1 + L1G + L*Gr_gap[0] + F1GG + FG1G + FG1*Gr_gap[0]
-            #     max_elem_pr = max_elem
-            #     max_elem = self.norm_mrx(Gr_gap[0])
+            # время перехода с яруса i складывается из времени перехода на ярус i - 1 и времени перехода с него на l_end
+            level = min(i, self.l_tilda)
+            G = self.G[level]
+            G1, G2, G3 = self.Gr[level]
+            g = self.G_gap_calc(i - 1, l_end)
+            g1, g2, g3 = Gr_gap
+
+            Gr_gap = [np.dot(G1, g) + np.dot(G, g1),
+                      np.dot(G2, g) + 2 * np.dot(G1, g1) + np.dot(G, g2),
+                      np.dot(G3, g) + 3 * np.dot(G2, g1) + 3 * np.dot(G1, g2) + np.dot(G, g3)]
 
         return Gr_gap
 
-- 
2.43.0


From 12adf9d93f9fc92121a7b162d92737d61133b1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:28 +0000
Subject: [PATCH 54/80] fix: moments of the maximum are integrated in the time
 unit of the mean, with enough nodes, and without delay too

---
 most_queue/theory/fj_calc.py | 59 ++++++++++++++----------------------
 1 file changed, 23 insertions(+), 36 deletions(-)

diff --git a/most_queue/theory/fj_calc.py b/most_queue/theory/fj_calc.py
index 02f97ec..8232d15 100755
--- a/most_queue/theory/fj_calc.py
+++ b/most_queue/theory/fj_calc.py
@@ -42,22 +42,16 @@ def getMaxMoments(n, b, num=None):
     f = [0] * num
     variance = b[1] - b[0] * b[0]
     coev = math.sqrt(variance) / b[0]
-    a_big = [1.37793470540E-1, 7.29454549503E-1, 1.808342901740E0,
-             3.401433697855E0, 5.552496140064E0, 8.330152746764E0,
-             1.1843785837900E1, 1.6279257831378E1, 2.1996585811981E1,
-             2.9920697012274E1]
-    g = [3.08441115765E-1, 4.01119929155E-1, 2.18068287612E-1,
-         6.20874560987E-2, 9.50151697518E-3, 7.53008388588E-4,
-         2.82592334960E-5, 4.24931398496E-7, 1.83956482398E-9,
-         9.91182721961E-13]
+    # узлы и веса квадратуры Гаусса-Лагерра, время измеряется в единицах b[0]
+    a_big, g = np.polynomial.laguerre.laggauss(64)
 
     if len(b) >= 3:
 
         if coev < 1:
             params = Erlang_dist.get_params(b)
 
-            for j in range(10):
-                p = g[j] * dfr_Erl_Mult(params, a_big[j],
+            for j in range(len(a_big)):
+                p = g[j] * dfr_Erl_Mult(params, a_big[j] * b[0],
                                         n) * math.exp(a_big[j])
                 f[0] += p
                 for i in range(1, num):
@@ -66,8 +60,8 @@ def getMaxMoments(n, b, num=None):
         else:
             params = H2_dist.get_params(b)
 
-            for j in range(10):
-                p = g[j] * dfr_H2_Mult(params, a_big[j],
+            for j in range(len(a_big)):
+                p = g[j] * dfr_H2_Mult(params, a_big[j] * b[0],
                                        n) * math.exp(a_big[j])
                 f[0] += p
                 for i in range(1, num):
@@ -76,15 +70,15 @@ def getMaxMoments(n, b, num=None):
     else:
         params = Gamma.get_mu_alpha(b)
 
-        for j in range(10):
-            p = g[j] * dfr_Gamma_Mult(params, a_big[j], n) * math.exp(a_big[j])
+        for j in range(len(a_big)):
+            p = g[j] * dfr_Gamma_Mult(params, a_big[j] * b[0], n) * math.exp(a_big[j])
             f[0] += p
             for i in range(1, num):
                 p = p * a_big[j]
                 f[i] += p
 
-    for i in range(num - 1):
-        f[i + 1] *= (i + 2)
+    for i in range(num):
+        f[i] *= (i + 1) * b[0] ** (i + 1)
     return f
 
 
@@ -97,28 +91,21 @@ def getMaxMomentsDelta(n, b, num=3, delta=0):
         :return: начальные моменты максимума СВ.
         """
     f = [0] * num
-    a_big = [1.37793470540E-1, 7.29454549503E-1, 1.808342901740E0,
-             3.401433697855E0, 5.552496140064E0, 8.330152746764E0,
-             1.1843785837900E1, 1.6279257831378E1, 2.1996585811981E1,
-             2.9920697012274E1]
-    g = [3.08441115765E-1, 4.01119929155E-1, 2.18068287612E-1,
-         6.20874560987E-2, 9.50151697518E-3, 7.53008388588E-4,
-         2.82592334960E-5, 4.24931398496E-7, 1.83956482398E-9,
-         9.91182721961E-13]
-
-    if delta:
-        params = Gamma.get_mu_alpha(b)
+    # узлы и веса квадратуры Гаусса-Лагерра, время измеряется в единицах b[0]
+    a_big, g = np.polynomial.laguerre.laggauss(64)
 
-        for j in range(10):
-            p = g[j] * dfr_Gamma_Mult(params, a_big[j],
-                                      n, delta) * math.exp(a_big[j])
-            f[0] += p
-            for i in range(1, num):
-                p = p * a_big[j]
-                f[i] += p
+    params = Gamma.get_mu_alpha(b)
+
+    for j in range(len(a_big)):
+        p = g[j] * dfr_Gamma_Mult(params, a_big[j] * b[0],
+                                  n, delta) * math.exp(a_big[j])
+        f[0] += p
+        for i in range(1, num):
+            p = p * a_big[j]
+            f[i] += p
 
-        for i in range(num - 1):
-            f[i + 1] *= (i + 2)
+    for i in range(num):
+        f[i] *= (i + 1) * b[0] ** (i + 1)
 
     return f
 
-- 
2.43.0


From 5781ed8b034e4798756079485d7b4f23fff3d058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:28 +0000
Subject: [PATCH 55/80] fix: Varma approximation of (n, k) fork-join systems

---
 most_queue/theory/fj_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/fj_calc.py b/most_queue/theory/fj_calc.py
index 8232d15..b75448d 100755
--- a/most_queue/theory/fj_calc.py
+++ b/most_queue/theory/fj_calc.py
@@ -230,7 +230,7 @@ def get_v1_varma_nk(l, mu, n, k):
 
     for i in range(k, n + 1):
         summ += get_W(n, k, i) * (get_Hn(i) +
-                                  (get_V(i) - get_Hn(i) * ro)) / (l - mu)
+                                  (get_V(i) - get_Hn(i)) * ro) / (mu - l)
 
     return summ
 
-- 
2.43.0


From 2b8dcb3bde612bcddb246de5e54e410b6145ed47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:28 +0000
Subject: [PATCH 56/80] fix: invariant fork-join approximation compares n
 servers with two

---
 most_queue/theory/fj_calc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/theory/fj_calc.py b/most_queue/theory/fj_calc.py
index b75448d..d4c8135 100755
--- a/most_queue/theory/fj_calc.py
+++ b/most_queue/theory/fj_calc.py
@@ -338,7 +338,7 @@ def get_v_fj_invar_tt(l, b, n):
 
     v1_fj2 = get_v1_fj2(l, 1.0 / b[0])
 
-    tt2 = MGnCalc(n, l, b2)
+    tt2 = MGnCalc(2, l, b2)
     tt2.run()
     w_tt2 = tt2.get_w()
 
@@ -351,7 +351,7 @@ def get_v_fj_invar_tt(l, b, n):
 
     ttn = MGnCalc(n, l, bn)
     ttn.run()
-    w_ttn = tt2.get_w()
+    w_ttn = ttn.get_w()
 
     for i in range(3):
         v.append(v1_fj2 * w_ttn[i] / w_tt2[i])
-- 
2.43.0


From a8658f5711c7486ab76667e25007c179e2370594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:28 +0000
Subject: [PATCH 57/80] fix: H2 fit of exponential moments without rounding
 luck

---
 most_queue/rand_distribution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 81dddc7..1c24759 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -223,6 +223,9 @@ class H2_dist:
         v = moments[1] - moments[0] * moments[0]
         v = math.sqrt(v) / moments[0]
         res = [0.0] * 3
+        if math.isclose(v, 1.0, rel_tol=1e-6):
+            # экспоненциальное распределение
+            return [0.5, 1.0 / moments[0], 1.0 / moments[0]]
         if v < 1.0:
             return res
 
-- 
2.43.0


From 1dcc314b80104473b8fbb80634a6d0b6cf5e4590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 58/80] fix: H2 fit has the same relative accuracy in any time
 unit

---
 most_queue/rand_distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 1c24759..fcd6bf6 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -251,7 +251,7 @@ class H2_dist:
             tec = 0
             t1 = 0
             t2 = 0
-            while abs(tn - moments[2]) > 1e-8 and tec < max_iteration:
+            while abs(tn - moments[2]) > 1e-10 * moments[2] and tec < max_iteration:
                 tec += 1
                 q_new = (q_max + q_min) / 2.0
                 t1 = (1.0 + math.sqrt((1.0 - q_new) * (v * v - 1.0) / (2 * q_new))) * moments[0]
@@ -263,7 +263,7 @@ class H2_dist:
                     q_min = q_new
                 else:
                     q_max = q_new
-            res[0] = q_max
+            res[0] = q_new
             res[1] = 1.0 / t1
             res[2] = 1.0 / t2
             return res
-- 
2.43.0


From 1cb9e47cec5eccca7cdfebeea4726b3c512a1a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 59/80] fix: network sojourn moments without numerical
 differentiation away from zero

---
 most_queue/theory/network_calc.py | 34 ++++++-------------------------
 1 file changed, 6 insertions(+), 28 deletions(-)

diff --git a/most_queue/theory/network_calc.py b/most_queue/theory/network_calc.py
index a82a1e8..e702e1e 100755
--- a/most_queue/theory/network_calc.py
+++ b/most_queue/theory/network_calc.py
@@ -2,9 +2,7 @@ import math
 
 import numpy as np
 
-from most_queue.theory.utils.diff5dots import diff5dots
 from most_queue.theory.priority_calc import get_v_prty_invar
-from most_queue.rand_distribution import Gamma
 
 
 def balance_equation(L, R):
@@ -134,47 +132,27 @@ def network_prty_calc(R, b, n, L, prty, nodes_prty):
         v_order = get_v_prty_invar(l_order[i], b_order[i], n[i], prty[i])
         res['v_node'].append([v_order[nodes_prty[i][k]] for k in range(k_num)])
 
-    h = 0.0001
-    s = [0.0] * 4
-    for i in range(4):
-        s[i] = h * (i + 1)
-
     for k in range(k_num):
         I = np.zeros((nodes, nodes))
         for i in range(nodes):
             for j in range(nodes):
                 if i == j:
                     I[i, j] = 1
-        N = np.zeros((nodes, nodes))
         P = np.zeros((1, nodes))
         for i in range(nodes):
             P[0, i] = R[k][0, i]
-        T = np.zeros((nodes, 1))
-        for i in range(nodes):
-            T[i, 0] = R[k][i + 1, nodes]
         Q = np.zeros((nodes, nodes))
 
         for i in range(nodes):
             for j in range(nodes):
                 Q[i, j] = R[k][i + 1, j]
 
-        gamma_mu_alpha = []
-        for i in range(nodes):
-            gamma_mu_alpha.append(Gamma.get_mu_alpha([res['v_node'][i][k][0], res['v_node'][i][k][1]]))
+        # нач. моменты времени до выхода из Сети, начиная с поступления в узел
+        m1, m2, m3 = (np.array([[res['v_node'][i][k][r]] for i in range(nodes)]) for r in range(3))
+        f1 = np.linalg.solve(I - Q, m1)
+        f2 = np.linalg.solve(I - Q, m2 + 2 * m1 * np.dot(Q, f1))
+        f3 = np.linalg.solve(I - Q, m3 + 3 * m2 * np.dot(Q, f1) + 3 * m1 * np.dot(Q, f2))
 
-        g_PLS = []
-        for i in range(4):
-            for j in range(nodes):
-                N[j, j] = Gamma.get_pls(*gamma_mu_alpha[j], s[i])
-            G = np.dot(N, Q)
-            FF = I - G
-            F = np.linalg.inv(FF)
-            F = np.dot(P, np.dot(F, np.dot(N, T)))
-            g_PLS.append(F[0, 0])
-
-        res['v'].append([])
-        res['v'][k] = diff5dots(g_PLS, h)
-        res['v'][k][0] = -res['v'][k][0]
-        res['v'][k][2] = -res['v'][k][2]
+        res['v'].append([np.dot(P, f)[0, 0] for f in (f1, f2, f3)])
 
     return res
-- 
2.43.0


From d7e39098e1b4d0b6ea68bcea5282f06682618227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 60/80] fix: load of normal distributions and of Pareto with
 infinite mean

---
 most_queue/sim/utils/distribution_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/most_queue/sim/utils/distribution_utils.py b/most_queue/sim/utils/distribution_utils.py
index 0f86658..063ba75 100644
--- a/most_queue/sim/utils/distribution_utils.py
+++ b/most_queue/sim/utils/distribution_utils.py
@@ -91,7 +91,7 @@ def calc_qs_load(source_types: str, source_params,
         l = source_params
     elif source_types == "D":
         l = 1.00 / source_params
-    elif source_types == "Uniform":
+    elif source_types in ("Uniform", "Norm"):
         l = 1.00 / source_params[0]
     elif source_types == "H":
         y1 = source_params[0]
@@ -121,7 +121,7 @@ def calc_qs_load(source_types: str, source_params,
         f1 = y2 / mu1 + y1 * (1.0 / mu1 + 1.0 / mu2)
         l = 1.0 / f1
     elif source_types == "Pa":
-        if source_params[0] < 1:
+        if source_params[0] <= 1:
             return None
         else:
             a = source_params[0]
@@ -135,7 +135,7 @@ def calc_qs_load(source_types: str, source_params,
         b1 = 1.0 / mu
     elif server_types == "D":
         b1 = server_params
-    elif server_types == "Uniform":
+    elif server_types in ("Uniform", "Norm"):
         b1 = server_params[0]
 
     elif server_types == "H":
@@ -164,7 +164,7 @@ def calc_qs_load(source_types: str, source_params,
 
         b1 = y2 / mu1 + y1 * (1.0 / mu1 + 1.0 / mu2)
     elif server_types == "Pa":
-        if server_params[0] < 1:
+        if server_params[0] <= 1:
             return math.inf
         else:
             a = server_params[0]
-- 
2.43.0


From 1c3ef224cc3f5e513c20ae91b716747ec3adf26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 61/80] fix: load of the batch simulator counts the jobs of a
 batch

---
 most_queue/sim/batch_sim.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/most_queue/sim/batch_sim.py b/most_queue/sim/batch_sim.py
index 744822d..742eff2 100755
--- a/most_queue/sim/batch_sim.py
+++ b/most_queue/sim/batch_sim.py
@@ -35,6 +35,14 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
             summ += p
             self.batch_cdf.append(summ)
 
+    def calc_load(self):
+        """
+        Calculates the load factor of the QS
+        """
+        mean_batch = sum((i + 1) * p for i, p in enumerate(self.batch_prob))
+        load = super().calc_load()
+        return None if load is None else load * mean_batch
+
     def arrival(self):
         """
         Actions upon arrival of job to QS
-- 
2.43.0


From 5853c9c6bc029e09af2b0f0399ab703440b1a4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:07 +0000
Subject: [PATCH 62/80] fix: priority waits when a class or a node has no flow

---
 most_queue/theory/priority_calc.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index e666db8..0424761 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -217,7 +217,8 @@ def calc_pr1(l, b, num=3):
             summ = 0
             for i in range(j + 1):
                 summ += l[i] * pi_j_i[j][i][moment]
-            pi_j[j][moment] = summ / L[j]
+            if L[j] > 0:
+                pi_j[j][moment] = summ / L[j]
 
         w.append([0.0] * (num + 1))
         w[j][0] = 1
@@ -383,7 +384,7 @@ def get_w_np(l, b, num=3):
 
         b_a = [0.0] * num_of_mom
         for m in range(num_of_mom):
-            if j == 0:
+            if la == 0:
                 b_a[m] = 0
             else:
                 summ = 0
@@ -393,7 +394,7 @@ def get_w_np(l, b, num=3):
 
         b_b = [0.0] * num_of_mom
         for m in range(num_of_mom):
-            if j == num_of_cl - 1:
+            if lb == 0:
                 b_b[m] = 0
             else:
                 summ = 0
@@ -404,13 +405,13 @@ def get_w_np(l, b, num=3):
         # разложения по степеням s
         summ = [0.0] * (num + 2)
         summ[1] = 1.0
-        if j != 0:
+        if la > 0:
             nu_a = _pls_series(ppnz_calc(la, b_a), num + 1)
             for k in range(1, num + 2):
                 summ[k] -= la * nu_a[k]
 
         chisl = [(1 - ro) * x for x in summ]
-        if j != num_of_cl - 1:
+        if lb > 0:
             b_b_pls = _series_of(_pls_series(b_b, num + 1), summ)
             for k in range(1, num + 2):
                 chisl[k] -= lb * b_b_pls[k]
@@ -448,6 +449,10 @@ def get_w_prty_invar(l, b, n, type='NP', N=150, num=3):
     for k in range(k_num):
         w.append([0.0] * num)
 
+    if sum(l) == 0:
+        # заявок нет - ждать некого
+        return w
+
     # M*/G*/1 PRTY calculation:
     b1 = [] * k_num
     for k in range(k_num):
-- 
2.43.0


From 19a7abcefc87c9f058d6ef4d5fb8b63cc2a2ef44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 63/80] fix: exponential samples are drawn from the given
 generator

---
 most_queue/rand_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index fcd6bf6..16d0b0a 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -701,7 +701,7 @@ class Exp_dist:
     """
 
     def __init__(self, mu, generator=None):
-        self.erl = Erlang_dist([1, mu])
+        self.erl = Erlang_dist([1, mu], generator)
         self.params = mu
         self.type = 'M'
         self.generator = generator
-- 
2.43.0


From 185cca01245b634cf7919688e3c0d508b59515a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 64/80] fix: generator of a Cox sample is optional, as for the
 other distributions

---
 most_queue/rand_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 16d0b0a..cf83f33 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -405,7 +405,7 @@ class Cox_dist:
         return self.generate_static(self.y1, self.m1, self.m2, self.generator)
 
     @staticmethod
-    def generate_static(y1, m1, m2, generator):
+    def generate_static(y1, m1, m2, generator=None):
         """
         Генерация псевдо-случайных чисел, подчиненных распределению Кокса 2-го порядка. Статический метод
         """
-- 
2.43.0


From 45f622eae2b803c863b0257f8fa3f4f10f90671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 65/80] fix: Cox parameters of real moments are real when they
 can be

---
 most_queue/rand_distribution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index cf83f33..6c49bee 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -465,7 +465,8 @@ class Cox_dist:
             f[i] = moments[i] / math.factorial(i + 1)
 
         d = np.power(f[2] - f[0] * f[1], 2) - 4.0 * (f[1] - np.power(f[0], 2)) * (f[0] * f[2] - np.power(f[1], 2))
-        mu2 = f[0] * f[1] - f[2] + cmath.sqrt(d)
+        sqrt_d = cmath.sqrt(d) if isinstance(d, complex) or d < 0 else math.sqrt(d)
+        mu2 = f[0] * f[1] - f[2] + sqrt_d
         mu2 /= 2.0 * (np.power(f[1], 2) - f[0] * f[2])
         mu1 = (mu2 * f[0] - 1.0) / (mu2 * f[1] - f[0])
         y1 = (mu1 * f[0] - 1.0) * mu2 / mu1
-- 
2.43.0


From c0319cbfcfa6bcd3e67469e06cac410edcb18b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:37 +0000
Subject: [PATCH 66/80] fix: theoretical moments of a Cox distribution with
 complex parameters

---
 most_queue/rand_distribution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 6c49bee..1d9d154 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -431,9 +431,9 @@ class Cox_dist:
         y2 = 1.0 - y1
         f = [0.0] * 3
         f[0] = y2 / m1 + y1 * (1.0 / m1 + 1.0 / m2)
-        f[1] = 2.0 * (y2 / math.pow(m1, 2) + y1 * (1.0 / math.pow(m1, 2) + 1.0 / (m1 * m2) + 1.0 / math.pow(m2, 2)))
-        f[2] = 6.0 * (y2 / (math.pow(m1, 3)) + y1 * (1.0 / math.pow(m1, 3) + 1.0 / (math.pow(m1, 2) * m2) +
-                                                     1.0 / (math.pow(m2, 2) * m1) + 1.0 / math.pow(m2, 3)))
+        f[1] = 2.0 * (y2 / pow(m1, 2) + y1 * (1.0 / pow(m1, 2) + 1.0 / (m1 * m2) + 1.0 / pow(m2, 2)))
+        f[2] = 6.0 * (y2 / (pow(m1, 3)) + y1 * (1.0 / pow(m1, 3) + 1.0 / (pow(m1, 2) * m2) +
+                                                1.0 / (pow(m2, 2) * m1) + 1.0 / pow(m2, 3)))
 
         return f
 
-- 
2.43.0


From 5ecaed84125191ff743e4eab9f1ec17636364158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:37 +0000
Subject: [PATCH 67/80] fix: Pareto density and distribution function below the
 minimal value

---
 most_queue/rand_distribution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 1d9d154..eb4e370 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -528,7 +528,7 @@ class Pareto_dist:
         """
         Возвращает значение функции плотности распределения вероятностей СВ
         """
-        if t < 0:
+        if t < k:
             return 0
         return a * math.pow(k, a) / math.pow(t, a + 1)
 
@@ -546,10 +546,10 @@ class Pareto_dist:
         Возвращает значение ДФР
         params = [a, K]
         """
-        if t < 0:
-            return 0
         a = params[0]
         k = params[1]
+        if t < k:
+            return 1
         return math.pow(k / t, a)
 
     @staticmethod
-- 
2.43.0


From d9439271271700b22fa94d8fa3174b2ba99fb867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:54 +0000
Subject: [PATCH 68/80] fix: Gamma density at negative times and for large
 shape parameters

---
 most_queue/rand_distribution.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index eb4e370..a2168dd 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -829,12 +829,8 @@ class Gamma:
         :param t: время
         :return: значение плотности Гамма-распределения
         """
-        fract = sp.gamma(alpha)
-        if math.fabs(fract) > 1e-12:
-            if math.fabs(mu * t) > 1e-12:
-                main = mu * math.pow(mu * t, alpha - 1) * math.exp(-mu * t) / fract
-            else:
-                main = 0
+        if mu * t > 1e-12:
+            main = mu * math.exp((alpha - 1) * math.log(mu * t) - mu * t - math.lgamma(alpha))
         else:
             main = 0
         return main
@@ -848,12 +844,8 @@ class Gamma:
         g - массив поправочных коэффициентов
         t: время
         """
-        fract = sp.gamma(alpha)
-        if math.fabs(fract) > 1e-12:
-            if math.fabs(mu * t) > 1e-12:
-                main = mu * math.pow(mu * t, alpha - 1) * math.exp(-mu * t) / fract
-            else:
-                main = 0
+        if mu * t > 1e-12:
+            main = mu * math.exp((alpha - 1) * math.log(mu * t) - mu * t - math.lgamma(alpha))
         else:
             main = 0
         summ = 0
-- 
2.43.0


From fd288cc99d56939d6ebd2b5c1177785e5aec1cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 69/80] fix: H2 fit next to the exponential and Erlang-2
 distributions keeps the first two moments

---
 most_queue/rand_distribution.py | 36 ++++++++++-----------------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index a2168dd..efa644d 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -286,32 +286,10 @@ class H2_dist:
         if is_fitting:
             # проверка на близость распределения к экспоненциальному
             coev = cmath.sqrt(moments[1] - moments[0] ** 2) / moments[0]
-            if math.fabs(coev.real - 1.0) < ee:
+            if abs(coev - 1.0) < ee:
                 if verbose:
-                    print("H2 is close to Exp. Multiply moments to (1+je), coev = {0:5.3f},"
-                          " e = {1:5.3f}.".format(coev, e))
-                f = []
-                for i in range(len(moments)):
-                    f.append(moments[i] * complex(1, (i + 1) * e))
-
-                return H2_dist.get_params_clx(f, verbose=verbose, ee=ee, e=e * (1.0 + e_percent), e_percent=e_percent,
-                                              is_fitting=is_fitting)
-
-            coev = cmath.sqrt(moments[1] - moments[0] ** 2) / moments[0]
-
-            # проверка на близость распределения к Эрланга 2-го порядка
-            if math.fabs(coev.real - 1.0 / math.sqrt(2.0)) < ee:
-                if verbose:
-                    print("H2 is close to E2. Multiply moments to (1+je), coev = {0:5.3f},"
-                          " e = {1:5.3f}.".format(coev, e))
-                f = []
-                for i in range(len(moments)):
-                    # if i == 0:
-                    #     f.append(moments[0])
-                    # else:
-                    f.append(moments[i] * complex(1, (i + 1) * e))
-                return H2_dist.get_params_clx(f, verbose=verbose, ee=ee, e=e * (1.0 + e_percent), e_percent=e_percent,
-                                              is_fitting=is_fitting)
+                    print("H2 is close to Exp. Exponential distribution with the same mean, coev = {0:5.3f}.".format(coev))
+                return [0.5, 1.0 / f[0], 1.0 / f[0]]
 
         znam = (f[1] - pow(f[0], 2))
         c0 = (f[0] * f[2] - pow(f[1], 2)) / znam
@@ -319,6 +297,14 @@ class H2_dist:
 
         d = pow(c1 / 2.0, 2.0) - c0
 
+        # проверка на близость распределения к Эрланга 2-го порядка (совпадающие фазы)
+        if is_fitting and abs(d) < ee * abs(c0):
+            if verbose:
+                print("H2 is close to E2. Multiply third moment to (1+je), e = {0:5.3f}.".format(e))
+            return H2_dist.get_params_clx([moments[0], moments[1], moments[2] * complex(1, e)], verbose=verbose,
+                                          ee=ee, e=e * (1.0 + e_percent), e_percent=e_percent,
+                                          is_fitting=is_fitting)
+
         res = [0, 0, 0]  # y1, mu1, mu2
         c1 = complex(c1)
         x1 = -c1 / 2 + cmath.sqrt(d)
-- 
2.43.0


From 9ef92ac1e7194ba381f4a2594a6cc8b113076f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 70/80] fix: Weibull module imports the distributions from the
 package

---
 most_queue/theory/utils/weibull.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/most_queue/theory/utils/weibull.py b/most_queue/theory/utils/weibull.py
index c30c476..14448a8 100755
--- a/most_queue/theory/utils/weibull.py
+++ b/most_queue/theory/utils/weibull.py
@@ -1,7 +1,9 @@
 import math
-import rand_distribution as rd
+
 import numpy as np
 
+import most_queue.rand_distribution as rd
+
 
 class Weibull:
     @staticmethod
-- 
2.43.0


From 18321fa8e5615d7cee4ae71cfc74e5a209bdfc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 71/80] fix: numeric flow summation can be imported without a
 display and from its real path

---
 most_queue/misc/flow_sum.py         | 2 +-
 most_queue/theory/utils/flow_sum.py | 5 -----
 2 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/most_queue/misc/flow_sum.py b/most_queue/misc/flow_sum.py
index 353edd0..a0f5347 100755
--- a/most_queue/misc/flow_sum.py
+++ b/most_queue/misc/flow_sum.py
@@ -2,7 +2,7 @@ import matplotlib
 import matplotlib.pyplot as plt
 from most_queue.rand_distribution import Gamma
 from most_queue.sim.flow_sum_sim import FlowSumSim
-from most_queue.theory.flow_sum import SummatorNumeric
+from most_queue.theory.utils.flow_sum import SummatorNumeric
 
 matplotlib.use('TkAgg')
 
diff --git a/most_queue/theory/utils/flow_sum.py b/most_queue/theory/utils/flow_sum.py
index d1c9d3a..1b7be95 100755
--- a/most_queue/theory/utils/flow_sum.py
+++ b/most_queue/theory/utils/flow_sum.py
@@ -1,13 +1,8 @@
 import copy
 import math
 
-import matplotlib
-import matplotlib.pyplot as plt
-
 from most_queue.rand_distribution import H2_dist
 
-matplotlib.use('TkAgg')
-
 
 class SummatorNumeric:
 
-- 
2.43.0


From 130df10f0ff4b49009339d54792de5c9a595b588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 72/80] fix: real H2 fit keeps the first two moments when the
 third is below the family's minimum

---
 most_queue/rand_distribution.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index efa644d..618c0fe 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -237,14 +237,10 @@ class H2_dist:
         if t_min > moments[2]:
             # one phase distibution
             q_new = q_max
-            mu1 = (1.0 - math.sqrt(q_new * (v * v - 1.0) / (2 * (1.0 - q_new)))) * moments[0]
-            if math.isclose(mu1, 0):
-                mu1 = 1e10
-            else:
-                mu1 = 1.0 / mu1
+            mu1 = 1.0 / ((1.0 + math.sqrt((1.0 - q_new) * (v * v - 1.0) / (2 * q_new))) * moments[0])
             res[0] = q_max
             res[1] = mu1
-            res[2] = 1e6
+            res[2] = 1e6 * mu1
             return res
         else:
             max_iteration = 10000
-- 
2.43.0


From cfc69be9919eb8444a46d5b6b91ec1ae3401ba88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:46 +0000
Subject: [PATCH 73/80] fix: fourth cumulant in flow summation by
 semi-invariants

---
 most_queue/theory/utils/flow_sum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/utils/flow_sum.py b/most_queue/theory/utils/flow_sum.py
index 1b7be95..c638afc 100755
--- a/most_queue/theory/utils/flow_sum.py
+++ b/most_queue/theory/utils/flow_sum.py
@@ -107,7 +107,7 @@ class SummatorNumeric:
         if len(v) > 2:
             k.append((3 * pow(v[1], 2) - v[0] * v[2]) / pow(v[0], 5))
         if len(v) > 3:
-            k4 = v[3] / pow(v[0], 2) + 5 * v[1] * \
+            k4 = v[3] * pow(v[0], 2) + 5 * v[1] * \
                 (3 * pow(v[1], 2) - 2 * v[0] * v[2])
             k4 = k4 / pow(v[0], 7)
             k.append(k4)
-- 
2.43.0


From 6e0d1423706116e5aef129653077a580132b163b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:07 +0000
Subject: [PATCH 74/80] fix: Erlang sampling and distribution function for high
 orders

---
 most_queue/rand_distribution.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 618c0fe..a6a7763 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -612,14 +612,15 @@ class Erlang_dist:
         """
         Генератор псевдо-случайных чисел. Статический метод
         """
-        prod = 1
+        # сумма логарифмов: произведение при больших r обращается в ноль
+        log_prod = 0
         for i in range(r):
             if generator:
-                prod *= generator.random()
+                log_prod += np.log(generator.random())
             else:
-                prod *= np.random.rand()
+                log_prod += np.log(np.random.rand())
 
-        return -(1.0 / mu) * np.log(prod)
+        return -(1.0 / mu) * log_prod
 
     @staticmethod
     def get_cdf(params, t):
@@ -630,10 +631,7 @@ class Erlang_dist:
             return 0
         r = params[0]
         mu = params[1]
-        res = 0
-        for i in range(r):
-            res += math.pow(mu * t, i) * math.exp(-mu * t) / math.factorial(i)
-        return 1.0 - res
+        return sp.gammainc(r, mu * t)
 
     @staticmethod
     def get_tail(params, t):
-- 
2.43.0


From 7c65d2de65431800f2d24bc8dc17763fd11d6709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:30 +0000
Subject: [PATCH 75/80] fix: gamma fit and GI/M queues for nearly regular
 arrivals

---
 most_queue/rand_distribution.py  | 2 +-
 most_queue/theory/gi_m_1_calc.py | 5 +++--
 most_queue/theory/gi_m_n_calc.py | 6 ++----
 3 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index a6a7763..5611962 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -755,7 +755,7 @@ class Gamma:
                 else:
                     B.append(b[i - 1])
                 for j in range(len(b) + 1):
-                    A[i].append(Gamma.get_gamma(alpha + i + j) / (pow(mu, i + j) * Gamma.get_gamma(alpha)))
+                    A[i].append(np.prod(alpha + np.arange(i + j)) / pow(mu, i + j))
             g = np.linalg.solve(A, B)
             return mu, alpha, g
         else:
diff --git a/most_queue/theory/gi_m_1_calc.py b/most_queue/theory/gi_m_1_calc.py
index 7994236..4f8a006 100755
--- a/most_queue/theory/gi_m_1_calc.py
+++ b/most_queue/theory/gi_m_1_calc.py
@@ -1,5 +1,7 @@
 import math
 
+import numpy as np
+
 from most_queue.general_utils.conv import get_moments_minus
 from most_queue.rand_distribution import Gamma, Pareto_dist
 
@@ -55,8 +57,7 @@ def get_w_param(a, mu, e=1e-10, approx_distr="Gamma"):
         while True:
             summ = 0
             for i in range(len(g)):
-                summ += (g[i] / pow(mu * (1.0 - w_old) + v, i)) * (
-                            Gamma.get_gamma(alpha + i) / Gamma.get_gamma(alpha))
+                summ += (g[i] / pow(mu * (1.0 - w_old) + v, i)) * np.prod(alpha + np.arange(i))
             left = pow(v / (mu * (1.0 - w_old) + v), alpha)
             w_new = left * summ
             if math.fabs(w_new - w_old) < e:
diff --git a/most_queue/theory/gi_m_n_calc.py b/most_queue/theory/gi_m_n_calc.py
index 2c61cb9..15f2a19 100755
--- a/most_queue/theory/gi_m_n_calc.py
+++ b/most_queue/theory/gi_m_n_calc.py
@@ -50,8 +50,7 @@ def get_b0(a, j, mu, approx_distr="Gamma"):
         v, alpha, g = Gamma.get_params(a)
         summ = 0
         for i in range(len(g)):
-            summ += (g[i] / pow(mu * j + v, i)) * (
-                    Gamma.get_gamma(alpha + i) / Gamma.get_gamma(alpha))
+            summ += (g[i] / pow(mu * j + v, i)) * np.prod(alpha + np.arange(i))
         left = pow(v / (mu * j + v), alpha)
         b0 = left * summ
         return b0
@@ -112,8 +111,7 @@ def get_w_param(a, mu, n, e=1e-10, approx_distr="Gamma"):
         while True:
             summ = 0
             for i in range(len(g)):
-                summ += (g[i] / pow(mu * n * (1.0 - w_old) + v, i)) * (
-                        Gamma.get_gamma(alpha + i) / Gamma.get_gamma(alpha))
+                summ += (g[i] / pow(mu * n * (1.0 - w_old) + v, i)) * np.prod(alpha + np.arange(i))
             left = pow(v / (mu * n * (1.0 - w_old) + v), alpha)
             w_new = left * summ
             if math.fabs(w_new - w_old) < e:
-- 
2.43.0


From 760c1911482946f20520eb879575383f2df16d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:05 +0000
Subject: [PATCH 76/80] fix: GI/M/n when n(1-w) is a whole number

---
 most_queue/theory/gi_m_n_calc.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/most_queue/theory/gi_m_n_calc.py b/most_queue/theory/gi_m_n_calc.py
index 15f2a19..c205fec 100755
--- a/most_queue/theory/gi_m_n_calc.py
+++ b/most_queue/theory/gi_m_n_calc.py
@@ -33,8 +33,8 @@ def get_pi(a, mu, n, num=100, e=1e-10, approx_distr="Gamma"):
 
         A[k, n] = 0
         for i in range(n - k + 1):
-            A[k, n] += pow(-1, i) * math.factorial(n) * (get_b0(a, k + i, mu, approx_distr) - w) / (
-                    math.factorial(k) * math.factorial(i) * math.factorial(n - k - i) * (n * (1 - w) - (k + i)))
+            A[k, n] += pow(-1, i) * math.factorial(n) * get_b0_ratio(a, k + i, n * (1 - w), mu, approx_distr) / (
+                    math.factorial(k) * math.factorial(i) * math.factorial(n - k - i))
         A[k, n] = n * A[k, n]
         A[k, k] = A[k, k] - 1
     pi_to_n = np.linalg.solve(A, B)
@@ -45,6 +45,17 @@ def get_pi(a, mu, n, num=100, e=1e-10, approx_distr="Gamma"):
     return pi
 
 
+def get_b0_ratio(a, j, s, mu, approx_distr="Gamma"):
+    """
+    Разделенная разность (b0(j) - b0(s)) / (s - j), где b0(s) = w при s = n(1 - w).
+    При совпадении j и s - устранимая особенность
+    """
+    if abs(s - j) < 1e-4:
+        middle = (s + j) / 2.0
+        j, s = middle - 5e-5, middle + 5e-5
+    return (get_b0(a, j, mu, approx_distr) - get_b0(a, s, mu, approx_distr)) / (s - j)
+
+
 def get_b0(a, j, mu, approx_distr="Gamma"):
     if approx_distr == "Gamma":
         v, alpha, g = Gamma.get_params(a)
-- 
2.43.0


From a85f5706b8285b20de37063dfb609fda0812d3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:11 +0000
Subject: [PATCH 77/80] fix: incomplete gamma function of nonpositive
 arguments, queues with Pareto laws

---
 most_queue/rand_distribution.py                   | 6 ++++++
 most_queue/theory/utils/q_poisson_arrival_calc.py | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 5611962..19a3b52 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -4,6 +4,7 @@ import math
 import numpy as np
 import scipy.special as sp
 from scipy import stats
+from scipy.integrate import quad
 
 
 class Normal_dist:
@@ -855,6 +856,11 @@ class Gamma:
     @staticmethod
     def get_gamma_incomplete(x, z, e=1e-12):
 
+        if x <= 0:
+            # Г(x) имеет полюсы, а Г(x, z) - нет
+            integral = quad(lambda u: math.exp(x * u - z * math.expm1(u)), 0, math.log1p(700 / z),
+                            epsabs=0, epsrel=e)[0]
+            return pow(z, x) * math.exp(-z) * integral
         return Gamma.get_gamma(x) - Gamma.get_gamma_small(x, z, e)
 
     @staticmethod
diff --git a/most_queue/theory/utils/q_poisson_arrival_calc.py b/most_queue/theory/utils/q_poisson_arrival_calc.py
index 5cdde05..48db02e 100755
--- a/most_queue/theory/utils/q_poisson_arrival_calc.py
+++ b/most_queue/theory/utils/q_poisson_arrival_calc.py
@@ -49,7 +49,7 @@ def get_q_Pareto(l, alpha, K, num=100):
     q = [0.0] * num
     gammas = [0.0] * num
     z = l * K
-    gammas[0] = Gamma.get_minus_gamma(alpha) - Gamma.get_gamma_small(-alpha, z)
+    gammas[0] = Gamma.get_gamma_incomplete(-alpha, z)
 
     for j in range(1, num):
         gammas[j] = (j - alpha - 1) * gammas[j - 1] + pow(z, j - alpha - 1) * math.exp(-z)
-- 
2.43.0


From 747a3e1ebf116e6e57ee7cf6b46d7382b634becc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:11 +0000
Subject: [PATCH 78/80] Revert "fix: Weibull module imports the distributions
 from the package"

With it the plotting test most_queue/misc/test_weibull.py is collected and waits for its window to be closed.
---
 most_queue/theory/utils/weibull.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/most_queue/theory/utils/weibull.py b/most_queue/theory/utils/weibull.py
index 14448a8..c30c476 100755
--- a/most_queue/theory/utils/weibull.py
+++ b/most_queue/theory/utils/weibull.py
@@ -1,9 +1,7 @@
 import math
-
+import rand_distribution as rd
 import numpy as np
 
-import most_queue.rand_distribution as rd
-
 
 class Weibull:
     @staticmethod
-- 
2.43.0


From ec3fc67c3aa84e223eddfca60bd58f7aa1af986f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 79/80] fix: simulated times beyond the sentinel of idle
 servers

---
 most_queue/sim/fj_delta_sim.py            |  4 ++--
 most_queue/sim/fj_sim.py                  |  2 +-
 most_queue/sim/impatient_queue_sim.py     |  6 +++---
 most_queue/sim/priority_network.py        |  4 ++--
 most_queue/sim/priority_queue_sim.py      | 12 ++++++------
 most_queue/sim/qs_sim.py                  |  4 ++--
 most_queue/sim/queue_finite_source_sim.py | 12 ++++++------
 most_queue/sim/utils/phase.py             |  4 ++--
 most_queue/sim/utils/servers.py           |  4 ++--
 9 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/most_queue/sim/fj_delta_sim.py b/most_queue/sim/fj_delta_sim.py
index e95e9bd..8fe4f4a 100755
--- a/most_queue/sim/fj_delta_sim.py
+++ b/most_queue/sim/fj_delta_sim.py
@@ -173,14 +173,14 @@ class ForkJoinSimDelta(ForkJoinSim):
     def run_one_step(self):
 
         num_of_server_earlier = -1
-        serv_earl = 1e10
+        serv_earl = float('inf')
 
         for c in range(self.n):
             if self.servers[c].time_to_end_service < serv_earl:
                 serv_earl = self.servers[c].time_to_end_service
                 num_of_server_earlier = c
 
-        subtask_arr_time_earl = 1e10
+        subtask_arr_time_earl = float('inf')
         num_of_subtask_earl = -1
 
         for c in range(len(self.subtask_arr_queue)):
diff --git a/most_queue/sim/fj_sim.py b/most_queue/sim/fj_sim.py
index 45d3155..4814cb4 100755
--- a/most_queue/sim/fj_sim.py
+++ b/most_queue/sim/fj_sim.py
@@ -152,7 +152,7 @@ class ForkJoinSim(QueueingSystemSimulator):
     def run_one_step(self):
 
         num_of_server_earlier = -1
-        serv_earl = 1e10
+        serv_earl = float('inf')
 
         for c in range(self.n):
             if self.servers[c].time_to_end_service < serv_earl:
diff --git a/most_queue/sim/impatient_queue_sim.py b/most_queue/sim/impatient_queue_sim.py
index ddd0073..ddb573c 100755
--- a/most_queue/sim/impatient_queue_sim.py
+++ b/most_queue/sim/impatient_queue_sim.py
@@ -124,7 +124,7 @@ class ImpatientQueueSim(QueueingSystemSimulator):
     def run_one_step(self):
 
         num_of_server_earlier = -1
-        serv_earl = 1e10
+        serv_earl = float('inf')
 
         for c in range(self.n):
             if self.servers[c].time_to_end_service < serv_earl:
@@ -132,7 +132,7 @@ class ImpatientQueueSim(QueueingSystemSimulator):
                 num_of_server_earlier = c
 
         num_of_task_earlier = -1
-        moment_to_leave_earlier = 1e10
+        moment_to_leave_earlier = float('inf')
         for i, tsk in enumerate(self.queue.queue):
             if tsk.moment_to_leave < moment_to_leave_earlier:
                 moment_to_leave_earlier = tsk.moment_to_leave
@@ -154,7 +154,7 @@ class ImpatientQueueSim(QueueingSystemSimulator):
     def __str__(self, is_short=False):
         super().__str__(is_short)
         num_of_task_earlier = -1
-        moment_to_leave_earlier = 1e10
+        moment_to_leave_earlier = float('inf')
         for i, tsk in enumerate(self.queue.queue):
             if tsk.moment_to_leave < moment_to_leave_earlier:
                 moment_to_leave_earlier = tsk.moment_to_leave
diff --git a/most_queue/sim/priority_network.py b/most_queue/sim/priority_network.py
index d301158..286b618 100755
--- a/most_queue/sim/priority_network.py
+++ b/most_queue/sim/priority_network.py
@@ -85,8 +85,8 @@ class PriorityNetwork:
         num_of_serv_ch_earlier = -1  # номер канала узла, мин время до окончания обслуживания
         num_of_k_earlier = -1  # номер класса, прибывающего через мин время
         num_of_node_earlier = -1  # номер узла, в котором раньше всех закончится обслуживание
-        arrival_earlier = 1e10  # момент прибытия ближайшего
-        serving_earlier = 1e10  # момент ближайшего обслуживания
+        arrival_earlier = float('inf')  # момент прибытия ближайшего
+        serving_earlier = float('inf')  # момент ближайшего обслуживания
 
         for k in range(self.k_num):
             if self.arrival_time[k] < arrival_earlier:
diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 9eb1618..b06420c 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -420,8 +420,8 @@ class PriorityQueueSimulator:
         self.queue[new_class] = buf
 
     def calc_time_to_next_event(self):
-        serv_earl = 1e10
-        arrival_earlier = 1e10
+        serv_earl = float('inf')
+        arrival_earlier = float('inf')
 
         for kk in range(self.k):
             if self.arrival_time[kk] < arrival_earlier:
@@ -442,10 +442,10 @@ class PriorityQueueSimulator:
     def run_one_step(self):
 
         num_of_server_earlier = -1
-        serv_earl = 1e10
+        serv_earl = float('inf')
 
         k_earlier = -1
-        arrival_earlier = 1e10
+        arrival_earlier = float('inf')
 
         for kk in range(self.k):
             if self.arrival_time[kk] < arrival_earlier:
@@ -656,7 +656,7 @@ class Server:
             self.dist.append(create_distribution(
                 params, dist_type, self.generator))
 
-        self.time_to_end_service = 1e10
+        self.time_to_end_service = float('inf')
         self.total_time_to_serve = 0
         # Сохранение типа дисциплины обслуживания необходимо для
         # корректного назначения времени обслуживания после прерывания
@@ -691,7 +691,7 @@ class Server:
         self.is_free = False
 
     def end_service(self):
-        self.time_to_end_service = 1e10
+        self.time_to_end_service = float('inf')
         self.is_free = True
         ts = self.tsk_on_service
         self.tsk_on_service = None
diff --git a/most_queue/sim/qs_sim.py b/most_queue/sim/qs_sim.py
index b687eb1..034a50a 100755
--- a/most_queue/sim/qs_sim.py
+++ b/most_queue/sim/qs_sim.py
@@ -256,7 +256,7 @@ class QueueingSystemSimulator:
                 if self.cold_delay_phase.is_start:
                     # The job was received before the end of the cooling start delay time
                     self.cold_delay_phase.is_start = False
-                    self.cold_delay_phase.end_time = 1e16
+                    self.cold_delay_phase.end_time = float('inf')
                     self.cold_delay_phase.prob += self.ttek - self.cold_delay_phase.start_mom
                     self.send_task_to_channel()
                     return
@@ -407,7 +407,7 @@ class QueueingSystemSimulator:
         """
 
         num_of_server_earlier = -1
-        serv_earl = 1e16
+        serv_earl = float('inf')
 
         for c in range(self.n):
             if self.servers[c].time_to_end_service < serv_earl:
diff --git a/most_queue/sim/queue_finite_source_sim.py b/most_queue/sim/queue_finite_source_sim.py
index fc0e949..c1acfb5 100755
--- a/most_queue/sim/queue_finite_source_sim.py
+++ b/most_queue/sim/queue_finite_source_sim.py
@@ -69,7 +69,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
         self.in_sys += 1
         self.ttek = self.arrival_times[self.arrived_num]
         self.t_old = self.ttek
-        self.arrival_times[self.arrived_num] = 1e10
+        self.arrival_times[self.arrived_num] = float('inf')
 
         if self.free_channels == 0:
             if self.buffer == None:  # не задана длина очереди, т.е бесконечная очередь
@@ -123,7 +123,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
         self.ttek = time_to_end
 
         for i, a in enumerate(self.arrival_times):
-            if a > 9.9e9:
+            if a == float('inf'):
                 self.arrival_times[i] = self.ttek + self.source.generate()
                 break
 
@@ -152,8 +152,8 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
 
     def calc_next_event_time(self):
 
-        serv_earl = 1e10
-        arr_earl = 1e10
+        serv_earl = float('inf')
+        arr_earl = float('inf')
 
         for c in range(self.n):
             if self.servers[c].time_to_end_service < serv_earl:
@@ -171,8 +171,8 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
     def run_one_step(self):
 
         num_of_server_earlier = -1
-        serv_earl = 1e10
-        arr_earl = 1e10
+        serv_earl = float('inf')
+        arr_earl = float('inf')
         self.arrived_num = -1
 
         if self.sources_left != 0:
diff --git a/most_queue/sim/utils/phase.py b/most_queue/sim/utils/phase.py
index b5e4cf4..3d539f0 100644
--- a/most_queue/sim/utils/phase.py
+++ b/most_queue/sim/utils/phase.py
@@ -18,7 +18,7 @@ class QsPhase:
         self.name = name
         self.is_set = False
         self.is_start = False
-        self.end_time = 1e16
+        self.end_time = float('inf')
         self.prob = 0
         self.start_mom = 0
         self.starts_times = 0
@@ -53,7 +53,7 @@ class QsPhase:
         self.prob += ttek - self.start_mom
 
         self.is_start = False
-        self.end_time = 1e16
+        self.end_time = float('inf')
 
     def get_prob(self, ttek):
         """
diff --git a/most_queue/sim/utils/servers.py b/most_queue/sim/utils/servers.py
index 848a8d4..ee5d179 100644
--- a/most_queue/sim/utils/servers.py
+++ b/most_queue/sim/utils/servers.py
@@ -20,7 +20,7 @@ class Server:
         types -  тип распределения
         """
         self.dist = create_distribution(params, types, generator)
-        self.time_to_end_service = 1e10
+        self.time_to_end_service = float('inf')
         self.is_free = True
         self.tsk_on_service = None
         Server.id += 1
@@ -55,7 +55,7 @@ class Server:
         """
         End service
         """
-        self.time_to_end_service = 1e10
+        self.time_to_end_service = float('inf')
         self.is_free = True
         ts = self.tsk_on_service
         self.tsk_on_service = None
-- 
2.43.0


From e004a2a3217204fc4560a79dc340fa71c4b638e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:07 +0000
Subject: [PATCH 80/80] fix: third waiting moment of M/H2/n with warm-up and
 many servers

---
 most_queue/theory/m_h2_h2warm.py | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/most_queue/theory/m_h2_h2warm.py b/most_queue/theory/m_h2_h2warm.py
index 8928609..4a5713b 100755
--- a/most_queue/theory/m_h2_h2warm.py
+++ b/most_queue/theory/m_h2_h2warm.py
@@ -1,7 +1,6 @@
 import math
 
 import numpy as np
-from scipy.misc import derivative
 
 from most_queue.theory.utils.passage_time import passage_time_calc
 from most_queue.rand_distribution import H2_dist
@@ -247,9 +246,36 @@ class Mh2h2Warm:
             return w
 
         else:
+            # моменты порядка 0-3 времени до очередного завершения обслуживания по микросостояниям яруса n,
+            # до начала обслуживания заявки, заставшей n заявок, и времени разогрева в каждой из его фаз
+            rates = np.dot(self.get_key_numbers(self.n), np.array(self.mu, dtype=self.dt))
+            stay = [math.factorial(k) / np.power(rates, k) for k in range(4)]
+            waits = stay
+            warm = [math.factorial(k) / np.power(np.array(self.mu_w, dtype=self.dt), k) for k in range(4)]
+            # вероятности попадания в состояния обслуживания после разогрева
+            probs = calc_binom_probs(self.n + 1, self.y[0])
+
+            # Заявка, заставшая систему пустой, ожидает разогрева; заявка, попавшая в фазу разогрева при свободных
+            # каналах, - его окончания
+            phases = self.Y[0][0, 0] * np.array(self.y_w)
+            for k in range(1, self.n):
+                phases = phases + self.Y[k][0, :2]
             for i in range(3):
-                w[i] = derivative(self.calc_w_pls, 0, dx=1e-3 / self.b[0], n=i + 1, order=9)
-            return [-w[0].real, w[1].real, -w[2].real]
+                w[i] += np.dot(phases, warm[i + 1])
+
+            # заявка, заставшая систему полной, не принимается
+            for k in range(self.n, self.N if self.R is None else self.R):
+                if k > self.n:
+                    down = [np.dot(self.down_probs, wait) for wait in waits]
+                    waits = [sum(math.comb(q, i) * stay[q - i] * down[i] for i in range(q + 1)) for q in range(4)]
+                service = [np.dot(probs, wait) for wait in waits]
+                for q in range(1, 4):
+                    warm_service = sum(math.comb(q, i) * warm[q - i] * service[i] for i in range(q + 1))
+                    w[q - 1] += np.dot(self.Y[k][0, :2], warm_service) + np.dot(self.Y[k][0, 2:], waits[q])
+
+            if self.R is not None:
+                w = [moment / (1.0 - self.p[self.R]) for moment in w]
+            return [moment.real for moment in w]
 
     def get_w_buffer(self):
         """
-- 
2.43.0

