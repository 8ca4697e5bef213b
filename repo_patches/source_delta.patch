From 0a046e6019e5192d7f50d16b577b26c560bcacad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:58 +0000
Subject: [PATCH 01/74] fix: busy period start was reset at every start of
 service from the queue

---
 most_queue/sim/qs_sim.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/most_queue/sim/qs_sim.py b/most_queue/sim/qs_sim.py
index 12e3f1c..9b30329 100755
--- a/most_queue/sim/qs_sim.py
+++ b/most_queue/sim/qs_sim.py
@@ -332,9 +332,6 @@ class QueueingSystemSimulator:
         """
         que_ts = self.queue.pop()
 
-        if self.free_channels == 1:
-            self.start_ppnz = self.ttek
-
         self.taked += 1
         que_ts.wait_time += self.ttek - que_ts.start_waiting_time
         self.refresh_w_stat(que_ts.wait_time)
@@ -359,6 +356,10 @@ class QueueingSystemSimulator:
             if self.queue.size() != 0:
                 self.send_head_of_queue_to_channel(i)
 
+        if self.free_channels == 0:
+            # busy period starts
+            self.start_ppnz = self.ttek
+
     def on_end_cold(self):
         """
         Job that has to be done after Cold Period Ends
@@ -382,6 +383,10 @@ class QueueingSystemSimulator:
                 if self.queue.size() != 0:
                     self.send_head_of_queue_to_channel(i)
 
+            if self.free_channels == 0:
+                # busy period starts
+                self.start_ppnz = self.ttek
+
     def on_end_cold_delay(self):
         """
         Job that has to be done after Cold Delay Period Ends
-- 
2.43.0


From 709a577373ef7ccd54a03a617a32fa80b60d2752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:13 +0000
Subject: [PATCH 02/74] fix: give channels the warm-up distribution, models
 with per-channel warm-up failed on the first arrival

---
 most_queue/sim/qs_sim.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/most_queue/sim/qs_sim.py b/most_queue/sim/qs_sim.py
index 9b30329..c5df51f 100755
--- a/most_queue/sim/qs_sim.py
+++ b/most_queue/sim/qs_sim.py
@@ -129,6 +129,8 @@ class QueueingSystemSimulator:
         """
         dist = create_distribution(params, kendall_notation, self.generator)
         self.warm_phase.set_dist(dist)
+        for s in self.servers:
+            s.warm_phase.set_dist(dist)
 
     def set_cold(self, params, kendall_notation):
         """
@@ -177,6 +179,9 @@ class QueueingSystemSimulator:
 
         self.servers = [Server(self.server_params, self.server_types,
                                generator=self.generator) for i in range(self.n)]
+        if self.warm_phase.is_set:
+            for s in self.servers:
+                s.warm_phase.set_dist(self.warm_phase.dist)
 
     def calc_load(self):
         """
-- 
2.43.0


From 429098df1c564a3340f17bd8916b5f891f5f770b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:13 +0000
Subject: [PATCH 03/74] fix: batch arrivals: state probabilities, zero waits
 and finite buffer were accounted wrongly

---
 most_queue/sim/batch_sim.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/most_queue/sim/batch_sim.py b/most_queue/sim/batch_sim.py
index ff7ceb4..8a8d152 100755
--- a/most_queue/sim/batch_sim.py
+++ b/most_queue/sim/batch_sim.py
@@ -47,6 +47,8 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
                 batch_size = i + 1
                 break
 
+        self.p[self.in_sys] += self.arrival_time - self.t_old
+
         self.ttek = self.arrival_time
         self.t_old = self.ttek
 
@@ -54,7 +56,6 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
 
         for tsk in range(batch_size):
             self.arrived += 1
-            self.p[self.in_sys] += self.arrival_time - self.t_old
 
             self.in_sys += 1
 
@@ -64,7 +65,7 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
                     new_tsk.start_waiting_time = self.ttek
                     self.queue.append(new_tsk)
                 else:
-                    if len(self.queue) < self.buffer:
+                    if self.queue.size() < self.buffer:
                         new_tsk = Task(self.ttek)
                         new_tsk.start_waiting_time = self.ttek
                         self.queue.append(new_tsk)
@@ -82,6 +83,8 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
                 for s in self.servers:
                     if s.is_free:
                         self.taked += 1
+                        self.refresh_w_stat(0)
+                        self.zero_wait_arrivals_num += 1
                         s.start_service(Task(self.ttek),
                                         self.ttek, is_warm_start)
                         self.free_channels -= 1
-- 
2.43.0


From 4e9872b13bf7b7c75ae83e153f600704a4704082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:13 +0000
Subject: [PATCH 04/74] fix: impatience: state probabilities ignored leaving
 jobs, waiting moments ignored zero waits

---
 most_queue/sim/impatient_queue_sim.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/most_queue/sim/impatient_queue_sim.py b/most_queue/sim/impatient_queue_sim.py
index a92bc61..84053e6 100755
--- a/most_queue/sim/impatient_queue_sim.py
+++ b/most_queue/sim/impatient_queue_sim.py
@@ -80,6 +80,8 @@ class ImpatientQueueSim(QueueingSystemSimulator):
             for s in self.servers:
                 if s.is_free:
                     self.taked += 1
+                    self.refresh_w_stat(0)
+                    self.zero_wait_arrivals_num += 1
                     s.start_service(ImpatientTask(
                         self.ttek, moment_to_leave), self.ttek, is_warm_start)
                     self.free_channels -= 1
@@ -91,7 +93,9 @@ class ImpatientQueueSim(QueueingSystemSimulator):
                     break
 
     def drop_task(self, num_of_task_in_queue, moment_to_leave_earlier):
+        self.p[self.in_sys] += moment_to_leave_earlier - self.t_old
         self.ttek = moment_to_leave_earlier
+        self.t_old = self.ttek
         new_queue = []
         for i, tsk in enumerate(self.queue.queue):
             if i != num_of_task_in_queue:
@@ -103,6 +107,7 @@ class ImpatientQueueSim(QueueingSystemSimulator):
         self.in_sys -= 1
         self.dropped += 1
         self.served += 1
+        self.taked += 1
         self.refresh_v_stat(self.ttek - end_ts.arr_time)
         end_ts.wait_time = self.ttek - end_ts.arr_time
         self.refresh_w_stat(end_ts.wait_time)
-- 
2.43.0


From f729adacedfbe55273ce5bfd5c15521745991489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:13 +0000
Subject: [PATCH 05/74] fix: finite-source simulator failed on the first
 arrival and lost the source of a lost job

---
 most_queue/sim/queue_finite_source_sim.py | 27 +++++++++--------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/most_queue/sim/queue_finite_source_sim.py b/most_queue/sim/queue_finite_source_sim.py
index 5fa2e16..4e30a96 100755
--- a/most_queue/sim/queue_finite_source_sim.py
+++ b/most_queue/sim/queue_finite_source_sim.py
@@ -77,24 +77,29 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
                 new_tsk.start_waiting_time = self.ttek
                 self.queue.append(new_tsk)
             else:
-                if len(self.queue) < self.buffer:
+                if self.queue.size() < self.buffer:
                     new_tsk = Task(self.ttek)
                     new_tsk.start_waiting_time = self.ttek
                     self.queue.append(new_tsk)
                 else:
                     self.dropped += 1
                     self.in_sys -= 1
+                    # the lost job returns to its source
+                    self.sources_left += 1
+                    self.arrival_times[self.arrived_num] = self.ttek + self.source.generate()
 
         else:  # there are free channels:
 
             # check if its a warm phase:
             is_warm_start = False
-            if len(self.queue) == 0 and self.free_channels == self.n and self.warm_phase.is_set:
+            if self.queue.size() == 0 and self.free_channels == self.n and self.warm_phase.is_set:
                 is_warm_start = True
 
             for s in self.servers:
                 if s.is_free:
                     self.taked += 1
+                    self.refresh_w_stat(0)
+                    self.zero_wait_arrivals_num += 1
                     s.start_service(Task(self.ttek), self.ttek, is_warm_start)
                     self.free_channels -= 1
 
@@ -128,26 +133,16 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
         self.total += 1
         self.free_channels += 1
         self.refresh_v_stat(self.ttek - end_ts.arr_time)
-        self.refresh_w_stat(end_ts.wait_time)
         self.in_sys -= 1
 
-        if len(self.queue) == 0 and self.free_channels == 1:
+        if self.queue.size() == 0 and self.free_channels == 1:
             if self.in_sys == self.n - 1:
                 # Конец ПНЗ
                 self.ppnz_moments += 1
                 self.refresh_ppnz_stat(self.ttek - self.start_ppnz)
 
-        if len(self.queue) != 0:
-
-            que_ts = self.queue.pop()
-
-            if self.free_channels == 1:
-                self.start_ppnz = self.ttek
-
-            self.taked += 1
-            que_ts.wait_time += self.ttek - que_ts.start_waiting_time
-            self.servers[c].start_service(que_ts, self.ttek)
-            self.free_channels -= 1
+        if self.queue.size() != 0:
+            self.send_head_of_queue_to_channel(c)
 
     def calc_next_event_time(self):
 
@@ -227,7 +222,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
         if not is_short:
             res += "Stationary prob:\n"
             res += "\t"
-            for i in range(10):
+            for i in range(min(10, len(self.p))):
                 res += "{0:6.5f}".format(self.p[i] / self.ttek) + "   "
             res += "\n"
             res += "Arrived: " + str(self.arrived) + "\n"
-- 
2.43.0


From c9256ff2eec07028b913fd3a8e36bca8ef3bdf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:36 +0000
Subject: [PATCH 06/74] fix: priority simulator without priorities failed at
 the first service completion with a queue

---
 most_queue/sim/priority_queue_sim.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 3ded2e1..dd1005a 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -441,7 +441,8 @@ class PriorityQueueSimulator:
         self.refresh_w_stat(k, end_ts.wait_time)
         self.in_sys[k] -= 1
 
-        if len(self.queue[k]) == 0 and self.free_channels == 1:
+        queue = self.queue if self.prty_type == "No" else self.queue[k]
+        if len(queue) == 0 and self.free_channels == 1:
             if self.in_sys[k] == self.n - 1 and self.class_ppnz_started != -1:
                 # Конец ПНЗ
                 self.ppnz_moments[k] += 1
@@ -479,14 +480,18 @@ class PriorityQueueSimulator:
             if len(self.queue) != 0:
 
                 que_ts = self.queue.pop(0)
+                kk = que_ts.in_node_class_num if is_network else que_ts.k
 
-                if self.free_channels == 1 and k != end_ts.k:
-                    self.start_ppnz[k] = self.ttek
-                    self.class_ppnz_started = k
+                if self.free_channels == 1 and kk != k:
+                    self.start_ppnz = self.ttek
+                    self.class_ppnz_started = kk
 
-                self.taked[k] += 1
+                self.taked[kk] += 1
                 que_ts.wait_time += self.ttek - que_ts.start_waiting_time
-                self.servers[c].start_service(que_ts, self.ttek)
+                if is_network:
+                    que_ts.wait_network += self.ttek - que_ts.start_waiting_time
+                self.servers[c].start_service(
+                    que_ts, self.ttek, is_network=is_network)
                 self.free_channels -= 1
         if is_network:
             return end_ts
@@ -668,10 +673,11 @@ class PriorityQueueSimulator:
                 res += "Server " + str(c + 1) + ": Free\n"
             else:
                 res += str(self.servers[c]) + "\n"
-                for kk in range(self.k):
+                queues = [self.queue] if self.prty_type == "No" else self.queue
+                for kk in range(len(queues)):
                     res += "Queue # " + \
                         str(kk + 1) + " count " + \
-                        str(len(self.queue[kk])) + "\n"
+                        str(len(queues[kk])) + "\n"
 
         return res
 
-- 
2.43.0


From 4b6625d218092779af1e56dcb1c722876b88ade5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:36 +0000
Subject: [PATCH 07/74] fix: priority simulator ignored a zero buffer, and any
 buffer with the non-preemptive priority

---
 most_queue/sim/priority_queue_sim.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index dd1005a..b487888 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -310,7 +310,7 @@ class PriorityQueueSimulator:
 
             if self.prty_type == 'No':
 
-                if not self.buffer:  # не задана длина очередиб т.е бесконечная очередь
+                if self.buffer is None:  # не задана длина очередиб т.е бесконечная очередь
                     new_tsk.start_waiting_time = self.ttek
                     self.queue.append(new_tsk)
                 else:
@@ -370,7 +370,7 @@ class PriorityQueueSimulator:
 
                             break
                     if not is_found_weekier:
-                        if not self.buffer:  # не задана длина очередиб т.е бесконечная очередь
+                        if self.buffer is None:  # не задана длина очередиб т.е бесконечная очередь
                             new_tsk.start_waiting_time = self.ttek
                             self.queue[k].append(new_tsk)
                         else:
@@ -387,8 +387,12 @@ class PriorityQueueSimulator:
 
             elif self.prty_type == "NP":
                 if self.free_channels == 0:
-                    new_tsk.start_waiting_time = self.ttek
-                    self.queue[k].append(new_tsk)
+                    if self.buffer is None or sum(len(q) for q in self.queue) < self.buffer:
+                        new_tsk.start_waiting_time = self.ttek
+                        self.queue[k].append(new_tsk)
+                    else:
+                        self.dropped[k] += 1
+                        self.in_sys[k] -= 1
 
         else:  # there are free channels:
             if self.free_channels == self.n and self.is_warm_up_set == True:
-- 
2.43.0


From 2dbb042423290c376704062d8558803d37e8abc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:36 +0000
Subject: [PATCH 08/74] fix: a high-priority job displaced the first junior job
 found, leaving a lower class in service while a higher one waits

---
 most_queue/sim/priority_queue_sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index b487888..84f7c01 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -327,7 +327,8 @@ class PriorityQueueSimulator:
                 if self.free_channels == 0:
                     # смотрим, есть ли на обслуживании заявки младшего класса
                     is_found_weekier = False
-                    for c in self.servers:
+                    # первой вытесняется заявка самого младшего класса
+                    for c in sorted(self.servers, key=lambda s: s.class_on_service, reverse=True):
                         if moment:
                             class_on_service = c.tsk_on_service.in_node_class_num
                         else:
-- 
2.43.0


From 33032e440b87497d3d74acfeff6be14619fd83ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:36 +0000
Subject: [PATCH 09/74] fix: RS discipline resampled the displaced job from the
 distribution of the displacing class

---
 most_queue/sim/priority_queue_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 84f7c01..bf7606c 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -354,7 +354,7 @@ class PriorityQueueSimulator:
                             if self.prty_type == 'PR':
                                 dropped_tsk.time_to_end_service = time_to_end - self.ttek
                             elif self.prty_type == "RS":
-                                dropped_tsk.time_to_end_service = c.dist[k].generate(
+                                dropped_tsk.time_to_end_service = c.dist[class_on_service].generate(
                                 )
                             elif self.prty_type == "RW":
                                 dropped_tsk.time_to_end_service = total_time
-- 
2.43.0


From e0c0ab2771c15103bdd1d185ce2d6c755d641dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:36 +0000
Subject: [PATCH 10/74] fix: RW discipline gave a job no service time after its
 second displacement

---
 most_queue/sim/priority_queue_sim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index bf7606c..0f93df7 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -767,6 +767,7 @@ class Server:
             self.tsk_on_service.time_to_end_service = self.time_to_end_service
         else:
             if ts.is_pr:
+                self.total_time_to_serve = ts.time_to_end_service
                 self.time_to_end_service = ttek + ts.time_to_end_service
                 self.tsk_on_service.time_to_end_service = self.time_to_end_service
             else:
-- 
2.43.0


From 2114d56ad96c6129386b53ba96dfb8aefbf0c07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:02 +0000
Subject: [PATCH 11/74] fix: a displaced job went to the end of its class
 queue, behind jobs that arrived after it

---
 most_queue/sim/priority_queue_sim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 0f93df7..4383c73 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -361,12 +361,12 @@ class PriorityQueueSimulator:
 
                             is_found_weekier = True
                             if moment:
-                                self.queue[dropped_tsk.in_node_class_num].append(
-                                    dropped_tsk)
+                                self.queue[dropped_tsk.in_node_class_num].insert(
+                                    0, dropped_tsk)
                                 c.start_service(
                                     new_tsk, self.ttek, is_network=True)
                             else:
-                                self.queue[dropped_tsk.k].append(dropped_tsk)
+                                self.queue[dropped_tsk.k].insert(0, dropped_tsk)
                                 c.start_service(new_tsk, self.ttek)
 
                             break
-- 
2.43.0


From 858c9da0cbecc021ba6cc8523532aa5e36162814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:24 +0000
Subject: [PATCH 12/74] fix: priority simulator load: averaged service over
 classes without weights, failed for H, Uniform and D

---
 most_queue/sim/priority_queue_sim.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 4383c73..82dc9c5 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -179,18 +179,19 @@ class PriorityQueueSimulator:
         """
         Вычисляет коэффициент загрузки СМО
         """
-        l_sum = 0
-        b1_sr = 0
+        load = 0
 
         for i in range(self.k):
+            l_sum = 0
+            b1_sr = 0
 
             if self.sources_params[i]['type'] == "M":
                 l_sum += self.sources_params[i]['params']
             elif self.sources_params[i]['type'] == "H":
                 y1 = self.sources_params[i]['params'][0]
                 y2 = 1.0 - y1
-                mu1 = self.sources_params[i]['type'][1]
-                mu2 = self.sources_params[i]['type'][2]
+                mu1 = self.sources_params[i]['params'][1]
+                mu2 = self.sources_params[i]['params'][2]
 
                 f1 = y1 / mu1 + y2 / mu2
                 l_sum += 1.0 / f1
@@ -222,11 +223,11 @@ class PriorityQueueSimulator:
                     f1 = a * k / (a - 1)
                     l_sum += 1.0 / f1
             elif self.sources_params[i]['type'] == "Uniform":
-                f1 = self.sources_params[i]['type'][0]
+                f1 = self.sources_params[i]['params'][0]
                 l_sum += 1.0 / f1
 
             elif self.sources_params[i]['type'] == "D":
-                f1 = self.sources_params[i]['type']
+                f1 = self.sources_params[i]['params']
                 l_sum += 1.0 / f1
 
             if self.servers_params[i]['type'] == "M":
@@ -252,12 +253,10 @@ class PriorityQueueSimulator:
                 b1_sr += r / mu
 
             elif self.servers_params[i]['type'] == "Uniform":
-                f1 = self.servers_params[i]['params'][0]
-                b1_sr += 1.0 / f1
+                b1_sr += self.servers_params[i]['params'][0]
 
             elif self.servers_params[i]['type'] == "D":
-                f1 = self.servers_params[i]['type']
-                b1_sr += 1.0 / f1
+                b1_sr += self.servers_params[i]['params']
 
             elif self.servers_params[i]['type'] == "C":
                 y1 = self.servers_params[i]['params'][0]
@@ -274,7 +273,9 @@ class PriorityQueueSimulator:
                     k = self.servers_params[i]['params'][1]
                     b1_sr += a * k / (a - 1)
 
-        return l_sum * b1_sr / (self.n * self.k)
+            load += l_sum * b1_sr / self.n
+
+        return load
 
     def arrival(self, k, moment=None, ts=None):
         """
-- 
2.43.0


From 04359b432c155e00f648b2554f0a1369b37ab74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:15 +0000
Subject: [PATCH 13/74] fix: busy period of the displacing class was not
 started when the last channel was taken over

---
 most_queue/sim/priority_queue_sim.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 82dc9c5..1562212 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -342,11 +342,11 @@ class PriorityQueueSimulator:
                             dropped_tsk = c.end_service()
                             self.taked[k] += 1
 
-                            if k != self.class_ppnz_started and self.class_ppnz_started != -1 and self.in_sys[
-                                    k] == self.n:
-                                self.ppnz_moments[self.class_ppnz_started] += 1
-                                self.refresh_ppnz_stat(
-                                    self.class_ppnz_started, self.ttek - self.start_ppnz)
+                            if self.in_sys[k] == self.n:
+                                if k != self.class_ppnz_started and self.class_ppnz_started != -1:
+                                    self.ppnz_moments[self.class_ppnz_started] += 1
+                                    self.refresh_ppnz_stat(
+                                        self.class_ppnz_started, self.ttek - self.start_ppnz)
                                 self.start_ppnz = self.ttek
                                 self.class_ppnz_started = k
 
-- 
2.43.0


From 2ab76a584f4036f976f744978d2f95963417110f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:12 +0000
Subject: [PATCH 14/74] fix: network simulator gave a class the service of
 another class when a node's priority order is a 3-cycle

---
 most_queue/sim/priority_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/sim/priority_network.py b/most_queue/sim/priority_network.py
index 891cace..572bd3b 100755
--- a/most_queue/sim/priority_network.py
+++ b/most_queue/sim/priority_network.py
@@ -36,10 +36,10 @@ class PriorityNetwork:
 
         for m in range(self.n_num):
             self.smos.append(PriorityQueueSimulator(n[m], k_num, prty[m]))
-            param_serv_reset = []  # из-за смены порядка приоритетов в узле
+            param_serv_reset = [None] * k_num  # из-за смены порядка приоритетов в узле
             # для расчета необходимо преобразовать список с параметрами вр обслуживания в узле
             for k in range(k_num):
-                param_serv_reset.append(serv_params[m][nodes_prty[m][k]])
+                param_serv_reset[nodes_prty[m][k]] = serv_params[m][k]
 
             self.smos[m].set_servers(param_serv_reset)
             time.sleep(0.1)
-- 
2.43.0


From 07a76051d59823807beeb4bf81a2ef565c2b6050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:48 +0000
Subject: [PATCH 15/74] fix: fork-join with purge failed: wrong channel was
 cleared, queues were changed while scanned

---
 most_queue/sim/fj_sim.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/most_queue/sim/fj_sim.py b/most_queue/sim/fj_sim.py
index c6b372f..0049eba 100755
--- a/most_queue/sim/fj_sim.py
+++ b/most_queue/sim/fj_sim.py
@@ -117,21 +117,23 @@ class ForkJoinSim(QueueingSystemSimulator):
                     # найти все остальные подзадачи в СМО и выкинуть
                     task_id = end_ts.task_id
                     for i in range(self.n):
-                        if self.servers[i].tsk_on_service.task_id == task_id:
-                            self.servers[c].end_service()
-                    for i in range(self.n):
-                        for j in range(len(self.queues[i])):
-                            if self.queues[i][j].task_id == task_id:
-                                self.queues[i].pop(j)
+                        if not self.servers[i].is_free and self.servers[i].tsk_on_service.task_id == task_id:
+                            self.servers[i].end_service()
+                            self.free_channels += 1
+                            self.sub_task_in_sys -= 1
+                        waiting = [q for q in self.queues[i] if q.task_id != task_id]
+                        self.sub_task_in_sys -= len(self.queues[i]) - len(waiting)
+                        self.queues[i] = waiting
 
                 self.served += 1
                 self.refresh_v_stat(self.ttek - end_ts.arr_time)
                 self.in_sys -= 1
 
-            if len(self.queues[c]) != 0:
-                que_ts = self.queues[c].pop(0)
-                self.servers[c].start_service(que_ts, self.ttek)
-                self.free_channels -= 1
+            for i in range(self.n):
+                if self.servers[i].is_free and len(self.queues[i]) != 0:
+                    que_ts = self.queues[i].pop(0)
+                    self.servers[i].start_service(que_ts, self.ttek)
+                    self.free_channels -= 1
 
         else:
             if self.served_subtask_in_task[end_ts.task_id] == self.n:
-- 
2.43.0


From 09ddb7ef56b08acc6d3ea07b93d044e734e1dc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:48 +0000
Subject: [PATCH 16/74] fix: fork-join simulator let the queue grow beyond the
 buffer

---
 most_queue/sim/fj_sim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/most_queue/sim/fj_sim.py b/most_queue/sim/fj_sim.py
index 0049eba..a7274ac 100755
--- a/most_queue/sim/fj_sim.py
+++ b/most_queue/sim/fj_sim.py
@@ -54,14 +54,14 @@ class ForkJoinSim(QueueingSystemSimulator):
 
         is_dropped = False
 
-        if self.buffer:  # ограниченная длина очереди
+        if self.buffer is not None:  # ограниченная длина очереди
             if not self.is_SJ:
 
-                if self.queue.size() + self.k - 1 > self.buffer + self.free_channels:
+                if sum(len(q) for q in self.queues) + self.n > self.buffer + self.free_channels:
                     self.dropped += 1
                     is_dropped = True
             else:
-                if self.free_channels == 0 and self.queue.size() + self.k - 1 > self.buffer:
+                if self.free_channels < self.n and self.queue.size() + self.n > self.buffer:
                     self.dropped += 1
                     is_dropped = True
 
-- 
2.43.0


From d5a56dd0d855ece3b271e20e970beccb750c9a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:48 +0000
Subject: [PATCH 17/74] fix: fork-join with delta failed when a delayed subtask
 found a free channel

---
 most_queue/sim/fj_delta_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/sim/fj_delta_sim.py b/most_queue/sim/fj_delta_sim.py
index 14c114c..83a329d 100755
--- a/most_queue/sim/fj_delta_sim.py
+++ b/most_queue/sim/fj_delta_sim.py
@@ -106,7 +106,7 @@ class ForkJoinSimDelta(ForkJoinSim):
                 else:  # there are free channels:
                     for s in self.servers:
                         if s.is_free:
-                            s.start_service(subtsk)
+                            s.start_service(subtsk, self.ttek)
                             self.free_channels -= 1
                             break
 
-- 
2.43.0


From daeae1c4cc7747f25b7957ea9df018355cf48839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 18/74] fix: split-join with delta let the next task start
 before the previous one was complete, and delayed subtasks of the task in
 service

---
 most_queue/sim/fj_delta_sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/most_queue/sim/fj_delta_sim.py b/most_queue/sim/fj_delta_sim.py
index 83a329d..16370c0 100755
--- a/most_queue/sim/fj_delta_sim.py
+++ b/most_queue/sim/fj_delta_sim.py
@@ -67,7 +67,7 @@ class ForkJoinSimDelta(ForkJoinSim):
 
             else:  # Split-Join discipline
 
-                if self.free_channels < self.k:
+                if self.in_sys > 1:  # предыдущая заявка еще не завершена
                     self.queue.append(t.subtasks[0])
                 else:
                     self.servers[0].start_service(t.subtasks[0], self.ttek)
@@ -159,6 +159,7 @@ class ForkJoinSimDelta(ForkJoinSim):
                 if self.queue.size() != 0:
 
                     new_task_id = self.queue.queue[0].task_id
+                    self.serv_task_id = new_task_id
 
                     brothers = [q for q in range(
                         self.queue.size()) if self.queue.queue[q].task_id == new_task_id]
-- 
2.43.0


From e73d1811cdb83ec4bdef5f73b94e74686d2915c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:03 +0000
Subject: [PATCH 19/74] fix: complex H2 fit divided by zero for exactly
 exponential moments, before its own check for them

---
 most_queue/rand_distribution.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 47a0ce4..c3c9e45 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -279,11 +279,6 @@ class H2_dist:
         f = [0.0] * 3
         for i in range(3):
             f[i] = complex(moments[i] / math.factorial(i + 1))
-        znam = (f[1] - pow(f[0], 2))
-        c0 = (f[0] * f[2] - pow(f[1], 2)) / znam
-        c1 = (f[0] * f[1] - f[2]) / znam
-
-        d = pow(c1 / 2.0, 2.0) - c0
 
         if is_fitting:
             # проверка на близость распределения к экспоненциальному
@@ -315,6 +310,12 @@ class H2_dist:
                 return H2_dist.get_params_clx(f, verbose=verbose, ee=ee, e=e * (1.0 + e_percent), e_percent=e_percent,
                                               is_fitting=is_fitting)
 
+        znam = (f[1] - pow(f[0], 2))
+        c0 = (f[0] * f[2] - pow(f[1], 2)) / znam
+        c1 = (f[0] * f[1] - f[2]) / znam
+
+        d = pow(c1 / 2.0, 2.0) - c0
+
         res = [0, 0, 0]  # y1, mu1, mu2
         c1 = complex(c1)
         x1 = -c1 / 2 + cmath.sqrt(d)
-- 
2.43.0


From b4054c8c946f5d97781e1c1434f41c02311e4b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:17 +0000
Subject: [PATCH 20/74] fix: fourth semi-invariant of the summed flow: the
 first term was divided by the squared rate instead of multiplied

---
 most_queue/theory/utils/flow_sum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/utils/flow_sum.py b/most_queue/theory/utils/flow_sum.py
index d1c9d3a..534e46d 100755
--- a/most_queue/theory/utils/flow_sum.py
+++ b/most_queue/theory/utils/flow_sum.py
@@ -112,7 +112,7 @@ class SummatorNumeric:
         if len(v) > 2:
             k.append((3 * pow(v[1], 2) - v[0] * v[2]) / pow(v[0], 5))
         if len(v) > 3:
-            k4 = v[3] / pow(v[0], 2) + 5 * v[1] * \
+            k4 = v[3] * pow(v[0], 2) + 5 * v[1] * \
                 (3 * pow(v[1], 2) - 2 * v[0] * v[2])
             k4 = k4 / pow(v[0], 7)
             k.append(k4)
-- 
2.43.0


From 5f8ee4bfb452b61d62deea41f776d423586f6b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:56 +0000
Subject: [PATCH 21/74] fix: real H2 fit lost the mean for short times, for cv
 = 1 up to rounding and below the H2 third-moment bound

---
 most_queue/rand_distribution.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index c3c9e45..c43465d 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -223,6 +223,8 @@ class H2_dist:
         v = moments[1] - moments[0] * moments[0]
         v = math.sqrt(v) / moments[0]
         res = [0.0] * 3
+        if math.isclose(v, 1.0, rel_tol=1e-9):
+            v = 1.0
         if v < 1.0:
             return res
 
@@ -234,21 +236,17 @@ class H2_dist:
         if t_min > moments[2]:
             # one phase distibution
             q_new = q_max
-            mu1 = (1.0 - math.sqrt(q_new * (v * v - 1.0) / (2 * (1.0 - q_new)))) * moments[0]
-            if math.isclose(mu1, 0):
-                mu1 = 1e10
-            else:
-                mu1 = 1.0 / mu1
+            t1 = (1.0 + math.sqrt((1.0 - q_new) * (v * v - 1.0) / (2 * q_new))) * moments[0]
             res[0] = q_max
-            res[1] = mu1
-            res[2] = 1e6
+            res[1] = 1.0 / t1
+            res[2] = 1e6 / moments[0]
             return res
         else:
             max_iteration = 10000
             tec = 0
             t1 = 0
             t2 = 0
-            while abs(tn - moments[2]) > 1e-8 and tec < max_iteration:
+            while abs(tn - moments[2]) > 1e-8 * moments[2] and tec < max_iteration:
                 tec += 1
                 q_new = (q_max + q_min) / 2.0
                 t1 = (1.0 + math.sqrt((1.0 - q_new) * (v * v - 1.0) / (2 * q_new))) * moments[0]
@@ -260,7 +258,7 @@ class H2_dist:
                     q_min = q_new
                 else:
                     q_max = q_new
-            res[0] = q_max
+            res[0] = q_new
             res[1] = 1.0 / t1
             res[2] = 1.0 / t2
             return res
-- 
2.43.0


From 1bc14a9c9184c7df8ae29792db9d177f98939a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:56 +0000
Subject: [PATCH 22/74] fix: Cox moments failed for the complex parameters the
 Cox fit returns

---
 most_queue/rand_distribution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index c43465d..eb02c58 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -426,9 +426,9 @@ class Cox_dist:
         y2 = 1.0 - y1
         f = [0.0] * 3
         f[0] = y2 / m1 + y1 * (1.0 / m1 + 1.0 / m2)
-        f[1] = 2.0 * (y2 / math.pow(m1, 2) + y1 * (1.0 / math.pow(m1, 2) + 1.0 / (m1 * m2) + 1.0 / math.pow(m2, 2)))
-        f[2] = 6.0 * (y2 / (math.pow(m1, 3)) + y1 * (1.0 / math.pow(m1, 3) + 1.0 / (math.pow(m1, 2) * m2) +
-                                                     1.0 / (math.pow(m2, 2) * m1) + 1.0 / math.pow(m2, 3)))
+        f[1] = 2.0 * (y2 / pow(m1, 2) + y1 * (1.0 / pow(m1, 2) + 1.0 / (m1 * m2) + 1.0 / pow(m2, 2)))
+        f[2] = 6.0 * (y2 / (pow(m1, 3)) + y1 * (1.0 / pow(m1, 3) + 1.0 / (pow(m1, 2) * m2) +
+                                                1.0 / (pow(m2, 2) * m1) + 1.0 / pow(m2, 3)))
 
         return f
 
-- 
2.43.0


From 596efdc0557bd76e4a7a05b5c5954764ba4ce417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:54 +0000
Subject: [PATCH 23/74] fix: Cox fit checked its special cases on raw instead
 of normalised moments, failing for exponential moments and perturbing every
 fit of short times

---
 most_queue/rand_distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index eb02c58..a2ad676 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -443,7 +443,7 @@ class Cox_dist:
         if is_fitting:
             # проверка на близость распределения к экспоненциальному
             coev = cmath.sqrt(moments[1] - moments[0] ** 2) / moments[0]
-            if abs(moments[1] - moments[0] * moments[0]) < ee:
+            if abs(moments[1] / 2 - moments[0] * moments[0]) < ee * abs(moments[0] * moments[0]):
                 if verbose:
                     print("Cox special 1. Multiply moments to (1+je), coev = {0:5.3f},"
                           " e = {1:5.3f}.".format(coev, e))
@@ -457,7 +457,7 @@ class Cox_dist:
             coev = cmath.sqrt(moments[1] - moments[0] ** 2) / moments[0]
 
             # проверка на близость распределения к Эрланга 2-го порядка
-            if abs(moments[1] - (3.0 / 4) * moments[0] * moments[0]) < ee:
+            if abs(moments[1] / 2 - (3.0 / 4) * moments[0] * moments[0]) < ee * abs(moments[0] * moments[0]):
                 if verbose:
                     print("Cox special 2. Multiply moments to (1+je), coev = {0:5.3f},"
                           " e = {1:5.3f}.".format(coev, e))
-- 
2.43.0


From cb45c26d98aa2e0cb196878b305e4f61842bef5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:00 +0000
Subject: [PATCH 24/74] fix: exponential fit lost the mean of moments that are
 not exponential

---
 most_queue/rand_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index a2ad676..b856184 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -737,7 +737,7 @@ class Exp_dist:
 
     @staticmethod
     def get_params(moments):
-        return Erlang_dist.get_params(moments)[1]
+        return 1.0 / moments[0]
 
 
 class Gamma:
-- 
2.43.0


From 0f9b81d9ccf8c70e568158566e44e4812d9d53dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:29 +0000
Subject: [PATCH 25/74] fix: exponential distribution ignored the generator
 passed in, runs were not reproducible

---
 most_queue/rand_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index b856184..e271a50 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -719,7 +719,7 @@ class Exp_dist:
     """
 
     def __init__(self, mu, generator=None):
-        self.erl = Erlang_dist([1, mu])
+        self.erl = Erlang_dist([1, mu], generator)
         self.params = mu
         self.type = 'M'
         self.generator = generator
-- 
2.43.0


From a366710ddb860adff35a9903a0939eb04ce27022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:29 +0000
Subject: [PATCH 26/74] fix: Pareto density and tail were wrong below the scale
 parameter (negative distribution function, division by zero at 0)

---
 most_queue/rand_distribution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index e271a50..a9c4938 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -545,7 +545,7 @@ class Pareto_dist:
         """
         Возвращает значение функции плотности распределения вероятностей СВ
         """
-        if t < 0:
+        if t < k:
             return 0
         return a * math.pow(k, a) / math.pow(t, a + 1)
 
@@ -563,10 +563,10 @@ class Pareto_dist:
         Возвращает значение ДФР
         params = [a, K]
         """
-        if t < 0:
-            return 0
         a = params[0]
         k = params[1]
+        if t < k:
+            return 1.0
         return math.pow(k / t, a)
 
     @staticmethod
-- 
2.43.0


From 21ae0727615ebf87d3475308be1e604b391cd476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:29 +0000
Subject: [PATCH 27/74] fix: gamma density failed for negative times,
 overflowed or vanished for large shape parameters

---
 most_queue/rand_distribution.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index a9c4938..4b0c9f3 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -846,12 +846,8 @@ class Gamma:
         :param t: время
         :return: значение плотности Гамма-распределения
         """
-        fract = sp.gamma(alpha)
-        if math.fabs(fract) > 1e-12:
-            if math.fabs(mu * t) > 1e-12:
-                main = mu * math.pow(mu * t, alpha - 1) * math.exp(-mu * t) / fract
-            else:
-                main = 0
+        if mu * t > 1e-12:
+            main = mu * math.exp((alpha - 1) * math.log(mu * t) - mu * t - sp.gammaln(alpha))
         else:
             main = 0
         return main
@@ -865,12 +861,8 @@ class Gamma:
         g - массив поправочных коэффициентов
         t: время
         """
-        fract = sp.gamma(alpha)
-        if math.fabs(fract) > 1e-12:
-            if math.fabs(mu * t) > 1e-12:
-                main = mu * math.pow(mu * t, alpha - 1) * math.exp(-mu * t) / fract
-            else:
-                main = 0
+        if mu * t > 1e-12:
+            main = mu * math.exp((alpha - 1) * math.log(mu * t) - mu * t - sp.gammaln(alpha))
         else:
             main = 0
         summ = 0
-- 
2.43.0


From db463e8f8a8aa48d2d29f69cc93a2524c4380bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:49 +0000
Subject: [PATCH 28/74] fix: incomplete gamma functions lost all digits (or
 overflowed) for large arguments, GI/M/1 and GI/M/n with Pareto input were
 wrong at low loads

---
 most_queue/rand_distribution.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 4b0c9f3..7e4beb4 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -891,21 +891,37 @@ class Gamma:
 
     @staticmethod
     def get_gamma_incomplete(x, z, e=1e-12):
-
-        return Gamma.get_gamma(x) - Gamma.get_gamma_small(x, z, e)
+        if z <= max(1, x):
+            return Gamma.get_gamma(x) - Gamma.get_gamma_small(x, z, e)
+        # continued fraction: the difference above loses all digits for large z
+        tiny = 1e-300
+        b = z + 1.0 - x
+        c = 1.0 / tiny
+        d = 1.0 / (b if b else tiny)
+        h = d
+        for i in range(1, 100000):
+            an = -i * (i - x)
+            b += 2.0
+            d = 1.0 / ((an * d + b) or tiny)
+            c = (b + an / c) or tiny
+            h *= d * c
+            if math.fabs(d * c - 1.0) < 1e-15:
+                break
+        return math.exp(x * math.log(z) - z) * h
 
     @staticmethod
     def get_gamma_small(x, z, e=1e-12):
+        # gamma(x, z) = z^x exp(-z) sum z^n / (x (x + 1) ... (x + n)), no cancellation for large z
         summ = 0
         n = 0
+        elem = 1.0 / x
         while True:
-            elem = pow(-z, n) / (math.factorial(n) * (x + n))
             summ += elem
-            if math.fabs(elem) < e:
-                break
             n += 1
-        gamma = summ * pow(z, x)
-        return gamma
+            elem *= z / (x + n)
+            if x + n > z and math.fabs(elem) < e * math.fabs(summ):
+                break
+        return summ * math.exp(x * math.log(z) - z)
 
     @staticmethod
     def get_minus_gamma(x):
-- 
2.43.0


From 7f5c18a0bcc862459d332f537376db3c7f10db51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:49 +0000
Subject: [PATCH 29/74] fix: Poisson arrivals during a uniform service were
 right for the rate 1 only

---
 most_queue/theory/utils/q_poisson_arrival_calc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/theory/utils/q_poisson_arrival_calc.py b/most_queue/theory/utils/q_poisson_arrival_calc.py
index 0cace10..5cdde05 100755
--- a/most_queue/theory/utils/q_poisson_arrival_calc.py
+++ b/most_queue/theory/utils/q_poisson_arrival_calc.py
@@ -30,10 +30,10 @@ def get_q_uniform(l, mean, half_interval, num=100):
     for j in range(num):
         summ1 = 0
         for i in range(j + 1):
-            summ1 += l * pow(mean - half_interval, i) * math.exp(-l * (mean - half_interval)) / math.factorial(i)
+            summ1 += pow(l * (mean - half_interval), i) * math.exp(-l * (mean - half_interval)) / math.factorial(i)
         summ2 = 0
         for i in range(j + 1):
-            summ2 += l * pow(mean + half_interval, i) * math.exp(-l * (mean + half_interval)) / math.factorial(i)
+            summ2 += pow(l * (mean + half_interval), i) * math.exp(-l * (mean + half_interval)) / math.factorial(i)
         q[j] = (1.0 / (2 * l * half_interval)) * (summ1 - summ2)
 
     return q
-- 
2.43.0


From 0b0141022c95c5a13885b94772c5cdf36955047d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:55 +0000
Subject: [PATCH 30/74] fix: load of a system with normal times was reported as
 0, with Pareto times of infinite mean (a = 1) failed

---
 most_queue/sim/utils/distribution_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/most_queue/sim/utils/distribution_utils.py b/most_queue/sim/utils/distribution_utils.py
index 0f86658..96d7710 100644
--- a/most_queue/sim/utils/distribution_utils.py
+++ b/most_queue/sim/utils/distribution_utils.py
@@ -91,7 +91,7 @@ def calc_qs_load(source_types: str, source_params,
         l = source_params
     elif source_types == "D":
         l = 1.00 / source_params
-    elif source_types == "Uniform":
+    elif source_types == "Uniform" or source_types == "Norm":
         l = 1.00 / source_params[0]
     elif source_types == "H":
         y1 = source_params[0]
@@ -121,7 +121,7 @@ def calc_qs_load(source_types: str, source_params,
         f1 = y2 / mu1 + y1 * (1.0 / mu1 + 1.0 / mu2)
         l = 1.0 / f1
     elif source_types == "Pa":
-        if source_params[0] < 1:
+        if source_params[0] <= 1:
             return None
         else:
             a = source_params[0]
@@ -135,7 +135,7 @@ def calc_qs_load(source_types: str, source_params,
         b1 = 1.0 / mu
     elif server_types == "D":
         b1 = server_params
-    elif server_types == "Uniform":
+    elif server_types == "Uniform" or server_types == "Norm":
         b1 = server_params[0]
 
     elif server_types == "H":
@@ -164,7 +164,7 @@ def calc_qs_load(source_types: str, source_params,
 
         b1 = y2 / mu1 + y1 * (1.0 / mu1 + 1.0 / mu2)
     elif server_types == "Pa":
-        if server_params[0] < 1:
+        if server_params[0] <= 1:
             return math.inf
         else:
             a = server_params[0]
-- 
2.43.0


From 30040cbce320b5aea1a72cd0d18de95b92dfc963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:52 +0000
Subject: [PATCH 31/74] fix: M/G/1 with warm-up: numerical differentiation at a
 fixed step made the moments depend on the time unit and lost the third one

---
 most_queue/theory/mg1_warm_calc.py | 35 ++++++++++++++++++------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/most_queue/theory/mg1_warm_calc.py b/most_queue/theory/mg1_warm_calc.py
index ec1ad83..ce008e1 100755
--- a/most_queue/theory/mg1_warm_calc.py
+++ b/most_queue/theory/mg1_warm_calc.py
@@ -1,4 +1,5 @@
-from most_queue.theory.utils.diff5dots import diff5dots
+import math
+
 from most_queue.rand_distribution import Gamma
 
 
@@ -6,24 +7,30 @@ def get_v(l, b, b_warm):
     tv = b_warm[0] / (1 - l * b[0])
     p0_star = 1 / (1 + l * tv)
 
-    b_param = Gamma.get_mu_alpha(b)
-    b_warm_param = Gamma.get_mu_alpha(b_warm)
+    # power series of the transforms of the gamma distributions
+    b_pls = _get_pls_series(b)
+    b_warm_pls = _get_pls_series(b_warm)
 
-    h = 0.0001
-    steps = 5
+    # numerator and denominator of the transform of the sojourn time, both divided by s
+    chisl = []
+    znam = []
+    for k in range(1, 5):
+        chisl.append(p0_star * (b_warm_pls[k] - b_warm_pls[k - 1] / l - b_pls[k]))
+        znam.append(-b_pls[k])
+    znam[0] -= 1 / l
 
     v_pls = []
+    for k in range(4):
+        summ = chisl[k]
+        for j in range(1, k + 1):
+            summ -= znam[j] * v_pls[k - j]
+        v_pls.append(summ / znam[0])
 
-    for c in range(1, steps):
-        s = h * c
-        chisl = p0_star * ((1 - s / l) * Gamma.get_pls(*b_warm_param, s) - Gamma.get_pls(*b_param, s))
-        znam = 1 - s / l - Gamma.get_pls(*b_param, s)
-        v_pls.append(chisl / znam)
+    return [-v_pls[1], 2 * v_pls[2], -6 * v_pls[3]]
 
-    v = diff5dots(v_pls, h)
-    v[0] = -v[0]
-    v[2] = -v[2]
 
-    return v
+def _get_pls_series(b, num=5):
+    moments = [1.0] + list(Gamma.calc_theory_moments(*Gamma.get_mu_alpha(b), num - 1))
+    return [(-1) ** k * moments[k] / math.factorial(k) for k in range(num)]
 
 
-- 
2.43.0


From 2be2dc3e7d8bad019377adffeb9d2f681a288189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:12 +0000
Subject: [PATCH 32/74] fix: deconvolution of moments was not the inverse of
 the convolution (waiting moments of GI/M/1), both failed for fewer than 3
 moments

---
 most_queue/general_utils/conv.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/most_queue/general_utils/conv.py b/most_queue/general_utils/conv.py
index 076ba21..0d32ed9 100644
--- a/most_queue/general_utils/conv.py
+++ b/most_queue/general_utils/conv.py
@@ -2,8 +2,10 @@ def get_moments(a, b, num=3):
     num = min(num, 3)
     res = [0] * num
     res[0] = a[0] + b[0]
-    res[1] = a[1] + b[1] + 2 * a[0] * b[0]
-    res[2] = a[2] + b[2] + 3 * a[1] * b[0] + 3 * a[0] * b[1]
+    if num > 1:
+        res[1] = a[1] + b[1] + 2 * a[0] * b[0]
+    if num > 2:
+        res[2] = a[2] + b[2] + 3 * a[1] * b[0] + 3 * a[0] * b[1]
     return res
 
 
@@ -19,6 +21,8 @@ def get_moments_minus(a, b, num=3):
     num = min(num, 3)
     res = [0] * num
     res[0] = a[0] - b[0]
-    res[1] = a[1] - b[1] - 2 * a[0] * b[0]
-    res[2] = a[2] - b[2] - 3 * a[1] * b[0] - 3 * a[0] * b[1]
+    if num > 1:
+        res[1] = a[1] - b[1] - 2 * res[0] * b[0]
+    if num > 2:
+        res[2] = a[2] - b[2] - 3 * res[1] * b[0] - 3 * res[0] * b[1]
     return res
-- 
2.43.0


From ce785437331fa68eced1659e9e92ab4b87ea7d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:12 +0000
Subject: [PATCH 33/74] fix: GI/M/1: probability of an empty system at arrivals
 was that of gamma input truncated to 100 terms, whatever the input

---
 most_queue/theory/gi_m_1_calc.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/most_queue/theory/gi_m_1_calc.py b/most_queue/theory/gi_m_1_calc.py
index f4d0566..7994236 100755
--- a/most_queue/theory/gi_m_1_calc.py
+++ b/most_queue/theory/gi_m_1_calc.py
@@ -2,7 +2,6 @@ import math
 
 from most_queue.general_utils.conv import get_moments_minus
 from most_queue.rand_distribution import Gamma, Pareto_dist
-from most_queue.theory.utils.q_poisson_arrival_calc import get_q_Gamma
 
 
 def get_pi(a, mu, num=100, e=1e-10, approx_distr="Gamma"):
@@ -14,15 +13,8 @@ def get_pi(a, mu, num=100, e=1e-10, approx_distr="Gamma"):
     """
     pi = [0.0] * num
 
-    v, alpha = Gamma.get_mu_alpha(a)
-
-    q = get_q_Gamma(mu, v, alpha)
-    summ = 0
     w = get_w_param(a, mu, e, approx_distr)
-    for i in range(len(q)):
-        summ += q[i] * pow(w, i)
-    pi[0] = 1.0 - summ
-    for k in range(1, num):
+    for k in range(num):
         pi[k] = (1.0 - w) * pow(w, k)
     return pi
 
-- 
2.43.0


From 97a219e139d338d23703b8c4446d68885b0f2fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:06 +0000
Subject: [PATCH 34/74] fix: GI/M/n waiting moments: numerical differentiation
 at a fixed step failed unless times are of order 1

---
 most_queue/theory/gi_m_n_calc.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/most_queue/theory/gi_m_n_calc.py b/most_queue/theory/gi_m_n_calc.py
index d422802..efa56db 100755
--- a/most_queue/theory/gi_m_n_calc.py
+++ b/most_queue/theory/gi_m_n_calc.py
@@ -3,7 +3,6 @@ import math
 import numpy as np
 
 from most_queue.general_utils.conv import get_moments
-from most_queue.theory.utils.diff5dots import diff5dots
 from most_queue.rand_distribution import Gamma, Pareto_dist
 
 
@@ -83,16 +82,11 @@ def get_w_pls(n, mu, pn, w, s):
 def get_w(a, mu, n, num=100, e=1e-10, approx_distr="Gamma"):
     pi = get_pi(a, mu, n, num, e, approx_distr)
     pn = pi[n]
-    pls = []
     w_param = get_w_param(a, mu, n, e, approx_distr)
-    h = 0.001
-    s = 0
-    for i in range(5):
-        pls.append(get_w_pls(n, mu, pn, w_param, s))
-        s += h
-    w = diff5dots(pls, h)
-    w[0] = - w[0]
-    w[2] = - w[2]
+    w = []
+    for k in range(1, 4):
+        # k-th derivative of the transform (get_w_pls) at zero
+        w.append(math.factorial(k) * get_w_pls(n, mu, pn, w_param, 0) / pow(n * mu * (1.0 - w_param), k))
     return w
 
 
-- 
2.43.0


From a7d4ec06db4e685be8e291a561ca7d1b2d0025cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:06 +0000
Subject: [PATCH 35/74] fix: GI/M/n divided zero by zero when n(1 - w) is an
 integer (M/M/2 with load 0.5)

---
 most_queue/theory/gi_m_n_calc.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/most_queue/theory/gi_m_n_calc.py b/most_queue/theory/gi_m_n_calc.py
index efa56db..a38a3e3 100755
--- a/most_queue/theory/gi_m_n_calc.py
+++ b/most_queue/theory/gi_m_n_calc.py
@@ -33,8 +33,8 @@ def get_pi(a, mu, n, num=100, e=1e-10, approx_distr="Gamma"):
 
         A[k, n] = 0
         for i in range(n - k + 1):
-            A[k, n] += pow(-1, i) * math.factorial(n) * (get_b0(a, k + i, mu, approx_distr) - w) / (
-                    math.factorial(k) * math.factorial(i) * math.factorial(n - k - i) * (n * (1 - w) - (k + i)))
+            A[k, n] += pow(-1, i) * math.factorial(n) * get_b0_slope(a, k + i, mu, n, w, approx_distr) / (
+                    math.factorial(k) * math.factorial(i) * math.factorial(n - k - i))
         A[k, n] = n * A[k, n]
         A[k, k] = A[k, k] - 1
     pi_to_n = np.linalg.solve(A, B)
@@ -45,6 +45,15 @@ def get_pi(a, mu, n, num=100, e=1e-10, approx_distr="Gamma"):
     return pi
 
 
+def get_b0_slope(a, j, mu, n, w, approx_distr="Gamma", h=2e-4):
+    # (b0(j) - b0(x)) / (x - j), where b0(x) = w; its limit for x = j
+    x = n * (1 - w)
+    if abs(x - j) > h:
+        return (get_b0(a, j, mu, approx_distr) - w) / (x - j)
+    mid = (x + j) / 2
+    return (get_b0(a, mid - h, mu, approx_distr) - get_b0(a, mid + h, mu, approx_distr)) / (2 * h)
+
+
 def get_b0(a, j, mu, approx_distr="Gamma"):
     if approx_distr == "Gamma":
         v, alpha, g = Gamma.get_params(a)
-- 
2.43.0


From 37fbb5b7efc9ce03892cf140ce6303359cc3d7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:44 +0000
Subject: [PATCH 36/74] fix: M/D/n and Ek/D/n probabilities: unstable recursion
 lost the tail at high loads, truncated least squares gave wrong results for
 many channels, index error for one channel

---
 most_queue/theory/ek_d_n_calc.py | 114 ++++++++-----------------------
 most_queue/theory/m_d_n_calc.py  |  75 +++++++-------------
 2 files changed, 53 insertions(+), 136 deletions(-)

diff --git a/most_queue/theory/ek_d_n_calc.py b/most_queue/theory/ek_d_n_calc.py
index 0914680..f6afebd 100755
--- a/most_queue/theory/ek_d_n_calc.py
+++ b/most_queue/theory/ek_d_n_calc.py
@@ -23,105 +23,51 @@ class Ek_D_n:
         self.e = e
         self.p = [0.0] * p_num
         self.p_num = p_num
-        self.w = [0.0] * (2 * p_num)
+        self.w = [0.0] * (k * p_num)
 
     def calc_w(self):
-        self.calc_q()
         w_up_to_nk = self.calc_w_up_to_nk()
-        self.w[:len(w_up_to_nk)] = w_up_to_nk[:]
-        for i in range(self.k):
-            summ1 = 0
-            for m in range(i + 1):
-                q = self.q_[i - m]
-                summ2 = 0
-                for j in range(self.n):
-                    summ2 += self.w[j * self.k + m]
-                summ1 += q * summ2
-            summ3 = 0
-            for m in range(i):
-                summ3 += self.q_[i - m] * self.w[self.n * self.k + m]
-            self.w[self.n * self.k + i] = (self.w[i] - summ1 - summ3) / self.q_[0]
-
-        is_negative = False
-
-        for i in range(self.k, self.p_num):
-            if is_negative:
-                break
-            summ1 = 0
-            for m in range(self.k):
-                summ1 += self.get_W(self.n, m) * self.q_[i - m]
-            summ2 = 0
-            for m in range(1, i - self.k + 1):
-                summ2 += self.q_[m] * self.w[self.n * self.k + i - m]
-            value = (self.w[i] - summ1 - summ2) / self.q_[0]
-            if value < 0:
-                is_negative = True
+        # inversion of the generating function on the unit circle
+        # (the recursion over the slots is unstable: errors grow faster than the probabilities decrease)
+        nk = self.n * self.k
+        size = 2 ** 16
+        z = np.exp(2j * np.pi * np.arange(1, size) / size)
+        by_phase = np.array(w_up_to_nk).reshape(self.n, self.k).sum(axis=0)
+        numerator = np.polyval(w_up_to_nk[::-1], z) - z ** nk * np.polyval(by_phase[::-1], z)
+        denominator = 1.0 - z ** nk * np.exp(self.l * self.b * (1.0 - z))
+        probs = np.fft.fft(np.concatenate(([1.0], numerator / denominator))).real / size
+        for i in range(len(self.w)):
+            if i < nk:
+                self.w[i] = w_up_to_nk[i]
             else:
-                self.w[self.n * self.k + i] = value
+                self.w[i] = max(0.0, float(probs[i]))
 
         return self.w
 
-    def get_W(self, n, i):
-        summ = 0
-        for j in range(n + 1):
-            summ += self.w[j * self.k + i]
-        return summ
-
     def calc_w_up_to_nk(self):
         self.get_z()
-        A = np.zeros((self.n * self.k, self.n * self.k), dtype=complex)
-        B = np.zeros(self.n * self.k, dtype=complex)
-        row_num = 0
-        for m in range(len(self.z_)):
-            for j in range(self.n):
-                for i in range(self.k):
-                    right_z = np.power(self.z_[m], self.n * self.k + i).real
-                    delta_z = np.power(self.z_[m], j * self.k + i).real - right_z
-                    A[row_num, j * self.k + i] = delta_z
-            row_num += 1
+        # the sums w[i] + w[i - k] + w[i - 2k] + ... are, up to a factor, the coefficients
+        # of the polynomial of degree nk - 1 that vanishes at all the roots z
+        nk = self.n * self.k
+        roots = []
         for m in range(len(self.z_)):
-            for j in range(self.n):
-                for i in range(self.k):
-                    right_z = np.power(self.z_[m], self.n * self.k + i).imag
-                    delta_z = np.power(self.z_[m], j * self.k + i).imag - right_z
-                    A[row_num, j * self.k + i] = delta_z
-            row_num += 1
-
-        for j in range(self.n):
-            coef = self.n - j
-            for i in range(j * self.k, (j + 1) * (self.k)):
-                A[self.n * self.k - 1, i] = coef
-
-        B[self.n * self.k - 1] = self.n - self.l * self.b / self.k
-        w = np.linalg.lstsq(A, B, rcond=1e-8)
-        w_real = []
-        for i in range(len(w[0])):
-            w_real.append(w[0][i].real)
-        return w_real
+            roots.append(self.z_[m])
+            if 2 * (m + 1) != nk:
+                roots.append(self.z_[m].conjugate())
+        cumulative = np.atleast_1d(np.poly(roots)).real[::-1]
+        w = cumulative.copy()
+        w[self.k:] -= cumulative[:-self.k]
+        coef = np.repeat(np.arange(self.n, 0, -1), self.k)
+        w *= (self.n - self.l * self.b / self.k) / np.dot(coef, w)
+        return [float(x) for x in w]
 
     def calc_p(self):
         w = self.calc_w()
-        is_zero = False
-        for j in range(len(self.w)):
-            if is_zero:
-                break
-            summ = 0
-            for m in range(j * self.k, (j + 1) * self.k):
-                summ += w[m]
-            if math.fabs(summ) < 1e-12 or summ > 1:
-                is_zero = True
-            else:
-                self.p[j] = summ
+        for j in range(self.p_num):
+            self.p[j] = sum(w[j * self.k: (j + 1) * self.k])
 
         return self.p
 
-    def calc_q(self):
-        q0 = math.exp(-self.b * self.l)
-        self.q_ = [0.0] * self.p_num
-        self.q_[0] = q0
-        for i in range(1, self.p_num):
-            self.q_[i] = self.q_[i - 1] * (self.l * self.b) / i
-
     def get_z(self):
         """
         Нахождение корней z
@@ -140,7 +86,7 @@ class Ek_D_n:
                 left = 2 * (m + 1) * cmath.pi * complex(0, 1) / (self.n * self.k)
                 right = self.l * self.b * (1.0 - z_old) / (self.n * self.k)
                 z_new = cmath.exp(left - right)
-                if math.fabs(z_new.real - z_old.real) < self.e:
+                if abs(z_new - z_old) < self.e:
                     is_close = True
                 z_old = z_new
             z[m] = z_old
diff --git a/most_queue/theory/m_d_n_calc.py b/most_queue/theory/m_d_n_calc.py
index 6400af2..bff37e6 100755
--- a/most_queue/theory/m_d_n_calc.py
+++ b/most_queue/theory/m_d_n_calc.py
@@ -25,65 +25,36 @@ class M_D_n:
 
     def calc_p_up_to_n(self):
         self.get_z()
-        A = np.zeros((self.n, self.n), dtype=complex)
-        B = np.zeros(self.n, dtype=complex)
-        row_num = 0
+        # the cumulative sums p[0] + ... + p[j] are, up to a factor, the coefficients
+        # of the polynomial of degree n - 1 that vanishes at all the roots z
+        roots = []
         for m in range(len(self.z_)):
-            for j in range(self.n):
-                right_z = np.power(self.z_[m], self.n).real
-                delta_z = np.power(self.z_[m], j).real - right_z
-                A[row_num, j] = delta_z
-            row_num += 1
-        for m in range(len(self.z_)):
-            for j in range(self.n):
-                right_z = np.power(self.z_[m], self.n).imag
-                delta_z = np.power(self.z_[m], j).imag - right_z
-                A[row_num, j] = delta_z
-            row_num += 1
-
-        for j in range(self.n):
-            A[self.n - 1, j] = self.n - j
-
-        B[self.n - 1] = self.n - self.l * self.b
-        p = np.linalg.lstsq(A, B, rcond=1e-8)
-        p_real = []
-        for i in range(len(p[0])):
-            p_real.append(p[0][i].real)
-        return p_real
+            roots.append(self.z_[m])
+            if 2 * (m + 1) != self.n:
+                roots.append(self.z_[m].conjugate())
+        cumulative = np.atleast_1d(np.poly(roots)).real[::-1]
+        p = np.diff(cumulative, prepend=0.0)
+        coef = np.arange(self.n, 0, -1)
+        p *= (self.n - self.l * self.b) / np.dot(coef, p)
+        return [float(x) for x in p]
 
     def calc_p(self):
         p_up_to_n = self.calc_p_up_to_n()
-        self.calc_q()
-        summ = 0
-        for i in range(len(p_up_to_n)):
-            self.p[i] = p_up_to_n[i]
-            summ += self.p[i]
-
-        self.p[self.n] = self.p[0] / self.q_[0] - summ
-        u = summ + self.p[self.n]
-
-        is_negative = False
-        for k in range(self.n + 1, self.p_num):
-            if is_negative:
-                break
-            summ = 0
-            for j in range(1, k - self.n):
-                summ += self.q_[j] * self.p[k - j]
-            value = (self.p[k - self.n] - u * self.q_[k - self.n] - summ) / self.q_[0]
-            if value < 0:
-                is_negative = True
+        # inversion of the generating function on the unit circle
+        # (the recursion over the slots is unstable: errors grow faster than the probabilities decrease)
+        size = 2 ** 16
+        z = np.exp(2j * np.pi * np.arange(1, size) / size)
+        numerator = np.polyval(p_up_to_n[::-1], z) - sum(p_up_to_n) * z ** self.n
+        denominator = 1.0 - z ** self.n * np.exp(self.l * self.b * (1.0 - z))
+        probs = np.fft.fft(np.concatenate(([1.0], numerator / denominator))).real / size
+        for i in range(self.p_num):
+            if i < self.n:
+                self.p[i] = p_up_to_n[i]
             else:
-                self.p[k] = value
+                self.p[i] = max(0.0, float(probs[i]))
 
         return self.p
 
-    def calc_q(self):
-        q0 = math.exp(-self.b * self.l)
-        self.q_ = [0.0] * self.p_num
-        self.q_[0] = q0
-        for i in range(1, self.p_num):
-            self.q_[i] = self.q_[i - 1] * (self.l * self.b) / i
-
     def get_z(self):
         """
         Нахождение корней z
@@ -102,7 +73,7 @@ class M_D_n:
                 left = 2 * (m + 1) * cmath.pi * complex(0, 1) / self.n
                 right = self.l * self.b * (1.0 - z_old) / self.n
                 z_new = cmath.exp(left - right)
-                if math.fabs(z_new.real - z_old.real) < self.e:
+                if abs(z_new - z_old) < self.e:
                     is_close = True
                 z_old = z_new
             z[m] = z_old
-- 
2.43.0


From 65a4d5cfd24b3a051902869fa1bb378b5e6c9b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:52 +0000
Subject: [PATCH 37/74] fix: M/M/n/r with load exactly 1 divided zero by zero

---
 most_queue/theory/mmnr_calc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/most_queue/theory/mmnr_calc.py b/most_queue/theory/mmnr_calc.py
index db2aeb4..c449323 100755
--- a/most_queue/theory/mmnr_calc.py
+++ b/most_queue/theory/mmnr_calc.py
@@ -61,11 +61,12 @@ class MMnr_calc:
         for i in range(n):
             summ1 += pow(ro, i) / math.factorial(i)
 
-        chisl = 1 - pow(ro / n, r + 1)
+        summ2 = 0
+        for i in range(r + 1):
+            summ2 += pow(ro / n, i)
         coef = pow(ro, n) / math.factorial(n)
-        znam = 1 - (ro / n)
 
-        p[0] = 1.0 / (summ1 + coef * chisl / znam)
+        p[0] = 1.0 / (summ1 + coef * summ2)
 
         for i in range(n):
             p[i] = pow(ro, i) * p[0] / math.factorial(i)
-- 
2.43.0


From 8689fc38f6562141d9b5d9ae3a5b3ec49c396d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:52 +0000
Subject: [PATCH 38/74] fix: M/M/n/r waiting moments ignored that lost jobs do
 not wait, sojourn was not waiting plus service

---
 most_queue/theory/mmnr_calc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/most_queue/theory/mmnr_calc.py b/most_queue/theory/mmnr_calc.py
index c449323..20531fa 100755
--- a/most_queue/theory/mmnr_calc.py
+++ b/most_queue/theory/mmnr_calc.py
@@ -38,10 +38,13 @@ class MMnr_calc:
 
     @staticmethod
     def get_w(l, mu, n, r, num=3):
-        qs = MMnr_calc.get_qs(l, mu, n, r, q_num=num)
+        # a job that is not lost and finds n + i jobs waits for i + 1 departures
+        p = MMnr_calc.get_p(l, mu, n, r)
         w = [0] * num
         for k in range(num):
-            w[k] = qs[k] / pow(l, k + 1)
+            for i in range(r):
+                w[k] += p[n + i] * math.factorial(i + 1 + k) / math.factorial(i)
+            w[k] /= pow(n * mu, k + 1) * (1.0 - p[n + r])
         return w
 
     @staticmethod
-- 
2.43.0


From 7975bf0a2e68592fb89a57bcd592c38b6eda20e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:52 +0000
Subject: [PATCH 39/74] fix: finite-source model: waiting moments by
 differentiation at a fixed step failed for long waits

---
 most_queue/theory/engset_model.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/most_queue/theory/engset_model.py b/most_queue/theory/engset_model.py
index 7f6e3e4..acbbf8a 100755
--- a/most_queue/theory/engset_model.py
+++ b/most_queue/theory/engset_model.py
@@ -1,4 +1,3 @@
-from most_queue.theory.utils.diff5dots import diff5dots
 from most_queue.general_utils.conv import get_moments
 
 
@@ -93,15 +92,19 @@ class Engset:
         """
         Начальные моменты времени ожидания через дифф ПЛС
         """
-        h = 0.01
-        ss = [x * h for x in range(5)]
         p0 = self.get_p()[0]
         N = self.get_N()
 
-        ws_dots = [self.ws(s, p0, N) for s in ss]
-        w_diff = diff5dots(ws_dots, h)
-
-        return [-w_diff[0], w_diff[1], -w_diff[2]]
+        w = [0.0] * 3
+        for i in range(self.m):
+            # probability that an arriving job finds i jobs and waits for i services
+            prob = pow(self.ro, i) * self.m_i[i + 1] * p0 / (self.m - N)
+            prod = 1
+            for k in range(3):
+                prod *= (i + k) / self.mu
+                w[k] += prob * prod
+
+        return w
 
     def ws(self, s, p0, N):
         """
-- 
2.43.0


From fcca4d56d4019107ad70035d67c7504fc5a7377b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:52 +0000
Subject: [PATCH 40/74] fix: mean batch size was the mean of the batch
 probabilities

---
 most_queue/theory/batch_mm1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/batch_mm1.py b/most_queue/theory/batch_mm1.py
index 816054b..f8f10aa 100755
--- a/most_queue/theory/batch_mm1.py
+++ b/most_queue/theory/batch_mm1.py
@@ -30,7 +30,7 @@ class BatchMM1:
         """
         Mean batch size
         """
-        return sum(self.ls) / len(self.ls)
+        return self.l
 
     def calc_l_moments(self):
         """
-- 
2.43.0


From 5226e5401889681bfc2b9c4efc2e581da7f1bee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:52 +0000
Subject: [PATCH 41/74] fix: impatience: series was cut where two terms are
 equal (l = mu + i*gamma) or still growing, powers overflowed

---
 most_queue/theory/impatience_calc.py | 33 ++++++++--------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/most_queue/theory/impatience_calc.py b/most_queue/theory/impatience_calc.py
index 545b8dc..995f790 100755
--- a/most_queue/theory/impatience_calc.py
+++ b/most_queue/theory/impatience_calc.py
@@ -1,5 +1,3 @@
-import math
-
 """
 Расчет М/M/1 с экспоненциальным нетерпением
 """
@@ -10,21 +8,14 @@ def get_p0(l, mu, gamma, tol=1e-12):
     Вероятность нулевого состояния системы
     """
     summ = 0
-    elem_old = l
-    elem_new = 0
+    elem = 1.0
 
     i = 1
-    while math.fabs(elem_new - elem_old) > tol:
-        chisl = math.pow(l, i)
-        znam = mu
-        j = 1
-        while j < i:
-            znam *= (mu + j * gamma)
-            j += 1
-
-        elem_old = elem_new
-        elem_new = chisl / znam
-        summ += elem_new
+    while True:
+        elem *= l / (mu + (i - 1) * gamma)
+        summ += elem
+        if elem <= tol * summ and l < mu + i * gamma:
+            break
 
         i += 1
 
@@ -39,17 +30,11 @@ def get_p(l, mu, gamma, tol=1e-12, max_num=100000):
     ps = []
     ps.append(p0)
 
+    pi = p0
     for i in range(1, max_num):
-        chisl = math.pow(l, i)
-        znam = mu
-        j = 1
-        while j < i:
-            znam *= (mu + j * gamma)
-            j += 1
-
-        pi = p0 * chisl / znam
+        pi *= l / (mu + (i - 1) * gamma)
         ps.append(pi)
-        if pi < tol:
+        if pi < tol and l < mu + i * gamma:
             break
 
     return ps
-- 
2.43.0


From 0c1b923c2fc34aaa071766471af2cef2e3f31c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:15 +0000
Subject: [PATCH 42/74] fix: MGnCalc with a buffer: losses at the last level,
 waiting time of accepted jobs, buffer=0 and buffers over 150

---
 most_queue/theory/mgn_tt.py | 74 +++++++++++++++++++++++--------------
 1 file changed, 46 insertions(+), 28 deletions(-)

diff --git a/most_queue/theory/mgn_tt.py b/most_queue/theory/mgn_tt.py
index 334a872..145d87f 100755
--- a/most_queue/theory/mgn_tt.py
+++ b/most_queue/theory/mgn_tt.py
@@ -22,7 +22,7 @@ class MGnCalc:
         accuracy: точность, параметр для остановки итерации
         """
         self.dt = np.dtype(dtype)
-        if buffer:
+        if buffer is not None:
             self.R = buffer + n  # максимальное число заявок в сисетеме - очередь + каналы
             self.N = self.R + 1  # число ярусов на один больше + нулевое состояние
         else:
@@ -40,17 +40,17 @@ class MGnCalc:
         self.l = l
         self.mu = [h2_params[1], h2_params[2]]
         # массив cols хранит число столбцов для каждого яруса, удобней рассчитать его один раз:
-        self.cols = [] * N
+        self.cols = []
 
         # переменные
         self.t = []
         self.b1 = []
         self.b2 = []
-        self.x = [0.0 + 0.0j] * N
-        self.z = [0.0 + 0.0j] * N
+        self.x = [0.0 + 0.0j] * self.N
+        self.z = [0.0 + 0.0j] * self.N
 
         # искомые вреоятности состояний СМО
-        self.p = [0.0 + 0.0j] * N
+        self.p = [0.0 + 0.0j] * self.N
 
         # матрицы переходов
         self.A = []
@@ -59,7 +59,7 @@ class MGnCalc:
         self.D = []
         self.Y = []
 
-        for i in range(N):
+        for i in range(self.N):
             if i < n + 1:
                 self.cols.append(i + 1)
             else:
@@ -86,6 +86,9 @@ class MGnCalc:
         """
         Возвращает три первых начальных момента времени ожидания в СМО
         """
+        if self.R is not None:
+            return self.get_w_finite()
+
         w = [0.0] * 3
 
         for j in range(1, len(self.p) - self.n):
@@ -101,6 +104,24 @@ class MGnCalc:
 
         return w
 
+    def get_w_finite(self):
+        """
+        Три первых начальных момента времени ожидания принятых заявок при конечном буфере:
+        заявка, заставшая k >= n заявок в системе, ждет k - n + 1 завершений обслуживания
+        """
+        w = [0.0] * 3
+        accepted = sum(self.p[:self.R])
+        T = self.buildD(self.n, is_v_calc=True)
+        # m[r] - r-е начальные моменты времени до очередного завершения по начальной фазе
+        m = [np.ones((self.n + 1, 1), dtype=self.dt)]
+        m += [np.zeros((self.n + 1, 1), dtype=self.dt) for _ in range(3)]
+        for k in range(self.n, self.R):
+            B = self.B[self.n + 1]
+            for r in range(1, 4):
+                m[r] = np.linalg.solve(T, np.dot(B, m[r]) + r * m[r - 1])
+                w[r - 1] += (np.dot(self.Y[k], m[r])[0, 0] / accepted).real
+        return w
+
     def get_v(self):
         """
         Возвращает три первых начальных момента времени пребывания в СМО
@@ -193,13 +214,10 @@ class MGnCalc:
                 prod1 = np.dot(prod1, self.x[i])
             znam += np.dot((self.n - j), prod1)
 
-        if self.R:
-            prod2 = 1
-            for i in range(0, self.N):
-                prod2 *= self.x[i]
-            znam -= f1 * self.l * prod2
-
-        self.p[0] = (self.n - self.l * f1) / znam
+        if self.R is not None:
+            self.p[0] = 1.0  # далее вероятности нормируются
+        else:
+            self.p[0] = (self.n - self.l * f1) / znam
 
         summ_p = self.p[0]
 
@@ -224,7 +242,8 @@ class MGnCalc:
             self.A.append(self.buildA(i))
             self.B.append(self.buildB(i))
             self.C.append(self.buildC(i))
-            self.D.append(self.buildD(i))
+            # заявки, заставшие заполненный буфер, теряются
+            self.D.append(self.buildD(i, is_v_calc=i == self.R))
 
     def calc_g_matrices(self):
         self.G = []
@@ -241,7 +260,7 @@ class MGnCalc:
         for j in range(1, self.N):
             if j != (self.N - 1):
                 self.BG.append(np.dot(self.B[j + 1], self.G[j]))
-            else:
+            elif self.R is None:
                 self.BG.append(np.dot(self.B[j], self.G[j]))
 
     def calc_support_matrices(self):
@@ -272,6 +291,16 @@ class MGnCalc:
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
+                if self.R is not None and j == (self.N - 1):
+                    tA = np.dot(self.t[j - 1], self.A[j - 1])
+                    tag = np.dot(tA, self.G[j])
+                    tag_sum = 0
+                    for t_i in range(tag.shape[1]):
+                        tag_sum += tag[0, t_i]
+                    self.z[j] = 1.0 / tag_sum
+                    self.t[j] = self.z[j] * tag
+                    continue
+
                 # b':
                 self.b1[j] = np.dot(self.t[j - 1], self.AG[j])
 
@@ -290,19 +319,8 @@ class MGnCalc:
 
                 self.x[j] = (1.0 + 0.0j) / self.x[j]
 
-                if self.R and j == (self.N - 1):
-                    tA = np.dot(self.t[j - 1], self.A[j - 1])
-                    tag = np.dot(tA, self.G[j])
-                    tag_sum = 0
-                    for t_i in range(tag.shape[1]):
-                        tag_sum += tag[0, t_i]
-                    self.z[j] = 1.0 / tag_sum
-                    self.t[j] = self.z[j] * tag
-
-                else:
-
-                    self.z[j] = np.dot(c, self.x[j])
-                    self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
+                self.z[j] = np.dot(c, self.x[j])
+                self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
 
             self.x[0] = (1.0 + 0.0j) / self.z[1]
 
-- 
2.43.0


From 7480da93a9e711b758d5ceba5693d4d6b6fa02a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:15 +0000
Subject: [PATCH 43/74] fix: MGnCalc.binom_calc: first moment

---
 most_queue/theory/mgn_tt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/mgn_tt.py b/most_queue/theory/mgn_tt.py
index 145d87f..53746b9 100755
--- a/most_queue/theory/mgn_tt.py
+++ b/most_queue/theory/mgn_tt.py
@@ -151,7 +151,7 @@ class MGnCalc:
     def binom_calc(a, b, num=3):
         res = []
         if num > 0:
-            res.append(a + b)
+            res.append(a[0] + b[0])
         if num > 1:
             res.append(a[1] + 2 * a[0] * b[0] + b[1])
         if num > 2:
-- 
2.43.0


From 0306ef4fea9b2aee744e30b3bc109b03aeff9c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:25 +0000
Subject: [PATCH 44/74] fix: MGnCalc with a buffer: complex normalisation of
 the waiting moments

---
 most_queue/theory/mgn_tt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/theory/mgn_tt.py b/most_queue/theory/mgn_tt.py
index 53746b9..ec907e5 100755
--- a/most_queue/theory/mgn_tt.py
+++ b/most_queue/theory/mgn_tt.py
@@ -110,7 +110,7 @@ class MGnCalc:
         заявка, заставшая k >= n заявок в системе, ждет k - n + 1 завершений обслуживания
         """
         w = [0.0] * 3
-        accepted = sum(self.p[:self.R])
+        accepted = sum(p.real for p in self.p[:self.R])
         T = self.buildD(self.n, is_v_calc=True)
         # m[r] - r-е начальные моменты времени до очередного завершения по начальной фазе
         m = [np.ones((self.n + 1, 1), dtype=self.dt)]
@@ -119,7 +119,7 @@ class MGnCalc:
             B = self.B[self.n + 1]
             for r in range(1, 4):
                 m[r] = np.linalg.solve(T, np.dot(B, m[r]) + r * m[r - 1])
-                w[r - 1] += (np.dot(self.Y[k], m[r])[0, 0] / accepted).real
+                w[r - 1] += np.dot(self.Y[k], m[r])[0, 0].real / accepted
         return w
 
     def get_v(self):
-- 
2.43.0


From 5ceee06e62fd27b5640fc034e7f2395651c626d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:47 +0000
Subject: [PATCH 45/74] fix: MGnCalc stopped before convergence: the stop rule
 looked only at the largest ratio, often of an empty level

---
 most_queue/theory/mgn_tt.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/most_queue/theory/mgn_tt.py b/most_queue/theory/mgn_tt.py
index ec907e5..fb0fd58 100755
--- a/most_queue/theory/mgn_tt.py
+++ b/most_queue/theory/mgn_tt.py
@@ -274,19 +274,15 @@ class MGnCalc:
         """
         self.b1[0][0, 0] = 0.0 + 0.0j
         self.b2[0][0, 0] = 0.0 + 0.0j
-        x_max1 = 0.0 + 0.0j
-        x_max2 = 0.0 + 0.0j
 
         self.calc_support_matrices()
 
 
         self.num_of_iter_ = 0  # кол-во итераций алгоритма
-        for i in range(self.N):
-            if self.x[i].real > x_max1.real:
-                x_max1 = self.x[i]
+        delta = self.e1
 
-        while math.fabs(x_max2.real - x_max1.real) >= self.e1:
-            x_max2 = x_max1
+        while delta >= self.e1:
+            x_prev = self.x[:self.N]
             self.num_of_iter_ += 1
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
@@ -328,11 +324,11 @@ class MGnCalc:
             self.t[0] = np.dot(self.x[0], t1B1)
             self.t[0] = np.dot(self.t[0], self.G[0])
 
-            x_max1 = 0.0 + 0.0j
-
-            for i in range(self.N):
-                if self.x[i].real > x_max1.real:
-                    x_max1 = self.x[i]
+            # наибольшее изменение x; маловероятные ярусы учитываются с весом,
+            # так как на практически пустых ярусах x определяется с погрешностью
+            p = np.cumprod([1.0] + [abs(x) for x in self.x[:self.N - 1]])
+            weights = np.minimum(1.0, 1e4 * p / p.sum())
+            delta = max(abs(self.x[i] - x_prev[i]) * weights[i] for i in range(self.N))
 
             if self.verbose:
                 print("End iter # {0:d}".format(self.num_of_iter_))
-- 
2.43.0


From f6095d35e9644fd42bf86458a9dcfb0d0c79ed98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:44 +0000
Subject: [PATCH 46/74] fix: warm-up/cooling calculators stopped before
 convergence: the stop rule looked only at the largest ratio, often of an
 empty level

---
 most_queue/theory/m_h2_h2warm.py              | 25 ++++++-----------
 .../theory/mgn_with_h2_delay_cold_warm.py     | 25 ++++++-----------
 .../theory/mmn_with_h2_cold_and_h2_warmup.py  | 27 +++++++------------
 3 files changed, 25 insertions(+), 52 deletions(-)

diff --git a/most_queue/theory/m_h2_h2warm.py b/most_queue/theory/m_h2_h2warm.py
index 366db25..3cbd7ad 100755
--- a/most_queue/theory/m_h2_h2warm.py
+++ b/most_queue/theory/m_h2_h2warm.py
@@ -370,23 +370,17 @@ class Mh2h2Warm:
         if self.dt == 'c16':
             self.b1[0][0, 0] = 0.0 + 0.0j
             self.b2[0][0, 0] = 0.0 + 0.0j
-            x_max1 = 0.0 + 0.0j
-            x_max2 = 0.0 + 0.0j
         else:
             self.b1[0][0, 0] = 0.0
             self.b2[0][0, 0] = 0.0
-            x_max1 = 0.0
-            x_max2 = 0.0
 
         self.calc_support_matrices()
 
         self.num_of_iter_ = 0  # кол-во итераций алгоритма
-        for i in range(self.N):
-            if self.x[i].real > x_max1.real:
-                x_max1 = self.x[i]
+        delta = self.e1
 
-        while math.fabs(x_max2.real - x_max1.real) >= self.e1:
-            x_max2 = x_max1
+        while delta >= self.e1:
+            x_prev = self.x[:self.N]
             self.num_of_iter_ += 1
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
@@ -438,14 +432,11 @@ class Mh2h2Warm:
             self.t[0] = np.dot(self.x[0], t1B1)
             self.t[0] = np.dot(self.t[0], self.G[0])
 
-            if self.dt == 'c16':
-                x_max1 = 0.0 + 0.0j
-            else:
-                x_max1 = 0
-
-            for i in range(self.N):
-                if self.x[i].real > x_max1.real:
-                    x_max1 = self.x[i]
+            # наибольшее изменение x; маловероятные ярусы учитываются с весом,
+            # так как на практически пустых ярусах x определяется с погрешностью
+            p = np.cumprod([1.0] + [abs(x) for x in self.x[:self.N - 1]])
+            weights = np.minimum(1.0, 1e4 * p / p.sum())
+            delta = max(abs(self.x[i] - x_prev[i]) * weights[i] for i in range(self.N))
 
             if self.verbose:
                 print("End iter # {0:d}".format(self.num_of_iter_))
diff --git a/most_queue/theory/mgn_with_h2_delay_cold_warm.py b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
index af5dc87..115d6e0 100755
--- a/most_queue/theory/mgn_with_h2_delay_cold_warm.py
+++ b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
@@ -457,23 +457,17 @@ class MGnH2ServingColdWarmDelay:
         if self.dt == 'c16':
             self.b1[0][0, 0] = 0.0 + 0.0j
             self.b2[0][0, 0] = 0.0 + 0.0j
-            x_max1 = 0.0 + 0.0j
-            x_max2 = 0.0 + 0.0j
         else:
             self.b1[0][0, 0] = 0.0
             self.b2[0][0, 0] = 0.0
-            x_max1 = 0.0
-            x_max2 = 0.0
 
         self.calc_support_matrices()
 
         self.num_of_iter_ = 0  # кол-во итераций алгоритма
-        for i in range(self.N):
-            if self.x[i].real > x_max1.real:
-                x_max1 = self.x[i]
+        delta = self.e1
 
-        while math.fabs(x_max2.real - x_max1.real) >= self.e1:
-            x_max2 = x_max1
+        while delta >= self.e1:
+            x_prev = self.x[:self.N]
             self.num_of_iter_ += 1
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
@@ -525,14 +519,11 @@ class MGnH2ServingColdWarmDelay:
             self.t[0] = np.dot(self.x[0], t1B1)
             self.t[0] = np.dot(self.t[0], self.G[0])
 
-            if self.dt == 'c16':
-                x_max1 = 0.0 + 0.0j
-            else:
-                x_max1 = 0
-
-            for i in range(self.N):
-                if self.x[i].real > x_max1.real:
-                    x_max1 = self.x[i]
+            # наибольшее изменение x; маловероятные ярусы учитываются с весом,
+            # так как на практически пустых ярусах x определяется с погрешностью
+            p = np.cumprod([1.0] + [abs(x) for x in self.x[:self.N - 1]])
+            weights = np.minimum(1.0, 1e4 * p / p.sum())
+            delta = max(abs(self.x[i] - x_prev[i]) * weights[i] for i in range(self.N))
 
             if self.verbose:
                 print("End iter # {0:d}".format(self.num_of_iter_))
diff --git a/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py b/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
index 758b12b..ac986f4 100755
--- a/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
+++ b/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
@@ -344,23 +344,17 @@ class MMn_H2warm_H2cold:
         if self.dt == 'c16':
             self.b1[0][0, 0] = 0.0 + 0.0j
             self.b2[0][0, 0] = 0.0 + 0.0j
-            x_max1 = 0.0 + 0.0j
-            x_max2 = 0.0 + 0.0j
         else:
             self.b1[0][0, 0] = 0.0
             self.b2[0][0, 0] = 0.0
-            x_max1 = 0.0
-            x_max2 = 0.0
 
         self.calc_support_matrices()
 
         self.num_of_iter_ = 0  # кол-во итераций алгоритма
-        for i in range(self.N):
-            if self.x[i].real > x_max1.real:
-                x_max1 = self.x[i]
+        delta = self.e1
 
-        while math.fabs(x_max2.real - x_max1.real) >= self.e1:
-            x_max2 = x_max1
+        while delta >= self.e1:
+            x_prev = self.x[:self.N]
             self.num_of_iter_ += 1
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
@@ -412,17 +406,14 @@ class MMn_H2warm_H2cold:
             self.t[0] = np.dot(self.x[0], t1B1)
             self.t[0] = np.dot(self.t[0], self.G[0])
 
-            if self.dt == 'c16':
-                x_max1 = 0.0 + 0.0j
-            else:
-                x_max1 = 0
-
-            for i in range(self.N):
-                if self.x[i].real > x_max1.real:
-                    x_max1 = self.x[i]
+            # наибольшее изменение x; маловероятные ярусы учитываются с весом,
+            # так как на практически пустых ярусах x определяется с погрешностью
+            p = np.cumprod([1.0] + [abs(x) for x in self.x[:self.N - 1]])
+            weights = np.minimum(1.0, 1e4 * p / p.sum())
+            delta = max(abs(self.x[i] - x_prev[i]) * weights[i] for i in range(self.N))
 
             if self.verbose:
-                print(f"End iter # {self.num_of_iter_:d}, x_max: {x_max1}")
+                print(f"End iter # {self.num_of_iter_:d}, delta: {delta}")
 
         self.calculate_p()
         self.calculate_y()
-- 
2.43.0


From 99d9d55527c5a823b5776b204d17c73d83d67c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:23 +0000
Subject: [PATCH 47/74] fix: warm-up/cooling calculators with a buffer: losses
 at the last level, waiting time of accepted jobs, buffer=0 and large buffers

---
 most_queue/theory/m_h2_h2warm.py              | 73 ++++++++++++-------
 .../theory/mgn_with_h2_delay_cold_warm.py     | 56 +++++++-------
 .../theory/mmn_with_h2_cold_and_h2_warmup.py  | 53 ++++++++------
 3 files changed, 108 insertions(+), 74 deletions(-)

diff --git a/most_queue/theory/m_h2_h2warm.py b/most_queue/theory/m_h2_h2warm.py
index 3cbd7ad..b580b7f 100755
--- a/most_queue/theory/m_h2_h2warm.py
+++ b/most_queue/theory/m_h2_h2warm.py
@@ -27,7 +27,7 @@ class Mh2h2Warm:
         accuracy: точность, параметр для остановки итерации
         """
         self.dt = np.dtype(dtype)
-        if buffer:
+        if buffer is not None:
             self.R = buffer + n  # максимальное число заявок в сисетеме - очередь + каналы
             self.N = self.R + 1  # число ярусов на один больше + нулевое состояние
         else:
@@ -60,24 +60,24 @@ class Mh2h2Warm:
         self.mu_w = [h2_params_warm[1], h2_params_warm[2]]
 
         # массив cols хранит число столбцов для каждого яруса, удобней рассчитать его один раз:
-        self.cols = [] * N
+        self.cols = []
 
         # переменные
         self.t = []
         self.b1 = []
         self.b2 = []
         if self.dt == 'c16':
-            self.x = [0.0 + 0.0j] * N
-            self.z = [0.0 + 0.0j] * N
+            self.x = [0.0 + 0.0j] * self.N
+            self.z = [0.0 + 0.0j] * self.N
 
             # искомые вреоятности состояний СМО
-            self.p = [0.0 + 0.0j] * N
+            self.p = [0.0 + 0.0j] * self.N
         else:
-            self.x = [0.0] * N
-            self.z = [0.0] * N
+            self.x = [0.0] * self.N
+            self.z = [0.0] * self.N
 
             # искомые вреоятности состояний СМО
-            self.p = [0.0] * N
+            self.p = [0.0] * self.N
 
         # матрицы переходов
         self.A = []
@@ -86,7 +86,7 @@ class Mh2h2Warm:
         self.D = []
         self.Y = []
 
-        for i in range(N):
+        for i in range(max(self.N, n + 2)):
 
             if self.is_only_first:
                 if i < n + 1:
@@ -113,7 +113,6 @@ class Mh2h2Warm:
         self.build_matrices()
         self.initial_probabilities()
         self.key_numbers = self.get_key_numbers(self.n)  # ключи яруса n, для n=3 [(3,0) (2,1) (1,2) (0,3)]
-        self.down_probs = self.calc_down_probs(self.n + 1)
 
     def get_p(self):
         """
@@ -184,7 +183,8 @@ class Mh2h2Warm:
             for i in range(2):
                 w += self.Y[k][0, i] * self.pls(self.mu_w[i], s)
 
-        for k in range(self.n, self.N):
+        # при конечном буфере ждут только принятые заявки
+        for k in range(self.n, self.N if self.R is None else self.R):
 
             # Если заявка попала в фазу разогрева и каналы заняты. Также есть k-n заявок в очереди
             # ей придется подождать окончание разогрева + обслуживание всех накопленных заявок
@@ -210,6 +210,9 @@ class Mh2h2Warm:
             for i in range(self.n + 1):
                 w += Ys[i] * aPa[i]
 
+        if self.R is not None:
+            w /= 1.0 - self.p[self.R].real
+
         return w
 
     def calc_residual_b(self, mom_num):
@@ -224,6 +227,9 @@ class Mh2h2Warm:
 
         if self.is_only_first:
 
+            if self.R is not None:
+                return self.get_w_finite()
+
             for j in range(1, len(self.p) - self.n):
                 w[0] += j * self.p[self.n + j]
             for j in range(2, len(self.p) - self.n):
@@ -242,6 +248,22 @@ class Mh2h2Warm:
                 w[i] = derivative(self.calc_w_pls, 0, dx=1e-3 / self.b[0], n=i + 1, order=9)
             return [-w[0], w[1].real, -w[2]]
 
+    def get_w_finite(self):
+        """
+        Три первых начальных момента времени ожидания принятых заявок при конечном буфере:
+        заявка, заставшая k >= n заявок в системе, ждет k - n + 1 завершений обслуживания
+        """
+        w = [0.0] * 3
+        accepted = 1.0 - self.p[self.R].real
+        size = self.cols[self.n]
+        # m[r] - r-е начальные моменты времени до очередного завершения по начальной фазе
+        m = [np.ones((size, 1), dtype=self.dt)] + [np.zeros((size, 1), dtype=self.dt) for _ in range(3)]
+        for k in range(self.n, self.R):
+            for r in range(1, 4):
+                m[r] = np.linalg.solve(self.D[self.R], np.dot(self.B[self.n + 1], m[r]) + r * m[r - 1])
+                w[r - 1] += np.dot(self.Y[k], m[r])[0, 0].real / accepted
+        return w
+
     def get_v(self):
         """
         Возвращает три первых начальных момента времени пребывания в СМО
@@ -339,6 +361,8 @@ class Mh2h2Warm:
             self.B.append(self.buildB(i))
             self.C.append(self.buildC(i))
             self.D.append(self.buildD(i))
+            if i == self.R:  # заявки, заставшие заполненный буфер, теряются
+                self.D[i] = self.D[i] - np.diag(self.A[i].sum(axis=1))
 
     def calc_g_matrices(self):
         self.G = []
@@ -355,7 +379,7 @@ class Mh2h2Warm:
         for j in range(1, self.N):
             if j != (self.N - 1):
                 self.BG.append(np.dot(self.B[j + 1], self.G[j]))
-            else:
+            elif self.R is None:
                 self.BG.append(np.dot(self.B[j], self.G[j]))
 
     def calc_support_matrices(self):
@@ -385,6 +409,16 @@ class Mh2h2Warm:
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
+                if self.R is not None and j == (self.N - 1):
+                    tA = np.dot(self.t[j - 1], self.A[j - 1])
+                    tag = np.dot(tA, self.G[j])
+                    tag_sum = 0
+                    for t_i in range(tag.shape[1]):
+                        tag_sum += tag[0, t_i]
+                    self.z[j] = 1.0 / tag_sum
+                    self.t[j] = self.z[j] * tag
+                    continue
+
                 # b':
                 self.b1[j] = np.dot(self.t[j - 1], self.AG[j])
 
@@ -409,19 +443,8 @@ class Mh2h2Warm:
                 else:
                     self.x[j] = (1.0) / self.x[j]
 
-                if self.R and j == (self.N - 1):
-                    tA = np.dot(self.t[j - 1], self.A[j - 1])
-                    tag = np.dot(tA, self.G[j])
-                    tag_sum = 0
-                    for t_i in range(tag.shape[1]):
-                        tag_sum += tag[0, t_i]
-                    self.z[j] = 1.0 / tag_sum
-                    self.t[j] = self.z[j] * tag
-
-                else:
-
-                    self.z[j] = np.dot(c, self.x[j])
-                    self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
+                self.z[j] = np.dot(c, self.x[j])
+                self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
 
             if self.dt == 'c16':
                 self.x[0] = (1.0 + 0.0j) / self.z[1]
diff --git a/most_queue/theory/mgn_with_h2_delay_cold_warm.py b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
index 115d6e0..a313c9f 100755
--- a/most_queue/theory/mgn_with_h2_delay_cold_warm.py
+++ b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
@@ -30,7 +30,7 @@ class MGnH2ServingColdWarmDelay:
         accuracy: точность, параметр для остановки итерации
         """
         self.dt = np.dtype(dtype)
-        if buffer:
+        if buffer is not None:
             self.R = buffer + n  # максимальное число заявок в сисетеме - очередь + каналы
             self.N = self.R + 1  # число ярусов на один больше + нулевое состояние
         else:
@@ -84,24 +84,24 @@ class MGnH2ServingColdWarmDelay:
         self.mu_c_delay = [h2_params_cold_delay[1], h2_params_cold_delay[2]]
 
         # массив cols хранит число столбцов для каждого яруса, удобней рассчитать его один раз:
-        self.cols = [] * N
+        self.cols = []
 
         # переменные
         self.t = []
         self.b1 = []
         self.b2 = []
         if self.dt == 'c16':
-            self.x = [0.0 + 0.0j] * N
-            self.z = [0.0 + 0.0j] * N
+            self.x = [0.0 + 0.0j] * self.N
+            self.z = [0.0 + 0.0j] * self.N
 
             # искомые вреоятности состояний СМО
-            self.p = [0.0 + 0.0j] * N
+            self.p = [0.0 + 0.0j] * self.N
         else:
-            self.x = [0.0] * N
-            self.z = [0.0] * N
+            self.x = [0.0] * self.N
+            self.z = [0.0] * self.N
 
             # искомые вреоятности состояний СМО
-            self.p = [0.0] * N
+            self.p = [0.0] * self.N
 
         # матрицы переходов
         self.A = []
@@ -110,7 +110,7 @@ class MGnH2ServingColdWarmDelay:
         self.D = []
         self.Y = []
 
-        for i in range(N):
+        for i in range(max(self.N, n + 2)):
 
             if i < n + 1:
                 if i == 0:
@@ -230,7 +230,8 @@ class MGnH2ServingColdWarmDelay:
                     for w_phase in range(2):
                         w += self.Y[k][0, cold_pos + c_phase] * c_to_w[c_phase, w_phase]
 
-        P = self.calc_down_probs(self.n + 1)
+        # при k > n (без буфера таких ярусов нет)
+        P = self.calc_down_probs(self.n + 1) if self.N > self.n + 1 else None
         key_numbers = self.get_key_numbers(self.n)  # ключи яруса n, для n=3 [(3,0) (2,1) (1,2) (0,3)]
         a = np.array(
             [self.pls(key_numbers[j][0] * self.mu[0] + key_numbers[j][1] * self.mu[1], s) for j in
@@ -240,7 +241,8 @@ class MGnH2ServingColdWarmDelay:
         # вероятности попадания в состояния обслуживания, вычисляются с помощью биноминального распределения
         probs = calc_binom_probs(self.n + 1, self.y[0])
 
-        for k in range(self.n, self.N):
+        # при конечном буфере ждут только принятые заявки
+        for k in range(self.n, self.N if self.R is None else self.R):
 
             # Если заявка попала в фазу разогрева и каналы заняты. Также есть k-n заявок в очереди
             # ей придется подождать окончание разогрева + обслуживание всех накопленных заявок
@@ -293,6 +295,9 @@ class MGnH2ServingColdWarmDelay:
                     for w_phase in range(2):
                         w += self.Y[k][0, cold_pos + c_phase] * c_to_w[c_phase, w_phase] * pls_service_total
 
+        if self.R is not None:
+            w /= 1.0 - self.p[self.R].real
+
         return w
 
     def get_idle_prob(self):
@@ -426,6 +431,8 @@ class MGnH2ServingColdWarmDelay:
             self.B.append(self.buildB(i))
             self.C.append(self.buildC(i))
             self.D.append(self.buildD(i))
+            if i == self.R:  # заявки, заставшие заполненный буфер, теряются
+                self.D[i] = self.D[i] - np.diag(self.A[i].sum(axis=1))
 
     def calc_g_matrices(self):
         self.G = []
@@ -442,7 +449,7 @@ class MGnH2ServingColdWarmDelay:
         for j in range(1, self.N):
             if j != (self.N - 1):
                 self.BG.append(np.dot(self.B[j + 1], self.G[j]))
-            else:
+            elif self.R is None:
                 self.BG.append(np.dot(self.B[j], self.G[j]))
 
     def calc_support_matrices(self):
@@ -472,6 +479,16 @@ class MGnH2ServingColdWarmDelay:
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
+                if self.R is not None and j == (self.N - 1):
+                    tA = np.dot(self.t[j - 1], self.A[j - 1])
+                    tag = np.dot(tA, self.G[j])
+                    tag_sum = 0
+                    for t_i in range(tag.shape[1]):
+                        tag_sum += tag[0, t_i]
+                    self.z[j] = 1.0 / tag_sum
+                    self.t[j] = self.z[j] * tag
+                    continue
+
                 # b':
                 self.b1[j] = np.dot(self.t[j - 1], self.AG[j])
 
@@ -496,19 +513,8 @@ class MGnH2ServingColdWarmDelay:
                 else:
                     self.x[j] = (1.0) / self.x[j]
 
-                if self.R and j == (self.N - 1):
-                    tA = np.dot(self.t[j - 1], self.A[j - 1])
-                    tag = np.dot(tA, self.G[j])
-                    tag_sum = 0
-                    for t_i in range(tag.shape[1]):
-                        tag_sum += tag[0, t_i]
-                    self.z[j] = 1.0 / tag_sum
-                    self.t[j] = self.z[j] * tag
-
-                else:
-
-                    self.z[j] = np.dot(c, self.x[j])
-                    self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
+                self.z[j] = np.dot(c, self.x[j])
+                self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
 
             if self.dt == 'c16':
                 self.x[0] = (1.0 + 0.0j) / self.z[1]
diff --git a/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py b/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
index ac986f4..f8b448d 100755
--- a/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
+++ b/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
@@ -26,7 +26,7 @@ class MMn_H2warm_H2cold:
         accuracy: точность, параметр для остановки итерации
         """
         self.dt = np.dtype(dtype)
-        if buffer:
+        if buffer is not None:
             self.R = buffer + n  # максимальное число заявок в сисетеме - очередь + каналы
             self.N = self.R + 1  # число ярусов на один больше + нулевое состояние
         else:
@@ -57,24 +57,24 @@ class MMn_H2warm_H2cold:
         self.mu_c = [h2_params_cold[1], h2_params_cold[2]]
 
         # массив cols хранит число столбцов для каждого яруса, удобней рассчитать его один раз:
-        self.cols = [] * N
+        self.cols = []
 
         # переменные
         self.t = []
         self.b1 = []
         self.b2 = []
         if self.dt == 'c16':
-            self.x = [0.0 + 0.0j] * N
-            self.z = [0.0 + 0.0j] * N
+            self.x = [0.0 + 0.0j] * self.N
+            self.z = [0.0 + 0.0j] * self.N
 
             # искомые вреоятности состояний СМО
-            self.p = [0.0 + 0.0j] * N
+            self.p = [0.0 + 0.0j] * self.N
         else:
-            self.x = [0.0] * N
-            self.z = [0.0] * N
+            self.x = [0.0] * self.N
+            self.z = [0.0] * self.N
 
             # искомые вреоятности состояний СМО
-            self.p = [0.0] * N
+            self.p = [0.0] * self.N
 
         # матрицы переходов
         self.A = []
@@ -83,7 +83,7 @@ class MMn_H2warm_H2cold:
         self.D = []
         self.Y = []
 
-        for i in range(N):
+        for i in range(max(self.N, n + 2)):
 
             if i < n + 1:
                 if i == 0:
@@ -149,7 +149,8 @@ class MMn_H2warm_H2cold:
                         w += self.Y[k][0, 3 + c_phase] * c_to_w[c_phase, w_phase]
 
         pls_service_total = 1.0
-        for k in range(self.n, self.N):
+        # при конечном буфере ждут только принятые заявки
+        for k in range(self.n, self.N if self.R is None else self.R):
 
             # попала в фазу обслуживания
             # подождать окончание k+1-n обслуживаний
@@ -167,6 +168,9 @@ class MMn_H2warm_H2cold:
                 for w_phase in range(2):
                     w += self.Y[k][0, 3 + c_phase] * c_to_w[c_phase, w_phase] * pls_service_total
 
+        if self.R is not None:
+            w /= 1.0 - self.p[self.R].real
+
         return w
 
     def get_w(self):
@@ -313,6 +317,8 @@ class MMn_H2warm_H2cold:
             self.B.append(self.buildB(i))
             self.C.append(self.buildC(i))
             self.D.append(self.buildD(i))
+            if i == self.R:  # заявки, заставшие заполненный буфер, теряются
+                self.D[i] = self.D[i] - np.diag(self.A[i].sum(axis=1))
 
     def calc_g_matrices(self):
         self.G = []
@@ -329,7 +335,7 @@ class MMn_H2warm_H2cold:
         for j in range(1, self.N):
             if j != (self.N - 1):
                 self.BG.append(np.dot(self.B[j + 1], self.G[j]))
-            else:
+            elif self.R is None:
                 self.BG.append(np.dot(self.B[j], self.G[j]))
 
     def calc_support_matrices(self):
@@ -359,6 +365,16 @@ class MMn_H2warm_H2cold:
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
+                if self.R is not None and j == (self.N - 1):
+                    tA = np.dot(self.t[j - 1], self.A[j - 1])
+                    tag = np.dot(tA, self.G[j])
+                    tag_sum = 0
+                    for t_i in range(tag.shape[1]):
+                        tag_sum += tag[0, t_i]
+                    self.z[j] = 1.0 / tag_sum
+                    self.t[j] = self.z[j] * tag
+                    continue
+
                 # b':
                 self.b1[j] = np.dot(self.t[j - 1], self.AG[j])
 
@@ -383,19 +399,8 @@ class MMn_H2warm_H2cold:
                 else:
                     self.x[j] = 1.0 / self.x[j]
 
-                if self.R and j == (self.N - 1):
-                    tA = np.dot(self.t[j - 1], self.A[j - 1])
-                    tag = np.dot(tA, self.G[j])
-                    tag_sum = 0
-                    for t_i in range(tag.shape[1]):
-                        tag_sum += tag[0, t_i]
-                    self.z[j] = 1.0 / tag_sum
-                    self.t[j] = self.z[j] * tag
-
-                else:
-
-                    self.z[j] = np.dot(c, self.x[j])
-                    self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
+                self.z[j] = np.dot(c, self.x[j])
+                self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
 
             if self.dt == 'c16':
                 self.x[0] = (1.0 + 0.0j) / self.z[1]
-- 
2.43.0


From b1dda98e3800c55503460943ba01e6eb44bab9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:23 +0000
Subject: [PATCH 48/74] fix: Mh2h2Warm: waiting time of jobs that start the
 warm-up and of jobs behind a queue

---
 most_queue/theory/m_h2_h2warm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/most_queue/theory/m_h2_h2warm.py b/most_queue/theory/m_h2_h2warm.py
index b580b7f..b73f0cb 100755
--- a/most_queue/theory/m_h2_h2warm.py
+++ b/most_queue/theory/m_h2_h2warm.py
@@ -177,6 +177,9 @@ class Mh2h2Warm:
         # вероятности попадания в состояния обслуживания, вычисляются с помощью биноминального распределения
         probs = calc_binom_probs(self.n + 1, self.y[0])
 
+        # Если заявка застала пустую систему, ей придется подождать весь разогрев
+        w += self.Y[0][0, 0] * (self.y_w[0] * self.pls(self.mu_w[0], s) + self.y_w[1] * self.pls(self.mu_w[1], s))
+
         # Если заявка попала в фазу разогрева, хотя каналы свободны,
         # ей придется подождать окончание разогрева
         for k in range(1, self.n):
@@ -195,7 +198,7 @@ class Mh2h2Warm:
                  range(self.n + 1)])
 
             P = self.calc_down_probs(k)
-            Pa = np.transpose(self.matrix_pow(P * a, k - self.n))  # n+1 x n+1
+            Pa = self.matrix_pow(P * a, k - self.n)  # n+1 x n+1
 
             aP_tilda = a * probs
 
@@ -206,7 +209,7 @@ class Mh2h2Warm:
 
             # попала в фазу обслуживания
             Ys = [self.Y[k][0, i + 2] for i in range(len(probs))]
-            aPa = np.dot(a, Pa)
+            aPa = a * Pa.sum(axis=1)
             for i in range(self.n + 1):
                 w += Ys[i] * aPa[i]
 
-- 
2.43.0


From 9c359b45a3add0137c632eff09e58cba57cce4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 49/74] fix: warm-up/cooling calculators: waiting moments by
 recursion instead of numerical differentiation with a step of wrong dimension

---
 most_queue/theory/m_h2_h2warm.py              | 10 ++--
 .../theory/mgn_with_h2_delay_cold_warm.py     | 22 +++------
 .../theory/mmn_with_h2_cold_and_h2_warmup.py  | 14 +++---
 most_queue/theory/utils/waiting_moments.py    | 49 +++++++++++++++++++
 4 files changed, 67 insertions(+), 28 deletions(-)
 create mode 100644 most_queue/theory/utils/waiting_moments.py

diff --git a/most_queue/theory/m_h2_h2warm.py b/most_queue/theory/m_h2_h2warm.py
index b73f0cb..a4fb0a1 100755
--- a/most_queue/theory/m_h2_h2warm.py
+++ b/most_queue/theory/m_h2_h2warm.py
@@ -1,11 +1,11 @@
 import math
 
 import numpy as np
-from scipy.misc import derivative
 
 from most_queue.theory.utils.passage_time import passage_time_calc
 from most_queue.rand_distribution import H2_dist
 from most_queue.theory.utils.binom_probs import calc_binom_probs
+from most_queue.theory.utils.waiting_moments import calc_waiting_moments
 
 
 class Mh2h2Warm:
@@ -247,9 +247,11 @@ class Mh2h2Warm:
             return w
 
         else:
-            for i in range(3):
-                w[i] = derivative(self.calc_w_pls, 0, dx=1e-3 / self.b[0], n=i + 1, order=9)
-            return [-w[0], w[1].real, -w[2]]
+            levels = self.N if self.R is None else self.R
+            w = calc_waiting_moments(self.Y, self.n, levels, self.B, self.C, self.y_w)
+            if self.R is not None:
+                w = [x / (1.0 - self.p[self.R].real) for x in w]
+            return w
 
     def get_w_finite(self):
         """
diff --git a/most_queue/theory/mgn_with_h2_delay_cold_warm.py b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
index a313c9f..1afeb4a 100755
--- a/most_queue/theory/mgn_with_h2_delay_cold_warm.py
+++ b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
@@ -1,11 +1,10 @@
 import math
-from itertools import chain
 
 import numpy as np
-from scipy.misc import derivative
 
 from most_queue.rand_distribution import H2_dist
 from most_queue.theory.utils.binom_probs import calc_binom_probs
+from most_queue.theory.utils.waiting_moments import calc_waiting_moments
 
 
 class MGnH2ServingColdWarmDelay:
@@ -307,20 +306,11 @@ class MGnH2ServingColdWarmDelay:
         """
         Возвращает три первых начальных момента времени ожидания в СМО
         """
-        w = [0.0] * 3
-
-        for i in range(3):
-            if self.stable_w_pls:
-                max_mu = np.max(list(chain(np.array(self.mu_w).astype('float'), np.array(self.mu_c).astype('float'),
-                                   np.array(self.mu).astype('float'))))
-
-                dx = self.w_pls_dt / max_mu
-            else:
-                dx = self.w_pls_dt
-            w[i] = derivative(self.calc_w_pls, 0, dx=dx, n=i + 1, order=9)
-
-        w = [w_moment.real if isinstance(w_moment, complex) else w_moment for w_moment in w]
-        return [-w[0].real, w[1].real, -w[2].real]
+        levels = self.N if self.R is None else self.R
+        w = calc_waiting_moments(self.Y, self.n, levels, self.B, self.C, self.y_w, is_cold=True)
+        if self.R is not None:
+            w = [x / (1.0 - self.p[self.R].real) for x in w]
+        return w
 
     def get_v(self):
         """
diff --git a/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py b/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
index f8b448d..9c768d2 100755
--- a/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
+++ b/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
@@ -1,10 +1,9 @@
 import math
-from itertools import chain
 
 import numpy as np
-from scipy.misc import derivative
 
 from most_queue.rand_distribution import H2_dist
+from most_queue.theory.utils.waiting_moments import calc_waiting_moments
 
 
 class MMn_H2warm_H2cold:
@@ -177,12 +176,11 @@ class MMn_H2warm_H2cold:
         """
         Возвращает три первых начальных момента времени ожидания в СМО
         """
-        w = [0.0] * 3
-
-        for i in range(3):
-            min_mu = min(chain(np.array(self.mu_w).astype('float'), np.array(self.mu_c).astype('float'), [self.mu]))
-            w[i] = derivative(self.calc_w_pls, 0, dx=1e-3 / min_mu, n=i + 1, order=9)
-        return [-w[0], w[1], -w[2]]
+        levels = self.N if self.R is None else self.R
+        w = calc_waiting_moments(self.Y, self.n, levels, self.B, self.C, self.y_w, is_cold=True)
+        if self.R is not None:
+            w = [x / (1.0 - self.p[self.R].real) for x in w]
+        return w
 
     def get_b(self):
         return [1.0 / self.mu, 2.0 / pow(self.mu, 2), 6.0 / pow(self.mu, 3)]
diff --git a/most_queue/theory/utils/waiting_moments.py b/most_queue/theory/utils/waiting_moments.py
new file mode 100644
index 0000000..0163976
--- /dev/null
+++ b/most_queue/theory/utils/waiting_moments.py
@@ -0,0 +1,49 @@
+import numpy as np
+
+
+def calc_waiting_moments(Y, n, levels, B, C, y_w, is_cold=False, num=3):
+    """
+    Начальные моменты времени ожидания начала обслуживания в СМО M/H2/n с разогревом (и охлаждением)
+
+    Y: вероятности микросостояний по ярусам. Состояния яруса: две фазы разогрева, обслуживание, две фазы охлаждения;
+       нулевого яруса - система выключена, ..., две фазы охлаждения
+    n: число каналов
+    levels: число ярусов, заявки с которых принимаются
+    B: матрицы переходов на ярус ниже
+    C: матрицы переходов внутри яруса
+    y_w: вероятности фаз разогрева
+    is_cold: есть ли фазы охлаждения
+    """
+    T = np.diag(B[n].sum(axis=1) + C[n].sum(axis=1)) - C[n]
+    size = T.shape[0]
+    serving = np.arange(2, size - 2 if is_cold else size)
+
+    # m[r] - r-е моменты времени до начала обслуживания по состояниям яруса.
+    # Сначала - без очереди: нужно дождаться лишь охлаждения и разогрева
+    T0 = T.copy()
+    T0[serving] = 0
+    T0[serving, serving] = 1
+    m = [np.ones(size, dtype=T.dtype)]
+    for r in range(1, num + 1):
+        right = r * m[r - 1]
+        right[serving] = 0
+        m.append(np.linalg.solve(T0, right))
+
+    w = np.zeros(num)
+    for k in range(levels):
+        y = Y[k][0]
+        if k >= n:
+            # перед заявкой на одно завершение обслуживания больше
+            before, m = m, [np.ones(size, dtype=T.dtype)]
+            for r in range(1, num + 1):
+                m.append(np.linalg.solve(T, np.dot(B[n + 1], before[r]) + r * m[r - 1]))
+        for r in range(1, num + 1):
+            if k >= n:
+                total = np.dot(y, m[r])
+            else:
+                total = y[0] * np.dot(y_w, m[r][:2]) if k == 0 else np.dot(y[:2], m[r][:2])
+                if is_cold:
+                    total += np.dot(y[-2:], m[r][-2:])
+            w[r - 1] += total.real
+
+    return list(w)
-- 
2.43.0


From 2da98f3c6275d68c789ecc5187d3709a5407b5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 50/74] fix: Mh2h2Warm: sojourn time when only the first job is
 served warm

---
 most_queue/theory/m_h2_h2warm.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/most_queue/theory/m_h2_h2warm.py b/most_queue/theory/m_h2_h2warm.py
index a4fb0a1..30f29b6 100755
--- a/most_queue/theory/m_h2_h2warm.py
+++ b/most_queue/theory/m_h2_h2warm.py
@@ -280,6 +280,14 @@ class Mh2h2Warm:
         v[1] = w[1] + 2 * w[0] * b[0] + b[1]
         v[2] = w[2] + 3 * w[1] * b[0] + 3 * w[0] * b[1] + b[2]
 
+        if self.is_only_first:
+            # заявка, заставшая пустую систему, не ждет, а длительность ее обслуживания - b_warm
+            p0 = self.p[0].real
+            if self.R is not None:
+                p0 /= 1.0 - self.p[self.R].real
+            for k in range(3):
+                v[k] += p0 * (self.b_warm[k] - b[k])
+
         return v
 
     def print_mrx(self, mrx):
-- 
2.43.0


From db3fe335d40a0d0e69017ad5616a6ff76bcecc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 51/74] fix: calc_pr1: second and third waiting moments of the
 highest class

---
 most_queue/theory/priority_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 3f9813d..430b08b 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -190,7 +190,7 @@ def calc_pr1(l, b, num=3):
     for i in range(num):
         summ = b[0][i + 1] / (i + 2)
         for s in range(1, i + 1):
-            summ += b[0][i + 1 - s] * w[0][s] * math.factorial(i + 1) / (math.factorial(s) * math.factorial(i + 2 - s))
+            summ += b[0][i + 1 - s] * w[0][s - 1] * math.factorial(i + 1) / (math.factorial(s) * math.factorial(i + 2 - s))
         w[0][i] = summ * l[0] / (1 - l[0] * b[0][0])
 
     v.append([0.0] * num)
-- 
2.43.0


From 0d774ae91c4d8ee86225d771b8bbe335cd9c25fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 52/74] fix: climov_w_pr_calc: second waiting moments

---
 most_queue/theory/priority_calc.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 430b08b..35fe26c 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -113,15 +113,13 @@ def climov_w_pr_calc(l, b):
         w.append([0.0] * 2)
         if k != 0:
             w[k][0] = ro_k_j[k][1] / (2 * ro_k[k - 1] * ro_k[k])
-            w[k][1] = ro_k_j[k][2] / (3 * ro_k[k]) + (ro_k_j[k][2]) / (
-                    2 * math.pow(ro_k[k], 2)) + \
-                      (ro_k_j[k][1]) / (2 * ro_k[k])
+            w[k][1] = ro_k_j[k][2] / (3 * math.pow(ro_k[k - 1], 2) * ro_k[k]) + math.pow(ro_k_j[k][1], 2) / (
+                    2 * math.pow(ro_k[k - 1], 2) * math.pow(ro_k[k], 2)) + \
+                      (ro_k_j[k][1] * ro_k_j[k - 1][1]) / (2 * math.pow(ro_k[k - 1], 3) * ro_k[k])
 
         else:
             w[k][0] = ro_k_j[k][1] / (2 * ro_k[k])
-            w[k][1] = ro_k_j[k][2] / (3 * math.pow(ro_k[k - 1], 3) * ro_k[k]) + (ro_k_j[k][2] * ro_k_j[k - 1][1]) / (
-                    2 * math.pow(ro_k[k - 1], 2) * math.pow(ro_k[k], 2)) + \
-                      (ro_k_j[k][1] * ro_k_j[k - 1][1]) / (2 * math.pow(ro_k[k - 1], 3) * ro_k[k])
+            w[k][1] = ro_k_j[k][2] / (3 * ro_k[k]) + math.pow(ro_k_j[k][1], 2) / (2 * math.pow(ro_k[k], 2))
 
     return w
 
-- 
2.43.0


From e3e4364986a3789871079c83c95cc4b10c211725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 53/74] fix: ppnz_calc, ppnz_calc_warm_up: fifth moments

---
 most_queue/theory/priority_calc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 35fe26c..4491317 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -89,7 +89,7 @@ def ppnz_calc(l, b, num=5):
         pnz.append(chisl / (1 - ro))
     if num > 4:
         chisl = b[4] * math.pow(z, 5) + 10 * b[3] * l * pnz[1] * math.pow(z, 3) + \
-                b[2] * (15 * math.pow(l * pnz[1], 2) * z + 10 * l * pnz[2 * z * z]) + b[1] * (
+                b[2] * (15 * math.pow(l * pnz[1], 2) * z + 10 * l * pnz[2] * z * z) + b[1] * (
                         5 * l * pnz[3] * z + 10 * l * l * pnz[1] * pnz[2])
         pnz.append(chisl / (1 - ro))
 
@@ -146,8 +146,8 @@ def ppnz_calc_warm_up(l, f, pnz, num=5):
                            + 6 * f[2] * l * pnz[1] * z * z + f[3] * math.pow(z, 4))
     if num > 4:
         pnz_warm_up.append(f[0] * l * pnz[4] + f[1] * (5 * l * pnz[3] * z + 10 * l * l * pnz[1] * pnz[2]) +
-                           f[2] * (15 * math.pow(l * pnz[1], 2) * z + 10 * f[3] * l * pnz[1] * math.pow(z, 3) + f[
-            4] * math.pow(z, 5)))
+                           f[2] * (15 * math.pow(l * pnz[1], 2) * z + 10 * l * pnz[2] * z * z) +
+                           10 * f[3] * l * pnz[1] * math.pow(z, 3) + f[4] * math.pow(z, 5))
 
     return pnz_warm_up
 
-- 
2.43.0


From de406252954da7e154471548fcbd5bcbc9de6c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 54/74] fix: calc_pr1: waiting moments of the lower classes
 (total intensity of the higher classes)

---
 most_queue/theory/priority_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 4491317..a2f8bb9 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -231,7 +231,7 @@ def calc_pr1(l, b, num=3):
             for m in range(i):
                 summ += w[j][m] * h[j][i - m] * math.factorial(i) / (math.factorial(m) * math.factorial(i + 1 - m))
 
-            w[j][i] = (c * L[j] * pi_j[j - 1][i] / (i + 1) + l[j] * summ) / (1.0 - l[j] * h[j][0])
+            w[j][i] = (c * L[j - 1] * pi_j[j - 1][i] / (i + 1) + l[j] * summ) / (1.0 - l[j] * h[j][0])
         w[j] = w[j][1:]
         v[j][0] = w[j][0] + h[j][0]
         v[j][1] = w[j][1] + 2 * w[j][0] * h[j][0] + h[j][1]
-- 
2.43.0


From b2ad5e471b0b706839de921b9f87555a6bb43b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 55/74] fix: ppnz_calc_warm_up: fewer moments of the busy
 period than of the first service

---
 most_queue/theory/priority_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index a2f8bb9..3e964d8 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -132,7 +132,7 @@ def ppnz_calc_warm_up(l, f, pnz, num=5):
     b: [j], j=1..num, начальные моменты времени обслуживания
     f: [j], нач. моменты распределения времени разогрева
     """
-    num = min(num, len(f))
+    num = min(num, len(f), len(pnz))
 
     pnz_warm_up = []
     z = 1 + l * pnz[0]
-- 
2.43.0


From 6c58b6d2aa9f529f30acc9a35e7e98a7ef83a5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 56/74] fix: get_w_np: exact moments instead of two-moment
 Gamma fits and numerical differentiation with a fixed step

---
 most_queue/theory/priority_calc.py | 125 +++++++++++------------------
 1 file changed, 45 insertions(+), 80 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 3e964d8..3e1a3f1 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -1,8 +1,8 @@
 import math
 
-from most_queue.rand_distribution import Gamma
-from most_queue.theory.utils.diff5dots import diff5dots
+import numpy as np
 
+from most_queue.rand_distribution import Gamma
 from most_queue.theory.mg1_calc import get_p, get_w
 from most_queue.theory.mgn_tt import MGnCalc
 
@@ -330,99 +330,64 @@ def get_w_np(l, b, num=3):
     :param l: [] - список интенсивностей для каждого класса заявок
     :param b: [k][j] - список начальных моментов для каждого класса
     """
-    # a - lower pr
-    # j - the same
-    # e - higher pr
-
     num_of_cl = len(l)
+    ro = sum(l[i] * b[i][0] for i in range(num_of_cl))
     w = []
-    ro = 0
-    L = []
-    for i in range(num_of_cl):
-        ro += l[i] * b[i][0]
-        summ = 0
-        for s in range(i + 1):
-            summ += l[s]
-        L.append(summ)
-
-    for j in range(num_of_cl):
-        w.append([])
-        w[j] = [0.0] * (len(b[j]) - 1)
-
-        la = 0
-        for i in range(j):
-            la += l[i]
-
-        lb = 0
-        for i in range(j + 1, num_of_cl):
-            lb += l[i]
-
-        b_i = b[j]
-        num_of_mom = len(b_i)
 
-        b_a = [0.0] * num_of_mom
-        for m in range(num_of_mom):
-            if j == 0:
-                b_a[m] = 0
-            else:
-                summ = 0
-                for i in range(j):
-                    summ += l[i] * b[i][m]
-                b_a[m] = summ / la
-
-        b_b = [0.0] * num_of_mom
-        for m in range(num_of_mom):
-            if j == num_of_cl - 1:
-                b_b[m] = 0
-            else:
-                summ = 0
-                for i in range(j + 1, num_of_cl):
-                    summ += l[i] * b[i][m]
-                b_b[m] = summ / lb
+    # ПЛС заменяются их разложениями в ряд по степеням s; для k моментов нужно k + 1 начальных моментов обслуживания
+    size = num + 2
+    b = [add_moments(b_k, num + 1) for b_k in b]
 
-        h = 0.0001
-        steps = 5
-
-        if j != num_of_cl - 1:
-            b_b_param = Gamma.get_mu_alpha(b_b)
-        else:
-            b_b_param = 0
-
-        b_k_param = Gamma.get_mu_alpha(b[j])
-
-        nu_a_PNZ = ppnz_calc(la, b_a)
+    for j in range(num_of_cl):
 
+        # summ(s) = s + la - la * nu_a(s), nu_a - ПНЗ заявками более высоких классов
+        la = sum(l[:j])
+        summ = np.zeros(size)
+        summ[1] = 1.0
         if j != 0:
-            nu_a_param = Gamma.get_mu_alpha(nu_a_PNZ)
-        else:
-            nu_a_param = 0
+            b_a = [sum(l[i] * b[i][m] for i in range(j)) / la for m in range(num + 1)]
+            nu_a = ppnz_calc(la, b_a, num + 1)
+            for m in range(1, size):
+                summ[m] -= la * pow(-1, m) * nu_a[m - 1] / math.factorial(m)
 
-        w_pls = []
+        chisl = (1 - ro) * summ
+        for i in range(j + 1, num_of_cl):
+            chisl -= l[i] * pls_series(b[i], summ)
 
-        for c in range(1, steps):
-            s = h * c
+        znam = l[j] * pls_series(b[j], summ)
+        znam[1] += 1.0
 
-            if j != 0:
-                nu_a = Gamma.get_pls(*nu_a_param, s)
-                summ = s + la - la * nu_a
-            else:
-                summ = s
+        w_pls = np.zeros(num + 1)
+        for k in range(num + 1):
+            w_pls[k] = (chisl[k + 1] - sum(w_pls[i] * znam[k + 1 - i] for i in range(k))) / znam[1]
 
-            chisl = (1 - ro) * summ
+        w.append([pow(-1, k) * math.factorial(k) * w_pls[k] for k in range(1, num + 1)])
 
-            if j != len(l) - 1:
-                chisl += lb * (1 - Gamma.get_pls(*b_b_param, summ))
+    return w
 
-            znam = l[j] * Gamma.get_pls(*b_k_param, summ) - l[j] + s
 
-            w_pls.append(chisl / znam)
+def add_moments(b, num):
+    """
+    Дополняет список начальных моментов до num моментами Гамма-распределения
+    """
+    b = list(b)
+    if len(b) < num:
+        b += Gamma.calc_theory_moments(*Gamma.get_mu_alpha(b), num)[len(b):]
+    return b
 
-            w[j] = diff5dots(w_pls, h)
-            w[j][0] = -w[j][0]
-            if len(b[j]) > 2:
-                w[j][2] = -w[j][2]
 
-    return w
+def pls_series(b, x):
+    """
+    Разложение b*(x(s)) - 1 в ряд по степеням s, где b*(s) - ПЛС распределения с начальными моментами b,
+    x - коэффициенты ряда x(s), x(0) = 0
+    """
+    res = np.zeros(len(x))
+    power = np.zeros(len(x))
+    power[0] = 1.0
+    for m in range(1, len(x)):
+        power = np.convolve(power, x)[:len(x)]
+        res += pow(-1, m) * b[m - 1] / math.factorial(m) * power
+    return res
 
 
 def get_w_prty_invar(l, b, n, type='NP', N=150, num=3):
-- 
2.43.0


From a214db14198cd29abc6d7a45ae5dbabb75519717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 57/74] fix: priority_calc: moments of the mixed service time
 weighted by the intensities of the classes

---
 most_queue/theory/priority_calc.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 3e1a3f1..4395298 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -278,8 +278,8 @@ def get_w_mg1_bp(l, b):
     for i in range(num_of_moment):
         b_sr.append(0)
         for k in range(num_of_classes):
-            b_sr[i] += b[k][i]
-        b_sr[i] /= num_of_classes
+            b_sr[i] += l[k] * b[k][i]
+        b_sr[i] /= l_sum
 
     w_k = get_w(l_sum, b_sr)
 
@@ -429,13 +429,11 @@ def get_w_prty_invar(l, b, n, type='NP', N=150, num=3):
     # M/G/1 calculation:
 
     b_sr = [0.0] * j_num
-    l_sum = 0
+    l_sum = sum(l)
     for j in range(j_num):
         for k in range(k_num):
-            b_sr[j] += b1[k][j]
-        b_sr[j] /= k_num
-    for k in range(k_num):
-        l_sum += l[k]
+            b_sr[j] += l[k] * b1[k][j]
+        b_sr[j] /= l_sum
 
     p1 = get_p(l_sum, b_sr, N)
     q1 = 0
@@ -445,13 +443,10 @@ def get_w_prty_invar(l, b, n, type='NP', N=150, num=3):
     # M/G/n calculation:
 
     b_sr = [0.0] * j_num
-    l_sum = 0
     for j in range(j_num):
         for k in range(k_num):
-            b_sr[j] += b[k][j]
-        b_sr[j] /= k_num
-    for k in range(k_num):
-        l_sum += l[k]
+            b_sr[j] += l[k] * b[k][j]
+        b_sr[j] /= l_sum
 
     tt_n = MGnCalc(n, l_sum, b_sr)
     tt_n.run()
@@ -488,8 +483,8 @@ def get_w_MxGn_no_pr(l, b, n):
     for j in range(num_of_mom):
         b_sr.append(0)
         for k in range(len(b)):
-            b_sr[j] += b[k][j]
-        b_sr[j] /= num_of_mom
+            b_sr[j] += l[k] * b[k][j]
+        b_sr[j] /= l_sum
 
     tt = MGnCalc(n, l_sum, b_sr)
     tt.run()
-- 
2.43.0


From 61e7636752f6c2e18b9686a223121b3c3b52258f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 58/74] fix: passage_time: second and third moments of passages
 over several levels

---
 most_queue/theory/utils/passage_time.py | 104 ++++--------------------
 1 file changed, 16 insertions(+), 88 deletions(-)

diff --git a/most_queue/theory/utils/passage_time.py b/most_queue/theory/utils/passage_time.py
index 4060e3b..0dd7cf2 100755
--- a/most_queue/theory/utils/passage_time.py
+++ b/most_queue/theory/utils/passage_time.py
@@ -465,99 +465,27 @@ class passage_time_calc:
         return G_gap
 
     def Gr_gap_calc(self, l_start, l_end):
-
+        """
+        Начальные моменты времени перехода с яруса l_start на ярус l_end:
+        переход складывается из последовательных переходов на один ярус
+        """
         if l_start <= l_end:
             return -1
 
-        Gr_gap = []
-        for i in range(3):
-            if l_end + 1 >= self.l_tilda:
-                Gr_gap.append(copy.deepcopy(self.Gr[self.l_tilda][i]))
-            else:
-                Gr_gap.append(copy.deepcopy(self.Gr[l_end + 1][i]))
-
-        if l_start <= l_end:
-            return -1
+        first = min(l_end + 1, self.l_tilda)
+        G_gap = self.G[first]
+        Gr_gap = [copy.deepcopy(self.Gr[first][r]) for r in range(3)]
 
         for i in range(l_end + 2, l_start + 1):
-
-            # первый момент
-            Ggap_minus_one = self.G_gap_calc(i - 1, l_end)
-
-            # B1G-section
-
-            if i >= self.l_tilda:
-                B1G = np.dot(self.Br[self.l_tilda][0], Ggap_minus_one)
-            else:
-                B1G = np.dot(self.Br[i][0], Ggap_minus_one)
-
-            # BG1 section
-            if i >= self.l_tilda:
-                BG1 = np.dot(self.B[self.l_tilda], Gr_gap[0])
-            else:
-                BG1 = np.dot(self.B[i], Gr_gap[0])
-
-            # L1GG-section
-            if i >= self.l_tilda:
-                L1GG = np.dot(self.Lr[self.l_tilda][0], np.dot(self.G[self.l_tilda], Ggap_minus_one))
-            else:
-                L1GG = np.dot(self.Lr[i][0], np.dot(self.G[i], Ggap_minus_one))
-
-            # LG1G section
-            if i >= self.l_tilda:
-                LG1G = np.dot(self.L[self.l_tilda], np.dot(self.Gr[self.l_tilda][0], Ggap_minus_one))
-            else:
-                LG1G = np.dot(self.L[i], np.dot(self.Gr[i][0], Ggap_minus_one))
-
-            # LGG1 section
-            if i >= self.l_tilda:
-                LGG1 = np.dot(self.L[self.l_tilda], np.dot(self.G[self.l_tilda], Gr_gap[0]))
-            else:
-                LGG1 = np.dot(self.L[i], np.dot(self.G[i], Gr_gap[0]))
-
-            # F1GGG-section
-            if i >= self.l_tilda:
-                F1GGG = np.dot(self.Fr[self.l_tilda][0],
-                               np.dot(self.G[self.l_tilda], np.dot(self.G[self.l_tilda], Ggap_minus_one)))
-            elif i == self.l_tilda - 1:
-                F1GGG = np.dot(self.Fr[i][0], np.dot(self.G[self.l_tilda], np.dot(self.G[i], Ggap_minus_one)))
-            else:
-                F1GGG = np.dot(self.Fr[i][0], np.dot(self.G[i + 1], np.dot(self.G[i], Ggap_minus_one)))
-
-            # FG1GG-section
-            if i >= self.l_tilda:
-                FG1GG = np.dot(self.F[self.l_tilda],
-                               np.dot(self.Gr[self.l_tilda][0], np.dot(self.G[self.l_tilda], Ggap_minus_one)))
-            elif i == self.l_tilda - 1:
-                FG1GG = np.dot(self.F[i], np.dot(self.Gr[self.l_tilda][0], np.dot(self.G[i], Ggap_minus_one)))
-            else:
-                FG1GG = np.dot(self.F[i], np.dot(self.Gr[i + 1][0], np.dot(self.G[i], Ggap_minus_one)))
-
-            # FGG1G-section
-            if i >= self.l_tilda:
-                FGG1G = np.dot(self.F[self.l_tilda],
-                               np.dot(self.G[self.l_tilda], np.dot(self.Gr[self.l_tilda][0], Ggap_minus_one)))
-            elif i == self.l_tilda - 1:
-                FGG1G = np.dot(self.F[i], np.dot(self.G[self.l_tilda], np.dot(self.Gr[i][0], Ggap_minus_one)))
-            else:
-                FGG1G = np.dot(self.F[i], np.dot(self.G[i + 1], np.dot(self.Gr[i][0], Ggap_minus_one)))
-
-            # FGGG1-section
-            if i >= self.l_tilda:
-                FGGG1 = np.dot(self.F[self.l_tilda],
-                               np.dot(self.G[self.l_tilda], np.dot(self.G[self.l_tilda], Gr_gap[0])))
-            elif i == self.l_tilda - 1:
-                FGGG1 = np.dot(self.F[i], np.dot(self.G[self.l_tilda], np.dot(self.G[i], Gr_gap[0])))
-            else:
-                FGGG1 = np.dot(self.F[i], np.dot(self.G[i + 1], np.dot(self.G[i], Gr_gap[0])))
-
-            Gr_gap[0] = B1G + BG1 + L1GG + LG1G + LGG1 + F1GGG + FG1GG + FGG1G + FGGG1
-            Gr_gap[1] = Gr_gap[0]
-            Gr_gap[2] = Gr_gap[0]
-            # while (abs(max_elem - max_elem_pr) > self.e):
-            #     Gr_gap[0] = B1G + BG1 + L1G + L*Gr_gap[0] + F1GG + FG1G + FG1*Gr_gap[0]
-            #     max_elem_pr = max_elem
-            #     max_elem = self.norm_mrx(Gr_gap[0])
+            level = min(i, self.l_tilda)
+            G = self.G[level]
+            G1, G2, G3 = self.Gr[level]
+
+            Gr_gap = [np.dot(G1, G_gap) + np.dot(G, Gr_gap[0]),
+                      np.dot(G2, G_gap) + 2.0 * np.dot(G1, Gr_gap[0]) + np.dot(G, Gr_gap[1]),
+                      np.dot(G3, G_gap) + 3.0 * np.dot(G2, Gr_gap[0]) + 3.0 * np.dot(G1, Gr_gap[1])
+                      + np.dot(G, Gr_gap[2])]
+            G_gap = np.dot(G, G_gap)
 
         return Gr_gap
 
-- 
2.43.0


From f3981d6dd755444e6ef968f1625b981b1800691a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:51 +0000
Subject: [PATCH 59/74] fix: passage_time: iterate until all elements have
 converged relative to their size, in any time unit

---
 most_queue/theory/utils/passage_time.py | 71 +++++++++++--------------
 1 file changed, 31 insertions(+), 40 deletions(-)

diff --git a/most_queue/theory/utils/passage_time.py b/most_queue/theory/utils/passage_time.py
index 0dd7cf2..d4c2bfe 100755
--- a/most_queue/theory/utils/passage_time.py
+++ b/most_queue/theory/utils/passage_time.py
@@ -121,6 +121,13 @@ class passage_time_calc:
                 self.Br[i].append(np.dot(left_mrx[r], self.B[i]))
                 self.Lr[i].append(np.dot(left_mrx[r], self.L[i]))
 
+    def is_changed(self, mrx, mrx_pr):
+        """
+        Изменилась ли матрица на последней итерации (относительно своего наибольшего элемента)
+        """
+        e = max(self.e, 8 * np.finfo(np.result_type(mrx, 'f4')).eps)
+        return np.abs(mrx - mrx_pr).max() > e * np.abs(mrx).max()
+
     def G_tilda_calc(self):
 
         """
@@ -133,16 +140,14 @@ class passage_time_calc:
                                     dtype='complex64')  # присвоить первоначальное значение G = B не работает !!!
         else:
             self.G_l_tilda = np.eye(b_rows, b_cols)
-        max_elem = self.G_l_tilda.max()
-        max_elem_pr = 0
+        G_pr = 0
 
         n_iter = 0
 
-        while (abs(max_elem - max_elem_pr) > self.e):
+        while self.is_changed(self.G_l_tilda, G_pr):
+            G_pr = self.G_l_tilda
             self.G_l_tilda = self.B[self.l_tilda] + np.dot(self.L[self.l_tilda], self.G_l_tilda) + \
                              np.dot(self.F[self.l_tilda], np.dot(self.G_l_tilda, self.G_l_tilda))
-            max_elem_pr = max_elem
-            max_elem = self.G_l_tilda.max()
             n_iter += 1
 
         if self.is_verbose:
@@ -184,15 +189,13 @@ class passage_time_calc:
         #     G1 = np.array(np.eye(B1.shape[0], B1.shape[1]))
 
         # вычисляем первый момент
-        max_elem = self.norm_mrx(G1)
-        max_elem_pr = 0
+        G_pr = 0
         n_iter = 0
 
-        while (abs(max_elem - max_elem_pr) > self.e):
+        while self.is_changed(G1, G_pr):
+            G_pr = G1
             G1 = B1 + np.dot(L1, G) + np.dot(L, G1) + np.dot(F1, np.dot(G, G)) + np.dot(F, np.dot(G1, G)) \
                  + np.dot(F, np.dot(G, G1))
-            max_elem_pr = max_elem
-            max_elem = self.norm_mrx(G1)
             n_iter += 1
 
         if self.is_verbose:
@@ -214,18 +217,16 @@ class passage_time_calc:
         # else:
         #     G2 = np.array(np.eye(B2.shape[0], B2.shape[1]))
         #
-        max_elem = self.norm_mrx(G2)
-        max_elem_pr = 0
+        G_pr = 0
         n_iter = 0
 
-        while (abs(max_elem - max_elem_pr) > self.e):
+        while self.is_changed(G2, G_pr):
+            G_pr = G2
             G2 = B2 + np.dot(L2, G) + 2 * np.dot(L1, G1) + np.dot(L, G2) \
                  + np.dot(F2, np.dot(G, G)) + \
                  2 * np.dot(F1, (np.dot(G1, G) + np.dot(G, G1))) \
                  + np.dot(F, (np.dot(G2, G) + 2 * np.dot(G1, G1) + np.dot(G, G2)))
 
-            max_elem_pr = max_elem
-            max_elem = self.norm_mrx(G2)
             n_iter += 1
 
         if self.is_verbose:
@@ -242,19 +243,17 @@ class passage_time_calc:
              3.0 * np.dot(F2, (np.dot(G1, G) + np.dot(G, G1))) + \
              3.0 * np.dot(F1, (np.dot(G2, G1) + 2 * np.dot(G1, G1) + np.dot(G, G2)))
 
-        max_elem = self.norm_mrx(G3)
-        max_elem_pr = 0
+        G_pr = 0
         n_iter = 0
 
-        while (abs(max_elem - max_elem_pr) > self.e):
+        while self.is_changed(G3, G_pr):
+            G_pr = G3
             G3 = B3 + np.dot(L3, G) + 3 * np.dot(L2, G1) + 3 * np.dot(L1, G2) \
                  + np.dot(L, G3) + np.dot(F3, np.dot(G, G)) \
                  + 3 * np.dot(F2, (np.dot(G1, G) + np.dot(G, G1))) + \
                  3 * np.dot(F1, (np.dot(G2, G) + 2 * np.dot(G1, G1) + np.dot(G, G2))) \
                  + np.dot(F, (np.dot(G3, G) + 3 * np.dot(G2, G1) + 3 * np.dot(G1, G2) + np.dot(G, G3)))
 
-            max_elem_pr = max_elem
-            max_elem = self.norm_mrx(G3)
             n_iter += 1
 
         if self.is_verbose:
@@ -283,13 +282,11 @@ class passage_time_calc:
             # b_cols = B.shape[1]
             # G = (np.array(np.eye(b_rows, b_cols)) - L - F*G_plus_one).I()*B
 
-            max_elem = self.norm_mrx(G)
-            max_elem_pr = 0
+            G_pr = 0
             n_iter = 0
-            while (abs(max_elem - max_elem_pr) > self.e):
+            while self.is_changed(G, G_pr):
+                G_pr = G
                 G = B + np.dot(L, G) + np.dot(F, np.dot(G_plus_one, G))
-                max_elem_pr = max_elem
-                max_elem = self.norm_mrx(G)
                 n_iter += 1
 
             if self.is_verbose:
@@ -325,14 +322,12 @@ class passage_time_calc:
             #     else:
             #         G1 = np.array(np.eye(B1.shape[0], B1.shape[1]))
 
-            max_elem = self.norm_mrx(G1)
-            max_elem_pr = 0
+            G_pr = 0
             n_iter = 0
-            while (abs(max_elem - max_elem_pr) > self.e):
+            while self.is_changed(G1, G_pr):
+                G_pr = G1
                 G1 = B1 + np.dot(L1, G) + np.dot(L, G1) + np.dot(F1, np.dot(Gplus_one, G)) \
                      + np.dot(F, np.dot(G1plus_one, G)) + np.dot(F, np.dot(Gplus_one, G1))
-                max_elem_pr = max_elem
-                max_elem = self.norm_mrx(G1)
                 n_iter += 1
             self.Gr[self.l_tilda - i - 1].append(G1)
 
@@ -348,16 +343,14 @@ class passage_time_calc:
             G2 = B2 + np.dot(L2, G) + 2 * np.dot(L1, G1) + np.dot(F2, np.dot(Gplus_one, G)) + \
                  2 * np.dot(F1, (np.dot(G1plus_one, G) + np.dot(Gplus_one, G1)))
 
-            max_elem = self.norm_mrx(G2)
-            max_elem_pr = 0
+            G_pr = 0
             n_iter = 0
-            while (abs(max_elem - max_elem_pr) > self.e):
+            while self.is_changed(G2, G_pr):
+                G_pr = G2
                 G2 = B2 + np.dot(L2, G) + 2.0 * np.dot(L1, G1) + np.dot(L, G2) \
                      + np.dot(F2, np.dot(Gplus_one, G)) + 2.0 * np.dot(F1,
                                                                        (np.dot(G1plus_one, G) + np.dot(Gplus_one, G1))) \
                      + np.dot(F, (np.dot(G2plus_one, G) + 2.0 * np.dot(G1plus_one, G1) + np.dot(Gplus_one, G2)))
-                max_elem_pr = max_elem
-                max_elem = self.norm_mrx(G2)
                 n_iter += 1
             self.Gr[self.l_tilda - i - 1].append(G2)
             if self.is_verbose:
@@ -374,10 +367,10 @@ class passage_time_calc:
                  + 3.0 * np.dot(F2, (np.dot(G1plus_one, G) + np.dot(Gplus_one, G1))) \
                  + 3.0 * np.dot(F1, (np.dot(G2plus_one, G) + 2.0 * np.dot(G1plus_one, G1) + np.dot(Gplus_one, G2)))
 
-            max_elem = self.norm_mrx(G3)
-            max_elem_pr = 0
+            G_pr = 0
             n_iter = 0
-            while (abs(max_elem - max_elem_pr) > self.e):
+            while self.is_changed(G3, G_pr):
+                G_pr = G3
                 G3 = B3 + np.dot(L3, G) + 3.0 * np.dot(L2, G1) + 3.0 * np.dot(L1, G2) + np.dot(L, G3) \
                      + np.dot(F3, np.dot(Gplus_one, G)) \
                      + 3.0 * np.dot(F2, (np.dot(G1plus_one, G) + np.dot(Gplus_one, G1))) \
@@ -386,8 +379,6 @@ class passage_time_calc:
                             np.dot(G3plus_one, G) + 3 * np.dot(G2plus_one, G1) + 3.0 * np.dot(G1plus_one, G2) + np.dot(
                         Gplus_one, G3)))
 
-                max_elem_pr = max_elem
-                max_elem = self.norm_mrx(G3)
                 n_iter += 1
             self.Gr[self.l_tilda - i - 1].append(G3)
             if self.is_verbose:
-- 
2.43.0


From 5c880900e4877b6f16071f16edc8c7396dc7ea34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 60/74] fix: priority TT models: probabilities normalised
 exactly instead of a bisection to 1e-6

---
 most_queue/theory/m_ph_n_prty.py         | 24 +++++-------------------
 most_queue/theory/mmn3_pnz_cox_approx.py | 20 +++++---------------
 most_queue/theory/mmn_prty_pnz_approx.py | 20 +++++---------------
 3 files changed, 15 insertions(+), 49 deletions(-)

diff --git a/most_queue/theory/m_ph_n_prty.py b/most_queue/theory/m_ph_n_prty.py
index 674e1c8..f4dedf4 100755
--- a/most_queue/theory/m_ph_n_prty.py
+++ b/most_queue/theory/m_ph_n_prty.py
@@ -297,25 +297,11 @@ class m_ph_n_prty:
         """
         После окончания итераций находим значения вероятностей p по найденным х
         """
-        # version 1
-        p_sum = 0 + 0j
-        p0_max = 1.0
-        p0_min = 0.0
-        iter = 0
-        self.p_iteration_num_ = 0
-        while math.fabs(1.0 - p_sum.real) > 1e-6 and iter < self.max_iter:
-            iter += 1
-            p0_ = (p0_max + p0_min) / 2.0
-            p_sum = p0_
-            self.p[0] = p0_
-            for j in range(self.N - 1):
-                self.p[j + 1] = np.dot(self.p[j], self.x[j])
-                p_sum += self.p[j + 1]
-            if p_sum.real > 1.0:
-                p0_max = p0_
-            else:
-                p0_min = p0_
-        self.p_iteration_num_ = iter
+        self.p[0] = 1.0
+        for j in range(self.N - 1):
+            self.p[j + 1] = np.dot(self.p[j], self.x[j])
+        p_sum = sum(self.p)
+        self.p = [p / p_sum for p in self.p]
 
     def calculate_y(self):
         for i in range(self.N):
diff --git a/most_queue/theory/mmn3_pnz_cox_approx.py b/most_queue/theory/mmn3_pnz_cox_approx.py
index 4f2909b..f29a052 100755
--- a/most_queue/theory/mmn3_pnz_cox_approx.py
+++ b/most_queue/theory/mmn3_pnz_cox_approx.py
@@ -198,21 +198,11 @@ class Mmn3_pnz_cox:
         """
         После окончания итераций находим значения вероятностей p по найденным х
         """
-        # version 1
-        p_sum = 0 + 0j
-        p0_max = 1.0
-        p0_min = 0.0
-        while math.fabs(1.0 - p_sum.real) > 1e-6:
-            p0_ = (p0_max + p0_min) / 2.0
-            p_sum = p0_
-            self.p[0] = p0_
-            for j in range(self.N - 1):
-                self.p[j + 1] = np.dot(self.p[j], self.x[j])
-                p_sum += self.p[j + 1]
-            if p_sum > 1.0:
-                p0_max = p0_
-            else:
-                p0_min = p0_
+        self.p[0] = 1.0
+        for j in range(self.N - 1):
+            self.p[j + 1] = np.dot(self.p[j], self.x[j])
+        p_sum = sum(self.p)
+        self.p = [p / p_sum for p in self.p]
 
     def calculate_y(self):
         for i in range(self.N):
diff --git a/most_queue/theory/mmn_prty_pnz_approx.py b/most_queue/theory/mmn_prty_pnz_approx.py
index 4dece6b..6e17bae 100755
--- a/most_queue/theory/mmn_prty_pnz_approx.py
+++ b/most_queue/theory/mmn_prty_pnz_approx.py
@@ -123,21 +123,11 @@ class MMn_PRTY_PNZ_Cox_approx:
         """
         После окончания итераций находим значения вероятностей p по найденным х
         """
-        # version 1
-        p_sum = 0 + 0j
-        p0_max = 1.0
-        p0_min = 0.0
-        while math.fabs(1.0 - p_sum.real) > 1e-6:
-            p0_ = (p0_max + p0_min) / 2.0
-            p_sum = p0_
-            self.p[0] = p0_
-            for j in range(self.N - 1):
-                self.p[j + 1] = np.dot(self.p[j], self.x[j])
-                p_sum += self.p[j + 1]
-            if p_sum > 1.0:
-                p0_max = p0_
-            else:
-                p0_min = p0_
+        self.p[0] = 1.0
+        for j in range(self.N - 1):
+            self.p[j + 1] = np.dot(self.p[j], self.x[j])
+        p_sum = sum(self.p)
+        self.p = [p / p_sum for p in self.p]
 
     def calculate_y(self):
         for i in range(self.N):
-- 
2.43.0


From 1a807cffbce1d4b0dc987ee5c784570d9c2cb970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 61/74] fix: priority TT models: stop when all levels have
 converged, not when the largest x stops changing

---
 most_queue/theory/m_ph_n_prty.py         | 40 +++++-------------------
 most_queue/theory/mmn3_pnz_cox_approx.py | 20 +++++-------
 most_queue/theory/mmn_prty_pnz_approx.py | 20 +++++-------
 3 files changed, 24 insertions(+), 56 deletions(-)

diff --git a/most_queue/theory/m_ph_n_prty.py b/most_queue/theory/m_ph_n_prty.py
index f4dedf4..4b3fb28 100755
--- a/most_queue/theory/m_ph_n_prty.py
+++ b/most_queue/theory/m_ph_n_prty.py
@@ -323,32 +323,16 @@ class m_ph_n_prty:
         """
         self.b1[0][0, 0] = 0.0 + 0.0j
         self.b2[0][0, 0] = 0.0 + 0.0j
-        
-        is_ave = False
-
-
 
         iter = 0
         self.run_iterations_num_ = 0
-        if is_ave:
-            x_ave1 = 0.0 + 0.0j
-            x_ave2 = 0.0 + 0.0j
-            for i in range(self.N):
-                x_ave1 += self.x[i]
-            x_ave1 /= self.N
-        else:
-
-            x_ave1 = 0.0
-            x_ave2 = 0.0
-            for i in range(self.N):
-                if self.x[i].real > x_ave1 :
-                    x_ave1 = self.x[i].real
+        delta = self.e1
 
-        while math.fabs(x_ave2.real - x_ave1.real) >= self.e1 and iter < self.max_iter:
+        while delta >= self.e1 and iter < self.max_iter:
             if self.verbose:
                 print("Start numeric iteration {0:d}".format(iter))
             iter += 1
-            x_ave2 = x_ave1
+            x_prev = self.x[:self.N]
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
                 G = np.linalg.inv(self.D[j] - self.C[j])
@@ -379,19 +363,11 @@ class m_ph_n_prty:
             self.t[0] = np.dot(self.x[0], t1B1)
             self.t[0] = np.dot(self.t[0], np.linalg.inv(self.D[0] - self.C[0]))
 
-
-
-            if is_ave:
-                x_ave1 = 0.0 + 0.0j
-                for i in range(self.N):
-                    x_ave1 += self.x[i]
-                x_ave1 /= self.N
-
-            else:
-                x_ave1 = 0.0
-                for i in range(self.N):
-                    if self.x[i].real > x_ave1:
-                        x_ave1 = self.x[i].real
+            # наибольшее изменение x; маловероятные ярусы учитываются с весом,
+            # так как на практически пустых ярусах x определяется с погрешностью
+            p = np.cumprod([1.0] + [abs(x) for x in self.x[:self.N - 1]])
+            weights = np.minimum(1.0, 1e4 * p / p.sum())
+            delta = max(abs(self.x[i] - x_prev[i]) * weights[i] for i in range(self.N))
 
         self.run_iterations_num_ = iter
         self.calculate_p()
diff --git a/most_queue/theory/mmn3_pnz_cox_approx.py b/most_queue/theory/mmn3_pnz_cox_approx.py
index f29a052..8cb3152 100755
--- a/most_queue/theory/mmn3_pnz_cox_approx.py
+++ b/most_queue/theory/mmn3_pnz_cox_approx.py
@@ -224,14 +224,10 @@ class Mmn3_pnz_cox:
         """
         self.b1[0][0, 0] = 0
         self.b2[0][0, 0] = 0
-        x_max1 = 0
-        x_max2 = 0
         self.iter_num_ = 0
-        for i in range(self.N):
-            if self.x[i] > x_max1:
-                x_max1 = self.x[i]
-        while math.fabs(x_max2.real - x_max1.real) >= self.e1:
-            x_max2 = x_max1
+        delta = self.e1
+        while delta >= self.e1:
+            x_prev = self.x[:self.N]
             self.iter_num_ += 1
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
@@ -265,11 +261,11 @@ class Mmn3_pnz_cox:
             self.t[0] = np.dot(self.x[0], t1B1)
             self.t[0] = np.dot(self.t[0], np.linalg.inv(self.D[0] - self.C[0]))
 
-            x_max1 = 0
-
-            for i in range(self.N):
-                if self.x[i] > x_max1:
-                    x_max1 = self.x[i]
+            # наибольшее изменение x; маловероятные ярусы учитываются с весом,
+            # так как на практически пустых ярусах x определяется с погрешностью
+            p = np.cumprod([1.0] + [abs(x) for x in self.x[:self.N - 1]])
+            weights = np.minimum(1.0, 1e4 * p / p.sum())
+            delta = max(abs(self.x[i] - x_prev[i]) * weights[i] for i in range(self.N))
 
         self.calculate_p()
         self.calculate_y()
diff --git a/most_queue/theory/mmn_prty_pnz_approx.py b/most_queue/theory/mmn_prty_pnz_approx.py
index 6e17bae..0d3478f 100755
--- a/most_queue/theory/mmn_prty_pnz_approx.py
+++ b/most_queue/theory/mmn_prty_pnz_approx.py
@@ -149,14 +149,10 @@ class MMn_PRTY_PNZ_Cox_approx:
         """
         self.b1[0][0, 0] = 0
         self.b2[0][0, 0] = 0
-        x_max1 = 0
-        x_max2 = 0
         self.n_iter_ = 0
-        for i in range(self.N):
-            if self.x[i] > x_max1:
-                x_max1 = self.x[i]
-        while math.fabs(x_max2.real - x_max1.real) >= self.e1:
-            x_max2 = x_max1
+        delta = self.e1
+        while delta >= self.e1:
+            x_prev = self.x[:self.N]
             self.n_iter_ += 1
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
@@ -188,11 +184,11 @@ class MMn_PRTY_PNZ_Cox_approx:
             self.t[0] = np.dot(self.x[0], t1B1)
             self.t[0] = np.dot(self.t[0], np.linalg.inv(self.D[0] - self.C[0]))
 
-            x_max1 = 0
-
-            for i in range(self.N):
-                if self.x[i] > x_max1:
-                    x_max1 = self.x[i]
+            # наибольшее изменение x; маловероятные ярусы учитываются с весом,
+            # так как на практически пустых ярусах x определяется с погрешностью
+            p = np.cumprod([1.0] + [abs(x) for x in self.x[:self.N - 1]])
+            weights = np.minimum(1.0, 1e4 * p / p.sum())
+            delta = max(abs(self.x[i] - x_prev[i]) * weights[i] for i in range(self.N))
 
         self.calculate_p()
         self.calculate_y()
-- 
2.43.0


From 7d58641b1aaafa9822e10d741eb4a75d063b3e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 62/74] fix: Mmn3_pnz_cox: conditional moments of the busy
 periods

---
 most_queue/theory/mmn3_pnz_cox_approx.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/most_queue/theory/mmn3_pnz_cox_approx.py b/most_queue/theory/mmn3_pnz_cox_approx.py
index 8cb3152..24b3b27 100755
--- a/most_queue/theory/mmn3_pnz_cox_approx.py
+++ b/most_queue/theory/mmn3_pnz_cox_approx.py
@@ -143,12 +143,12 @@ class Mmn3_pnz_cox:
         for j in range(6):
             self.busy_periods.append([0, 0, 0])
         for r in range(3):
-            self.busy_periods[0][r] = pass_time.Gr[2][r][3, 1]
-            self.busy_periods[1][r] = pass_time.Gr[2][r][3, 0]
-            self.busy_periods[2][r] = pass_time.Gr[2][r][2, 1]
-            self.busy_periods[3][r] = pass_time.Gr[2][r][2, 0]
-            self.busy_periods[4][r] = pass_time.Gr[2][r][0, 1]
-            self.busy_periods[5][r] = pass_time.Gr[2][r][0, 0]
+            self.busy_periods[0][r] = pass_time.Z[2][r][3, 1]
+            self.busy_periods[1][r] = pass_time.Z[2][r][3, 0]
+            self.busy_periods[2][r] = pass_time.Z[2][r][2, 1]
+            self.busy_periods[3][r] = pass_time.Z[2][r][2, 0]
+            self.busy_periods[4][r] = pass_time.Z[2][r][0, 1]
+            self.busy_periods[5][r] = pass_time.Z[2][r][0, 0]
 
         for j in range(6):
             coev = math.sqrt(self.busy_periods[j][1].real - pow(self.busy_periods[j][0].real, 2)) / \
@@ -156,7 +156,7 @@ class Mmn3_pnz_cox:
             self.busy_periods_coevs.append(coev.real)
 
         # pp - список из шести вероятностей p2mm, p2mh, phmm, phmh, p2hm, p2hh
-        # берем моменты Gr, поскольку моменты Z - условные, с учетом pp
+        # моменты ПНЗ - условные (Z): переход в ПНЗ с данным исходом происходит с вероятностью pp
         self.pp.append(pass_time.G[2][3, 1])
         self.pp.append(pass_time.G[2][3, 0])
         self.pp.append(pass_time.G[2][2, 1])
-- 
2.43.0


From 6982f79838ddfa5dedfc4b39439d741a8241f90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:02 +0000
Subject: [PATCH 63/74] fix: Mmn3_pnz_cox: one free channel serves low jobs
 while a single high job is present

---
 most_queue/theory/mmn3_pnz_cox_approx.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/most_queue/theory/mmn3_pnz_cox_approx.py b/most_queue/theory/mmn3_pnz_cox_approx.py
index 24b3b27..ca4cf9c 100755
--- a/most_queue/theory/mmn3_pnz_cox_approx.py
+++ b/most_queue/theory/mmn3_pnz_cox_approx.py
@@ -321,9 +321,11 @@ class Mmn3_pnz_cox:
             output = self.B[2]
             return output
 
-        # Матрица B - диагональная. Количество ненулевых элементов = 2. Остальные 13 - нулевые
+        # Матрица B - диагональная. Количество ненулевых элементов = 3 (нет заявок классов M и H, одна M, одна H).
+        # Остальные 12 - нулевые
         output[0, 0] = min(2, num) * self.mu_L
         output[1, 1] = self.mu_L
+        output[2, 2] = self.mu_L
 
         return output
 
-- 
2.43.0


From a5f99fb9c64f0987084a84dfb016744a9d64332c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:35 +0000
Subject: [PATCH 64/74] fix: network_prty_calc: priority permutations of the
 nodes

---
 most_queue/theory/network_calc.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/most_queue/theory/network_calc.py b/most_queue/theory/network_calc.py
index d91ab1d..542b4e0 100755
--- a/most_queue/theory/network_calc.py
+++ b/most_queue/theory/network_calc.py
@@ -119,12 +119,12 @@ def network_prty_calc(R, b, n, L, prty, nodes_prty):
     l_order = []
 
     for m in range(nodes):
-        b_order.append([])
-        l_order.append([])
+        b_order.append([None] * k_num)
+        l_order.append([0.0] * k_num)
         for k in range(k_num):
             order = nodes_prty[m][k]
-            b_order[m].append(b[order][m])
-            l_order[m].append(intensities[order][m])
+            b_order[m][order] = b[k][m]
+            l_order[m][order] = intensities[k][m]
 
     res['v_node'] = []
     for i in range(nodes):
@@ -140,9 +140,8 @@ def network_prty_calc(R, b, n, L, prty, nodes_prty):
             b_sr[j] /= k_num
 
         res['loads'][i] = l_sum * b_sr[0] / n[i]
-        res['v_node'].append(get_v_prty_invar(l_order[i], b_order[i], n[i], prty[i]))
-        for k in range(k_num):
-            res['v_node'][i][nodes_prty[i][k]] = res['v_node'][i][k]
+        v_order = get_v_prty_invar(l_order[i], b_order[i], n[i], prty[i])
+        res['v_node'].append([v_order[nodes_prty[i][k]] for k in range(k_num)])
 
     h = 0.0001
     s = [0.0] * 4
-- 
2.43.0


From a2e010e84aaa4b3ce7bf0818b3dbfd8df3d83f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:35 +0000
Subject: [PATCH 65/74] fix: network_prty_calc: node loads weighted by the
 intensities of the classes

---
 most_queue/theory/network_calc.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/most_queue/theory/network_calc.py b/most_queue/theory/network_calc.py
index 542b4e0..5be5fb7 100755
--- a/most_queue/theory/network_calc.py
+++ b/most_queue/theory/network_calc.py
@@ -128,18 +128,9 @@ def network_prty_calc(R, b, n, L, prty, nodes_prty):
 
     res['v_node'] = []
     for i in range(nodes):
-        l_sum = 0
         for k in range(k_num):
-            l_sum += l_order[i][k]
+            res['loads'][i] += l_order[i][k] * b_order[i][k][0] / n[i]
 
-        b_sr = [0.0] * 4
-
-        for j in range(4):
-            for k in range(k_num):
-                b_sr[j] += b_order[i][k][j]
-            b_sr[j] /= k_num
-
-        res['loads'][i] = l_sum * b_sr[0] / n[i]
         v_order = get_v_prty_invar(l_order[i], b_order[i], n[i], prty[i])
         res['v_node'].append([v_order[nodes_prty[i][k]] for k in range(k_num)])
 
-- 
2.43.0


From ccbd1f1cbbecde7b0101aedf0547ad00b2ed4b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:22 +0000
Subject: [PATCH 66/74] fix: network_prty_calc: exact moments of the sum over
 the route instead of numerical differentiation with a fixed step away from
 zero

---
 most_queue/theory/network_calc.py | 42 ++++++++-----------------------
 1 file changed, 11 insertions(+), 31 deletions(-)

diff --git a/most_queue/theory/network_calc.py b/most_queue/theory/network_calc.py
index 5be5fb7..3d22388 100755
--- a/most_queue/theory/network_calc.py
+++ b/most_queue/theory/network_calc.py
@@ -2,7 +2,6 @@ import math
 
 import numpy as np
 
-from most_queue.theory.utils.diff5dots import diff5dots
 from most_queue.theory.priority_calc import get_v_prty_invar
 from most_queue.rand_distribution import Gamma
 
@@ -134,47 +133,28 @@ def network_prty_calc(R, b, n, L, prty, nodes_prty):
         v_order = get_v_prty_invar(l_order[i], b_order[i], n[i], prty[i])
         res['v_node'].append([v_order[nodes_prty[i][k]] for k in range(k_num)])
 
-    h = 0.0001
-    s = [0.0] * 4
-    for i in range(4):
-        s[i] = h * (i + 1)
-
     for k in range(k_num):
-        I = np.zeros((nodes, nodes))
-        for i in range(nodes):
-            for j in range(nodes):
-                if i == j:
-                    I[i, j] = 1
-        N = np.zeros((nodes, nodes))
         P = np.zeros((1, nodes))
         for i in range(nodes):
             P[0, i] = R[k][0, i]
-        T = np.zeros((nodes, 1))
-        for i in range(nodes):
-            T[i, 0] = R[k][i + 1, nodes]
         Q = np.zeros((nodes, nodes))
 
         for i in range(nodes):
             for j in range(nodes):
                 Q[i, j] = R[k][i + 1, j]
 
-        gamma_mu_alpha = []
+        # моменты времени пребывания в узлах; третий - по гамма-аппроксимации
+        t = np.zeros((3, nodes))
         for i in range(nodes):
-            gamma_mu_alpha.append(Gamma.get_mu_alpha([res['v_node'][i][k][0], res['v_node'][i][k][1]]))
+            gamma_mu_alpha = Gamma.get_mu_alpha([res['v_node'][i][k][0], res['v_node'][i][k][1]])
+            t[:, i] = Gamma.calc_theory_moments(*gamma_mu_alpha, 3)
 
-        g_PLS = []
-        for i in range(4):
-            for j in range(nodes):
-                N[j, j] = Gamma.get_pls(*gamma_mu_alpha[j], s[i])
-            G = np.dot(N, Q)
-            FF = I - G
-            F = np.linalg.inv(FF)
-            F = np.dot(P, np.dot(F, np.dot(N, T)))
-            g_PLS.append(F[0, 0])
-
-        res['v'].append([])
-        res['v'][k] = diff5dots(g_PLS, h)
-        res['v'][k][0] = -res['v'][k][0]
-        res['v'][k][2] = -res['v'][k][2]
+        # моменты времени от поступления в узел до выхода из сети
+        F = np.linalg.inv(np.eye(nodes) - Q)
+        m1 = np.dot(F, t[0])
+        m2 = np.dot(F, t[1] + 2 * t[0] * np.dot(Q, m1))
+        m3 = np.dot(F, t[2] + 3 * t[1] * np.dot(Q, m1) + 3 * t[0] * np.dot(Q, m2))
+
+        res['v'].append([np.dot(P, m)[0] for m in (m1, m2, m3)])
 
     return res
-- 
2.43.0


From 02c46e165fbb5b237086448fea9be775f6f8a5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:38 +0000
Subject: [PATCH 67/74] fix: network_prty_calc: nodes that no class visits

---
 most_queue/theory/network_calc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/most_queue/theory/network_calc.py b/most_queue/theory/network_calc.py
index 3d22388..e88edc2 100755
--- a/most_queue/theory/network_calc.py
+++ b/most_queue/theory/network_calc.py
@@ -130,7 +130,10 @@ def network_prty_calc(R, b, n, L, prty, nodes_prty):
         for k in range(k_num):
             res['loads'][i] += l_order[i][k] * b_order[i][k][0] / n[i]
 
-        v_order = get_v_prty_invar(l_order[i], b_order[i], n[i], prty[i])
+        if sum(l_order[i]) > 0:
+            v_order = get_v_prty_invar(l_order[i], b_order[i], n[i], prty[i])
+        else:  # ни один класс не проходит через узел
+            v_order = [list(moments[:3]) for moments in b_order[i]]
         res['v_node'].append([v_order[nodes_prty[i][k]] for k in range(k_num)])
 
     for k in range(k_num):
-- 
2.43.0


From 168a4cb4bf8c6e581277ff1e097c8dfe5720c08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:08 +0000
Subject: [PATCH 68/74] fix: priority formulas: highest classes without
 arrivals

---
 most_queue/theory/priority_calc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 4395298..96ceb62 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -219,7 +219,8 @@ def calc_pr1(l, b, num=3):
             summ = 0
             for i in range(j + 1):
                 summ += l[i] * pi_j_i[j][i][moment]
-            pi_j[j][moment] = summ / L[j]
+            # если заявок этих классов нет, ПНЗ - время обслуживания случайной заявки класса
+            pi_j[j][moment] = summ / L[j] if L[j] > 0 else pi_j_i[j][j][moment]
 
         w.append([0.0] * (num + 1))
         w[j][0] = 1
@@ -344,7 +345,7 @@ def get_w_np(l, b, num=3):
         la = sum(l[:j])
         summ = np.zeros(size)
         summ[1] = 1.0
-        if j != 0:
+        if la > 0:
             b_a = [sum(l[i] * b[i][m] for i in range(j)) / la for m in range(num + 1)]
             nu_a = ppnz_calc(la, b_a, num + 1)
             for m in range(1, size):
-- 
2.43.0


From f0e1269121e3a14afa36a72f71f3905e477f352d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:35 +0000
Subject: [PATCH 69/74] fix: fork-join: moments of a maximum were valid only
 for times near 1 (fixed quadrature nodes) and zero for a zero start delay

---
 most_queue/theory/fj_calc.py | 88 ++++++++++++------------------------
 1 file changed, 29 insertions(+), 59 deletions(-)

diff --git a/most_queue/theory/fj_calc.py b/most_queue/theory/fj_calc.py
index 02f97ec..3fa6595 100755
--- a/most_queue/theory/fj_calc.py
+++ b/most_queue/theory/fj_calc.py
@@ -39,53 +39,21 @@ def getMaxMoments(n, b, num=None):
     else:
         num = len(b)
 
-    f = [0] * num
     variance = b[1] - b[0] * b[0]
     coev = math.sqrt(variance) / b[0]
-    a_big = [1.37793470540E-1, 7.29454549503E-1, 1.808342901740E0,
-             3.401433697855E0, 5.552496140064E0, 8.330152746764E0,
-             1.1843785837900E1, 1.6279257831378E1, 2.1996585811981E1,
-             2.9920697012274E1]
-    g = [3.08441115765E-1, 4.01119929155E-1, 2.18068287612E-1,
-         6.20874560987E-2, 9.50151697518E-3, 7.53008388588E-4,
-         2.82592334960E-5, 4.24931398496E-7, 1.83956482398E-9,
-         9.91182721961E-13]
-
     if len(b) >= 3:
 
         if coev < 1:
             params = Erlang_dist.get_params(b)
-
-            for j in range(10):
-                p = g[j] * dfr_Erl_Mult(params, a_big[j],
-                                        n) * math.exp(a_big[j])
-                f[0] += p
-                for i in range(1, num):
-                    p = p * a_big[j]
-                    f[i] += p
+            tail = dfr_Erl_Mult
         else:
             params = H2_dist.get_params(b)
-
-            for j in range(10):
-                p = g[j] * dfr_H2_Mult(params, a_big[j],
-                                       n) * math.exp(a_big[j])
-                f[0] += p
-                for i in range(1, num):
-                    p = p * a_big[j]
-                    f[i] += p
+            tail = dfr_H2_Mult
     else:
         params = Gamma.get_mu_alpha(b)
+        tail = dfr_Gamma_Mult
 
-        for j in range(10):
-            p = g[j] * dfr_Gamma_Mult(params, a_big[j], n) * math.exp(a_big[j])
-            f[0] += p
-            for i in range(1, num):
-                p = p * a_big[j]
-                f[i] += p
-
-    for i in range(num - 1):
-        f[i + 1] *= (i + 2)
-    return f
+    return moments_by_tail(lambda t: tail(params, t, n), b[0], num)
 
 
 def getMaxMomentsDelta(n, b, num=3, delta=0):
@@ -96,34 +64,36 @@ def getMaxMomentsDelta(n, b, num=3, delta=0):
         :param num: число нач. моментов СВ
         :return: начальные моменты максимума СВ.
         """
-    f = [0] * num
-    a_big = [1.37793470540E-1, 7.29454549503E-1, 1.808342901740E0,
-             3.401433697855E0, 5.552496140064E0, 8.330152746764E0,
-             1.1843785837900E1, 1.6279257831378E1, 2.1996585811981E1,
-             2.9920697012274E1]
-    g = [3.08441115765E-1, 4.01119929155E-1, 2.18068287612E-1,
-         6.20874560987E-2, 9.50151697518E-3, 7.53008388588E-4,
-         2.82592334960E-5, 4.24931398496E-7, 1.83956482398E-9,
-         9.91182721961E-13]
-
-    if delta:
-        params = Gamma.get_mu_alpha(b)
+    params = Gamma.get_mu_alpha(b)
 
-        for j in range(10):
-            p = g[j] * dfr_Gamma_Mult(params, a_big[j],
-                                      n, delta) * math.exp(a_big[j])
-            f[0] += p
-            for i in range(1, num):
-                p = p * a_big[j]
-                f[i] += p
+    return moments_by_tail(lambda t: dfr_Gamma_Mult(params, t, n, delta), b[0], num)
 
-        for i in range(num - 1):
-            f[i + 1] *= (i + 2)
 
-    return f
+# вспомогательные функции:
+
+def moments_by_tail(tail, scale, num, eps=1e-12):
+    """
+    Начальные моменты неотрицательной СВ по дополнительной функции распределения:
+    интегралы от k * t^(k-1) * tail(t) по отрезкам удваивающейся длины.
+    :param tail: дополнительная функция распределения
+    :param scale: характерное значение СВ (единица измерения времени может быть любой)
+    :param num: число моментов
+    :param eps: относительная точность, определяющая верхний предел интегрирования
+    """
+    x, weights = np.polynomial.legendre.leggauss(20)
+    f = [0.0] * num
+    a, b = 0.0, scale / 1024.0
+    for _ in range(200):
+        t = 0.5 * (b - a) * x + 0.5 * (a + b)
+        p = 0.5 * (b - a) * weights * np.array([tail(t_i) for t_i in t])
+        for i in range(num):
+            f[i] += np.dot(p, (i + 1) * t ** i)
+        if b > scale and tail(b) * b ** num < eps * f[num - 1]:
+            break
+        a, b = b, 2.0 * b
 
+    return f
 
-# вспомогательные функции:
 
 def dfr_H2_Mult(params, t, n, delta=None):
     res = 1.0
-- 
2.43.0


From 48670b6f1016d198652680a239b0cd6298675985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:35 +0000
Subject: [PATCH 70/74] fix: get_v1_varma_nk: sign of the denominator and a
 misplaced bracket

---
 most_queue/theory/fj_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/fj_calc.py b/most_queue/theory/fj_calc.py
index 3fa6595..c024df3 100755
--- a/most_queue/theory/fj_calc.py
+++ b/most_queue/theory/fj_calc.py
@@ -213,7 +213,7 @@ def get_v1_varma_nk(l, mu, n, k):
 
     for i in range(k, n + 1):
         summ += get_W(n, k, i) * (get_Hn(i) +
-                                  (get_V(i) - get_Hn(i) * ro)) / (l - mu)
+                                  (get_V(i) - get_Hn(i)) * ro) / (mu - l)
 
     return summ
 
-- 
2.43.0


From ddd82d2a3944a909454527fa4fe766724d8fa2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:25 +0000
Subject: [PATCH 71/74] fix: student_stat: table rows off by one for 20..65
 samples and a misprinted value for 80

---
 most_queue/theory/utils/student_stat.py | 30 ++++++++++++-------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/most_queue/theory/utils/student_stat.py b/most_queue/theory/utils/student_stat.py
index d9ec551..96711ca 100755
--- a/most_queue/theory/utils/student_stat.py
+++ b/most_queue/theory/utils/student_stat.py
@@ -22,7 +22,7 @@ def get_ty(gamma, n):
                  2.26, 2.23, 2.20, 2.18, 2.16,
                  2.15, 2.13, 2.12, 2.11, 2.10,
                  2.093, 2.064, 2.045, 2.032, 2.023,
-                 2.016, 2.009, 2.001, 1.996, 1.001,
+                 2.016, 2.009, 2.001, 1.996, 1.990,
                  1.987, 1.984, 1.980, 1.960]
     gamma_099 = [4.60, 4.03, 3.71, 3.50, 3.36,
                  3.25, 3.17, 3.11, 3.06, 3.01,
@@ -46,6 +46,14 @@ def get_ty(gamma, n):
             return gamma_0999[n - 5]
 
     elif n >= 20 and n < 23:
+        if gamma == 0.95:
+            return gamma_095[15]
+        if gamma == 0.99:
+            return gamma_099[15]
+        if gamma == 0.999:
+            return gamma_0999[15]
+
+    elif n >= 23 and n < 28:
         if gamma == 0.95:
             return gamma_095[16]
         if gamma == 0.99:
@@ -53,7 +61,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[16]
 
-    elif n >= 23 and n < 28:
+    elif n >= 28 and n < 33:
         if gamma == 0.95:
             return gamma_095[17]
         if gamma == 0.99:
@@ -61,7 +69,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[17]
 
-    elif n >= 28 and n < 33:
+    elif n >= 33 and n < 38:
         if gamma == 0.95:
             return gamma_095[18]
         if gamma == 0.99:
@@ -69,7 +77,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[18]
 
-    elif n >= 33 and n < 38:
+    elif n >= 38 and n < 43:
         if gamma == 0.95:
             return gamma_095[19]
         if gamma == 0.99:
@@ -77,7 +85,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[19]
 
-    elif n >= 38 and n < 43:
+    elif n >= 43 and n < 48:
         if gamma == 0.95:
             return gamma_095[20]
         if gamma == 0.99:
@@ -85,7 +93,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[20]
 
-    elif n >= 43 and n < 48:
+    elif n >= 48 and n < 56:
         if gamma == 0.95:
             return gamma_095[21]
         if gamma == 0.99:
@@ -93,7 +101,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[21]
 
-    elif n >= 48 and n < 56:
+    elif n >= 56 and n < 66:
         if gamma == 0.95:
             return gamma_095[22]
         if gamma == 0.99:
@@ -101,14 +109,6 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[22]
 
-    elif n >= 56 and n < 66:
-        if gamma == 0.95:
-            return gamma_095[23]
-        if gamma == 0.99:
-            return gamma_099[23]
-        if gamma == 0.999:
-            return gamma_0999[23]
-
     elif n >= 66 and n < 76:
         if gamma == 0.95:
             return gamma_095[23]
-- 
2.43.0


From 71e1237fb245b5b631b4b9bd144eb55feacb96fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:23 +0000
Subject: [PATCH 72/74] fix: get_q_Pareto: cancellation when many arrivals are
 expected per service

---
 most_queue/theory/utils/q_poisson_arrival_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/utils/q_poisson_arrival_calc.py b/most_queue/theory/utils/q_poisson_arrival_calc.py
index 5cdde05..48db02e 100755
--- a/most_queue/theory/utils/q_poisson_arrival_calc.py
+++ b/most_queue/theory/utils/q_poisson_arrival_calc.py
@@ -49,7 +49,7 @@ def get_q_Pareto(l, alpha, K, num=100):
     q = [0.0] * num
     gammas = [0.0] * num
     z = l * K
-    gammas[0] = Gamma.get_minus_gamma(alpha) - Gamma.get_gamma_small(-alpha, z)
+    gammas[0] = Gamma.get_gamma_incomplete(-alpha, z)
 
     for j in range(1, num):
         gammas[j] = (j - alpha - 1) * gammas[j - 1] + pow(z, j - alpha - 1) * math.exp(-z)
-- 
2.43.0


From bd1035f727b7af4ba89ad186fa4b85c3b2ea93de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 73/74] fix: H2 and Cox fits at coefficients of variation 1 and
 0.7071 shifted the mean (M/E2/5 queue 40% too short at load 0.9)

---
 most_queue/rand_distribution.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 7e4beb4..1986725 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -281,13 +281,13 @@ class H2_dist:
         if is_fitting:
             # проверка на близость распределения к экспоненциальному
             coev = cmath.sqrt(moments[1] - moments[0] ** 2) / moments[0]
-            if math.fabs(coev.real - 1.0) < ee:
+            if abs(coev - 1.0) < ee:
                 if verbose:
                     print("H2 is close to Exp. Multiply moments to (1+je), coev = {0:5.3f},"
                           " e = {1:5.3f}.".format(coev, e))
                 f = []
                 for i in range(len(moments)):
-                    f.append(moments[i] * complex(1, (i + 1) * e))
+                    f.append(moments[i] * complex(1, i * (i + 1) / 2 * e))
 
                 return H2_dist.get_params_clx(f, verbose=verbose, ee=ee, e=e * (1.0 + e_percent), e_percent=e_percent,
                                               is_fitting=is_fitting)
@@ -295,16 +295,13 @@ class H2_dist:
             coev = cmath.sqrt(moments[1] - moments[0] ** 2) / moments[0]
 
             # проверка на близость распределения к Эрланга 2-го порядка
-            if math.fabs(coev.real - 1.0 / math.sqrt(2.0)) < ee:
+            if abs(coev - 1.0 / math.sqrt(2.0)) < ee:
                 if verbose:
                     print("H2 is close to E2. Multiply moments to (1+je), coev = {0:5.3f},"
                           " e = {1:5.3f}.".format(coev, e))
                 f = []
                 for i in range(len(moments)):
-                    # if i == 0:
-                    #     f.append(moments[0])
-                    # else:
-                    f.append(moments[i] * complex(1, (i + 1) * e))
+                    f.append(moments[i] * complex(1, i * (i + 1) / 2 * e))
                 return H2_dist.get_params_clx(f, verbose=verbose, ee=ee, e=e * (1.0 + e_percent), e_percent=e_percent,
                                               is_fitting=is_fitting)
 
@@ -433,7 +430,7 @@ class Cox_dist:
         return f
 
     @staticmethod
-    def get_params(moments, ee=0.001, e=0.5, e_percent=0.25, verbose=True, is_fitting=True):
+    def get_params(moments, ee=0.001, e=0.02, e_percent=0.25, verbose=True, is_fitting=True):
         """
         Метод вычисляет параметры распределения Кокса 2-го порядка по трем заданным начальным моментам [moments]
         Возвращает список с параметрами [y1, mu1, mu2]
@@ -449,7 +446,7 @@ class Cox_dist:
                           " e = {1:5.3f}.".format(coev, e))
                 f = []
                 for i in range(len(moments)):
-                    f.append(moments[i] * complex(1, (i + 1) * e))
+                    f.append(moments[i] * complex(1, i * (i + 1) / 2 * e))
 
                 return Cox_dist.get_params(f, verbose=verbose, ee=ee, e=e * (1.0 + e_percent), e_percent=e_percent,
                                            is_fitting=is_fitting)
@@ -463,10 +460,7 @@ class Cox_dist:
                           " e = {1:5.3f}.".format(coev, e))
                 f = []
                 for i in range(len(moments)):
-                    # if i == 0:
-                    #     f.append(moments[0])
-                    # else:
-                    f.append(moments[i] * complex(1, (i + 1) * e))
+                    f.append(moments[i] * complex(1, i * (i + 1) / 2 * e))
                 return Cox_dist.get_params(f, verbose=verbose, ee=ee, e=e * (1.0 + e_percent), e_percent=e_percent,
                                            is_fitting=is_fitting)
 
-- 
2.43.0


From 14e71c7b3ec4ef7ef05d079a4b72fd61cc03348a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:42 +0000
Subject: [PATCH 74/74] fix: incomplete gamma function at or near negative
 integers (Pareto with integer exponent: division by zero or all digits lost)

---
 most_queue/rand_distribution.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 1986725..7a5a928 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -885,6 +885,16 @@ class Gamma:
 
     @staticmethod
     def get_gamma_incomplete(x, z, e=1e-12):
+        if x <= 0.5 and z <= 1:
+            # both terms of the difference below are infinite for x = 0, -1, -2, ...;
+            # recurrence from the nearest x in [-0.5, 0.5]
+            k = round(x)
+            x -= k
+            gamma = Gamma.get_gamma_incomplete_near_zero(x, z, e)
+            for i in range(-k):
+                x -= 1.0
+                gamma = (gamma - pow(z, x) * math.exp(-z)) / x
+            return gamma
         if z <= max(1, x):
             return Gamma.get_gamma(x) - Gamma.get_gamma_small(x, z, e)
         # continued fraction: the difference above loses all digits for large z
@@ -903,6 +913,25 @@ class Gamma:
                 break
         return math.exp(x * math.log(z) - z) * h
 
+    @staticmethod
+    def get_gamma_incomplete_near_zero(x, z, e=1e-12):
+        # (Г(1 + x) - z^x) / x - z^x sum (-z)^n / (n! (x + n)), n > 0
+        if math.fabs(x) < 0.01:
+            lgamma = -0.5772156649015329 * x + math.fsum(sp.zeta(n) * pow(-x, n) / n for n in range(2, 10))
+        else:
+            lgamma = math.lgamma(1.0 + x)
+        if x == 0:
+            summ = -0.5772156649015329 - math.log(z)
+        else:
+            summ = (math.expm1(lgamma) - math.expm1(x * math.log(z))) / x
+        elem = -pow(z, x)
+        for n in range(1, 100):
+            elem *= -z / n
+            summ += elem / (x + n)
+            if math.fabs(elem) < e * math.fabs(summ):
+                break
+        return summ
+
     @staticmethod
     def get_gamma_small(x, z, e=1e-12):
         # gamma(x, z) = z^x exp(-z) sum z^n / (x (x + 1) ... (x + n)), no cancellation for large z
-- 
2.43.0

